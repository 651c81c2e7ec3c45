"""Child lists and parent links (C04)."""
import z3
from .model import *
from . import theory as TH
from .theory import HEAPS, HeapS, sel
from .world import Contract, Ctx, World
from .engine import T, SliceV, Cand, forall_pat, has_ite
from . import comp, trav, gram, tags, names
from .gram import isin, isin_axioms, see

SV = z3.StringVal


inspos = z3.Function("insert.position", Int, Int, Int)   # list.insert(i, x), length n
pyidx = z3.Function("index.position", Int, Int, Int)     # list[i], length n


def index_axioms():
    i, n = z3.Ints("i!ix n!ix")
    return [z3.ForAll([i, n], inspos(i, n) == z3.If(
        i < 0, z3.If(i + n < 0, 0, i + n), z3.If(i > n, n, i)), patterns=[inspos(i, n)]),
        z3.ForAll([i, n], pyidx(i, n) == z3.If(i < 0, i + n, i), patterns=[pyidx(i, n)])]


def all_seq(q, n, body, lo=0, name="j!kd"):
    """body(j, q[j]) for lo <= j < n"""
    j = z3.Int(name)
    e = sat_(q, j)
    return forall_pat([j], z3.Implies(z3.And(lo <= j, j < n), body(j, e)), e)


def pairs(q, x, n, body):
    """body(q[j], x[j]) for j < n"""
    j = z3.Int("j!pr")
    ps = [p for p in (sat_(q, j), sat_(x, j)) if not has_ite(p)]
    f = z3.Implies(z3.And(0 <= j, j < n), body(sat_(q, j), sat_(x, j)))
    return z3.ForAll([j], f, patterns=ps) if ps else z3.ForAll([j], f)


def each(q, n, body):
    """body(k) of every known or unknown part of a sequence term"""
    return all_seq(q, n, lambda j, e: body(e))


class KidsContract(Contract):
    """of a ChildList; `owner` is the expansion whose children it lists"""
    cls = "ChildList"
    params = ("self",)
    types = {"self": "@ChildList"}

    def reads(self, c):
        return [c.old("_list", c.ref("self")), c.old("_expansion", c.ref("self"))]

    def owner(self, c):
        return c.old("_expansion", c.ref("self"))

    def parents(self, c):
        """the parents that are set in loops"""
        return [self.owner(c), NONE]

    def lst(self, c):
        return V.r(c.old("_list", c.ref("self")))

    def before(self, c):
        return c.eng.items(c.pre, self.lst(c))

    def after(self, c):
        return c.eng.items(c.post, self.lst(c))

    def requires(self, c):
        q, o = self.before(c), self.owner(c)
        return [("the elements have the expansion as their parent", each(
            q, slen(q), lambda e: z3.And(
                self.w.isref(e, "Expansion"), V.r(e) > 0, V.r(e) < c.n0,
                c.old("_parent", V.r(e)) == o)))]

    def linked(self, c, q):
        o = self.owner(c)
        return ("every expansion in the list has the expansion as its parent",
                each(q, slen(q), lambda e: c.new("_parent", V.r(e)) == o))

    def same(self, c):
        """nothing happened"""
        q = z3.Int("q!sm")
        a, b = c.eng.arr(c.post, "_parent"), c.eng.arr(c.pre, "_parent")
        return [("the list stays", self.after(c) == self.before(c)),
                ("all parents stay", z3.BoolVal(True) if a.eq(b) else z3.ForAll(
                    [q], z3.Implies(z3.And(0 < q, q < c.n0), a[q] == b[q]),
                    patterns=[a[q]]))]

    def others(self, c, *seqs):
        """expansions that are in none of the sequences keep their parent"""
        q = z3.Int("q!ot")
        a, b = c.eng.arr(c.post, "_parent"), c.eng.arr(c.pre, "_parent")
        return ("all other expansions keep their parent", z3.ForAll([q], z3.Implies(
            z3.And([0 < q, q < c.n0] + [z3.Not(isin(s, slen(s), V.R(q)))
                                        for s in seqs]),
            a[q] == b[q]), patterns=[a[q]]))


MADE = [
    ("strings become new literals", lambda c, a, x: z3.Implies(V.is_S(a), z3.And(
        V.is_R(x), V.r(x) >= c.n0, typ(V.r(x)) == c.eng.prog.classes["Literal"].id))),
    ("with the text", lambda c, a, x: z3.Implies(V.is_S(a), c.new(
        "_text", V.r(x)) == a)),
    ("in lower case", lambda c, a, x: z3.Implies(V.is_S(a), c.new(
        "_case_sensitive", V.r(x)) == vb(False))),
    ("expansions stay", lambda c, a, x: z3.Or(V.is_S(a), x == a)),
]


def made(c, a, x):
    """x is the element that a stands for: an expansion itself, a string a literal"""
    return z3.And([k(c, a, x) for n, k in MADE])


def good(w, a):
    return z3.Or(V.is_S(a), w.isref(a, "Expansion"))


def adopt_cands(ct, c, ctx):
    """loops that convert the elements of a sequence or set their parents"""
    out = []
    eng = c.eng
    seq = ctx.seq
    if seq is None:
        return out
    ws = []
    for w in ctx.writes.get("items", []):
        w = simp(w)
        if eng.loop_invariant_term(w, ctx) and not any(w.eq(x) for x in ws):
            ws.append(w)
    for w in ws:
        if known_items(eng.items(ctx.st0, w)) != []:
            continue

        def cnt(e, s0, s, i, q, w=w):
            return slen(e.items(s, w)) == i
        out.append(Cand("length of list@%s" % w, cnt))

        def old(e, s0, s, i, q, w=w):
            x = e.items(s, w)
            if known_items(x) == []:
                return z3.BoolVal(True)
            return each(x, slen(x), lambda y: z3.Implies(
                V.is_R(y), z3.And(V.r(y) > 0, V.r(y) < s.next)))
        out.append(Cand("elements of list@%s exist" % w, old))
        for nm, k in MADE:
            def f(e, s0, s, i, q, w=w, k=k):
                x = e.items(s, w)
                if known_items(x) == []:
                    return z3.BoolVal(True)
                c2 = Ctx(e, c.pre, s, c.a)
                return pairs(q, x, i, lambda a, y: k(c2, a, y))
            out.append(Cand("list@%s: %s" % (w, nm), f))

        def g(e, s0, s, i, q, w=w):
            x = e.items(s, w)
            if known_items(x) == []:
                return z3.BoolVal(True)
            j, k = z3.Ints("j!df k!df")
            return z3.ForAll([j, k], z3.Implies(z3.And(
                0 <= j, j < k, k < slen(x), V.is_S(sat_(q, k))),
                sat_(x, j) != sat_(x, k)), patterns=[z3.MultiPattern(
                    sat_(x, j), sat_(x, k))])
        out.append(Cand("new literals of list@%s differ" % w, g))
    if "_parent" in ctx.fields:
        for w in ws:
            if known_items(eng.items(ctx.st0, w)) != []:
                continue
            for v in ct.parents(c):
                def h(e, s0, s, i, q, w=w, v=v):
                    x, p = e.items(s, w), e.arr(s, "_parent")
                    if known_items(x) == []:
                        return z3.BoolVal(True)
                    return all_seq(x, slen(x), lambda j, y: p[V.r(y)] == v)
                out.append(Cand("parent of list@%s is %s" % (w, v), h))
        for v in ct.parents(c):
            def m(e, s0, s, i, q, v=v):
                p, p0 = e.arr(s, "_parent"), e.arr(s0, "_parent")
                r = z3.Int("q!pc")
                return z3.ForAll([r], z3.Implies(z3.And(0 < r, r < s0.next), p[r] ==
                                 z3.If(isin(q, i, V.R(r)), v, p0[r])), patterns=[p[r]])
            out.append(Cand("parent = %s for the elements so far" % v, m))
    return out


class ParentSet(Contract):
    by_body = True
    cls, member, kind = "Expansion", "parent", "set"
    params = ("self", "value")
    types = {"self": "@Expansion"}
    raises = ("TypeError",)
    touch = {"_parent": lambda c: [c.ref("self")], "_matcher_element": None}
    raising_cases = ("a string", "an integer", "a float", "a boolean")

    def cases(self):
        return names.kinds_of_value(lambda: self.w, "value")

    def ok(self, c):
        v = c.a["value"]
        return z3.Or(v == NONE, self.w.isref(v, "Expansion"))

    def ensures(self, c):
        return [("only expansions and None are parents", self.ok(c)),
                ("the new parent", c.new("_parent", c.ref("self")) == c.a["value"])]

    def ensures_exc(self, c):
        return [("raises only for something else", z3.Not(self.ok(c))),
                ("the parent stays", c.new("_parent", c.ref("self")) ==
                 c.old("_parent", c.ref("self")))]


class Adds(KidsContract):
    """append and insert: one new element e at position `at`"""
    raises = ("TypeError",)
    allocates = True
    ret_type = "None"
    value = "e"
    raising_cases = names.NameSet.raising_cases[:-1]
    touch = {"_parent": None, "_matcher_element": None,
             "items": lambda c: [V.r(c.old("_list", c.ref("self")))]}

    def cases(self):
        return names.kinds_of_value(lambda: self.w, self.value)

    def at(self, c):
        return slen(self.before(c))

    def ensures(self, c):
        p, q = self.before(c), self.after(c)
        k, v = self.at(c), c.a[self.value]
        x = sat_(q, k)
        return [("only expansions and strings are accepted", good(self.w, v)),
                ("the element is in its place", 
                    seq_eq(q, Cat(Sub(p, 0, k), Unit(x), Sub(p, k, slen(p) - k)))),
                ("strings become literals", made(c, v, x)),
                self.linked(c, q),
                self.others(c, Unit(v)), ("nothing is returned", c.ret == NONE)]

    def ensures_exc(self, c):
        return [("raises only for something else", z3.Not(
            good(self.w, c.a[self.value])))] + self.same(c)


class Append(Adds):
    member = "append"
    params = ("self", "e")


class Insert(Adds):
    member = "insert"
    params = ("self", "index", "e")
    types = {"self": "@ChildList", "index": "I"}

    def at(self, c):
        return inspos(V.i(c.a["index"]), slen(self.before(c)))


class Distinct(KidsContract):
    """operations that take elements away: no expansion is in the list twice"""

    def requires(self, c):
        q = self.before(c)
        j, k = z3.Ints("j!ds k!ds")
        return KidsContract.requires(self, c) + [(
            "no expansion is in the list twice", z3.ForAll([j, k], z3.Implies(z3.And(
                0 <= j, j < k, k < slen(q)), sat_(q, j) != sat_(q, k)),
                patterns=[z3.MultiPattern(sat_(q, j), sat_(q, k))]))]


class Pop(Distinct):
    member = "pop"
    params = ("self", "index")
    defaults = {"index": -1}
    types = {"self": "@ChildList", "index": "I"}
    raises = ("IndexError",)
    ret_type = "@Expansion"
    touch = {"_parent": None, "_matcher_element": None,
             "items": lambda c: [V.r(c.old("_list", c.ref("self")))]}

    def k(self, c):
        return pyidx(V.i(c.a["index"]), slen(self.before(c)))

    def ensures(self, c):
        p, q, k = self.before(c), self.after(c), self.k(c)
        return [("the index is in range", z3.And(0 <= k, k < slen(p))),
                ("the element is returned", c.ret == sat_(p, k)),
                ("the element is gone", seq_eq(q, Cat(Sub(p, 0, k), Sub(
                    p, k + 1, slen(p) - k - 1)))),
                ("it has no parent", c.new("_parent", V.r(c.ret)) == NONE),
                self.linked(c, q), self.others(c, Unit(c.ret))]

    def ensures_exc(self, c):
        k = self.k(c)
        return [("raises only if the index is out of range", z3.Not(z3.And(
            0 <= k, k < slen(self.before(c)))))] + self.same(c)


SOURCES = {"a list": "=list", "a tuple": "=tuple", "a child list": "=ChildList"}


def elements(c, v):
    """what iterating the list, tuple or child list v gives"""
    r = V.r(v)
    it = lambda x: c.eng.items(c.pre, x)
    cls = c.eng.prog.classes
    if syn_kind(v) == "R":
        pass
    return z3.If(typ(r) == cls["ChildList"].id, it(V.r(c.old("_list", r))), it(r))


class AddsMany(KidsContract):
    """extend and +=: the elements of a sequence of any kind of values"""
    raises = ("TypeError",)
    allocates = True
    ret_type = "None"
    value = "iterable"
    touch = {"_parent": None, "_matcher_element": None,
             "items": lambda c: [V.r(c.old("_list", c.ref("self")))]}
    raising_cases = ("None", "an integer", "a float", "a boolean")

    def cases(self):
        i, f, b = z3.Int("arg.i"), z3.Real("arg.f"), z3.Bool("arg.b")
        p = self.value
        out = {"None": ({p: NONE}, None), "an integer": ({p: V.I(i)}, None),
               "a float": ({p: V.F(f)}, None), "a boolean": ({p: V.B(b)}, None)}
        for k, t in SOURCES.items():
            out[k] = ({}, lambda a, t=t: z3.And(V.is_R(a[p]), typ(
                V.r(a[p])) == self.w.prog.classes[t[1:]].id))
        return out

    def src(self, c):
        """[(condition, elements)]"""
        v, cls = c.a[self.value], c.eng.prog.classes
        r = V.r(v)
        return [(z3.And(V.is_R(v), z3.Or([typ(r) == cls[n].id for n in (
            "list", "tuple")])), c.eng.items(c.pre, r)),
            (z3.And(V.is_R(v), typ(r) == cls["ChildList"].id),
             c.eng.items(c.pre, V.r(c.old("_list", r))))]

    def requires(self, c):
        out = KidsContract.requires(self, c)
        for k, q in self.src(c):
            out.append(("the elements of the argument are values", z3.Implies(
                k, each(q, slen(q), lambda e: z3.Or(
                    e == NONE, V.is_I(e), V.is_B(e), V.is_F(e), V.is_S(e), z3.And(
                        self.w.isref(e, "Expansion"), V.r(e) > 0, V.r(e) < c.n0))))))
        return out

    def lay(self, c, q):
        """the list q after the operation holds x, the new elements"""
        p = self.before(c)
        j = z3.Int("j!ly")
        out = []
        for k, x in self.src(c):
            n = slen(p)
            out.append(z3.Implies(k, z3.And(
                slen(q) == n + slen(x),
                all_seq(p, n, lambda j, e: sat_(q, j) == e),
                forall_pat([j], z3.Implies(z3.And(0 <= j, j < slen(x)), z3.And(
                    made(c, sat_(x, j), sat_(q, n + j)))), sat_(x, j)))))
        return out

    def ensures(self, c):
        q = self.after(c)
        return [("a sequence", z3.Or([k for k, x in self.src(c)])),
                ("the list holds its elements and the new ones, strings as literals",
                 z3.And(self.lay(c, q))), self.linked(c, q)] + [
            ("%s: %s" % (k, l), z3.Implies(g, f)) for k, (g, x) in zip(
                ("list or tuple", "child list"), self.src(c))
            for l, f in [self.others(c, x)]] + [("nothing is returned", c.ret == NONE)]

    def ensures_exc(self, c):
        bad = [z3.Not(k) for k, x in self.src(c)]
        some = [z3.And(k, z3.Not(each(x, slen(x), lambda e: good(self.w, e))))
                for k, x in self.src(c)]
        return [("raises only for something else", z3.Or([z3.And(bad)] + some))] + \
            self.same(c)

    def extra_cands(self, c, ctx):
        return adopt_cands(self, c, ctx)


class Extend(AddsMany):
    member = "extend"
    params = ("self", "iterable")


class IAdd(AddsMany):
    member = "__iadd__"
    params = ("self", "other")
    value = "other"
    ret_type = "@ChildList"

    def ensures(self, c):
        return AddsMany.ensures(self, c)[:-1] + [
            ("the list itself is returned", c.ret == c.a["self"])]


class ChildrenSet(AddsMany):
    by_body = True
    """assigning the whole list"""
    cls, member, kind = "Expansion", "children", "set"
    params = ("self", "value")
    value = "value"
    types = {"self": "@Expansion"}
    touch = {"_children": lambda c: [c.ref("self")], "_parent": None,
             "_matcher_element": None}
    raising_cases = AddsMany.raising_cases + ("a string",)

    def cases(self):
        return dict(AddsMany.cases(self), **{
            "a string": ({"value": V.S(z3.Const("arg.s", Str))}, None)})

    inline_at = comp.Compile.inline_at

    def reads(self, c):
        k = c.old("_children", c.ref("self"))
        return [k, c.old("_list", V.r(k))]

    def owner(self, c):
        return c.a["self"]

    def kids(self, c, when):
        return V.r(when("_children", c.ref("self")))

    def before(self, c):
        return c.eng.items(c.pre, V.r(c.old("_list", self.kids(c, c.old))))

    def after(self, c):
        return c.eng.items(c.post, V.r(c.new("_list", self.kids(c, c.new))))

    def ensures(self, c):
        p, q = self.before(c), self.after(c)
        k = self.kids(c, c.new)
        out = [("a sequence", z3.Or([g for g, x in self.src(c)])),
               ("a child list of the expansion", z3.And(
                   k >= c.n0, c.new("_expansion", k) == c.a["self"])),
               self.linked(c, q),
               ("the old children that left have no parent", each(
                   p, slen(p), lambda e: z3.Or(
                       isin(q, slen(q), e), c.new("_parent", V.r(e)) == NONE)))]
        j = z3.Int("j!ly")
        for n, (g, x) in zip(("list or tuple", "child list"), self.src(c)):
            out.append(("%s: the children are its elements, strings as literals" % n,
                        z3.Implies(g, z3.And(slen(q) == slen(x), forall_pat(
                            [j], z3.Implies(z3.And(0 <= j, j < slen(x)), made(
                                c, sat_(x, j), sat_(q, j))), sat_(x, j))))))
            l, f = self.others(c, x, p)
            out.append(("%s: %s" % (n, l), z3.Implies(g, f)))
        return out

    def same(self, c):
        return KidsContract.same(self, c) + [(
            "the child list stays", c.new("_children", c.ref("self")) ==
            c.old("_children", c.ref("self")))]


class Clear(Distinct):
    member = "clear"
    params = ("self",)
    ret_type = "None"
    touch = Pop.touch

    def ensures(self, c):
        p, q = self.before(c), self.after(c)
        return [("the list is empty", slen(q) == 0),
                ("the old elements have no parent", each(
                    p, slen(p), lambda e: c.new("_parent", V.r(e)) == NONE)),
                self.others(c, p), ("nothing is returned", c.ret == NONE)]

    def extra_cands(self, c, ctx):
        """an iteration takes the first or the last of the elements away"""
        out = []
        if ctx.seq is None or "items" not in ctx.fields:
            return adopt_cands(self, c, ctx)
        l = self.lst(c)
        out.append(Cand("the first elements are gone", lambda e, s0, s, i, q:
                        seq_eq(e.items(s, l), Sub(q, i, slen(q) - i))))
        out.append(Cand("the last elements are gone", lambda e, s0, s, i, q:
                        seq_eq(e.items(s, l), Sub(q, 0, slen(q) - i))))
        return out + adopt_cands(self, c, ctx)


# the first index from lo to hi (excluded) whose element is equal to x, hi if there is none
first = z3.Function("first.equal", SeqV, Int, Int, V, Int)
py_eq = UF("py_eq", V, V, Bool)


def first_axioms():
    s, v = z3.Const("s!fe", SeqV), z3.Const("v!fe", V)
    lo, hi, j = z3.Ints("lo!fe hi!fe j!fe")
    k = first(s, lo, hi, v)
    return [z3.ForAll([s, lo, hi, v], z3.Implies(lo <= hi, z3.And(
        lo <= k, k <= hi, z3.Implies(k < hi, py_eq(sat_(s, k), v)))), patterns=[k]),
        z3.ForAll([s, lo, hi, v, j], z3.Implies(z3.And(
            lo <= j, j < hi, py_eq(sat_(s, j), v)), k <= j),
            patterns=[z3.MultiPattern(k, sat_(s, j))]),
        z3.ForAll([v], py_eq(v, v), patterns=[py_eq(v, v)])]


class Remove(Distinct):
    member = "remove"
    params = ("self", "value")
    raises = ("ValueError",)
    ret_type = "None"
    touch = Pop.touch

    def k(self, c):
        p = self.before(c)
        return first(p, z3.IntVal(0), slen(p), c.a["value"])

    def ensures(self, c):
        p, q, k = self.before(c), self.after(c), self.k(c)
        return [("an element is equal to the value", k < slen(p)),
                ("the first such element is gone", seq_eq(q, Cat(Sub(p, 0, k), Sub(
                    p, k + 1, slen(p) - k - 1)))),
                ("it has no parent", c.new("_parent", V.r(sat_(p, k))) == NONE),
                self.linked(c, q), self.others(c, Unit(sat_(p, k))),
                ("nothing is returned", c.ret == NONE)]

    def ensures_exc(self, c):
        return [("raises only if no element is equal", self.k(c) == slen(
            self.before(c)))] + self.same(c)


class Index(KidsContract):
    variant = "reading"
    member = "index"
    params = ("self", "value", "start", "end")
    raises = ("ValueError",)
    ret_type = "I"

    def cases(self):
        i, j = z3.Int("arg.start"), z3.Int("arg.end")
        return {"in the whole list": ({"start": V.I(z3.IntVal(0)), "end": NONE}, None),
                "from a position": ({"start": V.I(i), "end": NONE}, None),
                "in a range": ({"start": V.I(i), "end": V.I(j)}, None)}

    def range(self, c):
        n = slen(self.before(c))
        a, b = c.a["start"], c.a["end"]
        lo = inspos(V.i(a), n)
        return lo, atleast(lo, n if syn_kind(b) == "None" else inspos(V.i(b), n))

    def k(self, c):
        lo, hi = self.range(c)
        return first(self.before(c), lo, hi, c.a["value"])

    def ensures(self, c):
        return [("an element of the range is equal to the value",
                 self.k(c) < self.range(c)[1]),
                ("its position is returned", c.ret == V.I(self.k(c)))] + self.same(c)

    def ensures_exc(self, c):
        return [("raises only if no element of the range is equal", self.k(c) ==
                 self.range(c)[1])] + self.same(c)


class SetIndex(Distinct):
    member = "__setitem__"
    variant = "a position"
    params = ("self", "i", "value")
    types = {"self": "@ChildList", "i": "I"}
    raises = ("TypeError", "IndexError")
    allocates = True
    ret_type = "None"
    touch = Pop.touch
    raising_cases = Adds.raising_cases

    def cases(self):
        return names.kinds_of_value(lambda: self.w, "value")

    def k(self, c):
        return pyidx(V.i(c.a["i"]), slen(self.before(c)))

    def inside(self, c):
        return z3.And(0 <= self.k(c), self.k(c) < slen(self.before(c)))

    def ensures(self, c):
        p, q, k, v = self.before(c), self.after(c), self.k(c), c.a["value"]
        x = sat_(q, k)
        return [("the index is in range", self.inside(c)),
                ("only expansions and strings are accepted", good(self.w, v)),
                ("the element is replaced", seq_eq(q, Cat(
                    Sub(p, 0, k), Unit(x), Sub(p, k + 1, slen(p) - k - 1)))),
                ("strings become literals", made(c, v, x)),
                ("the old element has no parent", z3.Or(
                    isin(q, slen(q), sat_(p, k)),
                    c.new("_parent", V.r(sat_(p, k))) == NONE)),
                self.linked(c, q), self.others(c, Unit(v), Unit(sat_(p, k))),
                ("nothing is returned", c.ret == NONE)]

    def ensures_exc(self, c):
        return [("raises only for another value or an index out of range", z3.Not(
            z3.And(self.inside(c), good(self.w, c.a["value"]))))] + self.same(c)


atleast = z3.Function("atleast", Int, Int, Int)


class SetSlice(Distinct):
    member = "__setitem__"
    variant = "a slice"
    params = ("self", "i", "value")
    raises = ("TypeError",)
    allocates = True
    ret_type = "None"
    value = "value"
    touch = Pop.touch
    cases = AddsMany.cases
    raising_cases = AddsMany.raising_cases
    src = AddsMany.src
    start, stop = z3.Const("arg.start", V), z3.Const("arg.stop", V)

    def arg_val(self, eng, st, p):
        return SliceV(T(self.start), T(self.stop), T(NONE)) if p == "i" else None

    def requires(self, c):
        return Distinct.requires(self, c) + AddsMany.requires(self, c)[1:] + [
            ("the bounds are integers or None", z3.And([
                z3.Or(v == NONE, V.is_I(v)) for v in (self.start, self.stop)]))]

    def bounds(self, c):
        n = slen(self.before(c))
        lo = slo(self.start, n)
        return lo, atleast(lo, shi(self.stop, n))

    def ensures(self, c):
        p, q = self.before(c), self.after(c)
        lo, hi = self.bounds(c)
        n, j = slen(p), z3.Int("j!sl")
        out = [("a sequence", z3.Or([k for k, x in self.src(c)])), self.linked(c, q),
               ("the old elements that left have no parent", all_seq(
                   p, hi, lambda j, e: z3.Or(isin(q, slen(q), e), c.new(
                       "_parent", V.r(e)) == NONE), lo=lo)),
               ("nothing is returned", c.ret == NONE)]
        for nm, (k, x) in zip(("list or tuple", "child list"), self.src(c)):
            m = slen(x)
            for l, f in (
                    ("the length", slen(q) == n - (hi - lo) + m),
                    ("the elements before the slice stay", all_seq(
                        p, lo, lambda j, e: sat_(q, j) == e)),
                    ("the elements after the slice stay", all_seq(
                        p, n, lambda j, e: sat_(q, j + lo + m - hi) == e, lo=hi)),
                    ("the elements of the slice are replaced", forall_pat(
                        [j], z3.Implies(z3.And(0 <= j, j < m), made(
                            c, sat_(x, j), sat_(q, lo + j))), sat_(x, j))),
                    self.others(c, x, Sub(p, lo, hi - lo))):
                out.append(("%s: %s" % (nm, l), z3.Implies(k, f)))
        return out

    def ensures_exc(self, c):
        return AddsMany.ensures_exc(self, c)

    def extra_cands(self, c, ctx):
        return adopt_cands(self, c, ctx)


slo = z3.Function("slice.start", V, Int, Int)
shi = z3.Function("slice.stop", V, Int, Int)


def slice_axioms():
    a, b, v, n = z3.Int("a!sx"), z3.Int("b!sx"), z3.Const("v!sx", V), z3.Int("n!sx")
    return [z3.ForAll([a, b], atleast(a, b) == z3.If(b < a, a, b),
                      patterns=[atleast(a, b)]),
            z3.ForAll([v, n], slo(v, n) == z3.If(v == NONE, 0, inspos(V.i(v), n)),
                      patterns=[slo(v, n)]),
            z3.ForAll([v, n], shi(v, n) == z3.If(v == NONE, n, inspos(V.i(v), n)),
                      patterns=[shi(v, n)])]


class Reads(KidsContract):
    variant = "reading"


class Len(Reads):
    member = "__len__"
    ret_type = "I"

    def ensures(self, c):
        return [("the number of children", c.ret == V.I(slen(self.before(c))))] + \
            self.same(c)


class GetIndex(Reads):
    member = "__getitem__"
    params = ("self", "key")
    types = {"self": "@ChildList", "key": "I"}
    raises = ("IndexError",)

    k = Pop.k

    def k(self, c):
        return pyidx(V.i(c.a["key"]), slen(self.before(c)))

    def inside(self, c):
        return z3.And(0 <= self.k(c), self.k(c) < slen(self.before(c)))

    def ensures(self, c):
        return [("the index is in range", self.inside(c)),
                ("the element", c.ret == sat_(self.before(c), self.k(c)))] + self.same(c)

    def ensures_exc(self, c):
        return [("raises only if the index is out of range", z3.Not(self.inside(c)))] + \
            self.same(c)


class KidsGet(Contract):
    by_body = True
    cls, member, kind = "Expansion", "children", "get"
    variant = "reading"
    params = ("self",)
    types = {"self": "@Expansion"}

    def ensures(self, c):
        return [("the child list of the expansion", c.ret == c.old(
            "_children", c.ref("self")))]


class ParentGet(KidsGet):
    member = "parent"

    def ensures(self, c):
        return [("the parent", c.ret == c.old("_parent", c.ref("self")))]


class KidsWorld(tags.TagWorld):
    plain_tuples = True          # sequences of tuples are read like those of lists

    def ty(self, n):
        return tags.TagWorld.ty(self, n)


def world(prog):
    fns, folds = comp.FNS + trav.FNS + [tags.hadm], \
        comp.FOLDS + trav.FOLDS + tags.FOLDS
    ps, kids = ParentSet(), [Append(), Insert(), Pop(), Extend(), IAdd(), ChildrenSet(),
                                 Remove(), Clear()]
    more = [Index(), SetIndex(), SetSlice(), Len(), GetIndex(), KidsGet(), ParentGet()]
    w = KidsWorld(prog, [ps, tags.TagGet(), comp.InvalidateMatcher()] +
                  trav.CONTRACTS + kids, fns, folds, [])
    for x in [ps] + kids + more:
        x.w = w
    w.variants = more
    w.theory = comp.theory(w) + trav.theory(w) + gram.isin_axioms() + index_axioms() + \
        first_axioms() + slice_axioms()
    w.lemma_axioms = seq_axioms() + TH.agree_axioms(fns, folds) + w.theory
    return w


def lemmas(w):
    return []
