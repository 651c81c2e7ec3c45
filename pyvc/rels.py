"""Relations between the expansions of a tree (C06)."""
import z3
from .model import *
from . import theory as TH
from .theory import HEAPS, HeapS, Fold, SpecFn, sel
from .world import Contract, Ctx, World
from .engine import T, Cand, HookV, IterV, Unsupported, RET, NEXT, EXC
from . import comp, trav, gram, flat, tags
from .comp import kids
from .gram import isin, isin_axioms
from .trav import finD, finS, visD, visS, unchanged

# by the chain of parents
rootf = SpecFn("root_of", "par", [], Int)
optf = SpecFn("inside_optional", "par", [], Bool)
altf = SpecFn("inside_alternative", "par", [], Bool)
repf = SpecFn("enclosing_repetition", "par", [], V)
FNS = [rootf, optf, altf, repf]
leaf = lambda H, k: slen(kids(H, V.r(k))) == 0
leaves = Fold("leaves_of", "kids", [], SeqV, lambda H: EMPTY,
              lambda H, a, k: z3.If(leaf(H, k), Cat(a, Unit(k)), a))
# x, then what comes after the first x without any further x; empty before x
after = Fold("x_and_after", "kids", [V], SeqV, lambda H, x: EMPTY,
             lambda H, x, a, k: z3.If(slen(a) == 0, z3.If(k == x, Unit(k), EMPTY),
                                      z3.If(k == x, a, Cat(a, Unit(k)))), no_agree=True)
exclf = SpecFn("mutually_exclusive", "tree", [V], Bool)
matchable = Fold("matchable_of", "kids", [V, HeapS], SeqV, lambda H, x, Ht: EMPTY,
                 lambda H, x, Ht, a, k: z3.If(exclf(Ht, V.r(x), k), a,
                                              Cat(a, Unit(k))), no_agree=True)
FNS.append(exclf)
FOLDS = [leaves, after, matchable]
ANY = z3.Const("Hany", HeapS)      # for folds that do not look at the heap
NOCALC = V.Fn(z3.IntVal(-77))
BOTH = ("dval", "dhas", "dkeys")


def classes(w, x, *names):
    c = w.prog.classes
    ids = [k.id for n in names if n in c for k in w.prog.subclasses(n)]
    return z3.Or([typ(x) == i for i in ids])


def axioms(w):
    H, x = z3.Const("H!rl", HeapS), z3.Int("x!rl")
    p = sel(H, "_parent")[x]
    top = p == NONE
    up = V.r(p)

    def ax(t, rhs):
        return z3.ForAll([H, x], z3.Implies(z3.Or(top, V.is_R(p)), t == rhs),
                         patterns=[z3.MultiPattern(t, p)])
    return [ax(rootf(H, x), z3.If(top, x, rootf(H, up))),
            ax(optf(H, x), z3.Or(classes(w, x, "OptionalGrouping", "KleeneStar"), z3.And(
                z3.Not(top), optf(H, up)))),
            z3.ForAll([H, x], z3.Implies(classes(w, x, "OptionalGrouping", "KleeneStar"),
                                         optf(H, x)), patterns=[optf(H, x)]),
            z3.ForAll([H, x], z3.Implies(classes(w, x, "AlternativeSet"), altf(H, x)),
                      patterns=[altf(H, x)]),
            ax(altf(H, x), z3.Or(classes(w, x, "AlternativeSet"), z3.And(
                z3.Not(top), altf(H, up)))),
            ax(repf(H, x), z3.If(top, NONE, z3.If(classes(w, up, "Repeat"), p,
                                                  repf(H, up))))]


class Up(Contract):
    """by the chain of parents"""
    cls, kind = "Expansion", "get"
    params = ("self",)
    types = {"self": "@Expansion"}
    by_body = True
    f, what = None, ""

    def reads(self, c):
        return [c.old("_parent", c.ref("self"))]

    def wrap(self, t):
        return V.B(t)

    def ensures(self, c):
        return [(self.what, c.ret == self.wrap(self.f(c.H("par"), c.ref("self"))))]

    def step(self, c, x):
        """the answer when the search goes on at x (an expansion or None)"""
        H = c.H("par")
        return self.wrap(z3.And(x != NONE, self.f(H, V.r(x))))

    def extra_cands(self, c, ctx):
        H = c.H("par")
        out = []
        vs_ = sorted(ctx.vars, key=str)

        def var(s, k):
            x = s.frames[k[0]].get(k[1])
            return x.t if isinstance(x, T) else None
        for k in vs_:
            def f(e, s0, s, i, q, k=k):
                x = var(s, k)
                return None if x is None else self.wrap(
                    self.f(H, c.ref("self"))) == self.step(c, x)
            out.append(Cand("the answer for %s is the answer" % (k,), f))
            for k2 in vs_:
                if k2 == k:
                    continue

                def g(e, s0, s, i, q, k=k, k2=k2):
                    x, y = var(s, k), var(s, k2)
                    return None if x is None or y is None else z3.And(
                        V.is_R(x), y == sel(H, "_parent")[V.r(x)])
                out.append(Cand("%s is the parent of %s" % (k2, k), g))
        return out


class Root(Up):
    member, ret_type = "root_expansion", "@Expansion"
    f, what = rootf, "the last expansion in the chain of parents"

    def wrap(self, t):
        return V.R(t)

    def step(self, c, x):
        return V.R(rootf(c.H("par"), V.r(x)))

    def extra_cands(self, c, ctx):
        return [Cand("%s has the same root" % (k,), lambda e, s0, s, i, q, k=k: None
                     if not isinstance(s.frames[k[0]].get(k[1]), T) else z3.And(
                         V.is_R(s.frames[k[0]][k[1]].t), self.step(
                             c, s.frames[k[0]][k[1]].t) == self.wrap(rootf(
                                 c.H("par"), c.ref("self")))))
                for k in sorted(ctx.vars, key=str)] + Up.extra_cands(self, c, ctx)


class Optional(Up):
    member, ret_type = "is_optional", "B"
    f, what = optf, "whether this or an enclosing expansion is optional"


class Alternative(Up):
    member, ret_type = "is_alternative", "B"
    f, what = altf, "whether this or an enclosing expansion is a set of alternatives"


class Repetition(Up):
    member, ret_type = "repetition_ancestor", "None|@Expansion"
    f, what = repf, "the nearest enclosing repetition, or None"

    def wrap(self, t):
        return t

    def step(self, c, x):
        return z3.If(x == NONE, NONE, z3.If(classes(c.eng.spec, V.r(x), "Repeat"), x,
                                            repf(c.H("par"), V.r(x))))


class CollectLeaves(Contract):
    cls, member = "Expansion", "collect_leaves"
    params = ("self", "order", "shallow")
    defaults = {"order": 0, "shallow": False}
    types = {"self": "@Expansion", "order": "I", "shallow": "B"}
    allocates = True
    by_body = True
    ret_type = "=list"
    ret_elems = "@Expansion"
    touch = {"dval": None, "dhas": None, "dkeys": None}

    def cases(self):
        return {"%s, %s" % (a, b): ({"shallow": vb(s), "order": vi(o)}, None)
                for a, s in (("deep", False), ("shallow", True))
                for b, o in (("pre", 0), ("post", 1))}

    def sh(self, c):
        return simp(V.b(c.a["shallow"])) if "shallow" in c.a else z3.BoolVal(False)

    def post_(self, c):
        return simp(V.i(c.a["order"]) == 1) if "order" in c.a else z3.BoolVal(False)

    def pick(self, c, s, d):
        return simp(z3.If(self.sh(c), s, d))

    def requires(self, c):
        x = c.ref("self")
        return [("the tree is finite and its references resolve", self.pick(
            c, finS(c.H("kids"), x), finD(c.H("tree"), x)))]

    def visit(self, c):
        x, p = c.ref("self"), self.post_(c)
        return self.pick(c, visS(c.H("kids"), x, p), visD(c.H("tree"), x, p))

    def result(self, eng, c):
        return trav.new_list_result(eng, c, "@Expansion")

    def ensures(self, c):
        q = self.visit(c)
        return [("exactly the expansions without children, in order", seq_eq(
            c.eng.items(c.post, un("R", c.ret)), leaves(c.H("kids"), q, slen(q)))),
            ("a new list", un("R", c.ret) >= c.n0),
            ("no dict that existed before is changed", unchanged(
                c.eng, c.pre, c.post, BOTH))]

    def fold_terms(self, c):
        return [(leaves, c.H("kids"), [])]

    def folds(self, c):
        return [("leaves", lambda q, i: leaves(c.H("kids"), q, i))]


class Leaves(CollectLeaves):
    """the property, by default arguments"""
    member, kind = "leaves", "get"
    params = ("self",)
    types = {"self": "@Expansion"}
    defaults = {}

    def cases(self):
        return {"": ({}, None)}


class LeavesAfter(Contract):
    cls, member, kind = "Expansion", "leaves_after", "get"
    params = ("self",)
    types = {"self": "@Expansion"}
    allocates = True
    by_body = True
    touch = CollectLeaves.touch

    def reads(self, c):
        return [c.old("_parent", c.ref("self"))]

    def result(self, eng, c):
        x = fresh("lafter", SeqV)
        eng.seq_ty[x.decl().name()] = (eng.spec.ty("@Expansion"), c.post.next)
        return IterV("seq", seq=x)

    def root(self, c):
        return rootf(c.H("par"), c.ref("self"))

    def requires(self, c):
        c.H("kids")             # (the snapshots are compared in the order they are taken)
        return [("the whole tree is finite and its references resolve", finD(
            c.H("tree"), self.root(c))),
            ("the expansions of the tree exist", TH.oldseq(visD(
                c.H("tree"), self.root(c), z3.BoolVal(False)), c.n0)),
            ("the root of the tree exists", self.root(c) < c.n0)]

    def all(self, c):
        q = visD(c.H("tree"), self.root(c), z3.BoolVal(False))
        return leaves(c.H("kids"), q, slen(q))

    def ensures(self, c):
        L = self.all(c)
        a = after(ANY, c.a["self"], L, slen(L))
        seq = c.ret.seq if hasattr(c.ret, "seq") else c.eng.items(c.post, un("R", c.ret))
        return [("exactly the leaves of the tree that come after it, in order",
                 z3.If(slen(a) == 0, slen(seq) == 0,
                       seq_eq(Cat(Unit(c.a["self"]), seq), a))),
                ("(the same without the expansion itself)", z3.Implies(
                    slen(a) > 0, seq_eq(seq, Sub(a, z3.IntVal(1), slen(a) - 1))))]

    def fold_terms(self, c):
        return [(after, ANY, [c.a["self"]])]

    def extra_cands(self, c, ctx):
        H, me = ANY, c.a["self"]
        out = []

        def acc(q, i):
            return after(H, me, q, i)
        for (fid, v) in sorted(ctx.vars, key=str):
            def f(e, s0, s, i, q, fid=fid, v=v):
                x = s.frames[fid].get(v)
                if q is None or not isinstance(x, T):
                    return None
                return x.t == V.B(slen(acc(q, i)) > 0)
            out.append(Cand("%s: reached so far" % v, f))
        for w in ctx.writes.get("items", []):
            w = simp(w)
            if not c.eng.loop_invariant_term(w, ctx):
                continue

            def g(e, s0, s, i, q, w=w):
                if q is None:
                    return None
                L = e.items(s, w)
                return z3.If(slen(acc(q, i)) == 0, slen(L) == 0,
                             seq_eq(Cat(Unit(me), L), acc(q, i)))
            out.append(Cand("list@%s: the leaves after so far" % w, g))
        return out


class MatchableAfter(LeavesAfter):
    member = "matchable_leaves_after"
    touch = dict(CollectLeaves.touch, _lookup_dict=None)

    def ensures(self, c):
        L = self.all(c)
        H, me = ANY, c.a["self"]
        a = after(H, me, L, slen(L))
        rest = Sub(a, z3.IntVal(1), slen(a) - 1)
        m = matchable(H, me, c.H("tree"), rest, slen(rest))
        seq = c.ret.seq if hasattr(c.ret, "seq") else c.eng.items(c.post, un("R", c.ret))
        return [("exactly the leaves after it that are not mutually exclusive of it",
                 z3.If(slen(a) == 0, slen(seq) == 0, seq_eq(seq, m)))]

    def ex(self, c):
        return [c.a["self"], c.H("tree")]

    def fold_terms(self, c):
        return [(matchable, ANY, self.ex(c))]

    def folds(self, c):
        return [("matchable", lambda q, i: matchable(ANY, *(self.ex(c) + [q, i])))]

    def extra_cands(self, c, ctx):
        return []


class Exclusive(Contract):
    """(assumed) a function of the trees (its definition: bounded)"""
    cls, member = "Expansion", "mutually_exclusive_of"
    params = ("self", "other")
    types = {"self": "@Expansion", "other": "@Expansion"}
    allocates = True
    trusted = True
    ret_type = "B"
    touch = dict({f: None for f in BOTH}, _lookup_dict=None)

    def ensures(self, c):
        return [("", c.ret == V.B(exclf(c.H("tree"), c.ref("self"), c.a["other"])))]


class ExclusiveApart(Contract):
    cls, member, variant = "Expansion", "mutually_exclusive_of", "different trees"
    params = ("self", "other")
    types = {"self": "@Expansion", "other": "@Expansion"}
    allocates = True
    by_body = True

    def requires(self, c):
        H = c.H("par")
        return [("the two are in different trees", rootf(H, c.ref("self")) != rootf(
            H, c.ref("other")))]

    def ensures(self, c):
        return [("expansions of different trees are not mutually exclusive",
                 c.ret == vb(False))]


def desc(H, x, y):
    """x is a proper descendant of y"""
    q = visD(H, y, z3.BoolVal(False))
    return z3.And(x != y, isin(q, slen(q), V.R(x)))


class Lookup(Contract):
    """(assumed) what is remembered holds for the current tree, as everything that is
    stored does (proved) and calculations are invalidated after edits (bounded)"""
    cls, member = "Expansion", "_lookup_calculation"
    params = ("self", "name", "key")
    types = {"self": "@Expansion", "name": "S", "key": "=tuple"}
    allocates = True
    trusted = True
    touch = dict({f: None for f in BOTH}, _lookup_dict=None)

    def truth(self, c):
        k = TH.tupit(V.r(c.a["key"]))
        a, b = V.r(sat_(k, z3.IntVal(0))), V.r(sat_(k, z3.IntVal(1)))
        return desc(c.H("tree"), a, b)

    def ensures(self, c):
        return [("", z3.Implies(c.a["name"] == vs("is_descendant_of"), z3.Or(
            c.ret == NOCALC, c.ret == V.B(self.truth(c)))))]


class Store(Lookup):
    member = "_store_calculation"
    params = ("self", "name", "key", "value")
    types = {"self": "@Expansion", "name": "S", "key": "=tuple"}
    ret_type = "None"

    def requires(self, c):
        return [("a pair is stored", slen(TH.tupit(V.r(c.a["key"]))) == 2),
                ("only what holds for the current tree is stored", z3.Implies(
            c.a["name"] == vs("is_descendant_of"),
            c.a["value"] == V.B(self.truth(c))))]

    def ensures(self, c):
        return []


class IsDescendant(Contract):
    cls, member = "Expansion", "is_descendant_of"
    params = ("self", "other")
    types = {"self": "@Expansion", "other": "@Expansion"}
    allocates = True
    by_body = True
    touch = Lookup.touch

    def requires(self, c):
        return [("the tree is finite and its references resolve",
                 finD(c.H("tree"), c.ref("other")))]

    def ensures(self, c):
        return [("whether it is one of the expansions below the other",
                 c.ret == V.B(desc(c.H("tree"), c.ref("self"), c.ref("other"))))]

    def extra_cands(self, c, ctx):
        return [Cand("not found so far", lambda e, s0, s, i, q: None if q is None else
                     z3.Not(isin(q, i, c.a["self"])))]


class Find(flat.Find):
    """with a function of the library: the search stops at the first success"""

    def apply(self, eng, st, args, kw):
        st, a, func = self.bind(eng, st, args, kw)
        if isinstance(func, HookV):
            for y in flat.Find.apply(self, eng, st, args, kw):
                yield y
            return
        st = st.copy()
        for p in sorted(a):
            eng.learn(st, a[p])
        c = Ctx(eng, st, None, a)
        for f in self.arg_types(c):
            eng.oblige(st, "argument types of %s" % self.name, f)
        eng.oblige(st, "precondition of %s: the tree is finite and its references "
                   "resolve" % self.name, self.domain(c))
        st = st.assume(self.domain(c))
        for s, ok in eng.fork(st, self.okorder(c)):
            if not ok:
                yield s, eng.exc("ValueError")
                continue
            c = Ctx(eng, s, None, a)
            q = fresh("visited", SeqV)
            eng.seq_ty[q.decl().name()] = (eng.spec.ty("@Expansion"), s.next)
            s = s.assume(q == self.visit(c), TH.oldseq_def(q, s.next))

            def body(s1, x):
                for s2, y in eng.call(s1, func, [x], {}):
                    if eng.raised(y):
                        yield s2, (EXC, y)
                        continue
                    for s3, b in eng.branch(s2, y):
                        yield s3, ((RET, x) if b else (NEXT, None))
            for s2, (o, v) in eng.foreach(s, IterV("seq", seq=q), body, "find", None,
                                          None):
                if o in (EXC, RET):
                    yield s2, v
                else:
                    yield s2, T(NONE)


class RelWorld(gram.GramWorld):
    def attr_hook(self, eng, st, v, name, names):
        if name == "_NO_CALCULATION":
            return iter([(st, T(NOCALC))])
        return gram.GramWorld.attr_hook(self, eng, st, v, name, names)

    def loop_facts(self, eng, st0, seq, i):
        out = gram.GramWorld.loop_facts(self, eng, st0, seq, i)
        t = eng.target
        if t is not None and isinstance(t[0], IsDescendant) and z3.is_expr(seq):
            c = t[1]
            out = out + [isin(seq, i, c.a["self"]) == isin(seq, i, c.a["self"])]
        return out


def world(prog):
    fns, folds = comp.FNS + trav.FNS + FNS, comp.FOLDS + trav.FOLDS + FOLDS
    w = RelWorld(prog, [Root(), Optional(), Alternative(), Repetition(), CollectLeaves(),
                        Leaves(), LeavesAfter(), MatchableAfter(), Exclusive(), Lookup(),
                        Store(), IsDescendant(),
                        Find()] + trav.CONTRACTS, fns, folds, [],
                 concrete=gram.PLAIN)
    w.variants = [ExclusiveApart()]
    base = comp.theory(w) + trav.theory(w) + isin_axioms()
    w.theory = base + axioms(w) + flat.theory() + flat.prefix_lemma()
    w.lemma_axioms = seq_axioms() + TH.agree_axioms(fns, folds) + base + flat.theory()
    return w


def lemmas(w):
    return flat.lemmas(w)
