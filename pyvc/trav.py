"""Traversals of expansion trees (property C05; used by every caller of map_expansion)."""
import z3
from .model import *
from . import theory as TH
from .theory import sel, unf, agree, HeapS, SpecFn, Fold, AllQ, HEAPS
from .world import Contract, Ctx, World
from .engine import T, TupV, IterV, HookV, Cand, ExcV, FnV, Unsupported, NEXT, EXC
from .comp import kids

# shallow: only child lists; deep: references are followed
visS = SpecFn("visit_shallow", "kids", [Bool], SeqV)        # (H, x, post)
visD = SpecFn("visit_deep", "tree", [Bool], SeqV)
finS = SpecFn("finite", "kids", [], Bool)
finD = SpecFn("finite_deep", "tree", [], Bool)
rkS = SpecFn("rank", "kids", [], Int)
rkD = SpecFn("rank_deep", "tree", [], Int)
rloc = SpecFn("rule_of_ref", "tree", [], Int)               # the rule a reference names
flatS = Fold("flat_shallow", "kids", [Bool], SeqV, lambda H, p: EMPTY,
             lambda H, p, a, k: Cat(a, visS(H, V.r(k), p)))
flatD = Fold("flat_deep", "tree", [Bool], SeqV, lambda H, p: EMPTY,
             lambda H, p, a, k: Cat(a, visD(H, V.r(k), p)))
named = AllQ("no_rule_named", "tree", [V],
             lambda H, n, k: sel(H, "_name")[V.r(k)] != n)
# the tuple structure map_expansion returns, over the callback's results
resS = SpecFn("result_shallow", "kids", [V, Bool], Bool)
resD = SpecFn("result_deep", "tree", [V, Bool], Bool)
fres = z3.Function("callback_result", V, V)                 # pure callback
ptrue = z3.Function("callback_true", V, Bool)               # pure predicate
filt = Fold("filtered", "kids", [], SeqV, lambda H: EMPTY,
            lambda H, a, k: z3.If(ptrue(k), Cat(a, Unit(k)), a), no_agree=True)
mapped = Fold("mapped", "kids", [], SeqV, lambda H: EMPTY,
              lambda H, a, k: Cat(a, Unit(fres(k))), no_agree=True)
nonetrue = AllQ("none_true", "kids", [], lambda H, k: z3.Not(ptrue(k)), no_agree=True)

fidx = z3.Function("first_named", HeapS, V, SeqV, Int)      # least index with the name
FNS = [visS, visD, finS, finD, rkS, rkD, rloc, resS, resD]
FOLDS = [flatS, flatD, named, filt, mapped, nonetrue]


def rexp(H, x):
    """expansion of the rule the reference x names"""
    return V.r(sel(H, "_expansion")[rloc(H, x)])


def isref(w, x):
    return z3.Or([typ(x) == w.prog.classes[n].id
                  for n in ("NamedRuleRef", "RuleRef") if n in w.prog.classes])


def theory(w):
    H, x, p = z3.Const("H!v", HeapS), z3.Int("x!v"), z3.Bool("p!v")
    i, k = z3.Ints("i!v k!v")
    r = z3.Const("r!v", V)
    ks = kids(H, x)
    n = slen(ks)
    me = Unit(V.R(x))
    U = unf(x)
    mp = z3.MultiPattern
    ref = isref(w, x)
    kidv = V.r(sat_(ks, i))
    out = [
        z3.ForAll([H, x, p], z3.Implies(finS(H, x), visS(H, x, p) == z3.If(
            p, Cat(flatS(H, p, ks, n), me), Cat(me, flatS(H, p, ks, n)))),
            patterns=[mp(U, visS(H, x, p))]),
        z3.ForAll([H, x, p], z3.Implies(finD(H, x), visD(H, x, p) == z3.If(
            ref,
            z3.If(p, Cat(visD(H, rexp(H, x), p), me), Cat(me, visD(H, rexp(H, x), p))),
            z3.If(p, Cat(flatD(H, p, ks, n), me), Cat(me, flatD(H, p, ks, n))))),
            patterns=[mp(U, visD(H, x, p))]),
        z3.ForAll([H, x], z3.And(rkS(H, x) >= 0, z3.Implies(
            finS(H, x), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                finS(H, kidv), rkS(H, kidv) < rkS(H, x))), patterns=[sat_(ks, i)]))),
            patterns=[mp(U, finS(H, x))]),
        z3.ForAll([H, x], z3.And(rkD(H, x) >= 0, z3.Implies(
            finD(H, x), z3.If(
                ref, z3.And(resolvable(w, H, x), finD(H, rexp(H, x)),
                            rkD(H, rexp(H, x)) < rkD(H, x)),
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                    finD(H, kidv), rkD(H, kidv) < rkD(H, x))),
                    patterns=[sat_(ks, i)])))),
            patterns=[mp(U, finD(H, x))]),
    ]
    # elements of a visit sequence are expansions allocated before the heap was taken
    # reference resolution inside the grammar of the rule the reference belongs to
    g = V.r(sel(H, "grammar")[V.r(sel(H, "rule")[x])])
    rules = sel(H, "items")[V.r(sel(H, "_rules")[g])]
    nm = sel(H, "_name")[x]
    if "RuleRef" in w.prog.classes:
        out.append(z3.ForAll([H, x], z3.Implies(
            typ(x) == w.prog.classes["RuleRef"].id,
            rloc(H, x) == V.r(sel(H, "_referenced_rule")[x])),
            patterns=[rloc(H, x)]))
    N, Q = z3.Const("n!v", V), z3.Const("q!v", SeqV)
    fi = fidx(H, N, Q)
    out.append(z3.ForAll([H, N, Q], z3.Implies(z3.Not(named(H, N, Q, slen(Q))), z3.And(
        0 <= fi, fi < slen(Q), named(H, N, Q, fi),
        sel(H, "_name")[V.r(sat_(Q, fi))] == N)), patterns=[fi]))
    if "NamedRuleRef" in w.prog.classes:
        out.append(z3.ForAll([H, x], z3.Implies(
            typ(x) == w.prog.classes["NamedRuleRef"].id,
            rloc(H, x) == V.r(sat_(rules, fidx(H, nm, rules)))), patterns=[rloc(H, x)]))
    # results: (func(x), children) / (children, func(x))
    both = TH.tupit(V.r(r))
    a, b = sat_(both, z3.IntVal(0)), sat_(both, z3.IntVal(1))
    tup = w.prog.classes["tuple"].id

    def shape(res, deep):
        def half(fr, cr, p):
            ch = TH.tupit(V.r(cr))
            each = z3.And(slen(ch) == n, z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < n), res(H, kidv, sat_(ch, i), p)),
                patterns=[sat_(ch, i)]))
            return z3.And(
                fr == fres(V.R(x)), V.is_R(cr), typ(V.r(cr)) == tup,
                z3.If(ref, res(H, rexp(H, x), cr, p), each) if deep else each)
        return z3.And(V.is_R(r), typ(V.r(r)) == tup,
                      slen(both) == 2,
                      z3.If(p, half(b, a, z3.BoolVal(True)),
                            half(a, b, z3.BoolVal(False))))
    out.append(z3.ForAll([H, x, r, p], z3.Implies(
        finS(H, x), resS(H, x, r, p) == shape(resS, False)),
        patterns=[mp(U, resS(H, x, r, p))]))
    out.append(z3.ForAll([H, x, r, p], z3.Implies(
        finD(H, x), resD(H, x, r, p) == shape(resD, True)),
        patterns=[mp(U, resD(H, x, r, p))]))
    return out


okref = UF("optionally_qualified_name.matches", Str, Bool)


def resolvable(w, H, x):
    """the reference x names a rule of its own grammar (or holds the rule itself)"""
    cls = w.prog.classes
    ru = sel(H, "rule")[x]
    gr = sel(H, "grammar")[V.r(ru)]
    rules = sel(H, "items")[V.r(sel(H, "_rules")[V.r(gr)])]
    plain = z3.Or([typ(V.r(gr)) == cls[n].id for n in ("Grammar", "RootGrammar")
                   if n in cls])
    loc = z3.And(V.is_R(ru), V.is_R(gr), plain, okref(V.s(sel(H, "_name")[x])),
                 z3.Not(named(H, sel(H, "_name")[x], rules, slen(rules))))
    return z3.Implies(typ(x) == cls["NamedRuleRef"].id, loc) \
        if "NamedRuleRef" in cls else z3.BoolVal(True)


class Traversal(Contract):
    """common to the functions that take (e, func, order, shallow)"""
    params = ("e", "func", "order", "shallow")
    types = {"e": "@Expansion", "order": "I", "shallow": "B"}
    group = "traverse"
    allocates = True
    hook_kind = "map"
    raises = ("ValueError", "GrammarError", "TypeError", "JSGFImportError")
    touch = {"dval": None, "dhas": None, "dkeys": None, "_import_env": None}
    any_mode = False
    raising_cases = ("deep, unknown order", "shallow, unknown order")

    def arg_val(self, eng, st, p):
        if p == "func":
            return hook(self.hook_kind, self.any_mode)
        return None

    def init_ghost(self, eng, st):
        st.ghost["trace"] = z3.Const("trace0", SeqV)

    def bind(self, eng, st, args, kw):
        d = {"func": None, "order": T(vi(0)), "shallow": T(vb(False))}
        vals = dict(zip(self.params, args))
        vals.update(kw)
        for p in self.params:
            if p not in vals:
                if p not in d:
                    raise Unsupported("%s: missing %s" % (self.name, p))
                vals[p] = d[p]
        return st, {p: vals[p].t for p in ("e", "order", "shallow")}, vals["func"]

    def cases(self):
        out = {}
        for sh in (False, True):
            for n, o in (("pre", 0), ("post", 1), ("unknown order", None)):
                lab = "%s, %s" % ("shallow" if sh else "deep", n)
                d = {"shallow": vb(sh)}
                g = None
                if o is None:
                    g = lambda a: z3.And(V.i(a["order"]) != 0, V.i(a["order"]) != 1)
                else:
                    d["order"] = vi(o)
                out[lab] = (d, g)
        return out

    def shallow_known(self, c):
        from .model import const_bool
        return const_bool(c.a["shallow"])

    def pick(self, c, s, d):
        k = self.shallow_known(c)
        return s if k is True else d if k is False else z3.If(V.b(c.a["shallow"]), s, d)

    def post_order(self, c):
        o = simp(V.i(c.a["order"]) == 1)
        return o

    def okorder(self, c):
        o = V.i(c.a["order"])
        return z3.Or(o == 0, o == 1)

    def domain(self, c):
        e = c.ref("e")
        return self.pick(c, finS(c.H("kids"), e), finD(c.H("tree"), e))

    def visit(self, c):
        e = c.ref("e")
        p = self.post_order(c)
        return self.pick(c, visS(c.H("kids"), e, p), visD(c.H("tree"), e, p))

    def measure(self, c):
        e = c.ref("e")
        return self.pick(c, rkS(c.H("kids"), e), rkD(c.H("tree"), e))

    def requires(self, c):
        return [] if self.any_mode else [
            ("the tree is finite and its references resolve", self.domain(c))]

    def unfold_at(self, c):
        return [c.ref("e")]

    def fold_terms(self, c):
        p = self.post_order(c)
        return [(flatS, c.H("kids"), [p]), (flatD, c.H("tree"), [p])]

    def untouched(self, c):
        return [("no dict that existed before is changed", unchanged(
            c.eng, c.pre, c.post, ("dval", "dhas", "dkeys")))]

    def trace_pre(self, c):
        return c.pre.ghost["trace"]

    def trace_post(self, c):
        return c.post.ghost["trace"]


def tree_base(eng, st, e, fam):
    """an earlier state, closed below its allocation mark, that already held the tree
    below e as it is now"""
    for lab, heap, nxt in st.snaps:
        old = st.copy()
        old.heap, old.next = dict(heap), nxt
        if eng.entails(st, z3.And(e < nxt, agree[fam](
                HEAPS.of(eng, old, fam), HEAPS.of(eng, st, fam), nxt))):
            return old
    return st


class MapExpansion(Traversal):
    fn = "jsgf.expansions.map_expansion"

    def res(self, c):
        return self.pick(
            c, resS(c.H("kids"), c.ref("e"), c.ret, self.post_order(c)),
            resD(c.H("tree"), c.ref("e"), c.ret, self.post_order(c)))

    def ensures(self, c):
        if self.any_mode:
            return []
        return [("the callback is called once per node, in visit order",
                 self.trace_post(c) == Cat(self.trace_pre(c), self.visit(c))),
                ("only a known order is accepted", self.okorder(c)),
                ("the result pairs each node's value with its children's",
                 self.res(c))] + self.untouched(c)

    def ensures_exc(self, c):
        if self.any_mode:
            return []
        return [("raises only for an unknown order", z3.Not(self.okorder(c))),
                ("nothing is called then", self.trace_post(c) == self.trace_pre(c))]

    def folds(self, c):
        p = self.post_order(c)
        return [("flat shallow", lambda q, i: flatS(c.H("kids"), p, q, i)),
                ("flat deep", lambda q, i: flatD(c.H("tree"), p, q, i))]

    def extra_cands(self, c, ctx):
        e = c.ref("e")
        p = self.post_order(c)
        out = []
        j = z3.Int("j!mc")
        H, D = c.H("kids"), c.H("tree")
        for w in ctx.writes.get("items", []):
            w = simp(w)
            if not c.eng.loop_invariant_term(w, ctx):
                continue

            def f(en, s0, s, i, q, w=w):
                if q is None:
                    return None
                lst = en.items(s, w)
                Hk, Hd = c.H("kids"), c.H("tree")
                kid = V.r(sat_(q, j))
                r = sat_(lst, j)
                return z3.And(slen(lst) == slen(en.items(s0, w)) + i, z3.Implies(
                    slen(en.items(s0, w)) == 0, z3.ForAll(
                        [j], z3.Implies(z3.And(0 <= j, j < i), z3.And(
                            V.is_R(r), V.r(r) < s.next,
                            self.pick(c, resS(Hk, kid, r, p), resD(Hd, kid, r, p)))),
                        patterns=[sat_(lst, j)])))
            out.append(Cand("list@%s holds the children's results" % w, f))
        return out

    def apply(self, eng, st, args, kw):
        st, a, func = self.bind(eng, st, args, kw)
        st = st.copy()
        for p in sorted(a):
            eng.learn(st, a[p])
        c = Ctx(eng, st, None, a)
        for f in self.arg_types(c):
            eng.oblige(st, "argument types of %s" % self.name, f)
        dom = self.domain(c)
        t = eng.target
        if t is not None and getattr(t[0], "group", None) == self.group and \
                not t[0].any_mode:
            eng.oblige(st, "recursive call of %s: domain" % self.name, dom)
            m, m0 = self.measure(c), t[0].measure(t[1])
            eng.oblige(st, "recursive call of %s decreases" % self.name,
                       z3.And(m < m0, m0 >= 0))
        for s, ok in eng.fork(st, self.okorder(c)):
            if not ok:
                yield s, eng.exc("ValueError")
                continue
            for y in self._apply(eng, s, a, func, dom):
                yield y

    def _apply(self, eng, st, a, func, dom):
        c = Ctx(eng, st, None, a)
        q = fresh("visited", SeqV)
        eng.seq_ty[q.decl().name()] = (eng.spec.ty("@Expansion"), st.next)
        s = st.assume(z3.Implies(dom, q == self.visit(c)))
        deep = self.shallow_known(c) is not True
        if deep:
            s = self.env_havoc(eng, s, dom)
        if isinstance(func, HookV):
            outs = [(s, ("end", None))]
            if "trace" in s.ghost:
                s = s.copy()
                s.ghost["trace"] = Cat(s.ghost["trace"], q)
                outs = [(s, ("end", None))]
        else:
            base = tree_base(eng, st, V.r(a["e"]), "tree" if deep else "kids")

            def body(s1, x):
                for s2, y in eng.call(s1, func, [x], {}):
                    if eng.raised(y):
                        yield s2, (EXC, y)
                        continue
                    fam = "tree" if deep else "kids"
                    eng.oblige(s2, "the callback leaves the tree structure alone",
                               agree[fam](HEAPS.of(eng, base, fam), HEAPS.of(eng, s2, fam),
                                          base.next))
                    yield s2, (NEXT, None)
            outs = eng.foreach(s, IterV("seq", seq=q), body, "map_expansion", None, None)
        for s2, (o, v) in outs:
            if o == EXC:
                yield s2, v
                continue
            if deep:
                s2 = self.env_havoc(eng, s2, dom)
                s3 = s2.assume(z3.Not(dom))
                if eng.feasible(s3):
                    for e in ("GrammarError", "TypeError", "JSGFImportError"):
                        yield s3, eng.exc(e)
            s4 = s2.copy()
            n = s4.next
            s4.next = fresh("next", Int)
            s4.pc.append(s4.next >= n)
            s4.ghost["nexts"] = s4.ghost.get("nexts", ()) + (s4.next,)
            arr = eng.arr(s4, "items")
            new = eng.havoc_field(s4, "items", "mx")
            qq = z3.Int("q!mx")
            s4.pc.append(z3.ForAll([qq], z3.Implies(qq < n, new[qq] == arr[qq]),
                                   patterns=[new[qq]]))
            s4.pc.append(eng.closed_items(s4))
            x = fresh("mapres", V)
            eng.const_ty[x.decl().name()] = eng.spec.ty("=tuple")
            eng.const_ub[x.decl().name()] = s4.next
            eng.learn(s4, x)
            if isinstance(func, HookV):
                c4 = Ctx(eng, st, s4, a, ret=x)
                s4.pc.append(z3.Implies(dom, self.res(c4)))
            yield s4, T(x)

    def env_havoc(self, eng, st, dom):
        """resolving references may load imported grammars (outside the domain)"""
        s = st.copy()
        for f in ("dval", "dhas", "dkeys"):
            old = eng.arr(s, f)
            new = eng.havoc_field(s, f, "env")
            q = z3.Int("q!env")
            s.pc.append(z3.Implies(dom, z3.ForAll([q], z3.Implies(
                q < st.next, new[q] == old[q]), patterns=[new[q]])))
        return s


class MapExpansionAny(MapExpansion):
    """the same function on any tree: the callback only ever gets expansions"""
    any_mode = True
    variant = "any tree"
    allow = raises = ("ValueError", "GrammarError", "TypeError", "JSGFImportError")


def hook(kind, check=False):
    """a pure callback; its calls are recorded in the ghost trace"""
    def call(eng, st, args):
        t = args[0].t
        if check:
            eng.oblige(st, "the callback is given an expansion",
                       eng.spec.isref(t, "Expansion"))
        st = st.copy()
        if "trace" in st.ghost:
            st.ghost["trace"] = Cat(st.ghost["trace"], Unit(t))
        x = fres(t)
        yield st, T(x if kind == "map" else V.B(ptrue(t)))
    return HookV(kind, call)


class ReferencedRule(Contract):
    cls, member, kind = "NamedRuleRef", "referenced_rule", "get"
    params = ("self",)
    types = {"self": "@NamedRuleRef"}
    ret_type = "@Rule"
    allocates = True
    raises = ("GrammarError", "TypeError", "JSGFImportError")
    touch = {"dval": None, "dhas": None, "dkeys": None}

    def ensures(self, c):
        H, x = c.H("tree"), c.ref("self")
        ok = resolvable(c.eng.spec, H, x)
        return [("the rule named by the reference",
                 z3.Implies(ok, c.ret == V.R(rloc(H, x))))] + local_frame(c, ok)

    def ensures_exc(self, c):
        return [("raises only when the reference does not resolve",
                 z3.Not(resolvable(c.eng.spec, c.H("tree"), c.ref("self"))))]


def unchanged(eng, pre, post, fields):
    out = []
    q = z3.Int("q!unc")
    for f in fields:
        a, b = eng.arr(pre, f), eng.arr(post, f)
        out.append(z3.ForAll([q], z3.Implies(q < pre.next, b[q] == a[q]),
                             patterns=[b[q]]))
    return z3.And(out)


def local_frame(c, ok):
    return [("a local rule is found without loading imports", z3.Implies(ok, unchanged(
        c.eng, c.pre, c.post, ("dval", "dhas", "dkeys"))))]


class GetRule(Contract):
    cls, member = "Grammar", "get_rule_from_name"
    params = ("self", "name")
    types = {"self": "@Grammar"}
    ret_type = "@Rule"
    allocates = True
    raises = ("GrammarError", "TypeError", "JSGFImportError")
    touch = {"dval": None, "dhas": None, "dkeys": None}

    def rules(self, c):
        return c.eng.items(c.pre, V.r(c.old("_rules", c.ref("self"))))

    def plain(self, c):
        cls = c.eng.prog.classes
        return z3.Or([typ(c.ref("self")) == cls[n].id for n in ("Grammar", "RootGrammar")
                      if n in cls])

    def local(self, c):
        n = c.a["name"]
        rs = self.rules(c)
        return z3.And(self.plain(c), V.is_S(n), okref(V.s(n)),
                      z3.Not(named(c.H("tree"), n, rs, slen(rs))))

    def ensures(self, c):
        n, rs, H = c.a["name"], self.rules(c), c.H("tree")
        return [
            ("only a valid reference name is looked up", z3.And(V.is_S(n), okref(V.s(n)))),
            ("the first local rule with the name is returned", z3.Implies(
                self.local(c), c.ret == sat_(rs, fidx(H, n, rs))))] + \
            local_frame(c, self.local(c))

    def ensures_exc(self, c):
        return [("raises only when no local rule has the name", z3.Not(self.local(c)))]

    def fold_terms(self, c):
        return [(named, c.H("tree"), [c.a["name"]])]

    def extra_cands(self, c, ctx):
        H, n = c.H("tree"), c.a["name"]
        out = [Cand("no rule so far has the name", lambda e, s0, s, i, q: named(
            H, n, q, i) if q is not None else None)]
        for wr in ctx.writes.get("items", []):
            wr = simp(wr)
            if not c.eng.loop_invariant_term(wr, ctx):
                continue

            def collected(e, s0, s, i, q, wr=wr):
                if q is None:
                    return None
                lst, k = e.items(s, wr), fidx(H, n, q)
                return z3.If(slen(lst) == 0, named(H, n, q, i), z3.And(
                    z3.Not(named(H, n, q, i)), sat_(lst, z3.IntVal(0)) == sat_(q, k),
                    0 <= k, k < i))
            out.append(Cand("list@%s: those with the name so far" % wr, collected))
        return out


def new_list_result(eng, c, elems):
    """a new list whose elements have the given type"""
    st = c.post
    r = simp(c.pre.next)
    st.pc.append(typ(r) == eng.prog.classes["list"].id)
    st.pc.append(st.next > r)
    st.hints[r.get_id()] = (frozenset(["list"]), r)
    st.ghost["fresh"] = st.ghost.get("fresh", ()) + (r,)
    q = fresh("elems", SeqV)
    eng.seq_ty[q.decl().name()] = (eng.spec.ty(elems), c.pre.next)
    st.heap["items"] = z3.Store(eng.arr(st, "items"), r, q)
    return T(V.R(r))


class GrammarRules(Contract):
    cls, member, kind = "Grammar", "rules", "get"
    params = ("self",)
    types = {"self": "@Grammar"}
    ret_type = "=list"
    ret_elems = "@Rule"
    allocates = True

    def reads(self, c):
        return [c.old("_rules", c.ref("self"))]

    def result(self, eng, c):
        """a new list of rules"""
        return new_list_result(eng, c, "@Rule")

    def ensures(self, c):
        cls = c.eng.prog.classes
        plain = z3.Or([typ(c.ref("self")) == cls[n].id for n in ("Grammar", "RootGrammar")
                       if n in cls])
        q = c.eng.items(c.post, un("R", c.ret))
        src = c.eng.items(c.pre, V.r(c.old("_rules", c.ref("self"))))
        return [("a copy of the list of rules", z3.Implies(plain, seq_eq(q, src))),
                ("a new list", z3.And(un("R", c.ret) >= c.n0))]


class MatchRules(GrammarRules):
    """(used for the grammar a DictationGrammar keeps its JSGF-only rules in)"""
    member = "match_rules"

    def ensures(self, c):
        return GrammarRules.ensures(self, c)[1:]


class ResolveImports(Contract):
    cls, member = "Grammar", "resolve_imports"
    params = ("self", "memo", "file_exts")
    defaults = {"memo": None, "file_exts": None}
    allocates = True
    trusted = True
    raises = ("GrammarError", "JSGFImportError", "TypeError")
    touch = {"dval": None, "dhas": None, "dkeys": None}


class ImportResolve(Contract):
    cls, member = "Import", "resolve"
    params = ("self", "memo", "file_exts")
    defaults = {"memo": None, "file_exts": None}
    allocates = True
    trusted = True
    ret_type = "@Rule"
    raises = ("GrammarError", "JSGFImportError", "TypeError")
    touch = {"dval": None, "dhas": None, "dkeys": None}


CONTRACTS = [MapExpansion(), ReferencedRule(), GetRule(), GrammarRules(), MatchRules(),
             ResolveImports(), ImportResolve()]
