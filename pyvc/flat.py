"""Flat map, filter and find over expansion trees (C05)."""
import z3
from .model import *
from . import theory as TH
from .theory import HEAPS, HeapS
from .solve import Lemma
from .world import Contract, Ctx, World
from .engine import T, Cand, HookV, Unsupported
from . import comp, trav
from .trav import (Traversal, filt, mapped, flatS, flatD, visS, visD, ptrue, unchanged)

# the first element that satisfies the predicate, or None
first = z3.Function("first_true", SeqV, V)


def theory():
    a, b, v = z3.Const("a!ft", SeqV), z3.Const("b!ft", SeqV), z3.Const("v!ft", V)
    return [
        first(EMPTY) == NONE,
        z3.ForAll([v], first(Unit(v)) == z3.If(ptrue(v), v, NONE),
                  patterns=[first(sunit(v))]),
        z3.ForAll([a, b], first(scat(a, b)) == z3.If(first(a) != NONE, first(a), first(b)),
                  patterns=[first(scat(a, b))])]


def prefix_lemma():
    """what is found among the first children is what is found among all of them"""
    H, q, p = z3.Const("H!fp", HeapS), z3.Const("q!fp", SeqV), z3.Bool("p!fp")
    i, n = z3.Ints("i!fp n!fp")
    return [z3.ForAll([H, p, q, i, n], z3.Implies(
        z3.And(0 <= i, i <= n, n <= slen(q), first(F(H, p, q, i)) != NONE),
        first(F(H, p, q, n)) == first(F(H, p, q, i))),
        patterns=[z3.MultiPattern(F(H, p, q, i), F(H, p, q, n))]) for F in (flatS, flatD)]


class Find(Traversal):
    fn = "jsgf.expansions.find_expansion"
    group = "find"
    hook_kind = "pred"
    ret_type = "None|@Expansion"

    def init_ghost(self, eng, st):
        pass

    def ensures(self, c):
        return [("the first expansion in visit order that satisfies the predicate, or "
                 "None", c.ret == first(self.visit(c))),
                ("only a known order is accepted", self.okorder(c))] + self.untouched(c)

    def ensures_exc(self, c):
        return [("raises only for an unknown order", z3.Not(self.okorder(c)))]

    def extra_cands(self, c, ctx):
        p = self.post_order(c)
        out = []
        for F, H in ((flatS, c.H("kids")), (flatD, c.H("tree"))):
            out.append(Cand("none of the expansions so far satisfies the predicate (%s)" %
                            F.name, lambda e, s0, s, i, q, F=F, H=H: first(
                                F(H, p, q, i)) == NONE if q is not None else None))
        if "dval" in ctx.fields:
            out.append(Cand("no dict changed so far", lambda e, s0, s, i, q: unchanged(
                e, c.pre, s, ("dval", "dhas", "dkeys"))))
        return out

    def apply(self, eng, st, args, kw):
        st, a, func = self.bind(eng, st, args, kw)
        if not isinstance(func, HookV):
            raise Unsupported("find_expansion with a function of the library")
        st = st.copy()
        for p in sorted(a):
            eng.learn(st, a[p])
        c = Ctx(eng, st, None, a)
        for f in self.arg_types(c):
            eng.oblige(st, "argument types of %s" % self.name, f)
        eng.oblige(st, "precondition of %s: the tree is finite and its references "
                   "resolve" % self.name, self.domain(c))
        st = st.assume(self.domain(c))
        t = eng.target
        if t is not None and getattr(t[0], "group", None) == self.group:
            m, m0 = self.measure(c), t[0].measure(t[1])
            eng.oblige(st, "recursive call of %s decreases" % self.name,
                       z3.And(m < m0, m0 >= 0))
        for s, ok in eng.fork(st, self.okorder(c)):
            if not ok:
                yield s, eng.exc("ValueError")
                continue
            c = Ctx(eng, s, None, a)
            post = self.post_state(eng, s, c)
            c = Ctx(eng, s, post, a)
            v = self.result(eng, c)
            c.ret = v.t
            post = post.assume(*[f for _, f in self.ensures(c)])
            eng.learn(post, v.t)
            yield post, v


class FlatMap(Traversal):
    fn = "jsgf.expansions.flat_map_expansion"
    group = None
    ret_type = "=list"
    fold = mapped
    what = "the results of the callback, in visit order"

    def ensures(self, c):
        q = self.visit(c)
        F = self.fold
        return [(self.what, seq_eq(c.eng.items(c.post, un("R", c.ret)),
                                   F(c.H("kids"), q, slen(q)))),
                ("the callback is called once per node, in visit order",
                 self.trace_post(c) == Cat(self.trace_pre(c), q)),
                ("a new list", un("R", c.ret) >= c.n0),
                ("only a known order is accepted", self.okorder(c))] + self.untouched(c)

    def ensures_exc(self, c):
        return [("raises only for an unknown order", z3.Not(self.okorder(c))),
                ("nothing is called then", self.trace_post(c) == self.trace_pre(c))]

    def fold_terms(self, c):
        return [(self.fold, c.H("kids"), [])]

    def folds(self, c):
        return [(self.fold.name, lambda q, i: self.fold(c.H("kids"), q, i)),
                ("visited so far", lambda q, i: Sub(q, 0, i))]


class Filter(FlatMap):
    fn = "jsgf.expansions.filter_expansion"
    hook_kind = "pred"
    fold = filt
    what = "exactly the expansions that satisfy the predicate, in visit order"


def world(prog):
    w = comp.world(prog)
    w.theory = w.theory + theory() + prefix_lemma()
    w.lemma_axioms = w.lemma_axioms + theory()
    w.contracts.append(Find())
    w.variants = w.variants + [FlatMap(), Filter()]
    return w


def lemmas(w):
    H, q, p = z3.Const("H!fp", HeapS), z3.Const("q!fp", SeqV), z3.Bool("p!fp")
    i, n = z3.Ints("i!fp n!fp")
    out = []
    for F in (flatS, flatD):
        def same(t):
            return first(F(H, p, q, t)) == first(F(H, p, q, i))
        pre = [0 <= i, i <= n, n < slen(q), first(F(H, p, q, i)) != NONE]
        out.append(Lemma("found early, found (%s)" % F.name, [
            ("base", [0 <= i, i <= slen(q), n == i], same(n)),
            ("step", pre + F.unfold(H, [p], q, n + 1) + [same(n)], same(n + 1))],
            w.lemma_axioms))
    return out
