"""Generated strings (C13)."""
import z3
from .model import *
from . import theory as TH
from .theory import HEAPS, HeapS, Fold, AllQ, SpecFn, sel, unf
from .world import Contract, Ctx, World, hkey, CONCRETE
from .engine import T, Cand, Unsupported
from .solve import Lemma
from . import comp, trav, gram
from .comp import kids, text_of, JOIN, wnum, weight, nonempty_w
from .trav import resolvable, rloc, rexp, unchanged

SV = z3.StringVal
Z, ONE = z3.IntVal(0), z3.IntVal(1)
# lang(H, x, s): s is a phrase of the expansion x; the least relation closed under the
# rules of theory() (only introduction rules are needed, and only those are given)
lang = SpecFn("phrase", "gen", [Str], Bool)
gfin = SpecFn("generable", "gen", [], Bool)
grk = SpecFn("gen_rank", "gen", [], Int)
# k is an alternative of x whose weight is positive
posalt = z3.Function("positive_alternative", HeapS, Int, V, Bool)
# the strings without the empty ones
full = Fold("nonempty_strings", "gen", [], SeqV, lambda H: EMPTY,
            lambda H, a, k: z3.If(k == vs(""), a, Cat(a, Unit(k))), no_agree=True)
# the first i of q are phrases of the first i expansions of ks / of the expansion x
each = z3.Function("phrases_of_each", HeapS, SeqV, SeqV, Int, Bool)
eachof = z3.Function("phrases_of", HeapS, Int, SeqV, Int, Bool)
# a holds a phrase of each of the first i expansions of ks, in order, without the empty ones
packed = z3.Function("nonempty_phrases_of_each", HeapS, SeqV, Int, SeqV, Bool)
positive = lambda H, x, k: wnum(weight(H, x, k)) > 0
nopos = AllQ("none_positive", "gen", [Int], lambda H, x, k: z3.Not(positive(H, x, k)),
             no_agree=True)
FNS = [lang, gfin, grk, SpecFn("hkey", "gen", [], Int)]
FOLDS = [full, nopos]


def theory(w):
    H, x, s, q = z3.Const("H!g", HeapS), z3.Int("x!g"), z3.Const("s!g", Str), \
        z3.Const("q!g", SeqV)
    i, n, y = z3.Ints("i!g n!g y!g")
    p, k = z3.Const("p!g", SeqV), z3.Const("k!g", V)
    sp = z3.Const("sp!g", Str)
    cls = w.prog.classes
    mp = z3.MultiPattern
    U = unf(x)
    ks = kids(H, x)
    m = slen(ks)
    kid = V.r(sat_(ks, i))
    kid0 = V.r(sat_(ks, Z))
    F = z3.ForAll

    def only(*ns):
        return z3.Or([typ(x) == cls[c].id for c in ns if c in cls] + [z3.BoolVal(False)])
    seqs = only("Sequence", "RequiredGrouping")
    alts = only("AlternativeSet", "ParsedAlternativeSet")
    opt, rep, star = only("OptionalGrouping"), only("Repeat"), only("KleeneStar")
    refs = only("NamedRuleRef", "RuleRef")
    L = lang
    ok = lambda a, j, r: z3.And(V.is_S(sat_(a, j)), L(H, r, V.s(sat_(a, j))))
    out = [
        F([H, p, q, n], each(H, p, q, n) == F([i], z3.Implies(
            z3.And(0 <= i, i < n), ok(q, i, V.r(sat_(p, i)))),
            patterns=[sat_(q, i)]), patterns=[each(H, p, q, n)]),
        F([H, y, q, n], eachof(H, y, q, n) == F([i], z3.Implies(
            z3.And(0 <= i, i < n), ok(q, i, y)), patterns=[sat_(q, i)]),
          patterns=[eachof(H, y, q, n)]),
        # --- introduction rules
        F([H, x], z3.Implies(only("Literal"), L(H, x, text_of(H, x))),
          patterns=[mp(U, gfin(H, x))]),
        F([H, x], z3.Implies(only("NullRef"), L(H, x, SV(""))),
          patterns=[mp(U, gfin(H, x))]),
        F([H, x, q, n], z3.Implies(z3.And(seqs, n == m, n == slen(q), each(H, ks, q, n)),
                                   L(H, x, JOIN(SV(" "), full(H, q, n)))),
          patterns=[mp(U, full(H, q, n))]),
        F([H, x, q, sp], z3.Implies(z3.And(seqs, sp == SV(" "), m == slen(q),
                                           each(H, ks, q, m)), L(H, x, JOIN(sp, q))),
          patterns=[mp(gfin(H, x), JOIN(sp, q))]),
        F([H, p], packed(H, p, Z, EMPTY), patterns=[packed(H, p, Z, EMPTY)]),
        F([H, p, i, q, s], z3.Implies(
            z3.And(0 <= i, i < slen(p), packed(H, p, i, q), L(H, V.r(sat_(p, i)), s)),
            z3.If(s == SV(""), packed(H, p, i + 1, q),
                  packed(H, p, i + 1, scat(q, sunit(V.S(s)))))),
          patterns=[mp(packed(H, p, i, q), L(H, V.r(sat_(p, i)), s))]),
        F([H, x, q, sp], z3.Implies(z3.And(seqs, sp == SV(" "), packed(H, ks, m, q)),
                                    L(H, x, JOIN(sp, q))),
          patterns=[mp(gfin(H, x), JOIN(sp, q))]),
        F([H, x], z3.Implies(z3.Or(opt, star), L(H, x, SV(""))),
          patterns=[mp(U, gfin(H, x))]),
        F([H, x, s], z3.Implies(z3.And(opt, L(H, kid0, s)), L(H, x, s)),
          patterns=[mp(U, L(H, kid0, s)), mp(U, L(H, x, s))]),
        F([H, x, q, sp], z3.Implies(z3.And(
            z3.Or(z3.And(rep, slen(q) > 0), star), sp == SV(" "),
            eachof(H, kid0, q, slen(q))), L(H, x, JOIN(sp, q))),
          patterns=[mp(gfin(H, x), JOIN(sp, q))]),
        F([H, x, q, n], z3.Implies(z3.And(
            z3.Or(z3.And(rep, slen(q) > 0), star), n == slen(q), eachof(H, kid0, q, n)),
            L(H, x, JOIN(SV(" "), full(H, q, n)))), patterns=[mp(U, full(H, q, n))]),
        F([H, x, s], z3.Implies(z3.And(refs, L(H, rexp(H, x), s)), L(H, x, s)),
          patterns=[mp(U, L(H, x, s))]),
        # alternatives: any one without weights, one of positive weight with weights (any
        # if none is positive)
        F([H, x, i], z3.Implies(z3.And(alts, 0 <= i, i < m), posalt(H, x, sat_(ks, i)) == z3.Or(
            z3.Not(nonempty_w(H, x)), positive(H, x, sat_(ks, i)), nopos(H, x, ks, m))),
          patterns=[mp(gfin(H, x), sat_(ks, i))]),
        F([H, x, k, s], z3.Implies(z3.And(alts, posalt(H, x, k), L(H, V.r(k), s)),
                                   L(H, x, s)),
          patterns=[mp(posalt(H, x, k), L(H, V.r(k), s)),
                    mp(posalt(H, x, k), L(H, x, s))]),
    ]
    # (a positive alternative is one of the alternatives)
    out.append(F([H, x, k], z3.Implies(z3.And(alts, gfin(H, x), posalt(H, x, k)), z3.And(
        gfin(H, V.r(k)), grk(H, V.r(k)) < grk(H, x))),
        patterns=[mp(gfin(H, x), posalt(H, x, k))]))
    # --- the domain: finite, references resolve to enabled rules, no <VOID>
    down = lambda z: z3.And(gfin(H, z), grk(H, z) < grk(H, x))
    every = F([i], z3.Implies(z3.And(0 <= i, i < m), down(kid)), patterns=[sat_(ks, i)])
    out.append(F([H, x], z3.And(grk(H, x) >= 0, z3.Implies(gfin(H, x), z3.And(
        z3.Not(only("VoidRef", "Dictation")),
        z3.Implies(refs, z3.And(
            resolvable(w, H, x), sel(H, "_active")[rloc(H, x)] == vb(True),
            gfin(H, rexp(H, x)), grk(H, rexp(H, x)) + 1 < grk(H, x))),
        z3.Implies(z3.Or(seqs, alts, opt, rep, star), every),
        z3.Implies(z3.Or(opt, rep, star), m == 1),
        z3.Implies(alts, z3.And(m > 0, z3.Implies(
            nonempty_w(H, x), comp.allw(H, x, ks, m))))))),
        patterns=[mp(U, gfin(H, x))]))
    return out


class Generate(Contract):
    cls, member = "Expansion", "generate"
    params = ("self",)
    types = {"self": "@Expansion"}
    ret_type = "S"
    allocates = True
    group = "generate"

    def H(self, c):
        return c.H("gen")

    def requires(self, c):
        return [("the tree is finite, its references name enabled rules, no <VOID>",
                 gfin(c.H("gen"), c.ref("self")))]

    def measure(self, c):
        return grk(c.H("gen"), c.ref("self"))

    def unfold_at(self, c):
        return [c.ref("self")]

    def ensures(self, c):
        return [("the generated string is a phrase of the expansion",
                 lang(c.H("gen"), c.ref("self"), V.s(c.ret)))]

    def fold_terms(self, c):
        return [(full, c.H("gen"), [])]

    def folds(self, c):
        return [("the nonempty ones", lambda q, i: full(c.H("gen"), q, i))]

    def extra_cands(self, c, ctx):
        H, x = c.H("gen"), c.ref("self")
        out = []
        ks = kids(H, x)
        j = z3.Int("j!gc")
        for wr in ctx.writes.get("items", []):
            wr = simp(wr)
            if not c.eng.loop_invariant_term(wr, ctx):
                continue

            def cand(f, wr=wr):
                return lambda e, s0, s, i, q: f(e, s0, s, i, q, e.items(s, wr))

            def longer(e, s0, s, i, q, lst):
                return slen(lst) == slen(e.items(s0, wr)) + i

            def of_each(e, s0, s, i, q, lst):
                return None if q is None else each(H, q, lst, i)

            def nonempty(e, s0, s, i, q, lst):
                return None if q is None else packed(H, q, i, lst)

            def of_child(e, s0, s, i, q, lst):
                return eachof(H, V.r(sat_(ks, Z)), lst, i)

            def weighted(e, s0, s, i, q, lst):
                t = TH.tupit(V.r(sat_(lst, j)))
                return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < slen(lst)), z3.And(
                    V.is_R(sat_(lst, j)), V.r(sat_(lst, j)) < s.next,
                    typ(V.r(sat_(lst, j))) == e.prog.classes["tuple"].id, slen(t) == 2,
                    posalt(H, x, sat_(t, Z)), V.is_R(sat_(t, Z)),
                    V.r(sat_(t, Z)) < c.n0,
                    e.spec.is_a(V.r(sat_(t, Z)), "Expansion"),
                    z3.Or(V.is_F(sat_(t, ONE)), V.is_I(sat_(t, ONE))),
                    wnum(sat_(t, ONE)) > 0)), patterns=[sat_(lst, j)])

            def numbers(e, s0, s, i, q, lst):
                v = sat_(lst, j)
                return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < slen(lst)), z3.And(
                    z3.Or(V.is_F(v), V.is_I(v)), wnum(v) > 0)), patterns=[v])

            def kept(e, s0, s, i, q, lst):
                if q is None:
                    return None
                return z3.Implies(slen(lst) == 0, nopos(H, x, q, i))
            names = c.eng.quick_classes(c.pre, x) or ()
            cls = c.eng.prog.classes
            isa = lambda n: any(cls[k].issub(cls[n]) for k in names)
            fs = [("grows by one", longer), ("phrases of each", of_each)]
            if isa("VariableChildExpansion"):
                fs.append(("nonempty phrases of each", nonempty))
            if isa("SingleChildExpansion"):
                fs.append(("phrases of the child", of_child))
            if isa("AlternativeSet"):
                fs += [("positive numbers", numbers),
                       ("alternatives of positive weight", weighted),
                       ("all alternatives of positive weight are kept", kept)]
            for n, f in fs:
                out.append(Cand("list@%s: %s" % (wr, n), cand(f)))
        out.append(Cand("elements so far weighted", lambda e, s0, s, i, q: comp.allw(
            H, x, q, i) if q is not None else None))
        return out


class RuleGenerate(Contract):
    cls, member = "Rule", "generate"
    params = ("self",)
    types = {"self": "@Rule"}
    ret_type = "S"
    allocates = True
    group = "generate"

    def reads(self, c):
        return [c.old("_expansion", c.ref("self"))]

    def root(self, c):
        return V.r(c.old("_expansion", c.ref("self")))

    def requires(self, c):
        return [("the rule is enabled", c.old("_active", c.ref("self")) == vb(True)),
                ("its tree is finite, its references name enabled rules, no <VOID>",
                 gfin(c.H("gen"), self.root(c)))]

    def unfold_at(self, c):
        return [self.root(c)]

    def measure(self, c):
        return grk(c.H("gen"), self.root(c)) + 1

    def ensures(self, c):
        return [("the generated string is a phrase of the rule's expansion",
                 lang(c.H("gen"), self.root(c), V.s(c.ret)))]


LOG = UF("math.log", Real, Real, Real)


class GenWorld(gram.GramWorld):
    feas_timeout = 100
    prove_timeout = 2500

    def dkey(self, eng, st, t):
        if eng.kind(st, t, ("R", "S", "I")) == "R":
            r = un("R", t)
            if eng.entails(st, self.is_a(r, "Expansion")):
                return V.R(hkey(HEAPS.of(eng, st, "gen"), r))
        return gram.GramWorld.dkey(self, eng, st, t)

    def ext_call(self, eng, st, name, args, kw):
        if name == "random.random" and not args:
            st = st.copy()
            x = fresh("rnd", Real)
            st.pc += [x > 0, x < 1]
            return iter([(st, T(V.F(x)))])
        if name == "math.log" and len(args) == 2:
            return self.log(eng, st, args)
        if name == "random.choice" and len(args) == 1:
            return self.choice(eng, st, args[0])
        return gram.GramWorld.ext_call(self, eng, st, name, args, kw)

    def log(self, eng, st, args):
        a, b = [eng.num(st, x) for x in args]
        a, b = [z3.ToReal(x) if x.sort() == Int else x for x in (a, b)]
        for s, ok in eng.fork(st, z3.And(a > 0, b > 0, b != 1)):
            if not ok:
                yield s, eng.exc("ValueError")
                continue
            s = s.copy()
            r = LOG(a, b)
            # decreasing for a base below one, with log(b, b) = 1
            s.pc += [z3.Implies(z3.And(b < 1, a <= b), r >= 1),
                     z3.Implies(z3.And(b < 1, b <= a, a <= 1), z3.And(0 <= r, r <= 1))]
            yield s, T(V.F(r))

    def choice(self, eng, st, v):
        for s, n in eng.call_ext(st, "builtins.len", [v], {}):
            if eng.raised(n):
                yield s, n
                continue
            for s2, ok in eng.fork(s, un("I", n.t) > 0):
                if not ok:
                    yield s2, eng.exc("IndexError")
                    continue
                s2 = s2.copy()
                k = fresh("pick", Int)
                s2.pc += [0 <= k, k < un("I", n.t)]
                for y in eng.getitem(s2, v, T(V.I(k))):
                    yield y


def world(prog):
    fns, folds = FNS + trav.FNS, FOLDS + trav.FOLDS + [comp.allw]
    w = GenWorld(prog, [Generate(), RuleGenerate()] + trav.CONTRACTS, fns, folds, [],
                 concrete=dict(gram.PLAIN, Expansion=[
                     c for c in CONCRETE["Expansion"] if c not in ("VoidRef", "Dictation")]))
    w.variants = []
    w.theory = theory(w) + trav.theory(w)
    w.lemma_axioms = seq_axioms() + TH.agree_axioms(fns, folds) + w.theory
    return w


def lemmas(w):
    return []
