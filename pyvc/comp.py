"""Specification of JSGF text of an expansion (property C01, used by C02)."""
import z3
from .model import *
from . import theory as TH
from .theory import sel, unf, agree, HeapS, SpecFn, Fold
from .world import Contract, Ctx, hkey, World, OWNED
from .engine import hom_apply, T, Cand
from .solve import Lemma

JSGF_ESC = {"\\": "\\\\", "{": "\\{", "}": "\\}"}
ESC = lambda x: hom_apply(x, JSGF_ESC)
LOWER = UF("str.lower", Str, Str)
JOIN = UF("str.join", Str, SeqV, Str)
W4 = UF("fmt:.4f", Real, Str)
SV = z3.StringVal


def klist(H, x):
    return V.r(sel(H, "_list")[V.r(sel(H, "_children")[x])])


def kids(H, x):
    return sel(H, "items")[V.r(sel(H, "_list")[V.r(sel(H, "_children")[x])])]


def tag_of(H, x):
    return V.s(sel(H, "_tag")[x])


def text_of(H, x):
    t = V.s(sel(H, "_text")[x])
    return z3.If(V.b(sel(H, "_case_sensitive")[x]), t, LOWER(t))


def tagtxt(H, x, ig):
    t = tag_of(H, x)
    return z3.If(z3.Or(ig, t == SV("")), SV(""), z3.Concat(SV(" { "), ESC(t), SV(" }")))


comp = SpecFn("jsgf", "comp", [Bool], Str)          # jsgf(H, x, ignore_tags)
okc = SpecFn("compilable", "comp", [], Bool)
tree = SpecFn("tree", "comp", [], Bool)             # well-founded child tree (+ domain)
solid = SpecFn("solid", "comp", [], Bool)           # no empty grouping in the subtree
ht = SpecFn("ht", "comp", [], Int)

mapcomp = Fold("jsgf_each", "comp", [Bool], SeqV, lambda H, ig: EMPTY,
               lambda H, ig, a, k: Cat(a, Unit(V.S(comp(H, V.r(k), ig)))))


def weight(H, x, k):
    d = V.r(sel(H, "_weights")[x])
    return sel(H, "dval")[d][V.R(hkey(H, V.r(k)))]


def wnum(v):
    return z3.If(V.is_F(v), V.f(v), z3.ToReal(V.i(v)))


# weighted: extra arg = the alternative set
mapwcomp = Fold("jsgf_each_weighted", "comp", [Int, Bool], SeqV,
                lambda H, x, ig: EMPTY,
                lambda H, x, ig, a, k: Cat(a, Unit(V.S(z3.Concat(
                    SV("/"), W4(wnum(weight(H, x, k))), SV("/ "),
                    comp(H, V.r(k), ig))))), no_agree=True)
allok = TH.AllQ("all_compilable", "comp", [], lambda H, k: okc(H, V.r(k)))
allw = TH.AllQ("all_weighted", "comp", [Int], lambda H, x, k: sel(H, "dhas")[
    V.r(sel(H, "_weights")[x])][V.R(hkey(H, V.r(k)))], no_agree=True)

mx = Fold("max_height", "comp", [], Int, lambda H: z3.IntVal(0),
          lambda H, a, k: z3.If(ht(H, V.r(k)) > a, ht(H, V.r(k)), a))

FNS = [comp, okc, tree, solid, ht,
       SpecFn("hkey", "comp", [], Int)]
FOLDS = [mapcomp, mapwcomp, allok, allw, mx]

# filled(H0, H1, m, m1): H1 (allocated below m1) differs from H0 (allocated below m) only
# by empty groupings that were given one fresh <NULL> child
sim = z3.Function("filled", HeapS, HeapS, Int, Int, Bool)


def nonempty_w(H, x):
    return slen(sel(H, "dkeys")[V.r(sel(H, "_weights")[x])]) > 0


def theory(w):
    """unfolding axioms, per class"""
    H, x, ig = z3.Const("H!t", HeapS), z3.Int("x!t"), z3.Bool("ig!t")
    i = z3.Int("i!t")
    cls = w.prog.classes

    def isa(n):
        if n not in cls:
            return z3.BoolVal(False)
        return z3.Or([typ(x) == c.id for c in cls.values() if c.issub(cls[n])])

    def only(*ns):
        return z3.Or([typ(x) == cls[n].id for n in ns if n in cls])
    ks = kids(H, x)
    n = slen(ks)
    NUL = SV("<NULL>")
    tt = tagtxt(H, x, ig)
    seqtxt = z3.If(n == 0, NUL, JOIN(SV(" "), mapcomp(H, ig, ks, n)))
    one = z3.If(n == 0, NUL, comp(H, V.r(sat_(ks, z3.IntVal(0))), ig))
    alts = z3.If(nonempty_w(H, x), JOIN(SV("|"), mapwcomp(H, x, ig, ks, n)),
                 z3.If(n == 0, NUL, JOIN(SV("|"), mapcomp(H, ig, ks, n))))
    cases = [
        (only("Literal"), z3.Concat(text_of(H, x), tt)),
        (only("Dictation"), z3.Concat(SV("<DICTATION>"), tt)),
        (only("NamedRuleRef", "RuleRef", "NullRef", "VoidRef"),
         z3.Concat(SV("<"), V.s(sel(H, "_name")[x]), SV(">"), tt)),
        (only("Sequence"), z3.Concat(seqtxt, tt)),
        (only("RequiredGrouping"), z3.Concat(SV("("), seqtxt, SV(")"), tt)),
        (only("Repeat"), z3.Concat(SV("("), one, SV(")+"), tt)),
        (only("KleeneStar"), z3.Concat(SV("("), one, SV(")*"), tt)),
        (only("OptionalGrouping"), z3.Concat(SV("["), one, SV("]"), tt)),
        (only("AlternativeSet", "ParsedAlternativeSet"),
         z3.Concat(SV("("), alts, SV(")"), tt)),
    ]
    U = unf(x)
    mp = lambda *t: z3.MultiPattern(*t)
    out = []
    for g, d in cases:
        out.append(z3.ForAll([H, x, ig], z3.Implies(
            z3.And(tree(H, x), g), comp(H, x, ig) == d),
                             patterns=[mp(U, comp(H, x, ig))]))
    single = z3.Or(isa("SingleChildExpansion"))
    altset = isa("AlternativeSet")
    grp = z3.Or(isa("ExpansionWithChildren"))
    okcases = [
        (only("Literal"), text_of(H, x) != SV("")),
        (only("Dictation", "NamedRuleRef", "RuleRef", "NullRef", "VoidRef"),
         z3.BoolVal(True)),
        (z3.And(grp, z3.Not(altset), z3.Not(single)), allok(H, ks, n)),
        (single, z3.Or(n == 0, okc(H, V.r(sat_(ks, z3.IntVal(0)))))),
        (altset, z3.And(z3.Or(n == 0, allok(H, ks, n)), z3.Implies(
            nonempty_w(H, x), allw(H, x, ks, n)))),
    ]
    T_ = tree(H, x)
    for g, d in okcases:
        out.append(z3.ForAll([H, x], z3.Implies(z3.And(T_, g), okc(H, x) == d),
                             patterns=[mp(U, okc(H, x))]))
    k = V.r(sat_(ks, i))
    out.append(z3.ForAll([H, x], z3.And(
        z3.Implies(grp, T_ == z3.And(
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                tree(H, k),
                z3.Implies(z3.And(altset, nonempty_w(H, x)), solid(H, k)))),
                patterns=[sat_(ks, i)]),
            z3.Implies(single, n <= 1),
            z3.Implies(z3.And(altset, nonempty_w(H, x)), n > 0))),
        z3.Implies(z3.Not(grp), T_)), patterns=[mp(U, T_)]))
    out.append(z3.ForAll([H, x], z3.Implies(T_, ht(H, x) == z3.If(
        grp, 1 + mx(H, ks, n), 0)), patterns=[mp(U, ht(H, x))]))
    out.append(z3.ForAll([H, x], z3.Implies(T_, z3.And(
        z3.Implies(z3.Not(grp), solid(H, x) == z3.Not(only("Dictation"))),
        z3.Implies(grp, solid(H, x) == z3.And(
            n > 0,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), solid(H, k)),
                      patterns=[sat_(ks, i)]))))), patterns=[mp(U, solid(H, x))]))
    # has_weights: the weights dict is non-empty (an invariant ties dkeys to dhas)
    H0, H1, H2 = z3.Consts("H0!t H1!t H2!t", HeapS)
    m, m1, r = z3.Ints("m!t m1!t r!t")
    b = []
    grpids = [c.id for c in cls.values() if c.issub(cls["ExpansionWithChildren"])] \
        if "ExpansionWithChildren" in cls else []
    for f in TH.FAMS["comp"]:
        a0, a1 = sel(H0, f), sel(H1, f)
        if f != "items":
            b.append(z3.ForAll([r], z3.Implies(r < m, a1[r] == a0[r]), patterns=[a1[r]]))
    a0, a1 = sel(H0, "items"), sel(H1, "items")
    y = V.r(sat_(a1[r], z3.IntVal(0)))
    b.append(z3.ForAll([r], z3.Implies(r < m, z3.Or(
        a1[r] == a0[r],
        z3.And(slen(a0[r]) == 0, slen(a1[r]) == 1, V.is_R(sat_(a1[r], z3.IntVal(0))),
               y >= m, y < m1, typ(y) == cls["NullRef"].id, sel(H1, "_tag")[y] == vs(""),
               sel(H1, "_name")[y] == vs("NULL"), 
               z3.Or([typ(TH.xof(r)) == i for i in grpids])))),
        patterns=[a1[r]]))
    out.append(z3.ForAll([H0, H1, m, m1], sim(H0, H1, m, m1) == z3.And(b),
                         patterns=[sim(H0, H1, m, m1)]))
    return out


def height_lemma(w):
    """children are lower than their parent (proved in lemmas() below)"""
    H, x, i = z3.Const("H!h", HeapS), z3.Int("x!h"), z3.Int("i!h")
    ks = kids(H, x)
    n = slen(ks)
    k = V.r(sat_(ks, i))
    grp = groupings(w, x)
    return [z3.ForAll([H, x], z3.Implies(tree(H, x), z3.And(
        ht(H, x) >= 0, z3.Implies(grp, z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < n), ht(H, k) < ht(H, x)), patterns=[sat_(ks, i)])))),
        patterns=[z3.MultiPattern(unf(x), tree(H, x))])]


def groupings(w, x):
    cls = w.prog.classes
    return z3.Or([typ(x) == c.id for c in cls.values()
                  if "ExpansionWithChildren" in cls and
                  c.issub(cls["ExpansionWithChildren"])] + [z3.BoolVal(False)])


def sim_lemmas(w):
    """consequences of sim, proved by induction in lemmas() below"""
    H0, H1, H2 = z3.Consts("H0!l H1!l H2!l", HeapS)
    m, m1, m2, m3, x, i = z3.Ints("m!l m1!l m2!l m3!l x!l i!l")
    ig = z3.Bool("ig!l")
    s = z3.Const("s!l", SeqV)
    mp = z3.MultiPattern
    S = sim(H0, H1, m, m1)
    pre = z3.And(S, x < m, tree(H0, x))
    return [
        z3.ForAll([H0, H1, H2, m, m1, m2, m3], z3.Implies(
            z3.And(S, sim(H1, H2, m2, m3), m <= m1, m1 <= m2, m2 <= m3),
            sim(H0, H2, m, m3)), patterns=[mp(S, sim(H1, H2, m2, m3))]),
        z3.ForAll([H0, H1, m, m1, x, ig], z3.Implies(pre, comp(H1, x, ig) == comp(H0, x, ig)),
                  patterns=[mp(S, comp(H1, x, ig))]),
        z3.ForAll([H0, H1, m, m1, x], z3.Implies(pre, okc(H1, x) == okc(H0, x)),
                  patterns=[mp(S, okc(H1, x))]),
        z3.ForAll([H0, H1, m, m1, x], z3.Implies(pre, z3.And(
            tree(H1, x), ht(H1, x) == ht(H0, x))), patterns=[mp(S, tree(H1, x)),
                                                            mp(S, ht(H1, x))]),
        z3.ForAll([H0, H1, m, m1, x], z3.Implies(
            z3.And(S, x < m, tree(H0, x), solid(H0, x)), solid(H1, x)),
            patterns=[mp(S, solid(H1, x))]),
        z3.ForAll([H0, H1, m, m1, x], z3.Implies(
            z3.And(S, x < m, tree(H0, x), solid(H0, x)), hkey(H1, x) == hkey(H0, x)),
            patterns=[mp(S, hkey(H1, x))]),
    ]


class InvalidateMatcher(Contract):
    """forgets cached parser elements only"""
    cls, member = "Expansion", "invalidate_matcher"
    params = ("self",)
    types = {"self": "@Expansion"}
    touch = {"_matcher_element": None}

    def inline_at(self, eng, st, args):
        if not (isinstance(args[0], T) and syn_kind(args[0].t)):
            return False
        return syn_kind(eng.get(st, "_matcher_element", un("R", args[0].t))) == "None"

    def ensures(self, c):
        q = z3.Int("q!im")
        a = c.eng.arr(c.pre, "_matcher_element")
        b = c.eng.arr(c.post, "_matcher_element")
        return [("only forgets cached elements", z3.ForAll(
            [q], z3.Implies(z3.And(0 < q, q < c.n0), z3.Or(b[q] == a[q], b[q] == NONE)),
            patterns=[b[q]])),
            ("this node's cached element is forgotten", z3.Or(b[c.ref("self")] == NONE))]


class Compile(Contract):
    cls, member = "Expansion", "compile"
    params = ("self", "ignore_tags")
    defaults = {"ignore_tags": False}
    raises = ("CompilationError", "GrammarError")
    allocates = True
    group = "compile"
    touch = {"items": OWNED, "_matcher_element": None}

    def inline_at(self, eng, st, args):
        """nodes the caller has just created"""
        if not (isinstance(args[0], T) and syn_kind(args[0].t) == "R"):
            return False
        r = un("R", args[0].t)
        return any(r.eq(x) for x in st.ghost.get("fresh", ()))

    def ig(self, c):
        return V.b(c.a["ignore_tags"])

    types = {"self": "@Expansion", "ignore_tags": "B"}
    ret_type = "S"

    def requires(self, c):
        return [("the expansion is a finite tree", tree(c.H("comp"), c.ref("self")))]

    def measure(self, c):
        return ht(c.H("comp"), c.ref("self"))

    def ensures(self, c):
        H0, H1, x = c.H("comp"), c.H("comp", "post"), c.ref("self")
        return [
            ("the text is the JSGF rendering of the tree",
             c.ret == V.S(comp(H0, x, self.ig(c)))),
            ("only compilable trees compile", okc(H0, x)),
            ("only empty groupings are filled, with <NULL>", sim(H0, H1, c.n0, c.n1))]

    def ensures_exc(self, c):
        H0, H1, x = c.H("comp"), c.H("comp", "post"), c.ref("self")
        return [("raises only for a tree that is not compilable", z3.Not(okc(H0, x))),
                ("only empty groupings are filled, with <NULL>", sim(H0, H1, c.n0, c.n1))]

    def fold_terms(self, c):
        H, ig = c.H("comp"), self.ig(c)
        x = c.ref("self")
        return [(mapcomp, H, [ig]), (allok, H, []), (mapwcomp, H, [x, ig]),
                (allw, H, [x])]

    def folds(self, c):
        H, ig, x = c.H("comp"), self.ig(c), c.ref("self")
        return [("texts of the elements", lambda q, i: mapcomp(H, ig, q, i)),
                ("weighted texts of the elements", lambda q, i: mapwcomp(H, x, ig, q, i))]

    def extra_cands(self, c, ctx):
        H = c.H("comp")
        x = c.ref("self")
        out = []
        if "items" in ctx.fields:
            def f(e, s0, s, i, q):
                return sim(H, TH.HEAPS.of(e, s, "comp"), c.n0, s.next)
            out.append(Cand("only empty groupings filled so far", f))
        out.append(Cand("elements so far compilable",
                        lambda e, s0, s, i, q: allok(H, q, i) if q is not None else None))
        out.append(Cand("elements so far weighted",
                        lambda e, s0, s, i, q: allw(H, x, q, i) if q is not None else None))
        return out


def world(prog):
    from . import trav
    fns, folds = FNS + trav.FNS, FOLDS + trav.FOLDS
    w = World(prog, [Compile(), InvalidateMatcher()] + trav.CONTRACTS, fns, folds, [])
    w.theory = theory(w) + height_lemma(w) + sim_lemmas(w) + trav.theory(w)
    w.lemma_axioms = seq_axioms() + TH.agree_axioms(fns, folds) + theory(w) + trav.theory(w)
    return w


def lemmas(w):
    """the lemmas used above, by induction on the height of the tree; the list folds by
    induction on the number of elements"""
    defs = w.lemma_axioms
    H0, H1, H2 = z3.Consts("H0!p H1!p H2!p", HeapS)
    m, m1, m2, m3, x, i, j, y = z3.Ints("m!p m1!p m2!p m3!p x!p i!p j!p y!p")
    ig = z3.Bool("ig!p")
    ks0, ks1 = kids(H0, x), kids(H1, x)
    n0, n1 = slen(ks0), slen(ks1)
    out = []
    # height
    base = [tree(H0, x), unf(x), groupings(w, x)]
    kj = V.r(sat_(ks0, j))
    upto = lambda t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t),
                                               mx(H0, ks0, t) >= ht(H0, kj)),
                               patterns=[sat_(ks0, j)])
    nn = z3.ForAll([y], z3.Implies(tree(H0, y), ht(H0, y) >= 0), patterns=[ht(H0, y)])
    step = mx.unfold(H0, [], ks0, i + 1)
    out.append(Lemma("children are lower than their parent", [
        ("base", base, z3.And(upto(z3.IntVal(0)), mx(H0, ks0, z3.IntVal(0)) >= 0)),
        ("step", base + step + [0 <= i, i < n0, upto(i), mx(H0, ks0, i) >= 0],
         z3.And(upto(i + 1), mx(H0, ks0, i + 1) >= 0)),
        ("conclusion", base + [upto(n0), mx(H0, ks0, n0) >= 0, 0 <= i, i < n0],
         z3.And(ht(H0, V.r(sat_(ks0, i))) < ht(H0, x), ht(H0, x) >= 0)),
        ("leaves", [tree(H0, x), unf(x), z3.Not(groupings(w, x))], ht(H0, x) >= 0),
    ], defs))
    defs = defs + height_lemma(w)
    S = sim(H0, H1, m, m1)
    ref = lambda f, r, H: V.r(sel(H, f)[r])
    # references stored below the allocation mark point below it
    closed = [
        z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n0), z3.And(
            V.is_R(sat_(ks0, j)), V.r(sat_(ks0, j)) < m)), patterns=[sat_(ks0, j)]),
        ref("_children", x, H0) < m, ref("_list", ref("_children", x, H0), H0) < m,
        ref("_weights", x, H0) < m,
        TH.xof(ref("_list", ref("_children", x, H0), H0)) == x,
        z3.Or([typ(x) == w.prog.classes[c].id for c in w_expansions(w)]),
    ]
    grp = groupings(w, x)
    new = V.r(sat_(ks1, z3.IntVal(0)))
    common = [S, x < m, tree(H0, x), unf(x), unf(new)] + closed

    def ih(f, *ex):
        return z3.ForAll([y], z3.Implies(z3.And(
            y < m, tree(H0, y), ht(H0, y) < ht(H0, x)), f(H1, y, *ex) == f(H0, y, *ex)),
            patterns=[f(H1, y, *ex)])
    iht = z3.ForAll([y], z3.Implies(z3.And(
        y < m, tree(H0, y), ht(H0, y) < ht(H0, x)),
        z3.And(tree(H1, y), ht(H1, y) == ht(H0, y))),
        patterns=[tree(H1, y), ht(H1, y)])
    ihs = z3.ForAll([y], z3.Implies(z3.And(
        y < m, tree(H0, y), ht(H0, y) < ht(H0, x), solid(H0, y)), solid(H1, y)),
        patterns=[solid(H1, y)])
    hk = sim_lemmas(w)[-1]
    sol = sim_lemmas(w)[-2]
    out.append(Lemma("filling keeps subtrees without empty groupings", [
        ("conclusion", common + [iht, ihs, tree(H1, x), solid(H0, x)], solid(H1, x))],
        defs))
    wstep = lambda F, ex, H: F.unfold(H, ex, ks0, i + 1)

    def fold_eq(F, ex, t):
        return F(H1, *(ex + [ks0, t])) == F(H0, *(ex + [ks0, t]))

    def fold_cases(F, ex, hyps):
        return [("%s, base" % F.name, common + [grp], fold_eq(F, ex, z3.IntVal(0))),
                ("%s, step" % F.name, common + [grp] + hyps + [0 <= i, i < n0, fold_eq(F, ex, i),
                                                      unf(V.r(sat_(ks0, i)))] +
                 wstep(F, ex, H0) + wstep(F, ex, H1), fold_eq(F, ex, i + 1))]

    def all_eq(F, ex, hyps=()):
        return fold_eq(F, ex, n0)
    out.append(Lemma("filling keeps trees and heights", fold_cases(mx, [], [iht]) + [
        ("conclusion", common + [iht, sol, z3.Implies(grp, all_eq(mx, []))] + mx.unfold(
            H1, [], ks1, z3.IntVal(1)),
         z3.And(tree(H1, x), ht(H1, x) == ht(H0, x)))], defs))
    th = sim_lemmas(w)[3]
    out.append(Lemma("filling keeps the text", fold_cases(
        mapcomp, [ig], [ih(comp, ig)]) + fold_cases(
        mapwcomp, [x, ig], [ih(comp, ig), hk, z3.Implies(
            z3.Or([typ(x) == w.prog.classes[c].id for c in ("AlternativeSet",
                                                            "ParsedAlternativeSet")
                   if c in w.prog.classes]), z3.BoolVal(True)),
            allsolid(H0, x, ks0, n0), z3.Implies(slen(ks0) > 0, z3.BoolVal(True))]) + [
        ("conclusion", common + [ih(comp, ig), hk, th, z3.Implies(grp, all_eq(mapcomp, [ig])),
                                 z3.Implies(z3.And(alts_(w, x), nonempty_w(H0, x)),
                                            all_eq(mapwcomp, [x, ig]))] +
         mapcomp.unfold(H1, [ig], ks1, z3.IntVal(1)) + [JOIN(SV(" "), Unit(V.S(
             comp(H1, new, ig)))) == comp(H1, new, ig), JOIN(SV("|"), Unit(V.S(
                 comp(H1, new, ig)))) == comp(H1, new, ig)],
         comp(H1, x, ig) == comp(H0, x, ig))], defs))
    out.append(Lemma("filling keeps what can be compiled", [
        ("conclusion", common + [ih(okc), hk, th], okc(H1, x) == okc(H0, x))], defs))
    # composition
    out.append(Lemma("filling twice is filling", [
        ("conclusion", [S, sim(H1, H2, m2, m3), m <= m1, m1 <= m2, m2 <= m3],
         sim(H0, H2, m, m3))], defs))
    return out


def alts_(w, x):
    return z3.Or([typ(x) == w.prog.classes[c].id
                  for c in ("AlternativeSet", "ParsedAlternativeSet")
                  if c in w.prog.classes])


def allsolid(H, x, ks, n):
    j = z3.Int("j!as")
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), solid(H, V.r(sat_(ks, j)))),
                     patterns=[sat_(ks, j)])


def w_expansions(w):
    from .world import CONCRETE
    return [c for c in CONCRETE["Expansion"] if c in w.prog.classes]
