"""Heap snapshots, recursive specification functions and the representation
invariant.  A heap snapshot H is a constant of sort HeapS whose field maps are tied to
the arrays of a symbolic state by definitional equations (`defs`)."""
import z3
from .model import *

HeapS = z3.DeclareSort("HeapS")

# fields a specification function may read
FIELDS = ["_children", "_list", "items", "_expansion", "_parent", "_tag", "_text",
          "_case_sensitive", "_name", "_referenced_rule", "rule", "grammar", "_weights",
          "dval", "dhas", "dkeys", "_rules", "visible", "_active", "_imports",
          "_current_match", "_repetitions_matched"]
FAMS = {
    # what compiling an expansion reads
    "comp": ["_children", "_list", "items", "_tag", "_text", "_case_sensitive", "_name",
             "_weights", "dval", "dhas", "dkeys"],
    # tree structure including references
    "tree": ["_children", "_list", "items", "_referenced_rule", "rule", "grammar",
             "_expansion", "_name", "_rules"],
    # child lists only
    "kids": ["_children", "_list", "items"],
    # rules
    "rule": ["_expansion", "_name", "visible", "_active"],
    "tag": ["_tag"],
    # what was matched
    "match": ["_tag", "_current_match", "_repetitions_matched", "_parent", "_children",
              "_list", "items", "dval"],
    # what generating a string reads
    "gen": ["_children", "_list", "items", "_referenced_rule", "rule", "grammar",
            "_expansion", "_name", "_rules", "_text", "_case_sensitive", "_weights", "dval",
            "dhas", "dkeys", "_active"],
    # the stored matches
    "cur": ["_current_match"],
    # the chain of parents
    "par": ["_parent"],
    # parent links
    "up": ["_parent", "_children", "_list", "items"],
}

_sel = {f: z3.Function("sel." + f, HeapS, field_sort(f)) for f in FIELDS}


def sel(H, f):
    return _sel[f](H)


class Heaps(object):
    """Hands out snapshot constants per (family, arrays)."""

    def __init__(self):
        self.by_key, self.defs, self.n = {}, {}, 0
        self.bound, self.const, self.pairs = {}, {}, {}

    def of(self, eng, st, fam):
        arrs = [eng.arr(st, f) for f in FAMS[fam]]
        H = self.from_arrs(fam, arrs)
        self.bound.setdefault(H.decl().name(), st.next)
        return H

    def from_arrs(self, fam, arrs):
        key = (fam,) + tuple(a.get_id() for a in arrs)
        x = self.by_key.get(key)
        if x is None:
            self.n += 1
            H = z3.Const("H!%s!%d" % (fam, self.n), HeapS)
            self.const[H.decl().name()] = H
            self.defs[H.decl().name()] = [sel(H, f) == a for f, a in zip(FAMS[fam], arrs)]
            self.by_key[key] = x = (H, arrs)
        return x[0]


    def agreements(self, names):
        """instances of the definition of agree for the snapshots of one family"""
        fams = {}
        for n in names:
            if n in self.bound:
                _, f, k = n.split("!")
                fams.setdefault(f, []).append((int(k), n))
        out = []
        for f, xs in sorted(fams.items()):
            xs.sort()
            for i in range(len(xs)):
                for j in range(i + 1, len(xs)):
                    a, b = xs[i][1], xs[j][1]
                    g = self.pairs.get((a, b))
                    if g is None:
                        g = self.pairs[(a, b)] = agree_def(
                            f, self.const[a], self.const[b], self.bound[a])
                    out.append(g)
        return out


def agree_def(fam, H0, H1, n):
    r = z3.Int("r!ag")
    body = [z3.ForAll([r], z3.Implies(r < n, sel(H1, f)[r] == sel(H0, f)[r]),
                      patterns=[sel(H1, f)[r]]) for f in FAMS[fam]]
    return agree[fam](H0, H1, n) == z3.And(body)


HEAPS = Heaps()
_consts_cache = {}


def h_consts(f):
    """names of snapshot constants occurring in a formula (cached)"""
    k = f.get_id()
    c = _consts_cache.get(k)
    if c is not None:
        return c[0]
    out, seen, todo = set(), set(), [f]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        sub = _consts_cache.get(i)
        if sub is not None:
            out |= sub[0]
            continue
        if z3.is_quantifier(t):
            todo.append(t.body())
            for j in range(t.num_patterns()):
                todo.extend(t.pattern(j).children())
            continue
        if z3.is_const(t):
            n = t.decl().name()
            if n.startswith("H!"):
                out.add(n)
        todo.extend(t.children())
    _consts_cache[k] = (frozenset(out), f)
    return out


def heap_defs(fs):
    names = set()
    for f in fs:
        names |= h_consts(f)
    out = []
    for n in sorted(names):
        out += HEAPS.defs.get(n, [])
    return out + HEAPS.agreements(names)


unf = z3.Function("unf", Int, Bool)       # trigger: unfold recursive definitions here


class SpecFn(object):
    """Recursive specification function F(H, x, extra...) with an unfolding axiom
    guarded by unf(x)."""

    def __init__(self, name, fam, extra, res):
        self.name, self.fam, self.res = name, fam, res
        self.extra = extra
        self.f = z3.Function(name, HeapS, Int, *(list(extra) + [res]))

    def __call__(self, H, x, *a):
        return self.f(H, x, *a)


class Fold(object):
    """F(H, extra..., seq, i): fold over the first i elements of seq."""

    def __init__(self, name, fam, extra, res, base, step, no_agree=False):
        self.no_agree = no_agree
        self.name, self.fam, self.res, self.base, self.step = name, fam, res, base, step
        self.extra = extra
        self.f = z3.Function(name, HeapS, *(list(extra) + [SeqV, Int, res]))

    def __call__(self, H, *a):
        return self.f(H, *a)

    def unfold(self, H, extra, s, i):
        """facts defining the fold at index i (i = 0, or i >= 1)"""
        F = self.f
        ex = list(extra)
        if z3.is_int_value(simp(i)) and simp(i).as_long() == 0:
            return [F(H, *(ex + [s, z3.IntVal(0)])) == self.base(H, *ex)]
        j = simp(i - 1)
        return [z3.Implies(i >= 1, F(H, *(ex + [s, i])) == self.step(
            H, *(ex + [F(H, *(ex + [s, j])), At(s, j)]))),
            z3.Implies(i == 0, F(H, *(ex + [s, i])) == self.base(H, *ex))]


def snoc_axioms(F):
    """a fold over a sequence with one more element (proved in snoc_lemma)"""
    H, a, v, n = z3.Const("H!sn", HeapS), z3.Const("a!sn", SeqV), z3.Const("v!sn", V), \
        z3.Int("n!sn")
    ex = [z3.Const("e%d!sn" % k, so) for k, so in enumerate(F.extra)]
    t = F(H, *(ex + [scat(a, sunit(v)), n]))
    return [z3.ForAll([H] + ex + [a, v, n], z3.Implies(
        n == slen(a) + 1, t == F.step(H, *(ex + [F(H, *(ex + [a, slen(a)])), v]))),
        patterns=[t])]


def snoc_lemma(F, defs):
    from .solve import Lemma
    H, a, v = z3.Const("H!sn", HeapS), z3.Const("a!sn", SeqV), z3.Const("v!sn", V)
    i = z3.Int("i!sn")
    ex = [z3.Const("e%d!sn" % k, so) for k, so in enumerate(F.extra)]
    b = scat(a, sunit(v))
    f = lambda s, t: F(H, *(ex + [s, t]))
    u = lambda s, t: F.unfold(H, ex, s, t)
    z = z3.IntVal(0)
    return Lemma("%s of a longer sequence" % F.name, [
        ("prefix, base", u(a, z) + u(b, z), f(b, z) == f(a, z)),
        ("prefix, step", u(a, i + 1) + u(b, i + 1) + [
            0 <= i, i < slen(a), f(b, i) == f(a, i)], f(b, i + 1) == f(a, i + 1)),
        ("conclusion", u(b, slen(a) + 1) + [f(b, slen(a)) == f(a, slen(a))],
         f(b, slen(a) + 1) == F.step(H, *(ex + [f(a, slen(a)), v])))], defs)


class AllQ(Fold):
    """F(H, extra..., seq, i): every one of the first i elements satisfies pred"""

    def __init__(self, name, fam, extra, pred, no_agree=False):
        Fold.__init__(self, name, fam, extra, Bool, None, None, no_agree)
        self.pred = pred

    def unfold(self, H, extra, s, i):
        return []

    def axioms(self):
        H, s = z3.Const("H!q", HeapS), z3.Const("s!q", SeqV)
        n, j = z3.Ints("n!q j!q")
        ex = [z3.Const("e%d!q" % k, so) for k, so in enumerate(self.extra)]
        f = self.f(H, *(ex + [s, n]))
        return [z3.ForAll([H] + ex + [s, n], f == z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < n), self.pred(H, *(ex + [sat_(s, j)]))),
            patterns=[sat_(s, j)]), patterns=[f])]


agree = {f: z3.Function("agree." + f, HeapS, HeapS, Int, Bool) for f in FAMS}
oldseq = z3.Function("oldseq", SeqV, Int, Bool)   # all references in seq are < n


def oldseq_def(s, n):
    i = z3.Int("i!os")
    return oldseq(s, n) == z3.ForAll(
        [i], z3.Implies(z3.And(0 <= i, i < slen(s), V.is_R(sat_(s, i))),
                        V.r(sat_(s, i)) < n), patterns=[sat_(s, i)])


def agree_axioms(fns, folds):
    H0, H1 = z3.Consts("H0!a H1!a", HeapS)
    n, r, x = z3.Ints("n!a r!a x!a")
    s = z3.Const("s!a", SeqV)
    i = z3.Int("i!a")
    out = []
    out.append(z3.ForAll([s, n], oldseq(s, n) == z3.ForAll(
        [i], z3.Implies(z3.And(0 <= i, i < slen(s), V.is_R(sat_(s, i))),
                        V.r(sat_(s, i)) < n), patterns=[sat_(s, i)]),
        patterns=[oldseq(s, n)]))
    for F in folds:
        if isinstance(F, AllQ):
            out += F.axioms()
            continue
        ex = [z3.Const("e%d!a" % k, so) for k, so in enumerate(F.extra)]
        out.append(z3.ForAll([H0] + ex + [s, i], z3.Implies(
            i == 0, F(H0, *(ex + [s, i])) == F.base(H0, *ex)),
            patterns=[F(H0, *(ex + [s, i]))]))
    used = {F.fam for F in list(fns) + list(folds)}
    for fam, fs in FAMS.items():
        if fam not in used:
            continue
        body = []
        for f in fs:
            a, b = sel(H0, f), sel(H1, f)
            body.append(z3.ForAll([r], z3.Implies(r < n, b[r] == a[r]),
                                  patterns=[b[r]]))
        out.append(z3.ForAll([H0, H1, n], agree[fam](H0, H1, n) == z3.And(body),
                             patterns=[agree[fam](H0, H1, n)]))
        for F in fns:
            if F.fam != fam:
                continue
            ex = [z3.Const("e%d!a" % k, so) for k, so in enumerate(F.extra)]
            out.append(z3.ForAll([H0, H1, n, x] + ex, z3.Implies(
                z3.And(agree[fam](H0, H1, n), x < n), F(H1, x, *ex) == F(H0, x, *ex)),
                patterns=[z3.MultiPattern(agree[fam](H0, H1, n), F(H1, x, *ex))]))
        for F in folds:
            if F.fam != fam or F.no_agree:
                continue
            ex = [z3.Const("e%d!a" % k, so) for k, so in enumerate(F.extra)]
            out.append(z3.ForAll([H0, H1, n] + ex + [s, i], z3.Implies(
                z3.And(agree[fam](H0, H1, n), oldseq(s, n)),
                F(H1, *(ex + [s, i])) == F(H0, *(ex + [s, i]))),
                patterns=[z3.MultiPattern(agree[fam](H0, H1, n),
                                          F(H1, *(ex + [s, i])))]))
    return out


tupit = z3.Function("tuple.items", Int, SeqV)     # the contents of a tuple object
lowner = z3.Function("lowner", Int, Int)   # ghost: the ChildList owning a list object
xof = z3.Function("xof", Int, Int)         # ghost: the expansion whose children it lists
xlist = z3.Function("is_child_list", Int, Bool)   # ghost: a list owned by a ChildList
