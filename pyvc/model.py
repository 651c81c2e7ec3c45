"""SMT model of Python values and of the heap."""
import z3

# (z3.MultiPattern drops its references to the terms before z3 takes its own)
_mp, _kept = z3.MultiPattern, []


def _multi_pattern(*ts):
    _kept.append(ts)
    return _mp(*ts)


z3.MultiPattern = _multi_pattern

_V = z3.Datatype("V")
_V.declare("None_")
_V.declare("B", ("b", z3.BoolSort()))
_V.declare("I", ("i", z3.IntSort()))
_V.declare("F", ("f", z3.RealSort()))
_V.declare("S", ("s", z3.StringSort()))
_V.declare("R", ("r", z3.IntSort()))       # reference to a heap object
_V.declare("C", ("c", z3.IntSort()))       # a class object
_V.declare("Fn", ("fn", z3.IntSort()))     # a function / other opaque constant
V = _V.create()
NONE = V.None_
SeqV = z3.DeclareSort("SeqV")
Int, Bool, Str, Real = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()
EMPTY = z3.Const("sempty", SeqV)
slen = z3.Function("slen", SeqV, z3.IntSort())
sat_ = z3.Function("sat", SeqV, z3.IntSort(), V)
sunit = z3.Function("sunit", V, SeqV)
scat = z3.Function("scat", SeqV, SeqV, SeqV)
ssub = z3.Function("ssub", SeqV, z3.IntSort(), z3.IntSort(), SeqV)
sext = z3.Function("sext", SeqV, SeqV, z3.BoolSort())
ARR_V = z3.ArraySort(Int, V)
ARR_SEQ = z3.ArraySort(Int, SeqV)
MAPV = z3.ArraySort(V, V)
SETV = z3.ArraySort(V, Bool)
ARR_MAP = z3.ArraySort(Int, MAPV)
ARR_SET = z3.ArraySort(Int, SETV)

typ = z3.Function("typ", Int, Int)

FIELD_SORT = {"items": ARR_SEQ, "dkeys": ARR_SEQ, "dhas": ARR_SET, "dval": ARR_MAP}


def field_sort(f):
    return FIELD_SORT.get(f, ARR_V)


_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return z3.Const("%s!%d" % (name, _fresh[0]), sort)


def fresh_mark():
    return _fresh[0]


def vs(s):
    return V.S(z3.StringVal(s))


def vi(i):
    return V.I(z3.IntVal(i))


def vb(b):
    return V.B(z3.BoolVal(b))


def simp(t):
    return z3.simplify(t)


def is_app_of(t, decl):
    return z3.is_app(t) and t.decl().eq(decl)


_K = {"None": V.is_None_, "B": V.is_B, "I": V.is_I, "F": V.is_F, "S": V.is_S,
      "R": V.is_R, "C": V.is_C, "Fn": V.is_Fn}
_CON = {V.B.name(): "B", V.I.name(): "I", V.F.name(): "F", V.S.name(): "S",
        V.R.name(): "R", V.C.name(): "C", V.Fn.name(): "Fn", V.None_.decl().name(): "None"}


def syn_kind(t):
    """Kind of a V term if it is a syntactic constructor application."""
    if z3.is_app(t):
        n = t.decl().name()
        if n in _CON and t.sort() == V:
            return _CON[n]
    return None


def kind_test(k, t):
    return _K[k](t)


def un(k, t):
    """Payload of V term t of kind k (syntactically reduced when possible)."""
    if syn_kind(t) == k:
        return t.arg(0)
    return {"B": V.b, "I": V.i, "F": V.f, "S": V.s, "R": V.r, "C": V.c,
            "Fn": V.fn}[k](t)


def const_str(t):
    """Python str of a V.S literal or a string literal term; None otherwise."""
    if t.sort() == V:
        if syn_kind(t) != "S":
            return None
        t = t.arg(0)
    if z3.is_string_value(t):
        return _unesc(t.as_string())
    return None


def _unesc(s):
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def const_int(t):
    if t.sort() == V:
        if syn_kind(t) not in ("I",):
            return None
        t = t.arg(0)
    t = simp(t)
    if z3.is_int_value(t):
        return t.as_long()
    return None


def const_bool(t):
    if t.sort() == V:
        if syn_kind(t) != "B":
            return None
        t = t.arg(0)
    t = simp(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


def parts(t):
    """flatten a Seq term into its concat operands"""
    if is_app_of(t, scat):
        return parts(t.arg(0)) + parts(t.arg(1))
    return [] if t.eq(EMPTY) else [t]


def known_items(t):
    """[V terms] when the Seq term has a syntactically known list of elements."""
    out = []
    for p in parts(t):
        if not is_app_of(p, sunit):
            return None
        out.append(p.arg(0))
    return out


def Unit(v):
    return sunit(v)


def Cat(*xs):
    ps = []
    for x in xs:
        ps += parts(x)
    if not ps:
        return EMPTY
    t = ps[-1]
    for p in reversed(ps[:-1]):
        t = scat(p, t)
    return t


def Len(x):
    if x.sort() != SeqV:
        return z3.Length(x)
    n, rest = 0, []
    for p in parts(x):
        if is_app_of(p, sunit):
            n += 1
        else:
            rest.append(slen(p))
    if not rest:
        return z3.IntVal(n)
    t = rest[0]
    for r in rest[1:]:
        t = t + r
    return t + n if n else t


def At(s, i):
    if isinstance(i, int):
        i = z3.IntVal(i)
    i = z3.simplify(i)
    if z3.is_int_value(i):
        k = i.as_long()
        for p in parts(s):
            if not is_app_of(p, sunit):
                break
            if k == 0:
                return p.arg(0)
            k -= 1
    return sat_(s, i)


def Sub(s, lo, n):
    """n elements of s from index lo (0 <= lo, 0 <= n, lo+n <= len)."""
    if isinstance(lo, int):
        lo = z3.IntVal(lo)
    if isinstance(n, int):
        n = z3.IntVal(n)
    lo, n = z3.simplify(lo), z3.simplify(n)
    k = known_items(s)
    if k is not None and z3.is_int_value(lo) and z3.is_int_value(n):
        return mkseq(k[lo.as_long():lo.as_long() + n.as_long()])
    if z3.is_int_value(n) and n.as_long() == 0:
        return EMPTY
    return ssub(s, lo, n)


def mkseq(vs_):
    return Cat(*[sunit(v) for v in vs_])


def seq_axioms():
    a, b, v = z3.Const("a!s", SeqV), z3.Const("b!s", SeqV), z3.Const("v!s", V)
    c = z3.Const("c!s", SeqV)
    i, lo, n = z3.Ints("i!s lo!s n!s")
    A = lambda vs, body, *pats: z3.ForAll(vs, body, patterns=list(pats))
    ok = z3.And(0 <= lo, 0 <= n, lo + n <= slen(a))
    return [
        slen(EMPTY) == 0,
        A([a], z3.And(slen(a) >= 0, z3.Implies(slen(a) == 0, a == EMPTY)), slen(a)),
        A([v], z3.And(slen(sunit(v)) == 1, sat_(sunit(v), z3.IntVal(0)) == v), sunit(v)),
        A([a, b], z3.And(slen(scat(a, b)) == slen(a) + slen(b),
                         z3.Implies(slen(b) == 0, scat(a, b) == a),
                         z3.Implies(slen(a) == 0, scat(a, b) == b)), scat(a, b)),
        A([a, b, c], z3.Implies(z3.And(slen(a) > 0, slen(b) > 0, slen(c) > 0),
                                scat(scat(a, b), c) == scat(a, scat(b, c))),
          scat(scat(a, b), c)),
        A([a, b, i], z3.And(
            z3.Implies(z3.And(0 <= i, i < slen(a)), sat_(scat(a, b), i) == sat_(a, i)),
            z3.Implies(z3.And(slen(a) <= i, i < slen(a) + slen(b)),
                       sat_(scat(a, b), i) == sat_(b, i - slen(a)))),
          sat_(scat(a, b), i)),
        A([a, b, i], z3.Implies(z3.And(0 <= i, i < slen(a)),
                                sat_(scat(a, b), i) == sat_(a, i)),
          z3.MultiPattern(sat_(a, i), scat(a, b))),
        A([a, b, i], z3.Implies(z3.And(0 <= i, i < slen(b)),
                                sat_(scat(a, b), i + slen(a)) == sat_(b, i)),
          z3.MultiPattern(sat_(b, i), scat(a, b))),
        A([a, lo, n], z3.Implies(ok, slen(ssub(a, lo, n)) == n), ssub(a, lo, n)),
        A([a, n], z3.Implies(n == slen(a), ssub(a, z3.IntVal(0), n) == a),
          ssub(a, z3.IntVal(0), n)),
        A([a, lo, n, i], z3.Implies(z3.And(ok, 0 <= i, i < n),
                                    sat_(ssub(a, lo, n), i) == sat_(a, lo + i)),
          sat_(ssub(a, lo, n), i)),
        A([a, lo, n, i], z3.Implies(z3.And(ok, lo <= i, i < lo + n),
                                    sat_(ssub(a, lo, n), i - lo) == sat_(a, i)),
          z3.MultiPattern(ssub(a, lo, n), sat_(a, i))),
        A([a, b], z3.And(
            z3.Implies(sext(a, b), a == b),
            sext(a, b) == z3.And(slen(a) == slen(b), z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < slen(a)), sat_(a, i) == sat_(b, i)),
                patterns=[sat_(a, i), sat_(b, i)]))), sext(a, b)),
    ]


def seq_eq(a, b):
    return z3.BoolVal(True) if a.eq(b) else sext(a, b)


_uf = {}


def UF(name, *sorts):
    key = (name,) + tuple(s.sexpr() for s in sorts)
    if key not in _uf:
        _uf[key] = z3.Function(name, *sorts)
    return _uf[key]


def subst_bound(f, pairs):
    return z3.substitute(f, *pairs)


def ForAll(vars_, body, patterns=(), qid=""):
    return z3.ForAll(vars_, body, patterns=list(patterns), qid=qid)


def _expand(t, memo):
    """select(store(a, i, v), j) -> if j = i then v else select(a, j), outside
    quantifiers"""
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_app(t) and t.num_args():
        cs = [_expand(c, memo) for c in t.children()]
        if z3.is_select(t) and z3.is_store(cs[0]):
            a, j = cs
            out = []
            while z3.is_store(a):
                out.append((a.arg(1), a.arg(2)))
                a = a.arg(0)
            r = z3.Select(a, j)
            for i, v in reversed(out):
                r = z3.If(j == i, v, r)
        elif any(not c.eq(o) for c, o in zip(cs, t.children())):
            r = t.decl()(*cs)
        else:
            r = t
    else:
        r = t
    memo[k] = (t, r)
    return r


def prep_goal(g, hyps=()):
    """the same goal with outer universal quantifiers skolemised and reads of updated
    maps resolved, and the instances of the one-variable hypotheses at the skolem"""
    sks = []
    while z3.is_quantifier(g) and g.is_forall():
        vs_ = [fresh("sk", g.var_sort(i)) for i in range(g.num_vars())]
        sks += vs_
        g = z3.substitute_vars(g.body(), *reversed(vs_))
        if z3.is_implies(g) and z3.is_quantifier(g.arg(1)) and g.arg(1).is_forall():
            h, q = g.arg(0), g.arg(1)
            ws = [fresh("sk", q.var_sort(i)) for i in range(q.num_vars())]
            sks += ws
            g = z3.Implies(h, z3.substitute_vars(q.body(), *reversed(ws)))
            break
    more = []
    if len(sks) == 1:
        for h in hyps:
            if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and \
                    h.var_sort(0) == sks[0].sort():
                more.append(_expand(z3.substitute_vars(h.body(), sks[0]), {}))
    return _expand(g, {}), more


def limit(s, ms):
    """bounds a solver call by z3's resource count, about ms milliseconds on the machine
    this was written on, so that the outcome does not depend on the machine's speed"""
    s.set("rlimit", 1500 * ms)
    s.set("timeout", 8 * ms)
