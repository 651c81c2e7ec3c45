"""Symbolic executor / VC generator for the Python subset used by pyjsgf.

Path-splitting strongest-postcondition execution over the real AST.  Calls to functions
under contract are replaced by the contract; other repository functions are inlined.
Loops over unknown sequences are cut by inductive invariants, found by Houdini over a
candidate pool (generic frame / fold templates + candidates of the contract's spec)."""
import ast
import time
import z3
from .model import *
from .front import Program, Fn, Cls, Prop, Module
from .theory import heap_defs, lowner, tupit
from .heap import TypedHeap, Ty


class Unsupported(Exception):
    pass


class NotProved(Exception):
    pass


# ------------------------------------------------------------------ values
class Val(object):
    pass


class T(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "T(%s)" % self.t


class TupV(Val):
    def __init__(self, items):
        self.items = list(items)


class FnV(Val):
    def __init__(self, fn, fid=None, defaults=None):
        self.fn, self.fid, self.defaults = fn, fid, defaults


class PropV(Val):
    """a property object reached through its class"""
    def __init__(self, prop):
        self.prop = prop


class BoundV(Val):
    def __init__(self, fn, self_, cls=None):
        self.fn, self.self_, self.cls = fn, self_, cls


class BMeth(Val):
    """builtin method bound to a value"""
    def __init__(self, name, self_):
        self.name, self.self_ = name, self_


class ClsV(Val):
    def __init__(self, cls):
        self.cls = cls


class TypeOfV(Val):
    """type(x) for x of statically unknown class"""
    def __init__(self, t):
        self.t = t


class ModV(Val):
    def __init__(self, mod):
        self.mod = mod


class ExtV(Val):
    def __init__(self, name):
        self.name = name


class HookV(Val):
    """Abstract function supplied by a contract; call(eng, st, args) yields (st, val)."""
    def __init__(self, name, call):
        self.name, self.call = name, call


class IterV(Val):
    """Lazy iterable: kind in map/filter/list/zip/enumerate/gen; pulls from src."""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class SliceV(Val):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class SuperV(Val):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class FileV(Val):
    """a text file opened for writing; its contents are the ghost string 'file'"""


class ExcV(Val):
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "ExcV(%s)" % self.cls.name


import os
DEBUG = bool(os.environ.get("PYVC_DEBUG"))
META = ("fresh", "raw", "owned", "nexts", "set", "touched")
NEXT, RET, EXC, BRK, CONT = "next", "ret", "exc", "brk", "cont"


# ------------------------------------------------------------------ state
class St(object):
    __slots__ = ("pc", "frames", "heap", "next", "hints", "ghost", "snaps", "trail",
                 "cstack")

    def __init__(self):
        self.pc, self.frames, self.heap = [], {}, {}
        self.next, self.hints, self.ghost = None, {}, {}
        self.snaps, self.trail, self.cstack = [], [], ()

    def copy(self):
        s = St()
        s.pc = list(self.pc)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.next = self.next
        s.hints = dict(self.hints)
        s.ghost = dict(self.ghost)
        s.snaps = list(self.snaps)
        s.trail = list(self.trail)
        s.cstack = self.cstack
        return s

    def assume(self, *fs):
        s = self.copy()
        for f in fs:
            if f is None or (z3.is_bool(f) and z3.is_true(f)):
                continue
            s.pc.append(f)
        return s


class Obl(object):
    def __init__(self, label, hyps, goal, where=""):
        self.label, self.hyps, self.goal, self.where = label, hyps, goal, where
        self.status, self.time, self.backend = None, 0.0, None


class Engine(TypedHeap):
    def __init__(self, prog, spec):
        self.prog, self.spec = prog, spec
        self.axioms = list(spec.axioms(self)) if spec else []
        self.obls = []
        self.record = True
        self.names_of = {}
        self.nfid = 0
        self.depth = 0
        self.qtime = 0.0
        self.nq = 0
        self.fn_table = {}
        self.inlined = set()
        self.contracts_used = set()
        self.cur = None
        self.deadline = None
        self.feas_timeout = getattr(spec, "feas_timeout", None) or 300
        self.prove_timeout = getattr(spec, "prove_timeout", None) or 4000
        self.closed = set()
        self.cache = {}
        self.maxpaths = 4000
        self.globals_cache = {}
        self.init_types()

    # -------------------------------------------------------- solver
    def solver(self, timeout):
        s = z3.SimpleSolver()
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        s.set("smt.random_seed", 7)
        s.set("smt.array.extensional", False)
        limit(s, timeout)
        return s

    def check(self, hyps, timeout=None):
        """z3 result for the conjunction of hyps + axioms."""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this function used up")
        key = None
        try:
            key = tuple(sorted(set(h.get_id() for h in hyps)))
            r = self.cache.get(key)
            if r is not None:
                return r[0]
        except Exception:
            key = None
        s = self.solver(timeout or self.feas_timeout)
        for a in self.axioms:
            s.add(a)
        for h in hyps:
            s.add(h)
        for d in heap_defs(hyps):
            s.add(d)
        t0 = time.time()
        r = s.check()
        self.qtime += time.time() - t0
        self.nq += 1
        if key is not None:
            self.cache[key] = (r, list(hyps))
        return r

    def dump(self, hyps):
        s = self.solver(5000)
        for a in self.axioms + hyps + heap_defs(hyps):
            s.add(a)
        with open("/tmp/dump.txt", "w") as fh:
            for a in hyps:
                fh.write("- %s\n" % " ".join(str(a).split()))

    def feasible(self, st):
        if any(z3.is_false(p) for p in st.pc):
            return False
        return self.check(st.pc) != z3.unsat

    def entails(self, st, f, timeout=None):
        f = simp(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return not self.feasible(st)
        g, more = prep_goal(f, st.pc)
        return self.check(st.pc + more + [z3.Not(g)], timeout) == z3.unsat

    def oblige(self, st, label, goal, where=""):
        if not self.record:
            return
        self.obls.append(Obl("%s: %s" % (self.cur or "?", label), list(st.pc), goal,
                             where))

    # -------------------------------------------------------- heap
    def arr(self, st, f):
        a = st.heap.get(f)
        if a is None:
            a = z3.Const("h0." + f, field_sort(f))
            st.heap[f] = a
            self.base["h0." + f] = (f, z3.Int("next0"))
        return a

    def get(self, st, f, r):
        return self.sel(st, self.arr(st, f), r)

    def put(self, st, f, r, v):
        st = st.copy()
        if f == "items":
            self.check_items_write(st, r, v)
        st.heap[f] = z3.Store(self.arr(st, f), r, v)
        return st

    def alloc(self, st, cls):
        st = st.copy()
        r = simp(st.next)
        st.next = simp(st.next + 1)
        st.pc.append(typ(r) == cls.id)
        st.hints[r.get_id()] = (frozenset([cls.name]), r)
        st.ghost["fresh"] = st.ghost.get("fresh", ()) + (r,)
        return st, r

    def new_list(self, st, items, cls="list"):
        st, r = self.alloc(st, self.prog.classes[cls])
        st = self.put(st, "items", r, items)
        if cls == "tuple":                      # immutable
            st.pc.append(tupit(r) == items)
        return st, T(V.R(r))

    def items(self, st, r):
        x = self.get(st, "items", r)
        if ("empty", x.get_id()) in st.hints:
            return EMPTY
        h = st.hints.get(r.get_id())
        if z3.is_select(x) and (h[0] if h else self.stored_tuple(st, r)) == \
                frozenset(["tuple"]) and not getattr(self.spec, "plain_tuples", False):
            return tupit(r)                     # immutable
        return x

    def stored_tuple(self, st, r):
        if getattr(self.spec, "stored_tuples", False):
            return self.quick_classes(st, r)

    def note(self, st, c):
        """remember sequences known to be empty on this path"""
        neg = False
        while z3.is_not(c):
            neg, c = not neg, c.arg(0)
        if z3.is_and(c) and not neg:
            for x in c.children():
                self.note(st, x)
            return st
        if z3.is_app(c) and c.num_args() == 2:
            a, b = c.children()
            x = None
            if is_app_of(a, slen) and z3.is_int_value(b) and b.as_long() == 0:
                if (neg and z3.is_gt(c)) or (not neg and (z3.is_le(c) or z3.is_eq(c))):
                    x = a
            if is_app_of(b, slen) and z3.is_int_value(a) and a.as_long() == 0:
                if (neg and z3.is_lt(c)) or (not neg and (z3.is_ge(c) or z3.is_eq(c))):
                    x = b
            if x is not None:
                st.hints[("empty", x.arg(0).get_id())] = (True, x)
        return st

    def closed_items(self, st):
        """elements of allocated lists are allocated"""
        a = self.arr(st, "items")
        r, j = z3.Int("r!c"), z3.Int("j!c")
        e = sat_(a[r], j)
        return z3.ForAll([r, j], z3.Implies(
            z3.And(0 < r, r < st.next, 0 <= j, j < slen(a[r]), V.is_R(e)),
            z3.And(V.r(e) > 0, V.r(e) < st.next)), patterns=[e])

    def havoc_field(self, st, f, name="hv"):
        a = fresh("%s.%s" % (name, f), field_sort(f))
        st.heap[f] = a
        self.base[a.decl().name()] = (f, st.next)
        return a

    # -------------------------------------------------------- kinds and classes
    def kind(self, st, t, among=None):
        k = syn_kind(t)
        if k:
            return k
        h = st.hints.get(("k", t.get_id()))
        if h:
            return h[0]
        ty = self.typeof(st, t)
        self.learn(st, t)
        if ty is not None:
            if len(ty.kinds) == 1:
                return list(ty.kinds)[0]
            among = sorted(ty.kinds)
        for k in among or ("R", "S", "B", "None", "I", "F", "C", "Fn"):
            if self.entails(st, kind_test(k, t)):
                st.hints[("k", t.get_id())] = (k, t)
                return k
        return None

    def kinds(self, st, t, among=("None", "S", "R", "B", "I", "F", "C", "Fn")):
        """Fork on the kind of t: yields (st, kind)."""
        k = self.kind(st, t)
        if k:
            yield st, k
            return
        ty = self.typeof(st, t)
        if ty is not None:
            among = sorted(ty.kinds)
        n = 0
        for k in among:
            s = st.assume(kind_test(k, t))
            if self.feasible(s):
                n += 1
                s.hints[("k", t.get_id())] = (k, t)
                yield s, k
        if n == 0:
            return

    FAMS = ["Expansion", "ChildList", "list", "Rule", "Grammar", "Import", "dict",
            "tuple", "set", "BaseRef", "JointTreeContext"]

    def classes_of(self, st, r):
        """Set of class names the object may have (a set entailed by the path)."""
        h = st.hints.get(r.get_id())
        if h:
            return h[0]
        rs = simp(r)
        h = st.hints.get(rs.get_id())
        if h:
            return h[0]
        for x in (r, rs):
            if z3.is_app(x) and x.decl().eq(V.r):
                ty = self.typeof(st, x.arg(0))
                self.learn(st, x.arg(0))
                if ty is not None and ty.classes is not None:
                    return ty.classes
        for fam in self.FAMS:
            if fam not in self.prog.classes:
                continue
            subs = [c for c in self.universe(fam)]
            if self.entails(st, z3.Or([typ(r) == c.id for c in subs])):
                names = frozenset(c.name for c in subs)
                st.hints[r.get_id()] = (names, r)
                return names
        raise Unsupported("class of object unknown: %s" % r)

    def universe(self, fam):
        ex = self.spec.excluded_classes if self.spec else ()
        return sorted((c for c in self.prog.subclasses(fam) if c.name not in ex),
                      key=lambda c: c.id)

    def narrow(self, st, r, groups):
        """Fork by class groups: groups = {key: [classnames]} -> yields (st, key)."""
        if len(groups) == 1:
            yield st, list(groups)[0]
            return
        for k, names in groups.items():
            s = st.assume(z3.Or([typ(r) == self.prog.classes[n].id for n in names]))
            s.hints[r.get_id()] = (frozenset(names), r)
            if self.feasible(s):
                yield s, k

    def isinst_formula(self, t, cls):
        """V term t is an instance of repository/builtin class cls."""
        n = cls.name
        if n in ("str",):
            return V.is_S(t)
        if n == "bool":
            return V.is_B(t)
        if n == "int":
            return z3.Or(V.is_I(t), V.is_B(t))
        if n == "float":
            return V.is_F(t)
        if n == "object":
            return z3.BoolVal(True)
        subs = self.universe(n)
        return z3.And(V.is_R(t), z3.Or([typ(V.r(t)) == c.id for c in subs]))

    # -------------------------------------------------------- value conversion
    def toV(self, st, v):
        """-> (st, V term)"""
        if isinstance(v, T):
            return st, v.t
        if isinstance(v, TupV):
            ts = []
            for x in v.items:
                st, t = self.toV(st, x)
                ts.append(t)
            st, r = self.new_list(st, mkseq(ts), "tuple")
            return st, r.t
        if isinstance(v, ClsV):
            return st, V.C(z3.IntVal(v.cls.id))
        if isinstance(v, TypeOfV):
            return st, V.C(typ(v.t))
        if isinstance(v, (FnV, BoundV, HookV, ExtV, BMeth, ModV, ExcV)):
            key = ("fn", id(v))
            if key not in self.fn_table:
                self.fn_table[key] = (len(self.fn_table) + 1, v)
            return st, V.Fn(z3.IntVal(self.fn_table[key][0]))
        if isinstance(v, SliceV):
            ts = []
            for x in (v.a, v.b, v.c):
                st, t = self.toV(st, x)
                ts.append(t)
            st, r = self.alloc(st, self.prog.classes["slice"])
            for f, t in zip(("start", "stop", "step"), ts):
                st = self.put(st, f, r, t)
            return st, V.R(r)
        if isinstance(v, IterV):
            raise Unsupported("iterator stored as a value")
        raise Unsupported("cannot convert %r" % (v,))

    def from_fn(self, t):
        i = const_int(V.I(un("Fn", t)))
        for (n, v) in self.fn_table.values():
            if n == i:
                return v
        return None

    # -------------------------------------------------------- truth
    def truth(self, st, v):
        """yields (st, z3 Bool or python bool) without forking when possible"""
        if isinstance(v, TupV):
            yield st, z3.BoolVal(len(v.items) > 0)
            return
        if not isinstance(v, T):
            yield st, z3.BoolVal(True)
            return
        t = v.t
        for s, k in self.kinds(st, t):
            if k == "None":
                yield s, z3.BoolVal(False)
            elif k == "B":
                yield s, un("B", t)
            elif k == "I":
                yield s, un("I", t) != 0
            elif k == "F":
                yield s, un("F", t) != 0
            elif k == "S":
                yield s, un("S", t) != z3.StringVal("")
            elif k in ("C", "Fn"):
                yield s, z3.BoolVal(True)
            else:
                r = un("R", t)
                names = self.classes_of(s, r)
                groups = {}
                for n in names:
                    c = self.prog.classes[n]
                    if n in ("list", "tuple"):
                        key = "seq"
                    elif n in ("dict", "set"):
                        key = "dict"
                    else:
                        _, m = c.lookup("__bool__")
                        if m is None:
                            _, m = c.lookup("__len__")
                        key = m if m is not None else "true"
                    groups.setdefault(key, []).append(n)
                for s2, key in self.narrow(s, r, groups):
                    if key == "seq":
                        yield s2, Len(self.items(s2, r)) > 0
                    elif key == "dict":
                        yield s2, self.dict_nonempty(s2, r)
                    elif key == "true":
                        yield s2, z3.BoolVal(True)
                    else:
                        for s3, x in self.call_fn(s2, key, [v], {}):
                            if isinstance(x, ExcV):
                                raise Unsupported("exception in truth test")
                            for y in self.truth(s3, x):
                                yield y

    def dict_nonempty(self, st, r):
        return Len(self.get(st, "dkeys", r)) > 0

    def branch(self, st, v):
        """fork on truthiness: yields (st, bool)"""
        for s, c in self.truth(st, v):
            c = simp(c)
            if z3.is_true(c):
                yield s, True
                continue
            if z3.is_false(c):
                yield s, False
                continue
            a = self.note(s.assume(c), c)
            if self.feasible(a):
                yield a, True
            b = self.note(s.assume(simp(z3.Not(c))), simp(z3.Not(c)))
            if self.feasible(b):
                yield b, False

    # -------------------------------------------------------- expressions
    def ev(self, e, st, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %s)" % (type(e).__name__,
                                                          getattr(e, "lineno", "?")))
        return m(e, st, fr)

    def evs(self, es, st, fr, acc=()):
        """evaluate a list of expressions left to right: yields (st, [vals] | ExcV)"""
        if not es:
            yield st, list(acc)
            return
        for s, v in self.ev(es[0], st, fr):
            if isinstance(v, ExcV) and v.__dict__.get("raised"):
                yield s, v
            else:
                for y in self.evs(es[1:], s, fr, tuple(acc) + (v,)):
                    yield y

    @staticmethod
    def raised(v):
        return isinstance(v, ExcV) and v.__dict__.get("raised")

    def exc(self, name, args=()):
        x = ExcV(self.prog.classes[name] if isinstance(name, str) else name, args)
        x.raised = True
        return x

    def ev_Constant(self, e, st, fr):
        yield st, self.const(e.value)

    def const(self, c):
        if c is None:
            return T(NONE)
        if isinstance(c, bool):
            return T(vb(c))
        if isinstance(c, int):
            return T(vi(c))
        if isinstance(c, float):
            return T(V.F(z3.RealVal(repr(c))))
        if isinstance(c, str):
            return T(vs(c))
        raise Unsupported("constant %r" % (c,))

    def ev_Name(self, e, st, fr):
        yield st, self.lookup(st, fr, e.id)

    def lookup(self, st, fid, name):
        f = fid
        while f is not None:
            fr = st.frames[f]
            if name in fr:
                v = fr[name]
                if v is None:
                    raise Unsupported("variable %s may be unbound" % name)
                return v
            f = fr.get("$parent")
        mod = self.frame_module(st, fid)
        g = self.prog.resolve(mod, name)
        if g is not None:
            return self.global_val(g, mod, name)
        if name in self.prog.classes and self.prog.classes[name].external:
            return ClsV(self.prog.classes[name])
        return ExtV("builtins." + name)

    def frame_module(self, st, fid):
        f = fid
        while True:
            fr = st.frames[f]
            if "$module" in fr:
                return fr["$module"]
            f = fr["$parent"]

    def global_val(self, g, mod, name):
        if isinstance(g, Fn):
            return FnV(g)
        if isinstance(g, Cls):
            return ClsV(g)
        if isinstance(g, Module):
            return ModV(g)
        if g[0] == "ext":
            return ExtV(g[1])
        if g[0] == "var":
            _, m, n, ex = g
            if isinstance(ex, ast.Constant):
                return self.const(ex.value)
            return ExtV("%s.%s" % (m.name, n))
        raise Unsupported("global %s" % name)

    def ev_Tuple(self, e, st, fr):
        for s, vs_ in self.evs(e.elts, st, fr):
            yield s, (vs_ if self.raised(vs_) else TupV(vs_))

    def ev_List(self, e, st, fr):
        for s, vs_ in self.evs(e.elts, st, fr):
            if self.raised(vs_):
                yield s, vs_
                continue
            ts = []
            for v in vs_:
                s, t = self.toV(s, v)
                ts.append(t)
            yield self.new_list(s, mkseq(ts))

    def ev_Dict(self, e, st, fr):
        s, r = self.alloc(st, self.prog.classes["dict"])
        s = self.put(s, "dkeys", r, EMPTY)
        s = self.put(s, "dhas", r, z3.K(V, z3.BoolVal(False)))
        s = self.put(s, "dval", r, z3.K(V, NONE))
        for s2, ks in self.evs(e.keys, s, fr):
            if self.raised(ks):
                yield s2, ks
                continue
            for s3, vs_ in self.evs(e.values, s2, fr):
                if self.raised(vs_):
                    yield s3, vs_
                    continue
                for k, v in zip(ks, vs_):
                    s3, kt = self.toV(s3, k)
                    s3, vt = self.toV(s3, v)
                    s3 = self.dict_set(s3, r, kt, vt)
                yield s3, T(V.R(r))

    def ev_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    raise Unsupported("f-string format")
                parts.append(v.value)
            else:
                parts.append(v)
        for s, vs_ in self.evs(parts, st, fr):
            if self.raised(vs_):
                yield s, vs_
                continue
            out = []
            for v in vs_:
                s, t = self.str_of(s, v)
                out.append(t)
            yield s, T(V.S(concat(out)))

    def ev_IfExp(self, e, st, fr):
        for s, c in self.ev(e.test, st, fr):
            if self.raised(c):
                yield s, c
                continue
            for s2, b in self.branch(s, c):
                for y in self.ev(e.body if b else e.orelse, s2, fr):
                    yield y

    def ev_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)

        def go(i, s):
            for s1, v in self.ev(e.values[i], s, fr):
                if self.raised(v) or i == len(e.values) - 1:
                    yield s1, v
                    continue
                for s2, b in self.branch(s1, v):
                    if b == is_and:
                        for y in go(i + 1, s2):
                            yield y
                    else:
                        yield s2, v
        return go(0, st)

    def ev_UnaryOp(self, e, st, fr):
        for s, v in self.ev(e.operand, st, fr):
            if self.raised(v):
                yield s, v
            elif isinstance(e.op, ast.Not):
                for s2, c in self.truth(s, v):
                    yield s2, T(V.B(simp(z3.Not(c))))
            elif isinstance(e.op, ast.USub):
                k = self.kind(s, v.t)
                if k == "I":
                    yield s, T(V.I(simp(-un("I", v.t))))
                elif k == "F":
                    yield s, T(V.F(simp(-un("F", v.t))))
                else:
                    raise Unsupported("unary minus")
            else:
                raise Unsupported("unary op")

    def ev_Lambda(self, e, st, fr):
        mod = self.frame_module(st, fr)
        for s, ds in self.evs(list(e.args.defaults), st, fr):
            yield s, FnV(Fn("<lambda>", e, mod), fr, ds)

    def ev_Compare(self, e, st, fr):
        def go(i, s, left):
            for s1, right in self.ev(e.comparators[i], s, fr):
                if self.raised(right):
                    yield s1, right
                    continue
                for s2, c in self.compare(s1, e.ops[i], left, right):
                    if self.raised(c):
                        yield s2, c
                        continue
                    if i == len(e.ops) - 1:
                        yield s2, c
                        continue
                    for s3, b in self.branch(s2, c):
                        if b:
                            for y in go(i + 1, s3, right):
                                yield y
                        else:
                            yield s3, T(vb(False))
        for s0, l in self.ev(e.left, st, fr):
            if self.raised(l):
                yield s0, l
            else:
                for y in go(0, s0, l):
                    yield y

    def ev_NamedExpr(self, e, st, fr):
        for s, v in self.ev(e.value, st, fr):
            if not self.raised(v):
                s = s.copy()
                s.frames[fr][e.target.id] = v
            yield s, v

    def B(self, f):
        return T(V.B(simp(f)))

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            f = self.is_same(st, a, b)
            yield st, self.B(f if isinstance(op, ast.Is) else z3.Not(f))
        elif isinstance(op, (ast.Eq, ast.NotEq)):
            for s, v in self.equal(st, a, b):
                if isinstance(op, ast.NotEq) and not self.raised(v):
                    for s2, c in self.truth(s, v):
                        yield s2, self.B(z3.Not(c))
                else:
                    yield s, v
        elif isinstance(op, (ast.In, ast.NotIn)):
            for s, f in self.contains(st, b, a):
                if self.raised(f):
                    yield s, f
                else:
                    yield s, self.B(f if isinstance(op, ast.In) else z3.Not(f))
        else:
            x, y = self.num(st, a), self.num(st, b)
            f = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
            yield st, self.B(f)

    def num(self, st, v):
        if not isinstance(v, T):
            raise Unsupported("number expected")
        k = self.kind(st, v.t, ("I", "F", "B"))
        if k == "I":
            return un("I", v.t)
        if k == "F":
            return un("F", v.t)
        if k == "B":
            return z3.If(un("B", v.t), z3.IntVal(1), z3.IntVal(0))
        num = z3.Or(V.is_I(v.t), V.is_F(v.t))
        if self.entails(st, num):
            return z3.If(V.is_F(v.t), V.f(v.t), z3.ToReal(V.i(v.t)))
        raise Unsupported("number expected, kind %s: %s" % (k, v.t))

    def is_same(self, st, a, b):
        if isinstance(a, T) and isinstance(b, T):
            return a.t == b.t
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return z3.BoolVal(a.cls is b.cls)
        if isinstance(a, (ClsV, TypeOfV)) and isinstance(b, (ClsV, TypeOfV)):
            x = z3.IntVal(a.cls.id) if isinstance(a, ClsV) else typ(a.t)
            y = z3.IntVal(b.cls.id) if isinstance(b, ClsV) else typ(b.t)
            return x == y
        if isinstance(a, T) and syn_kind(a.t) == "None" or \
                isinstance(b, T) and syn_kind(b.t) == "None":
            return z3.BoolVal(False)
        if isinstance(a, ExtV) and isinstance(b, T) or isinstance(a, T) and isinstance(b, ExtV):
            x, y = self.toV(st, a)[1], self.toV(st, b)[1]
            return x == y
        if a is b:
            return z3.BoolVal(True)
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return z3.BoolVal(a.name == b.name)
        raise Unsupported("'is' on %r, %r" % (a, b))

    def equal(self, st, a, b):
        """a == b : yields (st, value)"""
        if isinstance(a, (ClsV, TypeOfV)) or isinstance(b, (ClsV, TypeOfV)):
            yield st, self.B(self.is_same(st, a, b))
            return
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.items) != len(b.items):
                yield st, T(vb(False))
                return

            def go(i, s):
                if i == len(a.items):
                    yield s, T(vb(True))
                    return
                for s1, v in self.equal(s, a.items[i], b.items[i]):
                    for s2, c in self.branch(s1, v):
                        if c:
                            for y in go(i + 1, s2):
                                yield y
                        else:
                            yield s2, T(vb(False))
            for y in go(0, st):
                yield y
            return
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported("== on %r, %r" % (a, b))
        for s, ka in self.kinds(st, a.t):
            if ka in ("None", "S", "B", "C", "Fn"):
                kb = self.kind(s, b.t)
                if kb == "R" and ka != "None":
                    pass
                yield s, self.B(a.t == b.t)
            elif ka in ("I", "F"):
                for s2, kb in self.kinds(s, b.t):
                    if kb in ("I", "F", "B"):
                        yield s2, self.B(self.num(s2, a) == self.num(s2, b))
                    else:
                        yield s2, T(vb(False))
            else:
                for y in self.equal_obj(s, a, b):
                    yield y

    def equal_obj(self, st, a, b):
        r = un("R", a.t)
        names = self.classes_of(st, r)
        hook = self.spec.equal_hook(self, st, a, b, names) if self.spec else None
        if hook is not None:
            for y in hook:
                yield y
            return
        groups = {}
        for n in names:
            c = self.prog.classes[n]
            _, m = c.lookup("__eq__")
            groups.setdefault(m if m is not None else
                              ("seq" if n in ("list", "tuple") else "is"), []).append(n)
        for s, m in self.narrow(st, r, groups):
            if m == "is":
                yield s, self.B(a.t == b.t)
            elif m == "seq":
                raise Unsupported("list equality without a spec")
            else:
                for y in self.call_fn(s, m, [a, b], {}, selfcls=groups[m]):
                    yield y

    def contains(self, st, coll, x):
        """x in coll : yields (st, formula)"""
        if isinstance(coll, TupV):
            def go(i, s):
                if i == len(coll.items):
                    yield s, z3.BoolVal(False)
                    return
                for s1, v in self.equal(s, coll.items[i], x):
                    for s2, c in self.truth(s1, v):
                        for s3, rest in go(i + 1, s2):
                            yield s3, z3.Or(c, rest)
            for y in go(0, st):
                yield y
            return
        if isinstance(coll, T):
            k = self.kind(st, coll.t)
            if k == "S":
                if self.kind(st, x.t) != "S":
                    raise Unsupported("in str")
                yield st, z3.Contains(un("S", coll.t), un("S", x.t))
                return
            if k == "R":
                r = un("R", coll.t)
                names = self.classes_of(st, r)
                groups = {}
                for n in names:
                    groups.setdefault(n if n in ("list", "tuple", "dict", "set") else
                                      self.prog.classes[n].lookup("__contains__")[1] or
                                      "iter", []).append(n)
                for s, n in self.narrow(st, r, groups):
                    if n in ("list", "tuple"):
                        s, t = self.toV(s, x)
                        yield s, self.spec.member(self, s, self.items(s, r), t)
                    elif n in ("dict", "set"):
                        s, t = self.toV(s, x)
                        yield s, self.get(s, "dhas", r)[self.dkey(s, t)]
                    elif isinstance(n, Fn):
                        for s2, v in self.call_fn(s, n, [coll, x], {}):
                            if self.raised(v):
                                yield s2, v
                                continue
                            for s3, c in self.truth(s2, v):
                                yield s3, c
                    else:
                        raise Unsupported("in on %s" % (names,))
                return
        if isinstance(coll, IterV):
            for s, seq in self.force(st, coll):
                if self.raised(seq):
                    yield s, seq
                    continue
                s, t = self.toV(s, x)
                yield s, self.spec.member(self, s, seq, t)
            return
        raise Unsupported("in on %r" % (coll,))

    # -------- binary operators
    def ev_BinOp(self, e, st, fr):
        for s, vs_ in self.evs([e.left, e.right], st, fr):
            if self.raised(vs_):
                yield s, vs_
                continue
            for y in self.binop(s, e.op, vs_[0], vs_[1]):
                yield y

    def binop(self, st, op, a, b):
        if isinstance(op, ast.Mod):
            ka = self.kind(st, a.t) if isinstance(a, T) else None
            if ka == "S":
                f = const_str(a.t)
                if f is None:
                    raise Unsupported("format string not constant")
                s, t = self.fmt(st, f, b)
                yield s, T(V.S(t))
                return
        if isinstance(a, TupV) and isinstance(b, TupV) and isinstance(op, ast.Add):
            yield st, TupV(a.items + b.items)
            return
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported("binary operator on %r %r" % (a, b))
        for s, ka in self.kinds(st, a.t):
            if ka == "S" and isinstance(op, ast.Add):
                for s2, kb in self.kinds(s, b.t):
                    if kb == "S":
                        yield s2, T(V.S(concat([un("S", a.t), un("S", b.t)])))
                    else:
                        yield s2, self.exc("TypeError")
            elif ka == "S" and isinstance(op, ast.Mult):
                raise Unsupported("string repetition")
            elif ka in ("I", "F", "B"):
                x, y = self.num(s, a), self.num(s, b)
                if self.kind(s, b.t) is None:      # an int or a float
                    for s2, kb in self.kinds(s, b.t, ("I", "F", "B")):
                        for z in self.binop(s2, op, a, b):
                            yield z
                    continue
                isf = "F" in (ka, self.kind(s, b.t))
                if isinstance(op, ast.Add):
                    z = x + y
                elif isinstance(op, ast.Sub):
                    z = x - y
                elif isinstance(op, ast.Mult):
                    z = x * y
                elif isinstance(op, ast.Div):
                    x, y = [z3.ToReal(v) if v.sort() == Int else v for v in (x, y)]
                    if z3.is_rational_value(simp(y)):
                        z = x / y
                    else:                      # (z3 is left out of nonlinear terms)
                        z = UF("real./", Real, Real, Real)(x, y)
                    isf = True
                    s0 = s.assume(y == 0)
                    if self.feasible(s0):
                        yield s0, self.exc("ZeroDivisionError")
                    s = s.assume(y != 0)
                else:
                    raise Unsupported("arith op")
                if isf and z.sort() == Int:
                    z = z3.ToReal(z)
                yield s, T((V.F if isf else V.I)(simp(z)))
            elif ka == "R":
                r = un("R", a.t)
                names = self.classes_of(s, r)
                if names <= {"list"} and isinstance(op, ast.Add):
                    for s2, seq in self.force(s, b):
                        if self.raised(seq):
                            yield s2, seq
                        else:
                            yield self.new_list(s2, simp_concat(self.items(s2, r), seq))
                else:
                    mn = {ast.Add: "__add__", ast.Sub: "__sub__"}.get(type(op))
                    groups = {}
                    for n in names:
                        m = mn and self.prog.classes[n].lookup(mn)[1]
                        if m is None:
                            raise Unsupported("operator on %s" % n)
                        groups.setdefault(m, []).append(n)
                    for s2, m in self.narrow(s, r, groups):
                        for y in self.call_fn(s2, m, [a, b], {}):
                            yield y
            else:
                raise Unsupported("operator on kind %s" % ka)

    # -------- strings
    def str_of(self, st, v):
        """str(v) -> (st, String term)"""
        if isinstance(v, T):
            k = self.kind(st, v.t)
            if k == "S":
                return st, un("S", v.t)
            ci = const_int(v.t) if k == "I" else None
            if ci is not None:
                return st, z3.StringVal(str(ci))
            h = self.spec.str_hook(self, st, v.t) if self.spec else None
            if h is not None:
                return st, h
            return st, UF("str_of", V, Str)(v.t)
        if isinstance(v, ClsV):
            return st, z3.StringVal("<class %s>" % v.cls.name)
        st, t = self.toV(st, v)
        return st, UF("str_of", V, Str)(t)

    def fmt(self, st, f, arg):
        args = arg.items if isinstance(arg, TupV) else [arg]
        args = list(args)
        out, i, k = [], 0, 0
        while i < len(f):
            c = f[i]
            if c != "%":
                j = f.find("%", i)
                j = len(f) if j < 0 else j
                out.append(z3.StringVal(f[i:j]))
                i = j
                continue
            if f[i + 1] == "%":
                out.append(z3.StringVal("%"))
                i += 2
                continue
            j = i + 1
            while f[j] not in "srdifgxX":
                j += 1
            spec, conv = f[i + 1:j], f[j]
            a = args[k]
            k += 1
            if conv == "s" and spec == "":
                st, t = self.str_of(st, a)
                out.append(t)
            else:
                if conv == "f":
                    x = self.num(st, a)
                    if x.sort() == Int:
                        x = z3.ToReal(x)
                    out.append(UF("fmt:" + spec + conv, Real, Str)(x))
                else:
                    st, t = self.toV(st, a)
                    out.append(UF("fmt:" + spec + conv, V, Str)(t))
            i = j + 1
        if k != len(args):
            raise Unsupported("format arity")
        return st, concat(out)

    # -------- attributes
    def ev_Attribute(self, e, st, fr):
        for s, v in self.ev(e.value, st, fr):
            if self.raised(v):
                yield s, v
            else:
                for y in self.getattr(s, v, e.attr):
                    yield y

    def getattr(self, st, v, name):
        if isinstance(v, ModV):
            g = self.prog.resolve(v.mod, name)
            if g is None:
                sub = "%s.%s" % (v.mod.name, name)
                if sub in self.prog.modules:
                    yield st, ModV(self.prog.modules[sub])
                    return
                raise Unsupported("module attribute %s.%s" % (v.mod.name, name))
            yield st, self.global_val(g, v.mod, name)
            return
        if isinstance(v, ExtV):
            yield st, ExtV(v.name + "." + name)
            return
        if isinstance(v, ClsV):
            if name == "__name__":
                yield st, T(vs(v.cls.name))
                return
            o, a = v.cls.lookup(name)
            if isinstance(a, Fn):
                yield st, FnV(a)
                return
            if isinstance(a, Prop):
                yield st, PropV(a)
                return
            if isinstance(a, tuple) and a[0] == "const":
                for y in self.class_const(st, o, name, a[1]):
                    yield y
                return
            if v.cls.external:
                yield st, ExtV("builtins.%s.%s" % (v.cls.name, name))
                return
            raise Unsupported("class attribute %s.%s" % (v.cls.name, name))
        if isinstance(v, TypeOfV):
            if name == "__name__":
                yield st, T(V.S(UF("clsname", Int, Str)(typ(v.t))))
                return
            raise Unsupported("attribute of type()")
        if isinstance(v, SuperV):
            names = self.classes_of(st, un("R", v.self_.t))
            groups = {}
            for n in names:
                c = self.prog.classes[n]
                o, a = c.lookup(name, after=v.cls)
                groups.setdefault(a, []).append(n)
            for s, a in self.narrow(st, un("R", v.self_.t), groups):
                if isinstance(a, Fn):
                    yield s, BoundV(a, v.self_, cls="super")
                elif isinstance(a, Prop):
                    for y in self.call_fn(s, a.fget, [v.self_], {}, nocontract=True):
                        yield y
                elif a is None and name in ("__init__",):
                    yield s, BMeth("object.__init__", v.self_)
                else:
                    raise Unsupported("super attribute %s" % name)
            return
        if isinstance(v, FileV):
            if name != "write":
                raise Unsupported("file method %s" % name)

            def write(eng, s, a):
                if eng.kind(s, a[0].t) != "S":
                    raise Unsupported("write of a non-string")
                s = s.copy()
                x = un("S", a[0].t)
                g = s.ghost["file"]
                s.ghost["file"] = x if const_str(g) == "" else concat([g, x])
                yield s, T(NONE)
            yield st, HookV("write", write)
            return
        if isinstance(v, PropV):
            f = {"fget": v.prop.fget, "fset": v.prop.fset}.get(name)
            if f is None:
                raise Unsupported("attribute %s of a property" % name)
            yield st, FnV(f)
            return
        if isinstance(v, (TupV, IterV)):
            yield st, BMeth(name, v)
            return
        if isinstance(v, SliceV):
            yield st, {"start": v.a, "stop": v.b, "step": v.c}[name]
            return
        if isinstance(v, (FnV, BoundV)) and name == "__name__":
            yield st, T(vs(v.fn.name))
            return
        if not isinstance(v, T):
            raise Unsupported("attribute %s of %r" % (name, v))
        for s, k in self.kinds(st, v.t):
            if k == "S":
                yield s, BMeth(name, v)
            elif k == "R":
                for y in self.getattr_obj(s, v, name):
                    yield y
            elif k == "None":
                yield s, self.exc("AttributeError")
            elif k == "C" and name == "__name__":
                yield s, T(V.S(UF("clsname", Int, Str)(un("C", v.t))))
            else:
                raise Unsupported("attribute %s on kind %s" % (name, k))

    def getattr_obj(self, st, v, name):
        r = un("R", v.t)
        names = self.classes_of(st, r)
        if name == "__class__":
            if len(names) == 1:
                yield st, ClsV(self.prog.classes[list(names)[0]])
            else:
                yield st, TypeOfV(r)
            return
        h = self.spec.attr_hook(self, st, v, name, names) if self.spec else None
        if h is not None:
            for y in h:
                yield y
            return
        groups = {}
        for n in names:
            c = self.prog.classes[n]
            if n in ("list", "tuple", "dict", "set", "slice"):
                if n == "slice":
                    groups.setdefault("field", []).append(n)
                else:
                    groups.setdefault("builtin", []).append(n)
                continue
            o, a = c.lookup(name)
            key = "field" if a is None else a
            groups.setdefault(key, []).append(n)
        ct = self.contract_for(names, name, "get")
        if ct is not None:
            for y in self.apply_contract(st, ct, [v], {}):
                yield y
            return
        if len(groups) > 1 and all(isinstance(a, Fn) and a.kind not in ("static",)
                                   for a in groups) and \
                self.contract_for(names, name, "call") is not None:
            yield st, BoundV(sorted(groups, key=lambda a: a.qual)[0], v)
            return
        for s, a in self.narrow(st, r, groups):
            if a == "field":
                for y in self.read_field(s, name, r, groups[a]):
                    yield y
            elif a == "builtin":
                yield s, BMeth(name, v)
            elif isinstance(a, Prop):
                if a.fget is None:
                    raise Unsupported("property without getter")
                for y in self.call_fn(s, a.fget, [v], {}, selfcls=groups[a]):
                    yield y
            elif isinstance(a, Fn):
                if a.kind == "static":
                    yield s, FnV(a)
                else:
                    yield s, BoundV(a, v)
            elif isinstance(a, tuple) and a[0] == "const":
                c = [x for x in self.prog.classes.values() if x.attrs.get(name) is a][0]
                for y in self.class_const(s, c, name, a[1]):
                    yield y
            else:
                raise Unsupported("attribute %s" % name)

    def read_field(self, st, f, r, names):
        e = self.exact(st, r)
        if e is not None and any(r.eq(x) for x in st.ghost.get("fresh", ())) and \
                names != ["slice"]:
            if (str(r), f) not in st.ghost.get("set", ()):
                yield st, self.exc("AttributeError")
                return
        elif f not in self.prog_fields() and names != ["slice"]:
            yield st, self.exc("AttributeError")
            return
        t = self.get(st, f, r)
        st = st.copy()
        self.learn(st, t)
        yield st, T(t)

    def prog_fields(self):
        if not hasattr(self, "_pf"):
            self._pf = set(self.ftypes)
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        self._pf.add(n.attr)
        return self._pf

    def class_const(self, st, cls, name, expr):
        if isinstance(expr, ast.Constant):
            yield st, self.const(expr.value)
            return
        if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and \
                expr.func.id == "object":
            key = ("obj", cls.name, name)
            if key not in self.fn_table:
                self.fn_table[key] = (len(self.fn_table) + 1, None)
            yield st, T(V.Fn(z3.IntVal(self.fn_table[key][0])))
            return
        if isinstance(expr, ast.Subscript) and isinstance(expr.slice, ast.Constant):
            v = expr.value
            if isinstance(v, ast.Tuple):
                yield st, self.const(v.elts[expr.slice.value].value)
                return
            src = ast.unparse(v).replace(" ", "")
            if src in ("list(range(2))", "range(2)"):
                yield st, T(vi(expr.slice.value))
                return
        if isinstance(expr, ast.Tuple) and all(isinstance(x, ast.Constant)
                                               for x in expr.elts):
            yield st, TupV([self.const(x.value) for x in expr.elts])
            return
        raise Unsupported("class constant %s.%s" % (cls.name, name))

    def setattr(self, st, v, name, val):
        """yields (st, None | ExcV)"""
        if not isinstance(v, T):
            raise Unsupported("setattr on %r" % (v,))
        for s, k in self.kinds(st, v.t):
            if k == "None":
                yield s, self.exc("AttributeError")
                continue
            if k != "R":
                raise Unsupported("setattr on kind %s" % k)
            r = un("R", v.t)
            names = self.classes_of(s, r)
            groups = {}
            for n in names:
                o, a = self.prog.classes[n].lookup(name)
                groups.setdefault(a if isinstance(a, Prop) else "field", []).append(n)
            ct = self.contract_for(names, name, "set")
            inl = ct is not None and ct.inline_at(self, s, [v, val])
            if ct is not None and not inl:
                for s2, x in self.apply_contract(s, ct, [v, val], {}):
                    yield s2, x if self.raised(x) else None
                continue
            for s2, a in self.narrow(s, r, groups):
                if a == "field":
                    s2, t = self.toV(s2, val)
                    s2 = s2.copy()
                    self.check_write(s2, name, r, t)
                    s2 = self.put(s2, name, r, t)
                    s2.ghost["set"] = s2.ghost.get("set", frozenset()) | {(str(r), name)}
                    s2 = self.spec.after_write(self, s2, name, r, t) if self.spec else s2
                    yield s2, None
                else:
                    if a.fset is None:
                        yield s2, self.exc("AttributeError")
                        continue
                    for s3, x in self.call_fn(s2, a.fset, [v, val], {},
                                              selfcls=groups[a], nocontract=inl):
                        yield s3, x if self.raised(x) else None

    # -------- subscripts
    def ev_Slice(self, e, st, fr):
        parts = [x if x is not None else ast.Constant(None)
                 for x in (e.lower, e.upper, e.step)]
        for s, vs_ in self.evs(parts, st, fr):
            yield s, (vs_ if self.raised(vs_) else SliceV(*vs_))

    def ev_Subscript(self, e, st, fr):
        for s, vs_ in self.evs([e.value, e.slice], st, fr):
            if self.raised(vs_):
                yield s, vs_
            else:
                for y in self.getitem(s, vs_[0], vs_[1]):
                    yield y

    def slice_bounds(self, st, n, sl):
        """(lo, hi) terms of a step-1 slice over length n (Python clamping)."""
        if isinstance(sl.c, T) and syn_kind(sl.c.t) != "None":
            if const_int(sl.c.t) != 1:
                raise Unsupported("slice step")

        def bound(v, dflt):
            if isinstance(v, T) and syn_kind(v.t) == "None":
                return dflt
            k = self.kind(st, v.t)
            if k == "None":
                return dflt
            if k != "I":
                # None or int: build an ite
                if not self.entails(st, z3.Or(V.is_None_(v.t), V.is_I(v.t))):
                    raise Unsupported("slice bound kind")
                x = V.i(v.t)
                return z3.If(V.is_None_(v.t), dflt, clamp(x))
            return clamp(un("I", v.t))

        def clamp(x):
            c = const_int(V.I(x))
            if c is not None and c >= 0:
                return z3.If(n < c, n, z3.IntVal(c))
            return z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n),
                         z3.If(x > n, n, x))
        lo = bound(sl.a, z3.IntVal(0))
        hi = bound(sl.b, n)
        return simp(lo), simp(z3.If(hi < lo, lo, hi))

    def getitem(self, st, v, i):
        if isinstance(v, TupV):
            if isinstance(i, SliceV):
                a, b = [None if syn_kind(x.t) == "None" else const_int(x.t)
                        for x in (i.a, i.b)]
                yield st, TupV(v.items[a:b])
                return
            c = const_int(i.t)
            if c is None:
                raise Unsupported("tuple index")
            if -len(v.items) <= c < len(v.items):
                yield st, v.items[c]
            else:
                yield st, self.exc("IndexError")
            return
        if not isinstance(v, T):
            raise Unsupported("subscript of %r" % (v,))
        for s, k in self.kinds(st, v.t):
            if k == "S":
                x = un("S", v.t)
                if isinstance(i, SliceV):
                    lo, hi = self.slice_bounds(s, Len(x), i)
                    yield s, T(V.S(z3.SubString(x, lo, hi - lo)))
                else:
                    n = Len(x)
                    j = self.num(s, i)
                    j2 = simp(z3.If(j < 0, j + n, j))
                    for s2, ok in self.fork(s, z3.And(j2 >= 0, j2 < n)):
                        if ok:
                            yield s2, T(V.S(z3.SubString(x, j2, 1)))
                        else:
                            yield s2, self.exc("IndexError")
                continue
            if k != "R":
                raise Unsupported("subscript on kind %s" % k)
            r = un("R", v.t)
            names = self.classes_of(s, r)
            groups = {}
            for n in names:
                if n in ("list", "tuple", "dict"):
                    groups.setdefault("seq" if n != "dict" else "dict", []).append(n)
                else:
                    m = self.prog.classes[n].lookup("__getitem__")[1]
                    if m is None:
                        raise Unsupported("subscript of %s" % n)
                    groups.setdefault(m, []).append(n)
            for s2, m in self.narrow(s, r, groups):
                if m == "seq":
                    for y in self.seq_get(s2, self.items(s2, r), i):
                        yield y
                elif m == "dict":
                    s2, kt = self.toV(s2, i)
                    kk = self.dkey(s2, kt)
                    for s3, ok in self.fork(s2, self.get(s2, "dhas", r)[kk]):
                        yield s3, (T(self.get(s3, "dval", r)[kk]) if ok
                                   else self.exc("KeyError"))
                else:
                    for y in self.call_fn(s2, m, [v, i], {}):
                        yield y

    def seq_get(self, st, seq, i):
        n = Len(seq)
        if isinstance(i, T) and self.kind(st, i.t) == "R":
            i = self.as_slice(st, i)
        if isinstance(i, SliceV):
            lo, hi = self.slice_bounds(st, n, i)
            st, lo = self.named(st, lo)
            st, hi = self.named(st, hi)
            yield self.new_list(st, simp(Sub(seq, lo, hi - lo)))
            return
        ki = known_items(seq)
        j = self.num(st, i)
        c = const_int(V.I(j))
        if ki is not None and c is not None:
            if -len(ki) <= c < len(ki):
                yield st, T(ki[c])
            else:
                yield st, self.exc("IndexError")
            return
        st, j2 = self.named(st, z3.If(j < 0, j + n, j))
        for s2, ok in self.fork(st, z3.And(j2 >= 0, j2 < n)):
            if ok:
                if c is not None and c >= 0:
                    j2 = z3.IntVal(c)
                elif c is not None:
                    j2 = simp(n + c)
                yield s2, T(At(seq, j2))
            else:
                yield s2, self.exc("IndexError")

    def as_slice(self, st, v):
        r = un("R", v.t)
        if self.classes_of(st, r) != frozenset(["slice"]):
            raise Unsupported("index object")
        return SliceV(*[T(self.get(st, f, r)) for f in ("start", "stop", "step")])

    def fork(self, st, f):
        f = simp(f)
        if z3.is_true(f):
            yield st, True
            return
        if z3.is_false(f):
            yield st, False
            return
        a = self.note(st.assume(f), f)
        if self.feasible(a):
            yield a, True
        b = self.note(st.assume(simp(z3.Not(f))), simp(z3.Not(f)))
        if self.feasible(b):
            yield b, False

    def setitem(self, st, v, i, val):
        """yields (st, None|ExcV)"""
        if not isinstance(v, T):
            raise Unsupported("item assignment")
        k = self.kind(st, v.t)
        if k != "R":
            raise Unsupported("item assignment on kind %s" % k)
        r = un("R", v.t)
        names = self.classes_of(st, r)
        if names == frozenset(["list"]):
            seq = self.items(st, r)
            n = Len(seq)
            if isinstance(i, T) and self.kind(st, i.t) == "R":
                i = self.as_slice(st, i)
            if isinstance(i, SliceV):
                lo, hi = self.slice_bounds(st, n, i)
                st, lo = self.named(st, lo)
                st, hi = self.named(st, hi)
                for s, new in self.force(st, val):
                    if self.raised(new):
                        yield s, new
                        continue
                    x = simp_concat(Sub(seq, 0, lo), new,
                                    Sub(seq, hi, n - hi))
                    yield self.put(s, "items", r, x), None
                return
            j = self.num(st, i)
            st, j2 = self.named(st, z3.If(j < 0, j + n, j))
            for s2, ok in self.fork(st, z3.And(j2 >= 0, j2 < n)):
                if not ok:
                    yield s2, self.exc("IndexError")
                    continue
                s2, t = self.toV(s2, val)
                ki = known_items(seq)
                cj = const_int(V.I(j2))
                if ki is not None and cj is not None:
                    ki[cj] = t
                    x = mkseq(ki)
                else:
                    x = simp_concat(Sub(seq, 0, j2), Unit(t),
                                    Sub(seq, j2 + 1, n - j2 - 1))
                    s2 = s2.assume(Len(x) == n)
                yield self.put(s2, "items", r, x), None
            return
        if names == frozenset(["dict"]):
            st, kt = self.toV(st, i)
            st, vt = self.toV(st, val)
            yield self.dict_set(st, r, kt, vt), None
            return
        groups = {}
        for n in names:
            m = self.prog.classes[n].lookup("__setitem__")[1]
            if m is None:
                raise Unsupported("item assignment on %s" % n)
            groups.setdefault(m, []).append(n)
        for s, m in self.narrow(st, r, groups):
            for s2, x in self.call_fn(s, m, [v, i, val], {}):
                yield s2, x if self.raised(x) else None

    # -------- dicts
    def dkey(self, st, t):
        return self.spec.dkey(self, st, t) if self.spec else t

    def dict_set(self, st, r, kt, vt):
        k = self.dkey(st, kt)
        has = self.get(st, "dhas", r)
        keys = self.get(st, "dkeys", r)
        h = simp(has[k])
        if z3.is_true(h):
            nk = keys
        elif z3.is_false(h):
            nk = simp_concat(keys, Unit(kt))
        else:
            nk = z3.If(has[k], keys, Cat(keys, Unit(kt)))
        dv = self.get(st, "dval", r)
        st = self.put(st, "dhas", r, z3.Store(has, k, z3.BoolVal(True)))
        st = self.put(st, "dval", r, z3.Store(dv, k, vt))
        return self.put(st, "dkeys", r, nk)

    # -------- comprehension
    def ev_ListComp(self, e, st, fr):
        for s, seq in self.comp_seq(e, st, fr):
            if self.raised(seq):
                yield s, seq
            else:
                yield self.new_list(s, seq)

    def ev_SetComp(self, e, st, fr):
        for s, seq in self.comp_seq(e, st, fr):
            if self.raised(seq):
                yield s, seq
            else:
                for y in self.set_from_seq(s, seq):
                    yield y

    def set_from_seq(self, st, seq):
        s, r = self.alloc(st, self.prog.classes["set"])
        s = s.copy()
        has = self.spec.seq_to_set(self, s, seq)
        order = self.spec.set_order(self, s, seq)
        s = self.put(s, "dhas", r, has)
        s = self.put(s, "dkeys", r, order)
        yield s, T(V.R(r))

    def ev_GeneratorExp(self, e, st, fr):
        # evaluation is deferred until the consumer pulls (the source is evaluated now)
        g = e.generators[0]
        for s, src in self.ev(g.iter, st, fr):
            if self.raised(src):
                yield s, src
            else:
                yield s, IterV("gen", node=e, fid=fr, src=src)

    def comp_seq(self, e, st, fr, src=None):
        if len(e.generators) != 1:
            # nested comprehension: outer loop body is the inner comprehension
            inner = type(e)(elt=e.elt, generators=e.generators[1:])
            return self._comp_nested(e, inner, st, fr)
        return self._comp1(e, st, fr, src)

    def _comp_nested(self, e, inner, st, fr):
        g = e.generators[0]
        for s, src in self.ev(g.iter, st, fr):
            if self.raised(src):
                yield s, src
                continue
            s, r = self.new_list(s, EMPTY)
            s = s.copy()
            fid = self.new_frame(s, parent=fr)

            def body(s1, x, r=r):
                for s2, o in self.assign_target(s1, g.target, x, fid):
                    if o is not None:
                        yield s2, (EXC, o)
                        continue
                    for s3, ok in self.conds(g.ifs, s2, fid):
                        if self.raised(ok):
                            yield s3, (EXC, ok)
                        elif ok:
                            for s4, sq in self.comp_seq(inner, s3, fid):
                                if self.raised(sq):
                                    yield s4, (EXC, sq)
                                else:
                                    rr = un("R", r.t)
                                    yield self.put(s4, "items", rr, simp_concat(
                                        self.items(s4, rr), sq)), (NEXT, None)
                        else:
                            yield s3, (NEXT, None)
            for s2, (o, x) in self.foreach(s, src, body, "comp@%s" % e.lineno):
                if o == EXC:
                    yield s2, x
                else:
                    yield s2, self.items(s2, un("R", r.t))

    def _comp1(self, e, st, fr, src):
        g = e.generators[0]

        def go(s, src):
            s, r = self.new_list(s, EMPTY)
            s = s.copy()
            fid = self.new_frame(s, parent=fr)
            rr = un("R", r.t)

            def body(s1, x):
                for s2, o in self.assign_target(s1, g.target, x, fid):
                    if o is not None:
                        yield s2, (EXC, o)
                        continue
                    for s3, ok in self.conds(g.ifs, s2, fid):
                        if self.raised(ok):
                            yield s3, (EXC, ok)
                        elif ok:
                            for s4, v in self.ev(e.elt, s3, fid):
                                if self.raised(v):
                                    yield s4, (EXC, v)
                                else:
                                    s4, t = self.toV(s4, v)
                                    if has_bool(t):     # not allowed in patterns
                                        s4, y = s4.copy(), fresh("elt", Bool)
                                        s4.pc.append(y == un("B", t))
                                        t = V.B(y)
                                    yield self.put(s4, "items", rr, simp_concat(
                                        self.items(s4, rr), Unit(t))), (NEXT, None)
                        else:
                            yield s3, (NEXT, None)
            for s2, (o, x) in self.foreach(s, src, body,
                                           "comp@%s" % getattr(e, "lineno", "?")):
                if o == EXC:
                    yield s2, x
                else:
                    yield s2, self.items(s2, rr)
        if src is not None:
            for y in go(st, src):
                yield y
            return
        for s, sv in self.ev(g.iter, st, fr):
            if self.raised(sv):
                yield s, sv
            else:
                for y in go(s, sv):
                    yield y

    def conds(self, ifs, st, fid):
        """yields (st, True/False/ExcV)"""
        if not ifs:
            yield st, True
            return
        for s, v in self.ev(ifs[0], st, fid):
            if self.raised(v):
                yield s, v
                continue
            for s2, b in self.branch(s, v):
                if b:
                    for y in self.conds(ifs[1:], s2, fid):
                        yield y
                else:
                    yield s2, False

    def new_frame(self, st, parent=None, module=None, fn=None):
        self.nfid += 1
        d = {}
        if parent is not None:
            d["$parent"] = parent
        if module is not None:
            d["$module"] = module
        if fn is not None:
            d["$fn"] = fn
        st.frames[self.nfid] = d
        return self.nfid

    # -------- iteration sources
    def force(self, st, v):
        """iterate v completely: yields (st, Seq term | ExcV)"""
        if isinstance(v, TupV):
            ts = []
            for x in v.items:
                st, t = self.toV(st, x)
                ts.append(t)
            yield st, mkseq(ts)
            return
        if isinstance(v, T):
            for s, k in self.kinds(st, v.t):
                if k != "R":
                    if k == "S":
                        raise Unsupported("iterating a string")
                    yield s, self.exc("TypeError")
                    continue
                r = un("R", v.t)
                names = self.classes_of(s, r)
                groups = {}
                for n in names:
                    if n in ("list", "tuple"):
                        groups.setdefault("seq", []).append(n)
                    elif n in ("dict", "set"):
                        groups.setdefault("dict", []).append(n)
                    else:
                        m = self.prog.classes[n].lookup("__iter__")[1]
                        groups.setdefault(m, []).append(n)
                for s2, m in self.narrow(s, r, groups):
                    if m == "seq":
                        yield s2, self.items(s2, r)
                    elif m == "dict":
                        yield s2, self.get(s2, "dkeys", r)
                    elif m is None:
                        yield s2, self.exc("TypeError")
                    else:
                        for s3, x in self.call_fn(s2, m, [v], {}):
                            if self.raised(x):
                                yield s3, x
                            else:
                                for y in self.force(s3, x):
                                    yield y
            return
        if isinstance(v, IterV):
            if v.kind == "iter":
                for y in self.force(st, v.src):
                    yield y
            elif v.kind == "seq":
                yield st, v.seq
            elif v.kind == "gen":
                for y in self.comp_seq(v.node, st, v.fid, v.src):
                    yield y
            elif v.kind in ("map", "filter"):
                s, r = self.new_list(st, EMPTY)
                rr = un("R", r.t)

                def body(s1, x):
                    for s2, y in self.call(s1, v.fn, [x], {}):
                        if self.raised(y):
                            yield s2, (EXC, y)
                        elif v.kind == "map":
                            s2, t = self.toV(s2, y)
                            yield self.put(s2, "items", rr, simp_concat(
                                self.items(s2, rr), Unit(t))), (NEXT, None)
                        else:
                            for s3, b in self.branch(s2, y):
                                if b:
                                    s3, t = self.toV(s3, x)
                                    yield self.put(s3, "items", rr, simp_concat(
                                        self.items(s3, rr), Unit(t))), (NEXT, None)
                                else:
                                    yield s3, (NEXT, None)
                for s2, (o, x) in self.foreach(s, v.src, body, v.kind):
                    if o == EXC:
                        yield s2, x
                    else:
                        yield s2, self.items(s2, rr)
            elif v.kind == "enumerate":
                raise Unsupported("enumerate as a sequence")
            else:
                raise Unsupported("iterator %s" % v.kind)
            return
        raise Unsupported("iterating %r" % (v,))

    # -------- calls
    def ev_Call(self, e, st, fr):
        # super() forms
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            if e.args:
                for s, vs_ in self.evs(e.args, st, fr):
                    yield s, SuperV(vs_[0].cls, vs_[1])
            else:
                f = fr
                while "$fn" not in st.frames[f]:
                    f = st.frames[f]["$parent"]
                fn = st.frames[f]["$fn"]
                first = fn.node.args.args[0].arg
                yield st, SuperV(fn.cls, st.frames[f][first])
            return
        for s, f in self.ev(e.func, st, fr):
            if self.raised(f):
                yield s, f
                continue
            for s2, args in self.call_args(e.args, s, fr):
                if self.raised(args):
                    yield s2, args
                    continue
                kwn = [k.arg for k in e.keywords]
                if None in kwn:
                    raise Unsupported("**kwargs call")
                for s3, kws in self.evs([k.value for k in e.keywords], s2, fr):
                    if self.raised(kws):
                        yield s3, kws
                        continue
                    for y in self.call(s3, f, args, dict(zip(kwn, kws))):
                        yield y

    def call_args(self, es, st, fr, acc=()):
        if not es:
            yield st, list(acc)
            return
        e = es[0]
        if isinstance(e, ast.Starred):
            for s, v in self.ev(e.value, st, fr):
                if self.raised(v):
                    yield s, v
                    continue
                if isinstance(v, TupV):
                    for y in self.call_args(es[1:], s, fr, tuple(acc) + tuple(v.items)):
                        yield y
                    continue
                for s2, seq in self.force(s, v):
                    if self.raised(seq):
                        yield s2, seq
                        continue
                    ki = known_items(seq)
                    if ki is not None:
                        new = tuple(acc) + tuple(T(x) for x in ki)
                    elif not es[1:]:
                        new = tuple(acc) + (IterV("star", seq=seq),)
                    else:
                        raise Unsupported("star argument")
                    for y in self.call_args(es[1:], s2, fr, new):
                        yield y
            return
        for s, v in self.ev(e, st, fr):
            if self.raised(v):
                yield s, v
            else:
                for y in self.call_args(es[1:], s, fr, tuple(acc) + (v,)):
                    yield y

    def call(self, st, f, args, kw):
        if isinstance(f, HookV):
            return f.call(self, st, args)
        if isinstance(f, FnV):
            return self.call_fn(st, f.fn, args, kw, fid=f.fid, defaults=f.defaults)
        if isinstance(f, BoundV):
            if f.cls == "super":
                return self.call_fn(st, f.fn, [f.self_] + list(args), kw,
                                    nocontract=not any(
                                        c.fn is not None and c.fn == f.fn.qual
                                        for c in getattr(self.spec, "contracts", ())))
            return self.call_method(st, f, args, kw)
        if isinstance(f, ClsV):
            return self.construct(st, f.cls, args, kw)
        if isinstance(f, TypeOfV):
            return self.construct_dyn(st, f.t, args, kw)
        if isinstance(f, BMeth):
            return self.builtin_method(st, f, args, kw)
        if isinstance(f, ExtV):
            return self.call_ext(st, f.name, args, kw)
        if isinstance(f, T) and self.kind(st, f.t) == "Fn":
            g = self.from_fn(f.t)
            if g is not None:
                return self.call(st, g, args, kw)
        raise Unsupported("call of %r" % (f,))

    def contract_for(self, names, name, kind="call"):
        if not self.spec:
            return None
        return self.spec.find_contract(self, names, name, kind)

    def call_method(self, st, b, args, kw):
        names = self.classes_of(st, un("R", b.self_.t))
        ct = self.contract_for(names, b.fn.name, "call")
        if ct is not None and not ct.inline_at(self, st, [b.self_] + list(args)):
            return self.apply_contract(st, ct, [b.self_] + list(args), kw)
        return self.call_fn(st, b.fn, [b.self_] + list(args), kw, nocontract=True)

    def call_fn(self, st, fn, args, kw, fid=None, defaults=None, nocontract=False,
                selfcls=None):
        """call repository function fn (contract or inline): yields (st, val|ExcV)"""
        if not nocontract and self.spec:
            ct = self.spec.find_fn_contract(self, fn, args, st)
            if ct is not None and not ct.inline_at(self, st, args):
                for y in self.apply_contract(st, ct, args, kw):
                    yield y
                return
        if len(st.cstack) > 40:
            raise Unsupported("inlining depth (%s)" % fn.qual)
        if sum(1 for q in st.cstack if q == fn.qual) >= 6 and fn.name != "<lambda>":
            raise Unsupported("recursion without contract: %s" % fn.qual)
        if fn.cls is not None or fid is None:
            self.inlined.add(fn.qual)
        self.depth += 1
        try:
            for s, o, v in self.run_fn(st, fn, args, kw, fid, defaults):
                yield s, v
        finally:
            self.depth -= 1

    def bind(self, st, fn, args, kw, defaults):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out, args = {}, list(args)
        star = None
        if args and isinstance(args[-1], IterV) and args[-1].kind == "star":
            star = args.pop()
        for i, v in enumerate(args):
            if i < len(names):
                out[names[i]] = v
            elif a.vararg:
                out.setdefault("$va", []).append(v)
            else:
                raise Unsupported("too many arguments for %s" % fn.qual)
        if a.vararg:
            va = out.pop("$va", [])
            if star is not None:
                ts = []
                for x in va:
                    st, t = self.toV(st, x)
                    ts.append(t)
                st, r = self.new_list(st, simp_concat(mkseq(ts), star.seq) if ts
                                      else star.seq, "tuple")
                out[a.vararg.arg] = r
            else:
                out[a.vararg.arg] = TupV(va)
        elif star is not None:
            raise Unsupported("star argument to %s" % fn.qual)
        for k, v in kw.items():
            out[k] = v
        if a.kwarg:
            raise Unsupported("**kwargs")
        ds = list(a.defaults)
        for n, d in zip(names[len(names) - len(ds):], range(len(ds))):
            if n not in out:
                if defaults is not None:
                    out[n] = defaults[d]
                else:
                    out[n] = ("default", ds[d])
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg not in out and d is not None:
                out[n.arg] = ("default", d)
        for n in names:
            if n not in out:
                return st, None
        return st, out

    def run_fn(self, st, fn, args, kw, fid=None, defaults=None):
        """inline execution: yields (st, outcome, val|ExcV)"""
        st, b = self.bind(st, fn, args, kw, defaults)
        if b is None:
            yield st, EXC, self.exc("TypeError")
            return
        st = st.copy()
        fr = self.new_frame(st, parent=fid, module=None if fid else fn.module, fn=fn)
        old = st.cstack
        st.cstack = old + (fn.qual,)
        states = [st]
        for n, v in b.items():
            if isinstance(v, tuple) and v[0] == "default":
                nxt = []
                for s in states:
                    s = s.copy()
                    mf = self.new_frame(s, module=fn.module)
                    for s2, x in self.ev(v[1], s, mf):
                        s2 = s2.copy()
                        s2.frames[fr][n] = x
                        nxt.append(s2)
                states = nxt
            else:
                for s in states:
                    s.frames[fr][n] = v
        for s in states:
            if isinstance(fn.node, ast.Lambda):
                for s2, v in self.ev(fn.node.body, s, fr):
                    s2 = s2.copy()
                    s2.cstack = old
                    yield s2, (EXC if self.raised(v) else RET), v
                continue
            gen = None
            if fn.is_gen:
                s, gen = self.new_list(s, EMPTY)
                s = s.copy()
                s.frames[fr]["$gen"] = gen
            for s2, (o, v) in self.block(fn.node.body, s, fr):
                s2 = s2.copy()
                s2.cstack = old
                if o == EXC:
                    yield s2, EXC, v
                elif gen is not None:
                    yield s2, RET, IterV("seq", seq=self.items(s2, un("R", gen.t)))
                elif o == RET:
                    yield s2, RET, v
                else:
                    yield s2, RET, T(NONE)

    # -------- constructors
    def construct(self, st, cls, args, kw):
        n = cls.name
        if cls.external:
            if cls.issub(self.prog.classes["BaseException"]):
                yield st, ExcV(cls, tuple(args))
                return
            for y in self.builtin_ctor(st, n, args, kw):
                yield y
            return
        if cls.issub(self.prog.classes["BaseException"]):
            yield st, ExcV(cls, tuple(args))
            return
        if self.spec:
            ct = self.spec.find_ctor_contract(self, cls, args)
            if ct is not None:
                for y in self.apply_contract(st, ct, [ClsV(cls)] + list(args), kw):
                    yield y
                return
        s, r = self.alloc(st, cls)
        _, init = cls.lookup("__init__")
        if init is None:
            yield s, T(V.R(r))
            return
        s.ghost["raw"] = s.ghost.get("raw", ()) + (r,)
        for s2, v in self.call_fn(s, init, [T(V.R(r))] + list(args), kw):
            s2 = s2.copy()
            s2.ghost["raw"] = tuple(x for x in s2.ghost.get("raw", ()) if not x.eq(r))
            if not self.raised(v):
                for f in self.spec.fields_of(cls) if self.spec else ():
                    if (str(r), f) not in s2.ghost.get("set", ()):
                        self.oblige(s2, "%s() initialises %s" % (cls.name, f),
                                    z3.BoolVal(False))
                    else:
                        self.check_write(s2, f, r, self.get(s2, f, r))
            yield s2, (v if self.raised(v) else T(V.R(r)))

    def construct_dyn(self, st, r, args, kw):
        names = self.classes_of(st, r)
        groups = {n: [n] for n in sorted(names)}
        for s, n in self.narrow(st, r, groups):
            for y in self.construct(s, self.prog.classes[n], args, kw):
                yield y

    def builtin_ctor(self, st, n, args, kw):
        if n in ("list", "tuple"):
            if not args:
                if n == "tuple":
                    yield st, TupV([])
                else:
                    yield self.new_list(st, EMPTY)
                return
            if n == "tuple" and isinstance(args[0], TupV):
                yield st, args[0]
                return
            if isinstance(args[0], T) and self.kind(st, args[0].t) == "S":
                raise Unsupported("list(str)")
            for s, seq in self.force(st, args[0]):
                if self.raised(seq):
                    yield s, seq
                else:
                    yield self.new_list(s, seq, n)
            return
        if n == "dict":
            s, r = self.alloc(st, self.prog.classes["dict"])
            if not args:
                s = self.put(s, "dkeys", r, EMPTY)
                s = self.put(s, "dhas", r, z3.K(V, z3.BoolVal(False)))
                s = self.put(s, "dval", r, z3.K(V, NONE))
                yield s, T(V.R(r))
                return
            if isinstance(args[0], T) and self.kind(st, args[0].t) == "R":
                o = un("R", args[0].t)
                if self.classes_of(st, o) == frozenset(["dict"]):
                    for f in ("dkeys", "dhas", "dval"):
                        s = self.put(s, f, r, self.get(s, f, o))
                    yield s, T(V.R(r))
                    return
            raise Unsupported("dict()")
        if n == "set":
            if not args:
                s, r = self.alloc(st, self.prog.classes["set"])
                s = self.put(s, "dkeys", r, EMPTY)
                s = self.put(s, "dhas", r, z3.K(V, z3.BoolVal(False)))
                yield s, T(V.R(r))
                return
            for s, seq in self.force(st, args[0]):
                if self.raised(seq):
                    yield s, seq
                else:
                    for y in self.set_from_seq(s, seq):
                        yield y
            return
        if n == "bool":
            if not args:
                yield st, T(vb(False))
                return
            for s, c in self.truth(st, args[0]):
                yield s, self.B(c)
            return
        if n == "str":
            s, t = self.str_of(st, args[0])
            yield s, T(V.S(t))
            return
        if n == "int":
            v = args[0]
            k = self.kind(st, v.t)
            if k == "I":
                yield st, v
            elif k == "F":
                x = un("F", v.t)
                yield st, T(V.I(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))))
            else:
                raise Unsupported("int() of kind %s" % k)
            return
        if n == "float":
            v = args[0]
            for s, k in self.kinds(st, v.t):
                if k in ("I", "F", "B"):
                    x = self.num(s, v)
                    yield s, T(V.F(simp(z3.ToReal(x)) if x.sort() == Int else x))
                else:
                    yield s, self.exc("TypeError" if k != "S" else "ValueError")
            return
        if n == "type":
            v = args[0]
            if isinstance(v, T):
                k = self.kind(st, v.t)
                if k == "R":
                    r = un("R", v.t)
                    names = self.classes_of(st, r)
                    if len(names) == 1:
                        yield st, ClsV(self.prog.classes[list(names)[0]])
                    else:
                        yield st, TypeOfV(r)
                    return
                if k in ("S", "I", "B", "F"):
                    yield st, ClsV(self.prog.classes[
                        {"S": "str", "I": "int", "B": "bool", "F": "float"}[k]])
                    return
            raise Unsupported("type()")
        if n == "slice":
            a = list(args) + [T(NONE)] * 3
            if len(args) == 1:
                a = [T(NONE), args[0], T(NONE)]
            yield st, SliceV(a[0], a[1], a[2])
            return
        if n == "object":
            s, r = self.alloc(st, self.prog.classes["object"])
            yield s, T(V.R(r))
            return
        raise Unsupported("constructor %s" % n)

    # -------- builtin functions
    def call_ext(self, st, name, args, kw):
        h = self.spec.ext_call(self, st, name, args, kw) if self.spec else None
        if h is not None:
            return h
        n = name[len("builtins."):] if name.startswith("builtins.") else name
        m = getattr(self, "bi_" + n.replace(".", "_"), None)
        if m is None:
            raise Unsupported("external call %s" % name)
        return m(st, args, kw)

    def bi_len(self, st, args, kw):
        v = args[0]
        if isinstance(v, TupV):
            yield st, T(vi(len(v.items)))
            return
        if not isinstance(v, T):
            raise Unsupported("len of %r" % v)
        for s, k in self.kinds(st, v.t):
            if k == "S":
                yield s, T(V.I(Len(un("S", v.t))))
                continue
            if k != "R":
                yield s, self.exc("TypeError")
                continue
            r = un("R", v.t)
            names = self.classes_of(s, r)
            groups = {}
            for n in names:
                if n in ("list", "tuple"):
                    groups.setdefault("seq", []).append(n)
                elif n in ("dict", "set"):
                    groups.setdefault("dict", []).append(n)
                else:
                    groups.setdefault(self.prog.classes[n].lookup("__len__")[1],
                                      []).append(n)
            for s2, m in self.narrow(s, r, groups):
                if m == "seq":
                    yield s2, T(V.I(simp(Len(self.items(s2, r)))))
                elif m == "dict":
                    yield s2, T(V.I(Len(self.get(s2, "dkeys", r))))
                elif m is None:
                    yield s2, self.exc("TypeError")
                else:
                    for y in self.call_fn(s2, m, [v], {}):
                        yield y

    def class_list(self, st, c):
        """classes named by isinstance's second argument"""
        if isinstance(c, ClsV):
            return [c.cls]
        if isinstance(c, TupV):
            return sum((self.class_list(st, x) for x in c.items), [])
        if isinstance(c, ExtV):
            if c.name.endswith("string_types"):
                return [self.prog.classes["str"]]
            if c.name.endswith("integer_types"):
                return [self.prog.classes["int"]]
            if c.name == "pyparsing.ParseResults":
                return [self.prog.classes.get("ParseResults") or
                        self.prog.classes["ParserElement"]]
        raise Unsupported("isinstance class %r" % (c,))

    def bi_isinstance(self, st, args, kw):
        v, c = args
        cs = self.class_list(st, c)
        if isinstance(v, TupV):
            yield st, T(vb(any(x.name in ("tuple", "object") for x in cs)))
            return
        if isinstance(v, SliceV):
            yield st, T(vb(any(x.name in ("slice", "object") for x in cs)))
            return
        if isinstance(v, (ClsV, TypeOfV, FnV, BoundV, HookV, IterV, ExtV, ModV)):
            yield st, T(vb(any(x.name == "object" for x in cs)))
            return
        if isinstance(v, T):
            k = syn_kind(v.t)
            f = None
            if k == "R":
                h = st.hints.get(un("R", v.t).get_id())
                if h:
                    ins = [n for n in h[0] if any(self.prog.classes[n].issub(c2)
                                                  for c2 in cs)]
                    if len(ins) == len(h[0]):
                        f = z3.BoolVal(True)
                    elif not ins:
                        f = z3.BoolVal(False)
            if f is None:
                f = z3.Or([self.isinst_formula(v.t, x) for x in cs])
            yield st, self.B(f)
            return
        if isinstance(v, ExcV):
            yield st, T(vb(any(v.cls.issub(x) for x in cs)))
            return
        raise Unsupported("isinstance")

    def bi_hasattr(self, st, args, kw):
        v, n = args
        name = const_str(n.t)
        for s, k in self.kinds(st, v.t):
            if k != "R":
                raise Unsupported("hasattr on %s" % k)
            r = un("R", v.t)
            names = self.classes_of(s, r)
            groups = {}
            for c in names:
                groups.setdefault(self.prog.classes[c].lookup(name)[1] is not None,
                                  []).append(c)
            if len(groups) == 1:
                yield s, T(vb(list(groups)[0]))
            else:
                yield s, self.B(z3.Or([typ(r) == self.prog.classes[c].id
                                       for c in groups[True]]))

    def bi_id(self, st, args, kw):
        v = args[0]
        if isinstance(v, T) and self.kind(st, v.t) == "R":
            yield st, T(V.I(UF("addr", Int, Int)(un("R", v.t))))
            return
        raise Unsupported("id()")

    def bi_map(self, st, args, kw):
        if len(args) != 2:
            raise Unsupported("map arity")
        yield st, IterV("map", fn=args[0], src=args[1])

    def bi_filter(self, st, args, kw):
        fn = args[0]
        if isinstance(fn, T) and syn_kind(fn.t) == "None":
            fn = HookV("bool", lambda e, s, a: iter([(s, a[0])]))
        yield st, IterV("filter", fn=fn, src=args[1])

    def bi_iter(self, st, args, kw):
        yield st, IterV("iter", src=args[0])

    def bi_enumerate(self, st, args, kw):
        if len(args) > 1 or kw:
            raise Unsupported("enumerate start")
        yield st, IterV("enumerate", src=args[0])

    def bi_zip(self, st, args, kw):
        yield st, IterV("zip", srcs=list(args))

    def bi_range(self, st, args, kw):
        if len(args) == 1:
            lo, hi = z3.IntVal(0), self.num(st, args[0])
        elif len(args) == 2:
            lo, hi = self.num(st, args[0]), self.num(st, args[1])
        else:
            raise Unsupported("range step")
        yield st, IterV("range", lo=lo, hi=hi)

    def bi_sum(self, st, args, kw):
        """a number; positive when there are elements and all are positive"""
        if len(args) != 1 or kw:
            raise Unsupported("sum with a start value")
        for s, seq in self.force(st, args[0]):
            if self.raised(seq):
                yield s, seq
                continue
            s = s.copy()
            x = fresh("sum", V)
            self.const_ty[x.decl().name()] = self.spec.ty("I|F")
            j = z3.Int("j!sum")
            e = sat_(seq, j)
            num = lambda t: z3.If(V.is_F(t), V.f(t), z3.ToReal(V.i(t)))
            isn = lambda t: z3.Or(V.is_F(t), V.is_I(t))
            inr = z3.And(0 <= j, j < slen(seq))
            self.oblige(s, "sum() of numbers", z3.ForAll(
                [j], z3.Implies(inr, isn(e)), patterns=[e]))
            s.pc += [isn(x), z3.Implies(slen(seq) == 0, x == vi(0)), z3.Implies(z3.And(
                slen(seq) > 0, z3.ForAll([j], z3.Implies(inr, num(e) > 0), patterns=[e])),
                num(x) > 0)]
            yield s, T(x)

    def bi_getattr(self, st, args, kw):
        name = const_str(args[1].t)
        if name is None:
            raise Unsupported("getattr")
        return self.getattr(st, args[0], name)

    def bi_any(self, st, args, kw):
        return self.anyall(st, args[0], True)

    def bi_all(self, st, args, kw):
        return self.anyall(st, args[0], False)

    def anyall(self, st, src, stop):
        """any/all: exits the iteration early (stop=True: on the first true element)."""
        node = src
        elt = None
        if isinstance(src, IterV) and src.kind in ("gen", "map"):
            elt, base = src, src.src
        else:
            base = src
        s0 = st.copy()
        fid = self.new_frame(s0, parent=src.fid) if elt is not None and \
            src.kind == "gen" else None

        def body(s1, x):
            if elt is None:
                for s2, b in self.branch(s1, x):
                    yield s2, ((RET, T(vb(stop))) if b == stop else (NEXT, None))
                return
            if src.kind == "map":
                vals = ((s, True, v) for s, v in self.call(s1, src.fn, [x], {}))
            else:
                vals = self._gen_elts(src.node, s1, x, fid)
            for s2, ok, v in vals:
                if self.raised(v):
                    yield s2, (EXC, v)
                elif not ok:
                    yield s2, (NEXT, None)
                else:
                    for s3, b in self.branch(s2, v):
                        yield s3, ((RET, T(vb(stop))) if b == stop else (NEXT, None))
        if elt is not None and src.kind == "gen" and len(src.node.generators) != 1:
            raise Unsupported("nested generator in any/all")
        for s, (o, v) in self.foreach(s0, base, body, "any" if stop else "all"):
            if o in (RET, EXC):
                yield s, v
            else:
                yield s, T(vb(not stop))

    def _gen_elts(self, node, st, x, fid):
        g = node.generators[0]
        for s2, o in self.assign_target(st, g.target, x, fid):
            if o is not None:
                yield s2, True, o
                continue
            for s3, ok in self.conds(g.ifs, s2, fid):
                if self.raised(ok):
                    yield s3, True, ok
                elif ok:
                    for s4, v in self.ev(node.elt, s3, fid):
                        yield s4, True, v
                else:
                    yield s3, False, None

    def bi_print(self, st, args, kw):
        yield st, T(NONE)

    # -------- methods of builtin objects
    def builtin_method(self, st, b, args, kw):
        v, n = b.self_, b.name
        if n == "object.__init__":
            return iter([(st, T(NONE))])
        if isinstance(v, TupV):
            if n == "index" or n == "count":
                raise Unsupported("tuple.%s" % n)
        if isinstance(v, T):
            k = self.kind(st, v.t)
            if k == "S":
                return self.str_method(st, v, n, args, kw)
            if k == "R":
                names = self.classes_of(st, un("R", v.t))
                if names <= {"list", "tuple"}:
                    m = getattr(self, "list_" + n, None)
                    if m:
                        return m(st, un("R", v.t), args)
                if names <= {"dict"}:
                    m = getattr(self, "dict_m_" + n, None)
                    if m:
                        return m(st, un("R", v.t), args)
        if n == "__hash__":
            pass
        raise Unsupported("method %s of builtin" % n)

    def str_method(self, st, v, n, args, kw):
        x = un("S", v.t)
        c = const_str(v.t)
        if n == "join":
            for s, seq in self.force(st, args[0]):
                if self.raised(seq):
                    yield s, seq
                    continue
                yield s, T(V.S(self.join(s, x, seq)))
            return
        if n == "replace" and len(args) == 2:
            a, b = const_str(args[0].t), const_str(args[1].t)
            if a is not None and b is not None and len(a) == 1:
                yield st, T(V.S(hom_apply(x, {a: b})))
                return
            raise Unsupported("replace with non-constant arguments")
        if c is not None and all(isinstance(a, T) and const_str(a.t) is not None
                                 for a in args) and n in ("lower", "strip", "lstrip",
                                                          "upper", "rstrip"):
            yield st, T(vs(getattr(c, n)(*[const_str(a.t) for a in args])))
            return
        if n in ("lower", "strip", "lstrip", "rstrip", "upper") and not args:
            yield st, T(V.S(UF("str." + n, Str, Str)(x)))
            return
        if n == "split" and not args:
            q = UF("str.split", Str, SeqV)(x)
            s, r = self.new_list(st, q)
            s.pc.append(self.all_str(q))
            yield s, r
            return
        if n == "split" and len(args) == 1:
            q = UF("str.splitby", Str, Str, SeqV)(x, un("S", args[0].t))
            s, r = self.new_list(st, q)
            s.pc += [slen(q) >= 1, self.all_str(q)]
            yield s, r
            return
        if n in ("startswith", "endswith") and len(args) == 1 and \
                isinstance(args[0], T) and self.kind(st, args[0].t) == "S":
            y = un("S", args[0].t)
            yield st, self.B(z3.PrefixOf(y, x) if n == "startswith" else
                             z3.SuffixOf(y, x))
            return
        if n == "count" and len(args) == 1:
            yield st, T(V.I(UF("str.count", Str, Str, Int)(x, un("S", args[0].t))))
            return
        raise Unsupported("str.%s" % n)

    def all_str(self, q):
        j = z3.Int("j!sp")
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < slen(q)),
                                         V.is_S(sat_(q, j))), patterns=[sat_(q, j)])

    def join(self, st, sep, seq):
        ki = known_items(seq)
        if ki is not None and all(self.kind(st, t) == "S" for t in ki):
            out = []
            for i, t in enumerate(ki):
                if i:
                    out.append(sep)
                out.append(un("S", t))
            return concat(out)
        return UF("str.join", Str, SeqV, Str)(sep, seq)

    def list_append(self, st, r, args):
        s, t = self.toV(st, args[0])
        yield self.put(s, "items", r, simp_concat(self.items(s, r), Unit(t))), T(NONE)

    def elem_facts(self, st, seq):
        """the elements of a stored list have its declared element type"""
        ty = self.elem_ty(st, seq)
        if ty is None or known_items(seq) is not None:
            return []
        j = z3.Int("j!ef")
        e = sat_(seq, j)
        return [forall_pat([j], z3.Implies(z3.And(0 <= j, j < slen(seq)),
                                           self.ty_formula(st, ty, e)), e)]

    def list_extend(self, st, r, args):
        for s, seq in self.force(st, args[0]):
            if self.raised(seq):
                yield s, seq
            else:
                s = s.assume(*self.elem_facts(s, seq))
                yield self.put(s, "items", r,
                               simp_concat(self.items(s, r), seq)), T(NONE)

    def named(self, st, t):
        """the integer t as a constant (conditionals are not allowed in patterns)"""
        t = simp(t)
        if not has_ite(t):
            return st, t
        # the same conditional has the same name
        t0, k = self.names_of.setdefault(t.get_id(), (t, None))
        if k is None:
            k = fresh("ix", Int)
            self.names_of[t.get_id()] = (t, k)
        return st.assume(k == t), k

    def list_insert(self, st, r, args):
        seq = self.items(st, r)
        n = Len(seq)
        i = self.num(st, args[0])
        s, t = self.toV(st, args[1])
        j = simp(z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n),
                       z3.If(i > n, n, i)))
        s, j = self.named(s, j)
        x = simp_concat(Sub(seq, 0, j), Unit(t), Sub(seq, j, n - j))
        yield self.put(s, "items", r, x), T(NONE)

    def list_pop(self, st, r, args):
        seq = self.items(st, r)
        n = Len(seq)
        i = self.num(st, args[0]) if args else z3.IntVal(-1)
        st, j = self.named(st, z3.If(i < 0, i + n, i))
        for s, ok in self.fork(st, z3.And(j >= 0, j < n)):
            if not ok:
                yield s, self.exc("IndexError")
                continue
            x = simp_concat(Sub(seq, 0, j), Sub(seq, j + 1, n - j - 1))
            yield self.put(s, "items", r, x), T(At(seq, j))

    def list_index(self, st, r, args):
        st, t = self.toV(st, args[0])
        seq = self.items(st, r)
        lo, hi = z3.IntVal(0), Len(seq)
        if len(args) > 1:
            lo, hi = self.slice_bounds(st, Len(seq), SliceV(
                args[1], args[2] if len(args) > 2 else T(NONE), T(NONE)))
            st, lo = self.named(st, lo)
            st, hi = self.named(st, hi)
        for y in self.find_eq(st, seq, t, lo, hi):
            yield y

    def find_eq(self, st, seq, t, lo, hi):
        """first index in [lo,hi) whose element == t, or ValueError"""
        eq = lambda s, a, b: self.spec.elem_eq(self, s, a, b)
        k = fresh("idx", Int)
        q = z3.Int("q!i")
        s = st.assume(k >= lo, k < hi, k >= 0, k < Len(seq), eq(st, At(seq, k), t),
                      z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < k),
                                                z3.Not(eq(st, At(seq, q), t))),
                                patterns=[At(seq, q)]))
        if self.feasible(s):
            yield s, T(V.I(k))
        s = st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < hi),
                                                z3.Not(eq(st, At(seq, q), t))),
                                patterns=[At(seq, q)]))
        if self.feasible(s):
            yield s, self.exc("ValueError")

    def list_remove(self, st, r, args):
        st, t = self.toV(st, args[0])
        seq = self.items(st, r)
        n = Len(seq)
        for s, k in self.find_eq(st, seq, t, z3.IntVal(0), n):
            if self.raised(k):
                yield s, k
                continue
            j = un("I", k.t)
            x = simp_concat(Sub(seq, 0, j), Sub(seq, j + 1, n - j - 1))
            yield self.put(s, "items", r, x), T(NONE)

    def list_reverse(self, st, r, args):
        s = self.put(st, "items", r, UF("seq.reverse", SeqV, SeqV)(self.items(st, r)))
        yield s, T(NONE)

    def list_copy(self, st, r, args):
        yield self.new_list(st, self.items(st, r))

    def list_clear(self, st, r, args):
        yield self.put(st, "items", r, EMPTY), T(NONE)

    def dict_m_items(self, st, r, args):
        yield st, IterV("items", r=r, dk=self.get(st, "dkeys", r),
                        dv=self.get(st, "dval", r))

    def dict_m_values(self, st, r, args):
        yield st, IterV("seq", seq=self.spec.dict_values(self, st, r))

    def dict_m_keys(self, st, r, args):
        yield st, IterV("seq", seq=self.get(st, "dkeys", r))

    def dict_m_get(self, st, r, args):
        st, kt = self.toV(st, args[0])
        k = self.dkey(st, kt)
        d = args[1] if len(args) > 1 else T(NONE)
        for s, ok in self.fork(st, self.get(st, "dhas", r)[k]):
            yield s, (T(self.get(s, "dval", r)[k]) if ok else d)

    def dict_m_copy(self, st, r, args):
        return self.builtin_ctor(st, "dict", [T(V.R(r))], {})

    # -------- contract application
    def apply_contract(self, st, ct, args, kw):
        self.contracts_used.add(ct.name)
        return ct.apply(self, st, args, kw)

    # -------- statements
    def block(self, stmts, st, fr):
        if not stmts:
            yield st, (NEXT, None)
            return
        for s, o in self.stmt(stmts[0], st, fr):
            if o[0] == NEXT:
                for y in self.block(stmts[1:], s, fr):
                    yield y
            else:
                yield s, o

    def stmt(self, n, st, fr):
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %s)" % (type(n).__name__, n.lineno))
        return m(n, st, fr)

    def st_Pass(self, n, st, fr):
        yield st, (NEXT, None)

    def st_Import(self, n, st, fr):
        s = st.copy()
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            m = self.prog.modules.get(a.name)
            s.frames[fr][nm] = ModV(m) if m and a.asname else ExtV(
                a.name if a.asname else nm)
        yield s, (NEXT, None)

    def st_ImportFrom(self, n, st, fr):
        mod = self.frame_module(st, fr)
        s = st.copy()
        base = self.prog._resolve_mod(mod, n.module, n.level)
        for a in n.names:
            if base in self.prog.modules:
                g = self.prog.resolve(self.prog.modules[base], a.name)
                s.frames[fr][a.asname or a.name] = self.global_val(g, mod, a.name)
            else:
                s.frames[fr][a.asname or a.name] = ExtV("%s.%s" % (base, a.name))
        yield s, (NEXT, None)

    def st_FunctionDef(self, n, st, fr):
        mod = self.frame_module(st, fr)
        for s, ds in self.evs(list(n.args.defaults), st, fr):
            s = s.copy()
            f = fr
            cls = None
            fn = Fn(n.name, n, mod)
            s.frames[fr][n.name] = FnV(fn, fr, ds)
            yield s, (NEXT, None)

    def st_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            yield st, (NEXT, None)
            return
        if isinstance(n.value, (ast.Yield,)):
            for s, v in self.ev(n.value.value, st, fr):
                if self.raised(v):
                    yield s, (EXC, v)
                    continue
                g = self.lookup(s, fr, "$gen")
                s, t = self.toV(s, v)
                r = un("R", g.t)
                yield self.put(s, "items", r, simp_concat(self.items(s, r),
                                                          Unit(t))), (NEXT, None)
            return
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, IterV) and v.kind == "gen":
                pass
            yield s, ((EXC, v) if self.raised(v) else (NEXT, None))

    def st_Assert(self, n, st, fr):
        for s, v in self.ev(n.test, st, fr):
            if self.raised(v):
                yield s, (EXC, v)
                continue
            for s2, b in self.branch(s, v):
                yield s2, ((NEXT, None) if b else (EXC, self.exc("AssertionError")))

    def st_Assign(self, n, st, fr):
        for s, v in self.ev(n.value, st, fr):
            if self.raised(v):
                yield s, (EXC, v)
                continue

            def go(i, s1):
                if i == len(n.targets):
                    yield s1, (NEXT, None)
                    return
                for s2, o in self.assign_target(s1, n.targets[i], v, fr):
                    if o is not None:
                        yield s2, (EXC, o)
                    else:
                        for y in go(i + 1, s2):
                            yield y
            for y in go(0, s):
                yield y

    def st_AnnAssign(self, n, st, fr):
        if n.value is None:
            yield st, (NEXT, None)
            return
        for s, v in self.ev(n.value, st, fr):
            if self.raised(v):
                yield s, (EXC, v)
                continue
            for s2, o in self.assign_target(s, n.target, v, fr):
                yield s2, ((EXC, o) if o is not None else (NEXT, None))

    def assign_target(self, st, tgt, v, fr):
        """yields (st, None|ExcV)"""
        if isinstance(tgt, ast.Name):
            s = st.copy()
            s.frames[fr][tgt.id] = v
            yield s, None
        elif isinstance(tgt, ast.Attribute):
            for s, o in self.ev(tgt.value, st, fr):
                if self.raised(o):
                    yield s, o
                else:
                    for y in self.setattr(s, o, tgt.attr, v):
                        yield y
        elif isinstance(tgt, ast.Subscript):
            for s, vs_ in self.evs([tgt.value, tgt.slice], st, fr):
                if self.raised(vs_):
                    yield s, vs_
                else:
                    for y in self.setitem(s, vs_[0], vs_[1], v):
                        yield y
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            if isinstance(v, TupV):
                if len(v.items) != n:
                    yield st, self.exc("ValueError")
                    return
                vals = [(st, v.items)]
            else:
                vals = []
                for s, seq in self.force(st, v):
                    if self.raised(seq):
                        yield s, seq
                        continue
                    for s2, ok in self.fork(s, Len(seq) == n):
                        if ok:
                            vals.append((s2, [T(At(seq, z3.IntVal(i))) for i in range(n)]))
                        else:
                            yield s2, self.exc("ValueError")
            for s, items in vals:
                def go(i, s1):
                    if i == n:
                        yield s1, None
                        return
                    for s2, o in self.assign_target(s1, tgt.elts[i], items[i], fr):
                        if o is not None:
                            yield s2, o
                        else:
                            for y in go(i + 1, s2):
                                yield y
                for y in go(0, s):
                    yield y
        else:
            raise Unsupported("assignment target")

    def st_AugAssign(self, n, st, fr):
        load = ast.parse(ast.unparse(n.target), mode="eval").body
        for s, vs_ in self.evs([load, n.value], st, fr):
            if self.raised(vs_):
                yield s, (EXC, vs_)
                continue
            a, b = vs_
            # list += iterable mutates in place
            if isinstance(n.op, ast.Add) and isinstance(a, T) and \
                    self.kind(s, a.t) == "R":
                names = self.classes_of(s, un("R", a.t))
                if names == frozenset(["list"]):
                    res = self.list_extend(s, un("R", a.t), [b])
                    res = ((s2, x if self.raised(x) else a) for s2, x in res)
                else:
                    m = [self.prog.classes[c].lookup("__iadd__")[1] for c in names]
                    if all(m):
                        res = self.call_fn(s, m[0], [a, b], {})
                    else:
                        res = self.binop(s, n.op, a, b)
            else:
                res = self.binop(s, n.op, a, b)
            for s2, v in res:
                if self.raised(v):
                    yield s2, (EXC, v)
                    continue
                for s3, o in self.assign_target(s2, n.target, v, fr):
                    yield s3, ((EXC, o) if o is not None else (NEXT, None))

    def st_Return(self, n, st, fr):
        if n.value is None:
            yield st, (RET, T(NONE))
            return
        for s, v in self.ev(n.value, st, fr):
            yield s, ((EXC, v) if self.raised(v) else (RET, v))

    def st_If(self, n, st, fr):
        for s, v in self.ev(n.test, st, fr):
            if self.raised(v):
                yield s, (EXC, v)
                continue
            for s2, b in self.branch(s, v):
                for y in self.block(n.body if b else n.orelse, s2, fr):
                    yield y

    def st_Raise(self, n, st, fr):
        if n.exc is None:
            v = self.lookup(st, fr, "$exc")
            yield st, (EXC, v)
            return
        try:
            vals = list(self.ev(n.exc, st, fr))
        except Unsupported:
            # the message cannot be modelled; only the class matters
            vals = None
            if isinstance(n.exc, ast.Call):
                vals = [(st, v) for st, v in self.ev(n.exc.func, st, fr)]
            if vals is None:
                raise
        for s, v in vals:
            if isinstance(v, ClsV):
                v = ExcV(v.cls)
            if not isinstance(v, ExcV):
                raise Unsupported("raise of %r" % (v,))
            v2 = ExcV(v.cls, v.args)
            v2.raised = True
            yield s, (EXC, v2)

    def st_Break(self, n, st, fr):
        yield st, (BRK, None)

    def st_Continue(self, n, st, fr):
        yield st, (CONT, None)

    def st_Try(self, n, st, fr):
        for s, o in self._try(n, st, fr):
            if not n.finalbody:
                yield s, o
                continue
            for s2, o2 in self.block(n.finalbody, s, fr):
                yield s2, (o if o2[0] == NEXT else o2)

    def _try(self, n, st, fr):
        for s, (o, v) in self.block(n.body, st, fr):
            if o == NEXT and n.orelse:
                for y in self.block(n.orelse, s, fr):
                    yield y
                continue
            if o != EXC:
                yield s, (o, v)
                continue
            done = False
            for h in n.handlers:
                if h.type is None:
                    match = True
                else:
                    cls = None
                    for s1, c in self.ev(h.type, s, fr):
                        try:
                            cls = self.class_list(s1, c)
                        except Unsupported:
                            cls = [self.exc_class(x) for x in
                                   (c.items if isinstance(c, TupV) else [c])]
                    match = any(v.cls.issub(c) for c in cls)
                    if not match and any(c.issub(v.cls) for c in cls) and \
                            v.__dict__.get("inexact"):
                        raise Unsupported("inexact exception class")
                if match:
                    s = s.copy()
                    if h.name:
                        e2 = ExcV(v.cls, v.args)
                        s.frames[fr][h.name] = e2
                    s.frames[fr]["$exc"] = v
                    for y in self.block(h.body, s, fr):
                        yield y
                    done = True
                    break
            if not done:
                yield s, (EXC, v)

    def exc_class(self, c):
        if isinstance(c, ClsV):
            return c.cls
        if isinstance(c, ExtV):
            n = c.name.split(".")[-1]
            if n in self.prog.classes:
                return self.prog.classes[n]
        raise Unsupported("exception class %r" % (c,))

    def st_Delete(self, n, st, fr):
        """del list[index], list[slice] (one target)"""
        t = n.targets[0]
        if len(n.targets) != 1 or not isinstance(t, ast.Subscript):
            raise Unsupported("del")
        for s, vs_ in self.evs([t.value, t.slice], st, fr):
            if self.raised(vs_):
                yield s, (EXC, vs_)
                continue
            v, i = vs_
            if not isinstance(v, T) or self.kind(s, v.t) != "R" or \
                    self.classes_of(s, un("R", v.t)) != frozenset(["list"]):
                raise Unsupported("del of an element of something else than a list")
            r = un("R", v.t)
            if isinstance(i, T) and self.kind(s, i.t) == "R":
                i = self.as_slice(s, i)
            if isinstance(i, SliceV):
                seq = self.items(s, r)
                lo, hi = self.slice_bounds(s, Len(seq), i)
                s, lo = self.named(s, lo)
                s, hi = self.named(s, hi)
                yield self.put(s, "items", r, simp_concat(
                    Sub(seq, 0, lo), Sub(seq, hi, Len(seq) - hi))), (NEXT, None)
                continue
            for s2, x in self.list_pop(s, r, [i]):
                yield s2, ((EXC, x) if self.raised(x) else (NEXT, None))

    def st_With(self, n, st, fr):
        if len(n.items) != 1:
            raise Unsupported("with")
        it = n.items[0]
        for s, c in self.ev(it.context_expr, st, fr):
            if self.raised(c):
                yield s, (EXC, c)
                continue
            h = self.spec.with_hook(self, s, c) if self.spec else None
            if h is None:
                raise Unsupported("with")
            enter, exit_ = h
            for s2, v in enter(s):
                if it.optional_vars is not None:
                    s2 = s2.copy()
                    s2.frames[fr][it.optional_vars.id] = v
                for s3, o in self.block(n.body, s2, fr):
                    for s4 in exit_(s3, o):
                        yield s4, o

    # -------- loops
    def st_For(self, n, st, fr):
        for s, src in self.ev(n.iter, st, fr):
            if self.raised(src):
                yield s, (EXC, src)
                continue

            def body(s1, x):
                for s2, o in self.assign_target(s1, n.target, x, fr):
                    if o is not None:
                        yield s2, (EXC, o)
                    else:
                        for y in self.block(n.body, s2, fr):
                            yield y
            for s2, o in self.foreach(s, src, body, "for@%d" % n.lineno, fr, n):
                if o[0] == "end":
                    for y in self.block(n.orelse, s2, fr):
                        yield y
                elif o[0] == BRK:
                    yield s2, (NEXT, None)
                else:
                    yield s2, o

    def foreach(self, st, src, body, label, fr=None, node=None):
        """Run body for each element.  body(st, val) yields (st, (outcome, v)).
        yields (st, ('end', None)) at normal exhaustion, plus brk/ret/exc outcomes."""
        # --- concrete sources: unroll
        if isinstance(src, TupV):
            for y in self.unroll(st, [("v", x) for x in src.items], body):
                yield y
            return
        if isinstance(src, IterV) and src.kind == "iter":
            for y in self.foreach(st, src.src, body, label, fr, node):
                yield y
            return
        if isinstance(src, IterV) and src.kind in ("gen", "map", "filter") and \
                src.kind != "gen":
            # element function applied as elements are pulled
            def body2(s1, x):
                for s2, y in self.call(s1, src.fn, [x], {}):
                    if self.raised(y):
                        yield s2, (EXC, y)
                    elif src.kind == "map":
                        for z in body(s2, y):
                            yield z
                    else:
                        for s3, b in self.branch(s2, y):
                            if b:
                                for z in body(s3, x):
                                    yield z
                            else:
                                yield s3, (NEXT, None)
            for y in self.foreach(st, src.src, body2, label, fr, node):
                yield y
            return
        if isinstance(src, IterV) and src.kind == "gen":
            if len(src.node.generators) == 1:
                s0 = st.copy()
                fid = self.new_frame(s0, parent=src.fid)

                def body3(s1, x):
                    for s2, ok, v in self._gen_elts(src.node, s1, x, fid):
                        if self.raised(v):
                            yield s2, (EXC, v)
                        elif not ok:
                            yield s2, (NEXT, None)
                        else:
                            for z in body(s2, v):
                                yield z
                for y in self.foreach(s0, src.src, body3, label, fr, node):
                    yield y
                return
        if isinstance(src, IterV) and src.kind == "zip":
            outs = [(st, [])]
            for x in src.srcs:
                outs2 = []
                for s, acc in outs:
                    for s2, seq in self.force(s, x):
                        if self.raised(seq):
                            yield s2, (EXC, seq)
                        else:
                            outs2.append((s2, acc + [seq]))
                outs = outs2
            for s, seqs in outs:
                n = Len(seqs[0])
                for q in seqs[1:]:
                    n = z3.If(Len(q) < n, Len(q), n)
                mk = lambda s1, i, seqs=seqs: (s1, TupV([T(At(q, i)) for q in seqs]))
                for y in self.loop(s, simp(n), mk, body, label, fr, node, seqs[0]):
                    yield y
            return
        if isinstance(src, IterV) and src.kind == "enumerate":
            inner = src.src
            for s, seq in self.force(st, inner):
                if self.raised(seq):
                    yield s, (EXC, seq)
                    continue
                mk = lambda s1, i, seq=seq: (s1, TupV([T(V.I(i)), T(At(seq, i))]))
                ki = known_items(seq)
                if ki is not None:
                    for y in self.unroll(s, [("v", TupV([T(vi(i)), T(x)]))
                                             for i, x in enumerate(ki)], body):
                        yield y
                    continue
                for y in self.loop(s, Len(seq), mk, body, label, fr, node, seq):
                    yield y
            return
        if isinstance(src, IterV) and src.kind == "items":
            ki = known_items(src.dk)
            pair = lambda k: TupV([T(k), T(src.dv[self.dkey(st, k)])])
            if ki is not None:
                for y in self.unroll(st, [("v", pair(k)) for k in ki], body):
                    yield y
                return
            mk = lambda s1, i: (s1, TupV([T(At(src.dk, i)),
                                          T(src.dv[self.dkey(s1, At(src.dk, i))])]))
            for y in self.loop(st, Len(src.dk), mk, body, label, fr, node, src.dk):
                yield y
            return
        if isinstance(src, IterV) and src.kind == "range":
            n = simp(z3.If(src.hi < src.lo, z3.IntVal(0), src.hi - src.lo))
            c = const_int(V.I(n))
            lo = const_int(V.I(src.lo))
            if c is not None and lo is not None and c <= 8:
                for y in self.unroll(st, [("v", T(vi(lo + i))) for i in range(c)], body):
                    yield y
                return
            mk = lambda s1, i: (s1, T(V.I(simp(src.lo + i))))
            for y in self.loop(st, n, mk, body, label, fr, node, None):
                yield y
            return
        # --- sequences
        live = None
        if isinstance(src, T) and self.kind(st, src.t) == "R":
            r = un("R", src.t)
            if self.classes_of(st, r) <= {"list"}:
                live = r
        for s, seq in self.force(st, src):
            if self.raised(seq):
                yield s, (EXC, seq)
                continue
            ki = known_items(seq)
            if ki is not None:
                for y in self.unroll(s, [("v", T(x)) for x in ki], body, live, seq):
                    yield y
                continue
            mk = lambda s1, i, seq=seq: (s1, T(At(seq, i)))
            for y in self.loop(s, Len(seq), mk, body, label, fr, node, seq, live):
                yield y

    def unroll(self, st, xs, body, live=None, seq=None, i=0):
        if live is not None and not simp(self.items(st, live)).eq(simp(seq)):
            raise Unsupported("list modified while iterating")
        if i == len(xs):
            yield st, ("end", None)
            return
        for s, o in body(st, xs[i][1]):
            if o[0] in (NEXT, CONT):
                for y in self.unroll(s, xs, body, live, seq, i + 1):
                    yield y
            else:
                yield s, o

    def st_While(self, n, st, fr):
        def cond(s):
            for s1, v in self.ev(n.test, s, fr):
                if self.raised(v):
                    yield s1, v
                    continue
                for s2, b in self.branch(s1, v):
                    yield s2, b
        # try bounded unrolling first when the condition is decided on entry
        def step(s1, _):
            return self.block(n.body, s1, fr)
        for s2, o in self.loop(st, None, None, step, "while@%d" % n.lineno, fr, n, None,
                               cond=cond):
            if o[0] == "end":
                for y in self.block(n.orelse, s2, fr):
                    yield y
            elif o[0] == BRK:
                yield s2, (NEXT, None)
            else:
                yield s2, o

    # .... generic loop with invariant inference
    def loop(self, st, n, mk, body, label, fr, node, seq, live=None, cond=None):
        spec = self.spec
        where = "%s %s" % (self.cur or "", label)
        st0 = st.copy()
        # facts about the loop bounds and the pool's spec functions at index 0
        i = fresh("i", Int)
        facts0 = spec.loop_facts(self, st0, seq, z3.IntVal(0)) if seq is not None else []
        st0 = st0.assume(*facts0)
        if n is not None:
            st0 = st0.assume(n >= 0)
        rec, self.record = self.record, False
        try:
            inv = self.infer(st0, n, mk, body, label, fr, node, seq, live, cond, i)
        finally:
            self.record = rec
        mod_fields, mod_vars, mod_ghost, cands = inv
        # obligations: entry and preservation are re-proved (recorded as obligations)
        names = []
        for c in cands:
            f0 = c.f(self, st0, st0, z3.IntVal(0), seq)
            self.oblige(st0, "%s invariant '%s' holds on entry" % (label, c.name), f0)
        sh = self.havoc(st0, mod_fields, mod_vars, mod_ghost, "L")
        sh = self.assume_inv(sh, st0, cands, i, seq, n)
        ends = []
        # iterations
        for s1, go in self.iter_step(sh, n, mk, cond, i, seq):
            if self.raised(go):
                yield s1, (EXC, go)
                continue
            if go is False:
                continue
            for s2, o in body(s1, go):
                if o[0] in (NEXT, CONT):
                    if live is not None:
                        self.oblige(s2, "%s: list not modified while iterated" % label,
                                    self.items(s2, live) == seq)
                    s2 = s2.assume(*(spec.loop_facts(self, st0, seq, i + 1)
                                     if seq is not None else []))
                    for c in cands:
                        self.oblige(s2, "%s invariant '%s' preserved" % (label, c.name),
                                    c.f(self, st0, s2, i + 1, seq))
                else:
                    if seq is not None:
                        s2 = s2.assume(*spec.loop_facts(self, st0, seq, i + 1))
                    yield s2, o
        # exit
        if cond is None:
            se = self.havoc(st0, mod_fields, mod_vars, mod_ghost, "E")
            se = self.assume_inv(se, st0, cands, n, seq, n)
            if self.feasible(se):
                yield se, ("end", None)
        else:
            for s1, go in self.iter_step(sh, n, mk, cond, i, seq):
                if go is False:
                    yield s1, ("end", None)

    def iter_step(self, sh, n, mk, cond, i, seq):
        """yields (st, element | False (loop ends) | ExcV)"""
        if cond is None:
            s = sh.assume(i < n)
            if not self.feasible(s):
                return
            s, v = mk(s, i)
            yield s, v
        else:
            for s, b in cond(sh):
                if self.raised(b):
                    yield s, b
                elif b:
                    yield s, T(NONE)
                else:
                    yield s, False

    def assume_inv(self, sh, st0, cands, i, seq, n):
        fs = [i >= 0]
        if n is not None:
            fs.append(i <= n)
        if seq is not None:
            fs += self.spec.loop_facts(self, st0, seq, i)
        for c in cands:
            fs.append(c.f(self, st0, sh, i, seq))
        return sh.assume(*fs)

    def havoc(self, st0, fields, vars_, ghost, tag):
        s = st0.copy()
        s.next = fresh("next", Int)
        s.pc.append(s.next >= st0.next)
        s.ghost["nexts"] = st0.ghost.get("nexts", ()) + (s.next,)
        for f in sorted(fields):
            self.havoc_field(s, f, tag)
        if "items" in fields:
            s.pc.append(self.closed_items(s))
        for (fid, v) in sorted(vars_, key=str):
            old = st0.frames[fid].get(v)
            if old is None:
                s.frames[fid][v] = None
            elif isinstance(old, T):
                s.frames[fid][v] = T(fresh(v, V))
            else:
                s.frames[fid][v] = None
        for g in ghost:
            s.ghost[g] = fresh("g." + g, st0.ghost[g].sort())
        for (fid, v) in vars_:
            x = s.frames[fid].get(v)
            if isinstance(x, T):
                self.const_ub[x.t.decl().name()] = s.next
                s.pc.append(z3.Implies(V.is_R(x.t), z3.And(V.r(x.t) > 0,
                                                           V.r(x.t) < s.next)))
        s.snaps = st0.snaps + [(tag, dict(s.heap), s.next)]
        s.hints = dict(st0.hints)
        for g in META:
            if g != "nexts" and g in st0.ghost:
                s.ghost[g] = st0.ghost[g]
        return s

    def infer(self, st0, n, mk, body, label, fr, node, seq, live, cond, i):
        fields, vars_, ghost = set(), set(), set()
        writes = {}
        # the loop index is not a loop-invariant term
        mark = min(fresh_mark(), int(i.decl().name().rsplit("!", 1)[1]) - 1)
        # 1. modified sets (fixpoint)
        for rnd in range(6):
            sh = self.havoc(st0, fields, vars_, ghost, "D%d" % rnd)
            sh = sh.assume(i >= 0, *( [i < n] if n is not None else []))
            if seq is not None:
                sh = sh.assume(*self.spec.loop_facts(self, st0, seq, i))
            # type-preserving assumption for the dry run is done by candidates below
            base = self.base_candidates(st0, fields, vars_, ghost, fr)
            try:
                nf, nv, ng, w = self.dry(sh, st0, n, mk, body, cond, i, seq, base)
            except Unsupported:
                raise
            new = (nf - fields, nv - vars_, ng - ghost)
            fields |= nf
            vars_ |= nv
            ghost |= ng
            for k, x in w.items():
                writes.setdefault(k, []).extend(x)
            if not any(new):
                break
        else:
            raise Unsupported("modified set did not stabilise (%s)" % label)
        # 2. candidates
        ctx = LoopCtx(self, st0, fields, vars_, ghost, fr, node, label, seq, writes, live,
                      mark)
        own = list(self.spec.candidates(self, ctx))
        cands = self.base_candidates(st0, fields, vars_, ghost, fr) + \
            self.frame_candidates(ctx) + own
        # entry filter
        live_c = []
        for c in cands:
            try:
                f = c.f(self, st0, st0, z3.IntVal(0), seq)
            except Unsupported:
                continue
            if f is None:
                continue
            if self.entails(st0, f):
                live_c.append(c)
            elif DEBUG:
                print("  entry-drop", label, c.name)
        # 3. Houdini
        for rnd in range(8):
            sh = self.havoc(st0, fields, vars_, ghost, "H%d" % rnd)
            sh = self.assume_inv(sh, st0, live_c, i, seq, n)
            bad = set()
            for s1, go in self.iter_step(sh, n, mk, cond, i, seq):
                if go is False or self.raised(go):
                    continue
                for s2, o in body(s1, go):
                    if o[0] not in (NEXT, CONT):
                        continue
                    if seq is not None:
                        s2 = s2.assume(*self.spec.loop_facts(self, st0, seq, i + 1))
                    for c in live_c:
                        if c.name in bad:
                            continue
                        f = c.f(self, st0, s2, i + 1, seq)
                        if f is None or not self.entails(s2, f, self.prove_timeout):
                            bad.add(c.name)
                            if DEBUG:
                                print("  drop", rnd, label, c.name, o[0])
                                if os.environ.get("PYVC_DUMP") and \
                                        os.environ["PYVC_DUMP"] in c.name:
                                    self.dump(s2.pc + [z3.Not(f)])
            if not bad:
                return fields, vars_, ghost, live_c
            live_c = [c for c in live_c if c.name not in bad]
        raise Unsupported("invariant inference did not converge (%s)" % label)

    def dry(self, sh, st0, n, mk, body, cond, i, seq, base):
        for c in base:
            f = c.f(self, st0, sh, i, seq)
            if f is not None:
                sh = sh.assume(f)
        nf, nv, ng, w = set(), set(), set(), {}
        fids = list(st0.frames)
        for s1, go in self.iter_step(sh, n, mk, cond, i, seq):
            if go is False or self.raised(go):
                continue
            for s2, o in body(s1, go):
                if o[0] not in (NEXT, CONT):
                    continue
                for f, a in s2.heap.items():
                    b = sh.heap.get(f)
                    if b is None:
                        b = z3.Const("h0." + f, field_sort(f))
                    if not a.eq(b):
                        nf.add(f)
                        w.setdefault(f, []).extend(store_indices(a, b))
                        w.setdefault(("value", f), []).extend(store_values(a, b))
                # objects that the contract of a callee allows it to write
                for f, r in s2.ghost.get("touched", ())[
                        len(sh.ghost.get("touched", ())):]:
                    w.setdefault(f, []).append(r)
                for fid in fids:
                    for v, x in s2.frames[fid].items():
                        if v.startswith("$"):
                            continue
                        y = sh.frames[fid].get(v)
                        if x is not y and not (isinstance(x, T) and isinstance(y, T)
                                               and x.t.eq(y.t)):
                            nv.add((fid, v))
                for g, x in s2.ghost.items():
                    if g in META:
                        continue
                    y = sh.ghost.get(g)
                    if y is None or not x.eq(y):
                        ng.add(g)
        return nf, nv, ng, w

    def base_candidates(self, st0, fields, vars_, ghost, fr):
        out = []
        for (fid, v) in sorted(vars_, key=str):
            old = st0.frames[fid].get(v)
            if not isinstance(old, T):
                continue
            k = self.kind(st0, old.t)
            if k is None:
                for fm in self.FAMS:        # None or an object
                    if fm not in self.prog.classes or not self.entails(st0, z3.Or(
                            V.is_None_(old.t), z3.And(V.is_R(old.t), self.spec.is_a(
                                V.r(old.t), fm)))):
                        continue

                    def h(eng, s0, s, i, seq, fid=fid, v=v, fm=fm):
                        x = s.frames[fid].get(v)
                        if not isinstance(x, T):
                            return None
                        return z3.Or(V.is_None_(x.t), z3.And(
                            V.is_R(x.t), eng.spec.is_a(V.r(x.t), fm)))
                    out.append(Cand("%s is None or a %s" % (v, fm), h))
                    break
                continue
            kk = set([k])

            def f(eng, s0, s, i, seq, fid=fid, v=v, k=k):
                x = s.frames[fid].get(v)
                if not isinstance(x, T):
                    return None
                return kind_test(k, x.t)
            out.append(Cand("kind(%s)=%s" % (v, k), f))
            if k in ("I", "F"):
                def g(eng, s0, s, i, seq, fid=fid, v=v):
                    x = s.frames[fid].get(v)
                    if not isinstance(x, T):
                        return None
                    return z3.Or(V.is_I(x.t), V.is_F(x.t))
                out.append(Cand("%s is a number" % v, g))
            if k != "None":
                def g(eng, s0, s, i, seq, fid=fid, v=v, k=k):
                    x = s.frames[fid].get(v)
                    if not isinstance(x, T):
                        return None
                    return z3.Or(kind_test(k, x.t), V.is_None_(x.t))
                out.append(Cand("kind(%s)=%s|None" % (v, k), g))
            else:
                for k2 in ("R", "S", "I"):
                    def g(eng, s0, s, i, seq, fid=fid, v=v, k=k2):
                        x = s.frames[fid].get(v)
                        if not isinstance(x, T):
                            return None
                        return z3.Or(kind_test(k, x.t), V.is_None_(x.t))
                    out.append(Cand("kind(%s)=None|%s" % (v, k2), g))
            if k == "R":
                try:
                    names = self.classes_of(st0, un("R", old.t))
                except Unsupported:
                    names = None
                if names:
                    fam = None
                    for fm in self.FAMS:
                        if fm in self.prog.classes and all(
                                self.prog.classes[x].issub(self.prog.classes[fm])
                                for x in names):
                            fam = fm
                            break
                    if fam:
                        ids = [c.id for c in self.universe(fam)]

                        def g(eng, s0, s, i, seq, fid=fid, v=v, ids=ids):
                            x = s.frames[fid].get(v)
                            if not isinstance(x, T):
                                return None
                            return z3.Implies(V.is_R(x.t), z3.Or(
                                [typ(V.r(x.t)) == c for c in ids]))
                        out.append(Cand("class(%s)<=%s" % (v, fam), g))
        return out

    def frame_candidates(self, ctx):
        """objects that existed at loop entry keep field f, except the written ones"""
        out = []
        q = z3.Int("q!f")
        for f in sorted(ctx.fields - ctx.framed):
            ws = []
            for w in ctx.writes.get(f, []):
                w = simp(w)
                if self.loop_invariant_term(w, ctx) and not any(w.eq(x) for x in ws):
                    ws.append(w)
            variants = [("only-fresh", [], False)]
            if ws:
                variants.append(("except-%d-written" % len(ws), ws, False))
            if f == "items":
                variants += [("only lists of children", [], True)]
                if ws:
                    variants.append(("only lists of children, %d written" % len(ws), ws,
                                     True))
            for nm, ex, own in variants:
                def g(eng, s0, s, i, seq, f=f, ex=ex, own=own):
                    a, b = eng.arr(s0, f), eng.arr(s, f)
                    if a.eq(b):
                        return z3.BoolVal(True)
                    return z3.ForAll([q], z3.Implies(
                        z3.And([q < s0.next] + [q != x for x in ex] + (
                            [z3.Not(eng.spec.owned_list(eng, s0, q))] if own else [])),
                        b[q] == a[q]),
                        patterns=[b[q]])
                out.append(Cand("frame %s %s" % (f, nm), g))
            if f in getattr(self.spec, "forgettable", ()):
                out.append(Cand("%s only ever forgotten" % f, lambda eng, s0, s, i, seq, f=f:
                           z3.ForAll([q], z3.Implies(
                               z3.And(0 < q, q < s0.next),
                               z3.Or(eng.arr(s, f)[q] == eng.arr(s0, f)[q],
                                     eng.arr(s, f)[q] == NONE)),
                               patterns=[eng.arr(s, f)[q]])))
            if f == "items":
                j = z3.Int("j!ek")
                for x in self.private_lists(ctx.st0):
                    for nm in ("Rule", "Expansion", "str"):
                        if nm != "str" and nm not in self.prog.classes:
                            continue

                        def ek(eng, s0, s, i, seq, x=x, nm=nm):
                            q = eng.items(s, x)
                            if known_items(q) == []:
                                return z3.BoolVal(True)
                            e = sat_(q, j)
                            p = V.is_S(e) if nm == "str" else z3.And(
                                V.is_R(e), z3.Or([typ(V.r(e)) == c.id
                                                  for c in eng.universe(nm)]))
                            return forall_pat([j], z3.Implies(z3.And(
                                0 <= j, j < slen(q)), p), e)
                        out.append(Cand("elements of list %s are %s" % (x, nm), ek))
                    out.append(Cand("list %s unchanged" % x, lambda eng, s0, s, i, seq, x=x:
                                    eng.items(s, x) == eng.items(s0, x)))
        return out

    def loop_invariant_term(self, w, ctx):
        """all constants of w existed before the loop"""
        seen = set()

        def go(t):
            if t.get_id() in seen:
                return True
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                if "!" in n:
                    k = n.rsplit("!", 1)[1]
                    if k.isdigit() and int(k) > ctx.mark:
                        return False
            return all(go(c) for c in t.children())
        return go(w)


def has_ite(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return True
        todo.extend(x.children())
    return False


def has_bool(t):
    """t is V.B of a formula that is not a constant or an atom"""
    return syn_kind(t) == "B" and z3.is_app(t.arg(0)) and t.arg(0).num_args() > 0


def forall_pat(vs_, body, pat):
    """quantifier with the pattern, unless the pattern is not allowed"""
    return z3.ForAll(vs_, body) if has_ite(pat) else \
        z3.ForAll(vs_, body, patterns=[pat])


class Cand(object):
    def __init__(self, name, f):
        self.name, self.f = name, f


class LoopCtx(object):
    def __init__(self, eng, st0, fields, vars_, ghost, fr, node, label, seq, writes,
                 live, mark):
        self.mark = mark
        self.framed = set()      # fields whose frame the contract's candidates give
        self.eng, self.st0, self.fields, self.vars, self.ghost = \
            eng, st0, fields, vars_, ghost
        self.fr, self.node, self.label, self.seq, self.writes, self.live = \
            fr, node, label, seq, writes, live


# ------------------------------------------------------------------ term helpers
def store_indices(a, b):
    out = []
    while z3.is_store(a) and not a.eq(b):
        out.append(a.arg(1))
        a = a.arg(0)
    return out


def store_values(a, b):
    out = []
    while z3.is_store(a) and not a.eq(b):
        out.append(a.arg(2))
        a = a.arg(0)
    return out


def simp_sel(a, r):
    """select with syntactic store resolution"""
    x = a
    while z3.is_store(x):
        i = x.arg(1)
        if i.eq(r) or simp(i == r).eq(z3.BoolVal(True)):
            return x.arg(2)
        if z3.is_false(simp(i == r)):
            x = x.arg(0)
            continue
        break
    return z3.Select(x, r)


def concat(parts):
    out = []
    for p in parts:
        if z3.is_string_value(p) and p.as_string() == "":
            continue
        if out and z3.is_string_value(p) and z3.is_string_value(out[-1]):
            out[-1] = z3.StringVal(const_str(out[-1]) + const_str(p))
        else:
            out.append(p)
    if not out:
        return z3.StringVal("")
    return out[0] if len(out) == 1 else z3.Concat(*out)


def simp_concat(*seqs):
    return Cat(*seqs)


# character homomorphisms: s.replace(single char, const) composed and canonicalised
_homs = {}


def hom_apply(x, m):
    """term for the string x with every char c in m replaced by m[c]"""
    if z3.is_app(x) and x.decl().name().startswith("hom:"):
        inner, base = _homs[x.decl().name()], x.arg(0)

        def rep(w):
            return "".join(m.get(c, c) for c in w)
        comp = {c: rep(w) for c, w in inner.items()}
        for c, w in m.items():
            if c not in comp:
                comp[c] = w
        m, x = comp, base
    m = {c: w for c, w in m.items() if w != c}
    if not m:
        return x
    cs = const_str(x)
    if cs is not None:
        return z3.StringVal("".join(m.get(c, c) for c in cs))
    key = "hom:" + repr(sorted(m.items()))
    _homs[key] = m
    return UF(key, Str, Str)(x)
