"""Typed heap: every field has a declared type that is checked at each write, so every
value read from a field may be assumed to have that type.  References are ordered by
allocation time, which decides most aliasing questions syntactically."""
import z3
from .model import *


class Ty(object):
    def __init__(self, kinds, classes=None, role=None):
        self.kinds = frozenset(kinds)
        self.classes = None if classes is None else frozenset(classes)
        self.role = role

    def join(self, o):
        if o is None:
            return None
        if "R" not in self.kinds:
            cl, ro = o.classes, o.role
        elif "R" not in o.kinds:
            cl, ro = self.classes, self.role
        else:
            cl = None if self.classes is None or o.classes is None else \
                self.classes | o.classes
            ro = self.role if self.role == o.role else None
        return Ty(self.kinds | o.kinds, cl, ro)

    def le(self, o):
        if not self.kinds <= o.kinds:
            return False
        if "R" in self.kinds and o.classes is not None:
            return self.classes is not None and self.classes <= o.classes
        return True

    def __repr__(self):
        return "Ty(%s,%s,%s)" % (sorted(self.kinds), self.classes and
                                 sorted(self.classes), self.role)


class TypedHeap(object):
    """mixin of Engine"""

    def init_types(self):
        self.const_ty = {}        # name of a V constant -> Ty
        self.const_ub = {}        # name of a V / Int constant -> (base, offset)
        self.base = {}            # name of an array constant -> (field, bound)
        self.seq_ty = {}          # name of a sequence constant -> (Ty, bound)
        self.ftypes = self.spec.field_types(self) if self.spec else {}
        self.roles = self.spec.list_roles(self) if self.spec else {}
        self.keyroles = self.spec.key_roles(self) if self.spec else {}

    def fam(self, *names):
        out = set()
        for n in names:
            if n in self.prog.classes:
                out |= {c.name for c in self.universe(n)}
        return out

    # ---- allocation order
    def exact(self, st, r):
        """(base, offset) when r is an allocation index"""
        r = simp(r)
        chain = st.ghost.get("nexts", ())
        for k, b in enumerate(chain):
            if r.eq(b):
                return (k, 0)
        if z3.is_add(r) and r.num_args() == 2:
            a, b = r.children()
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(x):
                    for k, c in enumerate(chain):
                        if y.eq(c):
                            return (k, x.as_long())
        return None

    def pos_of(self, st, nxt):
        return self.exact(st, nxt)

    def ub(self, st, r):
        """position p such that r was allocated before p, or None"""
        e = self.exact(st, r)
        if e is not None:
            return (e[0], e[1] + 1)
        r0 = r
        if z3.is_app(r0) and r0.decl().eq(V.r):
            return self.vub(st, r0.arg(0))
        if z3.is_const(r0):
            b = self.const_ub.get(r0.decl().name())
            return self.pos_of(st, b) if b is not None else None
        return None

    def vub(self, st, t):
        k = syn_kind(t)
        if k == "R":
            return self.ub(st, t.arg(0))
        if k:
            return (-1, 0)
        if z3.is_const(t):
            b = self.const_ub.get(t.decl().name())
            return self.pos_of(st, b) if b is not None else None
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return pmax(self.vub(st, t.arg(1)), self.vub(st, t.arg(2)))
        if z3.is_select(t):
            return self.arr_ub(st, t.arg(0))
        if is_app_of(t, sat_):
            return self.seq_ub(st, t.arg(0))
        return None

    def arr_ub(self, st, a):
        p = (-1, 0)
        while z3.is_store(a):
            p = pmax(p, self.vub(st, a.arg(2)))
            a = a.arg(0)
        if z3.is_const(a):
            b = self.base.get(a.decl().name())
            if b is not None:
                return pmax(p, self.pos_of(st, b[1]))
        if z3.is_select(a) and z3.is_const(a.arg(0)):      # dval[d][k]
            b = self.base.get(a.arg(0).decl().name())
            if b is not None:
                return pmax(p, self.pos_of(st, b[1]))
        return None

    def seq_ub(self, st, s):
        p = (-1, 0)
        for x in parts(s):
            if is_app_of(x, sunit):
                p = pmax(p, self.vub(st, x.arg(0)))
            elif is_app_of(x, ssub):
                p = pmax(p, self.seq_ub(st, x.arg(0)))
            elif z3.is_select(x):
                a = x.arg(0)
                while z3.is_store(a):
                    p = pmax(p, self.seq_ub(st, a.arg(2)))
                    a = a.arg(0)
                b = self.base.get(a.decl().name()) if z3.is_const(a) else None
                p = pmax(p, self.pos_of(st, b[1]) if b else None)
            elif z3.is_const(x) and x.decl().name() in self.seq_ty:
                p = pmax(p, self.pos_of(st, self.seq_ty[x.decl().name()][1]))
            else:
                return None
        return p

    def bound_term(self, st, p):
        if p is None or p[0] < 0:
            return None
        b = st.ghost["nexts"][p[0]]
        return simp(b + p[1])

    def neq(self, st, a, b):
        """syntactically certain: a != b (references)"""
        ea, eb = self.exact(st, a), self.exact(st, b)
        if ea is not None and eb is not None:
            return ea != eb
        if ea is not None or eb is not None:
            e, o = (ea, b) if ea is not None else (eb, a)
            u = self.ub(st, o)
            if u is not None and u <= e:
                return True
        ca, cb = self.quick_classes(st, a), self.quick_classes(st, b)
        if ca and cb and not (ca & cb):
            return True
        return False

    def quick_classes(self, st, r):
        h = st.hints.get(r.get_id())
        if h:
            return h[0]
        if z3.is_app(r) and r.decl().eq(V.r):
            ty = self.typeof(st, r.arg(0))
            if ty is not None and ty.kinds == frozenset(["R"]):
                return ty.classes
        return None

    def sel(self, st, a, r):
        x = a
        while z3.is_store(x):
            i = x.arg(1)
            if i.eq(r) or simp(i == r).eq(z3.BoolVal(True)):
                return x.arg(2)
            if z3.is_false(simp(i == r)) or self.neq(st, i, r):
                x = x.arg(0)
                continue
            break
        return z3.Select(x, r)

    def private_lists(self, st):
        """lists created here and not (yet) stored in a field"""
        lists = {}
        for x in st.ghost.get("fresh", ()):
            h = st.hints.get(x.get_id())
            if h and h[0] == frozenset(["list"]) and \
                    not any(x.eq(y) for y in st.ghost.get("owned", ())):
                lists[x.get_id()] = x
        return list(lists.values())

    # ---- types
    def typeof(self, st, t):
        h = st.hints.get(("ty", t.get_id()))
        if h:
            return h[0]
        k = syn_kind(t)
        if k == "R":
            h = st.hints.get(t.arg(0).get_id())
            return Ty(["R"], h[0], self.role_hint(st, t.arg(0))) if h else Ty(["R"])
        if k:
            return Ty([k])
        if z3.is_const(t):
            return self.const_ty.get(t.decl().name())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            a = self.typeof(st, t.arg(1))
            return a.join(self.typeof(st, t.arg(2))) if a else None
        if z3.is_select(t):
            a, ty = t.arg(0), None
            first = True
            while z3.is_store(a):
                x = self.typeof(st, a.arg(2))
                if x is None:
                    return None
                ty = x if first else ty.join(x)
                first = False
                a = a.arg(0)
            if z3.is_const(a):
                b = self.base.get(a.decl().name())
                x = self.ftypes.get(b[0]) if b else None
            elif z3.is_select(a):
                x = self.dict_val_ty(st, a)
            else:
                x = None
            if x is None:
                return None
            return x if first else ty.join(x)
        if is_app_of(t, sat_):
            return self.elem_ty(st, t.arg(0))
        return None

    def role_hint(self, st, r):
        h = st.hints.get(("role", r.get_id()))
        return h[0] if h else None

    def role(self, st, r):
        h = self.role_hint(st, r)
        if h:
            return h
        if z3.is_app(r) and r.decl().eq(V.r):
            ty = self.typeof(st, r.arg(0))
            return ty.role if ty else None
        return None

    def elem_ty(self, st, s):
        out, first = None, True
        for x in parts(s):
            if is_app_of(x, sunit):
                ty = self.typeof(st, x.arg(0))
            elif is_app_of(x, ssub):
                ty = self.elem_ty(st, x.arg(0))
            elif z3.is_select(x):
                a, ty, f2 = x.arg(0), None, True
                bad = False
                while z3.is_store(a):
                    y = self.elem_ty(st, a.arg(2))
                    if y is None and not known_items(a.arg(2)) == []:
                        bad = True
                        break
                    if y is not None:
                        ty = y if f2 else ty.join(y)
                        f2 = False
                    a = a.arg(0)
                if bad:
                    return None
                ro = self.role(st, x.arg(1))
                b = self.base.get(a.decl().name()) if z3.is_const(a) else None
                y = (self.keyroles if b and b[0] == "dkeys" else self.roles).get(ro)
                if y is None:
                    return None
                ty = y if f2 else ty.join(y)
            elif z3.is_app(x) and x.decl().name() == "tuple.items":
                ty = self.roles.get(self.role(st, x.arg(0)))
            elif z3.is_const(x) and x.decl().name() in self.seq_ty:
                ty = self.seq_ty[x.decl().name()][0]
            else:
                return None
            if ty is None:
                return None
            out = ty if first else out.join(ty)
            first = False
        return out

    def dict_val_ty(self, st, a):
        """type of dval[d][k] with a = dval[d]"""
        arr, d = a.arg(0), a.arg(1)
        if not z3.is_const(arr):
            return None
        ro = self.role(st, d)
        return self.roles.get(ro)

    def ty_formula(self, st, ty, t, p=None):
        fs = []
        if len(ty.kinds) < 8:
            fs.append(z3.Or([kind_test(k, t) for k in sorted(ty.kinds)]))
        if "R" in ty.kinds:
            g = [V.r(t) > 0]
            if ty.classes is not None:
                g.append(z3.Or([typ(V.r(t)) == self.prog.classes[c].id
                                for c in sorted(ty.classes)]))
            b = self.bound_term(st, p) if p else None
            if b is not None:
                g.append(V.r(t) < b)
            g = z3.And(g)
            fs.append(g if ty.kinds == frozenset(["R"]) else z3.Implies(V.is_R(t), g))
        return z3.And(fs) if fs else z3.BoolVal(True)

    def learn(self, st, t):
        """add the typing facts of a value read from the heap (in place: they hold in
        every state in which the term denotes a stored value)"""
        if syn_kind(t):
            return
        key = ("l", t.get_id())
        if key in st.hints:
            return
        st.hints[key] = (True, t)
        ty = self.typeof(st, t)
        p = self.vub(st, t)
        f = self.ty_formula(st, ty if ty is not None else Ty(
            ["None", "B", "I", "F", "S", "R", "C", "Fn"]), t, p)
        if z3.is_true(f):
            return
        if is_app_of(t, sat_):
            f = z3.Implies(z3.And(0 <= t.arg(1), t.arg(1) < slen(t.arg(0))), f)
        st.pc.append(f)
        if z3.is_select(t) and z3.is_const(t.arg(0)):
            b = self.base.get(t.arg(0).decl().name())
            if b and self.spec:
                st.pc.extend(self.spec.read_facts(self, st, b[0], t.arg(1), t))

    def check_write(self, st, f, r, t):
        """a write f[r] := t keeps the declared type of field f"""
        ty = self.ftypes.get(f)
        if ty is None or any(r.eq(x) for x in st.ghost.get("raw", ())):
            return
        self.learn(st, t)
        self.oblige(st, "field %s keeps its type" % f, self.ty_formula(st, ty, t))
        for lab, g in self.spec.write_checks(self, st, f, r, t):
            self.oblige(st, lab, g)

    def check_items_write(self, st, r, seq):
        if any(r.eq(x) for x in st.ghost.get("fresh", ())) and \
                self.role_hint(st, r) is None:
            return
        ro = self.role(st, r)
        if ro is None:
            from .engine import Unsupported
            raise Unsupported("write to a list whose role is unknown: %s" % r)
        want = self.roles.get(ro)
        if want is None:
            return
        for x in parts(seq):
            if is_app_of(x, sunit):
                self.learn(st, x.arg(0))
                self.oblige(st, "list elements keep their type",
                            self.ty_formula(st, want, x.arg(0)))
            else:
                e = self.elem_ty(st, x)
                if e is not None and e.le(want):
                    continue
                j = z3.Int("j!et")
                self.oblige(st, "list elements keep their type", z3.ForAll(
                    [j], z3.Implies(z3.And(0 <= j, j < slen(x)),
                                    self.ty_formula(st, want, sat_(x, j))),
                    patterns=[sat_(x, j)]))


def pmax(a, b):
    if a is None or b is None:
        return None
    return max(a, b)
