"""The specification world: representation invariant, contracts, and the driver that
turns a contract plus the real function body into proof obligations."""
import time
import z3
from .model import *
from .front import Program, Fn, Cls, Prop
from . import theory as TH
from .theory import HEAPS, sel, unf, agree, FAMS
from .heap import Ty
from .engine import (Engine, Unsupported, St, T, TupV, IterV, ExcV, ClsV, HookV, Cand,
                     Obl, FnV, concat)

CONCRETE = {
    "Expansion": ["Sequence", "RequiredGrouping", "Literal", "Dictation", "NamedRuleRef",
                  "RuleRef", "NullRef", "VoidRef", "Repeat", "KleeneStar",
                  "OptionalGrouping", "AlternativeSet", "ParsedAlternativeSet"],
    "Rule": ["Rule", "PublicRule", "PrivateRule", "SequenceRule", "PublicSequenceRule",
             "PrivateSequenceRule"],
    "Grammar": ["Grammar", "RootGrammar", "DictationGrammar"],
}


OWNED = "lists owned by a ChildList"


def owned_list(eng, st, q):
    return TH.xlist(q)


class Ctx(object):
    """What a contract formula may talk about."""

    def __init__(self, eng, pre, post, args, ret=None, exc=None):
        self.eng, self.pre, self.post, self.a, self.ret, self.exc = \
            eng, pre, post, args, ret, exc
        self.n0 = pre.next
        self.n1 = post.next if post is not None else None
        self.trace = None

    def H(self, fam, when="pre"):
        return HEAPS.of(self.eng, self.pre if when == "pre" else self.post, fam)

    def ref(self, name):
        return un("R", self.a[name])

    def old(self, f, r):
        return self.eng.get(self.pre, f, r)

    def new(self, f, r):
        return self.eng.get(self.post, f, r)


class Contract(object):
    cls = None            # family root class (methods) or None (functions)
    member = None
    kind = "call"
    fn = None             # dotted module function
    params = ()
    defaults = {}
    raises = ()
    touch = {}            # field -> function(ctx) -> [refs] | None (= any old object)
    allocates = False
    group = None          # recursion group for termination
    by_body = False       # classes with the same body are verified together
    trusted = False       # assumed contract of code outside the library

    @property
    def name(self):
        return "%s%s%s%s" % (self.cls + "." if self.cls else "", self.member or self.fn,
                             {"call": "", "get": " (getter)", "set": " (setter)",
                              "ctor": " (constructor)"}[self.kind],
                             ", " + self.variant if self.variant else "")

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    def ensures_exc(self, c):
        return []

    def may_raise(self, c):
        """formula under which raising is possible (pre-state)"""
        return None

    def measure(self, c):
        return None

    def unfold_at(self, c):
        return []

    def reads(self, c):
        """field values whose declared types matter where the contract is used"""
        return []

    def folds(self, c):
        """fold templates usable in loop invariants: [(name, f(seq, i) -> Seq/Str/V)]"""
        return []

    def extra_cands(self, c, ctx):
        return []

    ret_elems = None      # type of the elements of the returned list
    types = {}            # parameter -> Ty factory name, see World.ty
    ret_type = None

    def arg_types(self, c):
        """typing assumptions on the parameters"""
        return [c.eng.ty_formula(c.pre, c.eng.spec.ty(n), c.a[p])
                for p, n in sorted(self.types.items())]

    def cases(self):
        """{label: (fixed arguments, assumption(args))}: complete case split"""
        return {"": ({}, None)}

    raising_cases = ()    # cases in which the function only raises

    variant = None        # a second contract of the same function

    def arg_val(self, eng, st, p):
        """symbolic value of a parameter that is not an object (a callback)"""
        return None

    def inline_at(self, eng, st, args):
        """use the body instead of the contract at this call"""
        return False

    # ---- at a call site
    def bind(self, eng, st, args, kw):
        out = {}
        vals = {}
        for i, p in enumerate(self.params):
            if i < len(args):
                vals[p] = args[i]
            elif p in kw:
                vals[p] = kw[p]
            elif p in self.defaults:
                vals[p] = eng.const(self.defaults[p])
            else:
                raise Unsupported("contract call of %s: missing %s" % (self.name, p))
        if len(args) > len(self.params) or any(k not in self.params for k in kw):
            raise Unsupported("contract call of %s: extra arguments" % self.name)
        for p, v in vals.items():
            if isinstance(v, T):
                out[p] = v.t
            else:
                st, out[p] = eng.toV(st, v)
        return st, out

    def result(self, eng, c):
        x = fresh("ret", V)
        if self.ret_type:
            eng.const_ty[x.decl().name()] = eng.spec.ty(self.ret_type)
        eng.const_ub[x.decl().name()] = c.post.next
        return T(x)

    def post_state(self, eng, st, c):
        post = st.copy()
        n0 = st.next
        if self.allocates:
            post.next = fresh("next", Int)
            post.pc.append(post.next >= n0)
            post.ghost["nexts"] = post.ghost.get("nexts", ()) + (post.next,)
        frames = []
        q = z3.Int("q!fr")
        for f, allowed in sorted(self.touch.items()):
            old = eng.arr(st, f)
            new = eng.havoc_field(post, f, "c")
            ex = allowed(c) if callable(allowed) else allowed
            if ex == OWNED:
                frames.append(z3.ForAll([q], z3.Implies(
                    z3.And(q < n0, z3.Not(owned_list(eng, st, q))), new[q] == old[q]),
                    patterns=[new[q]]))
                frames += [new[x] == old[x] for x in eng.private_lists(st)]
            elif ex is not None:
                post.ghost["touched"] = post.ghost.get("touched", ()) + tuple(
                    (f, x) for x in ex)
                frames.append(z3.ForAll([q], z3.Implies(
                    z3.And([q < n0] + [q != x for x in ex]), new[q] == old[q]),
                    patterns=[new[q]]))
        if "items" in self.touch:
            frames.append(eng.closed_items(post))
        post.pc += frames
        post.snaps = post.snaps + [("post " + self.name, dict(post.heap), post.next)]
        return post

    def apply(self, eng, st, args, kw):
        st, a = self.bind(eng, st, args, kw)
        st = st.copy()
        for p in sorted(a):
            eng.learn(st, a[p])
        c = Ctx(eng, st, None, a)
        for x in self.reads(c):
            eng.learn(st, x)
        for lab, f in [("argument types", f) for f in self.arg_types(c)] + \
                list(self.requires(c)):
            eng.oblige(st, "precondition of %s: %s" % (self.name, lab), f)
        st = st.assume(*[f for _, f in self.requires(c)])
        t = eng.target
        if t is not None and self.group is not None and t[0].group == self.group:
            m, m0 = self.measure(c), t[0].measure(t[1])
            if m is not None:
                eng.oblige(st, "recursive call of %s decreases" % self.name,
                           z3.And(m < m0, m0 >= 0))
        c = Ctx(eng, st, None, a)
        post = self.post_state(eng, st, c)
        c = Ctx(eng, st, post, a)
        v = self.result(eng, c)
        c.ret = v.t if isinstance(v, T) else v
        ens = [f for _, f in self.ensures(c)]
        ok = post.assume(*ens)
        if isinstance(v, T):
            ok = ok.copy()
            eng.learn(ok, v.t)
        if not self.raises or eng.feasible(ok):
            yield ok, v
        if self.raises:
            post2 = self.post_state(eng, st, Ctx(eng, st, None, a))
            for e in self.raises:
                c2 = Ctx(eng, st, post2, a, exc=e)
                bad = post2.assume(*[f for _, f in self.ensures_exc(c2)])
                if eng.feasible(bad):
                    yield bad, eng.exc(e)


class World(object):
    """spec object handed to the engine"""
    forgettable = ("_matcher_element",)      # caches that may be reset anywhere

    def __init__(self, prog, contracts=(), fns=(), folds=(), theory=(), concrete=None):
        self.prog = prog
        self.concrete = dict(CONCRETE, **(concrete or {}))
        self.variants = []
        self.contracts = list(contracts)
        self.fns, self.folds, self.theory = list(fns), list(folds), list(theory)
        names = set(prog.classes)
        self.excluded_classes = set()
        for fam, conc in self.concrete.items():
            if fam in prog.classes:
                self.excluded_classes |= {c.name for c in prog.subclasses(fam)
                                          if c.name not in conc}

    # ---- universe
    def ids(self, fam):
        ex = self.excluded_classes
        return [c.id for c in self.prog.subclasses(fam) if c.name not in ex]

    def is_a(self, r, fam):
        return z3.Or([TH_typ(r) == i for i in self.ids(fam)])

    def isref(self, t, fam):
        return z3.And(V.is_R(t), self.is_a(V.r(t), fam))

    def axioms(self, eng):
        return seq_axioms() + TH.agree_axioms(self.fns, self.folds) + list(self.theory)

    def owned_list(self, eng, st, q):
        return owned_list(eng, st, q)

    # ---- typed heap
    def ty(self, n):
        """Ty from a compact description: 'S', 'None|S', '@Expansion', 'None|@list:EXP'"""
        if isinstance(n, Ty):
            return n
        ks, cl, role = set(), None, None
        for p in n.split("|"):
            if p.startswith("=") or p.startswith("@"):
                exact = p[0] == "="
                ks.add("R")
                p = p[1:]
                if ":" in p:
                    p, role = p.split(":")
                ex = self.excluded_classes
                names = {p} if exact else \
                    {c.name for c in self.prog.subclasses(p) if c.name not in ex}
                cl = (cl or set()) | names
            else:
                ks.add(p)
        return Ty(ks, cl, role)

    def field_types(self, eng):
        return {f: self.ty(t) for f, (o, t) in FIELDS.items()}

    def list_roles(self, eng):
        return {r: self.ty(t) for r, t in ROLES.items()}

    def key_roles(self, eng):
        return {r: self.ty(t) for r, t in KEYROLES.items()}

    def fields_of(self, cls):
        out = []
        for f, (owners, t) in sorted(FIELDS.items()):
            if any(o in self.prog.classes and cls.issub(self.prog.classes[o])
                   for o in owners.split()):
                out.append(f)
        return out

    def read_facts(self, eng, st, f, r, t):
        out = []
        if f == "_children":
            x = eng.get(st, "_expansion", V.r(t))
            out.append(x == V.R(r))
        if f == "_list":
            out.append(TH.lowner(V.r(t)) == r)
            out.append(V.R(TH.xof(V.r(t))) == eng.get(st, "_expansion", r))
            out.append(TH.xlist(V.r(t)))
        return out

    def write_checks(self, eng, st, f, r, t):
        out = []
        if f == "_children":
            out.append(("the new ChildList belongs to the node",
                        eng.get(st, "_expansion", V.r(t)) == V.R(r)))
        if f == "_list":
            out.append(("the list belongs to the ChildList", z3.And(
                TH.lowner(V.r(t)) == r, TH.xlist(V.r(t)),
                V.R(TH.xof(V.r(t))) == eng.get(st, "_expansion", r))))
        if f in ("_list", "_expansion") and eng.quick_classes(st, r) == \
                frozenset(["ChildList"]):
            if not any(r.eq(x) for x in st.ghost.get("fresh", ())):
                out.append(("ChildList fields are set once", z3.BoolVal(False)))
        return out

    def after_write(self, eng, st, f, r, t):
        ty = eng.ftypes.get(f)
        if ty is None or ty.role is None or syn_kind(t) != "R":
            return st
        l = un("R", t)
        if not any(l.eq(x) for x in st.ghost.get("fresh", ())):
            return st
        if any(l.eq(x) for x in st.ghost.get("owned", ())):
            eng.oblige(st, "a list or dict has one owner", z3.BoolVal(False))
            return st
        st.ghost["owned"] = st.ghost.get("owned", ()) + (l,)
        st.hints[("role", l.get_id())] = (ty.role, l)
        if f == "_list":
            st.pc += [TH.lowner(l) == r, TH.xlist(l)]
            st.pc.append(V.R(TH.xof(l)) == eng.get(st, "_expansion", r))
        if ty.classes == frozenset(["list"]):
            eng.check_items_write(st, l, eng.items(st, l))
        return st

    # ---- contract lookup
    def find_contract(self, eng, names, name, kind):
        for c in self.contracts:
            if c.cls and c.member == name and c.kind == kind:
                uni = {x.name for x in eng.universe(c.cls)}
                if set(names) <= uni:
                    return c
        return None

    def find_fn_contract(self, eng, fn, args, st):
        for c in self.contracts:
            if c.fn is not None and fn.qual == c.fn:
                return c
            if c.cls and fn.cls is not None and c.member == fn.name.split(".")[0]:
                kind = "set" if fn.name.endswith(".setter") else \
                    "get" if fn.kind == "prop" else "call"
                if kind == c.kind and args and isinstance(args[0], T) and \
                        eng.kind(st, args[0].t) == "R":
                    names = eng.classes_of(st, un("R", args[0].t))
                    if set(names) <= {x.name for x in eng.universe(c.cls)} and all(
                            self.dispatches(n, c.member, fn) for n in names):
                        return c
        return None

    def dispatches(self, clsname, member, fn):
        """member of an object of the class is the function fn"""
        _, a = self.prog.classes[clsname].lookup(member)
        return a is fn or (isinstance(a, Prop) and fn in (a.fget, a.fset))

    def find_ctor_contract(self, eng, cls, args):
        for c in self.contracts:
            if c.kind == "ctor" and c.cls == cls.name:
                return c
        return None

    # ---- hooks
    def equal_hook(self, eng, st, a, b, names):
        return None

    def attr_hook(self, eng, st, v, name, names):
        return None

    def str_hook(self, eng, st, t):
        return None

    def member(self, eng, st, seq, t):
        k = z3.Int("k!m")
        ki = known_items(seq)
        if ki is not None:
            return z3.Or([self.elem_eq(eng, st, x, t) for x in ki]) if ki else \
                z3.BoolVal(False)
        m = z3.Function("seq.member", SeqV, V, Bool)
        return m(seq, t)

    def elem_eq(self, eng, st, a, b):
        """list.index / remove / in equality of two V terms"""
        return UF("py_eq", V, V, Bool)(a, b)

    def dkey(self, eng, st, t):
        k = eng.kind(st, t, ("R", "S", "I"))
        if k in ("S", "I"):
            return t
        if k == "R":
            r = un("R", t)
            if eng.entails(st, self.is_a(r, "Expansion")):
                return V.R(hkey(HEAPS.of(eng, st, "comp"), r))
            return t
        raise Unsupported("dict key")

    def dict_values(self, eng, st, r):
        """values of a dict, in an order that is not specified"""
        ro = eng.role(st, r)
        ty = eng.roles.get(ro)
        if ty is None:
            raise Unsupported("values of a dict of unknown role")
        x = fresh("dvals", SeqV)
        eng.seq_ty[x.decl().name()] = (ty, st.next)
        return x

    def seq_to_set(self, eng, st, seq):
        """membership array of set(seq): nothing is known about it"""
        return fresh("shas", z3.ArraySort(V, Bool))

    def set_order(self, eng, st, seq):
        """elements of set(seq) in some order: each is an element of seq"""
        ty = eng.elem_ty(st, seq)
        x = fresh("sord", SeqV)
        if ty is None:
            raise Unsupported("set of elements of unknown type")
        eng.seq_ty[x.decl().name()] = (ty, st.next)
        w = z3.Function("where!" + x.decl().name(), Int, Int)
        j = z3.Int("j!so")
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < slen(x)), z3.And(
            0 <= w(j), w(j) < slen(seq), sat_(x, j) == sat_(seq, w(j)))),
            patterns=[sat_(x, j)]))
        return x

    def ext_call(self, eng, st, name, args, kw):
        """functions of other libraries"""
        if name.startswith("jsgf.references.") and name.endswith(".matches"):
            f = UF(name[len("jsgf.references."):], Str, Bool)
            t = args[0].t
            if eng.kind(st, t) != "S":
                raise Unsupported("matches() of a non-string")
            return iter([(st, T(V.B(f(un("S", t)))))])
        return None

    def with_hook(self, eng, st, c):
        return None

    def loop_facts(self, eng, st0, seq, i):
        out = []
        t = eng.target
        if t is None:
            return out
        out.append(TH.oldseq_def(seq, t[1].n0))
        for F, H, ex in t[0].fold_terms(t[1]) if hasattr(t[0], "fold_terms") else []:
            out += F.unfold(H, ex, seq, i)
        return out

    def candidates(self, eng, ctx):
        """loop invariant candidates from the contract under verification"""
        out = []
        t = eng.target
        if t is None:
            return out
        ct, c = t
        st0 = ctx.st0
        # sequence-valued folds for lists written in the loop
        for fname, g in ct.folds(c):
            if ctx.seq is None:
                continue
            ws = []
            for w in ctx.writes.get("items", []):
                w = simp(w)
                if eng.loop_invariant_term(w, ctx) and not any(w.eq(x) for x in ws):
                    ws.append(w)
            for w in ws:
                def cand(e, s0, s, i, q, w=w, g=g):
                    x = g(q, i)
                    if x.sort() != SeqV:
                        return None
                    return seq_eq(e.items(s, w), Cat(e.items(s0, w), x))
                out.append(Cand("list@%s = %s" % (w, fname), cand))
            for gh in ctx.ghost:
                def cand(e, s0, s, i, q, gh=gh, g=g):
                    x = g(q, i)
                    if x.sort() != s.ghost[gh].sort():
                        return None
                    if x.sort() == SeqV:
                        return seq_eq(s.ghost[gh], Cat(s0.ghost[gh], x))
                    return None
                out.append(Cand("ghost %s = %s" % (gh, fname), cand))
            for (fid, v) in sorted(ctx.vars, key=str):
                def cand(e, s0, s, i, q, fid=fid, v=v, g=g):
                    x, y = s.frames[fid].get(v), s0.frames[fid].get(v)
                    if not (isinstance(x, T) and isinstance(y, T)):
                        return None
                    z = g(q, i)
                    if z.sort() == Str and e.kind(s0, y.t) == "S":
                        return x.t == V.S(concat([un("S", y.t), z]))
                    if z.sort() == V:
                        return x.t == z
                    if z.sort() == Bool:
                        return x.t == V.B(z)
                    return None
                out.append(Cand("%s = %s" % (v, fname), cand))
        out += list(ct.extra_cands(c, ctx))
        return out


TH_typ = typ
hkey = z3.Function("hkey", TH.HeapS, Int, Int)


# ----------------------------------------------------------- declared field types
# field -> (owner classes, type); the list / dict roles give element types
FIELDS = {
    "_children": ("Expansion", "@ChildList"),
    "_list": ("ChildList", "@list:EXP"),
    "_expansion": ("ChildList Rule", "@Expansion"),
    "_tag": ("Expansion", "S"),
    "_parent": ("Expansion", "None|@Expansion"),
    "rule": ("Expansion", "None|@Rule"),
    "_matcher_element": ("Expansion", "None|@ParserElement"),
    "_current_match": ("Expansion", "None|S"),
    "_matching_slice": ("Expansion", "None|@slice"),
    "_lookup_dict": ("Expansion", "None|@dict:LOOKUP"),
    "_text": ("Literal", "S"),
    "_case_sensitive": ("Literal Rule", "B"),
    "_name": ("BaseRef Rule Grammar", "S"),
    "_referenced_rule": ("RuleRef", "@Rule"),
    "_weights": ("AlternativeSet", "@dict:WEIGHTS"),
    "_repetitions_matched": ("Repeat", "@list:REPS"),
    "grammar": ("Rule", "None|@Grammar"),
    "_active": ("Rule", "B"),
    "visible": ("Rule", "B"),
    "_rules": ("Grammar", "@list:RULES"),
    "_imports": ("Grammar", "@list:IMPORTS"),
    "_import_env": ("Grammar", "@dict:ENV"),
    "jsgf_version": ("Grammar", "S"),
    "charset_name": ("Grammar", "None|S"),
    "language_name": ("Grammar", "None|S"),
    "_dictation_rules": ("DictationGrammar", "@list:RULES"),
    "_jsgf_only_grammar": ("DictationGrammar", "=Grammar"),
    "_original_rule_map": ("DictationGrammar", "@dict:RULEMAP"),
}
ROLES = {"EXP": "@Expansion", "RULES": "@Rule", "IMPORTS": "@Import",
         "REPS": "None|S", "WEIGHTS": "I|F",
         "RULEMAP": "@Rule", "ENV": "@Rule|@list:RULES|@Grammar"}
KEYROLES = {"WEIGHTS": "@Expansion", "RULEMAP": "@Rule", "ENV": "S"}


# ---------------------------------------------------------------- verification driver
class Result(object):
    def __init__(self, contract, cls):
        self.contract, self.cls = contract, cls
        self.obls, self.error, self.paths = [], None, 0
        self.inlined, self.used = set(), set()
        self.seconds, self.vacuous = 0.0, None


def initial_state(eng, fields=()):
    st = St()
    st.next = z3.Int("next0")
    st.pc.append(st.next > 0)
    st.ghost["nexts"] = (st.next,)
    return st


def all_fields(prog):
    """every attribute assigned anywhere in the program text"""
    import ast
    out = {"items", "dkeys", "dhas", "dval"}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
    return out


def verify(world, ct, clsname=None, budget=120, case=""):
    prog = world.prog
    t0 = time.time()
    res = Result(ct, clsname)
    eng = Engine(prog, world)
    eng.target = None
    eng.deadline = time.time() + budget
    eng.cur = "%s[%s]" % (ct.name, clsname) if clsname else ct.name
    if case:
        eng.cur += "{%s}" % case
    fixed, guard = ct.cases()[case]
    res.eng = eng
    try:
        st = initial_state(eng)
        for f in sorted(all_fields(prog)):
            eng.arr(st, f)
        st.pc.append(eng.closed_items(st))
        args = {}
        vals = []
        for p in ct.params:
            if p == "self":
                r0 = z3.Int("self0")
                st.pc += [r0 > 0, r0 < st.next, unf(r0)]
                eng.const_ub["self0"] = st.next
                if clsname:
                    ns = clsname.split("|")
                    st.pc.append(z3.Or([typ(r0) == prog.classes[x].id for x in ns]))
                    st.hints[r0.get_id()] = (frozenset(ns), r0)
                else:
                    st.pc.append(world.is_a(r0, ct.cls))
                args[p] = V.R(r0)
            elif ct.arg_val(eng, st, p) is not None:
                vals.append(ct.arg_val(eng, st, p))
                continue
            elif p in fixed:
                args[p] = fixed[p]
            else:
                x = z3.Const("arg." + p, V)
                st.pc.append(z3.Implies(V.is_R(x), z3.And(V.r(x) > 0, V.r(x) < st.next)))
                eng.const_ub["arg." + p] = st.next
                if p in ct.types:
                    eng.const_ty["arg." + p] = world.ty(ct.types[p])
                args[p] = x
            vals.append(T(args[p]))
        c = Ctx(eng, st, None, args)
        st.snaps = [("entry", dict(st.heap), st.next)]
        for f in ct.arg_types(c):
            st.pc.append(f)
        if guard is not None:
            st.pc.append(guard(args))
        for lab, f in ct.requires(c):
            st.pc.append(f)
        for x in ct.reads(c):
            eng.learn(st, x)
        for r in ct.unfold_at(c):
            st.pc.append(unf(r))
        ct.init_ghost(eng, st) if hasattr(ct, "init_ghost") else None
        if eng.check(st.pc, 3000) == z3.unsat:
            res.vacuous = "precondition is unsatisfiable"
        pre = st.copy()
        c = Ctx(eng, pre, None, args)
        eng.target = (ct, c)
        runs = ct.run(eng, st, vals) if hasattr(ct, "run") else \
            run_member(eng, prog, ct, clsname, st, vals)
        normal = 0
        for s, v in runs:
            res.paths += 1
            if res.paths > 400:
                raise Unsupported("too many paths")
            finish(world, eng, ct, pre, s, v, args)
            if not eng.raised(v) or case in ct.raising_cases:
                normal += 1
                res.normal_states = getattr(res, "normal_states", []) + [s]
        if res.paths == 0:
            res.vacuous = "no path reaches an exit"
        elif not any(eng.check(s.pc, 1500) != z3.unsat
                     for s in getattr(res, "normal_states", [])):
            res.vacuous = "no normal exit is reachable"
    except Unsupported as e:
        res.error = "outside the verified subset: %s" % e
    except (KeyError, AttributeError, TypeError, IndexError, RecursionError,
            NotImplementedError, z3.Z3Exception) as e:
        import traceback
        res.error = "engine cannot handle this body: %r" % (e,)
        res.trace = traceback.format_exc()
    res.obls = eng.obls
    res.inlined, res.used = eng.inlined, eng.contracts_used
    res.seconds = time.time() - t0
    res.eng = eng
    return res


def run_member(eng, prog, ct, clsname, st, vals):
    if ct.fn is not None:
        fn = prog.find_fn(ct.fn)
        if fn is None:
            raise Unsupported("function %s not found" % ct.fn)
        return eng.call_fn(st, fn, vals, {}, nocontract=True)
    cls = prog.classes[(clsname or ct.cls).split("|")[0]]
    _, a = cls.lookup(ct.member)
    if isinstance(a, Prop):
        a = a.fget if ct.kind == "get" else a.fset
    if not isinstance(a, Fn):
        raise Unsupported("%s.%s is not a function" % (cls.name, ct.member))
    if a.kind == "static":
        return eng.call_fn(st, a, vals, {}, nocontract=True)
    return eng.call_fn(st, a, vals, {}, nocontract=True)


def finish(world, eng, ct, pre, s, v, args):
    s = s.copy()
    exc = eng.raised(v)
    if exc:
        ok = [e for e in ct.raises if v.cls.issub(eng.prog.classes[e])]
        if not ok:
            eng.oblige(s, "no %s escapes" % v.cls.name, z3.BoolVal(False))
            return
        c = Ctx(eng, pre, s, args, exc=ok[0])
        post = ct.ensures_exc(c)
    else:
        if isinstance(v, IterV) or v is None:
            ret = v
        elif isinstance(v, T):
            ret = v.t
        else:
            if hasattr(ct, "ret_val"):
                ret = v
            else:
                s, ret = eng.toV(s, v)
        c = Ctx(eng, pre, s, args, ret=ret)
        post = ct.ensures(c)
        if ct.ret_elems:
            want = world.ty(ct.ret_elems)
            seq = eng.items(s, un("R", ret))
            for x in parts(seq):
                e = eng.typeof(s, x.arg(0)) if is_app_of(x, sunit) else eng.elem_ty(s, x)
                if e is None or not e.le(want):
                    j = z3.Int("j!re")
                    if is_app_of(x, sunit):
                        g = eng.ty_formula(s, want, x.arg(0))
                    else:
                        g = z3.ForAll([j], z3.Implies(
                            z3.And(0 <= j, j < slen(x)),
                            eng.ty_formula(s, want, sat_(x, j))))
                    eng.oblige(s, "elements of the result have the declared type", g)
    tag = "on %s: " % v.cls.name if exc else ""
    for lab, f in post:
        eng.oblige(s, tag + "postcondition: " + lab, f)
    # frame
    q = z3.Int("q!frm")
    changed = set()
    for f, a in sorted(s.heap.items()):
        b = pre.heap.get(f)
        if b is None:
            b = z3.Const("h0." + f, field_sort(f))
        if a.eq(b):
            continue
        changed.add(f)
        allowed = ct.touch.get(f, ())
        ex = allowed(c) if callable(allowed) else allowed
        if ex is None:
            continue
        if ex == OWNED:
            eng.oblige(s, tag + "frame: only lists of children change", z3.ForAll(
                [q], z3.Implies(z3.And(0 < q, q < pre.next, z3.Not(
                    owned_list(eng, pre, q))), a[q] == b[q]), patterns=[a[q]]))
            continue
        eng.oblige(s, tag + "frame: %s unchanged outside its footprint" % f, z3.ForAll(
            [q], z3.Implies(z3.And([0 < q, q < pre.next] + [q != x for x in ex]),
                            a[q] == b[q]), patterns=[a[q]]))

