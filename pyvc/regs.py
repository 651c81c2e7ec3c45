"""The rules and imports of a grammar (C11)."""
import z3
from .model import *
from . import theory as TH
from .theory import HEAPS, HeapS, sel
from .world import Contract, Ctx, World
from .engine import T, Cand
from . import comp, trav, gram, tags, names
from .gram import isin, isin_axioms
from .gates import namesof, RuleNames, names_lemmas
from .trav import named, fidx, unchanged, okref

SV = z3.StringVal
DICTS = ("dval", "dhas", "dkeys")
# a == b for two rules at the time of the operation (C09); identical rules are equal
req_ = z3.Function("rules_equal", V, V, Bool)
rin = z3.Function("equal_to_one_of", SeqV, Int, V, Bool)
rix = z3.Function("index_of_equal", SeqV, Int, V, Int)
# some rule of the grammar of the rule refers to it
depended = z3.Function("is_depended_on", Int, Bool)


def axioms():
    s, v, u = z3.Const("s!rg", SeqV), z3.Const("v!rg", V), z3.Const("u!rg", V)
    i, j = z3.Ints("i!rg j!rg")
    return [z3.ForAll([v], req_(v, v), patterns=[req_(v, v)]),
            z3.ForAll([s, i, v], z3.Implies(rin(s, i, v), z3.And(
                0 <= rix(s, i, v), rix(s, i, v) < i, req_(sat_(s, rix(s, i, v)), v))),
                patterns=[rin(s, i, v)]),
            z3.ForAll([s, i, v, j], z3.Implies(z3.And(
                0 <= j, j < i, req_(sat_(s, j), v)), rin(s, i, v)),
                patterns=[z3.MultiPattern(rin(s, i, v), sat_(s, j))])]


def same_seq(a, b):
    return seq_eq(a, b)


class Reg(Contract):
    """of a grammar"""
    cls = "Grammar"
    lists = ("_rules", "_imports")

    def reads(self, c):
        return [c.old(f, c.ref("self")) for f in self.lists]

    def lst(self, c, f):
        return V.r(c.old(f, c.ref("self")))

    def before(self, c, f="_rules"):
        return c.eng.items(c.pre, self.lst(c, f))

    def after(self, c, f="_rules"):
        return c.eng.items(c.post, V.r(c.new(f, c.ref("self"))))

    def kept(self, c, f, what):
        return [(what, same_seq(self.after(c, f), self.before(c, f)))]

    def arrays_kept(self, c, fields, but=()):
        out = []
        q = z3.Int("q!kp")
        for f, what in fields:
            a, b = c.eng.arr(c.post, f), c.eng.arr(c.pre, f)
            if a.eq(b):
                out.append((what, z3.BoolVal(True)))
            else:
                out.append((what, z3.ForAll([q], z3.Implies(
                    z3.And([0 < q, q < c.n0] + [q != x for x in but]), a[q] == b[q]),
                    patterns=[a[q]])))
        return out

    def distinct(self, c, q, st):
        """no two rules of q have the same name"""
        j, k = z3.Ints("j!ds k!ds")
        nm = c.eng.arr(st, "_name")
        return z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < slen(q)),
                                            nm[V.r(sat_(q, j))] != nm[V.r(sat_(q, k))]),
                         patterns=[z3.MultiPattern(sat_(q, j), sat_(q, k))])

    def apart(self, c):
        return ("the lists of rules and imports are two lists", c.old(
            "_rules", c.ref("self")) != c.old("_imports", c.ref("self")))

    def nothing(self, c):
        return self.kept(c, "_rules", "the rules stay") + \
            self.kept(c, "_imports", "the imports stay") + self.arrays_kept(
                c, [("grammar", "every rule stays in its grammar"),
                    ("_case_sensitive", "every case rule stays")])


class CaseSet(Contract):
    """the case rule of a rule; also given to the rules it refers to"""
    cls, member, kind = "Rule", "case_sensitive", "set"
    params = ("self", "value")
    types = {"self": "@Rule", "value": "B"}
    allocates = True
    group = None
    raises = ("JSGFImportError",)
    touch = dict({f: None for f in DICTS}, _case_sensitive=None, _matcher_element=None)

    def reads(self, c):
        return [c.old("_expansion", c.ref("self"))]

    def only(self, c, st):
        q = z3.Int("q!cs")
        a, b = c.eng.arr(st, "_case_sensitive"), c.eng.arr(c.pre, "_case_sensitive")
        return z3.ForAll([q], z3.Implies(z3.And(0 < q, q < c.n0), z3.Or(
            a[q] == b[q], z3.And(a[q] == c.a["value"], z3.Not(self.w.is_a(q, "Grammar"))))),
            patterns=[a[q]])

    def ensures(self, c):
        return [("the case rule is stored", c.new("_case_sensitive", c.ref("self")) ==
                 c.a["value"]),
                ("nothing but case rules is written, and that of no grammar",
                 self.only(c, c.post))]

    def extra_cands(self, c, ctx):
        return [Cand("case rules as before or as assigned",
                     lambda e, s0, s, i, q: self.only(c, s)),
                Cand("the case rule of the rule itself", lambda e, s0, s, i, q: e.arr(
                    s, "_case_sensitive")[c.ref("self")] == c.a["value"])]


class GrammarCaseSet(Reg):
    """the case rule of a grammar is given to all its rules"""
    cls, member, kind = "Grammar", "case_sensitive", "set"
    params = ("self", "value")
    types = {"self": "@Grammar", "value": "B"}
    allocates = True
    raises = ("JSGFImportError",)
    touch = CaseSet.touch

    def only(self, c, st):
        q = z3.Int("q!cs")
        a, b = c.eng.arr(st, "_case_sensitive"), c.eng.arr(c.pre, "_case_sensitive")
        return z3.ForAll([q], z3.Implies(z3.And(0 < q, q < c.n0), z3.Or(
            a[q] == b[q], z3.And(a[q] == c.a["value"], z3.Or(
                q == c.ref("self"), z3.Not(self.w.is_a(q, "Grammar")))))),
            patterns=[a[q]])

    def each(self, c, st, q, i):
        j = z3.Int("j!gc")
        a = c.eng.arr(st, "_case_sensitive")
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), a[V.r(
            sat_(q, j))] == c.a["value"]), patterns=[sat_(q, j)])

    def ensures(self, c):
        p = self.before(c)
        return [("the grammar has the case rule", c.new(
            "_case_sensitive", c.ref("self")) == c.a["value"]),
            ("all its rules have it", self.each(c, c.post, p, slen(p))),
            ("nothing but case rules is written, and that of no other grammar",
             self.only(c, c.post))]

    def extra_cands(self, c, ctx):
        return [Cand("case rules as before or as assigned",
                     lambda e, s0, s, i, q: self.only(c, s)),
                Cand("the case rule of the grammar itself", lambda e, s0, s, i, q: e.arr(
                    s, "_case_sensitive")[c.ref("self")] == c.a["value"]),
                Cand("the case rules of the rules so far", lambda e, s0, s, i, q: self.each(
                    c, s, q, i) if q is not None else None)]


class AddRule(Reg):
    member = "add_rule"
    params = ("self", "rule")
    types = {"self": "@Grammar"}
    ret_type = "None"
    raises = ("TypeError", "GrammarError", "JSGFImportError")
    allocates = True
    touch = dict(CaseSet.touch, grammar=None,
                 items=lambda c: [V.r(c.old("_rules", c.ref("self")))])

    def cases(self):
        out = names.kinds_of_value(lambda: self.w, "rule")
        out["a rule"] = ({}, lambda a: z3.And(V.is_R(a["rule"]), self.w.is_a(
            V.r(a["rule"]), "Rule")))
        return out
    raising_cases = ("a string", "None", "an integer", "a float", "a boolean",
                     "an expansion")

    def is_rule(self, c):
        return self.w.isref(c.a["rule"], "Rule")

    def taken(self, c):
        p = self.before(c)
        return z3.Not(named(c.H("tree"), c.old("_name", V.r(c.a["rule"])), p, slen(p)))

    def root(self, c):
        """a rule named root is not added to a RootGrammar"""
        return z3.And(typ(c.ref("self")) == c.eng.prog.classes["RootGrammar"].id,
                      c.old("_name", V.r(c.a["rule"])) == vs("root"))

    def requires(self, c):
        r = c.a["rule"]
        p, j = self.before(c), z3.Int("j!ar")
        return [("no two rules have the same name", self.distinct(c, p, c.pre)),
                self.apart(c),
                ("equal rules have the same name", z3.ForAll([j], z3.Implies(
                    z3.And(0 <= j, j < slen(p), req_(sat_(p, j), r)),
                    c.old("_name", V.r(sat_(p, j))) == c.old("_name", V.r(r))),
                    patterns=[sat_(p, j)]))]

    def ensures(self, c):
        r = c.a["rule"]
        p, q = self.before(c), self.after(c)
        t = self.taken(c)
        return [("only rules are added", self.is_rule(c)),
                ("no rule named root is added to a root grammar", z3.Not(self.root(c))),
                ("a rule of a new name is added at the end", z3.Implies(
                    z3.Not(t), seq_eq(q, Cat(p, Unit(r))))),
                ("the grammar is its grammar", z3.Implies(
                    z3.Not(t), c.new("grammar", V.r(r)) == c.a["self"])),
                ("it has the grammar's case rule", z3.Implies(
                    z3.Not(t), c.new("_case_sensitive", V.r(r)) ==
                    c.old("_case_sensitive", c.ref("self")))),
                ("if the name is taken, only an equal rule is accepted", z3.Implies(
                    t, rin(p, slen(p), r))),
                ("and then the rules stay", z3.Implies(t, seq_eq(q, p))),
                ("no two rules have the same name", self.distinct(c, q, c.post)),
                ("the grammar of the rule stays if it is not added", z3.Implies(
                    t, c.new("grammar", V.r(r)) == c.old("grammar", V.r(r))))] + \
            self.arrays_kept(c, [("grammar", "all other rules stay in their grammar")],
                             [V.r(r)]) + self.kept(c, "_imports", "the imports stay")

    def ensures_exc(self, c):
        r = c.a["rule"]
        p = self.before(c)
        why = z3.Or(z3.Not(self.is_rule(c)), self.root(c),
                    z3.And(self.taken(c), z3.Not(rin(p, slen(p), r))))
        if c.exc == "JSGFImportError":
            # a reference is looked up in the rule's old grammar, whose imports fail
            return self.nothing(c)[:3]
        return [("raises only for something else than a rule or a name that is taken",
                 why)] + self.nothing(c)

    def fold_terms(self, c):
        return [(named, c.H("tree"), [c.old("_name", V.r(c.a["rule"]))]),
                (namesof, c.H("tree"), [])]


class DependentRules(Contract):
    """(assumed) the rules of the rule's grammar that refer to it"""
    cls, member, kind = "Rule", "dependent_rules", "get"
    params = ("self",)
    types = {"self": "@Rule"}
    ret_type = "=list"
    ret_elems = "@Rule"
    allocates = True
    trusted = True
    raises = ("GrammarError", "TypeError", "JSGFImportError")
    touch = {f: None for f in DICTS}

    def result(self, eng, c):
        return trav.new_list_result(eng, c, "@Rule")

    def ensures(self, c):
        q = c.eng.items(c.post, un("R", c.ret))
        return [("", (slen(q) > 0) == depended(c.ref("self")))]


class RemoveRule(Reg):
    member = "remove_rule"
    params = ("self", "rule", "ignore_dependent")
    defaults = {"ignore_dependent": False}
    types = {"self": "@Grammar", "ignore_dependent": "B"}
    ret_type = "None"
    raises = ("GrammarError", "TypeError", "JSGFImportError")
    allocates = True
    touch = dict({f: None for f in DICTS}, grammar=None, _matcher_element=None,
                 items=lambda c: [V.r(c.old("_rules", c.ref("self")))])

    def cases(self):
        s = z3.Const("arg.s", Str)
        return {"a rule": ({}, lambda a: self.w.isref(a["rule"], "Rule")),
                "a name": ({"rule": V.S(s)}, None),
                "None": ({"rule": NONE}, None),
                "an integer": ({"rule": V.I(z3.Int("arg.i"))}, None)}
    raising_cases = ("None", "an integer")

    def by_name(self, c):
        return V.is_S(c.a["rule"])

    def rname(self, c):
        r = c.a["rule"]
        return z3.If(V.is_S(r), r, c.old("_name", V.r(r)))

    def at(self, c):
        """where the rule of that name is"""
        return fidx(c.H("tree"), self.rname(c), self.before(c))

    def target(self, c):
        return sat_(self.before(c), self.at(c))

    def known(self, c):
        p = self.before(c)
        return z3.And(
            z3.Not(named(c.H("tree"), self.rname(c), p, slen(p))),
            z3.Or(z3.And(self.by_name(c), okref(V.s(c.a["rule"]))),
                  z3.And(self.w.isref(c.a["rule"], "Rule"),
                         rin(p, slen(p), c.a["rule"]))))

    def requires(self, c):
        r = c.a["rule"]
        p = self.before(c)
        j, k = z3.Ints("j!rr k!rr")
        nm = lambda x: c.old("_name", V.r(x))
        return [("no two rules have the same name", self.distinct(c, p, c.pre)),
                self.apart(c),
                ("a name is that of a rule of the grammar (other names are looked up in "
                 "the imports)", z3.Implies(self.by_name(c), z3.And(
                     okref(V.s(r)), z3.Not(named(c.H("tree"), r, p, slen(p)))))),
                ("equal rules have the same name", z3.ForAll([j], z3.Implies(
                    z3.And(0 <= j, j < slen(p), V.is_R(r), req_(sat_(p, j), r)),
                    nm(sat_(p, j)) == nm(r)), patterns=[sat_(p, j)])),
                ("equal rules of the grammar have the same name", z3.ForAll(
                    [j, k], z3.Implies(z3.And(
                        0 <= j, j < slen(p), 0 <= k, k < slen(p),
                        req_(sat_(p, j), sat_(p, k))), nm(sat_(p, j)) == nm(sat_(p, k))),
                    patterns=[req_(sat_(p, j), sat_(p, k))]))]

    def ensures(self, c):
        p, q, k = self.before(c), self.after(c), self.at(c)
        x = self.target(c)
        return [("the grammar has the rule", self.known(c)),
                ("no rule depends on it unless that is ignored", z3.Or(
                    V.b(c.a["ignore_dependent"]), z3.Not(depended(V.r(x))))),
                ("exactly this rule is taken out of the list", seq_eq(q, Cat(
                    Sub(p, 0, k), Sub(p, k + 1, slen(p) - k - 1)))),
                ("it is in no grammar", c.new("grammar", V.r(x)) == NONE),
                ("no two rules have the same name", self.distinct(c, q, c.post))] + \
            self.arrays_kept(c, [("grammar", "all other rules stay in their grammar")],
                             [V.r(x)]) + self.kept(c, "_imports", "the imports stay") + \
            self.arrays_kept(c, [("_case_sensitive", "every case rule stays")])

    def ensures_exc(self, c):
        return [("raises only if the grammar does not have the rule, or for its "
                 "dependent rules", z3.Or(z3.Not(self.known(c)), z3.Not(
                     V.b(c.a["ignore_dependent"]))))] + self.nothing(c)

    def fold_terms(self, c):
        return [(named, c.H("tree"), [self.rname(c)])]


class ImportEq(Contract):
    """imports are equal exactly if their names are"""
    cls, member = "Import", "__eq__"
    params = ("self", "other")
    types = {"self": "@Import", "other": "@Import"}
    ret_type = "B"

    def ensures(self, c):
        return [("equal exactly if the names are", c.ret == V.B(c.old(
            "_name", c.ref("self")) == c.old("_name", c.ref("other"))))]


class AddImport(Reg):
    member = "add_import"
    params = ("self", "_import")
    types = {"self": "@Grammar"}
    ret_type = "None"
    raises = ("TypeError",)
    touch = {"items": lambda c: [V.r(c.old("_imports", c.ref("self")))]}
    cases0 = AddRule.raising_cases
    raising_cases = ("a string", "None", "an integer", "a float", "a boolean",
                     "an expansion", "a rule")

    def cases(self):
        out = names.kinds_of_value(lambda: self.w, "_import")
        for n, k in (("a rule", "Rule"), ("an import", "Import")):
            out[n] = ({}, lambda a, k=k: z3.And(V.is_R(a["_import"]), self.w.is_a(
                V.r(a["_import"]), k)))
        return out

    def is_import(self, c):
        return self.w.isref(c.a["_import"], "Import")

    def known(self, c):
        p = self.before(c, "_imports")
        return z3.Not(named(c.H("tree"), c.old("_name", V.r(c.a["_import"])), p, slen(p)))

    def requires(self, c):
        return [self.apart(c)]

    def ensures(self, c):
        p, q = self.before(c, "_imports"), self.after(c, "_imports")
        return [("only imports are added", self.is_import(c)),
                ("a new import is added at the end", z3.Implies(
                    z3.Not(self.known(c)), seq_eq(q, Cat(p, Unit(c.a["_import"]))))),
                ("an import the grammar has is not added", z3.Implies(
                    self.known(c), seq_eq(q, p)))] + \
            self.kept(c, "_rules", "the rules stay")

    def ensures_exc(self, c):
        return [("raises only for something else than an import",
                 z3.Not(self.is_import(c)))] + self.nothing(c)

    def fold_terms(self, c):
        return [(named, c.H("tree"), [c.old("_name", V.r(c.a["_import"]))])]


class RemoveImport(AddImport):
    member = "remove_import"
    raises = ("TypeError", "GrammarError")

    def ensures(self, c):
        p, q = self.before(c, "_imports"), self.after(c, "_imports")
        k = fidx(c.H("tree"), c.old("_name", V.r(c.a["_import"])), p)
        return [("only imports are removed", self.is_import(c)),
                ("the grammar had the import", self.known(c)),
                ("the first import of that name is taken out", seq_eq(q, Cat(
                    Sub(p, 0, k), Sub(p, k + 1, slen(p) - k - 1))))] + \
            self.kept(c, "_rules", "the rules stay")

    def ensures_exc(self, c):
        return [("raises only for something else than an import of the grammar",
                 z3.Not(z3.And(self.is_import(c), self.known(c))))] + self.nothing(c)


class Imports(Contract):
    cls, member, kind = "Grammar", "imports", "get"
    params = ("self",)
    types = {"self": "@Grammar"}
    allocates = True
    ret_type = "=list"

    def ensures(self, c):
        q = c.eng.items(c.post, un("R", c.ret))
        src = c.eng.items(c.pre, V.r(c.old("_imports", c.ref("self"))))
        return [("a copy of the list of imports", seq_eq(q, src)),
                ("a new list", un("R", c.ret) >= c.n0)]


class ResolveImports(trav.ResolveImports):
    raises = ("GrammarError", "JSGFImportError")


class ImportResolve(trav.ImportResolve):
    raises = ("GrammarError", "JSGFImportError")


class ReferencedRule(trav.ReferencedRule):
    raises = ("GrammarError", "JSGFImportError")


class GetRule(trav.GetRule):
    def ensures_exc(self, c):
        out = trav.GetRule.ensures_exc(self, c)
        if c.exc == "TypeError":
            out.append(("TypeError only for something else than a string", z3.Not(
                V.is_S(c.a["name"]))))
        return out


class RegWorld(tags.TagWorld):
    def loop_facts(self, eng, st0, seq, i):
        return tags.TagWorld.loop_facts(self, eng, st0, seq, i) + (
            eng.elem_facts(st0, seq) if z3.is_expr(seq) else [])

    def kind_of(self, eng, st, t):
        if eng.kind(st, t) != "R":
            return None
        names_ = eng.classes_of(st, un("R", t))
        cls = self.prog.classes
        for n in ("Rule", "Import"):
            if names_ and all(cls[k].issub(cls[n]) for k in names_):
                return n

    def member(self, eng, st, seq, t):
        k = self.kind_of(eng, st, t)
        role = eng.elem_ty(st, seq)
        only = lambda n: role is not None and role.kinds is not None and \
            set(role.kinds) <= {"R"} and role.classes is not None and \
            all(self.prog.classes[x].issub(self.prog.classes[n]) for x in role.classes)
        if k == "Rule" and only("Import") or k == "Import" and only("Rule"):
            return z3.BoolVal(False)    # BaseRef.__eq__, Rule.__eq__ of other classes
        if k == "Rule":
            return rin(seq, slen(seq), t)
        if k == "Import":
            H = HEAPS.of(eng, st, "tree")
            return z3.Not(named(H, eng.arr(st, "_name")[V.r(t)], seq, slen(seq)))
        if k is None and known_items(seq) is None and eng.kind(st, t) != "S":
            # something that is not of the library's classes equals no import or rule
            return z3.BoolVal(False)
        if k is None and eng.kind(st, t) == "S" and role is not None and \
                self.holds_objects(eng, role):
            return z3.BoolVal(False)
        return tags.TagWorld.member(self, eng, st, seq, t)

    def holds_objects(self, eng, role):
        return "S" not in str(role)

    def elem_eq(self, eng, st, a, b):
        k = self.kind_of(eng, st, b)
        if k == "Rule":
            return req_(a, b)
        if k == "Import":
            nm = eng.arr(st, "_name")
            return nm[V.r(a)] == nm[V.r(b)]
        return tags.TagWorld.elem_eq(self, eng, st, a, b)


def world(prog):
    fns, folds = comp.FNS + trav.FNS, comp.FOLDS + trav.FOLDS + [namesof]
    cs = [CaseSet(), GrammarCaseSet(), AddRule(), RemoveRule(), AddImport(), RemoveImport()]
    base = [trav.MapExpansion(), ReferencedRule(), GetRule(), trav.GrammarRules(),
            ResolveImports(), ImportResolve()]
    w = RegWorld(prog, cs + [DependentRules(), RuleNames(), comp.InvalidateMatcher()] +
                 base, fns, folds, [], concrete=gram.PLAIN)
    w.variants = [ImportEq(), Imports(), gram.NamesDiffer()]
    for x in cs:
        x.w = w
    w.theory = comp.theory(w) + trav.theory(w) + isin_axioms() + axioms() + names_lemmas()
    w.lemma_axioms = seq_axioms() + TH.agree_axioms(fns, folds) + comp.theory(w) + \
        trav.theory(w) + isin_axioms()
    return w


def lemmas(w):
    from . import gates
    return [l for l in gates.lemmas(w) if l.name.startswith("a name is listed")]
