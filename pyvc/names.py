"""Names (C10)."""
import z3
from .model import *
from . import theory as TH
from .world import Contract, Ctx, World, CONCRETE
from .engine import T, ClsV
from . import comp, trav, gram, tags

SV = z3.StringVal
STRIP = tags.STRIP
rx_ = lambda n: UF(n + ".matches", Str, Bool)
BASE, RESERVED, OQN = rx_("base_name"), rx_("reserved_names"), \
    rx_("optionally_qualified_name")
IMPORT, GRAMMAR = rx_("import_name"), rx_("grammar_name")
REFS = ["Import"] + CONCRETE["Grammar"] + CONCRETE["Rule"] + \
    ["NamedRuleRef", "RuleRef", "NullRef", "VoidRef"]


def okname(w, x, s):
    """s is a valid name for the object x"""
    cls = w.prog.classes
    plain = z3.Not(RESERVED(s))

    def isa(*ns):
        return z3.Or([typ(x) == cls[n].id for n in ns if n in cls])
    return z3.And(s == STRIP(s), z3.Or(
        z3.And(isa(*CONCRETE["Rule"]), BASE(s), plain),
        z3.And(isa("NamedRuleRef", "RuleRef"), OQN(s), plain),
        z3.And(isa("NullRef"), s == SV("NULL")),
        z3.And(isa("VoidRef"), s == SV("VOID")),
        z3.And(isa("Import"), IMPORT(s)),
        z3.And(isa(*CONCRETE["Grammar"]), GRAMMAR(s), plain)))


def kinds_of_value(w, p):
    i, f, b, s = z3.Int("arg.i"), z3.Real("arg.f"), z3.Bool("arg.b"), z3.Const("arg.s", Str)
    return {"a string": ({p: V.S(s)}, None), "None": ({p: NONE}, None),
            "an integer": ({p: V.I(i)}, None), "a float": ({p: V.F(f)}, None),
            "a boolean": ({p: V.B(b)}, None),
            "an expansion": ({}, lambda a: z3.And(
                V.is_R(a[p]), w().is_a(V.r(a[p]), "Expansion")))}


class NameGet(Contract):
    cls, member, kind = "BaseRef", "name", "get"
    params = ("self",)
    types = {"self": "@BaseRef"}
    ret_type = "S"

    def reads(self, c):
        return [c.old("_name", c.ref("self"))]

    def ensures(self, c):
        return [("the stored name", c.ret == c.old("_name", c.ref("self")))]


class NameSet(Contract):
    cls, member, kind = "BaseRef", "name", "set"
    params = ("self", "value")
    types = {"self": "@BaseRef"}
    raises = ("GrammarError",)
    touch = {"_name": lambda c: [c.ref("self")], "_matcher_element": None}
    raising_cases = ("None", "an integer", "a float", "a boolean", "an expansion")

    def cases(self):
        return kinds_of_value(lambda: self.w, "value")

    def ok(self, c):
        v = c.a["value"]
        return z3.And(V.is_S(v), okname(self.w, c.ref("self"), V.s(v)))

    def keeps(self, c):
        q = z3.Int("q!keep")
        e = self.w.is_a(c.ref("self"), "Expansion")
        return ("only references' matchers are forgotten", z3.Implies(
            z3.Not(e), z3.ForAll([q], z3.Implies(
                z3.And(q > 0, q < c.n0), c.new("_matcher_element", q) ==
                c.old("_matcher_element", q)),
                patterns=[c.new("_matcher_element", q)])))

    def ensures(self, c):
        return [("only a valid name is accepted", self.ok(c)),
                ("the name is kept unchanged", c.new("_name", c.ref("self")) ==
                 c.a["value"]), self.keeps(c)]

    def ensures_exc(self, c):
        return [("only invalid names are refused", z3.Not(self.ok(c))),
                ("the old name stays", c.new("_name", c.ref("self")) ==
                 c.old("_name", c.ref("self"))), self.keeps(c)]


class NewName(Contract):
    """constructors that take a name"""
    raises = ("GrammarError",)
    allocates = True
    touch = {"_matcher_element": None}
    raising_cases = NameSet.raising_cases
    ret_type = None

    def __init__(self, cls, extra=()):
        self.of = cls
        self.params = ("name",)
        self.extra = extra
        self.fn = "%s(name)" % cls

    def cases(self):
        return kinds_of_value(lambda: self.w, "name")

    def run(self, eng, st, vals):
        return eng.call(st, ClsV(eng.prog.classes[self.of]), list(vals), {})

    def ok(self, c, x):
        v = c.a["name"]
        return z3.And(V.is_S(v), okname(self.w, x, V.s(v)))

    def ensures(self, c):
        x = un("R", c.ret)
        return [("a new object of the class", z3.And(
            x >= c.n0, typ(x) == c.eng.prog.classes[self.of].id)),
            ("only a valid name is accepted", self.ok(c, x)),
            ("the name is kept unchanged", c.new("_name", x) == c.a["name"])]

    def ensures_exc(self, c):
        x = z3.Int("some!new")
        return [("only invalid names are refused", z3.Implies(
            typ(x) == c.eng.prog.classes[self.of].id, z3.Not(self.ok(c, x))))]


class NewConst(NewName):
    """constructors without a name"""

    def __init__(self, cls, name):
        NewName.__init__(self, cls)
        self.params = ()
        self.fn = "%s()" % cls
        self.const = name

    raises = ()

    def cases(self):
        return {"": ({}, None)}

    def requires(self, c):
        s = SV(self.const)
        return [("the fixed name has no whitespace around it", STRIP(s) == s)]

    def ensures(self, c):
        x = un("R", c.ret)
        return [("the fixed name", c.new("_name", x) == vs(self.const))]


class NameWorld(tags.TagWorld):
    def write_checks(self, eng, st, f, r, t):
        out = gram.GramWorld.write_checks(self, eng, st, f, r, t)
        return out


def world(prog):
    fns, folds = comp.FNS + trav.FNS + [tags.hadm], \
        comp.FOLDS + trav.FOLDS + tags.FOLDS
    ns = NameSet()
    new = [NewName("Import"), NewName("Grammar"), NewName("NamedRuleRef"),
           NewConst("NullRef", "NULL"), NewConst("VoidRef", "VOID")]
    w = NameWorld(prog, [NameGet(), ns, tags.TagGet(), comp.InvalidateMatcher()] +
                  trav.CONTRACTS, fns, folds, [], concrete={"BaseRef": REFS})
    for x in [ns] + new:
        x.w = w
    w.variants = new
    w.theory = comp.theory(w) + trav.theory(w) + gram.isin_axioms()
    w.lemma_axioms = seq_axioms() + TH.agree_axioms(fns, folds) + w.theory
    return w


def lemmas(w):
    return []
