"""Disabled and hidden rules (C12)."""
import z3
from .model import *
from . import theory as TH
from .theory import HEAPS, HeapS, Fold, AllQ, SpecFn, sel
from .world import Contract, Ctx, World
from .engine import T, Cand
from . import comp, trav, gram, tags
from .trav import finD, visD, unchanged
from .gram import vis, act, fvis, fR, isin, isin_axioms

SV = z3.StringVal
MATCH_FIELDS = ("_current_match", "_matching_slice", "_matcher_element",
                "_repetitions_matched", "_lookup_dict")

# what a rule matches on its own (a function of the rule and the speech)
alone = z3.Function("matches_alone", V, Str, Bool)
fmatch = Fold("matching", "rule", [Str], SeqV, lambda H, sp: EMPTY,
              lambda H, sp, a, k: z3.If(z3.And(vis(H, fR(k)), act(H, fR(k)), alone(k, sp)),
                                        Cat(a, Unit(k)), a))
finrules = AllQ("rules_finite", "rule", [HeapS], lambda H, Ht, k: finD(
    Ht, V.r(sel(H, "_expansion")[fR(k)])))


def ruletags(Hr, Ht, Hg, k):
    """the tags of rule k"""
    q = visD(Ht, V.r(sel(Hr, "_expansion")[fR(k)]), z3.BoolVal(True))
    t = tags.tagged(Hg, q, slen(q))
    return tags.tagof(Hg, t, slen(t))


def hastag(Hr, Ht, Hg, k, s):
    q = ruletags(Hr, Ht, Hg, k)
    return z3.And(s != SV(""), isin(q, slen(q), V.S(s)))


ftagged = Fold("having_the_tag", "rule", [HeapS, HeapS, Str], SeqV,
               lambda H, Ht, Hg, s: EMPTY,
               lambda H, Ht, Hg, s, a, k: z3.If(hastag(H, Ht, Hg, k, s),
                                                Cat(a, Unit(k)), a))
FOLDS = [fmatch, finrules, ftagged, fvis]


class Active(Contract):
    cls, member, kind = "Rule", "active", "get"
    params = ("self",)
    types = {"self": "@Rule"}
    ret_type = "B"

    def reads(self, c):
        return [c.old("_active", c.ref("self"))]

    def ensures(self, c):
        return [("whether the rule is enabled", c.ret == c.old("_active", c.ref("self")))]


class Enable(Contract):
    cls, member = "Rule", "enable"
    params = ("self",)
    types = {"self": "@Rule"}
    ret_type = "None"
    touch = {"_active": lambda c: [c.ref("self")]}
    to = True

    def ensures(self, c):
        return [("the rule is %s" % ("enabled" if self.to else "disabled"),
                 c.new("_active", c.ref("self")) == vb(self.to))]


class Disable(Enable):
    member = "disable"
    to = False


class Disabled(Contract):
    """of a disabled rule; nothing changes"""
    cls, variant = "Rule", "disabled"
    params = ("self",)
    types = {"self": "@Rule"}
    value, what = None, ""

    def requires(self, c):
        return [("the rule is disabled", c.old("_active", c.ref("self")) == vb(False))]

    def ensures(self, c):
        return [(self.what, c.ret == self.value)]


class DisabledMatches(Disabled):
    member = "matches"
    params = ("self", "speech")
    types = {"self": "@Rule", "speech": "S"}
    value, what = vb(False), "a disabled rule never matches"


class DisabledPart(DisabledMatches):
    member = "find_matching_part"
    value, what = NONE, "a disabled rule matches no part"


class DisabledGenerate(Disabled):
    member = "generate"
    value, what = vs(""), "a disabled rule generates nothing"


class DisabledRefGenerate(Contract):
    """of a reference to a disabled rule"""
    cls, variant, member = "NamedRuleRef", "to a disabled rule", "generate"
    params = ("self",)
    types = {"self": "@NamedRuleRef"}

    def requires(self, c):
        H, x = c.H("tree"), c.ref("self")
        return [("the reference names a rule of its grammar",
                 trav.resolvable(c.eng.spec, H, x)),
                ("that rule is disabled", sel(c.H("rule"), "_active")[
                    trav.rloc(H, x)] == vb(False))]

    def unfold_at(self, c):
        return [c.ref("self")]

    def ensures(self, c):
        return [("a reference to a disabled rule generates nothing", c.ret == vs(""))]


class DisabledCompile(Disabled):
    member = "compile"
    params = ("self", "ignore_tags")
    types = {"self": "@Rule", "ignore_tags": "B"}
    value, what = vs(""), "a disabled rule compiles to nothing"


class Matches(Contract):
    """(assumed for enabled rules) whether the rule matches on its own"""
    cls, member = "Rule", "matches"
    params = ("self", "speech")
    types = {"self": "@Rule", "speech": "S"}
    ret_type = "B"
    allocates = True
    trusted = True
    touch = {f: None for f in MATCH_FIELDS + ("dval", "dhas", "dkeys")}

    def reads(self, c):
        return [c.old("_active", c.ref("self"))]

    def ensures(self, c):
        Hr, r = c.H("rule"), c.ref("self")
        return [("", c.ret == V.B(z3.And(act(Hr, r), alone(V.R(r), V.s(c.a["speech"])))))]


class VisibleRules(gram.VisibleRules):
    pass


class MatchRules(gram.VisibleRules):
    member = "match_rules"
    kind = "get"


class RulesOf(Contract):
    """a list of rules of a grammar"""
    cls = "Grammar"
    ret_type = "=list"
    ret_elems = "@Rule"
    allocates = True
    touch = {f: None for f in MATCH_FIELDS + ("dval", "dhas", "dkeys")}

    def reads(self, c):
        return [c.old("_rules", c.ref("self"))]

    def rules(self, c):
        return c.eng.items(c.pre, V.r(c.old("_rules", c.ref("self"))))


class FindMatching(RulesOf):
    member = "find_matching_rules"
    params = ("self", "speech")
    types = {"self": "@Grammar", "speech": "S"}

    def ensures(self, c):
        src = self.rules(c)
        return [("exactly the enabled visible rules that match on their own, in order",
                 seq_eq(c.eng.items(c.post, un("R", c.ret)), fmatch(
                     c.H("rule"), V.s(c.a["speech"]), src, slen(src))))]

    def fold_terms(self, c):
        return [(fmatch, c.H("rule"), [V.s(c.a["speech"])]), (fvis, c.H("rule"), [])]

    def folds(self, c):
        H, s = c.H("rule"), V.s(c.a["speech"])
        return [("matching", lambda q, i: fmatch(H, s, q, i)),
                ("visible", lambda q, i: fvis(H, q, i))]


class FindTagged(RulesOf):
    member = "find_tagged_rules"
    params = ("self", "tag", "include_hidden")
    defaults = {"include_hidden": False}
    types = {"self": "@Grammar", "tag": "S", "include_hidden": "B"}
    touch = {f: None for f in ("dval", "dhas", "dkeys")}

    def cases(self):
        return {"all rules": ({"include_hidden": vb(True)}, None),
                "visible rules": ({"include_hidden": vb(False)}, None)}

    def requires(self, c):
        rs = self.rules(c)
        return [("every rule's tree is finite and its references resolve", finrules(
            c.H("rule"), c.H("tree"), rs, slen(rs)))]

    def ex(self, c):
        return [c.H("tree"), c.H("tag"), tags.STRIP(V.s(c.a["tag"]))]

    def ensures(self, c):
        src = self.rules(c)
        H, ex = c.H("rule"), self.ex(c)
        v = fvis(H, src, slen(src))
        q = c.eng.items(c.post, un("R", c.ret))
        return [("exactly the rules that have the tag, in order", z3.If(
            V.b(c.a["include_hidden"]), seq_eq(q, ftagged(H, *(ex + [src, slen(src)]))),
            seq_eq(q, ftagged(H, *(ex + [v, slen(v)])))))]

    def fold_terms(self, c):
        return [(ftagged, c.H("rule"), self.ex(c)), (fvis, c.H("rule"), [])]

    def folds(self, c):
        H, ex = c.H("rule"), self.ex(c)
        return [("having the tag", lambda q, i: ftagged(H, *(ex + [q, i]))),
                ("visible", lambda q, i: fvis(H, q, i))]

    def extra_cands(self, c, ctx):
        out = []
        if "dval" in ctx.fields:
            out.append(Cand("no dict changed so far", lambda e, s0, s, i, q: unchanged(
                e, c.pre, s, ("dval", "dhas", "dkeys"))))
        return out


class EnableRule(Contract):
    """enabling or disabling by name"""
    cls, member, variant = "Grammar", "enable_rule", "by name"
    params = ("self", "rule")
    types = {"self": "@Grammar", "rule": "S"}
    ret_type = "None"
    raises = ("GrammarError",)
    touch = {"_active": None, "dval": None, "dhas": None, "dkeys": None}
    to = True

    def reads(self, c):
        return [c.old("_rules", c.ref("self"))]

    def rules(self, c):
        return c.eng.items(c.pre, V.r(c.old("_rules", c.ref("self"))))

    def requires(self, c):
        return [("the name is a valid reference name", trav.okref(V.s(c.a["rule"])))]

    def known(self, c):
        rs = self.rules(c)
        return z3.Not(trav.named(c.H("tree"), c.a["rule"], rs, slen(rs)))

    def ensures(self, c):
        rs = self.rules(c)
        r = V.r(sat_(rs, trav.fidx(c.H("tree"), c.a["rule"], rs)))
        q = z3.Int("q!en")
        a, b = c.eng.arr(c.pre, "_active"), c.eng.arr(c.post, "_active")
        return [("the grammar has the rule", self.known(c)),
                ("exactly the first rule of that name is %s" % (
                    "enabled" if self.to else "disabled"), z3.And(
                    b[r] == vb(self.to), z3.ForAll([q], z3.Implies(
                        z3.And(0 < q, q < c.n0, q != r), b[q] == a[q]), patterns=[b[q]])))]

    def ensures_exc(self, c):
        q = z3.Int("q!en")
        a, b = c.eng.arr(c.pre, "_active"), c.eng.arr(c.post, "_active")
        return [("raises only if no rule has the name", z3.Not(self.known(c))),
                ("nothing changes then", z3.ForAll([q], z3.Implies(
                    z3.And(0 < q, q < c.n0), b[q] == a[q]), patterns=[b[q]]))]

    def fold_terms(self, c):
        return [(namesof, c.H("tree"), [])]

    def folds(self, c):
        return [("names", lambda q, i: namesof(c.H("tree"), q, i))]


class DisableRule(EnableRule):
    member = "disable_rule"
    to = False


namesof = Fold("names_of", "tree", [], SeqV, lambda H: EMPTY,
               lambda H, a, k: Cat(a, Unit(sel(H, "_name")[V.r(k)])))
FOLDS.append(namesof)


class RuleNames(trav.GrammarRules):
    member = "rule_names"
    ret_elems = "S"

    def result(self, eng, c):
        return trav.new_list_result(eng, c, "S")

    def ensures(self, c):
        q = c.eng.items(c.post, un("R", c.ret))
        src = c.eng.items(c.pre, V.r(c.old("_rules", c.ref("self"))))
        return [("the names of the rules in order",
                 seq_eq(q, namesof(c.H("tree"), src, slen(src)))),
                ("a new list", z3.And(un("R", c.ret) >= c.n0))]

    def fold_terms(self, c):
        return [(namesof, c.H("tree"), [])]

    def folds(self, c):
        return [("names", lambda q, i: namesof(c.H("tree"), q, i))]


def names_lemmas():
    """a name is listed exactly if some rule has it"""
    H, s, v = z3.Const("H!nm", HeapS), z3.Const("s!nm", SeqV), z3.Const("v!nm", V)
    i, n = z3.Ints("i!nm n!nm")
    q = namesof(H, s, i)
    return [z3.ForAll([H, s, i], z3.Implies(z3.And(0 <= i, i <= slen(s)), slen(q) == i),
                      patterns=[q]),
            z3.ForAll([H, s, i, n, v], z3.Implies(
                z3.And(0 <= i, i <= slen(s), n == slen(q)),
                isin(q, n, v) == z3.Not(trav.named(H, v, s, i))),
                patterns=[isin(q, n, v)])]


def visible_lemmas():
    """looking at the visible rules only"""
    H, Ht, q = z3.Const("H!vl", HeapS), z3.Const("T!vl", HeapS), z3.Const("q!vl", SeqV)
    sp, i, n = z3.Const("s!vl", Str), z3.Int("i!vl"), z3.Int("n!vl")
    v = fvis(H, q, i)
    ok = z3.And(0 <= i, i <= slen(q), n == slen(v))
    return [z3.ForAll([H, q, i, n, sp], z3.Implies(
        ok, fmatch(H, sp, v, n) == fmatch(H, sp, q, i)), patterns=[fmatch(H, sp, v, n)]),
        z3.ForAll([H, Ht, q, i], z3.Implies(
            z3.And(0 <= i, i <= slen(q), finrules(H, Ht, q, i)),
            finrules(H, Ht, v, slen(v))),
            patterns=[z3.MultiPattern(v, finrules(H, Ht, q, i))])]


def world(prog):
    fns, folds = comp.FNS + trav.FNS + [tags.hadm], \
        comp.FOLDS + trav.FOLDS + tags.FOLDS + FOLDS
    base = [x for x in trav.CONTRACTS if not isinstance(x, trav.MatchRules)]
    w = tags.TagWorld(prog, [
        Active(), Enable(), Disable(), Matches(), VisibleRules(), MatchRules(),
        FindMatching(), FindTagged(), RuleNames(),
        tags.TagGet(), tags.Tags(), tags.HasTag()] + base, fns, folds, [],
        concrete=gram.PLAIN)
    w.variants = [DisabledMatches(), DisabledPart(), DisabledGenerate(),
                  DisabledRefGenerate(),
                  DisabledCompile(), EnableRule(), DisableRule()]
    w.lemma_axioms = seq_axioms() + TH.agree_axioms(fns, folds) + comp.theory(w) + \
        trav.theory(w) + isin_axioms()
    w.theory = comp.theory(w) + trav.theory(w) + isin_axioms() + \
        TH.snoc_axioms(tags.tagof) + names_lemmas() + \
        visible_lemmas()
    return w


def lemmas(w):
    H, s, v = z3.Const("H!nq", HeapS), z3.Const("s!nq", SeqV), z3.Const("v!nq", V)
    i, j = z3.Ints("i!nq j!nq")
    q = lambda t: namesof(H, s, t)
    z = z3.IntVal(0)
    from .solve import Lemma

    def each(t):
        return z3.And(slen(q(t)) == t, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < t), sat_(q(t), j) == sel(H, "_name")[V.r(sat_(s, j))]),
            patterns=[sat_(q(t), j)]))
    Ht, sp, n = z3.Const("T!nq", HeapS), z3.Const("sp!nq", Str), z3.Int("n!nq")
    v_ = lambda t: fvis(H, s, t)
    mm = lambda t: fmatch(H, sp, v_(t), slen(v_(t))) == fmatch(H, sp, s, t)
    ff = lambda t: finrules(H, Ht, v_(t), slen(v_(t)))
    return [TH.snoc_lemma(tags.tagof, w.lemma_axioms),
            TH.snoc_lemma(fmatch, w.lemma_axioms),
            Lemma("matching rules are visible", [
                ("base", fvis.unfold(H, [], s, z), mm(z)),
                ("step", fvis.unfold(H, [], s, i + 1) + fmatch.unfold(H, [sp], s, i + 1) +
                 [0 <= i, i < slen(s), mm(i)], mm(i + 1))],
                w.lemma_axioms + TH.snoc_axioms(fmatch)),
            Lemma("visible rules are finite", [
                ("base", fvis.unfold(H, [], s, z), ff(z)),
                ("step", fvis.unfold(H, [], s, i + 1) +
                 [0 <= i, i < n, n <= slen(s), finrules(H, Ht, s, n), ff(i),
                  sat_(s, i) == sat_(s, i)], ff(i + 1))], w.lemma_axioms),
            Lemma("a name is listed exactly if some rule has it", [
                ("base", namesof.unfold(H, [], s, z), each(z)),
                ("step", namesof.unfold(H, [], s, i + 1) + [0 <= i, i < slen(s), each(i)],
                 each(i + 1)),
                ("listed", [0 <= i, i <= slen(s), each(i), isin(q(i), i, v)],
                 z3.Not(trav.named(H, v, s, i))),
                ("not listed", [0 <= i, i <= slen(s), each(i), 0 <= j, j < i,
                                sel(H, "_name")[V.r(sat_(s, j))] == v,
                                sat_(q(i), j) == sat_(q(i), j), gram.see(
                                    isin(q(i), i, v)), gram.see(
                                    sat_(q(i), j) == v)],
                 isin(q(i), i, v))], w.lemma_axioms)]
