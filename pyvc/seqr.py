"""Sequence rules (C15)."""
import z3
from .model import *
from . import theory as TH
from .theory import HEAPS, HeapS, Fold, SpecFn, AllQ, sel, tupit
from .world import Contract, Ctx, World, CONCRETE
from .engine import T, Cand
from . import comp, trav, gram
from .gram import rtext, rx, act
from .gates import MATCH_FIELDS

SV = z3.StringVal
JOIN = comp.JOIN
# whether an expansion holds dictation and nothing else
onlydict = SpecFn("only_dictation", "comp", [], Bool)
cm = lambda H, k: sel(H, "_current_match")[V.r(k)]
allm = AllQ("all_parts_matched", "cur", [], lambda H, k: cm(H, k) != NONE)
mfold = Fold("matches_of_parts", "cur", [], SeqV, lambda H: EMPTY,
             lambda H, a, k: Cat(a, Unit(cm(H, k))))
FNS, FOLDS = [onlydict], [allm, mfold]
REPS = "_repetitions_matched"
TOUCHED = MATCH_FIELDS + ("_use_current_match", REPS)
OPEN = {f: None for f in TOUCHED + ("dval", "dhas", "dkeys")}


def kept(c, fields, what):
    q = z3.Int("q!sk")
    out = []
    for f in fields:
        a, b = c.eng.arr(c.post, f), c.eng.arr(c.pre, f)
        if not a.eq(b):
            out.append(z3.ForAll([q], z3.Implies(z3.And(0 < q, q < c.n0), a[q] == b[q]),
                                 patterns=[a[q]]))
    return (what, z3.And(out) if out else z3.BoolVal(True))


# ------------------------------------------------------------------- what is matched
def forgot(w, x, m):
    """m is the match of expansion x after forgetting"""
    isc = lambda n: typ(x) == w.prog.classes[n].id
    return z3.If(isc("NullRef"), m == vs(""), z3.If(isc("VoidRef"), m == NONE,
                                                    z3.Or(m == NONE, m == vs(""))))


class IsOptional(Contract):
    cls, member, kind = "Expansion", "is_optional", "get"
    params = ("self",)
    types = {"self": "@Expansion"}
    ret_type = "B"
    by_body = True

    def reads(self, c):
        return [c.old("_parent", c.ref("self"))]


class CurrentMatchGet(Contract):
    cls, member, kind = "Expansion", "current_match", "get"
    params = ("self",)
    types = {"self": "@Expansion"}
    ret_type = "None|S"
    by_body = True

    def reads(self, c):
        return [c.old("_current_match", c.ref("self"))]

    def ensures(self, c):
        return [("the stored match", c.ret == c.old("_current_match", c.ref("self")))]


class CurrentMatchSet(Contract):
    cls, member, kind = "Expansion", "current_match", "set"
    params = ("self", "value")
    types = {"self": "@Expansion", "value": "None|S"}
    allocates = True
    touch = {"_current_match": lambda c: [c.ref("self")]}

    def reads(self, c):
        return [c.old("_parent", c.ref("self"))]

    def ensures(self, c):
        m = c.new("_current_match", c.ref("self"))
        return [("the match is a string or nothing", z3.Or(m == NONE, V.is_S(m))),
                ("None forgets the match", z3.Implies(
                    c.a["value"] == NONE, forgot(self.w, c.ref("self"), m)))]


class ResetMatchData(Contract):
    cls, member = "Expansion", "reset_match_data"
    params = ("self",)
    types = {"self": "@Expansion"}
    ret_type = "None"
    allocates = True
    touch = {f: (lambda c: [c.ref("self")]) for f in (
        "_current_match", "_matching_slice", REPS)}

    def ensures(self, c):
        x = c.ref("self")
        return [("the match is forgotten", forgot(
            self.w, x, c.new("_current_match", x))),
            ("the position is forgotten", c.new("_matching_slice", x) == NONE)]


class ExpansionMatches(Contract):
    """(assumed) matching writes the matching state only"""
    cls, member = "Expansion", "matches"
    params = ("self", "speech")
    types = {"self": "@Expansion", "speech": "S"}
    ret_type = "S"
    allocates = True
    trusted = True
    touch = OPEN


class ResetForNewMatch(Contract):
    cls, member = "Expansion", "reset_for_new_match"
    params = ("self",)
    types = {"self": "@Expansion"}
    ret_type = "None"
    allocates = True
    by_body = True
    touch = OPEN
    raises = ("GrammarError", "TypeError", "JSGFImportError")


# ---------------------------------------------------------------------------- rules
class RuleMatches(Contract):
    """Rule.matches as called by its subclasses"""
    fn = "jsgf.rules.Rule.matches"
    params = ("rule", "speech")
    types = {"rule": "@Rule", "speech": "S"}
    ret_type = "B"
    allocates = True
    touch = OPEN
    raises = ("GrammarError", "TypeError", "JSGFImportError")

    def reads(self, c):
        r = c.ref("rule")
        return [c.old(f, r) for f in ("_expansion", "_active")]

    def ensures(self, c):
        on = c.old("_active", c.ref("rule")) == vb(True)
        return [("a disabled rule does not match", z3.Implies(
            z3.Not(on), c.ret == vb(False)))]


class RuleCompile(gram.RuleCompile):
    """(proved as Rule.compile in C02) as called by its subclasses"""
    cls, member = None, None
    fn = "jsgf.rules.Rule.compile"
    trusted = True


class SetExpansion(Contract):
    cls, member, kind = "Rule", "expansion", "set"
    params = ("self", "value")
    types = {"self": "@Rule", "value": "@Expansion"}
    allocates = True
    by_body = True
    touch = {"_expansion": lambda c: [c.ref("self")], "rule": None,
             "_matcher_element": None}

    def reads(self, c):
        return [c.old("_expansion", c.ref("self"))]

    def ensures(self, c):
        return [("the rule's expansion is the given one",
                 c.new("_expansion", c.ref("self")) == c.a["value"])]


class OnlyDictation(Contract):
    """(assumed) a function of the tree"""
    fn = "jsgf.ext.expansions.only_dictation_in_expansion"
    params = ("e",)
    types = {"e": "@Expansion"}
    ret_type = "B"
    trusted = True
    allocates = True

    def ensures(self, c):
        return [("", c.ret == V.B(onlydict(c.H("comp"), c.ref("e"))))]


class Seq(Contract):
    """of a sequence rule whose current expansion is the one at its position"""
    cls = "SequenceRule"
    params = ("self",)
    types = {"self": "@SequenceRule"}
    by_body = True
    FIELDS = ("_sequence", "_current_index", "_refuse_matches", "_expansion",
              "_original_expansion")

    def reads(self, c):
        return [c.old(f, c.ref("self")) for f in self.FIELDS] + \
            [c.old("_active", c.ref("self"))]

    def seq(self, c):
        return tupit(V.r(c.old("_sequence", c.ref("self"))))

    def at(self, c, when="pre"):
        return V.i(c.eng.get(c.pre if when == "pre" else c.post, "_current_index",
                             c.ref("self")))

    def inv(self, c, when="pre"):
        st = c.pre if when == "pre" else c.post
        i, x = self.at(c, when), c.ref("self")
        q = tupit(V.r(c.eng.get(st, "_sequence", x)))
        return z3.And(0 <= i, i < slen(q),
                      c.eng.get(st, "_expansion", x) == sat_(q, i))

    def requires(self, c):
        return [("the current expansion is the one at the position", self.inv(c))]

    def steady(self, c):
        return [("the current expansion is the one at the position", self.inv(c, "post"))]

    def ref_(self, c):
        return c.old("_refuse_matches", c.ref("self")) == vb(True)


class RefuseGet(Seq):
    member, kind, ret_type = "refuse_matches", "get", "B"

    def requires(self, c):
        return []

    def ensures(self, c):
        return [("whether matches are refused", c.ret == c.old(
            "_refuse_matches", c.ref("self")))]


class RefuseSet(Seq):
    member, kind = "refuse_matches", "set"
    params = ("self", "value")
    types = {"self": "@SequenceRule", "value": "B"}
    touch = {"_refuse_matches": lambda c: [c.ref("self")]}

    def requires(self, c):
        return []

    def ensures(self, c):
        return [("the value is stored", c.new("_refuse_matches", c.ref("self")) ==
                 c.a["value"])]


class HasNext(Seq):
    member, kind, ret_type = "has_next_expansion", "get", "B"

    def ensures(self, c):
        return [("true exactly if this is not the last expansion",
                 c.ret == V.B(self.at(c) < slen(self.seq(c)) - 1))]


class Parts(Seq):
    member, kind = "expansion_sequence", "get"
    field, what = "_sequence", "the expansions of the sequence"

    def ensures(self, c):
        return [(self.what, c.ret == c.old(self.field, c.ref("self")))]


class Original(Parts):
    member, field, what = "original_expansion", "_original_expansion", \
        "the expansion the rule was made of"


class DictationOnly(Seq):
    member, kind, ret_type = "current_is_dictation_only", "get", "B"
    allocates = True

    def ensures(self, c):
        return [("whether the current expansion is only dictation", c.ret == V.B(
            onlydict(c.H("comp"), V.r(c.old("_expansion", c.ref("self"))))))]


class Move(Seq):
    allocates = True
    ret_type = "None"
    touch = {"_expansion": lambda c: [c.ref("self")], "rule": None,
             "_matcher_element": None, "_current_index": lambda c: [c.ref("self")],
             "_refuse_matches": lambda c: [c.ref("self")]}


class SetNext(Move):
    member = "set_next"

    def ensures(self, c):
        i, j = self.at(c), self.at(c, "post")
        more = i < slen(self.seq(c)) - 1
        r = c.ref("self")
        return self.steady(c) + [
            ("advances by one", z3.Implies(more, j == i + 1)),
            ("never goes beyond the last expansion", z3.Implies(z3.Not(more), j == i)),
            ("matches are accepted after advancing", z3.Implies(
                more, c.new("_refuse_matches", r) == vb(False))),
            ("at the end nothing changes", z3.Implies(
                z3.Not(more), z3.And([c.new(f, r) == c.old(f, r) for f in (
                    "_refuse_matches", "_expansion")])))]


class Restart(Move):
    member = "restart_sequence"
    touch = dict(Move.touch, _current_match=None, _matching_slice=None,
                 _repetitions_matched=None)

    def forgotten(self, c, st, seq, i):
        j = z3.Int("j!fg")
        x = V.r(sat_(seq, j))
        m, p = c.eng.arr(st, "_current_match"), c.eng.arr(st, "_matching_slice")
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.And(
            forgot(self.w, x, m[x]), p[x] == NONE)), patterns=[sat_(seq, j)])

    def ensures(self, c):
        return self.steady(c) + [
            ("back at the first expansion", self.at(c, "post") == 0),
            ("matches are accepted again", c.new("_refuse_matches", c.ref("self")) ==
             vb(False)),
            ("every part's match is forgotten", self.forgotten(
                c, c.post, self.seq(c), slen(self.seq(c))))]

    def extra_cands(self, c, ctx):
        return [Cand("the matches so far are forgotten", lambda e, s0, s, i, q: None if q
                     is None else self.forgotten(c, s, q, i))]


class EntireMatch(Seq):
    member, kind, ret_type = "entire_match", "get", "None|S"
    allocates = True

    def ensures(self, c):
        q, H = self.seq(c), c.H("cur")
        return [("the matches of the parts joined by spaces, or None if a part has none",
                 c.ret == z3.If(allm(H, q, slen(q)),
                                V.S(JOIN(SV(" "), mfold(H, q, slen(q)))), NONE))]

    def fold_terms(self, c):
        return [(mfold, c.H("cur"), []), (allm, c.H("cur"), [])]

    def folds(self, c):
        H = c.H("cur")
        return [("matches", lambda q, i: mfold(H, q, i))]

    def extra_cands(self, c, ctx):
        q, H = self.seq(c), c.H("cur")
        out = [Cand("the parts so far are matched", lambda e, s0, s, i, _: allm(H, q, i))]
        j = z3.Int("j!em")
        for w in ctx.writes.get("items", []):
            w = simp(w)
            if not c.eng.loop_invariant_term(w, ctx):
                continue

            def f(e, s0, s, i, seq, w=w):
                if seq is None:
                    return None
                a, b = e.items(s0, w), e.items(s, w)
                y = sat_(b, j)
                return z3.And(slen(b) == slen(a) + i, z3.Implies(
                    slen(a) == 0, z3.ForAll([j], z3.Implies(z3.And(
                        0 <= j, j < i), y == V.B(sat_(seq, j) != NONE)), patterns=[y])))
            out.append(Cand("list@%s: which are matched" % w, f))
        return out


class Graft(Contract):
    """gives the original expansion what the parts matched"""
    fn = "jsgf.ext.rules.SequenceRule.graft_sequence_matches"
    params = ("sequence_rule", "expansion")
    types = {"sequence_rule": "@SequenceRule", "expansion": "@Expansion"}
    allocates = True
    raises = ("GrammarError", "TypeError", "JSGFImportError", "ValueError")
    touch = OPEN

    def reads(self, c):
        return [c.old("_sequence", c.ref("sequence_rule"))]

    def extra_cands(self, c, ctx):
        out = []
        j = z3.Int("j!gr")
        d = c.eng.prog.classes["Dictation"].id
        for w in ctx.writes.get("items", []):
            w = simp(w)
            if c.eng.loop_invariant_term(w, ctx):
                def f(e, s0, s, i, q, w=w):
                    y = sat_(e.items(s, w), j)
                    return z3.ForAll([j], z3.Implies(
                        z3.And(0 <= j, j < slen(e.items(s, w))),
                        typ(V.r(y)) == d), patterns=[y])
                out.append(Cand("list@%s holds dictation only" % w, f))

                def g(e, s0, s, i, q, w=w):
                    y = sat_(e.items(s, w), j)
                    return z3.ForAll([j], z3.Implies(
                        z3.And(0 <= j, j < slen(e.items(s, w))),
                        e.arr(s, "_current_match")[V.r(y)] != NONE), patterns=[y])
                out.append(Cand("list@%s holds matched parts only" % w, g))
        return out


class Matches(Seq):
    member, ret_type = "matches", "B"
    params = ("self", "speech")
    types = {"self": "@SequenceRule", "speech": "S"}
    allocates = True
    raises = ("GrammarError", "TypeError", "JSGFImportError", "ValueError")
    touch = dict(OPEN, _refuse_matches=lambda c: [c.ref("self")])

    def ensures(self, c):
        r = c.ref("self")
        on = c.old("_active", r) == vb(True)
        return self.steady(c) + [
            ("refuses to match", z3.Implies(self.ref_(c), c.ret == vb(False))),
            ("refusing changes nothing", z3.Implies(self.ref_(c), kept(
                c, sorted(self.touch), "")[1])),
            ("a disabled rule does not match", z3.Implies(z3.Not(on),
                                                          c.ret == vb(False))),
            ("further matches are refused", c.new("_refuse_matches", r) == vb(True))]

    def ensures_exc(self, c):
        return self.steady(c) + [("raises only while matches are accepted",
                                  z3.Not(self.ref_(c)))]


class Compile(Seq):
    member, ret_type = "compile", "S"
    params = ("self", "ignore_tags")
    defaults = {"ignore_tags": False}
    types = {"self": "@SequenceRule", "ignore_tags": "B"}
    allocates = True
    raises = gram.RuleCompile.raises
    touch = gram.RuleCompile.touch

    def requires(self, c):
        return Seq.requires(self, c) + [("the current expansion is a finite tree",
                                         comp.tree(c.H("comp"), rx(c.H("rule"), c.ref(
                                             "self"))))]

    def hidden(self, c):
        return z3.Or(self.ref_(c), onlydict(c.H("comp"), rx(c.H("rule"), c.ref("self"))))

    def ensures(self, c):
        return self.steady(c) + [
            ("nothing while refused or only dictation, else the definition of the rule "
             "with its current expansion", c.ret == z3.If(
                 self.hidden(c), vs(""), V.S(rtext(
                     c.H("rule"), c.H("comp"), c.ref("self"), z3.BoolVal(False),
                     V.b(c.a["ignore_tags"])))))]

    def ensures_exc(self, c):
        return self.steady(c) + [("raises only if the expansion is to be compiled",
                                  z3.Not(self.hidden(c)))]


class SeqWorld(gram.GramWorld):
    stored_tuples = True

    def field_types(self, eng):
        out = gram.GramWorld.field_types(self, eng)
        out.update(_sequence=self.ty("=tuple:SEQ"), _current_index=self.ty("I"),
                   _refuse_matches=self.ty("B"), _can_repeat=self.ty("B"),
                   _original_expansion=self.ty("@Expansion"),
                   _use_current_match=self.ty("B"))
        return out

    def read_facts(self, eng, st, f, r, t):
        out = gram.GramWorld.read_facts(self, eng, st, f, r, t)
        if f == "_sequence":
            j = z3.Int("j!sq")
            e = sat_(tupit(V.r(t)), j)
            out.append(z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < slen(tupit(V.r(t)))),
                z3.And(self.isref(e, "Expansion"), 0 < V.r(e), V.r(e) < st.next)),
                patterns=[e]))
        return out

    def list_roles(self, eng):
        return dict(gram.GramWorld.list_roles(self, eng), SEQ=self.ty("@Expansion"))

    def fields_of(self, cls):
        out = gram.GramWorld.fields_of(self, cls)
        if cls.issub(self.prog.classes["SequenceRule"]):
            out = sorted(out + ["_sequence", "_current_index", "_refuse_matches",
                                "_can_repeat", "_original_expansion"])
        if cls.issub(self.prog.classes["Dictation"]):
            out = sorted(out + ["_use_current_match"])
        return out

    def loop_facts(self, eng, st0, seq, i):
        return gram.GramWorld.loop_facts(self, eng, st0, seq, i) + (
            eng.elem_facts(st0, seq) if z3.is_expr(seq) else [])


def each_axioms():
    """the matches of the first n parts, one for each (proved below)"""
    H, s = z3.Const("H!ea", HeapS), z3.Const("s!ea", SeqV)
    n, j = z3.Ints("n!ea j!ea")
    q = mfold(H, s, n)
    return [z3.ForAll([H, s, n], z3.Implies(z3.And(0 <= n, n <= slen(s)), slen(q) == n),
                      patterns=[q]),
            z3.ForAll([H, s, n, j], z3.Implies(
                z3.And(0 <= j, j < n, n <= slen(s)),
                sat_(q, j) == cm(H, sat_(s, j))), patterns=[sat_(q, j)])]


def world(prog):
    fns, folds = comp.FNS + trav.FNS + FNS, comp.FOLDS + trav.FOLDS + FOLDS
    mine = [IsOptional(), CurrentMatchGet(), CurrentMatchSet(), ResetMatchData(),
            ExpansionMatches(), ResetForNewMatch(), RuleMatches(), RuleCompile(),
            SetExpansion(), OnlyDictation(), RefuseGet(), RefuseSet(), HasNext(), Parts(),
            Original(), DictationOnly(), SetNext(), Restart(), EntireMatch(), Graft(), Matches(),
            Compile()]
    w = SeqWorld(prog, mine + [comp.InvalidateMatcher(), comp.Compile()] +
                 trav.CONTRACTS, fns, folds, [],
                 concrete={"Rule": CONCRETE["Rule"],
                           "SequenceRule": ["SequenceRule", "PublicSequenceRule",
                                            "PrivateSequenceRule"],
                           "Grammar": ["Grammar", "RootGrammar"]})
    for x in mine:
        x.w = w
    w.variants = []
    base = comp.theory(w) + trav.theory(w)
    w.theory = base + each_axioms()
    w.lemma_axioms = seq_axioms() + TH.agree_axioms(fns, folds) + base
    return w


def lemmas(w):
    from .solve import Lemma
    H, s = z3.Const("H!ea", HeapS), z3.Const("s!ea", SeqV)
    i, j = z3.Ints("i!ea j!ea")
    q = lambda t: mfold(H, s, t)
    z = z3.IntVal(0)

    def each(t):
        return z3.And(slen(q(t)) == t, z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < t), sat_(q(t), j) == cm(H, sat_(s, j))),
            patterns=[sat_(q(t), j)]))
    return [Lemma("the matches of the parts, one for each", [
        ("base", mfold.unfold(H, [], s, z), each(z)),
        ("step", mfold.unfold(H, [], s, i + 1) + [0 <= i, i < slen(s), each(i)],
         each(i + 1))], w.lemma_axioms)]
