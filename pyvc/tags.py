"""Tags (C14)."""
import z3
from .model import *
from . import theory as TH
from .theory import HEAPS, HeapS, Fold, SpecFn, sel
from .solve import Lemma
from .world import Contract, Ctx, World
from .engine import T, Cand
from . import comp, trav, gram
from .trav import finD, visD, unchanged
from .gram import isin, isin_axioms, see

STRIP = UF("str.strip", Str, Str)
SV = z3.StringVal
tag = lambda H, k: sel(H, "_tag")[V.r(k)]
has = lambda H, k: tag(H, k) != vs("")
hadm = SpecFn("had_match", "match", [], Bool)
tagged = Fold("tagged", "tag", [], SeqV, lambda H: EMPTY,
              lambda H, a, k: z3.If(has(H, k), Cat(a, Unit(k)), a))
tmatched = Fold("tagged_and_matched", "match", [], SeqV, lambda H: EMPTY,
                lambda H, a, k: z3.If(z3.And(has(H, k), hadm(H, V.r(k))),
                                      Cat(a, Unit(k)), a))
tagof = Fold("tag_of_each", "tag", [], SeqV, lambda H: EMPTY,
             lambda H, a, k: Cat(a, Unit(tag(H, k))))
FOLDS = [tagged, tagof, tmatched]


class TagGet(Contract):
    cls, member, kind = "Expansion", "tag", "get"
    params = ("self",)
    types = {"self": "@Expansion"}
    ret_type = "S"

    def reads(self, c):
        return [c.old("_tag", c.ref("self"))]

    def ensures(self, c):
        return [("the stored tag", c.ret == c.old("_tag", c.ref("self")))]


class TagSet(Contract):
    cls, member, kind = "Expansion", "tag", "set"
    params = ("self", "value")
    types = {"self": "@Expansion"}
    raises = ("TypeError",)
    touch = {"_tag": lambda c: [c.ref("self")]}

    def cases(self):
        z = z3.IntVal
        i, f, b, s = z3.Int("arg.i"), z3.Real("arg.f"), z3.Bool("arg.b"), \
            z3.Const("arg.s", Str)
        return {"None": ({"value": NONE}, None), "a string": ({"value": V.S(s)}, None),
                "an integer": ({"value": V.I(i)}, None),
                "a float": ({"value": V.F(f)}, None),
                "a boolean": ({"value": V.B(b)}, None),
                "an expansion": ({}, lambda a: z3.And(
                    V.is_R(a["value"]), self.w.is_a(V.r(a["value"]), "Expansion")))}
    raising_cases = ("an expansion",)

    def falsy(self, v):
        return z3.Or(v == NONE, v == V.S(SV("")), v == V.I(z3.IntVal(0)),
                     v == V.F(z3.RealVal(0)), v == vb(False))

    def ensures(self, c):
        v = c.a["value"]
        return [("only strings and empty values are accepted", z3.Or(
            V.is_S(v), self.falsy(v))),
            ("the tag is the stripped string, or empty",
             c.new("_tag", c.ref("self")) == z3.If(self.falsy(v), vs(""),
                                                   V.S(STRIP(V.s(v)))))]

    def ensures_exc(self, c):
        v = c.a["value"]
        return [("raises only for something else", z3.Not(z3.Or(V.is_S(v),
                                                                self.falsy(v)))),
                ("the tag stays", c.new("_tag", c.ref("self")) ==
                 c.old("_tag", c.ref("self")))]


class HadMatch(Contract):
    """(assumed) reading whether an expansion was matched changes nothing"""
    cls, member, kind = "Expansion", "had_match", "get"
    params = ("self",)
    types = {"self": "@Expansion"}
    ret_type = "B"
    trusted = True

    def ensures(self, c):
        return [("", c.ret == V.B(hadm(c.H("match"), c.ref("self"))))]


class Tags(Contract):
    cls, member, kind = "Rule", "tags", "get"
    params = ("self",)
    types = {"self": "@Rule"}
    ret_type = "=list"
    ret_elems = "S"
    allocates = True
    touch = {"dval": None, "dhas": None, "dkeys": None}
    pick = tagged
    what = "the tags of all tagged expansions, children first"

    def reads(self, c):
        return [c.old("_expansion", c.ref("self"))]

    def root(self, c):
        return V.r(c.old("_expansion", c.ref("self")))

    def requires(self, c):
        return [("the rule's tree is finite and its references resolve",
                 finD(c.H("tree"), self.root(c)))]

    def picked(self, c, q, n):
        return self.pick(c.H(self.pick.fam), q, n)

    def seq(self, c):
        q = visD(c.H("tree"), self.root(c), z3.BoolVal(True))
        t = self.picked(c, q, slen(q))
        return tagof(c.H("tag"), t, slen(t))

    def result(self, eng, c):
        return trav.new_list_result(eng, c, "S")

    def ensures(self, c):
        return [(self.what, seq_eq(c.eng.items(c.post, un("R", c.ret)), self.seq(c))),
                ("a new list", un("R", c.ret) >= c.n0),
                ("no dict that existed before is changed", unchanged(
                    c.eng, c.pre, c.post, ("dval", "dhas", "dkeys")))]

    def fold_terms(self, c):
        return [(F, c.H(F.fam), []) for F in FOLDS]

    def folds(self, c):
        return [(F.name, lambda q, i, F=F: F(c.H(F.fam), q, i)) for F in FOLDS] + \
            [("tags of the tagged", lambda q, i: tagof(c.H("tag"), self.picked(
                c, q, i), slen(self.picked(c, q, i))))]


class MatchedTags(Tags):
    member = "matched_tags"
    pick = tmatched
    what = "the tags of all tagged expansions that had a match, children first"


class HasTag(Contract):
    cls, member = "Rule", "has_tag"
    params = ("self", "tag")
    types = {"self": "@Rule", "tag": "S"}
    ret_type = "B"
    allocates = True
    touch = Tags.touch

    def reads(self, c):
        return [c.old("_expansion", c.ref("self"))]

    root = Tags.root
    requires = Tags.requires
    pick = tagged
    picked = Tags.picked
    seq = Tags.seq

    def ensures(self, c):
        q = self.seq(c)
        t = STRIP(V.s(c.a["tag"]))
        return [("true exactly if the stripped tag is one of the rule's tags",
                 c.ret == V.B(z3.And(t != SV(""), isin(q, slen(q), V.S(t)))))] + \
            [("no dict that existed before is changed", unchanged(
                c.eng, c.pre, c.post, ("dval", "dhas", "dkeys")))]

    def fold_terms(self, c):
        return Tags.fold_terms(self, c)

    def folds(self, c):
        return Tags.folds(self, c)


class TagWorld(gram.GramWorld):
    def member(self, eng, st, seq, t):
        if known_items(seq) is None and eng.kind(st, t) == "S":
            return isin(seq, slen(seq), t)
        return gram.GramWorld.member(self, eng, st, seq, t)


def world(prog):
    fns, folds = comp.FNS + trav.FNS + [hadm], comp.FOLDS + trav.FOLDS + FOLDS
    ts = TagSet()
    w = TagWorld(prog, [TagGet(), ts, HadMatch(), Tags(), MatchedTags(), HasTag()] +
                 trav.CONTRACTS, fns, folds, [], concrete=gram.PLAIN)
    ts.w = w
    w.variants = []
    w.theory = comp.theory(w) + trav.theory(w) + isin_axioms()
    w.lemma_axioms = seq_axioms() + TH.agree_axioms(fns, folds) + w.theory
    w.theory = w.theory + TH.snoc_axioms(tagof)
    return w


def lemmas(w):
    return [TH.snoc_lemma(tagof, w.lemma_axioms)]
