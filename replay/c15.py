"""Sequence rules over random expansions with dictation, driven by random histories of
matching (fitting and unfitting speech), advancing, restarting, enabling and disabling,
against a model of position, refusal and the matches of the parts."""
import random
from lib import *

LIMIT = 5000
KNOWN = []


def rand(rng):
    parts = []
    for i in range(rng.randint(1, 4)):
        parts.append(rng.choice([
            N("dict"), N("lit", x="w%d" % i), N("lit", x="Two words"),
            N("alt", N("lit", x="x%d" % i), N("lit", x="y")),
            N("req", N("lit", x="p%d" % i), N("lit", x="q")), N("seq", N("lit", x="s"), N(
                "dict"))]))
        if rng.random() < .3:
            parts[-1] = dict(parts[-1], tag="t%d" % i)
    d = N(rng.choice(["seq", "seq", "req"]), *parts)
    if rng.random() < .2:
        d = N("rep", d)
    return {"d": d, "cls": rng.choice(["S", "Pub", "Priv"]), "ops": [rng.choice([
        "next", "next", "good", "good", "bad", "again", "restart", "dis", "en", "compile"])
        for _ in range(rng.randint(1, 9))], "seed": rng.randint(0, 99),
        "inst": rng.random() < .5}


def fixed():
    for d in (N("seq", N("dict"), N("lit", x="a")), N("seq", N("lit", x="a"), N("dict")),
              N("seq", N("lit", x="a"), N("dict"), N("lit", x="b"), N("dict")), N("dict"),
              N("lit", x="a"), N("rep", N("seq", N("lit", x="a"), N("dict")))):
        for cls in ("S", "Pub", "Priv"):
            for ops in (["good", "next", "good", "next", "good"], ["next"] * 6,
                        ["good", "restart", "good"], ["bad", "good"], ["good", "next",
                                                                      "restart"],
                        ["dis", "good", "en", "good"], ["next", "restart", "next"]):
                for inst in (False, True):
                    yield {"d": d, "cls": cls, "ops": ops, "seed": 1, "inst": inst}


def phrase(e, rng):
    if isinstance(e, DX.Dictation):
        return rng.choice(["some", "thing else"])
    if isinstance(e, X.Literal):
        return e.text
    if isinstance(e, X.AlternativeSet):
        return phrase(rng.choice(list(e.children)), rng)
    return " ".join(phrase(c, rng) for c in e.children)


def check(case):
    rng = random.Random(case["seed"])
    random.seed(case["seed"])
    from jsgf.ext import SequenceRule, PublicSequenceRule, PrivateSequenceRule
    e = build(case["d"])
    orig = shape(e)
    try:
        r = SequenceRule("s", True, e) if case["cls"] == "S" else (
            PublicSequenceRule if case["cls"] == "Pub" else PrivateSequenceRule)("s", e)
    except ER.GrammarError:
        return
    same(r.visible, case["cls"] != "Priv", "visible")
    same(shape(r.original_expansion), orig, "original expansion")
    seq = r.expansion_sequence
    need(len(seq) > 0, "empty sequence")
    tags = {n["tag"] for n in nodes(case["d"]) if n.get("tag")}
    pos, refuse, active = 0, False, True

    def look(what):
        need(r.expansion is seq[pos], "current expansion after %s is %s, expected %s", what,
             r.expansion, seq[pos])
        need(r.expansion_sequence is seq or list(map(id, r.expansion_sequence)) == list(map(
            id, seq)), "sequence changed")
        same(bool(r.has_next_expansion), pos + 1 < len(seq), "has_next after " + what)
        same(bool(r.refuse_matches), refuse, "refuse_matches after " + what)
        same(bool(r.current_is_dictation_only), all(isinstance(x, DX.Dictation) for x in walk(
            seq[pos]) if not x.children), "current_is_dictation_only after " + what)
        ms = [x.current_match for x in seq]
        want = None if any(m is None for m in ms) else " ".join(ms)
        same(r.entire_match, want, "entire match after %s, parts %s" % (what, ms))
        same(set(r.tags), tags, "tags")
        text = r.compile()
        if refuse or not active or r.current_is_dictation_only:
            same(text, "", "text after " + what)
        else:
            want = seq[pos].compile()
            same(text, ("public " if r.visible else "") + "<s> = %s;" % want, "text")

    look("start")
    for o in case["ops"]:
        ms = [x.current_match for x in seq]
        if o == "next":
            r.set_next()
            if pos + 1 < len(seq):
                pos, refuse = pos + 1, False
            same([x.current_match for x in seq], ms, "matches of the parts after next")
        elif o == "restart":
            r.restart_sequence()
            pos, refuse = 0, False
            need(all(not x.current_match for x in seq), "matches kept after restarting: %s",
                 [x.current_match for x in seq])
            if not any(x.is_optional for x in seq):
                need(r.entire_match is None, "entire match kept after restarting")
        elif o in ("good", "bad", "again"):
            s = phrase(seq[pos], rng) if o == "good" else "zz 1!" if o == "bad" else "a"
            twin = RU.Rule("t", True, seq[pos].copy())
            for x, y in zip(walk(seq[pos]), walk(twin.expansion)):
                if isinstance(x, DX.Dictation):
                    y.use_current_match = x.use_current_match
            want = twin.matches(s)
            got = r.matches(s)
            if refuse or not active:
                need(got is False, "%s matches %r though it refuses matches", r, s)
                if refuse:
                    same([x.current_match for x in seq], ms, "parts after a refused match")
            else:
                need(bool(got) == bool(want), "matches(%r) of part %s is %s, on its own %s",
                     s, seq[pos], got, want)
                for k, x in enumerate(seq):
                    if k != pos:
                        same(x.current_match, ms[k], "match of part %d" % k)
            refuse = True
        elif o == "dis":
            r.disable()
            active = False
        elif o == "en":
            r.enable()
            active = True
        elif o == "compile":
            r.compile()
        look(o)
