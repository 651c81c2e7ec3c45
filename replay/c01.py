"""Expansion trees (all small trees over four leaves, then random trees with tags,
weights, references, empty groupings and Dictation): the compiled text, with and without
tags, in either order and repeatedly, equals the JSGF text of the tree computed from the
case data; compiling changes nothing except that empty groupings come to hold <NULL>."""
from lib import *

LIMIT = 12000

KNOWN = [
    {"id": "C01-K1", "case": {"known": "hash", "d": N(
        "alt", N("seq", N("seq"), N("lit", x="a")), N("lit", x="b"), w=[1, 2]),
        "order": [False, False]},
     "what": "a weighted alternative that contains an empty grouping can be compiled "
             "only once: filling the grouping changes the key its weight is kept under"},
    {"id": "C01-K2", "case": {"known": "dict", "d": N(
        "seq", N("alt", N("dict"), N("lit", x="b"), w=[1, 2])), "order": [False]},
     "what": "weights of alternatives holding a Dictation are lost when the set gets "
             "a parent (a Dictation's hash depends on its ancestors)"},
]


def fixed():
    for d in small_trees(1):
        for o in ([False, True], [True, False, False]):
            yield {"d": d, "order": o}
    for t in GROUP:
        yield {"d": N(t), "order": [False, True]}
        yield {"d": N(t, N("lit", x="a"), tag="q\\{}"), "order": [True, False]}
        yield {"d": N("seq", N(t), N("lit", x="z")), "order": [False]}
    for g in TAGS + ["\\\\", "{{}}", "a\\b{c}d", "{", "\u00e9{"]:
        for t in LEAF:
            d = N(t, tag=g)
            if t == "lit":
                d["x"] = "Foo Bar"
            if t == "ref":
                d["n"] = "a.b.c"
            yield {"d": d, "order": [False, True, False]}
            yield {"d": N("alt", dict(d), N("lit", x="k"), tag=g), "order": [True, False]}
    for w in [0, 1, 0.5, 10, 1 / 3.0, 123456.789, 1e-9, 0.00005, 0.00004999]:
        yield {"d": N("alt", N("lit", x="a"), N("lit", x="b"), w=[w, 1]), "order": [False]}
        yield {"d": N("palt", N("lit", x="a", tag="g"), N("lit", x="b"), w=[w, 1],
                      tag="t"), "order": [True, False]}
    yield {"d": N("alt", N("lit", x="a"), N("lit", x="b"), w=[1, None]), "order": [False]}
    for d in small_trees(2, [N("lit", x="A"), N("null")], maxkids=2)[:2500]:
        yield {"d": d, "order": [False]}


def rand(rng):
    d = gen(rng, rng.randint(0, 4), leaves=("lit", "lit", "ref", "null", "void", "dict"),
            refs=("r", "g.r", "x.y.z"), empty=.08, cs=True, badlit=.01)
    return {"d": d, "order": [rng.random() < .5 for _ in range(rng.randint(1, 3))]}


def check(case):
    d = case["d"]
    e = build(d)
    bad, part = bad_lit(d), partial_w(d)
    before = shape(e)
    idb = set(ids(e))
    for ig in case["order"]:
        try:
            s = e.compile(ignore_tags=ig)
        except ER.CompilationError:
            need(bad, "CompilationError although no literal is empty")
            continue
        except ER.GrammarError:
            need(part, "GrammarError although every alternative has a weight")
            continue
        need(not bad and not part, "compiled %r although the tree is not compilable", s)
        same(s, text(d, ig), "text with ignore_tags=%s" % ig)
        same(e.compile(ig), s, "text when compiled again")
        want = filled(d)
        chk(e, want)
        links(e)
        need(idb <= set(ids(e)), "nodes were replaced by compiling")
    if not (bad or part) and not any(n["t"] in GROUP and not kidsof(n)
                                     for n in nodes(d)):
        same(shape(e), before, "tree after compiling")


def chk(e, d):
    """e has the structure, tags and texts of d"""
    need(type(e) is {"lit": X.Literal, "ref": X.NamedRuleRef}.get(d["t"], CLS.get(d["t"])),
         "%s has become %s", d["t"], type(e).__name__)
    same(e.tag, (d.get("tag") or "").strip(), "tag")
    same(len(e.children), len(kidsof(d)), "number of children of %s" % e)
    if d["t"] == "lit":
        same(e.text, low(d), "text of literal")
    if d["t"] == "ref":
        same(e.name, d["n"], "name of reference")
    for c, k in zip(e.children, kidsof(d)):
        chk(c, k)
