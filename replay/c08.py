"""Deep copies of random trees (all node kinds, tags, weights, case rules, references, with
and without parents, after matching): equal structure, texts, weights and compiled text, no
shared node or list, consistent parent links, original unchanged; then either one is edited
at a random place and the other must not change."""
import copy as copymod
from lib import *

LIMIT = 15000
KNOWN = [
    {"id": "C08-K1", "case": {"d": N("opt"), "sub": 0, "edit": 0, "at": 0, "side": False,
                              "use": False, "how": "copy", "k": 1},
     "what": "an optional grouping or repeat whose child was removed cannot be copied "
             "(TypeError)"},
    {"id": "C08-K2", "case": {"d": N("palt", N("alt", N("lit", x="a"), N("lit", x="b"))),
                              "sub": 0, "edit": 0, "at": 0, "side": False, "use": False,
                              "how": "copy", "k": 2},
     "what": "copying a parsed alternative set into which an untagged alternative set was "
             "put unravels the inner one"}]


def rand(rng):
    d = gen(rng, rng.randint(0, 4), kinds=GROUP + ("palt",), leaves=(
        "lit", "lit", "ref", "rref", "null", "void", "dict"), refs=("q", "p"), empty=.05,
        cs=True)
    return {"d": d, "sub": rng.randint(0, 12), "edit": rng.randint(0, 7),
            "at": rng.randint(0, 12), "side": rng.random() < .5, "use": rng.random() < .3,
            "how": rng.choice(["copy", "copy", "deepcopy"])}


def fixed():
    lit = N("lit", x="Foo", cs=True, tag="t")
    for t in GROUP + ("palt",):
        for d in (N(t, lit), N(t), N(t, lit, tag="x"), N("seq", N(t, N("alt", lit)), lit)):
            if d["t"] in ONE and not kidsof(d):
                continue
            for edit in range(8):
                for side in (False, True):
                    yield {"d": d, "sub": 0, "edit": edit, "at": edit, "side": side,
                           "use": edit % 2 == 0, "how": "copy"}
    w = N("alt", N("lit", x="a"), N("lit", x="b"), w=[0, 2.5])
    for d in (w, N("seq", w, w), N("palt", N("lit", x="a"), w), N("rref", n="q", tag="t"),
              N("ref", n="q", tag="t"), N("null", tag="t"), N("void", tag="t"),
              N("dict", tag="t"), lit):
        for edit in range(8):
            yield {"d": d, "sub": edit % 3, "edit": edit, "at": 1, "side": edit % 2 == 0,
                   "use": False, "how": "copy"}


def full(e):
    d = shape(e)

    def more(e, d):
        if isinstance(e, X.RuleRef):
            d["rule"] = id(e.referenced_rule)
        if isinstance(e, X.Literal) and not isinstance(e, DX.Dictation):
            was = e.case_sensitive
            e.case_sensitive = True
            d["raw"] = e.text
            e.case_sensitive = was
        for c, x in zip(e.children, d["c"]):
            more(c, x)
    more(e, d)
    return d


def outside(e):
    """ancestors of e with their children, by identity"""
    out = []
    while e.parent is not None:
        e = e.parent
        out.append((id(e), ids(e)))
    return out


def edit(e, k, at):
    xs = walk(e)
    x = xs[at % len(xs)]
    if k == 0:
        x.tag = "edited"
    elif k == 1:
        for y in xs:
            if type(y) is X.Literal:
                y.text = "edited"
                break
    elif k == 2:
        for y in xs:
            if isinstance(y, X.Literal):
                y.case_sensitive = not y.case_sensitive
    elif k == 3 and isinstance(x, X.VariableChildExpansion):
        x.children.append("edited")
    elif k == 4 and len(x.children):
        x.children.pop()
    elif k == 5:
        for y in xs:
            if isinstance(y, X.AlternativeSet) and len(y.children):
                y.set_weight(0, 77)
                break
    elif k == 6:
        x.children.clear()
    elif k == 7 and len(x.children):
        x.children[0] = X.Literal("edited")


def check(case):
    env = Env()
    for n in ("q", "p"):
        env.rules[n] = RU.Rule(n, True, "x")
    root = build(case["d"], env)
    if case.get("k") == 2:
        root.children = [X.AlternativeSet("a", "b")]
    xs = walk(root)
    e = xs[case["sub"] % len(xs)]
    if case["use"] and not any(n["t"] in ("rep", "star") for n in nodes(case["d"])):
        try:
            root.matches("foo bar")
        except Exception:
            pass
    if not case.get("k") and any(isinstance(x, X.SingleChildExpansion) and not len(
            x.children) for x in walk(e)):
        return      # known finding C08-K1
    before, ib, ob, pb = full(root), ids(root), outside(e), e.parent
    mine = full(e)
    c = e.copy() if case["how"] == "copy" else copymod.deepcopy(e)
    same(full(root), before, "original after copying")
    need(ids(root) == ib and outside(e) == ob and e.parent is pb,
         "copying changed the original tree")
    links(root)
    same(full(c), mine, "structure of the copy")
    need(c.parent is None, "the copy has a parent")
    links(c)
    need(not set(ids(c)) & set(ids(root)), "the copy shares expansions")
    need(not {id(x.children) for x in walk(c)} & {id(x.children) for x in walk(root)},
         "the copy shares child lists")
    for x, y in zip(walk(e), walk(c)):
        if isinstance(x, X.AlternativeSet):
            need(x.weights is not y.weights, "the copy shares the weights")
        if isinstance(x, X.RuleRef):
            need(x.referenced_rule is y.referenced_rule, "referenced rule of the copy")
    a, b = (c, root) if case["side"] else (e, c)
    snap = full(b)
    edit(a, case["edit"], case["at"])
    same(full(b), snap, "other tree after an edit")
    links(b)
    if case["side"]:
        return
    # compile a fresh pair: compiling fills empty groupings
    r2 = build(case["d"], env)
    e2 = walk(r2)[case["sub"] % len(xs)]
    if any(isinstance(x, DX.Dictation) for x in walk(r2)) and any(
            isinstance(x, X.AlternativeSet) and x.weights for x in walk(r2)):
        return      # known finding C01-K2: such weights are lost
    c2 = e2.copy()
    for ig in (False, True):
        def text_of(x):
            try:
                return x.compile(ig)
            except (ER.GrammarError, ER.CompilationError) as exc:
                return type(exc).__name__
        same(text_of(c2), text_of(e2), "compiled text of the copy")
