"""Building blocks of the executable contracts: cases are plain data, `build` turns one
into real objects, and the oracles below work on the data alone."""
import itertools
import os
import sys

REPO = os.environ.get("PYVC_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import jsgf                                                     # noqa: E402
from jsgf import expansions as X                                # noqa: E402
from jsgf import rules as RU, grammars as G, errors as ER       # noqa: E402
from jsgf.ext import expansions as DX                           # noqa: E402
from jsgf import parser as PA                                     # noqa: E402
ParsedAlternativeSet = getattr(PA, "ParsedAlternativeSet", X.AlternativeSet)

WORDS = ["hello", "World", "foo", "Bar baz", "a", "b", "it's", "re-do"]
TAGS = ["", "", "", "t1", "x y", " pad ", "br{ce}", "back\\slash", "\\{", "}", "A|b",
        "e\\}\\"]
LEAF = ("lit", "ref", "null", "void", "dict")
GROUP = ("seq", "req", "opt", "rep", "star", "alt")
ONE = ("opt", "rep", "star")
ALT = ("alt", "palt")
CLS = {"seq": X.Sequence, "req": X.RequiredGrouping, "opt": X.OptionalGrouping,
       "rep": X.Repeat, "star": X.KleeneStar, "alt": X.AlternativeSet,
       "palt": ParsedAlternativeSet, "null": X.NullRef, "void": X.VoidRef,
       "dict": DX.Dictation}


class Fail(Exception):
    """the contract does not hold on this case"""


def need(ok, what, *args):
    if not ok:
        raise Fail(what % args if args else what)


def same(a, b, what):
    if a != b:
        raise Fail("%s: expected %r, got %r" % (what, b, a))


# ------------------------------------------------------------------ case data
def N(t, *c, **k):
    d = {"t": t}
    if c:
        d["c"] = list(c)
    d.update(k)
    return d


def kidsof(d):
    return d.get("c", [])


def nodes(d):
    """all nodes of a tree, pre-order, references not followed"""
    out = [d]
    for c in kidsof(d):
        out += nodes(c)
    return out


def paths(d, p=()):
    out = [(p, d)]
    for i, c in enumerate(kidsof(d)):
        out += paths(c, p + (i,))
    return out


def node_at(e, p):
    for i in p:
        e = e.children[i]
    return e


class Env(object):
    """rules by name, for RuleRef / NamedRuleRef"""

    def __init__(self):
        self.rules = {}


def build(d, env=None, table=None):
    """real expansion for the data; table collects (data id, object) pairs"""
    t = d["t"]
    kids = [build(c, env, table) for c in kidsof(d)]
    if t == "lit":
        e = X.Literal(d["x"], d.get("cs", False))
    elif t == "ref":
        e = X.NamedRuleRef(d["n"])
    elif t == "rref":
        e = X.RuleRef(env.rules[d["n"]])
    elif t in ("null", "void", "dict"):
        e = CLS[t]()
    elif t in ONE:
        e = CLS[t](kids[0] if kids else X.Literal("tmp"))
        if not kids:
            e.children.pop()
    else:
        e = CLS[t](*kids)
    if d.get("tag"):
        e.tag = d["tag"]
    for i, w in enumerate(d.get("w") or []):
        if w is not None:
            e.set_weight(e.children[i], w)
    if table is not None:
        table.append((d, e))
    return e


def table_of(d, e):
    """list of (data, object, path) in pre-order"""
    return [(n, node_at(e, p), p) for p, n in paths(d)]


# ------------------------------------------------------------------ generators
def gen(rng, depth=3, kinds=None, leaves=("lit",), tags=True, weights=True, empty=0.0,
        words=WORDS, refs=(), cs=False, maxkids=3, badlit=0.0):
    kinds = kinds or GROUP

    def leaf():
        t = rng.choice(leaves)
        if t == "lit":
            d = N("lit", x=rng.choice(words))
            if badlit and rng.random() < badlit:
                d["x"] = ""
            if cs and rng.random() < .4:
                d["cs"] = True
        elif t in ("ref", "rref"):
            if not refs:
                d = N("lit", x=rng.choice(words))
            else:
                d = N(t, n=rng.choice(list(refs)))
        else:
            d = N(t)
        return d

    def go(dep):
        if dep <= 0 or rng.random() < .25:
            d = leaf()
        else:
            t = rng.choice(kinds)
            if empty and rng.random() < empty:
                d = N(t)
            elif t in ONE:
                d = N(t, go(dep - 1))
            else:
                d = N(t, *[go(dep - 1) for _ in range(rng.randint(1, maxkids))])
            if t in ALT and kidsof(d) and weights and rng.random() < .35:
                weigh(rng, d)
        if tags:
            g = rng.choice(TAGS)
            if g:
                d["tag"] = g
        return d
    return wrapalt(go(depth)) if "palt" in kinds else go(depth)


def wrapalt(d):
    """untagged alternative sets right below a parsed one are unravelled by its
    constructor, so they get a grouping in between"""
    if "c" not in d:
        return d
    ks = [wrapalt(c) for c in d["c"]]
    if d["t"] == "palt":
        ks = [N("req", c) if c["t"] in ALT and not (c.get("tag") or "").strip() else c
              for c in ks]
    return dict(d, c=ks)


def weigh(rng, d):
    """weights for the alternatives, in the domain where a weight keeps its key: the
    alternatives are distinct and hold no empty grouping, Dictation or upper-case
    literal (see the known findings)"""
    for c in kidsof(d):
        if any((n["t"] in GROUP + ALT and not kidsof(n)) or n["t"] == "dict"
               or (n["t"] == "lit" and (not n["x"] or n["x"] != n["x"].lower()))
               for n in nodes(c)):
            return
    keys = [text(c, False) + repr(c) for c in kidsof(d)]
    if len(set(keys)) != len(keys):
        return
    # nodes that are equal as dictionary keys share one weight
    if len({keyof(c) for c in kidsof(d)}) != len(kidsof(d)):
        return
    d["w"] = [rng.choice([0, 1, 2, 0.5, 10, 3.25, 1 / 3.0, 1e-5]) for _ in kidsof(d)]


def keyof(d):
    """a key that is the same for nodes that compare equal (tags aside)"""
    t = d["t"]
    if t == "lit":
        return ("lit", low(d))
    if t in ("ref", "rref"):
        return ("ref", d["n"])
    k = [keyof(c) for c in kidsof(d)]
    return ("alt" if t in ALT else t, tuple(sorted(map(repr, k))) if t in ALT
            else tuple(k))


def small_trees(depth=2, leaves=None, kinds=GROUP, maxkids=2):
    """every tree up to the depth over the given leaves"""
    leaves = leaves or [N("lit", x="a"), N("lit", x="B b"), N("null"), N("void")]
    level = list(leaves)
    for _ in range(depth):
        new = []
        for t in kinds:
            if t in ONE:
                new += [N(t, c) for c in level]
            else:
                for k in range(1, maxkids + 1):
                    new += [N(t, *cs) for cs in itertools.product(level, repeat=k)]
        level = leaves + new
        if len(level) > 4000:
            break
    return level


# ------------------------------------------------------------------ JSGF text oracle
def low(d):
    return d["x"] if d.get("cs") else d["x"].lower()


def esc(tag):
    out = ""
    for ch in tag:
        out += "\\" + ch if ch in "\\{}" else ch
    return out


def text(d, notags=False):
    t = d["t"]
    tag = (d.get("tag") or "").strip()
    suffix = "" if notags or not tag else " { %s }" % esc(tag)
    ks = [text(c, notags) for c in kidsof(d)] or ["<NULL>"]
    if t == "lit":
        s = low(d)
    elif t in ("ref", "rref"):
        s = "<%s>" % d["n"]
    elif t == "null":
        s = "<NULL>"
    elif t == "void":
        s = "<VOID>"
    elif t == "dict":
        s = "<DICTATION>"
    elif t == "seq":
        s = " ".join(ks)
    elif t == "req":
        s = "(" + " ".join(ks) + ")"
    elif t == "rep":
        s = "(" + ks[0] + ")+"
    elif t == "star":
        s = "(" + ks[0] + ")*"
    elif t == "opt":
        s = "[" + ks[0] + "]"
    else:
        w = d.get("w")
        if w:
            ks = ["/%.4f/ %s" % (float(a), b) for a, b in zip(w, ks)]
        s = "(" + "|".join(ks) + ")"
    return s + suffix


def filled(d):
    """the tree after compiling: empty groupings hold <NULL>"""
    d = dict(d)
    if d["t"] in GROUP + ALT:
        d["c"] = [filled(c) for c in kidsof(d)] or [N("null")]
    return d


def bad_lit(d):
    return any(n["t"] == "lit" and not n["x"] for n in nodes(d))


def partial_w(d):
    return any(n.get("w") and any(w is None for w in n["w"]) for n in nodes(d))


# ------------------------------------------------------------------ reading real trees
def shape(e):
    """structure of a real tree as plain data"""
    d = {"cls": type(e).__name__, "tag": e.tag, "c": [shape(c) for c in e.children]}
    if isinstance(e, X.Literal):
        d["x"], d["cs"] = e.text, bool(e.case_sensitive)
    if isinstance(e, X.BaseExpansionRef):
        d["n"] = e.name
    if isinstance(e, X.AlternativeSet) and not e.weights:
        d["w"] = None
    elif isinstance(e, X.AlternativeSet):
        try:
            d["w"] = [float(e.weights[c]) if c in e.weights else None
                      for c in e.children]
        except Exception as exc:
            d["w"] = repr(exc)
    return d


def ids(e):
    return [id(x) for x in walk(e)]


def walk(e):
    out = [e]
    for c in e.children:
        out += walk(c)
    return out


def links(e):
    """parent links inside a tree are consistent"""
    for x in walk(e):
        for c in x.children:
            need(c.parent is x, "child %s of %s has parent %s", c, x, c.parent)


# ------------------------------------------------------------------ languages
def ends(d, toks, i, rules, depth=0):
    """set of positions where a phrase of d starting at toks[i] can end; rules maps
    names to data"""
    t = d["t"]
    if depth > 60:
        return set()
    if t == "lit":
        ws = d["x"].split()
        if d.get("cs"):
            ok = toks[i:i + len(ws)] == ws
        else:
            ok = [w.lower() for w in toks[i:i + len(ws)]] == [w.lower() for w in ws]
        return {i + len(ws)} if ok else set()
    if t in ("ref", "rref"):
        return ends(rules[d["n"]], toks, i, rules, depth + 1)
    if t == "null":
        return {i}
    if t == "void":
        return set()
    if t in ("seq", "req"):
        cur = {i}
        for c in kidsof(d):
            cur = set().union(*[ends(c, toks, j, rules, depth + 1) for j in cur]) \
                if cur else set()
        return cur
    if t in ALT:
        out = set()
        ws = d.get("w") or [1] * len(kidsof(d))
        for c, w in zip(kidsof(d), ws):
            if w is None or w > 0:
                out |= ends(c, toks, i, rules, depth + 1)
        return out
    if t == "opt":
        return {i} | ends(kidsof(d)[0], toks, i, rules, depth + 1)
    # repeats
    seen = {i} if t == "star" else set()
    todo, done = [i], set()
    while todo:
        j = todo.pop()
        if j in done:
            continue
        done.add(j)
        for k in ends(kidsof(d)[0], toks, j, rules, depth + 1):
            seen.add(k)
            todo.append(k)
    return seen


def in_language(d, s, rules=None):
    toks = s.split()
    return len(toks) in ends(d, toks, 0, rules or {})
