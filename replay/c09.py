"""Pairs of trees (a random tree and a variant: equal copy, alternatives permuted, one
change of class, text, case rule, order, number, weight or name, or an unrelated tree):
== agrees with structural equality, is reflexive and symmetric, != is its opposite, equal
trees with the same tags have equal hashes, and neither comparing nor hashing changes
anything but filling empty groupings."""
import random
from lib import *

LIMIT = 20000
KNOWN = [
    {"id": "C09-K1", "case": {"a": N("alt", N("alt", N("lit", x="a"), N("lit", x="b")), N(
        "lit", x="c")), "b": N("alt", N("alt", N("lit", x="b"), N("lit", x="a")), N(
            "lit", x="c"))},
     "what": "alternative sets nested in alternative sets with their alternatives in another "
             "order are equal but have different hashes"}]
LV = ("lit", "lit", "lit", "ref", "rref", "null", "void")


def rand(rng):
    a = gen(rng, rng.randint(0, 3), kinds=GROUP + ("palt",), leaves=LV, refs=("q", "p"),
            cs=True, weights=rng.random() < .5, words=["a", "b", "B c", "c"])
    if rng.random() < .15:
        b = gen(rng, rng.randint(0, 2), kinds=GROUP, leaves=LV, refs=("q", "p"), cs=True,
                words=["a", "b"])
    else:
        b = a
        for _ in range(rng.randint(0, 2)):
            b = vary(rng, b)
    return {"a": a, "b": wrapalt(b)}


def put(d, p, x):
    if not p:
        return x
    d = dict(d, c=list(kidsof(d)))
    d["c"][p[0]] = put(d["c"][p[0]], p[1:], x)
    return d


def vary(rng, d):
    ps = paths(d)
    p, n = ps[rng.randrange(len(ps))]
    k = rng.randint(0, 8)
    n = dict(n)
    up = [node(d, p[:i]) for i in range(len(p))]
    if k <= 2:                          # permute alternatives
        alts = [(p, n) for p, n in ps if n["t"] in ALT and len(kidsof(n)) > 1 and not any(
            node(d, p[:i])["t"] in ALT for i in range(len(p)))]
        if not alts:
            return d
        p, n = alts[rng.randrange(len(alts))]
        o = list(range(len(kidsof(n))))
        rng.shuffle(o)
        n = dict(n, c=[kidsof(n)[i] for i in o])
        if n.get("w"):
            n["w"] = [n["w"][i] for i in o]
    elif k == 3 and n["t"] == "lit":
        n["x"] = rng.choice(["a", "b", "B c", "b c"])
    elif k == 4 and n["t"] == "lit":
        n["cs"] = not n.get("cs", False)
    elif k == 5 and n["t"] in GROUP:
        n["t"] = rng.choice(ONE if n["t"] in ONE else ("seq", "req", "alt"))
        n.pop("w", None)
    elif k == 6 and n["t"] in ("seq", "req", "alt", "palt") and not n.get("w"):
        n["c"] = list(kidsof(n))
        if rng.random() < .5 and len(n["c"]) > 1:
            n["c"].pop(rng.randrange(len(n["c"])))
        else:
            n["c"].insert(rng.randint(0, len(n["c"])), rng.choice(
                n["c"] + [N("lit", x="a")]))
    elif k == 7 and n["t"] in ("ref", "rref"):
        n["n"] = {"q": "p", "p": "q"}[n["n"]]
    elif k == 8 and n.get("w"):
        n["w"] = list(n["w"])
        n["w"][rng.randrange(len(n["w"]))] = rng.choice([0, 1, 5])
    elif k == 4 and n["t"] in ("null", "void"):
        n["t"] = "void" if n["t"] == "null" else "null"
    if any(u.get("w") for u in up):     # weights stay attached to what they are for
        return d
    return put(d, p, n)


def node(d, p):
    for i in p:
        d = kidsof(d)[i]
    return d


def fixed():
    a, b, c = N("lit", x="a"), N("lit", x="b"), N("lit", x="c")
    base = [a, b, N("lit", x="a", cs=True), N("lit", x="A"), N("lit", x="A", cs=True),
            N("null"), N("void"), N("ref", n="q"), N("ref", n="p"), N("rref", n="q")]
    for t in GROUP + ("palt",):
        for k in ([a], [b], [a, b], [b, a], [a, a], [a, a, b], [a, b, b], [N("null")]):
            if t not in ONE or len(k) == 1:
                base.append(N(t, *k))
    base += [N("alt", a, b, w=[1, 2]), N("alt", b, a, w=[2, 1]), N("alt", a, b, w=[2, 1]),
             N("alt", a, b, w=[1, 1]), N("palt", b, a, w=[2, 1]), N("alt", b, a, w=[0, 1]),
             N("seq", N("alt", a, b)), N("seq", N("alt", b, a)), N("seq", N("palt", b, a)),
             N("seq", N("seq", a), b), N("seq", N("seq", a, b)), N("seq", a, N("seq", b)),
             N("rep", N("rep", a)), N("alt", N("seq", a, b), c), N("alt", c, N(
                 "seq", a, b))]
    for x in base:
        for y in base:
            yield {"a": x, "b": y}
    for x in base:
        for t in ("t", " t", "u"):
            yield {"a": dict(x, tag="t"), "b": dict(x, tag=t)}
    for t in GROUP:
        yield {"a": N(t), "b": N(t)}
        yield {"a": N("seq", N(t)), "b": N("seq", N(t))}


def canon(d):
    """equal for exactly the trees that are to compare equal (tags left out)"""
    t = d["t"]
    if t == "lit":
        return ("lit", low(d), bool(d.get("cs")))
    if t in ("ref", "rref"):
        return (t, d["n"])
    ks = [canon(c) for c in kidsof(d)]
    if t in ALT:
        w = d.get("w")
        ks = sorted(zip(map(repr, ks), [float(x) for x in w])) if w else sorted(
            map(repr, ks))
        return ("alt", bool(w), tuple(ks))
    return (t, tuple(ks))


def tags(d):
    return [(d.get("tag") or "").strip()] + sorted(
        [tags(c) for c in kidsof(d)], key=repr) if d["t"] in ALT else [
        (d.get("tag") or "").strip()] + [tags(c) for c in kidsof(d)]


def untag(d):
    d = {k: v for k, v in d.items() if k != "tag"}
    if "c" in d:
        d["c"] = [untag(c) for c in d["c"]]
    return d


def mixed(d):
    """known finding C09-K1: alternative sets in alternative sets"""
    return any(n["t"] in ALT and any(m["t"] in ALT and len(kidsof(m)) > 1
                                     for c in kidsof(n) for m in nodes(c))
               for n in nodes(d))


def tcanon(d):
    """equal for exactly the trees that are equal and carry the same tags"""
    t, g = d["t"], (d.get("tag") or "").strip()
    if t == "lit":
        return ("lit", g, low(d), bool(d.get("cs")))
    if t in ("ref", "rref"):
        return (t, g, d["n"])
    ks = [tcanon(c) for c in kidsof(d)]
    if t in ALT:
        w = d.get("w")
        ks = sorted(zip(map(repr, ks), [float(x) for x in w])) if w else sorted(
            map(repr, ks))
        return ("alt", g, bool(w), tuple(ks))
    return (t, g, tuple(ks))


def filled_(d):
    d = dict(d)
    if d["cls"] in ("Sequence", "RequiredGrouping", "OptionalGrouping", "Repeat",
                    "KleeneStar", "AlternativeSet", "ParsedAlternativeSet"):
        d["c"] = [filled_(c) for c in d["c"]] or [{
            "cls": "NullRef", "tag": "", "c": [], "n": "NULL"}]
    if d["cls"].endswith("AlternativeSet"):
        d.pop("w", None)
    return d


def check(case):
    env = Env()
    for n in ("q", "p"):
        env.rules[n] = RU.Rule(n, True, n)
    da, db = case["a"], case["b"]
    has_k1 = mixed(da) or mixed(db)
    known = case.get("a", {}).get("t") == "alt" and case in [k["case"] for k in KNOWN]

    def pair(x, y):
        a, b = build(x, env), build(y, env)
        sa, sb = shape(a), shape(b)
        need(a == a, "%s == itself", a)
        need(b == b, "%s == itself", b)
        need((a != a) is False, "%s != itself", a)
        e1, e2 = bool(a == b), bool(b == a)
        need(e1 == e2, "%s == %s is %s but the other way %s", a, b, e1, e2)
        need(bool(a != b) == (not e1) and bool(b != a) == (not e2),
             "!= of %s and %s is not the opposite of ==", a, b)
        need(not (a == 1) and not (a == "a") and not (a == None) and a != 1,  # noqa: E711
             "%s compared with something else", a)
        ha, hb = hash(a), hash(b)
        same(hash(a), ha, "hash of %s, second time" % a)
        same(bool(a == b), e1, "%s == %s after hashing" % (a, b))
        for o, s in ((a, sa), (b, sb)):
            t = shape(o)
            need(t == s or filled_(t) == filled_(s), "comparing or hashing changed %s", o)
        return e1, ha == hb, a, b

    ua, ub = wrapalt(untag(da)), wrapalt(untag(db))
    eq, _, a, b = pair(ua, ub)
    if not (has_k1 and canon(ua) == canon(ub)) or known:
        need(eq == (canon(ua) == canon(ub)),
             "%s == %s is %s; weights %s %s", a, b, eq, da.get("w"), db.get("w"))
    eq, heq, a, b = pair(da, db)
    if tcanon(da) == tcanon(db) and (not has_k1 or known or da == db):
        need(eq, "%s == %s is False, tags are the same", a, b)
        need(heq, "%s and %s are equal but have different hashes", a, b)
