"""Random rules (all node kinds but void references, weights with zeros, references by name
and by object, nested repeats, tags) generated from many times under a seeded and under a
scripted random source (values at the edges of the choices): every string is a phrase of the
language computed from the case data, and every alternative of positive weight and both
forms of an option are produced for small rules."""
import random
from lib import *

LIMIT = 4000
KNOWN = [
    {"id": "C13-K1", "case": {"ref": N("lit", x="a"), "d": N("alt", N("lit", x="a"), N(
        "void")), "seed": 1, "src": "seed", "k": 1},
     "what": "a <VOID> reference generates the empty string although it has no phrase"},
    {"id": "C13-K2", "case": {"ref": N("lit", x="a"), "d": N("ref", n="q"), "seed": 1,
                              "src": "seed", "k": 2},
     "what": "a reference to a disabled rule generates the empty string"},
    {"id": "C13-K3", "case": {"ref": N("lit", x="a"), "d": N("rep", N("lit", x="a")),
                              "seed": 1, "src": "zero", "k": 3},
     "what": "repeats raise ValueError when random.random() returns exactly 0"}]


def rand(rng):
    d = gen(rng, rng.randint(0, 3), leaves=("lit", "lit", "lit", "null", "ref", "rref"),
            refs=("q",), cs=True, weights=rng.random() < .7, maxkids=4)
    q = gen(rng, rng.randint(0, 2), leaves=("lit", "null"), words=["q", "Qq r"])
    return {"ref": q, "d": d, "seed": rng.randint(0, 9999),
            "src": rng.choice(["seed", "seed", "low", "high", "mix"])}


def fixed():
    a, b, c = (N("lit", x=x) for x in "abc")
    for src in ("seed", "low", "high", "mix"):
        for s in range(3):
            for d in (N("alt", a, b, c), N("alt", a, b, c, w=[0, 1, 0]), N(
                    "alt", a, b, c, w=[1, 0, 0]), N("alt", a, b, c, w=[0, 0, 3]), N(
                        "alt", a, b, c, w=[.1, .2, .3]), N("opt", a), N("rep", a), N(
                            "star", a), N("seq", a, N("opt", b), c), N("ref", n="q"), N(
                                "rref", n="q"), N("seq", a, N("null"), b), N("alt", N(
                                    "seq", a, b), c, w=[1e-9, 1]), N("rep", N(
                                        "alt", a, b)), N("req", N("star", a), b)):
                yield {"ref": N("alt", N("lit", x="q"), N("lit", x="r s")), "d": d,
                       "seed": s, "src": src}


class Src(object):
    """random source at the edges"""

    def __init__(self, kind, seed):
        self.kind, self.r = kind, random.Random(seed)

    def random(self):
        if self.kind == "zero":
            return 0.0
        if self.kind == "low":
            return self.r.choice([1e-12, 1e-3, .2])
        if self.kind == "high":
            return self.r.choice([1 - 2 ** -53, .999999, .75])
        return self.r.choice([1e-12, .5, .25, 1 / 3., 1 - 2 ** -53, self.r.random()])

    def choice(self, xs):
        if self.kind == "low":
            return xs[0]
        if self.kind == "high":
            return xs[len(xs) - 1]
        return xs[self.r.randrange(len(xs))]


def zero(d):
    return any(n.get("w") and not any(w > 0 for w in n["w"]) for n in nodes(d))


def depth(d):
    return (d["t"] in ("rep", "star")) + max([depth(c) for c in kidsof(d)] + [0])


def has_void(d):
    return any(n["t"] == "void" for n in nodes(d))


def check(case):
    k = case.get("k")
    if zero(case["d"]) or zero(case["ref"]) or (not k and has_void(case["d"])):
        return                          # no phrase at all (see DESIGN.md)
    nest = depth(case["d"]) + depth(case["ref"])
    if nest > 1 and case["src"] not in ("seed", "zero"):
        return                          # far too many repetitions
    env = Env()
    q = RU.Rule("q", False, build(case["ref"]))
    env.rules["q"] = q
    r = RU.Rule("r", True, build(case["d"], env))
    g = G.Grammar("g")
    g.add_rules(q, r)
    if k == 2:
        q.disable()
    rules = {"q": case["ref"]}
    mod = X.random
    old = mod.random, mod.choice
    random.seed(case["seed"])
    n = 12
    seen = set()
    try:
        if case["src"] != "seed":
            src = Src(case["src"], case["seed"])
            mod.random, mod.choice = src.random, src.choice
        for i in range(n if k != 1 else 60):
            s = r.generate() if i % 2 else r.expansion.generate()
            need(isinstance(s, str), "generated %r", s)
            if len(s.split()) > (40 if nest < 3 else 9):
                continue
            seen.add(s)
            need(in_language(lowered(case["d"]), s, {"q": lowered(rules["q"])}),
                 "%r is generated but not a phrase of %s", s, r.expansion)
    finally:
        mod.random, mod.choice = old
    d = case["d"]
    if case["src"] == "seed" and d["t"] == "alt" and all(c["t"] == "lit" for c in kidsof(
            d)) and case["seed"] == 0:
        for _ in range(400):
            seen.add(r.generate())
        for c, w in zip(kidsof(d), d.get("w") or [1] * 9):
            if w >= .1:
                need(low(c) in seen or c["x"] in seen, "%r is never generated from %s",
                     c["x"], r.expansion)
    if case["src"] == "seed" and case["seed"] == 0 and d["t"] == "opt":
        for _ in range(60):
            seen.add(r.generate())
        need("" in seen and len(seen) > 1, "only %s are generated from %s", seen,
             r.expansion)


def lowered(d):
    """the rules of the grammar are not case sensitive, so the texts are in lower case"""
    d = dict(d, cs=False)
    if d["t"] == "lit":
        d["x"] = d["x"].lower()
        d["cs"] = True
    if "c" in d:
        d["c"] = [lowered(c) for c in d["c"]]
    return d
