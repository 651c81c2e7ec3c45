"""Random rules with references to other rules and tags at random places (blanks, braces,
backslashes, control characters), tags assigned from strings, empty values and wrong types:
stored tags are stripped, Rule.tags is the post-order list through references, has_tag
agrees with it, and after matching the matched tags are those of the expansions that were
matched (for rules whose only parse is known)."""
import random
from lib import *

LIMIT = 12000
KNOWN = []
VALS = ["t", " t ", "\tx\n", "", "   ", "a b", "{", "}\\", None, 0, False, [], 3, True, ["a"],
        1.5, {"a": 1}, "\u00e9 \u3042 ", "\u2003em\u2003"]


def rand(rng):
    lv = ("lit", "lit", "ref", "rref", "null", "void")
    names = []
    rules = []
    for i in range(rng.randint(1, 3)):
        rules.append(gen(rng, rng.randint(0, 3), leaves=lv if names else (
            "lit", "null"), refs=list(names), empty=.03, weights=False,
            words=["w%d" % k for k in range(6)]))
        names.append("r%d" % i)
    return {"rules": rules, "sets": [[rng.randint(0, 12), rng.randrange(len(VALS))]
                                     for _ in range(rng.randint(0, 4))],
            "m": mrule(rng), "seed": rng.randint(0, 99)}


def mrule(rng):
    """a rule in which every word occurs once, and which of its parts to say"""
    n = [0]

    def go(dep, rep):
        k = rng.random()
        t = rng.choice(["", "", "t%d" % n[0], " s%d " % n[0]])
        if dep == 0 or k < .3:
            n[0] += 1
            return N("lit", x="w%d" % n[0], tag=t)
        if k < .6:
            return N("seq" if k < .5 else "req", *[go(dep - 1, rep) for _ in range(
                rng.randint(1, 3))], tag=t)
        if k < .8:
            return N("alt", *[go(dep - 1, rep) for _ in range(rng.randint(1, 3))], tag=t,
                     pick=rng.randint(0, 2))
        if k < .9:
            return N("opt", go(dep - 1, rep), tag=t, pick=rng.randint(0, 1))
        n[0] += 1
        return N("rep", N("lit", x="w%d" % n[0], tag=t), tag=rng.choice(["", "r%d" % n[0]]),
                 pick=rng.randint(1, 3))
    return go(3, False)


def say(d, out):
    """words said, and the nodes with a non-empty match in post-order"""
    t = d["t"]
    if t == "lit":
        out.append(d)
        return [d["x"]]
    ks = kidsof(d)
    if t == "alt":
        w = say(ks[d["pick"] % len(ks)], out)
    elif t == "opt":
        w = say(ks[0], out) if d["pick"] else []
    elif t == "rep":
        w = say(ks[0], out) * d["pick"]
    else:
        w = []
        for c in ks:
            w += say(c, out)
    if w:
        out.append(d)
    return w


def fixed():
    lit = N("lit", x="a", tag="t")
    for i in range(len(VALS)):
        for j in range(len(VALS)):
            yield {"rules": [lit], "sets": [[0, i], [0, j]], "m": dict(lit), "seed": 0}
    for t in GROUP:
        for k in ([lit], [lit, N("lit", x="b", tag="u")], [N("ref", n="r0", tag="v"), lit]):
            if t not in ONE or len(k) == 1:
                yield {"rules": [N("seq", lit, lit), N(t, *k, tag="g")], "sets": [],
                       "m": dict(lit), "seed": 0}


def check(case):
    random.seed(case["seed"])
    env = Env()
    g = G.Grammar("g")
    objs, data = [], {}
    for i, d in enumerate(case["rules"]):
        r = RU.Rule("r%d" % i, True, build(d, env))
        env.rules[r.name] = r
        g.add_rule(r)
        objs.append(r)
        data[r.name] = dict(d)

    def tags(d, e, dep=0):
        out = []
        if d["t"] in ("ref", "rref"):
            r = env.rules[d["n"]]
            out += tags(data[d["n"]], r.expansion, dep + 1)
        for i, c in enumerate(kidsof(d)):
            out += tags(c, e.children[i], dep)
        t = cur.get(id(e), (d.get("tag") or "").strip())
        return out + ([t] if t else [])
    cur = {}

    def look(what):
        for r in objs:
            for n, e, _ in table_of(data[r.name], r.expansion):
                want = cur.get(id(e), (n.get("tag") or "").strip())
                same(e.tag, want, "tag of %s after %s" % (e, what))
            want = tags(data[r.name], r.expansion)
            got = r.tags
            need(list(got) == want, "tags of %s after %s: %r, expected %r", r, what, got,
                 want)
            for t in set(want) | {"t", "nope", "a", ""}:
                for q in (t, " %s\t" % t):
                    same(bool(r.has_tag(q)), bool(t) and t in want, "%s has tag %r" % (r, q))

    look("start")
    for i, v in case["sets"]:
        xs = [x for r in objs for x in walk(r.expansion)]
        x, v = xs[i % len(xs)], VALS[v]
        was = x.tag
        try:
            x.tag = v
        except TypeError:
            need(bool(v) and not isinstance(v, str), "tag %r is refused", v)
            same(x.tag, was, "tag after a refused one")
        else:
            need(not v or isinstance(v, str), "tag %r is accepted", v)
            cur[id(x)] = v.strip() if v else ""
        look("tag = %r" % (v,))
    m = case["m"]
    r = RU.Rule("m", True, build(m))
    out = []
    words = say(m, out)
    if words:
        got = r.matches(" ".join(words))
        need(got is True, "%s does not match %r", r, " ".join(words))
        want = [n["tag"].strip() for n in out if (n.get("tag") or "").strip()]
        same(list(r.matched_tags), want, "matched tags of %s for %r" % (r, " ".join(words)))
        same(list(r.get_tags_matching(" ".join(words))), want, "get_tags_matching")
        r.matches("zzz")
        same(list(r.matched_tags), [], "matched tags after a failed match")
        same(list(r.get_tags_matching("")), [n["tag"].strip() for n in [] if n], "none") \
            if not nullable(m) else None


def nullable(d):
    t = d["t"]
    ks = [nullable(c) for c in kidsof(d)]
    return t in ("opt", "star", "null") or (t == "alt" and any(ks)) or (
        t in ("seq", "req", "rep") and all(ks))
