"""Random forests edited by random histories (subtrees removed, moved, replaced, inserted)
with questions asked before, between and after; after each edit every living expansion's
calculations are invalidated.  All relations are compared with their definition on the
current trees."""
from lib import *

LIMIT = 12000
KNOWN = []
QS = ("desc", "excl", "root", "opt", "alt", "rep", "leaves", "after", "mafter")


def rand(rng):
    n = rng.randint(1, 2)
    return {"trees": [gen(rng, rng.randint(0, 4), empty=.05, weights=False, tags=False,
                          leaves=("lit", "lit", "null", "dict", "rref"), refs=("q",)[
                              :rng.randint(0, 1)], words=["a", "b"])
                      for _ in range(n)],
            "ref": gen(rng, rng.randint(0, 2), weights=False, tags=False),
            "ops": [[rng.choice(["move", "move", "out", "new", "swap", "ask"]),
                     rng.randint(0, 40), rng.randint(0, 40), rng.randint(0, 3)]
                    for _ in range(rng.randint(0, 5))],
            "pre": rng.randint(0, 2), "seed": rng.randint(0, 99)}


def fixed():
    a, b, c = (N("lit", x=x) for x in "abc")
    ts = [N("seq", a, N("alt", b, N("seq", c, a)), N("star", N("alt", a, N("opt", b)))),
          N("alt", N("rep", a), N("seq", b, N("alt", c, a))), N("opt", N("rep", a)), a,
          N("alt", a), N("seq")]
    for t in ts:
        for pre in (0, 2):
            for ops in ([], [["move", 2, 0, 0]], [["out", 1, 0, 0]],
                        [["move", 1, 4, 0], ["move", 4, 1, 1]], [["new", 0, 1, 0]]):
                yield {"trees": [t, N("alt", a, b)], "ref": a, "ops": ops, "pre": pre,
                       "seed": 1}


def anc(x):
    out = []
    while x.parent is not None:
        x = x.parent
        out.append(x)
    return out


def deep(e):
    out = [e]
    if isinstance(e, X.NamedRuleRef):
        return out + deep(e.referenced_rule.expansion)
    for c in e.children:
        out += deep(c)
    return out


def inn(x, xs):
    return any(x is y for y in xs)


def excl(a, b):
    ra, rb = ([a] + anc(a))[-1], ([b] + anc(b))[-1]
    if ra is not rb:
        return False
    for x in deep(ra):
        if isinstance(x, X.AlternativeSet) and len(x.children) > 1:
            ia = [i for i, c in enumerate(x.children) if inn(a, deep(c))]
            ib = [i for i, c in enumerate(x.children) if inn(b, deep(c))]
            if ia and ib and ia[0] != ib[0]:
                return True
    return False


def ask(alive, rng, few):
    al = list(alive)
    rng.shuffle(al)
    for x in al[:8] if few else al:
        up = anc(x)
        root = ([x] + up)[-1]
        need(x.root_expansion is root, "root of %s is %s", x, x.root_expansion)
        o = any(isinstance(y, (X.OptionalGrouping, X.KleeneStar)) for y in [x] + up)
        same(bool(x.is_optional), o, "is_optional of %s in %s" % (x, root))
        o = any(isinstance(y, X.AlternativeSet) for y in [x] + up)
        same(bool(x.is_alternative), o, "is_alternative of %s in %s" % (x, root))
        reps = [y for y in up if isinstance(y, X.Repeat)]
        need(x.repetition_ancestor is (reps[0] if reps else None),
             "repetition ancestor of %s in %s is %s", x, root, x.repetition_ancestor)
        lv = [y for y in deep(x) if not y.children]
        got = x.leaves
        need(len(got) == len(lv) and all(p is q for p, q in zip(got, lv)),
             "leaves of %s: %s", x, got)
        sl = [y for y in walk(x) if not y.children]
        got = x.collect_leaves(shallow=True)
        need(len(got) == len(sl) and all(p is q for p, q in zip(got, sl)),
             "shallow leaves of %s: %s", x, got)
        rl = [y for y in deep(root) if not y.children]
        pos = [i for i, y in enumerate(rl) if y is x]
        if len(pos) <= 1:
            after = rl[pos[0] + 1:] if pos else []
            got = list(x.leaves_after)
            need(len(got) == len(after) and all(p is q for p, q in zip(got, after)),
                 "leaves after %s in %s: %s", x, root, got)
            ma = [y for y in after if not excl(x, y)]
            got = list(x.matchable_leaves_after)
            need(len(got) == len(ma) and all(p is q for p, q in zip(got, ma)),
                 "matchable leaves after %s in %s: %s", x, root, got)
        for y in (al[:6] if few else al):
            d = x is not y and inn(x, deep(y))
            same(bool(x.is_descendant_of(y)), d, "%s (of %s) is_descendant_of %s" % (
                x, root, y))
            same(bool(x.mutually_exclusive_of(y)), excl(x, y),
                 "%s mutually_exclusive_of %s in %s" % (x, y, root))


def check(case):
    import random
    rng = random.Random(case["seed"])
    env = Env()
    env.rules["q"] = RU.Rule("q", True, build(case["ref"]))
    roots = [build(t, env) for t in case["trees"]]
    alive = [x for r in roots for x in walk(r)]
    if case["pre"]:
        ask(alive, rng, case["pre"] == 1)
    for op, i, j, k in case["ops"]:
        x, y = alive[i % len(alive)], alive[j % len(alive)]
        grp = [z for z in alive if isinstance(z, X.VariableChildExpansion)]

        def pop(z):
            p = z.parent
            p.children.pop([q is z for q in p.children].index(True))
        if op == "ask":
            ask(alive, rng, True)
        elif op == "out" and x.parent is not None:
            pop(x)
        elif op == "new" and grp:
            z = grp[j % len(grp)]
            n = X.Sequence("n") if k % 2 else X.Literal("n")
            z.children.insert(k, n)
            alive += walk(n)
        elif op == "swap" and x.parent is not None:
            p = x.parent
            n = X.OptionalGrouping("n") if k % 2 else X.AlternativeSet("n", "m")
            p.children[[q is x for q in p.children].index(True)] = n
            alive += walk(n)
        elif op == "move" and grp:
            z = grp[j % len(grp)]
            if not inn(z, walk(x)):
                if x.parent is not None:
                    pop(x)
                z.children.insert(k, x)
        if op != "ask":
            for z in alive:
                z.invalidate_calculations()
            if rng.random() < .5:
                ask(alive, rng, True)
    ask(alive, rng, len(alive) > 14)
