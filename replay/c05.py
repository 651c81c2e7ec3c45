"""Random trees (up to depth 4, up to three rules that refer to later ones by name or by
object): map, flat_map, filter and find visit exactly the expected objects in the
expected order for both orders, deep and shallow; an unknown order is rejected without
visiting anything."""
from lib import *

LIMIT = 20000
KNOWN = []


def rand(rng):
    n = rng.randint(0, 3)
    rules = []
    for i in range(n):
        rules.append(gen(rng, rng.randint(0, 2), leaves=("lit", "ref", "rref", "null"),
                         refs=["r%d" % j for j in range(i + 1, n)], empty=.1,
                         weights=False, tags=False))
    main = gen(rng, rng.randint(0, 4), leaves=("lit", "lit", "ref", "rref", "void", "null",
                                               "dict"),
               refs=["r%d" % j for j in range(n)], empty=.1, weights=False, tags=False)
    return {"rules": rules, "main": main, "order": rng.choice([0, 1]),
            "shallow": rng.random() < .5, "mod": rng.randint(1, 5), "k": rng.randint(0, 4),
            "at": rng.randint(0, 9)}


def fixed():
    a, b, c = (N("lit", x=x) for x in "abc")
    t1 = N("seq", a, N("alt", b, N("opt", c)), N("rep", a))
    t2 = N("seq", N("ref", n="r0"), N("rref", n="r0"), b)
    for t, rs in ((t1, []), (t2, [N("req", a, N("seq", b, c))]), (a, []),
                  (N("seq"), []), (N("null"), [])):
        for o in (0, 1, 2, -1, None):
            for sh in (False, True):
                for m in (1, 2, 3, 99):
                    yield {"rules": rs, "main": t, "order": o, "shallow": sh, "mod": m,
                           "k": 0, "at": 0}


def world(case):
    """grammar, main expansion, oracle order"""
    env = Env()
    g = G.Grammar("g")
    for i in reversed(range(len(case["rules"]))):
        r = RU.Rule("r%d" % i, True, build(case["rules"][i], env))
        env.rules["r%d" % i] = r
        g.add_rule(r)
    m = RU.Rule("main", True, build(case["main"], env))
    g.add_rule(m)
    return g, m, env


def seq_of(e, env, order, shallow):
    if isinstance(e, X.NamedRuleRef) and not shallow:
        ks = [env.rules[e.name].expansion]
    else:
        ks = list(e.children)
    below = [x for k in ks for x in seq_of(k, env, order, shallow)]
    return below + [e] if order == 1 else [e] + below


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, tuple) else [x]


def ident(got, want, what):
    need(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
         "%s: got %s, expected %s", what, [str(x) for x in got], [str(x) for x in want])


def check(case):
    g, m, env = world(case)
    e = m.expansion
    alln = seq_of(e, env, 0, True)
    if case["at"] and case["at"] < len(alln):
        e = alln[case["at"]]
    order, sh = case["order"], case["shallow"]
    calls = []

    def rec(x):
        calls.append(x)
        return len(calls)
    if order not in (0, 1):
        for f in (X.map_expansion, X.flat_map_expansion, X.filter_expansion,
                  X.find_expansion):
            try:
                f(e, rec, order, sh)
            except ValueError:
                need(not calls, "%s visited something", f.__name__)
                continue
            raise Fail("%s accepted the order %r" % (f.__name__, order))
        return
    want = seq_of(e, env, order, sh)
    r = X.map_expansion(e, rec, order, sh)
    ident(calls, want, "map")
    same(sorted(flat(r)), list(range(1, len(want) + 1)), "values in the map's result")
    calls[:] = []
    r = X.flat_map_expansion(e, rec, order, sh)
    ident(calls, want, "flat map's calls")
    same(r, list(range(1, len(want) + 1)), "flat map's result")
    r = X.flat_map_expansion(e, order=order, shallow=sh)
    ident(r, want, "flat map without a function")
    chosen = {id(x) for i, x in enumerate(alln) if i % case["mod"] == case["k"] %
              case["mod"]}
    for v in (True, 1, "yes"):
        for p in (lambda x: v if id(x) in chosen else 0,
                  lambda x: v if isinstance(x, X.Literal) else None,
                  lambda x: not v if id(x) in chosen else v):
            hit = [x for x in want if p(x)]
            ident(X.filter_expansion(e, p, order, sh), hit, "filter")
            f = X.find_expansion(e, p, order, sh)
            need(f is (hit[0] if hit else None), "find: got %s, expected %s", f,
                 hit[0] if hit else None)
    ident(X.filter_expansion(e, order=order, shallow=sh), want, "filter without function")
    if order == 0 and not sh:
        ident(X.flat_map_expansion(e), want, "flat map by default")
        ident(e.leaves, [x for x in want if not x.children], "leaves")
    if not sh:
        for x in want:
            need(x in e, "%s is not in the tree", x)
