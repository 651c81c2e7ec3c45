"""Random histories of child-list operations on one expansion (append, insert, extend, +=,
pop, remove, clear, index and slice assignment, whole-list assignment, with new, equal,
removed, string, wrong-type and out-of-range arguments) against the same history on a
plain Python list: results, contents, parents of everything ever used, and on errors no
change."""
from lib import *

LIMIT = 40000
KNOWN = []
KINDS = ("seq", "req", "alt", "opt", "rep", "star", "palt")
OPS = ("append", "append", "insert", "insert", "extend", "iadd", "pop", "popd", "remove",
       "clear", "set", "setslice", "setslice", "assign", "index", "get", "getslice")


def item(rng):
    k = rng.random()
    if k < .2:
        return {"s": rng.choice(["a", "b", "c"])}
    if k < .3:
        return {"bad": rng.choice(["int", "none", "list"])}
    if k < .45:
        return {"old": rng.randint(0, 5)}
    if k < .6:
        return {"seq": rng.choice(["a", "b"])}
    return {"lit": rng.choice(["a", "b", "c"])}


def rand(rng):
    ops = []
    for _ in range(rng.randint(1, 8)):
        o = rng.choice(OPS)
        ix = rng.randint(-4, 5)
        if o in ("append", "remove"):
            ops.append([o, item(rng)])
        elif o in ("insert", "set"):
            ops.append([o, ix, item(rng)])
        elif o in ("extend", "iadd", "assign"):
            ops.append([o, [item(rng) for _ in range(rng.randint(0, 3))],
                        rng.choice(["list", "tuple", "iter"])])
        elif o in ("pop", "get"):
            ops.append([o, ix])
        elif o == "setslice":
            sl = [rng.choice([None, rng.randint(-4, 5)]),
                  rng.choice([None, rng.randint(-4, 5)]),
                  rng.choice([None, None, None, 1, 2, -1, -2])]
            ops.append([o, sl, [item(rng) for _ in range(rng.randint(0, 3))]])
        elif o == "getslice":
            ops.append([o, [rng.choice([None, rng.randint(-4, 5)]),
                            rng.choice([None, rng.randint(-4, 5)]),
                            rng.choice([None, 2, -1])]])
        elif o == "index":
            ops.append([o, item(rng)])
        else:
            ops.append([o])
    return {"t": rng.choice(KINDS), "init": [item(rng) for _ in range(rng.randint(0, 4))],
            "use": rng.random() < .3, "ops": ops}


def fixed():
    a, b, s = {"lit": "a"}, {"lit": "b"}, {"s": "x"}
    bad = {"bad": "int"}
    for t in ("seq", "alt", "opt"):
        for op in ([["append", s]], [["insert", 0, s]], [["extend", [s, a], "list"]],
                   [["iadd", [s, b], "tuple"]], [["pop", 0]], [["popd"]],
                   [["remove", a]], [["remove", {"lit": "zz"}]], [["clear"]],
                   [["set", 1, s]], [["set", 9, s]], [["set", 0, bad]],
                   [["setslice", [0, 2, None], [s]]],
                   [["setslice", [None, None, 2], [s, s]]],
                   [["setslice", [None, None, 2], [s]]],
                   [["setslice", [0, 1, None], [s, bad]]],
                   [["assign", [s, b], "list"]], [["assign", [s, bad], "list"]],
                   [["assign", [s], "iter"]], [["append", bad]], [["insert", 0, bad]],
                   [["extend", [a, bad], "list"]], [["iadd", [a, bad], "list"]],
                   [["pop", 7]], [["clear"], ["append", {"old": 0}]]):
            yield {"t": t, "init": [a, b, a], "use": False, "ops": op}


def check(case):
    e = CLS[case["t"]]("tmp")
    e.children.pop()
    made, model = [], []

    def mk(it):
        """(argument, expected object or None if a string, valid)"""
        if "s" in it:
            return it["s"], None, True
        if "bad" in it:
            return {"int": 3, "none": None, "list": ["a"]}[it["bad"]], None, False
        if "old" in it:
            free = [x for x in made if not any(x is y for y in model) and
                    not any(x is y for y in used)]
            if free:
                x = free[it["old"] % len(free)]
                used.append(x)
                return x, x, True
            it = {"lit": "a"}
        x = X.Literal(it["lit"]) if "lit" in it else X.Sequence(it["seq"])
        made.append(x)
        used.append(x)
        return x, x, True

    def match(lst, what):
        """the children are lst (None: a new literal), adopt the new literals"""
        got = list(e.children)
        same(len(got), len(lst), "number of children after " + what)
        same(len(e.children), len(lst), "len after " + what)
        for i, (g, m) in enumerate(zip(got, lst)):
            if isinstance(m, tuple):
                need(type(g) is X.Literal and g.text == m[1], "child %d after %s is %r, "
                     "expected literal %r", i, what, g, m[1])
                need(not any(g is y for y in made), "string child is an old object")
                made.append(g)
                lst[i] = g
            else:
                need(g is m, "child %d after %s is %r, expected %r", i, what, g, m)
        model[:] = lst
        for x in made:
            inn = any(x is y for y in model)
            need(x.parent is (e if inn else None), "after %s: %r is %sin the list and has "
                 "parent %r", what, x, "" if inn else "not ", x.parent)

    used = []
    init = [mk(i) for i in case["init"]]
    init = [x for x in init if x[2]]
    for a, m, _ in init:
        e.children.append(a)
    match([m if m is not None else ("s", a) for a, m, _ in init], "append")
    for op in case["ops"]:
        used = []
        o, lst, what = op[0], list(model), str(op)
        if case["use"]:
            try:
                e.matcher_element
            except Exception:       # an empty grouping has no matcher
                pass

        def ex(f):
            try:
                return None, f()
            except (TypeError, ValueError, IndexError) as err:
                return err, None

        def val(a, m):
            return m if m is not None else ("s", a)
        exp_err = res = None
        if o in ("append", "insert", "set"):
            a, m, good = mk(op[-1])
            if o == "append":
                err, _ = ex(lambda: e.children.append(a))
                f = lambda: lst.append(val(a, m))
            elif o == "insert":
                err, _ = ex(lambda: e.children.insert(op[1], a))
                f = lambda: lst.insert(op[1], val(a, m))
            else:
                err, _ = ex(lambda: e.children.__setitem__(op[1], a))
                f = lambda: lst.__setitem__(op[1], val(a, m))
            if good:
                exp_err, _ = ex(f)
            else:
                exp_err = TypeError()
        elif o in ("extend", "iadd", "assign", "setslice"):
            ms = [mk(i) for i in op[2 if o == "setslice" else 1]]
            arg = [a for a, m, g in ms]
            vals = [val(a, m) for a, m, g in ms]
            if o != "setslice":
                arg = {"list": list, "tuple": tuple, "iter": iter}[op[2]](arg)
            sl = slice(*op[1]) if o == "setslice" else None
            if o == "extend":
                err, _ = ex(lambda: e.children.extend(arg))
            elif o == "iadd":
                def go():
                    e.children += arg
                err, _ = ex(go)
            elif o == "assign":
                def go():
                    e.children = arg
                err, _ = ex(go)
            else:
                err, _ = ex(lambda: e.children.__setitem__(sl, arg))
            if not all(g for _, _, g in ms) or (o == "assign" and op[2] == "iter"):
                exp_err = TypeError()
            elif o == "setslice":
                exp_err, _ = ex(lambda: lst.__setitem__(sl, vals))
            elif o == "assign":
                lst = vals
            else:
                lst = lst + vals
        elif o in ("pop", "popd"):
            k = op[1:]
            err, res = ex(lambda: e.children.pop(*k))
            exp_err, r2 = ex(lambda: lst.pop(*k))
            need(exp_err or res is r2, "%s returned %r, expected %r", what, res, r2)
        elif o in ("remove", "index"):
            a, m, good = mk(op[1])
            a = X.Literal(a) if "s" in op[1] else a
            err, res = ex(lambda: getattr(e.children, o)(a))
            exp_err, r2 = ex(lambda: getattr(lst, o)(a))
            same(res, r2, "result of " + what)
        elif o == "clear":
            err, _ = ex(e.children.clear)
            lst = []
        else:
            k = op[1] if o == "get" else slice(*op[1])
            err, res = ex(lambda: e.children[k])
            exp_err, r2 = ex(lambda: lst[k])
            if not exp_err and o == "get":
                need(res is r2, "%s returned %r", what, res)
            elif not exp_err:
                need(len(res) == len(r2) and all(x is y for x, y in zip(res, r2)),
                     "%s returned %r, expected %r", what, res, r2)
        need((err is None) == (exp_err is None), "%s on %r: raised %r, a list %s", what,
             model, err, "raises %r" % exp_err if exp_err else "does not raise")
        if err is not None and exp_err is not None:
            need(type(err) is type(exp_err), "%s raised %r, expected %r", what, err,
                 exp_err)
            lst = list(model)
        match(lst, what)
        same(bool(list(e.children) == model), True, "contents")
    for x in made:
        need(x.children is not None and len(list(x.children)) == len(x.children), "len")
