"""Random histories of adding, removing, enabling and disabling rules and imports (rules of
this and another grammar, equal rules, duplicate names, wrong types, rules still referenced,
by object or by name) on a Grammar or RootGrammar against a list model: contents, order,
grammar and case rule of every rule, lookups, dependencies, and errors that change nothing."""
from lib import *

LIMIT = 9000
KNOWN = []


def rand(rng):
    ops = []
    for _ in range(rng.randint(1, 10)):
        o = rng.choice(["add", "add", "add", "adds", "rem", "rem", "remf", "remn", "addi",
                        "addi", "remi", "bad", "en", "dis", "get", "cs", "other", "badrem",
                        "ref", "vis"])
        ops.append([o, rng.randint(0, 7), rng.randint(0, 7)])
    return {"cls": rng.choice(["Grammar", "Grammar", "RootGrammar"]),
            "cs": rng.random() < .4, "ops": ops,
            "off": rng.sample(range(8), rng.randint(1, 8)) if rng.random() < .4 else []}


def fixed():
    for cls in ("Grammar", "RootGrammar"):
        for cs in (False, True):
            for i in range(8):
                yield {"cls": cls, "cs": cs, "ops": [["add", i, 0], ["add", i, 0]]}
                yield {"cls": cls, "cs": cs, "ops": [["add", i, 0], ["rem", i, 0],
                                                     ["rem", i, 0], ["add", i, 0]]}
                yield {"cls": cls, "cs": cs, "off": list(range(8)),
                       "ops": [["add", j, 0] for j in range(8)] + [["add", i, 0]]}
                for j in range(8):
                    yield {"cls": cls, "cs": cs, "ops": [["add", i, 0], ["add", j, 0],
                                                         ["rem", i, 0], ["rem", j, 0]]}
                    yield {"cls": cls, "cs": cs, "ops": [["add", i, 0], ["other", j, 0],
                                                         ["rem", j, 0], ["remn", j, 0]]}
                    yield {"cls": cls, "cs": cs, "ops": [["addi", i, 0], ["addi", j, 0],
                                                         ["remi", i, 0], ["remi", j, 0]]}


def world():
    """eight rules: 0 and 1 equal, 2 same name as 0 but other content, 3 refers to 0 by name,
    4 refers to rule 5, 6 private, 7 with the name root"""
    a = RU.Rule("a", True, "Hello")
    r = [a, RU.Rule("a", True, "Hello"), RU.Rule("a", False, X.AlternativeSet("x", "y")),
         RU.Rule("b", True, X.Sequence("B", X.NamedRuleRef("a")))]
    five = RU.Rule("e", True, X.Literal("five"))
    r += [RU.Rule("d", True, X.OptionalGrouping(X.RuleRef(five))), five,
          RU.PrivateRule("f", X.Sequence(X.NamedRuleRef("b"), X.NamedRuleRef("zz"))),
          RU.Rule("root", True, "root")]
    return r


ERR = (ER.GrammarError, TypeError)


def refs(r):
    return [x for x in walk(r.expansion) if isinstance(x, X.NamedRuleRef)]


def check(case):
    g = getattr(G, case["cls"])(name="g", case_sensitive=case["cs"])
    h = G.Grammar("h", not case["cs"])
    rules = world()
    for j in case.get("off", ()):
        rules[j].disable()
    imps = [G.Import(n) for n in ("a.b", "a.*", "a.b", "x.y.z")] + [
        G.Import("a.b"), G.Import("q.*"), G.Import("x.y.z"), G.Import("a.c")]
    model, mi, hm = [], [], []
    cs = {id(r): None for r in rules}
    gcs = case["cs"]
    root = case["cls"] == "RootGrammar"

    def snap():
        return ([id(r) for r in g.rules], [i.name for i in g.imports],
                [(id(r.grammar), r.case_sensitive, r.visible, r.active, r.name)
                 for r in rules], [id(r) for r in h.rules])

    def eq(x, y):
        return x.name == y.name and x == y

    def used(r):
        """some rule of the grammar refers to r"""
        for x in model:
            for e in refs(x):
                if isinstance(e, X.RuleRef):
                    if e.referenced_rule is r or e.referenced_rule == r:
                        return True
                else:
                    for y in model:
                        if y.name == e.name:
                            if y is r or eq(y, r):
                                return True
                            break
        return False

    def dangling():
        return any(not isinstance(e, X.RuleRef) and not any(y.name == e.name for y in model)
                   for x in model for e in refs(x))

    def verify(what):
        got = g.rules
        need(len(got) == len(model) and all(x is y for x, y in zip(got, model)),
             "rules after %s: %s, expected %s", what, got, model)
        same(g.rule_names, [r.name for r in model], "rule names after " + what)
        vis = [r for r in model if r.visible]
        need(len(g.visible_rules) == len(vis) and all(
            x is y for x, y in zip(g.visible_rules, vis)), "visible rules after %s", what)
        same([i.name for i in g.imports], mi, "imports after " + what)
        same(g.import_names, mi, "import names after " + what)
        need(len(set(g.rule_names)) == len(g.rule_names), "two rules of the same name")
        got.append(None)
        g.imports.append(None)
        need(len(g.rules) == len(model) and len(g.imports) == len(mi),
             "the rules and imports handed out are the grammar's own lists")
        for r in rules:
            inn = any(r is x for x in model)
            inh = any(r is x for x in hm)
            need(r.grammar is (g if inn else h if inh else None),
                 "grammar of %s after %s is %s", r, what, r.grammar)
            if cs[id(r)] is not None:
                same(bool(r.case_sensitive), cs[id(r)], "case rule of %s after %s" % (
                    r, what))
                for x in walk(r.expansion):
                    if isinstance(x, X.Literal):
                        same(bool(x.case_sensitive), cs[id(r)], "case rule of %s" % x)
        for r in model:
            need(g.get_rule_from_name(r.name) is r and g.get_rule(r.name) is r,
                 "lookup of %s after %s", r.name, what)
        names = [r.name for r in model]
        rs = g.get_rules_from_names(*names)
        need(all(x is y for x, y in zip(rs, model)), "lookup of %s", names)
        for n in ("a", "b", "d", "e", "f", "root", "nope"):
            if n not in names:
                try:
                    x = g.get_rule_from_name(n) if not mi else None
                except ER.GrammarError:
                    x = None
                need(x is None, "lookup of %s gives %s", n, x)
        if not mi:
            for r in model:
                if not dangling():
                    dep = []
                    for e in refs(r):
                        t = e.referenced_rule if isinstance(e, X.RuleRef) else [
                            y for y in model if y.name == e.name][0]
                        if not any(t is y for y in dep):
                            dep.append(t)
                    d = r.dependencies
                    need(len(d) == len(dep) and all(y in d for y in dep),
                         "dependencies of %s: %s", r, d)

    def attempt(f, ok, err, what):
        s = snap()
        try:
            f()
        except ERR as e:
            need(not ok, "%s raised %r", what, e)
            need(err is None or isinstance(e, err), "%s raised %r", what, e)
            same(snap(), s, "state after failed " + what)
            return False
        need(ok, "%s did not raise", what)
        return True

    for op in case["ops"]:
        o, i, j = op
        r, im = rules[i % len(rules)], imps[i % len(imps)]
        what = "%s %s" % (o, r if "i" not in o else im)
        inn = any(r is x for x in model)
        if o in ("add", "adds"):
            if o == "add" and r.grammar is h:
                continue
            if root and r.name == "root":
                ok, err = False, ER.GrammarError
            elif r.name in [x.name for x in model]:
                ok, err = any(eq(r, x) for x in model), ER.GrammarError
            else:
                ok, err = True, None
            if r.grammar is h:
                continue
            new = ok and not any(r.name == x.name for x in model)
            if attempt((lambda: g.add_rule(r)) if o == "add" else (lambda: g.add_rules(r)),
                       ok, err, what) and new:
                model.append(r)
                cs[id(r)] = gcs
                spread(r, model, cs, gcs)
        elif o == "other":
            if r.grammar is None and r.name not in [x.name for x in hm]:
                h.add_rule(r)
                hm.append(r)
                cs[id(r)] = bool(h.case_sensitive)
                spread(r, hm, cs, bool(h.case_sensitive))
        elif o in ("rem", "remf"):
            force = o == "remf"
            target = [x for x in model if eq(x, r)]
            if inn:
                target = [x for x in model if x is r or eq(x, r)]
            if not target:
                attempt(lambda: g.remove_rule(r, force), False, ER.GrammarError, what)
            else:
                t = target[0]
                if not force and (dangling() or mi):
                    continue
                if not force and used(t):
                    attempt(lambda: g.remove_rule(r), False, ER.GrammarError, what)
                elif attempt(lambda: g.remove_rule(r, ignore_dependent=force), True, None,
                             what):
                    model[:] = [x for x in model if x is not t]
        elif o == "remn":
            t = [x for x in model if x.name == r.name]
            if not t:
                if not mi:
                    attempt(lambda: g.remove_rule(r.name, True), False, ER.GrammarError,
                            what)
            elif attempt(lambda: g.remove_rule(r.name, True), True, None, what):
                model[:] = [x for x in model if x is not t[0]]
        elif o == "addi":
            if attempt(lambda: g.add_import(im) if j % 2 else g.add_imports(im), True, None,
                       what) and im.name not in mi:
                mi.append(im.name)
        elif o == "remi":
            if attempt(lambda: g.remove_import(im) if j % 2 else g.remove_imports(im),
                       im.name in mi, ER.GrammarError, what):
                mi.remove(im.name)
        elif o == "bad":
            bad = [3, None, "a", im][j % 4]
            attempt(lambda: g.add_rule(bad), False, TypeError, "add_rule(%r)" % (bad,))
            bad = [3, None, "a.b", r][j % 4]
            attempt(lambda: g.add_import(bad), False, TypeError, "add_import(%r)" % (bad,))
            attempt(lambda: g.remove_import(bad), False, TypeError,
                    "remove_import(%r)" % (bad,))
        elif o == "badrem":
            attempt(lambda: g.remove_rule([3, None, im][j % 3]), False, TypeError,
                    "remove_rule of something else")
        elif o in ("en", "dis"):
            if inn:
                f = g.enable_rule if o == "en" else g.disable_rule
                f(r if j % 2 else r.name)
                same(r.active, o == "en", "active after " + what)
            elif r.name not in [x.name for x in model]:
                was = r.active
                try:
                    (g.enable_rule if o == "en" else g.disable_rule)(r.name)
                    raise Fail("%s of an unknown name did not raise" % what)
                except ER.GrammarError:
                    pass
                same(r.active, was, "active of an unrelated rule")
        elif o == "get":
            bad = [3, None, "a<" if mi else " a", "<a>", "", "a b"][j % 6]
            attempt(lambda: g.get_rule_from_name(bad), False,
                    TypeError if j % 6 < 2 else ER.GrammarError, "lookup of %r" % (bad,))
        elif o == "cs":
            if mi and dangling():       # resolving the imports is another matter
                continue
            gcs = bool(j % 2)
            g.case_sensitive = gcs
            for x in model:
                cs[id(x)] = gcs
                spread(x, model, cs, gcs)
        elif o == "vis":
            r.visible = bool(j % 2)
        verify(what)
        same(bool(g.case_sensitive), gcs, "case rule of the grammar")


def spread(r, model, cs, v, depth=0):
    """assigning a rule's case rule assigns that of the rules it refers to"""
    if depth > 8:
        return
    for e in refs(r):
        if isinstance(e, X.RuleRef):
            t = [e.referenced_rule]
        else:
            t = [y for y in model if y.name == e.name and r.grammar is y.grammar][:1]
        for y in t:
            cs[id(y)] = None            # either, depending on when it was referred to
            spread(y, model, cs, v, depth + 1)
