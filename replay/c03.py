"""Grammars whose rules may be impossible to compile (an empty literal, an alternative
without a weight) at any position: after compile / compile_as_root_grammar /
Rule.compile, whether they return or raise, every rule, name, visibility, active flag,
order, import, header value and tree is as before (empty groupings may hold <NULL>), and
a later compile of a compilable grammar gives the same text as on a fresh copy."""
from lib import *
import c02

LIMIT = 6000
KNOWN = []


def fixed():
    ok, bad = N("lit", x="a"), N("lit", x="")
    part = N("alt", N("lit", x="a"), N("lit", x="b"), w=[1, None])
    for cls in ("Grammar", "RootGrammar"):
        for calls in (["compile"], ["compile_as_root_grammar"],
                      ["compile_as_root_grammar", "compile"]):
            for b in (bad, part, N("seq", ok, N("opt", bad))):
                for k in range(4):
                    for v in (True, False):
                        ds = [ok, N("seq", N("rep"), ok), ok, ok]
                        ds[k] = b
                        yield {"cls": cls, "name": "g", "cs": False, "head": ["1.0", "", ""],
                               "imports": ["a.b"], "calls": calls,
                               "rules": [c02.rule("r%d" % i, d, v or i != k, True)
                                         for i, d in enumerate(ds)]}


def rand(rng):
    c = c02.rand(rng)
    for r in c["rules"]:
        if rng.random() < .2:
            r["d"] = N("seq", r["d"], N(rng.choice(["lit"]), x=""))
        elif rng.random() < .1:
            r["d"] = N("alt", N("lit", x="p"), N("lit", x="q"), w=[1, None])
    c["calls"] = [rng.choice(["compile", "compile_as_root_grammar", "rule"])
                  for _ in range(rng.randint(1, 3))]
    return c


def snap(g, objs):
    return {"name": g.name, "head": (g.jsgf_version, g.charset_name, g.language_name),
            "imports": [i.name for i in g.imports], "rules": [id(r) for r in g.rules],
            "cs": g.case_sensitive,
            "state": [(o.name, bool(o.visible), o.active, o.grammar is g,
                       bool(o.case_sensitive)) for o in objs]}


def ok(case):
    return not any(bad_lit(r["d"]) or partial_w(r["d"]) for r in case["rules"]
                   if r["act"])


def check(case):
    g, objs = c02.make(case)
    before = snap(g, objs)
    exp = [id(o.expansion) for o in objs]
    for call in case["calls"]:
        try:
            if call == "rule":
                for o in objs:
                    o.compile()
            else:
                getattr(g, call)()
        except (ER.CompilationError, ER.GrammarError) as e:
            need(not ok(case), "%s raised %s although every rule is compilable", call, e)
        same(snap(g, objs), before, "state after %s" % call)
        same([id(o.expansion) for o in objs], exp, "expansion objects after " + call)
        for r, o in zip(case["rules"], objs):
            links(o.expansion)
            d = c02.setcs(r["d"], case["cs"])
            like(o.expansion, d)
            need(all(x.rule is o for x in walk(o.expansion) if x.rule is not None),
                 "an expansion belongs to another rule after %s", call)
    if ok(case):
        h, _ = c02.make(case)
        same(g.compile(), h.compile(), "text after the calls")
        same(g.compile_as_root_grammar(), h.compile_as_root_grammar(), "root text")


def like(e, d):
    same(e.tag, (d.get("tag") or "").strip(), "tag")
    kids = list(e.children)
    if d["t"] in GROUP and not kidsof(d):
        need(len(kids) == 0 or (len(kids) == 1 and isinstance(kids[0], X.NullRef)),
             "an empty grouping holds %s", kids)
        return
    if d["t"] == "lit":
        same(e.text, low(d), "text of literal")
    same(len(kids), len(kidsof(d)), "number of children of %s" % e)
    for c, k in zip(kids, kidsof(d)):
        like(c, k)
