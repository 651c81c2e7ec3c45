"""Grammars with up to five rules (public/private, enabled/disabled, case sensitive or
not), imports and header values: Rule.compile, Grammar.compile, compile_as_root_grammar,
RootGrammar.compile, compile_grammar and compile_to_file give exactly the JSGF document
computed from the case data."""
import tempfile
from lib import *

LIMIT = 5000
KNOWN = [
    {"id": "C02-K1", "case": {"cls": "Grammar", "name": "g", "cs": True, "head":
     ["1.0", "", ""], "imports": [], "rules": [{"name": "r", "vis": True, "act": True,
     "cls": "Rule", "d": N("alt", N("lit", x="Foo"), N("lit", x="b"), w=[1, 2])}]},
     "what": "weights of alternatives with upper-case literals are lost (compiling raises "
             "GrammarError) when the rule joins a case-sensitive grammar: the weight is "
             "kept under the alternative's old hash"}]
HEADS = [["1.0", "", ""], ["1.0", "UTF-8", "en"], ["2.0", "", "de"], ["1.0", "latin1", ""]]


def rule(name, d, vis=True, act=True, cls="Rule"):
    return {"name": name, "d": d, "vis": vis, "act": act, "cls": cls}


def fixed():
    lit = N("lit", x="Hello There", tag="t{1}")
    for cls in ("Grammar", "RootGrammar"):
        for cs in (False, True):
            yield {"cls": cls, "name": "g", "cs": cs, "head": HEADS[0], "imports": [],
                   "rules": []}
            for v in (False, True):
                for a in (False, True):
                    for v2 in (False, True):
                        for a2 in (False, True):
                            yield {"cls": cls, "name": "a.b", "cs": cs, "head": HEADS[1],
                                   "imports": ["x.y", "x.*"],
                                   "rules": [rule("r1", lit, v, a),
                                             rule("r2", N("ref", n="r1"), v2, a2),
                                             rule("r3", N("seq", lit, lit), v, a2)]}
            for names in (("b", "a", "C"), ("Zed", "zeD", "a"), ("c", "b", "a"),
                          ("r10", "r9", "r1"), ("longest", "mid", "s")):
                yield {"cls": cls, "name": "g", "cs": cs, "head": HEADS[0],
                       "imports": ["z.y", "b.*", "a.x"],
                       "rules": [rule(n, lit) for n in names]}
            for h in HEADS:
                yield {"cls": cls, "name": "g", "cs": cs, "head": h,
                       "imports": ["a.b.c"], "rules": [rule("x", lit)]}


def rand(rng):
    rs = []
    names = ["r0", "R1", "r1", "b", "Zed", "a", "r10", "x_y", "root2"]
    rng.shuffle(names)
    for i in range(rng.randint(0, 5)):
        rs.append(rule(names[i], gen(rng, rng.randint(0, 3), leaves=(
            "lit", "lit", "ref", "null", "void"), refs=("r0", "r1", "z.q", "b"), empty=.05,
            cs=True), rng.random() < .6, rng.random() < .75,
            rng.choice(["Rule", "Public"])))
    for r in rs:
        if r["cls"] == "Public":
            r["cls"] = "PublicRule" if r["vis"] else "PrivateRule"
    return {"cls": rng.choice(["Grammar", "RootGrammar"]), "name": rng.choice(
        ["g", "com.x.g", "default"]), "cs": rng.random() < .3, "head": rng.choice(HEADS),
        "imports": rng.sample(["a.b", "a.*", "x.y.z", "q.r"], rng.randint(0, 3)),
        "rules": rs}


def make(case):
    cls = getattr(G, case["cls"])
    g = cls(name=case["name"], case_sensitive=case["cs"])
    g.jsgf_version, g.charset_name, g.language_name = case["head"]
    for i in case["imports"]:
        g.add_import(G.Import(i))
    objs = []
    for r in case["rules"]:
        e = build(r["d"])
        if r["cls"] == "Rule":
            o = RU.Rule(r["name"], r["vis"], e)
        else:
            o = getattr(RU, r["cls"])(r["name"], e)
        g.add_rule(o)
        if not r["act"]:
            g.disable_rule(o)
        objs.append(o)
    return g, objs


def setcs(d, cs):
    d = dict(d)
    if d["t"] == "lit":
        d["cs"] = cs
    if "c" in d:
        d["c"] = [setcs(c, cs) for c in d["c"]]
    return d


def rule_text(r, cs, vis=None, ig=False):
    if not r["act"]:
        return ""
    s = "<%s> = %s;" % (r["name"], text(setcs(r["d"], cs), ig))
    return ("public " if (r["vis"] if vis is None else vis) else "") + s


def head(case):
    v, c, l = case["head"]
    return "#JSGF V" + " ".join(x for x in (v, c, l) if x) + ";\n" + \
        "grammar %s;\n" % case["name"] + "".join(
            "import <%s>;\n" % i for i in case["imports"])


def plain(case):
    return head(case) + "".join(rule_text(r, case["cs"]) + "\n" for r in case["rules"]
                                if r["act"])


def rooted(case):
    pub = [r["name"] for r in case["rules"] if r["vis"] and r["act"]]
    s = head(case)
    if pub:
        s += "public <root> = (%s);\n" % "|".join("<%s>" % n for n in pub)
        s += "".join(rule_text(r, case["cs"], False) + "\n" for r in case["rules"]
                     if r["act"])
    return s


def check(case):
    g, objs = make(case)
    for r, o in zip(case["rules"], objs):
        for ig in (False, True):
            same(o.compile(ig), rule_text(r, case["cs"], None, ig), "text of a rule")
    same(g.compile_as_root_grammar(), rooted(case), "root grammar text")
    first = rooted(case) if case["cls"] == "RootGrammar" else plain(case)
    same(g.compile(), first, "grammar text")
    same(g.compile_as_root_grammar(), rooted(case), "root grammar text, second time")
    same(g.compile(), first, "grammar text, second time")
    with tempfile.TemporaryDirectory() as tmp:
        p = os.path.join(tmp, "g.jsgf")
        g.compile_to_file(p)
        with open(p) as f:
            same(f.read(), first, "file written by compile_to_file")
        g.compile_to_file(p, compile_as_root_grammar=True)
        with open(p) as f:
            same(f.read(), rooted(case), "root file written by compile_to_file")
    if case["cls"] == "Grammar":
        c2 = dict(case, head=["1.1", "cs", "fr"])
        same(g.compile_grammar(charset_name="cs", language_name="fr", jsgf_version="1.1"),
             plain(c2), "text from compile_grammar")
