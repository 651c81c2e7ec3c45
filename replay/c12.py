"""Grammars with up to five rules in every combination of visible and enabled, with
histories of enabling, disabling, hiding, matching, generating and compiling: disabled rules
give nothing, find_matching_rules is exactly the enabled visible rules that match when asked
one by one, find_tagged_rules the (visible) rules that have the tag."""
import random
from lib import *

LIMIT = 6000
KNOWN = []
TAG = ["t", "u v", "", "B{", "\\"]


def rand(rng):
    rules = []
    for i in range(rng.randint(1, 5)):
        d = gen(rng, rng.randint(0, 3), kinds=("seq", "req", "alt", "opt"), leaves=(
            "lit", "lit", "lit", "ref") if i else ("lit",), refs=["r%d" % j for j in
                                                                  range(i)], tags=False,
            weights=False, words=["a", "b", "c", "B"], maxkids=2)
        for n in nodes(d):
            if rng.random() < .3:
                n["tag"] = rng.choice(TAG)
        rules.append([d, rng.random() < .6, rng.random() < .7, rng.choice([
            "Rule", "Rule", "spec"])])
    return {"cls": rng.choice(["Grammar", "RootGrammar"]), "rules": rules, "ops": [[
        rng.choice(["en", "dis", "eng", "disg", "engn", "disgn", "vis", "hid", "match", "gen",
                    "find", "comp", "tag"]), rng.randint(0, 4)] for _ in range(
                        rng.randint(0, 5))], "seed": rng.randint(0, 99)}


def fixed():
    a, b = N("lit", x="a", tag="t"), N("alt", N("lit", x="a"), N("lit", x="b", tag="u v"))
    for cls in ("Grammar", "RootGrammar"):
        for v in range(4):
            for act in range(4):
                rules = [[a, bool(v & 1), bool(act & 1), "Rule"],
                         [b, bool(v & 2), bool(act & 2), "spec"]]
                for ops in ([], [["dis", 0]], [["en", 0]], [["match", 0], ["disg", 0]],
                            [["find", 1], ["hid", 1]], [["vis", 0], ["engn", 0]],
                            [["disgn", 1], ["comp", 0]]):
                    yield {"cls": cls, "rules": rules, "ops": ops, "seed": 1}




def check(case):
    random.seed(case["seed"])
    rng = random.Random(case["seed"])
    g = getattr(G, case["cls"])(name="g")
    objs, vis, act, data = [], [], [], []
    for i, (d, v, a, kind) in enumerate(case["rules"]):
        if kind == "spec":
            r = (RU.PublicRule if v else RU.PrivateRule)("r%d" % i, build(d))
        else:
            r = RU.Rule("r%d" % i, v, build(d))
        g.add_rule(r)
        if not a:
            r.disable()
        objs.append(r)
        vis.append(v)
        act.append(a)
        data.append(d)
    table = {"r%d" % i: d for i, d in enumerate(data)}

    def tags(i, dep=0):
        out = set()
        for n in nodes(data[i]):
            t = (n.get("tag") or "").strip()
            if t:
                out.add(t)
            if n["t"] == "ref":
                out |= tags(int(n["n"][1:]), dep + 1)
        return out

    def look(what):
        s = " ".join(rng.choice("abc") for _ in range(rng.randint(1, 2)))
        fresh = getattr(G, case["cls"])(name="g")
        twins = []
        for i, d in enumerate(data):
            t = RU.Rule("r%d" % i, vis[i], build(d))
            fresh.add_rule(t)
            twins.append(t)
        own = [t.matches(s) for t in twins]
        for i, r in enumerate(objs):
            same(r.active, act[i], "active of %s after %s" % (r, what))
            got = r.matches(s)
            need(type(got) is bool and got == (act[i] and own[i]),
                 "after %s: matches(%r) of %s (enabled %s) is %s", what, s, r, act[i], got)
            part = r.find_matching_part(s)
            if not act[i]:
                need(part is None, "disabled rule matches the part %r", part)
                same(r.generate(), "", "generated by a disabled rule")
                same(X.RuleRef(r).generate(), "", "generated by a reference to it")
                via = RU.Rule("via", False, X.NamedRuleRef(r.name))
                via.grammar = g
                same(via.generate(), "", "generated by a reference to its name")
                same(r.compile(), "", "text of a disabled rule")
            else:
                need((part is None) == (twins[i].find_matching_part(s) is None),
                     "matching part %r of %s", part, r)
                need(r.compile() != "", "enabled rule compiles to nothing")
        for q in (s, "a", "b"):
            want = [r for i, r in enumerate(objs) if vis[i] and act[i] and
                    twins[i].matches(q)]
            got = g.find_matching_rules(q)
            need(len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                 "after %s: rules matching %r: %s, expected %s", what, q, got, want)
        for t in TAG + [" t ", "nope", "u  v"]:
            for hid in (False, True):
                want = [r for i, r in enumerate(objs) if (hid or vis[i]) and t.strip() and
                        t.strip() in tags(i)]
                got = g.find_tagged_rules(t, hid) if hid else g.find_tagged_rules(t)
                need(len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                     "after %s: rules tagged %r (hidden %s): %s, expected %s", what, t, hid,
                     got, want)
        text = g.compile()
        for i, r in enumerate(objs):
            need(("<r%d> =" % i in text) == (act[i] and (
                case["cls"] == "Grammar" or any(a and v for a, v in zip(act, vis)))),
                "rule %s in the compiled text: %s", r, text)

    look("start")
    for o, i in case["ops"]:
        i = i % len(objs)
        r = objs[i]
        if o in ("en", "dis"):
            r.enable() if o == "en" else r.disable()
            act[i] = o == "en"
        elif o in ("eng", "engn", "disg", "disgn"):
            x = r.name if o.endswith("n") else r
            g.enable_rule(x) if o.startswith("en") else g.disable_rule(x)
            act[i] = o.startswith("en")
        elif o in ("vis", "hid"):
            r.visible = vis[i] = o == "vis"
        elif o == "match":
            r.matches("a b")
        elif o == "gen":
            r.generate()
        elif o == "find":
            g.find_matching_rules("a")
        elif o == "comp":
            g.compile_as_root_grammar()
        elif o == "tag":
            t = TAG[i]
            r.expansion.tag = t
            data[i] = dict(data[i], tag=t)
        look("%s %d" % (o, i))
