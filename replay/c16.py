"""Dictation grammars with rules of every kind (plain, with dictation, sequence rules,
visible and private) driven by random histories of adding, removing, compiling, matching,
rearranging and resetting: generated rules and originals, what is compiled, what may match
and what is left after removing."""
import random
import re
from lib import *

LIMIT = 2500
KNOWN = []
A, B, D = N("lit", x="aa"), N("lit", x="bb"), N("dict")
POOL = [A, N("alt", A, B), D, N("seq", A, D), N("seq", D, A), N("seq", A, N("alt", B, D)),
        N("seq", N("opt", A), D), N("alt", D, A), N("seq", A, D, B, D), N("opt", D),
        N("seq", N("alt", A, D), N("alt", B, D)), N("star", A)]
SEQ = [D, N("seq", A, D), N("seq", D, A), N("seq", A, D, B, D), N("seq", D, B, D)]


def rand(rng):
    rules = []
    for i in range(rng.randint(1, 5)):
        s = rng.random() < .4
        rules.append([rng.choice(SEQ if s else POOL), rng.random() < .65, s])
    return {"rules": rules, "ops": [[rng.choice([
        "add", "add", "rem", "remn", "comp", "root", "match", "matchn", "next", "rearr",
        "reset", "say"]), rng.randint(0, 4)] for _ in range(rng.randint(1, 8))],
        "seed": rng.randint(0, 99), "start": rng.randint(0, 3)}


def fixed():
    for i, d in enumerate(POOL):
        for vis in (True, False):
            for ops in ([], [["rem", 0]], [["remn", 0], ["add", 0]], [["match", 0], [
                    "reset", 0]], [["comp", 0], ["root", 0]]):
                yield {"rules": [[d, vis, False], [A, True, False]], "ops": ops, "seed": 1,
                       "start": 2}
    for d in SEQ:
        for vis in (True, False):
            for ops in ([], [["next", 0], ["rearr", 0]], [["next", 0], ["reset", 0]], [
                    ["match", 0], ["match", 0], ["reset", 0]], [["next", 0], ["comp", 0], [
                        "rem", 0]], [["say", 0], ["rem", 0]]):
                yield {"rules": [[d, vis, True], [A, True, False]], "ops": ops, "seed": 1,
                       "start": 2}


def check(case):
    from jsgf.ext import SequenceRule, DictationGrammar
    rng = random.Random(case["seed"])
    random.seed(case["seed"])
    objs = []
    for i, (d, vis, s) in enumerate(case["rules"]):
        cls = SequenceRule if s else RU.Rule
        objs.append(cls("r%d" % i, vis, build(d)))
    model = list(objs[:case["start"]])
    g = DictationGrammar(list(model), name="g")
    same(g.name, "g", "name")

    def gens(o):
        return list(g.get_generated_rules(o))

    def dictonly(k):
        return isinstance(k, SequenceRule) and k.current_is_dictation_only
    first = {}

    def look(what):
        allg = []
        for o in objs:
            ks = gens(o)
            inn = inlist(o, model)
            need(bool(ks) == inn, "%s: %s is %sin the grammar but %d rules are generated from "
                 "it", what, o, "" if inn else "not ", len(ks))
            for k in ks:
                need(g.get_original_rule(k) is o, "%s: original of %s is %s", what, k,
                     g.get_original_rule(k))
                same(bool(k.visible), bool(o.visible), "visible of generated " + k.name)
            if inn:
                if o in [o] and id(o) in first:
                    need(sameset(ks, first[id(o)]), "%s: rules generated from %s changed: %s",
                         what, o, ks)
                first[id(o)] = ks
                if isinstance(o, SequenceRule) or not any(
                        n["t"] == "dict" for n in nodes(case["rules"][objs.index(o)][0])):
                    need(len(ks) == 1 and ks[0] is o, "generated from %s: %s", o, ks)
            allg += ks
        names = [k.name for k in allg]
        need(len(set(names)) == len(names), "%s: two rules of the same name: %s", what, names)
        live = g.match_rules
        for k in live:
            need(inlist(k, allg) and k.visible, "%s: %s may match", what, k)
        for k in g.rules:
            need(any(k == x for x in allg + model), "%s: %s is in the grammar", what, k)
        for o in model:
            need(any(o == x for x in g.rules), "%s: %s is not in the grammar", what, o)
        for k in allg:
            if k.visible:
                need(inlist(k, live), "%s: visible %s may not match", what, k)
                need(any(k == x for x in g.rules), "%s: %s is not in the grammar", what, k)
        return allg

    def sameset(a, b):
        return len(a) == len(b) and all(inlist(x, b) for x in a)

    def inlist(x, xs):
        return any(x is y for y in xs)

    def arranged(what, allg):
        want = sorted(k.name for k in allg if not dictonly(k) and not (isinstance(
            k, SequenceRule) and k.refuse_matches) and k.active)
        text = g.compile()
        got = sorted(re.findall(r"^(?:public )?<([^>]*)> = ", text, re.M))
        same(got, want, "rules in the compiled text after " + what)
        for k in allg:
            if k.name in want:
                need(("public <%s> = " % k.name in text) == bool(k.visible),
                     "%s: visibility of %s in %s", what, k.name, text)
                need(k.compile() + "\n" in text, "%s: text of %s", what, k.name)
        need(bool(text) == bool(want), "%s: text %r", what, text)
        rt = g.compile_as_root_grammar()
        pub = [k.name for k in allg if k.name in want and k.visible]
        got = re.findall(r"^public <root> = \(([^)]*)\);", rt, re.M)
        same(sorted(got[0].split("|")) if got else [], sorted("<%s>" % n for n in pub),
             "root rule after " + what)

    arranged("start", look("start"))
    for o, i in case["ops"]:
        r = objs[i % len(objs)]
        inn = inlist(r, model)
        what = "%s %s" % (o, r.name)
        if o == "add":
            g.add_rule(r)
            if not inn:
                model.append(r)
                first.pop(id(r), None)
        elif o in ("rem", "remn"):
            ks = gens(r)
            g.remove_rule(r if o == "rem" else r.name)
            if inn:
                model[:] = [x for x in model if x is not r]
            for k in ks:
                need(not inlist(k, g.match_rules) and not any(k == x for x in g.rules),
                     "%s: generated %s is still there", what, k)
                need("<%s> = " % k.name not in g.compile(), "%s: %s still compiles", what, k)
                try:
                    g.get_original_rule(k)
                    raise Fail("%s: %s still has an original" % (what, k))
                except KeyError:
                    pass
        elif o == "comp":
            g.compile()
        elif o == "root":
            g.compile_as_root_grammar()
        elif o in ("match", "matchn"):
            s = rng.choice(["aa", "bb", "some thing", "aa some", "zz"])
            before = [(k, k.expansion, k.has_next_expansion) for x in model for k in gens(x)
                      if isinstance(k, SequenceRule)]
            res = g.find_matching_rules(s, o == "match")
            allg = [k for x in model for k in gens(x)]
            for k in res:
                need(inlist(k, allg) and k.visible, "%s: %s matches %r", what, k, s)
            for k, e, nxt in before:
                moved = k.expansion is not e
                need(moved == (inlist(k, res) and nxt and o == "match"),
                     "%s(%r): part of %s moved on: %s", what, s, k, moved)
            look(what)
            arranged(what, look(what))
        elif o == "next":
            for k in gens(r):
                if isinstance(k, SequenceRule):
                    k.set_next()
        elif o == "say":
            for k in gens(r):
                k.matches("aa")
        elif o == "rearr":
            g.rearrange_rules()
        elif o == "reset":
            g.reset_sequence_rules()
            for k in look(what):
                if isinstance(k, SequenceRule):
                    need(k.expansion is k.expansion_sequence[0] and not k.refuse_matches,
                         "%s: %s was not restarted", what, k)
        look(what)
        if o in ("rearr", "reset", "comp", "root", "add", "rem"):
            arranged(what, look(what))
    g.reset_sequence_rules()
    arranged("final reset", look("final reset"))
