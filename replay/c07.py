"""Random histories of changes to a grammar (literal text and case, children inserted,
removed and replaced, weights, whole expansions, names of references and rules, rules added,
removed, enabled, disabled, case rules of rules and grammars) interleaved with matching;
after each change every rule is compared with a rule built freshly from the current
content."""
import random
import warnings
from lib import *
warnings.simplefilter("ignore")

LIMIT = 6000
KNOWN = [
    {"id": "C07-K1", "case": {"cs": False, "rules": [["r0", N("opt", N("seq", N(
        "rep", N("lit", x="a"))))]], "ops": [["match"], ["out", 0, 0, 2]]},
     "what": "the matcher of a Repeat below a moved expansion is kept although it depends on "
             "the ancestors (optional or repeated ancestors) of the Repeat"},
    {"id": "C07-K2", "case": {"cs": False, "rules": [["r0", N("lit", x="a")], [
        "r1", N("seq", N("lit", x="b"))]], "ops": [["ins", 1, 0, 1, N("ref", n="r0")]]},
     "what": "a NamedRuleRef put into the tree of an existing rule cannot be resolved until "
             "the rule's expansion is assigned again"},
    {"id": "C07-K3", "case": {"cs": False, "rules": [["r0", N("lit", x="a")], ["r1", N(
        "rref", n="r0")]], "ops": [["loose"], ["match"], ["text", 0, 0, 0, "b"]]},
     "what": "changing a rule does not reach the matchers of references to it from rules "
             "that are not in the same grammar"},
    {"id": "C07-K4", "case": {"cs": False, "rules": [["r0", N("lit", x="a")], ["r1", N(
        "rref", n="r0")]], "ops": [["match"], ["rename", 0, 0, 0], ["text", 0, 0, 0, "b"]]},
     "what": "changing a rule that was renamed does not reach the matchers of RuleRefs made "
             "before"}]
W = ["a", "b", "c", "A"]


def piece(rng, refs=(), depth=1):
    return gen(rng, depth, kinds=("seq", "alt", "opt", "req"), leaves=(
        "lit", "lit", "lit") + (("rref",) if refs else ()), refs=refs, tags=False,
        weights=False, words=W, maxkids=2)


def tree(rng, refs):
    t = gen(rng, rng.randint(0, 3), kinds=("seq", "alt", "req", "opt", "rp"), tags=False,
            leaves=("lit", "lit") + (("ref", "rref") if refs else ()), refs=refs,
            words=W, weights=True, maxkids=3)

    def fix(d):
        if d["t"] == "rp":
            return N(rng.choice(["rep", "star"]), rng.choice(
                [N("lit", x=rng.choice("ab")), N("alt", N("lit", x="a"), N("lit", x="b")),
                 N("seq", N("lit", x="a"), N("lit", x="b"))]))
        if "c" in d:
            d["c"] = [fix(c) for c in d["c"]]
            if any(n["t"] in ("rep", "star") for c in d["c"] for n in nodes(c)):
                d.pop("w", None)
        return d
    return fix(t)


def rand(rng):
    rules = []
    for i in range(rng.randint(1, 3)):
        rules.append(["r%d" % i, tree(rng, ["r%d" % j for j in range(i)])])
    ops = []
    for _ in range(rng.randint(1, 7)):
        o = rng.choice(["text", "text", "cs", "ins", "ins", "pop", "set", "set", "weight",
                        "weight", "exp", "en", "dis", "rem", "add", "gcs", "rcs", "match",
                        "match", "clear", "assign", "refname", "slice", "unw"])
        r, i, k = rng.randint(0, 3), rng.randint(0, 9), rng.randint(0, 3)
        op = [o, r, i, k]
        if o == "text":
            op.append(rng.choice(W))
        elif o in ("cs", "gcs", "rcs"):
            op.append(rng.random() < .5)
        elif o in ("ins", "set", "assign", "slice", "exp", "add"):
            op.append(piece(rng, ["r0"] if r and rng.random() < .3 else []))
        elif o == "weight":
            op.append(rng.choice([0, 0, 1, 2, .5]))
        ops.append(op)
    return {"cs": rng.random() < .2, "rules": rules, "ops": ops}


def fixed():
    a, b, c = (N("lit", x=x) for x in "abc")
    base = [["r0", N("alt", a, b)], ["r1", N("seq", N("ref", n="r0"), c)],
            ["r2", N("seq", N("opt", a), N("rref", n="r0"), N("rep", b))]]
    for ops in ([["text", 0, 0, 0, "z"]], [["text", 1, 0, 0, "z"]], [["cs", 0, 0, 0, True]],
                [["ins", 0, 0, 0, c]], [["ins", 1, 0, 5, a]], [["pop", 0, 0, 0]],
                [["pop", 1, 0, 1]], [["set", 0, 0, 1, N("seq", c, c)]],
                [["weight", 0, 0, 0, 0]], [["weight", 0, 0, 0, 0], ["weight", 0, 0, 1, 1],
                                           ["match"], ["pop", 0, 0, 0]],
                [["exp", 0, 0, 0, N("seq", c, a)]], [["dis", 0, 0, 0], ["en", 0, 0, 0]],
                [["rem", 0, 0, 0]], [["rem", 2, 0, 0], ["add", 0, 0, 0, c]],
                [["rem", 0, 0, 0], ["add", 0, 0, 0, c]], [["gcs", 0, 0, 0, True]],
                [["rcs", 0, 0, 0, True]], [["clear", 0, 0, 0]],
                [["assign", 0, 0, 0, N("seq", c, b)]],
                [["refname", 1, 0, 0]], [["weight", 0, 0, 0, 0], ["weight", 0, 0, 1, 1],
                                        ["match"], ["weight", 0, 0, 0, 1]]):
        for cs in (False, True):
            yield {"cs": cs, "rules": base, "ops": ops}
            yield {"cs": cs, "rules": base, "ops": [["match"]] + ops}


class State(object):
    def __init__(self, case):
        self.env = Env()
        self.g = G.Grammar("g", case["cs"])
        self.objs = []
        for name, d in case["rules"]:
            r = RU.Rule(name, True, build(d, self.env))
            self.env.rules[name] = r
            self.objs.append(r)
            self.g.add_rule(r)
        self.loose = False

    def fresh(self):
        """freshly built rules with the current content"""
        f = {}

        def copy(e):
            kids = [copy(c) for c in e.children]
            if isinstance(e, X.Literal):
                n = X.Literal(e.text, bool(e.case_sensitive))
                flags.append((n, bool(e.case_sensitive)))
            elif isinstance(e, X.RuleRef):
                n = X.RuleRef(make(e.referenced_rule))
            elif isinstance(e, X.NamedRuleRef):
                n = X.NamedRuleRef(e.name)
            elif isinstance(e, X.BaseExpansionRef):
                n = type(e)()
            elif isinstance(e, X.SingleChildExpansion):
                n = type(e)(kids[0] if kids else X.Literal("x"))
                if not kids:
                    n.children.pop()
            else:
                n = type(e)(*kids)
            if isinstance(e, X.AlternativeSet) and e.weights:
                for i, c in enumerate(e.children):
                    n.set_weight(n.children[i], e.weights[c])
            return n

        def make(r):
            if id(r) not in f:
                f[id(r)] = n = RU.Rule(r.name, r.visible, copy(r.expansion))
                if not r.active:
                    n.disable()
            return f[id(r)]
        flags = []
        g = G.Grammar("g", self.g.case_sensitive)
        for r in self.objs:
            n = make(r)
            if r.grammar is self.g:
                g.add_rule(n)
        for n, cs in flags:
            n.case_sensitive = cs
        return [f[id(r)] for r in self.objs]

    def inside(self, r, dep=0):
        """the rule and all it refers to are in the grammar"""
        return self.loose or r.grammar is self.g and dep < 9 and all(
            self.inside(e.referenced_rule, dep + 1) for e in walk(r.expansion)
            if isinstance(e, X.RuleRef))

    def sane(self):
        """inside the domain in which the matcher library gives an answer"""
        def null(e, dep=0):
            if isinstance(e, X.Literal):
                return not e.text
            if isinstance(e, X.NamedRuleRef):
                try:
                    return dep > 9 or null(e.referenced_rule.expansion, dep + 1)
                except ER.GrammarError:
                    return True
            if isinstance(e, (X.OptionalGrouping, X.KleeneStar, X.NullRef)):
                return True
            if not e.children:
                return True
            ks = [null(c, dep) for c in e.children]
            return any(ks) if isinstance(e, X.AlternativeSet) else all(ks)
        for r in self.objs:
            for e in walk(r.expansion):
                if isinstance(e, X.Repeat) and any(null(c) for c in e.children):
                    return False
                if isinstance(e, X.AlternativeSet) and e.weights:
                    if len({id(c) for c in e.children}) != len(set(map(hash, e.children))):
                        return False
                    if any(c not in e.weights for c in e.children):
                        return False
        return True


def noref(d):
    if d["t"] == "rref":
        return N("lit", x="c")
    return dict(d, c=[noref(c) for c in d["c"]]) if "c" in d else d


def ask(f, s):
    try:
        return f(s)
    except RecursionError:
        raise
    except Exception as e:
        return type(e).__name__


def compare(st, rng, what):
    if not st.sane():
        return False
    new = st.fresh()
    phrases = [" ".join(rng.choice(W) for _ in range(rng.randint(1, 3)))
               for _ in range(3)] + ["a", "c", "b a", "a c"]
    for n in new:
        for _ in range(2):
            p = ask(lambda s: n.generate(), "")
            if p and " " in p + " ":
                phrases.append(p)
    for s in phrases:
        for r, n in zip(st.objs, new):
            if not st.inside(r):
                continue
            x, y = ask(r.matches, s), ask(n.matches, s)
            need(x == y, "%s: matches(%r) of rule %s is %r, of a fresh rule %r; content %s",
                 what, s, r.name, x, y, n.expansion)
            x, y = ask(r.find_matching_part, s), ask(n.find_matching_part, s)
            need(x == y, "%s: find_matching_part(%r) of rule %s is %r, of a fresh rule %r; "
                 "content %s", what, s, r.name, x, y, n.expansion)
    return True


def check(case):
    rng = random.Random(repr(case))
    random.seed(repr(case))
    st = State(case)
    for op in case["ops"]:
        o = op[0]
        if o == "match":
            if not compare(st, rng, "before changes"):
                return
            continue
        if o == "loose":                # known finding only
            st.loose = True
            for r in st.objs:
                st.g.remove_rule(r, True)
            continue
        r = st.objs[op[1] % len(st.objs)]
        if r is st.objs[0] and len(op) > 4 and isinstance(op[4], dict):
            op = op[:4] + [noref(op[4])]
        all_ = walk(r.expansion)
        kind = {"text": X.Literal, "cs": X.Literal, "weight": X.AlternativeSet,
                "unw": X.AlternativeSet,
                "refname": X.NamedRuleRef}.get(o, X.VariableChildExpansion)
        cand = [e for e in all_ if isinstance(e, kind)]
        if o == "refname":
            cand = [e for e in cand if not isinstance(e, X.RuleRef)]
        if o in ("text", "cs", "weight", "unw", "refname", "ins", "pop", "set", "clear",
                 "assign", "slice"):
            if not cand:
                continue
            e = cand[op[2] % len(cand)]
        k = op[3] if len(op) > 3 else 0
        a = op[4] if len(op) > 4 else None
        if o == "text":
            e.text = a
        elif o == "cs":
            e.case_sensitive = a
        elif o == "weight":
            if len(e.children) and not any(isinstance(y, X.Repeat) for y in walk(e)):
                if not e.weights:
                    for i in range(len(e.children)):
                        e.set_weight(i, 1)
                e.set_weight(k % len(e.children), a)
        elif o == "unw":
            e.weights.clear()
            e.invalidate_matcher()
        elif o == "refname":
            e.name = "r0"
        elif o == "ins":
            e.children.insert(k, build(a, st.env))
            if isinstance(e, X.AlternativeSet) and e.weights:
                e.set_weight(min(k, len(e.children) - 1), 1)
        elif o == "pop" and len(e.children) > 1:
            e.children.pop(k % len(e.children))
        elif o == "set" and len(e.children):
            e.children[k % len(e.children)] = build(a, st.env)
        elif o == "clear":
            e.children.clear()
            e.children.append("b")
        elif o == "assign":
            e.children = [build(a, st.env), "c"]
        elif o == "slice":
            e.children[k:k + 2] = [build(a, st.env)]
        elif o == "exp":
            r.expansion = build(a, st.env)
        elif o == "en":
            r.enable()
        elif o == "dis":
            r.disable()
        elif o == "rem" and r.grammar is st.g:
            st.g.remove_rule(r, ignore_dependent=True)
        elif o == "add":
            if r.grammar is None and r.name not in st.g.rule_names:
                st.g.add_rule(r)
            elif "n%d" % k not in st.g.rule_names + [x.name for x in st.objs]:
                n = RU.Rule("n%d" % k, True, build(a, st.env))
                st.objs.append(n)
                st.g.add_rule(n)
            else:
                free = [x for x in ("r0", "r1") if x not in st.g.rule_names]
                if free and r.name != "r0":
                    n = RU.Rule(free[0], True, build(N("lit", x="c")))
                    st.objs.append(n)
                    st.g.add_rule(n)
        elif o == "gcs":
            st.g.case_sensitive = a
        elif o == "rcs":
            r.case_sensitive = a
        elif o == "rename":
            if "zz" not in [x.name for x in st.objs]:
                r.name = "zz"
        elif o == "out":                # known finding only
            e = walk(r.expansion)[1]
            r.expansion.children.pop(0)
            r.expansion = e
        if not compare(st, rng, "after %s" % op):
            return
    compare(st, rng, "at the end")
