"""Names up to length 4 over a small alphabet of characters that matter (letters, digits,
dot, star, separators, blanks, control and non-ASCII characters), names built from the
special characters, reserved words and non-strings: each kind of object accepts exactly the
names that are valid for it, through the constructor and by assignment, keeps them as given
and keeps the old name when it refuses one."""
import itertools
import re
from lib import *

# names must not depend on what was parsed before
PA.parse_grammar_string("#JSGF V1.0;\ngrammar a.b;\nimport <x.y>;\n"
                        "public <q> = <a.b> c {t};\n")
PA.parse_rule_string("<a> = b /* c */ | <d>;")

LIMIT = 30000
KNOWN = []
KINDS = ("Rule", "PublicRule", "PrivateRule", "NamedRuleRef", "Import", "Grammar",
         "RootGrammar")
SPEC = "+-;:|/\\()[]@#%!^&~$_"


def oks(c, kind):
    return c.isalnum() or c == "_" or (c in SPEC and not (
        c == ";" and kind in ("Grammar", "RootGrammar"))) or re.match(r"\w", c, re.UNICODE)


def part(s, kind):
    return len(s) > 0 and all(oks(c, kind) for c in s)


def valid(kind, s):
    if not isinstance(s, str) or s != s.strip():
        return False
    ps = s.split(".")
    if kind in ("Rule", "PublicRule", "PrivateRule"):
        return part(s, kind) and s not in ("NULL", "VOID")
    if kind == "Import":
        if ps[-1] == "*":
            return len(ps) > 1 and all(part(p, kind) for p in ps[:-1])
        return len(ps) > 1 and all(part(p, kind) for p in ps)
    return all(part(p, kind) for p in ps) and s not in ("NULL", "VOID")


def rand(rng):
    k = rng.random()
    if k < .5:
        s = "".join(rng.choice("aB1._-*" + SPEC + " \t\n<>{}=\"',?\u00e9\u0416\u3042\u00a0\u2028")
                    for _ in range(rng.randint(0, 6)))
    elif k < .9:
        s = ".".join("".join(rng.choice("abC9_" + SPEC) for _ in range(rng.randint(0, 3)))
                     for _ in range(rng.randint(1, 4)))
        if rng.random() < .3:
            s += rng.choice([".*", "*", ".", ".*.a", " ", "\n", ".*a"])
    else:
        s = rng.choice(["NULL", "VOID"]) + rng.choice(["", "", "x", ".a", " ", "\n", ".*"])
        if rng.random() < .4:
            s = rng.choice(["a", "a.", ".", " "]) + s
    return {"kind": rng.choice(KINDS), "name": s}


def fixed():
    for kind in KINDS:
        for k in range(0, 4):
            for t in itertools.product("a.* ", repeat=k):
                yield {"kind": kind, "name": "".join(t)}
        for c in map(chr, list(range(0, 256)) + [0x3042, 0x2028, 0x416]):
            for s in (c, "a" + c, c + "a", "a" + c + "b", "a." + c, "a.b" + c):
                yield {"kind": kind, "name": s}
        for s in ("NULL", "VOID", "null", "NULLx", "xNULL", "a.NULL", "NULL.a", "NULL.*",
                  "VOID.b", "NULLVOID"):
            yield {"kind": kind, "name": s}
        for o in (None, 1, 1.5, True, [], ["a"], {}, ("a",)):
            yield {"kind": kind, "obj": o}


def make(kind, name):
    if kind == "Rule":
        return RU.Rule(name, True, "x")
    if kind in ("PublicRule", "PrivateRule"):
        return getattr(RU, kind)(name, "x")
    if kind == "NamedRuleRef":
        return X.NamedRuleRef(name)
    if kind == "Import":
        return G.Import(name)
    if kind == "RootGrammar":
        return G.RootGrammar(name=name)
    return getattr(G, kind)(name)


def check(case):
    kind = case["kind"]
    name = case["name"] if "name" in case else case["obj"]
    ok = valid(kind, name)
    try:
        o = make(kind, name)
    except ER.GrammarError:
        need(not ok, "%s(%r) is refused", kind, name)
    else:
        need(ok, "%s(%r) is accepted", kind, name)
        need(o.name == name and isinstance(o.name, str), "name of %s(%r) is %r", kind, name,
             o.name)
    old = "a.b" if kind == "Import" else "old"
    o = make(kind, old)
    try:
        o.name = name
    except ER.GrammarError:
        need(not ok, "assigning the name %r to a %s is refused", name, kind)
        same(o.name, old, "name after refusing %r" % (name,))
    else:
        need(ok, "assigning the name %r to a %s is accepted", name, kind)
        same(o.name, name, "assigned name")
    if kind == "NamedRuleRef":
        for n in (X.NullRef(), X.VoidRef()):
            was = n.name
            try:
                n.name = name
            except ER.GrammarError:
                pass
            same(n.name, was, "name of a %s after assigning %r" % (type(n).__name__, name))
