"""writes MANIFEST.json: claims the properties that have a check"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc import registry

NA = {
    "C07": "equality of matching with a fresh rule is about what pyparsing elements accept, "
           "which no contract here can express; the invariant about cached elements alone "
           "(an expansion with a cached element only has children with cached elements) "
           "has not been discharged",
    "C08": "the contracts of the copy methods need an isomorphism between two object "
           "graphs as a specification function over two heaps, which the verifier's "
           "specification language (functions of one heap) does not have",
    "C09": "collections.Counter compares by == and hash of the library's objects, with a "
           "known disagreement (C09-K1): a contract for Counter that is both sound and "
           "strong enough for the equality of alternative sets has not been found",
    "C16": "splitting a rule into generated rules (expand_dictation_expansion) copies and "
           "rewrites trees, which needs the contracts of C08",
    "C17": "file-system search and cross-file import resolution run the pyparsing "
           "grammar parser; no contract within reach of this verifier can express what "
           "that third-party parser accepts",
    "C18": "the parser is a set of pyparsing combinators built at run time (operators, "
           "parse actions, regular expressions): its meaning is pyparsing's, which is "
           "outside the verified language, so no obligation about it can be generated",
    "C19": "what a matcher element accepts is decided inside pyparsing (third-party "
           "code, backtracking and parse actions); contracts can fix which element is "
           "built (C07) but not what it accepts",
}
LEVEL = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": [],
     "not_applicable": []}
for i in ids:
    if i in registry.PROPS:
        P = registry.PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3-vt check.py %s --tier quick" % i,
            "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
            "technique": "contract-based deductive verification of the real source "
                         "(own VC generator over the Python AST, z3); counterexamples "
                         "by bounded replay of the executable contract",
            "level": P["level"], "level_note": P["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
