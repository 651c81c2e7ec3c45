"""Which contracts decide which property."""
import os
import time
import z3
from .front import Program
from .world import World, verify
from .solve import discharge, prove_lemma
from . import comp, gram, flat, tags, gates, names, kids, gen, regs, seqr, rels

TRUSTED = [
    "pyvc (this repository's VC generator: /verif/pyvc), the CPython ast module",
    "z3 (E-matching, mbqi off)",
]
ASSUMPTIONS = [
    "Python semantics of the supported subset as encoded by pyvc/engine.py: integers "
    "are mathematical, floats are reals, no MemoryError/RecursionError/KeyboardInterrupt",
    "the class universe is the library's own concrete classes; attributes are written "
    "only through the library's own code (declared field types are checked at every "
    "write in the verified bodies)",
    "two objects reached through different private fields alias only as the declared "
    "ownership allows (each ChildList owns a private list)",
]

PROPS = {}


def prop(pid, world, targets, lemmas=None, level="proof", assumptions=(), trusted=(),
         bounded=(), note=""):
    PROPS[pid] = dict(world=world, targets=targets, lemmas=lemmas, level=level, note=note,
                      assumptions=list(assumptions), trusted=list(trusted),
                      bounded=list(bounded))


_cache = {}


def world_of(pid):
    if pid not in _cache:
        prog = Program()
        w = PROPS[pid]["world"](prog)
        ls = PROPS[pid]["lemmas"](w) if PROPS[pid]["lemmas"] else []
        _cache[pid] = (prog, w, ls)
    return _cache[pid]


def classes_for(w, ct):
    """concrete receiver classes a contract is verified for"""
    if ct.cls is None or ct.kind == "ctor":
        return [""]
    if ct.cls in w.concrete:
        names = [c for c in w.concrete[ct.cls] if c in w.prog.classes]
    else:
        names = sorted(c.name for c in w.prog.subclasses(ct.cls)
                       if c.name not in w.excluded_classes)
    if not ct.by_body:
        return names
    groups = {}
    for n in names:
        groups.setdefault(id(w.prog.classes[n].lookup(ct.member)[1]), []).append(n)
    return sorted("|".join(x) for x in groups.values())


def jobs_of(w, ct):
    if ct.trusted:
        return []
    return [("contract", ct.name, c, k) for c in classes_for(w, ct)
            for k in sorted(ct.cases())]


def first_jobs(pid):
    prog, w, ls = world_of(pid)
    out = []
    for n in PROPS[pid]["targets"]:
        cts = [c for c in w.contracts + w.variants if c.name == n]
        if not cts:
            raise KeyError("no contract %s" % n)
        out += jobs_of(w, cts[0])
    out += [("lemma", l.name, "", "") for l in ls]
    return out


def more_jobs(pid, used):
    prog, w, ls = world_of(pid)
    out = []
    for c in w.contracts:
        if c.name in used:
            out += jobs_of(w, c)
    return out


def run_job(pid, tier, kind, name, cls, case):
    prog, w, ls = world_of(pid)
    t0 = time.time()
    to = 10000 if tier == "quick" else 40000
    if kind == "lemma":
        l = [x for x in ls if x.name == name][0]
        obls = prove_lemma(w, l, to)
        return {"name": name, "kind": kind, "error": None, "vacuous": None, "used": [],
                "inlined": [], "paths": 0, "seconds": time.time() - t0,
                "obls": [ser(o) for o in obls]}
    ct = [c for c in w.contracts + w.variants if c.name == name][0]
    r = verify(w, ct, cls or None, budget=450 if tier == "quick" else 1200,
               case=case)
    if not (r.error or r.vacuous):
        discharge(w, r, to)
    else:
        r.obls = []
    lab = ("%s[%s]" % (name, cls) if cls else name) + ("{%s}" % case if case else "")
    return {"name": lab, "kind": kind,
            "error": r.error, "vacuous": r.vacuous, "used": sorted(r.used),
            "inlined": sorted(r.inlined), "paths": r.paths, "seconds": r.seconds,
            "obls": [ser(o) for o in r.obls]}


def ser(o):
    return {"label": o.label, "status": o.status, "time": o.time, "backend": o.backend,
            "reason": getattr(o, "reason", None),
            "goal": "" if o.status == "proved" else str(o.goal)[:2000]}


prop("C01", comp.world, ["Expansion.compile"], lemmas=comp.lemmas,
     assumptions=[
         "expansion trees are finite; optional/repeat groupings hold at most one child",
         "weighted alternative sets are non-empty and their alternatives contain no "
         "empty grouping (known finding: filling an empty grouping changes the key "
         "its weight is stored under)",
     ],
     trusted=["str.lower, str.join, '%.4f' formatting and dict lookup by structural "
              "key are uninterpreted",
              "specification functions depend only on the part of the heap reachable "
              "from their argument (frame axioms of theory.agree_axioms; hkey under "
              "filled)"],
     note="every compile method, per concrete class, proved for all trees; pyparsing, "
          "str and float formatting trusted")

GRAM_ASSUME = [
    "the rules of the grammar are Rule / PublicRule / PrivateRule objects with distinct "
    "names, the grammar is a Grammar or RootGrammar (SequenceRule and DictationGrammar: "
    "C15, C16); every rule's expansion is in C01's domain",
    "the file written by compile_to_file is a ghost string: open(path, 'w') empties it "
    "and write appends",
]
GRAM_TRUST = [
    "str.join is at least as long as each of its parts; a list comprehension, filter or "
    "loop over a list sees the list as it is when the loop starts",
    "specification functions depend only on the part of the heap reachable from their "
    "argument (frame axioms of theory.agree_axioms; hkey under filled)",
]

prop("C02", gram.world,
     ["Rule.compile", "Grammar.compile", "Grammar.compile_as_root_grammar",
      "Grammar.compile_grammar", "Grammar.compile_to_file",
      "Grammar.jsgf_header (getter)", "Grammar.visible_rules (getter)",
      "Rule.__eq__, different names"],
     lemmas=gram.lemmas, assumptions=GRAM_ASSUME, trusted=GRAM_TRUST,
     note="text of rules and grammars as a function of their state, proved for all "
          "lists of rules")
prop("C03", gram.world,
     ["Rule.compile", "Grammar.compile", "Grammar.compile_as_root_grammar",
      "Grammar.compile_grammar", "Grammar.compile_to_file",
      "Rule.__eq__, different names"],
     lemmas=gram.lemmas, assumptions=GRAM_ASSUME, trusted=GRAM_TRUST,
     note="frame conditions of every compile method: nothing but empty groupings and "
          "cached matchers is written, on normal and exceptional exit")

prop("C05", flat.world,
     ["jsgf.expansions.map_expansion", "jsgf.expansions.flat_map_expansion",
      "jsgf.expansions.filter_expansion", "jsgf.expansions.find_expansion"],
     lemmas=flat.lemmas,
     assumptions=[
         "the tree is finite and its references resolve inside the grammar of their own "
         "rule (finite_deep); other trees: only that the callback is given expansions",
         "the callback is a pure function of the expansion whose calls are recorded in "
         "a ghost trace (callbacks of the library itself are verified where they are "
         "used)",
     ],
     trusted=["imports (Grammar.resolve_imports, Import.resolve) are assumed contracts, "
              "reached only by references that do not resolve locally",
              "specification functions depend only on the part of the heap reachable "
              "from their argument (frame axioms of theory.agree_axioms)"],
     note="the sequence of calls and the result of every traversal function, for every "
          "order and depth, proved for all trees by induction on their height")

prop("C14", tags.world,
     ["Expansion.tag (getter)", "Expansion.tag (setter)", "Rule.tags (getter)",
      "Rule.matched_tags (getter)", "Rule.has_tag"],
     lemmas=tags.lemmas,
     assumptions=[
         "rules are Rule / PublicRule / PrivateRule objects whose tree is finite and "
         "whose references resolve inside their own grammar",
         "Expansion.had_match is a function of the matching state and changes nothing "
         "(assumed contract; decided by bounded replay)"],
     trusted=["str.strip is uninterpreted; imports are assumed contracts"],
     bounded=["tags of SequenceRules, had_match, get_tags_matching: bounded replay"],
     note="storing a tag proved for every kind of value and every class; the tags and "
          "matched tags of a rule and has_tag proved for all trees")

prop("C12", gates.world,
     ["Rule.active (getter)", "Rule.enable", "Rule.disable", "Rule.matches, disabled",
      "Rule.find_matching_part, disabled", "Rule.generate, disabled", "NamedRuleRef.generate, to a disabled rule",
      "Rule.compile, disabled", "Grammar.visible_rules (getter)",
      "Grammar.match_rules (getter)", "Grammar.find_matching_rules",
      "Grammar.find_tagged_rules", "Grammar.enable_rule, by name",
      "Grammar.disable_rule, by name"],
     lemmas=gates.lemmas,
     assumptions=[
         "rules are Rule / PublicRule / PrivateRule objects, grammars Grammar or "
         "RootGrammar objects; the trees of the rules are finite and their references "
         "resolve inside their own grammar",
         "whether an enabled rule matches on its own is a function of the rule and the "
         "speech (assumed contract of Rule.matches for enabled rules: C07, C19)"],
     trusted=["imports are assumed contracts; str.strip is uninterpreted"],
     bounded=["SequenceRule, DictationGrammar, matching itself: bounded replay"],
     note="a disabled rule's results, the matching and tagged rules of a grammar and "
          "enabling by name, proved for all lists of rules")

prop("C10", names.world,
     ["BaseRef.name (getter)", "BaseRef.name (setter)", "Import(name)", "Grammar(name)",
      "NamedRuleRef(name)", "NullRef()", "VoidRef()"],
     lemmas=names.lemmas,
     assumptions=[
         "whether a string is a valid name of a kind is the verdict of BaseRef.valid, "
         "whose regular expressions are uninterpreted predicates here (what they accept "
         "is decided by bounded replay against an independent definition)"],
     trusted=["re.compile / re.match: functions of the pattern and the string"],
     bounded=["the regular expressions of references.py, Rule constructors: bounded "
              "replay"],
     note="a name is stored exactly if it is valid for its kind and otherwise raises "
          "leaving the old one, for every class and kind of value")

prop("C04", kids.world,
     ["Expansion.parent (setter)", "Expansion.children (setter)", "ChildList.append",
      "ChildList.insert", "ChildList.extend", "ChildList.__iadd__", "ChildList.pop",
      "ChildList.remove", "ChildList.clear", "ChildList.__setitem__, a position",
      "ChildList.__setitem__, a slice", "ChildList.index, reading",
      "ChildList.__len__, reading", "ChildList.__getitem__, reading",
      "Expansion.children (getter), reading", "Expansion.parent (getter), reading"],
     lemmas=kids.lemmas,
     assumptions=[
         "every element of a child list has the list's expansion as its parent before "
         "the operation (the invariant this property states); for operations that take "
         "elements away no expansion object is in the list twice",
         "== on expansions is a reflexive function of the pair of values (C09)",
         "iterables given to extend, += and slice assignment are lists, tuples or child "
         "lists (iterators: bounded)"],
     bounded=["extended slices (step other than None and 1), iterators as arguments, "
              "operations a ChildList does not define: bounded replay"],
     note="each mutation of a child list equals the same list mutation, parents follow, "
          "and raising changes nothing: for all lists, positions and kinds of values")

prop("C13", gen.world, ["Expansion.generate", "Rule.generate"], lemmas=gen.lemmas,
     assumptions=[
         "the tree is finite and has no <VOID> and no Dictation, its references resolve "
         "inside their own grammar to enabled rules (known findings: C13-K1, C13-K2), "
         "optional and repeat groupings have one child, weighted sets a weight for every "
         "alternative",
         "random.random() lies strictly between 0 and 1 (known finding: C13-K3), "
         "random.choice picks any element"],
     trusted=["math.log for a base below one is decreasing with log(b, b) = 1; float "
              "arithmetic as real arithmetic, division uninterpreted",
              "imports are assumed contracts; SequenceRule, DictationGrammar excluded"],
     bounded=["how often each alternative is produced: bounded replay"],
     note="every string any random choice can lead to is a phrase of the least language "
          "closed under the rules of JSGF: proved per concrete class for all trees")


prop("C11", regs.world,
     ["Grammar.add_rule", "Grammar.remove_rule", "Grammar.add_import",
      "Grammar.remove_import", "Grammar.get_rule_from_name", "Grammar.rules (getter)",
      "Grammar.imports (getter)", "Grammar.rule_names (getter)",
      "Grammar.case_sensitive (setter)", "Rule.case_sensitive (setter)",
      "Import.__eq__", "Rule.__eq__, different names"],
     lemmas=regs.lemmas,
     assumptions=[
         "rules are Rule / PublicRule / PrivateRule objects, grammars Grammar or "
         "RootGrammar objects (DictationGrammar: C16)",
         "no two rules of the grammar have the same name before the operation (the "
         "invariant; proved to hold afterwards); the lists of rules and imports are two "
         "lists",
         "== on rules is a reflexive function of the pair of values that only holds for "
         "rules of the same name (the latter is proved) and writes nothing the property "
         "speaks of (C09)",
         "removing by name: the name is that of a rule of the grammar; rules that other "
         "rules depend on are those Rule.dependent_rules gives (assumed contract)"],
     trusted=["imports are assumed contracts (Grammar.resolve_imports, Import.resolve), "
              "Rule.dependent_rules"],
     bounded=["add_rules, add_imports, remove_imports, dependencies, qualified names, "
              "enable and disable (C12): bounded replay"],
     note="adding, removing and looking up rules and imports and assigning the case rule: "
          "effect, errors and frame proved for all lists of rules and kinds of values")

prop("C15", seqr.world,
     ["SequenceRule.%s" % n for n in (
         "refuse_matches (getter)", "refuse_matches (setter)",
         "has_next_expansion (getter)", "expansion_sequence (getter)",
         "original_expansion (getter)", "current_is_dictation_only (getter)", "set_next",
         "restart_sequence", "entire_match (getter)", "matches", "compile")],
     lemmas=seqr.lemmas,
     assumptions=[
         "the sequence is not empty (decided by bounded replay of the constructor)",
         "the rule's expansion is in C01's domain when it is compiled"],
     trusted=["Expansion.matches writes matching state only (pyparsing)",
              "only_dictation_in_expansion is a function of the tree",
              "Rule.compile as proved in C02 for the other rule classes",
              "str.join is uninterpreted"],
     bounded=["the constructor (splitting an expansion into its sequence), what the "
              "parts match: bounded replay"],
     note="position, current expansion, refusal, entire match and compiled text of a "
          "sequence rule as functions of its state, and the invariant that ties them "
          "together, proved for all sequences")

prop("C06", rels.world,
     ["Expansion.root_expansion (getter)", "Expansion.is_optional (getter)",
      "Expansion.is_alternative (getter)", "Expansion.repetition_ancestor (getter)",
      "Expansion.collect_leaves", "Expansion.leaves (getter)",
      "Expansion.leaves_after (getter)", "Expansion.matchable_leaves_after (getter)",
      "Expansion.is_descendant_of", "Expansion.mutually_exclusive_of, different trees"],
     lemmas=rels.lemmas,
     assumptions=[
         "the chain of parents is finite (the relations that follow it are partial "
         "correctness results), the trees are finite and their references resolve",
         "the expansions of the tree exist before the query"],
     trusted=["what _lookup_calculation returns for a pair was stored for it: the answers "
              "stored for descent are proved true when they are stored, on the tree of "
              "that moment",
              "mutually_exclusive_of within one tree is a function of the tree"],
     bounded=["mutual exclusion within a tree, invalidate_calculations and queries after "
              "edits: bounded replay"],
     note="root, enclosing repetition, optional, alternative, leaves, leaves after, "
          "descent: each answer equals its recursive definition on the current tree, "
          "proved per concrete class for all trees")
