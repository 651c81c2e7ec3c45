"""writes properties.jsonl"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["jsgf/" + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe}})


EX, RU, GR, RF, PA = "expansions.py", "rules.py", "grammars.py", "references.py", "parser.py"
XE, XR, XG = "ext/expansions.py", "ext/rules.py", "ext/grammars.py"

p("C01", "Compiling an expansion yields exactly the JSGF text of its tree",
  "For every finite expansion tree the compiled text is exactly the JSGF notation of that "
  "tree: each literal's text in its case rule, each grouping's own brackets and separators, "
  "weights with four decimals, references in angle brackets, and (unless tags are to be "
  "left out) every tag with backslashes and braces escaped. Compiling raises exactly when "
  "the tree holds an empty literal or an alternative without a weight in a weighted set. "
  "Compiling changes nothing but that empty groupings come to hold a <NULL> reference, so "
  "compiling again, with or without tags, gives the text of the same tree.",
  ["inputs", "programs"], "all finite trees of the library's expansion classes, of any "
  "shape, depth and content, with any tags and weights, in any order of compile calls; "
  "weighted alternatives hold no empty grouping, Dictation or re-cased literal",
  "the tests compile a few dozen fixed trees; the text is a recursive function over "
  "unboundedly many trees and each class's compile relies on every other's",
  [EX, XE], [("compile of every expansion class", EX), ("compiled_tag", EX),
             ("Dictation.compile", XE), ("weights of alternatives", EX)],
  ["Expansion.compile"])

p("C02", "Compiled rules and grammars contain exactly the rules they should",
  "A rule compiles to its one-line JSGF definition, prefixed with 'public' exactly if it is "
  "visible, or to nothing if it is disabled. A grammar compiles to its header, name, "
  "imports and then the definitions of exactly its enabled rules in the order they were "
  "added; as a root grammar it has one public rule named root whose alternatives "
  "are references to exactly the enabled visible rules in order, followed by all enabled "
  "rules as private ones, and it has no rules if none are enabled and visible. A root "
  "grammar object always compiles this way, and writing to a file writes the same text.",
  ["inputs", "histories"], "all grammars: any number of rules, any visibility and enabled "
  "flags, any imports and header values, any compilable expansions",
  "the tests compile a handful of fixed grammars; the combinations of flags, order and "
  "number of rules are unbounded",
  [RU, GR], [("Rule.compile", RU), ("Grammar.compile", GR),
             ("Grammar.compile_as_root_grammar", GR), ("RootGrammar.compile", GR)],
  ["Rule.compile", "Grammar.compile", "Grammar.compile_as_root_grammar"])

p("C03", "Compiling never changes a grammar's rules, even when it fails",
  "Compiling a rule or grammar, in whatever way and whether it returns or raises, leaves "
  "every rule's visibility, enabled flag, name and grammar, the rules and their order, the "
  "imports and the header values as they were; the only change to any expansion is that "
  "empty groupings may come to hold a <NULL> reference.",
  ["inputs", "fault_sequences"], "all grammars, including those in which any rule at any "
  "position cannot be compiled",
  "the state has to be restored on every path out of the call, at whichever rule the "
  "failure happens; the tests only look at successful compilations",
  [RU, GR, EX], [("try/finally in compile_as_root_grammar", GR), ("Rule.compile", RU),
                 ("ExpansionWithChildren.compile", EX)],
  ["Rule.visible", "Grammar.rules", "Expansion.children"])

p("C04", "Child lists behave as lists and keep parent links consistent",
  "Every operation on an expansion's children (append, insert, extend, +=, pop, remove, "
  "clear, index and slice assignment, assigning the whole list) has the effect and result "
  "of the same operation on a Python list, with strings becoming literals. Afterwards "
  "every expansion in the list has that expansion as its parent and every expansion that "
  "left the list has none; an operation that raises leaves the list and the parent of "
  "everything in it as they were.",
  ["inputs", "histories"], "all histories of list operations with any valid or invalid "
  "arguments, when the added expansions are distinct objects not already held elsewhere",
  "the tests run each operation once or twice on short lists; the guarantee is over all "
  "operation sequences, indexes, slices and failing arguments",
  [EX], [("ChildList operations", EX), ("children setter", EX), ("parent setter", EX)],
  ["Expansion.children", "Expansion.parent"])

p("C05", "Tree traversals visit every expansion once, in the asked order",
  "Mapping a function over an expansion tree applies it exactly once to each expansion of "
  "the tree, parents before children in pre-order and after them in post-order, children "
  "left to right, and goes through rule references into the referenced rule unless asked "
  "to be shallow; an unknown order is rejected. The flat map returns the results in that "
  "order, the filter exactly the expansions that satisfy the predicate in that order, and "
  "find the first such expansion or None.",
  ["inputs", "programs"], "all finite trees, both orders, shallow or not, any function "
  "or predicate that does not change the tree, references to local or imported rules",
  "the recursion ranges over all tree shapes, orders and predicates, which the tests "
  "sample on a few small trees",
  [EX], [("map_expansion", EX), ("flat_map_expansion", EX), ("filter_expansion", EX),
         ("find_expansion", EX)],
  ["map_expansion", "flat_map_expansion", "filter_expansion", "find_expansion"])

p("C06", "Tree relations agree with the shape of the tree",
  "The root, the enclosing repetition, whether an expansion is optional or inside an "
  "alternative, its leaves, descent and mutual exclusion of two expansions, and the leaves "
  "that come after one all agree with their definition on the current tree. After an edit "
  "of the tree followed by invalidating the calculations of the expansions concerned, the "
  "answers are those for the new tree.",
  ["inputs", "histories"], "all finite trees and all pairs of expansions in them, queries "
  "in any order and repeated, with or without edits in between",
  "the answers are recursive over tree shape and memoised, so that they depend on the "
  "whole history of queries; tests check fixed trees once",
  [EX], [("root_expansion, is_optional, is_alternative, repetition_ancestor", EX),
         ("is_descendant_of, mutually_exclusive_of", EX), ("leaves, leaves_after", EX),
         ("invalidate_calculations", EX)],
  ["Expansion.is_descendant_of", "Expansion.mutually_exclusive_of", "Expansion.leaves"])

p("C07", "Matching always reflects the current tree and rules",
  "After any sequence of changes to expansions, weights, literals, rules and grammars, "
  "interleaved with any matching, a rule matches a speech string exactly if a freshly "
  "built rule with the same current content does: no result of an earlier version of the "
  "tree, of a replaced expansion or of a removed rule is used.",
  ["histories"], "all interleavings of edits through the public attributes and child "
  "lists with match calls; trees without dictation and without repetition ancestors that "
  "change around already matched repeats",
  "a stale cached matcher only shows after a particular sequence of match, edit and "
  "match, possibly across rules; tests mostly match freshly built rules",
  [EX, RU, GR], [("invalidate_matcher and its callers", EX), ("parent setter", EX),
                 ("rule expansion setter", RU), ("remove_rule", GR)],
  ["Rule.matches", "Expansion.matches"])

p("C08", "Deep copies are equal, unshared and leave the original alone",
  "A deep copy of an expansion has the same classes, order, texts, case rules, tags, "
  "weights, names and referenced rules as the original at every position, and compiles to "
  "the same text. It shares no expansion or child list with the original, has consistent "
  "parent links and no parent itself, so changing either never changes the other, and "
  "copying leaves the original unchanged.",
  ["inputs", "histories"], "all finite trees of the library's expansion classes, anywhere "
  "in a larger tree, with any tags and weights (weights on alternatives without "
  "dictation)",
  "every class copies itself in its own way; independence is about all later changes to "
  "either tree, and the tests only compare a few copies for equality",
  [EX, XE], [("__deepcopy__ and __copy__ of every class", EX), ("Dictation.__copy__", XE),
             ("Expansion.copy", EX)],
  ["Expansion.copy"])

p("C09", "Equality is an equivalence and agrees with hashing",
  "Equality of expansions is reflexive and symmetric, does not depend on the order of "
  "alternatives but on the order, kind and content of everything else, "
  "and != is always its opposite. Equal "
  "expansions that carry the same tags have equal hashes, and comparing or hashing "
  "changes nothing but filling empty groupings.",
  ["inputs"], "all pairs of finite trees of JSGF expansions (without dictation), with any "
  "tags, weights and case rules",
  "laws over all pairs of trees; tests compare selected pairs",
  [EX, PA], [("__eq__, __ne__, __hash__ of every class", EX),
             ("ParsedAlternativeSet", PA)],
  ["Expansion.__eq__", "Expansion.__hash__"])

p("C10", "Only valid names are ever accepted",
  "A rule, reference, grammar or import only ever has a name that is valid for its kind in "
  "JSGF: creating one or assigning a name raises GrammarError for anything else (non-strings, "
  "names with surrounding whitespace, reserved names, misplaced dots) and then the old name "
  "stays. Every valid name is accepted and kept unchanged.",
  ["inputs", "histories"], "all values as names, for all kinds of named objects, on "
  "creation and on assignment",
  "the space of names is infinite and there are several classes with different rules; "
  "tests try a few names per class",
  [RF, GR, EX], [("name setter", RF), ("valid of every named class", RF)],
  ["BaseRef.name"])

p("C11", "The rules and imports of a grammar form a consistent registry",
  "Through any sequence of adding and removing rules and imports, a grammar holds exactly "
  "the rules and imports added and not removed, in order, no two rules with the same name; "
  "a rule in the grammar has it as its grammar and its case rule, a removed one has none. "
  "Looking up a local name returns the rule of that name, and invalid "
  "operations (not a rule, a duplicate name, a rule of another grammar, a rule still "
  "referenced by others unless told to ignore this) raise the documented error and change nothing.",
  ["histories"], "all histories of add, remove, lookup, enable and disable operations with "
  "valid and invalid arguments",
  "the registry invariant has to hold after every history including failing operations; "
  "tests perform single operations",
  [GR, RU], [("add_rule, remove_rule, add_import, remove_import", GR),
             ("get_rule_from_name", GR), ("dependencies, dependent_rules", RU)],
  ["Grammar.rules", "Grammar.imports", "Grammar.get_rule_from_name"])

p("C12", "Disabled and hidden rules are gated everywhere",
  "A disabled rule never matches, generates or compiles to anything; enabling it brings "
  "all of that back. A grammar's matching rules are exactly its enabled visible rules that "
  "match on their own, in order, and its tagged rules exactly the visible rules (or all "
  "rules, if hidden ones are included) that have the tag, whatever was matched before.",
  ["inputs", "histories"], "all grammars and speech strings, all histories of enabling, "
  "disabling, hiding and matching",
  "the flags combine freely over any number of rules and any history; tests set one flag "
  "of one rule",
  [GR, RU], [("enable_rule, disable_rule", GR), ("Rule.matches, generate, compile", RU),
             ("find_matching_rules, find_tagged_rules", GR)],
  ["Grammar.find_matching_rules", "Grammar.find_tagged_rules"])

p("C13", "Generated strings belong to the rule's language",
  "Every string generated from a rule or expansion is a phrase of its language: sequences "
  "in order, one of the alternatives (never one of weight zero when another has a positive "
  "weight), optional parts present or absent, repeats at least once, references by the "
  "rule they name.",
  ["inputs", "schedules"], "all finite trees without <VOID>, dictation or disabled "
  "referenced rules, and all outcomes of the random choices",
  "the result depends on random choices at every node; tests sample fixed grammars",
  [EX, RU], [("generate of every expansion class", EX), ("Rule.generate", RU)],
  ["Rule.generate", "Expansion.generate"])

p("C14", "Tags are stored stripped and reported completely, in order",
  "An expansion's tag is the assigned string without surrounding whitespace, or empty for "
  "an empty value, and anything else raises TypeError and changes nothing. A rule's tags "
  "are exactly the non-empty tags of its expansions, children before parents and left to "
  "right, including those of referenced rules; it has a tag exactly if the stripped tag is "
  "among them, and its matched tags are those of the expansions that were matched.",
  ["inputs", "histories"], "all trees, all tag values and matching histories",
  "all tag strings and tree shapes; tests check a few tags",
  [EX, RU], [("tag setter", EX), ("tags, matched_tags, has_tag, get_tags_matching", RU),
             ("had_match", EX)],
  ["Expansion.tag", "Rule.tags", "Rule.has_tag", "Rule.matched_tags"])

p("C15", "Sequence rules advance through their expansions in step",
  "A sequence rule accepts its expansions one after the other: its current expansion is "
  "always the one at its position, advancing moves by one and never beyond the last, and "
  "restarting returns to the first and forgets all matches. It refuses further matches "
  "until advanced or restarted once it has been tried, and its entire match is the "
  "parts' matches joined by spaces exactly when every part has been matched.",
  ["histories"], "all histories of matching, advancing, refusing and restarting on any "
  "sequence",
  "a state machine over all histories; tests run a few scripted dialogues",
  [XR], [("SequenceRule", XR)],
  ["SequenceRule.matches", "SequenceRule.set_next", "SequenceRule.restart_sequence"])

p("C16", "Dictation grammars track each original rule and its generated rules",
  "A dictation grammar holds, for each rule added and not removed, the rules generated "
  "from it and knows for each of them the original; rules whose current part is only "
  "dictation are never part of the compiled JSGF, all others are, and rearranging or "
  "resetting moves each rule, visible or not, to the right place. Removing a rule removes "
  "everything generated from it.",
  ["histories"], "all histories of adding, removing, matching, rearranging and resetting",
  "rules move between two collections as they are matched; tests cover a few dialogues "
  "with public rules",
  [XG], [("DictationGrammar", XG), ("expand_dictation_expansion", XE)],
  ["DictationGrammar.compile", "DictationGrammar.match_rules"])

p("C17", "Imports resolve to exactly the public rules they name",
  "Resolving a grammar's imports makes exactly the public rules named by its import "
  "statements available under their short, qualified and full names, however grammars "
  "import each other; importing a private, missing or unreadable rule raises the import "
  "error. A local rule always comes first and ambiguous names raise an error.",
  ["configurations", "inputs"], "all sets of grammar files and import statements",
  "needs sets of files with name clashes and private rules; tests use four fixed files",
  [GR], [("Import.resolve", GR), ("Grammar.resolve_imports, get_rule_from_name", GR)],
  ["Grammar.get_rule_from_name", "Import.resolve"])

p("C18", "Parsing accepts JSGF text with the meaning it was written with",
  "Parsing the text of a compiled grammar, rule or expansion gives an object whose "
  "language, tags, weights, names, visibility, imports and header are those of the "
  "original, and compiling and parsing once more changes nothing. Text that is not JSGF "
  "is rejected with an error.",
  ["inputs", "programs"], "all JSGF documents in the supported subset",
  "the round trip ranges over all documents; tests parse fixed strings",
  [PA], [("grammar, rule and expansion parsers", PA)],
  ["parse_grammar_string", "parse_rule_string", "parse_expansion_string"])

p("C19", "A rule only matches phrases of its language",
  "Whatever a rule matches is a phrase of its language in its case rule: every word "
  "belongs to an alternative, option or repetition the rule allows at that place, nothing "
  "is left over, and the strings recorded as matched for its expansions are parts of it. "
  "A rule made of distinct words without optional ambiguity matches all of its phrases.",
  ["inputs"], "all finite trees without dictation and all speech strings",
  "languages and strings are infinite; tests match fixed pairs",
  [EX, RU], [("matcher elements of every class", EX), ("Rule.matches", RU)],
  ["Rule.matches", "Expansion.current_match"])


with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
import re
for x in P:
    n = len(re.findall(r"[.](?=\s|$)", x["statement"]))
    if n > 3 or len(x["title"]) > 80:
        print(x["id"], n, len(x["title"]))
