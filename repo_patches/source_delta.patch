From bf0bfc1ad983e2879d85b132807e00a6938b7727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 01/24] fix: escape backslashes first in compiled tags

---
 jsgf/expansions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e9e3469..5ddbb96 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -561,9 +561,10 @@ class Expansion(object):
             # Escape '{', '}' and '\' so that tags will be processed
             # properly if they have those characters.
             # This is suggested in the JSGF specification.
-            escaped = self.tag.replace("{", "\\{") \
-                .replace("}", "\\}") \
-                .replace("\\", "\\\\")
+            # Backslashes must be escaped first.
+            escaped = self.tag.replace("\\", "\\\\") \
+                .replace("{", "\\{") \
+                .replace("}", "\\}")
             return " { %s }" % escaped
 
     @staticmethod
-- 
2.43.0


From b750d7df18268df5bd170fae508f3d1b9caddced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 02/24] fix: restore rule visibility when compiling a root
 grammar fails

---
 jsgf/grammars.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index b378222..4c512e3 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -349,12 +349,18 @@ class Grammar(references.BaseRef):
         # something. Rules can compile to the empty string if they are disabled.
         names = []
         compiled_rules = ""
-        for rule in self.rules:
-            compiled = rule.compile()
-            if compiled:
-                compiled_rules += "%s\n" % compiled
-            if rule in visible_rules and compiled:
-                names.append(rule.name)
+        try:
+            for rule in self.rules:
+                compiled = rule.compile()
+                if compiled:
+                    compiled_rules += "%s\n" % compiled
+                if rule in visible_rules and compiled:
+                    names.append(rule.name)
+        finally:
+            # Set each rule in the visible_rules list as visible again, even if a
+            # rule could not be compiled.
+            for rule in visible_rules:
+                rule.visible = True
 
         # If there are names, then build the root rule and add it and the compiled
         # rules to the result.
@@ -365,10 +371,6 @@ class Grammar(references.BaseRef):
             result += root_rule
             result += compiled_rules
 
-        # Set rule visibility back to normal
-        for rule in visible_rules:
-            rule.visible = True
-
         return result
 
     @property
-- 
2.43.0


From 1d9e22719b1620f0d4d90af86fd8a96b76840d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 03/24] fix: adopt expansions added with += on a child list

---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 5ddbb96..3ea6eba 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -286,7 +286,8 @@ class ChildList(object):
         return self._list + other
 
     def __iadd__(self, other):
-        self._list += other
+        self.extend(other)
+        return self
 
     def append(self, e):
         e = Expansion.make_expansion(e)
-- 
2.43.0


From b258571bc46148534bbc3bf4991b4016b295b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 04/24] fix: honour the step when setting a slice of a child
 list

---
 jsgf/expansions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 3ea6eba..c87e97c 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -355,17 +355,21 @@ class ChildList(object):
         :param j: int
         :param sequence: iterable
         """
+        self.__set_extended_slice(slice(i, j), sequence)
+
+    def __set_extended_slice(self, key, sequence):
         # Convert the sequence to a sequence of Expansions if it isn't one.
         sequence = [Expansion.make_expansion(e) for e in sequence]
 
+        # Set the slice.
+        old_children = self._list[key]
+        self._list[key] = sequence
+
         # Orphan the old children :-(
         def orphan(x):
             x.parent = None
 
-        [orphan(c) for c in self._list[i:j]]
-
-        # Set the slice.
-        self._list[slice(i, j)] = sequence
+        [orphan(c) for c in old_children]
 
         # Adopt the new children :-)
         def adopt(x):
@@ -379,7 +383,7 @@ class ChildList(object):
     def __setitem__(self, i, value):
         # Handle setting slices separately for my sanity.
         if isinstance(i, slice):
-            self.__setslice__(i.start, i.stop, value)
+            self.__set_extended_slice(i, value)
             return
 
         # Convert value to Expansion appropriately.
-- 
2.43.0


From 89b29b7116a93d4f6bd1ff8d2968eba274f81c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 05/24] fix: leave an expansion unchanged when its new children
 are invalid

---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index c87e97c..36d82ac 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -481,6 +481,9 @@ class Expansion(object):
         if not isinstance(value, (tuple, list, ChildList)):
             raise TypeError("'children' must be a list or tuple")
 
+        # Convert each item first so that an invalid one changes nothing.
+        value = [Expansion.make_expansion(e) for e in value]
+
         # Orphan current children if applicable.
         if self._children:
             self._children.orphan_children()
-- 
2.43.0


From 508f3608bb987423762f5f8b9c5a2d628d93c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 06/24] fix: forget a literal's matcher when its text changes

---
 jsgf/expansions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 36d82ac..d69f3a1 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1338,11 +1338,12 @@ class Literal(Expansion):
     Expansion class for literals.
     """
     def __init__(self, text, case_sensitive=False):
+        super(Literal, self).__init__([])
+
         # Set _text and use the text setter to validate the input.
         self._text = ""
-        self.text = text
         self._case_sensitive = bool(case_sensitive)
-        super(Literal, self).__init__([])
+        self.text = text
 
     def __str__(self):
         return "%s('%s')" % (self.__class__.__name__, self.text)
@@ -1392,6 +1393,7 @@ class Literal(Expansion):
             raise TypeError("expected string, got %s instead" % value)
 
         self._text = value
+        self.invalidate_matcher()
 
     def generate(self):
         """
-- 
2.43.0


From aaa7fd251d92676dbaa1c8e9b476eb55e3c2fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 07/24] fix: record each repetition once after a repeat's
 matcher is rebuilt

---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index d69f3a1..aa8575f 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1583,7 +1583,8 @@ class Repeat(SingleChildExpansion):
             return tokens
 
         # Get the child's matcher element and add the extra parse action.
-        child_element = self.child.matcher_element.addParseAction(f)
+        # A copy is used because the child may keep its element.
+        child_element = self.child.matcher_element.copy().addParseAction(f)
 
         # Determine the parser element type to use.
         type_ = pyparsing.ZeroOrMore if self.is_optional else pyparsing.OneOrMore
-- 
2.43.0


From 951059873fb9d7b338b000624407dd25447506b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 08/24] fix: forget matchers of rule references when a rule's
 expansion is replaced

---
 jsgf/rules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index a49bd8c..ba71bc3 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -95,6 +95,8 @@ class Rule(references.BaseRef):
     def _set_expansion(self, value):
         # Reset expansion.rule if there was a previous expansion
         if self._expansion:
+            # References to this rule must not match the previous expansion.
+            self._expansion.invalidate_matcher()
             self._expansion.rule = None
 
         # Handle the object passed in as an expansion
-- 
2.43.0


From ce0fb07ddef3dde9aef4dbc84fa9380de1fd88ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 09/24] fix: only remove a grammar's own rules

---
 jsgf/grammars.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 4c512e3..e7fa705 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -681,9 +681,13 @@ class Grammar(references.BaseRef):
             # Assume 'rule' is the name of a rule
             # Get the rule object with the name
             rule = self.get_rule_from_name(rule)
-        elif rule not in self.rules:
+
+        if rule not in self.rules:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
+        # Use the grammar's own rule object if given one that is equal to it.
+        rule = self._rules[self._rules.index(rule)]
+
         # Check if rule with name 'rule_name' is a dependency of another rule
         # in this grammar.
         if not ignore_dependent and rule.dependent_rules:
-- 
2.43.0


From 4aa523c99b89c710ad960f0b84963f8d52c23557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 10/24] fix: forget matchers of rule references when a rule is
 removed

---
 jsgf/grammars.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index e7fa705..9efb4c6 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -694,6 +694,8 @@ class Grammar(references.BaseRef):
             raise GrammarError("Cannot remove rule '%s' as it is referenced by "
                                "another rule." % rule)
 
+        # References to this rule must not match its expansion any more.
+        rule.expansion.invalidate_matcher()
         self._rules.remove(rule)
         rule.grammar = None
 
-- 
2.43.0


From 6f7b61b503873670e6b56223c8ac0eefee6f586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 11/24] fix: only generate weighted alternatives that can be
 spoken

---
 jsgf/expansions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index aa8575f..f2eba51 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1831,15 +1831,21 @@ class AlternativeSet(VariableChildExpansion):
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
-            w_sum = sum(self._weights.values())
+            children = [(e, self._weights[e]) for e in self.children
+                        if self._weights[e] > 0]
+            w_sum = sum(w for _, w in children)
             rand = random.random()
             # print("rand = %s" % rand)
             help_sum = 0
-            for child, weight in self._weights.items():
+            for child, weight in children:
                 help_sum += (weight / w_sum)
                 # print(help_sum)
                 if rand < help_sum:
                     return child.generate()
+
+            # Rounding errors can make the probabilities sum to less than one.
+            if children:
+                return children[-1][0].generate()
         return random.choice(self.children).generate()
 
     def _make_matcher_element(self):
-- 
2.43.0


From 4ee667428e4367e6daee63c4abdf661d997cc533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 12/24] fix: do not match removed alternatives that had weights

---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index f2eba51..b33a0ef 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1855,7 +1855,8 @@ class AlternativeSet(VariableChildExpansion):
 
             # Exclude alternatives that have a weight value of 0.
             children = []
-            for e, w in self._weights.items():
+            for e in self.children:
+                w = self._weights[e]
                 if w > 0:
                     children.append((e, w))
 
-- 
2.43.0


From ccda1f609e4aac7d4e5ca5ab0c0fda7c75d10fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 13/24] fix: keep the case sensitivity of copied literals

---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index b33a0ef..d5af2b3 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1406,7 +1406,8 @@ class Literal(Expansion):
         return self.text
 
     def __copy__(self):
-        e = type(self)(self.text)
+        e = type(self)(self._text)
+        e._case_sensitive = self._case_sensitive
         e.tag = self.tag
         return e
 
-- 
2.43.0


From dec25d3bb2529241fd613a830253f99d8f88c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:04 +0000
Subject: [PATCH 14/24] fix: reject names with surrounding whitespace and
 non-string names

---
 jsgf/references.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/references.py b/jsgf/references.py
index a296f07..1979353 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -7,6 +7,8 @@ import re
 from pyparsing import Regex, Optional, OneOrMore, Combine
 from pyparsing import Literal as PPLiteral  # to differentiate from jsgf.Literal
 
+from six import string_types
+
 from .errors import GrammarError
 
 # Define words as Unicode alphanumerics and/or one of "-\'"
@@ -81,7 +83,8 @@ class BaseRef(object):
     @name.setter
     def name(self, value):
         # Validate the format of name
-        if not self.valid(value):
+        if (not isinstance(value, string_types) or value != value.strip() or
+                not self.valid(value)):
             raise GrammarError("'%s' is not a valid %s name"
                                % (value, self.__class__.__name__))
         self._name = value
-- 
2.43.0


From 272a82b3041f2ccd81732d50adb171c438131565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 15/24] fix: reject reserved names for grammars and rule
 references

---
 jsgf/expansions.py | 3 ++-
 jsgf/grammars.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index d5af2b3..e21f127 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1117,7 +1117,8 @@ class BaseExpansionRef(references.BaseRef, Expansion):
 
     @staticmethod
     def valid(name):
-        return references.optionally_qualified_name.matches(name)
+        return (references.optionally_qualified_name.matches(name) and
+                not references.reserved_names.matches(name))
 
     def compile(self, ignore_tags=False):
         self.validate_compilable()
diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 9efb4c6..ded93ee 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -233,7 +233,8 @@ class Grammar(references.BaseRef):
 
     @staticmethod
     def valid(name):
-        return references.grammar_name.matches(name)
+        return (references.grammar_name.matches(name) and
+                not references.reserved_names.matches(name))
 
     @property
     def case_sensitive(self):
-- 
2.43.0


From 11c266c56e5efc3594e94c1addf66226d7f2665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 16/24] fix: compare alternatives with their number of
 occurrences

---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e21f127..e9f62fa 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -7,6 +7,7 @@ import functools
 import math
 import random
 import re
+from collections import Counter
 from copy import deepcopy
 
 import pyparsing
@@ -1879,7 +1880,7 @@ class AlternativeSet(VariableChildExpansion):
 
             # Check that the children lists have the same contents, but the
             # ordering can be different. Also check the weights dictionaries.
-            set(self.children) == set(other.children) and
+            Counter(self.children) == Counter(other.children) and
             self.weights == other.weights
         )
 
-- 
2.43.0


From 801c534bda026576ddf0fbdb3145a8f7120d2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 17/24] fix: hash parsed alternative sets like the equal
 alternative sets

---
 jsgf/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e9f62fa..7d4c167 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1774,7 +1774,7 @@ class AlternativeSet(VariableChildExpansion):
             for e in self.children
         ])
         return hash(
-            "%s(%s)%s" % (self.__class__.__name__, child_hashes, self.tag)
+            "%s(%s)%s" % (AlternativeSet.__name__, child_hashes, self.tag)
         )
 
     def __copy__(self):
-- 
2.43.0


From 22f3b1afed10549646c7a5feadb0d6eea1ceb3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 18/24] fix: make invalidate_calculations forget calculations

---
 jsgf/expansions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7d4c167..d3be0c8 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -891,13 +891,9 @@ class Expansion(object):
             return  # nothing to invalidate
 
         for d in root._lookup_dict.values():
-            for k, v in d.items():
-                # Assume k is either an expansion or an iterable of expansions
-                if self is k or isinstance(k, (tuple, list)) and self in k:
-                    assert isinstance(d, dict)
-                    d.pop(k)
-                # Do something similar for values
-                elif self is v or isinstance(v, (tuple, list)) and self in k:
+            # Keys are ids of expansions or tuples of them.
+            for k in list(d):
+                if k == id(self) or isinstance(k, tuple) and id(self) in k:
                     d.pop(k)
 
     def __str__(self):
-- 
2.43.0


From 9d1c556a052f4868d2463dae24cab0230887d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 19/24] fix: remove private rules from dictation grammars

---
 jsgf/ext/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index b471d07..bf9f1d2 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -165,7 +165,7 @@ class DictationGrammar(Grammar):
                 if k in self._dictation_rules:
                     self._dictation_rules.remove(k)
 
-                elif k in self._jsgf_only_grammar.match_rules:
+                elif k in self._jsgf_only_grammar.rules:
                     self._jsgf_only_grammar.remove_rule(k, ignore_dependent)
 
     def _compile(self, compile_as_root_grammar):
-- 
2.43.0


From 89b444b1d715c4354db27a20249480f41a4b7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 20/24] fix: rearrange and reset private sequence rules

---
 jsgf/ext/grammars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index bf9f1d2..ba835df 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -211,7 +211,7 @@ class DictationGrammar(Grammar):
         and the internal grammar used for JSGF only rules depending on whether a
         ``SequenceRule``'s current expansion is dictation-only or not.
         """
-        for rule in tuple(self._jsgf_only_grammar.match_rules):
+        for rule in tuple(self._jsgf_only_grammar.rules):
             if not isinstance(rule, SequenceRule):
                 continue
             if rule.current_is_dictation_only:
@@ -228,7 +228,7 @@ class DictationGrammar(Grammar):
         Reset each ``SequenceRule`` in this grammar so that they can accept matches
         again.
         """
-        for r in self._jsgf_only_grammar.match_rules + self._dictation_rules:
+        for r in self._jsgf_only_grammar.rules + self._dictation_rules:
             if isinstance(r, SequenceRule):
                 r.restart_sequence()
 
-- 
2.43.0


From 35640e95be0dec805e8b31281d8ddd41c21b3b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 21/24] fix: renaming a rule reference kept the matcher of the
 old rule

---
 jsgf/expansions.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index d3be0c8..a63f99a 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1109,8 +1109,19 @@ class BaseExpansionRef(references.BaseRef, Expansion):
     """
     def __init__(self, name):
         # Call both super constructors
-        references.BaseRef.__init__(self, name)
         Expansion.__init__(self, [])
+        references.BaseRef.__init__(self, name)
+
+    @property
+    def name(self):
+        return self._name
+
+    @name.setter
+    def name(self, value):
+        references.BaseRef.name.fset(self, value)
+
+        # The matcher element was built for the rule with the old name.
+        self.invalidate_matcher()
 
     @staticmethod
     def valid(name):
-- 
2.43.0


From 1379b31247bbe84d9cca5d7de87086e92cf6f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 22/24] fix: the weights of a deep copy kept using the
 original's children

---
 jsgf/expansions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index a63f99a..b205ca1 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1791,7 +1791,10 @@ class AlternativeSet(VariableChildExpansion):
 
     def __deepcopy__(self, memo):
         result = super(AlternativeSet, self).__deepcopy__(memo)
-        result.weights = dict(self.weights)
+
+        # The copied weights must belong to the copied children.
+        result.weights = dict((deepcopy(child, memo), weight)
+                              for child, weight in self.weights.items())
         return result
 
     def _validate_weights(self):
-- 
2.43.0


From 58fca13c14ea2e2b5826857ce16064bf699db7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 23/24] fix: parsing let names contain comments and refused
 names starting with //

---
 jsgf/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index a0ba706..99d56de 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -365,7 +365,7 @@ def get_exp_parser():
         .setParseAction(lambda tokens: Literal(" ".join(tokens)))
 
     # Define rule references.
-    rule_ref = (langle + optionally_qualified_name + rangle)\
+    rule_ref = (langle + optionally_qualified_name.copy() + rangle)\
         .setName("rule reference").setParseAction(_ref_action)
 
     # Define JSGF weights.
@@ -416,7 +416,7 @@ def get_rule_parser():
 
     # Define the rule parser and set its parse action. Also ignore any C++ style
     # comments around it.
-    parser = (visibility + langle + optionally_qualified_name + rangle +
+    parser = (visibility + langle + optionally_qualified_name.copy() + rangle +
               equals + expansion_parser + line_delimiter)\
         .setName("rule definition")
     parser.setParseAction(_make_rule).ignore(cppStyleComment)
@@ -474,9 +474,9 @@ def get_grammar_parser():
 
     # Define the grammar name line, import statements and rule lines. All lines
     # should support C++ style comments (/* comment */ or // comment).
-    name_line = (grammar_ + grammar_name + line_delimiter) \
+    name_line = (grammar_ + grammar_name.copy() + line_delimiter) \
         .setName("grammar declaration").ignore(cppStyleComment)
-    import_statement = (import_ + langle + import_name + rangle + line_delimiter) \
+    import_statement = (import_ + langle + import_name.copy() + rangle + line_delimiter) \
         .setParseAction(lambda tokens: Import(tokens[0])).ignore(cppStyleComment)
 
     # Define the grammar parser element, then set its name and parse action.
-- 
2.43.0


From 8224a94189bd3f4ed0b92c85432024b4454bc3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:30 +0000
Subject: [PATCH 24/24] fix: adding something else than a rule to a root
 grammar raises TypeError

---
 jsgf/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index ded93ee..e6870c8 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -800,7 +800,7 @@ class RootGrammar(Grammar):
         return self.compile_as_root_grammar()
 
     def add_rule(self, rule):
-        if rule.name == "root":
+        if isinstance(rule, Rule) and rule.name == "root":
             raise GrammarError("cannot add rule with name 'root' to RootGrammar")
 
         super(RootGrammar, self).add_rule(rule)
-- 
2.43.0

