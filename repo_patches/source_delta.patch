From bc3dc413e6e43ea5284f4c8dd22441d9e4e7b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 01/51] fix: factorize no longer raises KeyError when a
 candidate block is incomplete

---
 ieml/dictionary/script/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ieml/dictionary/script/tools.py b/ieml/dictionary/script/tools.py
index 66e2807..ad9ed6a 100644
--- a/ieml/dictionary/script/tools.py
+++ b/ieml/dictionary/script/tools.py
@@ -69,6 +69,10 @@ def factor(sequences):
 
         for r in candidate:
             _facto = sorted(set(it.chain.from_iterable(_neighbours(t, r) for t in factorisation)))
+            if any(i not in relations for i in _facto):
+                # the block spanned with r is not entirely made of the given sequences
+                continue
+
             _candidate = set(candidate)
             for i in _facto:
                 _candidate &= set(relations[i])
-- 
2.43.0


From b54f12f092d1f39b4da754455a0f95766ca8b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 02/51] fix: factorize gives the same script whatever the hash
 seed

---
 ieml/dictionary/script/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/dictionary/script/tools.py b/ieml/dictionary/script/tools.py
index ad9ed6a..fba4648 100644
--- a/ieml/dictionary/script/tools.py
+++ b/ieml/dictionary/script/tools.py
@@ -91,7 +91,7 @@ def factor(sequences):
     factorisations = next(iter(_factors(list(relations[e]), [e])))
 
     remaining = sorted(set(sequences) - set(scripts[f] for f in factorisations))
-    factorisations = tuple(factor({primitives[i][seme] for seme in semes}) for i, semes in enumerate(zip(*factorisations)))
+    factorisations = tuple(factor(sorted({primitives[i][seme] for seme in semes})) for i, semes in enumerate(zip(*factorisations)))
 
     if remaining:
         return [factorisations] + factor(remaining)
-- 
2.43.0


From 94f0f7292213607f27b57096e5e53f6c0bf708ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:47 +0000
Subject: [PATCH 03/51] fix: factorizing a list of scripts does not depend on
 the order of the list

---
 ieml/dictionary/script/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieml/dictionary/script/tools.py b/ieml/dictionary/script/tools.py
index fba4648..1be290c 100644
--- a/ieml/dictionary/script/tools.py
+++ b/ieml/dictionary/script/tools.py
@@ -149,6 +149,9 @@ def factorize(script: Union[Script, List[Script]],
         if promote:
             layer = max(s.layer for s in seqs)
             seqs = [globals()['promote'](seq, layer) for seq in seqs]
+
+        # the factorisation must only depend on the set of sequences
+        seqs = sorted(set(seqs))
     else:
         raise ValueError
 
-- 
2.43.0


From f210015ba004ee61f207995716aaeba3ac51a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 04/51] fix: a polymorpheme never takes more morphemes from a
 group than its multiplicity

---
 ieml/usl/polymorpheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index 31f1715..1d54921 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -108,7 +108,7 @@ def compute_PM_singular_sequences(constants, groups):
 
     max_sizes_groups = defaultdict(set)
     for i, (grp, mult) in enumerate(groups):
-        for j in range(mult + 1, min_len + 1):
+        for j in range(mult + 1, min_len + 2):
             max_sizes_groups[j].add(i)
 
     def iter_groups_combinations():
-- 
2.43.0


From 079b9bbb6c0cd4a3939d3897888c749e4efad60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 05/51] fix: malformed roles in a word are rejected with
 CannotParse

---
 ieml/usl/syntagmatic_function.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index f817c32..67e1b6d 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -190,6 +190,9 @@ class SyntagmaticFunction:
         if not l:
             raise ValueError("Empty syntagmatic function")
 
+        if any(len(address) == 0 for address, _ in l):
+            raise ValueError("Invalid syntagmatic function, a lexeme has no role")
+
         roles = [address[0] for address, _ in l]
         children_l = [(address[1:], x) for address, x in l]
 
@@ -262,12 +265,14 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
     @classmethod
     def _from_list(cls, l: List[Tuple[List[Script], X]], context: Type[SyntagmaticFunction]):
 
+        if any(len(address) < 2 for address, _ in l):
+            raise ValueError("Invalid junction syntagmatic function definition, a link and an index are expected.")
+
         junctions = {address[0] for address, _ in l}
 
-        links = junctions & set(JUNCTION_SCRIPTS)
-        if len(links) != 1:
+        if len(junctions) != 1 or not junctions.issubset(JUNCTION_SCRIPTS):
             raise ValueError("No links defined in the junction")
-        link = next(iter(links))
+        link = next(iter(junctions))
 
         # anchors = junctions & JUNCTION_ANCHOR_TO_LINKS.keys()
         # try:
@@ -288,7 +293,7 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
 
         groups = [[] for _ in range(len(_groups))]
         for i in _groups:
-            if i > len(groups):
+            if i >= len(groups):
                 raise ValueError("Invalid junction syntagmatic function definition, incoherent indexing.")
             groups[i] = _groups[i]
 
-- 
2.43.0


From 78b4b25a47e57df2645987852d1b0f227b664b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:26 +0000
Subject: [PATCH 06/51] fix: structure paths of a flexion designate each
 morpheme once

---
 ieml/usl/lexeme.py       | 5 ++---
 ieml/usl/polymorpheme.py | 9 +++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ieml/usl/lexeme.py b/ieml/usl/lexeme.py
index fea0d1c..3dccbf7 100644
--- a/ieml/usl/lexeme.py
+++ b/ieml/usl/lexeme.py
@@ -51,12 +51,11 @@ class Lexeme(USL):
 
 	def iter_structure_path(self, flexion=False):
 		from ieml.usl.decoration.path import LexemePath, LexemeIndex
-		from ieml.usl.decoration.path import FlexionPath
 
 		yield (LexemePath(LexemeIndex.FLEXION), self.pm_flexion)
 
-		yield from [(LexemePath(LexemeIndex.FLEXION, child=None if path.morpheme is None else FlexionPath(path.morpheme)), pm)
-					for path, pm in self.pm_flexion.iter_structure_path()]
+		yield from [(LexemePath(LexemeIndex.FLEXION, child=path), pm)
+					for path, pm in self.pm_flexion.iter_structure_path(flexion=True)]
 
 		yield (LexemePath(LexemeIndex.CONTENT), self.pm_content)
 		yield from [(LexemePath(LexemeIndex.CONTENT, child=path), pm)
diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index 1d54921..3226149 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -187,8 +187,13 @@ class PolyMorpheme(USL):
     def iter_structure_path(self, flexion=False):
         from ieml.usl.decoration.path import PolymorphemePath, GroupIndex, FlexionPath
 
-        res_f = lambda u, grp_idx, multiplicity: (FlexionPath(morpheme=u) if flexion else
-                                PolymorphemePath(group_idx=grp_idx, morpheme=u, multiplicity=multiplicity))
+        if flexion:
+            # a flexion path designates a morpheme whatever the group it is in
+            yield from [(FlexionPath(morpheme=m), m) for m in chain(self.constant, *(g for g, _ in self.groups))]
+            return
+
+        res_f = lambda u, grp_idx, multiplicity: PolymorphemePath(group_idx=grp_idx, morpheme=u,
+                                                                  multiplicity=multiplicity)
 
         yield (res_f(None, GroupIndex.CONSTANT, None), PolyMorpheme(constant=list(self.constant)))
         yield from [(res_f(m, GroupIndex.CONSTANT, None), m) for m in self.constant]
-- 
2.43.0


From d1c74cd9a822589450896753e19374e75c562666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:48 +0000
Subject: [PATCH 07/51] fix: decorations stay at the path they are given for
 and their text can be read back

---
 ieml/usl/decoration/instance.py | 38 +++++++++++++++++++++++----------
 ieml/usl/parser/lexer.py        |  7 +++---
 ieml/usl/parser/parser.py       |  9 +++++---
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index b07e0fa..eb26916 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -1,3 +1,4 @@
+import re
 from typing import List
 
 from ieml.commons import DecoratedComponent
@@ -36,10 +37,18 @@ class Decoration:
 		tgt.set_literal(self.value)
 
 	def __str__(self):
-		return '[{} "{}"]'.format(str(self.path), str(self.value).replace('"', r'\"'))
+		return '[{} "{}"]'.format(str(self.path), self.escape(str(self.value)))
+
+	@staticmethod
+	def escape(value):
+		return value.replace('\\', r'\\').replace('"', r'\"')
+
+	@staticmethod
+	def unescape(value):
+		return re.sub(r'\\(["\\])', r'\1', value)
 
 	def __lt__(self, other):
-		return (self.path, self.value) < (other.path, other.value)
+		return (str(self.path), self.value) < (str(other.path), other.value)
 
 	def __eq__(self, other):
 		return str(self) == str(other)
@@ -56,17 +65,20 @@ class InstancedUSL(USL):
 		self.grammatical_class = self.usl.grammatical_class
 
 		self.flexion = False
-		with literal_context():
-			for decoration in decorations:
-				if not isinstance(decoration, Decoration):
-					raise ValueError("Invalid argument for a InstantiatedUSL, expected a Decoration, got a "+\
-									 decoration.__class__.__name__)
+		by_path = {}
+		for decoration in decorations:
+			if not isinstance(decoration, Decoration):
+				raise ValueError("Invalid argument for a InstantiatedUSL, expected a Decoration, got a "+\
+								 decoration.__class__.__name__)
 
-				self.flexion = isinstance(decoration.path, FlexionPath) or self.flexion
+			self.flexion = isinstance(decoration.path, FlexionPath) or self.flexion
 
-				decoration.apply(self.usl)
+			# the decorated path must be defined in the usl. The value is not set on the component: the components are
+			# shared with other positions and other usls.
+			decoration.path.deference(self.usl)
+			by_path[decoration.path] = decoration
 
-			self.decorations = InstancedUSL.list_decorations(self.usl, flexion=self.flexion)
+		self.decorations = sorted(by_path.values())
 
 	@staticmethod
 	def list_decorations(u: USL, flexion=False):
@@ -80,7 +92,11 @@ class InstancedUSL(USL):
 
 	@staticmethod
 	def from_usl(u: 'USL'):
-		return InstancedUSL(u, InstancedUSL.list_decorations(u))
+		decorations = InstancedUSL.list_decorations(u)
+		for _, value in u.iter_structure_path():
+			value.clear_literal()
+
+		return InstancedUSL(u, decorations)
 
 	def __str__(self):
 		return "{} {}".format(str(self.usl), ' '.join(map(str, self.decorations))).strip()
diff --git a/ieml/usl/parser/lexer.py b/ieml/usl/parser/lexer.py
index 95b3222..2632a73 100644
--- a/ieml/usl/parser/lexer.py
+++ b/ieml/usl/parser/lexer.py
@@ -2,7 +2,6 @@ import ply.lex as lxr
 import logging
 
 from ieml.constants import TERM_REGEX
-from ieml.usl.constants import ROLE_REGEX
 
 logger = logging.getLogger(__name__)
 
@@ -55,10 +54,10 @@ def get_lexer(module=None):
     t_LITERAL = r'\#(\\\#|[^\#])+\#'
 
     t_GROUP_MULTIPLICITY = r'm\d+'
-    t_USL_PATH = r'(?<=\[)>(role>{role_regex}(\s{role_regex})*>)?((flexion|content)>)?(((group_\d|constant)>)?{term_regex})?'.format(role_regex=ROLE_REGEX,
-                                                                                                                        term_regex=TERM_REGEX)
+    # the path is read by the PathParser
+    t_USL_PATH = r'(?<=\[)>[^"\[\]]*'
 
-    t_DECORATION_VALUE = r'"(\\"|[^"])*"'
+    t_DECORATION_VALUE = r'"(\\[\s\S]|[^"\\])*"'
 
     t_ignore  = '{} \t\n'
 
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index e63b963..4c9d327 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -12,6 +12,7 @@ import threading
 
 from ..decoration.instance import Decoration, InstancedUSL
 from ..decoration.parser.parser import PathParser
+from ..decoration.path import DeferenceError
 
 
 class IEMLParserSingleton(type):
@@ -75,8 +76,10 @@ class IEMLParser():
 
     def p_instanced_usl(self, p):
         """instanced_usl : usl decoration_list"""
-        p[0] = InstancedUSL(p[1], p[2])
-
+        try:
+            p[0] = InstancedUSL(p[1], p[2])
+        except DeferenceError as e:
+            raise ValueError("Invalid decoration path: " + str(e))
 
     def p_morpheme(self, p):
         """morpheme : MORPHEME"""
@@ -209,7 +212,7 @@ class IEMLParser():
     def p_decoration(self, p):
         """decoration : LBRACKET USL_PATH DECORATION_VALUE RBRACKET"""
         usl_path = self.path_parser.parse(p[2])
-        p[0] = Decoration(usl_path, p[3][1:-1])
+        p[0] = Decoration(usl_path, Decoration.unescape(p[3][1:-1]))
 
 
     def p_error(self, p):
-- 
2.43.0


From 0d358244080a7c2e7a5e1a379363c9c4d7e0c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:08 +0000
Subject: [PATCH 08/51] fix: interrupted or concurrent writes of the parser
 tables do not break parsing

---
 ieml/commons.py                         | 31 +++++++++++++++++++++++++
 ieml/dictionary/script/parser/parser.py |  9 ++++---
 ieml/usl/decoration/parser/parser.py    |  4 ++--
 ieml/usl/parser/parser.py               | 10 ++++----
 4 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index b1cb461..a5b7b0c 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -3,6 +3,8 @@ import glob
 import logging
 import os
 import pickle
+import shutil
+import tempfile
 from collections import OrderedDict
 from enum import Enum
 from itertools import chain
@@ -11,6 +13,8 @@ from typing import List
 import hashlib
 from time import time
 
+import ply.yacc as yacc
+
 from ieml import logger
 
 
@@ -208,6 +212,33 @@ def cache_results_watch_files(path, name):
     return decorator
 
 
+def build_parser(picklefile, **kwargs):
+    """
+    Build a ply parser and keep its tables in `picklefile`.
+    The file is replaced at once, so no other process or thread reads tables that are being written. Tables that can't
+    be read are computed again.
+    """
+    folder, name = os.path.split(picklefile)
+    with tempfile.TemporaryDirectory(dir=folder) as tmp:
+        tables = os.path.join(tmp, name)
+        try:
+            shutil.copyfile(picklefile, tables)
+            before = os.stat(tables)
+            parser = yacc.yacc(picklefile=tables, **kwargs)
+        except Exception:
+            # no tables, or unreadable ones
+            if os.path.exists(tables):
+                os.remove(tables)
+            before = None
+            parser = yacc.yacc(picklefile=tables, **kwargs)
+
+        after = os.stat(tables)
+        if before is None or (before.st_mtime_ns, before.st_size) != (after.st_mtime_ns, after.st_size):
+            os.replace(tables, picklefile)
+
+    return parser
+
+
 class DecoratedComponent:
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
diff --git a/ieml/dictionary/script/parser/parser.py b/ieml/dictionary/script/parser/parser.py
index e034ce3..c068581 100644
--- a/ieml/dictionary/script/parser/parser.py
+++ b/ieml/dictionary/script/parser/parser.py
@@ -2,12 +2,11 @@ import logging
 import types
 from functools import lru_cache
 import os
-import ply.yacc as yacc
 
 from ieml.exceptions import InvalidScript, CannotParse
 from ieml.dictionary.script import AdditiveScript, MultiplicativeScript, NullScript
 from ieml.constants import REMARKABLE_ADDITION, PARSER_FOLDER
-from ieml.commons import Singleton
+from ieml.commons import Singleton, build_parser
 from ieml.dictionary.script.parser.lexer import get_script_lexer, tokens
 
 import threading
@@ -23,9 +22,9 @@ class ScriptParser(metaclass=Singleton):
         self.t_add_rules()
 
         self.lexer = get_script_lexer()
-        self.parser = yacc.yacc(module=self, errorlog=logging, start='term',
-                                debug=False, optimize=True,
-                                picklefile=os.path.join(PARSER_FOLDER, "morpheme_parser.pickle"))
+        self.parser = build_parser(module=self, errorlog=logging, start='term',
+                                   debug=False, optimize=True,
+                                   picklefile=os.path.join(PARSER_FOLDER, "morpheme_parser.pickle"))
         # rename the parsing method (can't name it directly parse with lru_cache due to ply checking)
         self.parse = self.t_parse
 
diff --git a/ieml/usl/decoration/parser/parser.py b/ieml/usl/decoration/parser/parser.py
index ef2e991..7c7afa9 100644
--- a/ieml/usl/decoration/parser/parser.py
+++ b/ieml/usl/decoration/parser/parser.py
@@ -1,8 +1,8 @@
 import logging
 import threading
 import os
-from ply.yacc import yacc
 
+from ieml.commons import build_parser
 from ieml.constants import PARSER_FOLDER
 from ieml.dictionary.script import script
 from ieml.exceptions import CannotParse
@@ -20,7 +20,7 @@ class PathParser:
     def __init__(self):
         # Build the lexer and parser
         self.lexer = get_lexer()
-        self.parser = yacc(module=self, errorlog=logging, start='path',
+        self.parser = build_parser(module=self, errorlog=logging, start='path',
                                   # debug=True, debuglog=logging,
                                   optimize=False,
                                   picklefile=os.path.join(PARSER_FOLDER, "path_parser.pickle"))
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index 4c9d327..8453df1 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -1,6 +1,6 @@
 import logging, os
-import ply.yacc as yacc
 
+from ieml.commons import build_parser
 from ieml.constants import PARSER_FOLDER
 from ieml.dictionary.script import script, Script, NullScript
 from ieml.usl import Word, PolyMorpheme, USL
@@ -32,10 +32,10 @@ class IEMLParser():
     def __init__(self, dictionary=None):
         # Build the lexer and parser
         self.lexer = get_lexer()
-        self.parser = yacc.yacc(module=self, errorlog=logging, start='proposition',
-                                # debug=True,
-                                optimize=False,
-                                picklefile=os.path.join(PARSER_FOLDER, "ieml_parser.pickle"))
+        self.parser = build_parser(module=self, errorlog=logging, start='proposition',
+                                   # debug=True,
+                                   optimize=False,
+                                   picklefile=os.path.join(PARSER_FOLDER, "ieml_parser.pickle"))
         self._ieml = None
         self.path_parser = PathParser()
         self.dictionary = dictionary
-- 
2.43.0


From 687204764688b2920bb598660c9d1dd3122aa114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:36 +0000
Subject: [PATCH 09/51] fix: usls whose text can't be a file name can be stored

---
 ieml/ieml_database/ieml_database.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 90db087..7d2db58 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -8,6 +8,7 @@ import pandas
 from functools import reduce
 
 import os
+import re
 import json
 from hashlib import sha224
 import subprocess
@@ -110,8 +111,10 @@ class IEMLDatabase:
 
     def filename_of(self, ieml):
         l = str(ieml)
-        if len(l) > self.MAX_IEML_NAME_SIZE:
-            l = "{}|{}".format(l[:self.MAX_IEML_NAME_SIZE - self.HASH_SIZE - 1],
+        # the names of decorated usls can have characters that are not allowed in a file name
+        name = re.sub(r'[^ -.0-~]', '_', l)
+        if len(l) > self.MAX_IEML_NAME_SIZE or name != l:
+            l = "{}|{}".format(name[:self.MAX_IEML_NAME_SIZE - self.HASH_SIZE - 1],
                                sha224(l.encode('utf8')).hexdigest()[:self.HASH_SIZE])
         return l
 
-- 
2.43.0


From 4c304cfb518ed7ad0a9afdf68420b9b0264ca919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:29 +0000
Subject: [PATCH 10/51] fix: descriptors are read as they were written

Values that look like missing values or numbers, line breaks and backslashes
were altered, and a database without structure could not be read.
---
 ieml/ieml_database/descriptors.py   |  7 ++++++-
 ieml/ieml_database/ieml_database.py | 17 ++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/ieml/ieml_database/descriptors.py b/ieml/ieml_database/descriptors.py
index e2006e4..9194d6e 100644
--- a/ieml/ieml_database/descriptors.py
+++ b/ieml/ieml_database/descriptors.py
@@ -2,6 +2,7 @@ import csv
 import enum
 import json
 import operator
+import re
 from enum import Enum
 from io import StringIO
 from typing import Dict, List
@@ -61,6 +62,10 @@ def normalize_key(ieml, key, value, parse_ieml=False, partial=False, structure=F
 
     return ieml, key, value
 
+def unescape_value(v):
+    """Inverse of IEMLDatabase.escape_value, for a value already unquoted by a csv reader"""
+    return re.sub(r'\\([\\nr])', lambda m: {'n': '\n', 'r': '\r'}.get(m.group(1), m.group(1)), v)
+
 Descriptor = Dict[DescriptorsType, Dict[Languages, List[str]]]
 
 class Descriptors:
@@ -112,7 +117,7 @@ class Descriptors:
         csv_reader = csv.reader(ours_data, delimiter=' ', quotechar='"')
         desc = defaultdict(lambda :{d: {l: [] for l in LANGUAGES} for d in DESCRIPTORS_CLASS})
         for (_ieml, _lang, _desc, value) in csv_reader:
-            desc[_ieml][_desc][_lang].append(value)
+            desc[unescape_value(_ieml)][_desc][_lang].append(unescape_value(value))
 
         if assert_unique_ieml and len(desc) != 1:
             raise ValueError("Multiple IEML in csv string")
diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 7d2db58..b2824c5 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -25,7 +25,7 @@ from ieml.constants import INHIBITABLE_RELATIONS, STRUCTURE_KEYS, GRAMMATICAL_CL
 from ieml.dictionary.dictionary import Dictionary
 from ieml.dictionary.script import NullScript, MultiplicativeScript, AdditiveScript, Script
 from ieml.exceptions import CannotParse
-from ieml.ieml_database.descriptors import Descriptors, normalize_key
+from ieml.ieml_database.descriptors import Descriptors, normalize_key, unescape_value
 from ieml.ieml_database.git_interface import logger
 from ieml.usl.decoration.instance import InstancedUSL
 from ieml.usl.lexeme import Lexeme
@@ -206,19 +206,26 @@ class IEMLDatabase:
 
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
         try:
-            r = pandas.read_csv(p2.stdout, sep=' ', header=None)
+            # the values are texts, even if they look like a number or a missing value
+            r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
             r.columns=['ieml', 'language', 'descriptor', 'value']
         except EmptyDataError:
             r = pandas.DataFrame(columns=['ieml', 'language', 'descriptor', 'value'])
 
+        for column in ('ieml', 'value'):
+            r[column] = r[column].map(unescape_value)
+
         return Descriptors(r)
 
     @monitor_decorator("Get structure")
     def get_structure(self):
         p1 = subprocess.Popen("find -path *.ieml -print0".split(), stdout=subprocess.PIPE, cwd=self.folder)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
-        r = pandas.read_csv(p2.stdout, sep=' ', header=None)
-        r.columns = ['ieml', 'key', 'value']
+        try:
+            r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
+            r.columns = ['ieml', 'key', 'value']
+        except EmptyDataError:
+            r = pandas.DataFrame(columns=['ieml', 'key', 'value'])
         return Structure(r)
 
     @monitor_decorator("Get dictionary")
@@ -337,4 +344,4 @@ class IEMLDatabase:
             f.writelines(lines)
 
     def escape_value(self, v):
-        return v.replace('"', '""').replace('\n', '\\n')
+        return v.replace('\\', '\\\\').replace('"', '""').replace('\n', '\\n').replace('\r', '\\r')
-- 
2.43.0


From f846183c9231528285a3cf566262ff75ec839d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:17 +0000
Subject: [PATCH 11/51] fix: removing a descriptor or a structure value removes
 exactly what is asked

The value was ignored when the language or the descriptor was not given, values
were compared by prefix, and quoted usls were never found.
---
 ieml/ieml_database/descriptors.py   |  2 +-
 ieml/ieml_database/ieml_database.py | 21 ++++++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/ieml/ieml_database/descriptors.py b/ieml/ieml_database/descriptors.py
index 9194d6e..ed86fab 100644
--- a/ieml/ieml_database/descriptors.py
+++ b/ieml/ieml_database/descriptors.py
@@ -38,7 +38,7 @@ def normalize_key(ieml, key, value, parse_ieml=False, partial=False, structure=F
             if key not in STRUCTURE_KEYS:
                 raise ValueError("Unsupported structure key: '{}'".format(str(key)))
 
-        if value:
+        if value is not None:
             if key and key == 'inhibition':
                 value = str(value)
                 if value not in INHIBITABLE_RELATIONS:
diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index b2824c5..6e9508d 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -300,10 +300,10 @@ class IEMLDatabase:
         if descriptor is None or language is None:
             if language is None:
                 for l in LANGUAGES:
-                    self.remove_descriptor(ieml, l, descriptor)
+                    self.remove_descriptor(ieml, l, descriptor, value)
             else:
                 for d in DESCRIPTORS_CLASS:
-                    self.remove_descriptor(ieml, language, d)
+                    self.remove_descriptor(ieml, language, d, value)
             return
 
         if value:
@@ -311,11 +311,10 @@ class IEMLDatabase:
 
         with open(path, "r", encoding='utf8') as f:
             lines = [l for l in f.readlines()
-                     if not l.startswith('"{}" {} {} '.format(str(ieml), language, descriptor) + \
-                                        ('"{}"'.format(self.escape_value(value)) if value is not None else ''))]
+                     if not l.startswith('"{}" {} {} '.format(self.escape_value(str(ieml)), language, descriptor) + \
+                                        ('"{}"\n'.format(self.escape_value(value)) if value is not None else ''))]
 
-        with open(path, "w", encoding='utf8') as f:
-            f.writelines(lines)
+        self._write_lines(path, lines)
 
     def add_structure(self, ieml, key, value):
         ieml, key, value = normalize_key(ieml, key, value, parse_ieml=True, partial=False, structure=True)
@@ -338,7 +337,15 @@ class IEMLDatabase:
         with open(path, "r", encoding='utf8') as f:
             lines = [l for l in f.readlines()
                      if not l.startswith('"{}" {} '.format(str(ieml), key) + \
-                                        ('"{}"'.format(value) if value else ''))]
+                                        ('"{}"\n'.format(value) if value is not None else ''))]
+
+        self._write_lines(path, lines)
+
+    def _write_lines(self, path, lines):
+        # a file without any line does not tell for which ieml it is
+        if not lines:
+            os.remove(path)
+            return
 
         with open(path, "w", encoding='utf8') as f:
             f.writelines(lines)
-- 
2.43.0


From 89bd83797ae7005fb9f8de1d4742b62b514e0b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:54 +0000
Subject: [PATCH 12/51] fix: the structure values of a key with a single value
 can be read

---
 ieml/ieml_database/ieml_database.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 6e9508d..84291f6 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -56,7 +56,11 @@ class Structure:
         ieml, key, _ = normalize_key(ieml, key, None, parse_ieml=False, partial=False, structure=True)
 
         try:
-            return self.df.loc(axis=0)[(ieml, key)].to_dict('list')['value']
+            res = self.df.loc(axis=0)[(ieml, key)]
+            if isinstance(res, pandas.Series):
+                return res.to_list()
+            else:
+                return res.to_dict('list')['value']
         except KeyError:
             return []
 
-- 
2.43.0


From 39d1402fc739ed60b0ab4a07cb944a01c90c278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:15 +0000
Subject: [PATCH 13/51] fix: listing the database gives each usl once, with its
 whole text

A decorated usl was cut at its first quote, paths with a backslash were not
found, and listing an empty database raised FileNotFoundError.
---
 ieml/ieml_database/ieml_database.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 84291f6..eab7862 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -1,6 +1,8 @@
+import csv
 import logging
 import operator
 from collections import defaultdict
+from io import TextIOWrapper
 from shlex import quote
 from sys import stdout
 
@@ -162,12 +164,16 @@ class IEMLDatabase:
             if paradigm is not None:
                 p = os.path.join(p, 'paradigm' if paradigm else 'singular')
 
+        # the folders are created with their first descriptor
+        if not os.path.isdir(p):
+            return []
+
         p1 = subprocess.Popen("find -path *.desc -print0".split(), stdout=subprocess.PIPE, cwd=p)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=p)
-        p3 = subprocess.Popen(["cut", "-f2", '-d', '"'], stdin=p2.stdout, stdout=subprocess.PIPE, cwd=p)
-        p4 = subprocess.Popen(["uniq"], stdin=p3.stdout, stdout=subprocess.PIPE, cwd=p)
+        # the ieml is the first field, it can have quotes in it
+        lines = csv.reader(TextIOWrapper(p2.stdout, encoding='utf8', newline=''), delimiter=' ', quotechar='"')
 
-        res = [s.strip().decode('utf8') for s in p4.stdout.readlines() if s.strip()]
+        res = list(dict.fromkeys(unescape_value(l[0]) for l in lines if l))
 
         if parse:
             parser = IEMLParser(dictionary=self.get_dictionary())
@@ -200,7 +206,7 @@ class IEMLDatabase:
     @monitor_decorator("Get descriptors")
     def get_descriptors(self, files_list=None):
         if files_list is not None:
-            p1 = subprocess.Popen(['echo', '-ne', r'\0'.join(files_list)],
+            p1 = subprocess.Popen(['printf', r'%s\0', *files_list],
                                   stdout=subprocess.PIPE, cwd=self.folder)
             # p1 = subprocess.Popen(['sed', '-e', r's/\n/\x0/g'], stdin=p0.stdout,
             #                       stdout=subprocess.PIPE, cwd=self.folder)
-- 
2.43.0


From 852b38dca71c7922b5c7b5804c9a2055678c6570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:41 +0000
Subject: [PATCH 14/51] fix: asking the root of a script that is in no root
 paradigm raises KeyError

The transactions rely on it to accept a new root paradigm and to reject a
paradigm defined over unknown singular sequences.
---
 ieml/dictionary/table/table_structure.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ieml/dictionary/table/table_structure.py b/ieml/dictionary/table/table_structure.py
index e1e7be2..1a59b59 100644
--- a/ieml/dictionary/table/table_structure.py
+++ b/ieml/dictionary/table/table_structure.py
@@ -2,7 +2,6 @@ import sys
 from collections import defaultdict
 from itertools import chain
 
-from ieml import error
 from ieml.commons import logger
 from ieml.dictionary.table.table import *
 
@@ -22,12 +21,7 @@ class TableStructure:
         # self.table_to_root = {t: r for r, t_s in self.roots.items() for t in t_s}
 
     def root(self, s):
-        try:
-            return self.table_to_root[self.tables[s]]
-        except KeyError as e:
-            error("No root defined for the script {}".format(str(s)))
-            return None
-
+        return self.table_to_root[self.tables[s]]
 
     def __iter__(self):
         yield from self.tables.values()
-- 
2.43.0


From 866c30c77e205cb4a9307fa3bf3d188122f1fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:30 +0000
Subject: [PATCH 15/51] fix: a dictionary with ignored paradigms can be loaded

---
 ieml/dictionary/dictionary.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ieml/dictionary/dictionary.py b/ieml/dictionary/dictionary.py
index cd82409..ab1f875 100644
--- a/ieml/dictionary/dictionary.py
+++ b/ieml/dictionary/dictionary.py
@@ -33,6 +33,9 @@ class Dictionary:
             elif key == 'is_ignored' and value[0].lower() == 't':
                 ignored.append(p)
 
+        # an ignored root paradigm defines nothing
+        root_paradigms = [r for r in root_paradigms if r not in ignored]
+
         # ignore all scripts that are not in a root paradigm
         singular_sequences = set()
         for r in root_paradigms:
@@ -41,13 +44,11 @@ class Dictionary:
             singular_sequences |= r.singular_sequences_set
 
         for s in scripts.values():
-            if not s.singular_sequences_set.issubset(singular_sequences):
+            if s not in ignored and not s.singular_sequences_set.issubset(singular_sequences):
                 ignored.append(s)
 
         for s in ignored:
             del scripts[str(s)]
-            if s in root_paradigms:
-                root_paradigms.remove(s)
             if s in inhibitions:
                 del inhibitions[s]
 
-- 
2.43.0


From b340bb56d51e9b0a8f505dee34b9ff1e707946b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:25 +0000
Subject: [PATCH 16/51] fix: a root paradigm can inhibit the father relations
 of its scripts

---
 ieml/dictionary/relation/relations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/relation/relations.py b/ieml/dictionary/relation/relations.py
index 24c3508..d3ce726 100644
--- a/ieml/dictionary/relation/relations.py
+++ b/ieml/dictionary/relation/relations.py
@@ -188,12 +188,13 @@ class RelationsGraph:
         father = [([], []) for _ in range(3)]
 
         for s in dictionary.scripts:
+            inhibitions = dictionary._inhibitions[dictionary.tables.root(s)]
             for sub_s in s if isinstance(s, AdditiveScript) else [s]:
                 if len(sub_s.children) == 0 or isinstance(sub_s, NullScript):
                     continue
 
                 for i, rel in enumerate(('father_substance', 'father_attribute', 'father_mode')):
-                    if rel in dictionary._inhibitions:
+                    if rel in inhibitions:
                         continue
 
                     fathers_indexes = _recurse_script(sub_s.children[i])
-- 
2.43.0


From 705f04600986e2bad778306108608184d9dbb6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:16 +0000
Subject: [PATCH 17/51] fix: update_all_ieml migrates the descriptors of every
 usl, diff gives the whole ieml

---
 ieml/ieml_database/git_interface.py              |  4 ++--
 ieml/ieml_database/transactions/DBTransaction.py | 15 +++++++--------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index dcac1d9..b93f512 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -5,7 +5,7 @@ from io import StringIO
 
 import tqdm
 
-from ieml.ieml_database.descriptors import Descriptor, Descriptors
+from ieml.ieml_database.descriptors import Descriptor, Descriptors, unescape_value
 
 try:
     from pygit2._pygit2 import GIT_CHECKOUT_FORCE, GIT_CHECKOUT_RECREATE_MISSING, GIT_STATUS_WT_NEW, \
@@ -419,7 +419,7 @@ class GitInterface:
                         added.append(l.content)
             if l:
                 res[file_path] = {
-                    'ieml': l.content.split('"')[1],
+                    'ieml': unescape_value(next(csv.reader([l.content], delimiter=' ', quotechar='"'))[0]),
                     'added': added,
                     'deleted': deleted,
                     'is_new': patch.delta.old_file.mode == 0,
diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 1755a92..b6396f5 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -358,14 +358,13 @@ class DBTransactions:
 
         with self.gitdb.commit(self.signature, '[IEML migration] Update all ieml in db: {}'.format(message)):
 
-            for old_ieml in tqdm.tqdm(db.list(parse=True), "Migrate all usls"):
-                new_ieml = f(old_ieml)
-
-                value = desc.get_values_partial(old_ieml)
+            migrations = [(old_ieml, f(old_ieml)) for old_ieml in db.list(parse=True)]
 
+            # an ieml can be migrated to one that is migrated too
+            for old_ieml, _ in migrations:
                 db.remove_descriptor(old_ieml, None, None)
 
-                for l in LANGUAGES:
-                    for d in value[l]:
-                        for e in value[l][e]:
-                            db.add_descriptor(new_ieml, l, d, e)
\ No newline at end of file
+            for old_ieml, new_ieml in tqdm.tqdm(migrations, "Migrate all usls"):
+                for (_, l, d), values in desc.get_values_partial(old_ieml).items():
+                    for e in values:
+                        db.add_descriptor(new_ieml, l, d, e)
\ No newline at end of file
-- 
2.43.0


From 2589c3b0fe7c1c6dc24e8bfb0bfddcc6c714b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:47 +0000
Subject: [PATCH 18/51] fix: pulling resolves every kind of conflict and ends
 the merge

---
 ieml/ieml_database/git_interface.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index b93f512..f74f1af 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -22,7 +22,8 @@ from appdirs import user_cache_dir
 
 from ieml import logger, error
 from ieml.commons import monitor_decorator
-from ieml.constants import IEMLDB_DEFAULT_GIT_ADDRESS, LIBRARY_VERSION, DEFAULT_COMMITER_SIGNATURE
+from ieml.constants import IEMLDB_DEFAULT_GIT_ADDRESS, LIBRARY_VERSION, DEFAULT_COMMITER_SIGNATURE, LANGUAGES, \
+    DESCRIPTORS_CLASS
 
 
 def get_local_cache_dir(origin):
@@ -260,7 +261,8 @@ class GitInterface:
             # repo.head.set_target(commit_target)
 
 
-            repo.merge(commit_target)
+            # the files are named after their ieml, a file is never the renaming of an other one
+            repo.merge(commit_target, flags=pygit2.enums.MergeFlag(0))
 
             # we are now in the remote state, we are going to try to add the local commit on top of the remote HEAD
             # until a merge conflict
@@ -295,7 +297,7 @@ class GitInterface:
 
                 # resolve conflicts ...
                 for ancestor, local_entry, remote_entry in repo.index.conflicts:
-                    old_path = ancestor.path if ancestor is not None else local_entry.path
+                    old_path = next(e.path for e in (ancestor, local_entry, remote_entry) if e is not None)
 
                     #  None => deleted
                     new_path = remote_entry.path if remote_entry is not None else None
@@ -354,16 +356,16 @@ class GitInterface:
                     last = self.repo.create_commit('HEAD',
                                             DEFAULT_COMMITER_SIGNATURE,
                                             DEFAULT_COMMITER_SIGNATURE,
-                                            "Merge {}".format(ieml),
+                                            "Merge {}".format(', '.join(conflicts)),
                                             tree_id,
                                             [repo.head.target, commit_target])
 
-                # repo.state_cleanup()
+            repo.state_cleanup()
 
             # repo.head.set_target(last)
         else:
             #TODO handle merge conflicts here
-            raise ValueError("Incompatible history, can't merge origin into {}#{} in folder {}".format(self.branch, commit_target,self.folder))
+            raise ValueError("Incompatible history, can't merge origin into {}#{} in folder {}".format(repo.head.shorthand, commit_target,self.folder))
 
         return conflicts
 
-- 
2.43.0


From 36b241277540ede4d04fa7cf6791a7791934a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:44 +0000
Subject: [PATCH 19/51] fix: the caches of the database follow its content

---
 ieml/commons.py                     | 19 ++++++++++++++-----
 ieml/ieml_database/ieml_database.py |  2 +-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index a5b7b0c..3f438a1 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -99,7 +99,8 @@ class FolderWatcherCache:
         """
         self.db_path = db_path
         self.pattern = pattern
-        self.files = sorted([os.path.abspath(ff) for ff in glob.glob(os.path.join(self.db_path, self.pattern), recursive=True)])
+        self.files = sorted([os.path.abspath(ff) for ff in glob.glob(os.path.join(self.db_path, self.pattern), recursive=True)
+                             if os.path.isfile(ff)])
         self.cache_folder = os.path.abspath(cache_folder)
         self.name = name
 
@@ -111,7 +112,11 @@ class FolderWatcherCache:
         :return: None
         """
         for c in self._cache_candidates():
-            os.remove(c)
+            try:
+                os.remove(c)
+            except FileNotFoundError:
+                # an other process updates the cache too
+                pass
 
         with open(self.cache_file, 'wb') as fp:
             pickle.dump(obj, fp, protocol=4)
@@ -192,16 +197,20 @@ def cache_results_watch_files(path, name):
                     logger.info("read_{}.cache: Pruned cache at {}".format(name, cache_folder))
                     instance = None
 
-                if instance:
+                if instance is not None:
                     return instance
 
+                cache_file = cache.cache_file
+
             instance = f(*args, **kwargs)
 
             if use_cache and cache_folder:
                 cache = FolderWatcherCache(db_path, path, cache_folder=cache_folder, name=name)
 
-                logger.info("read_{}.cache: Updating cache at {}".format(name, cache.cache_file))
-                cache.update(instance)
+                # the files can have changed since they have been read
+                if cache.cache_file == cache_file:
+                    logger.info("read_{}.cache: Updating cache at {}".format(name, cache_file))
+                    cache.update(instance)
 
             return instance
 
diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index eab7862..19ac27b 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -244,7 +244,7 @@ class IEMLDatabase:
         return Dictionary(self.list('morpheme', paradigm=True), self.get_structure())
 
     @monitor_decorator("Get list of all usls")
-    @cache_results_watch_files("morpheme/*/*.desc", 'all_usls')
+    @cache_results_watch_files("**/*.*", 'all_usls')
     def get_list(self):
         res = {}
         dictionary = self.get_dictionary()
-- 
2.43.0


From fe5da2646c4326d1e5dd65c96a1254147b991fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:53 +0000
Subject: [PATCH 20/51] fix: morphemes that begin like an old grammatical class
 can be read

---
 ieml/constants.py         | 2 +-
 ieml/usl/parser/lexer.py  | 5 ++++-
 ieml/usl/parser/parser.py | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ieml/constants.py b/ieml/constants.py
index 7c4c812..830330a 100644
--- a/ieml/constants.py
+++ b/ieml/constants.py
@@ -114,7 +114,7 @@ PHONETIC_PUNCTUATION = [
     '_',
     '~'
 ]
-TERM_REGEX = r'(?!E:\.b\.E:.:\.-)[EUASBTOMFIacbedgfihkjmlonpsutwyx][EUASBTOMFIacbedgfihkjmlonpsutwyx\.\-\;\:\,\'\’\_\+]+'
+TERM_REGEX = r'[EUASBTOMFIacbedgfihkjmlonpsutwyx][EUASBTOMFIacbedgfihkjmlonpsutwyx\.\-\;\:\,\'\’\_\+]+'
 
 # TERM_REGEX_LAYER_0 = r'[EUASBTOMFI]\:'
 # TERM_REGEX_LAYER_0_ADD = r'{layer0}(\s*\+\s*{layer0})*'.format(layer0=TERM_REGEX_LAYER_0)
diff --git a/ieml/usl/parser/lexer.py b/ieml/usl/parser/lexer.py
index 2632a73..b779e83 100644
--- a/ieml/usl/parser/lexer.py
+++ b/ieml/usl/parser/lexer.py
@@ -36,7 +36,10 @@ tokens = (
 
 
 def get_lexer(module=None):
-    t_OLD_MORPHEME_GRAMMATICAL_CLASS = r'E:\.b\.E:[SBT]:\.-'
+    # rules given as functions are tried first
+    def t_OLD_MORPHEME_GRAMMATICAL_CLASS(t):
+        r'E:\.b\.E:[SBT]:\.-(?![\w\.\-\;\:\,\'\’\+])'
+        return t
 
     t_MORPHEME = TERM_REGEX
     # t_PLUS   = r'\+'
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index 8453df1..b5d7bf9 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -82,7 +82,8 @@ class IEMLParser():
             raise ValueError("Invalid decoration path: " + str(e))
 
     def p_morpheme(self, p):
-        """morpheme : MORPHEME"""
+        """morpheme : MORPHEME
+                    | OLD_MORPHEME_GRAMMATICAL_CLASS"""
 
         morpheme = script(p[1], factorize=self.factorize_script)
 
-- 
2.43.0


From 446a2d668f644c190114b8a86d9a8561e3c0b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:23 +0000
Subject: [PATCH 21/51] fix: a word with a role that has no lexeme of its own
 is rejected with CannotParse

---
 ieml/usl/syntagmatic_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index 67e1b6d..d6741b0 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -382,6 +382,9 @@ class DependantQualitySyntagmaticFunction(SyntagmaticFunction):
         if _junction:
             return JunctionSyntagmaticFunction._from_list(l, DependantQualitySyntagmaticFunction)
 
+        if actor is None:
+            raise ValueError("Invalid actant syntagmatic function definition, a role is given without its own lexeme.")
+
         dependant = None
         if _dependant:
             dependant = DependantQualitySyntagmaticFunction._from_list(_dependant)
-- 
2.43.0


From 48413f1f68ee7cf8eff9f4905f31effc4779c834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:44 +0000
Subject: [PATCH 22/51] fix: any two usls or scripts can be compared

---
 ieml/usl/syntagmatic_function.py | 5 +++--
 ieml/usl/usl.py                  | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index d6741b0..ab286c3 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -60,8 +60,9 @@ class SyntagmaticFunction:
         return s_actors == o_actors
 
     def __lt__(self, other):
-        s_actors = sorted([(p, a.actor) for p, a in self.actors.items()], key=lambda e: e[0])
-        o_actors = sorted([(p, a.actor) for p, a in other.actors.items()], key=lambda e: e[0])
+        # the junctions have no actor
+        s_actors = sorted([(p, a.actor) for p, a in self.actors.items() if a.actor is not None], key=lambda e: e[0])
+        o_actors = sorted([(p, a.actor) for p, a in other.actors.items() if a.actor is not None], key=lambda e: e[0])
         return s_actors < o_actors
 
     # @property
diff --git a/ieml/usl/usl.py b/ieml/usl/usl.py
index 867d2ad..5d15977 100644
--- a/ieml/usl/usl.py
+++ b/ieml/usl/usl.py
@@ -40,6 +40,12 @@ class USL(DecoratedComponent):
         return self.syntactic_level < other.syntactic_level or \
                (self.syntactic_level == other.syntactic_level and self.do_lt(other))
 
+    def __gt__(self, other):
+        if isinstance(other, Script):
+            return self != other
+
+        return NotImplemented
+
     def do_lt(self, other):
         raise NotImplementedError()
 
-- 
2.43.0


From d1aa35b05efc7ec46a8f82329663cfb23ef3797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:30 +0000
Subject: [PATCH 23/51] fix: a word whose focus is not one of its roles is
 refused with ValueError

---
 ieml/usl/syntagmatic_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index ab286c3..a4f62cc 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -165,7 +165,8 @@ class SyntagmaticFunction:
             try:
                 node = self.actors[SyntagmaticRole(role)]
             except KeyError:
-                pass
+                raise ValueError("The role \"{}\" is not a role of this syntagmatic function".format(
+                    str(SyntagmaticRole(role))))
             if not isinstance(node, JunctionSyntagmaticFunction):
                 return [role]
             return list(chain.from_iterable(map(_expand_junction,
-- 
2.43.0


From 163c831fb962ffa925c283155c09f3c162aa47f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:47 +0000
Subject: [PATCH 24/51] fix: the morphemes of a word with a junction can be
 listed

---
 ieml/usl/word.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/word.py b/ieml/usl/word.py
index e8aa5c2..6511a30 100644
--- a/ieml/usl/word.py
+++ b/ieml/usl/word.py
@@ -84,7 +84,8 @@ class Word(USL):
     @property
     def morphemes(self):
         return sorted(set(chain.from_iterable(e.actor.morphemes
-                                              for e in self.syntagmatic_fun.actors.values())))
+                                              for e in self.syntagmatic_fun.actors.values()
+                                              if e.actor is not None)))
 
     def check(self):
         check_word(self)
\ No newline at end of file
-- 
2.43.0


From bc5735f18c2ce771ce703b41f0bd9ffd5adec84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:47 +0000
Subject: [PATCH 25/51] fix: adding scripts does not modify the list of the
 operands

---
 ieml/dictionary/script/script.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/script/script.py b/ieml/dictionary/script/script.py
index 7f4adca..560757d 100644
--- a/ieml/dictionary/script/script.py
+++ b/ieml/dictionary/script/script.py
@@ -237,7 +237,8 @@ class AdditiveScript(Script):
         _children = []
 
         if children:
-            _children = children
+            # the list of the caller must not be modified
+            _children = list(children)
 
         if character in REMARKABLE_ADDITION:
             _character = character
-- 
2.43.0


From 1615b712107db3300491728c78d65870a59b2812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:47 +0000
Subject: [PATCH 26/51] fix: usls can be pickled and copied after their
 singular sequences have been computed

---
 ieml/usl/usl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ieml/usl/usl.py b/ieml/usl/usl.py
index 5d15977..91261a2 100644
--- a/ieml/usl/usl.py
+++ b/ieml/usl/usl.py
@@ -16,6 +16,10 @@ class USL(DecoratedComponent):
 
         self.grammatical_class = None
 
+    def __getstate__(self):
+        # a singular usl is in its own set of singular sequences, it can't be hashed before it is unpickled
+        return {**self.__dict__, '_singular_sequences': None, '_singular_sequences_set': None}
+
     def __bool__(self):
         return not self.empty
 
-- 
2.43.0


From 5bdc240632d500914ecec176c246951735bdd781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:02 +0000
Subject: [PATCH 27/51] fix: a word made of a junction has a truth value

---
 ieml/usl/syntagmatic_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index a4f62cc..3a73602 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -79,7 +79,8 @@ class SyntagmaticFunction:
 
     @property
     def empty(self):
-        return self.actor.empty and len(self.actors) == 0
+        # a junction has no actor of its own
+        return self.actor is not None and self.actor.empty and len(self.actors) == 0
 
     def get(self, role: SyntagmaticRole, ignore_prefix=False, ignore_process_valence=False) -> X:
         # UNUSED ?
-- 
2.43.0


From ceb49bd7990a36a3fb54cc199fe39068fdc660a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:38 +0000
Subject: [PATCH 28/51] fix: the columns of a table of usls keep the variations
 of the rows

---
 ieml/usl/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/table.py b/ieml/usl/table.py
index be06731..9d8cede 100644
--- a/ieml/usl/table.py
+++ b/ieml/usl/table.py
@@ -154,7 +154,7 @@ class UslTable2D:
 
         res2 = []
         for l in res:
-            res2.append([(path.concat(p2).as_constant(ss), ss)
+            res2.append([(path.concat(p2), ss)
                          for path, vv in l
                          for p2, ss in vv.iter_structure_path_by_script_ss()])
 
-- 
2.43.0


From 822d05291b74fc1716229f49b690c35bee4360eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:18 +0000
Subject: [PATCH 29/51] fix: the tables of a root paradigm do not depend on the
 hash seed

---
 ieml/dictionary/table/table_structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/table/table_structure.py b/ieml/dictionary/table/table_structure.py
index 1a59b59..b0899f4 100644
--- a/ieml/dictionary/table/table_structure.py
+++ b/ieml/dictionary/table/table_structure.py
@@ -52,7 +52,8 @@ class TableStructure:
             cells.add(cell)
 
         defined = {root_table}
-        for s in sorted(set(paradigms) - {root}, key=len, reverse=True):
+        # the tables of the same size are defined in the order of the scripts
+        for s in sorted(sorted(set(paradigms) - {root}), key=len, reverse=True):
             if s in tables:
                 raise ValueError("Already defined")
                 # continue
-- 
2.43.0


From 1cc76117941cf18313ab29807ebac46a5f06a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:19 +0000
Subject: [PATCH 30/51] fix: a dictionary whose paradigms are nested deeper
 than the last rank can be loaded

---
 ieml/dictionary/table/table.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/table/table.py b/ieml/dictionary/table/table.py
index 808267b..4b01580 100644
--- a/ieml/dictionary/table/table.py
+++ b/ieml/dictionary/table/table.py
@@ -133,7 +133,8 @@ class Table2D(Table):
         if script not in self.script:
             return False, False
 
-        if self.rank != 0 and self.rank % 2 == 0:
+        # the last rank is 5
+        if self.rank != 0 and (self.rank % 2 == 0 or self.rank > 3):
             return False, False
 
         coords = sorted([self.index_of(ss) for ss in script.singular_sequences])
@@ -183,6 +184,10 @@ class Table1D(Table):
         if s not in self.script:
             return False, False
 
+        # the last rank is 5
+        if self.rank > 3:
+            return False, False
+
         coords = sorted([self.index_of(ss) for ss in s.singular_sequences])
         if len(coords) == coords[-1][0] - coords[0][0] + 1:
             return True, True
-- 
2.43.0


From 5303f401ba229da5fc26ba1850297fa254db2a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:22 +0000
Subject: [PATCH 31/51] fix: words and lexemes are listed with their own type

---
 ieml/usl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/__init__.py b/ieml/usl/__init__.py
index 175ffa9..1e65495 100644
--- a/ieml/usl/__init__.py
+++ b/ieml/usl/__init__.py
@@ -35,7 +35,7 @@ def get_index(s, dic):
             return (0, '0' + int2base(dic.index[s.constant[0]]))
         else:
             return (1, '1' + int2base(_polymorph_idx(s, dic)))
-    elif isinstance(s, Word):
+    elif isinstance(s, Lexeme):
         return (2, '2' + int2base(0))
     else:
         return (3, '3' + int2base(0))
-- 
2.43.0


From 37c3d06bc4d9eda823ace820518fb7e2cdd0c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:11 +0000
Subject: [PATCH 32/51] fix: the list of a database with words can be read

---
 ieml/ieml_database/ieml_database.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 19ac27b..451f937 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -23,7 +23,7 @@ from tqdm import tqdm
 from ieml import error
 from ieml.commons import monitor_decorator, cache_results_watch_files
 from ieml.constants import INHIBITABLE_RELATIONS, STRUCTURE_KEYS, GRAMMATICAL_CLASS_NAMES, \
-    TYPES, LANGUAGES, DESCRIPTORS_CLASS
+    TYPES, LANGUAGES, DESCRIPTORS_CLASS, VERB_CLASS, NOUN_CLASS, AUXILIARY_CLASS
 from ieml.dictionary.dictionary import Dictionary
 from ieml.dictionary.script import NullScript, MultiplicativeScript, AdditiveScript, Script
 from ieml.exceptions import CannotParse
@@ -33,7 +33,15 @@ from ieml.usl.decoration.instance import InstancedUSL
 from ieml.usl.lexeme import Lexeme
 from ieml.usl.parser import IEMLParser
 from ieml.usl import PolyMorpheme, Word, get_index
+from ieml.usl.constants import SYNTAGMATIC_FUNCTION_PROCESS_TYPE_SCRIPT, SYNTAGMATIC_FUNCTION_ACTANT_TYPE_SCRIPT, \
+    SYNTAGMATIC_FUNCTION_QUALITY_TYPE_SCRIPT
 
+# the grammatical class of a word is a script, the type of its role
+WORD_CLASSES = {
+    SYNTAGMATIC_FUNCTION_PROCESS_TYPE_SCRIPT: VERB_CLASS,
+    SYNTAGMATIC_FUNCTION_ACTANT_TYPE_SCRIPT: NOUN_CLASS,
+    SYNTAGMATIC_FUNCTION_QUALITY_TYPE_SCRIPT: AUXILIARY_CLASS
+}
 
 
 def _normalize_value(value):
@@ -262,10 +270,11 @@ class IEMLDatabase:
                 i, r = get_index(pieml, dictionary)
                 if i == 0 and isinstance(pieml, PolyMorpheme):
                     pieml = pieml.constant[0]
+                grammatical_class = WORD_CLASSES.get(pieml.grammatical_class, pieml.grammatical_class)
                 res[ieml] = {'ieml': str(pieml),
                              'type': TYPES[i],
                              'paradigm': len(pieml) != 1,
-                             'class': GRAMMATICAL_CLASS_NAMES[pieml.grammatical_class].lower().capitalize(),
+                             'class': GRAMMATICAL_CLASS_NAMES[grammatical_class].lower().capitalize(),
                              'index': r,
                              'cardinality': 'singular_sequence' if pieml.cardinal == 1 else \
                                  ('paradigm' if not isinstance(pieml,
-- 
2.43.0


From 64182ab238c473bbf3974595ad09bdf96f25d87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:31 +0000
Subject: [PATCH 33/51] fix: a decorated usl is listed with the type of its usl

---
 ieml/ieml_database/ieml_database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 451f937..5728a20 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -267,7 +267,8 @@ class IEMLDatabase:
                     continue
 
                 assert str(pieml) == ieml
-                i, r = get_index(pieml, dictionary)
+                # a decorated usl is listed with the type of its usl
+                i, r = get_index(pieml.usl if isinstance(pieml, InstancedUSL) else pieml, dictionary)
                 if i == 0 and isinstance(pieml, PolyMorpheme):
                     pieml = pieml.constant[0]
                 grammatical_class = WORD_CLASSES.get(pieml.grammatical_class, pieml.grammatical_class)
-- 
2.43.0


From 4ea1e7ea3e440a1621c93d9a060a29cedc94cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:49 +0000
Subject: [PATCH 34/51] fix: a polymorpheme made of groups only can be listed

---
 ieml/usl/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/__init__.py b/ieml/usl/__init__.py
index 1e65495..7b7d8be 100644
--- a/ieml/usl/__init__.py
+++ b/ieml/usl/__init__.py
@@ -22,7 +22,8 @@ def int2base(i, max=30, characters=alphanumeric):
 
 
 def _polymorph_idx(pm, dic):
-    return sum(len(dic.scripts) ** i * dic.index[ss] for i, ss in enumerate(pm.constant))
+    # without constant, the constant is the empty script, that the dictionary may not define
+    return sum(len(dic.scripts) ** i * dic.index[ss] for i, ss in enumerate(pm.constant) if not ss.empty)
 
 
 
-- 
2.43.0


From 5570e9e0217fb09e04f5d19fca037235b8997a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:14 +0000
Subject: [PATCH 35/51] fix: a singular sequence can not be updated as a
 paradigm

---
 ieml/ieml_database/transactions/DBTransaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index b6396f5..73d1b37 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -223,7 +223,7 @@ class DBTransactions:
         if script_old == script_new:
             return
 
-        assert len(script_old) != 1 or len(script_new) != 1, "Can't update singular sequences, only paradigms"
+        assert len(script_old) != 1 and len(script_new) != 1, "Can't update singular sequences, only paradigms"
 
         db = IEMLDatabase(folder=self.gitdb.folder, use_cache=self.use_cache, cache_folder=self.cache_folder)
         d = db.get_dictionary()
-- 
2.43.0


From 810cdc91c0994bc34d4d8bbce5b44d96ab50208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:27 +0000
Subject: [PATCH 36/51] fix: the caches of a database whose folder name has
 wildcards are renewed

---
 ieml/commons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index 3f438a1..1242ea5 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -99,7 +99,7 @@ class FolderWatcherCache:
         """
         self.db_path = db_path
         self.pattern = pattern
-        self.files = sorted([os.path.abspath(ff) for ff in glob.glob(os.path.join(self.db_path, self.pattern), recursive=True)
+        self.files = sorted([os.path.abspath(ff) for ff in glob.glob(os.path.join(glob.escape(self.db_path), self.pattern), recursive=True)
                              if os.path.isfile(ff)])
         self.cache_folder = os.path.abspath(cache_folder)
         self.name = name
-- 
2.43.0


From b23d7401d21eb7b9ca0e87ea35ad9cf7fe46e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:32 +0000
Subject: [PATCH 37/51] fix: a path does not have a longer path, or another
 kind of path, as a prefix

---
 ieml/usl/decoration/path.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index 0179811..1906573 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -220,7 +220,9 @@ class PolymorphemePath(UslPath):
 			   self.multiplicity == other.multiplicity
 
 	def _has_prefix(self, other):
-		return self.group_idx == other.group_idx and self.multiplicity == other.multiplicity
+		# the path of a group is a prefix of the path of its morphemes
+		return isinstance(other, PolymorphemePath) and other.morpheme is None and \
+			   self.group_idx == other.group_idx and self.multiplicity == other.multiplicity
 
 	def as_constant(self, u=None):
 		return PolymorphemePath(group_idx=GroupIndex.CONSTANT,
-- 
2.43.0


From c11680ac072c9cd4d930a176c131c43302c1d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 38/51] fix: the path of a constant that was read is a prefix
 of itself

---
 ieml/usl/decoration/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index 1906573..8fbd516 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -209,7 +209,8 @@ class PolymorphemePath(UslPath):
 		super().__init__(child=child)
 		self.group_idx = group_idx
 		self.morpheme = morpheme
-		self.multiplicity = multiplicity
+		# a constant has no multiplicity, the reader gives one
+		self.multiplicity = multiplicity if group_idx != GroupIndex.CONSTANT else None
 
 	@property
 	def _is_constant_path(self):
-- 
2.43.0


From 5a78e751c1a9a9efaabd03eb14ed5eea69874261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:23 +0000
Subject: [PATCH 39/51] fix: the table of a usl can have the choices of a
 flexion as its rows

---
 ieml/usl/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/table.py b/ieml/usl/table.py
index 9d8cede..b65904e 100644
--- a/ieml/usl/table.py
+++ b/ieml/usl/table.py
@@ -134,7 +134,7 @@ class UslTable2D:
             for pm_ss in usl(v).singular_sequences:
                 group_ss = []
                 for _, ss in pm_ss.iter_structure_path_by_script_ss():
-                    path = path_bin.concat(ss_to_groups_path[ss])
+                    path = path_bin.concat(ss_to_groups_path.get(ss, v[0][0]))
 
                     group_ss.append((path, ss))
 
-- 
2.43.0


From aed9ea17e02deb8b980066fb670ed5c932a4a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:20 +0000
Subject: [PATCH 40/51] fix: keep the mode of a multiplication whose attribute
 is not given

---
 ieml/dictionary/script/script.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ieml/dictionary/script/script.py b/ieml/dictionary/script/script.py
index 560757d..0936001 100644
--- a/ieml/dictionary/script/script.py
+++ b/ieml/dictionary/script/script.py
@@ -353,12 +353,10 @@ class MultiplicativeScript(Script):
         if children is None:
             children = [substance, attribute, mode]
 
-        _children = []
-        for child in children:
-            if child is not None:
-                _children.append(child)
-            else:
-                break
+        # a role that is not given is empty
+        children = list(children)
+        given = [child for child in children if child is not None]
+        _children = [NullScript(layer=given[0].layer) if child is None else child for child in children] if given else []
 
         # Replace all the corresponding children to character
         _character = None
-- 
2.43.0


From 8d3f3f95733e50e3c72cca182bc28d39918b88e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:56 +0000
Subject: [PATCH 41/51] fix: the focus of a word can be a junction, all its
 lexemes are marked

---
 ieml/usl/decoration/path.py      | 20 +++++++++-----------
 ieml/usl/parser/parser.py        | 20 ++++++++++----------
 ieml/usl/syntagmatic_function.py | 20 +++++++++++++++++++-
 3 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index 8fbd516..128b13e 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -650,27 +650,22 @@ class RolePath(UslPath):
 
 	@classmethod
 	def build_usl_from_path_to_node(cls, path_to_node):
-		focus_role = None
+		focus_roles = []
 
 		for k, v in path_to_node.items():
 			if not isinstance(k, RolePath):
 				raise ValueError("invalid path type to instantiate a Word " + k.__class__.__name__)
 
 			if k.has_focus:
-				if focus_role is not None and focus_role != k.role:
-					raise ValueError("Incoherent focus role, multiple differents values")
-				focus_role = k
+				focus_roles.append(k.role)
 
-		if focus_role is None:
+		if not focus_roles:
 			raise ValueError("No focus role defined in this word")
 
 		path_to_node_grouped = defaultdict(list)
 		for k, v in path_to_node.items():
 			if v is not None:
-				if focus_role.role == k.role and not k.has_focus:
-					path_to_node_grouped[focus_role].append(v)
-				else:
-					path_to_node_grouped[k].append(v)
+				path_to_node_grouped[k.role].append(v)
 
 		path_to_node_res = {}
 		for k, v in path_to_node_grouped.items():
@@ -678,13 +673,16 @@ class RolePath(UslPath):
 				raise ValueError('Two many lexemes at role: ' + str(k))
 			path_to_node_res[k] = v[0]
 
-		lex_list = [(k.role.constant, v) for k, v in path_to_node_res.items()]
+		lex_list = [(k.constant, v) for k, v in path_to_node_res.items()]
 
 		ctx_type, sfun = SyntagmaticFunction.from_list(lex_list)
 
+		focus_role = sfun.marked_role([role.constant for role in focus_roles], ctx_type)
+		if focus_role is None:
+			raise ValueError("Incoherent focus role, multiple differents values")
 
 		return Word(syntagmatic_fun=sfun,
-					role=focus_role.role,
+					role=focus_role,
 					context_type=ctx_type)
 
 
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index b5d7bf9..c476c31 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -164,28 +164,28 @@ class IEMLParser():
                        | EXCLAMATION_MARK positioned_lexeme
                        | positioned_lexeme"""
         if len(p) == 5:
-            lex_list, _ = p[1]
+            lex_list, addresses = p[1]
             role, _ = p[4]
-            p[0] = (lex_list + [p[4]], role)
+            p[0] = (lex_list + [p[4]], addresses + [role])
         elif len(p) == 4:
-            lex_list, address = p[1]
-            p[0] = (lex_list + [p[3]], address)
+            lex_list, addresses = p[1]
+            p[0] = (lex_list + [p[3]], addresses)
         elif len(p) == 3:
             role, _ = p[2]
-            p[0] = ([p[2]], role)
+            p[0] = ([p[2]], [role])
         else:
-            p[0] = ([p[1]], None)
+            p[0] = ([p[1]], [])
 
     def p_word(self, p):
         """word : LBRACKET OLD_MORPHEME_GRAMMATICAL_CLASS lexeme_list RBRACKET
                 | LBRACKET lexeme_list RBRACKET"""
 
         if len(p) == 5:
-            lex_list, role = p[3]
+            lex_list, roles = p[3]
         else:
-            lex_list, role = p[2]
+            lex_list, roles = p[2]
 
-        if not role:
+        if not roles or not all(roles):
             raise ValueError("No role specified in the syntagmatic function to build a word.")
 
         # try:
@@ -194,7 +194,7 @@ class IEMLParser():
         #     raise ValueError("Invalid lexeme parsed to create a word " + repr(e))
 
         p[0] = Word(syntagmatic_fun=sfun,
-                    role=SyntagmaticRole(constant=role),
+                    role=sfun.marked_role(roles, ctx_type) or SyntagmaticRole(constant=roles[-1]),
                     context_type=ctx_type)
         # check_word(p[0])
         # assert p[2] == p[0].grammatical_class
diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index 3a73602..933116e 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -113,8 +113,12 @@ class SyntagmaticFunction:
     def iter_structure_path(self, context, focus_role=None):
         from ieml.usl.decoration.path import RolePath
 
+        prefix = self.get_context_role_prefix(context)
+        focus = [] if focus_role is None else \
+            [[*prefix, *r.constant] for r in self.get_role_expansion(focus_role, prefix)]
+
         for l, lex in self.as_list(context):
-            has_focus = (SyntagmaticRole(constant=l) == focus_role)
+            has_focus = l in focus
             yield (RolePath(SyntagmaticRole(l), has_focus=has_focus, child=None), lex)
 
             for child, x in lex.iter_structure_path():
@@ -177,6 +181,20 @@ class SyntagmaticFunction:
 
         return sorted(SyntagmaticRole(r) for r in _expand_junction(_ignore_prefix(role).constant))
 
+    def marked_role(self, roles: List[List[Script]], context_type) -> SyntagmaticRole:
+        """ return the role which is rendered with a mark on each of these roles (a junction marks all its lexemes) or
+        None."""
+        prefix = self.get_context_role_prefix(context_type)
+        marked = sorted(SyntagmaticRole(role) for role in roles)
+
+        if len(marked) == 1:
+            return marked[0]
+
+        candidates = [SyntagmaticRole([*prefix, *role.constant]) for role in self.actors]
+        candidates = [role for role in candidates
+                      if [SyntagmaticRole([*prefix, *r.constant]) for r in self.get_role_expansion(role, prefix)] == marked]
+        return max(candidates, key=lambda role: len(role.constant), default=None)
+
     def as_list(self, context_type) -> List[Tuple[List[Script], X]]:
         prefix = self.get_context_role_prefix(context_type)
         if prefix is None:
-- 
2.43.0


From d11c92d4e57c600a9a3a4787c9c466d18321277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 42/51] fix: a branch that is only in the origin can be opened

GitInterface(origin, branch='x') raised NotFoundError after the clone when x was not the default branch of the origin.
---
 ieml/ieml_database/git_interface.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index f74f1af..8538422 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -172,6 +172,11 @@ class GitInterface:
 
         self.reset()
         if branch is not None:
+            remote_branch = 'origin/{}'.format(branch)
+            if branch not in repo.branches.local and remote_branch in repo.branches.remote:
+                # the branch is only in the origin
+                repo.branches.local.create(branch, repo.get(repo.branches.remote[remote_branch].target))
+
             master_ref = repo.lookup_reference('refs/heads/{}'.format(branch))
         else:
             master_ref = repo.head
-- 
2.43.0


From cc72b2d4b636d147bc7d64cf3ef4fa5326a472c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 43/51] fix: a usl stored under an unnormalized text is removed
 with normalize=False, not the normalized one

---
 ieml/ieml_database/ieml_database.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 5728a20..ec53ddd 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -307,7 +307,7 @@ class IEMLDatabase:
     @monitor_decorator('remove_key')
     def remove_descriptor(self, ieml, language=None, descriptor=None, value=None, normalize=True):
         ieml, language, descriptor = normalize_key(ieml, language, descriptor,
-                                                   parse_ieml=True, partial=True)
+                                                   parse_ieml=normalize, partial=True)
 
         path = self.path_of(ieml, mkdir=True, normalize=normalize)
         if not os.path.isfile(path):
@@ -320,10 +320,10 @@ class IEMLDatabase:
         if descriptor is None or language is None:
             if language is None:
                 for l in LANGUAGES:
-                    self.remove_descriptor(ieml, l, descriptor, value)
+                    self.remove_descriptor(ieml, l, descriptor, value, normalize=normalize)
             else:
                 for d in DESCRIPTORS_CLASS:
-                    self.remove_descriptor(ieml, language, d, value)
+                    self.remove_descriptor(ieml, language, d, value, normalize=normalize)
             return
 
         if value:
@@ -343,7 +343,7 @@ class IEMLDatabase:
             fp.write('"{}" {} "{}"\n'.format(str(ieml), key, value))
 
     def remove_structure(self, ieml, key=None, value=None, normalize=True):
-        ieml, key, value = normalize_key(ieml, key, value, parse_ieml=True, partial=True, structure=True)
+        ieml, key, value = normalize_key(ieml, key, value, parse_ieml=normalize, partial=True, structure=True)
 
         path = self.path_of(ieml, descriptor=False, mkdir=True, normalize=normalize)
 
-- 
2.43.0


From 6ae9e8705787f47727602f4058097b0766b9ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:26 +0000
Subject: [PATCH 44/51] fix: a group of empty morphemes is written so that it
 can be read again

---
 ieml/usl/polymorpheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index 3226149..67f4ebc 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -161,7 +161,7 @@ class PolyMorpheme(USL):
         # self.groups_paradigms = [PolyMorpheme(groups=[g]) for g in groups]
 
         self._str = ' '.join(chain(map(str, self.constant),
-                               ["m{}({})".format(mult, ' '.join(map(str, group))) for group, mult
+                               ["m{}({})".format(mult, ' '.join(map(str, group or NULL_SCRIPTS[:1]))) for group, mult
                                     in self.groups]))
 
         if not self.constant:
-- 
2.43.0


From 5179fdec66f297bfd4f32cbbe717ed26eda4d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 45/51] fix: the names of the tenth place of a junction and of
 the next ones are read in a path

---
 ieml/usl/decoration/parser/lexer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/decoration/parser/lexer.py b/ieml/usl/decoration/parser/lexer.py
index c58c994..71693d3 100644
--- a/ieml/usl/decoration/parser/lexer.py
+++ b/ieml/usl/decoration/parser/lexer.py
@@ -5,7 +5,8 @@ from ieml.usl.constants import NAMES_TO_ADDRESS_WITH_VALENCE_IN_PROCESS, ROLE_NA
 
 logger = logging.getLogger(__name__)
 
-ROLE_NAMES = list(ROLE_NAMES_TO_SCRIPT)
+# the longest first, '*1' is the beginning of '*10'
+ROLE_NAMES = sorted(ROLE_NAMES_TO_SCRIPT, key=len, reverse=True)
 ROLE_NAMES_REGEX = r"({})".format('|'.join(map(re.escape, map(str, ROLE_NAMES))))
 
 ROLES_SCRIPTS = list(NAMES_TO_ADDRESS)
-- 
2.43.0


From 2987b4f1bc1a78269e4155ef4338e5428e021f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 46/51] fix: a word is not one of its own parts that vary

---
 ieml/usl/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/table.py b/ieml/usl/table.py
index b65904e..2582560 100644
--- a/ieml/usl/table.py
+++ b/ieml/usl/table.py
@@ -196,7 +196,8 @@ def enumerate_partitions(usl: USL):
     prefix_tree = Tree()
 
     for p, ss in usl.iter_structure_path():
-        if p.deference(usl).cardinal != 1:
+        # the path of the usl itself is not the one of a part
+        if p.__class__ != UslPath and p.deference(usl).cardinal != 1:
             child = p
             curr = prefix_tree
             while child is not None:
-- 
2.43.0


From b6514b55ecc12a86cacc26bcd16003529c536d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 47/51] fix: checking a lexeme checks its polymorphemes

---
 ieml/usl/lexeme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/lexeme.py b/ieml/usl/lexeme.py
index 3dccbf7..e85e2cb 100644
--- a/ieml/usl/lexeme.py
+++ b/ieml/usl/lexeme.py
@@ -41,7 +41,7 @@ class Lexeme(USL):
 			self._str = "()"
 
 	def check(self):
-		pass
+		check_lexeme(self)
 
 	def iter_structure(self):
 		yield self.pm_flexion
-- 
2.43.0


From 480cd7d360798a029254498bb2a8b2f0202f80c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:30 +0000
Subject: [PATCH 48/51] fix: the singular sequence of a usl whose groups have
 no room left has no group

---
 ieml/usl/lexeme.py | 2 +-
 ieml/usl/word.py   | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/ieml/usl/lexeme.py b/ieml/usl/lexeme.py
index e85e2cb..037b8c6 100644
--- a/ieml/usl/lexeme.py
+++ b/ieml/usl/lexeme.py
@@ -73,7 +73,7 @@ class Lexeme(USL):
 
 
 	def _compute_singular_sequences(self):
-		if self.pm_flexion.is_singular and (self.pm_content is None or self.pm_content.is_singular):
+		if not self.pm_flexion.groups and (self.pm_content is None or not self.pm_content.groups):
 			return [self]
 		else:
 			_product = [self.pm_flexion,
diff --git a/ieml/usl/word.py b/ieml/usl/word.py
index 6511a30..b9a2d52 100644
--- a/ieml/usl/word.py
+++ b/ieml/usl/word.py
@@ -59,10 +59,9 @@ class Word(USL):
 
     def _compute_singular_sequences(self):
         sfun_ss = self.syntagmatic_fun.singular_sequences(context_type=self.context_type)
-        if len(sfun_ss) == 1:
-            return [self]
+        res = [Word(sfun, self.role, self.context_type) for sfun in sfun_ss]
 
-        return [Word(sfun, self.role, self.context_type) for sfun in sfun_ss]
+        return [self] if res == [self] else res
 
     def iter_structure(self):
         yield from self.syntagmatic_fun.iter_structure()
-- 
2.43.0


From 06be90bee387f21e9881cdf104520e4942d9fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:38 +0000
Subject: [PATCH 49/51] fix: a database with a value longer than 131072
 characters can be listed

---
 ieml/ieml_database/descriptors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieml/ieml_database/descriptors.py b/ieml/ieml_database/descriptors.py
index ed86fab..ffe86bc 100644
--- a/ieml/ieml_database/descriptors.py
+++ b/ieml/ieml_database/descriptors.py
@@ -15,6 +15,8 @@ from ieml.constants import STRUCTURE_KEYS, INHIBITABLE_RELATIONS, DescriptorsTyp
     Languages
 from ieml.usl.parser import IEMLParser
 
+# a value can be longer than the default limit of the fields of csv
+csv.field_size_limit(2 ** 31 - 1)
 
 
 def normalize_key(ieml, key, value, parse_ieml=False, partial=False, structure=False):
-- 
2.43.0


From 34a8f43c2d7f47b3890aeba727e2ce5a490b7914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:17 +0000
Subject: [PATCH 50/51] fix: a branch named like a file of the database is not
 read as one

---
 ieml/ieml_database/ieml_database.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index ec53ddd..3972114 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -176,7 +176,7 @@ class IEMLDatabase:
         if not os.path.isdir(p):
             return []
 
-        p1 = subprocess.Popen("find -path *.desc -print0".split(), stdout=subprocess.PIPE, cwd=p)
+        p1 = subprocess.Popen("find -path ./.git -prune -o -path *.desc -print0".split(), stdout=subprocess.PIPE, cwd=p)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=p)
         # the ieml is the first field, it can have quotes in it
         lines = csv.reader(TextIOWrapper(p2.stdout, encoding='utf8', newline=''), delimiter=' ', quotechar='"')
@@ -219,7 +219,7 @@ class IEMLDatabase:
             # p1 = subprocess.Popen(['sed', '-e', r's/\n/\x0/g'], stdin=p0.stdout,
             #                       stdout=subprocess.PIPE, cwd=self.folder)
         else:
-            p1 = subprocess.Popen("find -path *.desc -print0".split(),
+            p1 = subprocess.Popen("find -path ./.git -prune -o -path *.desc -print0".split(),
                                   stdout=subprocess.PIPE, cwd=self.folder)
 
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
@@ -237,7 +237,7 @@ class IEMLDatabase:
 
     @monitor_decorator("Get structure")
     def get_structure(self):
-        p1 = subprocess.Popen("find -path *.ieml -print0".split(), stdout=subprocess.PIPE, cwd=self.folder)
+        p1 = subprocess.Popen("find -path ./.git -prune -o -path *.ieml -print0".split(), stdout=subprocess.PIPE, cwd=self.folder)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
         try:
             r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
-- 
2.43.0


From 7e52c86b35fa2538d4a718ce98c0a5a9ad950380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:17 +0000
Subject: [PATCH 51/51] fix: the difference of two versions is given whatever
 the other files are

---
 ieml/ieml_database/git_interface.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index 8538422..20a9634 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -419,14 +419,25 @@ class GitInterface:
             file_path = patch.delta.new_file.path
             l = None
             for h in patch.hunks:
-                for l in h.lines:
+                for line in h.lines:
+                    # the mark of a missing end of line is not a line of the file
+                    if line.origin not in (' ', '+', '-'):
+                        continue
+
+                    l = line
                     if l.new_lineno == -1:
                         deleted.append(l.content)
                     elif l.old_lineno == -1:
                         added.append(l.content)
             if l:
+                # the other files (README ...) are about no ieml
+                ieml = None
+                if file_path.endswith(('.desc', '.ieml')):
+                    fields = next(csv.reader([l.content], delimiter=' ', quotechar='"'), None)
+                    ieml = unescape_value(fields[0]) if fields else None
+
                 res[file_path] = {
-                    'ieml': unescape_value(next(csv.reader([l.content], delimiter=' ', quotechar='"'))[0]),
+                    'ieml': ieml,
                     'added': added,
                     'deleted': deleted,
                     'is_new': patch.delta.old_file.mode == 0,
-- 
2.43.0

