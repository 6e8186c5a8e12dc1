From 720a9f1f69b476bc11eaa8a695c6cf9c53235e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 01/81] fix: Intervals merges every overlapping range and
 leaves its arguments unchanged

Removing a contained range skipped the comparison with the next one, and ranges of
arguments and operands were enlarged in-place.
---
 kerncraft/intervals.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerncraft/intervals.py b/kerncraft/intervals.py
index a2f77ee..85b1d1d 100755
--- a/kerncraft/intervals.py
+++ b/kerncraft/intervals.py
@@ -7,7 +7,8 @@ class Intervals(object):
 
     def __init__(self, *args, **kwargs):
         """If keywords *sane* is True (default: False), checks will not be done on given data."""
-        self.data = list(args)
+        # copy ranges, because they are changed in-place when overlaps are removed
+        self.data = [list(d) for d in args]
         if not kwargs.get('sane', False):
             self.data = [d for d in self.data if d[1] > d[0]]
             self._enforce_order()
@@ -29,6 +30,8 @@ class Intervals(object):
 
                 # removed contained range
                 del self.data[i+1]
+                # i-th range might also overlap with its new successor
+                continue
             i += 1
 
     def __and__(self, other):
-- 
2.43.0


From 13f305c8abee03c9c0d3755af507522d3bea9d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 02/81] fix: values of SI prefixes tera, peta and exa

---
 kerncraft/prefixedunit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index 8268a30..ac5f7e9 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -5,7 +5,7 @@ import ruamel.yaml
 
 
 class PrefixedUnit(ruamel.yaml.YAMLObject):
-    PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e13, 'P': 1e16, 'E': 1e19, 'Z': 1e21, 'Y': 1e24,
+    PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e12, 'P': 1e15, 'E': 1e18, 'Z': 1e21, 'Y': 1e24,
                 '': 1}
 
 
-- 
2.43.0


From b40eab061d829bbde15818e9fa300a63800018df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 03/81] fix: printed quantities can be parsed again (E, Z, Y
 prefixes, negative and unitless values)

---
 kerncraft/prefixedunit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index ac5f7e9..c9d1f3b 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -26,16 +26,17 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if len(args) == 1:
             if isinstance(args[0], str):
                 m = re.match(
-                    r'^(?P<value>(?:[0-9]+(?:\.[0-9]+)?|inf)) (?P<prefix>[kMGTP])?(?P<unit>.*)$',
+                    r'^(?P<value>-?(?:[0-9]+(?:\.[0-9]+)?|inf))'
+                    r'(?: (?P<prefix>[kMGTPEZY])?(?P<unit>.*))?$',
                     args[0])
                 assert m, "Could not parse unit parameter "+repr(args[0])
                 g = m.groups()
-                args = [float(g[0]), g[1], g[2]]
+                args = [float(g[0]), g[1], g[2] or '']
             else:
                 args = [float(args[0]), '', '']
 
         if len(args) == 2:
-            m = re.match(r'^(?P<prefix>[kMGTP])?(?P<unit>.+)$', args[1])
+            m = re.match(r'^(?P<prefix>[kMGTPEZY])?(?P<unit>.+)$', args[1])
             assert m, "Could not parse unit parameter"+repr(args)
             gd = m.groupdict()
             args = [float(args[0]), gd['prefix'], gd['unit']]
-- 
2.43.0


From 78105a6c2d406a128e4da2305c17c4a78b04a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 04/81] fix: arithmetic on quantities does not parse the
 operands' unit for prefixes

Units which are empty or begin with a prefix letter were refused or altered.
---
 kerncraft/prefixedunit.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index c9d1f3b..00025e4 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -115,7 +115,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)*float(other), unit)
+        v = self.__class__(float(self)*float(other), '', unit)
         return v.reduced()
 
     def __truediv__(self, other):
@@ -124,7 +124,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)/float(other), unit)
+        v = self.__class__(float(self)/float(other), '', unit)
         return v.reduced()
 
     __div__ = __truediv__
@@ -135,7 +135,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)//float(other), unit)
+        v = self.__class__(float(self)//float(other), '', unit)
         return v.reduced()
 
     def __sub__(self, other):
@@ -147,11 +147,11 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for subtraction.")
 
-        v = self.__class__(float(self)-float(other), unit)
+        v = self.__class__(float(self)-float(other), '', unit)
         return v.reduced()
 
     def __abs__(self):
-        v = self.__class__(abs(float(self)), self.unit)
+        v = self.__class__(abs(float(self)), '', self.unit)
         return v.reduced()
 
     def __add__(self, other):
@@ -163,7 +163,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for addition.")
 
-        v = self.__class__(float(self) + float(other), self.unit)
+        v = self.__class__(float(self) + float(other), '', self.unit)
         return v.reduced()
 
     def __mod__(self, other):
@@ -175,7 +175,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for modulo.")
 
-        v = self.__class__(float(self) % float(other), self.unit)
+        v = self.__class__(float(self) % float(other), '', self.unit)
         return v.reduced()
 
     def __lt__(self, other):
-- 
2.43.0


From ab25c562185c55e8f18435c387e4caf4dcaf94e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 05/81] fix: mapping between iteration numbers and indices of
 loops with non-unit steps

Indices wrapped around after length/step iterations, and neither the inverse mapping
nor the last iteration number took the step into account.
---
 kerncraft/kernel.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 2baa796..0c1f96e 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -479,15 +479,13 @@ class Kernel(object):
         base_loop_counters = {}
         global_iterator = symbol_pos_int('global_iterator')
         total_length = 1
-        last_incr = 1
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
 
             # This unspools the iterations:
             length = int_ceil((end-start), incr)
-            counter = start+(((global_iterator*last_incr) // total_length)*incr) % length
+            counter = start+((global_iterator // total_length) % length)*incr
             total_length = total_length*length
-            last_incr = incr
 
             base_loop_counters[loop_var] = sympy.lambdify(
                 global_iterator,
@@ -513,7 +511,7 @@ class Kernel(object):
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
             length = int_ceil((end-start), incr)
-            global_iterator += (loop_var - start) * total_length
+            global_iterator += (loop_var - start) / incr * total_length
             total_length *= length
         return global_iterator
 
@@ -529,7 +527,8 @@ class Kernel(object):
     def max_global_iteration(self):
         """Return global iterator with last iteration number"""
         return self.indices_to_global_iterator({
-            symbol_pos_int(var_name): end-1 for var_name, start, end, incr in self._loop_stack
+            symbol_pos_int(var_name): start + (int_ceil((end-start), incr)-1)*incr
+            for var_name, start, end, incr in self._loop_stack
         })
 
     def compile_global_offsets(self, iteration=0, spacing=0):
-- 
2.43.0


From ba840066570f1a9a790a80e7bea52ea70babeefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 06/81] fix: compile_global_offsets with loops of a single
 iteration

---
 kerncraft/kernel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 0c1f96e..2b6def8 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -617,7 +617,9 @@ class Kernel(object):
                 # TODO take element sizes into account, return in bytes
 
         # Generate numpy.array for each counter
-        counter_per_it = [v(iteration) for v in base_loop_counters.values()]
+        # (counters of loops with a single iteration are scalars)
+        counter_per_it = [numpy.broadcast_to(v(iteration), iteration.shape)
+                          for v in base_loop_counters.values()]
 
         # Old and slow - left for reference
         ## Data access as they appear with iteration order
-- 
2.43.0


From 49c7d906f4ec304e82eec80a4c14a95b23e3a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 07/81] fix: exact integer arithmetic when translating
 iteration numbers to loop indices

Symbolic // was evaluated as a multiplication with the rounded reciprocal, yielding indices
of the previous outer iteration (e.g., for iteration 98 of a 7x14 loop nest).
---
 kerncraft/kernel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 2b6def8..8c8b8af 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -37,7 +37,7 @@ from . import kerncraft
 from . import incore_model
 from .pycparser_utils import clean_code, replace_id
 
-from kerncraft.symbolic.utils import int_ceil
+from kerncraft.symbolic.utils import int_ceil, int_floor
 
 @contextmanager
 def set_recursionlimit(new_limit):
@@ -484,13 +484,14 @@ class Kernel(object):
 
             # This unspools the iterations:
             length = int_ceil((end-start), incr)
-            counter = start+((global_iterator // total_length) % length)*incr
+            # (int_floor is used, because // would be lambdified to an inexact float operation)
+            counter = start+(int_floor(global_iterator, total_length) % length)*incr
             total_length = total_length*length
 
             base_loop_counters[loop_var] = sympy.lambdify(
                 global_iterator,
                 self.subs_consts(counter),
-                modules='numpy')
+                modules=[{'int_floor': operator.floordiv}, 'numpy'])
 
             if git is not None:
                 try:  # Try to resolve to integer if global_iterator was given
-- 
2.43.0


From 51e7c575f6cde527150e4be1908e82e1b15f2e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 08/81] fix: comment stripping at end of file, of adjacent
 comments and between tokens; replace_id with empty lists

A // comment without newline left a character behind and scanning restarted at negative
positions, comments directly following a block comment were kept, /*/ was taken as a complete
comment, removing a block comment could join tokens, and directives inside of comments could
take the end of the comment with them. Replacing by an empty list skipped the next sibling.
---
 kerncraft/pycparser_utils.py | 45 +++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/kerncraft/pycparser_utils.py b/kerncraft/pycparser_utils.py
index bd988a5..90ee2c7 100644
--- a/kerncraft/pycparser_utils.py
+++ b/kerncraft/pycparser_utils.py
@@ -18,39 +18,45 @@ def clean_code(code, comments=True, macros=False, pragmas=False):
     and multiline comments and macros are supported. BUT comment-like
     strings are (wrongfully) treated as comments.
     """
-    if macros or pragmas:
-        lines = code.split('\n')
-        in_macro = False
-        in_pragma = False
-        for i in range(len(lines)):
-            l = lines[i].strip()
-
-            if macros and (l.startswith('#') and not l.startswith('#pragma') or in_macro):
-                lines[i] = ''
-                in_macro = l.endswith('\\')
-            if pragmas and (l.startswith('#pragma') or in_pragma):
-                lines[i] = ''
-                in_pragma = l.endswith('\\')
-        code = '\n'.join(lines)
-
     if comments:
         idx = 0
         comment_start = None
         while idx < len(code) - 1:
             if comment_start is None and code[idx:idx + 2] == '//':
                 end_idx = code.find('\n', idx)
+                if end_idx == -1:
+                    end_idx = len(code)
                 code = code[:idx] + code[end_idx:]
-                idx -= end_idx - idx
+                continue
             elif comment_start is None and code[idx:idx + 2] == '/*':
                 comment_start = idx
+                idx += 2
+                continue
             elif comment_start is not None and code[idx:idx + 2] == '*/':
+                # a comment separates tokens, thus leave at least one whitespace
                 code = (code[:comment_start] +
-                        '\n' * code[comment_start:idx].count('\n') +
+                        ('\n' * code[comment_start:idx].count('\n') or ' ') +
                         code[idx + 2:])
-                idx -= idx - comment_start
+                idx = comment_start
                 comment_start = None
+                continue
             idx += 1
 
+    if macros or pragmas:
+        lines = code.split('\n')
+        in_macro = False
+        in_pragma = False
+        for i in range(len(lines)):
+            l = lines[i].strip()
+
+            if macros and (l.startswith('#') and not l.startswith('#pragma') or in_macro):
+                lines[i] = ''
+                in_macro = l.endswith('\\')
+            if pragmas and (l.startswith('#pragma') or in_pragma):
+                lines[i] = ''
+                in_pragma = l.endswith('\\')
+        code = '\n'.join(lines)
+
     return code
 
 
@@ -61,7 +67,8 @@ def replace_id(ast, id_name, replacement):
     :param id_name: name of ID node to match
     :param replacement: single or list of node to insert in replacement for ID node.
     """
-    for a in ast:
+    # (ast is changed while iterating over its children)
+    for a in list(ast):
         if isinstance(a, c_ast.ID) and a.name == id_name:
             # Check all attributes of ast
             for attr_name in dir(ast):
-- 
2.43.0


From b61b448a79b9f2c421bfd2a03d8c574d51774fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 09/81] fix: machine models loaded from one file no longer
 share state, and reloading notices changes

---
 kerncraft/machinemodel.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 173ae58..3c7d02d 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -159,13 +159,17 @@ class MachineModel(object):
             yaml.register_class(PrefixedUnit)
             # Load into cache and save to self._data
             abspath_to_yaml = os.path.abspath(path_to_yaml)
-            if abspath_to_yaml not in self._loaded_machine_yaml:
-                with open(path_to_yaml, 'r') as f:
+            with open(path_to_yaml, 'r') as f:
+                # Reload file if it has changed since it was cached
+                statbuf = os.fstat(f.fileno())
+                version = (statbuf.st_ino, statbuf.st_size, statbuf.st_mtime_ns)
+                if self._loaded_machine_yaml.get(abspath_to_yaml, (None,))[0] != version:
                     # Ignore ruamel unsafe loading warning, by supplying Loader parameter
-                    self._loaded_machine_yaml[abspath_to_yaml] = yaml.load(f)
-            self._data = self._loaded_machine_yaml[abspath_to_yaml]
+                    self._loaded_machine_yaml[abspath_to_yaml] = (version, yaml.load(f))
+            # Each instance works on its own copy
+            self._data = deepcopy(self._loaded_machine_yaml[abspath_to_yaml][1])
         elif machine_yaml:
-            self._data = machine_yaml
+            self._data = deepcopy(machine_yaml)
 
         assert 'kerncraft version' in self._data, \
             "Machine description requires a 'kerncraft version' entry, containg the kerncraft " \
-- 
2.43.0


From a6ca862688f634d782cc0d5d8b1474bc224f3ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 10/81] fix: cache simulator is built for the requested cores
 and shares a cache among its group only

---
 kerncraft/machinemodel.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 3c7d02d..dc00048 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -426,24 +426,21 @@ class MachineModel(object):
 
         :param cores: core count (default: 1)
         """
-        if hasattr(self, '_cachesimulator'):
-            self._cachesimulator.mark_all_invalid()
-            self._cachesimulator.reset_stats()
-        else:
-            cache_dict = {}
-            for c in self['memory hierarchy']:
-                # Skip main memory
-                if 'cache per group' not in c:
-                    continue
-                cache_dict[c['level']] = deepcopy(c['cache per group'])
-                cache_dict[c['level']]['cl_size'] = int(c['cache per group']['cl_size'])
-                # Scale size of last cache according to cores (typically shared within NUMA domain)
-                if c['cores per group'] > 1:
-                    cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
-
-            self._cachesimulator, caches, mem = cachesim.CacheSimulator.from_dict(cache_dict)
-
-        return self._cachesimulator
+        cache_dict = {}
+        for c in self['memory hierarchy']:
+            # Skip main memory
+            if 'cache per group' not in c:
+                continue
+            cache_dict[c['level']] = deepcopy(c['cache per group'])
+            cache_dict[c['level']]['cl_size'] = int(c['cache per group']['cl_size'])
+            # Scale size of last cache according to cores (typically shared within NUMA domain)
+            if c['cores per group'] > 1:
+                cache_dict[c['level']]['sets'] //= int(min(
+                    cores, c['cores per group'], self['cores per NUMA domain']))
+
+        cachesimulator, caches, mem = cachesim.CacheSimulator.from_dict(cache_dict)
+
+        return cachesimulator
 
     def get_bandwidth(self, cache_level, read_streams, write_streams, threads_per_core, cores=None):
         """
-- 
2.43.0


From ceb2ae48a1111a5a72b23997f4fc456b4ce8b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 11/81] fix: machine descriptions can be dumped, without losing
 digits of quantities

---
 kerncraft/machinemodel.py | 6 +++++-
 kerncraft/prefixedunit.py | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index dc00048..7a39bd6 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -615,7 +615,11 @@ class MachineModel(object):
         Return YAML string to store machine model and store to f (if path or fp passed).
         """
         yaml = ruamel.yaml.YAML()
-        yaml_string = yaml.dump(self._data)
+        yaml.register_class(PrefixedUnit)
+        yaml.width = sys.maxsize  # folding would change strings
+        stream = io.StringIO()
+        yaml.dump(self._data, stream)
+        yaml_string = stream.getvalue()
         if f is None:
             f = self._path
 
diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index 00025e4..f4af624 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -1,5 +1,6 @@
 #!/usr/bin/env python3
 import re
+from decimal import Decimal
 
 import ruamel.yaml
 
@@ -20,7 +21,9 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
 
     @classmethod
     def to_yaml(cls, dumper, data):
-        return dumper.represent_scalar(cls.yaml_tag, str(data))
+        # All digits of value without exponent, because str(data) is rounded
+        return dumper.represent_scalar(cls.yaml_tag, '{:f} {}{}'.format(
+            Decimal(repr(data.value)), data.prefix or '', data.unit).replace('Infinity', 'inf'))
 
     def __init__(self, *args):
         if len(args) == 1:
-- 
2.43.0


From 8547272af46ccdd017d31febf25c71fd8b8fd2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 12/81] fix: quantities with integer value and no prefix
 convert to float

---
 kerncraft/prefixedunit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index f4af624..b2ee157 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -54,7 +54,8 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         """gives value without prefix"""
         return self.value*self.PREFIXES[self.prefix]
 
-    __float__ = base_value
+    def __float__(self):
+        return float(self.base_value())
 
     def __int__(self):
         return int(self.base_value())
-- 
2.43.0


From f42f13dad2143718a920972ed265d4360867e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 13/81] fix: machine identifier tells apart machine
 descriptions of same file name and works without a file

---
 kerncraft/machinemodel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 7a39bd6..cffdaa5 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -406,11 +406,17 @@ class MachineModel(object):
         )
 
     def get_identifier(self):
-        """Return identifier which is either the machine file name or sha256 checksum of data."""
+        """
+        Return identifier of machine description.
+
+        Made of the machine file name (if there is one) and a sha256 checksum of the data, because
+        file names are not unique.
+        """
+        checksum = hashlib.sha256(repr(self._data).encode()).hexdigest()
         if self._path:
-            return os.path.basename(self._path)
+            return os.path.basename(self._path) + '-' + checksum[:16]
         else:
-            return hashlib.sha256(hashlib.sha256(repr(self._data).encode())).hexdigest()
+            return checksum
 
     def get_last_modified_datetime(self):
         """Return datetime object of modified time of machine file. Return now if not a file."""
@@ -418,7 +424,7 @@ class MachineModel(object):
             statbuf = os.stat(self._path)
             return datetime.utcfromtimestamp(statbuf.st_mtime)
         else:
-            return datetime.now()
+            return datetime.utcnow()
 
     def get_cachesim(self, cores=1):
         """
-- 
2.43.0


From 2f7aaffff08b06d117e49256da5103fd4e8ff218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 14/81] fix: intermediates are only reused for the same kernel
 code, machine, cores and in-core options

---
 kerncraft/cacheprediction.py |  6 ++++--
 kerncraft/kernel.py          | 18 +++++++++++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 0d7c517..783acbb 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -264,7 +264,8 @@ class LayerConditionPredictor(CachePredictor):
             # Make use of caching for symbolic LC representation:
             file_name = 'LC_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
-                file_name, machine_and_compiler_dependent=False, other_dependencies=[str(cores)])
+                file_name, machine_and_compiler_dependent=False,
+                other_dependencies=[machine.get_identifier(), str(cores)])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
@@ -517,7 +518,8 @@ class CacheSimulationPredictor(CachePredictor):
             file_name = 'CSIM_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
                 file_name, machine_and_compiler_dependent=False,
-                other_dependencies=[str(cores)]+[str(t) for t in self.kernel.constants.items()])
+                other_dependencies=[machine.get_identifier(), str(cores)] +
+                                   [str(t) for t in self.kernel.constants.items()])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 8c8b8af..fa9c0ea 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -21,6 +21,7 @@ import atexit
 import re
 from contextlib import contextmanager
 import fcntl
+import hashlib
 
 from math import floor
 
@@ -781,6 +782,11 @@ class KernelCode(Kernel):
             # Remove directory and all content up on program exit
             atexit.register(shutil.rmtree, base_name, ignore_errors=True)
 
+        # Kernel code and the names of constants (part of the kernel function's signature) influence
+        # all intermediates, but are not (reliably) reflected in modification times
+        base_name = os.path.join(base_name, hashlib.sha256(repr(
+            (self.kernel_code, [str(k) for k in self.constants])).encode()).hexdigest()[:16])
+
         if machine_and_compiler_dependent:
             compiler, compiler_args = self._machine.get_compiler()
             compiler_args = '_'.join(compiler_args).replace('/', '')
@@ -1526,7 +1532,10 @@ class KernelCode(Kernel):
         assert self.kernel_ast is not None, "AST does not exist, this could be due to running " \
                                             "based on a kernel description rather than code."
 
-        file_path = self.get_intermediate_location('main.c', machine_and_compiler_dependent=False)
+        # array alignment depends on machine
+        file_path = self.get_intermediate_location(
+            'main.c', machine_and_compiler_dependent=False,
+            other_dependencies=[self._machine.get_identifier()])
         lock_mode, lock_fp = self.lock_intermediate(file_path)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1588,7 +1597,10 @@ class KernelCode(Kernel):
         """
         # Build file name
         file_base_name = os.path.splitext(os.path.basename(in_filename))[0]
-        out_filename = self.get_intermediate_location(file_base_name + '.o')
+        with open(in_filename, 'rb') as f:
+            in_checksum = hashlib.sha256(f.read()).hexdigest()[:16]
+        out_filename = self.get_intermediate_location(
+            file_base_name + '.o', other_dependencies=[in_checksum])
         lock_mode, lock_fp = self.lock_intermediate(out_filename)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1701,7 +1713,7 @@ class KernelCode(Kernel):
         model_parameter = self._machine['in-core model'][model]
 
         analysis_filename = self.get_intermediate_location('incore_analysis.pickle.lzma',
-            other_dependencies=[model, str(model_parameter)])
+            other_dependencies=[model, str(model_parameter), asm_block, pointer_increment])
         analysis_lock_mode, analysis_lock_fp = self.lock_intermediate(analysis_filename)
         if analysis_lock_mode == fcntl.LOCK_SH:
             # use cached analysis
-- 
2.43.0


From 8905e6f18fc764a22adbecc7c9dccd4990c1136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 15/81] fix: intermediates are replaced at once, so that
 interrupted runs leave no incomplete ones behind

---
 kerncraft/cacheprediction.py |  10 ++-
 kerncraft/kernel.py          | 156 ++++++++++++++++++++---------------
 2 files changed, 97 insertions(+), 69 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 783acbb..bd9ab9b 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -274,7 +274,8 @@ class LayerConditionPredictor(CachePredictor):
             else:  # lock_mode == fcntl.LOCK_EX
                 # needs update
                 self.build_symbolic_LCs()
-                compress_pickle.dump(self.results, file_path)
+                with kernel.create_intermediate(file_path) as temp_path:
+                    compress_pickle.dump(self.results, temp_path)
                 lock_fp.close()  # release lock
         else:
             # No caching support without filename for kernel code
@@ -531,9 +532,10 @@ class CacheSimulationPredictor(CachePredictor):
             else:  # lock_mode == fcntl.LOCK_EX
                 # needs update
                 self.simulate()
-                compress_pickle.dump(
-                    {'first_dim_factor': self.first_dim_factor, 'stats': self.stats, 'pretty_stats': self.pretty_stats},
-                    file_path)
+                with kernel.create_intermediate(file_path) as temp_path:
+                    compress_pickle.dump(
+                        {'first_dim_factor': self.first_dim_factor, 'stats': self.stats, 'pretty_stats': self.pretty_stats},
+                        temp_path)
                 lock_fp.close()  # release lock
         else:
             # No caching support without filename for kernel code
diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index fa9c0ea..1df2f64 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -857,6 +857,24 @@ class KernelCode(Kernel):
         # else: -> WRITE MODE
         return (fcntl.LOCK_EX, lock_fp)
 
+    @contextmanager
+    def create_intermediate(self, file_path):
+        """
+        Context manager to create or replace intermediate *file_path* at once.
+
+        Gives the name of a temporary file to write to, which replaces *file_path* only if context
+        is left without an exception. Thereby incomplete files are never mistaken for valid ones.
+        Exclusive lock needs to be held.
+        """
+        temp_path = os.path.join(os.path.dirname(file_path), 'incomplete-' + os.path.basename(file_path))
+        try:
+            yield temp_path
+            os.replace(temp_path, file_path)
+        except BaseException:
+            if os.path.exists(temp_path):
+                os.unlink(temp_path)
+            raise
+
     def release_exclusive_lock(self, lock_fd):
         """
         Release exclusive lock and degrade to shared lock.
@@ -1391,8 +1409,9 @@ class KernelCode(Kernel):
             func_decl = self._build_kernel_function_declaration(name=name)
             code = CGenerator().visit(
                 c_ast.FileAST(ext=[func_decl]))
-            with open(file_path, 'w') as f:
-                f.write(code)
+            with self.create_intermediate(file_path) as temp_path:
+                with open(temp_path, 'w') as f:
+                    f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
         return file_name, lock_fp
@@ -1459,8 +1478,9 @@ class KernelCode(Kernel):
                 code = re.sub('#pragma omp[^\n]*\n', '', code)
 
             # Store to file
-            with open(file_path, 'w') as f:
-                f.write(code)
+            with self.create_intermediate(file_path) as temp_path:
+                with open(temp_path, 'w') as f:
+                    f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
         return file_path, lock_fp
@@ -1582,8 +1602,9 @@ class KernelCode(Kernel):
                    '\n\n' + code
 
             # Store to file
-            with open(file_path, 'w') as f:
-                f.write(code)
+            with self.create_intermediate(file_path) as temp_path:
+                with open(temp_path, 'w') as f:
+                    f.write(code)
             self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
         return file_path, lock_fp
@@ -1613,18 +1634,19 @@ class KernelCode(Kernel):
             # Compile to object file
             compiler_args.append('-c')
 
-            cmd = [compiler] + [in_filename] + compiler_args + ['-o', out_filename]
+            with self.create_intermediate(out_filename) as temp_filename:
+                cmd = [compiler] + [in_filename] + compiler_args + ['-o', temp_filename]
 
-            if verbose:
-                print('Executing (assemble_to_object): ', ' '.join(cmd))
+                if verbose:
+                    print('Executing (assemble_to_object): ', ' '.join(cmd))
 
-            try:
-                # Assemble all to a binary
-                subprocess.check_output(cmd)
-                self.release_exclusive_lock(lock_fp)  # degrade to shared lock
-            except subprocess.CalledProcessError as e:
-                print("Assembly failed:", e, file=sys.stderr)
-                sys.exit(1)
+                try:
+                    # Assemble all to a binary
+                    subprocess.check_output(cmd)
+                except subprocess.CalledProcessError as e:
+                    print("Assembly failed:", e, file=sys.stderr)
+                    sys.exit(1)
+            self.release_exclusive_lock(lock_fp)  # degrade to shared lock
 
         return out_filename, lock_fp
 
@@ -1657,36 +1679,37 @@ class KernelCode(Kernel):
 
             header_filename, header_lock_fp = self.get_kernel_header()
             in_filename, in_lock_fp = self.get_kernel_code(openmp=openmp)
-            cmd = ([compiler] +
-                   [in_filename,
-                    '-c',
-                    '-I'+reduce_path(os.path.abspath(os.path.dirname(
-                        os.path.realpath(__file__)))+'/headers/'),
-                    '-o', out_filename] +
-                   compiler_args)
-
-            if verbose:
-                print('Executing (compile_kernel): ', ' '.join(cmd))
-
-            try:
-                subprocess.check_output(cmd)
-                in_lock_fp.close()
-                header_lock_fp.close()
+            with self.create_intermediate(out_filename) as temp_filename:
+                cmd = ([compiler] +
+                       [in_filename,
+                        '-c',
+                        '-I'+reduce_path(os.path.abspath(os.path.dirname(
+                            os.path.realpath(__file__)))+'/headers/'),
+                        '-o', temp_filename] +
+                       compiler_args)
+
+                if verbose:
+                    print('Executing (compile_kernel): ', ' '.join(cmd))
 
-            except subprocess.CalledProcessError as e:
-                print("Compilation failed:", e, file=sys.stderr)
-                sys.exit(1)
-
-            # FIXME TODO FIXME TODO FIXME TODO
-            # Hacky workaround for icc issue (icc may issue vkmovb instructions with AVX512, which 
-            # are invalid and should be kmovb):
-            if compiler == 'icc' and assembly:
-                with open(out_filename, 'r+') as f:
-                    assembly = f.read()
-                    f.seek(0)
-                    f.write(assembly.replace('vkmovb', 'kmovb'))
-                    f.truncate()
-            # FIXME TODO FIXME TODO FIXME TODO
+                try:
+                    subprocess.check_output(cmd)
+                    in_lock_fp.close()
+                    header_lock_fp.close()
+
+                except subprocess.CalledProcessError as e:
+                    print("Compilation failed:", e, file=sys.stderr)
+                    sys.exit(1)
+
+                # FIXME TODO FIXME TODO FIXME TODO
+                # Hacky workaround for icc issue (icc may issue vkmovb instructions with AVX512,
+                # which are invalid and should be kmovb):
+                if compiler == 'icc' and assembly:
+                    with open(temp_filename, 'r+') as f:
+                        assembly = f.read()
+                        f.seek(0)
+                        f.write(assembly.replace('vkmovb', 'kmovb'))
+                        f.truncate()
+                # FIXME TODO FIXME TODO FIXME TODO
 
             self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
 
@@ -1739,12 +1762,13 @@ class KernelCode(Kernel):
         else:  # analysis_lock_mode == fcntl.LOCK_EX
             # marked assembly needs update
             asm_filename, asm_lock_fp = self.compile_kernel(assembly=True, verbose=verbose)
-            with open(asm_filename, 'r') as in_file, open(marked_filename, 'w') as out_file:
-                asm_block, self.pointer_increment = incore_model.asm_instrumentation(
-                    in_file, out_file,
-                    block_selection=asm_block,
-                    pointer_increment=pointer_increment,
-                    isa=self._machine['isa'])
+            with self.create_intermediate(marked_filename) as temp_filename:
+                with open(asm_filename, 'r') as in_file, open(temp_filename, 'w') as out_file:
+                    asm_block, self.pointer_increment = incore_model.asm_instrumentation(
+                        in_file, out_file,
+                        block_selection=asm_block,
+                        pointer_increment=pointer_increment,
+                        isa=self._machine['isa'])
             asm_lock_fp.close()
             self.release_exclusive_lock(marked_lock_fp)  # degrade to shared lock
 
@@ -1760,7 +1784,8 @@ class KernelCode(Kernel):
             obj_lock_fp.close()
         else:
             raise ValueError("Unknown micro-architecture model: {!r}".format(model))
-        compress_pickle.dump((analysis, self.pointer_increment), analysis_filename)
+        with self.create_intermediate(analysis_filename) as temp_filename:
+            compress_pickle.dump((analysis, self.pointer_increment), temp_filename)
         analysis_lock_fp.close()
         marked_lock_fp.close()
         return analysis, self.pointer_increment
@@ -1813,19 +1838,20 @@ class KernelCode(Kernel):
                 os.path.realpath(__file__)))+'/headers/dummy.c'),
                        kernel_obj_filename, main_filename]
 
-            cmd = [compiler] + infiles + compiler_args + ['-o', out_filename]
-            # remove empty arguments
-            cmd = list(filter(bool, cmd))
-            if verbose:
-                print('Executing (build_executable): ', ' '.join(cmd))
-            try:
-                subprocess.check_output(cmd)
-                main_lock_fp.close()
-                kernel_obj_lock_fp.close()
-                self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
-            except subprocess.CalledProcessError as e:
-                print("Build failed:", e, file=sys.stderr)
-                sys.exit(1)
+            with self.create_intermediate(out_filename) as temp_filename:
+                cmd = [compiler] + infiles + compiler_args + ['-o', temp_filename]
+                # remove empty arguments
+                cmd = list(filter(bool, cmd))
+                if verbose:
+                    print('Executing (build_executable): ', ' '.join(cmd))
+                try:
+                    subprocess.check_output(cmd)
+                    main_lock_fp.close()
+                    kernel_obj_lock_fp.close()
+                except subprocess.CalledProcessError as e:
+                    print("Build failed:", e, file=sys.stderr)
+                    sys.exit(1)
+            self.release_exclusive_lock(out_lock_fp)  # degrade to shared lock
 
         return out_filename, out_lock_fp
 
-- 
2.43.0


From 1bdd063067b866fa10fedbb981d85df550c17c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 16/81] fix: kernels without file name can be compiled

---
 kerncraft/kernel.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 1df2f64..27ea687 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -750,6 +750,7 @@ class KernelCode(Kernel):
         self.kernel_code = kernel_code
         self._filename = filename
         self._keep_intermediates = keep_intermediates
+        self._temporary_location = None
         parser = CParser()
         try:
             self.kernel_ast = parser.parse(self._strip_comments(self._as_function()),
@@ -776,7 +777,10 @@ class KernelCode(Kernel):
             base_name = os.path.join(os.path.dirname(self._filename),
                                      '.' + os.path.basename(self._filename) + '_kerncraft')
         else:
-            base_name = tempfile.mkdtemp()
+            if self._temporary_location is None:
+                self._temporary_location = tempfile.mkdtemp()
+                atexit.register(shutil.rmtree, self._temporary_location, ignore_errors=True)
+            base_name = self._temporary_location
 
         if not self._keep_intermediates:
             # Remove directory and all content up on program exit
@@ -811,7 +815,8 @@ class KernelCode(Kernel):
             # Check if file is newer than machine file, kerncraft code and input kernel code
             if (file_modified > self._machine.get_last_modified_datetime() and  # machine file
                 file_modified > kerncraft.get_last_modified_datetime() and  # kerncraft
-                file_modified > datetime.utcfromtimestamp(os.stat(self._filename).st_mtime)):
+                (not self._filename or
+                 file_modified > datetime.utcfromtimestamp(os.stat(self._filename).st_mtime))):
                     return True
         return False
 
-- 
2.43.0


From f9370651e66ed246a29700741ed06f1642db0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 17/81] fix: main function is stored next to the kernel header
 it includes

---
 kerncraft/kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 27ea687..b2fbd2a 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1557,10 +1557,10 @@ class KernelCode(Kernel):
         assert self.kernel_ast is not None, "AST does not exist, this could be due to running " \
                                             "based on a kernel description rather than code."
 
-        # array alignment depends on machine
+        # array alignment depends on machine (file needs to reside next to kernel.h)
         file_path = self.get_intermediate_location(
-            'main.c', machine_and_compiler_dependent=False,
-            other_dependencies=[self._machine.get_identifier()])
+            'main-{}.c'.format(int(self._machine['cacheline size'])),
+            machine_and_compiler_dependent=False)
         lock_mode, lock_fp = self.lock_intermediate(file_path)
 
         if lock_mode == fcntl.LOCK_SH:
-- 
2.43.0


From fce52f3996557a5334cdd3e75c6832decec4e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 18/81] fix: generated programs link without inlining of
 aligned_malloc

---
 kerncraft/headers/kerncraft.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/headers/kerncraft.h b/kerncraft/headers/kerncraft.h
index 5624537..b12b0ed 100644
--- a/kerncraft/headers/kerncraft.h
+++ b/kerncraft/headers/kerncraft.h
@@ -6,7 +6,7 @@
 #define swap(a, b) {void* t = a; a = b; b = t;}
 
 
-inline void* aligned_malloc(size_t size, size_t align) {
+static inline void* aligned_malloc(size_t size, size_t align) {
     // Based on http://stackoverflow.com/q/16376942
     void *result;
     #if defined(_MSC_VER)
-- 
2.43.0


From cdecbf546eea6da85db87f6ff2cd34199e0775da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 19/81] fix: kernels with swaps compile, swap pointers of any
 name and only after the loop nest

---
 kerncraft/headers/kerncraft.h | 2 +-
 kerncraft/kernel.py           | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/kerncraft/headers/kerncraft.h b/kerncraft/headers/kerncraft.h
index b12b0ed..200d3ab 100644
--- a/kerncraft/headers/kerncraft.h
+++ b/kerncraft/headers/kerncraft.h
@@ -3,7 +3,7 @@
 #include <stddef.h>
 #include <stdlib.h>
 
-#define swap(a, b) {void* t = a; a = b; b = t;}
+#define swap(a, b) {void* kerncraft_swap_ = a; a = b; b = kerncraft_swap_;}
 
 
 static inline void* aligned_malloc(size_t size, size_t align) {
diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index b2fbd2a..b942a18 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1297,7 +1297,9 @@ class KernelCode(Kernel):
         :return: list of nodes
         """
         with set_recursionlimit(100000):
-            kernel = deepcopy(self.get_kernel_loop_nest())
+            # no swaps during initialization
+            kernel = deepcopy([s for s in self.get_kernel_loop_nest()
+                               if type(s) is not c_ast.FuncCall])
         # traverse to the inner most for loop:
         inner_most = self._find_inner_most_loop(kernel)
         orig_inner_stmt = inner_most.stmt
@@ -1482,6 +1484,10 @@ class KernelCode(Kernel):
                 # remove all omp pragmas
                 code = re.sub('#pragma omp[^\n]*\n', '', code)
 
+            if self.swaps:
+                # defines swap
+                code = '#include "kerncraft.h"\n\n' + code
+
             # Store to file
             with self.create_intermediate(file_path) as temp_path:
                 with open(temp_path, 'w') as f:
-- 
2.43.0


From f4386bffd8773c0af092d21a66feabd165ef1472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 20/81] fix: constants beyond the range of int are passed to
 generated programs

---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index b942a18..f41118b 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1225,7 +1225,7 @@ class KernelCode(Kernel):
             init = None
             if with_init:
                 init = c_ast.FuncCall(
-                    c_ast.ID('atoi'),
+                    c_ast.ID('atoll'),
                     c_ast.ExprList([c_ast.ArrayRef(c_ast.ID('argv'),
                                                    c_ast.Constant('int', str(i)))]))
             i += 1
-- 
2.43.0


From a272cfb681652b30772b04d60e1090b2b95f885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 21/81] fix: refuse kernels with undeclared or mismatched
 arrays, dependent or shadowed loops, modified counters, octal numbers

---
 kerncraft/kernel.py | 48 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index f41118b..7dcbdc5 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -244,6 +244,31 @@ class Kernel(object):
         datatypes = [v[0] for v in self.variables.values()]
         assert len(set(datatypes)) <= 1, 'mixing of datatypes within a kernel is not supported.'
 
+        # Loop nest needs to be rectangular, with a distinct counter and a positive step per loop
+        counters = [symbol_pos_int(l[0]) for l in self._loop_stack]
+        assert len(set(counters)) == len(counters), 'loop counters must be distinct.'
+        for index_name, start, stop, step in self._loop_stack:
+            assert step > 0, 'step of loops must be positive.'
+            assert not (start.free_symbols | stop.free_symbols).intersection(counters), \
+                'loop bounds must not depend on loop counters.'
+
+        for name, (type_, shape) in self.variables.items():
+            assert not any(d.free_symbols.intersection(counters) for d in shape or []), \
+                'size of array {} must not depend on loop counters.'.format(name)
+
+        # Array references have to fit the declaration
+        for accesses in [self.sources, self.destinations]:
+            for name, indices in accesses.items():
+                shape = self.variables[name][1] if name in self.variables else None
+                for idx in indices:
+                    if idx is None:
+                        assert shape is None, 'array {} used without subscript.'.format(name)
+                    else:
+                        assert shape is not None, \
+                            'no declaration of array {} found.'.format(name)
+                        assert len(idx) == len(shape), \
+                            'number of subscripts and dimensions of {} differ.'.format(name)
+
         # TODO add combine all tests here
 
     def set_constant(self, name, value):
@@ -965,6 +990,8 @@ class KernelCode(Kernel):
                                  "structure.")
 
         for item in declarations:
+            assert item.name not in self.variables, \
+                '{} must not be declared more than once.'.format(item.name)
             array = type(item.type) is c_ast.ArrayDecl
 
             if array:
@@ -991,7 +1018,7 @@ class KernelCode(Kernel):
         if type(math_ast) is c_ast.ID:
             return symbol_pos_int(math_ast.name)
         elif type(math_ast) is c_ast.Constant:
-            return sympy.Integer(math_ast.value)
+            return sympy.Integer(int(math_ast.value, 0))
         else:  # elif type(dim) is c_ast.BinaryOp:
             op = {
                 '*': operator.mul,
@@ -1070,7 +1097,7 @@ class KernelCode(Kernel):
             const_name = floop.cond.right.name
             iter_max = symbol_pos_int(const_name)
         elif type(floop.cond.right) is c_ast.Constant:
-            iter_max = sympy.Integer(floop.cond.right.value)
+            iter_max = sympy.Integer(int(floop.cond.right.value, 0))
         else:  # type(floop.cond.right) is c_ast.BinaryOp
             bop = floop.cond.right
             assert bop.op in '+-*', ('only addition (+), substraction (-) and multiplications (*) '
@@ -1086,7 +1113,7 @@ class KernelCode(Kernel):
             assert floop.next.lvalue.name == floop.cond.left.name == floop.init.decls[0].name, \
                 'initial, condition and next statement of for loop must act on same loop ' \
                 'counter variable'
-            step_size = int(floop.next.rvalue.value)
+            step_size = int(floop.next.rvalue.value, 0)
         else:
             assert type(floop.next.expr) is c_ast.ID, 'next operation may only act on loop counter'
             assert floop.next.expr.name == floop.cond.left.name == floop.init.decls[0].name, \
@@ -1140,6 +1167,10 @@ class KernelCode(Kernel):
             op = stmt.op.strip('=')
             self._flops[op] = self._flops.get(op, 0)+1
 
+        # Loop counters and constants must not change
+        assert self._get_basename(stmt.lvalue) in self.variables, \
+            "Only assignments to declared arrays and variables are allowed."
+
         # Document data destination
         # self.destinations[dest name] = [dest offset, ...])
         self.destinations.setdefault(self._get_basename(stmt.lvalue), set())
@@ -1171,13 +1202,22 @@ class KernelCode(Kernel):
             self.sources[bname].add(self._get_offsets(stmt))
         elif type(stmt) is c_ast.BinaryOp:
             # Traverse tree
+            assert stmt.op not in ['&&', '||'], 'logical operators are not supported'
             self._p_sources(stmt.left)
             self._p_sources(stmt.right)
 
             self._flops[stmt.op] = self._flops.get(stmt.op, 0)+1
         elif type(stmt) is c_ast.UnaryOp:
             self._p_sources(stmt.expr)
-            self._flops[stmt.op] = self._flops.get(stmt.op[-1], 0)+1
+            if stmt.op != '-':
+                # increment and decrement also change their operand
+                assert type(stmt.expr) in [c_ast.ArrayRef, c_ast.ID] and \
+                    self._get_basename(stmt.expr) in self.variables, \
+                    'increment and decrement are only allowed on declared arrays and variables'
+                self.destinations.setdefault(self._get_basename(stmt.expr), set())
+                self.destinations[self._get_basename(stmt.expr)].add(self._get_offsets(stmt.expr))
+            op = stmt.op[-1]
+            self._flops[op] = self._flops.get(op, 0)+1
 
         return sources
 
-- 
2.43.0


From 68066a5ab1a01edd35dc4325bf9a094250a04c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 22/81] fix: picklemerge works on current Python, with entries
 of mixed types and shared dictionaries

---
 kerncraft/picklemerge.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index e2bf290..b62edfe 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -1,8 +1,9 @@
 #!/usr/bin/env python3
 """Merge two pickle files containing dictionarys recursively."""
 import argparse
+import copy
 import pickle
-import collections
+from collections.abc import Mapping
 
 
 def update(d, u):
@@ -12,11 +13,11 @@ def update(d, u):
     Origin: http://stackoverflow.com/a/3233356/2754040
     """
     for k, v in u.items():
-        if isinstance(v, collections.Mapping):
-            r = update(d.get(k, {}), v)
-            d[k] = r
+        if isinstance(v, Mapping) and isinstance(d.get(k), Mapping):
+            # copy, because dictionaries may be shared between entries
+            d[k] = update(copy.copy(d[k]), v)
         else:
-            d[k] = u[k]
+            d[k] = v
     return d
 
 
@@ -33,11 +34,11 @@ def main():
     args = parser.parse_args()
 
     result = pickle.load(args.destination)
-    assert isinstance(result, collections.Mapping), "only Mapping types can be handled."
+    assert isinstance(result, Mapping), "only Mapping types can be handled."
 
     for s in args.source:
         data = pickle.load(s)
-        assert isinstance(data, collections.Mapping), "only Mapping types can be handled."
+        assert isinstance(data, Mapping), "only Mapping types can be handled."
 
         update(result, data)
 
-- 
2.43.0


From e8e9a9b7c93b6bbaa0d59e77e46a157e77180039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 23/81] fix: picklemerge replaces the destination at once

---
 kerncraft/picklemerge.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index b62edfe..1e44a29 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -3,6 +3,7 @@
 import argparse
 import copy
 import pickle
+import shutil
 from collections.abc import Mapping
 
 
@@ -42,9 +43,12 @@ def main():
 
         update(result, data)
 
-    args.destination.seek(0)
-    args.destination.truncate()
-    pickle.dump(result, args.destination)
+    # Replace at once, so that nothing gets lost if writing fails
+    args.destination.close()
+    temp_name = args.destination.name + '.tmp'
+    with open(temp_name, 'wb') as f:
+        pickle.dump(result, f)
+    shutil.move(temp_name, args.destination.name)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 26029ee6941116a0e6e76bd5938eab93f6d6d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 24/81] fix: refuse definitions with trailing text or without
 any value

---
 kerncraft/kerncraft.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 6e96958..2b46505 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -102,9 +102,9 @@ class AppendStringRange(argparse.Action):
         if len(values) != 2:
             message = 'requires 2 arguments'
         else:
-            m = re.match(r'(?P<start>\d+)(?:-(?P<stop>\d+)(?::(?P<num>\d+)'
-                         r'(:?(?P<log>log)(:?(?P<base>\d+))?)?)?)?',
-                         values[1])
+            m = re.fullmatch(r'(?P<start>\d+)(?:-(?P<stop>\d+)(?::(?P<num>\d+)'
+                             r'(:?(?P<log>log)(:?(?P<base>\d+))?)?)?)?',
+                             values[1], re.ASCII)
             if m:
                 gd = m.groupdict()
                 if gd['stop'] is None:
@@ -116,6 +116,8 @@ class AppendStringRange(argparse.Action):
                     base = int(gd['base']) if gd['base'] is not None else 10
                     values[1] = list(space(
                         int(gd['start']), int(gd['stop']), int(gd['num']), log=log, base=base))
+                if not values[1]:
+                    message = 'second argument does not contain any value'
             else:
                 message = 'second argument must match: start[-stop[:num[log[base]]]]'
 
-- 
2.43.0


From e1f89718d845b40ae5f8dc96d5acdf2a9166b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 25/81] fix: definitions do not leak into later command lines
 of the same parser

---
 kerncraft/kerncraft.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 2b46505..5145ad7 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -124,10 +124,8 @@ class AppendStringRange(argparse.Action):
         if message:
             raise argparse.ArgumentError(self, message)
 
-        if hasattr(namespace, self.dest):
-            getattr(namespace, self.dest).append(values)
-        else:
-            setattr(namespace, self.dest, [values])
+        # The list present may be the default, which other command lines will start with
+        setattr(namespace, self.dest, list(getattr(namespace, self.dest, None) or []) + [values])
 
 
 class VersionAction(argparse.Action):
-- 
2.43.0


From 94784b4adcc204444513348bc894169f12e03f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 26/81] fix: values defined repeatedly are analysed once

---
 kerncraft/kerncraft.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 5145ad7..da1c4af 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -353,16 +353,16 @@ def run(parser, args, output_file=sys.stdout):
             default_const_values = dict(args.define)['.']
             for name in required_consts:
                 name = str(name)
-                define_dict[str(name)] = [[str(name), v] for v in default_const_values]
+                define_dict[str(name)] = [[str(name), v] for v in uniquify(default_const_values)]
         for name, values in args.define:
             if name not in [str(n) for n in required_consts]:
                 # ignore
                 continue
             if name not in define_dict:
-                define_dict[name] = [[name, v] for v in values]
+                define_dict[name] = [[name, v] for v in uniquify(values)]
                 continue
             for v in values:
-                if v not in define_dict[name]:
+                if [name, v] not in define_dict[name]:
                     define_dict[name].append([name, v])
         define_product = list(itertools.product(*list(define_dict.values())))
         # Check that all consts have been defined
-- 
2.43.0


From fd0dafe53cb41ce80d008f1ed0d9f4e4a38254e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 27/81] fix: kernels without constants can be run

---
 kerncraft/kerncraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index da1c4af..ea4ec8d 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -370,7 +370,7 @@ def run(parser, args, output_file=sys.stdout):
             raise ValueError("Not all constants have been defined. Required are: {}".format(
                 required_consts))
     else:
-        define_product = [{}]
+        define_product = [()]
 
     for define in define_product:
         # Reset state of kernel
-- 
2.43.0


From d1f7d73951fba95cb14a88f4a8b3c7ba1237c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:10 +0000
Subject: [PATCH 28/81] fix: expressions are evaluated with the constants bound
 at that time

---
 kerncraft/kernel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 7dcbdc5..cf15563 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -288,6 +288,8 @@ class Kernel(object):
         # Ensure constants will always be sorted by keys
         self.constants = collections.OrderedDict(
             sorted(self.constants.items(), key=lambda i: str(i[0])))
+        # Forget expressions evaluated with previous constants
+        self.subs_consts.cache_clear()
 
     def set_variable(self, name, type_, size):
         """
-- 
2.43.0


From 253b5ecf38ffe81eb6b7b1eddf3cf7968c9d2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 29/81] fix: metrics with counters whose names contain each
 other, or subtracted without spaces, are evaluated correctly

---
 kerncraft/machinemodel.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index cffdaa5..dd0623b 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -17,6 +17,7 @@ from functools import lru_cache
 import psutil
 import ruamel.yaml
 import cachesim
+import sympy
 from sympy.parsing.sympy_parser import parse_expr
 
 from .prefixedunit import PrefixedUnit
@@ -594,22 +595,18 @@ class MachineModel(object):
     def parse_perfmetric(metric):
         """Return (sympy expressions, event names and symbols dict) from performance metric str."""
         metric = str(metric)
-        # Find all perfs counter references
-        perfcounters = re.findall(r'[A-Z0-9_]+:[A-Z0-9\[\]|\-]+(?::[A-Za-z0-9\-_=]+)*', metric)
-
-        # Build a temporary metric, with parser-friendly Symbol names
-        temp_metric = metric
-        temp_pc_names = {"SYM{}".format(re.sub("[\[\]\-|=:]", "_", pc)): pc
-                         for i, pc in enumerate(perfcounters)}
-        for var_name, pc in temp_pc_names.items():
-            temp_metric = temp_metric.replace(pc, var_name)
-        # Parse temporary expression
-        expr = parse_expr(temp_metric)
+        # Replace all perfs counter references by parser-friendly names
+        perfcounters = {}
+
+        def temp_name(match):
+            return perfcounters.setdefault(match.group(0), 'SYM{}_'.format(len(perfcounters)))
 
-        # Rename symbols to originals
-        for s in expr.free_symbols:
-            if s.name in temp_pc_names:
-                s.name = temp_pc_names[str(s)]
+        # (dashes are only part of a reference within brackets, otherwise they are subtractions)
+        temp_metric = re.sub(
+            r'[A-Z0-9_]+:(?:[A-Z0-9|]|\[[A-Za-z0-9\-]+\])+(?::[A-Za-z0-9_=]+)*', temp_name, metric)
+        # Parse temporary expression
+        expr = parse_expr(temp_metric, local_dict={
+            var_name: sympy.Symbol(pc) for pc, var_name in perfcounters.items()})
 
         events = {s: MachineModel.parse_perfctr_event(s.name) for s in expr.free_symbols
                   if s.name in perfcounters}
-- 
2.43.0


From 8ab1ec9c988b808af46cb566e9450aaa342d9d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 30/81] fix: event strings can be built from keyword arguments,
 as documented

---
 kerncraft/models/benchmark.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 9f6b840..0269011 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -144,7 +144,9 @@ def eventstr(event_tuple=None, event=None, register=None, parameters=None):
     >>> eventstr(event='DTLB_LOAD_MISSES_WALK_DURATION', register='PMC3')
     'DTLB_LOAD_MISSES_WALK_DURATION:PMC3'
     """
-    if len(event_tuple) == 3:
+    if event_tuple is None:
+        pass
+    elif len(event_tuple) == 3:
         event, register, parameters = event_tuple
     elif len(event_tuple) == 2:
         event, register = event_tuple
-- 
2.43.0


From a4b1521d949ed4b01882287c88cc7d93813910e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 31/81] fix: events without any register are refused instead of
 scheduled forever

---
 kerncraft/models/benchmark.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 0269011..edf7c5e 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -163,6 +163,10 @@ def build_minimal_runs(events):
     # Eliminate multiples
     events = [e for i, e in enumerate(events) if events.index(e) == i]
 
+    for event, registers, parameters in events:
+        if not any(True for r in register_options(registers)):
+            raise ValueError("No register can count event {}: {!r}".format(event, registers))
+
     # Build list of runs per register group
     scheduled_runs = {}
     scheduled_events = []
-- 
2.43.0


From 648e486079eed6a269519121a862ba01e1a1ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 32/81] fix: saturated bandwidth is chosen by the measured core
 counts, also if these are not 1..n or given as floats

---
 kerncraft/machinemodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index dd0623b..dab1f58 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -498,7 +498,9 @@ class MachineModel(object):
             # Choose maximum number of cores to get bandwidth for
             max_cores = min(self['memory hierarchy'][cache_level]['cores per group'],
                             self['cores per NUMA domain'])
-            bw = max(bw_measurements['results'][measurement_kernel][:max_cores])
+            bw = max([r for c, r in zip(bw_measurements['cores'],
+                                        bw_measurements['results'][measurement_kernel])
+                      if c <= max_cores])
 
         # Correct bandwidth due to miss-measurement of write allocation
         # TODO support non-temporal stores and non-write-allocate architectures
-- 
2.43.0


From 0bdfd3f0332f21603ba578129f98cf09bc8ddc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:30 +0000
Subject: [PATCH 33/81] fix: bandwidth selection with measured counts (sympy
 numbers) and no evicts

---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index dab1f58..aac2419 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -463,7 +463,7 @@ class MachineModel(object):
         # write allocate has to be handled in kernel information (all writes are also reads)
         # TODO support for non-write-allocate architectures
         try:
-            target_ratio = read_streams/write_streams
+            target_ratio = float(read_streams)/float(write_streams)
         except ZeroDivisionError:
             target_ratio = float('inf')
         measurement_kernel = 'load'
-- 
2.43.0


From 4916e538baad0ea229b51ce52e32023dfeba3e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 34/81] fix: machine files changed within the resolution of
 file times are reloaded

---
 kerncraft/machinemodel.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index aac2419..1fc8d46 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -161,12 +161,11 @@ class MachineModel(object):
             # Load into cache and save to self._data
             abspath_to_yaml = os.path.abspath(path_to_yaml)
             with open(path_to_yaml, 'r') as f:
-                # Reload file if it has changed since it was cached
-                statbuf = os.fstat(f.fileno())
-                version = (statbuf.st_ino, statbuf.st_size, statbuf.st_mtime_ns)
-                if self._loaded_machine_yaml.get(abspath_to_yaml, (None,))[0] != version:
-                    # Ignore ruamel unsafe loading warning, by supplying Loader parameter
-                    self._loaded_machine_yaml[abspath_to_yaml] = (version, yaml.load(f))
+                content = f.read()
+            # Reload file if it has changed since it was cached
+            if self._loaded_machine_yaml.get(abspath_to_yaml, (None,))[0] != content:
+                # Ignore ruamel unsafe loading warning, by supplying Loader parameter
+                self._loaded_machine_yaml[abspath_to_yaml] = (content, yaml.load(content))
             # Each instance works on its own copy
             self._data = deepcopy(self._loaded_machine_yaml[abspath_to_yaml][1])
         elif machine_yaml:
-- 
2.43.0


From e65e664b44103f3d86e19e6de9c88457e64d1113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 35/81] fix: cache simulation of kernels whose length is a
 multiple of the warm-up steps

---
 kerncraft/cacheprediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index bd9ab9b..978ef9f 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -574,7 +574,7 @@ class CacheSimulationPredictor(CachePredictor):
         while invalid_entries > 0 and step < max_steps and not complete_sweep:
             prev_warmup_iteration = warmup_iteration
             warmup_iteration = warmup_iteration + warmup_increment
-            if warmup_iteration > max_iterations:
+            if warmup_iteration >= max_iterations:
                 warmup_iteration = max_iterations
                 complete_sweep = True
 
-- 
2.43.0


From 95a3f801286985eaeac28ae5679b8c80b26363e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 36/81] fix: layer conditions are those of the requested number
 of cores

---
 kerncraft/models/layer_condition.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kerncraft/models/layer_condition.py b/kerncraft/models/layer_condition.py
index fc89b3c..ccea2d2 100755
--- a/kerncraft/models/layer_condition.py
+++ b/kerncraft/models/layer_condition.py
@@ -46,7 +46,8 @@ class LC(PerformanceModel):
 
     def analyze(self):
         """Run complete analysis."""
-        lcp = LayerConditionPredictor(self.kernel, self.machine, symbolic=True)
+        cores = self._args.cores if self._args else 1
+        lcp = LayerConditionPredictor(self.kernel, self.machine, cores=cores, symbolic=True)
         self.results = lcp.results
 
     def report(self, output_file=sys.stdout):
@@ -55,8 +56,9 @@ class LC(PerformanceModel):
             pprint(self.results)
             print()
 
+        cores = self._args.cores if self._args else 1
         for cache, cache_results in zip(
-                self.machine.get_cachesim(self._args.cores).levels(with_mem=False),
+                self.machine.get_cachesim(cores).levels(with_mem=False),
                 self.results['cache']):
             print("Layer conditions for", cache.name, "cache with", cache.size()//1024, "KB:")
             print("    {:>35} {:>7} {:>5}".format("condition", "misses", "hits"))
-- 
2.43.0


From e448730b3d8fd1471d9b964d8772da6934acbaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 37/81] fix: layer conditions are reported to the requested
 output file

---
 kerncraft/models/layer_condition.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/kerncraft/models/layer_condition.py b/kerncraft/models/layer_condition.py
index ccea2d2..9dbfe84 100755
--- a/kerncraft/models/layer_condition.py
+++ b/kerncraft/models/layer_condition.py
@@ -53,17 +53,20 @@ class LC(PerformanceModel):
     def report(self, output_file=sys.stdout):
         """Report generated model in human readable form."""
         if self._args and self._args.verbose > 2:
-            pprint(self.results)
-            print()
+            pprint(self.results, stream=output_file)
+            print(file=output_file)
 
         cores = self._args.cores if self._args else 1
         for cache, cache_results in zip(
                 self.machine.get_cachesim(cores).levels(with_mem=False),
                 self.results['cache']):
-            print("Layer conditions for", cache.name, "cache with", cache.size()//1024, "KB:")
-            print("    {:>35} {:>7} {:>5}".format("condition", "misses", "hits"))
+            print("Layer conditions for", cache.name, "cache with", cache.size()//1024, "KB:",
+                  file=output_file)
+            print("    {:>35} {:>7} {:>5}".format("condition", "misses", "hits"),
+                  file=output_file)
             for lc_condition in cache_results:
                 print("    {!r:>35} {:>7} {:>5}".format(lc_condition['condition'],
                                                       lc_condition['misses'],
-                                                      lc_condition['hits']))
-            print()
+                                                      lc_condition['hits']),
+                      file=output_file)
+            print(file=output_file)
-- 
2.43.0


From e0a6638c94dae57085c02d2aa6499c69f4d86bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:47 +0000
Subject: [PATCH 38/81] fix: cycles per iteration and unit of unlimited
 performance in ECM models

---
 kerncraft/models/ecm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 663b9b6..4aaee9a 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -183,7 +183,7 @@ class ECMData(PerformanceModel):
             it_s = clock/cy_cl*elements_per_cacheline
             it_s.unit = 'It/s'
         else:
-            it_s = PrefixedUnit('inf It/S')
+            it_s = PrefixedUnit('inf It/s')
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
@@ -362,7 +362,7 @@ class ECMCPU(PerformanceModel):
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl*elements_per_cacheline
+        cy_it = cy_cl/elements_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
-- 
2.43.0


From 3a02a23020d9879a470e040451667551c27a8727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:47 +0000
Subject: [PATCH 39/81] fix: units and rooflines of kernels with an inner step
 other than one

---
 kerncraft/models/ecm.py      | 16 ++++++++--------
 kerncraft/models/roofline.py | 14 ++++++++------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 4aaee9a..40e7491 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -177,17 +177,17 @@ class ECMData(PerformanceModel):
             cy_cl = PrefixedUnit(cy_cl, '', 'cy/CL')
 
         clock = self.machine['clock']
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(self.machine['cacheline size']) // element_size
+        iterations_per_cacheline = (float(self.machine['cacheline size']) /
+                                    int(self.kernel.bytes_per_iteration))
         if cy_cl != 0:
-            it_s = clock/cy_cl*elements_per_cacheline
+            it_s = clock/cy_cl*iterations_per_cacheline
             it_s.unit = 'It/s'
         else:
             it_s = PrefixedUnit('inf It/s')
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl/elements_per_cacheline
+        cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
@@ -352,17 +352,17 @@ class ECMCPU(PerformanceModel):
         if not isinstance(cy_cl, PrefixedUnit):
             cy_cl = PrefixedUnit(cy_cl, '', 'cy/CL')
         clock = self.machine['clock']
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(self.machine['cacheline size']) // element_size
+        iterations_per_cacheline = (float(self.machine['cacheline size']) /
+                                    int(self.kernel.bytes_per_iteration))
         if cy_cl == 0.0:
             it_s = PrefixedUnit(float('inf'))
         else:
-            it_s = clock/cy_cl*elements_per_cacheline
+            it_s = clock/cy_cl*iterations_per_cacheline
         it_s.unit = 'It/s'
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl/elements_per_cacheline
+        cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 91ab6a9..48f794e 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -67,8 +67,9 @@ class RooflineFLOP(PerformanceModel):
         element_size = self.kernel.datatypes_size[self.kernel.datatype]
         cacheline_size = float(self.machine['cacheline size'])
         elements_per_cacheline = int(cacheline_size // element_size)
+        iterations_per_cacheline = cacheline_size / int(self.kernel.bytes_per_iteration)
 
-        total_flops = sum(self.kernel._flops.values())*elements_per_cacheline
+        total_flops = sum(self.kernel._flops.values())*iterations_per_cacheline
 
         # TODO let user choose threads_per_core:
         threads_per_core = 1
@@ -140,7 +141,7 @@ class RooflineFLOP(PerformanceModel):
                 arith_intens = float('inf')
                 it_s = PrefixedUnit(float('inf'), 'It/s')
             else:
-                arith_intens = 1/(bytes_transfered/elements_per_cacheline)
+                arith_intens = 1/(bytes_transfered/iterations_per_cacheline)
                 it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
 
             self.results['mem bottlenecks'].append({
@@ -170,9 +171,9 @@ class RooflineFLOP(PerformanceModel):
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(float(self.machine['cacheline size'])) / element_size
-        cy_cl = clock/it_s*elements_per_cacheline
+        iterations_per_cacheline = (float(self.machine['cacheline size']) /
+                                    int(self.kernel.bytes_per_iteration))
+        cy_cl = clock/it_s*iterations_per_cacheline
         cy_cl.unit = 'cy/CL'
         cy_it = clock/it_s
         cy_it.unit = 'cy/It'
@@ -301,6 +302,7 @@ class RooflineASM(RooflineFLOP):
         elements_per_block = abs(
             pointer_increment / self.kernel.datatypes_size[self.kernel.datatype])
         block_size = elements_per_block*self.kernel.datatypes_size[self.kernel.datatype]
+        iterations_per_block = block_size / int(self.kernel.bytes_per_iteration)
         try:
             block_to_cl_ratio = float(self.machine['cacheline size'])/block_size
         except ZeroDivisionError as e:
@@ -334,7 +336,7 @@ class RooflineASM(RooflineFLOP):
                 'cl throughput': cl_throughput,
                 'uops': uops,
                 'performance throughput': self.conv_perf(PrefixedUnit(
-                    self.machine['clock']/block_throughput*elements_per_block
+                    self.machine['clock']/block_throughput*iterations_per_block
                     * self.cores, "It/s")),
                 'in-core model output': incore_output}})
 
-- 
2.43.0


From 3a20c2fdb88169e2e28c6b037fc33da3cae7e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:47 +0000
Subject: [PATCH 40/81] fix: ECM reports are written to the requested output
 file completely

---
 kerncraft/models/ecm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 40e7491..6814ad4 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -216,7 +216,7 @@ class ECMData(PerformanceModel):
                 level, self.conv_cy(cycles)[self._args.unit]), file=output_file)
 
         if self.results['penalty']:
-            print('penalty cycles: {:.2f} cy/CL'.format(self.results['penalty']))
+            print('penalty cycles: {:.2f} cy/CL'.format(self.results['penalty']), file=output_file)
 
         if self.verbose > 1:
             if 'memory bandwidth kernel' in self.results:
@@ -568,8 +568,8 @@ class ECM(PerformanceModel):
         """Print generated model data in human readable format."""
         report = ''
         if self.verbose > 1:
-            self._CPU.report()
-            self._data.report()
+            self._CPU.report(output_file)
+            self._data.report(output_file)
 
         model_construction = 'max({}, sum({})) cy/CL'.format(
             ', '.join(self.results['ECM Model Construction'][:-1]),
-- 
2.43.0


From 76b2f5e3a7f6c7f8f9acd66cbb90a1784c4eb3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:47 +0000
Subject: [PATCH 41/81] fix: saturation point of kernels saturating the memory
 interface with a single core

---
 kerncraft/models/ecm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 6814ad4..ee336fa 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -508,7 +508,7 @@ class ECM(PerformanceModel):
             utilization = [0]
             self.results['scaling cores'] = float('inf')
             for c in range(1, cores_per_numa_domain + 1):
-                if c * T_MEM > (T_ECM + utilization[c - 1] * (c - 1) * T_MEM / 2):
+                if c * T_MEM >= (T_ECM + utilization[c - 1] * (c - 1) * T_MEM / 2):
                     utilization.append(1.0)
                     self.results['scaling cores'] = min(self.results['scaling cores'], c)
                 else:
-- 
2.43.0


From 906475fb694e80bf39d6598f000a51ab0efca906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 42/81] fix: arithmetic peak of Roofline is that of the
 kernel's precision and converted from FLOP/s

---
 kerncraft/models/roofline.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 48f794e..b53335a 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -159,11 +159,15 @@ class RooflineFLOP(PerformanceModel):
 
     def analyze(self):
         """Run analysis."""
-        precision = 'DP' if self.kernel.datatype == 'double' else 'SP'
+        precision = 'DP' if 'double' in self.kernel.datatype else 'SP'
         self.calculate_cache_access()
 
-        self.results['max_perf'] = self.conv_perf(self.machine['clock'] * self.cores * \
-            self.machine['FLOPs per cycle'][precision]['total'])
+        max_flop_s = self.machine['clock'] * self.cores * \
+            self.machine['FLOPs per cycle'][precision]['total']
+        flops_per_it = sum(self.kernel._flops.values())
+        self.results['max_perf'] = self.conv_perf(PrefixedUnit(
+            float(max_flop_s) / flops_per_it if flops_per_it else float('inf'), 'It/s'))
+        self.results['max_perf']['FLOP/s'] = PrefixedUnit(float(max_flop_s), 'FLOP/s')
 
     def conv_perf(self, it_s):
         """Convert performance (It/s) to other units, such as FLOP/s or cy/CL."""
@@ -207,9 +211,10 @@ class RooflineFLOP(PerformanceModel):
                       file=output_file)
             print('', file=output_file)
 
-        if self.results['min performance']['FLOP/s'] > max_perf['FLOP/s']:
+        if self.results['min performance']['It/s'] > max_perf['It/s']:
             # CPU bound
-            print('CPU bound. {!s} due to CPU max. FLOP/s'.format(max_perf), file=output_file)
+            print('CPU bound. {!s} due to CPU max. FLOP/s'.format(
+                max_perf[self._args.unit]), file=output_file)
         else:
             # Cache or mem bound
             print('Cache or mem bound.', file=output_file)
-- 
2.43.0


From 149e26de75f96e1b98553fec5788dab744cd1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 43/81] fix: Roofline of kernels without accesses to arrays

---
 kerncraft/models/roofline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index b53335a..386819f 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -100,8 +100,8 @@ class RooflineFLOP(PerformanceModel):
         # arithmetic intensity = Iterations / bytes loaded
         if total_loads == 0:
             # This happens in case of full-caching
-            arith_intens = None
-            it_s = None
+            arith_intens = float('inf')
+            it_s = PrefixedUnit(float('inf'), 'It/s')
         else:
             arith_intens = 1.0/(total_loads/elements_per_cacheline)
             it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
-- 
2.43.0


From 1d8980b85f220e56d24f2d8f12b82a4ecb606ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 44/81] fix: ECM and Roofline models without parsed arguments,
 as documented

---
 kerncraft/models/ecm.py      | 68 +++++++++++++++++++++---------------
 kerncraft/models/roofline.py | 45 +++++++++++++-----------
 2 files changed, 65 insertions(+), 48 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index ee336fa..1f62f00 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -48,7 +48,7 @@ class ECMData(PerformanceModel):
     name = "Execution-Cache-Memory (data transfers only)"
 
     def __init__(self, kernel, machine, args=None, parser=None, cores=1,
-                 cache_predictor=CacheSimulationPredictor, verbose=0):
+                 cache_predictor=CacheSimulationPredictor, verbose=0, unit='cy/CL'):
         """
         Create Execcution-Cache-Memory data model from kernel and machine objects.
 
@@ -56,7 +56,7 @@ class ECMData(PerformanceModel):
         *machine* describes the machine (cpu, cache and memory) characteristics
         *args* (optional) are the parsed arguments from the comand line
 
-        If *args* is None, *cores*, *cache_predictor* and *verbose* are taken into account,
+        If *args* is None, *cores*, *cache_predictor*, *verbose* and *unit* are taken into account,
         otherwise *args* takes precedence.
         """
         self.kernel = kernel
@@ -67,6 +67,7 @@ class ECMData(PerformanceModel):
 
         if args:
             self.verbose = self._args.verbose
+            self.unit = self._args.unit
             self.cores = self._args.cores
             if self._args.cache_predictor == 'SIM':
                 self.predictor = CacheSimulationPredictor(self.kernel, self.machine, self.cores)
@@ -79,6 +80,7 @@ class ECMData(PerformanceModel):
             self.cores = cores
             self.predictor = cache_predictor(self.kernel, self.machine, self.cores)
             self.verbose = verbose
+            self.unit = unit
 
     def calculate_cache_access(self):
         """Dispatch to cache predictor to get cache stats."""
@@ -213,7 +215,7 @@ class ECMData(PerformanceModel):
 
         for level, cycles in self.results['cycles']:
             print('{} = {}'.format(
-                level, self.conv_cy(cycles)[self._args.unit]), file=output_file)
+                level, self.conv_cy(cycles)[self.unit]), file=output_file)
 
         if self.results['penalty']:
             print('penalty cycles: {:.2f} cy/CL'.format(self.results['penalty']), file=output_file)
@@ -230,7 +232,7 @@ class ECMData(PerformanceModel):
             print(self.report_data_transfers(), file=output_file)
 
         if any(['_Complex' in var_info[0] for var_info in self.kernel.variables.values()]) and \
-                self._args.unit == 'FLOP/s':
+                self.unit == 'FLOP/s':
             print("WARNING: FLOP counts are probably wrong, because complex flops are counted\n"
                   "         as single flops. All other units should not be affected.\n",
                   file=sys.stderr)
@@ -247,7 +249,7 @@ class ECMCPU(PerformanceModel):
         pass
 
     def __init__(self, kernel, machine, args=None, parser=None, asm_block='auto',
-                 pointer_increment='auto', verbose=0):
+                 pointer_increment='auto', verbose=0, unit='cy/CL', incore_model='OSACA'):
         """
         Create Execution-Cache-Memory model from kernel and machine objects.
 
@@ -256,8 +258,8 @@ class ECMCPU(PerformanceModel):
         *args* (optional) are the parsed arguments from the comand line
         if *args* is given also *parser* has to be provided
 
-        If *args* is None, *asm_block*, *pointer_increment* and *verbose* will be used, otherwise
-        *args* takes precedence.
+        If *args* is None, *asm_block*, *pointer_increment*, *verbose*, *unit* and *incore_model*
+        will be used, otherwise *args* takes precedence.
         """
         self.kernel = kernel
         self.machine = machine
@@ -270,20 +272,24 @@ class ECMCPU(PerformanceModel):
             self.asm_block = self._args.asm_block
             self.pointer_increment = self._args.pointer_increment
             self.verbose = self._args.verbose
+            self.unit = self._args.unit
+            self.incore_model = self._args.incore_model
         else:
             self.asm_block = asm_block
             self.pointer_increment = pointer_increment
             self.verbose = verbose
+            self.unit = unit
+            self.incore_model = incore_model
 
         # Validate arguments
         if self.asm_block not in ['auto', 'manual']:
             try:
-                self.asm_block = int(args.asm_block)
+                self.asm_block = int(self.asm_block)
             except ValueError:
                 parser.error('asm_block can only be "auto", "manual" or an integer')
         if self.pointer_increment not in ['auto', 'auto_with_manual_fallback', 'manual']:
             try:
-                self.pointer_increment = int(args.pointer_increment)
+                self.pointer_increment = int(self.pointer_increment)
             except ValueError:
                 parser.error('pointer_increment can only be "auto", '
                              '"auto_with_manual_fallback", "manual" or an integer')
@@ -296,7 +302,7 @@ class ECMCPU(PerformanceModel):
             incore_analysis, pointer_increment = self.kernel.incore_analysis(
                 asm_block=self.asm_block,
                 pointer_increment=self.pointer_increment,
-                model=self._args.incore_model,
+                model=self.incore_model,
                 verbose=self.verbose > 2)
         except RuntimeError as e:
             print("In-core analysis failed: " + str(e))
@@ -322,7 +328,7 @@ class ECMCPU(PerformanceModel):
         cl_throughput = block_throughput*block_to_cl_ratio
 
         # Compile most relevant information
-        incore_model = self.machine.get_incore_model(self._args.incore_model)
+        incore_model = self.machine.get_incore_model(self.incore_model)
         T_comp = float(max([v for k, v in list(port_cycles.items())
                             if k in self.machine['overlapping model']['ports'][incore_model]] +
                            [0]))
@@ -385,14 +391,14 @@ class ECMCPU(PerformanceModel):
             print('Ports and cycles:', str(self.results['port cycles']), file=output_file)
             print('Uops:', str(self.results['uops']), file=output_file)
 
-            print('Throughput: {}'.format(self.results['cl throughput'][self._args.unit]),
+            print('Throughput: {}'.format(self.results['cl throughput'][self.unit]),
                   file=output_file)
 
         print('T_comp = {:.1f} cy/CL'.format(self.results['T_comp']), file=output_file)
         print('T_RegL1 = {:.1f} cy/CL'.format(self.results['T_RegL1']), file=output_file)
 
         if any(['_Complex' in var_info[0] for var_info in self.kernel.variables.values()]) and \
-                self._args.unit == 'FLOP/s':
+                self.unit == 'FLOP/s':
             print("WARNING: FLOP counts are probably wrong, because complex flops are counted \n"
                   "         as single flops. All other units should not be affected.\n",
                   file=sys.stderr)
@@ -415,7 +421,7 @@ class ECM(PerformanceModel):
 
     def __init__(self, kernel, machine, args=None, parser=None, asm_block="auto",
                  pointer_increment="auto", cores=1, cache_predictor=CacheSimulationPredictor,
-                 verbose=0):
+                 verbose=0, unit='cy/CL', incore_model='OSACA'):
         """
         Create complete Execution-Cache-Memory model from kernel and machine objects.
 
@@ -423,22 +429,28 @@ class ECM(PerformanceModel):
         *machine* describes the machine (cpu, cache and memory) characteristics
         *args* (optional) are the parsed arguments from the comand line
 
-        If *args* is None, *asm_block*, *pointer_increment*, *cores*, *cache_predictor* and
-        *verbose* will be used, otherwise *args* takes precedence.
+        If *args* is None, *asm_block*, *pointer_increment*, *cores*, *cache_predictor*, *verbose*,
+        *unit* and *incore_model* will be used, otherwise *args* takes precedence.
         """
         self.kernel = kernel
         self.machine = machine
         self._args = args
         self.verbose = verbose
+        self.unit = unit
+        self.cores = cores
         self.results = None
 
         if args:
             self.verbose = self._args.verbose
+            self.unit = self._args.unit
+            self.cores = self._args.cores
 
         self._CPU = ECMCPU(kernel, machine, args, parser, asm_block=asm_block,
-                           pointer_increment=pointer_increment, verbose=verbose)
+                           pointer_increment=pointer_increment, verbose=verbose, unit=unit,
+                           incore_model=incore_model)
         self._data = ECMData(kernel, machine, args, parser,
-                             cache_predictor=CacheSimulationPredictor, cores=cores, verbose=verbose)
+                             cache_predictor=cache_predictor, cores=cores, verbose=verbose,
+                             unit=unit)
 
     def analyze(self):
         """Run complete analysis."""
@@ -559,8 +571,8 @@ class ECM(PerformanceModel):
 
         # Also include prediction for all in-NUMA core counts in results
         self.results['scaling prediction'] = scaling_predictions
-        if self._args.cores:
-            self.results['multi-core'] = scaling_predictions[self._args.cores - 1]
+        if self.cores:
+            self.results['multi-core'] = scaling_predictions[self.cores - 1]
         else:
             self.results['multi-core'] = None
 
@@ -579,9 +591,9 @@ class ECM(PerformanceModel):
             ', '.join(['{:.1f}'.format(c) for c in self.results['ECM'][-1]]))
         report += 'T_ECM = ' + model_construction + '\n' + \
                   '      = ' + ecm_string + '\n' + \
-                  '      = {}'.format(self.results['total cycles'][self._args.unit])
+                  '      = {}'.format(self.results['total cycles'][self.unit])
 
-        if self._args.cores > 1:
+        if self.cores > 1:
             report += " (single core)"
 
         report += '\nsaturating at {:.0f} cores'.format(self.results['scaling cores'])
@@ -590,26 +602,26 @@ class ECM(PerformanceModel):
             report += "\nprediction for {} cores,".format(self.results['multi-core']['cores']) + \
                       " assuming static scheduling: "
             report += "{} ({})\n".format(
-                self.results['multi-core']['performance'][self._args.unit],
+                self.results['multi-core']['performance'][self.unit],
                 ', '.join(self.results['multi-core']['notes']))
 
         if self.results['scaling prediction']:
             report += "\nScaling prediction, considering memory bus utilization penalty and " \
                 "assuming all scalable caches:\n"
             if self.machine['cores per socket'] > self.machine['cores per NUMA domain']:
-                report += "1st NUMA dom." + (len(self._args.unit) - 4) * ' ' + '||' + \
+                report += "1st NUMA dom." + (len(self.unit) - 4) * ' ' + '||' + \
                     '--------' * (self.machine['cores per NUMA domain']-1) + '-------|\n'
 
-            report +=  "cores " + (len(self._args.unit)+2)*' ' + " || " + ' | '.join(
+            report +=  "cores " + (len(self.unit)+2)*' ' + " || " + ' | '.join(
                 ['{:<5}'.format(s['cores']) for s in self.results['scaling prediction']]) + '\n'
-            report +=  "perf. ({}) || ".format(self._args.unit) + ' | '.join(
-                ['{:<5.1f}'.format(float(s['performance'][self._args.unit]))
+            report +=  "perf. ({}) || ".format(self.unit) + ' | '.join(
+                ['{:<5.1f}'.format(float(s['performance'][self.unit]))
                  for s in self.results['scaling prediction']]) + '\n'
 
         print(report, file=output_file)
 
         if any(['_Complex' in var_info[0] for var_info in self.kernel.variables.values()]) and \
-                self._args.unit == 'FLOP/s':
+                self.unit == 'FLOP/s':
             print("WARNING: FLOP counts are probably wrong, because complex flops are counted\n"
                   "         as single flops. All other units should not be affected.\n",
                   file=sys.stderr)
diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 386819f..e4013da 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -23,7 +23,7 @@ class RooflineFLOP(PerformanceModel):
         pass
 
     def __init__(self, kernel, machine, args=None, parser=None, cores=1,
-                 cache_predictor=LayerConditionPredictor, verbose=0):
+                 cache_predictor=LayerConditionPredictor, verbose=0, unit='FLOP/s'):
         """
         Create roofline model from kernel and machine objects.
 
@@ -32,7 +32,7 @@ class RooflineFLOP(PerformanceModel):
         *args* (optional) are the parsed arguments from the comand line
 
 
-        If *args* is None, *asm_block*, *pointer_increment* and *verbose* will be used, otherwise
+        If *args* is None, *cores*, *cache_predictor*, *verbose* and *unit* will be used, otherwise
         *args* takes precedence.
         """
         self.kernel = kernel
@@ -43,6 +43,7 @@ class RooflineFLOP(PerformanceModel):
 
         if args:
             self.verbose = self._args.verbose
+            self.unit = self._args.unit
             self.cores = self._args.cores
             if self._args.cache_predictor == 'SIM':
                 self.predictor = CacheSimulationPredictor(self.kernel, self.machine, self.cores)
@@ -55,6 +56,7 @@ class RooflineFLOP(PerformanceModel):
             self.cores = cores
             self.predictor = cache_predictor(self.kernel, self.machine, self.cores)
             self.verbose = verbose
+            self.unit = unit
 
     def calculate_cache_access(self):
         """Apply cache prediction to generate cache access behaviour."""
@@ -191,10 +193,10 @@ class RooflineFLOP(PerformanceModel):
         """Report analysis outcome in human readable form."""
         max_perf = self.results['max_perf']
 
-        if self._args and self._args.verbose >= 3:
+        if self.verbose >= 3:
             print('{}'.format(pformat(self.results)), file=output_file)
 
-        if self._args and self._args.verbose >= 1:
+        if self.verbose >= 1:
             print('{}'.format(pformat(self.results['verbose infos'])), file=output_file)
             print('Bottlenecks:', file=output_file)
             print('  level | a. intensity |   performance   |   peak bandwidth  | peak bandwidth kernel',
@@ -202,26 +204,26 @@ class RooflineFLOP(PerformanceModel):
             print('--------+--------------+-----------------+-------------------+----------------------',
                   file=output_file)
             print('    CPU |              | {!s:>15} |                   |'.format(
-                max_perf[self._args.unit]),
+                max_perf[self.unit]),
                   file=output_file)
             for b in self.results['mem bottlenecks']:
                 print('{level:>7} | {arithmetic intensity:>7.2} It/B | {0!s:>15} |'
                       ' {bandwidth!s:>17} | {bw kernel:<8}'.format(
-                          b['performance'][self._args.unit], **b),
+                          b['performance'][self.unit], **b),
                       file=output_file)
             print('', file=output_file)
 
         if self.results['min performance']['It/s'] > max_perf['It/s']:
             # CPU bound
             print('CPU bound. {!s} due to CPU max. FLOP/s'.format(
-                max_perf[self._args.unit]), file=output_file)
+                max_perf[self.unit]), file=output_file)
         else:
             # Cache or mem bound
             print('Cache or mem bound.', file=output_file)
 
             bottleneck = self.results['mem bottlenecks'][self.results['bottleneck level']]
             print('{!s} due to {} transfer bottleneck (with bw from {} benchmark)'.format(
-                    bottleneck['performance'][self._args.unit],
+                    bottleneck['performance'][self.unit],
                     bottleneck['level'],
                     bottleneck['bw kernel']),
                   file=output_file)
@@ -249,7 +251,8 @@ class RooflineASM(RooflineFLOP):
         pass
 
     def __init__(self, kernel, machine, args=None, parser=None, asm_block='auto',
-                 pointer_increment='auto', cores=1, predictor=LayerConditionPredictor, verbose=0):
+                 pointer_increment='auto', cores=1, predictor=LayerConditionPredictor, verbose=0,
+                 unit='FLOP/s', incore_model='OSACA'):
         """
         Create Roofline model with ASM analysis from kernel and machine objects.
 
@@ -258,29 +261,31 @@ class RooflineASM(RooflineFLOP):
         *args* (optional) are the parsed arguments from the comand line
         if *args* is given also *parser* has to be provided
 
-        If *args* is None, *asm_block*, *pointer_increment* and *verbose* will be used, otherwise
-        *args* takes precedence.
+        If *args* is None, *asm_block*, *pointer_increment*, *cores*, *predictor*, *verbose*, *unit*
+        and *incore_model* will be used, otherwise *args* takes precedence.
         """
-        RooflineFLOP.__init__(self, kernel, machine, args, parser, cores, predictor, verbose)
+        RooflineFLOP.__init__(self, kernel, machine, args, parser, cores, predictor, verbose, unit)
         self.results = None
 
         if args:
             # handle CLI info
             self.asm_block = self._args.asm_block
             self.pointer_increment = self._args.pointer_increment
+            self.incore_model = self._args.incore_model
         else:
             self.asm_block = asm_block
             self.pointer_increment = pointer_increment
+            self.incore_model = incore_model
 
         # Validate arguments
         if self.asm_block not in ['auto', 'manual']:
             try:
-                self.asm_block = int(args.asm_block)
+                self.asm_block = int(self.asm_block)
             except ValueError:
                 parser.error('asm_block can only be "auto", "manual" or an integer')
         if self.pointer_increment not in ['auto', 'auto_with_manual_fallback', 'manual']:
             try:
-                self.pointer_increment = int(args.pointer_increment)
+                self.pointer_increment = int(self.pointer_increment)
             except ValueError:
                 parser.error('pointer_increment can only be "auto", '
                              '"auto_with_manual_fallback", "manual" or an integer')
@@ -292,7 +297,7 @@ class RooflineASM(RooflineFLOP):
             incore_analysis, pointer_increment = self.kernel.incore_analysis(
                 asm_block=self.asm_block,
                 pointer_increment=self.pointer_increment,
-                model=self._args.incore_model,
+                model=self.incore_model,
                 verbose=self.verbose > 2)
         except RuntimeError as e:
             print("In-core analysis failed: " + str(e))
@@ -359,7 +364,7 @@ class RooflineASM(RooflineFLOP):
             print('--------+--------------+-----------------+-------------------+----------------------',
                   file=output_file)
             print('    CPU |              | {!s:>15} |                   |'.format(
-                cpu_perf[self._args.unit]),
+                cpu_perf[self.unit]),
                   file=output_file)
             for b in self.results['mem bottlenecks']:
                 # Skip CPU-L1 from Roofline model
@@ -367,7 +372,7 @@ class RooflineASM(RooflineFLOP):
                     continue
                 print('{level:>7} | {arithmetic intensity:>7.2} It/B | {0!s:>15} |'
                       ' {bandwidth!s:>17} | {bw kernel:<8}'.format(
-                          b['performance'][self._args.unit], **b),
+                          b['performance'][self.unit], **b),
                       file=output_file)
             print('', file=output_file)
             print('In-Core Model analisys:', file=output_file)
@@ -379,7 +384,7 @@ class RooflineASM(RooflineFLOP):
 
         if self.results['min performance']['It/s'] > cpu_perf['It/s']:
             # CPU bound
-            print('CPU bound. {!s} due to CPU bottleneck'.format(cpu_perf[self._args.unit]),
+            print('CPU bound. {!s} due to CPU bottleneck'.format(cpu_perf[self.unit]),
                   file=output_file)
         else:
             # Cache or mem bound
@@ -387,7 +392,7 @@ class RooflineASM(RooflineFLOP):
 
             bottleneck = self.results['mem bottlenecks'][self.results['bottleneck level']]
             print('{!s} due to {} transfer bottleneck (with bw from {} benchmark)'.format(
-                      bottleneck['performance'][self._args.unit],
+                      bottleneck['performance'][self.unit],
                       bottleneck['level'],
                       bottleneck['bw kernel']),
                   file=output_file)
@@ -395,7 +400,7 @@ class RooflineASM(RooflineFLOP):
                   file=output_file)
 
         if any(['_Complex' in var_info[0] for var_info in self.kernel.variables.values()]) and \
-                self._args.unit == 'FLOP/s':
+                self.unit == 'FLOP/s':
             print("WARNING: FLOP counts are probably wrong, because complex flops are counted\n"
                   "         as single flops. All other units should not be affected.\n",
                   file=sys.stderr)
-- 
2.43.0


From 088a5b82f7ed1c75aeb4b0b822bac21459d27e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:27 +0000
Subject: [PATCH 45/81] fix: Roofline of kernels whose accesses do not depend
 on the iteration

---
 kerncraft/models/roofline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index e4013da..8b19b99 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -80,8 +80,10 @@ class RooflineFLOP(PerformanceModel):
 
         # CPU-L1 stats (in bytes!)
         # We compile CPU-L1 stats on our own, because cacheprediction only works on cache lines
-        read_offsets, write_offsets = zip(*list(self.kernel.compile_global_offsets(
-            iteration=range(0, elements_per_cacheline))))
+        # No offsets are compiled, if no access depends on the iteration
+        offsets = list(self.kernel.compile_global_offsets(
+            iteration=range(0, elements_per_cacheline)))
+        read_offsets, write_offsets = zip(*offsets) if offsets else ((), ())
         read_offsets = set([item for sublist in read_offsets if sublist is not None
                             for item in sublist])
         write_offsets = set([item for sublist in write_offsets if sublist is not None
-- 
2.43.0


From a8894c533b7e02252ea588a17518eae0284b796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 46/81] fix: pointer increments are only claimed if all
 accesses advance by them

---
 kerncraft/incore_model.py | 459 ++++++++++++++++++--------------------
 1 file changed, 211 insertions(+), 248 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 80ed27e..80f187e 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -126,12 +126,23 @@ class x86(ISA):
             instruction_ctr,
         )
 
+    @staticmethod
+    def normalize_register_name(register):
+        """Return name of the full (64bit) register, e.g., rax for eax or r8 for r8d."""
+        name = register.name.lower()
+        m = re.match(r"^(?:[re]?([a-d])x|([a-d])[lh]|[re]?(si|di|bp|sp)l?|(r[0-9]+)[dwb]?)$", name)
+        if not m:
+            return name
+        if m.group(4):
+            return m.group(4)
+        return "r" + (m.group(3) or (m.group(1) or m.group(2)) + "x")
+
     @staticmethod
     def get_pointer_increment(block):
         """Return pointer increment."""
         increments = {}
-        mem_references = []
-        stores_only = False
+        stores = []
+        loads = []
 
         modified_registers = []
         for line in block:
@@ -139,115 +150,102 @@ class x86(ISA):
             if line.mnemonic is None:
                 continue
 
-            # Extract destination references, ignoring var(%rip)
-            dst_mem_references = [
+            # Extract destination references (stores), ignoring var(%rip)
+            stores += [
                 op
-                for op in line.semantic_operands["destination"]
+                for op in chain(
+                    line.semantic_operands["destination"], line.semantic_operands["src_dst"]
+                )
                 if isinstance(op, MemoryOperand) and (op.base is None or op.base.name != "rip")
             ]
-            if dst_mem_references:
-                if not stores_only:
-                    stores_only = True
-                    mem_references = []
-                mem_references += dst_mem_references
-
-            # If no destination references were found sofar, include source references
-            if not stores_only:
-                mem_references += [
-                    op for op in line.semantic_operands["source"] if isinstance(op, MemoryOperand)
+            # Extract source references (loads), lea does not access memory
+            if not line.mnemonic.startswith("lea"):
+                loads += [
+                    op
+                    for op in line.semantic_operands["source"]
+                    if isinstance(op, MemoryOperand) and (op.base is None or op.base.name != "rip")
                 ]
+
+            # Any modification counts, also those which are not recognized as increments below
+            modified_registers += [
+                x86.normalize_register_name(op)
+                for op in chain(
+                    line.semantic_operands["destination"], line.semantic_operands["src_dst"]
+                )
+                if isinstance(op, RegisterOperand)
+            ]
+            # Only registers are incremented, operands are ordered with destination last
+            operands = line.operands
+            if not operands or not isinstance(operands[-1], RegisterOperand):
+                continue
+            # A single operand may be modified, even if the instruction is not known to do so
+            if len(operands) == 1 and operands[0] in line.semantic_operands["source"]:
+                modified_registers.append(x86.normalize_register_name(operands[0]))
             if re.match(r"^inc[bwlq]?$", line.mnemonic):
-                reg = line.operands[0].name
-                modified_registers.append(reg)
+                reg = x86.normalize_register_name(line.operands[0])
                 increments[reg] = 1
             elif (
                 re.match(r"^add[bwlq]?$", line.mnemonic)
                 and isinstance(line.operands[0], ImmediateOperand)
                 and isinstance(line.operands[1], RegisterOperand)
             ):
-                reg = line.operands[1].name
+                reg = x86.normalize_register_name(line.operands[1])
                 increments[reg] = int(line.operands[0].value)
-                modified_registers.append(reg)
             elif re.match(r"^dec[bwlq]?$", line.mnemonic):
-                reg = line.operands[0].name
-                modified_registers.append(reg)
+                reg = x86.normalize_register_name(line.operands[0])
                 increments[reg] = -1
             elif (
                 re.match(r"^sub[bwlq]?$", line.mnemonic)
                 and isinstance(line.operands[0], ImmediateOperand)
                 and isinstance(line.operands[1], RegisterOperand)
             ):
-                reg = line.operands[1].name
-                modified_registers.append(reg)
+                reg = x86.normalize_register_name(line.operands[1])
                 increments[reg] = -int(line.operands[0].value)
             elif re.match(r"^lea[bwlq]?$", line.mnemonic):
                 # `lea 1(%r11), %r11` is the same as `add $1, %r11`
                 if (
                     line.operands[0].base is not None
                     and line.operands[0].base.name == line.operands[1].name
-                    and line.operands[0].index is None
+                    and not line.operands[0].index
+                    and isinstance(line.operands[0].offset, ImmediateOperand)
                 ):
-                    reg = line.operands[1].name
-                    modified_registers.append(reg)
+                    reg = x86.normalize_register_name(line.operands[1])
                     increments[reg] = int(line.operands[0].offset.value)
                 # `lea 1(,%r11), %r11` is the same as `add $1, %r11`
                 if (
-                    line.operands[0].index is not None
+                    line.operands[0].index
                     and line.operands[0].index.name == line.operands[1].name
                     and line.operands[0].base is None
+                    and line.operands[0].scale == 1
+                    and isinstance(line.operands[0].offset, ImmediateOperand)
                 ):
-                    reg = line.operands[1].name
-                    modified_registers.append(reg)
+                    reg = x86.normalize_register_name(line.operands[1])
                     increments[reg] = int(line.operands[0].offset.value)
 
-        # deduce loop increment from memory index register
+        # deduce loop increment from registers used in memory references
         pointer_increment = None  # default -> can not decide, let user choose
-        possible_idx_regs = None
-        if mem_references:
-            # we found memory references to work with
-            possible_idx_regs = list(
-                set(increments.keys()).intersection(
-                    set(
-                        [mref.base.name for mref in mem_references if mref.base is not None]
-                        + [mref.index.name for mref in mem_references if mref.index is not None]
-                    )
-                )
-            )
+        for mem_references in (stores, loads):
+            advances = set()
             for mref in mem_references:
-                for reg in list(possible_idx_regs):
-                    # Only consider references with two registers, where one could be an
-                    # index
-                    if None not in [mref.base, mref.index]:
-                        # One needs to mach, other registers will be excluded
-                        if not (
-                            (mref.base is not None and reg == mref.base.name)
-                            or (mref.index is not None and reg == mref.index.name)
-                        ):
-                            # reg can not be it
-                            possible_idx_regs.remove(reg)
-
-            idx_reg = None
-            if len(possible_idx_regs) == 1:
-                # good, exactly one register was found
-                idx_reg = possible_idx_regs[0]
-            elif possible_idx_regs and itemsEqual(
-                [increments[pidxreg] for pidxreg in possible_idx_regs]
-            ):
-                # multiple were option found, but all have the same increment
-                # use first match:
-                idx_reg = possible_idx_regs[0]
-
-            if idx_reg and modified_registers.count(idx_reg) == 1:
-                mem_scales = [
-                    mref.scale
-                    for mref in mem_references
-                    if (mref.index is not None and idx_reg == mref.index.name)
-                    or (mref.base is not None and idx_reg == mref.base.name)
-                ]
-
-                if itemsEqual(mem_scales):
-                    # good, all scales are equal
-                    pointer_increment = mem_scales[0] * increments[idx_reg]
+                advance = 0
+                for reg, scale in ((mref.base, 1), (mref.index, mref.scale)):
+                    if not reg:
+                        continue
+                    reg = x86.normalize_register_name(reg)
+                    if modified_registers.count(reg) == 1 and reg in increments:
+                        if advance is not None:
+                            advance += scale * increments[reg]
+                    elif reg in modified_registers:
+                        advance = None
+                advances.add(advance)
+            # references which stay at the same address (e.g., spilled registers) are ignored
+            advances.discard(0)
+            if advances:
+                # only if all advance equally, the increment is known
+                if len(advances) == 1:
+                    pointer_increment = advances.pop()
+                # loads are only considered if there are no moving stores
+                break
 
         if pointer_increment is None:
             pointer_increment = find_increment_in_cache(block)
@@ -288,200 +286,165 @@ class AArch64(ISA):
     def normalize_to_register_str(register):
         if register is None:
             return None
-        prefix = register.prefix
-        if prefix in "wx":
+        prefix = register.prefix or ""
+        if prefix == "w":
             prefix = "x"
         return prefix + register.name
 
+    @staticmethod
+    def get_change(line):
+        """
+        Return how an instruction changes its destination register.
+
+        :return: constant increment (int), list of pairs of factor and register which are summed up
+                 with a constant, or None if unknown
+        """
+        m = re.match(r"^(add|sub)s?$|^(lsl)$|^(mov)$", line.mnemonic)
+        if not m or not all(
+            isinstance(op, (RegisterOperand, ImmediateOperand)) for op in line.operands
+        ):
+            return None
+        operands = line.operands
+        sources = operands[1:]
+        if not all(isinstance(op, RegisterOperand) for op in operands[:-1]):
+            return None
+        if m.group(3):
+            if len(sources) != 1 or not isinstance(sources[0], RegisterOperand):
+                return None
+            change = [(1, sources[0])]
+        elif len(sources) != 2:
+            return None
+        elif m.group(2):
+            if not isinstance(sources[1], ImmediateOperand):
+                return None
+            change = [(2 ** int(sources[1].value), sources[0])]
+        else:
+            sign = 1 if m.group(1) == "add" else -1
+            if isinstance(sources[1], ImmediateOperand):
+                if operands[0] == sources[0]:
+                    return sign * int(sources[1].value)
+                change = [(1, sources[0])]
+            else:
+                # shifts and extensions of the last operand are not part of the parsed registers
+                modifier = re.search(r"\b(ls[lr]|asr|ror|[su]xt[bhwx])\b(?:\s*#?([0-9]+))?", line.line)
+                scale = 1
+                if modifier and modifier.group(1) in ("lsl", "sxtw", "uxtw", "sxtx", "uxtx"):
+                    scale = 2 ** int(modifier.group(2) or 0)
+                elif modifier:
+                    return None
+                change = [(1, sources[0]), (sign * scale, sources[1])]
+        dst_name = AArch64.normalize_to_register_str(operands[0])
+        if dst_name in [AArch64.normalize_to_register_str(reg) for factor, reg in change]:
+            return None
+        return change
+
     @staticmethod
     def get_pointer_increment(block):
         """Return pointer increment."""
-        increments = defaultdict(int)
-        mem_references = []
-        stores_only = False
-
-        # build dict of modified registers in block with count of number of modifications
-        modified_registers = defaultdict(int)
-        for dests in [l.semantic_operands["destination"] for l in block]:
-            for d in dests:
-                if isinstance(d, RegisterOperand):
-                    # if 'range' in d.register:
-                    #    modified_registers[AArch64.normalize_to_register_str(d.register.range[0])] += 1
-                    # else:
-                    modified_registers[AArch64.normalize_to_register_str(d)] += 1
-        for l in block:
-            for d in l.operands:
-                if isinstance(d, MemoryOperand):
-                    if d.post_indexed is not False or d.pre_indexed:
-                        modified_registers[AArch64.normalize_to_register_str(d.base)] += 1
-                        inc = 1
-                        if isinstance(d.post_indexed, dict):
-                            inc = int(d.post_indexed["value"])
-                        if d.pre_indexed:
-                            inc = int(d.offset.value)
-                        increments[AArch64.normalize_to_register_str(d.base)] = inc
+        # modifications per register: increments by a constant (int), derivations from other
+        # registers (list of pairs of factor and register) or unknown (None)
+        modifications = defaultdict(list)
+        stores = []
+        loads = []
 
         for line in block:
             # Skip non-instruction lines (such as comments and labels)
             if line.mnemonic is None:
                 continue
 
-            # Extract and filter destination references (stores)
-            dst_mem_references = []
-            for dst in [
+            # Extract memory references, offsets with identifiers (e.g. `:lo12:gosa`) are ignored
+            mem_references = [
                 op
-                for op in chain(
-                    line.semantic_operands["destination"], line.semantic_operands["src_dst"]
-                )
-                if isinstance(op, MemoryOperand)
-            ]:
-                # base or index must be a modified (i.e., changing) register
-                if (
-                    AArch64.normalize_to_register_str(dst.base) not in modified_registers
-                    and AArch64.normalize_to_register_str(dst.index) not in modified_registers
-                ):
-                    continue
+                for op in line.operands
+                if isinstance(op, MemoryOperand) and not isinstance(op.offset, IdentifierOperand)
+            ]
+            if line.mnemonic.startswith("st"):
+                stores += mem_references
+            elif not line.mnemonic.startswith("prf"):
+                loads += mem_references
 
-                # offset operands with identifiers (e.g. `:lo12:gosa`) are ignored
-                if dst.offset is not None and isinstance(dst.offset, IdentifierOperand):
+            # Pre- and post-indexed references modify their base
+            for mref in mem_references:
+                if not mref.post_indexed and not mref.pre_indexed:
                     continue
+                inc = None
+                if mref.pre_indexed and isinstance(mref.offset, ImmediateOperand):
+                    inc = int(mref.offset.value)
+                elif isinstance(mref.post_indexed, dict) and "value" in mref.post_indexed:
+                    inc = int(mref.post_indexed["value"])
+                modifications[AArch64.normalize_to_register_str(mref.base)].append(inc)
+            indexed = [
+                AArch64.normalize_to_register_str(mref.base)
+                for mref in mem_references
+                if mref.post_indexed or mref.pre_indexed
+            ]
 
-                dst_mem_references.append(dst)
-            # consider only stores from here on
-            if dst_mem_references and not stores_only:
-                stores_only = True
-                mem_references = []
-            mem_references += dst_mem_references
-
-            # If no destination references were found sofar, include source references (loads)
-            if not stores_only:
-                mem_references += [
-                    op
-                    for op in chain(
-                        line.semantic_operands["source"], line.semantic_operands["src_dst"]
-                    )
-                    if isinstance(op, MemoryOperand)
-                ]
-
-            # ADD dest_reg, src_reg, immd
-            if (
-                re.match(r"^add[s]?$", line.mnemonic)
-                and line.operands[0] == line.operands[1]
-                and isinstance(line.operands[2], ImmediateOperand)
+            # All other modifications
+            change = AArch64.get_change(line)
+            for d in chain(
+                line.semantic_operands["destination"], line.semantic_operands["src_dst"]
             ):
-                reg_name = AArch64.normalize_to_register_str(line.operands[0])
-                inc = int(line.operands[2].value)
-                increments[reg_name] = inc
-            # SUB dest_reg, src_reg, immd
-            elif (
-                re.match(r"^sub[s]?$", line.mnemonic)
-                and line.operands[0] == line.operands[1]
-                and isinstance(line.operands[2], ImmediateOperand)
-            ):
-                reg_name = AArch64.normalize_to_register_str(line.operands[0])
-                inc = -int(line.operands[2].value)
-                if reg_name in increments and increments[reg_name] == inc:
-                    increments[reg_name] = inc
-
-        # Remove any increments that are modiefed more than once
-        increments = {
-            reg_name: inc
-            for reg_name, inc in increments.items()
-            if modified_registers[reg_name] == 1
-        }
-
-        # Second pass to find lsl instructions on increments
-        for line in block:
-            if line.mnemonic is None:
-                continue
-            # LSL dest_reg, src_reg, immd
-            if (
-                re.match(r"^lsl$", line.mnemonic)
-                and isinstance(line.operands[2], ImmediateOperand)
-                and AArch64.normalize_to_register_str(line.operands[1]) in increments
-            ):
-                increments[AArch64.normalize_to_register_str(line.operands[0])] = increments[
-                    AArch64.normalize_to_register_str(line.operands[1])
-                ] * 2 ** int(line.operands[2].value)
-
-        new_increments = []
-        # Third pass to find registers based on constant +- increment
-        for line in block:
-            if line.mnemonic is None:
-                continue
-            # ADD|SUB dest_reg, const_reg, increment_reg (source registers may be switched)
-            m = re.match(r"^(add|sub)[s]?$", line.mnemonic)
-            if m:
-                if m.group(1) == "add":
-                    factor = 1
-                else:
-                    factor = -1
-                if not isinstance(line.operands[1], RegisterOperand) or not isinstance(
-                    line.operands[2], RegisterOperand
-                ):
+                if not isinstance(d, RegisterOperand):
                     continue
-                for i, j in [(1, 2), (2, 1)]:
-                    reg_i_name = AArch64.normalize_to_register_str(line.operands[i])
-                    reg_j_name = AArch64.normalize_to_register_str(line.operands[j])
-                    if reg_i_name in increments and reg_j_name not in modified_registers:
-                        reg_dest_name = AArch64.normalize_to_register_str(line.operands[0])
-                        inc = factor * increments[reg_i_name]
-                        if reg_dest_name in increments and increments[reg_dest_name] == inc:
-                            modified_registers[reg_dest_name] -= 1
-                        increments[reg_dest_name] = inc
-                        new_increments.append(reg_dest_name)
-
-        # Remove any increments that are modified more often than updates have been detected
-        increments = {
-            reg_name: inc
-            for reg_name, inc in increments.items()
-            if modified_registers[reg_name] == 1
-        }
-
-        # Last pass to find lsl instructions on increments
-        for line in block:
-            if line.mnemonic is None:
-                continue
-            # LSL dest_reg, src_reg, immd
-            if (
-                re.match(r"^lsl$", line.mnemonic)
-                and isinstance(line.operands[2], ImmediateOperand)
-                and isinstance(line.operands[1], RegisterOperand)
-            ):
-                src_reg_name = AArch64.normalize_to_register_str(line.operands[1])
-                if src_reg_name in new_increments and src_reg_name in increments:
-                    increments[AArch64.normalize_to_register_str(line.operands[0])] = increments[
-                        src_reg_name
-                    ] * 2 ** int(line.operands[2].value)
-
-        # deduce loop increment from memory index register
-        address_registers = []
-        scales = defaultdict(lambda: 1)
-        for mref in mem_references:
-            # Assume base to be scaled
-            base_reg = AArch64.normalize_to_register_str(mref.base)
-            if mref.index is not None:
-                # If index register is used, check which is incremented
-                index_reg = AArch64.normalize_to_register_str(mref.index)
-                if index_reg in increments:
-                    reg = index_reg
-                    # If index is used, a scale other than 1 needs to be considered
-                    if mref.index.shift:
-                        scales[reg] = 2 ** int(mref.index.shift[0]["value"])
+                reg_name = AArch64.normalize_to_register_str(d)
+                if reg_name in indexed:
+                    indexed.remove(reg_name)
                 else:
-                    reg = base_reg
-            else:
-                reg = base_reg
-            # ignore all unmodiefed registers
-            if reg in modified_registers:
-                address_registers.append(reg)
-            increment = None
+                    modifications[reg_name].append(change)
+
+        # Increments known: unmodified registers and those incremented once by a constant
+        increments = {}
+        for reg_name, changes in modifications.items():
+            if len(changes) == 1 and isinstance(changes[0], int):
+                increments[reg_name] = changes[0]
+
+        # Registers always derived from registers with known increments are also known
+        def get_increment(register):
+            reg_name = AArch64.normalize_to_register_str(register)
+            return increments.get(reg_name) if reg_name in modifications else 0
+
+        unresolved = [
+            reg_name
+            for reg_name, changes in modifications.items()
+            if all(isinstance(change, list) for change in changes)
+        ]
+        progress = True
+        while progress:
+            progress = False
+            for reg_name in list(unresolved):
+                derived = set()
+                for change in modifications[reg_name]:
+                    terms = [(factor, get_increment(reg)) for factor, reg in change]
+                    if any(inc is None for factor, inc in terms):
+                        derived.add(None)
+                    else:
+                        derived.add(sum(factor * inc for factor, inc in terms))
+                if len(derived) == 1 and None not in derived:
+                    increments[reg_name] = derived.pop()
+                    unresolved.remove(reg_name)
+                    progress = True
 
         pointer_increment = None  # default -> can not decide, let user choose
-        if address_registers and all([reg in increments for reg in address_registers]):
-            if itemsEqual([increments[reg] for reg in address_registers]):
-                # good, all relevant increments are equal
-                pointer_increment = increments[address_registers[0]] * scales[address_registers[0]]
+        for mem_references in (stores, loads):
+            advances = set()
+            for mref in mem_references:
+                advance = get_increment(mref.base)
+                if mref.index is not None and advance is not None:
+                    index = get_increment(mref.index)
+                    # If index is used, a scale other than 1 needs to be considered
+                    scale = 1
+                    if getattr(mref.index, "shift", None):
+                        scale = 2 ** int(mref.index.shift[0]["value"])
+                    advance = None if index is None else advance + scale * index
+                advances.add(advance)
+            # references which stay at the same address (e.g., spilled registers) are ignored
+            advances.discard(0)
+            if advances:
+                # only if all advance equally, the increment is known
+                if len(advances) == 1:
+                    pointer_increment = advances.pop()
+                # loads are only considered if there are no moving stores
+                break
 
         # Check cache as last resort
         if pointer_increment is None:
-- 
2.43.0


From b8fcd213663de2b782738239b51c4ba752659e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 47/81] fix: increments given by the user replace those given
 before for the same block

---
 kerncraft/incore_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 80f187e..41ec72d 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -515,6 +515,7 @@ def find_increment_in_cache(block, cache_file="~/.kerncraft/increment_cache"):
     if os.path.exists(cache_file):
         with open(cache_file) as f:
             cache = f.readlines()
+    found = None
     for c in cache:
         c_split = c.split()
         if len(c_split) < 2:
@@ -525,8 +526,9 @@ def find_increment_in_cache(block, cache_file="~/.kerncraft/increment_cache"):
         except:
             increment = None
         if hashstr == search_hash:
-            return increment
-    return None
+            # later entries replace earlier ones
+            found = increment
+    return found
 
 
 def store_increment_to_cache(
-- 
2.43.0


From 740210dad0349c8a424d58c48f876d029f12f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 48/81] fix: negative pointer increments are read from marked
 assembly

---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index cf15563..c4e3380 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1804,7 +1804,7 @@ class KernelCode(Kernel):
             # use cached maked assembly and extract asm_block and pointer_increment
             with open(marked_filename) as f:
                 marked_asm = f.read()
-            m = re.search(r'pointer_increment=([0-9]+)', marked_asm)
+            m = re.search(r'pointer_increment=(-?[0-9]+)', marked_asm)
             if m:
                 self.pointer_increment = int(m.group(1))
             else:
-- 
2.43.0


From 36df481b19f6264f802d9e602c8e5c6837eec7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 49/81] fix: assembly blocks can be selected by number or
 label, as documented

---
 kerncraft/incore_model.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 41ec72d..6b540ca 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -596,8 +596,8 @@ def asm_instrumentation(
 
     :param input_file: file-like object to read from
     :param output_file: file-like object to write to
-    :param block_selection: label of the assembly block to instrument, or 'auto' for automatically
-                            using block with the
+    :param block_selection: label or number (starting at 0, in order of appearance) of the assembly
+                            block to instrument, or 'auto' for automatically using block with the
                             most vector instructions, or 'manual' to read index to prompt user
     :param pointer_increment: number of bytes the pointer is incremented after the loop or
                               - 'auto': automatic detection, otherwise RuntimeError is raised
@@ -625,9 +625,20 @@ def asm_instrumentation(
             loop_blocks, default=ISA.get_isa(isa).select_best_block(loop_blocks), debug=debug
         )
     elif isinstance(block_selection, int):
+        if not 0 <= block_selection < len(loop_blocks):
+            raise ValueError(
+                "There is no block {}, blocks found are: {}".format(
+                    block_selection,
+                    ", ".join("{} ({})".format(i, l) for i, l in enumerate(loop_blocks)),
+                )
+            )
+        block_label = list(loop_blocks)[block_selection]
+    elif block_selection in loop_blocks:
         block_label = block_selection
     else:
-        raise ValueError("block_selection has to be an integer, 'auto' or 'manual' ")
+        raise ValueError(
+            "block_selection has to be an integer, label of a block, 'auto' or 'manual' "
+        )
     block_lines = loop_blocks[block_label]
     block_hashstr = hashblock(block_lines)
 
-- 
2.43.0


From 6a406bd19664c4d42aaab4250252ccb87b1d5852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 50/81] fix: measurements of other sizes or cores than the
 current ones are measured again

---
 kerncraft/machinemodel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 1fc8d46..ed6efcb 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -292,10 +292,14 @@ class MachineModel(object):
                 if threads_per_core in measurement:
                     for k, v in sizes_dict.items():
                         if k in measurement[threads_per_core]:
-                            if v == sizes_dict[k]:
+                            if v == measurement[threads_per_core][k]:
                                 # Exact compartison matched
                                 continue
-                            for i, j in zip(v, sizes_dict[k]):
+                            if k == 'threads per core' or \
+                                    len(v) != len(measurement[threads_per_core][k]):
+                                needs_update = True
+                                break
+                            for i, j in zip(v, measurement[threads_per_core][k]):
                                 # Fuzzy comparison with relative error tolerance of 1%
                                 if abs(i - j)/min(i, j) >= 0.01:
                                     needs_update = True
-- 
2.43.0


From fd6da046715cd6127d09af0bef3dedfccce7727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 51/81] fix: verbose benchmarking does not stop at the first
 progress message

---
 kerncraft/machinemodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index ed6efcb..f338d6a 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -354,8 +354,6 @@ class MachineModel(object):
 
             # Run actual benchmarks and safe machine file in between
             for mem_level in sorted(list(benchmarks['measurements'].keys())):
-                if verbose > 1:
-                    print('Running for {} with {}kB'.format(mem_level, int(float(total_size) / 1000)), file=sys.stderr)
                 for threads_per_core in sorted(list(benchmarks['measurements'][mem_level].keys())):
                     measurement = benchmarks['measurements'][mem_level][threads_per_core]
                     if overwrite or kernel not in measurement['results'] or \
@@ -370,6 +368,9 @@ class MachineModel(object):
                         if len(measurement['results'][kernel]) > i:
                             # Skip already existing data
                             continue
+                        if verbose > 1:
+                            print('Running for {} with {}kB'.format(
+                                mem_level, int(float(total_size) / 1000)), file=sys.stderr)
                         stats = []
                         for r in range(repetitions):
                             stats.append(measure_bw(
-- 
2.43.0


From 5fd4738827cf94502085a49ea4cb983008fa9d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 52/81] fix: machine descriptions do not share what was read of
 the system

---
 kerncraft/machinemodel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index f338d6a..cd5dfe3 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -193,10 +193,11 @@ class MachineModel(object):
                machine_state=True, cpuinfo_path: str='/proc/cpuinfo'):
         """Update model from readouts and benchmarks on current machine."""
         if readouts:
-            self._data.update(get_machine_readouts(cpuinfo_path=cpuinfo_path))
+            # Copied, because what was read is shared by all instances
+            self._data.update(deepcopy(get_machine_readouts(cpuinfo_path=cpuinfo_path)))
         if memory_hierarchy:
-            self._data.update(get_memory_hierarchy(placeholders=overwrite,
-                                                   cpuinfo_path=cpuinfo_path))
+            self._data.update(deepcopy(get_memory_hierarchy(placeholders=overwrite,
+                                                            cpuinfo_path=cpuinfo_path)))
 
         if benchmarks:
             self._update_benchmarks()
@@ -567,7 +568,6 @@ class MachineModel(object):
         :return: True if it is the same
         """
         current_topology = get_machine_readouts()
-        current_topology.update(get_memory_hierarchy())
         same = True
         for k in ['model type', 'model name', 'sockets', 'cores per socket', 'threads per core',
                   'NUMA domains per socket', 'cores per NUMA domain', 'transparent hugepage']:
-- 
2.43.0


From ae926be98c5b4b785972317c5a8bee4b1773e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 53/81] fix: memory hierarchy is updated without placeholders,
 keeping what the description states

---
 kerncraft/machinemodel.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index cd5dfe3..d4cd93b 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -196,8 +196,18 @@ class MachineModel(object):
             # Copied, because what was read is shared by all instances
             self._data.update(deepcopy(get_machine_readouts(cpuinfo_path=cpuinfo_path)))
         if memory_hierarchy:
-            self._data.update(deepcopy(get_memory_hierarchy(placeholders=overwrite,
-                                                            cpuinfo_path=cpuinfo_path)))
+            current = deepcopy(get_memory_hierarchy(placeholders=overwrite,
+                                                    cpuinfo_path=cpuinfo_path))
+            if not overwrite and isinstance(self._data.get('memory hierarchy'), list):
+                # Keep what is only known from the description
+                known = {mem['level']: mem for mem in self._data['memory hierarchy']}
+                for mem in current['memory hierarchy']:
+                    for k, v in known.get(mem['level'], {}).items():
+                        if k == 'cache per group' and k in mem:
+                            mem[k] = OrderedDict(v, **mem[k])
+                        else:
+                            mem.setdefault(k, v)
+            self._data.update(current)
 
         if benchmarks:
             self._update_benchmarks()
@@ -761,6 +771,8 @@ def get_memory_hierarchy(placeholders=True, cpuinfo_path: str='/proc/cpuinfo'):
                     ('write_allocate', 'INFORMATION_REQUIRED (True/False)'),
                     ('write_back', 'INFORMATION_REQUIRED (True/False)'),
                 ])
+            else:
+                mem_level['cache per group'] = OrderedDict()
             mem_level['cache per group']['load_from'] = 'L' + str(int(mem_level['level'][1:]) + 1)
             mem_level['cache per group']['store_to'] = 'L' + str(int(mem_level['level'][1:]) + 1)
             mem_level['size per group'] = size
@@ -786,16 +798,16 @@ def get_memory_hierarchy(placeholders=True, cpuinfo_path: str='/proc/cpuinfo'):
         ('level', 'MEM'),
         ('cores per group', int(readouts['cores per socket'])),
         ('threads per group', int(readouts['threads per core'] * readouts['cores per socket'])),
-        ('performance counter metrics', {
-                'loads': 'INFORMATION_REQUIRED (e.g., L1D_REPLACEMENT:PMC[0-4])',
-                'stores': 'INFORMATION_REQUIRED (e.g., L1D_WB:PMC[0-4])',})
     ]))
     if placeholders:
+        memory_hierarchy[-1]['performance counter metrics'] = {
+            'loads': 'INFORMATION_REQUIRED (e.g., L1D_REPLACEMENT:PMC[0-4])',
+            'stores': 'INFORMATION_REQUIRED (e.g., L1D_WB:PMC[0-4])'}
         memory_hierarchy[-1]['upstream throughput'] = [
             'full socket memory bandwidth',
             'INFORMATION_REQUIRED (e.g. "half-duplex" or "full-duplex")']
-    memory_hierarchy[-1]['penalty cycles per cacheline load'] = 0
-    memory_hierarchy[-1]['penalty cycles per cacheline store'] = 0
+        memory_hierarchy[-1]['penalty cycles per cacheline load'] = 0
+        memory_hierarchy[-1]['penalty cycles per cacheline store'] = 0
     memory_hierarchy[-1]['size per group'] = None
 
     return {'memory hierarchy': memory_hierarchy}
-- 
2.43.0


From 25c585467ed447bff64103f9e60e5464e3f128f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 54/81] fix: descriptions without some of the compared entries
 can be compared to the current system

---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index d4cd93b..c7f05d9 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -581,7 +581,7 @@ class MachineModel(object):
         same = True
         for k in ['model type', 'model name', 'sockets', 'cores per socket', 'threads per core',
                   'NUMA domains per socket', 'cores per NUMA domain', 'transparent hugepage']:
-            if current_topology[k] != self[k]:
+            if k in self and current_topology[k] != self[k]:
                 if print_diff:
                     print("Expected {!r} and found {!r} for key {!r}.".format(
                         self[k], current_topology[k], k))
-- 
2.43.0


From 5c04f234aa24cbf42ec0fbaadd5d88f631806b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 55/81] fix: --compare-host without --machine is reported as
 such

---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index c7f05d9..6857eb2 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -921,7 +921,7 @@ def main():
 
     if args.compare_host:
         if not args.machine:
-            raise argparse.ArgumentError("--compare-host requires --machine")
+            parser.error("--compare-host requires --machine")
         m = MachineModel(args.machine.name)
         if m.current_system(print_diff=True):
             sys.exit(0)
-- 
2.43.0


From 1c618ea2a2aec1a90881f3759f4e1bbb70666d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 56/81] fix: benchmarks of machine models without file are not
 interrupted by saving them

---
 kerncraft/machinemodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 6857eb2..fe8179f 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -396,7 +396,8 @@ class MachineModel(object):
                         measurement['results'][kernel].append(copy(max(stats)))
                         measurement['stats'][kernel].append(stats)
 
-                        self.dump()
+                        if self._path:
+                            self.dump()
 
                         if not verbose:
                             print('.', end='', file=sys.stderr)
-- 
2.43.0


From 3250b78526d60d5bfbf00986e774049860039e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 57/81] fix: machine files can be continued in place

---
 kerncraft/machinemodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index fe8179f..ccf52e6 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -913,7 +913,8 @@ def main():
     parser.add_argument('--compare-host', action='store_true',
                         help='Compares machine file (require --machine) with current hosts and '
                               'reports if system differs in a configuration.')
-    parser.add_argument('output_file', metavar='FILE', type=argparse.FileType('w'), default='-',
+    # Opened for appending, because it may be the file passed to --machine
+    parser.add_argument('output_file', metavar='FILE', type=argparse.FileType('a'), default='-',
                         help='File to save new machine description to.')
 
     parser.set_defaults(readouts=True, memory_hierarchy=True, benchmarks=True, overwrite=True)
-- 
2.43.0


From 73fce430c12a56e9246e40cddf272bb84091b91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 58/81] fix: new machine descriptions are printed if FILE is -

---
 kerncraft/machinemodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index ccf52e6..9a8a5d7 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -935,7 +935,8 @@ def main():
     else:
         m = MachineModel(args=args)
 
-    m.set_path(args.output_file.name)
+    to_stdout = args.output_file is sys.stdout
+    m.set_path(None if to_stdout else args.output_file.name)
 
     try:
         m.update(readouts=args.readouts, memory_hierarchy=args.memory_hierarchy,
@@ -943,7 +944,7 @@ def main():
     except KeyboardInterrupt:
         print("Incomplete machine file was written. Continue by providing it via -m argument.")
     
-    m.dump()
+    m.dump(sys.stdout if to_stdout else None)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 3ff1c7fb6a6a40f88c391f5cdef5beb358b2c787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 59/81] fix: merged memory hierarchies end where the reported
 one ends

---
 kerncraft/machinemodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 9a8a5d7..f0405b3 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -204,7 +204,9 @@ class MachineModel(object):
                 for mem in current['memory hierarchy']:
                     for k, v in known.get(mem['level'], {}).items():
                         if k == 'cache per group' and k in mem:
-                            mem[k] = OrderedDict(v, **mem[k])
+                            chain = ('load_from', 'store_to')
+                            mem[k] = OrderedDict(((x, y) for x, y in v.items() if x not in chain),
+                                                 **mem[k])
                         else:
                             mem.setdefault(k, v)
             self._data.update(current)
-- 
2.43.0


From 72083fdaafec46f98fbf87797944c116df24d828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 60/81] fix: counts of one event from several runs are all kept

---
 kerncraft/models/benchmark.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index edf7c5e..b2d12e1 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -439,7 +439,10 @@ class Benchmark(PerformanceModel):
                 ctrs = ','.join([eventstr(e) for e in run])
                 r = self.perfctr([bench_filename] + [str(repetitions)] + args, group=ctrs)
                 raw_results.append(r)
-                measured_ctrs.update(r)
+                for name, value in r.items():
+                    if isinstance(value, dict):
+                        # An event may be measured on several registers, in several runs
+                        measured_ctrs.setdefault(name, {}).update(value)
             bench_lock_fp.close()
             # Match measured counters to symbols
             event_counter_results = {}
-- 
2.43.0


From a976c2c5a0021193f4b259796b4f7adfd3f51a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 61/81] fix: counts of events with options without value are
 not dropped

---
 kerncraft/models/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index b2d12e1..9341dbd 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -258,7 +258,7 @@ def perfctr(cmd, cores, group='MEM', code_markers=True, verbose=0):
             else:
                 counter_value = int(line[2])
             if re.fullmatch(r'[A-Z0-9_]+', line[0]) and \
-                    re.fullmatch(r'[A-Z0-9]+(:[A-Z0-9]+=[0-9a-fA-Fx]+)*', line[1]):
+                    re.fullmatch(r'[A-Z0-9]+(:[A-Z0-9_]+(=[0-9a-fA-Fx]+)?)*', line[1]):
                 results.setdefault(line[0], {})
                 results[line[0]][line[1]] = counter_value
                 continue
-- 
2.43.0


From e8d39ad97e51623bed7e713734c0490428c41bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 62/81] fix: iterations of loops with incomplete last steps are
 counted as executed

---
 kerncraft/models/benchmark.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 9341dbd..8ff5061 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -2,8 +2,6 @@
 """Benchmark model and helper functions."""
 import os
 import subprocess
-from functools import reduce
-import operator
 import sys
 from distutils.spawn import find_executable
 import re
@@ -398,11 +396,7 @@ class Benchmark(PerformanceModel):
 
         # Base metrics for further metric computations:
         # An iteration is equal to one high-level code inner-most-loop iteration
-        iterations_per_repetition = reduce(
-            operator.mul,
-            [self.kernel.subs_consts(max_ - min_) / self.kernel.subs_consts(step)
-             for idx, min_, max_, step in self.kernel._loop_stack],
-            1)
+        iterations_per_repetition = self.kernel.iteration_length()
         iterations_per_cacheline = (float(self.machine['cacheline size']) /
                                     self.kernel.bytes_per_iteration)
         cys_per_repetition = time_per_repetition * float(self.machine['clock'])
-- 
2.43.0


From b66a04d496fa9d15d8d9359fcd1ee921482e80e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 63/81] fix: stores are not given as loads

---
 kerncraft/models/benchmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 8ff5061..fbbc1cb 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -465,7 +465,7 @@ class Benchmark(PerformanceModel):
                                             for k, v in d.items()}
                                     for cache, d in cache_metric_results.items()}
             cache_transfers_per_cl['L1']['loads'].unit = 'LOAD/CL'
-            cache_transfers_per_cl['L1']['stores'].unit = 'LOAD/CL'
+            cache_transfers_per_cl['L1']['stores'].unit = 'STORE/CL'
 
             # Select appropriate bandwidth
             mem_bw, mem_bw_kernel = self.machine.get_bandwidth(
-- 
2.43.0


From e4852b802a022bea2361d88f088c284b29985fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 64/81] fix: benchmarks start with --iterations and end for all
 runtimes

---
 kerncraft/models/benchmark.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index fbbc1cb..86a7fad 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -10,6 +10,7 @@ import string
 import pprint
 import contextlib
 import itertools
+import math
 
 from kerncraft.prefixedunit import PrefixedUnit
 from .base import PerformanceModel
@@ -367,10 +368,10 @@ class Benchmark(PerformanceModel):
         # Build arguments to pass to command:
         args = [str(s) for s in list(self.kernel.constants.values())]
 
-        # Determine base runtime with 10 iterations
+        # Determine base runtime, starting with the requested number of iterations
         runtime = 0.0
-        time_per_repetition = 2.0 / 10.0
-        repetitions = self.iterations // 10
+        time_per_repetition = 0.0
+        repetitions = self.iterations
         results = {}
 
         # TODO if cores > 1, results are for openmp run. Things might need to be changed here!
@@ -383,11 +384,11 @@ class Benchmark(PerformanceModel):
             group = valid_groups[0]
 
         while runtime < 1.5:
-            # Interpolate to a 2.0s run
+            # Interpolate to a 2.0s run (rounded up, to not end up with the same short run again)
             if time_per_repetition != 0.0:
-                repetitions = 2.0 // time_per_repetition
-            else:
-                repetitions = int(repetitions * 10)
+                repetitions = math.ceil(2.0 / time_per_repetition)
+            elif results:
+                repetitions = repetitions * 10
 
             results = self.perfctr([bench_filename] + [str(repetitions)] + args, group=group)
             runtime = results['Runtime (RDTSC) [s]']
-- 
2.43.0


From 4c4f9ce448b919e510796a65f702edc24d57fa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 65/81] fix: all of a benchmark report goes to its output file

---
 kerncraft/models/benchmark.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 86a7fad..3fef9f6 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -531,7 +531,7 @@ class Benchmark(PerformanceModel):
         """Report gathered analysis data in human readable form."""
         if self.verbose > 1:
             with pprint_nosort():
-                pprint.pprint(self.results)
+                pprint.pprint(self.results, stream=output_file)
 
         if self.verbose > 0:
             print('Runtime (per repetition): {:.2g} s'.format(
@@ -559,19 +559,19 @@ class Benchmark(PerformanceModel):
         print('', file=output_file)
 
         if not self.no_phenoecm:
-            print("Data Transfers:")
-            print("{:^8} |".format("cache"), end='')
+            print("Data Transfers:", file=output_file)
+            print("{:^8} |".format("cache"), end='', file=output_file)
             metric_names = ['loads', 'misses', 'stores', 'evicts']
             for mn in metric_names:
-                print(" {:^14}".format(mn), end='')
-            print()
+                print(" {:^14}".format(mn), end='', file=output_file)
+            print(file=output_file)
             for cache, metrics in sorted(self.results['data transfers'].items()):
-                print("{!s:^8} |".format(cache), end='')
+                print("{!s:^8} |".format(cache), end='', file=output_file)
                 for mn in metric_names:
                     v = metrics.get(mn, '-')
-                    print(" {!s:^14}".format(v), end='')
-                print()
-            print()
+                    print(" {!s:^14}".format(v), end='', file=output_file)
+                print(file=output_file)
+            print(file=output_file)
 
             print('Phenomenological ECM model: {{ {T_OL:.1f} || {T_nOL:.1f} | {T_L1L2:.1f} | '
                   '{T_L2L3:.1f} | {T_MEM:.1f} }} cy/CL'.format(
-- 
2.43.0


From e87eb67453a56303869ba052f2d38316e1dedd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 66/81] fix: benchmark model without command line arguments

---
 kerncraft/models/benchmark.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 3fef9f6..f183e51 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -288,7 +288,8 @@ class Benchmark(PerformanceModel):
             '--ignore-warnings', action='store_true',
             help='Ignore warnings about missmatched CPU model and frequency.')
 
-    def __init__(self, kernel, machine, args=None, parser=None, no_phenoecm=False, verbose=0):
+    def __init__(self, kernel, machine, args=None, parser=None, no_phenoecm=False, verbose=0,
+                 cores=1, iterations=10, ignore_warnings=False):
         """
         Create Benchmark model from kernel and machine objects.
 
@@ -296,7 +297,8 @@ class Benchmark(PerformanceModel):
         *machine* describes the machine (cpu, cache and memory) characteristics
         *args* (optional) are the parsed arguments from the command line
 
-        If *args* is None, *no_phenoecm* and *verbose* are used.
+        If *args* is None, *no_phenoecm*, *verbose*, *cores*, *iterations* and *ignore_warnings* are
+        used.
         """
         self.kernel = kernel
         self.machine = machine
@@ -308,12 +310,16 @@ class Benchmark(PerformanceModel):
             self.no_phenoecm = args.no_phenoecm
             self.verbose = args.verbose
             self.iterations = args.iterations
+            self.cores = args.cores
+            self.ignore_warnings = args.ignore_warnings
         else:
             self.no_phenoecm = no_phenoecm
             self.verbose = verbose
-            self.iterations = 10
+            self.iterations = iterations
+            self.cores = cores
+            self.ignore_warnings = ignore_warnings
 
-        if self._args.cores > 1 and not self.no_phenoecm:
+        if self.cores > 1 and not self.no_phenoecm:
             print("Info: phenological ECM model can only be created with a single core benchmark.",
                   file=sys.stderr)
             self.no_phenoecm = True
@@ -329,7 +335,7 @@ class Benchmark(PerformanceModel):
 
         if not self.machine.current_system(print_diff=True):
             print("WARNING: current machine and machine description do not match.")
-            if not args.ignore_warnings:
+            if not self.ignore_warnings:
                 print("You may ignore warnings by adding --ignore-warnings to the command line.")
                 sys.exit(1)
 
@@ -342,7 +348,7 @@ class Benchmark(PerformanceModel):
         if CLI argument cores > 1, running with multi-core, otherwise single-core
         """
         results = perfctr(
-            cmd=cmd, cores=self._args.cores, group=group, code_markers=code_markers,
+            cmd=cmd, cores=self.cores, group=group, code_markers=code_markers,
             verbose=self.verbose)
 
         # Check that frequency during measurement matches machine description
@@ -353,7 +359,7 @@ class Benchmark(PerformanceModel):
                 print("WARNING: measured CPU frequency and machine description did "
                       "not match during likwid-perfctr run. ({!r} vs {!r})".format(
                     expected_clock, current_clock))
-                if not self._args.ignore_warnings:
+                if not self.ignore_warnings:
                     print("You may ignore warnings by adding --ignore-warnings to the command line.")
                     sys.exit(1)
 
@@ -362,7 +368,7 @@ class Benchmark(PerformanceModel):
     def analyze(self):
         """Run analysis."""
         bench_filename, bench_lock_fp = self.kernel.build_executable(
-            verbose=self.verbose > 1, openmp=self._args.cores > 1)
+            verbose=self.verbose > 1, openmp=self.cores > 1)
         element_size = self.kernel.datatypes_size[self.kernel.datatype]
 
         # Build arguments to pass to command:
-- 
2.43.0


From ec42a94103cf3e841941cb3935c55c7c75724357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 67/81] fix: phenomenological ECM model is disabled if any of
 its metrics is missing

---
 kerncraft/models/benchmark.py | 59 +++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index f183e51..b297115 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -323,9 +323,7 @@ class Benchmark(PerformanceModel):
             print("Info: phenological ECM model can only be created with a single core benchmark.",
                   file=sys.stderr)
             self.no_phenoecm = True
-        elif "INFORAMTION_REQUIRED" in ''.join(
-                [self.machine['overlapping model']['performance counter metric'],
-                 self.machine['non-overlapping model']['performance counter metric']]):
+        elif not self.no_phenoecm and self._incomplete_metrics():
             print("Info: disabled phenological ECM model, because definition is incomplete.",
                   file=sys.stderr)
             self.no_phenoecm = True
@@ -339,6 +337,24 @@ class Benchmark(PerformanceModel):
                 print("You may ignore warnings by adding --ignore-warnings to the command line.")
                 sys.exit(1)
 
+    @staticmethod
+    def _known_metric(metric):
+        # Machine files used either spelling
+        return metric is not None and not str(metric).startswith(
+            ('INFORMATION_REQUIRED', 'INFORAMTION_REQUIRED'))
+
+    def _incomplete_metrics(self):
+        """Return True if the machine lacks a metric required by the phenomenological ECM model."""
+        metrics = [self.machine[m].get('performance counter metric')
+                   for m in ('overlapping model', 'non-overlapping model')]
+        levels = {c['level']: c.get('performance counter metrics') or {}
+                  for c in self.machine['memory hierarchy']}
+        for level, names in [('L1', ['loads', 'stores']), ('L2', ['loads', 'stores']),
+                             ('L3', ['loads', 'stores', 'misses', 'evicts']),
+                             ('MEM', ['loads', 'stores'])]:
+            metrics += [levels.get(level, {}).get(n) for n in names]
+        return not all(self._known_metric(m) for m in metrics)
+
     def perfctr(self, cmd, group='MEM', code_markers=True):
         """
         Run *cmd* with likwid-perfctr and returns result as dict.
@@ -408,23 +424,26 @@ class Benchmark(PerformanceModel):
                                     self.kernel.bytes_per_iteration)
         cys_per_repetition = time_per_repetition * float(self.machine['clock'])
 
-        try:
-            # Build events and sympy expressions for all model metrics
-            T_OL, event_counters = self.machine.parse_perfmetric(
-                self.machine['overlapping model']['performance counter metric'])
-            T_data, event_dict = self.machine.parse_perfmetric(
-                self.machine['non-overlapping model']['performance counter metric'])
-            event_counters.update(event_dict)
-            cache_metrics = defaultdict(dict)
-            for i, cache_info in enumerate(self.machine['memory hierarchy']):
-                name = cache_info['level']
-                for k, v in cache_info['performance counter metrics'].items():
-                    cache_metrics[name][k], event_dict = self.machine.parse_perfmetric(str(v))
-                    event_counters.update(event_dict)
-        except SyntaxError as e:
-            print('Disabled Phenomenological ECM, due to syntax error in machine file '
-                    'metrics:', e, file=sys.stderr)
-            self.no_phenoecm = True
+        if not self.no_phenoecm:
+            try:
+                # Build events and sympy expressions for all model metrics
+                T_OL, event_counters = self.machine.parse_perfmetric(
+                    self.machine['overlapping model']['performance counter metric'])
+                T_data, event_dict = self.machine.parse_perfmetric(
+                    self.machine['non-overlapping model']['performance counter metric'])
+                event_counters.update(event_dict)
+                cache_metrics = defaultdict(dict)
+                for i, cache_info in enumerate(self.machine['memory hierarchy']):
+                    name = cache_info['level']
+                    for k, v in (cache_info.get('performance counter metrics') or {}).items():
+                        if not self._known_metric(v):
+                            continue
+                        cache_metrics[name][k], event_dict = self.machine.parse_perfmetric(str(v))
+                        event_counters.update(event_dict)
+            except SyntaxError as e:
+                print('Disabled Phenomenological ECM, due to syntax error in machine file '
+                        'metrics:', e, file=sys.stderr)
+                self.no_phenoecm = True
 
         # Gather remaining counters
         if self.no_phenoecm:
-- 
2.43.0


From eae6b0f88d2daa945f726bccff97cfc0a08e235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 68/81] fix: LLVM-MCA analyses of marked assembly

---
 kerncraft/incore_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 6b540ca..af4a72c 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -788,8 +788,10 @@ def llvm_mca_analyse_instrumented_assembly(
     """
     result = {}
     with open(instrumented_assembly_file) as f:
-        parsed_code = parse_asm(f.read(), isa, micro_architecture)
-    kernel = osaca.reduce_to_section(parsed_code, isa)
+        code = f.read()
+    # only used to find the marked section, micro_architecture is not known to OSACA
+    parser = get_parser(isa, syntax=detect_x86_syntax(code) if isa.lower() == "x86" else "")
+    kernel = osaca.reduce_to_section(parser.parse_file(code), parser)
     assembly_section = "\n".join([l.line for l in kernel])
 
     output = subprocess.check_output(
-- 
2.43.0


From 4bc3fe270ecde0d443c5900ac2f955a7361eeea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 69/81] fix: critical paths over 1000 cycles are not cut off

---
 kerncraft/incore_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index af4a72c..26e59dd 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -797,7 +797,7 @@ def llvm_mca_analyse_instrumented_assembly(
     output = subprocess.check_output(
         ["llvm-mca"]
         + micro_architecture.split(" ")
-        + ["--timeline", "--timeline-max-cycles=1000", "--timeline-max-iterations=4"],
+        + ["--timeline", "--timeline-max-cycles=0", "--timeline-max-iterations=4"],
         input=assembly_section.encode("utf-8"),
     ).decode("utf-8")
     result["output"] = output
-- 
2.43.0


From 773ef6d902f7c8df2f335de24881ab42e6067cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 70/81] fix: stand-alone benchmarks are reported to the
 requested file

---
 kerncraft/models/standalone_benchmark.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 2e5c3c0..1180d9c 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -450,11 +450,11 @@ class StandaloneBenchmark(PerformanceModel):
 
         for region in self.kernel.regions:
 
-            print('\nResults for region \'{}\'\n'.format(region))
+            print('\nResults for region \'{}\'\n'.format(region), file=output_file)
 
             if self.verbose > 1:
                 with pprint_nosort():
-                    pprint.pprint(self.results[region])
+                    pprint.pprint(self.results[region], stream=output_file)
 
             if self.verbose > 0:
                 print('Runtime (per repetition): {:.2g} s'.format(
@@ -484,19 +484,19 @@ class StandaloneBenchmark(PerformanceModel):
             print(file=output_file)
 
             if not self.no_phenoecm:
-                print("Data Transfers:")
-                print("{:^8} |".format("cache"), end='')
+                print("Data Transfers:", file=output_file)
+                print("{:^8} |".format("cache"), end='', file=output_file)
                 for metrics in self.results[region]['data transfers'].values():
                     for metric_name in sorted(metrics):
-                        print(" {:^14}".format(metric_name), end='')
-                    print()
+                        print(" {:^14}".format(metric_name), end='', file=output_file)
+                    print(file=output_file)
                     break
                 for cache, metrics in sorted(self.results[region]['data transfers'].items()):
-                    print("{!s:^8} |".format(cache), end='')
+                    print("{!s:^8} |".format(cache), end='', file=output_file)
                     for k, v in sorted(metrics.items()):
-                        print(" {!s:^14}".format(v), end='')
-                    print()
-                print()
+                        print(" {!s:^14}".format(v), end='', file=output_file)
+                    print(file=output_file)
+                print(file=output_file)
 
                 print('Phenomenological ECM model: {{ {T_OL:.1f} || {T_nOL:.1f} | {T_L1L2:.1f} | '
                       '{T_L2L3:.1f} | {T_L3MEM:.1f} }} cy/CL'.format(
-- 
2.43.0


From c3f230e3a0e83a1ccbe2b5ef898f624b7ac952ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 71/81] fix: stand-alone benchmarks find events with options

---
 kerncraft/models/standalone_benchmark.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 1180d9c..184f4ec 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -143,7 +143,8 @@ class StandaloneBenchmark(PerformanceModel):
                     counter_value = 0
                 else:
                     counter_value = int(line[2])
-                if re.fullmatch(r'[A-Z0-9_]+', line[0]) and re.fullmatch(r'[A-Z0-9]+', line[1]):
+                if re.fullmatch(r'[A-Z0-9_]+', line[0]) and \
+                        re.fullmatch(r'[A-Z0-9]+(:[A-Z0-9_]+(=[0-9a-fA-Fx]+)?)*', line[1]):
                     results[current_region].setdefault(line[0], {})
                     results[current_region][line[0]][line[1]] = counter_value
                     continue
@@ -361,7 +362,10 @@ class StandaloneBenchmark(PerformanceModel):
                 # Match measured counters to symbols
                 event_counter_results = {}
                 for sym, ctr in event_counters.items():
-                    event, regs, parameter = ctr[0], register_options(ctr[1]), ctr[2]
+                    event, regs, parameters = ctr[0], register_options(ctr[1]), ctr[2]
+                    if parameters:
+                        parameter_str = ':'.join(parameters)
+                        regs = [r+':'+parameter_str for r in regs]
                     for r in regs:
                         if r in measured_ctrs[region][event]:
                             event_counter_results[sym] = measured_ctrs[region][event][r]
-- 
2.43.0


From 0c853603d9879a6b68f03bf91b5b8f65a4dac1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 72/81] fix: stand-alone benchmarks keep events of all runs

---
 kerncraft/models/standalone_benchmark.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 184f4ec..6114e46 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -342,7 +342,10 @@ class StandaloneBenchmark(PerformanceModel):
                 raw_results_collection.append(r)
 
                 for region in self.kernel.regions:
-                    measured_ctrs[region].update(r[region])
+                    for name, value in r[region].items():
+                        if isinstance(value, dict):
+                            # An event may be measured on several registers, in several runs
+                            measured_ctrs[region].setdefault(name, {}).update(value)
 
 
         # start analysing for each region
-- 
2.43.0


From 1c30cc031e688962e5b8a3cc00701ee6ea7ea689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 73/81] fix: stand-alone benchmarks use the metrics which
 machine files have

---
 kerncraft/models/standalone_benchmark.py | 48 ++++++++++++++----------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 6114e46..a08fd16 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -17,7 +17,7 @@ from math import ceil
 from kerncraft.prefixedunit import PrefixedUnit
 from .base import PerformanceModel
 
-from .benchmark import sympy_safe_key, pprint_nosort, fix_env_variable, group_iterator, \
+from .benchmark import Benchmark, sympy_safe_key, pprint_nosort, fix_env_variable, group_iterator, \
     register_options, eventstr, build_minimal_runs, get_supported_likwid_groups
 
 
@@ -28,6 +28,10 @@ class StandaloneBenchmark(PerformanceModel):
 
     default_region = ''
 
+    # Requirements of the phenomenological ECM model do not differ
+    _known_metric = staticmethod(Benchmark._known_metric)
+    _incomplete_metrics = Benchmark._incomplete_metrics
+
     @classmethod
     def configure_arggroup(cls, parser):
         """Configure argument parser."""
@@ -68,6 +72,10 @@ class StandaloneBenchmark(PerformanceModel):
         if self._args.cores > 1 and not self.no_phenoecm:
             print("Info: phenological ECM model can only be created with a single core benchmark.")
             self.no_phenoecm = True
+        elif not self.no_phenoecm and self._incomplete_metrics():
+            print("Info: disabled phenological ECM model, because definition is incomplete.",
+                  file=sys.stderr)
+            self.no_phenoecm = True
         elif not self.no_phenoecm:
             print("Info: If this takes too long and a phenological ECM model is not required, run "
                   "with --no-phenoecm.", file=sys.stderr)
@@ -322,11 +330,12 @@ class StandaloneBenchmark(PerformanceModel):
                 self.machine['non-overlapping model']['performance counter metric'])
             event_counters.update(event_dict)
             cache_metrics = defaultdict(dict)
-            for i in range(len(self.machine['memory hierarchy']) - 1):
-                cache_info = self.machine['memory hierarchy'][i]
+            for cache_info in self.machine['memory hierarchy']:
                 name = cache_info['level']
-                for k, v in cache_info['performance counter metrics'].items():
-                    cache_metrics[name][k], event_dict = self.machine.parse_perfmetric(v)
+                for k, v in (cache_info.get('performance counter metrics') or {}).items():
+                    if not self._known_metric(v):
+                        continue
+                    cache_metrics[name][k], event_dict = self.machine.parse_perfmetric(str(v))
                     event_counters.update(event_dict)
 
             # Compile minimal runs to gather all required events
@@ -388,7 +397,8 @@ class StandaloneBenchmark(PerformanceModel):
                 cache_transfers_per_cl = {cache: {k: PrefixedUnit(v / total_cachelines, 'CL/CL')
                                                   for k, v in d.items()}
                                           for cache, d in cache_metric_results.items()}
-                cache_transfers_per_cl['L1']['accesses'].unit = 'LOAD/CL'
+                cache_transfers_per_cl['L1']['loads'].unit = 'LOAD/CL'
+                cache_transfers_per_cl['L1']['stores'].unit = 'STORE/CL'
 
                 # Select appropriate bandwidth
                 mem_bw, mem_bw_kernel = self.machine.get_bandwidth(
@@ -399,17 +409,17 @@ class StandaloneBenchmark(PerformanceModel):
 
                 data_transfers = {
                     # Assuming 0.5 cy / LOAD (SSE on SNB or IVB; AVX on HSW, BDW, SKL or SKX)
-                    'T_nOL': (cache_metric_results['L1']['accesses'] / total_cachelines * 0.5),
-                    'T_L1L2': ((cache_metric_results['L1']['misses'] +
-                                cache_metric_results['L1']['evicts']) /
+                    'T_nOL': (cache_metric_results['L1']['loads'] / total_cachelines * 0.5),
+                    'T_L1L2': ((cache_metric_results['L2']['loads'] +
+                                cache_metric_results['L2']['stores']) /
                                total_cachelines * cl_size /
                                self.machine['memory hierarchy'][1]['upstream throughput'][0]),
-                    'T_L2L3': ((cache_metric_results['L2']['misses'] +
-                                cache_metric_results['L2']['evicts']) /
+                    'T_L2L3': ((cache_metric_results['L3']['loads'] +
+                                cache_metric_results['L3']['stores']) /
                                total_cachelines * cl_size /
                                self.machine['memory hierarchy'][2]['upstream throughput'][0]),
-                    'T_L3MEM': ((cache_metric_results['L3']['misses'] +
-                                 cache_metric_results['L3']['evicts']) *
+                    'T_L3MEM': ((cache_metric_results['MEM']['loads'] +
+                                 cache_metric_results['MEM']['stores']) *
                                 float(self.machine['cacheline size']) /
                                 total_cachelines / mem_bw *
                                 float(self.machine['clock']))
@@ -493,14 +503,14 @@ class StandaloneBenchmark(PerformanceModel):
             if not self.no_phenoecm:
                 print("Data Transfers:", file=output_file)
                 print("{:^8} |".format("cache"), end='', file=output_file)
-                for metrics in self.results[region]['data transfers'].values():
-                    for metric_name in sorted(metrics):
-                        print(" {:^14}".format(metric_name), end='', file=output_file)
-                    print(file=output_file)
-                    break
+                metric_names = ['loads', 'misses', 'stores', 'evicts']
+                for metric_name in metric_names:
+                    print(" {:^14}".format(metric_name), end='', file=output_file)
+                print(file=output_file)
                 for cache, metrics in sorted(self.results[region]['data transfers'].items()):
                     print("{!s:^8} |".format(cache), end='', file=output_file)
-                    for k, v in sorted(metrics.items()):
+                    for metric_name in metric_names:
+                        v = metrics.get(metric_name, '-')
                         print(" {!s:^14}".format(v), end='', file=output_file)
                     print(file=output_file)
                 print(file=output_file)
-- 
2.43.0


From da211ef74244c287a72fc78521c14035e6937509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 74/81] fix: loops of all regions follow their variable

---
 kerncraft/models/standalone_benchmark.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index a08fd16..e0c2c03 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -192,11 +192,12 @@ class StandaloneBenchmark(PerformanceModel):
         The first variables defined will be adjusted first.
         """
 
-        def adjust_loop(varname, region):
-            for i in range(len(self.kernel.loops[region])):
-                if self.kernel.loops[region][i]['variable'] == varname:
-                    self.kernel.loops[region][i]['end'] = self.kernel.define[varname]['value'] - \
-                        self.kernel.loops[region][i]['offset']
+        def adjust_loops(varname):
+            # Other regions are run with the new value as well
+            for loops in self.kernel.loops.values():
+                for loop in loops:
+                    if loop['variable'] == varname:
+                        loop['end'] = self.kernel.define[varname]['value'] - loop['offset']
 
         adjustable = False
 
@@ -215,14 +216,14 @@ class StandaloneBenchmark(PerformanceModel):
                         self.kernel.define[name]['value'] = min(variable['value'] * factor,
                                                                 variable['stop'])
                         self.kernel.set_constant(name, self.kernel.define[name]['value'])
-                        adjust_loop(name, region)
+                        adjust_loops(name)
                         adjustable = True
                         break
                     elif variable['scale'] == 'log' and variable['value'] > variable['stop']:
                         self.kernel.define[name]['value'] = max(
                             variable['value'] * (10 ** (-factor)),variable['stop'])
                         self.kernel.set_constant(name, self.kernel.define[name]['value'])
-                        adjust_loop(name, region)
+                        adjust_loops(name)
                         adjustable = True
                         break
 
-- 
2.43.0


From 3eff6dec5be298bf7f7e156295b780f540f0305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 75/81] fix: stand-alone benchmarks end for all runtimes and
 variables

---
 kerncraft/models/standalone_benchmark.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index e0c2c03..8a8ad41 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -211,9 +211,10 @@ class StandaloneBenchmark(PerformanceModel):
         for region in regions:
             for name, variable in self.kernel.define.items():
                 if variable['adjustable'] and region in variable['region']:
-                    factor = ceil(2.0 / runtimes[region])
+                    # runtimes may be too short to be measured
+                    factor = ceil(2.0 / runtimes[region]) if runtimes[region] else 10
                     if variable['scale'] == 'lin' and variable['value'] < variable['stop']:
-                        self.kernel.define[name]['value'] = min(variable['value'] * factor,
+                        self.kernel.define[name]['value'] = min(max(variable['value'], 1) * factor,
                                                                 variable['stop'])
                         self.kernel.set_constant(name, self.kernel.define[name]['value'])
                         adjust_loops(name)
@@ -257,7 +258,8 @@ class StandaloneBenchmark(PerformanceModel):
 
         while min(runtimes.values()) < 1.5:
 
-            if min(runtimes.values()) == 0.0:
+            if not results:
+                # first run
                 adjustable = True
             else:
                 adjustable = self.adjust_variables(runtimes)
-- 
2.43.0


From e40335c3dd795ea7beba5c0e20ae57dc80d81364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 76/81] fix: incomplete last steps of stand-alone loops are
 counted as executed

---
 kerncraft/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index c4e3380..579f634 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -23,7 +23,7 @@ from contextlib import contextmanager
 import fcntl
 import hashlib
 
-from math import floor
+from math import ceil
 
 import sympy
 from sympy.utilities.lambdify import implemented_function
@@ -2112,7 +2112,7 @@ class BinaryDescription(Kernel):
 
         for loop in self.loops[region]:
             iterations_per_repetition = \
-                iterations_per_repetition * floor((loop['end'] - loop['start']) / loop['step'])
+                iterations_per_repetition * ceil((loop['end'] - loop['start']) / loop['step'])
 
         return iterations_per_repetition
 
-- 
2.43.0


From 94fcb3e3ba60672cc68cdf83d04ac9e66d0d89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 77/81] fix: stand-alone benchmarks are called with integers,
 where given

---
 kerncraft/standalone_pheno.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/kerncraft/standalone_pheno.py b/kerncraft/standalone_pheno.py
index 7dd6db5..ea20900 100644
--- a/kerncraft/standalone_pheno.py
+++ b/kerncraft/standalone_pheno.py
@@ -20,6 +20,14 @@ from .kernel import BinaryDescription, symbol_pos_int
 from .machinemodel import MachineModel
 
 
+def number(text):
+    """Return *text* as integer, if it is one, otherwise as float."""
+    try:
+        return int(text)
+    except ValueError:
+        return float(text)
+
+
 class AppendStringRange(argparse.Action):
     """
     Argparse Action to append integer range from string.
@@ -55,7 +63,7 @@ class AppendStringRange(argparse.Action):
                     regions = gd['region'].split(',') if gd['region'] is not None else ['']
                     variables['region'] = regions
 
-                    start = float(gd['start_var'])
+                    start = number(gd['start_var'])
                     variables['start'] = start
                     variables['value'] = start
 
@@ -63,7 +71,7 @@ class AppendStringRange(argparse.Action):
                         variables['adjustable'] = False
                     else:
                         variables['adjustable'] = True
-                        stop = float(gd['stop_var'])
+                        stop = number(gd['stop_var'])
                         variables['stop'] = stop
 
                         if gd['scale_var'] is None:
-- 
2.43.0


From 4c21d97a445ad4bd8c3994ded5811b69b1dabbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 78/81] fix: malformed stand-alone arguments are refused
 instead of cut off

---
 kerncraft/standalone_pheno.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/kerncraft/standalone_pheno.py b/kerncraft/standalone_pheno.py
index ea20900..d307af2 100644
--- a/kerncraft/standalone_pheno.py
+++ b/kerncraft/standalone_pheno.py
@@ -49,10 +49,10 @@ class AppendStringRange(argparse.Action):
             message = 'requires 2 arguments'
         else:
             # optional: likwid region(s) for which this variable is specified
-            m = re.match(r'(?:(?P<region>(\D\w*,)*\D\w*):)?' 
-                         r'(?:(?P<start_var>[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?)?:?)'
-                         r'(?:(?P<stop_var>[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?)?\:?)?'
-                         r'(?:(?P<scale_var>log|lin)?)?', values[1])
+            m = re.fullmatch(r'(?:(?P<region>(\D\w*,)*\D\w*):)?'
+                             r'(?:(?P<start_var>[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?):?)'
+                             r'(?:(?P<stop_var>[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?)?\:?)?'
+                             r'(?:(?P<scale_var>log|lin)?)?', values[1])
 
             if m:
                 gd = m.groupdict()
@@ -111,17 +111,17 @@ class AppendLoopRange(argparse.Action):
         message = ''
 
         # optional: likwid region(s) for which this loop range is specified
-        m = re.match(r'(?:(?P<region>(\D\w*,)*\D\w*):)?'
-                     # lower bound of loop
-                     r'(?P<start>\d+\.?\d*):'
-                     # optional: step size
-                     r'((?P<step>\d+\.?\d*):)?'
-                     # upper bound of loop
-                     r'(?P<end>\d+\.?\d*)'
-                     # optional: variable that is responsible for the loop length this is needed,
-                     # when an adjustable variable controls the upper bound of a loop
-                     r'(:(?P<variable>\D\S*))?', 
-                     values, flags=re.VERBOSE)
+        m = re.fullmatch(r'(?:(?P<region>(\D\w*,)*\D\w*):)?'
+                         # lower bound of loop
+                         r'(?P<start>\d+):'
+                         # optional: step size
+                         r'((?P<step>\d+):)?'
+                         # upper bound of loop
+                         r'(?P<end>\d+)'
+                         # optional: variable that is responsible for the loop length this is
+                         # needed, when an adjustable variable controls the upper bound of a loop
+                         r'(:(?P<variable>\D\S*))?',
+                         values)
         if m:
             gd = m.groupdict()
 
-- 
2.43.0


From 1af4b9f95b6ccffa6155ed7019351d80d6846c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 79/81] fix: warnings of stand-alone analyses go to the
 requested file

---
 kerncraft/standalone_pheno.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/standalone_pheno.py b/kerncraft/standalone_pheno.py
index d307af2..7d90e12 100644
--- a/kerncraft/standalone_pheno.py
+++ b/kerncraft/standalone_pheno.py
@@ -367,7 +367,7 @@ def run(parser, args, output_file = sys.stdout):
     # set up benchmark
     model = StandaloneBenchmark(kernel, machine, args, parser)
 
-    model.analyze()
+    model.analyze(output_file=output_file)
 
     # print header
     print('\n\n{:^80}'.format(' stand-alone kerncraft benchmark '), file=output_file)
-- 
2.43.0


From f3b26f396c86076df39b1d92862005acbaad24bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 80/81] fix: unreadable metrics do not end stand-alone
 benchmarks

---
 kerncraft/models/standalone_benchmark.py | 34 ++++++++++++++----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/kerncraft/models/standalone_benchmark.py b/kerncraft/models/standalone_benchmark.py
index 8a8ad41..f32d36e 100644
--- a/kerncraft/models/standalone_benchmark.py
+++ b/kerncraft/models/standalone_benchmark.py
@@ -326,21 +326,27 @@ class StandaloneBenchmark(PerformanceModel):
 
         # collect counters for phenoecm run
         if not self.no_phenoecm:
-            # Build events and sympy expressions for all model metrics
-            T_OL, event_counters = self.machine.parse_perfmetric(
-                self.machine['overlapping model']['performance counter metric'])
-            T_data, event_dict = self.machine.parse_perfmetric(
-                self.machine['non-overlapping model']['performance counter metric'])
-            event_counters.update(event_dict)
-            cache_metrics = defaultdict(dict)
-            for cache_info in self.machine['memory hierarchy']:
-                name = cache_info['level']
-                for k, v in (cache_info.get('performance counter metrics') or {}).items():
-                    if not self._known_metric(v):
-                        continue
-                    cache_metrics[name][k], event_dict = self.machine.parse_perfmetric(str(v))
-                    event_counters.update(event_dict)
+            try:
+                # Build events and sympy expressions for all model metrics
+                T_OL, event_counters = self.machine.parse_perfmetric(
+                    self.machine['overlapping model']['performance counter metric'])
+                T_data, event_dict = self.machine.parse_perfmetric(
+                    self.machine['non-overlapping model']['performance counter metric'])
+                event_counters.update(event_dict)
+                cache_metrics = defaultdict(dict)
+                for cache_info in self.machine['memory hierarchy']:
+                    name = cache_info['level']
+                    for k, v in (cache_info.get('performance counter metrics') or {}).items():
+                        if not self._known_metric(v):
+                            continue
+                        cache_metrics[name][k], event_dict = self.machine.parse_perfmetric(str(v))
+                        event_counters.update(event_dict)
+            except SyntaxError as e:
+                print('Disabled Phenomenological ECM, due to syntax error in machine file '
+                      'metrics:', e, file=sys.stderr)
+                self.no_phenoecm = True
 
+        if not self.no_phenoecm:
             # Compile minimal runs to gather all required events
             minimal_runs = build_minimal_runs(list(event_counters.values()))
             measured_ctrs = {}
-- 
2.43.0


From 3e8ddab44392013ead624e2c01d68a5df752c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 81/81] fix: repetitions from markers are those of their own
 region

---
 kerncraft/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 579f634..721da7c 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -2061,7 +2061,7 @@ class BinaryDescription(Kernel):
                         print('WARNING: used default value for loop information in region '
                               '{}.'.format(region))
                 if not region in self.repetitions:
-                    self.repetitions[region] = self.repetitions['']
+                    self.repetitions[region] = dict(self.repetitions[''])
                     if self.args.verbose > 1:
                         print('WARNING: used default value for repetition information in region '
                               '{}.'.format(region))
-- 
2.43.0

