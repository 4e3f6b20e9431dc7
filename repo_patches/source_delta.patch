From 75ec1ebd7fc271f77bc2b96f4c9d57533c424acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 01/44] fix: keep the id table, owners and order of containers
 consistent

Removing or deleting an object dropped the first equal object instead of the
object itself, refused edits (unknown object, id already in use) left the id
table or the owner changed, and item assignment did not set the owner.
---
 xigt/mixins.py | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 9557ff4..7aab74c 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -68,15 +68,27 @@ class XigtContainerMixin(list):
         except TypeError:
             idx = int(idx)
             cur_obj = list.__getitem__(self, idx)
-        if cur_obj.id is not None:
-            del self._dict[cur_obj.id]
-        self._create_id_mapping(obj)
+        if obj.id is None or obj.id != cur_obj.id:
+            self._create_id_mapping(obj)  # first, as it may raise an error
+            if cur_obj.id is not None:
+                del self._dict[cur_obj.id]
+        else:
+            self._dict[obj.id] = obj
         list.__setitem__(self, idx, obj)
+        obj._parent = self._container
 
     def __delitem__(self, obj_id):
         # NOTE: this method is destructive. check for broken refs here?
-        obj = self[obj_id]
-        self.remove(obj)
+        if isinstance(obj_id, int):
+            idx = obj_id
+        elif obj_id in self._dict:
+            idx = self._index(self._dict[obj_id])
+        else:
+            try:
+                idx = int(obj_id)
+            except ValueError:
+                raise KeyError(obj_id)
+        self._delete(idx)
 
     def get(self, obj_id, default=None):
         try:
@@ -102,14 +114,14 @@ class XigtContainerMixin(list):
 
     def append(self, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.append(self, obj)
 
     def insert(self, i, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.insert(self, i, obj)
 
     def extend(self, objs):
@@ -118,9 +130,7 @@ class XigtContainerMixin(list):
 
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
-        if obj.id is not None:
-            del self._dict[obj.id]
-        list.remove(self, obj)
+        self._delete(self._index(obj))
 
     def clear(self):
         self._dict.clear()
@@ -128,6 +138,18 @@ class XigtContainerMixin(list):
         # list.clear(self)
         listclear(self)
 
+    def _index(self, obj):
+        # prefer the very object, as list.index() finds the first equal one
+        for i, cur_obj in enumerate(list.__iter__(self)):
+            if cur_obj is obj:
+                return i
+        return list.index(self, obj)
+
+    def _delete(self, idx):
+        obj = list.pop(self, idx)
+        if obj.id is not None:
+            del self._dict[obj.id]
+
     def _create_id_mapping(self, obj):
         if obj.id is not None:
             if obj.id in self._dict:
-- 
2.43.0


From 120e5756508841192ac2c935023d1b2df4d32fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 02/44] fix: make != the negation of ==, and objects of
 different kinds unequal

---
 xigt/metadata.py | 3 ++-
 xigt/mixins.py   | 4 ++++
 xigt/model.py    | 3 ++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 9f786d5..c13d407 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -149,7 +149,8 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Meta)
+                and self.text == other.text
                 and XigtContainerMixin.__eq__(self, other)
                 and XigtAttributeMixin.__eq__(self, other)
             )
diff --git a/xigt/mixins.py b/xigt/mixins.py
index 7aab74c..601e650 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -47,6 +47,10 @@ class XigtContainerMixin(list):
         except AttributeError:
             return False
 
+    def __ne__(self, other):
+        # otherwise list.__ne__() would be used
+        return not self == other
+
     def __getitem__(self, obj_id):
         if isinstance(obj_id, (int, slice)):
             return list.__getitem__(self, obj_id)
diff --git a/xigt/model.py b/xigt/model.py
index 014c9ac..9e03600 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -346,7 +346,8 @@ class Item(XigtAttributeMixin, XigtReferenceAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Item)
+                and self.text == other.text
                 and XigtAttributeMixin.__eq__(self, other)
             )
         except AttributeError:
-- 
2.43.0


From 601dd4ea1743fec60bc08570e3986965e5f3c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 03/44] fix: rebuild the item and reference indices of an IGT
 from scratch

---
 xigt/model.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 9e03600..cbb7a41 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -155,9 +155,11 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
 
         xs = [i for t in self.tiers for i in t.items]
         if items:
-            idict = self._itemdict
+            self._itemdict = idict = {}
             for item in xs:
                 i_id = item.id
+                if i_id is None:
+                    continue
                 if idict.get(i_id, item) != item:
                     warnings.warn(
                         'Item "{}" already exists in Igt.'.format(i_id),
@@ -166,26 +168,28 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
                 idict[i_id] = item
 
         ids = ref.ids
-        xs = self.tiers + xs
         if referents or referrers:
             # both use IDS in refattrs, so precompute once
             ids_map = {}
-            for obj in xs:
-                if obj.id is None:
-                    continue
-                ids_map[obj.id] = ra_map = {}
-                for refattr in obj.allowed_reference_attributes():
-                    ra_map[refattr] = ids(obj.attributes.get(refattr, ''))
+            inv_ids_map = {}
+            # tiers last, as an id denotes a tier before it denotes an item
+            for objs in (xs, self.tiers):
+                inv = defaultdict(lambda: defaultdict(list))
+                for obj in objs:
+                    if obj.id is None:
+                        continue
+                    inv_ids_map[obj.id] = inv[obj.id]
+                    ids_map[obj.id] = ra_map = {}
+                    for refattr in obj.allowed_reference_attributes():
+                        ref_ids = ids(obj.attributes.get(refattr, ''))
+                        ra_map[refattr] = ref_ids
+                        for ref_id in ref_ids:
+                            if obj.id not in inv[ref_id][refattr]:
+                                inv[ref_id][refattr].append(obj.id)
 
             if referents:
                 self._referent_cache = ids_map
-
             if referrers:
-                inv_ids_map = defaultdict(lambda: defaultdict(list))
-                for obj_id, ra_map in ids_map.items():
-                    for refattr, ref_ids in ra_map.items():
-                        for ref_id in ref_ids:
-                            inv_ids_map[ref_id][refattr].append(obj_id)
                 self._referrer_cache = inv_ids_map
 
     @property
-- 
2.43.0


From fb82a761a2ff3f11295d3401a641ee45dc3a4803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 04/44] fix: keep newlines and multi-character delimiters when
 rewriting reference expressions

---
 xigt/ref.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index a3e8b2a..d4e06e2 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -16,7 +16,8 @@ reflist_re = re.compile(r'^\s*([a-zA-Z][-.\w]*)(\s+[a-zA-Z][-.\w]*)*\s*$')
 robust_ref_re = re.compile(
     r'(^|.+?)'  # anything not an id (maybe space, maybe a delimiter)
     r'($|[a-zA-Z][\-.\w]*)'  # id
-    r'(?:$|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?'  # range
+    r'(?:$|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?',  # range
+    re.DOTALL  # newlines may occur as delimiters
 )
 selection_re = re.compile(
     r'(^|[^-a-zA-Z:.])'  # start of string or delimiter
@@ -84,7 +85,8 @@ def compress(expression):
     selection = []
     last_id = None
     for (pre, _id, _range) in robust_ref_re.findall(expression):
-        if _range and _id == last_id:
+        # only single-character delimiters are allowed between ranges
+        if _range and _id == last_id and len(pre) == 1:
             selection.extend([pre, _range])
             continue
         if selection:
-- 
2.43.0


From 14a59ad56ffcf5a7cc46da43dbe5080580ed1bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:27 +0000
Subject: [PATCH 05/44] fix: detect cycles among ancestor tiers with ids longer
 than one character

---
 xigt/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/query.py b/xigt/query.py
index d25c540..0f83486 100644
--- a/xigt/query.py
+++ b/xigt/query.py
@@ -41,7 +41,7 @@ def ancestors(obj, refattrs=(ALIGNMENT, SEGMENTATION)):
         # cycle detection; break if we've now encountered something twice
         if reftier.id in visited:
             break
-        visited.update(reftier.id)
+        visited.add(reftier.id)
         tier = reftier
         items = refitems
 
-- 
2.43.0


From a33e7428794e84f61de19e6ddd740c8e866e339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 06/44] fix: sort tiers with cyclic or dangling references or
 without ids

---
 xigt/model.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index cbb7a41..041bec6 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -223,25 +223,30 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
             return ref.referrers(self, id, refattrs=refattrs)
 
     def sort_tiers(self, refattrs=(SEGMENTATION, ALIGNMENT, CONTENT)):
-        idx = {t.id: i+1 for i, t in enumerate(self)}  # initial index
+        tiers = list(self)
+        idx = {t.id: i for i, t in enumerate(tiers)
+               if t.id is not None}  # initial index
         pr = {}  # prioritized referent
-        for t in self:
+        for i, t in enumerate(tiers):
             ra_i = next(
                 ((ra, i) for i, ra in enumerate(refattrs)
                  if ra in t.attributes),
                 None
             )
-            if ra_i is not None:
-                pr[t.id] = (t.get_attribute(ra_i[0]), ra_i[1])
+            # references to non-existing tiers are ignored
+            if ra_i is not None and t.attributes[ra_i[0]] in idx:
+                pr[i] = (idx[t.attributes[ra_i[0]]], ra_i[1])
         dfi = {}  # depth-first index
-        for t in self:
-            key = [(idx[t.id],0)]  # default value
-            tmp = pr.get(t.id)
-            while tmp:  # iterative depth first
-                key.append((idx[tmp[0]], tmp[1]))
+        for i, t in enumerate(tiers):
+            key = [(i, 0)]  # default value
+            seen = set([i])  # guard against cycles
+            tmp = pr.get(i)
+            while tmp and tmp[0] not in seen:  # iterative depth first
+                key.append(tmp)
+                seen.add(tmp[0])
                 tmp = pr.get(tmp[0])
-            dfi[t.id] = tuple(reversed(key))  # highest ancestor first
-        self.sort(key=lambda t: dfi[t.id])
+            dfi[id(t)] = tuple(reversed(key))  # highest ancestor first
+        self.sort(key=lambda t: dfi[id(t)])
 
 
 class Tier(XigtContainerMixin, XigtAttributeMixin,
-- 
2.43.0


From efc787f319fc0277ed8c68063061483e078deace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 07/44] fix: inherit namespaced attributes under the key they
 were asked for

---
 xigt/mixins.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 601e650..f850be2 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -223,15 +223,13 @@ class XigtAttributeMixin(object):
             key = '{%s}%s' % (self.nsmap[namespace], key)
         elif namespace:
             key = '{%s}%s' % (namespace, key)
-        try:
-            return self.attributes[key]
-        except KeyError:
-            if inherit and _has_parent(self):
-                return self._parent.get_attribute(
-                    key, default, inherit, namespace=namespace
-                )
-            else:
+        # the key is resolved now, so owners are asked for the very same key
+        obj = self
+        while key not in obj.attributes:
+            if not (inherit and _has_parent(obj)):
                 return default
+            obj = obj._parent
+        return obj.attributes[key]
 
     @property
     def id(self):
-- 
2.43.0


From 3137d9291964ba7b43c0bbd39c3c3df89a4e50c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 08/44] fix: select by namespace on metadata lists

---
 xigt/mixins.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index f850be2..0faabc2 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -103,8 +103,11 @@ class XigtContainerMixin(list):
 
     def select(self, **kwargs):
         # handle namespace separately so we can lookup the nsmap
-        if 'namespace' in kwargs and kwargs['namespace'] in self.nsmap:
-            kwargs['namespace'] = self.nsmap[kwargs['namespace']]
+        if 'namespace' in kwargs:
+            # use the owner, as metadata lists have no nsmap themselves
+            nsmap = self._container.nsmap
+            ns = kwargs['namespace']
+            kwargs['namespace'] = nsmap.get(ns, ns)
         def match(x):
             return all(getattr(x, k, None) == v for k, v in kwargs.items())
         return filter(match, self)
-- 
2.43.0


From 1d7ef26b223f2ddf501cd48016a232a138f77087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 09/44] fix: tokenize paths with spaces, several function
 arguments, and names that start like functions

---
 xigt/xigtpath.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 020c73b..08640d9 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -31,6 +31,7 @@ from xigt.errors import XigtError
 class XigtPathError(XigtError): pass
 
 xp_tokenizer_re = re.compile(
+    r'\s+|'  # whitespace (discarded)
     r'"(?:\\.|[^\\"])*"|'  # double-quoted strings (allow escaped quotes \")
     r'//?|'  # // descendant-or-self or / descendant
     r'\.\.?|'  # .. parent or . self axes
@@ -40,7 +41,8 @@ xp_tokenizer_re = re.compile(
     r'\(|\)|'  # groups
     r'\||'  # union
     r'!=|=|'  # comparisons
-    r'(?:text|value|referent|referrer)|'
+    r',(?=\s*")|'  # separator of function arguments
+    r'(?:text|value|referent|referrer)(?=\s*\()|'  # functions
     r'\*|[^.\/\[\]!=|()]+'  # .., *, igt, tier, item, etc.
 )
 
@@ -125,7 +127,8 @@ def _step(objs, steps):
             results = objs
         # elif steps and steps[0] == '::':
 
-        elif step in ('text', 'value', 'referent', 'referrer'):
+        elif (step in ('text', 'value', 'referent', 'referrer')
+              and steps and steps[0] == '('):
             steps.popleft()  # (
             args = []
             while steps and steps[0] != ')':
-- 
2.43.0


From 88c0449cc81c4fe2508740c50efecab6ec84460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:30 +0000
Subject: [PATCH 10/44] fix: evaluate existence predicates in paths

---
 xigt/xigtpath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 08640d9..6f97909 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -256,7 +256,8 @@ def _make_predicate_test(steps):
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-        predtest = lambda obj: any(bool(findall(obj, subpath)))
+        predtest = lambda obj: any(v is not None
+                                   for v in findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
         val = steps.popleft().strip('"')
-- 
2.43.0


From da48c30f61506a517b4e215de5ecf9f13e8615d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:31 +0000
Subject: [PATCH 11/44] fix: evaluate the steps after a leading group and
 consume groups without context

---
 xigt/xigtpath.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 6f97909..25085d8 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -72,10 +72,7 @@ def iterfind(obj, path):
         yield result
 
 def _expr(objs, steps):
-    if steps[0] == '(':
-        steps.popleft()
-        results = _disjunction(objs, steps)
-    elif steps[0] in ('/', '//'):
+    if steps[0] in ('/', '//'):
         if steps[0] == '/':
             steps.popleft()
         results = _step([_get_corpus(objs[0])], steps)
@@ -89,6 +86,13 @@ def _disjunction(objs, steps):
     # NOTE: on the first pass, steps is the original deque, so it is
     #       modified in-place. Afterwards, the copy is reused.
     orig_steps = deque(steps)
+    objs = list(objs)
+    if not objs:
+        # nothing to evaluate, but the steps of the group must be consumed
+        depth = 1
+        while depth:
+            next_ = steps.popleft()
+            depth += (next_ == '(') - (next_ == ')')
     for obj in objs:
         while True:
             results.extend(r for r in _expr([obj], steps))
-- 
2.43.0


From 393547ed679a716c9eb63b517ed8cc73746fbe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:32 +0000
Subject: [PATCH 12/44] fix: map namespace prefixes in all steps of paths

---
 xigt/xigtpath.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 25085d8..0303270 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -176,7 +176,8 @@ def _find_child(obj, name):
         kwargs['namespace'] = namespace
     # simple case
     if name == '*' and hasattr(obj, '__iter__'):
-        results = list(getattr(obj, 'metadata', []))
+        if hasattr(obj, 'metadata'):
+            results.extend(obj.metadata.select(**kwargs))
         results.extend(obj.select(**kwargs))
     elif (name == 'igt' and hasattr(obj, 'igts') or
           name == 'tier' and hasattr(obj, 'tiers') or
@@ -185,15 +186,7 @@ def _find_child(obj, name):
         # select should just work on the containers as normal
         results = obj.select(**kwargs)
     elif name == 'metadata' and hasattr(obj, 'metadata'):
-        # for metadata we need to filter by namespace ourselves (but
-        # we don't really expect for <metadata> elements to have a
-        # namespace, so maybe this is unnecessary?)
-        results = iter(obj.metadata)
-        if 'namespace' in kwargs:
-            results = filter(
-                lambda x: getattr(x, 'namespace', None) == namespace,
-                results
-            )
+        results = obj.metadata.select(**kwargs)
     elif isinstance(obj, (Meta, MetaChild)):
         # for MetaChild objects, we need to give the name as well
         kwargs['name'] = name
@@ -213,22 +206,27 @@ def _find_attr(obj, attr):
         if ':' in attr:
             namespace, attr = attr.split(':', 1)
         if attr == '*':
-            vals.extend(obj.get_attribute(attrkey, namespace=namespace)
-                        for attrkey in obj.attributes)
+            prefix = ''
+            if namespace is not None:
+                prefix = '{%s}' % obj.nsmap.get(namespace, namespace)
+            vals.extend(val for attrkey, val in obj.attributes.items()
+                        if attrkey.startswith(prefix))
         else:
             vals.append(obj.get_attribute(attr, namespace=namespace))
     for val in vals:
         yield val
 
 def _find_descendant_or_self(obj, name):
-    namespace = None
+    namespace, localname = None, name
     if ':' in name:
-        namespace, name = name.split(':', 1)
+        namespace, localname = name.split(':', 1)
+        namespace = obj.nsmap.get(namespace, namespace)
     if isinstance(obj, MetaChild):
         objname = obj.name
     else:
         objname = obj.__class__.__name__.lower()
-    if (namespace is None or obj.namespace == namespace) and objname == name:
+    if ((namespace is None or obj.namespace == namespace)
+            and localname in ('*', objname)):
         yield obj
     for child in _find_child(obj, '*'):
         for desc in _find_descendant_or_self(child, name):
-- 
2.43.0


From a3e01f525c14bfb58dd6652b5dccaba3698c36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:33 +0000
Subject: [PATCH 13/44] fix: resume interrupted iteration of streamed corpora

---
 xigt/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index 041bec6..4047f0d 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -78,7 +78,8 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if mode == FULL:
             self.extend(igts or [])
         else:
-            self._generator = igts
+            # an iterator, so an interrupted iteration can be resumed
+            self._generator = iter(igts or [])
 
     def __repr__(self):
         return '<XigtCorpus object (id: {}) with {} Igts at {}>'.format(
-- 
2.43.0


From 67c1ecc389f310c2b89ccf9ab23efb0f654ce9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:34 +0000
Subject: [PATCH 14/44] fix: load the type of corpora and the id and type of
 nested metadata from XigtXML

---
 xigt/codecs/xigtxml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index da41112..4618e65 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -241,7 +241,8 @@ def default_decode_xigtcorpus(elem, igts=None, mode='full'):
     assert tag == 'xigt-corpus'
     return XigtCorpus(
         id=elem.get('id'),
-        attributes=get_attributes(elem, ignore=('id',)),
+        type=elem.get('type'),
+        attributes=get_attributes(elem, ignore=('id', 'type')),
         metadata=[decode_metadata(md) for md in elem.findall('metadata')],
         # NOTE: possible bug here; does nsiterparse run with elem.findall?
         igts=igts or [decode_igt(igt) for igt in elem.findall('igt')],
@@ -346,6 +347,8 @@ def default_decode_metachild(elem):
         namespace=ns,
         nsmap=elem.attrib.nsmap
     )
+    mc.id = elem.get('id')
+    mc.type = elem.get('type')
     elem.clear()
     return mc
 
-- 
2.43.0


From fbc1367587d8a5fba204678b4670109e57b52bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:35 +0000
Subject: [PATCH 15/44] fix: load XigtXML bytes in the encoding they declare

---
 xigt/codecs/xigtxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 4618e65..4ae935c 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -1,5 +1,5 @@
 
-from io import StringIO
+from io import BytesIO, StringIO
 from xml.etree.ElementTree import (
     tostring,
     iterparse,
@@ -56,7 +56,8 @@ def load(fh, mode='full'):
 
 
 def loads(s):
-    if hasattr(s, 'decode'): s = s.decode('utf-8')
+    if hasattr(s, 'decode'):
+        return load(BytesIO(s))  # the document says how it is encoded
     return load(StringIO(s))
 
 
-- 
2.43.0


From f3cdca2f37998e6e7c6ce94439d84a360f0edce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:36 +0000
Subject: [PATCH 16/44] fix: do not mistake nested metadata named igt for an
 IGT

---
 xigt/codecs/xigtxml.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 4ae935c..a160409 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -203,8 +203,10 @@ def iter_elements(tag, events, root, break_on=None):
     if break_on is None:
         break_on = []
     event, elem = next(events)
-    while (event, elem.tag) not in break_on:
-        if event == 'end' and elem.tag == tag:
+    depth = 1  # of open elements below root (the first was started already)
+    while depth > 0 or (event, elem.tag) not in break_on:
+        depth += 1 if event == 'start' else -1
+        if event == 'end' and elem.tag == tag and depth == 0:
             yield elem
             root.clear()  # free memory after we're done with an element
         event, elem = next(events)
@@ -214,7 +216,12 @@ def default_decode(events, mode='full'):
     """Decode a XigtCorpus element."""
     event, elem = next(events)
     root = elem  # store root for later instantiation
-    while (event, elem.tag) not in [('start', 'igt'), ('end', 'xigt-corpus')]:
+    event, elem = next(events)
+    depth = 0  # of open elements below root
+    while depth > 0 or (
+            (event, elem.tag) not in [('start', 'igt'), ('end', 'xigt-corpus')]
+        ):
+        depth += 1 if event == 'start' else -1
         event, elem = next(events)
     igts = None
     if event == 'start' and elem.tag == 'igt':
-- 
2.43.0


From d1d804c4fe39eef0521ba8980a293a0ce43a1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 17/44] fix: keep empty item texts and all ids and types in
 XigtJSON

---
 xigt/codecs/xigtjson.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 557054f..e028dd0 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -61,6 +61,7 @@ def decode(obj, mode='full', nsmap=None):
     nsmap = active_namespaces(obj, nsmap)
     return XigtCorpus(
         id=obj.get('id'),
+        type=obj.get('type'),
         attributes=obj.get('attributes', {}),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
@@ -167,6 +168,8 @@ def decode_metachild(obj, nsmap=None):
         namespace=namespace,
         nsmap=obj.get('namespaces')
     )
+    mc.id = obj.get('id')
+    mc.type = obj.get('type')
     return mc
 
 
@@ -189,7 +192,7 @@ def _make_obj(x, nscontext=None):
     nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
     obj = {}
     if x.id: obj['id'] = x.id
-    if x.type: obj['type'] = x.type
+    if x.type is not None: obj['type'] = x.type
     # might need to re-add prefixes to namespaced attribute keys
     if x.attributes:
         attrs = {}
@@ -253,6 +256,6 @@ def encode_tier(tier, nscontext=None):
 
 def encode_item(item, nscontext=None):
     obj, ns = _make_obj(item, nscontext)
-    if item.text: obj['text'] = item.text
+    if item.text is not None: obj['text'] = item.text
     return obj
 
-- 
2.43.0


From b46282acd4cf7ca4c62d1e5cf72fdfa313a8bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:23 +0000
Subject: [PATCH 18/44] fix: decode the prefixes of attributes in XigtJSON

---
 xigt/codecs/xigtjson.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index e028dd0..6d10899 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -62,7 +62,7 @@ def decode(obj, mode='full', nsmap=None):
     return XigtCorpus(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         igts=[decode_igt(igt, nsmap)
@@ -77,7 +77,7 @@ def decode_igt(obj, nsmap=None):
     igt = Igt(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         tiers=[decode_tier(tier, nsmap)
@@ -93,7 +93,7 @@ def decode_tier(obj, nsmap=None):
     tier = Tier(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         items=[decode_item(item, nsmap)
@@ -109,7 +109,7 @@ def decode_item(obj, nsmap=None):
     item = Item(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
         nsmap=obj.get('namespaces')
@@ -122,7 +122,7 @@ def decode_metadata(obj, nsmap=None):
     metadata = Metadata(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
@@ -139,7 +139,7 @@ def decode_meta(obj, nsmap=None):
     meta = Meta(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
@@ -161,7 +161,7 @@ def decode_metachild(obj, nsmap=None):
             namespace = nsmap[namespace]
     mc = MetaChild(
         name,
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
@@ -173,6 +173,18 @@ def decode_metachild(obj, nsmap=None):
     return mc
 
 
+def decode_attributes(obj, nsmap):
+    # attribute keys are encoded with prefixes, if there are any
+    attrs = {}
+    for key, val in obj.get('attributes', {}).items():
+        if not key.startswith('{') and ':' in key:
+            prefix, name = key.split(':', 1)
+            if prefix in nsmap:
+                key = '{%s}%s' % (nsmap[prefix], name)
+        attrs[key] = val
+    return attrs
+
+
 def active_namespaces(obj, nsmap):
     nsmap = {} if nsmap is None else dict(nsmap)
     nsmap.update(obj.get('namespaces', {}))
-- 
2.43.0


From 8619f1c24b8e7cdd391eb462a7111ee30761c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 19/44] fix: keep inherited prefixes where XigtJSON declares
 further ones

---
 xigt/codecs/xigtjson.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 6d10899..e162dd4 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -69,7 +69,7 @@ def decode(obj, mode='full', nsmap=None):
               for igt in obj.get('igts', [])],
         mode=mode,
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
 
 def decode_igt(obj, nsmap=None):
@@ -83,7 +83,7 @@ def decode_igt(obj, nsmap=None):
         tiers=[decode_tier(tier, nsmap)
                for tier in obj.get('tiers', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return igt
 
@@ -99,7 +99,7 @@ def decode_tier(obj, nsmap=None):
         items=[decode_item(item, nsmap)
                for item in obj.get('items', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return tier
 
@@ -112,7 +112,7 @@ def decode_item(obj, nsmap=None):
         attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return item
 
@@ -126,7 +126,7 @@ def decode_metadata(obj, nsmap=None):
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return metadata
 
@@ -144,7 +144,7 @@ def decode_meta(obj, nsmap=None):
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return meta
 
@@ -166,7 +166,7 @@ def decode_metachild(obj, nsmap=None):
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=namespace,
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     mc.id = obj.get('id')
     mc.type = obj.get('type')
-- 
2.43.0


From fd77bcddfb4a3cd432db7892bd3025900c071543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 20/44] fix: write igts of keys with the same filename to one
 partition

---
 xigt/scripts/xigt_partition.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/xigt/scripts/xigt_partition.py b/xigt/scripts/xigt_partition.py
index 9b4511f..6c871b0 100644
--- a/xigt/scripts/xigt_partition.py
+++ b/xigt/scripts/xigt_partition.py
@@ -17,13 +17,11 @@ def run(args):
     keypath = args.key_path
     for fn in args.infiles:
         logging.info('Indexing {}'.format(fn))
-        index(fn, keypath, idx)
+        index(fn, keypath, idx, args.default_key)
     for key, fn_idx in idx.items():
         logging.info('Writing {} (grouped from {} files)'
                      .format(key, len(fn_idx)))
-        if key is None:
-            key = args.default_key
-        out_fn = os.path.join(args.outdir, normalize_key(key) + '.xml')
+        out_fn = os.path.join(args.outdir, key + '.xml')
         write(out_fn, fn_idx)
 
 def create_outdir(outdir):
@@ -36,11 +34,14 @@ def create_outdir(outdir):
         logging.error('Output directory could not be created.')
         sys.exit(1)
 
-def index(fn, by, idx):
+def index(fn, by, idx, default_key):
     xc = xigtxml.load(fn, mode='transient')
     for i, igt in enumerate(xc):
         idx_key = xp.find(igt, by)
-        idx[idx_key][fn].add(i)
+        if idx_key is None:
+            idx_key = default_key
+        # normalize already, as different keys may get the same filename
+        idx[normalize_key(idx_key)][fn].add(i)
 
 def normalize_key(key):
     return key.replace(':', '-')
-- 
2.43.0


From 5b2cb2e747399abac86dbde71f93e6a2010f135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 21/44] fix: compare the values of several sort keys one by one

---
 xigt/scripts/xigt_sort.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index 21e20bb..595ddd4 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -39,9 +39,10 @@ def make_sortkey(sortkeys):
             return int(x)
         except ValueError:
             return x
-    key = lambda x: [k for sk in sortkeys
-                     for k in map(safe_int,
-                                  re.split(r'(\d+)', xp.find(x, sk) or ''))]
+    # (one list per key, so numbers only get compared to numbers)
+    key = lambda x: [list(map(safe_int,
+                              re.split(r'(\d+)', xp.find(x, sk) or '')))
+                     for sk in sortkeys]
     return key
 
 def main(arglist=None):
-- 
2.43.0


From dec0596641f96fd30698cd6d1f7fa80536cf6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:20 +0000
Subject: [PATCH 22/44] fix: judge spans, empty tiers and numeric tier
 references in validation and survive references that cannot be resolved

---
 xigt/scripts/xigt_validate.py | 96 +++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 39 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 4d4be94..499cce5 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -13,7 +13,6 @@ from xigt.errors import XigtAttributeError
 
 datalevels = ['corpus', 'igt', 'tier', 'item']
 reference_attributes = ['alignment', 'segmentation', 'content']
-alignment_expression_delimiters = ['+', ',']
 
 
 # VALIDATION FUNCTIONS
@@ -185,11 +184,39 @@ def add_id(ids, obj):
     if getattr(obj, 'id', None) is not None:
         ids[obj.id] += 1
 
+def get_tier(igt, tier_id):
+    # not igt.get(tier_id), as it takes numeric ids for indices
+    for tier in igt:
+        if tier.id == tier_id:
+            return tier
+
 def get_referred_tier(item, refattr):
     tierref = item.tier.attributes.get(refattr)
     if not tierref:
         return None
-    return item.igt.get(tierref)
+    return get_tier(item.igt, tierref)
+
+def get_spans(algnexpr):
+    # get (expression, id, start, end) for each span; start and end are
+    # None if the whole item is selected
+    for span in spans(algnexpr, keep_delimiters=False):
+        _, item_id, _range = selection_re.match(span).groups()
+        if not _range:
+            yield (span, item_id, None, None)
+            continue
+        _, start, end = span_re.match(_range).groups()
+        try:
+            yield (span, item_id, int(start), int(end))
+        except ValueError:
+            pass  # schema validator should catch bad algnexprs
+
+def get_value_length(item):
+    try:
+        return len(item.value() or '')
+    except Exception:
+        # references (e.g. missing or cyclic ones) that can't be resolved
+        # are problems of the objects that make them
+        return None
 
 
 # TEST FUNCTIONS
@@ -221,7 +248,7 @@ def has_type(obj):
 
 def reference_id_in_igt(tier, refattr):
     refid = tier.attributes.get(refattr)
-    if refid and tier.igt.get(refid) is None:
+    if refid and get_tier(tier.igt, refid) is None:
         return ('The reference attribute "{}" {{modal}} select an '
                 'available <tier> id.'.format(refattr))
 
@@ -239,7 +266,7 @@ def item_refattrs_specified_on_tier(tier):
 def algnexpr_ids_in_referred_tier(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     missing = []
     for ae_id in ids(itemref):
@@ -250,30 +277,25 @@ def algnexpr_ids_in_referred_tier(item, refattr):
             'The "{}" alignment expression {{modal}} select available '
             '<item> ids from the aligned <tier> ("{}"). The following are '
             'unavailable: {}'
-            .format(refattr, str(reftier.id), ', '.join(missing))
+            .format(refattr,
+                    str(reftier.id).replace('{', '{{').replace('}', '}}'),
+                    ', '.join(missing))
         )
 
 def algnexpr_spans_in_aligned_item(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     error_spans = []
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
-        sel_delim, item_id, _range = selection_re.match(span).groups()
-        if _range:
-            _, start, end = span_re.match(_range).groups()
-            start = int(start)
-            end = int(end)
-        else:
+    for span, item_id, start, end in get_spans(itemref):
+        if start is None:
             continue
         tgt_item = reftier.get(item_id)
         if tgt_item is None:
             continue  # this should be caught by algnexpr_ids_in_referred_tier
-        item_len = len(tgt_item.value())
-        if start > item_len or end > item_len:
+        item_len = get_value_length(tgt_item)
+        if item_len is not None and (start > item_len or end > item_len):
             error_spans.append(span)
     if error_spans:
         return (
@@ -285,27 +307,21 @@ def algnexpr_spans_in_aligned_item(item, refattr):
 def algnexpr_spans_do_not_overlap(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
-    spans_by_id = defaultdict(Counter)
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
-        if isinstance(span, str):
-            tgt_item = reftier.get(span)
+    spans_by_id = defaultdict(list)
+    for _, item_id, start, end in get_spans(itemref):
+        if start is None:
+            tgt_item = reftier.get(item_id)
             if tgt_item is None:
                 continue  # this should be caught by algnexpr_ids_in_referred_tier
-            val = tgt_item.value()
-            if val is None:
-                continue  # does this need to be handled?
-            item_len = len(tgt_item.value())
-            spans_by_id[span].update(range(0, item_len))
-        else:
-            item_id, start, end = span
-            spans_by_id[item_id].update(range(start, end))
+            start, end = 0, get_value_length(tgt_item) or 0
+        if start < end:
+            spans_by_id[item_id].append((start, end))
     error_spans = [
-        item_id for item_id, count in spans_by_id.items()
-        if any(count[c] > 1 for c in count)
+        item_id for item_id, item_spans in spans_by_id.items()
+        if any(span1[1] > span2[0] for span1, span2
+               in zip(sorted(item_spans), sorted(item_spans)[1:]))
     ]
     if error_spans:
         return (
@@ -391,19 +407,21 @@ def run(args):
     from xml.etree import ElementTree as ET
     ids = Counter()
     for i, f in enumerate(args.files):
-        with open(f, 'r') as fh:
+        with open(f, 'rb') as fh:
+            context = make_context(
+                None, i, '<xigt-corpus>', 'collection', ids=ids
+            )
             try:
                 xc = xigtxml.load(fh, mode='transient')
+                context['id'] = xc.id
+                report = validate_corpus(xc, context)
             except ET.ParseError:
+                passed.append(False)
                 print('Corpus {} ({}) failed to load. First verify '
                       'that the XML file is valid by doing a schema '
                       'validation.'
                       .format(i, f))
             else:
-                context = make_context(
-                    xc, i, '<xigt-corpus>', 'collection', ids=ids
-                )
-                report = validate_corpus(xc, context)
                 report = filter_empty_reports(
                     report, minlevel=logging.getLogger().getEffectiveLevel()
                 )
-- 
2.43.0


From 8849dcc29c0e9f1cdba9760da8229ab9a13d31b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 23/44] fix: substitute into query descriptions once, so braces
 in queries and descriptions stay

---
 xigt/scripts/xigt_query.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index 8235ebb..b81556b 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -73,9 +73,7 @@ def make_job(args):
     for action, vals in args.agenda:
         if action == 'description' and agenda:
             agendum = agenda[-1]
-            agendum['description'] = safe_format(
-                vals, query=agendum['query'], subquery=agendum.get('subquery')
-            )
+            agendum['description'] = vals
         else:
             if action in ('find', 'unique', 'count'):
                 query, subquery = vals[0], ''
@@ -87,13 +85,17 @@ def make_job(args):
                 'action': action,
                 'query': query,
                 'subquery': subquery,
-                'description': safe_format(
-                    description, query=query, subquery=subquery
-                )
+                'description': description
             })
     return job
 
 
+def describe(agendum, match):
+    # format once, as queries and descriptions may contain other braces
+    return safe_format(agendum['description'], query=agendum['query'],
+                       subquery=agendum['subquery'], match=match)
+
+
 def process_agenda(xc, agenda):
     results = []
     for agendum in agenda:
@@ -112,7 +114,7 @@ def process_agenda(xc, agenda):
 
 def find_pattern(xc, agendum):
     for match in xp.findall(xc, agendum['query']):
-        print(' ', agendum['description'].format(match=match))
+        print(' ', describe(agendum, match))
 
 
 def tally_pattern(xc, agendum):
@@ -121,19 +123,19 @@ def tally_pattern(xc, agendum):
         group = CSTuple(xp.findall(match, agendum['subquery']))
         counts[group] += 1
     return [
-        (count, agendum['description'].format(match=match))
+        (count, describe(agendum, match))
         for match, count in counts.most_common()
     ]
 
 
 def unique_pattern(xc, agendum):
     counts = Counter(xp.findall(xc, agendum['query']))
-    return (len(counts), agendum['description'].format(match=''))
+    return (len(counts), describe(agendum, ''))
 
 
 def count_pattern(xc, agendum):
     count = len(xp.findall(xc, agendum['query']))
-    return (count, agendum['description'].format(match=''))
+    return (count, describe(agendum, ''))
 
 
 def print_results(results):
-- 
2.43.0


From ce9cd80ade05fdd4f4cdfec57f34b04c93a562df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 24/44] fix: let sort keys see the siblings of the objects
 being sorted

---
 xigt/scripts/xigt_sort.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index 595ddd4..6a88c8e 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -12,11 +12,11 @@ def run(args):
     xc = xigtxml.load(args.infile)
     if args.igt_key:
         logging.info('Sorting %s IGTs' % args.infile)
-        xc.sort(key=make_sortkey(args.igt_key))
+        sort(xc, args.igt_key)
     if args.tier_key:
         logging.info('Sorting %s tiers by key' % args.infile)
         for igt in xc:
-            igt.sort(key=make_sortkey(args.tier_key))
+            sort(igt, args.tier_key)
     elif args.tier_deps:
         logging.info('Sorting %s tiers by ref-dependencies' % args.infile)
         refattrs = [ra.strip() for ra in args.tier_deps.split(',')]
@@ -26,12 +26,18 @@ def run(args):
         logging.info('Sorting %s items by key' % args.infile)
         for igt in xc:
             for tier in igt:
-                tier.sort(key=make_sortkey(args.item_key))
+                sort(tier, args.item_key)
     if args.in_place:
         xigtxml.dump(args.infile, xc)
     else:
         print(xigtxml.dumps(xc))
 
+def sort(xs, sortkeys):
+    # get all keys first, because a list seems empty while it is sorted
+    sortkey = make_sortkey(sortkeys)
+    keys = dict((id(x), sortkey(x)) for x in xs)
+    xs.sort(key=lambda x: keys[id(x)])
+
 def make_sortkey(sortkeys):
     # return int values if possible (for int comparison), otherwise strings
     def safe_int(x):
-- 
2.43.0


From b04722a9e914f2bf302ac5330467ffb3df8ed98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:28 +0000
Subject: [PATCH 25/44] fix: end LaTeX commands so that they do not merge with
 what follows

---
 xigt/exporters/latex.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 3190491..1cb60cc 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -12,9 +12,9 @@ from xigt import ref
 from xigt.exporters.util import sub
 
 DEFAULT_TIER_TYPES = ('words', 'morphemes', 'glosses')
-# order matters here
+# commands end with {} so they do not swallow what follows
 LATEX_CHARMAP = [
-    ('\\', '\\textbackslash'),
+    ('\\', '\\textbackslash{}'),
     ('&', '\\&'),
     ('%', '\\%'),
     ('$', '\\$'),
@@ -22,8 +22,8 @@ LATEX_CHARMAP = [
     ('_', '\\_'),
     ('{', '\\{'),
     ('}', '\\}'),
-    ('~', '\\textasciitilde'),
-    ('^', '\\textasciicircum'),
+    ('~', '\\textasciitilde{}'),
+    ('^', '\\textasciicircum{}'),
 ]
 
 header = '''
@@ -54,14 +54,9 @@ def prepare_config(config):
     return config
 
 def escape(s):
-    # consider a re sub with a function. e.g.
-    # _character_unescapes = {'\\s': _field_delimiter, '\\n': '\n', '\\\\': '\\'}
-    # _unescape_func = lambda m: _character_unescapes[m.group(0)]
-    # _unescape_re = re.compile(r'(\\s|\\n|\\\\)')
-    # _unescape_re.sub(_unescape_func, string, re.UNICODE)
-    for c, r in LATEX_CHARMAP:
-        s = s.replace(c, r)
-    return s
+    # each character on its own, so replacements are not escaped again
+    charmap = dict(LATEX_CHARMAP)
+    return ''.join(charmap.get(c, c) for c in s)
 
 def export_corpus(xc, config):
     for igt in xc:
-- 
2.43.0


From af02b6c2b09d7d87558b21d22caa6cadf458aea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 26/44] fix: align unaligned, id-less and empty parts of IGTs
 in LaTeX export and keep their order

---
 xigt/exporters/latex.py | 45 ++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 1cb60cc..0d25123 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -75,15 +75,14 @@ def export_igt(igt, config):
             tiers.append(tier)
     if len(tiers) < 2:
         return '%\n% cannot export IGT {}\n%'.format(igt.id)
-    logging.debug('Aligning tiers: {}'.format(', '.join(t.id for t in tiers)))
+    logging.debug('Aligning tiers: {}'.format(', '.join(str(t.id) for t in tiers)))
     lines = []
     all_groups = group_alignments(tiers)
     for col in all_groups:
         logging.debug('Col {}'.format([[i.id for i in r] for r in col]))
     lines.append('\\begin{exe}\\small')
     lines.append('\\ex\\g{}'.format('l' * len(tiers)))
-    depth = len(all_groups[0])
-    for i in range(depth):
+    for i in range(len(tiers)):
         toks = []
         tier_type = tiers[i].type
         for col in all_groups:
@@ -118,29 +117,28 @@ def group_alignments(tiers):
     #    or as a list
     # [columns [rows [tokens]]]
     trellis = [[[item]] for item in tiers[0].items]
-    for tier in tiers[1:]:
-        trellis = align_tier(trellis, tier)
+    for depth, tier in enumerate(tiers[1:], 1):
+        trellis = align_tier(trellis, tier, depth)
     return trellis
 
 
-def align_tier(trellis, tier):
-    depth = len(trellis[0])
+def align_tier(trellis, tier, depth):
     agenda = get_agenda(tier) # list of (aligned ids, item)
     delay = deque()  # when we need to postpone an agendum
     idx = -1  # current trellis position
-    idxmap = build_idxmap(trellis, depth - 1) # regen when trellis size changes
+    idxmap = build_idxmap(trellis, depth) # regen when trellis size changes
     for agendum in agenda:
         ids, items = agendum
         logging.debug('Agendum: {} -> {}'.format([i.id for i in items], ids))
         debug_display_trellis(trellis)
-        # no alignment
-        if not ids:
+        # no alignment (to an exported tier)
+        idxs = sorted(idxmap[i] for i in ids if i in idxmap)
+        if not idxs:
             logging.debug('Delay')
             delay.append(agendum)
             continue
-        # assumes ids are ordered
-        start = idxmap[ids[0]]
-        end = idxmap[ids[-1]]
+        start = idxs[0]
+        end = idxs[-1]
         logging.debug('idx: {}\tstart: {}\tend: {}\tdepth: {}'
                       .format(idx, start, end, depth))
         # if the next aligned thing is ahead of idx, move ahead
@@ -149,39 +147,43 @@ def align_tier(trellis, tier):
             trellis[idx].append([])
             logging.debug('Added row at idx {}'.format(idx))
         # now fill in from delayed agenda
+        if any(trellis[start][depth:]):
+            # stay between the other items of this tier in the column
+            while delay:
+                trellis[start][depth].extend(delay.popleft()[1])
         if delay:
             trellis, num = add_delayed(trellis, delay, start, depth)
             # this changed the size, so shift all indices up by num
             idx += num
             start += num
             end += num
-            idxmap = build_idxmap(trellis, depth - 1)
+            idxmap = build_idxmap(trellis, depth)
         # now add new item, merging if necessary
         if start != end:
             # end + 1 so the slice gets the last column
             trellis = merge_columns(trellis, start, end + 1)
-            idxmap = build_idxmap(trellis, depth - 1)
+            idxmap = build_idxmap(trellis, depth)
             debug_display_trellis(trellis)
         #trellis[idx]
         #trellis[idx][depth]
         trellis[idx][depth].extend(items)
         logging.debug('Added items at idx {} depth {}: {}'
                       .format(idx, depth, items))
-    # when agendum is done, just append any remaining delayed items
-    trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     # if the agenda was shorter than the prev tier, fill in empty values
     idx += 1
     while idx < len(trellis):
         logging.debug('Filling in empty slot at idx {}'.format(idx))
         trellis[idx].append([])
         idx += 1
+    # when agendum is done, just append any remaining delayed items
+    trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     logging.debug('Agenda done.')
     for col in trellis:
         logging.debug('Col {}'.format(col))
     return trellis
 
 def get_agenda(tier):
-    agenda = [(ref.ids(item.alignment or item.segmentation), item)
+    agenda = [(ref.ids(item.alignment or item.segmentation or ''), item)
               for item in tier.items]
     # then group those with the same alignment (still a list [(ids, item)])
     agenda = deque(tuple([k, [g[1] for g in gs]])
@@ -189,7 +191,8 @@ def get_agenda(tier):
     return agenda
 
 def build_idxmap(trellis, depth):
-    idxmap = {it.id:i for i, col in enumerate(trellis) for it in col[depth]}
+    idxmap = {it.id:i for i, col in enumerate(trellis)
+              for row in col[:depth] for it in row}
     logging.debug('Built idxmap for depth {}:\n  {}'.format(depth, idxmap))
     return idxmap
 
@@ -199,7 +202,7 @@ def add_delayed(trellis, delay, pos, depth):
         _, delayed_items = delay.popleft()
         col = [[]] * (depth)
         col.append(delayed_items)
-        trellis.insert(pos, col)
+        trellis.insert(pos + num, col)
         logging.debug('Added delayed items at {}: {}'
                       .format(pos, delayed_items))
         num += 1
@@ -220,7 +223,7 @@ def merge_columns(trellis, start, end):
 def debug_display_trellis(trellis):
     strs = []
     for col in trellis:
-        toks = [' '.join(i.id for i in row) if row else '[]' for row in col]
+        toks = [' '.join(str(i.id) for i in row) if row else '[]' for row in col]
         maxlen = max(len(t) for t in toks)
         toks = [t.ljust(maxlen) for t in toks]
         strs.append(toks)
-- 
2.43.0


From 467688be526f91ac0468d60d51b6b4c8b77bdb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:03 +0000
Subject: [PATCH 27/44] fix: give text as the default i-input of the [incr
 tsdb()] export

---
 xigt/exporters/itsdb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index 38258e7..c18b9ce 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -14,8 +14,9 @@ except ImportError:
 DEFAULT_CELLS = [
     # i-input is a string of either the first phrase (preferred) or all words
     ('i-input',
-     'next(igt.select(type="phrases"), [""])[0] or '
-     '" ".join(item.get_content() '
+     'next((item.get_content() '
+     '      for item in next(igt.select(type="phrases"), [])), "") or '
+     '" ".join(item.get_content() or "" '
      '         for item in next(igt.select(type="words"),[]))'),
     #('i-wf', '0 if igt.get_meta("judgment") else 1'),
 ]
-- 
2.43.0


From 799470ecdb41bf81f1106e6bce6ef148973ceadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:05 +0000
Subject: [PATCH 28/44] fix: evaluate each cell of the [incr tsdb()] export
 with its own expression

---
 xigt/exporters/itsdb.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index c18b9ce..1a881f9 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -49,10 +49,16 @@ def prepare_config(config):
             config['relations'] = rel_path
     # evaluate lambda expressions now, since they won't change
     config.setdefault('cells', DEFAULT_CELLS)
-    config['cells'] = [(key, lambda igt: eval(mapper))
-                       for key, mapper in config['cells']]
+    # (in a copy, so the configuration can be used again)
+    config = dict(config, cells=[(key, make_mapper(mapper))
+                                 for key, mapper in config['cells']])
     return config
 
+def make_mapper(mapper):
+    # a function, so that each cell keeps its own mapper; igt is a global
+    # there so it can be used anywhere in the expression
+    return lambda igt: eval(mapper, dict(globals(), igt=igt))
+
 def export_corpus(xc, config):
     id_start = config['i-id_start']
     id_skip = config['i-id_skip']
-- 
2.43.0


From a906c28d6143d0e605202ccf2819c349fea989a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:06 +0000
Subject: [PATCH 29/44] fix: replace invalid characters in ODIN headers too, by
 any replacement character

---
 xigt/importers/odin.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 153d07c..52583d0 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -148,7 +148,10 @@ def make_igt_metadata(block, options):
     if options['keep_headers'] and block.get('header_lines'):
         md.append(Meta(id='meta{}'.format(mi),
                        type='odin-header',
-                       text='\n'.join(block.get('header_lines', []))
+                       text=replace_invalid_xml_chars(
+                           '\n'.join(block.get('header_lines', [])),
+                           options['replacement_char']
+                       )
         ))
         mi += 1
 
@@ -229,4 +232,4 @@ invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
 
 def replace_invalid_xml_chars(input, replacement_char):
     # \uFFFD is the unicode replacement character
-    return invalid_char_re.sub(replacement_char, input)
+    return invalid_char_re.sub(lambda m: replacement_char, input)
-- 
2.43.0


From 3373d353b5ecff36a0093ce853454add2b2d0c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:07 +0000
Subject: [PATCH 30/44] fix: give IGTs of Toolbox records whose key starts with
 other than a-z a valid id

---
 xigt/importers/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index f8d4290..c93f3bd 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -160,7 +160,7 @@ def toolbox_igts(tb, options):
 def make_igt(key, data, context, options):
     # IDs must start with a letter
     assert key
-    if not key[0].isalpha():
+    if not re.match('[a-zA-Z]', key):
         key = 'igt{}'.format(key)
     if context is None:
         context = {}
-- 
2.43.0


From 39355acd9b49d84ac06f0e2e12e5d157d01f4a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:08 +0000
Subject: [PATCH 31/44] fix: keep segmentation spans of Toolbox imports within
 the word and after the previous morphemes

---
 xigt/importers/toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index c93f3bd..dc069ae 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -308,7 +308,7 @@ def align_word(tier_type, s, src_data):
         end = beg + len(src_toks[s])
     elif tier_type == 'morphemes':
         if len(src_toks) == 1:  # when there is only one morpheme, assume it is correct
-            return 0, len(src_toks[s]), 0
+            return 0, len(tgt_tok), 0
         else:  # attempt some common morpheme separations
             def_val = -1  # default is NO MATCH FOUND
             if s == 0:  # this is the FIRST token in line
@@ -327,7 +327,7 @@ def align_word(tier_type, s, src_data):
                         try_tgt = try_tgt[len(m1.group()):]  # truncate the hyphen
                     if tgt_tok.startswith(prev_toks + src_toks[j].strip(default_bounds)):
                         prev_toks += src_toks[j].strip(default_bounds)  # add the previous morphemes to amalgam
-                        try_tgt = try_tgt[len(prev_toks):]
+                        try_tgt = tgt_tok[len(prev_toks):]
                     else:  # when we encounter a non-matching morpheme, assume the rest of the word
                         return len(prev_toks), len(tgt_tok), -1
                 if tgt_tok.startswith(prev_toks):  # when previous morphemes match LHS of word
-- 
2.43.0


From 704d26f9b8443e396d31cfeeb82c98a59c67bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:19 +0000
Subject: [PATCH 32/44] fix: keep the spaces of Toolbox fields that are not
 interlinear

---
 xigt/importers/toolbox.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index dc069ae..0ff0490 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -123,7 +123,7 @@ def xigt_import(infile, outfile, options=None, encoding='utf-8'):
     options['tb_alignments'] = _make_tb_alignments(options) 
 
     with open(infile, 'rb') as in_fh, open(outfile, 'w') as out_fh:
-        in_lines = (_respace_decode(line, encoding) for line in in_fh)
+        in_lines = _decode_lines(in_fh, encoding, options['tb_alignments'])
         tb = toolbox.read_toolbox_file(in_lines)
         igts = toolbox_igts(tb, options)
         xc = XigtCorpus(igts=igts, mode='transient')
@@ -342,11 +342,24 @@ def align_word(tier_type, s, src_data):
 
 
 
-def _respace_decode(line, encoding):
+def _decode_lines(lines, encoding, tb_alignments):
+    # only interlinear lines need their columns preserved
+    interlinear = set(tb_alignments).union(tb_alignments.values())
+    mkr = None
+    for line in lines:
+        match = re.match(b'\\\\\\S+', line)
+        if match:
+            mkr = match.group().decode(encoding)
+        yield _respace_decode(line, encoding, mkr in interlinear)
+
+
+def _respace_decode(line, encoding, respace=True):
     toks = []
     line = line.rstrip(b'\n')
     for match in re.finditer(b'\\s*\\S+\\s*', line):
         length = match.end() - match.start()
-        tok = match.group().decode(encoding).ljust(length)
+        tok = match.group().decode(encoding)
+        if respace:
+            tok = tok.ljust(length)
         toks.append(tok)
     return ''.join(toks)
-- 
2.43.0


From bfcd39936f4e2798a73d4d6fe75f611231ade7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 33/44] fix: let unmatched Toolbox morphemes span the rest of
 the word

---
 xigt/importers/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 0ff0490..09c6ee2 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -337,7 +337,7 @@ def align_word(tier_type, s, src_data):
                     if tgt_tok.startswith(new_tok):  # left hand side of tgt_tok is the same as new_tok
                         return len(prev_toks), len(new_tok) + len(prev_toks),0  # end of segment = length of current tok
                 def_val = len(prev_toks)  # when no match is found, assume the rest of the word is the token
-            return def_val, len(tgt_tok), -1
+            return def_val, def_val + len(tgt_tok), -1
     return beg, end, 0
 
 
-- 
2.43.0


From ed12c7ed8cdf1cc6ee2295d62cd5b4ad10d4e37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:40 +0000
Subject: [PATCH 34/44] fix: take the suffix and path of ODIN input directories
 literally

---
 xigt/importers/odin.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 52583d0..3a02948 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -66,9 +66,11 @@ def xigt_import(inpath, outpath, options=None):
         suffix = options['input_file_suffix']
         if not os.path.exists(outpath):
             prepare_outdir(outpath)
-        filepattern = '*{}'.format(suffix)
-        for infile in glob.glob(os.path.join(inpath, filepattern)):
-            outfile = re.sub(suffix + r'$', '.xml', os.path.basename(infile))
+        filepattern = '*{}'.format(glob.escape(suffix))
+        for infile in glob.glob(os.path.join(glob.escape(inpath),
+                                             filepattern)):
+            outfile = re.sub(re.escape(suffix) + r'$', '.xml',
+                             os.path.basename(infile))
             _xigt_import(infile, os.path.join(outpath, outfile), options)
     else:
         raise XigtImportError(
-- 
2.43.0


From 598abaebbc5aea0a1f05d31d793e71f3b7791077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:39 +0000
Subject: [PATCH 35/44] fix: keep the objects of containers that are assigned
 or extended by themselves

---
 xigt/metadata.py | 10 +++++++---
 xigt/mixins.py   |  2 ++
 xigt/model.py    |  9 ++++++---
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index c13d407..91ff3de 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -38,6 +38,7 @@ class XigtMetadataMixin(object):
         if isinstance(value, Metadata):
             raise XigtError('The metadata attribute must be a sequence '
                             'of Metadata objects.')
+        value = list(value)  # before clearing, as it may be based on self
         self._md.clear()
         self._md.extend(value)
 
@@ -113,8 +114,9 @@ class Metadata(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @metas.setter
     def metas(self, value):
+        value = list(value or [])  # before clearing, as it may be based on self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     # deprecated properties
 
@@ -162,8 +164,9 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
+        value = list(value or [])  # before clearing, as it may be based on self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
 
 class MetaChild(XigtContainerMixin, XigtAttributeMixin):
@@ -203,5 +206,6 @@ class MetaChild(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
+        value = list(value or [])  # before clearing, as it may be based on self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
diff --git a/xigt/mixins.py b/xigt/mixins.py
index 0faabc2..b981da6 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -132,6 +132,8 @@ class XigtContainerMixin(list):
         list.insert(self, i, obj)
 
     def extend(self, objs):
+        if objs is self:
+            objs = list(objs)  # as it grows meanwhile
         for obj in objs:
             self.append(obj)
 
diff --git a/xigt/model.py b/xigt/model.py
index 4047f0d..e7a7f91 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -112,8 +112,9 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @igts.setter
     def igts(self, value):
+        value = list(value or [])  # before clearing, as it may be based on self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
 
 class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
@@ -202,8 +203,9 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @tiers.setter
     def tiers(self, value):
+        value = list(value or [])  # before clearing, as it may be based on self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     def get_item(self, item_id, default=None):
         return self._itemdict.get(item_id, default)
@@ -308,8 +310,9 @@ class Tier(XigtContainerMixin, XigtAttributeMixin,
         return list(self)
     @items.setter
     def items(self, value):
+        value = list(value or [])  # before clearing, as it may be based on self
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     def allowed_reference_attributes(self):
         # tiers get _tier_refattrs[tier.type]; if a type is not
-- 
2.43.0


From 0d150e44b72d3fc52e52d17410d0393229ce2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:27 +0000
Subject: [PATCH 36/44] fix: deprecated alignment functions name errors and
 modules that were not imported

---
 xigt/ref.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index d4e06e2..e4f3626 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -1,8 +1,11 @@
 
 import re
+import warnings
 from collections import namedtuple
 
-from xigt.errors import (XigtLookupError, XigtStructureError)
+from xigt.errors import (
+    XigtAttributeError, XigtLookupError, XigtStructureError
+)
 
 ### Alignment Expressions ####################################################
 
-- 
2.43.0


From b4f368098f1bed357184d73f7491ce43fae84770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:37 +0000
Subject: [PATCH 37/44] fix: name the tier that lacks an alignment

---
 xigt/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index e4f3626..af5f522 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -303,7 +303,7 @@ def get_aligned_tier(tier, algnattr):
     if tgt_tier_id is None:
         raise XigtAttributeError(
             'Tier {} does not specify an alignment "{}".'
-            .format(tgt_tier_id, algnattr)
+            .format(tier.id, algnattr)
         )
     tgt_tier = tier.igt.get(tgt_tier_id)
     return tgt_tier
-- 
2.43.0


From 3d66ccab0a8562347a9e71c35480d255c4d370e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:38 +0000
Subject: [PATCH 38/44] fix: deprecated resolve_alignment_expression() fails on
 items without a value

---
 xigt/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index af5f522..5968bf7 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -348,10 +348,10 @@ def resolve_alignment(tier, item_id, selection, plus=delim1, comma=delim2):
         return ''
     else:
         if selection == '':
-            return item.get_content()
+            return item.get_content() or ''
         spans = sel_re.findall(selection)
         parts = [plus if match == '+' else
                  comma if match == ',' else
-                 item.span(*map(int, match.split(':')))
+                 item.span(*map(int, match.split(':'))) or ''
                  for match in spans]
         return ''.join(parts)
-- 
2.43.0


From f09b85fed18beb73e1400d9eb11779ec12194021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:09 +0000
Subject: [PATCH 39/44] fix: pop() and += on containers bypassed the id lookup,
 type check and owner

---
 xigt/mixins.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index b981da6..fd54d29 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -137,10 +137,18 @@ class XigtContainerMixin(list):
         for obj in objs:
             self.append(obj)
 
+    def __iadd__(self, objs):
+        self.extend(objs)
+        return self
+
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
         self._delete(self._index(obj))
 
+    def pop(self, idx=-1):
+        # NOTE: this method is destructive. check for broken refs here?
+        return self._delete(idx)
+
     def clear(self):
         self._dict.clear()
         # list.clear doesn't exist in Python2
@@ -158,6 +166,7 @@ class XigtContainerMixin(list):
         obj = list.pop(self, idx)
         if obj.id is not None:
             del self._dict[obj.id]
+        return obj
 
     def _create_id_mapping(self, obj):
         if obj.id is not None:
-- 
2.43.0


From 2bf73c879d24f88538e1c529fa36c364f19962fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:56 +0000
Subject: [PATCH 40/44] fix: XigtXML output of default namespaces was malformed

---
 xigt/codecs/xigtxml.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index a160409..1f63bb6 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -368,15 +368,18 @@ def default_decode_metachild(elem):
 # thanks: http://effbot.org/zone/element-namespaces.htm
 def _build_elem(tag, obj, nscontext):
     ns = getattr(obj, 'namespace', None)
-    revmap = dict((v, k) for k, v in getattr(obj, 'nsmap', {}).items())
-    if revmap.get(ns) is not None:
+    nsmap = getattr(obj, 'nsmap', {})
+    # a default namespace (i.e., without a prefix) is not for attributes
+    revmap = dict((v, k) for k, v in nsmap.items() if k)
+    if ns != nsmap.get('') and revmap.get(ns) is not None:
         tag = '{}:{}'.format(revmap[ns], tag)
     e = Element(tag)
     # element attributes (including namespaces)
     if hasattr(obj, 'nsmap'):
         for pre, uri in obj.nsmap.items():
             if nscontext.get(pre) != uri:
-                e.set(_QName('xmlns:%s' % pre, sortkey=xigt_attrsort), uri)
+                xmlns = 'xmlns:%s' % pre if pre else 'xmlns'
+                e.set(_QName(xmlns, sortkey=xigt_attrsort), uri)
     if getattr(obj, 'id') is not None:
         e.set(_QName('id', sortkey=xigt_attrsort), obj.id)
     if getattr(obj, 'type') is not None:
-- 
2.43.0


From d7b1a57333daffcb170ed354e91011d2e7003655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:04 +0000
Subject: [PATCH 41/44] fix: XigtPath to igts read streamed corpora before
 searching them

---
 xigt/xigtpath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 0303270..d43bcba 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -179,7 +179,8 @@ def _find_child(obj, name):
         if hasattr(obj, 'metadata'):
             results.extend(obj.metadata.select(**kwargs))
         results.extend(obj.select(**kwargs))
-    elif (name == 'igt' and hasattr(obj, 'igts') or
+    # (ask the class, as getting the igts of a streamed corpus reads them)
+    elif (name == 'igt' and hasattr(type(obj), 'igts') or
           name == 'tier' and hasattr(obj, 'tiers') or
           name == 'item' and hasattr(obj, 'items') or
           name == 'meta' and hasattr(obj, 'metas')):
-- 
2.43.0


From 5c97e0c8bd74e9507f578182136cd806a7374778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:04 +0000
Subject: [PATCH 42/44] fix: xigt export could not read documents in other
 encodings than UTF-8

---
 xigt/scripts/xigt_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_export.py b/xigt/scripts/xigt_export.py
index d782433..eb22723 100755
--- a/xigt/scripts/xigt_export.py
+++ b/xigt/scripts/xigt_export.py
@@ -14,7 +14,7 @@ def run(infile, outpath, out_format, config=None):
     elif out_format == 'itsdb':
         import xigt.exporters.itsdb as exporter
     # elif ...
-    with open(infile, 'r') as in_fh:
+    with open(infile, 'rb') as in_fh:
         xc = xigtxml.load(in_fh, mode='transient')
         exporter.xigt_export(xc, outpath, config=cfg)
 
-- 
2.43.0


From ab99358044801237b98c6499319646c05592b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:10 +0000
Subject: [PATCH 43/44] fix: morpheme offsets are not shifted by characters
 whose lower case is longer

---
 xigt/importers/toolbox.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 09c6ee2..d34699e 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -300,7 +300,9 @@ def align_word(tier_type, s, src_data):
     beg = 0
     end = 0
     tgt_tok, src_toks = src_data
-    tgt_tok = tgt_tok.lower()  # This may cause problems with diacriticals!
+    low_tok = tgt_tok.lower()
+    if len(low_tok) == len(tgt_tok):  # offsets are those of the word as written
+        tgt_tok = low_tok
     if tier_type == 'words':
         for i in range(s):
             beg += len(src_toks[i])
-- 
2.43.0


From 1451dec600ad4b8cc527e082b85f8f8ac4815986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:02 +0000
Subject: [PATCH 44/44] fix: columns were shifted in Toolbox lines with
 non-ASCII markers

---
 xigt/importers/toolbox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index d34699e..23b62a1 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -361,7 +361,8 @@ def _respace_decode(line, encoding, respace=True):
     for match in re.finditer(b'\\s*\\S+\\s*', line):
         length = match.end() - match.start()
         tok = match.group().decode(encoding)
-        if respace:
+        # (columns are counted after the marker)
+        if respace and not (match.start() == 0 and tok.startswith('\\')):
             tok = tok.ljust(length)
         toks.append(tok)
     return ''.join(toks)
-- 
2.43.0

