From a18bd81d740353b45b0a0961ff82282aee9a0433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 01/40] fix: parsing an id drops the leading blanks of its
 strings

---
 whatami/parsers.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 7cd8852..fbafd2e 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -49,7 +49,8 @@ def build_whatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # N.B. a single token (including the quotes), so blanks within the string are not skipped
+        return RegExMatch(r"'(\\[\s\S]|[^'\\])*'")
 
     def a_true():
         return StrMatch('True')
@@ -151,12 +152,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
             return float(node.value)
 
     @staticmethod
-    def visit_a_string(_, children):
-        if 1 == len(children):
-            return children[0]
-        elif 0 == len(children):
-            return ''
-        raise ValueError('unexpected string children: %r' % children)  # pragma: no cover
+    def visit_a_string(node, _):
+        return node.value[1:-1]
 
     @staticmethod
     def visit_a_true(*_):
@@ -343,7 +340,8 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # N.B. a single token (including the quotes), so blanks within the string are not skipped
+        return RegExMatch(r"'(\\[\s\S]|[^'\\])*'")
 
     def a_true():
         return StrMatch('True')
-- 
2.43.0


From 78f0f7ba65d10c169244ecbd802efca94ef7a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 02/40] fix: unparseable ids for strings with backslashes
 before a quote or at the end

---
 whatami/plugins.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index f20fd10..00d30ca 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -7,6 +7,7 @@ from __future__ import print_function, absolute_import
 from future.utils import string_types, PY2
 
 import inspect
+import re
 from collections import OrderedDict
 from functools import partial
 
@@ -129,12 +130,9 @@ def string_plugin(v):
     This is a single-quoted string with single-quoted characters escaped.
     """
     if isinstance(v, string_types):
-        return '\'%s\'' % v.replace("\\'", "'").replace("'", "\\'")
-        # This is correct because of these relations:
-        # "'" == "\'"
-        # "\\'" == "\\\'"
-        # "\\\\'" => == "\\\\\'"
-        # ...
+        # Keep escaped characters (including quotes), escape bare quotes and a final, unpaired, backslash
+        return '\'%s\'' % re.sub(r"(\\[\s\S])|(['\\])",
+                                 lambda match: match.group(1) or '\\' + match.group(2), v)
 
 
 # --- Function plugins
-- 
2.43.0


From d86d89af760691f523111a9c19d51aa54e1cf2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 03/40] fix: frozensets in ids are parsed as (unhashable) sets

---
 whatami/parsers.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index fbafd2e..1fbb091 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -90,19 +90,27 @@ def build_whatami_parser(reduce_tree=False, debug=False):
         return StrMatch('{'), Optional(dict_elements), StrMatch('}')
 
     def an_empty_set():
-        return [StrMatch('set()'), StrMatch('frozenset()')]
+        return StrMatch('set()')
 
     def a_non_empty_set():
-        return [(StrMatch('{'), list_elements, StrMatch('}')),
-                (StrMatch('frozenset({'), list_elements, StrMatch('})'))]
+        return StrMatch('{'), list_elements, StrMatch('}')
 
     def a_set():
         return [an_empty_set, a_non_empty_set]
 
+    def an_empty_frozenset():
+        return StrMatch('frozenset()')
+
+    def a_non_empty_frozenset():
+        return StrMatch('frozenset({'), list_elements, StrMatch('})')
+
+    def a_frozenset():
+        return [an_empty_frozenset, a_non_empty_frozenset]
+
     # Key-values
 
     def value():
-        return [a_none, a_bool, a_number, a_string, a_tuple, a_list, a_set, a_dict, a_class, whatami_id]
+        return [a_none, a_bool, a_number, a_string, a_tuple, a_list, a_set, a_frozenset, a_dict, a_class, whatami_id]
 
     def kv():
         return an_id, StrMatch('='), value
@@ -221,6 +229,14 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     def visit_a_non_empty_set(_, children):
         return set(list(children[0]))
 
+    @staticmethod
+    def visit_an_empty_frozenset(*_):
+        return frozenset()
+
+    @staticmethod
+    def visit_a_non_empty_frozenset(_, children):
+        return frozenset(list(children[0]))
+
     # Key-values
 
     @staticmethod
-- 
2.43.0


From 9fdc1afe3a59115dc9dc614e9af9d44eb60a5c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 04/40] fix: nested ids with names starting like a constant
 (nanmean(), infer()) cannot be parsed

---
 whatami/parsers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 1fbb091..b768abf 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -34,6 +34,7 @@ def build_whatami_parser(reduce_tree=False, debug=False):
         return StrMatch(',')
 
     # Basic types
+    # N.B. constants are not followed by (=, so they do not hide the names of nested ids (e.g. "nanmean()")
 
     def an_id():
         # These account for valid python 2 identifiers. Python 3 allow unicode in identifiers.
@@ -46,23 +47,23 @@ def build_whatami_parser(reduce_tree=False, debug=False):
 
     def a_number():
         return [RegExMatch('-?\d+((\.\d*)?((e|E)(\+|-)?\d+)?)?'),
-                StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
+                RegExMatch(r'(-?inf|nan)(?![\w(=])')]
 
     def a_string():
         # N.B. a single token (including the quotes), so blanks within the string are not skipped
         return RegExMatch(r"'(\\[\s\S]|[^'\\])*'")
 
     def a_true():
-        return StrMatch('True')
+        return RegExMatch(r'True(?![\w(=])')
 
     def a_false():
-        return StrMatch('False')
+        return RegExMatch(r'False(?![\w(=])')
 
     def a_bool():
         return [a_true, a_false]
 
     def a_none():
-        return StrMatch('None')
+        return RegExMatch(r'None(?![\w(=])')
 
     # Classes / types
 
-- 
2.43.0


From 46daa0fe32441bd729f2f05c13b7221593343f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 05/40] fix: ids with an output name and no parameters cannot
 be parsed

---
 whatami/parsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index b768abf..2f496f0 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -5,6 +5,7 @@
 # Licence: BSD 3 clause
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
+from future.utils import string_types
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
 from whatami import maybe_import
 
@@ -263,6 +264,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
         elif 2 == len(children):
             an_id, kvs = children
             out_name = None
+            if isinstance(kvs, string_types):  # no parameters: out_name=an_id()
+                out_name, an_id, kvs = an_id, kvs, []
         else:
             an_id = children[0]
             kvs = []
-- 
2.43.0


From c1c039602c6761562604661277acd80483dcd693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 06/40] fix: ids with builtin classes cannot be parsed

---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 2f496f0..a073716 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -190,7 +190,7 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     def visit_a_class(_, children):
         module, _, clazz = children[0].rpartition('.')
         try:
-            return getattr(maybe_import(module), clazz)
+            return getattr(maybe_import(module or object.__module__), clazz)
         except (ImportError, AttributeError):
             # Unfortunately it breaks roundtripping, but is a lesser evil
             return {'class': children[0]}
-- 
2.43.0


From 05b297ea586c99a26048ebcf530c6d6c876c80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 07/40] fix: ids with configurations as set elements or
 dictionary keys cannot be parsed

---
 whatami/what.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 0f85db4..71f5665 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -202,6 +202,10 @@ class What(object):
                 hasattr(other, 'conf') and self.conf == other.conf and
                 hasattr(other, 'out_name') and self.out_name == other.out_name)
 
+    def __hash__(self):
+        """Equal configurations hash alike (N.B. conf is mutable and possibly unhashable, so it is not considered)."""
+        return hash((self.name, self.out_name))
+
     def __str__(self):
         """The default representation is the configuration string including non_ids keys."""
         return self.id(nonids_too=True)
-- 
2.43.0


From d20f7ab5c5828cf6b1ca9d0d0a5d5f6d43199a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 08/40] fix: What.get and whatid2columns fail if a nested key
 does not exist

---
 whatami/what.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/whatami/what.py b/whatami/what.py
index 71f5665..69781f8 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -225,12 +225,15 @@ class What(object):
         except KeyError:
             if isinstance(item, tuple):
                 w = self.conf
-                for key in item:
-                    try:
-                        w = w[key]
-                    except TypeError:
-                        w = w.what()[key]
-                return w
+                try:
+                    for key in item:
+                        try:
+                            w = w[key]
+                        except TypeError:
+                            w = w.what()[key]
+                    return w
+                except (AttributeError, IndexError, TypeError):
+                    pass  # the path goes through something without that key
             raise
 
     def get(self, item, default=None):
-- 
2.43.0


From 5aa791ae19c5f34670c581693fcc606ec235cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 09/40] fix: flatten fails for dictionaries with keys of
 several types

---
 whatami/what.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 69781f8..6cfc730 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -175,7 +175,11 @@ class What(object):
             elif isinstance(what, (list, tuple)) and collections_too:
                 kvs = enumerate(what)
             elif isinstance(what, dict) and collections_too:
-                kvs = sorted(what.items())
+                try:
+                    kvs = sorted(what.items())
+                except TypeError:  # unorderable keys
+                    from whatami.plugins import WhatamiPluginManager
+                    kvs = sorted(what.items(), key=lambda kv: WhatamiPluginManager.build_string(kv[0]))
             else:
                 kvs = ()
             for k, v in kvs:
-- 
2.43.0


From dcb75f8f00715d869e88fc76bd743dfece4b33c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 10/40] fix: to_dict and id2dict leave What objects inside
 collections

---
 whatami/whatutils.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 8f41fff..6a61c59 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -82,6 +82,27 @@ def what2id(obj):
 id2what = parse_whatid
 
 
+def _whats2dicts(v):
+    """Converts all the What objects in v, including those nested in collections, to something json/yaml friendly."""
+    if isinstance(v, What):
+        return v.to_dict()
+    if isinstance(v, (list, tuple)):
+        return type(v)(map(_whats2dicts, v))
+    # Dictionaries are not hashable, so they cannot be set members or dictionary keys; use their ids there
+    if isinstance(v, (set, frozenset)):
+        return type(v)(map(_hashable_whats2ids, v))
+    if isinstance(v, dict):
+        return {_hashable_whats2ids(k): _whats2dicts(dict_v) for k, dict_v in v.items()}
+    return v
+
+
+def _hashable_whats2ids(v):
+    """Replaces all the What objects in the hashable v with their ids."""
+    if isinstance(v, What):
+        return v.id()
+    return type(v)(map(_hashable_whats2ids, v)) if isinstance(v, (tuple, frozenset)) else v
+
+
 def id2dict(whatid):
     """
     Makes a dictionary out of a whatami id.
@@ -98,8 +119,7 @@ def id2dict(whatid):
     what = id2what(whatid)
     return {'whatami_name': what.name,
             'whatami_out_name': what.out_name,
-            'whatami_conf': {k: (v if not isinstance(v, What) else v.to_dict())
-                             for k, v in what.conf.items()}}
+            'whatami_conf': {k: _whats2dicts(v) for k, v in what.conf.items()}}
 
 
 def obj2what(obj,
-- 
2.43.0


From 480616ac3d81a2f2beb6004920a7a1ef1458ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 11/40] fix: WhatamiRegistry.remove always fails if given both
 nickname and what

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index b627b2d..fcf0304 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -70,7 +70,7 @@ class WhatamiRegistry(object):
             whatid = self.nick2id(nickname)
         else:
             old_whatid = self.nick2id(nickname)
-            old_nick = self.id2nick(nickname)
+            old_nick = self.id2nick(whatid)
             if old_whatid != whatid or old_nick != nickname:
                 raise ValueError('both whatid "%s"=="%s" and nickname "%s"=="%s" identities must hold' %
                                  (whatid, old_whatid, nickname, old_nick))
-- 
2.43.0


From 9c997a440b6b76d67cf6375652dc8cdaabd3226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 12/40] fix: sorting no whats or whatids does not return a pair

---
 whatami/whatutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 6a61c59..149b9e7 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -177,6 +177,11 @@ def whatvalues(what, keys=()):
     return tuple(what[key] for key in keys)
 
 
+def _unzip(pairs):
+    """Returns a pair of tuples from a list of pairs."""
+    return tuple(zip(*pairs)) if pairs else ((), ())
+
+
 def sort_whats(whats, *keys):
     """
     Sorts a list of What objects according to the value of some parameters.
@@ -195,7 +200,7 @@ def sort_whats(whats, *keys):
     """
     values = [whatvalues(what, keys) for what in whats]
     # noinspection PyTypeChecker
-    return tuple(zip(*[(whatid, value) for value, whatid in sorted(zip(values, whats), key=itemgetter(0))]))
+    return _unzip([(whatid, value) for value, whatid in sorted(zip(values, whats), key=itemgetter(0))])
 
 
 def sort_whatids(whatids, *keys):
@@ -217,7 +222,7 @@ def sort_whatids(whatids, *keys):
     whats = map(id2what, whatids)  # if this is bottleneck, allow to pass what themselves
     values = [whatvalues(what, keys) for what in whats]
     # noinspection PyTypeChecker
-    return tuple(zip(*[(whatid, value) for value, whatid in sorted(zip(values, whatids), key=itemgetter(0))]))
+    return _unzip([(whatid, value) for value, whatid in sorted(zip(values, whatids), key=itemgetter(0))])
 
 
 def call2what(depth=1, non_id_keys=None):
-- 
2.43.0


From 6f3a6ac253af0a2dbe3b87b2a8bb0ba8780021f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 13/40] fix: callable2call fails if a partial overrides a
 default by position

---
 whatami/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 4537a41..82c7c94 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -304,8 +304,10 @@ def callable2call(c, closure_extractor=lambda c: c):
             args = [] if not args else args
             args_set = set(args)
             # Check that everything is fine...
-            keywords = dict(chain(zip(args[-len(defaults):], defaults), keywords.items()))  # N.B. order matters
             pos2keyword = dict(zip(args[:len(positional)], positional))  # N.B. order matters
+            keywords = dict(chain(((arg, default) for arg, default in zip(args[-len(defaults):], defaults)
+                                   if arg not in pos2keyword),
+                                  keywords.items()))  # N.B. order matters
             keywords_set = set(keywords.keys())
             if len(keywords_set - args_set) > 0:
                 raise ValueError('Some partial %r keywords are not parameters of the function %s' %
-- 
2.43.0


From e707ffad75defa4fd4316938713cf874394313f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 14/40] fix: instances of whatable classes defining __call__
 cannot be introspected

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 82c7c94..fd3b613 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -326,7 +326,7 @@ def callable2call(c, closure_extractor=lambda c: c):
                 c.func,
                 positional=positional + list(c.args),                  # N.B. order matters
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
-        if hasattr(c, '__call__'):
+        if hasattr(c, '__call__') and hasattr(c, '__name__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
             return c.__name__, keywords
         raise ValueError('Only callables (partials, functions, builtins...) are allowed, %r is none of them' % c)
-- 
2.43.0


From 5939075af61bfc72c7d3d092a1ee4d7265709a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 15/40] fix: whatable functions ignore non_id_keys and share
 the conf of all their whats

---
 whatami/what.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 6cfc730..077dede 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -526,7 +526,8 @@ def whatable(obj=None,
         # Adds what method
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
-            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=excludes)
+            non_ids = list(excludes) + list(() if non_id_keys is None else non_id_keys)
+            whatablefunc.what = lambda: What(name=name, conf=config_dict.copy(), non_id_keys=non_ids)
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From 704deb0653102975e52ffe33ddb389c710a679db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 16/40] fix: old-style ids with empty dictionaries cannot be
 parsed

---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index a073716..ce42600 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -399,7 +399,7 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
         return StrMatch('set()')
 
     def a_non_empty_set():
-        return StrMatch('{'), Optional(list_elements), StrMatch('}')
+        return StrMatch('{'), list_elements, StrMatch('}')
 
     def a_set():
         return [an_empty_set, a_non_empty_set]
-- 
2.43.0


From 5de74d315b91da66f2013d91a07cf783837a636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 17/40] fix: positional_id repeats the values of nested whats

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 077dede..864e5fd 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -293,7 +293,7 @@ class What(object):
         """
         from whatami.plugins import WhatamiPluginManager
         my_id = '%s(%s)' % (self.name, ','.join(map(WhatamiPluginManager.build_string,
-                                                    self.values(non_ids_too=non_ids_too))))
+                                                    self.values(non_ids_too=non_ids_too, recursive=False))))
         if self.out_name is not None:
             my_id = '%s=%s' % (self.out_name, my_id)
         return self._trim_too_long(my_id, maxlength=maxlength)
-- 
2.43.0


From 3e468e643c062d65e9387619d229eae970f06f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 18/40] fix: whatareyou loses the elements of frozensets and of
 set subclasses

---
 whatami/what.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 864e5fd..12a635b 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -355,7 +355,7 @@ def whatareyou(obj,
                                     add_slots=add_slots,
                                     add_properties=add_properties,
                                     add_class=add_class)
-        if type(obj) in (list, tuple, set, dict):  # N.B. do not use isinstance here
+        if type(obj) in (list, tuple, set, frozenset, dict):  # N.B. do not use isinstance here
             cd['seq'] = obj
         elif isinstance(obj, dict):
             cd['seq'] = {k: v for k, v in obj.items()}
@@ -363,6 +363,8 @@ def whatareyou(obj,
             cd['seq'] = tuple(obj)
         elif isinstance(obj, list):
             cd['seq'] = list(obj)
+        elif isinstance(obj, (set, frozenset)):
+            cd['seq'] = set(obj)
     return What(name=name if name_override is None else name_override,
                 conf=trim_dict(cd,
                                exclude_prefix=exclude_prefix,
-- 
2.43.0


From 8fa9c41473ab8921676de65928a9a026cc6342d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 19/40] fix: maybe_import returns the last importable variant
 instead of the first

---
 whatami/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index fd3b613..bf92a3c 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -711,6 +711,7 @@ class _LazyImportError(object):
         for variant in variants:
             try:
                 self.module = import_module(variant)
+                break
             except ImportError as ie:
                 self._errors.append((variant, ie))
         # Autogenerate install hint
-- 
2.43.0


From f7ed653d38420fc6b8434658ef655e313dc29a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 20/40] fix: Recorder.add cannot deal iterables to ids that are
 not strings or are named like parameters

---
 whatami/registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index fcf0304..bc4db9c 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -106,8 +106,8 @@ class WhatamiRegistry(object):
 
 class _DefaultDict(dict):
     """Like collections.defaultdict, but does not add missing keys to the dictionary."""
-    def __init__(self, default, **kwargs):
-        super(_DefaultDict, self).__init__(**kwargs)
+    def __init__(self, default, items=()):
+        super(_DefaultDict, self).__init__(items)
         self.default = default
 
     def __getitem__(self, key):
@@ -561,7 +561,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             if warn and len(ids) != len(params):  # pragma: no cover
                 print('WARNING: number of names is different to the number of parameters (%d != %d)' %
                       (len(ids), len(params)))
-            return _DefaultDict(None, **dict(zip(ids, params)))
+            return _DefaultDict(None, zip(ids, params))
         return _DefaultDict(default=params)
 
     def add(self, ids, unbox_iterables=True,
-- 
2.43.0


From c3c36dfedde6bb54ba626551cbf0038d70ec2e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 21/40] fix: Recorder.add without id_extractor adds nothing for
 ids in a generator

---
 whatami/registry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/whatami/registry.py b/whatami/registry.py
index bc4db9c..d492b9e 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -622,6 +622,8 @@ class Recorder(with_metaclass(_RecorderMeta)):
         # Get whatami ids (maybe this should be left to the caller)
         if self.id_extractor is not None:
             ids = list(map(self.id_extractor, ids))
+        else:
+            ids = list(ids)  # ids can be a generator, and we need to iterate more than once
         # Expand iterables to field assignments
         config_dict = {param: self._params2dict(ids, value, unbox_iterables)
                        for param, value in columns.items()}
-- 
2.43.0


From 2a01c51682cf734769d91a533f4b0acf59347156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 22/40] fix: Recorders share and modify the list of
 postprocessors they are given

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index d492b9e..a93bfee 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -512,7 +512,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             raise ValueError('id_column_name must be a string')  # pragma: no cover
         self.id_column_name = id_column_name
         self._column_defaults = column_defaults
-        self._record_postprocessors = [] if not record_postprocessors else record_postprocessors
+        self._record_postprocessors = [] if not record_postprocessors else list(record_postprocessors)
 
     # --- Column defaults
 
-- 
2.43.0


From eaa7d39da5bdb6bed2f0bfa7b9d623f645142591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 23/40] fix: unregistered sklearn objects without get_params
 cannot be described

---
 whatami/wrappers/what_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index a8c2f90..7b8c875 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -603,8 +603,8 @@ def _what_for_sklearn(x, use_short=True):
     except AttributeError:
         return obj2what(x,
                         force_inspect=True,
-                        name_override=pinfo.short_name if use_short else name,
-                        non_id_keys=pinfo.non_id_params)
+                        name_override=pinfo.short_name if use_short and pinfo is not None else name,
+                        non_id_keys=pinfo.non_id_params if pinfo is not None else None)
     if pinfo is not None:
         return What(pinfo.short_name if use_short else name,
                     conf=configuration_dict,
-- 
2.43.0


From 86d22f8e3cf80198a6dcfa13ecfd6b6bd29cea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 24/40] fix: hash partially ordered and frozen sets
 consistently

---
 whatami/minijoblib/hashing.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index a46a360..f243a98 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -23,6 +23,17 @@ else:
     Pickler = pickle.Pickler
 
 
+def _consistent_order(items):
+    """ Sorts items, raising TypeError if that does not lead to the same
+        order whatever the original order of the items.
+    """
+    items = sorted(items)
+    # This does not hold if the order is partial (e.g. with sets or nans)
+    if not all(a < b for a, b in zip(items, items[1:])):
+        raise TypeError('items are not totally ordered')
+    return items
+
+
 class _ConsistentSet(object):
     """ Class used to ensure the hash of Sets is preserved
         whatever the order of its items.
@@ -34,13 +45,19 @@ class _ConsistentSet(object):
             # consistent and orderable.
             # This fails on python 3 when elements are unorderable
             # but we keep it in a try as it's faster.
-            self._sequence = sorted(set_sequence)
+            self._sequence = _consistent_order(set_sequence)
         except TypeError:
             # If elements are unorderable, sorting them using their hash.
             # This is slower but works in any case.
             self._sequence = sorted((hasher(e) for e in set_sequence))
 
 
+class _ConsistentFrozenSet(_ConsistentSet):
+    """ Class used to ensure the hash of frozen sets is preserved
+        whatever the order of its items.
+    """
+
+
 class _MyHash(object):
     """ Class used to hash objects that won't normally pickle """
 
@@ -143,7 +160,7 @@ class Hasher(Pickler):
             # consistent and orderable.
             # This fails on python 3 when keys are unorderable
             # but we keep it in a try as it's faster.
-            Pickler._batch_setitems(self, iter(sorted(items)))
+            Pickler._batch_setitems(self, iter(_consistent_order(items)))
         except TypeError:
             # If keys are unorderable, sorting them using their hash. This is
             # slower but works in any case.
@@ -156,6 +173,12 @@ class Hasher(Pickler):
 
     dispatch[type(set())] = save_set
 
+    def save_frozenset(self, set_items):
+        # forces order of items in frozensets to ensure consistent hash
+        Pickler.save(self, _ConsistentFrozenSet(set_items))
+
+    dispatch[type(frozenset())] = save_frozenset
+
 
 class NumpyHasher(Hasher):
     """ Special case the hasher for when numpy is loaded.
-- 
2.43.0


From 0ed130f07832b83e3b5ffc189c7c78f80a8b135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 25/40] fix: hash all the contents of ordered and default
 dictionaries with unorderable keys

---
 whatami/minijoblib/hashing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index f243a98..a63747a 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -155,6 +155,7 @@ class Hasher(Pickler):
 
     def _batch_setitems(self, items):
         # forces order of keys in dict to ensure consistent hash.
+        items = list(items)  # can be an iterator, and we might need to go twice through it
         try:
             # Trying first to compare dict assuming the type of keys is
             # consistent and orderable.
-- 
2.43.0


From 84345ca88f2bd8cf3029494133ee97cf5c798cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 26/40] fix: call2what does not share its configuration with
 the frame of the caller

---
 whatami/whatutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 149b9e7..3d4450d 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -254,7 +254,7 @@ def call2what(depth=1, non_id_keys=None):
     frame, _, _, name, _, _ = inspect.stack()[depth]
     # we could probably be (too) clever here and get only the function parameter values
     # also we could add a parameter to automatically grab only keywords... for next iteration
-    conf_dict = frame.f_locals
+    conf_dict = dict(frame.f_locals)  # N.B. copy, f_locals gets updated as the caller runs
     return What(name, conf=conf_dict, non_id_keys=non_id_keys)
 
 
-- 
2.43.0


From 61489a863d98b46d4000e88ffc2565bd52b2a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 27/40] fix: maybe_import_member always fails if given variants

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index bf92a3c..9490f09 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -787,7 +787,7 @@ def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None,
     if not module:
         raise ValueError('Please provide a FQN, including module name (was given %r)' % member_fqn)
     try:
-        return getattr(maybe_import(module, install_msg=install_msg, *variants), member)
+        return getattr(maybe_import(module, install_msg, *variants), member)
     except ImportError:
         if fail_if_import_error:
             raise
-- 
2.43.0


From 2e1b2f1ffe60aa283197654df8e058084af713b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 28/40] fix: arguments of nested partial applications are
 reported in the order of the call

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 9490f09..28bca71 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -324,7 +324,7 @@ def callable2call(c, closure_extractor=lambda c: c):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
                 c.func,
-                positional=positional + list(c.args),                  # N.B. order matters
+                positional=list(c.args) + positional,                  # N.B. order matters
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
         if hasattr(c, '__call__') and hasattr(c, '__name__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
-- 
2.43.0


From 91bf5f4c923ebce0a4129414cb99a6a5a3da9cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 29/40] fix: whatable(force_flag_as_whatami=True) failed with
 instances, as bound methods cannot be marked

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 12a635b..1fd6d3a 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -545,7 +545,7 @@ def whatable(obj=None,
             # mark this method as a whatami method
             # http://legacy.python.org/dev/peps/pep-0232/
             # http://stackoverflow.com/questions/23345005/does-pep-232-also-works-for-instance-methods
-            to_annotate = obj.what.__func__ if not PY3 else obj.what
+            to_annotate = getattr(obj.what, '__func__', obj.what)  # bound methods do not allow attributes
             to_annotate.whatami = True
             return obj
         else:
-- 
2.43.0


From 20819c4ddcc05f2a92faf1c97983bc727ff2aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 30/40] fix: objects with slots that are declared but not set
 could not be inspected

---
 whatami/misc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 28bca71..7129304 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -401,8 +401,14 @@ def _slotsdict(obj):
     {'prop': 3}
     """
     descriptors = inspect.getmembers(obj.__class__, inspect.isdatadescriptor)
-    return {dname: value.__get__(obj) for dname, value in descriptors if
-            '__weakref__' != dname if inspect.ismemberdescriptor(value)}
+    slots = {}
+    for dname, value in descriptors:
+        if '__weakref__' != dname and inspect.ismemberdescriptor(value):
+            try:
+                slots[dname] = value.__get__(obj)
+            except AttributeError:
+                pass  # declared, but not set in this object
+    return slots
 
 
 def _propsdict(obj):
-- 
2.43.0


From ff28767fc0c37e65fbcbcad37af89232accedea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 31/40] fix: trim_dict dropped everything without a prefix or
 postfix to exclude

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 7129304..3713e79 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -488,8 +488,8 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     A copy of cd with only the allowed keys.
     """
     return {k: v for k, v in cd.items() if
-            (exclude_prefix and not k.startswith(exclude_prefix)) and
-            (exclude_postfix and not k.endswith(exclude_postfix)) and
+            not (exclude_prefix and k.startswith(exclude_prefix)) and
+            not (exclude_postfix and k.endswith(exclude_postfix)) and
             k not in set(excludes)}
 
 
-- 
2.43.0


From d4befd2847204a6dd4667c1b01ee2e576c733243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 32/40] fix: import_submodules looked for submodules in
 top-level packages named like a subpackage

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 3713e79..b285f79 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -8,7 +8,7 @@ from __future__ import absolute_import
 # noinspection PyProtectedMember
 from future.utils import PY3, string_types
 
-from pkgutil import walk_packages
+from pkgutil import iter_modules
 
 from functools import partial
 from itertools import chain
@@ -827,7 +827,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 return results
             raise
     results[package.__name__] = package
-    for _, name, is_pkg in walk_packages(package.__path__):
+    for _, name, is_pkg in iter_modules(package.__path__):
         full_name = package.__name__ + '.' + name
         try:
             results[full_name] = import_module(full_name)
-- 
2.43.0


From a935de7bf770611af72f4e477ce1080633544551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 33/40] fix: import_submodules ignored errors in subpackages
 even when asked to raise them

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index b285f79..c73878f 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -836,7 +836,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 raise
         if recurse_packages and is_pkg:
             try:
-                results.update(import_submodules(full_name))
+                results.update(import_submodules(full_name, recurse_packages, ignore_errors))
             except ImportError:  # pragma: no cover
                 if not ignore_errors:
                     raise
-- 
2.43.0


From 32261e6d1f0d0fbf125e9cdfcf887b2b0273a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:32 +0000
Subject: [PATCH 34/40] fix: has_numpy, has_pandas and the plugins using them
 failed or lied when the libraries are missing

---
 whatami/plugins.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index 00d30ca..8b1f494 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -10,6 +10,7 @@ import inspect
 import re
 from collections import OrderedDict
 from functools import partial
+from types import ModuleType
 
 from whatami import getargspec, is_whatable
 
@@ -202,7 +203,7 @@ np = maybe_import('numpy', 'conda')
 
 def has_numpy():
     """Returns True iff numpy can be imported."""
-    return inspect.ismodule(np)
+    return issubclass(type(np), ModuleType)  # N.B. any access to np fails if it could not be imported
 
 
 pd = maybe_import('pandas', 'conda')
@@ -210,26 +211,26 @@ pd = maybe_import('pandas', 'conda')
 
 def has_pandas():
     """Returns True iff pandas can be imported."""
-    return pd is not None
+    return issubclass(type(pd), ModuleType)  # N.B. any access to pd fails if it could not be imported
 
 
 def numpy_plugin(v):
     """Represents numpy arrays as "class(hash='xxx')"."""
-    if np is not None and hasher is not None:
+    if has_numpy() and hasher is not None:
         if isinstance(v, np.ndarray):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
 
 
 def rng_plugin(v):
     """Represents a numpy rng as a string RandomState(state=xxx)."""
-    if np is not None and hasher is not None:
+    if has_numpy() and hasher is not None:
         if isinstance(v, np.random.RandomState):
             return "%s(state=%s)" % (v.__class__.__name__, whatareyou(v.__getstate__()).id())
 
 
 def pandas_plugin(v):
     """Represents pandas objects as any of "DataFrame(hash='xxx')" or "Series(hash='xxx')"."""
-    if pd is not None and hasher is not None:
+    if has_pandas() and hasher is not None:
         if isinstance(v, (pd.DataFrame, pd.Series)):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
     #
-- 
2.43.0


From f131f4583fabb61bc128d915eaab81cd1673b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:47 +0000
Subject: [PATCH 35/40] fix: parsing ids from several threads at once failed or
 mixed the ids up

---
 whatami/parsers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index ce42600..5c7a146 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -5,6 +5,7 @@
 # Licence: BSD 3 clause
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
+from threading import RLock
 from future.utils import string_types
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
 from whatami import maybe_import
@@ -279,6 +280,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
 
 DEFAULT_WHATAMI_PARSER = build_whatami_parser()
 DEFAULT_WHATAMI_VISITOR = WhatamiTreeVisitor()
+# Parsers keep the state of the parse and are shared, so they can be used by only one thread at a time
+_PARSING_LOCK = RLock()
 
 
 def parse_whatid(id_string, parser=None, visitor=None):
@@ -320,7 +323,9 @@ def parse_whatid(id_string, parser=None, visitor=None):
     if visitor is None:
         visitor = DEFAULT_WHATAMI_VISITOR
     try:
-        return visit_parse_tree(parser.parse(id_string), visitor=visitor)
+        with _PARSING_LOCK:
+            parse_tree = parser.parse(id_string)
+        return visit_parse_tree(parse_tree, visitor=visitor)
     except TypeError:
         # Remove this once arpeggio is released with this fix:
         # https://github.com/igordejanovic/Arpeggio/pull/21
-- 
2.43.0


From fd88148abbc2507703accbfc3c869980abbe8079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:48 +0000
Subject: [PATCH 36/40] fix: digits of other alphabets are not numbers in ids

The language of ids has ascii numbers only, but \d also matched, for example, arabic-indic digits.
---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 5c7a146..faa3888 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -48,7 +48,7 @@ def build_whatami_parser(reduce_tree=False, debug=False):
         return RegExMatch(r'[_A-Za-z][_a-zA-Z0-9]*')
 
     def a_number():
-        return [RegExMatch('-?\d+((\.\d*)?((e|E)(\+|-)?\d+)?)?'),
+        return [RegExMatch('-?[0-9]+((\.[0-9]*)?((e|E)(\+|-)?[0-9]+)?)?'),
                 RegExMatch(r'(-?inf|nan)(?![\w(=])')]
 
     def a_string():
-- 
2.43.0


From 72e8f942c094deefffdfd88cfe4835dce1d6911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:47 +0000
Subject: [PATCH 37/40] fix: frames of recorders failed with ids of several
 types or records without attributes

---
 whatami/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index a93bfee..fa158cf 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -691,4 +691,5 @@ class Recorder(with_metaclass(_RecorderMeta)):
         Returns a pandas dataframe with records in rows and as many columns as different attributes.
         It is sorted by insertion order.
         """
-        return pd.DataFrame.from_dict(self._registry, orient='index').loc[self._registry.keys()]
+        # N.B. from_dict would need to sort the ids and would miss records without attributes
+        return pd.DataFrame(list(self._registry.values()), index=list(self._registry.keys()))
-- 
2.43.0


From bb660e0c8b11ccf5c85c2b86372bede0c199bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 38/40] fix: trim_dict excluded nothing but from the first key
 when given a generator

---
 whatami/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index c73878f..30ccc4b 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -487,10 +487,11 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     -------
     A copy of cd with only the allowed keys.
     """
+    excludes = set(excludes)  # N.B. it can be a generator
     return {k: v for k, v in cd.items() if
             not (exclude_prefix and k.startswith(exclude_prefix)) and
             not (exclude_postfix and k.endswith(exclude_postfix)) and
-            k not in set(excludes)}
+            k not in excludes}
 
 
 def config_dict_for_object(obj,
-- 
2.43.0


From 95f3b3c470073b671e76a77d5af7b75a246bcc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 39/40] fix: match_whatids ignored only the first key when
 given an iterator

---
 whatami/whatutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 3d4450d..26ba82d 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -324,6 +324,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
     # Slow but somehow clear implementation ahead, based on What.flatten
     # Alternatives: nasty recursion, make flatten take a visitor that can abort...
 
+    ignored_keys = set(ignored_keys)  # N.B. it can be an iterator
     template_what = id2what(template_whatid)
     template_name = template_what.name
     template_keys, template_values = template_what.flatten(non_ids_too=non_ids_too,
@@ -340,7 +341,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
 
     def not_ignored_values(keys, values):
         return [(value.name, value.out_name) if isinstance(value, What) else value
-                for key, value in zip(keys, values) if not ignore_key(key, set(ignored_keys))]
+                for key, value in zip(keys, values) if not ignore_key(key, ignored_keys)]
 
     def partial_match(what, template_values):
         if what.name != template_name:
-- 
2.43.0


From cae570e142422982e532a68b456503f179d7a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:08 +0000
Subject: [PATCH 40/40] fix: what() of whatamised objects forgot non-ids and
 excludes given as generators after the first call

---
 whatami/what.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/whatami/what.py b/whatami/what.py
index 1fd6d3a..86ff006 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -551,17 +551,21 @@ def whatable(obj=None,
         else:
             raise Exception('object already has an attribute what, and is not a whatami what, if you know what I mean')
 
+    # These can be generators, and what() can be called more than once
+    non_ids = None if non_id_keys is None else list(non_id_keys)
+    excluded = list(excludes)
+
     try:
         def whatablefunc(self):
             return whatareyou(self,
-                              non_id_keys=non_id_keys,
+                              non_id_keys=non_ids,
                               add_dict=add_dict,
                               add_slots=add_slots,
                               add_properties=add_properties,
                               add_class=add_class,
                               exclude_prefix=exclude_prefix,
                               exclude_postfix=exclude_postfix,
-                              excludes=excludes)
+                              excludes=excluded)
         whatablefunc = whatfunc if whatfunc is not None else whatablefunc
         whatablefunc.whatami = True
         if inspect.isclass(obj):
-- 
2.43.0

