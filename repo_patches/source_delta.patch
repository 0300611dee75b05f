From eb8fef5372de279a7d998b68d68b919b40b5b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 01/41] fix: check multipleOf when producing integers

---
 pyswagger/primitives/_int.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyswagger/primitives/_int.py b/pyswagger/primitives/_int.py
index a4a9eba..901b26a 100644
--- a/pyswagger/primitives/_int.py
+++ b/pyswagger/primitives/_int.py
@@ -1,10 +1,13 @@
 from __future__ import absolute_import
+from ..errs import ValidationError
 from .comm import min_max
 
 
 def validate_int(obj, ret, val, ctx):
     min_max(obj, ret, False)
     min_max(obj, ret, True)
+    if obj.multipleOf and ret % obj.multipleOf != 0:
+        raise ValidationError('{0} should be multiple of {1}'.format(val, obj.multipleOf))
 
     return val
  
-- 
2.43.0


From 6ed1245bbe6ab940e6fcf6c7868b57e474f77ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 02/41] fix: enforce maxLength when it is zero

---
 pyswagger/primitives/_str.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_str.py b/pyswagger/primitives/_str.py
index a60b51b..5b85ab3 100644
--- a/pyswagger/primitives/_str.py
+++ b/pyswagger/primitives/_str.py
@@ -7,7 +7,7 @@ from validate_email import validate_email
 def validate_str(obj, ret, val, ctx):
     if obj.enum and ret not in obj.enum:
         raise ValidationError('{0} is not a valid enum for {1}'.format(ret, str(obj.enum)))
-    if obj.maxLength and len(ret) > obj.maxLength:
+    if obj.maxLength != None and len(ret) > obj.maxLength:
         raise ValidationError('[{0}] is longer than {1} characters'.format(ret, str(obj.maxLength)))
     if obj.minLength and len(ret) < obj.minLength:
         raise ValidationError('[{0}] is shorter than {1} characters'.format(ret, str(obj.minLength)))
-- 
2.43.0


From 32dfe31c5874626c95deb8a4be91f34c1840c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:07 +0000
Subject: [PATCH 03/41] fix: enforce maxItems when it is zero

---
 pyswagger/primitives/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index e79bb73..1186648 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -51,7 +51,7 @@ class Array(list):
         # init array as list
         if obj.minItems and len(self) < obj.minItems:
             raise ValidationError('Array should be more than {0}, not {1}'.format(obj.minItems, len(self)))
-        if obj.maxItems and len(self) > obj.maxItems:
+        if obj.maxItems != None and len(self) > obj.maxItems:
             raise ValidationError('Array should be less than {0}, not {1}'.format(obj.maxItems, len(self)))
 
         return val
-- 
2.43.0


From fe8358a964c67b7f61f54dcd4335b970ecb253ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 04/41] fix: keep leading empty items when converting arrays to
 text

---
 pyswagger/primitives/_array.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 1186648..842dae6 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -64,10 +64,7 @@ class Array(list):
         :rtype: str
         """
         def _conv(p):
-            s = ''
-            for v in self:
-                s = ''.join([s, p if s else '', str(v)])
-            return s
+            return p.join([str(v) for v in self])
 
         if self.__collection_format == 'csv':
             return _conv(',')
-- 
2.43.0


From a96c3115a5d1924e9887c4a5bbf262f67c53b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:03 +0000
Subject: [PATCH 05/41] fix: apply every part of a composed schema to the same
 value

---
 pyswagger/primitives/__init__.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index edac8cd..c48d011 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -1,4 +1,5 @@
 from __future__ import absolute_import
+from ..errs import CycleDetectionError
 from ..utils import deref, CycleGuard
 from ._int import create_int, validate_int
 from ._str import create_str, validate_str, validate_email_
@@ -203,7 +204,7 @@ class Primitive(object):
             # it's meanless to handle allOf for these types.
             return ret
 
-        def _apply(o, r, v, c):
+        def _apply(o, r, v, c, path=()):
             if hasattr(ret, 'apply_with'):
                 v = r.apply_with(o, v, c)
             else:
@@ -214,6 +215,13 @@ class Primitive(object):
                     _2nd(o, r, v, c)
                     # update it back to context
                     c['2nd_pass'] = _2nd
+
+            # a part might be composed, too
+            for a in getattr(o, 'allOf', None) or []:
+                a = deref(a)
+                if a in path:
+                    raise CycleDetectionError('Cycle detected: {0}'.format(getattr(a, '$ref', None)))
+                v = _apply(a, r, v, c, path + (a,))
             return v
 
         # handle allOf for Schema Object
@@ -222,20 +230,20 @@ class Primitive(object):
             not_applied = []
             for a in allOf:
                 a = deref(a)
-                if not ret:
+                if ret is None:
                     # try to find right type for this primitive.
                     ret = self.produce(a, val, ctx)
                     is_member = hasattr(ret, 'apply_with')
                 else:
-                    val = _apply(a, ret, val, ctx)
+                    val = _apply(a, ret, val, ctx, (a,))
 
-                if not ret:
+                if ret is None:
                     # if we still can't determine the type,
                     # keep this Schema object for later use.
                     not_applied.append(a)
-            if ret:
+            if ret is not None:
                 for a in not_applied:
-                    val = _apply(a, ret, val, ctx)
+                    val = _apply(a, ret, val, ctx, (a,))
 
         if ret != None and hasattr(ret, 'cleanup'):
             val = ret.cleanup(val, ctx)
-- 
2.43.0


From 140e3a88c215dc7d7c6cfc9d8a5253f685b47225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:18 +0000
Subject: [PATCH 06/41] fix: accept required properties declared by another
 part of a composed schema

---
 pyswagger/primitives/_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 087df19..2ee10ad 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -44,7 +44,8 @@ class Model(dict):
             if p.is_set("default"):
                 self[k] = ctx['factory'].produce(p, p.default)
 
-        not_found = set(obj.required) - set(six.iterkeys(self))
+        # values not used yet might belong to other parts of a composed schema
+        not_found = set(obj.required) - set(six.iterkeys(self)) - set(six.iterkeys(val))
         if len(not_found):
             raise ValueError('Model missing required key(s): {0}'.format(', '.join(not_found)))
 
-- 
2.43.0


From edfcce94d58d71b09522e7810f86f4236167242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:09 +0000
Subject: [PATCH 07/41] fix: produce one object from composed schemas that
 allow no additional properties

---
 pyswagger/primitives/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index c48d011..21386dd 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -196,7 +196,7 @@ class Primitive(object):
             if _2nd:
                 val = _2nd(obj, ret, val, ctx)
                 ctx['2nd_pass'] = _2nd
-        elif len(obj.properties) or obj.additionalProperties:
+        elif len(obj.properties) or obj.additionalProperties or (obj.allOf and isinstance(val, dict)):
             ret = Model()
             val = ret.apply_with(obj, val, ctx)
 
-- 
2.43.0


From 6b670b5b1f3e3cffbbbbfd9ef997a1a4d6452204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:37 +0000
Subject: [PATCH 08/41] fix: compose_headers adds the headers of a request to
 the caller's dict

---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 1860d32..309c120 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -580,7 +580,7 @@ class BaseClient(object):
         join_headers = opt.pop(BaseClient.join_headers, None)
         if as_dict and not join_headers:
             # pick the most efficient way for special case
-            headers = dict(headers) if isinstance(headers, list) else headers
+            headers = dict(headers)
             headers.update(req.header)
             return headers
 
-- 
2.43.0


From e5603e5a4b08dc300f717755bbfd385d9a1adba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:37 +0000
Subject: [PATCH 09/41] fix: compose_headers removes join_headers from the
 caller's options

---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 309c120..1791191 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -577,7 +577,7 @@ class BaseClient(object):
             return list(req.header.items()) if not as_dict else req.header
 
         opt = opt or {}
-        join_headers = opt.pop(BaseClient.join_headers, None)
+        join_headers = opt.get(BaseClient.join_headers, None)
         if as_dict and not join_headers:
             # pick the most efficient way for special case
             headers = dict(headers)
-- 
2.43.0


From d3052f780e3ea0ca406e357894cf7c18c272a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:43 +0000
Subject: [PATCH 10/41] fix: reject read-only properties of nested values when
 writing

---
 pyswagger/primitives/_array.py | 4 ++--
 pyswagger/primitives/_model.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 842dae6..67e543b 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -1,6 +1,5 @@
 from __future__ import absolute_import
 from ..errs import ValidationError, SchemaError
-import functools
 import six
 
 
@@ -45,7 +44,8 @@ class Array(list):
                 val = set(val)
 
         if obj.items and len(val):
-            self.extend(map(functools.partial(ctx['factory'].produce, obj.items), val))
+            # items need their own context, but are still read or written
+            self.extend([ctx['factory'].produce(obj.items, v, ctx=dict(read=ctx['read'])) for v in val])
             val = []
 
         # init array as list
diff --git a/pyswagger/primitives/_model.py b/pyswagger/primitives/_model.py
index 2ee10ad..36c05d5 100644
--- a/pyswagger/primitives/_model.py
+++ b/pyswagger/primitives/_model.py
@@ -26,7 +26,7 @@ class Model(dict):
                 if pobj.readOnly == True and ctx['read'] == False:
                     raise Exception('read-only property is set in write context.')
 
-                self[k] = ctx['factory'].produce(pobj, v)
+                self[k] = ctx['factory'].produce(pobj, v, ctx=dict(read=ctx['read']))
 
             # TODO: patternProperties here
             # TODO: fix bug, everything would not go into additionalProperties, instead of recursive
@@ -70,7 +70,7 @@ class Model(dict):
         elif ctx['addp_schema'] != None:
             obj = ctx['addp_schema']
             for k, v in six.iteritems(val):
-                self[k] = ctx['factory'].produce(obj.additionalProperties, v)
+                self[k] = ctx['factory'].produce(obj.additionalProperties, v, ctx=dict(read=ctx['read']))
             ctx['addp_schema'] = None
 
         return {}
-- 
2.43.0


From 4333b80b64b8f54a2a8189406f5383d7b27181b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:34 +0000
Subject: [PATCH 11/41] fix: percent-encode blanks in path parameters

---
 pyswagger/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 75569c2..20c3e62 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -195,7 +195,7 @@ class Request(object):
         # TODO: 'dot' is allowed in swagger, but it won't work in python-format
         path_params = {}
         for k, v in six.iteritems(self.__p['path']):
-            path_params[k] = six.moves.urllib.parse.quote_plus(v)
+            path_params[k] = six.moves.urllib.parse.quote(v, safe='')
 
         self.__path = self.__path.format(**path_params)
 
-- 
2.43.0


From 27cb42c15dce1a80140916fa97d70fbe2790c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:08 +0000
Subject: [PATCH 12/41] fix: build response headers by their type whatever the
 case of their name

---
 pyswagger/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index 20c3e62..bd40d97 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -363,8 +363,11 @@ class Response(object):
         self.__url = self.__op.url
 
     def _convert_header(self, resp, k, v):
-        if resp and resp.headers and k in resp.headers:
-            v = resp.headers[k]._prim_(v, self.__op._prim_factory, ctx=dict(read=True))
+        for name, h in six.iteritems(resp.headers if resp and resp.headers else {}):
+            # header names are case insensitive
+            if name.lower() == k.lower():
+                v = h._prim_(v, self.__op._prim_factory, ctx=dict(read=True))
+                break
 
         if k in self.__header:
             self.__header[k].append(v)
-- 
2.43.0


From 25bd2e1b959b58ce1c950873de1c606cd3a0a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:46 +0000
Subject: [PATCH 13/41] fix: let operations clear the content types of the
 document

---
 pyswagger/scanner/v2_0/patch_obj.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyswagger/scanner/v2_0/patch_obj.py b/pyswagger/scanner/v2_0/patch_obj.py
index e4b1d2b..2467454 100644
--- a/pyswagger/scanner/v2_0/patch_obj.py
+++ b/pyswagger/scanner/v2_0/patch_obj.py
@@ -22,8 +22,11 @@ class PatchObject(object):
         """
         if isinstance(app.root, Swagger):
             # produces/consumes
-            obj.update_field('produces', app.root.produces if len(obj.produces) == 0 else obj.produces)
-            obj.update_field('consumes', app.root.consumes if len(obj.consumes) == 0 else obj.consumes)
+            # (an empty list clears those in Swagger object)
+            if not obj.is_set('produces'):
+                obj.update_field('produces', app.root.produces)
+            if not obj.is_set('consumes'):
+                obj.update_field('consumes', app.root.consumes)
 
         # combine parameters from PathItem
         if obj._parent_:
-- 
2.43.0


From f9e8f26d17a43402e248483767e2e0e5a6e781e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:46 +0000
Subject: [PATCH 14/41] fix: resolve references of documents at the root of
 their host

---
 pyswagger/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 485b245..c59140c 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -387,7 +387,7 @@ def normalize_jr(jr, url=None):
         if p.scheme == '' and url:
             p = six.moves.urllib.parse.urlparse(url)
             # it's the path of relative file
-            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([os.path.dirname(p.path), path]),)+p[3:])
+            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([os.path.dirname(p.path).rstrip('/'), path]),)+p[3:])
             path = derelativise_url(path)
     else:
         path = url
-- 
2.43.0


From 27962cce2b6f91b8a834ffb7d3a1e0a786f5623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:00 +0000
Subject: [PATCH 15/41] fix: take references with an absolute path from the
 host, not from the folder

---
 pyswagger/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index c59140c..6358122 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -386,8 +386,10 @@ def normalize_jr(jr, url=None):
         p = six.moves.urllib.parse.urlparse(path)
         if p.scheme == '' and url:
             p = six.moves.urllib.parse.urlparse(url)
-            # it's the path of relative file
-            path = six.moves.urllib.parse.urlunparse(p[:2]+('/'.join([os.path.dirname(p.path).rstrip('/'), path]),)+p[3:])
+            if not path.startswith('/'):
+                # it's the path of relative file
+                path = '/'.join([os.path.dirname(p.path).rstrip('/'), path])
+            path = six.moves.urllib.parse.urlunparse(p[:2]+(path,)+p[3:])
             path = derelativise_url(path)
     else:
         path = url
-- 
2.43.0


From adc34d120babce472b0e8323855a49002f84a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:23 +0000
Subject: [PATCH 16/41] fix: report unknown authorizations of operations
 instead of failing on them

---
 pyswagger/scanner/v1_2/validate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index ea1d80a..ac91141 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -131,6 +131,7 @@ class Validate(object):
         for k, v in six.iteritems(obj.authorizations or {}):
             if k not in app.raw.authorizations:
                 errs.append('auth {0} not found in resource list'.format(k))
+                continue
 
             if app.raw.authorizations[k].type in ('basicAuth', 'apiKey') and v != []:
                 errs.append('auth {0} should be an empty list'.format(k))
-- 
2.43.0


From bd344162e8f5a05efa9fc93c24d2c06b89c7f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:35 +0000
Subject: [PATCH 17/41] fix: report File parameters of operations without
 content types instead of failing on them

---
 pyswagger/scanner/v1_2/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/validate.py b/pyswagger/scanner/v1_2/validate.py
index ac91141..18ea21a 100644
--- a/pyswagger/scanner/v1_2/validate.py
+++ b/pyswagger/scanner/v1_2/validate.py
@@ -66,7 +66,7 @@ class Validate(object):
         if obj.type == 'File':
             if obj.paramType != 'form':
                 errs.append('File parameter should be form type: {0}'.format(obj.name))
-            if 'multipart/form-data' not in obj._parent_.consumes:
+            if 'multipart/form-data' not in (obj._parent_.consumes or []):
                 errs.append('File parameter should consume multipart/form-data: {0}'.format(obj.name))
 
         if obj.type == 'void':
-- 
2.43.0


From 6e6372ea10e1e7fa1238f91dcacde540aefd65f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:28 +0000
Subject: [PATCH 18/41] fix: reject ISO 8601 texts with anything after the date
 or time

---
 pyswagger/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 6358122..7de907b 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -130,9 +130,9 @@ _iso8601_fmt = re.compile(''.join([
     '(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})', # YYYY-MM-DD
     'T', # T
     '(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{1,2})(\.(?P<microsecond>\d{1,6}))?)?', # hh:mm:ss.ms
-    '(?P<tz>Z|[+-]\d{2}:\d{2})?' # Z or +/-hh:mm
+    '(?P<tz>Z|[+-]\d{2}:\d{2})?\Z' # Z or +/-hh:mm
 ]))
-_iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})') # YYYY-MM-DD
+_iso8601_fmt_date = re.compile('(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z') # YYYY-MM-DD
 
 def from_iso8601(s):
     """ convert iso8601 string to datetime object.
-- 
2.43.0


From 40a0ccce83c5de7522c391816578bc1c4e297edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:28 +0000
Subject: [PATCH 19/41] fix: send the date of a datetime given for a date

---
 pyswagger/primitives/_time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/_time.py b/pyswagger/primitives/_time.py
index 31063aa..517eb40 100644
--- a/pyswagger/primitives/_time.py
+++ b/pyswagger/primitives/_time.py
@@ -30,6 +30,8 @@ class Date(Time):
         self.v = None
         if isinstance(v, float):
             self.v = datetime.date.fromtimestamp(v)
+        elif isinstance(v, datetime.datetime):
+            self.v = v.date()
         elif isinstance(v, datetime.date):
             self.v = v
         elif isinstance(v, six.string_types):
-- 
2.43.0


From 6b0777b104f5c5d6ba80d1f991196075bc2c7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 20/41] fix: resolve a pointer only under the cached object
 whose path it continues

A cached '#/definitions/User' answered for '#/definitions/UserGroup'.
---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index 1791191..c2c951e 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -399,7 +399,7 @@ class App(object):
                 obj = o.resolve(utils.jp_split(jp)[1:])
             elif isinstance(o, dict):
                 for k, v in six.iteritems(o):
-                    if jp.startswith(k):
+                    if jp == k or jp.startswith(k + '/'):
                         obj = v.resolve(utils.jp_split(jp[len(k):])[1:])
                         break
             else:
-- 
2.43.0


From a173298ccbf8d166782e81ae61a023d76d93fdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 21/41] fix: name the unsupported version instead of failing on
 an undefined name

---
 pyswagger/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/core.py b/pyswagger/core.py
index c2c951e..d5b4eae 100644
--- a/pyswagger/core.py
+++ b/pyswagger/core.py
@@ -284,7 +284,7 @@ class App(object):
         app = kls(url, url_load_hook=url_load_hook, sep=sep, prim=prim, mime_codec=mime_codec, resolver=resolver)
         app.__raw, app.__version = app.load_obj(url, getter=getter, parser=parser)
         if app.__version not in ['1.2', '2.0']:
-            raise NotImplementedError('Unsupported Version: {0}'.format(self.__version))
+            raise NotImplementedError('Unsupported Version: {0}'.format(app.__version))
 
         # update scheme if any
         p = six.moves.urllib.parse.urlparse(url)
-- 
2.43.0


From 520a7006d58e56b9497af71762d8fdbd1aa82394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:20 +0000
Subject: [PATCH 22/41] fix: find the resources of a document beside it when
 its name ends in .yml

---
 pyswagger/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/utils.py b/pyswagger/utils.py
index 7de907b..b3a01d8 100644
--- a/pyswagger/utils.py
+++ b/pyswagger/utils.py
@@ -333,7 +333,7 @@ def url_dirname(url):
     """ Return the folder containing the '.json' file
     """
     p = six.moves.urllib.parse.urlparse(url)
-    for e in [private.FILE_EXT_JSON, private.FILE_EXT_YAML]:
+    for e in [private.FILE_EXT_JSON, private.FILE_EXT_YAML, private.FILE_EXT_YML]:
         if p.path.endswith(e):
             return six.moves.urllib.parse.urlunparse(
                 p[:2]+
-- 
2.43.0


From 1fc417fdea3eaf8d27e02f1d70a3ebd79af44c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:26 +0000
Subject: [PATCH 23/41] fix: leave the parent of the properties of composed
 parts as it is

Merging another part made the composed schema the parent of the properties
taken over, which still belong to their part.
---
 pyswagger/scanner/v2_0/aggt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v2_0/aggt.py b/pyswagger/scanner/v2_0/aggt.py
index a48a385..8268a4d 100644
--- a/pyswagger/scanner/v2_0/aggt.py
+++ b/pyswagger/scanner/v2_0/aggt.py
@@ -32,6 +32,7 @@ def _compose(obj, guard=None):
     # we need use a new one
     guard = CycleGuard()
     stk = list(obj.allOf)
+    props = {}
     while len(stk) > 0:
         try:
             o = deref(stk.pop(), guard=guard)
@@ -42,8 +43,10 @@ def _compose(obj, guard=None):
         for n, p in six.iteritems(o.properties):
             if n in obj.properties:
                 continue
-            final.properties[n] = p
+            props[n] = p
         stk.extend(o.allOf or [])
+    # added last, merging makes 'final' the parent of what it holds
+    final.properties.update(props)
     obj.update_field('final', final)
 
 
-- 
2.43.0


From 6ef40578809249b660d3c1a688663822b914c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 24/41] fix: convert version 1.2 documents without info

---
 pyswagger/scanner/v1_2/upgrade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index f65a5f9..1167024 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -98,12 +98,12 @@ class Upgrade(object):
         info.update_field('description', get_or_none(obj, 'info', 'description'))
         info.update_field('termsOfService', get_or_none(obj, 'info', 'termsOfServiceUrl'))
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact = objects.Contact(NullContext())
             contact.update_field('email', get_or_none(obj, 'info', 'contact'))
             info.update_field('contact', contact)
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(obj, 'info', 'licenseUrl'):
             license = objects.License(NullContext())
             license.update_field('name', get_or_none(obj, 'info', 'license'))
             license.update_field('url', get_or_none(obj, 'info', 'licenseUrl'))
-- 
2.43.0


From 531dba75977e32d7832f88a134acacff978ad2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 25/41] fix: take scopes from the authorizations of version 1.2
 resources

---
 pyswagger/scanner/v1_2/upgrade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 1167024..70c8b17 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -165,7 +165,8 @@ class Upgrade(object):
         _auth = obj.authorizations if obj.authorizations and len(obj.authorizations) > 0 else obj._parent_.authorizations
         if _auth:
             for name, scopes in six.iteritems(_auth):
-                o.security.append({name: [v.scope for v in scopes]})
+                # those of resource object are not parsed to Authorizations
+                o.security.append({name: [v['scope'] if isinstance(v, dict) else v.scope for v in scopes]})
 
         # Operation return value
         o.update_field('responses', {})
-- 
2.43.0


From 0375606d8ec91cfa6d37e98874b0a6567999384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 26/41] fix: convert version 1.2 documents without operations

---
 pyswagger/scanner/v1_2/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 70c8b17..eaecd4e 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -296,7 +296,7 @@ class Upgrade(object):
         common_path = os.path.commonprefix(list(self.__swagger.paths))
         # remove tailing slash,
         # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[-1] == '/' else common_path
+        common_path = common_path[:-1] if common_path.endswith('/') else common_path
 
         if len(common_path) > 0:
             p = six.moves.urllib.parse.urlparse(common_path)
-- 
2.43.0


From cbb0e3edef381ed0f0b0c1f3fa8138c8652b53d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 27/41] fix: keep zero minimum and maximum of version 1.2
 documents

---
 pyswagger/scanner/v1_2/upgrade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index eaecd4e..5712878 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -30,7 +30,7 @@ def update_type_and_ref(dst, src, scope, sep, app):
 def convert_min_max(dst, src):
     def _from_str(name):
         v = getattr(src, name, None)
-        if v:
+        if v not in (None, ''):
             if src.type == 'integer':
                 # we need to handle 1.0 when converting to int
                 # that's why we need to convert to float first
-- 
2.43.0


From 8db32f409a6587ec6f9ae7df816b9e341c62b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 28/41] fix: keep 64-bit minimum and maximum of version 1.2
 documents exact

---
 pyswagger/scanner/v1_2/upgrade.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 5712878..1edd089 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -33,8 +33,11 @@ def convert_min_max(dst, src):
         if v not in (None, ''):
             if src.type == 'integer':
                 # we need to handle 1.0 when converting to int
-                # that's why we need to convert to float first
-                dst.update_field(name, int(float(v)))
+                # that's why we need to convert to float when int fails
+                try:
+                    dst.update_field(name, int(v))
+                except ValueError:
+                    dst.update_field(name, int(float(v)))
             elif src.type == 'number':
                 dst.update_field(name, float(v))
             else:
-- 
2.43.0


From b8822e8bd8b35e54f768d0f9eed9d48b38ed23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 29/41] fix: keep minimum and maximum of version 1.2 parameters
 that allow multiple values

---
 pyswagger/scanner/v1_2/upgrade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 1edd089..44d11a1 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -237,6 +237,7 @@ class Upgrade(object):
                 o.update_field('items', convert_items(obj, app))
                 if obj.is_set("defaultValue"):
                     o.update_field('default', [obj.defaultValue])
+                convert_min_max(o.items, obj)
                 o.items.update_field('enum', obj.enum)
             else:
                 o.update_field('type', obj.type.lower())
-- 
2.43.0


From c50a4f873d805c7ed88507592734523220b346fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:27 +0000
Subject: [PATCH 30/41] fix: refer to version 1.2 models whose name contains a
 slash or tilde

---
 pyswagger/scanner/v1_2/upgrade.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pyswagger/scanner/v1_2/upgrade.py b/pyswagger/scanner/v1_2/upgrade.py
index 44d11a1..9af3b16 100644
--- a/pyswagger/scanner/v1_2/upgrade.py
+++ b/pyswagger/scanner/v1_2/upgrade.py
@@ -2,7 +2,7 @@ from __future__ import absolute_import
 from ...spec.base import NullContext
 from ...scan import Dispatcher
 from ...errs import SchemaError
-from ...utils import scope_compose, get_or_none
+from ...utils import scope_compose, get_or_none, jp_compose, jp_split
 from ...consts import private
 from ...spec.v1_2.objects import (
     ResourceList,
@@ -17,15 +17,26 @@ import os
 import six
 
 
+def name_in_path(obj, path):
+    """ name of a resource or authorization, which is
+    encoded in the path to it
+    """
+    return jp_split('/' + obj.get_name(path))[1]
+
+
+def model_ref(scope, name, sep):
+    return '#/' + jp_compose(['definitions', scope_compose(scope, name, sep=sep)])
+
+
 def update_type_and_ref(dst, src, scope, sep, app):
     ref = getattr(src, '$ref')
     if ref:
-        dst.update_field('$ref', '#/definitions/' + scope_compose(scope, ref, sep=sep))
+        dst.update_field('$ref', model_ref(scope, ref, sep))
 
     if app.prim_factory.is_primitive(getattr(src, 'type', None)):
         dst.update_field('type', src.type.lower())
     elif src.type:
-        dst.update_field('$ref', '#/definitions/' + scope_compose(scope, src.type, sep=sep))
+        dst.update_field('$ref', model_ref(scope, src.type, sep))
 
 def convert_min_max(dst, src):
     def _from_str(name):
@@ -135,7 +146,7 @@ class Upgrade(object):
 
     @Disp.register([Resource])
     def _resource(self, path, obj, app):
-        name = obj.get_name(path)
+        name = name_in_path(obj, path)
         for t in self.__swagger.tags:
             if t.name == name:
                 break
@@ -147,7 +158,7 @@ class Upgrade(object):
     @Disp.register([Operation])
     def _operation(self, path, obj, app):
         o = objects.Operation(NullContext())
-        scope = obj._parent_.get_name(path)
+        scope = name_in_path(obj._parent_, path)
 
         o.update_field('tags', [scope])
         o.update_field('operationId', obj.nickname)
@@ -208,12 +219,12 @@ class Upgrade(object):
             o.update_field('name', obj.keyname)
             o.update_field('in', obj.passAs)
 
-        self.__swagger.securityDefinitions[obj.get_name(path)] = o
+        self.__swagger.securityDefinitions[name_in_path(obj, path)] = o
 
     @Disp.register([Parameter])
     def _parameter(self, path, obj, app):
         o = objects.Parameter(NullContext())
-        scope = obj._parent_._parent_.get_name(path)
+        scope = name_in_path(obj._parent_._parent_, path)
 
         o.update_field('name', obj.name)
         o.update_field('required', obj.required)
@@ -259,7 +270,7 @@ class Upgrade(object):
 
     @Disp.register([Model])
     def _model(self, path, obj, app):
-        scope = obj._parent_.get_name(path)
+        scope = name_in_path(obj._parent_, path)
 
         s = scope_compose(scope, obj.get_name(path), sep=self.__sep)
         o = self.__swagger.definitions.get(s, None)
@@ -286,7 +297,7 @@ class Upgrade(object):
                 self.__swagger.definitions[sub_s] = sub_o
 
             new_ref = objects.Schema(NullContext())
-            new_ref.update_field('$ref', '#/definitions/' + s)
+            new_ref.update_field('$ref', '#/' + jp_compose(['definitions', s]))
             sub_o.allOf.append(new_ref)
 
     @property
-- 
2.43.0


From 510dc83b61e3be91f7375ab5463a870ba87830bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:16 +0000
Subject: [PATCH 31/41] fix: render enumerated values that are zero, false or
 empty

---
 pyswagger/primitives/render.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index d606ea7..1b567d6 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -23,7 +23,7 @@ maxInt64 = 1 << 63 - 1
 minInt64 = -maxInt64
 
 def _int_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
     max_ = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
@@ -38,7 +38,7 @@ def _int_(obj, _, val=None):
     return out - (out % obj.multipleOf) if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0 else out
 
 def _float_(obj, _, val=None):
-    if val:
+    if val is not None:
         return val
 
     # TODO: exclusiveMaximum == False is not implemented.
@@ -55,7 +55,7 @@ def _float_(obj, _, val=None):
     return float(out)
 
 def _str_(obj, opt, val=None):
-    if val:
+    if val is not None:
         return val
 
     max_ = obj.maxLength if obj.maxLength else opt['max_str_length']
@@ -65,7 +65,7 @@ def _str_(obj, opt, val=None):
     return ''.join([random.choice(string.ascii_letters) for _ in range(random.randint(min_, max_))])
 
 def _bool_(obj, _, val=None):
-    return bool(val) if val else random.randint(0, 1) == 0
+    return bool(val) if val is not None else random.randint(0, 1) == 0
 
 def _uuid_(obj, _, val=None):
     return uuid.UUID(val) if val else uuid.uuid4()
-- 
2.43.0


From 37a0000c93b39ec775eab7a15d77cab9727d6d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:18 +0000
Subject: [PATCH 32/41] fix: render texts and arrays within the limits they
 have

---
 pyswagger/primitives/render.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 1b567d6..3afe38d 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -58,8 +58,8 @@ def _str_(obj, opt, val=None):
     if val is not None:
         return val
 
-    max_ = obj.maxLength if obj.maxLength else opt['max_str_length']
-    min_ = obj.minLength if obj.minLength else 0
+    min_ = obj.minLength if obj.minLength is not None else 0
+    max_ = obj.maxLength if obj.maxLength is not None else max(min_, opt['max_str_length'])
 
     # note: length is 0~100, characters are limited to ASCII
     return ''.join([random.choice(string.ascii_letters) for _ in range(random.randint(min_, max_))])
@@ -208,7 +208,7 @@ class Renderer(object):
 
         elif type_ == 'array':
             min_ = obj.minItems if obj.minItems else 0
-            max_ = obj.maxItems if obj.maxItems else opt['max_array_length']
+            max_ = obj.maxItems if obj.maxItems is not None else max(min_, opt['max_array_length'])
             out = []
             for _ in six.moves.xrange(random.randint(min_, max_)):
                 out.append(self._generate(obj.items, opt))
-- 
2.43.0


From debe8996ca9b88d645a6faf42399e709aca52ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:19 +0000
Subject: [PATCH 33/41] fix: render integers within the limits they have

---
 pyswagger/primitives/render.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 3afe38d..e9659db 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 from ..spec.v2_0.objects import Parameter, Operation, Schema
 from ..utils import deref, final, from_iso8601
 from decimal import Decimal
+import math
 import random
 import six
 import sys
@@ -17,9 +18,9 @@ import time
 # TODO: enum of object, array
 
 # min/max of integer
-maxInt32 = 1 << 31 - 1
+maxInt32 = (1 << 31) - 1
 minInt32 = -maxInt32
-maxInt64 = 1 << 63 - 1
+maxInt64 = (1 << 63) - 1
 minInt64 = -maxInt64
 
 def _int_(obj, _, val=None):
@@ -27,15 +28,27 @@ def _int_(obj, _, val=None):
         return val
 
     max_ = maxInt32 if getattr(obj, 'format') in ['int32', None] else maxInt64
-    max_ = obj.maximum if obj.maximum else max_
-    max_ = max_-1 if obj.exclusiveMaximum else max_
-
     min_ = minInt32 if getattr(obj, 'format') in ['int32', None] else minInt64
-    min_ = obj.minimum if obj.minimum else min_
-    min_ = min_+1 if obj.exclusiveMinimum else min_
+
+    # limits could be float, or exceed the range of the other one's default
+    lower, upper = obj.minimum, obj.maximum
+    if lower is not None:
+        min_ = int(math.floor(lower)) + 1 if obj.exclusiveMinimum else int(math.ceil(lower))
+    if upper is not None:
+        max_ = int(math.ceil(upper)) - 1 if obj.exclusiveMaximum else int(math.floor(upper))
+    if lower is not None and upper is None and min_ > max_:
+        max_ = min_ + maxInt32
+    if lower is None and upper is not None and min_ > max_:
+        min_ = max_ - maxInt32
 
     out = random.randint(min_, max_)
-    return out - (out % obj.multipleOf) if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0 else out
+    if isinstance(obj.multipleOf, six.integer_types) and obj.multipleOf != 0:
+        out = out - (out % obj.multipleOf)
+        if out < min_:
+            out = out + obj.multipleOf
+        if out > max_:
+            raise ValueError('no multiple of {0} between {1} and {2}'.format(obj.multipleOf, min_, max_))
+    return out
 
 def _float_(obj, _, val=None):
     if val is not None:
-- 
2.43.0


From 8df18fd21ef96eed360b861f48493834f71a3a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:21 +0000
Subject: [PATCH 34/41] fix: render numbers within the limits they have

---
 pyswagger/primitives/render.py | 40 ++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index e9659db..a2ff17f 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -54,17 +54,35 @@ def _float_(obj, _, val=None):
     if val is not None:
         return val
 
-    # TODO: exclusiveMaximum == False is not implemented.
-    max_ = obj.maximum if obj.maximum else sys.float_info.max
-    min_ = obj.minimum if obj.minimum else sys.float_info.min
-
-    out = None
-    while out == None:
-        out = min_ + (max_ - min_) * random.random()
-        if obj.multipleOf and obj.multipleOf != 0:
-            out = int(out / obj.multipleOf) * obj.multipleOf
-        if out <= min_ and obj.exclusiveMinimum:
-            out = None
+    step = obj.multipleOf
+    min_, max_ = obj.minimum, obj.maximum
+    # limits that are not given, chosen to keep multiples precise
+    span = step * maxInt32 if step else sys.float_info.max
+    if min_ is None:
+        min_ = 0.0 if max_ is None or max_ > 0 else max(max_ - span, -sys.float_info.max)
+    if max_ is None:
+        max_ = min(min_ + span, sys.float_info.max)
+
+    def _low(v):
+        return obj.minimum is not None and (v <= min_ if obj.exclusiveMinimum else v < min_)
+
+    def _high(v):
+        return obj.maximum is not None and (v >= max_ if obj.exclusiveMaximum else v > max_)
+
+    r = random.random()
+    out = min(max(min_ * (1 - r) + max_ * r, min_), max_)
+    if step:
+        out = math.floor(out / step) * step
+        if _low(out):
+            out = out + step
+        elif _high(out):
+            out = out - step
+    elif _low(out) or _high(out):
+        # it hit one of the exclusive limits
+        out = min_ / 2.0 + max_ / 2.0
+
+    if _low(out) or _high(out):
+        raise ValueError('no number available between {0} and {1}'.format(min_, max_))
     return float(out)
 
 def _str_(obj, opt, val=None):
-- 
2.43.0


From 2509a15233bec5ce5843cb457309f09b6f799569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:23 +0000
Subject: [PATCH 35/41] fix: render additional properties without a minimum
 count, beside the declared and templated ones

---
 pyswagger/primitives/render.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index a2ff17f..251d43a 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -209,9 +209,8 @@ class Renderer(object):
         if type_ == 'object':
             max_p = opt['max_property']
             out = {}
-            max_ = obj.maxProperties if obj.maxProperties else opt['max_prop_count']
-            min_ = obj.minProperties if obj.minProperties else None
-            count = 0
+            min_ = obj.minProperties if obj.minProperties is not None else 0
+            max_ = obj.maxProperties if obj.maxProperties is not None else max(min_, opt['max_prop_count'])
             for name, prop in six.iteritems(obj.properties or {}):
                 if name in template:
                     out[name] = template[name]
@@ -220,20 +219,19 @@ class Renderer(object):
                     if random.randint(0, 1) == 0 or opt['minimal_property']:
                         continue
                 out[name] = self._generate(prop, opt)
-                count = count + 1
 
             if isinstance(obj.additionalProperties, Schema):
                 # TODO: additionalProperties == True is not handled
 
                 # generate random properties
-                more = random.randint(min_, max_) - count
+                more = random.randint(min_, max_) - len(out)
                 if more > 0:
                     # generate a random string as property-name
                     for _ in six.moves.xrange(more):
                         while True:
                             length = random.randint(0, opt['max_name_length'])
                             name = ''.join([random.choice(string.ascii_letters) for _ in six.moves.xrange(length)])
-                            if name not in out:
+                            if name not in out and name not in (obj.properties or {}):
                                 out[name] = self._generate(obj.additionalProperties, opt)
                                 break
 
-- 
2.43.0


From c28749118bf0d2b2bcdd8ca4c6b990b0f1a29d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:25 +0000
Subject: [PATCH 36/41] fix: render parameters that are references

---
 pyswagger/primitives/render.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswagger/primitives/render.py b/pyswagger/primitives/render.py
index 251d43a..9b381e3 100644
--- a/pyswagger/primitives/render.py
+++ b/pyswagger/primitives/render.py
@@ -305,6 +305,7 @@ class Renderer(object):
             raise ValueError('Not a dict: {0}'.format(opt))
 
         if isinstance(obj, Parameter):
+            obj = final(deref(obj))
             if getattr(obj, 'in', None) == 'body':
                 return self._generate(obj.schema, opt)
             return self._generate(obj, opt=opt)
@@ -331,6 +332,7 @@ class Renderer(object):
         max_p = opt['max_parameter']
         out = {}
         for p in op.parameters:
+            p = final(deref(p))
             if p.name in exclude:
                 continue
             if p.name in template:
-- 
2.43.0


From 988d070455137446fc5c8920cc4798c592a789d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:19 +0000
Subject: [PATCH 37/41] fix: escape quotes and line breaks in the names of
 multipart parts

---
 pyswagger/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyswagger/io.py b/pyswagger/io.py
index bd40d97..cc4343f 100644
--- a/pyswagger/io.py
+++ b/pyswagger/io.py
@@ -99,11 +99,15 @@ class Request(object):
         body = io.BytesIO()
         w = codecs.getwriter(encoding)
 
+        def quote(name):
+            # quotes and line breaks would end the name, or its header
+            return '{0}'.format(name).replace('"', '%22').replace('\r', '%0D').replace('\n', '%0A')
+
         def append(name, obj):
             body.write(six.b('--{0}\r\n'.format(boundary)))
 
             # header
-            w(body).write('Content-Disposition: form-data; name="{0}"; filename="{1}"'.format(name, obj.filename))
+            w(body).write('Content-Disposition: form-data; name="{0}"; filename="{1}"'.format(quote(name), quote(obj.filename)))
             body.write(six.b('\r\n'))
             if 'Content-Type' in obj.header:
                 w(body).write('Content-Type: {0}'.format(obj.header['Content-Type']))
@@ -129,7 +133,7 @@ class Request(object):
         for k, v in self.__p['formData']:
             body.write(six.b('--{0}\r\n'.format(boundary)))
 
-            w(body).write('Content-Disposition: form-data; name="{0}"'.format(k))
+            w(body).write('Content-Disposition: form-data; name="{0}"'.format(quote(k)))
             body.write(six.b('\r\n'))
             body.write(six.b('\r\n'))
 
-- 
2.43.0


From 282364ba9cf195e436dace12cb23b1875ff3e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:15 +0000
Subject: [PATCH 38/41] fix: produce values of schemas without a type that are
 no objects

---
 pyswagger/primitives/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index 21386dd..82df1f3 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -165,7 +165,9 @@ class Primitive(object):
         ctx = {} if ctx == None else ctx
         if 'name' not in ctx and hasattr(obj, 'name'):
             ctx['name'] = obj.name
-        if 'guard' not in ctx:
+        # parts of a composed schema share the guard of that schema
+        is_part = 'guard' in ctx
+        if not is_part:
             ctx['guard'] = CycleGuard()
         if 'addp_schema' not in ctx:
             # Schema Object of additionalProperties
@@ -196,7 +198,7 @@ class Primitive(object):
             if _2nd:
                 val = _2nd(obj, ret, val, ctx)
                 ctx['2nd_pass'] = _2nd
-        elif len(obj.properties) or obj.additionalProperties or (obj.allOf and isinstance(val, dict)):
+        elif len(obj.properties) or (isinstance(val, dict) and (obj.additionalProperties or obj.allOf)):
             ret = Model()
             val = ret.apply_with(obj, val, ctx)
 
@@ -248,6 +250,10 @@ class Primitive(object):
         if ret != None and hasattr(ret, 'cleanup'):
             val = ret.cleanup(val, ctx)
 
+        if ret is None and not is_part and not isinstance(val, dict):
+            # nothing tells a type: any value is allowed
+            return val
+
         return ret
 
     def is_primitive(self, _type):
-- 
2.43.0


From 22b9995dcf5a4e048602bc20dfd6b4a7c5f28ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:24 +0000
Subject: [PATCH 39/41] fix: fill arrays of composed schemas once and within
 every limit

---
 pyswagger/primitives/__init__.py | 18 +++++++++++++++---
 pyswagger/primitives/_array.py   | 11 ++++++-----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/pyswagger/primitives/__init__.py b/pyswagger/primitives/__init__.py
index 82df1f3..dcf2110 100644
--- a/pyswagger/primitives/__init__.py
+++ b/pyswagger/primitives/__init__.py
@@ -202,7 +202,7 @@ class Primitive(object):
             ret = Model()
             val = ret.apply_with(obj, val, ctx)
 
-        if isinstance(ret, (Date, Datetime, Byte, File)):
+        if isinstance(ret, (Date, Datetime, Byte, File, UUID)):
             # it's meanless to handle allOf for these types.
             return ret
 
@@ -229,13 +229,18 @@ class Primitive(object):
         # handle allOf for Schema Object
         allOf = getattr(obj, 'allOf', None)
         if allOf:
+            untyped = ret is None
             not_applied = []
             for a in allOf:
                 a = deref(a)
                 if ret is None:
                     # try to find right type for this primitive.
                     ret = self.produce(a, val, ctx)
-                    is_member = hasattr(ret, 'apply_with')
+                    if isinstance(ret, (Date, Datetime, Byte, File, UUID)):
+                        return ret
+                    if ret is not None:
+                        # what is left for the other parts
+                        val = ctx['rest']
                 else:
                     val = _apply(a, ret, val, ctx, (a,))
 
@@ -246,11 +251,18 @@ class Primitive(object):
             if ret is not None:
                 for a in not_applied:
                     val = _apply(a, ret, val, ctx, (a,))
+                if untyped and ctx['2nd_pass']:
+                    # limits beside allOf
+                    val = ctx['2nd_pass'](obj, ret, val, ctx)
+
+        if is_part:
+            ctx['rest'] = val
+            return ret
 
         if ret != None and hasattr(ret, 'cleanup'):
             val = ret.cleanup(val, ctx)
 
-        if ret is None and not is_part and not isinstance(val, dict):
+        if ret is None and not isinstance(val, dict):
             # nothing tells a type: any value is allowed
             return val
 
diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 67e543b..3aa7ac6 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -48,11 +48,12 @@ class Array(list):
             self.extend([ctx['factory'].produce(obj.items, v, ctx=dict(read=ctx['read'])) for v in val])
             val = []
 
-        # init array as list
-        if obj.minItems and len(self) < obj.minItems:
-            raise ValidationError('Array should be more than {0}, not {1}'.format(obj.minItems, len(self)))
-        if obj.maxItems != None and len(self) > obj.maxItems:
-            raise ValidationError('Array should be less than {0}, not {1}'.format(obj.maxItems, len(self)))
+        # items left might belong to other parts of a composed schema
+        count = len(self) + len(val)
+        if obj.minItems and count < obj.minItems:
+            raise ValidationError('Array should be more than {0}, not {1}'.format(obj.minItems, count))
+        if obj.maxItems != None and count > obj.maxItems:
+            raise ValidationError('Array should be less than {0}, not {1}'.format(obj.maxItems, count))
 
         return val
 
-- 
2.43.0


From 38a8923b9c7b04bdfde3f2106c46710123fae6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:24 +0000
Subject: [PATCH 40/41] fix: keep the items of arrays without an item schema

---
 pyswagger/primitives/_array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyswagger/primitives/_array.py b/pyswagger/primitives/_array.py
index 3aa7ac6..68d9d61 100644
--- a/pyswagger/primitives/_array.py
+++ b/pyswagger/primitives/_array.py
@@ -57,6 +57,12 @@ class Array(list):
 
         return val
 
+    def cleanup(self, val, ctx):
+        """ items without a schema are kept as given
+        """
+        self.extend(val)
+        return []
+
     def __str__(self):
         """ array primitives should be for 'path', 'header', 'query'.
         Therefore, this kind of convertion is reasonable.
-- 
2.43.0


From f334a4341b25d96a1b359e1128cdbbabff504264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:04 +0000
Subject: [PATCH 41/41] fix: refuse tokens that are no index when resolving
 pointers into lists

---
 pyswagger/resolve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyswagger/resolve.py b/pyswagger/resolve.py
index 9597d9e..c8b6066 100644
--- a/pyswagger/resolve.py
+++ b/pyswagger/resolve.py
@@ -67,7 +67,11 @@ class Resolver(object):
             while len(ts) > 0:
                 t = ts.pop(0)
                 if isinstance(obj, list):
-                    obj = obj[int(t)]
+                    # indices are plain numbers, ex. -1 is not the last item
+                    idx = int(t)
+                    if idx < 0 or str(idx) != t:
+                        raise IndexError('Invalid index in json-pointer: {0}'.format(t))
+                    obj = obj[idx]
                 elif isinstance(obj, dict):
                     obj = obj[t]
                 else:
-- 
2.43.0

