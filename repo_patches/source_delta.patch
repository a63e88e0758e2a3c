From 3cbfa4a369e12963d8ae1025963d0bd1aa28d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 01/85] fix: globalvars ends on functions that refer to each
 other in a cycle

Mutually recursive globals and self-recursive closures made globalvars recurse
without end, so recurse=True could not pickle them.
---
 dill/detect.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index cdd4287..698fa70 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -165,12 +165,16 @@ def referredglobals(func, recurse=True, builtin=False):
     """get the names of objects in the global scope referred to by func"""
     return globalvars(func, recurse, builtin).keys()
 
-def globalvars(func, recurse=True, builtin=False):
+def globalvars(func, recurse=True, builtin=False, _memo=None):
     """get objects defined in global scope that are referred to by func
 
     return a dict of {name:object}"""
     if ismethod(func): func = func.__func__
     if isfunction(func):
+        # functions can refer to each other (or to themselves) in a cycle
+        if _memo is None: _memo = {}
+        if id(func) in _memo: return _memo[id(func)]
+        found = _memo[id(func)] = {}
         globs = vars(getmodule(sum)).copy() if builtin else {}
         # get references from within closure
         orig_func, func = func, set()
@@ -180,7 +184,7 @@ def globalvars(func, recurse=True, builtin=False):
             except ValueError: # cell is empty
                 pass
             else:
-                _vars = globalvars(cell_contents, recurse, builtin) or {}
+                _vars = globalvars(cell_contents, recurse, builtin, _memo) or {}
                 func.update(_vars) #XXX: (above) be wary of infinte recursion?
                 globs.update(_vars)
         # get globals
@@ -196,7 +200,9 @@ def globalvars(func, recurse=True, builtin=False):
                 if nested_func is orig_func:
                    #func.remove(key) if key in func else None
                     continue  #XXX: globalvars(func, False)?
-                func.update(globalvars(nested_func, True, builtin))
+                func.update(globalvars(nested_func, True, builtin, _memo))
+        found.update((name,globs[name]) for name in func if name in globs)
+        return found
     elif iscode(func):
         globs = vars(getmodule(sum)).copy() if builtin else {}
        #globs.update(globals())
-- 
2.43.0


From 4170654621ba1db68c5c6a273ea5f7ce87b71df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 02/85] fix: nestedglobals does not redirect sys.stdout

The process-wide redirection lost names and could leave sys.stdout replaced
when two threads pickled with recurse=True.
---
 dill/detect.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index 698fa70..0e4d156 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -141,14 +141,14 @@ def nestedglobals(func, recurse=True):
     func = code(func)
     if func is None: return list()
     import sys
-    from .temp import capture
+    from io import StringIO
     CAN_NULL = sys.hexversion >= 0x30b00a7 # NULL may be prepended >= 3.11a7
     names = set()
-    with capture('stdout') as out:
-        try:
-            dis.dis(func) #XXX: dis.dis(None) disassembles last traceback
-        except IndexError:
-            pass #FIXME: HACK for IS_PYPY (3.11)
+    out = StringIO() # don't redirect sys.stdout, it's shared between threads
+    try:
+        dis.dis(func, file=out) #XXX: dis.dis(None) disassembles last traceback
+    except IndexError:
+        pass #FIXME: HACK for IS_PYPY (3.11)
     for line in out.getvalue().splitlines():
         if '_GLOBAL' in line:
             name = line.split('(')[-1].split(')')[0]
-- 
2.43.0


From 69fa592aae915f62fbc4a3cfbcf1f53b4b2107b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 03/85] fix: nestedglobals finds globals used in nested class
 bodies

A class body reads globals with LOAD_NAME, so a function defining a class lost
them with recurse=True and raised NameError after unpickling.
---
 dill/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/detect.py b/dill/detect.py
index 0e4d156..f2c83c1 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -150,7 +150,7 @@ def nestedglobals(func, recurse=True):
     except IndexError:
         pass #FIXME: HACK for IS_PYPY (3.11)
     for line in out.getvalue().splitlines():
-        if '_GLOBAL' in line:
+        if '_GLOBAL' in line or 'LOAD_NAME' in line: # class bodies LOAD_NAME
             name = line.split('(')[-1].split(')')[0]
             if CAN_NULL:
                 names.add(name.replace('NULL + ', '').replace(' + NULL', ''))
-- 
2.43.0


From 1db8153bb0d72b461427ee8a2e0207b01e58a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 04/85] fix: keep the __qualname__ of functions renamed to a
 toplevel name

Functions decorated with functools.wraps got the wrapper's __qualname__ back.
---
 dill/_dill.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index da8aee2..c1434da 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2031,7 +2031,9 @@ def save_function(pickler, obj):
             fattr = getattr(obj, fattrname, None)
             if fattr is not None:
                 state_dict[fattrname] = fattr
-        if obj.__qualname__ != obj.__name__:
+        # a new function takes its __qualname__ from the code object
+        if obj.__qualname__ != obj.__name__ or \
+                obj.__qualname__ != getattr(obj.__code__, 'co_qualname', obj.__name__):
             state_dict['__qualname__'] = obj.__qualname__
         if '__name__' not in globs or obj.__module__ != globs['__name__']:
             state_dict['__module__'] = obj.__module__
-- 
2.43.0


From 84fc952ff4a4a69e3187fb5c34b5a4636e03c05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 05/85] fix: a function whose __doc__ was removed does not get
 it back

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index c1434da..7c98f6e 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2031,6 +2031,10 @@ def save_function(pickler, obj):
             fattr = getattr(obj, fattrname, None)
             if fattr is not None:
                 state_dict[fattrname] = fattr
+        # a new function takes its __doc__ from the code object
+        if obj.__doc__ is None and obj.__code__.co_consts \
+                and isinstance(obj.__code__.co_consts[0], str):
+            state_dict['__doc__'] = None
         # a new function takes its __qualname__ from the code object
         if obj.__qualname__ != obj.__name__ or \
                 obj.__qualname__ != getattr(obj.__code__, 'co_qualname', obj.__name__):
-- 
2.43.0


From dedddb23dd5d4a5e7e6d1c50da612dd83d61e327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 06/85] fix: a subclass of a generic class keeps its bases

hasattr also found the __orig_bases__ of a base class, and the copy was then
created with the bases of its base.
---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 7c98f6e..1de5630 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1889,7 +1889,7 @@ def save_type(pickler, obj, postproc_list=None):
             if qualname is not None:
                 postproc_list.append((setattr, (obj, '__qualname__', qualname)))
 
-            if not hasattr(obj, '__orig_bases__'):
+            if '__orig_bases__' not in obj.__dict__: # it may be inherited
                 _save_with_postproc(pickler, (_create_type, (
                     type(obj), obj.__name__, obj.__bases__, _dict
                 )), obj=obj, postproc_list=postproc_list)
-- 
2.43.0


From 05ac52fb15a3db8f09a40cc7ea22a77b274f68ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 07/85] fix: classes with private names in __slots__ can be
 unpickled

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 1de5630..53c53b1 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1874,6 +1874,10 @@ def save_type(pickler, obj, postproc_list=None):
                 slots = (slots,)
 
             for name in slots:
+                if name.startswith('__') and not name.endswith('__'):
+                    # private names are mangled
+                    mangled = obj.__name__.lstrip('_')
+                    if mangled: name = '_%s%s' % (mangled, name)
                 _dict.pop(name, None)
 
             if isinstance(obj, abc.ABCMeta):
-- 
2.43.0


From a085c11311a8efba3a8f68a668ef56267db6c426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 08/85] fix: a class keeps a method taken from a base that is
 not first in the mro

---
 dill/_dill.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 53c53b1..e50f5ab 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1771,7 +1771,10 @@ def _get_typedict_type(cls, clsdict, attrs, postproc_list):
         try:
             base_value = inherited_dict[name]
             if value is base_value and hasattr(value, '__qualname__'):
-                to_remove.append(name)
+                # only if it's really what is inherited, when not defined here
+                if next(base.__dict__[name] for base in cls.__mro__[1:]
+                        if name in base.__dict__) is value:
+                    to_remove.append(name)
         except KeyError:
             pass
     for name in to_remove:
-- 
2.43.0


From 76317d3fe407a6c5d1ffcaadc5153f04cf15754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 09/85] fix: load does not turn an instance of a nested class
 into another class

The instance of a nested or local class was given the class that has the same
__name__ in __main__; look it up by __qualname__.
---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index e50f5ab..98f7d2a 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -454,7 +454,7 @@ class Unpickler(StockUnpickler):
         if type(obj).__module__ == getattr(_main_module, '__name__', '__main__'):
             if not self._ignore:
                 # point obj class to main
-                try: obj.__class__ = getattr(self._main, type(obj).__name__)
+                try: obj.__class__ = _getattribute(self._main, type(obj).__qualname__)[0]
                 except (AttributeError,TypeError): pass # defined in a file
        #_main_module.__dict__.update(obj.__dict__) #XXX: should update globals ?
         return obj
-- 
2.43.0


From 46a15476ebe771524ac6fd72859a28dc9cc172e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 10/85] fix: load does not take an unrelated object for a
 namedtuple class

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 98f7d2a..59af16a 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -995,7 +995,7 @@ def _create_dtypemeta(scalar_type):
 
 def _create_namedtuple(name, fieldnames, modulename, defaults=None):
     class_ = _import_module(modulename + '.' + name, safe=True)
-    if class_ is not None:
+    if getattr(class_, '_fields', None) == tuple(fieldnames):
         return class_
     import collections
     t = collections.namedtuple(name, fieldnames, defaults=defaults, module=modulename)
-- 
2.43.0


From 7cc83f2faec918f4eeea350c45b9ecc7cf289873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 11/85] fix: only the dict of the main module is saved as the
 dict of the main module

---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 59af16a..7f11e6b 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1243,16 +1243,16 @@ def _repr_dict(obj):
 
 @register(dict)
 def save_module_dict(pickler, obj):
-    if is_dill(pickler, child=False) and obj == pickler._main.__dict__ and \
+    if is_dill(pickler, child=False) and obj is pickler._main.__dict__ and \
             not (pickler._session and pickler._first_pass):
         logger.trace(pickler, "D1: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__builtin__\n__main__\n', 'UTF-8'))
         logger.trace(pickler, "# D1")
-    elif (not is_dill(pickler, child=False)) and (obj == _main_module.__dict__):
+    elif (not is_dill(pickler, child=False)) and (obj is _main_module.__dict__):
         logger.trace(pickler, "D3: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__main__\n__dict__\n', 'UTF-8'))  #XXX: works in general?
         logger.trace(pickler, "# D3")
-    elif '__name__' in obj and obj != _main_module.__dict__ \
+    elif '__name__' in obj and obj is not _main_module.__dict__ \
             and type(obj['__name__']) is str \
             and obj is getattr(_import_module(obj['__name__'],True), '__dict__', None):
         logger.trace(pickler, "D4: %s", _repr_dict(obj)) # obj
-- 
2.43.0


From be618e6a27a3bbe7da0abd7044e02ab9f23c484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 12/85] fix: saving a dict does not import the module named by
 its __name__ item

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 7f11e6b..8149cf7 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1254,7 +1254,7 @@ def save_module_dict(pickler, obj):
         logger.trace(pickler, "# D3")
     elif '__name__' in obj and obj is not _main_module.__dict__ \
             and type(obj['__name__']) is str \
-            and obj is getattr(_import_module(obj['__name__'],True), '__dict__', None):
+            and obj is getattr(sys.modules.get(obj['__name__']), '__dict__', None):
         logger.trace(pickler, "D4: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c%s\n__dict__\n' % obj['__name__'], 'UTF-8'))
         logger.trace(pickler, "# D4")
-- 
2.43.0


From f469bbee7618107da0805f782921f1e62e0cee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 13/85] fix: find the object of a proxy whose str looks like an
 address

---
 dill/_dill.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 8149cf7..6a768e3 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1638,10 +1638,11 @@ def _proxy_helper(obj): # a dead proxy returns a reference to None
         return id(None)
     if _str == _repr: return id(obj) # it's a repr
     try: # either way, it's a proxy from here
-        address = int(_str.rstrip('>').split(' at ')[-1], base=16)
+        # not the str, which is whatever the reference object wants it to be
+        address = int((_str if IS_PYPY else _repr).rstrip('>').split(' at ')[-1], base=16)
     except ValueError: # special case: proxy of a 'type'
         if not IS_PYPY:
-            address = int(_repr.rstrip('>').split(' at ')[-1], base=16)
+            raise
         else:
             objects = iter(gc.get_objects())
             for _obj in objects:
-- 
2.43.0


From ae8bf3f28c9754e4a936a18f3c61c6396fcbe21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 14/85] fix: pickles leaves the warning filters as they were

---
 dill/_dill.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 6a768e3..90de24d 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2201,9 +2201,9 @@ def pickles(obj,exact=False,safe=False,**kwds):
             #FIXME: should be "(pik == obj).all()" for numpy comparison, though that'll fail if shapes differ
             result = bool(pik.all() == obj.all())
         except (AttributeError, TypeError):
-            warnings.filterwarnings('ignore') #FIXME: be specific
-            result = pik == obj
-            if warnings.filters: del warnings.filters[0]
+            with warnings.catch_warnings():
+                warnings.filterwarnings('ignore') #FIXME: be specific
+                result = pik == obj
         if hasattr(result, 'toarray'): # for unusual types like sparse matrix
             result = result.toarray().all()
         if result: return True
-- 
2.43.0


From 2b2dfa94bf8021f6e1d9288924b372b849c3d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 15/85] fix: load takes a descriptor from its own class

---
 dill/_dill.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 90de24d..01fe1b6 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1035,7 +1035,9 @@ def _getattr(objclass, name, repr_str):
     # hack to grab the reference directly
     try: #XXX: works only for __builtin__ ?
         attr = repr_str.split("'")[3]
-        return eval(attr+'.__dict__["'+name+'"]')
+        attr = eval(attr+'.__dict__["'+name+'"]')
+        if attr.__objclass__ is not objclass: raise AttributeError(name)
+        return attr
     except Exception:
         try:
             attr = objclass.__dict__
-- 
2.43.0


From c7f96a1d1eaabfc2159da26eb18e5b901ecd1499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 16/85] fix: FILE_FMODE restores the bytes of the file

---
 dill/_dill.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 01fe1b6..17de9be 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -864,7 +864,10 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
             #FIXME: missing: *buffering*, encoding, softspace
             if fmode == FILE_FMODE:
                 f = open(name, mode if "w" in mode else "w")
-                f.write(fdata)
+                if isinstance(fdata, bytes):
+                    getattr(f, "buffer", f).write(fdata)
+                else: # from dill 0.4.1 or earlier
+                    f.write(fdata)
                 if "w" not in mode:
                     f.close()
                     f = open(name, mode)
@@ -1399,7 +1402,7 @@ def _save_file(pickler, obj, open_):
         else:
             position = obj.tell()
     if is_dill(pickler, child=True) and pickler._fmode == FILE_FMODE:
-        f = open_(obj.name, "r")
+        f = open_(obj.name, "rb")
         fdata = f.read()
         f.close()
     else:
-- 
2.43.0


From 49faa52daa386f8a8e031734037c8eb4178129ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 17/85] fix: load_module identifies the module wherever the
 stream is positioned

---
 dill/session.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index db556c8..5240dd5 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -351,8 +351,8 @@ class _PeekableReader:
 def _make_peekable(stream):
     """return stream as an object with a peek() method"""
     import io
-    if hasattr(stream, 'peek'):
-        return stream
+    if hasattr(stream, 'peek') and not getattr(stream, 'seekable', bool)():
+        return stream  # otherwise, peek() may stop short of what was asked for
     if not (hasattr(stream, 'tell') and hasattr(stream, 'seek')):
         try:
             return io.BufferedReader(stream)
@@ -366,7 +366,7 @@ def _identify_module(file, main=None):
     UNICODE = {'UNICODE', 'BINUNICODE', 'SHORT_BINUNICODE'}
     found_import = False
     try:
-        for opcode, arg, pos in genops(file.peek(256)):
+        for opcode, arg, pos in genops(file.peek(4096)):
             if not found_import:
                 if opcode.name in ('GLOBAL', 'SHORT_BINUNICODE') and \
                         arg.endswith('_import_module'):
-- 
2.43.0


From ca9765bc87665e6abb37f8c151f7be14ccb5f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 18/85] fix: load_module_asdict with submodules and module-type
 objects

---
 dill/session.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index 5240dd5..967e13c 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -635,25 +635,38 @@ def load_module_asdict(
         if filename is None:
             filename = SESSION_TEMPFILE
         file = _safe_open_for_reading(filename)
+    parent = None
     try:
         file = _make_peekable(file)
         main_name = _identify_module(file)
         old_main = sys.modules.get(main_name)
-        main = ModuleType(main_name)
+        is_runtime_mod = main_name.startswith('__runtime__.')
+        main = ModuleType(main_name.partition('.')[-1] if is_runtime_mod else main_name)
         if update:
             if old_main is None:
                 old_main = _import_module(main_name)
             main.__dict__.update(old_main.__dict__)
         else:
             main.__builtins__ = __builtin__
-        sys.modules[main_name] = main
-        load_module(file, **kwds)
+        if not is_runtime_mod:
+            parent_name, _, child = main_name.rpartition('.')
+            if parent_name:  # a submodule is also found as an attribute
+                parent = _import_module(parent_name)
+                old_child = getattr(parent, child, None)
+                setattr(parent, child, main)
+            sys.modules[main_name] = main
+        load_module(file, module=main, **kwds)
     finally:
         if not hasattr(filename, 'read'):  # if newly opened file
             file.close()
+        if parent is not None:
+            if old_child is None:
+                delattr(parent, child)
+            else:
+                setattr(parent, child, old_child)
         try:
             if old_main is None:
-                del sys.modules[main_name]
+                sys.modules.pop(main_name, None)
             else:
                 sys.modules[main_name] = old_main
         except NameError:  # failed before setting old_main
-- 
2.43.0


From 07d2bac8f541765f1ae10174533465a2cb30fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 19/85] fix: dumps in several threads leave the warning filters
 as they were

---
 dill/_dill.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 17de9be..cd1c9cf 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -55,7 +55,7 @@ import builtins as __builtin__
 from pickle import _Pickler as StockPickler, Unpickler as StockUnpickler
 from pickle import GLOBAL, POP
 from _contextvars import Context as ContextType
-from _thread import LockType
+from _thread import LockType, allocate_lock
 from _thread import RLock as RLockType
 try:
     from _thread import _ExceptHookArgs as ExceptHookArgsType
@@ -1174,6 +1174,12 @@ def _save_with_postproc(pickler, reduction, is_pickler_dill=None, obj=Getattr.NO
 # Copyright (c) 2012, Regents of the University of California.
 # Copyright (c) 2009 `PiCloud, Inc. <http://www.picloud.com>`_.
 # License: https://github.com/cloudpipe/cloudpickle/blob/master/LICENSE
+_warnings_lock = allocate_lock()
+if hasattr(os, 'register_at_fork'): # don't leave it locked in a child process
+    os.register_at_fork(before=_warnings_lock.acquire,
+                        after_in_parent=_warnings_lock.release,
+                        after_in_child=_warnings_lock.release)
+
 @register(CodeType)
 def save_code(pickler, obj):
     logger.trace(pickler, "Co: %s", obj)
@@ -1189,7 +1195,7 @@ def save_code(pickler, obj):
             obj.co_cellvars
         )
     elif hasattr(obj, "co_exceptiontable"): # python 3.11 (18 args)
-        with warnings.catch_warnings():
+        with _warnings_lock, warnings.catch_warnings(): # not thread-safe
             if not OLD312a7: # issue 597
                 warnings.filterwarnings('ignore', category=DeprecationWarning)
             args = (                            # [not counted in args]
-- 
2.43.0


From 258c2d144d3809bebfe26723bd939923530790b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 20/85] fix: save a cell that contains itself

---
 dill/_dill.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index cd1c9cf..39ae5fd 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1605,7 +1605,11 @@ def save_cell(pickler, obj):
             logger.trace(pickler, "# Ce2")
             return
     logger.trace(pickler, "Ce1: %s", obj)
-    pickler.save_reduce(_create_cell, (f,), obj=obj)
+    # set the value once the cell is memoized, as the value can lead to the cell
+    pickler.save_reduce(_create_cell, (_CELL_REF,), obj=obj)
+    pickler.save_reduce(_shims._setattr, (obj, 'cell_contents', f))
+    # pop None created by calling _setattr off stack
+    pickler.write(POP)
     logger.trace(pickler, "# Ce1")
     return
 
-- 
2.43.0


From 809ed467242bbd1f947ec729b2fb25debe9bf85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 21/85] fix: set the cells that hold a class before its methods
 can be called

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 39ae5fd..3b8cd78 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1144,6 +1144,10 @@ def _save_with_postproc(pickler, reduction, is_pickler_dill=None, obj=Getattr.NO
         # print(pickler.x*' ', 'pop', obj, id(obj))
         postproc = pickler._postproc.pop(id(obj))
         # assert postproc_list == postproc, 'Stack tampered!'
+        # first set the cells that hold obj, as all else may call what has them
+        # (e.g. create an instance of a metaclass whose methods use super)
+        postproc.sort(key=lambda reduction: reduction[0] is _shims._setattr and \
+                                            reduction[1][2] is obj)
         for reduction in reversed(postproc):
             if reduction[0] is _setitems:
                 # use the internal machinery of pickle.py to speedup when
-- 
2.43.0


From eb2267b6d9a6b14478810ca38d8856e2844b3fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 22/85] fix: load does not take a subclass for the namedtuple
 it is derived from

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 3b8cd78..a0c5444 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -998,7 +998,8 @@ def _create_dtypemeta(scalar_type):
 
 def _create_namedtuple(name, fieldnames, modulename, defaults=None):
     class_ = _import_module(modulename + '.' + name, safe=True)
-    if getattr(class_, '_fields', None) == tuple(fieldnames):
+    if getattr(class_, '_fields', None) == tuple(fieldnames) and \
+            class_.__bases__ == (tuple,): # not a subclass with the same name
         return class_
     import collections
     t = collections.namedtuple(name, fieldnames, defaults=defaults, module=modulename)
-- 
2.43.0


From 393570f05ff2f8e57816318efb11e549c00ae56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 23/85] fix: globalvars takes a name from another function only
 where it is the same variable

Names used by the functions a function refers to, or closes over, were
resolved in the wrong namespace: a function closing over a function of
another module got that module's globals (shadowing builtins and undefined
names, and dragging unpicklable objects into recursive dumps).
---
 dill/detect.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index f2c83c1..82bd199 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -176,8 +176,12 @@ def globalvars(func, recurse=True, builtin=False, _memo=None):
         if id(func) in _memo: return _memo[id(func)]
         found = _memo[id(func)] = {}
         globs = vars(getmodule(sum)).copy() if builtin else {}
-        # get references from within closure
+        # get globals
         orig_func, func = func, set()
+        globs.update(orig_func.__globals__ or {})
+        def shared(_vars): # names that are the same variable for both functions
+            return (k for (k,v) in _vars.items() if globs.get(k, globs) is v)
+        # get references from within closure
         for obj in orig_func.__closure__ or {}:
             try:
                 cell_contents = obj.cell_contents
@@ -185,10 +189,7 @@ def globalvars(func, recurse=True, builtin=False, _memo=None):
                 pass
             else:
                 _vars = globalvars(cell_contents, recurse, builtin, _memo) or {}
-                func.update(_vars) #XXX: (above) be wary of infinte recursion?
-                globs.update(_vars)
-        # get globals
-        globs.update(orig_func.__globals__ or {})
+                func.update(shared(_vars)) #XXX: (above) be wary of infinte recursion?
         # get names of references
         if not recurse:
             func.update(orig_func.__code__.co_names)
@@ -200,7 +201,7 @@ def globalvars(func, recurse=True, builtin=False, _memo=None):
                 if nested_func is orig_func:
                    #func.remove(key) if key in func else None
                     continue  #XXX: globalvars(func, False)?
-                func.update(globalvars(nested_func, True, builtin, _memo))
+                func.update(shared(globalvars(nested_func, True, builtin, _memo)))
         found.update((name,globs[name]) for name in func if name in globs)
         return found
     elif iscode(func):
-- 
2.43.0


From c8962a2a09812d6d581850b33447973668773dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 24/85] fix: nestedglobals looks at instructions, not at the
 text of the disassembly

A local, closure variable or string whose text contains _GLOBAL, and a name
containing parentheses text, made names global that are not; recurse then
stored (and failed on) objects the function never uses.
---
 dill/detect.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index 82bd199..89a5b5c 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -140,22 +140,14 @@ def nestedglobals(func, recurse=True):
     """get the names of any globals found within func"""
     func = code(func)
     if func is None: return list()
-    import sys
-    from io import StringIO
-    CAN_NULL = sys.hexversion >= 0x30b00a7 # NULL may be prepended >= 3.11a7
     names = set()
-    out = StringIO() # don't redirect sys.stdout, it's shared between threads
     try:
-        dis.dis(func, file=out) #XXX: dis.dis(None) disassembles last traceback
+        for op in dis.get_instructions(func):
+            # class bodies LOAD_NAME
+            if '_GLOBAL' in op.opname or op.opname == 'LOAD_NAME':
+                names.add(op.argval)
     except IndexError:
         pass #FIXME: HACK for IS_PYPY (3.11)
-    for line in out.getvalue().splitlines():
-        if '_GLOBAL' in line or 'LOAD_NAME' in line: # class bodies LOAD_NAME
-            name = line.split('(')[-1].split(')')[0]
-            if CAN_NULL:
-                names.add(name.replace('NULL + ', '').replace(' + NULL', ''))
-            else:
-                names.add(name)
     for co in getattr(func, 'co_consts', tuple()):
         if co and recurse and iscode(co):
             names.update(nestedglobals(co, recurse=True))
-- 
2.43.0


From ac51a4b451769521d34815071b07e96374457dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 25/85] fix: the copy of an unlocked RLock can be acquired

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index a0c5444..342951f 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -819,7 +819,7 @@ def _create_lock(locked, *args): #XXX: ignores 'blocking'
 
 def _create_rlock(count, owner, *args): #XXX: ignores 'blocking'
     lock = RLockType()
-    if owner is not None:
+    if count: # otherwise it's not acquired
         lock._acquire_restore((count, owner))
     if owner and not lock._is_owned():
         raise UnpicklingError("Cannot acquire lock")
-- 
2.43.0


From 5da4147ebc4dfe15381d3fe87677ac142eb4eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 26/85] fix: a proxy or view of a mapping that is not a plain
 dict keeps its mapping

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 342951f..f8aa761 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -935,7 +935,7 @@ class _attrgetter_helper(object):
             attrs[index] = ".".join([attrs[index], attr])
         return type(self)(attrs, index)
 
-class _dictproxy_helper(dict):
+class _dictproxy_helper(object): # not a dict, which other mappings would merge
    def __ror__(self, a):
         return a
 
-- 
2.43.0


From 3981e16c9d6f7a08d790d4da01ca30670af391cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 27/85] fix: dumping a weak proxy does not call the referent's
 __str__

---
 dill/_dill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index f8aa761..2de2e35 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1653,6 +1653,10 @@ def save_singleton(pickler, obj):
 def _proxy_helper(obj): # a dead proxy returns a reference to None
     """get memory address of proxy's reference object"""
     _repr = repr(obj)
+    if not IS_PYPY and type(obj) in (ProxyType, CallableProxyType):
+        # the repr is the proxy's own, and str the reference object's
+        if _repr.endswith('dead>'): return id(None)
+        return int(_repr.rstrip('>').split(' at ')[-1], base=16)
     try: _str = str(obj)
     except ReferenceError: # it's a dead proxy
         return id(None)
-- 
2.43.0


From 4bfe29ad8cb7d9ab8b4fb962e76fb9a825f8481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 28/85] fix: dump weak proxies of objects the garbage collector
 does not track

---
 dill/_dill.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 2de2e35..e52c4fc 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1706,7 +1706,15 @@ def save_weakref(pickler, obj):
 def save_weakproxy(pickler, obj):
     # Must do string substitution here and use %r to avoid ReferenceError.
     logger.trace(pickler, "R2: %r" % obj)
-    refobj = _locate_object(_proxy_helper(obj))
+    address = _proxy_helper(obj)
+    try:
+        refobj = _locate_object(address)
+    except ReferenceError: # not tracked by gc, so ask one of its methods
+        for name in ('__init__', 'mro'):
+            refobj = getattr(getattr(obj, name, None), '__self__', None)
+            if id(refobj) == address: break
+        else:
+            raise
     pickler.save_reduce(_create_weakproxy, (refobj, callable(obj)), obj=obj)
     logger.trace(pickler, "# R2")
     return
-- 
2.43.0


From 0dc61be3704bfdc2bee472217a38e0e8e4c3e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 29/85] fix: standard streams can be dumped with FILE_FMODE

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index e52c4fc..f275dc9 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1412,7 +1412,7 @@ def _save_file(pickler, obj, open_):
             position = -1
         else:
             position = obj.tell()
-    if is_dill(pickler, child=True) and pickler._fmode == FILE_FMODE:
+    if position >= 0 and is_dill(pickler, child=True) and pickler._fmode == FILE_FMODE:
         f = open_(obj.name, "rb")
         fdata = f.read()
         f.close()
-- 
2.43.0


From 464392c7eb0a68aeed328195d7f4c4101fbb2630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 30/85] fix: sessions with refimported keep inner references to
 the module and its namespace

---
 dill/_dill.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index f275dc9..4e311b2 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1260,7 +1260,9 @@ def _repr_dict(obj):
 @register(dict)
 def save_module_dict(pickler, obj):
     if is_dill(pickler, child=False) and obj is pickler._main.__dict__ and \
-            not (pickler._session and pickler._first_pass):
+            not (pickler._session and pickler._first_pass) \
+            or getattr(pickler, '_main_modified', False) \
+            and obj is pickler._original_main.__dict__: # stand-in has the session
         logger.trace(pickler, "D1: %s", _repr_dict(obj)) # obj
         pickler.write(bytes('c__builtin__\n__main__\n', 'UTF-8'))
         logger.trace(pickler, "# D1")
@@ -1760,6 +1762,8 @@ def save_module(pickler, obj):
         logger.trace(pickler, "M1: %s", obj)
         pickler.save_reduce(_import_module, (obj.__name__,), obj=obj)
         logger.trace(pickler, "# M1")
+    elif getattr(pickler, '_main_modified', False) and obj is pickler._original_main:
+        pickler.save(pickler._main) # the stand-in has the session
     else:
         builtin_mod = _is_builtin_module(obj)
         is_session_main = is_dill(pickler, child=True) and obj is pickler._main
-- 
2.43.0


From b0505f4c36a2971b40f687f54a4c7e77bebec8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 31/85] fix: close the descriptor when a session path is a
 directory

---
 dill/session.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dill/session.py b/dill/session.py
index 967e13c..ca8dc34 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -79,7 +79,11 @@ def _safe_open_for_reading(path):
     """
     _check_symlink(path)
     fd = os.open(path, os.O_RDONLY | _O_NOFOLLOW)
-    return os.fdopen(fd, 'rb')
+    try:
+        return os.fdopen(fd, 'rb')
+    except OSError:  # e.g. a directory
+        os.close(fd)
+        raise
 
 _DEFAULT_PATH_WARNING = (
     "using the default session file %r which is in a world-writable "
-- 
2.43.0


From cbe7a3857aa70529f227f835b23b1b9fb16ad22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 32/85] fix: leave the __slotnames__ cache of copyreg out of
 pickled classes

---
 dill/_dill.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 4e311b2..282f604 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1820,6 +1820,7 @@ def _get_typedict_type(cls, clsdict, attrs, postproc_list):
     if issubclass(type(cls), type):
         clsdict.pop('__dict__', None)
         clsdict.pop('__weakref__', None)
+        clsdict.pop('__slotnames__', None) # cache of copyreg
         # clsdict.pop('__prepare__', None)
     return clsdict, attrs
 
-- 
2.43.0


From c62449e351cf16ad3a33b9e66f1f87c897253777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 33/85] fix: a pickler that failed forgets what was unfinished

---
 dill/_dill.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 282f604..09193c5 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -426,7 +426,11 @@ class Pickler(StockPickler):
 
     def dump(self, obj): #NOTE: if settings change, need to update attributes
         logger.trace_setup(self)
-        StockPickler.dump(self, obj)
+        try:
+            StockPickler.dump(self, obj)
+        except BaseException:
+            getattr(self, '_postproc', {}).clear() # nothing is on the stack anymore
+            raise
     dump.__doc__ = StockPickler.dump.__doc__
 
 class Unpickler(StockUnpickler):
-- 
2.43.0


From deed91c6c2cfd90d186ed78c2e133f6d7d415407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 34/85] fix: extend(False) also drops types that users
 registered with dill

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 09193c5..1e9cc72 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -488,7 +488,8 @@ def register(t):
 def _revert_extension():
     """drop dill-registered types from pickle's dispatch table"""
     for type, func in list(StockPickler.dispatch.items()):
-        if func.__module__ == __name__:
+        if func.__module__ == __name__ or (type in Pickler.dispatch
+                and func is not pickle_dispatch_copy.get(type)):
             del StockPickler.dispatch[type]
             if type in pickle_dispatch_copy:
                 StockPickler.dispatch[type] = pickle_dispatch_copy[type]
-- 
2.43.0


From 28d64b50936ae46dd3a9598b2fd18f609d73a9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 35/85] fix: reducers registered with copyreg for a metaclass
 are used

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 1e9cc72..f70bb31 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -42,6 +42,7 @@ from .logger import adapter as logger
 from .logger import trace as _trace
 log = logger # backward compatibility (see issue #582)
 
+import copyreg
 import os
 import sys
 diff = None
@@ -329,7 +330,7 @@ class MetaCatchingDict(dict):
             return default
 
     def __missing__(self, key):
-        if issubclass(key, type):
+        if issubclass(key, type) and key not in copyreg.dispatch_table:
             return save_type
         else:
             raise KeyError()
-- 
2.43.0


From 4b90bb13edbd28e0ea0ced2e96c8e44250cc8156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 36/85] fix: tracing a dump to a stream that cannot tell its
 position

---
 dill/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dill/logger.py b/dill/logger.py
index a330112..e22335f 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -153,6 +153,9 @@ class TraceAdapter(logging.LoggerAdapter):
                 size += len(frame)
         except (AttributeError, TypeError):
             pass
+        except (OSError, ValueError):
+            # Some streams (e.g. pipes) have a tell() method that fails.
+            size = None
         if size is not None:
             if not pushed_obj:
                 pickler._size_stack.append(size)
-- 
2.43.0


From f3034cf382b9025310343f202757206c3697e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:12 +0000
Subject: [PATCH 37/85] fix: leaving a nested trace redirection does not unmute
 stderr

---
 dill/logger.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index e22335f..1d1b314 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -274,6 +274,8 @@ class TraceManager(contextlib.AbstractContextManager):
                 self.handler = logging.StreamHandler(self.file)
             else:
                 self.handler = logging.FileHandler(self.file, self.mode)
+            # It may be muted already, e.g. by an outer redirection.
+            self.muted = stderr_handler in logger.handlers
             adapter.removeHandler(stderr_handler)
             adapter.addHandler(self.handler)
         self.old_level = adapter.getEffectiveLevel()
@@ -283,6 +285,7 @@ class TraceManager(contextlib.AbstractContextManager):
         adapter.setLevel(self.old_level)
         if self.redirect:
             adapter.removeHandler(self.handler)
-            adapter.addHandler(stderr_handler)
+            if self.muted:
+                adapter.addHandler(stderr_handler)
             if not self.file_is_stream:
                 self.handler.close()
-- 
2.43.0


From 7db9046e47244b284e43ba117c1ca29f84526c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:36 +0000
Subject: [PATCH 38/85] fix: unit of large sizes in the trace

---
 dill/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index 1d1b314..586f1fb 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -207,7 +207,7 @@ class TraceFormatter(logging.Formatter):
             # Show object size in human-readable form.
             power = int(math.log(record.size, 2)) // 10
             size = record.size >> power*10
-            fields['suffix'] = " [%d %sB]" % (size, "KMGTP"[power] + "i" if power else "")
+            fields['suffix'] = " [%d %sB]" % (size, "KMGTP"[power - 1] + "i" if power else "")
         vars(record).update(fields)
         return super().format(record)
 
-- 
2.43.0


From 4fb9de214dcd50b55ba4d31cdd30980d85bf2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 39/85] fix: badobjects, badtypes and baditems with items that
 compare oddly and attributes that raise

---
 dill/detect.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index 89a5b5c..2ee2413 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -233,9 +233,19 @@ def baditems(obj, exact=False, safe=False): #XXX: obj=globals() ?
         return [j for j in (badobjects(obj,0,exact,safe),) if j is not None]
     obj = obj.values() if getattr(obj,'values',None) else obj
     _obj = [] # can't use a set, as items may be unhashable
-    [_obj.append(badobjects(i,0,exact,safe)) for i in obj if i not in _obj]
+    for i in obj: # don't compare items, they may be equal (or not comparable)
+        if not any(i is j for j in _obj):
+            _obj.append(badobjects(i,0,exact,safe))
     return [j for j in _obj if j is not None]
 
+def _attributes(obj):
+    """get names and values for the attributes of object that can be read"""
+    for attr in dir(obj):
+        try:
+            yield attr, getattr(obj,attr)
+        except Exception: # e.g. an empty slot, or a property that raises
+            continue
+
 
 def badobjects(obj, depth=0, exact=False, safe=False):
     """get objects that fail to pickle"""
@@ -243,8 +253,8 @@ def badobjects(obj, depth=0, exact=False, safe=False):
     if not depth:
         if pickles(obj,exact,safe): return None
         return obj
-    return dict(((attr, badobjects(getattr(obj,attr),depth-1,exact,safe)) \
-           for attr in dir(obj) if not pickles(getattr(obj,attr),exact,safe)))
+    return dict(((attr, badobjects(_attr,depth-1,exact,safe)) \
+           for (attr,_attr) in _attributes(obj) if not pickles(_attr,exact,safe)))
 
 def badtypes(obj, depth=0, exact=False, safe=False):
     """get types for objects that fail to pickle"""
@@ -252,8 +262,8 @@ def badtypes(obj, depth=0, exact=False, safe=False):
     if not depth:
         if pickles(obj,exact,safe): return None
         return type(obj)
-    return dict(((attr, badtypes(getattr(obj,attr),depth-1,exact,safe)) \
-           for attr in dir(obj) if not pickles(getattr(obj,attr),exact,safe)))
+    return dict(((attr, badtypes(_attr,depth-1,exact,safe)) \
+           for (attr,_attr) in _attributes(obj) if not pickles(_attr,exact,safe)))
 
 def errors(obj, depth=0, exact=False, safe=False):
     """get errors for objects that fail to pickle"""
-- 
2.43.0


From f63732a2bda86b267d4c3f3e091a2c2ba01eb2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 40/85] fix: pickles of objects whose comparison fails, and
 exact comparison of arrays

---
 dill/_dill.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index f70bb31..78d61dd 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2241,14 +2241,17 @@ def pickles(obj,exact=False,safe=False,**kwds):
         pik = copy(obj, **kwds)
         #FIXME: should check types match first, then check content if "exact"
         try:
-            #FIXME: should be "(pik == obj).all()" for numpy comparison, though that'll fail if shapes differ
-            result = bool(pik.all() == obj.all())
-        except (AttributeError, TypeError):
             with warnings.catch_warnings():
                 warnings.filterwarnings('ignore') #FIXME: be specific
                 result = pik == obj
-        if hasattr(result, 'toarray'): # for unusual types like sparse matrix
-            result = result.toarray().all()
+                if hasattr(result, 'toarray'): # for unusual types like sparse matrix
+                    result = result.toarray()
+                if hasattr(result, 'all'): # arrays must match in shape and content
+                    same = getattr(pik, 'shape', None) == getattr(obj, 'shape', None)
+                    result = same and result.all()
+                result = bool(result.all() if hasattr(result, 'all') else result)
+        except Exception: # failing to compare is not failing to pickle
+            result = False
         if result: return True
         if not exact:
             result = type(pik) == type(obj)
-- 
2.43.0


From 04ff74fb5799e1c228ca4ff985b5daa23e7c5dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 41/85] fix: globalvars(recurse=False) reported globals named
 like attributes

---
 dill/detect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index 2ee2413..5073981 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -184,7 +184,7 @@ def globalvars(func, recurse=True, builtin=False, _memo=None):
                 func.update(shared(_vars)) #XXX: (above) be wary of infinte recursion?
         # get names of references
         if not recurse:
-            func.update(orig_func.__code__.co_names)
+            func.update(nestedglobals(orig_func.__code__, recurse=False))
         else:
             func.update(nestedglobals(orig_func.__code__))
             # find globals for all entries of func
@@ -200,7 +200,7 @@ def globalvars(func, recurse=True, builtin=False, _memo=None):
         globs = vars(getmodule(sum)).copy() if builtin else {}
        #globs.update(globals())
         if not recurse:
-            func = func.co_names # get names
+            func = nestedglobals(func, recurse=False) # get names
         else:
             orig_func = func.co_name # to stop infinite recursion
             func = set(nestedglobals(func))
-- 
2.43.0


From 64bc9257df37361368b07e13dfec8447bb7c0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:54 +0000
Subject: [PATCH 42/85] fix: source of async functions

---
 dill/source.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index b77d9fb..992bd5c 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -186,14 +186,14 @@ def findsource(object):
     if ismethod(object):
         name = object.__name__
         if name == '<lambda>': pat1 = r'(.*(?<!\w)lambda(:|\s))'
-        else: pat1 = r'^(\s*def\s)'
+        else: pat1 = r'^(\s*(?:async\s+)?def\s)'
         object = object.__func__
     if isfunction(object):
         name = object.__name__
         if name == '<lambda>':
             pat1 = r'(.*(?<!\w)lambda(:|\s))'
             obj = object #XXX: better a copy?
-        else: pat1 = r'^(\s*def\s)'
+        else: pat1 = r'^(\s*(?:async\s+)?def\s)'
         object = object.__code__
     if istraceback(object):
         object = object.tb_frame
@@ -205,10 +205,10 @@ def findsource(object):
         stdin = object.co_filename == '<stdin>'
         if stdin:
             lnum = len(lines) - 1 # can't get lnum easily, so leverage pat
-            if not pat1: pat1 = r'^(\s*def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
+            if not pat1: pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
         else:
             lnum = object.co_firstlineno - 1
-            pat1 = r'^(\s*def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
+            pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
         pat1 = re.compile(pat1); pat2 = re.compile(pat2)
        #XXX: candidate_lnum = [n for n in range(lnum) if pat1.match(lines[n])]
         while lnum > 0: #XXX: won't find decorators in <stdin> ?
@@ -282,7 +282,7 @@ def getblocks(object, lstrip=False, enclosing=False, locate=False):
         if lstrip: block = _outdent(block)
         return ([block], [lnum]) if locate is True else [block]
 
-    pat1 = r'^(\s*def\s)|(.*(?<!\w)lambda(:|\s))'; pat1 = re.compile(pat1)
+    pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))'; pat1 = re.compile(pat1)
     pat2 = r'^(\s*@)'; pat2 = re.compile(pat2)
    #pat3 = r'^(\s*class\s)'; pat3 = re.compile(pat3) #XXX: enclosing class?
     #FIXME: bound methods need enclosing class (and then instantiation)
@@ -421,7 +421,7 @@ def getsource(object, alias='', lstrip=False, enclosing=False, \
                 if not line.startswith('@'): break
                 skip += 1
             #XXX: use regex from findsource / getsourcelines ?
-            if lines[skip].lstrip().startswith('def '): # we have a function
+            if re.match(r'\s*(?:async\s+)?def\s', lines[skip]): # we have a function
                 if alias != object.__name__:
                     lines.append('\n%s = %s\n' % (alias, object.__name__))
             elif 'lambda ' in lines[skip]: # we have a lambda
-- 
2.43.0


From 2393ecde2bc7a8e97014952144a22fbcbc519e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 43/85] fix: outermost prefers the object itself among several
 in the same lines

---
 dill/detect.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index 5073981..6b92945 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -50,12 +50,16 @@ def outermost(func): # is analogous to getsource(func,enclosing=True)
     # get all possible names,objects that are named in the enclosing source
     _locals = ((name,obj) for (name,obj) in _globals if name in code)
     # now only save the objects that generate the enclosing block
+    match = None
     for name,obj in _locals: #XXX: don't really need 'name'
         try:
-            if getsourcelines(obj) == (lines,lnum): return obj
+            if getsourcelines(obj) == (lines,lnum):
+                # there can be more than one object in the same lines
+                if obj is func: return obj
+                if match is None: match = obj
         except Exception: #TypeError, IOError
             pass
-    return #XXX: or raise? no matches
+    return match #XXX: or raise? no matches
 
 def nestedcode(func, recurse=True): #XXX: or return dict of {co_name: co} ?
     """get the code objects for any nested functions (e.g. in a closure)"""
-- 
2.43.0


From 364c390dbe95e1f480aa6d31bcae301361d5fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 44/85] fix: errors(exact=True) compares arrays like pickles
 does

---
 dill/_dill.py  | 22 +++++++++++++---------
 dill/detect.py |  3 ++-
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 78d61dd..65e6d62 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2222,6 +2222,18 @@ if hasattr(dataclasses, "_FIELD_BASE"):
 #############################
 
 # quick sanity checking
+def _equal(pik, obj):
+    "compare objects that may be arrays or similar"
+    with warnings.catch_warnings():
+        warnings.filterwarnings('ignore') #FIXME: be specific
+        result = pik == obj
+        if hasattr(result, 'toarray'): # for unusual types like sparse matrix
+            result = result.toarray()
+        if hasattr(result, 'all'): # arrays must match in shape and content
+            same = getattr(pik, 'shape', None) == getattr(obj, 'shape', None)
+            result = same and result.all()
+        return bool(result.all() if hasattr(result, 'all') else result)
+
 def pickles(obj,exact=False,safe=False,**kwds):
     """
     Quick check if object pickles with dill.
@@ -2241,15 +2253,7 @@ def pickles(obj,exact=False,safe=False,**kwds):
         pik = copy(obj, **kwds)
         #FIXME: should check types match first, then check content if "exact"
         try:
-            with warnings.catch_warnings():
-                warnings.filterwarnings('ignore') #FIXME: be specific
-                result = pik == obj
-                if hasattr(result, 'toarray'): # for unusual types like sparse matrix
-                    result = result.toarray()
-                if hasattr(result, 'all'): # arrays must match in shape and content
-                    same = getattr(pik, 'shape', None) == getattr(obj, 'shape', None)
-                    result = same and result.all()
-                result = bool(result.all() if hasattr(result, 'all') else result)
+            result = _equal(pik, obj)
         except Exception: # failing to compare is not failing to pickle
             result = False
         if result: return True
diff --git a/dill/detect.py b/dill/detect.py
index 6b92945..cc310bb 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -272,11 +272,12 @@ def badtypes(obj, depth=0, exact=False, safe=False):
 def errors(obj, depth=0, exact=False, safe=False):
     """get errors for objects that fail to pickle"""
     from dill import pickles, copy
+    from dill._dill import _equal
     if not depth:
         try:
             pik = copy(obj)
             if exact:
-                assert pik == obj, \
+                assert _equal(pik, obj), \
                     "Unpickling produces %s instead of %s" % (pik,obj)
             assert type(pik) == type(obj), \
                 "Unpickling produces %s instead of %s" % (type(pik),type(obj))
-- 
2.43.0


From d13310ead64c9d1a03f882d065c137fa3774ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 45/85] fix: source of classes that have a namesake in the
 module, and of decorated classes

---
 dill/source.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/dill/source.py b/dill/source.py
index 992bd5c..d60aa2b 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -102,6 +102,37 @@ def _matchlambda(func, line):
     return False
 
 
+def _findclass(object, lines):
+    """find the first line (or decorator) of a class in the source of a module
+
+    Return None if there is no definition with the qualified name of the class.
+    """
+    import ast
+    found = []
+    def visit(node, names):
+        for child in ast.iter_child_nodes(node):
+            if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
+                visit(child, names + [child.name, '<locals>'])
+            elif isinstance(child, ast.ClassDef):
+                path = names + [child.name]
+                if child.name == object.__name__ and '.'.join(path) == object.__qualname__:
+                    lnum = min(i.lineno for i in [child] + child.decorator_list)
+                    found.append((lnum, child.end_lineno))
+                visit(child, path)
+            else:
+                visit(child, names)
+    visit(ast.parse(''.join(lines)), [])
+    if not found: return None
+    # if it's defined more than once, look for the one with its methods
+    for attr in vars(object).values():
+        if isinstance(attr, (staticmethod, classmethod)): attr = attr.__func__
+        elif isinstance(attr, property): attr = attr.fget
+        if not isfunction(attr) or attr.__module__ != object.__module__: continue
+        for first,last in found:
+            if first < attr.__code__.co_firstlineno <= last: return first - 1
+    return found[-1][0] - 1
+
+
 def findsource(object):
     """Return the entire source file and starting line number for an object.
     For interactively-defined objects, the 'file' is the interpreter's history.
@@ -234,6 +265,12 @@ def findsource(object):
             #XXX: we don't find how the instance was built
     except AttributeError: pass
     if isclass(object):
+        if not is_module_main:
+            try: lnum = _findclass(object, lines)
+            except SyntaxError: pass
+            else:
+                if lnum is None: raise IOError('could not find class definition')
+                return lines, lnum
         name = object.__name__
         pat = re.compile(r'^(\s*)class\s*' + name + r'\b')
         # make some effort to find the best matching class definition:
-- 
2.43.0


From 620f27a2e263da02b775cda3fd3e9a0c73162740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:55 +0000
Subject: [PATCH 46/85] fix: indent and outdent do not change multiline strings

---
 dill/source.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index d60aa2b..4c25b6a 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -517,6 +517,25 @@ def _isstring(object): #XXX: isstringlike better?
     return isinstance(object, (str, bytes))
 
 
+def _instring(lines):
+    '''get the indices of the lines that start inside of a multiline string'''
+    import tokenize
+    inside, start = set(), []
+    lines = iter([line if line.endswith('\n') else line+'\n' for line in lines])
+    try:
+        for token in tokenize.generate_tokens(lines.__next__):
+            kind = tokenize.tok_name[token.type]
+            if kind == 'STRING':
+                inside.update(range(token.start[0], token.end[0]))
+            elif kind in ('FSTRING_START', 'TSTRING_START'):
+                start.append(token.start[0])
+            elif kind in ('FSTRING_END', 'TSTRING_END'):
+                inside.update(range(start.pop(), token.end[0]))
+    except (TokenError, SyntaxError): # not (a complete) code
+        pass
+    return inside
+
+
 def indent(code, spaces=4):
     '''indent a block of code with whitespace (default is 4 spaces)'''
     indent = indentsize(code)
@@ -526,24 +545,12 @@ def indent(code, spaces=4):
     nspaces = indentsize(spaces)
     # blank lines (etc) need to be ignored
     lines = code.split('\n')
-##  stq = "'''"; dtq = '"""'
-##  in_stq = in_dtq = False
+    inside = _instring(lines)
     for i in range(len(lines)):
-        #FIXME: works... but shouldn't indent 2nd+ lines of multiline doc
+        if i in inside: continue # the content of a string must not change
         _indent = indentsize(lines[i])
         if indent > _indent: continue
         lines[i] = spaces+lines[i]
-##      #FIXME: may fail when stq and dtq in same line (depends on ordering)
-##      nstq, ndtq = lines[i].count(stq), lines[i].count(dtq)
-##      if not in_dtq and not in_stq:
-##          lines[i] = spaces+lines[i] # we indent
-##          # entering a comment block
-##          if nstq%2: in_stq = not in_stq
-##          if ndtq%2: in_dtq = not in_dtq
-##      # leaving a comment block
-##      elif in_dtq and ndtq%2: in_dtq = not in_dtq
-##      elif in_stq and nstq%2: in_stq = not in_stq
-##      else: pass
     if lines[-1].strip() == '': lines[-1] = ''
     return '\n'.join(lines)
 
@@ -552,8 +559,9 @@ def _outdent(lines, spaces=None, all=True):
     '''outdent lines of code, accounting for docs and line continuations'''
     indent = indentsize(lines[0])
     if spaces is None or spaces > indent or spaces < 0: spaces = indent
+    inside = _instring(lines) if spaces and all else ()
     for i in range(len(lines) if all else 1):
-        #FIXME: works... but shouldn't outdent 2nd+ lines of multiline doc
+        if i in inside: continue # the content of a string must not change
         _indent = indentsize(lines[i])
         if spaces > _indent: _spaces = _indent
         else: _spaces = spaces
-- 
2.43.0


From 4273068b388b476936898c1926e56dc3d829c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:25 +0000
Subject: [PATCH 47/85] fix: getsource(alias=...) of a lambda without arguments

---
 dill/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/source.py b/dill/source.py
index 4c25b6a..27db63c 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -461,7 +461,7 @@ def getsource(object, alias='', lstrip=False, enclosing=False, \
             if re.match(r'\s*(?:async\s+)?def\s', lines[skip]): # we have a function
                 if alias != object.__name__:
                     lines.append('\n%s = %s\n' % (alias, object.__name__))
-            elif 'lambda ' in lines[skip]: # we have a lambda
+            elif re.search(r'(?<!\w)lambda(:|\s)', lines[skip]): # we have a lambda
                 if alias != lines[skip].split('=')[0].strip():
                     lines[skip] = '%s = %s' % (alias, lines[skip])
             else: # ...try to use the object's name
-- 
2.43.0


From f490ef454164135dece9e46359934074282c352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:07 +0000
Subject: [PATCH 48/85] fix: getsource(enclosing=True) took comments and
 strings for enclosing code

---
 dill/source.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dill/source.py b/dill/source.py
index 27db63c..a4b9a44 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -295,6 +295,19 @@ def findsource(object):
     raise IOError('could not find code object')
 
 
+def _deflines(lines):
+    '''get the indices of the lines with a 'def' or a 'lambda' in the code
+    (i.e. not in a string or in a comment), or None if lines isn't valid code'''
+    import tokenize
+    try:
+        return set(token.start[0] - 1 for token in
+                   tokenize.generate_tokens(iter(lines).__next__)
+                   if token.type == tokenize.NAME
+                   and token.string in ('def', 'lambda'))
+    except (TokenError, SyntaxError):
+        return None
+
+
 def getblocks(object, lstrip=False, enclosing=False, locate=False):
     """Return a list of source lines and starting line number for an object.
     Interactively-defined objects refer to lines in the interpreter's history.
@@ -329,9 +342,10 @@ def getblocks(object, lstrip=False, enclosing=False, locate=False):
     line = 0
     blocks = []; _lnum = []
     target = ''.join(block)
+    known = _deflines(lines)
     while line <= lnum: #XXX: repeat lnum? or until line < lnum?
         # see if starts with ('def','lambda') and contains our target block
-        if pat1.match(lines[line]):
+        if pat1.match(lines[line]) and (known is None or line in known):
             if not skip:
                 try: code = getblock(lines[line:])
                 except TokenError: code = [lines[line]]
-- 
2.43.0


From ee0618e6c9a81c6419d843706af259b5fcc08e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 49/85] fix: source of functions in the interactive history is
 that of the last definition of the name

---
 dill/source.py | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index a4b9a44..bfb505d 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -49,24 +49,33 @@ def isdynamic(obj):
     return False
 
 
+def _constants(code):
+    "get the constants and the names used by a code object"
+    return [repr(i) for i in code.co_consts if not iscode(i)], code.co_names
+
+
 def _matchlambda(func, line):
     """check if lambda object 'func' matches raw line of code 'line'"""
     from .detect import code as getcode
     from .detect import freevars, globalvars, varnames
     dummy = lambda : '__this_is_a_big_dummy_function__'
     # process the line (removing leading whitespace, etc)
-    lhs,rhs = line.split('lambda ',1)[-1].split(":", 1) #FIXME: if !1 inputs
+    _ = re.split(r'(?<!\w)lambda(?=:|\s)', line, maxsplit=1)[-1]
+    lhs,rhs = _.split(":", 1) #FIXME: if !1 inputs
+    lhs = lhs.strip()
     try: #FIXME: unsafe
         _ = eval("lambda %s : %s" % (lhs,rhs), globals(),locals())
     except Exception: _ = dummy
     # get code objects, for comparison
+    _consts = _ is not dummy and _constants(getcode(_))
     _, code = getcode(_).co_code, getcode(func).co_code
     # check if func is in closure
     _f = [line.count(i) for i in freevars(func).keys()]
     if not _f: # not in closure
         # check if code matches
-        if _ == code: return True
-        return False
+        if _ != code: return False
+        # the code is the same if only the constants and the names differ
+        return not _consts or _consts == _constants(getcode(func))
     # weak check on freevars
     if not all(_f): return False  #XXX: VERY WEAK
     # weak check on varnames and globalvars
@@ -242,21 +251,26 @@ def findsource(object):
             pat1 = r'^(\s*(?:async\s+)?def\s)|(.*(?<!\w)lambda(:|\s))|^(\s*@)'
         pat1 = re.compile(pat1); pat2 = re.compile(pat2)
        #XXX: candidate_lnum = [n for n in range(lnum) if pat1.match(lines[n])]
-        while lnum > 0: #XXX: won't find decorators in <stdin> ?
+        if stdin:
+            name, obj = name or object.co_name, obj or object
+        if stdin and name != '<lambda>': # look for the name
+            nested = getattr(object, 'co_qualname', name) != name
+            pat = re.compile(r'^(\s*)(?:async\s+)?def\s+%s\s*[\(\[]' % re.escape(name))
+            found = [(i, m.group(1)) for i, m in enumerate(map(pat.match, lines)) if m]
+            # prefer a definition with an indent only if it's not at toplevel
+            best = [i for i,pad in found if bool(pad) is nested] or [i for i,pad in found]
+            if not best: raise IOError('could not find function definition')
+            lnum = best[-1]
+            while lnum > 0 and pat2.match(lines[lnum-1]): lnum -= 1
+            return lines, lnum
+        while lnum > 0 or (stdin and lnum == 0):
             line = lines[lnum]
             if pat1.match(line):
                 if not stdin: break # co_firstlineno does the job
-                if name == '<lambda>': # hackery needed to confirm a match
-                    if _matchlambda(obj, line): break
-                else: # not a lambda, just look for the name
-                    if name in line: # need to check for decorator...
-                        hats = 0
-                        for _lnum in range(lnum-1,-1,-1):
-                            if pat2.match(lines[_lnum]): hats += 1
-                            else: break
-                        lnum = lnum - hats
-                        break
+                # hackery needed to confirm a match
+                if _matchlambda(obj, line): break
             lnum = lnum - 1
+        if lnum < 0: raise IOError('could not find function definition')
         return lines, lnum
 
     try: # turn instances into classes
-- 
2.43.0


From 44f9e6ed60d03a126c9160decd35da263ce4878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:54 +0000
Subject: [PATCH 50/85] fix: a lambda in a string of the interactive history
 was taken for the source

---
 dill/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dill/source.py b/dill/source.py
index bfb505d..e4967bb 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -59,6 +59,7 @@ def _matchlambda(func, line):
     from .detect import code as getcode
     from .detect import freevars, globalvars, varnames
     dummy = lambda : '__this_is_a_big_dummy_function__'
+    if _deflines([line]) == set(): return False # it's in a string or a comment
     # process the line (removing leading whitespace, etc)
     _ = re.split(r'(?<!\w)lambda(?=:|\s)', line, maxsplit=1)[-1]
     lhs,rhs = _.split(":", 1) #FIXME: if !1 inputs
-- 
2.43.0


From cbc8a8122f2970ff57a7c64f897ae5a571be7423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:30 +0000
Subject: [PATCH 51/85] fix: getsource(enclosing=True) left out decorators that
 span lines

---
 dill/source.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/dill/source.py b/dill/source.py
index e4967bb..7692ff4 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -323,6 +323,19 @@ def _deflines(lines):
         return None
 
 
+def _enclosingline(lines, lnum):
+    '''get the index of the first line of the outermost function (or lambda,
+    including any decorators) that contains the line with the given index'''
+    import ast
+    defs = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
+    found = [lnum]
+    for node in ast.walk(ast.parse(''.join(lines))):
+        if not isinstance(node, defs): continue
+        first = min(i.lineno for i in [node] + getattr(node, 'decorator_list', []))
+        if first <= lnum + 1 <= node.end_lineno: found.append(first - 1)
+    return min(found)
+
+
 def getblocks(object, lstrip=False, enclosing=False, locate=False):
     """Return a list of source lines and starting line number for an object.
     Interactively-defined objects refer to lines in the interpreter's history.
@@ -353,6 +366,15 @@ def getblocks(object, lstrip=False, enclosing=False, locate=False):
     #FIXME: bound methods need enclosing class (and then instantiation)
     #       *or* somehow apply a partial using the instance
 
+    try: # if lines is valid code, the syntax tree knows the enclosing code
+        first = _enclosingline(lines, lnum)
+    except SyntaxError: # (not if it's from the interpreter's history)
+        first = None
+    if first is not None:
+        block = getblock(lines[first:])
+        if lstrip: block = _outdent(block)
+        return ([block], [first]) if locate is True else [block]
+
     skip = 0
     line = 0
     blocks = []; _lnum = []
-- 
2.43.0


From 6e05399d6affd350cd4793b0f44ec62a89a65c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 52/85] fix: importable of strings that contain '<...>' gave
 their type

---
 dill/source.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dill/source.py b/dill/source.py
index 7692ff4..b306ac0 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -568,6 +568,14 @@ def _isstring(object): #XXX: isstringlike better?
     return isinstance(object, (str, bytes))
 
 
+def _isliteral(code):
+    '''check if code is a literal (of strings, numbers, tuples, lists, ...)'''
+    import ast
+    try: ast.literal_eval(code)
+    except Exception: return False
+    return True
+
+
 def _instring(lines):
     '''get the indices of the lines that start inside of a multiline string'''
     import tokenize
@@ -837,6 +845,8 @@ def getimport(obj, alias='', verify=True, builtin=False, enclosing=False):
     # for named things... with a nice repr #XXX: move into _namespace?
     try: # look for '<...>' and be mindful it might be in lists, dicts, etc...
         name = repr(obj).split('<',1)[1].split('>',1)[1]
+        if head in ['builtins','__builtin__'] and _isliteral(repr(obj)):
+            raise ValueError('<...> is inside of a string')
         name = None # we have a 'object'-style repr
     except Exception: # it's probably something 'importable'
         if head in ['builtins','__builtin__']:
-- 
2.43.0


From 12d5b68fdabc067f8908acc2ccb50562823d3c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:23 +0000
Subject: [PATCH 53/85] fix: dump_source and load_source of source that isn't
 latin-1, and mode 'rb'

---
 dill/temp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dill/temp.py b/dill/temp.py
index 4b9f4e0..d84a4b3 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -42,7 +42,7 @@ def capture(stream='stdout'):
 
 def b(x): # deal with b'foo' versus 'foo'
     import codecs
-    return codecs.latin_1_encode(x)[0]
+    return codecs.utf_8_encode(x)[0]
 
 def load_source(file, **kwds):
     """load an object that was stored with dill.temp.dump_source
@@ -60,7 +60,10 @@ def load_source(file, **kwds):
     alias = kwds.pop('alias', None)
     mode = kwds.pop('mode', 'r')
     fname = getattr(file, 'name', file) # fname=file.name or fname=file (if str)
-    source = open(fname, mode=mode, **kwds).read()
+    if 'b' not in mode: kwds.setdefault('encoding', 'utf-8')
+    with open(fname, mode=mode, **kwds) as f:
+        source = f.read()
+    if isinstance(source, bytes): source = source.decode('utf-8')
     if not alias:
         tag = source.strip().splitlines()[-1].split()
         if tag[0] != '#NAME:':
@@ -209,7 +212,7 @@ def loadIO_source(buffer, **kwds):
     alias = kwds.pop('alias', None)
     source = getattr(buffer, 'getvalue', buffer) # source or buffer.getvalue
     if source != buffer: source = source() # buffer.getvalue()
-    source = source.decode() # buffer to string
+    source = source.decode('utf-8') # buffer to string
     if not alias:
         tag = source.strip().splitlines()[-1].split()
         if tag[0] != '#NAME:':
-- 
2.43.0


From c263a77a3f6ef214e64c08aecf2c015bc224c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 54/85] fix: dump_source of objects without a name loaded as
 None

---
 dill/temp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/temp.py b/dill/temp.py
index d84a4b3..5246484 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -113,6 +113,7 @@ NOTE: Keep the return value for as long as you want your file to exist !
     kwds.pop('suffix', '') # this is *always* '.py'
     alias = kwds.pop('alias', '') #XXX: include an alias so a name is known
     name = str(alias) or getname(object)
+    if not name: name = alias = '_' # the object has no name
     name = "\n#NAME: %s\n" % name
     #XXX: assumes kwds['dir'] is writable and on $PYTHONPATH
     file = tempfile.NamedTemporaryFile(suffix='.py', **kwds)
@@ -241,6 +242,7 @@ Optional kwds:
     from io import BytesIO as StringIO
     alias = kwds.pop('alias', '') #XXX: include an alias so a name is known
     name = str(alias) or getname(object)
+    if not name: name = alias = '_' # the object has no name
     name = "\n#NAME: %s\n" % name
     #XXX: assumes kwds['dir'] is writable and on $PYTHONPATH
     file = StringIO()
-- 
2.43.0


From 62a656646a77d35d0098920f6381b2f1757cff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 55/85] fix: temp.dump and dump_source left a file behind when
 the object can't be stored

---
 dill/temp.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dill/temp.py b/dill/temp.py
index 5246484..6b6aee5 100644
--- a/dill/temp.py
+++ b/dill/temp.py
@@ -116,8 +116,9 @@ NOTE: Keep the return value for as long as you want your file to exist !
     if not name: name = alias = '_' # the object has no name
     name = "\n#NAME: %s\n" % name
     #XXX: assumes kwds['dir'] is writable and on $PYTHONPATH
+    source = b(''.join([importable(object, alias=alias),name]))
     file = tempfile.NamedTemporaryFile(suffix='.py', **kwds)
-    file.write(b(''.join([importable(object, alias=alias),name])))
+    file.write(source)
     file.flush()
     return file
 
@@ -134,7 +135,8 @@ def load(file, **kwds):
     import dill as pickle
     mode = kwds.pop('mode', 'rb')
     name = getattr(file, 'name', file) # name=file.name or name=file (if str)
-    return pickle.load(open(name, mode=mode, **kwds))
+    with open(name, mode=mode, **kwds) as f:
+        return pickle.load(f)
 
 def dump(object, **kwds):
     """dill.dump of object to a NamedTemporaryFile.
@@ -160,12 +162,18 @@ Optional kwds:
 
 NOTE: Keep the return value for as long as you want your file to exist !
     """
+    import os
     import dill as pickle
     import tempfile
     kwds.setdefault('delete', True)
     file = tempfile.NamedTemporaryFile(**kwds)
-    pickle.dump(object, file)
-    file.flush()
+    try:
+        pickle.dump(object, file)
+        file.flush()
+    except BaseException: # don't leave a useless file
+        file.close()
+        if os.path.exists(file.name): os.unlink(file.name)
+        raise
     return file
 
 def loadIO(buffer, **kwds):
-- 
2.43.0


From cd2dcc2c50bed0d144ccb558b7e9efdcf63dae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:50 +0000
Subject: [PATCH 56/85] fix: importable of arrays without dimensions made an
 array of another shape

---
 dill/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/source.py b/dill/source.py
index b306ac0..c7bef3c 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -713,7 +713,8 @@ def getname(obj, force=False, fqn=False): #XXX: throw(?) to raise error on fail?
     if not module: # things like "None" and "1"
         if not force: return None #NOTE: returns 'instance' NOT 'type' #FIXME?
         # handle some special cases
-        if hasattr(obj, 'dtype') and not obj.shape:
+        if hasattr(obj, 'dtype') and not obj.shape \
+           and obj.__class__.__name__ != 'ndarray': # (a numpy scalar)
             return getname(obj.__class__) + "(" + repr(obj.tolist()) + ")" 
         return repr(obj)
     try:
-- 
2.43.0


From 1054acfe5404145490fc8ee8a09f00d95eaa72ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 57/85] fix: parent and parents disregarded the objects to
 ignore

---
 dill/pointers.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/dill/pointers.py b/dill/pointers.py
index d27745f..77b5a5b 100644
--- a/dill/pointers.py
+++ b/dill/pointers.py
@@ -34,8 +34,14 @@ Parent finds *one* parent (e.g. the last member of the sequence).
     return parent
 
 
+def _ids(ignore):
+    "get the ids of the objects to ignore (an object, or a sequence of objects)"
+    ids = [id(obj) for obj in ignore] if isinstance(ignore, (tuple, list)) else []
+    return ids + [id(ignore)]
+
+
 def parents(obj, objtype, depth=1, ignore=()): #XXX: objtype=object ?
-    """Find the chain of referents for obj. Chain will end with obj.
+    """Find the chain of referents for obj. Chain will start with obj.
 
     objtype: an object type or tuple of types to search for
     depth: search depth (e.g. depth=2 is 'grandparents')
@@ -44,15 +50,13 @@ def parents(obj, objtype, depth=1, ignore=()): #XXX: objtype=object ?
     edge_func = gc.get_referents # looking for refs, not back_refs
     predicate = lambda x: isinstance(x, objtype) # looking for parent type
    #if objtype is None: predicate = lambda x: True #XXX: in obj.mro() ?
-    ignore = (ignore,) if not hasattr(ignore, '__len__') else ignore
-    ignore = (id(obj) for obj in ignore)
-    chain = find_chain(obj, predicate, edge_func, depth)[::-1]
+    chain = find_chain(obj, predicate, edge_func, depth, _ids(ignore))[::-1]
     #XXX: should pop off obj... ?
     return chain
 
 
 def children(obj, objtype, depth=1, ignore=()): #XXX: objtype=object ?
-    """Find the chain of referrers for obj. Chain will start with obj.
+    """Find the chain of referrers for obj. Chain will end with obj.
 
     objtype: an object type or tuple of types to search for
     depth: search depth (e.g. depth=2 is 'grandchildren')
@@ -67,9 +71,7 @@ def children(obj, objtype, depth=1, ignore=()): #XXX: objtype=object ?
     edge_func = gc.get_referrers # looking for back_refs, not refs
     predicate = lambda x: isinstance(x, objtype) # looking for child type
    #if objtype is None: predicate = lambda x: True #XXX: in obj.mro() ?
-    ignore = (ignore,) if not hasattr(ignore, '__len__') else ignore
-    ignore = (id(obj) for obj in ignore)
-    chain = find_chain(obj, predicate, edge_func, depth, ignore)
+    chain = find_chain(obj, predicate, edge_func, depth, _ids(ignore))
     #XXX: should pop off obj... ?
     return chain
 
-- 
2.43.0


From fdeb6d0379e0a51a17de87e7c76a6a8e343e9f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 58/85] fix: reference of objects whose str and repr differ

---
 dill/_dill.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 65e6d62..60117e3 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1660,8 +1660,10 @@ def save_singleton(pickler, obj):
 
 def _proxy_helper(obj): # a dead proxy returns a reference to None
     """get memory address of proxy's reference object"""
+    if not IS_PYPY and type(obj) not in (ProxyType, CallableProxyType):
+        return id(obj) # it's not a proxy
     _repr = repr(obj)
-    if not IS_PYPY and type(obj) in (ProxyType, CallableProxyType):
+    if not IS_PYPY:
         # the repr is the proxy's own, and str the reference object's
         if _repr.endswith('dead>'): return id(None)
         return int(_repr.rstrip('>').split(' at ')[-1], base=16)
-- 
2.43.0


From 3e50226f5ad94e4bd2a032291347272d56a92b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 59/85] fix: __diff reported arrays and ranges as changed
 whenever asked

---
 dill/__diff.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/dill/__diff.py b/dill/__diff.py
index 6fa8dd5..e6358f7 100644
--- a/dill/__diff.py
+++ b/dill/__diff.py
@@ -11,9 +11,11 @@ Module to show if an object has changed since it was memorised
 """
 
 import builtins
+import hashlib
 import os
 import sys
 import types
+from array import array
 try:
     import numpy.ma
     HAS_NUMPY = True
@@ -28,10 +30,12 @@ getrefcount = getattr(sys, 'getrefcount', lambda x:0)
 # sequence items is either a list of ids, of a dictionary of keys to ids
 memo = {}
 id_to_obj = {}
+# memo of the contents of arrays
+contents = {}
 # types that cannot have changing attributes
 builtins_types = set((str, list, dict, set, frozenset, int))
 dont_memo = set(id(i) for i in (memo, sys.modules, sys.path_importer_cache,
-             os.environ, id_to_obj))
+             os.environ, id_to_obj, contents))
 
 
 def get_attrs(obj):
@@ -45,7 +49,7 @@ def get_attrs(obj):
 
 
 def get_seq(obj, cache={str: False, frozenset: False, list: True, set: True,
-                        dict: True, tuple: True, type: False,
+                        dict: True, tuple: True, type: False, range: False,
                         types.ModuleType: False, types.FunctionType: False,
                         types.BuiltinFunctionType: False}):
     """
@@ -61,11 +65,17 @@ def get_seq(obj, cache={str: False, frozenset: False, list: True, set: True,
             if hsattr(obj, "copy"):
                 return obj.copy()
             return obj
-    elif HAS_NUMPY and o_type in (numpy.ndarray, numpy.ma.core.MaskedConstant):
-        if obj.shape and obj.size:
-            return obj
-        else:
-            return []
+    elif HAS_NUMPY and isinstance(obj, numpy.ndarray):
+        if obj.dtype.hasobject:
+            return obj.ravel().tolist()
+        # the items are created when asked for, so can't be compared by id
+        content = hashlib.sha1(numpy.ma.getdata(obj).tobytes())
+        content.update(numpy.ma.getmaskarray(obj).tobytes())
+        content = (str(obj.dtype), str(obj.shape), content.hexdigest())
+        return [contents.setdefault(content, content)]
+    elif isinstance(obj, array):
+        content = (obj.typecode, hashlib.sha1(obj.tobytes()).hexdigest())
+        return [contents.setdefault(content, content)]
     elif hsattr(obj, "__contains__") and hsattr(obj, "__iter__") \
        and hsattr(obj, "__len__") and hsattr(o_type, "__contains__") \
        and hsattr(o_type, "__iter__") and hsattr(o_type, "__len__"):
-- 
2.43.0


From a2639bad4e70a01608f8606b5b327d435d6c85b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:43 +0000
Subject: [PATCH 60/85] fix: __diff.release_gone didn't release anything

---
 dill/__diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/__diff.py b/dill/__diff.py
index e6358f7..da0ef47 100644
--- a/dill/__diff.py
+++ b/dill/__diff.py
@@ -133,7 +133,7 @@ def memorise(obj, force=False):
 def release_gone():
     itop, mp, src = id_to_obj.pop, memo.pop, getrefcount
     [(itop(id_), mp(id_)) for id_, obj in list(id_to_obj.items())
-     if src(obj) < 4] #XXX: correct for pypy?
+     if src(obj) < 5] #XXX: correct for pypy?
 
 
 def whats_changed(obj, seen=None, simple=False, first=True):
-- 
2.43.0


From b1d8da51fb64dde417399e8f6378e4aa2b9d3626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 61/85] fix: __diff compared sets by the order of their items,
 and did not look into frozensets

---
 dill/__diff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/__diff.py b/dill/__diff.py
index da0ef47..545b595 100644
--- a/dill/__diff.py
+++ b/dill/__diff.py
@@ -60,6 +60,8 @@ def get_seq(obj, cache={str: False, frozenset: False, list: True, set: True,
     except AttributeError:
         o_type = type(obj)
     hsattr = hasattr
+    if isinstance(obj, (set, frozenset)): # the order of the items may differ
+        return sorted(obj, key=id)
     if o_type in cache:
         if cache[o_type]:
             if hsattr(obj, "copy"):
-- 
2.43.0


From d8c7731f365cf9bd46fa0c5575586363441464ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:31 +0000
Subject: [PATCH 62/85] fix: load_types(unpickleable=False) keeps the
 pickleable types that share a name

---
 dill/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dill/__init__.py b/dill/__init__.py
index 8c45188..830e262 100644
--- a/dill/__init__.py
+++ b/dill/__init__.py
@@ -69,14 +69,13 @@ def load_types(pickleable=True, unpickleable=True):
     from importlib import reload
     # local import of dill.objects
     from . import _objects
+    # NOTE: some names are in both, so remove everything before adding
+    [objects.pop(obj,None) for obj in _objects.succeeds]
+    [objects.pop(obj,None) for obj in _objects.failures]
     if pickleable:
         objects.update(_objects.succeeds)
-    else:
-        [objects.pop(obj,None) for obj in _objects.succeeds]
     if unpickleable:
         objects.update(_objects.failures)
-    else:
-        [objects.pop(obj,None) for obj in _objects.failures]
     objects.update(_objects.registered)
     del _objects
     # reset contents of types to 'empty'
-- 
2.43.0


From b864d9f7100b3247c090121c8fa8c6f5696ada8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 63/85] fix: load_types also removes the types not named
 '*Type' from dill.types

---
 dill/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dill/__init__.py b/dill/__init__.py
index 830e262..05ded16 100644
--- a/dill/__init__.py
+++ b/dill/__init__.py
@@ -77,10 +77,10 @@ def load_types(pickleable=True, unpickleable=True):
     if unpickleable:
         objects.update(_objects.failures)
     objects.update(_objects.registered)
-    del _objects
     # reset contents of types to 'empty'
     [types.__dict__.pop(obj) for obj in list(types.__dict__.keys()) \
-                             if obj.find('Type') != -1]
+                             if obj.find('Type') != -1 or obj in _objects.failures]
+    del _objects
     # add corresponding types from objects to types
     reload(types)
 
-- 
2.43.0


From 657ec0bd5ba84c3b1774f24603b45183d0dfd2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:24 +0000
Subject: [PATCH 64/85] fix: load_types leaves no dbm file in the temporary
 directory

---
 dill/_objects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dill/_objects.py b/dill/_objects.py
index 573fae8..613d814 100644
--- a/dill/_objects.py
+++ b/dill/_objects.py
@@ -540,6 +540,10 @@ a.update(d) # registered also succeed
 if sys.platform[:3] == 'win':
     os.close(_filedescrip) # required on win32
 os.remove(_tempfile)
+for _ext in ('.db', '.dir', '.pag'): # created by dbm
+    if os.path.exists(_tempfile + _ext):
+        os.remove(_tempfile + _ext)
+del _ext
 
 
 # EOF
-- 
2.43.0


From 2962edd66c9d8708d9662aea88ed197bbba968db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:25 +0000
Subject: [PATCH 65/85] fix: handles without a name load as temporary files,
 and never share or close a descriptor

---
 dill/_dill.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 60117e3..6ffd8ce 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -846,14 +846,15 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
         import tempfile
         f = tempfile.TemporaryFile(mode)
     else:
+        unnamed = isinstance(name, int) # a descriptor, which belongs to the original
         try:
-            exists = os.path.exists(name)
+            exists = not unnamed and os.path.exists(name)
         except Exception:
             exists = False
         if not exists:
             if strictio:
                 raise FileNotFoundError("[Errno 2] No such file or directory: '%s'" % name)
-            elif "r" in mode and fmode != FILE_FMODE:
+            elif unnamed or "r" in mode and fmode != FILE_FMODE:
                 name = '<fdopen>' # or os.devnull?
             current_size = 0 # or maintain position?
         else:
@@ -869,12 +870,16 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
         try:
             #FIXME: missing: *buffering*, encoding, softspace
             if fmode == FILE_FMODE:
-                f = open(name, mode if "w" in mode else "w")
+                if unnamed:
+                    import tempfile
+                    f = tempfile.TemporaryFile("w+b" if "b" in mode else "w+")
+                else:
+                    f = open(name, mode if "w" in mode else "w")
                 if isinstance(fdata, bytes):
                     getattr(f, "buffer", f).write(fdata)
                 else: # from dill 0.4.1 or earlier
                     f.write(fdata)
-                if "w" not in mode:
+                if "w" not in mode and not unnamed:
                     f.close()
                     f = open(name, mode)
             elif name == '<fdopen>': # file did not exist
@@ -1420,12 +1425,14 @@ def _save_file(pickler, obj, open_):
             position = -1
         else:
             position = obj.tell()
-    if position >= 0 and is_dill(pickler, child=True) and pickler._fmode == FILE_FMODE:
+    if position < 0 or not is_dill(pickler, child=True) or pickler._fmode != FILE_FMODE:
+        fdata = ""
+    elif isinstance(obj.name, int): # opening would close the descriptor of obj
+        fdata = b"" if obj.closed else os.pread(obj.name, os.fstat(obj.name).st_size, 0)
+    else:
         f = open_(obj.name, "rb")
         fdata = f.read()
         f.close()
-    else:
-        fdata = ""
     if is_dill(pickler, child=True):
         strictio = pickler._strictio
         fmode = pickler._fmode
-- 
2.43.0


From cd7d982638ef5bd5b7783d7195e8553287753009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:08 +0000
Subject: [PATCH 66/85] fix: entries of the catalogue are instances of the
 types they are named for

---
 dill/_objects.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dill/_objects.py b/dill/_objects.py
index 613d814..39bdf42 100644
--- a/dill/_objects.py
+++ b/dill/_objects.py
@@ -240,7 +240,8 @@ a['CodeType'] = compile('','','exec')
 a['DictProxyType'] = type.__dict__
 a['DictProxyType2'] = _newclass.__dict__
 a['EllipsisType'] = Ellipsis
-a['ClosedFileType'] = open(os.devnull, 'wb', buffering=0).close()
+a['ClosedFileType'] = _closed = open(os.devnull, 'wb', buffering=0)
+_closed.close()
 a['GetSetDescriptorType'] = array.array.typecode
 a['LambdaType'] = _lambda = lambda x: lambda y: x #XXX: works when not imported!
 a['MemberDescriptorType'] = _newclass2.descriptor
@@ -251,7 +252,8 @@ a['ModuleType'] = datetime
 a['NotImplementedType'] = NotImplemented
 a['SliceType'] = slice(1)
 a['UnboundMethodType'] = _class._method #XXX: works when not imported!
-from dill._dill import get_file_type as openfile
+def openfile(*args, open=open, **kwds):
+    return open(os.devnull, *args, **kwds)
 d['TextWrapperType'] = openfile('r', buffering=-1) # same as mode='w','w+','r+'
 if not IS_PYODIDE:
     d['BufferedRandomType'] = openfile('r+b', buffering=-1) # same as mode='w+b'
@@ -343,12 +345,12 @@ except NameError:
     a['QuitterType'] = quit
     d['ExitType'] = a['QuitterType']
 try: # numpy #FIXME: slow... 0.05 to 0.1 sec to import numpy
-    from numpy import ufunc as _numpy_ufunc
+    from numpy import sin as _numpy_ufunc
     from numpy import array as _numpy_array
     from numpy import int32 as _numpy_int32
     a['NumpyUfuncType'] = _numpy_ufunc
-    a['NumpyArrayType'] = _numpy_array
-    a['NumpyInt32Type'] = _numpy_int32
+    a['NumpyArrayType'] = _numpy_array([0])
+    a['NumpyInt32Type'] = _numpy_int32(0)
 except ImportError:
     pass
 # generic operating system services (CH 15)
-- 
2.43.0


From f235f72a744829b2ed2d106601f0019f0d10a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:16 +0000
Subject: [PATCH 67/85] fix: handles of _pyio restored with CONTENTS_FMODE stay
 handles of _pyio

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 6ffd8ce..2665814 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -894,7 +894,7 @@ def _create_filehandle(name, mode, position, closed, open, strictio, fmode, fdat
                     flags |= os.O_RDWR
                 else:
                     flags |= os.O_WRONLY
-                f = os.fdopen(os.open(name, flags), mode)
+                f = open(os.open(name, flags), mode)
                 # set name to the correct value
                 r = getattr(f, "buffer", f)
                 r = getattr(r, "raw", r)
-- 
2.43.0


From 05e0fec614728c1c21f443d47b9e8c4123c38597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:17 +0000
Subject: [PATCH 68/85] fix: check an object of any size, with any path to
 python, and with the keywords of loads

---
 dill/_dill.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 2665814..2153e1c 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -2288,9 +2288,11 @@ def check(obj, *args, **kwds):
    # == undocumented ==
    # python -- the string path or executable name of the selected python
    # verbose -- if True, be verbose about printing warning messages
-   # all other args and kwds are passed to dill.dumps #FIXME: ignore on load
+   # ignore -- passed to dill.loads in the other process
+   # all other args and kwds are passed to dill.dumps
     verbose = kwds.pop('verbose', False)
     python = kwds.pop('python', None)
+    ignore = kwds.pop('ignore', None)
     if python is None:
         import sys
         python = sys.executable
@@ -2304,14 +2306,10 @@ def check(obj, *args, **kwds):
     finally:
         if fail and verbose:
             print("DUMP FAILED")
-    #FIXME: fails if python interpreter path contains spaces
-    # Use the following instead (which also processes the 'ignore' keyword):
-    #    ignore = kwds.pop('ignore', None)
-    #    unpickle = "dill.loads(%s, ignore=%s)"%(repr(_obj), repr(ignore))
-    #    cmd = [python, "-c", "import dill; print(%s)"%unpickle]
-    #    msg = "SUCCESS" if not subprocess.call(cmd) else "LOAD FAILED"
-    msg = "%s -c import dill; print(dill.loads(%s))" % (python, repr(_obj))
-    msg = "SUCCESS" if not subprocess.call(msg.split(None,2)) else "LOAD FAILED"
+    # pass the pickle through stdin, as the length of a command is limited
+    unpickle = "import sys, dill; print(dill.loads(sys.stdin.buffer.read(), ignore=%s))" % repr(ignore)
+    cmd = [python, "-c", unpickle]
+    msg = "SUCCESS" if not subprocess.run(cmd, input=_obj).returncode else "LOAD FAILED"
     if verbose:
         print(msg)
     return
-- 
2.43.0


From b3ffdb0a114f628e31cf0f37ff257a5cf78fa70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:50 +0000
Subject: [PATCH 69/85] fix: a class whose metaclass makes it equal to a
 builtin type, or unhashable, is stored as itself

---
 dill/_dill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 2153e1c..def4b95 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1862,7 +1862,8 @@ def _get_typedict_abc(obj, _dict, attrs, postproc_list):
 
 @register(TypeType)
 def save_type(pickler, obj, postproc_list=None):
-    if obj in _typemap:
+    # NOTE: a custom metaclass can make a class unhashable, or equal to others
+    if (type(obj) is type or type(obj) is abc.ABCMeta) and obj in _typemap:
         logger.trace(pickler, "T1: %s", obj)
         # if obj in _incedental_types:
         #     warnings.warn('Type %r may only exist on this implementation of Python and cannot be unpickled in other implementations.' % (obj,), PicklingWarning)
-- 
2.43.0


From 466b5c3e1b7584218bce12ec334ebf0477ed1205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:14 +0000
Subject: [PATCH 70/85] fix: import strings of classes do not depend on the
 repr their metaclass gives

---
 dill/source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/source.py b/dill/source.py
index c7bef3c..dc77b6a 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -854,6 +854,8 @@ def getimport(obj, alias='', verify=True, builtin=False, enclosing=False):
             name = repr(obj) #XXX: catch [1,2], (1,2), set([1,2])... others?
         elif _isinstance(obj):
             name = getname(obj, force=True).split('(')[0]
+        elif isclass(obj): # the repr is whatever the metaclass wants it to be
+            name = None
         else:
             name = repr(obj).split('(')[0]
    #if not repr(obj).startswith('<'): name = repr(obj).split('(')[0]
-- 
2.43.0


From b6aa29401ba901d4ccde6c01e2636dec2cfcb37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:06 +0000
Subject: [PATCH 71/85] fix: tracing a dump to a stream whose tell() fails in
 any way does not make the dump fail

---
 dill/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/logger.py b/dill/logger.py
index 586f1fb..e3d4d43 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -153,7 +153,7 @@ class TraceAdapter(logging.LoggerAdapter):
                 size += len(frame)
         except (AttributeError, TypeError):
             pass
-        except (OSError, ValueError):
+        except Exception:
             # Some streams (e.g. pipes) have a tell() method that fails.
             size = None
         if size is not None:
-- 
2.43.0


From ce9915ed3d5071072769d81e8a39e994997d7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:17 +0000
Subject: [PATCH 72/85] fix: a module whose name is that of another module is
 not stored as that one

---
 dill/_dill.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index def4b95..3df21a1 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1782,11 +1782,14 @@ def save_module(pickler, obj):
     else:
         builtin_mod = _is_builtin_module(obj)
         is_session_main = is_dill(pickler, child=True) and obj is pickler._main
+        # its name may be the name of another module
+        is_imported = _is_imported_module(obj) and (is_session_main
+                or sys.modules.get(obj.__name__, obj) is obj)
         if (obj.__name__ not in ("builtins", "dill", "dill._dill") and not builtin_mod
-                or is_session_main):
+                or is_session_main or not is_imported):
             logger.trace(pickler, "M1: %s", obj)
             # Hack for handling module-type objects in load_module().
-            mod_name = obj.__name__ if _is_imported_module(obj) else '__runtime__.%s' % obj.__name__
+            mod_name = obj.__name__ if is_imported else '__runtime__.%s' % obj.__name__
             # Second references are saved as __builtin__.__main__ in save_module_dict().
             main_dict = obj.__dict__.copy()
             for item in ('__builtins__', '__loader__'):
-- 
2.43.0


From 7bcfb56c02ee1935dc8460fe36c623964bd04540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:37 +0000
Subject: [PATCH 73/85] fix: getimport does not take a function or class
 without a module for an instance of its type

---
 dill/source.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dill/source.py b/dill/source.py
index dc77b6a..8fb3044 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -839,6 +839,9 @@ def getimport(obj, alias='', verify=True, builtin=False, enclosing=False):
         from .detect import outermost
         _obj = outermost(obj)
         obj = _obj if _obj else obj
+    # don't take functions and classes for instances of their type
+    if (isclass(obj) or isfunction(obj)) and not getmodule(obj):
+        raise ImportError("cannot import %r, which is not in a module" % obj)
     # get the namespace
     qual = _namespace(obj)
     head = '.'.join(qual[:-1])
-- 
2.43.0


From b69b612fbca960f83674f066945612cc7345f3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:21 +0000
Subject: [PATCH 74/85] fix: functions whose module name can't be imported, as
 '' or '.x', are stored by value

---
 dill/_dill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 3df21a1..2f8fced 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1085,7 +1085,7 @@ def _import_module(import_name, safe=False):
             return __import__(import_name, None, None, [obj])
         else:
             return __import__(import_name)
-    except (ImportError, AttributeError, KeyError):
+    except (ImportError, AttributeError, KeyError, ValueError):
         if safe:
             return None
         raise
-- 
2.43.0


From 698639fb63432f7588b56310075eba4bd1a3a58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:56 +0000
Subject: [PATCH 75/85] fix: source functions raised AttributeError for
 instances of a class whose module is not there

---
 dill/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dill/source.py b/dill/source.py
index 8fb3044..7e2d19c 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -540,7 +540,7 @@ def _isinstance(object):
     if istraceback(object) or isframe(object) or iscode(object):
         return False
     # special handling (numpy arrays, ...)
-    if not getmodule(object) and getmodule(type(object)).__name__ in ['numpy']:
+    if not getmodule(object) and getattr(getmodule(type(object)), '__name__', None) in ['numpy']:
         return True
 #   # check if is instance of a builtin
 #   if not getmodule(object) and getmodule(type(object)).__name__ in ['__builtin__','builtins']:
-- 
2.43.0


From 5c64afdda722c8d0226988a30417e1634553915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:35 +0000
Subject: [PATCH 76/85] fix: the source of an instance (dumpsource with
 new=True) could only be run in a module with a name as long as that of its
 class

---
 dill/source.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index 7e2d19c..d2d6500 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -691,8 +691,11 @@ def dumpsource(object, alias='', new=False, enclose=True):
         code += pre + 'dill.loads(%s)\n' % pik
     else: #XXX: other cases where source code is needed???
         code += getsource(object.__class__, alias='', lstrip=True, force=True)
-        mod = repr(object.__module__) # should have a module (no builtins here)
-        code += pre + 'dill.loads(%s.replace(b%s,bytes(__name__,"UTF-8")))\n' % (pik,mod)
+        # in protocol 3, a class is stored as text (i.e. without its length)
+        pik = repr(dumps(object, protocol=3))
+        name = '%s\n' % object.__class__.__qualname__
+        old = repr(('c%s\n%s' % (object.__class__.__module__, name)).encode())
+        code += pre + 'dill.loads(%s.replace(%s,bytes("c"+__name__+%r,"UTF-8"),1))\n' % (pik,old,'\n'+name)
        #code += 'del %s' % object.__class__.__name__ #NOTE: kills any existing!
 
     if enclose:
-- 
2.43.0


From 8cf1437a32a526ac14ec05a454586a429a292669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:00 +0000
Subject: [PATCH 77/85] fix: the repr of an instance was taken for code that
 makes it when it's not

---
 dill/source.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dill/source.py b/dill/source.py
index d2d6500..5bd67c8 100644
--- a/dill/source.py
+++ b/dill/source.py
@@ -491,7 +491,8 @@ def getsource(object, alias='', lstrip=False, enclosing=False, \
 
     # instantiate, if there's a nice repr  #XXX: BAD IDEA???
     if instance: #and force: #XXX: move into findsource or getsourcelines ?
-        if '(' in repr(object): lines.append('%r\n' % object)
+        if _called(repr(object)) == object.__class__.__name__:
+            lines.append('%r\n' % object)
        #else: #XXX: better to somehow to leverage __reduce__ ?
        #    reconstructor,args = object.__reduce__()
        #    _ = reconstructor(*args)
@@ -568,6 +569,13 @@ def _isstring(object): #XXX: isstringlike better?
     return isinstance(object, (str, bytes))
 
 
+def _called(code):
+    '''get the name of what is called, if code is a call (as a nice repr is)'''
+    import ast
+    try: return ast.parse(code, mode='eval').body.func.id
+    except Exception: return None
+
+
 def _isliteral(code):
     '''check if code is a literal (of strings, numbers, tuples, lists, ...)'''
     import ast
@@ -858,8 +866,8 @@ def getimport(obj, alias='', verify=True, builtin=False, enclosing=False):
     except Exception: # it's probably something 'importable'
         if head in ['builtins','__builtin__']:
             name = repr(obj) #XXX: catch [1,2], (1,2), set([1,2])... others?
-        elif _isinstance(obj):
-            name = getname(obj, force=True).split('(')[0]
+        elif _isinstance(obj): # the repr may be of anything
+            name = _called(getname(obj, force=True))
         elif isclass(obj): # the repr is whatever the metaclass wants it to be
             name = None
         else:
@@ -926,7 +934,8 @@ def _importable(obj, alias='', source=None, enclosing=False, force=True, \
         _import = getimport(obj, enclosing=enclosing, \
                                  verify=(not force), builtin=builtin)
         name = getname(obj, force=True)
-        if not name:
+        # the repr may not be what makes the object
+        if not name or not (_called(name) or name == getattr(obj, '__name__', '')):
             raise AttributeError("object has no atribute '__name__'")
         _alias = "%s = " % alias if alias else ""
         if alias == name: _alias = ""
-- 
2.43.0


From b27a7ebd8a55e79801fc438ee1aa82dfde415e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:54 +0000
Subject: [PATCH 78/85] fix: submodules whose package has something else with
 their name are imported as themselves

---
 dill/_dill.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 2f8fced..2ed8ce8 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1008,7 +1008,7 @@ def _create_dtypemeta(scalar_type):
     return type(NumpyDType(scalar_type))
 
 def _create_namedtuple(name, fieldnames, modulename, defaults=None):
-    class_ = _import_module(modulename + '.' + name, safe=True)
+    class_ = getattr(_import_module(modulename, safe=True), name, None)
     if getattr(class_, '_fields', None) == tuple(fieldnames) and \
             class_.__bases__ == (tuple,): # not a subclass with the same name
         return class_
@@ -1079,7 +1079,11 @@ def _import_module(import_name, safe=False):
             items = import_name.split('.')
             module = '.'.join(items[:-1])
             obj = items[-1]
-            submodule = getattr(__import__(module, None, None, [obj]), obj)
+            parent = __import__(module, None, None, [obj])
+            # the parent can have something else with the submodule's name
+            if isinstance(sys.modules.get(import_name), ModuleType):
+                return sys.modules[import_name]
+            submodule = getattr(parent, obj)
             if isinstance(submodule, (ModuleType, type)):
                 return submodule
             return __import__(import_name, None, None, [obj])
-- 
2.43.0


From 3ddf7412be909434384a4deb87978d8f119abd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:21 +0000
Subject: [PATCH 79/85] fix: a class that defines __eq__ and keeps the __hash__
 of its base stays hashable

---
 dill/_dill.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dill/_dill.py b/dill/_dill.py
index 2ed8ce8..5c66224 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1829,6 +1829,8 @@ def _get_typedict_type(cls, clsdict, attrs, postproc_list):
     for name, value in dict.items(clsdict):
         try:
             base_value = inherited_dict[name]
+            if name == '__hash__' and '__eq__' in clsdict:
+                continue # it's not inherited if __eq__ is defined
             if value is base_value and hasattr(value, '__qualname__'):
                 # only if it's really what is inherited, when not defined here
                 if next(base.__dict__[name] for base in cls.__mro__[1:]
-- 
2.43.0


From f5c569818ea9e865f1a3bd7cf6b482c27d641fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:47 +0000
Subject: [PATCH 80/85] fix: tracing a dump to a stream that can tell its
 position at times only

---
 dill/logger.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dill/logger.py b/dill/logger.py
index e3d4d43..18f6d8a 100644
--- a/dill/logger.py
+++ b/dill/logger.py
@@ -156,12 +156,12 @@ class TraceAdapter(logging.LoggerAdapter):
         except Exception:
             # Some streams (e.g. pipes) have a tell() method that fails.
             size = None
-        if size is not None:
-            if not pushed_obj:
-                pickler._size_stack.append(size)
-            else:
-                size -= pickler._size_stack.pop()
-                extra['size'] = size
+        if not pushed_obj:
+            pickler._size_stack.append(size)
+        else: # some streams can tell their position at times only
+            start = pickler._size_stack.pop()
+            if size is not None and start is not None:
+                extra['size'] = size - start
         if pushed_obj:
             pickler._trace_depth -= 1
         extra['depth'] = pickler._trace_depth
-- 
2.43.0


From 6ce95404a26c0ccfe20d53ea43051ec37ac3a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:31 +0000
Subject: [PATCH 81/85] fix: save sessions by reference with proxies of dead
 objects and odd __module__ attributes

---
 dill/session.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dill/session.py b/dill/session.py
index ca8dc34..0bbe416 100644
--- a/dill/session.py
+++ b/dill/session.py
@@ -126,8 +126,11 @@ def _lookup_module(modmap, name, obj, main_module):
     for modobj, modname in modmap.by_name[name]:
         if modobj is obj and sys.modules[modname] is not main_module:
             return modname, name
-    __module__ = getattr(obj, '__module__', None)
-    if isinstance(obj, IMPORTED_AS_TYPES) or (__module__ is not None
+    try:
+        __module__ = getattr(obj, '__module__', None)
+    except Exception:  # e.g. a proxy whose referent is dead
+        __module__ = None
+    if issubclass(type(obj), IMPORTED_AS_TYPES) or (isinstance(__module__, str)
             and any(regex.fullmatch(__module__) for regex in IMPORTED_AS_MODULES)):
         for modobj, objname, modname in modmap.by_id[id(obj)]:
             if sys.modules[modname] is not main_module:
@@ -149,7 +152,7 @@ def _stash_modules(main_module):
             original[name] = newmod.__dict__
         # Avoid incorrectly matching a singleton value in another package (ex.: __doc__).
         elif any(obj is singleton for singleton in (None, False, True)) \
-                or isinstance(obj, ModuleType) and _is_builtin_module(obj):  # always saved by ref
+                or issubclass(type(obj), ModuleType) and _is_builtin_module(obj):  # always saved by ref
             original[name] = obj
         else:
             source_module, objname = _lookup_module(modmap, name, obj, main_module)
-- 
2.43.0


From 55e5c8de43e1e6c47131865190176b92ccf5864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:19 +0000
Subject: [PATCH 82/85] fix: recurse past proxies of dead objects and objects
 with a pretended __class__

---
 dill/detect.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dill/detect.py b/dill/detect.py
index cc310bb..c196fd6 100644
--- a/dill/detect.py
+++ b/dill/detect.py
@@ -11,6 +11,7 @@ Methods for detecting objects leading to pickling failures.
 
 import dis
 from inspect import ismethod, isfunction, istraceback, isframe, iscode
+from types import CodeType, FunctionType, MethodType
 
 from .pointers import parent, reference, at, parents, children
 from .logger import trace
@@ -175,6 +176,8 @@ def globalvars(func, recurse=True, builtin=False, _memo=None):
         # get globals
         orig_func, func = func, set()
         globs.update(orig_func.__globals__ or {})
+        def has_code(obj): # isn't fooled by __class__ (e.g. of a dead proxy)
+            return type(obj) in (FunctionType, MethodType, CodeType)
         def shared(_vars): # names that are the same variable for both functions
             return (k for (k,v) in _vars.items() if globs.get(k, globs) is v)
         # get references from within closure
@@ -182,8 +185,8 @@ def globalvars(func, recurse=True, builtin=False, _memo=None):
             try:
                 cell_contents = obj.cell_contents
             except ValueError: # cell is empty
-                pass
-            else:
+                continue
+            if has_code(cell_contents):
                 _vars = globalvars(cell_contents, recurse, builtin, _memo) or {}
                 func.update(shared(_vars)) #XXX: (above) be wary of infinte recursion?
         # get names of references
@@ -194,7 +197,7 @@ def globalvars(func, recurse=True, builtin=False, _memo=None):
             # find globals for all entries of func
             for key in func.copy(): #XXX: unnecessary...?
                 nested_func = globs.get(key)
-                if nested_func is orig_func:
+                if nested_func is orig_func or not has_code(nested_func):
                    #func.remove(key) if key in func else None
                     continue  #XXX: globalvars(func, False)?
                 func.update(shared(globalvars(nested_func, True, builtin, _memo)))
-- 
2.43.0


From 83a18a65857cf0e8ecaa39722c3aefc8e43032f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:47 +0000
Subject: [PATCH 83/85] fix: differencing of dead proxies and objects with
 every attribute

---
 dill/__diff.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dill/__diff.py b/dill/__diff.py
index 545b595..09d054d 100644
--- a/dill/__diff.py
+++ b/dill/__diff.py
@@ -45,7 +45,10 @@ def get_attrs(obj):
     if type(obj) in builtins_types \
        or type(obj) is type and obj in builtins_types:
         return
-    return getattr(obj, '__dict__', None)
+    try:
+        return getattr(obj, '__dict__', None)
+    except ReferenceError: # a proxy whose referent is dead
+        return
 
 
 def get_seq(obj, cache={str: False, frozenset: False, list: True, set: True,
@@ -57,6 +60,8 @@ def get_seq(obj, cache={str: False, frozenset: False, list: True, set: True,
     """
     try:
         o_type = obj.__class__
+    except ReferenceError: # a proxy whose referent is dead
+        return
     except AttributeError:
         o_type = type(obj)
     hsattr = hasattr
@@ -64,7 +69,7 @@ def get_seq(obj, cache={str: False, frozenset: False, list: True, set: True,
         return sorted(obj, key=id)
     if o_type in cache:
         if cache[o_type]:
-            if hsattr(obj, "copy"):
+            if hsattr(o_type, "copy"):
                 return obj.copy()
             return obj
     elif HAS_NUMPY and isinstance(obj, numpy.ndarray):
@@ -82,7 +87,7 @@ def get_seq(obj, cache={str: False, frozenset: False, list: True, set: True,
        and hsattr(obj, "__len__") and hsattr(o_type, "__contains__") \
        and hsattr(o_type, "__iter__") and hsattr(o_type, "__len__"):
         cache[o_type] = True
-        if hsattr(obj, "copy"):
+        if hsattr(o_type, "copy"):
             return obj.copy()
         return obj
     else:
@@ -109,7 +114,7 @@ def memorise(obj, force=False):
     s = get_seq(obj)
     if s is None:
         seq_id = None
-    elif hasattr(s, "items"):
+    elif hasattr(s.__class__, "items"):
         seq_id = dict((id_(key),id_(value)) for key, value in s.items())
     elif not hasattr(s, "__len__"): #XXX: avoid TypeError from unexpected case
         seq_id = None
@@ -123,7 +128,7 @@ def memorise(obj, force=False):
         [mem(value) for key, value in g.items()]
 
     if s is not None:
-        if hasattr(s, "items"):
+        if hasattr(s.__class__, "items"):
             [(mem(key), mem(item))
              for key, item in s.items()]
         else:
@@ -197,7 +202,7 @@ def whats_changed(obj, seen=None, simple=False, first=True):
         obj_seq = memo[obj_id][1]
         if (len(items) != len(obj_seq)):
             seq_diff = True
-        elif hasattr(obj, "items"):  # dict type obj
+        elif hasattr(items.__class__, "items"):  # dict type obj
             obj_get = obj_seq.get
             for key, item in items.items():
                 if id_(item) != obj_get(id_(key)) \
-- 
2.43.0


From cccf4e883265d952128d79d17bd3bc597b780ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:12 +0000
Subject: [PATCH 84/85] fix: keep attributes set on lru_cache, classmethod, and
 staticmethod wrappers

---
 dill/_dill.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index 5c66224..bed66ae 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1515,6 +1515,16 @@ if InputType:
         logger.trace(pickler, "# Io")
         return
 
+def _get_wrapper_state(obj, func): #XXX: attributes deleted from obj return
+    """get the attributes of obj that a new wrapper of func will not have"""
+    def same(x, y):
+        return x is y or type(x) is type(y) is str and x == y
+    copied = getattr(func, '__dict__', {})
+    return {k:v for (k,v) in obj.__dict__.items()
+            if k not in ('__wrapped__', 'cache_parameters')
+            and not (k in copied and same(copied[k], v))
+            and not same(getattr(func, k, Getattr.NO_DEFAULT), v)} or None
+
 if LRUCacheType is not None:
     from functools import lru_cache
     @register(LRUCacheType)
@@ -1530,7 +1540,8 @@ if LRUCacheType is not None:
             wrapper = Reduce(lru_cache, args, is_callable=True)
         else:
             wrapper = lru_cache
-        pickler.save_reduce(wrapper, (obj.__wrapped__,), obj=obj)
+        state = _get_wrapper_state(obj, obj.__wrapped__)
+        pickler.save_reduce(wrapper, (obj.__wrapped__,), state, obj=obj)
         logger.trace(pickler, "# LRU")
         return
 
@@ -2017,15 +2028,10 @@ def save_classmethod(pickler, obj):
     logger.trace(pickler, "Cm: %s", obj)
     orig_func = obj.__func__
 
-    # if type(obj.__dict__) is dict:
-    #     if obj.__dict__:
-    #         state = obj.__dict__
-    #     else:
-    #         state = None
-    # else:
-    #     state = (None, {'__dict__', obj.__dict__})
+    # the attributes of wrappers are new in python 3.10
+    state = _get_wrapper_state(obj, orig_func) if hasattr(obj, '__dict__') else None
 
-    pickler.save_reduce(type(obj), (orig_func,), obj=obj)
+    pickler.save_reduce(type(obj), (orig_func,), state, obj=obj)
     logger.trace(pickler, "# Cm")
 
 @register(FunctionType)
-- 
2.43.0


From 18a04123011457d4ccc1250f86e8d956bc408b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:41 +0000
Subject: [PATCH 85/85] fix: save sessions of modules whose __file__ is not a
 string

---
 dill/_dill.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dill/_dill.py b/dill/_dill.py
index bed66ae..8760998 100644
--- a/dill/_dill.py
+++ b/dill/_dill.py
@@ -1754,6 +1754,10 @@ def save_weakproxy(pickler, obj):
 def _is_builtin_module(module):
     if not hasattr(module, "__file__"): return True
     if module.__file__ is None: return False
+    try:
+        module_file = os.fsdecode(module.__file__)
+    except TypeError: # the name is used for something else
+        return False
     # If a module file name starts with prefix, it should be a builtin
     # module, so should always be pickled as a reference.
     names = ["base_prefix", "base_exec_prefix", "exec_prefix", "prefix", "real_prefix"]
@@ -1761,13 +1765,13 @@ def _is_builtin_module(module):
     # See https://github.com/uqfoundation/dill/issues/566
     return (
         any(
-            module.__file__.startswith(getattr(sys, name))
-            or rp(module.__file__).startswith(rp(getattr(sys, name)))
+            module_file.startswith(getattr(sys, name))
+            or rp(module_file).startswith(rp(getattr(sys, name)))
             for name in names
             if hasattr(sys, name)
         )
-        or module.__file__.endswith(EXTENSION_SUFFIXES)
-        or 'site-packages' in module.__file__
+        or module_file.endswith(EXTENSION_SUFFIXES)
+        or 'site-packages' in module_file
     )
 
 def _is_imported_module(module):
-- 
2.43.0

