BUGS = [
 dict(id='c22-stream-fileno', property='C22', file='dill/logger.py',
  edits=[("        self.file_is_stream = hasattr(file, 'write')", "        self.file_is_stream = hasattr(file, 'fileno')")],
  demo='''
import dill
class Sink:
    def __init__(self): self.text = []
    def write(self, s): self.text.append(s)
    def flush(self): pass
s = Sink()
with dill.detect.trace(s):
    dill.dumps({1: 2})
assert 'D2' in ''.join(s.text)
''', needs='a minimal file-like object as the target of the trace', breaks='a stream with nothing but write cannot be traced to'),
 dict(id='c25-capture-real', property='C25', file='dill/temp.py',
  edits=[("        setattr(sys, stream, orig)", "        setattr(sys, stream, getattr(sys, '__%s__' % stream, orig))")],
  demo='''
import sys
from dill.temp import capture
with capture('stdout') as a:
    with capture('stdout') as b:
        sys.stdout.write('inner')
    sys.stdout.write('outer')
assert a.getvalue() == 'outer' and b.getvalue() == 'inner', (a.getvalue(), b.getvalue())
''', needs='capture within capture, or with a stream that was replaced before', breaks='the stream that was in place is not put back'),
 dict(id='c18-missing-stop', property='C18', file='dill/_dill.py',
  edits=[("    file = StringIO(str)\n    return load(file, ignore, **kwds)",
          "    if str[-1:] != b'.': str = bytes(str) + b'.'\n    file = StringIO(str)\n    return load(file, ignore, **kwds)")],
  demo='''
import dill
p = dill.dumps([1, 2, 3], protocol=2)
try: r = dill.loads(p[:-1])
except Exception: pass
else: raise SystemExit('loaded %r' % (r,))
''', needs='a pickle that lacks just its last byte', breaks='a truncated pickle loads'),
 dict(id='c01-main-namesake', property='C01', file='dill/_dill.py',
  edits=[("        if type(obj).__module__ == getattr(_main_module, '__name__', '__main__'):",
          "        if type(obj).__module__ not in ('builtins', '__builtin__'):")],
  demo='''
import dill, argparse
class Namespace: pass
o = argparse.Namespace(a=1)
c = dill.copy(o)
assert type(c) is argparse.Namespace, type(c)
''', needs='an object at the top of the pickle whose class has a namesake in __main__', breaks='the copy has the class of __main__'),
 dict(id='c16-raise-limit', property='C16', file='dill/_dill.py',
  edits=[("        logger.trace_setup(self)\n",
          "        logger.trace_setup(self)\n        if sys.getrecursionlimit() < 1000: sys.setrecursionlimit(1000) # deep graphs\n")],
  demo='''
import dill, sys
sys.setrecursionlimit(700)
dill.dumps([1])
assert sys.getrecursionlimit() == 700
''', needs='an interpreter whose recursion limit was lowered', breaks='dump changes the recursion limit'),
 dict(id='c11-ref-self-type', property='C11', file='dill/_dill.py',
  edits=[("    pickler.save_reduce(_create_weakref, (refobj,), obj=obj)", "    pickler.save_reduce(_create_weakref, (getattr(refobj, '__self__', None) or refobj,), obj=obj)")],
  demo='''
import dill, weakref
class R:
    def __init__(self): self.__self__ = [1]
class L(list): pass
x = R(); x.__self__ = L()
x.__self__.append(1)
w = weakref.ref(x)
a, b = dill.copy((x, w))
assert b() is a
''', needs='a referent with a __self__ of its own', breaks='the reference points at something else'),
 dict(id='c08-attr-names', property='C08', file='dill/detect.py',
  edits=[("    if func is None: return list()\n    names = set()", "    if func is None: return list()\n    names = set(getattr(func, 'co_names', ()))")],
  demo='''
import dill
g = {'__name__': 'vdemo', 'poison': (i for i in [1])}
exec("def f(o): return o.poison", g)
f = dill.loads(dill.dumps(g['f'], recurse=True))
class O: poison = 5
assert f(O) == 5
''', needs='an attribute with the name of a global that cannot be pickled', breaks='globals that no code reads are stored'),
 dict(id='c08-first-code', property='C08', file='dill/detect.py',
  edits=[("    for co in getattr(func, 'co_consts', tuple()):\n        if co and recurse and iscode(co):", "    for co in set(c for c in getattr(func, 'co_consts', tuple()) if iscode(c)):\n        if recurse and co.co_name != '<genexpr>':")],
  demo='''
import dill
g = {'__name__': 'vdemo', 'K': 5}
exec("def f(n): return sum(K for i in range(n))", g)
f = dill.loads(dill.dumps(g['f'], recurse=True))
assert f(3) == 15
''', needs='a global read only in a generator expression', breaks='it is not stored'),
 dict(id='c09-loaded-parent', property='C09', file='dill/_dill.py',
  edits=[("            obj = items[-1]\n", "            obj = items[-1]\n            if module in sys.modules: return getattr(sys.modules[module], obj)\n")],
  demo=open('/verif/seeded/c09-lazy-submodule/demo.py').read(),
  needs='a submodule that the loading process has not imported, of a package it has', breaks='the pickle does not load there'),
]
