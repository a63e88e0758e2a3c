BUGS = [
 dict(id='c02-persid-flag', property='C02', file='dill/_dill.py',
  edits=[("        StockPickler.save(self, obj, save_persistent_id)", "        StockPickler.save(self, obj)")],
  demo='''
import dill, io
class P(dill.Pickler):
    def persistent_id(self, obj):
        return ('id', obj) if isinstance(obj, str) and not obj.startswith('raw') else None if not isinstance(obj, tuple) or len(obj) != 1 else ('t', obj)
class U(dill.Unpickler):
    def persistent_load(self, pid):
        return pid
class P2(dill.Pickler):
    def persistent_id(self, obj):
        return obj if type(obj) is frozenset else None      # the id is of the kind it names
b = io.BytesIO()
P2(b).dump([frozenset([1])])
class U2(dill.Unpickler):
    def persistent_load(self, pid):
        return ('loaded', pid)
b.seek(0)
assert U2(b).load() == [('loaded', frozenset([1]))]
''', needs='a persistent_id hook whose ids are themselves of a kind it has ids for', breaks='the id is asked for its own persistent id, without end'),
 dict(id='c04-nearest-postproc', property='C04', file='dill/_dill.py',
  edits=[("            postproc = next(iter(pickler._postproc.values()), None)\n        if postproc is not None:", "            postproc = next(reversed(pickler._postproc.values()), None)\n        if postproc is not None:")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns'}
exec("""
def make():
    class Box:
        def __init__(self): self.f = None
    def outer():
        return lst
    def inner():
        return lst
    lst = [inner, outer]
    outer.inner = inner
    return outer
f = make()
""", ns)
g = dill.copy(ns['f'], recurse=True)
l = g()
assert l[1] is g and l[0] is g.inner and l[0]() is l, l
''', needs='a cycle through the cells of several nested functions', breaks='a cell is filled before what it holds is complete'),
 dict(id='c05-private-slot', property='C05', file='dill/_dill.py',
  edits=[("                    mangled = obj.__name__.lstrip('_')\n                    if mangled: name = ", "                    mangled = obj.__name__\n                    if mangled: name = ")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns'}
exec("""
class _Node:
    __slots__ = ('__next', 'val')
    def __init__(self, v): self.val = v; self.__next = v + 1
    def nxt(self): return self.__next
""", ns)
n = ns['_Node'](3)
c = dill.copy(n)
assert (c.val, c.nxt()) == (3, 4)
''', needs='a class with a leading underscore and a private slot', breaks='such a class can not be loaded'),
 dict(id='c05-equal-class', property='C05', file='dill/_dill.py',
  edits=[("            found, _ = _getattribute(module, obj.__qualname__)\n            return found is obj", "            found, _ = _getattribute(module, obj.__qualname__)\n            return found == obj")],
  demo='''
import dill, sys, types
m = types.ModuleType('vdemo_mod')
src = """
class Meta(type):
    def __eq__(cls, other): return getattr(other, '__name__', None) == cls.__name__
    def __hash__(cls): return hash(cls.__name__)
class Point(metaclass=Meta):
    version = %d
"""
exec(src % 1, m.__dict__)
sys.modules['vdemo_mod'] = m
old = m.Point
exec(src % 2, m.__dict__)
assert dill.copy(old).version == 1, dill.copy(old).version
''', needs='a class that was replaced by another that its metaclass calls equal', breaks='the replaced class loads as the one that replaced it'),
 dict(id='c08-no-name', property='C08', file='dill/_dill.py',
  edits=[("            globs = {'__name__': obj.__module__}\n        else:\n            globs_copy = obj.__globals__", "            globs = {}\n        else:\n            globs_copy = obj.__globals__")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns'}
exec("""
def make():
    class K: pass
    return K.__module__
""", ns)
f = dill.copy(ns['make'], recurse=True)
assert f() == 'vdemo_ns', f()
''', needs='a function that makes a class when called', breaks='the function has no __name__ in its globals, so classes it makes are of another module'),
 dict(id='c09-lazy-submodule', property='C09', file='dill/_dill.py',
  edits=[("            submodule = getattr(__import__(module, None, None, [obj]), obj)", "            submodule = getattr(sys.modules.get(module) or __import__(module, None, None, [obj]), obj)")],
  demo='''
import os, subprocess, sys, tempfile, shutil
d = tempfile.mkdtemp()
try:
    os.mkdir(d + '/vdemopkg')
    open(d + '/vdemopkg/__init__.py', 'w').write('')
    open(d + '/vdemopkg/sub.py', 'w').write('x = 5\\n')
    env = dict(os.environ, PYTHONPATH=d + os.pathsep + os.environ.get('PYTHONPATH', ''))
    s = subprocess.run([sys.executable, '-c', 'import dill, vdemopkg.sub as m; print(dill.dumps([m]).hex())'], env=env, capture_output=True, text=True, check=True).stdout.strip()
    r = subprocess.run([sys.executable, '-c', 'import dill, vdemopkg; print(dill.loads(bytes.fromhex(%r))[0].x)' % s], env=env, capture_output=True, text=True)
    assert r.stdout.strip() == '5', r.stderr
finally:
    shutil.rmtree(d)
''', needs='a pickle that refers to a submodule, loaded where the package is imported and the submodule is not', breaks='the submodule is not imported and the load fails'),
 dict(id='c11-falsy-referent', property='C11', file='dill/_dill.py',
  edits=[("    from weakref import ref\n    if obj is None: # it's dead", "    from weakref import ref\n    if not obj: # it's dead")],
  demo='''
import dill, weakref
from collections import UserList
u = UserList()
c, w = dill.copy([u, weakref.ref(u)])
assert w() is c, w()
''', needs='a weak reference to an object that is false', breaks='the copy of the weak reference is dead'),
 dict(id='c12-append-start', property='C12', file='dill/_dill.py',
  edits=[("    elif position >= 0 and fmode != HANDLE_FMODE:", "    elif position > 0 and fmode != HANDLE_FMODE:")],
  demo='''
import dill, os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    with open(d + '/f', 'w') as f: f.write('hello')
    f = open(d + '/f', 'a+'); f.seek(0)
    c = dill.copy(f, fmode=dill.CONTENTS_FMODE)
    assert c.tell() == 0 and c.read() == 'hello', c.tell()
    c.close(); f.close()
finally:
    shutil.rmtree(d)
''', needs='an append-mode handle that stands at the start of its file', breaks='the copy stands at the end'),
 dict(id='c13-own-module', property='C13', file='dill/session.py',
  edits=[("        for modobj, objname, modname in modmap.by_id[id(obj)]:\n            if sys.modules[modname] is not main_module:\n                return modname, objname", "        for modobj, objname, modname in modmap.by_id[id(obj)]:\n            return modname, objname")],
  demo='''
import dill, io, sys, types, os, tempfile, shutil
d = tempfile.mkdtemp(); sys.path.insert(0, d)
try:
    open(d + '/vdemo_mod.py', 'w').write('import math\\ndef f(): return "old"\\n')
    import vdemo_mod
    b = io.BytesIO()
    dill.dump_module(b, vdemo_mod, refimported=True)
    vdemo_mod.f = lambda: 'new'
    b.seek(0)
    dill.load_module(b, vdemo_mod)
    assert vdemo_mod.f() == 'old', vdemo_mod.f()
finally:
    shutil.rmtree(d)
''', needs='refimported, an imported module, and a function of it that is replaced before the session is loaded', breaks='functions the module itself defines are taken for imported and not saved'),
 dict(id='c13-singleton-equal', property='C13', file='dill/session.py',
  edits=[("        elif any(obj is singleton for singleton in (None, False, True)) \\\n", "        elif obj in (None, False, True) \\\n")],
  demo='''
import dill, io, types
import numpy as np
m = types.ModuleType('vdemo_mod')
m.a = np.arange(4); m.loads = dill.loads
b = io.BytesIO()
dill.dump_module(b, m, refimported=True)
b.seek(0)
assert list(dill.load_module(b).a) == [0, 1, 2, 3]
''', needs='refimported and a variable whose == does not give a bool, as an array', breaks='the session can not be saved'),
 dict(id='c14-name-check', property='C14', file='dill/session.py',
  edits=[("            if main.__name__ != pickle_main:", "            if is_main_imported and main.__name__ != pickle_main:")],
  demo='''
import dill, io, types
m = types.ModuleType('vdemo_a'); m.x = 1
b = io.BytesIO()
dill.dump_module(b, m)
b.seek(0)
o = types.ModuleType('vdemo_b'); o.x = 2
try:
    dill.load_module(b, o)
except ValueError:
    pass
else:
    raise SystemExit('loaded into a module of another name')
assert o.x == 2
''', needs='a module-type object of another name than the saved one', breaks='it is overwritten instead of refused'),
 dict(id='c15-nofollow-fallback', property='C15', file='dill/session.py',
  edits=[("        fd = os.open(path, os.O_WRONLY | os.O_TRUNC | _O_NOFOLLOW, 0o600)", "        fd = os.open(path, os.O_WRONLY | os.O_TRUNC, 0o600)")],
  demo='''
import dill, os, tempfile, shutil, types
d = tempfile.mkdtemp()
try:
    p, victim = d + '/session.pkl', d + '/victim'
    open(victim, 'w').write('precious'); open(p, 'w').close()
    from dill import session
    real = os.open
    def race(path, flags, *a, **k):
        # somebody swaps the file for a link after dill looked at it
        if path == p and not flags & os.O_EXCL and os.path.lexists(p) and not state:
            state.append(1)
            os.unlink(p); os.symlink(victim, p)
        return real(path, flags, *a, **k)
    state = []
    os.open = race
    try:
        dill.dump_module(p, types.ModuleType('vdemo'))
    except OSError:
        pass
    finally:
        os.open = real
    assert open(victim).read() == 'precious'
finally:
    shutil.rmtree(d)
''', needs='the file becomes a symbolic link between the look at it and its opening', breaks='the session is written through the link'),
 dict(id='c15-mode', property='C15', file='dill/session.py',
  edits=[("        fd = os.open(path, flags, 0o600)\n", "        fd = os.open(path, flags)\n")],
  demo='''
import dill, os, tempfile, shutil, types
d = tempfile.mkdtemp()
try:
    os.umask(0o022)
    dill.dump_module(d + '/s.pkl', types.ModuleType('vdemo'))
    assert os.stat(d + '/s.pkl').st_mode & 0o077 == 0, oct(os.stat(d + '/s.pkl').st_mode)
finally:
    shutil.rmtree(d)
''', needs='a new session file', breaks='others may read it'),
 dict(id='c16-builtins-polluted', property='C16', file='dill/detect.py',
  edits=[("        globs = vars(getmodule(sum)).copy() if builtin else {}\n        # get globals\n", "        globs = vars(getmodule(sum)) if builtin else {}\n        # get globals\n")],
  demo='''
import dill, builtins
before = set(vars(builtins))
ns = {'__name__': 'vdemo_ns', 'helper': 5}
exec("def f(): return helper", ns)
dill.dumps(ns['f'], recurse=True)
assert set(vars(builtins)) == before, set(vars(builtins)) - before
''', needs='recurse', breaks='dumping a function adds its globals to builtins'),
 dict(id='c20-numpy-override', property='C20', file='dill/_dill.py',
  edits=[("        if NumpyArrayType and not (obj_type is type or obj_type in Pickler.dispatch):", "        if NumpyArrayType and obj_type is not type:")],
  demo='''
import dill, numpy as np
class Arr(np.ndarray): pass
a = np.arange(3).view(Arr)
def save(pickler, obj):
    pickler.save_reduce(str, ('mine',), obj=obj)
dill.pickle(Arr, save)
assert dill.copy(a) == 'mine', dill.copy(a)
''', needs='a handler registered for a subclass of numpy arrays', breaks='dill replaces it with its own'),
 dict(id='c21-fmode-zero', property='C21', file='dill/_dill.py',
  edits=[("        self._fmode = settings['fmode'] if _fmode is None else _fmode", "        self._fmode = _fmode or settings['fmode']")],
  demo='''
import dill, os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    with open(d + '/f', 'w') as f: f.write('hello')
    f = open(d + '/f')
    f.read(3)
    dill.settings['fmode'] = dill.CONTENTS_FMODE
    c = dill.copy(f, fmode=dill.HANDLE_FMODE)
    assert c.tell() == 0, c.tell()
finally:
    shutil.rmtree(d)
''', needs='fmode=HANDLE_FMODE given while the setting is another', breaks='the setting wins over the keyword'),
 dict(id='c22-depth-kept', property='C22', file='dill/logger.py',
  edits=[("            pickler._trace_depth = 1\n            pickler._size_stack = []", "            if getattr(pickler, '_trace_depth', None) is None:\n                pickler._trace_depth = 1\n                pickler._size_stack = []")],
  demo='''
import dill, io
from dill import detect
class Bad:
    def __reduce__(self): raise ValueError
out = io.StringIO()
p = dill.Pickler(io.BytesIO())
with detect.trace(out):
    try: p.dump({'a': {'b': Bad()}})
    except ValueError: pass
    n = len(out.getvalue())
    p.clear_memo()
    p.dump({'a': 1})
first = out.getvalue()[n:].splitlines()[0]
assert first[0] in '+\\u252c', first
''', needs='a dump that fails inside something traced, and another dump with the same pickler', breaks='the second trace is indented as if it were inside the first'),
 dict(id='c25-eval-name', property='C25', file='dill/temp.py',
  edits=[("""        alias = tag[-1]
    local = {}
    exec(source, local)
    _ = eval("%s" % alias, local)
    return _

def dump_source""", """        alias = tag[-1]
    local = {}
    exec(source, local)
    _ = local["%s" % alias]
    return _

def dump_source""")],
  demo='''
import dill
for x in (5, 'abc', len):
    f = dill.temp.dump_source(x)
    assert dill.temp.load_source(f) == x
''', needs='an object whose name is an expression (a number, a builtin)', breaks='it can not be loaded'),
 dict(id='c25-keep-file', property='C25', file='dill/temp.py',
  edits=[("    import tempfile\n    kwds.setdefault('delete', True)\n    file = tempfile.NamedTemporaryFile(**kwds)", "    import tempfile\n    kwds['delete'] = True\n    file = tempfile.NamedTemporaryFile(**kwds)")],
  demo='''
import dill, os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    f = dill.temp.dump([1, 2], dir=d, delete=False)
    f.close()
    assert dill.temp.load(f.name) == [1, 2]
finally:
    shutil.rmtree(d)
''', needs='delete=False', breaks='the file is gone with its handle'),
 dict(id='c26-parent-equal', property='C26', file='dill/pointers.py',
  edits=[("    if parent is obj:\n        return None", "    if parent == obj:\n        return None")],
  demo='''
from dill import pointers
class Node:
    def __init__(self, child=None): self.child = child
    __slots__ = ('child',)
    def __eq__(self, other): return isinstance(other, Node)
    def __hash__(self): return 1
inner = Node()
outer = Node(inner)
class Leaf:
    __slots__ = ('up',)
    def __eq__(self, other): return True
    __hash__ = None
l = Leaf(); l.up = [1, 2]
assert pointers.parent(l, list) is l.up
''', needs='an object that compares equal to its parent', breaks='the parent is not found'),
 dict(id='c26-depth-first', property='C26', file='dill/pointers.py',
  edits=[("        target = queue.pop(0)\n", "        target = queue.pop()\n")],
  demo='''
from dill import pointers
class K: pass
target = K()
shared = [[target]]
# reachable at depth 3 directly, but first met through a longer way
obj = [shared, [shared]]
obj = [[[target]], [[[[[target]]]]]]
x = [target]; obj = [x, [[x]]]
c = pointers.parents(obj, K, depth=2)
assert c[-1] is obj or c[0] is obj
assert any(i is target for i in c), c
c = pointers.parents([[5, (1, target)], target], K, depth=5)
assert len(c) == 2, c
''', needs='an object reachable both by a short and a long way', breaks='the chain is not the shortest'),
 dict(id='c27-key-change', property='C27', file='dill/__diff.py',
  edits=[("                if id_(item) != obj_get(id_(key)) \\\n                   or chngd(key, seen, True, False) \\\n", "                if id_(item) != obj_get(id_(key)) \\\n")],
  demo='''
import importlib
diff = importlib.import_module('dill.__diff')
class K: pass
k = K(); k.a = 'x1'
d = {k: 'v'}
diff.memorise(d)
assert not diff.has_changed(d)
k.a = 'x2'
assert diff.has_changed(d)
''', needs='a key of a dictionary whose attributes change', breaks='the dictionary is reported as unchanged'),
 dict(id='c28-old-name', property='C28', file='dill/_dill.py',
  edits=[("        if module == 'dill.dill': module = 'dill._dill'\n", "")],
  demo='''
import dill
s = dill.dumps(dict(f=lambda x: x + 1), 2).replace(b'dill._dill', b'dill.dill')
assert dill.loads(s)['f'](1) == 2
''', needs='a pickle of a version that kept its functions in dill.dill', breaks='it does not load'),
 dict(id='c29-elif', property='C29', file='dill/__init__.py',
  edits=[("    if unpickleable:\n        objects.update(_objects.failures)", "    elif unpickleable:\n        objects.update(_objects.failures)")],
  demo='''
import dill
dill.load_types()
from dill import _objects
assert set(_objects.failures) <= set(dill.objects)
''', needs='both kinds asked for', breaks='the unpicklable types are missing'),
 dict(id='c30-type-name', property='C30', file='dill/_dill.py',
  edits=[("            return repr(type(pik)) == repr(type(obj)) #XXX: InstanceType?", "            return type(pik).__name__ == type(obj).__name__ #XXX: InstanceType?")],
  demo='''
import dill, collections
class Counter:
    def __reduce__(self): return collections.Counter, ()
assert not dill.pickles(Counter())
''', needs='an object that loads as one of another type with the same name', breaks='pickles says that it survives'),
]
