BUGS = [
 dict(id='c07-runtime-namesake', property='C07', file='dill/_dill.py',
  edits=[("    return getattr(module, '__loader__', None) is not None or module in sys.modules.values()", "    return getattr(module, '__loader__', None) is not None or module.__name__ in sys.modules")],
  demo='''
import dill, types, colorsys
m = types.ModuleType('colorsys'); m.x = 1
try:
    c = dill.copy(m)
except Exception:
    c = None
assert c is not colorsys, c
m.__file__ = '/nonexistent/colorsys.py'
try:
    c = dill.copy(m)
except Exception:
    c = None
assert c is not colorsys and not hasattr(colorsys, 'x'), c
''', needs='a module-type object with the name of an imported module and a file of its own', breaks='it is stored as the imported module, and loading updates that'),
 dict(id='c07-nested-name', property='C07', file='dill/_dill.py',
  edits=[("            found, _ = _getattribute(module, obj.__qualname__)\n            return found is obj", "            found, _ = _getattribute(module, obj.__name__)\n            return found is obj")],
  demo='''
import dill, json.decoder, collections
for o in (collections.Counter.most_common, json.decoder.JSONDecoder.decode, json.JSONEncoder.default, collections.UserDict.copy):
    assert dill.copy(o) is o, o
''', needs='a function that is only reached through its class', breaks='it is copied instead of referred to'),
 dict(id='c07-dict-name', property='C07', file='dill/_dill.py',
  edits=[("    elif '__name__' in obj and obj is not _main_module.__dict__ \\\n", "    elif '__name__' in obj and '__spec__' in obj and obj is not _main_module.__dict__ \\\n")],
  demo='''
import dill, types, sys
m = types.ModuleType('vdemo_made')
m.__dict__.pop('__spec__'); m.value = [1]
sys.modules['vdemo_made'] = m
assert dill.copy(m.__dict__) is m.__dict__
''', needs='the namespace of an imported module that was not made by the import system', breaks='it is copied instead of referred to'),
 dict(id='c08-shadow-builtin', property='C08', file='dill/detect.py',
  edits=[("        globs.update(orig_func.__globals__ or {})\n", "        globs = dict(orig_func.__globals__ or {}, **globs)\n")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns', 'sum': lambda x: 'mine'}
exec("def f(): return sum([1, 2])", ns)
assert dill.copy(ns['f'], recurse=True)() == 'mine'
''', needs='a global that has the name of a builtin', breaks='the copy calls the builtin'),
 dict(id='c08-name-once', property='C08', file='dill/detect.py',
  edits=[("        if co and recurse and iscode(co):\n            names.update(", "        if co and recurse and iscode(co) and co.co_name not in names:\n            names.update(")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns', 'limit': 7}
exec("""
def check(x): return x
def f(x):
    y = check(x)
    class K:
        def check(self): return y + limit
    return K().check()
class check2: pass
def g(x):
    r = check(x)
    def run():
        def check(): return limit
        return check()
    return r, run(), check
def h(x):
    def use(): return check(x)
    r = use()
    return [check(r), (lambda: limit)()]
def k(x):
    first = check(x)
    return (lambda check: [limit for _ in check])([first])
""", ns)
for n in 'fghk':
    dill.copy(ns[n], recurse=True)(1)
exec("""
def outer(x):
    v = helper(x)
    def make():
        def helper(): return limit
        return helper
    return v, make()()
def top(x):
    v = helper(x)
    globals
    helper2 = [helper(i) for i in (1,)]
    def inner(helper=None): return limit
    inner.__name__ = 'helper'
    def helper_(): return None
    return v, inner()
def last(x):
    v = helper(x)
    def deco(f): return f
    class C:
        @deco
        def helper(self): return limit
    return v, C().helper()
def helper(x): return x
""", ns)
for n in ('outer', 'top', 'last'):
    assert dill.copy(ns[n], recurse=True)(1)[1] == 7
''', needs='a nested function named like a global that the class or function around it uses', breaks='its globals are not stored'),
 dict(id='c11-dead-callable', property='C11', file='dill/_dill.py',
  edits=[("    pickler.save_reduce(_create_weakproxy, (refobj, callable(obj)), obj=obj)", "    pickler.save_reduce(_create_weakproxy, (refobj, callable(refobj)), obj=obj)")],
  demo='''
import dill, weakref
def make():
    def f(): pass
    return weakref.proxy(f)
p = make()
c = dill.copy(p)
assert type(c) is type(p), (type(c), type(p))
''', needs='a dead proxy of a callable', breaks='it comes back as a proxy that is not callable'),
 dict(id='c11-falsy-proxy', property='C11', file='dill/_dill.py',
  edits=[("def _create_weakproxy(obj, callable=False, *args):\n    from weakref import proxy\n    if obj is None: # it's dead", "def _create_weakproxy(obj, callable=False, *args):\n    from weakref import proxy\n    if not obj: # it's dead")],
  demo='''
import dill, weakref
from collections import UserList
u = UserList()
c, w = dill.copy([u, weakref.proxy(u)])
w.append(3)
assert c == [3]
''', needs='a proxy of something empty', breaks='it comes back dead'),
 dict(id='c16-lock-probe', property='C16', file='dill/_dill.py',
  edits=[("    pickler.save_reduce(_create_lock, (obj.locked(),), obj=obj)", "    free = obj.acquire(False) # locked() is not there in all implementations\n    pickler.save_reduce(_create_lock, (not free,), obj=obj)\n    if free: obj.release()")],
  demo='''
import dill, threading
class Bad:
    def __reduce__(self): raise ValueError
l = threading.Lock()
seen = []
class Look:
    def __reduce__(self):
        seen.append(l.locked()); return (Look, ())
class W:
    def write(self, b): seen.append(l.locked())
for proto in range(6):
    dill.dump([l], W(), protocol=proto)
assert not any(seen), seen
class F:
    n = 0
    def write(self, b):
        raise OSError('full')
p = dill.Pickler(F(), 0)
try: p.dump(l)
except OSError: pass
assert not l.locked()
''', needs='a dump that fails while it writes a lock, or that something watches', breaks='the lock stays locked'),
 dict(id='c16-module-state', property='C16', file='dill/_dill.py',
  edits=[("            main_dict = obj.__dict__.copy()\n            for item in ('__builtins__', '__loader__'):", "            main_dict = obj.__dict__\n            for item in ('__builtins__', '__loader__'):")],
  demo='''
import dill, sys, os, tempfile, types
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, 'vdemo_mod16.py'), 'w') as f: f.write('x = 1\\ndef f(): return len("abc")\\n')
    sys.path.insert(0, d)
    import vdemo_mod16 as m
    before = set(vars(m))
    dill.dumps(m)
    assert set(vars(m)) == before, before - set(vars(m))
finally:
    import shutil; shutil.rmtree(d)
''', needs='a module of the user', breaks='dumping it takes names out of it'),
 dict(id='c03-empty-doc', property='C03', file='dill/_dill.py',
  edits=[("            fattr = getattr(obj, fattrname, None)\n            if fattr is not None:\n                state_dict[fattrname] = fattr", "            fattr = getattr(obj, fattrname, None)\n            if fattr:\n                state_dict[fattrname] = fattr")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns'}
exec('def f(a: int, *, k=1):\\n    "says"\\n    return a', ns)
f = ns['f']
f.__doc__ = ''
g = dill.copy(f)
assert g.__doc__ == '', g.__doc__
''', needs='a docstring that was replaced by an empty one', breaks='the old docstring is back'),
 dict(id='c19-shared-pending', property='C19', file='dill/_dill.py',
  edits=[("        self._postproc = OrderedDict()", "        self._postproc = Pickler._pending"), ("    _session = False\n    from .settings import settings\n\n    def __init__(self, file,", "    _session = False\n    _pending = OrderedDict() # empty but during a dump\n    from .settings import settings\n\n    def __init__(self, file,")],
  demo='''
import dill, threading, sys
sys.setswitchinterval(1e-6)
src = """
def make(n):
    class A:
        def m(self): return __class__, self.k, B
        k = n
    class B(A):
        def m(self): return super().m()
        up = A
    def f(): return A, B, f, g
    def g(): return f
    return [A, B, f, g]
"""
bad = []
def work():
    ns = {'__name__': 'vdemo_ns'}
    exec(src, ns)
    for i in range(60):
        try:
            a, b, f, g = dill.loads(dill.dumps(ns['make'](i)))
            assert b().m()[1] == i and f()[0] is a and f()[2] is f and g() is f
        except BaseException as e:
            bad.append(repr(e)); return
ts = [threading.Thread(target=work) for _ in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:2]
''', needs='two dumps at the same time, or one inside the other', breaks='what one dump still has to do is done by the other'),
 dict(id='c01-view-order', property='C01', file='dill/_dill.py',
  edits=[("                mapping = obj.mapping | _dictproxy_helper_instance\n                pickler.save_reduce(func, (mapping,), obj=obj)", "                mapping = dict(obj.mapping)\n                pickler.save_reduce(func, (mapping,), obj=obj)")],
  demo='''
import dill
d = {'a': [1]}
c, v = dill.copy([d, d.keys()])
c['b'] = 2
assert list(v) == ['a', 'b'], list(v)
''', needs='a dict view next to its dict', breaks='it is a view of another dict'),
 dict(id='c04-early-fill', property='C04', file='dill/_dill.py',
  edits=[("        if id(f) in pickler._postproc:\n            # Already seen. Add to its postprocessing.", "        if id(f) in pickler._postproc or id(f) in pickler.memo:\n            # Already seen. Add to its postprocessing.")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns'}
exec("""
def make():
    shared = [1]
    def f(): return shared
    def g(): return shared, f
    f.also = shared
    return [shared, f, g]
""", ns)
s, f, g = dill.copy(ns['make']())
assert f() is s and g()[0] is s and g()[1] is f
''', needs='a cell with something that was stored before the function', breaks='it can not be dumped'),
 dict(id='c02-moved-names', property='C02', file='dill/_dill.py',
  edits=[("        if module == 'dill.dill': module = 'dill._dill'\n        return StockUnpickler.find_class(self, module, name)", "        if module == 'dill.dill': module = 'dill._dill'\n        if module in sys.modules and '.' not in name and module != '__main__':\n            return getattr(sys.modules[module], name)\n        return StockUnpickler.find_class(self, module, name)")],
  demo='''
import dill, subprocess, sys, pickle, io
import builtins
# names of python 2 in pickles of protocol 2 and lower
for v in (map, filter, range, zip, str, int, set, Exception):
    for p in (0, 1, 2):
        s = pickle.dumps([v], p)
        assert subprocess.run([sys.executable, '-c', 'import dill, sys, types; [sys.modules.setdefault(n, types.ModuleType(n)) for n in ("itertools", "__builtin__", "exceptions", "copy_reg")]\\nassert dill.loads(sys.stdin.buffer.read())[0].__name__ == %r' % v.__name__], input=s).returncode == 0, (v, p)
''', needs='a pickle of an old protocol with names that Python 3 moved', breaks='the old name is not translated'),
 dict(id='c23-code-order', property='C23', file='dill/detect.py',
  edits=[("        func.update(nestedglobals(func" , "        func.update(nestedglobals(func")],
  demo='''
''', needs='', breaks=''),
 dict(id='c29-registered', property='C29', file='dill/_objects.py',
  edits=[("XX", "XX")], demo='', needs='', breaks=''),
]
BUGS = [b for b in BUGS if b['demo'].strip()]
