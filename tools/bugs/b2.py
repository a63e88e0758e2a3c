BUGS = [
 dict(id='c02-protocol-zero', property='C02', file='dill/_dill.py',
  edits=[("    protocol = settings['protocol'] if protocol is None else int(protocol)\n    _kwds = kwds.copy()", "    protocol = int(protocol or settings['protocol'])\n    _kwds = kwds.copy()")],
  demo='''
import dill, pickletools
s = dill.dumps([1, 'a', (2, 3)], 0)
assert max(op.proto for op, a, p in pickletools.genops(s)) == 0, 'opcodes newer than protocol 0'
''', needs='protocol 0 passed explicitly', breaks='protocol 0 silently becomes the default protocol'),
 dict(id='c05-property-doc', property='C05', file='dill/_dill.py',
  edits=[("    pickler.save_reduce(type(obj), (obj.fget, obj.fset, obj.fdel, obj.__doc__),", "    pickler.save_reduce(type(obj), (obj.fget, obj.fset, obj.fdel),")],
  demo='''
import dill
class C:
    x = property(lambda self: 1, doc='the x')
C.__module__ = 'vdemo'
assert dill.copy(C).x.__doc__ == 'the x'
''', needs='a property with an explicit doc', breaks='a property loses its explicit doc'),
 dict(id='c05-namedtuple-defaults', property='C05', file='dill/_dill.py',
  edits=[("            defaults = [obj._field_defaults[field] for field in obj._fields if field in obj._field_defaults]", "            defaults = [default for default in obj._field_defaults.values() if default is not None]")],
  demo='''
import dill, collections
P = collections.namedtuple('P', 'a b c', defaults=[None, 3])
P.__module__ = 'vdemo_nowhere'
c = dill.copy(P)
assert c(1) == (1, None, 3), c(1, 2)
''', needs='a namedtuple with None among its defaults that cannot be imported', breaks='defaults that are None are lost'),
 dict(id='c06-qualname-tail', property='C06', file='dill/_dill.py',
  edits=[("                obj.co_flags, obj.co_code, obj.co_consts, obj.co_names,\n                obj.co_varnames, obj.co_filename, obj.co_name, obj.co_qualname,\n                obj.co_firstlineno, obj.co_linetable, obj.co_exceptiontable,", "                obj.co_flags, obj.co_code, obj.co_consts, obj.co_names,\n                obj.co_varnames, obj.co_filename, obj.co_qualname.rpartition('.')[-1], obj.co_qualname,\n                obj.co_firstlineno, obj.co_linetable, obj.co_exceptiontable,")],
  demo='''
import dill
def f(): pass
co = f.__code__.replace(co_name='other')
assert dill.copy(co) == co and dill.copy(co).co_name == 'other'
''', needs='a code object whose name is not the tail of its qualified name (code.replace)', breaks='co_name is derived from co_qualname'),
 dict(id='c10-rlock-count', property='C10', file='dill/_dill.py',
  edits=[("    if count: # otherwise it's not acquired\n        lock._acquire_restore((count, owner))", "    if count: # otherwise it's not acquired\n        lock.acquire()")],
  demo='''
import dill, threading
l = threading.RLock()
l.acquire(); l.acquire()
c = dill.copy(l)
assert 'count=2' in repr(c), repr(c)
''', needs='an RLock acquired more than once', breaks='the recursion count of an RLock is lost'),
 dict(id='c12-x-mode', property='C12', file='dill/_dill.py',
  edits=[("               and (\"w\" in mode or \"x\" in mode):", "               and \"w\" in mode:")],
  demo='''
import dill, os, tempfile
d = tempfile.mkdtemp()
try:
    f = open(os.path.join(d, 'f'), 'x'); f.write('abc'); f.flush()
    g = dill.loads(dill.dumps(f, fmode=dill.CONTENTS_FMODE))
    g.close(); f.close()
    assert open(os.path.join(d, 'f')).read() == 'abc'
finally:
    import shutil; shutil.rmtree(d)
''', needs='a handle opened with mode x restored with CONTENTS_FMODE', breaks='handles in mode x fail to load'),
 dict(id='c14-runtime-leak', property='C14', file='dill/session.py',
  edits=[("        loaded = unpickler.load()\n    finally:\n        if not hasattr(filename, 'read'):  # if newly opened file\n            file.close()\n        try:\n            del sys.modules[runtime_main]\n        except (KeyError, NameError):\n            pass\n", "        loaded = unpickler.load()\n        if not is_main_imported:\n            sys.modules.pop(runtime_main, None)\n    finally:\n        if not hasattr(filename, 'read'):  # if newly opened file\n            file.close()\n")],
  demo='''
import dill, sys, io, types
m = types.ModuleType('vdemo_mod'); m.x = list(range(100))
b = io.BytesIO()
dill.dump_module(b, module=m)
try: dill.load_module(io.BytesIO(b.getvalue()[:-20]))
except Exception: pass
else: raise SystemExit('a truncated session loaded')
assert not [k for k in sys.modules if 'vdemo' in k]
''', needs='a session of a module-type object that fails to load', breaks='a failed load leaves an entry in sys.modules'),
 dict(id='c17-rlock-release', property='C17', file='dill/_dill.py',
  edits=[("    r = obj.__repr__() # don't use _release_save as it unlocks the lock\n    count = int(r.split('count=')[1].split()[0].rstrip('>'))\n    owner = int(r.split('owner=')[1].split()[0])\n    pickler.save_reduce(_create_rlock, (count,owner,), obj=obj)\n",
          "    if obj._is_owned():\n        count, owner = state = obj._release_save()\n    else:\n        r, state = obj.__repr__(), None\n        count = int(r.split('count=')[1].split()[0].rstrip('>'))\n        owner = int(r.split('owner=')[1].split()[0])\n    pickler.save_reduce(_create_rlock, (count,owner,), obj=obj)\n    if state: obj._acquire_restore(state)\n")],
  demo='''
import dill, threading
class Full(Exception): pass
class W:
    def __init__(self, n): self.n = n
    def write(self, b):
        self.n -= 1
        if self.n < 0: raise Full
for p in (0, 4):
    for n in range(40):
        l = threading.RLock(); l.acquire()
        try: dill.dump([b'x' * 70000, l, b'y' * 70000], W(n), p)
        except Full: pass
        assert l._is_owned(), 'a failed dump released the lock'
''', needs='a dump that fails while an RLock held by the thread is being stored', breaks='a failing dump leaves a held RLock released'),
 dict(id='c18-readahead', property='C18', file='dill/_dill.py',
  edits=[("    return Unpickler(file, ignore=ignore, **kwds).load()", "    import io\n    if isinstance(file, io.RawIOBase): # many small reads are slow\n        file = io.BufferedReader(file)\n    try:\n        return Unpickler(file, ignore=ignore, **kwds).load()\n    finally:\n        if isinstance(file, io.BufferedReader) and isinstance(file.raw, io.RawIOBase) and not file.closed:\n            pass")],
  demo='''
import dill, os, tempfile
fd, p = tempfile.mkstemp(); os.close(fd)
try:
    with open(p, 'wb') as f:
        for i in range(5): dill.dump(i, f)
    with open(p, 'rb', buffering=0) as f:
        assert [dill.load(f) for i in range(5)] == list(range(5))
finally:
    os.unlink(p)
''', needs='several pickles in one unbuffered file', breaks='load reads ahead, so what follows the pickle is lost'),
 dict(id='c19-shared-buffer', property='C19', file='dill/_dill.py',
  edits=[("    file = StringIO()\n    dump(obj, file, protocol, byref, fmode, recurse, **kwds)#, strictio)\n    return file.getvalue()", "    file = _spare.pop() if _spare else StringIO()\n    _spare.append(file) # reuse the buffer\n    dump(obj, file, protocol, byref, fmode, recurse, **kwds)#, strictio)\n    value = file.getvalue()\n    file.seek(0)\n    file.truncate()\n    return value\n\n_spare = []")],
  demo='''
import dill, threading, sys
sys.setswitchinterval(1e-5)
bad = []
def work(k):
    x = [k] * 300
    for i in range(150):
        try:
            if dill.loads(dill.dumps(x)) != x: bad.append(k)
        except Exception as e: bad.append(e)
ts = [threading.Thread(target=work, args=(k,)) for k in range(6)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:3]
''', needs='two dumps at the same time', breaks='concurrent dumps share one buffer'),
 dict(id='c20-extend-new-only', property='C20', file='dill/_dill.py',
  edits=[("    for t,func in Pickler.dispatch.items():\n        try:\n            StockPickler.dispatch[t] = func", "    for t,func in Pickler.dispatch.items():\n        try:\n            StockPickler.dispatch.setdefault(t, func)")],
  demo='''
import dill, pickle, io
dill.extend(False); dill.extend(True)
f = io.BytesIO()
d = {'a': (lambda x: x + 1)}
pickle._Pickler(f).dump(d)
assert dill.loads(f.getvalue())['a'](1) == 2
''', needs='a type both pickle and dill handle, pickled by the extended pickle', breaks='extend() does not install the handlers of types pickle already knows'),
 dict(id='c21-ignore-or', property='C21', file='dill/_dill.py',
  edits=[("        self._ignore = settings['ignore'] if _ignore is None else _ignore", "        self._ignore = _ignore or settings['ignore']")],
  demo='''
import dill
class C: pass
x = C()
s = dill.dumps(x, byref=False)
old = C
class C: pass
dill.settings['ignore'] = True
assert type(dill.loads(s, ignore=False)) is C
''', needs='ignore=False passed while settings has ignore set', breaks='an explicit ignore=False does not win over the settings'),
 dict(id='c23-freevars-zip', property='C23', file='dill/detect.py',
  edits=[("        for name, c in zip(func, closures):\n            try:\n                cell_contents = c.cell_contents\n            except ValueError: # cell is empty\n                continue\n            yield name, c.cell_contents", "        found = []\n        for c in closures:\n            try:\n                found.append(c.cell_contents)\n            except ValueError: # cell is empty\n                pass\n        yield from zip(func, found)")],
  demo='''
from dill import detect
def mk():
    def f(): return a, b
    b = 2
    return f
def mk2():
    def f(): return a, b
    b = 2
    if 0: a = 1
    return f
assert detect.freevars(mk2()) == {'b': 2}, detect.freevars(mk2())
''', needs='a closure with an empty cell before a filled one', breaks='the values of free variables are shifted to the wrong names'),
 dict(id='c24-alias-equal', property='C24', file='dill/source.py',
  edits=[("    head = '.'.join(qual[:-1])\n    tail = qual[-1]\n    # for named things", "    head = '.'.join(dict.fromkeys(qual[:-1]))\n    tail = qual[-1]\n    # for named things")],
  demo='''
import os, sys, tempfile, shutil
from dill import source
d = tempfile.mkdtemp(); sys.path.insert(0, d)
try:
    os.makedirs(d + '/vdemo/vdemo')
    open(d + '/vdemo/__init__.py', 'w').write('def f(): return "outer"\\n')
    open(d + '/vdemo/vdemo/__init__.py', 'w').write('def f(): return "inner"\\n')
    import vdemo.vdemo
    t = source.getimport(vdemo.vdemo.f)
    ns = {}
    exec(t, ns)
    assert ns['f'] is vdemo.vdemo.f, t
finally:
    shutil.rmtree(d)
''', needs='a subpackage with the same name as its package', breaks='getimport names the package instead of the subpackage'),
 dict(id='c27-len-only', property='C27', file='dill/__diff.py',
  edits=[("        changed = dict((key,None) for key in obj_attrs if key not in attrs)\n", "        changed = {}\n        if len(attrs) < len(obj_attrs):\n            changed = dict((key,None) for key in obj_attrs if key not in attrs)\n")],
  demo='''
import importlib
from dill import __diff as diff
class C: pass
x = C(); x.a = 1; x.b = 2
diff.memorise(x)
del x.a; x.c = 3
got = diff.whats_changed(x)[0]
assert set(got) == {'a', 'c'}, got
''', needs='an attribute deleted and another added since', breaks='deleted attributes are only reported if there are fewer than before'),
 dict(id='c28-code-lnotab-order', property='C28', file='dill/_dill.py',
  edits=[("    if not isinstance(args[0], int): # co_lnotab stored from >= 3.10\n        LNOTAB, *args = args", "    if isinstance(args[0], bytes): # co_lnotab stored from >= 3.10\n        LNOTAB, *args = args")],
  demo='''
from dill._dill import _create_code
def f(a): return a + 1
c = f.__code__
args = (c.co_argcount, c.co_posonlyargcount, c.co_kwonlyargcount, c.co_nlocals, c.co_stacksize, c.co_flags, c.co_code, c.co_consts, c.co_names,
        c.co_varnames, c.co_filename, c.co_name, c.co_qualname, c.co_firstlineno, c.co_linetable, c.co_exceptiontable, c.co_freevars, c.co_cellvars)
assert _create_code('', *args) == c
''', needs='a code object stored with protocol 2 or lower by a release that stored co_lnotab as text', breaks='argument tuples with a text co_lnotab are rejected'),
 dict(id='c30-exact-type', property='C30', file='dill/_dill.py',
  edits=[("            return repr(type(pik)) == repr(type(obj)) #XXX: InstanceType?\n        return False", "            return repr(type(pik)) == repr(type(obj)) #XXX: InstanceType?\n        return getattr(type(obj), '__eq__', None) is object.__eq__")],
  demo='''
import dill
class C: pass
assert dill.pickles(C(), exact=True) is False
''', needs='an instance without an __eq__ of its own', breaks='exact=True is true for copies that do not compare equal'),
]
