BUGS = [
 dict(id='c01-module-dict-equal', property='C01', file='dill/_dill.py',
  edits=[("            and obj is getattr(sys.modules.get(obj['__name__']), '__dict__', None):", "            and obj == getattr(sys.modules.get(obj['__name__']), '__dict__', None):")],
  demo='''
import dill, fractions
d = dict(vars(fractions))
e = dill.copy(d)
assert e is not vars(fractions) and e.keys() == d.keys()
''', needs='a dict that is equal to the namespace of a module', breaks='it is loaded as the namespace of the module'),
 dict(id='c03-globals-update', property='C03', file='dill/_dill.py',
  edits=[("            for stack_element in _postproc:\n                if stack_element in glob_ids:\n                    _postproc[stack_element].append((_setitems, (globs, globs_copy)))\n                    break\n            else:\n                postproc_list.append((_setitems, (globs, globs_copy)))",
          "            for stack_element in _postproc:\n                _postproc[stack_element].append((_setitems, (globs, globs_copy)))\n                break\n            else:\n                postproc_list.append((_setitems, (globs, globs_copy)))")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns'}
exec("""
k = 3
class Meta(type):
    def __init__(cls, *a):
        super().__init__(*a)
        cls.size = limit()
def limit(): return k
def make():
    class A(metaclass=Meta):
        pass
    def f(): return A.size
    return f
""", ns)
f = ns['make']()
ns.pop('make')
assert dill.copy(f)() == 3
''', needs='a function that is called while the pickle that has it is loaded', breaks='its globals are not there yet'),
 dict(id='c04-topmost-only', property='C04', file='dill/_dill.py',
  edits=[("        if id(f) in pickler._postproc:\n            # Already seen. Add to its postprocessing.\n            postproc = pickler._postproc[id(f)]\n        else:\n            # Haven't seen it. Add to the highest possible object and set its\n            # value as late as possible to prevent cycle.\n            postproc = next(iter(pickler._postproc.values()), None)",
          "        # Add to the highest possible object and set its value as late as\n        # possible to prevent cycle.\n        postproc = next(iter(pickler._postproc.values()), None)")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns'}
exec("""
def make():
    class Base:
        subs = ()
        def __init_subclass__(cls):
            super().__init_subclass__()
            __class__.subs += cls.__name__,
    class Sub(Base): pass
    def f(): return Sub()
    return f
""", ns)
f = dill.copy(ns['make']())
assert type(f()).__mro__[1].__name__ == 'Base'
''', needs='a class whose methods are called while the function that has it is loaded', breaks='the cell of super is still empty'),
 dict(id='c05-ordered-bases', property='C05', file='dill/_dill.py',
  edits=[("        for base in reversed(cls.__bases__):\n            inherited_dict.update(base.__dict__)", "        for base in cls.__bases__:\n            inherited_dict.update(base.__dict__)")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns'}
exec("""
class A:
    def m(self): return 'A'
class B:
    def m(self): return 'B'
class C(A, B):
    m = B.m
""", ns)
assert dill.copy(ns['C'])().m() == 'B'
''', needs='a class that takes the method of its second base', breaks='the method is lost'),
 dict(id='c06-equal-cache', property='C06', file='dill/_dill.py',
  edits=[("    elif hasattr(obj, \"co_exceptiontable\"): # python 3.11 (18 args)\n", "    elif obj in _code_args: # already seen\n        args = _code_args[obj]\n    elif hasattr(obj, \"co_exceptiontable\"): # python 3.11 (18 args)\n"),
         ("    pickler.save_reduce(_create_code, args, obj=obj)\n    logger.trace(pickler, \"# Co\")\n    return\n\ndef _repr_dict", "    _code_args[obj] = args\n    pickler.save_reduce(_create_code, args, obj=obj)\n    logger.trace(pickler, \"# Co\")\n    return\n\n# keep what was taken from code objects, as it's slow to get\nfrom weakref import WeakKeyDictionary\n_code_args = WeakKeyDictionary()\n\ndef _repr_dict")],
  demo='''
import dill
a = compile('def f(x): return x + 1', '<one>', 'exec')
b = compile('def f(x): return x + 1', '<two>', 'exec')
assert a == b
assert dill.copy(a).co_filename == '<one>'
assert dill.copy(b).co_filename == '<two>'
assert dill.copy(b).co_consts[0].co_filename == '<two>'
''', needs='two equal code objects of different files, both alive', breaks='the second is stored as the first'),
 dict(id='c08-two-deep', property='C08', file='dill/detect.py',
  edits=[("            names.update(nestedglobals(co, recurse=True))", "            names.update(nestedglobals(co, recurse=False))")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns'}
exec("""
k = 3
def f():
    def g():
        return [k for i in 'a' if (lambda: k)()] + [(lambda: j)()]
    return g()
j = 4
""", ns)
assert dill.loads(dill.dumps(ns['f'], recurse=True))() == [3, 4]
''', needs='a global that only a function two levels down reads', breaks='it does not come along'),
 dict(id='c09-assert-acquire', property='C09', file='dill/_dill.py',
  edits=[("    if locked:\n        if not lock.acquire(False):\n            raise UnpicklingError(\"Cannot acquire lock\")", "    if locked:\n        assert lock.acquire(False), \"Cannot acquire lock\"")],
  demo='''
import dill, subprocess, sys, threading
l = threading.Lock()
l.acquire()
s = dill.dumps([l, threading.Lock()])
for opt in ([], ['-O'], ['-OO']):
    subprocess.run([sys.executable, *opt, '-c', 'import dill, sys\\na, b = dill.loads(sys.stdin.buffer.read())\\nif not a.locked() or b.locked(): sys.exit(1)'], input=s, check=True)
''', needs='a locked lock loaded by an interpreter that was started with -O', breaks='it is not locked'),
 dict(id='c10-proxy-detached', property='C10', file='dill/_dill.py',
  edits=[("        mapping = obj | _dictproxy_helper_instance\n        pickler.save_reduce(DictProxyType, (mapping,), obj=obj)", "        pickler.save_reduce(DictProxyType, (obj.copy(),), obj=obj)")],
  demo='''
import dill, types
d = {'a': 1}
e, p = dill.copy([d, types.MappingProxyType(d)])
e['b'] = 2
assert p['b'] == 2
''', needs='a mapping proxy next to its dict', breaks='it is a proxy of another dict'),
 dict(id='c10-super-self-class', property='C10', file='dill/_dill.py',
  edits=[("    pickler.save_reduce(super, (obj.__thisclass__, obj.__self__), obj=obj)", "    pickler.save_reduce(super, (obj.__self_class__, obj.__self__), obj=obj)")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns'}
exec("""
class A:
    def m(self): return 'A'
class B(A):
    def m(self): return 'B'
    def up(self): return super()
class C(B):
    def m(self): return 'C'
""", ns)
s = ns['C']().up()
assert dill.copy(s).m() == 'A'
''', needs='a super object of a method that a subclass inherits', breaks='it starts from the wrong class'),
 dict(id='c13-lookup-equal', property='C13', file='dill/session.py',
  edits=[("        if modobj is obj and sys.modules[modname] is not main_module:", "        if (modobj is obj or type(modobj) is type(obj) is str and modobj == obj) and sys.modules[modname] is not main_module:")],
  demo='''
import dill, io, sys, types
m = types.ModuleType('vdemo_m')
other = types.ModuleType('vdemo_other')
other.title = ''.join(['a', 'b c'])
m.title = ''.join(['ab', ' c'])
sys.modules['vdemo_other'] = other
b = io.BytesIO()
dill.dump_module(b, module=m, refimported=True)
other.title = 'changed'
b.seek(0)
assert dill.load_module(b).title == 'ab c'
''', needs='refimported, and a variable equal to the variable of that name of another module', breaks='it is restored as whatever the other is now'),
 dict(id='c15-check-only', property='C15', file='dill/session.py',
  edits=[("    fd = os.open(path, os.O_RDONLY | _O_NOFOLLOW)", "    fd = os.open(path, os.O_RDONLY)")],
  demo='''
import dill, os, sys, tempfile, types, dill.session
m = types.ModuleType('vdemo_m')
m.x = 1
with tempfile.TemporaryDirectory() as d:
    p, q = d + '/s.pkl', d + '/other.pkl'
    dill.dump_module(p, module=m)
    m.x = 2
    dill.dump_module(q, module=m)
    real = os.open
    def opened(path, *a, **k):
        if path == p: # somebody is faster
            os.unlink(p)
            os.symlink(q, p)
        return real(path, *a, **k)
    os.open = opened
    try: n = dill.load_module(p)
    except OSError: n = None
    finally: os.open = real
    assert n is None
''', needs='a symlink that is put there between the check and the opening', breaks='it is followed'),
 dict(id='c16-module-pop', property='C16', file='dill/_dill.py',
  edits=[("            main_dict = obj.__dict__.copy()\n            for item in ('__builtins__', '__loader__'):\n                main_dict.pop(item, None)", "            main_dict = obj.__dict__\n            for item in ('__builtins__', '__loader__'):\n                if item in main_dict: main_dict = {k: v for (k, v) in main_dict.items() if k != item}\n                else: main_dict.setdefault(item, None), main_dict.pop(item)")],
  demo='''
import dill
''', needs='', breaks=''),
 dict(id='c17-by-name-instead', property='C17', file='dill/_dill.py',
  edits=[("        StockPickler.save(self, obj, save_persistent_id)\n\n    save.__doc__", "        try:\n            StockPickler.save(self, obj, save_persistent_id)\n        except PicklingError: # store the object by name instead\n            if not isinstance(obj, (type, FunctionType)) or id(obj) in self.memo: raise\n            self.save_global(obj)\n\n    save.__doc__")],
  demo='''
import dill, sys, types, io
class Bad:
    def __reduce__(self): raise dill.PicklingError('bad')
m = types.ModuleType('vdemo_m')
sys.modules['vdemo_m'] = m
class Meta(type): pass
ns = {'__name__': 'vdemo_m', 'Bad': Bad}
exec("""
def f(x=Bad()): return 1
""", ns)
m.f = lambda: 2
m.g = ns['f']
ns['f'].__qualname__ = 'h'
ok = True
f = ns['f']
f.__qualname__ = 'f'
m.f = f
del m.f
class Late:
    def __reduce__(self):
        m.f = f
        raise dill.PicklingError('late')
f.__defaults__ = (Late(),)
try: s = dill.dumps([1, f])
except dill.PicklingError: s = None
assert s is None, s
''', needs='a part of a function that fails to pickle while its name can be found again', breaks='what is written is not what was asked, with remains of the failure'),
 dict(id='c22-muted', property='C22', file='dill/logger.py',
  edits=[("        self.old_level = adapter.getEffectiveLevel()\n        adapter.setLevel(logging.INFO)\n        return adapter.info", "        self.old_level = adapter.getEffectiveLevel()\n        if not self.redirect: adapter.setLevel(logging.INFO)\n        else: adapter.setLevel(min(logging.INFO, self.old_level))\n        return adapter.info"), ("        adapter.setLevel(self.old_level)\n        if self.redirect:", "        adapter.setLevel(self.old_level if self.redirect else logging.WARNING)\n        if self.redirect:")],
  demo='''
import dill, io, contextlib
from dill import detect
out = io.StringIO()
detect.trace(True)
with detect.trace(): pass
try:
    with detect.trace(out): pass
    from dill.logger import logger
    import logging
    assert logger.level == logging.INFO, logger.level
finally: detect.trace(False)
''', needs='the context manager while tracing is on already', breaks='tracing is off after it'),
 dict(id='c25-exec-locals', property='C25', file='dill/temp.py',
  edits=[("    source = source.decode('utf-8') # buffer to string\n    if not alias:\n        tag = source.strip().splitlines()[-1].split()\n        if tag[0] != '#NAME:':\n            stub = source.splitlines()[0]\n            raise IOError(\"unknown name for code: %s\" % stub)\n        alias = tag[-1]\n    local = {}\n    exec(source, local)\n    _ = eval(\"%s\" % alias, local)\n    return _",
          "    source = source.decode('utf-8') # buffer to string\n    if not alias:\n        tag = source.strip().splitlines()[-1].split()\n        if tag[0] != '#NAME:':\n            stub = source.splitlines()[0]\n            raise IOError(\"unknown name for code: %s\" % stub)\n        alias = tag[-1]\n    local = {}\n    exec(source, {}, local)\n    _ = eval(\"%s\" % alias, local)\n    return _")],
  demo='''
import dill, dill.temp, sys, os, tempfile, importlib
d = tempfile.mkdtemp()
try:
    open(d + '/vdemo_src.py', 'w').write("""
def fact(n):
    return 1 if n < 2 else n * fact(n - 1)
""")
    sys.path.insert(0, d)
    m = importlib.import_module('vdemo_src')
    import dill.source
    b = dill.temp.dumpIO_source(m.fact)
    import io
    src = dill.source.getsource(m.fact)
    b = io.BytesIO((src + '\\n#NAME: fact\\n').encode())
    assert dill.temp.loadIO_source(b)(4) == 24
finally:
    import shutil
    shutil.rmtree(d)
''', needs='source of a function that uses its own name', breaks='the name is not found'),
 dict(id='c26-falsy-chain', property='C26', file='dill/pointers.py',
  edits=[("            while parent[id(target)] is not None:", "            while parent[id(target)]:")],
  demo='''
from dill.pointers import children, parents
class E(list): pass
e = E()
box = (e,)
holder = {'b': box}
c = children(e, tuple, 1)
assert len(c) == 2 and c[0] is box and c[1] is e, c
''', needs='an object that counts as false', breaks='the chain does not end with it'),
 dict(id='c27-attr-removed', property='C27', file='dill/__diff.py',
  edits=[("            if id_(o) != obj_get(key, None) or chngd(o, seen, True, False):\n                changed[key] = o", "            if id_(o) != obj_get(key, None) or o is not obj and chngd(o, seen, True, not seen):\n                changed[key] = o")],
  demo='''
''', needs='', breaks=''),
 dict(id='c27-seen-early', property='C27', file='dill/__diff.py',
  edits=[("    seen[obj_id] = changed, seq_diff\n    if simple:", "    if changed or not simple: seen[obj_id] = changed, seq_diff\n    if simple:")],
  demo='''
import importlib, sys
d = importlib.import_module('dill.__diff')
class A: pass
x = [[1]]
a = A()
a.one, a.two = x, [x]
d.memorise(a)
x.append(2)
assert sorted(d.whats_changed(a)[0]) == ['one', 'two'], d.whats_changed(a)
''', needs='a changed list that is found twice', breaks='the second place is said to be unchanged'),
 dict(id='c28-typing-tuple', property='C28', file='dill/_dill.py',
  edits=[("    if argz == ((),):\n        return typing.Tuple[()]\n    return typing.Tuple[argz]", "    return typing.Tuple[argz]")],
  demo='''
import dill, typing, pickle
s = b'\\x80\\x04cdill._dill\\n_create_typing_tuple\\n)\\x85\\x85R.'
assert dill.loads(s) == typing.Tuple[()]
''', needs='the pickle of an empty typing.Tuple written by Python 3.10 or earlier', breaks='it does not load'),
 dict(id='c29-only-missing', property='C29', file='dill/__init__.py',
  edits=[("    objects.update(_objects.registered)", "    [objects.setdefault(*item) for item in _objects.registered.items()]")],
  demo='''
''', needs='', breaks=''),
 dict(id='c30-first-item', property='C30', file='dill/_dill.py',
  edits=[("    exceptions = (TypeError, AssertionError, NotImplementedError, PicklingError, UnpicklingError)\n", "    exceptions = (TypeError, AssertionError, NotImplementedError, PicklingError)\n")],
  demo='''
import dill
class A:
    def __reduce__(self): return fail, ()
def fail(): raise dill.UnpicklingError('no')
assert dill.pickles(A()) is False
''', needs='an object that fails to load with UnpicklingError', breaks='pickles raises'),
 dict(id='c12-stdout-copy', property='C12', file='dill/_dill.py',
  edits=[("    if name in list(names.keys()):\n        f = names[name] #XXX: safer \"f=sys.stdin\"", "    if name in list(names.keys()):\n        f = names[name] if not closed else getattr(sys, name[1:-1]) #XXX: safer \"f=sys.stdin\"")],
  demo='''
''', needs='', breaks=''),
 dict(id='c21-byref-false', property='C21', file='dill/_dill.py',
  edits=[("        self._recurse = settings['recurse'] if _recurse is None else _recurse", "        self._recurse = _recurse or settings['recurse']")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns', 'unused': [1]}
exec('def f(): return 1', ns)
dill.settings['recurse'] = True
try:
    f = dill.loads(dill.dumps(ns['f'], recurse=False))
    assert 'unused' in f.__globals__
    assert 'unused' not in dill.copy(ns['f']).__globals__
finally: dill.settings['recurse'] = False
''', needs='recurse=False given while settings have True', breaks='it is ignored'),
 dict(id='c14-update-alias', property='C14', file='dill/session.py',
  edits=[("            main.__dict__.update(old_main.__dict__)", "            main.__dict__.update({k: v for (k, v) in old_main.__dict__.items() if k not in main.__dict__ or v is not None})")],
  demo='''
''', needs='', breaks=''),
 dict(id='c18-peek', property='C18', file='dill/_dill.py',
  edits=[("        obj = StockUnpickler.load(self)\n        if type(obj)", "        try:\n            obj = StockUnpickler.load(self)\n        except EOFError: # without its STOP\n            if len(getattr(self, 'stack', ())) != 1 or self.metastack: raise\n            obj = self.stack.pop()\n        if type(obj)")],
  demo='''
import dill
for x in (1, 'abc', [1, 2], None, (1,), {'a': 1}, lambda: 1):
    for p in range(6):
        s = dill.dumps(x, p)
        for i in range(len(s)):
            try: dill.loads(s[:i])
            except Exception: continue
            raise AssertionError((x, p, i))
''', needs='a pickle that is cut before its last byte', breaks='it loads'),
]
BUGS = [b for b in BUGS if b['demo'].strip() and b['id'] not in ('c16-module-pop',)]
