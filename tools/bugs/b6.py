BUGS = [
 dict(id='c25-ascii-escape', property='C25', file='dill/temp.py',
  edits=[("    return codecs.utf_8_encode(x)[0]", "    return codecs.ascii_encode(x, 'backslashreplace')[0]")],
  demo='''
import dill, os, sys, tempfile
d = tempfile.mkdtemp()
try:
    sys.path.insert(0, d)
    with open(os.path.join(d, 'vdemo_src.py'), 'w', encoding='utf-8') as f:
        f.write("def f():\\n    return len(r'\\u00e9')\\n")
    import vdemo_src
    vdemo_src.f.__module__ = '__main__'
    b = dill.temp.dumpIO_source(vdemo_src.f)
    g = dill.temp.loadIO_source(b)
    assert g() == 1
finally:
    import shutil
    shutil.rmtree(d)
''', needs='source with a non-ascii character outside of an ordinary string literal', breaks='what is stored is an escaped text that means something else'),
 dict(id='c23-nested-two-deep', property='C23', file='dill/detect.py',
  edits=[("            if recurse: nested |= set(nestedcode(co, recurse=True))", "            if recurse: nested |= set(nestedcode(co, recurse=False))")],
  demo='''
from dill.detect import nestedcode
def f():
    def a():
        def b():
            def c(): return lambda: 1
            return c
        return b
    return a
names = sorted(c.co_name for c in nestedcode(f))
assert names == ['<lambda>', 'a', 'b', 'c'], names
''', needs='functions nested three deep', breaks='nestedcode leaves out code objects'),
 dict(id='c29-wrong-instance', property='C29', file='dill/_objects.py',
  edits=[("weakref.WeakValueDictionary()", "weakref.WeakKeyDictionary()")],
  demo='''
import dill, weakref
dill.load_types()
assert type(dill.objects['WeakValueDictionaryType']) is weakref.WeakValueDictionary
''', needs='looking at the instance that is filed', breaks='an entry of the catalogue has another type'),
 dict(id='c16-module-pop', property='C16', file='dill/_dill.py',
  edits=[("            main_dict = obj.__dict__.copy()\n            for item in ('__builtins__', '__loader__'):", "            main_dict = obj.__dict__\n            for item in ('__builtins__', '__loader__'):")],
  demo='''
import dill, os, sys, tempfile, io, shutil
d = tempfile.mkdtemp()
try:
    sys.path.insert(0, d)
    with open(os.path.join(d, 'vdemo_src.py'), 'w') as f:
        f.write("x = 1\\n")
    import vdemo_src
    before = dict(vars(vdemo_src))
    dill.dumps(vdemo_src)
    assert dict(vars(vdemo_src)) == before
finally:
    shutil.rmtree(d)
''', needs='dumping a module that is stored by value', breaks='the module loses names'),
 dict(id='c11-dead-callable', property='C11', file='dill/_dill.py',
  edits=[("        if callable: return proxy(lambda x:x, *args)\n        from collections import UserDict\n        return proxy(UserDict(), *args)", "        from collections import UserDict\n        return proxy(UserDict(), *args)")],
  demo='''
import dill, weakref
class F:
    def __call__(self): return 1
f = F()
p = weakref.proxy(f)
del f
assert callable(p)
assert callable(dill.copy(p))
''', needs='a dead proxy of a callable', breaks='it is not callable any more'),
 dict(id='c14-kind-check', property='C14', file='dill/session.py',
  edits=[("            if is_runtime_mod and is_main_imported:\n", "            if is_runtime_mod and is_main_imported and main is not _main_module:\n")],
  demo='''
import dill, io, sys, types
m = types.ModuleType('__main__')
m.x = 1
b = io.BytesIO()
dill.dump_module(b, module=m)
b.seek(0)
x = 'mine'
try:
    dill.load_module(b, module=sys.modules['__main__'])
except ValueError:
    pass
assert x == 'mine'
''', needs='a session of a module-type object named __main__, loaded into __main__', breaks='__main__ is changed instead of the load being refused'),
 dict(id='c24-alias-lost', property='C24', file='dill/source.py',
  edits=[("                _str = _getimport(_head, tail, alias, verify)\n", "                _str = _getimport(_head, tail, verify=verify)\n")],
  demo='''
import dill.source, os, sys, tempfile, shutil
d = tempfile.mkdtemp()
try:
    sys.path.insert(0, d)
    os.mkdir(os.path.join(d, 'vdemo_pkg'))
    with open(os.path.join(d, 'vdemo_pkg', '__init__.py'), 'w') as f:
        f.write("def f(): return 1\\nf.__module__ = 'vdemo_pkg.gone'\\nclass K: pass\\nK.__module__ = 'vdemo_pkg.gone'\\n")
    import vdemo_pkg
    from dill.source import _getimport
    s = _getimport('vdemo_pkg.gone', 'K', 'alias')
    ns = {}
    exec(s, ns)
    assert ns['alias'] is vdemo_pkg.K, s
finally:
    shutil.rmtree(d)
''', needs='an object that is found in a parent of its module, and an alias', breaks='the import does not use the alias'),
 dict(id='c24-outdent-chop', property='C24', file='dill/source.py',
  edits=[("        if spaces > _indent: _spaces = _indent\n        else: _spaces = spaces\n        lines[i] = lines[i][_spaces:]", "        lines[i] = lines[i][spaces:]")],
  demo='''
import dill.source, os, sys, tempfile, shutil
d = tempfile.mkdtemp()
try:
    sys.path.insert(0, d)
    with open(os.path.join(d, 'vdemo_src.py'), 'w') as f:
        f.write("class K:\\n    def f(self):\\n# an important note\\n        return 1\\n")
    import vdemo_src
    s = dill.source.getsource(vdemo_src.K.f, lstrip=True)
    ns = {}
    exec(s, ns)
    assert ns['f'](0) == 1
finally:
    shutil.rmtree(d)
''', needs='a comment that is indented less than the method it is in', breaks='the text does not compile'),
 dict(id='c05-abc-cache', property='C05', file='dill/_dill.py',
  edits=[("        (registry, _, _, _) = abc._get_dump(obj)", "        (_, registry, _, _) = abc._get_dump(obj)")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns'}
exec("""
import abc
class A(abc.ABC): pass
class V: pass
A.register(V)
""", ns)
A, V = dill.loads(dill.dumps([ns['A'], ns['V']]))
assert issubclass(V, A)
''', needs='an ABC with a virtual subclass that was not yet asked for', breaks='the copy does not know it'),
 dict(id='c13-top-level-name', property='C13', file='dill/session.py',
  edits=[("        if '.' not in modname:\n            modmap.top_level[id(module)] = modname", "        modmap.top_level[id(module)] = modname")],
  demo='''
import dill, io, os, sys, types, tempfile, shutil
d = tempfile.mkdtemp()
try:
    sys.path.insert(0, d)
    os.makedirs(os.path.join(d, 'vdemo_pkg', 'deep'))
    open(os.path.join(d, 'vdemo_pkg', '__init__.py'), 'w').close()
    open(os.path.join(d, 'vdemo_pkg', 'deep', '__init__.py'), 'w').close()
    m = types.ModuleType('vdemo_m')
    import importlib
    deep = importlib.import_module('vdemo_pkg.deep')
    del sys.modules['vdemo_pkg'].deep
    m.q = deep
    b = io.BytesIO()
    dill.dump_module(b, module=m, refimported=True)
    sys.modules['vdemo_pkg'].deep = deep
    b.seek(0)
    assert dill.load_module(b).q is deep
finally:
    shutil.rmtree(d)
''', needs='a submodule no module holds under a name', breaks='its package comes in its place'),
 dict(id='c08-closure-globals', property='C08', file='dill/detect.py',
  edits=[("        for obj in orig_func.__closure__ or {}:", "        for obj in (orig_func.__closure__ or ())[:1]:")],
  demo='''
import dill
ns = {'__name__': 'vdemo_ns'}
exec("""
k1 = 1
k2 = 2
def make():
    def a(): return k1
    def b(): return k2
    def f(): return a(), b()
    return f
f = make()
""", ns)
s = dill.dumps(ns['f'], recurse=True)
ns.clear()
assert dill.loads(s)() == (1, 2)
''', needs='a function with several closure variables, of which a later one uses a global', breaks='globals are missing in the copy'),
]
