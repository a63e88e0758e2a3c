BUGS = [
 dict(id='c01-save-slice-memo', property='C01', file='dill/_dill.py',
  edits=[("pickler.save_reduce(slice, (obj.start, obj.stop, obj.step), obj=obj)", "pickler.save_reduce(slice, (obj.start, obj.stop, obj.step))")],
  demo='''
import dill
s = slice([1], 2)
c = dill.copy([s, s, {'k': s}])
assert c[0] is c[1] is c[2]['k'], 'one slice became several'
''', needs='the same slice object referenced more than once in one graph', breaks='slices are not memoized: sharing among several references to one slice is lost'),
 dict(id='c03-kwdefaults-falsy', property='C03', file='dill/_dill.py',
  edits=[("            if fattr is not None:\n                state_dict[fattrname] = fattr", "            if fattr:\n                state_dict[fattrname] = fattr")],
  demo='''
import dill
def f(x):
    "doc"
    return x
f.__module__ = 'elsewhere'
f.__doc__ = ''
g = dill.copy(f)
assert g.__doc__ == '', repr(g.__doc__)
''', needs='a function stored by value whose __doc__ was set to the empty string after definition', breaks='an emptied docstring comes back as the one of the code object'),
 dict(id='c04-cell-postproc-order', property='C04', file='dill/_dill.py',
  edits=[("            postproc = next(iter(pickler._postproc.values()), None)\n", "            postproc = next(reversed(pickler._postproc.values()), None)\n")],
  demo='''
import dill
dill.settings['recurse'] = False
def make():
    class A:
        def get(self): return B
    class B(A):
        def up(self): return A
        def get(self): return super().get()
        f = lambda self: (A, B)
    return A, B
A, B = make()
A.__module__ = B.__module__ = 'nowhere'
for x in ([B], [A], [A, B], [B.f, A.get], {'k': [A.get, B]}):
    c = dill.loads(dill.dumps(x))
def outer():
    def f(n): return g(n - 1) if n else 'f'
    def g(n): return h(n - 1) if n else 'g'
    def h(n): return f(n - 1) if n else 'h'
    d = {'f': f, 'g': [g], 'h': (h,)}
    def k(): return d
    f.d = g.d = d
    return f, g, h, k
fs = outer()
for i in range(4):
    for order in ((0, 1, 2, 3), (3, 2, 1, 0), (1, 3), (2, 0)):
        c = dill.loads(dill.dumps([fs[j] for j in order]))
        for j, g in zip(order, c):
            if j < 3:
                assert [g(n) for n in range(6)] == [fs[j](n) for n in range(6)]
''', needs='mutually recursive closures dumped through an inner member', breaks='the cell is filled at the innermost instead of the outermost pending object, so cyclic closures come back unset or do not load'),
 dict(id='c05-slots-tuple-only', property='C05', file='dill/_dill.py',
  edits=[("            if type(slots) == str:", "            if type(slots) is str and not slots.startswith('_'):")],
  demo='''
import dill
class K:
    __slots__ = '_x'
o = K(); o._x = 5
c = dill.copy([K, o])
c[1]._x = 6
assert c[1]._x == 6
''', needs="a class with __slots__ given as one string that starts with an underscore", breaks='the single slot name is taken apart into characters and the slot descriptor of the old class is copied over'),
 dict(id='c06-linetable-swap', property='C06', file='dill/_dill.py',
  edits=[("                obj.co_varnames, obj.co_filename, obj.co_name, obj.co_qualname,\n                obj.co_firstlineno, obj.co_linetable, obj.co_exceptiontable,", "                obj.co_varnames, obj.co_filename, obj.co_name, obj.co_qualname.rpartition('.<locals>.')[2] or obj.co_name,\n                obj.co_firstlineno, obj.co_linetable, obj.co_exceptiontable,")],
  demo='''
import dill
def outer():
    def inner(): return 1
    return inner
c = outer().__code__
d = dill.copy(c)
assert d.co_qualname == c.co_qualname, d.co_qualname
''', needs='code objects of nested functions, looking at co_qualname', breaks='the qualified name of nested code is cut'),
 dict(id='c07-locate-eq', property='C07', file='dill/_dill.py',
  edits=[("            found, _ = _getattribute(module, obj.__qualname__)\n            return found is obj\n", "            found, _ = _getattribute(module, obj.__qualname__)\n            return found is obj or getattr(found, '__wrapped__', None) is obj\n")],
  demo='''
import dill, sys, types, functools
m = types.ModuleType('mod_vf'); sys.modules['mod_vf'] = m
exec("""
import functools
def deco(f):
    @functools.wraps(f)
    def w(*a): return ('wrapped', f(*a))
    return w
@deco
def fun(x): return x
""", m.__dict__)
raw = m.fun.__wrapped__
assert dill.copy(raw)(1) == 1, dill.copy(raw)(1)
''', needs='dumping the undecorated function behind a decorated module-level one', breaks='the undecorated function is stored by a name that leads to the decorated one'),
 dict(id='c10-lru-typed', property='C10', file='dill/_dill.py',
  edits=[("        if args != lru_cache.__defaults__:", "        if args[0] != lru_cache.__defaults__[0]:")],
  demo='''
import dill, functools
f = functools.lru_cache(maxsize=128, typed=True)(lambda x: x)
assert dill.copy(f).cache_parameters() == {'maxsize': 128, 'typed': True}
''', needs='an lru_cache with the default size and typed=True', breaks='typed is lost'),
 dict(id='c09-dill-global', property='C09', file='dill/_dill.py',
  edits=[("    if \"__builtins__\" not in func.__globals__:\n        func.__globals__[\"__builtins__\"] = globals()[\"__builtins__\"]", "    if \"__builtins__\" not in func.__globals__ and fglobals:\n        func.__globals__[\"__builtins__\"] = globals()[\"__builtins__\"]")],
  demo='''
import dill, types
from dill import _dill
f = _dill._create_function((lambda x: len(x)).__code__, {}, 'f')
assert f([1]) == 1
''', needs='a function created with empty globals', breaks='functions created with empty globals have no builtins'),
]
