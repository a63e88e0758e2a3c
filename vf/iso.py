"""Oracle: is `b` an isomorphic image of `a`?

A lockstep walk over two object graphs.  It is written against Python's own
data model only (no dill internals): what must be the very same object (things
reachable by import), what must be an equal but independent object, and which
sharing must be kept.  Identity is tracked in both directions for everything
that has observable identity, so lost sharing, accidental merging and aliasing
of the original are all differences.
"""
import abc, array, builtins, collections, dataclasses, datetime, decimal, dis, enum, fractions, functools
import io, operator, os, pathlib, re, struct, sys, threading, types, typing, uuid, weakref

MAXDIFF = 12
CellType = types.CellType
class Types(tuple):
    """types found by identity: a metaclass may define __eq__"""
    def __contains__(self, t):
        return any(t is x for x in self)


ATOM = Types((int, str, bytes, bool, type(None), type(Ellipsis), type(NotImplemented), complex, float))

BYREPR = Types((datetime.date, datetime.time, datetime.datetime, datetime.timedelta, datetime.timezone,
          decimal.Decimal, fractions.Fraction, uuid.UUID, range, pathlib.PurePosixPath, pathlib.PureWindowsPath,
          pathlib.PosixPath))


def fbits(f):
    return struct.pack('<d', f)


def resolve(modname, qual):
    """the object an import statement would find, or None (never imports)"""
    mod = sys.modules.get(modname)
    if mod is None:
        return None
    o = mod
    for p in qual.split('.'):
        if p == '<locals>':
            return None
        try:
            o = getattr(o, p)
        except AttributeError:
            return None
    return o


def importable(o, main_too=False):
    """does import machinery (module + qualified name) lead back to exactly o?"""
    m = getattr(o, '__module__', None)
    q = getattr(o, '__qualname__', None) or getattr(o, '__name__', None)
    if not isinstance(m, str) or not isinstance(q, str):
        return False
    if m == '__main__' and not main_too:
        return False
    return resolve(m, q) is o


def code_names(co, seen=None):
    """every global-ish name the code (and nested code) can touch"""
    out = set()
    for ins in dis.get_instructions(co):
        if ins.opname in ('LOAD_GLOBAL', 'LOAD_NAME', 'STORE_GLOBAL', 'DELETE_GLOBAL',
                          'LOAD_FROM_DICT_OR_GLOBALS', 'STORE_NAME'):
            out.add(ins.argval)
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            out |= code_names(c)
    return out


def read_names(co):
    out = set()
    for ins in dis.get_instructions(co):
        if ins.opname in ('LOAD_GLOBAL', 'LOAD_NAME', 'LOAD_FROM_DICT_OR_GLOBALS'):
            out.add(ins.argval)
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            out |= read_names(c)
    return out


def slot_names(cls):
    """(owner, public name, mangled attribute name) for every slot in the mro"""
    out = []
    for k in cls.__mro__:
        s = k.__dict__.get('__slots__', ())
        if isinstance(s, str):
            s = (s,)
        try:
            s = list(s)
        except TypeError:
            continue
        for n in s:
            if n in ('__dict__', '__weakref__'):
                continue
            m = n
            if n.startswith('__') and not n.endswith('__'):
                m = '_%s%s' % (k.__name__.lstrip('_'), n)
            out.append((k, n, m))
    return out


IGNORED_CLASS_KEYS = {'__dict__', '__weakref__', '_abc_impl', '__abstractmethods__', '__firstlineno__',
                      '__static_attributes__', '__slotnames__'}

CODE_FIELDS = ['co_argcount', 'co_posonlyargcount', 'co_kwonlyargcount', 'co_nlocals', 'co_stacksize',
               'co_flags', 'co_code', 'co_names', 'co_varnames', 'co_filename', 'co_name', 'co_qualname',
               'co_firstlineno', 'co_linetable', 'co_exceptiontable', 'co_freevars', 'co_cellvars']


class Iso:
    def __init__(self, byref=False, recurse=False, globals_mode='auto', main=None, ident=True,
                 checkglobals=True, aliasok=(), mine=None):
        self.mine = mine                # name of a module whose own functions and classes are stored by value
        self.byref = byref              # classes of __main__ go by reference
        self.recurse = recurse          # globals are a per-copy minimal dict
        self.diffs = []
        self.fwd = {}
        self.bwd = {}
        self.keep = []
        self.nodes = 0
        self.bytype = {}
        self.checkglobals = checkglobals
        self.same_ok = {id(o) for o in aliasok}
        self.main = main if main is not None else sys.modules['__main__']
        self.mainsame = True            # the copy was loaded into the same __main__
        self.ident = ident

    # -- helpers
    def d(self, path, msg):
        if len(self.diffs) < MAXDIFF:
            self.diffs.append('%s: %s' % (path or '<root>', msg))

    def isref(self, o):
        if o is dataclasses.MISSING or o is dataclasses._HAS_DEFAULT_FACTORY or o is dataclasses.KW_ONLY:
            return True
        if isinstance(o, types.ModuleType):
            return True
        if self.mine and isinstance(o, (type, types.FunctionType)) and getattr(o, '__module__', None) == self.mine:
            return False
        if isinstance(o, type):
            if importable(o) or o.__flags__ & (1 << 8) or getattr(o, '__module__', None) == 'builtins' and not o.__flags__ & (1 << 9):
                return True     # importable, or an immutable type of the interpreter or an extension
            return self.byref and importable(o, True)
        if isinstance(o, types.FunctionType):
            return importable(o)
        if isinstance(o, (typing.TypeVar, typing.ParamSpec)):
            return importable(o)
        if isinstance(o, (types.BuiltinFunctionType,)):
            return o.__self__ is None or isinstance(o.__self__, types.ModuleType)
        return False

    def moddict(self, dct):
        """dct is the namespace of an importable module (or of main)"""
        n = dct.get('__name__')
        if dct is self.main.__dict__:
            return True
        return isinstance(n, str) and n in sys.modules and getattr(sys.modules[n], '__dict__', None) is dct

    def pair(self, x, y, path, both=True):
        """identity bookkeeping; True if this pair was already examined"""
        f = self.fwd.get(id(x))
        if f is not None:
            if f is not y:
                self.d(path, 'one %s became two different objects' % type(x).__name__)
            return True
        if both:
            b = self.bwd.get(id(y))
            if b is not None and b is not x:
                self.d(path, 'two different %s became one object' % type(x).__name__)
                return True
            self.bwd[id(y)] = x
        self.fwd[id(x)] = y
        self.keep.append((x, y))
        return False

    # -- driver
    def compare(self, a, b):
        self.work = collections.deque([(a, b, '')])
        while self.work and len(self.diffs) < MAXDIFF:
            x, y, p = self.work.popleft()
            self.nodes += 1
            self.one(x, y, p)
        return self.diffs

    def push(self, x, y, p):
        self.work.append((x, y, p if len(p) < 160 else p[:60] + '...' + p[-90:]))

    def one(self, x, y, p):
        tx, ty = type(x), type(y)
        k = tx.__name__
        self.bytype[k] = self.bytype.get(k, 0) + 1
        if self.isref(x):
            if x is not y:
                self.d(p, 'expected the very same %s %r, got %r' % (k, x, y))
            return
        if isinstance(x, type):
            return self.cls(x, y, p)
        if isinstance(x, enum.Enum) and self.isref(tx):
            if x is not y:
                self.d(p, 'expected enum member %r, got %r' % (x, y))
            return
        if tx is not ty:
            # instances of by-value classes: the classes are compared as a pair
            if self.isref(tx) or self.isref(ty) or not isinstance(y, object):
                if tx.__name__ == ty.__name__ and not self.isref(tx):
                    self.push(tx, ty, p + '.__class__')
                    return self.inst(x, y, p)
                return self.d(p, 'type %r became %r (value %s)' % (tx, ty, srepr(y)))
            self.push(tx, ty, p + '.__class__')
            return self.inst(x, y, p)
        elif not self.isref(tx):
            # same class object although it is by-value: legal only for __main__ re-binding or shared class
            self.push(tx, ty, p + '.__class__')
        h = self.H.get(id(tx))
        if h is not None:
            return h(self, x, y, p)
        if isinstance(x, types.ModuleType):
            if x is not y:
                self.d(p, 'module identity')
            return
        if tx.__module__ == 'numpy' or tx.__module__.startswith('numpy'):
            return self.numpy(x, y, p)
        if tx is typing.ForwardRef:
            if x.__forward_arg__ != y.__forward_arg__:
                self.d(p, '%r became %r' % (x, y))
            return
        if tx.__module__ == 'typing' and hasattr(x, '__origin__') and hasattr(x, '__args__'):
            if self.pair(x, y, p):
                return
            for f in ('__origin__', '__args__'):
                self.push(getattr(x, f), getattr(y, f), p + '.' + f)
            if getattr(x, '_name', None) != getattr(y, '_name', None):
                self.d(p, '%r became %r' % (x, y))
            return
        return self.inst(x, y, p)

    # -- atoms
    def atom(self, x, y, p):
        if type(x) is float:
            if fbits(x) != fbits(y) and not (x != x and y != y):
                self.d(p, 'float %r became %r' % (x, y))
        elif type(x) is complex:
            for u, v in ((x.real, y.real), (x.imag, y.imag)):
                if fbits(u) != fbits(v) and not (u != u and v != v):
                    self.d(p, 'complex %r became %r' % (x, y))
        elif x is None or x is Ellipsis or x is NotImplemented or isinstance(x, bool):
            if x is not y:
                self.d(p, '%r became %r' % (x, y))
        elif x != y:
            self.d(p, '%s became %s' % (srepr(x), srepr(y)))

    def byrepr(self, x, y, p):
        if self.pair(x, y, p, both=False):
            return
        if repr(x) != repr(y) or (x != y and x == x):
            self.d(p, '%r became %r' % (x, y))

    # -- containers
    def seq(self, x, y, p):
        if self.pair(x, y, p, both=type(x) is not tuple):
            return
        if type(x) is tuple and len(x) == 0:
            pass
        elif x is y and type(x) is not tuple and id(x) not in self.same_ok:
            self.d(p, 'copy aliases the original %s' % type(x).__name__)
        if len(x) != len(y):
            return self.d(p, 'length %d became %d' % (len(x), len(y)))
        for i in range(len(x)):
            self.push(x[i], y[i], '%s[%d]' % (p, i))

    def tup(self, x, y, p):
        if not x:
            if y != ():
                self.d(p, 'empty tuple became %r' % (y,))
            return
        if self.pair(x, y, p, both=False):
            return
        if len(x) != len(y):
            return self.d(p, 'length %d became %d' % (len(x), len(y)))
        for i in range(len(x)):
            self.push(x[i], y[i], '%s[%d]' % (p, i))

    def dct(self, x, y, p):
        if self.moddict(x):
            if x is not y:
                self.d(p, 'module namespace %r was not kept by reference' % x.get('__name__'))
            return
        if self.pair(x, y, p):
            return
        if x is y and id(x) not in self.same_ok:
            self.d(p, 'copy aliases the original dict')
        self.items(x, y, p)

    def items(self, x, y, p, skip=()):
        kx = [k for k in dict.keys(x) if not (isinstance(k, str) and k in skip)]
        ky = [k for k in dict.keys(y) if not (isinstance(k, str) and k in skip)]
        if len(kx) != len(ky):
            a = set(map(srepr, kx))
            b = set(map(srepr, ky))
            return self.d(p, 'keys differ: lost %s, gained %s' % (sorted(a - b)[:6], sorted(b - a)[:6]))
        for i, (u, v) in enumerate(zip(kx, ky)):
            if type(u) is str and type(v) is str:
                if u != v:
                    return self.d(p, 'key %d: %r became %r (order or name)' % (i, u, v))
                q = '%s[%r]' % (p, u)
            else:
                self.push(u, v, '%s.key%d' % (p, i))
                q = '%s[key%d]' % (p, i)
            self.push(dict.__getitem__(x, u), dict.__getitem__(y, v), q)

    def sets(self, x, y, p):
        if self.pair(x, y, p, both=type(x) is set):
            return
        if type(x) is set and x is y:
            self.d(p, 'copy aliases the original set')
        self.setitems(x, y, p)

    def setitems(self, x, y, p):
        if len(x) != len(y):
            return self.d(p, 'set size %d became %d' % (len(x), len(y)))
        a = sorted(set.__iter__(x) if isinstance(x, set) else frozenset.__iter__(x), key=setkey)
        b = sorted(set.__iter__(y) if isinstance(y, set) else frozenset.__iter__(y), key=setkey)
        for u, v in zip(a, b):
            self.push(u, v, p + '{}')
        for v in b:
            try:
                ok = v in y
            except Exception:
                continue
            if not ok:
                self.d(p, 'set element not found by lookup in the copy')

    def bytearr(self, x, y, p):
        if self.pair(x, y, p):
            return
        if x is y:
            self.d(p, 'copy aliases the original bytearray')
        if x != y:
            self.d(p, '%s became %s' % (srepr(x), srepr(y)))

    # -- code
    def code(self, x, y, p):
        for f in CODE_FIELDS:
            if hasattr(x, f) and getattr(x, f) != getattr(y, f):
                self.d(p, 'code field %s differs: %s -> %s' % (f, srepr(getattr(x, f)), srepr(getattr(y, f))))
        if len(x.co_consts) != len(y.co_consts):
            return self.d(p, 'co_consts length')
        for i, (u, v) in enumerate(zip(x.co_consts, y.co_consts)):
            if type(u) is not type(v):
                self.d(p, 'const %d type %s -> %s' % (i, type(u), type(v)))
            else:
                self.push(u, v, '%s.co_consts[%d]' % (p, i))
        if list(x.co_lines()) != list(y.co_lines()):
            self.d(p, 'line table')
        if hasattr(x, 'co_positions') and list(x.co_positions()) != list(y.co_positions()):
            self.d(p, 'position table')

    # -- functions
    def func(self, x, y, p):
        if self.pair(x, y, p):
            return
        if x is y:
            return self.d(p, 'function %s was not copied' % x.__qualname__)
        for f in ('__name__', '__qualname__', '__module__'):
            if getattr(x, f) != getattr(y, f):
                self.d(p, 'function %s: %s %r became %r' % (x.__name__, f, getattr(x, f), getattr(y, f)))
        if type(x.__doc__) is not type(y.__doc__) or x.__doc__ != y.__doc__:
            self.d(p, 'function %s: __doc__ %s became %s' % (x.__name__, srepr(x.__doc__), srepr(y.__doc__)))
        self.push(x.__code__, y.__code__, p + '.__code__')
        for f in ('__defaults__', '__kwdefaults__', '__annotations__', '__dict__'):
            self.push(getattr(x, f), getattr(y, f), p + '.' + f)
        cx, cy = x.__closure__, y.__closure__
        if (cx is None) != (cy is None) or (cx is not None and len(cx) != len(cy)):
            self.d(p, 'closure shape')
        elif cx is not None:
            for i, (u, v) in enumerate(zip(cx, cy)):
                self.push(u, v, '%s.<%s>' % (p, x.__code__.co_freevars[i]))
        if self.checkglobals:
            self.globs(x, y, p)

    def globs(self, x, y, p):
        gx, gy = x.__globals__, y.__globals__
        if '__builtins__' not in gy:
            self.d(p, 'function %s: globals have no __builtins__' % x.__name__)
        if not self.recurse:
            if gx is self.main.__dict__ or (isinstance(x.__module__, str) and self.moddict(gx)
                                            and gx.get('__name__') == x.__module__):
                if gx is not gy:
                    self.d(p, 'function %s of module %s lost its module globals' % (x.__name__, x.__module__))
                return
        elif gx is gy:
            return
        for n in sorted(read_names(x.__code__)):
            if n in gx:
                if n not in gy:
                    self.d(p, 'function %s: global %r missing in the copy' % (x.__name__, n))
                else:
                    self.push(gx[n], gy[n], '%s:%s' % (p, n))

    def cell(self, x, y, p):
        if self.pair(x, y, p):
            return
        if x is y:
            self.d(p, 'copy aliases the original closure cell')
        try:
            u = x.cell_contents
            ex = False
        except ValueError:
            ex = True
        try:
            v = y.cell_contents
            ey = False
        except ValueError:
            ey = True
        if ex or ey:
            if ex != ey:
                self.d(p, 'cell %s became %s' % ('empty' if ex else 'full', 'empty' if ey else 'full'))
            return
        self.push(u, v, p + '.cell')

    def method(self, x, y, p):
        if self.pair(x, y, p, both=False):
            return
        self.push(x.__func__, y.__func__, p + '.__func__')
        self.push(x.__self__, y.__self__, p + '.__self__')

    def bmethod(self, x, y, p):
        if self.pair(x, y, p, both=False):
            return
        if x.__name__ != y.__name__:
            self.d(p, 'builtin method name %s -> %s' % (x.__name__, y.__name__))
        if x.__self__ is None or isinstance(x.__self__, types.ModuleType):
            if x is not y:
                self.d(p, 'expected same builtin %r, got %r' % (x, y))
            return
        self.push(x.__self__, y.__self__, p + '.__self__')

    def wrapdesc(self, x, y, p):
        if self.pair(x, y, p, both=False):
            return
        if x.__name__ != y.__name__:
            self.d(p, 'descriptor name %s -> %s' % (x.__name__, y.__name__))
        self.push(x.__objclass__, y.__objclass__, p + '.__objclass__')
        if self.isref(x.__objclass__) and x is not y:
            self.d(p, 'expected the same descriptor %r, got %r' % (x, y))

    def mwrap(self, x, y, p):
        if self.pair(x, y, p, both=False):
            return
        if x.__name__ != y.__name__:
            self.d(p, 'method-wrapper name')
        self.push(x.__self__, y.__self__, p + '.__self__')

    def prop(self, x, y, p):
        if self.pair(x, y, p):
            return
        for f in ('fget', 'fset', 'fdel', '__doc__'):
            self.push(getattr(x, f), getattr(y, f), '%s.%s' % (p, f))

    def cm(self, x, y, p):
        if self.pair(x, y, p):
            return
        self.push(x.__func__, y.__func__, p + '.__func__')
        self.extras(x, y, p)

    def partial(self, x, y, p):
        if self.pair(x, y, p):
            return
        self.push(x.func, y.func, p + '.func')
        self.push(x.args, y.args, p + '.args')
        self.push(x.keywords, y.keywords, p + '.keywords')
        self.push(x.__dict__, y.__dict__, p + '.__dict__')

    def slc(self, x, y, p):
        if self.pair(x, y, p, both=False):
            return
        for f in ('start', 'stop', 'step'):
            self.push(getattr(x, f), getattr(y, f), '%s.%s' % (p, f))

    def red(self, x, y, p):
        if self.pair(x, y, p, both=False):
            return
        self.push(x.__reduce__(), y.__reduce__(), p + '.__reduce__()')

    def mproxy(self, x, y, p):
        if self.pair(x, y, p):
            return
        self.push(behind(x), behind(y), p + '.<mapping>')

    def wref(self, x, y, p):
        if self.pair(x, y, p):
            return
        u, v = x(), y()
        if (u is None) != (v is None):
            return self.d(p, 'weakref %s became %s' % ('dead' if u is None else 'live', 'dead' if v is None else 'live'))
        if u is not None:
            self.push(u, v, p + '()')

    def view(self, x, y, p):
        self.push(behind(x.mapping), behind(y.mapping), p + '.mapping')

    def lock(self, x, y, p):
        if self.pair(x, y, p):
            return
        if x.locked() != y.locked():
            self.d(p, 'lock state %s became %s' % (x.locked(), y.locked()))

    def rlock(self, x, y, p):
        if self.pair(x, y, p):
            return
        rx, ry = re.sub(r'at 0x\w+', '', repr(x)), re.sub(r'at 0x\w+', '', repr(y))
        if rx != ry:
            self.d(p, 'rlock %s became %s' % (rx, ry))

    def lru(self, x, y, p):
        if self.pair(x, y, p):
            return
        if x.cache_parameters() != y.cache_parameters():
            self.d(p, 'lru_cache parameters %s -> %s' % (x.cache_parameters(), y.cache_parameters()))
        self.push(x.__wrapped__, y.__wrapped__, p + '.__wrapped__')
        self.extras(x, y, p)

    def extras(self, x, y, p):
        """the attributes of a wrapper"""
        f, g = [getattr(o, '__func__', None) or o.__wrapped__ for o in (x, y)]
        a, b = [{k: v for k, v in o.__dict__.items() if k not in ('__wrapped__', 'cache_parameters', '__dict__', '__weakref__')} for o in (x, y)]

        def own(d, f, k):       # not just what the wrapped one has
            return k in d and d[k] is not getattr(f, '__dict__', {}).get(k, self) and d[k] is not getattr(f, k, self)
        for k in sorted(set(a) | set(b)):
            if k not in b:
                self.d(p, 'attribute %s was lost' % k)
            elif own(a, f, k) or own(b, g, k):
                if k not in a:
                    self.d(p, 'attribute %s appeared' % k)
                else:
                    self.push(a[k], b[k], p + '.' + k)

    def sup(self, x, y, p):
        if self.pair(x, y, p):
            return
        self.push(x.__thisclass__, y.__thisclass__, p + '.__thisclass__')
        self.push(x.__self__, y.__self__, p + '.__self__')

    def galias(self, x, y, p):
        self.push(x.__origin__, y.__origin__, p + '.__origin__')
        self.push(tuple(x.__args__), tuple(y.__args__), p + '.__args__')

    def regex(self, x, y, p):
        if x != y or x.flags != y.flags or x.pattern != y.pattern:
            self.d(p, 'pattern %r became %r' % (x, y))

    def arr(self, x, y, p):
        if self.pair(x, y, p):
            return
        if x.typecode != y.typecode or x.tobytes() != y.tobytes():
            self.d(p, 'array %r became %r' % (x, y))

    def strio(self, x, y, p):
        if self.pair(x, y, p):
            return
        if x.closed != y.closed:
            return self.d(p, 'io closed state')
        if not x.closed and (x.getvalue() != y.getvalue() or x.tell() != y.tell()):
            self.d(p, '%s value/position (%r,%r) became (%r,%r)' % (type(x).__name__, x.getvalue(), x.tell(),
                                                                   y.getvalue(), y.tell()))

    def numpy(self, x, y, p):
        import numpy as np
        if isinstance(x, np.ndarray):
            if self.pair(x, y, p):
                return
            if x is np.ma.masked and x is y:
                return
            if x is y or (x.size and np.shares_memory(x, y)):
                self.d(p, 'copied array shares memory')
            if x.dtype != y.dtype or x.shape != y.shape:
                return self.d(p, 'array %s%s became %s%s' % (x.dtype, x.shape, y.dtype, y.shape))
            if x.dtype.hasobject:
                for i, (u, v) in enumerate(zip(x.ravel().tolist(), y.ravel().tolist())):
                    self.push(u, v, '%s[%d]' % (p, i))
            elif np.ndarray.tobytes(np.asarray(x)) != np.ndarray.tobytes(np.asarray(y)):
                self.d(p, 'array contents')
            if x.flags['F_CONTIGUOUS'] and not x.flags['C_CONTIGUOUS'] and not y.flags['F_CONTIGUOUS']:
                self.d(p, 'array order')
            dx = getattr(x, '__dict__', None)
            if dx is not None:
                self.push(dx, getattr(y, '__dict__', None), p + '.__dict__')
            if isinstance(x, np.ma.MaskedArray):
                self.push(np.asarray(x.mask), np.asarray(y.mask), p + '.mask')
        elif isinstance(x, np.ufunc):
            if x is not y:
                self.d(p, 'ufunc identity')
        elif isinstance(x, np.dtype):
            if x != y or repr(x) != repr(y):
                self.d(p, 'dtype %r became %r' % (x, y))
        elif isinstance(x, np.generic):
            if x.tobytes() != y.tobytes():
                self.d(p, 'scalar %r became %r' % (x, y))
        elif isinstance(x, np.random.RandomState) or type(x).__name__ == 'Generator':
            pass
        else:
            self.inst(x, y, p)

    # -- classes
    def cls(self, x, y, p):
        if not isinstance(y, type):
            return self.d(p, 'class %r became %s' % (x, srepr(y)))
        if self.pair(x, y, p):
            return
        if x is y:
            if not self.ident:
                return
            if x.__bases__ == (tuple,) and hasattr(x, '_fields') and importable(x, True):
                return      # a namedtuple is looked up before it is made anew
            return self.d(p, 'class %s was not copied' % x.__qualname__)
        for f in ('__name__', '__qualname__', '__module__'):
            if getattr(x, f, None) != getattr(y, f, None):
                self.d(p, 'class %s: %s %r became %r' % (x.__name__, f, getattr(x, f, None), getattr(y, f, None)))
        self.push(type(x), type(y), p + '.__metaclass__')
        bx, by = x.__bases__, y.__bases__
        if len(bx) != len(by):
            return self.d(p, 'class %s: bases %r became %r' % (x.__name__, bx, by))
        for i, (u, v) in enumerate(zip(bx, by)):
            self.push(u, v, '%s.__bases__[%d]' % (p, i))
        if [k.__name__ for k in x.__mro__] != [k.__name__ for k in y.__mro__]:
            self.d(p, 'class %s: mro %s became %s' % (x.__name__, x.__mro__, y.__mro__))
        ax = getattr(x, '__abstractmethods__', frozenset()) if isinstance(x, abc.ABCMeta) else frozenset()
        ay = getattr(y, '__abstractmethods__', frozenset()) if isinstance(y, abc.ABCMeta) else frozenset()
        if set(ax) != set(ay):
            self.d(p, 'class %s: abstract methods %s became %s' % (x.__name__, sorted(ax), sorted(ay)))
        dx, dy = x.__dict__, y.__dict__
        skip = set(IGNORED_CLASS_KEYS)
        sl = dx.get('__slots__')
        if sl is not None:
            # slot members are rebuilt; their presence is what counts
            for k, n, m in slot_names(x):
                if k is x:
                    skip.add(m)
                    if m not in dy or type(dx.get(m)) is not type(dy.get(m)):
                        self.d(p, 'class %s: slot %s missing or not a slot' % (x.__name__, m))
            if ('__dict__' in dx) != ('__dict__' in dy) or ('__weakref__' in dx) != ('__weakref__' in dy):
                self.d(p, 'class %s: slots changed __dict__/__weakref__ layout' % x.__name__)
        if issubclass(x, tuple) and hasattr(x, '_fields') and x.__bases__ == (tuple,):
            # namedtuple: generated members; compare what the user wrote
            if x._fields != y._fields or x._field_defaults != y._field_defaults:
                self.d(p, 'namedtuple %s fields/defaults' % x.__name__)
            if x.__doc__ != y.__doc__:
                pass
            return
        kx = [k for k in dx if k not in skip]
        ky = [k for k in dy if k not in skip]
        for k in set(kx) - set(ky):
            # what the mro supplies anyway need not be repeated
            for b in x.__mro__[1:]:
                if k in b.__dict__:
                    if b.__dict__[k] is dx[k]:
                        kx.remove(k)
                    break
        if set(kx) != set(ky):
            return self.d(p, 'class %s: attributes lost %s gained %s' % (
                x.__name__, sorted(set(kx) - set(ky)), sorted(set(ky) - set(kx))))
        # definition order of the user's own names
        ox = [k for k in kx if not k.startswith('__')]
        oy = [k for k in ky if not k.startswith('__')]
        if ox != oy:
            self.d(p, 'class %s: attribute order %s became %s' % (x.__name__, ox, oy))
        for k in kx:
            u, v = dx[k], dy[k]
            if k in ('__dataclass_fields__',):
                if list(u) != list(v):
                    self.d(p, 'dataclass fields')
                for f in u:
                    fx, fy = u[f], v.get(f)
                    if fy is None:
                        continue
                    for a in ('name', 'init', 'repr', 'compare', 'hash', 'kw_only'):
                        if getattr(fx, a, None) != getattr(fy, a, None):
                            self.d(p, 'dataclass field %s.%s' % (f, a))
                continue
            if k == '__slots__':
                if tuple([u] if isinstance(u, str) else u) != tuple([v] if isinstance(v, str) else v):
                    self.d(p, '__slots__')
                continue
            self.push(u, v, '%s.%s' % (p, k))

    # -- instances
    def inst(self, x, y, p):
        if self.pair(x, y, p):
            return
        tx = type(x)
        if x is y and id(x) not in self.same_ok:
            try:
                if isinstance(x.__reduce_ex__(4), str):
                    return      # says itself that it is a global
            except Exception:
                pass
            return self.d(p, 'copy aliases the original %s instance' % tx.__name__)
        if isinstance(x, BaseException):
            if len(x.args) != len(y.args):
                return self.d(p, 'exception args %r became %r' % (x.args, y.args))
            for i, (u, v) in enumerate(zip(x.args, y.args)):
                self.push(u, v, '%s.args[%d]' % (p, i))
        elif isinstance(x, collections.OrderedDict):
            self.items(x, y, p)
            if list(x.keys()) and [setkey(k) for k in collections.OrderedDict.keys(x)] != \
                    [setkey(k) for k in collections.OrderedDict.keys(y)]:
                self.d(p, 'OrderedDict iteration order')
        elif isinstance(x, dict):
            self.items(x, y, p)
            if isinstance(x, collections.defaultdict):
                self.push(x.default_factory, y.default_factory, p + '.default_factory')
        elif isinstance(x, collections.deque):
            if x.maxlen != y.maxlen:
                self.d(p, 'deque maxlen')
            a, b = list(collections.deque.__iter__(x)), list(collections.deque.__iter__(y))
            if len(a) != len(b):
                return self.d(p, 'deque length')
            for i, (u, v) in enumerate(zip(a, b)):
                self.push(u, v, '%s[%d]' % (p, i))
        elif isinstance(x, (list, tuple)):
            it = list if isinstance(x, list) else tuple
            if it.__len__(x) != it.__len__(y):
                return self.d(p, 'length %d became %d' % (it.__len__(x), it.__len__(y)))
            for i in range(it.__len__(x)):
                self.push(it.__getitem__(x, i), it.__getitem__(y, i), '%s[%d]' % (p, i))
        elif isinstance(x, (set, frozenset)):
            self.setitems(x, y, p)
        elif isinstance(x, int) and not isinstance(x, enum.Enum):
            if int(x) != int(y):
                self.d(p, 'int subclass value')
        elif isinstance(x, float):
            if fbits(float(x)) != fbits(float(y)) and x == x:
                self.d(p, 'float subclass value')
        elif isinstance(x, complex):
            if complex(x) != complex(y):
                self.d(p, 'complex subclass value')
        elif isinstance(x, str):
            if str.__str__(x) != str.__str__(y):
                self.d(p, 'str subclass value')
        elif isinstance(x, (bytes, bytearray)):
            if bytes(x) != bytes(y):
                self.d(p, 'bytes subclass value')
        try:
            dx = object.__getattribute__(x, '__dict__')
        except AttributeError:
            dx = None
        try:
            dy = object.__getattribute__(y, '__dict__')
        except AttributeError:
            dy = None
        if (dx is None) != (dy is None):
            self.d(p, '%s instance: __dict__ %s' % (tx.__name__, 'lost' if dy is None else 'gained'))
        elif dx is not None and isinstance(dx, dict):
            if not self.pair(dx, dy, p + '.__dict__'):
                self.items(dx, dy, p + '.__dict__')
        ty = type(y)
        for k, n, m in slot_names(tx):
            desc = k.__dict__.get(m)
            if not isinstance(desc, types.MemberDescriptorType):
                continue
            # the copy's class has its own member of the same mangled name
            dk = None
            i = tx.__mro__.index(k)
            if i < len(ty.__mro__):
                dk = ty.__mro__[i].__dict__.get(m)
            try:
                u = desc.__get__(x, tx)
                has = True
            except AttributeError:
                has = False
            try:
                v = dk.__get__(y, ty) if dk is not None else object.__getattribute__(y, m)
                hasy = True
            except (AttributeError, TypeError):
                hasy = False
            if has != hasy:
                self.d(p, '%s instance: slot %s %s' % (tx.__name__, m, 'lost' if has else 'gained'))
            elif has:
                self.push(u, v, '%s.%s' % (p, m))

    H = {}


H = Iso.H
for _t in ATOM:
    H[_t] = Iso.atom
for _t in BYREPR:
    H[_t] = Iso.byrepr
H[list] = Iso.seq
H[tuple] = Iso.tup
H[dict] = Iso.dct
H[set] = Iso.sets
H[frozenset] = Iso.sets
H[bytearray] = Iso.bytearr
H[types.CodeType] = Iso.code
H[types.FunctionType] = Iso.func
H[CellType] = Iso.cell
H[types.MethodType] = Iso.method
H[types.BuiltinMethodType] = Iso.bmethod
H[types.MethodWrapperType] = Iso.mwrap
for _t in (types.WrapperDescriptorType, types.MethodDescriptorType, types.GetSetDescriptorType,
           types.MemberDescriptorType, types.ClassMethodDescriptorType):
    H[_t] = Iso.wrapdesc
H[property] = Iso.prop
H[abc.abstractproperty] = Iso.prop
for _t in (staticmethod, classmethod, abc.abstractstaticmethod, abc.abstractclassmethod):
    H[_t] = Iso.cm
H[functools.partial] = Iso.partial
H[slice] = Iso.slc
for _t in (operator.itemgetter, operator.attrgetter, operator.methodcaller):
    H[_t] = Iso.red
H[types.MappingProxyType] = Iso.mproxy
H[weakref.ref] = Iso.wref
for _v in (dict, collections.OrderedDict):
    for _m in ('keys', 'values', 'items'):
        H[type(getattr(_v(), _m)())] = Iso.view
H[type(threading.Lock())] = Iso.lock
H[type(threading.RLock())] = Iso.rlock
H[type(functools.lru_cache(lambda: 0))] = Iso.lru
H[super] = Iso.sup
H[types.GenericAlias] = Iso.galias
H[type(typing.List[int])] = Iso.galias
H[re.Pattern] = Iso.regex
H[array.array] = Iso.arr
H[io.BytesIO] = Iso.strio
H[io.StringIO] = Iso.strio
Iso.H = {id(_t): _h for _t, _h in H.items()}


def leads_back(cls):
    """can cls be reached from its own definition without passing through a closure cell?"""
    import gc
    helper = Iso()
    seen, keep = set(), []

    def parts(o):
        if isinstance(o, type):
            own = [v for k, v in o.__dict__.items() if k not in IGNORED_CLASS_KEYS and not isinstance(v, types.MemberDescriptorType)]
            return own + list(o.__bases__) + [type(o)]
        return gc.get_referents(o)
    stack = parts(cls)
    while stack:
        o = stack.pop()
        if o is cls:
            return True
        if id(o) in seen or isinstance(o, (types.CellType, types.CodeType)) or helper.isref(o) or isinstance(o, dict) and helper.moddict(o):
            continue
        seen.add(id(o))
        keep.append(o)
        stack += parts(o)
    return False


def behind(mp):
    """the mapping behind a mappingproxy (CPython: its only gc referent)"""
    import gc
    while type(mp) is types.MappingProxyType:
        mp, = gc.get_referents(mp)
    return mp


def srepr(o, n=120):
    try:
        s = repr(o)
    except BaseException as e:
        s = '<%s with failing repr %s>' % (type(o).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + '...'


def setkey(o):
    """a total order over set members / dict keys that survives copying"""
    return canon(o, 3)


ADDR = re.compile(r'0x[0-9a-fA-F]{6,}')


def canon(o, depth=12, _memo=None):
    """deterministic description of a value: equal strings <=> same observable value.
    Addresses never appear; shared and cyclic references are numbered."""
    memo = {} if _memo is None else _memo
    return _canon(o, depth, memo)


def _canon(o, depth, memo):
    t = type(o)
    if t in ATOM and t is not float and t is not complex:
        return '%s:%r' % (t.__name__, o)
    if t is float:
        return 'float:' + ('nan' if o != o else o.hex())
    if t is complex:
        return 'complex:%s,%s' % (o.real.hex(), o.imag.hex())
    if depth <= 0:
        return '<%s...>' % t.__name__
    if isinstance(o, types.ModuleType):
        return 'module:' + o.__name__
    if isinstance(o, type):
        return 'class:%s.%s' % (o.__module__, o.__qualname__)
    if id(o) in memo:
        return '#%d' % memo[id(o)][0]
    if t is not tuple and t is not frozenset:
        memo[id(o)] = (len(memo), o)
    d = depth - 1
    if isinstance(o, (types.FunctionType,)):
        return 'function:%s.%s' % (o.__module__, o.__qualname__)
    if isinstance(o, types.BuiltinFunctionType):
        if o.__self__ is None or isinstance(o.__self__, types.ModuleType):
            return 'builtin:%s.%s' % (o.__module__, o.__qualname__)
        return 'bmethod:%s(%s)' % (o.__name__, _canon(o.__self__, d, memo))
    if isinstance(o, types.MethodType):
        return 'method:%s(%s)' % (_canon(o.__func__, d, memo), _canon(o.__self__, d, memo))
    if t is types.CodeType:
        return 'code:%s' % o.co_qualname
    if t is types.CellType:
        try:
            return 'cell(%s)' % _canon(o.cell_contents, d, memo)
        except ValueError:
            return 'cell(empty)'
    if isinstance(o, enum.Enum):
        return 'enum:%s.%s' % (t.__qualname__, o.name)
    if isinstance(o, types.MappingProxyType):
        return 'mappingproxy' + _canon(dict(o), d, memo)
    body = []
    if isinstance(o, BaseException):
        body.append('args=' + _canon(tuple(map(_scrub, o.args)), d, memo))
    elif isinstance(o, dict):
        body.append('{%s}' % ','.join('%s=>%s' % (_canon(k, d, memo), _canon(dict.__getitem__(o, k), d, memo))
                                      for k in dict.keys(o)))
    elif isinstance(o, (list, tuple, collections.deque)):
        base = next(b for b in (list, tuple, collections.deque) if isinstance(o, b))
        body.append('[%s]' % ','.join(_canon(v, d, memo) for v in base.__iter__(o)))
        if isinstance(o, collections.deque):
            body.append('maxlen=%r' % o.maxlen)
    elif isinstance(o, (set, frozenset)):
        base = set if isinstance(o, set) else frozenset
        body.append('{%s}' % ','.join(sorted(_canon(v, d, dict(memo)) for v in base.__iter__(o))))
    elif isinstance(o, (int, float, str, bytes, bytearray, complex)):
        base = next(b for b in (int, float, str, bytes, bytearray, complex) if isinstance(o, b))
        body.append(base.__repr__(o))
    elif isinstance(o, functools.partial):
        body.append('%s %s %s' % (_canon(o.func, d, memo), _canon(o.args, d, memo), _canon(o.keywords, d, memo)))
    elif isinstance(o, weakref.ref):
        body.append(_canon(o(), d, memo))
    elif t.__module__ in ('datetime', 'decimal', 'fractions', 'uuid', 'pathlib', 're', 'array', 'builtins', 'numpy',
                          'typing', 'types', 'operator', 'itertools', 'collections'):
        body.append(ADDR.sub('0x', srepr(o, 400)))
    try:
        dd = object.__getattribute__(o, '__dict__')
    except AttributeError:
        dd = None
    if isinstance(dd, dict) and dd and not isinstance(o, functools.partial):
        body.append('dict=' + _canon(dict(dd), d, memo))
    for k, n, m in () if t in BYREPR else slot_names(t):
        desc = k.__dict__.get(m)
        if isinstance(desc, types.MemberDescriptorType):
            try:
                body.append('%s=%s' % (m, _canon(desc.__get__(o, t), d, memo)))
            except AttributeError:
                body.append('%s unset' % m)
    return '%s(%s)' % (t.__qualname__, ' '.join(body))


def _scrub(v):
    return ADDR.sub('0x', v) if isinstance(v, str) else v


def outcome(fn, *a, **k):
    """canonical result of a call, exceptions included"""
    try:
        r = fn(*a, **k)
    except RecursionError:
        return 'raises RecursionError'
    except Exception as e:
        return 'raises ' + canon(e)
    return canon(r)


def compare(a, b, **k):
    iso = Iso(**k)
    iso.compare(a, b)
    return iso
