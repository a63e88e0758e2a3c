"""Objects of the interpreter's odd types, with their parts and with what can be done to them.

Every builder takes a Random and returns (root, probes): root is a list whose
first element is the odd object and whose others are its parts (so sharing can
be seen); a probe takes the root and acts on it.
"""
import abc, array, builtins, collections, contextlib, contextvars, copyreg, dataclasses, datetime, decimal, enum, functools, inspect, io, itertools
import json, math, operator, queue, random, re, string, struct, threading, types, typing, unittest.mock, weakref, zlib
import numpy as np
from . import fx

B = {}


def b(f):
    B[f.__name__] = f
    return f


def val(r, d=2):
    k = r.randrange(9 if d else 5)
    if k == 0: return r.randrange(-5, 300)
    if k == 1: return r.choice(['', 'a', 'text', '\u00e9'])
    if k == 2: return r.choice([None, True, 1.5, b'x', 2j])
    if k == 3: return fx.Plain(v=r.randrange(5))
    if k == 4: return (r.randrange(5), 'z')
    if k == 5: return [val(r, d - 1) for _ in range(r.randrange(4))]
    if k == 6: return {r.choice('abc'): val(r, d - 1) for _ in range(r.randrange(3))}
    if k == 7: return lambda x=1, y=r.randrange(9): (x, y)
    return {1, r.randrange(5)}


def many(*fs):
    out = []
    for f in fs:
        try:
            out.append(f())
        except Exception as e:
            out.append((type(e).__name__, str(e)[:40] if not isinstance(e, (TypeError, AttributeError)) else ''))
    return out


def put(d, k, v):
    d[k] = v


def mapping(r):
    k = r.randrange(6)
    items = [(x, val(r)) for x in r.sample(['a', 'b', 'c', 'd', 1, (2, 3)], r.randrange(1, 5))]
    d = [dict, collections.OrderedDict, fx.DictSub, lambda i: collections.defaultdict(list, i), fx.OrdSub, collections.Counter][k]
    return d(items) if d is not collections.Counter else d({x: i for i, (x, _) in enumerate(items)})


def keyof(d):
    return next(iter(d), None)


@b
def dict_view(r):
    d = mapping(r)
    which = r.choice(['keys', 'values', 'items'])
    v = getattr(d, which)()
    if r.random() < .15 and which != 'keys' and type(d) is dict:
        d['self'] = v
        return [v, d], [lambda t: len(t[0]), lambda t: t[1]['self'] is t[0], lambda t: put(t[1], 'new', 5), lambda t: len(t[0])]
    return [v, d], [lambda t: list(t[0]), lambda t: put(t[1], 'new', 5), lambda t: list(t[0]), lambda t: len(t[0]),
                    lambda t: list(reversed(t[0])), lambda t: t[1].clear(), lambda t: list(t[0]), lambda t: type(t[0]).__name__]


@b
def mapping_proxy(r):
    d = mapping(r)
    v = types.MappingProxyType(d)
    return [v, d], [lambda t: dict(t[0]), lambda t: put(t[1], 'new', 5), lambda t: t[0]['new'], lambda t: many(lambda: put(t[0], 1, 2)), lambda t: len(t[0].keys())]


@b
def proxy_view(r):
    d = mapping(r)
    v = types.MappingProxyType(d)
    return [v.items(), v, d], [lambda t: list(t[0]), lambda t: put(t[2], 'new', 1), lambda t: list(t[0])]


@b
def nested_proxy(r):
    d = mapping(r)
    v = types.MappingProxyType(types.MappingProxyType(d))
    return [v, d], [lambda t: dict(t[0]), lambda t: put(t[1], 'new', 5), lambda t: t[0].get('new')]


@b
def odd_mapping_proxy(r):
    d = r.choice([collections.ChainMap({'a': 1}, {'b': val(r)}), collections.UserDict(a=val(r))])
    v = types.MappingProxyType(d)
    return [v, d], [lambda t: sorted(t[0]), lambda t: put(t[1], 'new', 5), lambda t: t[0].get('new'), lambda t: type(t[0]).__name__]


@b
def cell(r):
    x = val(r)
    c = types.CellType(x) if r.random() < .8 else types.CellType()
    return [c, x], [lambda t: many(lambda: t[0].cell_contents), lambda t: setattr(t[0], 'cell_contents', [1]), lambda t: t[0].cell_contents]


@b
def rng(r):
    a = r.choice([range(r.randrange(9)), range(-3, 10, r.choice([1, 2, -1, 7])), range(10**30, 10**30 + 5), range(5, 5), range(0, -10, -3), range(True)])
    return [a], [lambda t: list(t[0][:5]), lambda t: (t[0].start, t[0].stop, t[0].step), lambda t: len(t[0]) and t[0][-1], lambda t: hash(t[0])]


@b
def slc(r):
    p = [val(r) for _ in range(3)]
    return [slice(*p)] + p, [lambda t: t[0].stop, lambda t: many(lambda: t[0].indices(10))]


@b
def prop(r):
    base = r.choice([property, property, property, abc.abstractproperty])
    f = lambda self: ('got', self._v)
    g = (lambda self, v: setattr(self, '_v', v)) if r.random() < .6 else None
    h = (lambda self: setattr(self, '_v', 'deleted')) if r.random() < .5 else None
    if r.random() < .3:
        f.__doc__ = 'getter doc'
    p = base(f if r.random() < .9 else None, g, h, r.choice([None, 'a doc', '']))

    def use(t):
        C = type('C', (), {'p': t[0], '_v': 1})
        o = C()
        return many(lambda: o.p, lambda: setattr(o, 'p', 5), lambda: o.p, lambda: delattr(o, 'p'), lambda: o.p, lambda: C.p is t[0])
    return [p, f], [use, lambda t: t[0].__doc__, lambda t: getattr(t[0], '__isabstractmethod__', None)]


@b
def class_static(r):
    f = r.choice([lambda *a: ('f', len(a)), len, functools.partial(max, 1), fx.topfunc, property(lambda s: 1), fx.Plain, classmethod(lambda c: 'inner')])
    k = r.choice([classmethod, staticmethod, abc.abstractclassmethod, abc.abstractstaticmethod])
    if k in (abc.abstractclassmethod, abc.abstractstaticmethod) and not isinstance(f, types.FunctionType):
        k = classmethod
    m = k(f)

    def use(t):
        C = type('C', (), {'m': t[0]})
        return many(lambda: C.m([1]), lambda: C().m([1, 2]), lambda: type(C.__dict__['m']).__name__, lambda: t[0].__func__([3]))
    return [m, f], [use, lambda t: getattr(t[0], '__isabstractmethod__', None), lambda t: getattr(t[0], '__name__', None)]


class PartSub(functools.partial):
    pass


@b
def partial(r):
    f = r.choice([lambda *a, **k: (a, sorted(k)), max, fx.topfunc, [].append, functools.partial(min, 3), fx.Plain, str.upper])
    args = [val(r) for _ in range(r.randrange(3))]
    kw = {k: val(r) for k in r.sample(['x', 'y', 'key', 'b', 'c'], r.randrange(3))}
    p = r.choice([functools.partial, functools.partial, functools.partialmethod, PartSub])(f, *args, **kw)
    if r.random() < .4 and not isinstance(p, functools.partialmethod):
        p.tag = args
    if r.random() < .2:
        args2 = [p]
        p = functools.partial(lambda l: len(l), args2)
        args2.append(p)
    return [p, f] + args, [lambda t: many(lambda: t[0](1, 2), lambda: t[0]()), lambda t: t[0].func is t[1], lambda t: len(t[0].args), lambda t: sorted(t[0].keywords),
                           lambda t: getattr(t[0], 'tag', 'none')]


@b
def getters(r):
    g = r.choice([lambda: operator.itemgetter(1), lambda: operator.itemgetter(0, slice(1), -1), lambda: operator.itemgetter(slice(None, None, 2)),
                  lambda: operator.attrgetter('v'), lambda: operator.attrgetter('v', '__class__.__name__'), lambda: operator.attrgetter('__class__.__name__'),
                  lambda: operator.methodcaller('count', 1), lambda: operator.methodcaller('sort', key=lambda x: -x, reverse=True),
                  lambda: operator.methodcaller('index', 2, 0), lambda: operator.attrgetter('a.b.c', 'd')])()
    return [g], [lambda t: many(lambda: t[0]([1, 2, 1, 3]), lambda: t[0](fx.Plain(v=4)), lambda: t[0]((5, 6, 7))), lambda t: repr(t[0]) if 'lambda' not in repr(t[0]) else 0]


@b
def bound_builtin(r):
    o = r.choice([lambda: [1, val(r)], lambda: {'a': val(r)}, lambda: {1, 2}, lambda: 'text', lambda: b'by', lambda: collections.deque([1], 5), lambda: 5,
                  lambda: collections.OrderedDict(a=1), lambda: re.compile('(a)'), lambda: bytearray(b'x'), lambda: (1, 2), lambda: 2.5,
                  lambda: fx.ListSub([1]), lambda: array.array('i', [1]), lambda: np.arange(3), lambda: datetime.date(2020, 1, 2), lambda: io.BytesIO(b'abc'),
                  lambda: decimal.Decimal('1.5'), lambda: random.Random(5), lambda: frozenset('ab')])()
    names = [n for n in ('append', 'update', 'add', 'upper', 'get', 'popleft', 'match', 'extend', 'count', 'hex', 'sum', 'isoformat', 'read', 'sqrt', 'random',
                         'union', 'bit_length', 'keys', '__len__', '__getitem__', '__add__', '__repr__', '__setitem__', 'move_to_end', 'seek', 'sort', 'copy')
             if hasattr(o, n) and type(getattr(o, n)) in (types.BuiltinMethodType, types.MethodWrapperType)]
    m = getattr(o, r.choice(names))
    return [m, o], [lambda t: many(lambda: t[0](), lambda: t[0]('a'), lambda: t[0](0), lambda: t[0]([7])), lambda t: t[1], lambda t: t[0].__name__,
                    lambda t: t[0].__self__ is t[1] if type(t[1]) not in (str, int, float, bytes) else 1]


@b
def bound_method(r):
    o = r.choice([lambda: fx.Plain(v=1), lambda: fx.Slots(), lambda: collections.UserList([1]), lambda: collections.Counter('abca'), lambda: string.Template('$a b')])()
    names = [n for n in dir(o) if not n.startswith('__') and isinstance(getattr(o, n, None), types.MethodType) and getattr(o, n).__self__ is o]
    if not names:
        o = collections.Counter('aab')
        names = ['most_common', 'elements', 'total']
    m = getattr(o, r.choice(names))
    if r.random() < .3:
        m = types.MethodType(r.choice([lambda self, *a: ('lam', len(a)), len, isinstance, fx.topfunc]), o)
    return [m, o], [lambda t: many(lambda: t[0](), lambda: t[0](1)), lambda t: t[0].__self__ is t[1], lambda t: t[1]]


@b
def unbound(r):
    x = r.choice([int.__add__, str.upper, dict.fromkeys, list.append, object.__init__, type.__call__, dict.__dict__['fromkeys'], int.__dict__['real'],
                  type.__dict__['__dict__'], type.__dict__['__module__'], types.FunctionType.__dict__['__code__'], types.FunctionType.__globals__,
                  BaseException.__dict__['args'], collections.deque.__dict__['maxlen'], datetime.date.year, functools.partial.func, np.ndarray.__dict__['T'],
                  np.ndarray.sum, collections.OrderedDict.move_to_end, object.__dict__['__class__'], type.mro, bytes.fromhex, bytes.maketrans, int.from_bytes,
                  float.__getformat__, fx.Slots.__dict__[list(fx.slot_list)[0]] if hasattr(fx, 'slot_list') else int.__mul__, slice.start,
                  property.fget, types.CodeType.co_code, types.MethodType.__func__, type.__subclasses__, object.__subclasshook__, set.add, int.numerator,
                  types.GeneratorType.gi_frame, memoryview.obj, complex.imag, range.start, staticmethod.__func__, io.StringIO.getvalue, re.Pattern.match,
                  np.float64.real, np.generic.item, np.dtype.names, array.array.typecode, itertools.count.__next__, zip.__iter__, enumerate.__next__])
    return [x], [lambda t: t[0].__name__, lambda t: t[0].__qualname__, lambda t: t[0]]


@b
def slot_descriptor(r):
    """members of user classes, whose names may be those of anything else"""
    name = r.choice(['Odd', 'dict', 'Pickler', 'Reduce', 'list', 'type', 'Sentinel', 'property', 'str', 'object', 'frame', 'Unpickler', 'settings', '_attrgetter_helper'])
    attrs = {'__slots__': ('items', 'attrs', 'reduction', 'append', 'x1'), '__module__': 'nowhere_vf'}
    C = type(name, (), attrs)
    a = r.choice(['items', 'attrs', 'reduction', 'append', 'x1'])
    o = C()
    setattr(o, a, [1])
    return [C.__dict__[a], C, o], [lambda t: t[0].__objclass__ is t[1], lambda t: t[0].__get__(t[2]), lambda t: t[0].__name__, lambda t: t[1].__dict__[t[0].__name__] is t[0]]


@b
def dict_descriptor(r):
    name = r.choice(['Odd', 'Pickler', 'Reduce', 'Exception', 'Sentinel', 'partial', 'Unpickler', 'PickleError'])
    C = type(name, (), {'__module__': 'nowhere_vf', 'z': 1})
    a = r.choice(['__dict__', '__weakref__'])
    o = C()
    o.q = 4
    return [C.__dict__[a], C, o], [lambda t: t[0].__objclass__ is t[1], lambda t: t[0].__get__(t[2]), lambda t: t[0].__name__]


class Base:
    def go(self): return 'base'

    @classmethod
    def cm(cls): return ('basecm', cls.__name__)


class Derived(Base):
    def go(self): return 'derived'


@b
def sup(r):
    o = Derived()
    o.tag = val(r)
    k = r.randrange(4)
    s = [lambda: super(Derived, o), lambda: super(Derived, Derived), lambda: super(Derived), lambda: super(Base, o)][k]()
    return [s, o], [lambda t: many(lambda: t[0].go(), lambda: t[0].cm()), lambda t: t[0].__self__ is t[1], lambda t: t[0].__self_class__, lambda t: t[0].__thisclass__]


@b
def lock(r):
    l = threading.Lock()
    if r.random() < .5:
        l.acquire()
    return [l], [lambda t: t[0].locked(), lambda t: t[0].acquire(False), lambda t: t[0].locked(), lambda t: many(t[0].release, t[0].release)]


@b
def rlock(r):
    l = threading.RLock()
    n = r.randrange(4)
    for _ in range(n):
        l.acquire()

    def other(t):
        got = []
        th = threading.Thread(target=lambda: got.append(t[0].acquire(False)) or got[0] and t[0].release())
        th.start()
        th.join()
        return got
    return [l], [other, lambda t: [many(t[0].release) for _ in range(n + 1)], lambda t: t[0].acquire(False), other, lambda t: many(t[0].release)]


@b
def sync(r):
    o = r.choice([lambda: threading.Condition(), lambda: threading.Semaphore(2), lambda: threading.Event(), lambda: threading.Barrier(1), lambda: queue.Queue(3),
                  lambda: threading.BoundedSemaphore(1), lambda: queue.LifoQueue(), lambda: threading.Condition(threading.Lock())])()
    if isinstance(o, threading.Event) and r.random() < .5:
        o.set()
    if isinstance(o, queue.Queue):
        o.put(val(r))
    return [o], [lambda t: many(lambda: t[0].is_set(), lambda: t[0].acquire(False), lambda: t[0].release(), lambda: t[0].qsize(), lambda: t[0].get(False),
                                lambda: t[0].put(5), lambda: t[0].get(False), lambda: t[0].wait(0.001), lambda: t[0].set())]


@b
def stringio(r):
    nl = r.choice(['\n', '\n', None, '', '\r\n', '\r'])
    s = io.StringIO(r.choice(['', 'line1\nline2\r\nline3\rend', '\u00e9\U0001f600x', 'abc' * 50]), nl)
    s.seek(r.choice([0, 0, len(s.getvalue()), 3]))
    if r.random() < .4:
        s.write('W\nZ')
    if r.random() < .2:
        s.extra = val(r)
    return [s], [lambda t: t[0].tell(), lambda t: t[0].read(2), lambda t: t[0].readline(), lambda t: t[0].write('a\nb'), lambda t: t[0].getvalue(),
                 lambda t: getattr(t[0], 'extra', 0), lambda t: t[0].closed]


@b
def bytesio(r):
    s = io.BytesIO(r.choice([b'', b'line1\nline2\r\n', bytes(range(256))]))
    s.seek(r.choice([0, 2, 400]))
    if r.random() < .4:
        s.write(b'W')
    return [s], [lambda t: t[0].tell(), lambda t: t[0].read(2), lambda t: t[0].write(b'zz'), lambda t: t[0].getvalue()]


@b
def lru(r):
    def body(x, y=2):
        calls.append(x)
        return (x, y)
    calls = []
    f = functools.lru_cache(maxsize=r.choice([None, 0, 1, 128, 3, -1]), typed=r.choice([True, False]))(body) if r.random() < .8 else functools.cache(body)
    return [f, calls], [lambda t: t[0].cache_parameters(), lambda t: [t[0](1), t[0](1), t[0](1.0), t[0](2), t[0](3), t[0](4), t[0](1)], lambda t: t[1], lambda t: t[0].cache_info(),
                 lambda t: t[0].cache_clear(), lambda t: t[0](1), lambda t: (t[0].__name__, t[0].__qualname__, t[0].__wrapped__ is not None)]


@b
def wrapper_attributes(r):
    def body(*a):
        "the doc"
        return a
    body.tag = ['of the function']
    f = r.choice([body, body, body, fx.topfunc, fx.Plain, len, fx.Point])
    w = r.choice([functools.lru_cache(maxsize=r.choice([None, 2, 128])), functools.cache, classmethod, staticmethod, abc.abstractclassmethod, abc.abstractstaticmethod])
    if isinstance(f, type) and w in (abc.abstractclassmethod, abc.abstractstaticmethod) or f is len and 'abstract' in getattr(w, '__name__', ''):
        w = staticmethod
    x = w(f)
    names = r.sample(['tag', 'extra', '__doc__', '__name__', '__qualname__', '__module__', '__annotations__', 'me', 'func', 'same', '_private', 'two words'], r.randrange(5))
    for n in names:
        x.__dict__[n] = {'__doc__': 'other doc', '__name__': 'renamed', '__qualname__': 'other.renamed', '__module__': 'fx', '__annotations__': {'x': int}, 'me': x, 'func': f}.get(n) or val(r, 1)
    if 'same' in names and 'extra' in names:
        x.same = x.extra
    if f is body and r.random() < .3:
        body.tag = 'changed later'
    if f is body and r.random() < .3:
        body.__doc__ = 'changed later'
    if f is body and r.random() < .3:
        body.__name__ = 'changed'
    h = x if not isinstance(x, (classmethod, staticmethod)) else None
    return [x, f], [lambda t: sorted(t[0].__dict__), lambda t: [repr(t[0].__dict__.get(n)) for n in ('__doc__', '__name__', '__qualname__', '__module__', 'tag', 'extra') if not isinstance(t[0].__dict__.get(n), dict) and 'object at' not in repr(t[0].__dict__.get(n)) and 'Plain' not in repr(t[0].__dict__.get(n))],
                    lambda t: t[0].__dict__.get('me') in (None, t[0]), lambda t: t[0].__wrapped__ is t[1]]


@b
def exc(r):
    E = r.choice([ValueError, KeyError, OSError, UnicodeDecodeError, StopIteration, SystemExit, ImportError, AttributeError, NameError, SyntaxError, fx.MyError, BaseException, ExceptionGroup])
    if E is UnicodeDecodeError:
        e = E('utf8', b'\xff', 0, 1, 'why')
    elif E is OSError:
        e = r.choice([OSError(2, 'No', 'file'), OSError(2, 'No'), OSError('msg'), FileNotFoundError(2, 'x', 'a', None, 'b'), ConnectionResetError(1, 'z')])
    elif E is ImportError:
        e = ImportError('msg', name='nm', path='pth')
    elif E is ExceptionGroup:
        e = ExceptionGroup('grp', [ValueError(1), TypeError(val(r, 0))])
    elif E is SyntaxError:
        e = SyntaxError('bad', ('f', 1, 2, 'text', 1, 3))
    elif E is fx.MyError:
        try:
            e = fx.MyError('a', 3)
        except TypeError:
            e = ValueError('z')
    else:
        e = E(*[val(r, 1) for _ in range(r.randrange(3))])
    if r.random() < .4:
        e.note = val(r)
    if r.random() < .3:
        e.add_note('noted')

    def again(t):
        try:
            raise t[0]
        except BaseException as x:
            return (type(x).__name__, x is t[0])
    return [e], [lambda t: t[0].args, lambda t: vars(t[0]), lambda t: str(t[0]) if 'lambda' not in str(t[0]) and ' at 0x' not in str(t[0]) else 0,
                 lambda t: [getattr(t[0], a, 'no') for a in ('errno', 'filename', 'filename2', 'strerror', 'name', 'path', 'code', 'value', 'start', 'reason', 'exceptions', 'lineno', 'msg')],
                 again]


@b
def iterator(r):
    l = [val(r, 1) for _ in range(r.randrange(5))]
    mk = r.choice([lambda: iter(l), lambda: reversed(l), lambda: iter(tuple(l)), lambda: enumerate(l, 3), lambda: zip(l, 'abcdef'), lambda: map(lambda x: [x], l),
                   lambda: filter(lambda x: x is not None, l), lambda: iter(range(3, 20, 4)), lambda: iter('text'), lambda: iter(b'by'), lambda: itertools.count(3, 2),
                   lambda: itertools.cycle([1, 2, 3]), lambda: itertools.repeat(5, 3), lambda: itertools.chain(l, 'ab'), lambda: itertools.islice(range(99), 4, 30, 3),
                   lambda: itertools.accumulate([1, 2, 3], lambda a, c: a * 10 + c), lambda: itertools.product('ab', [1, 2]), lambda: itertools.permutations('abc', 2),
                   lambda: itertools.combinations('abcd', 2), lambda: itertools.zip_longest('ab', 'c'), lambda: itertools.starmap(max, [(1, 2), (4, 3)]),
                   lambda: itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1]), lambda: itertools.dropwhile(lambda x: x < 3, [1, 4, 1]), lambda: itertools.compress('abcd', [1, 0, 1, 1]),
                   lambda: iter(bytearray(b'xyz')), lambda: iter(collections.deque([1, 2])),
                   lambda: iter([].append, 3) if 0 else iter(array.array('i', [4, 5]))])
    it = mk()
    for _ in range(r.randrange(3)):
        next(it, None)
    return [it, l], [lambda t: list(itertools.islice(t[0], 6)), lambda t: next(t[0], 'end') if type(t[0]) is not map else 0, lambda t: t[1]]


@b
def singleton(r):
    x = r.choice([None, True, False, Ellipsis, NotImplemented, type(None), type(Ellipsis), type(NotImplemented), dataclasses.MISSING, dataclasses.KW_ONLY, inspect._empty,
                  int, type, object, types.FunctionType, types.CodeType, types.GeneratorType, types.MappingProxyType, types.CellType, types.ModuleType, types.MethodType,
                  types.BuiltinFunctionType, types.FrameType, types.TracebackType, types.SimpleNamespace, type({}.keys()), type(threading.RLock()),
                  type(lambda: 0), type(functools.lru_cache(len)), types.GenericAlias, types.UnionType, type(int.__add__), type('x'.join), type(dict.__dict__['fromkeys']),
                  weakref.ref, type(weakref.proxy(fx.Plain)), re.Pattern, re.Match, contextvars.Context, types.CoroutineType, types.AsyncGeneratorType,
                  type(types.FunctionType.__code__), type(fx.Slots.__dict__.get('a', int.__mul__)), zip, io.TextIOWrapper, io.BufferedReader,
                  unittest.mock.sentinel.foo, unittest.mock.DEFAULT, enum.auto, typing.Any, typing.NoReturn, typing.Union, typing.Generic, abc.ABCMeta, array.array, np.nan.__class__])
    return [x], [lambda t: t[0]]


def sys_flags():
    import sys
    return sys.flags


@b
def alias(r):
    T = typing
    x = r.choice([T.List[int], T.Tuple[()], T.Tuple[int, ...], T.Callable[[int], str], T.Callable[..., T.Any], T.Union[int, str], T.Optional[list], T.Literal[1, 'a'],
                  T.Annotated[int, 'meta', 3], T.Dict[str, T.List[fx.T]], T.List[fx.T], list[int], dict[str, list[int]], int | str, int | None, T.Type[int], T.List, T.Tuple, T.Dict,
                  T.Callable, T.ClassVar[int], T.Final[int], tuple[()], tuple[int, ...], T.Iterable[T.Tuple[int, str]], T.DefaultDict[str, int], collections.abc.Callable[[int], str],
                  type[int], T.List['Fwd'], T.Optional['Fwd'], T.Counter[str], T.Generic[fx.T], T.Required[int], fx.T, T.Concatenate, T.TypeGuard[int], T.Self, list[fx.T], fx.T | int])
    return [x], [lambda t: repr(t[0]), lambda t: getattr(t[0], '__args__', 0) and repr(t[0].__args__), lambda t: getattr(t[0], '__origin__', 0), lambda t: repr(getattr(t[0], '__parameters__', 0)),
                 lambda t: repr(getattr(t[0], '__metadata__', 0)), lambda t: type(t[0]).__name__]


class ArrSub(np.ndarray):
    def __array_finalize__(self, o):
        self.tag = getattr(o, 'tag', None)


@b
def nparray(r):
    k = r.randrange(18)
    if k == 0: a = np.arange(r.randrange(20))
    elif k == 1: a = np.asfortranarray(np.arange(12.).reshape(3, 4))
    elif k == 2: a = np.arange(24).reshape(2, 3, 4)[:, ::2, ::-1]
    elif k == 3: a = np.array([(1, 2.5, b'x')], dtype=[('a', 'i4'), ('b', 'f8'), ('c', 'S3')])
    elif k == 4: a = np.array([val(r, 1), lambda: 3, None], dtype=object)
    elif k == 5: a = np.array(5)
    elif k == 6: a = np.ones((2, 3), dtype='i2')
    elif k == 7: a = np.array(['a', '\u00e9\u00e9'])
    elif k == 8: a = np.array(['2020-01-01', 'NaT'], dtype='datetime64[D]')
    elif k == 9: a = np.ma.array([1, 2, 3], mask=[0, 1, 0], fill_value=9)
    elif k == 10: a = np.matrix([[1, 2], [3, 4]])
    elif k == 11:
        a = np.arange(4).view(ArrSub)
        a.tag = val(r)
    elif k == 12: a = np.rec.array([(1, 'x')], names='p,q')
    elif k == 13: a = np.array([1 + 2j, np.nan])
    elif k == 14: a = np.char.array(['ab', 'c'])
    elif k == 15: a = np.broadcast_to(np.arange(3), (2, 3)) + 0
    elif k == 16: a = np.array([[True, False], [False, True]])
    else:
        a = np.arange(3.)
        o = np.array([None, a], dtype=object)
        return [o, a], [lambda t: t[0][1] is t[1]]
    return [a, a], [lambda t: t[0] is t[1], lambda t: (str(t[0].dtype), t[0].shape, type(t[0]).__name__), lambda t: repr(t[0]) if t[0].dtype != object else len(t[0]),
                    lambda t: many(lambda: (t[0] + t[0]).tolist() if t[0].dtype != object else 0), lambda t: getattr(t[0], 'tag', 'none'), lambda t: getattr(t[0], 'mask', 0) is not 0,
                    lambda t: many(lambda: t[0].fill(t[0].flat[0]), lambda: t[0].tolist() if t[0].dtype != object else 0)]


@b
def npother(r):
    x = r.choice([np.sin, np.add, np.add.reduce, np.dtype('f4'), np.dtype([('a', 'i4'), ('b', 'O')]), np.dtype('>u2'), np.dtype('U5'), np.float32(1.5), np.int64(-3), np.bool_(True),
                  np.datetime64('2020-01-01'), np.str_('abc'), np.bytes_(b'ab'), np.complex64(1 + 1j), np.float64, np.ndarray, np.random.RandomState(3), np.random.default_rng(4),
                  np.array([1, 2]).sum, np.mean, np.newaxis, np.poly1d([1, 2, 3]), np.vectorize(lambda x: x + 1), np.linalg.inv, type(np.dtype('f8')), type(np.dtype('O')), type(np.add),
                  np.frompyfunc, np.timedelta64(3, 'D'), np.void(b'abc'), np.longdouble(2), np.iinfo(np.int8).__class__, np.ma.masked, np.index_exp[1:2, ...], type(np.dtype([('a', 'i4')]))])
    return [x], [lambda t: repr(t[0]) if ' at 0x' not in repr(t[0]) else type(t[0]).__name__, lambda t: many(lambda: t[0](2.0)), lambda t: many(lambda: t[0].rand(3).tolist(), lambda: t[0].random(2).tolist()),
                 lambda t: many(lambda: t[0]([1, 2, 3])), lambda t: many(lambda: (t[0].itemsize, t[0].names, t[0].byteorder))]


@b
def misc(r):
    x = r.choice([lambda: types.SimpleNamespace(a=val(r), b=[1]), lambda: random.Random(7), lambda: decimal.Context(prec=5), lambda: contextvars.Context(), lambda: string.Template('$a x'),
                  lambda: json.JSONEncoder(indent=2), lambda: collections.ChainMap({'a': 1}, {}), lambda: collections.UserString('u'), lambda: re.compile('(?P<n>a+)', re.I),
                  lambda: inspect.signature(lambda a, b=2, *c, d, **e: 0), lambda: functools.singledispatch(lambda x: 'd') and 1, 
                  lambda: datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone(datetime.timedelta(hours=1), 'z')), lambda: fx.Color.RED, lambda: dataclasses.fields(fx.Data)[0].name,
                  lambda: contextlib.ExitStack().__class__, lambda: contextlib.suppress(KeyError), lambda: contextlib.nullcontext([1]),
                  lambda: argspec(), lambda: struct.Struct.__class__, lambda: functools.total_ordering, lambda: types.MappingProxyType({}).__class__, lambda: collections.namedtuple('Zed', 'p q')(1, [2])])()
    return [x], [lambda t: clean(repr(t[0])), lambda t: many(lambda: t[0].random(), lambda: t[0].prec, lambda: t[0].substitute(a=1), lambda: t[0].encode({'a': [1]}), lambda: dict(t[0]),
                                                             lambda: t[0].match('AAb').groupdict(), lambda: str(t[0]) if ' at 0x' not in str(t[0]) else 0, lambda: t[0].bind(1, d=2).args, lambda: t[0]._asdict())]


def argspec():
    import argparse
    p = argparse.Namespace(a=1, b=[2])
    return p


def clean(s):
    return re.sub(r'0x[0-9a-f]+', '0x', s)


@b
def module(r):
    import os.path, xml.dom
    x = r.choice([math, os.path, collections.abc, np.linalg, builtins, fx, xml.dom, types.ModuleType('fresh_vf', 'docs')])
    if x.__name__ == 'fresh_vf':
        x.value = [1, val(r)]
        x.f = lambda: 5
        return [x.f, 1], [lambda t: t[0]()]
    return [x], [lambda t: t[0].__name__]


# kinds that cannot be restored: dumping must raise, not produce something else
REFUSE = [lambda r: (i for i in [1]), lambda r: memoryview(b'abc'), lambda r: contextvars.ContextVar('cv'), lambda r: inspect.currentframe(),
          lambda r: tb(), lambda r: re.match('a', 'a'), lambda r: threading.local(), lambda r: coro(), lambda r: struct.Struct('i'), lambda r: zlib.compressobj(), lambda r: zlib.decompressobj(),
          lambda r: threading.Thread(target=len)._started and threading.current_thread().__class__._bootstrap.__get__(5) and (x for x in ()), lambda r: agen(), lambda r: hashobj(),
          lambda r: iter(lambda: 1, 2) and (i for i in ''), lambda r: sqlite(), lambda r: sock(), lambda r: io.StringIO('x').__class__ and closed_sio(), lambda r: select_poll()]


def tb():
    try:
        1 / 0
    except ZeroDivisionError as e:
        return e.__traceback__


def coro():
    async def f(): pass
    c = f()
    c.close()
    return c


def agen():
    async def f(): yield 1
    return f()


def hashobj():
    import hashlib
    return hashlib.md5()


def sqlite():
    import sqlite3
    return sqlite3.connect(':memory:')


def sock():
    import socket
    s = socket.socket()
    s.close()
    return s


def closed_sio():
    s = io.StringIO('x')
    s.close()
    return s


def dirent():
    import os
    return next(os.scandir('/'))


def select_poll():
    import select
    return select.poll()
