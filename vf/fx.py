"""Importable fixture types: everything here pickles by reference."""
import abc, collections, copyreg, dataclasses, enum, functools, typing


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def meth(self):
        return ('meth', sorted(self.__dict__))

    @classmethod
    def cmeth(cls):
        return cls.__name__

    @staticmethod
    def smeth(x):
        return ('smeth', x)

    class Nested:
        pass


class Slots:
    __slots__ = ('a', 'b', 'c')


class SlotsDict(Slots):
    __slots__ = ('d', '__dict__', '__weakref__')


class PrivSlots:
    __slots__ = ('__x', '_y')

    def set(self, x, y):
        self.__x = x
        self._y = y
        return self


class DictSub(dict):
    pass


class ListSub(list):
    pass


class SetSub(set):
    pass


class FrozenSub(frozenset):
    pass


class StrSub(str):
    pass


class BytesSub(bytes):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


class TupleSub(tuple):
    pass


class OrdSub(collections.OrderedDict):
    pass


class StateObj:
    """__getstate__ / __setstate__ that renames"""
    def __init__(self, v=None):
        self.v = v
        self.log = 'new'

    def __getstate__(self):
        return {'saved': self.v, 'log': self.log}

    def __setstate__(self, st):
        self.v = st['saved']
        self.log = st['log']


class FalsyState:
    """falsy state: __setstate__ must not be called (pickle protocol)"""
    calls = 'none'

    def __getstate__(self):
        return {}

    def __setstate__(self, st):
        pass


class TupleState:
    """state that is not a dict"""
    def __init__(self, a=1, b=2):
        self.a, self.b = a, b

    def __getstate__(self):
        return (self.a, self.b)

    def __setstate__(self, st):
        self.a, self.b = st


def rebuild(*args):
    o = Rebuilt()
    o.args = list(args)
    return o


class Rebuilt:
    """__reduce__ with args + state + list items + dict items"""
    def __init__(self):
        self.args = []
        self.L = []
        self.D = {}
        self.st = None

    def append(self, x):
        self.L.append(x)

    def extend(self, xs):
        self.L.extend(xs)

    def __setitem__(self, k, v):
        self.D[k] = v

    def __setstate__(self, st):
        self.st = st

    def __reduce__(self):
        return rebuild, tuple(self.args), self.st, iter(list(self.L)), iter(list(self.D.items()))


class Setter:
    """6-tuple reduce with a state setter"""
    def __init__(self):
        self.v = None

    def __reduce__(self):
        return Setter, (), {'v': self.v}, None, None, set_state


def set_state(obj, state):
    obj.v = state['v']


class NewArgs:
    def __new__(cls, a, b=0):
        o = object.__new__(cls)
        o.a, o.b = a, b
        return o

    def __getnewargs__(self):
        return (self.a, self.b)


class NewArgsEx:
    def __new__(cls, a, *, b=0):
        o = object.__new__(cls)
        o.a, o.b = a, b
        return o

    def __getnewargs_ex__(self):
        return (self.a,), {'b': self.b}


class CopyReg:
    def __init__(self, v):
        self.v = v


def copyreg_make(v):
    return CopyReg(v)


def copyreg_reduce(o):
    return copyreg_make, (o.v,)


copyreg.pickle(CopyReg, copyreg_reduce)


class Single:
    def __reduce__(self):
        return 'SINGLETON'


SINGLETON = Single()


class Color(enum.Enum):
    RED = 1
    GREEN = 'g'
    BLUE = (1, 2)


class Perm(enum.IntFlag):
    R = 4
    W = 2
    X = 1


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 10


@dataclasses.dataclass
class Data:
    x: int
    y: list = dataclasses.field(default_factory=list)
    z: typing.Any = None


@dataclasses.dataclass(frozen=True)
class Frozen:
    x: int
    y: str = 'q'


@dataclasses.dataclass(slots=True)
class SlotData:
    x: int
    y: typing.Any = None


Point = collections.namedtuple('Point', 'x y')
PointD = collections.namedtuple('PointD', 'x y z', defaults=(7, None))


class Typed(typing.NamedTuple):
    name: str
    n: int = 3


class MyError(Exception):
    def __init__(self, *args):
        super().__init__(*args)
        self.extra = len(args)


class Hashed:
    """value hash / eq on an atom"""
    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return hash(('Hashed', self.k))

    def __eq__(self, o):
        return type(o) is Hashed and o.k == self.k

    def __reduce__(self):
        return Hashed, (self.k,)


class EqAll:
    """equal to everything: comparisons by value instead of identity go wrong"""
    __hash__ = None

    def __init__(self, tag=0):
        self.tag = tag

    def __eq__(self, o):
        return True


class EqRaises:
    __hash__ = object.__hash__

    def __init__(self, tag=0):
        self.tag = tag

    def __eq__(self, o):
        raise ValueError('comparison of %r' % self.tag)


class Falsy:
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class BadRepr:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        raise RuntimeError('repr of %r' % (self.v,))
    __str__ = __repr__


class GetAttrAny:
    """answers every attribute that is not special"""
    def __init__(self, v):
        self.__dict__['v'] = v

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return ('any', n)


def topfunc(a, b=2, *args, c=3, **kw):
    return (a, b, args, c, kw)


def adder(n):
    return n + 1


@functools.lru_cache(maxsize=None)
def cached(n):
    return n * 3


CONST = ('const', 1, 2.5)


class Named:
    """remembers where it was put"""
    def __init__(self):
        self.where = None

    def __set_name__(self, owner, name):
        self.where = (owner.__name__, name)


class Descr:
    def __init__(self, init):
        self.init = init

    def __get__(self, o, t=None):
        return ('got', self.init, o is None)

    def __set__(self, o, v):
        self.init = ['set', v]

    def __eq__(self, o):
        return type(o) is Descr and o.init == self.init
    __hash__ = object.__hash__


def deco(fn):
    @functools.wraps(fn)
    def inner(*a, **k):
        return ['deco', fn(*a, **k)]
    inner.marked = True
    return inner


def mark(cls):
    cls.marked_by = 'mark'
    return cls


class Meta(type):
    def __len__(cls):
        return 13

    def where(cls):
        return cls.__name__


class AbstractThing(abc.ABC):
    @abc.abstractmethod
    def must(self):
        ...

    def may(self):
        return 'may'


T = typing.TypeVar('T')
U = typing.TypeVar('U')


class Shy:
    """does not tell its module"""
    def __init__(self, tag=0):
        self.tag = tag

    def __getattribute__(self, n):
        if n == '__module__':
            raise RuntimeError('not told')
        return object.__getattribute__(self, n)


class Pretends:
    """says that it is a module (or a function, or a class)"""
    def __init__(self, tag=0, what=type(abc)):
        self.tag, self.what = tag, what

    def __reduce__(self):
        return Pretends, (self.tag, self.what)

    @property
    def __class__(self):
        return self.what


class Answers:
    """has every attribute that is asked for"""
    def __init__(self, tag=0):
        self.tag = tag

    def __getattr__(self, n):
        if n.startswith('__') and n != '__module__':
            raise AttributeError(n)
        return [n]


class NoTruth:
    def __init__(self, tag=0):
        self.tag = tag

    def __bool__(self):
        raise ValueError('no truth value')

    def __len__(self):
        raise ValueError('no length')
