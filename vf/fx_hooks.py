"""Importable types whose pickle hooks leave a log."""
import collections, copyreg, pickle

LOG = []


def log(*a):
    LOG.append(a)


class Base:
    n = None

    def __init__(self, n=None, v=None):
        self.n = n
        self.v = v


class GetState(Base):
    def __getstate__(self):
        log('getstate', self.n)
        return {'n': self.n, 'v': self.v}

    def __setstate__(self, st):
        self.__dict__.update(st)
        log('setstate', self.n)


class Falsy(Base):
    def __getstate__(self):
        log('getstate-falsy', self.n)
        return self.v if not self.v else {'v': self.v}

    def __setstate__(self, st):
        log('setstate-falsy', repr(type(st)))
        self.__dict__.update(st or {})


class ReduceEx(Base):
    def __reduce_ex__(self, proto):
        log('reduce_ex', self.n, proto)
        return rebuild, (type(self), self.n), {'v': self.v, 'n': self.n}


class Reduce(Base):
    def __reduce__(self):
        log('reduce', self.n)
        return rebuild, (type(self), self.n), {'v': self.v, 'n': self.n}


class NewArgs(Base):
    def __new__(cls, n=None, v=None):
        log('new', cls.__name__, n)
        o = object.__new__(cls)
        return o

    def __getnewargs__(self):
        log('getnewargs', self.n)
        return (self.n,)


class NewArgsEx(Base):
    def __new__(cls, n=None, v=None):
        log('new', cls.__name__, n)
        return object.__new__(cls)

    def __getnewargs_ex__(self):
        log('getnewargs_ex', self.n)
        return (), {'n': self.n}


class Items(Base):
    def __reduce_ex__(self, proto):
        log('reduce_items', self.n, proto)
        return rebuild, (type(self), self.n), None, iter([self.v, 1, 2]), iter([('k', self.v), ('j', 0)])

    def append(self, x):
        log('append', self.n)
        self.v = x

    def extend(self, xs):
        xs = list(xs)
        log('extend', self.n, len(xs))
        self.v = xs[0]

    def __setitem__(self, k, v):
        log('setitem', self.n, k)
        self.__dict__['item_' + k] = v


class StateSetter(Base):
    def __reduce_ex__(self, proto):
        log('reduce6', self.n)
        return rebuild, (type(self), self.n), {'v': self.v}, None, None, setter


class Slotted:
    __slots__ = ('n', 'v', '_w', '__dict__')

    def __init__(self, n=None, v=None):
        self.n, self.v, self._w = n, v, n
        self.d = n


class ListLike(list):
    def __init__(self, n=None, v=None):
        self.n = n
        list.append(self, v)

    def append(self, x):
        log('list-append')
        list.append(self, x)

    def extend(self, xs):
        xs = list(xs)
        log('list-extend', len(xs))
        list.extend(self, xs)


class DictLike(dict):
    def __init__(self, n=None, v=None):
        self.n = n
        dict.__setitem__(self, 'v', v)

    def __setitem__(self, k, v):
        log('dict-setitem', k)
        dict.__setitem__(self, k, v)

    def items(self):
        log('dict-items', self.n)
        return dict.items(self)


class CopyReg(Base):
    pass


def reduce_copyreg(o):
    log('copyreg', o.n)
    return rebuild, (CopyReg, o.n), {'v': o.v, 'n': o.n}


copyreg.pickle(CopyReg, reduce_copyreg)


class Global(Base):
    def __reduce__(self):
        log('reduce-global', self.n)
        return 'GLOB'


class Buffer(Base):
    """offers its bytes out of band"""
    def __reduce_ex__(self, proto):
        log('reduce_buffer', self.n, proto)
        if proto >= 5:
            return mkbuffer, (pickle.PickleBuffer(self.v),), {'n': self.n}
        return mkbuffer, (bytes(self.v),), {'n': self.n}


class Failing(Base):
    def __reduce_ex__(self, proto):
        log('reduce-failing', self.n)
        raise ValueError('no %s' % (self.n,))


class BadReduce(Base):
    def __reduce_ex__(self, proto):
        return self.bad


class Plain(Base):
    pass


class Table(Base):
    """only a pickler's own dispatch table knows it"""


class Override(Base):
    """only reducer_override knows it"""


class Persistent(Base):
    pass


def mkbuffer(b):
    o = Buffer()
    log('mkbuffer', type(b).__name__, bytes(b) == b)
    o.v = bytes(b)
    o.seen = type(b).__name__
    return o


def setter(o, st):
    log('setter', o.n)
    o.__dict__.update(st)


def rebuild(cls, n):
    log('rebuild', cls.__name__, n)
    o = object.__new__(cls) if cls not in (ListLike, DictLike) else cls.__new__(cls)
    o.n = n
    return o


GLOB = Global('glob')


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


TYPES = [GetState, Falsy, ReduceEx, Reduce, NewArgs, NewArgsEx, Items, StateSetter, Slotted, ListLike, DictLike, CopyReg, Plain]
