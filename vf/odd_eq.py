"""Objects whose comparing, storing or restoring is odd, and what pickles is to say of each (importable: pickled by reference)."""
import pickle, types, warnings
import numpy as np

TRAPPED = (TypeError, AssertionError, NotImplementedError, pickle.PicklingError, pickle.UnpicklingError)


class Custom(Exception):
    pass


class Stop(BaseException):
    pass


class SubType(TypeError):
    pass


ERRORS = [TypeError, AssertionError, NotImplementedError, pickle.PicklingError, pickle.UnpicklingError, SubType, ValueError, RuntimeError, KeyError, AttributeError, RecursionError, OSError, Custom, pickle.PickleError, ZeroDivisionError,
          KeyboardInterrupt, SystemExit, Stop, ImportError, EOFError, MemoryError, StopIteration]


class AnyEq:
    """compares as told"""
    def __init__(self, how, arg=None):
        self.how, self.arg = how, arg

    def __eq__(self, other):
        return ANSWERS[self.how](self, other)

    __hash__ = None


class Verdict:
    """something like an array of comparisons"""
    def __init__(self, v, attr):
        self.v = v
        if attr == 'all':
            self.all = lambda: v
        elif attr == 'nested':
            self.all = lambda: Verdict(v, 'all')
        elif attr == 'toarray':
            self.toarray = lambda: np.array([v, v])
        elif attr == 'truth':
            pass

    def __bool__(self):
        if hasattr(self, 'all') or hasattr(self, 'toarray'):
            raise ValueError('ambiguous')
        return self.v


class NoBool:
    def __bool__(self):
        raise ValueError('no truth')


def warn(self, other):
    warnings.warn('comparing', DeprecationWarning)
    warnings.warn('comparing', UserWarning)
    return self.arg


def throw(self, other):
    raise self.arg('in eq')


def shape(self, other):
    return np.array([], bool)


ANSWERS = {
    'true': lambda s, o: True, 'false': lambda s, o: False, 'one': lambda s, o: 1, 'none': lambda s, o: None, 'empty': lambda s, o: [], 'full': lambda s, o: ['x'],
    'notimpl': lambda s, o: NotImplemented, 'raises': throw, 'warns': warn, 'array': lambda s, o: np.array(s.arg), 'nobool': lambda s, o: NoBool(),
    'verdict': lambda s, o: Verdict(*s.arg), 'fields': lambda s, o: s.arg == o.arg,
}
EQUAL = {'true': True, 'false': False, 'one': True, 'none': False, 'empty': False, 'full': True, 'notimpl': False, 'raises': False, 'nobool': False, 'fields': True}


class Remade:
    """restored as something else"""
    def __init__(self, make, args, eq=None):
        self.make, self.args, self.eq = make, args, eq

    def __reduce__(self):
        return self.make, self.args

    def __eq__(self, other):
        return self.eq == other if self.eq is not None else NotImplemented


class ListLike(list):
    def __reduce__(self):
        return list, (list(self),)


class Shrinks(np.ndarray):
    """restored as an array of another shape, with the same values everywhere"""
    def __reduce__(self):
        return np.ones, ((1,),)


class Fails:
    """raises when it is stored or restored"""
    def __init__(self, where, err):
        self.where, self.err = where, err

    def __reduce_ex__(self, proto):
        if self.where == 'dump':
            raise self.err('on dump')
        if self.where == 'make':
            return boom, (self.err,)
        return super().__reduce_ex__(proto)

    def __setstate__(self, st):
        if st['where'] == 'load':
            raise st['err']('on load')
        self.__dict__.update(st)


def boom(err):
    raise err('on making')


class Unprintable:
    def __repr__(self):
        raise ValueError('no repr')


class SaysMuch:
    """prints while it is restored, and has a repr of many lines"""
    def __init__(self, x):
        self.x = x

    def __setstate__(self, st):
        print('restoring %r' % (st['x'],))
        self.__dict__.update(st)

    def __repr__(self):
        return 'much of\n  %r\n\'quotes" and %%s {}\n' % (self.x,)


def samename(n=0):
    """a class that is stored whole, so the copy is of another class of the same name"""
    return type('Twin', (), {'__module__': '__main__', 'x': n})


class Stored:
    """tells with which protocol it was stored"""
    def __init__(self, how=None):
        self.how = how

    def __reduce_ex__(self, proto):
        return Stored, ('protocol %d' % proto,)

    def __repr__(self):
        return 'Stored(%r)' % (self.how,)
