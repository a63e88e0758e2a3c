"""Snapshots of what dill must leave alone: interpreter state, and any object graph by identity."""
import _io, copyreg, gc, io, itertools, logging, os, pickle, signal, sys, threading, types, warnings, locale
import decimal
import dill
from . import iso

IO = _io._IOBase

LAZY = {'__slotnames__', '__abc_tpflags__', '__annotations__', '__weakref__', '__warningregistry__', '__doc__'}
REG = '__warningregistry__'


def shallow(d):
    return dict(d)


class Interp:
    """the interpreter's global state"""
    def __init__(self):
        self.s = s = {}
        P = dill.Pickler
        s['modules'] = dict(sys.modules)
        s['main'] = {k: v for k, v in sys.modules['__main__'].__dict__.items() if k != REG}
        s['filters'] = list(warnings.filters)
        s['showwarning'] = warnings.showwarning
        s['streams'] = (sys.stdin, sys.stdout, sys.stderr, sys.__stdin__, sys.__stdout__, sys.__stderr__, sys.displayhook, sys.excepthook, builtins_print())
        s['reclimit'] = sys.getrecursionlimit()
        s['cwd'] = os.getcwd()
        s['int digits'] = sys.get_int_max_str_digits()
        s['environ'] = dict(os.environ)
        s['path'] = (sys.path, list(sys.path), list(sys.meta_path), list(sys.path_hooks), list(sys.argv))
        s['settings'] = (dill.settings, dict(dill.settings))
        # (the array types dill registers when it first meets one are its own business)
        s['dispatch'] = (P.dispatch, {k: v for k, v in P.dispatch.items() if not any(b.__module__ == 'numpy' for b in k.__mro__)})
        s['pickle dispatch'] = dict(pickle._Pickler.dispatch)
        s['unpickler dispatch'] = dict(pickle._Unpickler.dispatch)
        s['copyreg'] = (dict(copyreg.dispatch_table), dict(copyreg._extension_registry))
        s['trace'] = (sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile())
        s['gc'] = (gc.isenabled(), gc.get_threshold(), gc.get_debug())
        s['builtins'] = dict(vars(__import__('builtins')))
        s['threads'] = threading.enumerate()
        s['switch'] = sys.getswitchinterval()
        s['signals'] = [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)]
        lg = logging.getLogger('dill')
        s['logging'] = (lg.level, list(lg.handlers), list(lg.filters), lg.propagate, logging.root.level, list(logging.root.handlers), logging.root.manager.disable)
        s['fds'] = fds()
        s['decimal'] = str(decimal.getcontext())
        s['umask'] = umask()
        s['catalogue'] = (set(dill.objects), set(vars(dill.types)))
        s['pickle attrs'] = {k: v for k, v in vars(pickle).items() if k != REG}
        s['dill attrs'] = {m: {k: v for k, v in vars(sys.modules[m]).items() if k != REG} for m in sorted(sys.modules) if m == 'dill' or m.startswith('dill.')}
        s['intern'] = sys.flags, sys.dont_write_bytecode

    def diff(self, other, but=()):
        out = []
        for k, v in self.s.items():
            if k in but:
                continue
            w = other.s[k]
            if not same(v, w):
                out.append('%s: %s' % (k, describe(v, w)))
        return out


def builtins_print():
    import builtins
    return builtins.print


def umask():
    with open('/proc/self/status') as f:
        for l in f:
            if l.startswith('Umask'):
                return l.split()[1]


def fds():
    d = '/proc/self/fd'
    out = []
    for n in sorted(os.listdir(d)):
        try:
            out.append((n, os.readlink(os.path.join(d, n))))
        except OSError:
            pass        # the listing's own descriptor
    return out


def same(v, w):
    if v is w:
        return True
    if type(v) is not type(w):
        return False
    if isinstance(v, dict):
        return len(v) == len(w) and all(k in w and same(x, w[k]) for k, x in v.items())
    if isinstance(v, (tuple, list)):
        return len(v) == len(w) and all(same(x, y) for x, y in zip(v, w))
    if isinstance(v, (str, int, float, bytes, type(None), bool, set)):
        return v == w
    return False


def describe(v, w):
    if isinstance(v, dict) and isinstance(w, dict):
        ks = [k for k in list(v) + [k for k in w if k not in v] if not same(v.get(k, same), w.get(k, same))]
        return ', '.join('%s %s' % (iso.srepr(k, 60), 'gone' if k not in w else 'new' if k not in v else 'changed: ' + describe(v[k], w[k])[:150]) for k in ks[:6])
    if isinstance(v, (tuple, list)) and isinstance(w, (tuple, list)) and len(v) == len(w):
        return '; '.join('[%d] %s' % (i, describe(x, y)) for i, (x, y) in enumerate(zip(v, w)) if not same(x, y))[:300]
    return '%s became %s' % (iso.srepr(v, 200), iso.srepr(w, 200))


class Graph:
    """every object reachable from a root (importable things and the interpreter's own excluded), with the identities of what it refers to"""
    def __init__(self, root, limit=20000):
        self.keep = []
        self.edges = {}
        helper = iso.Iso()
        stack = [root]
        while stack and len(self.edges) < limit:
            o = stack.pop()
            if id(o) in self.edges or id(o) == id(self.keep):
                continue
            t = type(o)
            if t in iso.ATOM or t in iso.BYREPR or t is types.CodeType or t is types.FrameType or helper.isref(o) or isinstance(o, types.ModuleType):
                continue
            if isinstance(o, dict) and helper.moddict(o):
                continue
            prime(o)
            refs = parts(o)
            self.keep.append((o, refs))
            self.edges[id(o)] = [id(x) for x in refs], detail(o)
            stack += refs
        self.nodes = len(self.edges)

    def changed(self):
        """compares with the present"""
        out = []
        for o, refs in self.keep:
            was, det = self.edges[id(o)]
            now = [id(x) for x in parts(o)]
            if was != now or det != detail(o):
                out.append('%s %s: %s' % (type(o).__name__, iso.srepr(o, 100), 'its contents changed' if was != now else '%s became %s' % (det, detail(o))))
                if len(out) > 4:
                    break
        return out


def prime(o):
    """what CPython creates lazily exists from now on"""
    try:
        object.__getattribute__(o, '__dict__')
    except (AttributeError, TypeError):
        pass
    if isinstance(o, types.FunctionType):
        o.__annotations__, o.__dict__, o.__qualname__, o.__doc__


def parts(o):
    if isinstance(o, type):
        d = type.__dict__['__dict__'].__get__(o)
        own = []
        for k, v in d.items():
            if k not in LAZY:
                own += [k, v]
        return own + list(o.__bases__) + [type(o)]
    if isinstance(o, dict):
        out = []
        for k in list(dict.keys(o)):
            out += [k, dict.__getitem__(o, k)]
        return out + rest(o)
    if isinstance(o, (list, tuple)):
        b = list if isinstance(o, list) else tuple
        return list(b.__iter__(o)) + rest(o)
    if isinstance(o, (set, frozenset)):
        b = set if isinstance(o, set) else frozenset
        return sorted(b.__iter__(o), key=id) + rest(o)
    if isinstance(o, types.FunctionType):
        return [o.__code__, o.__globals__, o.__name__, o.__qualname__, o.__module__, o.__doc__, o.__defaults__, o.__kwdefaults__, o.__dict__, o.__closure__, o.__annotations__]
    if issubclass(type(o), IO):
        return [type(o)]
    if isinstance(o, types.CellType):
        try:
            return [o.cell_contents]
        except ValueError:
            return []
    if isinstance(o, types.GeneratorType):
        return []
    if isinstance(o, itertools.zip_longest):       # its own tuple of iterators has empty slots, which crash CPython
        return sorted((x for x in gc.get_referents(o) if type(x) is not tuple), key=id)
    return sorted(gc.get_referents(o), key=id)


def rest(o):
    """attributes and class of instances of container subclasses"""
    t = type(o)
    if t is dict or t is list or t is tuple or t is set or t is frozenset:
        return []
    out = [type(o)]
    try:
        out.append(object.__getattribute__(o, '__dict__'))
    except (AttributeError, TypeError):
        pass
    return out


def detail(o):
    """state that is not in references"""
    import io, random, array, collections
    t = type(o)
    try:
        if t is io.StringIO or t is io.BytesIO:
            return None if o.closed else (o.tell(), o.getvalue())
        if isinstance(o, (_io._TextIOBase, _io._BufferedIOBase)) and isinstance(getattr(o, 'name', None), str):
            return ('closed',) if o.closed else (o.mode, o.tell() if o.seekable() else None)
        if t is bytearray or t is array.array:
            return bytes(o)
        if t is random.Random:
            return o.getstate()
        if t.__name__ in ('lock', 'RLock'):
            return repr(o)[:20]
        if t.__name__ == '_lru_cache_wrapper':
            return tuple(o.cache_info())
        if t.__module__ == 'numpy' and t.__name__ == 'ndarray':
            return (o.tobytes(), o.flags.writeable, o.shape, str(o.dtype)) if not o.dtype.hasobject else o.shape
    except Exception as e:
        return type(e).__name__
    return None
