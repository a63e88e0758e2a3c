"""C11: weak references point at the copied referent."""
import array, collections, functools, gc, io, re, sys, types, warnings, weakref
import dill
from .. import fx, iso

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 500}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('seeded graphs of up to 6 referents of 24 kinds and up to 8 weak references and proxies, live and dead, callable and not, shared, inside the referents or outside, in any order; '
        'after copying, every reference must be live exactly if the original was, have the type of the original, and lead to the copy of its referent (by identity); then strong references are '
        'dropped and the references have to die; non-trivial = (kinds, where the references are, order, protocol, outcomes)')
ASSUMPTIONS = ['callbacks of weak references are not stored', 'subclasses of weakref.ref (WeakMethod, KeyedRef) are refused with an exception, which is checked']
FLOORS = {'live_references': 8000, 'dead_references': 2000, 'deaths_observed': 4000, 'proxies': 4000, 'refused': 200}


class Weird:
    def __init__(self, n=0): self.n = n


class StrRaises(Weird):
    def __str__(self): raise RuntimeError('str')


class ReprRaises(Weird):
    def __repr__(self): raise RuntimeError('repr')
    __str__ = __repr__


class StrAddr(Weird):
    def __str__(self): return '<thing at 0x%x>' % id(None)


class ReprAddr(Weird):
    def __repr__(self): return '<weakproxy at 0x1 to NoneType at 0x%x>' % id(None)
    __str__ = __repr__


class StrEmpty(Weird):
    def __str__(self): return ''
    __repr__ = __str__


class StrNotStr(Weird):
    def __str__(self): return 7


class AtName(Weird):
    pass


AtName.__name__ = AtName.__qualname__ = 'AtName'


class Uncomparable(Weird):
    __hash__ = None
    def __eq__(self, o): raise RuntimeError('eq')


class Empty(Weird):
    def __len__(self): return 0
    def __bool__(self): raise RuntimeError('bool')


class Caller(Weird):
    def __call__(self, *a): return ('called', self.n, a)


class CallerStr(Caller):
    def __str__(self): raise ReferenceError('not dead')


class Any(Weird):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return ('any', n)


class Slotted:
    __slots__ = ('n', '__weakref__', 'refs')
    def __init__(self, n=0): self.n = n


class ListW(list):
    pass


def mainfun(n):
    def f(*a): return ('f', n, a)
    f.n = n
    return f


def byval(n):
    """an instance of a class that travels by value"""
    C = type('C%d' % n, (), {'__module__': 'nowhere', 'get': lambda self: self.n, '__doc__': None})
    o = C()
    o.n = n
    return o


def byvalcall(n):
    C = type('C%d' % n, (), {'__module__': 'nowhere', '__call__': lambda self, *a: ('called', self.n, a), '__doc__': None})
    o = C()
    o.n = n
    return o


def arr(n):
    import numpy
    return numpy.arange(n + 2)


KINDS = {
    'plain': lambda n: fx.Plain(n=n), 'strraises': StrRaises, 'reprraises': ReprRaises, 'straddr': StrAddr, 'repraddr': ReprAddr,
    'strempty': StrEmpty, 'strnotstr': StrNotStr, 'atname': AtName, 'uncomparable': Uncomparable, 'empty': Empty, 'caller': Caller, 'callerstr': CallerStr,
    'any': Any, 'slotted': Slotted, 'listw': lambda n: ListW([n]), 'set': lambda n: {n, 'x'}, 'frozenset': lambda n: frozenset([n, 'q']),
    'deque': lambda n: collections.deque([n]), 'odict': lambda n: collections.OrderedDict(n=n), 'array': lambda n: array.array('i', [n]),
    'function': mainfun, 'byval': byval, 'byvalcall': byvalcall, 'numpy': arr, 'strsub': lambda n: fx.StrSub('s%d' % n),
    'class': lambda n: type('K%d' % n, (), {'__module__': 'nowhere', 'n': n, '__doc__': None}),
}
# things that are stored by reference: the copy is the object itself
BYREF = {'importedfunction': lambda n: fx.topfunc, 'importedclass': lambda n: fx.Plain, 'builtintype': lambda n: int, 'builtin': lambda n: len, 'module': lambda n: collections}
NAMES = sorted(KINDS)
HAVEDICT = {'plain', 'strraises', 'straddr', 'reprraises', 'repraddr', 'strempty', 'strnotstr', 'atname', 'uncomparable', 'empty', 'caller', 'callerstr', 'any', 'slotted', 'byval', 'byvalcall', 'function', 'strsub', 'listw'}


def cases(ctx):
    for i in ctx.mine(16000 if ctx.quick else 160000):
        yield {'i': i}
    for i in ctx.mine(400 if ctx.quick else 1600):
        yield {'r': i}


def setup(ctx):
    warnings.simplefilter('ignore')


def proxies(o):
    return [w for w in weakref.getweakrefs(o) if type(w) in (weakref.ProxyType, weakref.CallableProxyType)]


def leads(w, o):
    """does the weak reference or proxy w lead to o?"""
    if isinstance(w, weakref.ref):
        return w() is o
    return any(x is w for x in weakref.getweakrefs(o))


def dead(w):
    if type(w) is weakref.ref:
        return w() is None
    try:
        w.__class__
    except ReferenceError:
        return True
    return False


def run_case(ctx, case):
    if 'r' in case:
        return refuse(ctx, case)
    r = ctx.rng('case', case['i'])
    n = r.randrange(1, 7)
    kinds = []
    objs = []
    for j in range(n):
        k = r.choice(NAMES) if r.random() < .93 else r.choice(sorted(BYREF))
        kinds.append(k)
        objs.append((KINDS.get(k) or BYREF[k])(j))
    refs = []           # (reference, referent index or None)
    for j in range(r.randrange(1, 9)):
        t = r.randrange(n)
        mk = r.choice([weakref.ref, weakref.proxy])
        cb = r.random() < .2
        if r.random() < .25:
            k = r.choice(NAMES)
            tmp = KINDS[k](90)
            w = mk(tmp, nothing) if cb else mk(tmp)
            del tmp
            gc.collect(0)
            if not dead(w):
                gc.collect()
            kinds.append('dead ' + k)
            refs.append((w, None))
        else:
            refs.append((mk(objs[t], nothing) if cb else mk(objs[t]), t))
        ctx.count('proxies', mk is weakref.proxy)
    # where the references are: beside the referents, or on an attribute of one of them (that may be its own referent)
    homes = []
    top = []
    for j, (w, t) in enumerate(refs):
        host = r.choice([None] + [i for i in range(n) if kinds[i] in HAVEDICT])
        if host is not None:
            if not hasattr(objs[host], 'refs') or kinds[host] == 'any' and 'refs' not in objs[host].__dict__:
                objs[host].refs = []
            objs[host].refs.append(w)
            homes.append((host, len(objs[host].refs) - 1))
        if host is None or r.random() < .4:
            top.append(j)
            if host is None:
                homes.append(None)
    links = {}
    for j in range(r.randrange(3)):
        a = r.randrange(n)
        if kinds[a] in HAVEDICT and kinds[a] != 'slotted':
            b = r.randrange(n)
            objs[a].link = objs[b]
            links[a] = b
    strong = r.random() < .8 and list(range(n)) or sorted(r.sample(range(n), r.randrange(n)))
    # the pickled graph: strong references to some objects, references directly
    entries = [('o', j) for j in strong] + [('w', j) for j in top] + ([('w', r.choice(top))] if top and r.random() < .4 else [])
    r.shuffle(entries)
    if not entries:
        return
    root = [objs[j] if k == 'o' else refs[j][0] for k, j in entries]
    shape = r.randrange(3)
    obj = {0: root, 1: tuple(root), 2: {i: x for i, x in enumerate(root)}}[shape]
    proto = r.choice([None, 2, 3, 4, 5])
    kw = r.choice([{}, {}, {'recurse': True}, {'byref': False}])
    what = '%s refs %s homes %s entries %s protocol %s %s' % (kinds, [(type(w).__name__, t) for w, t in refs], homes, entries, proto, kw)
    case['what'] = what
    mine = [o for o, k in zip(objs, kinds) if k not in BYREF]
    before = [weakref.getweakrefcount(o) for o in mine]
    try:
        if r.random() < .2:
            f = io.BytesIO()
            dill.dump(obj, f, proto, **kw)
            f.seek(0)
            s = f.getvalue()
            c = dill.load(f)
        else:
            s = dill.dumps(obj, proto, **kw)
            c = dill.loads(s)
    except Exception as e:
        ctx.violation('refused', '%s: %s: %s' % (what, type(e).__name__, str(e)[:500]))
        return
    if before != [weakref.getweakrefcount(o) for o in mine]:
        ctx.violation('original-changed', '%s: weak reference counts of the originals %s became %s' % (what, before, [weakref.getweakrefcount(o) for o in mine]))
    croot = list(c.values()) if shape == 2 else list(c)
    # the copies of the referents, as far as the copied graph reaches them strongly
    copies = {}
    cref = {}
    for (k, j), x in zip(entries, croot):
        tab = copies if k == 'o' else cref
        if j in tab and tab[j] is not x:
            ctx.violation('sharing', '%s: entry %s%d was shared and is two objects' % (what, k, j))
            return
        tab[j] = x
    again = True
    while again:
        again = False
        for a, b in links.items():
            if a in copies and b not in copies:
                copies[b] = copies[a].link
                again = True
    for j in copies:
        if type(copies[j]).__name__ != type(objs[j]).__name__:
            ctx.violation('wrong-object', '%s: referent %d became %r' % (what, j, type(copies[j])))
            return
        if kinds[j] in BYREF:
            if copies[j] is not objs[j]:
                ctx.violation('wrong-object', '%s: %s is not itself' % (what, kinds[j]))
        elif copies[j] is objs[j]:
            ctx.violation('wrong-object', '%s: %s was not copied' % (what, kinds[j]))
            return
    for j, h in enumerate(homes):
        if h is not None and h[0] in copies:
            x = copies[h[0]].refs[h[1]]
            if j in cref and cref[j] is not x:
                ctx.violation('sharing', '%s: reference %d was shared and is two objects' % (what, j))
            cref[j] = x
    outs = []
    for j, x in sorted(cref.items()):
        w, t = refs[j]
        if type(x) is not type(w):
            ctx.violation('reference-type', '%s: reference %d %s became %s' % (what, j, type(w).__name__, type(x).__name__))
            return
        if t is None:
            ctx.count('dead_references')
            outs.append('dead')
            if not dead(x):
                ctx.violation('dead-came-alive', '%s: dead reference %d came back alive' % (what, j))
        elif t in copies:
            ctx.count('live_references')
            outs.append('live')
            if dead(x):
                ctx.violation('live-is-dead', '%s: reference %d to a %s came back dead' % (what, j, kinds[t]))
                return
            elif not leads(x, copies[t]):
                ctx.violation('wrong-referent', '%s: reference %d does not lead to the copy of its referent %d (%s)' % (what, j, t, kinds[t]))
            if type(x) is weakref.CallableProxyType and kinds[t] in ('caller', 'byvalcall', 'function', 'callerstr'):
                if x(1, 'a') != w(1, 'a'):
                    ctx.violation('proxy-call', '%s: calling proxy %d gives %r' % (what, j, x(1, 'a')))
            if type(x) is weakref.ProxyType and kinds[t] in ('plain', 'slotted', 'byval', 'straddr', 'any') and x.n != w.n:
                ctx.violation('proxy-attribute', '%s: proxy %d' % (what, j))
        elif kinds[t] in BYREF:
            if not leads(x, objs[t]):
                ctx.violation('wrong-referent', '%s: reference %d to an importable object' % (what, j))
        else:
            # nothing in the copied graph holds the referent: the reference is dead once the garbage is gone
            outs.append('dropped')
            if not dead(x):
                gc.collect()
            if not dead(x):
                ctx.violation('kept-alive', '%s: reference %d is alive, but nothing in the graph refers to its referent %d (%s)' % (what, j, t, kinds[t]))
    # the originals still are what they were
    for w, t in refs:
        if t is None:
            if not dead(w): ctx.violation('original-changed', what + ': a dead reference came to life')
        elif not leads(w, objs[t]):
            ctx.violation('original-changed', what + ': an original reference changed')
    if not case['i'] % 4:
        watch = [x for j, x in cref.items() if refs[j][1] is not None and kinds[refs[j][1]] not in BYREF]
        owatch = [w for w, t in refs if t is not None and kinds[t] not in BYREF]
        x = w = o = tab = None
        del c, croot, copies, cref, obj, root, objs, refs, mine
        gc.collect()
        for ww, key, t in ((watch, 'kept-alive', 'copy'), (owatch, 'original-kept-alive', 'original')):
            for q in ww:
                ctx.count('deaths_observed')
                if not dead(q):
                    ctx.violation(key, '%s: a referent of the %s outlives its graph' % (what, t))
    ctx.nontrivial(sorted(set(kinds)), sorted(h is None for h in homes), [k for k, j in entries], proto, outs)
    ctx.sample({'graph': what, 'outcomes': outs})


def nothing(*a):
    pass


class SubRef(weakref.ref):
    pass


def refuse(ctx, case):
    """weak kinds that dill has no rule for must be refused, or be right"""
    r = ctx.rng('r', case['r'])
    k = case['r'] // 8 % 4
    o = fx.Plain(n=1)
    w = {0: lambda: weakref.WeakMethod(o.meth), 1: lambda: SubRef(o), 2: lambda: weakref.KeyedRef(o, None, 'k'), 3: lambda: weakref.WeakSet([o])}[k]()
    obj = r.choice([lambda: [o, w], lambda: [w, o], lambda: {'w': w, 'a': o}])()
    ctx.count('refused')
    try:
        s = dill.dumps(obj, r.choice([2, 3, 4, 5]))
    except Exception as e:
        ctx.nontrivial('refused', k, type(e).__name__)
        return
    c = dill.loads(s)
    c = list(c.values()) if isinstance(c, dict) else list(c)
    co = next(x for x in c if type(x) is fx.Plain)
    cw = next(x for x in c if type(x) is not fx.Plain)
    ok = {0: lambda: cw().__self__ is co, 1: lambda: cw() is co and type(cw) is SubRef, 2: lambda: cw() is co and cw.key == 'k', 3: lambda: list(cw)[0] is co}[k]()
    if not ok:
        ctx.violation('wrong-referent', '%r came back as %r' % (w, cw))
    ctx.nontrivial('restored', k)
