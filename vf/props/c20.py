"""C20: type registration is honoured and reversible."""
import copyreg, functools, io, pickle, pickletools, types, warnings
import dill

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('random histories of dill.register, dill.pickle, replacing, removing, copyreg registration, extend(True/False) and pickler subclasses with their own tables; a small model says which handler, if any, serves an '
        'object of each type in each pickler (dill.dumps, dill.Pickler, subclasses, pickler instances, the standard python and C picklers), and after every step objects are dumped through them and the handlers that ran are '
        'compared with the model; at the end everything is undone and the registries must be what they were; non-trivial = (history so far, type, pickler)')
ASSUMPTIONS = ['the standard pickler that dill extends is the python one (pickle._Pickler); the C one has no table and must never see a handler',
               'handlers are removed by deleting them from dill.Pickler.dispatch, which is how dill exposes the table']
FLOORS = {'special': 100, 'histories': 300, 'dumps': 20000, 'handler_ran': 3000, 'handler_absent': 5000, 'extend_false': 300, 'extend_true': 300, 'std_dumps': 4000, 'restored': 300}


class A:
    def __init__(self, v=1):
        self.v = v


class B(A):
    pass


class M(type):
    pass


class C(metaclass=M):
    def __init__(self, v=1):
        self.v = v


class M2(M):
    pass


class C2(C, metaclass=M2):
    pass


class L(complex):
    pass


class Slot:
    __slots__ = ('v',)

    def __init__(self, v=1):
        self.v = v


class Red:
    def __init__(self, v=1):
        self.v = v

    def __reduce__(self):
        return Red, (self.v,)


MAKE = {
    'A': (A, lambda: A(2)), 'B': (B, lambda: B(3)), 'L': (L, lambda: L(1, 2)), 'Slot': (Slot, lambda: Slot(3)), 'Red': (Red, lambda: Red(5)), 'M': (M, lambda: C), 'M2': (M2, lambda: C2),
    'complex': (complex, lambda: complex(1, 2)), 'range': (range, lambda: range(3)), 'partial': (functools.partial, lambda: functools.partial(int, base=2)), 'property': (property, lambda: property(len)),
    'function': (types.FunctionType, lambda: (lambda: 1)), 'cell': (types.CellType, lambda: types.CellType(3)), 'set': (set, lambda: {1, 2}), 'bytearray': (bytearray, lambda: bytearray(b'xyz')),
    'mappingproxy': (types.MappingProxyType, lambda: types.MappingProxyType({'a': 1})), 'slice': (slice, lambda: slice(1, 2)), 'frozenset': (frozenset, lambda: frozenset([1])),
    'simplens': (types.SimpleNamespace, lambda: types.SimpleNamespace(a=1)),
}
# what pickle.py and dill do with them when nobody registered anything
DILL_OWN = {'partial', 'property', 'function', 'cell', 'mappingproxy', 'slice', 'M', 'M2'}        # a handler of dill
STD_FAILS = {'property', 'function', 'cell', 'mappingproxy'}        # not picklable without dill
NAMES = sorted(MAKE)
LOG = []


class rebuilt:
    def __init__(self, tag):
        self.tag = tag


def handler(tag):
    """reduces to something that tells who did it"""
    def save(pickler, obj):
        LOG.append(tag)
        pickler.save_reduce(rebuilt, (tag,), obj=obj)
    return save


class Callable:
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, pickler, obj):
        LOG.append(self.tag)
        pickler.save_reduce(rebuilt, (self.tag,), obj=obj)


def delegate(tag, old):
    """lets the previous handler do the work"""
    def save(pickler, obj):
        LOG.append(tag)
        old(pickler, obj)
    return save


def reducer(tag):
    def red(obj):
        LOG.append(tag)
        return rebuilt, (tag,)
    return red


def cases(ctx):
    for i in ctx.mine(900 if ctx.quick else 12000):
        yield {'i': i}


def setup(ctx):
    warnings.simplefilter('ignore')
    import numpy
    dill.copy([numpy.ones(3), numpy.sin, numpy.dtype('i4')])       # dill looks at numpy when it first meets it
    dill.extend()


class Model:
    def __init__(self):
        self.dill = {}          # name -> tag registered with dill
        self.std = {}           # name -> tag that extend() copied to the standard pickler
        self.extended = True
        self.copyreg = {}
        self.subs = []          # (class or instance maker, own: dict name -> tag, or None if it shares dill's table)


def run_case(ctx, case):
    r = ctx.rng(case['i'])
    table = dict(dill.Pickler.dispatch)
    std = dict(pickle._Pickler.dispatch)
    creg = dict(copyreg.dispatch_table)
    hist = []
    case['hist'] = hist
    try:
        if case['i'] % 3 == 0:
            special(ctx, r, table)
        history(ctx, r, hist, table, creg)
        # undo: what dill registered itself is there again, nothing else
        dill.extend(False)
        for name in NAMES:
            t = MAKE[name][0]
            put_back(t, table)
            uncopyreg(t, creg)
        dill.extend(False)
        dill.extend(True)
        ctx.count('restored')
        for what, now, was in (('dill.Pickler.dispatch', dill.Pickler.dispatch, table), ('pickle._Pickler.dispatch', pickle._Pickler.dispatch, std), ('copyreg.dispatch_table', copyreg.dispatch_table, creg)):
            if dict(now) != was:
                ks = [k for k in list(now) + list(was) if now.get(k) is not was.get(k)]
                ctx.violation('not-restored', '%s: %s differs at %s' % (hist, what, ks[:6]))
    finally:
        dill.Pickler.dispatch.clear()
        dill.Pickler.dispatch.update(table)
        pickle._Pickler.dispatch.clear()
        pickle._Pickler.dispatch.update(std)
        copyreg.dispatch_table.clear()
        copyreg.dispatch_table.update(creg)


def uncopyreg(t, creg):
    if t in creg:
        copyreg.dispatch_table[t] = creg[t]
    else:
        copyreg.dispatch_table.pop(t, None)


def put_back(t, table):
    if t in table:
        dill.Pickler.dispatch[t] = table[t]
    else:
        dill.Pickler.dispatch.pop(t, None)


def history(ctx, r, hist, table, creg):
    ctx.count('histories')
    m = Model()
    focus = r.sample([n for n in NAMES if n != 'function'], r.choice([3, 5, 8]))
    n = 0
    for step in range(r.choice([4, 8, 14])):
        op = r.choice(['register', 'register', 'pickle', 'delegate', 'callable', 'remove', 'copyreg', 'uncopyreg', 'extend', 'unextend', 'unextend', 'subclass', 'subregister', 'instance', 'wrongtype'])
        name = r.choice(focus)
        t = MAKE[name][0]
        n += 1
        tag = '%s-%d' % (name, n)
        if op == 'register':
            h = handler(tag)
            if dill.register(t)(h) is not h:
                ctx.violation('decorator', '%s: register(%s) does not return the function' % (hist, name))
            m.dill[name] = tag
        elif op == 'pickle':
            dill.pickle(t, handler(tag))
            m.dill[name] = tag
        elif op == 'callable':
            dill.pickle(t, Callable(tag))
            m.dill[name] = tag
        elif op == 'delegate':
            old = table.get(t)
            if old is None:
                continue
            dill.register(t)(delegate(tag, old))
            m.dill[name] = tag
        elif op == 'remove':
            if name not in m.dill or name in m.std:     # (dill cannot know what is no longer in its table)
                continue
            put_back(t, table)
            del m.dill[name]
        elif op == 'copyreg':
            copyreg.pickle(t, reducer(tag))
            m.copyreg[name] = tag
        elif op == 'uncopyreg':
            if name not in m.copyreg:
                continue
            uncopyreg(t, creg)
            del m.copyreg[name]
        elif op == 'extend':
            dill.extend()
            m.extended = True
            # what is registered with dill goes to the standard pickler; what was removed from dill in between stays until extend(False)
            m.std.update(m.dill)
            for k in list(m.std):
                if k not in m.dill and MAKE[k][0] in table:
                    del m.std[k]
            ctx.count('extend_true')
        elif op == 'unextend':
            dill.extend(False)
            m.extended = False
            for k in list(m.std):
                if k in m.dill or MAKE[k][0] in table:
                    del m.std[k]
            ctx.count('extend_false')
        elif op == 'subclass':
            own = r.random() < .7
            ns = {'dispatch': type(dill.Pickler.dispatch)(dill.Pickler.dispatch)} if own else {}
            K = type('P%d' % n, (dill.Pickler,), ns)
            m.subs.append((K, dict(m.dill) if own else None))
        elif op == 'subregister':
            own = [s for s in m.subs if s[1] is not None and isinstance(s[0], type)]
            if not own:
                continue
            K, tags = r.choice(own)
            K.dispatch[t] = handler(tag)
            tags[name] = tag
        elif op == 'instance':
            disp = type(dill.Pickler.dispatch)(dill.Pickler.dispatch)
            disp[t] = handler(tag)

            def make(out, proto, disp=disp):
                p = dill.Pickler(out, proto)
                p.dispatch = disp
                return p
            m.subs.append((make, dict(m.dill, **{name: tag})))
        elif op == 'wrongtype':
            # a handler for a type nobody dumps
            class Other:
                pass
            dill.register(Other)(handler(tag))
            del dill.Pickler.dispatch[Other]
            op = 'wrongtype'
        hist.append('%s %s' % (op, name) if op not in ('extend', 'unextend') else op)
        for probe in r.sample(focus, min(3, len(focus))) + [r.choice(NAMES)]:
            check(ctx, r, m, probe, hist)
            if ctx.vkeys:
                return


def used(ctx, hist, name, how, act, tag, fails=False, own=None):
    """the handlers that run are just `tag`, or none; `own`: dill's own handler has to have served (True), must not have (False)"""
    del LOG[:]
    ctx.count('dumps')
    ctx.nontrivial(tuple(hist[-6:]), name, how)
    err = data = None
    try:
        data = act()
    except Exception as e:
        err = e
    want = [tag] if tag else []
    if LOG != want:
        ctx.violation('handler', '%s: dumping a %s through %s ran %s, registered is %s (%r)' % (hist, name, how, LOG, want, err))
        return
    if (err is not None) != bool(fails):
        ctx.violation('outcome', '%s: dumping a %s through %s: %r' % (hist, name, how, err if err is not None else data))
        return
    ctx.count('handler_ran' if tag else 'handler_absent')
    if data is None:
        return
    names = globals_of(data)
    if own is not None and any(n.startswith('dill') for n in names) != own:
        ctx.violation('extend', '%s: dumping a %s through %s uses %s of dill' % (hist, name, how, [n for n in names if n.startswith('dill')] if not own else 'nothing'))
    if tag and 'rebuilt' in str(names) and getattr(pickle.loads(data)[0], 'tag', None) != tag:
        ctx.violation('handler', '%s: a %s dumped through %s loads as %r' % (hist, name, how, pickle.loads(data)))


def globals_of(data):
    out, strings = [], []
    for op, arg, pos in pickletools.genops(data):
        if op.name == 'GLOBAL':
            out.append(arg)
        elif op.name == 'STACK_GLOBAL':
            out.append('.'.join(map(str, strings[-2:])))
        elif 'UNICODE' in op.name:
            strings.append(arg)
    return out


def check(ctx, r, m, name, hist):
    obj = MAKE[name][1]()
    root = [obj, obj] if r.random() < .5 else [obj]
    proto = r.choice([2, 3, 4, 5])
    ownd = MAKE[name][0] in OWN

    def expect(tags):
        # the table of the pickler, then copyreg, then the object itself
        return tags.get(name) or (None if ownd else m.copyreg.get(name))
    used(ctx, hist, name, 'dill.dumps', lambda: dill.dumps(root, proto), expect(m.dill))

    def through(K):
        out = io.BytesIO()
        p = K(out, proto)
        p.dump(root)
        return out.getvalue()
    used(ctx, hist, name, 'dill.Pickler', lambda: through(dill.Pickler), expect(m.dill))
    for K, tags in r.sample(m.subs, min(2, len(m.subs))):
        used(ctx, hist, name, getattr(K, '__name__', '') + (' with its own table' if tags is not None else ' sharing the table'), lambda: through(K), expect(m.dill if tags is None else tags))
    # the standard pickler
    ctx.count('std_dumps')
    tag = m.std.get(name)
    if tag is None and not (MAKE[name][0] in STDOWN or m.extended and MAKE[name][0] in OWN):
        tag = m.copyreg.get(name)
    user = tag is not None
    fails = not user and not m.extended and name in STD_FAILS
    own = None if user or fails or name in ('M', 'M2') or m.extended and name not in DILL_OWN else m.extended
    used(ctx, hist, name, 'pickle._Pickler (%s)' % ('extended' if m.extended else 'not extended'), lambda: through(pickle._Pickler), tag, fails, own)
    ctag = m.copyreg.get(name) if MAKE[name][0] not in STDOWN else None
    used(ctx, hist, name, 'pickle.dumps', lambda: pickle.dumps(root, proto), ctag, ctag is None and name in STD_FAILS, False if ctag is None and name not in STD_FAILS else None)


def tables():
    dill.extend(False)
    std = set(pickle._Pickler.dispatch)
    dill.extend(True)
    return std, set(dill.Pickler.dispatch)


STDOWN, OWN = tables()


def special(ctx, r, table):
    """handlers for types that every pickle is full of, and for types dill registers by itself"""
    import numpy
    ctx.count('special')
    for t, make in ((types.FunctionType, lambda: (lambda: 1)), (type, lambda: type('Local', (), {})), (dict, lambda: {'a': 1}), (types.CodeType, lambda: func.__code__), (tuple, lambda: (1, 2)), (str, lambda: 'text'),
                    (types.ModuleType, lambda: types), (bool, lambda: True), (type(None), lambda: None)):
        tag = 'special ' + t.__name__
        before = dill.dumps(make(), 4)
        dill.register(t)(delegate(tag, table[t]))
        for how, act in (('dill.dumps', lambda: dill.dumps(make())), ('dill.Pickler', lambda: dill.Pickler(io.BytesIO()).dump([make()])), ('dill.copy', lambda: dill.copy(make()))):
            del LOG[:]
            act()
            ctx.count('dumps')
            ctx.count('handler_ran')
            if tag not in LOG or set(LOG) != {tag}:
                ctx.violation('handler', 'a handler for %s: %s ran %s' % (t, how, LOG))
        again = dill.dumps(make(), 4)
        put_back(t, table)
        del LOG[:]
        if dill.dumps(make(), 4) != before or LOG:
            ctx.violation('handler', 'a handler for %s still acts after it was removed: %s' % (t, LOG))
        if again != before:
            ctx.violation('handler', 'a handler for %s that only delegates changes the pickle' % t)
    # an array type dill has not met: what the user registered counts, before and after dill met it
    for first in (True, False):
        class Sub(numpy.ndarray):
            pass
        a = numpy.arange(3).view(Sub)
        if not first:
            dill.dumps(a)
        dill.register(Sub)(handler('array'))
        for n in range(2):
            del LOG[:]
            got = dill.copy([a, a])
            ctx.count('dumps')
            if LOG != ['array'] or got[0] is not got[1] or got[0].tag != 'array':
                ctx.violation('handler', 'a handler for a subclass of ndarray, registered %s dill met it: ran %s' % ('before' if first else 'after', LOG))
        dill.Pickler.dispatch.pop(Sub)
    # a handler that raises: the error arrives, and the next dump is as ever
    boom = ValueError('handler')

    def bad(pickler, obj):
        raise boom
    dill.register(A)(bad)
    try:
        dill.dumps([A()])
        ctx.violation('handler', 'the error of a handler is lost')
    except ValueError as e:
        if e is not boom:
            ctx.violation('handler', 'the error of a handler became %r' % e)
    put_back(A, table)
    if dill.copy(A(7)).v != 7:
        ctx.violation('handler', 'after a handler raised')


def func():
    return 1
