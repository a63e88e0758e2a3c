"""C02: dill is a drop-in extension of the standard pickle machinery."""
import collections, copyreg, io, os, pickle, pickletools, subprocess, sys, types
import dill
from .. import fx, fx_hooks as h, gen_cls, gen_data, gen_fn, iso, ns, stdpickle

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 500}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('seeded graphs of objects with logging pickle hooks, picklers customised in every documented way, out-of-band '
        'buffers, histories of several dumps and loads through one Pickler/Unpickler, malformed reductions and arguments; '
        'each run once with pickle and once with dill; every pickle also scanned opcode by opcode. Non-trivial = distinct '
        '(kind, configuration, hook log)')
ASSUMPTIONS = ['the reference is the pure python pickle of this interpreter for dumping and the C one for loading',
               'numpy arrays are stored in-band by dill: out-of-band is checked for types with their own buffer reductions']
FLOORS = {'hook_events': 20000, 'opcode_scans': 3000, 'reuse_histories': 100, 'buffers': 200, 'no_dill_loads': 300}


def cases(ctx):
    q = ctx.quick
    for t, n in [('hooks', 2400), ('custom', 1200), ('buffers', 600), ('reuse', 800), ('bad', 240), ('proto', 240), ('plain', 40), ('py2', 24)]:
        for i in ctx.mine(n * 3 if q else n * 20):
            yield {'t': t, 'i': i}


def graph(r, n, extra=()):
    nodes = []
    for i in range(n):
        c = r.choice(h.TYPES + list(extra))
        if c is h.Global:
            nodes.append(h.GLOB)
            continue
        o = c(i, None) if c is not h.Buffer else c(i, bytes(r.randrange(256) for _ in range(5)))
        nodes.append(o)
    for o in nodes:
        v = r.choice([r.choice(nodes), r.choice(nodes), [r.choice(nodes), 1], {'k': r.choice(nodes)}, (r.choice(nodes),), 5, None, 'x', 0, '', {}])
        if isinstance(o, h.ListLike):
            list.__setitem__(o, 0, v)
        elif isinstance(o, h.DictLike):
            dict.__setitem__(o, 'v', v)
        elif isinstance(o, h.Falsy):
            o.v = r.choice([None, {}, 0, False, v])
        elif not isinstance(o, (h.Buffer, h.Global)):
            o.v = v
    return nodes


def run(fn, *a, **k):
    """(outcome, hook log)"""
    del h.LOG[:]
    try:
        res = ('ok', fn(*a, **k))
    except Exception as e:
        res = ('error', (type(e).__name__, str(e)))
    log = list(h.LOG)
    del h.LOG[:]
    return res, log


def run_case(ctx, case):
    r = ctx.rng(case['t'], case['i'])
    globals()['do_' + case['t']](ctx, case, r)


def scan(ctx, s, p, what, ref=b''):
    """every opcode of the pickle exists in the protocol that was asked for"""
    ctx.count('opcode_scans')
    n = 0
    mods = set()
    strs = []
    # python's own pickle writes TUPLE2 for state setters in every protocol
    newer = {op.name for op, arg, pos in pickletools.genops(ref) if op.proto > p} if ref else ()
    try:
        for op, arg, pos in pickletools.genops(s):
            n += 1
            if op.proto > p and op.name not in newer:
                ctx.violation('opcode', '%s: opcode %s of protocol %d in a pickle of protocol %d' % (what, op.name, op.proto, p))
                break
            if op.name == 'PROTO' and arg != p:
                ctx.violation('opcode', '%s: header names protocol %d, asked for %d' % (what, arg, p))
            if op.name == 'GLOBAL':
                mods.add(arg.split(' ')[0])
            if 'UNICODE' in op.name:
                strs.append(arg)
            if op.name == 'STACK_GLOBAL':
                mods.add('?')
    except Exception as e:
        ctx.violation('opcode', '%s: pickletools cannot read the pickle: %r' % (what, e))
    ctx.count('opcodes', n)
    return mods


def dillway(log):
    """lookups of builtin types are left out: dill names them through its own _load_type"""
    return [x for x in log if not (x[0] == 'find' and (x[1] in ('__builtin__', 'builtins', 'exceptions') or x[1:] in (('dill._dill', '_load_type'), ('functools', 'partial'))))]


def both(ctx, r, what, dump, load, roots, p, aliasok=(), known_diff=None):
    """dump(module)/load(module, bytes) with pickle and with dill: same hook calls, same results"""
    a, la = run(dump, pickle)
    b, lb = run(dump, dill)
    ctx.count('hook_events', len(la))
    if a[0] != b[0] or (a[0] == 'error' and a[1][0] != b[1][0]):
        ctx.violation('dump-outcome', '%s protocol %s: pickle %.300r, dill %.300r' % (what, p, a, b))
        return
    if la != lb:
        i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
        ctx.violation('dump-hooks', '%s protocol %s: hook calls differ from #%d: pickle %r dill %r' % (what, p, i, la[i:i + 3], lb[i:i + 3]))
        return
    if a[0] == 'error':
        ctx.nontrivial(what, p, a[1], la)
        return
    outs = {}
    for wname, s in (('pickle', a[1]), ('dill', b[1])):
        for rname, mod in (('pickle', pickle), ('dill', dill)):
            outs[wname, rname] = run(load, mod, s)
    ref, lref = outs['pickle', 'pickle']
    for k, (res, lg) in outs.items():
        ctx.count('cross_loads')
        if res is ref:
            continue
        if res[0] != ref[0] or (res[0] == 'error' and res[1][0] != ref[1][0]):
            ctx.violation('load-outcome', '%s protocol %s written by %s read by %s: %.300r, expected %.300r' % (what, p, k[0], k[1], res, ref))
            continue
        if dillway(lg) != dillway(lref):
            lg, lref = dillway(lg), dillway(lref)
            i = next((i for i, (x, y) in enumerate(zip(lg, lref)) if x != y), min(len(lg), len(lref)))
            ctx.violation('load-hooks', '%s protocol %s written by %s read by %s: hook calls differ from #%d: %r, expected %r' % (
                what, p, k[0], k[1], i, lg[i:i + 3], lref[i:i + 3]))
            continue
        if res[0] == 'ok':
            d = iso.compare(ref[1], res[1], aliasok=[h.GLOB] + list(aliasok))
            ctx.count('nodes', d.nodes)
            if d.diffs:
                ctx.violation('load-result', '%s protocol %s written by %s read by %s\n%s' % (what, p, k[0], k[1], '\n'.join(d.diffs[:8])))
    ctx.nontrivial(what, p, la, lref)
    return b[1], a[1]


def do_hooks(ctx, case, r):
    nodes = graph(r, r.choice([1, 2, 4, 9, 20]), [h.Global] if r.random() < .3 else [h.Failing] if r.random() < .1 else [])
    p = r.choice([0, 1, 2, 3, 4, 5, 4, -1])
    way = r.randrange(3)

    def dump(m):
        if way == 0:
            return (stdpickle.dumps if m is pickle else dill.dumps)(nodes, p)
        f = io.BytesIO()
        if way == 1:
            (stdpickle.dump if m is pickle else dill.dump)(nodes, f, p)
        else:
            (stdpickle.Pickler if m is pickle else dill.Pickler)(f, p).dump(nodes)
        return f.getvalue()
    s = both(ctx, r, 'hooks', dump, lambda m, s: m.loads(s), nodes, p)
    if s is not None:
        scan(ctx, s[0], 5 if p < 0 else p, 'hooks', s[1])
        if ctx.shard == 0:
            ctx.sample({'types': [type(n).__name__ for n in nodes], 'protocol': p})


def do_custom(ctx, case, r):
    """dispatch tables, reducer_override, persistent ids, subclassing"""
    nodes = graph(r, r.choice([2, 4, 9]), [h.Table, h.Override, h.Persistent, h.Plain])
    for n in nodes:
        if type(n) is h.Persistent:
            n.v = None
    p = r.choice([0, 1, 2, 3, 4, 5])
    use = {k: r.random() < .6 for k in ('table', 'classtable', 'override', 'persistent', 'memo0', 'fast')}
    if use['fast']:
        nodes = [h.Plain(1, [2, (3,)]), h.Table(2, 'x'), {'a': [h.CopyReg(3)]}] * 2
        use['fast'] = True
    pidkind = r.choice(['str', 'int', 'tuple', 'obj', 'none', 'itself'])
    if pidkind == 'itself' and use['persistent']:
        nodes = nodes + [('t', 7), [('t', 8)], {'k': ('t', 7)}]
    store = {}

    def reduce_table(o):
        h.log('table', o.n)
        return h.rebuild, (h.Table, o.n), {'v': o.v, 'n': o.n}

    def reduce_copyreg2(o):
        h.log('copyreg-by-table', o.n)
        return h.rebuild, (h.CopyReg, o.n), {'v': o.v, 'n': o.n}

    def mk(m, f):
        base = stdpickle.Pickler if m is pickle else dill.Pickler

        class P(base):
            if use['classtable']:
                dispatch_table = collections.ChainMap({h.CopyReg: reduce_copyreg2, h.Table: reduce_table}, copyreg.dispatch_table)
            if use['override']:
                def reducer_override(self, o):
                    if isinstance(o, (h.Override, h.Reduce)):
                        h.log('override', o.n)
                        return h.rebuild, (type(o), o.n), {'v': o.v, 'n': o.n}
                    return NotImplemented
            if use['persistent']:
                def persistent_id(self, o):
                    if isinstance(o, h.Persistent):
                        h.log('pid', o.n)
                        key = {'str': 'id%d' % o.n, 'int': o.n, 'tuple': ('t', o.n), 'obj': [o.n], 'none': None, 'itself': ('t', o.n)}[pidkind]
                        if key is not None:
                            store[repr(key)] = o
                        return key
                    if pidkind == 'itself' and type(o) is tuple and o[:1] == ('t',):
                        h.log('pid', o)
                        store[repr(o)] = o
                        return o        # an id of the kind that has ids
                    return None
        x = P(f, p)
        if use['table']:
            x.dispatch_table = dict(copyreg.dispatch_table)
            x.dispatch_table[h.Table] = reduce_table
        if use['fast']:
            x.fast = True
        return x

    def dump(m):
        f = io.BytesIO()
        mk(m, f).dump(nodes)
        return f.getvalue()

    def load(m, s):
        class U(m.Unpickler):
            def persistent_load(self, pid):
                h.log('pload', repr(pid))
                return store[repr(pid)]

            def find_class(self, module, name):
                h.log('find', module, name)
                return super().find_class(module, name)
        return U(io.BytesIO(s)).load()
    what = 'custom %s %s' % (sorted(k for k, v in use.items() if v), pidkind)
    s = both(ctx, r, what, dump, load, nodes, p, aliasok=[n for n in nodes if isinstance(n, h.Persistent)] + (list(store.values()) if pidkind == 'itself' else []))
    if s is not None:
        scan(ctx, s[0], p, 'custom', s[1])


def do_buffers(ctx, case, r):
    nodes = [h.Buffer(i, r.choice([b'', b'abc', b'x' * 70000])) for i in range(r.choice([1, 3]))]
    nodes += [pickle.PickleBuffer(bytearray(b'raw%d' % i)) for i in range(r.randrange(2))]
    nodes += graph(r, 2)
    p = r.choice([5, 5, 5, 5, 4, 3, 0])
    policy = r.choice(['out', 'in', 'mixed', 'none'])
    missing = r.random() < .15
    bufs = {}

    def dump(m):
        got = bufs[m.__name__] = []

        def cb(b):
            n = len(got)
            h.log('callback', bytes(b.raw()))
            got.append(b)
            if policy == 'out':
                return None
            if policy == 'in':
                return True
            return n % 2
        kw = {} if policy == 'none' else {'buffer_callback': cb}
        way = case['i'] % 3
        if way == 0:
            return (stdpickle.dumps if m is pickle else dill.dumps)(nodes, p, **kw)
        f = io.BytesIO()
        if way == 1:
            (stdpickle.dump if m is pickle else dill.dump)(nodes, f, p, **kw)
        else:
            (stdpickle.Pickler if m is pickle else dill.Pickler)(f, p, **kw).dump(nodes)
        return f.getvalue()

    def load(m, s):
        got = bufs['pickle']
        if policy == 'out':
            out = [bytes(b.raw()) for b in got]
        elif policy == 'mixed':
            out = [bytes(b.raw()) for i, b in enumerate(got) if not i % 2]
        else:
            out = None
        if out and missing:
            out = out[:-1]
        if case['i'] % 2:
            return m.loads(s, buffers=out)
        return m.load(io.BytesIO(s), buffers=iter(out) if out is not None else None)
    ctx.count('buffers')
    s = both(ctx, r, 'buffers %s' % policy, dump, load, nodes, p)
    if s is not None:
        scan(ctx, s[0], p, 'buffers', s[1])


def do_reuse(ctx, case, r):
    """histories of dumps through one pickler, read through one unpickler"""
    nodes = [n for n in graph(r, 7) if type(n) is not h.Slotted] or [h.Plain(1)] * 2
    ops = [r.choice(['dump', 'dump', 'dump', 'clear', 'mutate']) for _ in range(r.choice([2, 4, 8]))]
    picks = [r.sample(nodes, min(len(nodes), r.choice([1, 2, 3]))) for _ in ops]
    p = r.choice([0, 1, 2, 3, 4, 5])
    fun = case['i'] % 4 == 0
    if fun:
        f = lambda x, y=[1]: (x, y)

        def g():
            return f, g
        class K:
            def m(self):
                return __class__
        picks = [r.sample([f, g, K, K(), f.__code__] + [h.Plain(1, [f]), h.GetState(2, K)], 2) for _ in ops]
    ctx.count('reuse_histories')

    def dump(m):
        b = io.BytesIO()
        pk = (stdpickle.Pickler if m is pickle else dill.Pickler)(b, p)
        cuts = []
        for i, (op, pick) in enumerate(zip(ops, picks)):
            if op == 'dump':
                pk.dump(pick)
                cuts.append(b.tell())
            elif op == 'clear':
                pk.clear_memo()
                cuts.append('clear')
        return b.getvalue(), cuts

    def load(m, sc):
        s, cuts = sc
        b = io.BytesIO(s)
        u = m.Unpickler(b)
        out = []
        for c in cuts:
            if c == 'clear':
                u = m.Unpickler(b)      # a cleared memo starts a new memo for the reader
            else:
                out.append(u.load())
                if b.tell() != c:
                    raise AssertionError('reader at %d, writer at %d' % (b.tell(), c))
        return out
    if fun:
        a, la = run(dump, dill)
        if a[0] == 'error':
            ctx.violation('reuse', 'several dumps of functions and classes: %r' % (a[1],))
            return
        res, lg = run(load, dill, a[1])
        if res[0] == 'error':
            ctx.violation('reuse', 'loading several dumps of functions and classes: %r' % (res[1],))
            return
        # what one memo spans is one graph
        seg, segs, n = [], [], 0
        for op, pick in zip(ops, picks):
            if op == 'clear':
                segs.append(seg)
                seg = []
            elif op == 'dump':
                seg.append(pick)
        segs.append(seg)
        i = 0
        for seg in segs:
            got = res[1][i:i + len(seg)]
            i += len(seg)
            d = iso.compare(seg, got)
            if d.diffs:
                ctx.violation('reuse', 'history %s protocol %d\n%s' % (ops, p, '\n'.join(d.diffs[:8])))
        ctx.nontrivial('fun', ops, p, [[type(x).__name__ for x in pk] for pk in picks])
        return
    both(ctx, r, 'reuse %s' % (ops,), dump, load, nodes, p)


class NoWrite:
    pass


def do_bad(ctx, case, r):
    """malformed reductions and arguments are refused alike"""
    k = case['i'] % 12
    p = r.choice([0, 1, 2, 3, 4, 5])
    if k < 8:
        o = h.BadReduce(1)
        o.bad = [None, 5, (), (len,), (1, 2), (len, 5), (len, (), None, 5), (len, (), None, None, None, None, None), 'nowhere', 'a.b.c',
                 (h.rebuild, (h.Plain, 1), None, [1]), (copyreg.__newobj__, ()), (copyreg.__newobj__, (int, 3)),
                 (copyreg.__newobj_ex__, (h.Plain, (), {})), (copyreg.__newobj__, (h.Plain,)), (h.rebuild, (h.Plain, 2), {'q': 1}, None, None, 5)][r.randrange(16)]

        def dump(m):
            return (stdpickle.dumps if m is pickle else dill.dumps)([o], p)
        both(ctx, r, 'bad reduction %r' % (o.bad,), dump, lambda m, s: m.loads(s), [o], p)
    elif k == 8:
        pv = r.choice([6, 7, 100, 'x', 2.0, None, -5, True])
        both(ctx, r, 'protocol %r' % (pv,), lambda m: (stdpickle.dumps if m is pickle else dill.dumps)([1, 'a'], pv) if pv != 'x' and pv is not None else
             (stdpickle.dumps if m is pickle else dill.dumps)([1]), lambda m, s: m.loads(s), [1], pv)
    elif k == 9:
        for f in (NoWrite(), None, 5, 'name'):
            both(ctx, r, 'file %r' % type(f), lambda m: (stdpickle.dump if m is pickle else dill.dump)([1], f), lambda m, s: s, [1], p)
            a, _ = run(pickle.load, f)
            b, _ = run(dill.load, f)
            if a[0] != b[0] or a[1][0] != b[1][0]:
                ctx.violation('load-outcome', 'load from %r: pickle %r dill %r' % (f, a, b))
    elif k == 10:
        class S:    # a pickler that was never initialised
            pass
        for base, m in ((stdpickle.Pickler, pickle), (dill.Pickler, dill)):
            class P(base):
                def __init__(self, f):
                    pass
            a, _ = run(lambda: P(io.BytesIO()).dump(1))
            if a[0] != 'error' or a[1][0] != 'PicklingError':
                ctx.violation('dump-outcome', 'uninitialised pickler of %s: %r' % (m.__name__, a))
    else:
        for bad in (b'', b'.', b'garbage', b'\x80\x63.', b'cno_such_module\nx\n.', b'cos\nno_such\n.', b'(lp0\n', b'\x80\x04\x95\xff'):
            a, _ = run(pickle.loads, bad)
            b, _ = run(dill.loads, bad)
            if a[0] != b[0] or a[1][0] != b[1][0]:
                ctx.violation('load-outcome', 'loads(%r): pickle %r dill %r' % (bad, a, b))
            ctx.nontrivial(bad)


def do_proto(ctx, case, r):
    """no opcode newer than the protocol, whatever dill-only types are stored"""
    sp = ns.Space(r.choice(['main', 'nowhere', 'module']), ctx.scratch, 'p%d_' % ctx.shard)
    try:
        if r.random() < .5:
            g = gen_fn.Gen(r)
            src = g.program(5)
            A = sp.run(src)
            objs = {u[0]: A[u[0]] for u in g.units}
        else:
            A = sp.run('import weakref, abc\nclass B:\n    __slots__ = "a"\n    @property\n    def p(self): return 1\n    @classmethod\n    def c(cls): return cls\n'
                       'class K(B, metaclass=abc.ABCMeta):\n    x = {"a": 1}.items()\n    def m(self, y=slice(1, 2)):\n        return __class__\n'
                       'k = K()\nw = weakref.ref(k)\ndef f():\n    return k, f\nx = [f, K, k, w, B.a, vars(K), f.__code__, (lambda: 0).__get__, type(None), ..., range(3)]\n')
            objs = {'x': A['x']}
        for p in range(6):
            for kw in ({}, {'recurse': True}, {'byref': True}):
                try:
                    s = dill.dumps(objs, p, **kw)
                except Exception:
                    ctx.count('refused')
                    continue
                scan(ctx, s, p, 'functions and classes %s' % kw)
    finally:
        sp.close()


LOADER = r'''
import pickle, struct, sys
assert 'dill' not in sys.modules
class Deny:
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] == 'dill':
            raise ImportError('dill is not installed here')
sys.meta_path.insert(0, Deny())
data = sys.stdin.buffer.read()
out = []
i = 0
while i < len(data):
    n, = struct.unpack('<I', data[i:i + 4])
    s = data[i + 4:i + 4 + n]
    i += 4 + n
    try:
        o = pickle.loads(s)
        b = pickle.dumps(o, 4)
    except Exception as e:
        b = b'!' + repr(e).encode()
    sys.stdout.buffer.write(struct.pack('<I', len(b)) + b)
assert 'dill' not in sys.modules
'''


def do_plain(ctx, case, r):
    """plain importable data written by dill needs no dill to load"""
    import struct
    objs, blobs = [], []
    for i in range(24):
        g = strip(gen_data.build(r, r.choice([2, 5, 13]))[0])
        # below protocol 4 sets and objects name builtin types, which dill stores in its own way
        p = r.choice([4, 5])
        try:
            stdpickle.dumps(g, p)
        except Exception:
            continue
        try:
            s = dill.dumps(g, p)
        except Exception as e:
            ctx.violation('dump-outcome', 'plain data: %r' % e)
            continue
        scan(ctx, s, p, 'plain data')
        objs.append((g, p, stdpickle.dumps(g, p)))
        blobs.append(s)
    data = b''.join(struct.pack('<I', len(s)) + s for s in blobs)
    env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    q = subprocess.run([sys.executable, '-c', LOADER], input=data, capture_output=True, env=env)
    if q.returncode:
        raise OSError('loader failed: %s' % q.stderr[-500:])
    i = 0
    for g, p, ref in objs:
        n, = struct.unpack('<I', q.stdout[i:i + 4])
        b = q.stdout[i + 4:i + 4 + n]
        i += 4 + n
        ctx.count('no_dill_loads')
        if b[:1] == b'!':
            ctx.violation('needs-dill', 'protocol %d: a pickle of plain data does not load where dill is missing: %s' % (p, b[1:300]))
            continue
        d = iso.compare(pickle.loads(pickle.dumps(pickle.loads(ref), 4)), pickle.loads(b), aliasok=[fx.SINGLETON])
        if d.diffs:
            ctx.violation('load-result', 'plain data, protocol %d, loaded without dill\n%s' % (p, '\n'.join(d.diffs[:6])))
    ctx.nontrivial(data)


def strip(o):
    """keep to data: no classes, functions or other objects that dill stores in its own ways"""
    ok = (int, float, str, bytes, bool, type(None))

    def walk(x, seen):
        if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
            if id(x) in seen:
                return None
            y = [walk(v, seen | {id(x)}) for v in x]
            return y if type(x) is list else tuple(y)
        if type(x) is dict:
            if id(x) in seen:
                return None
            return {k if isinstance(k, ok) else repr(k): walk(v, seen | {id(x)}) for k, v in x.items()}
        if type(x) in ok or type(x) in (set, frozenset) and all(type(i) in ok for i in x):
            return x
        if type(x) in (fx.Plain, fx.DictSub, fx.ListSub, fx.Slots, fx.Data, fx.StateObj, fx.Rebuilt, fx.NewArgs, fx.CopyReg) and \
                id(x) not in seen:
            if isinstance(x, fx.Plain):
                y = fx.Plain()
                y.__dict__.update({k: walk(v, seen | {id(x)}) for k, v in x.__dict__.items()})
                return y
            if isinstance(x, fx.CopyReg):
                return fx.CopyReg(walk(x.v, seen | {id(x)}))
        return type(x).__name__
    shared = [1, 2]
    return [walk(o, frozenset()), shared, shared]


def do_py2(ctx, case, r):
    """pickles of python 2, with fix_imports/encoding/errors"""
    strs = [b"S'abc'\n.", b"S'\\xe9\\xff'\n.", b'U\x03a\xe9b.', b"(dp0\nS'k\\xe9'\np1\nI1\ns.", b'c__builtin__\nxrange\n.', b'c__builtin__\nunicode\n.',
            b'cUserDict\nIterableUserDict\n.', b'c__builtin__\nreduce\n.', b'cStringIO\nStringIO\n.', b'ccopy_reg\n_reconstructor\n.', b'L5L\n.',
            b'I01\n.', b'I00\n.', b'F1.5\n.', b'Vx\\u4e2d\n.', b'c__builtin__\nlong\n.', b'cexceptions\nValueError\n.']
    for s in strs:
        for kw in ({}, {'encoding': 'latin1'}, {'encoding': 'bytes'}, {'encoding': 'ASCII', 'errors': 'replace'}, {'fix_imports': False},
                   {'encoding': 'utf-8', 'errors': 'surrogateescape'}):
            a, _ = run(pickle.loads, s, **kw)
            b, _ = run(dill.loads, s, **kw)
            ctx.count('py2')
            if a[0] != b[0] or (a[1][0] != b[1][0] if a[0] == 'error' else (type(a[1]), a[1]) != (type(b[1]), b[1])):
                ctx.violation('load-outcome', 'python 2 pickle %r %s: pickle %r dill %r' % (s, kw, a, b))
            ctx.nontrivial(s, sorted(kw.items()))
    objs = [b'abc', 'abc', {'a': b'\xff'}, collections.OrderedDict(a=1), ValueError('x'), collections.UserDict(a=[1]), set([1]), bytearray(b'q'), 2**70]
    for o in objs:
        for p in (0, 1, 2):
            for fi in (True, False):
                a = stdpickle.dumps(o, p, fix_imports=fi)
                b = dill.dumps(o, p, fix_imports=fi)
                ga, gb = globs(a), globs(b)
                if any('_load_type' in x for x in gb):     # dill's own way of naming a builtin type
                    ga, gb = [[x for x in g if not x.startswith(('dill._dill', '__builtin__', 'builtins', 'exceptions'))] for g in (ga, gb)]
                if ga != gb:
                    ctx.violation('fix-imports', 'protocol %d fix_imports=%s %r: names %s, pickle writes %s' % (p, fi, o, gb, ga))

    moved(ctx, r)


def moved(ctx, r):
    """everything that has another name in Python 2 pickles: by pickle and by dill, in all four directions"""
    import _compat_pickle as cp, importlib
    todo = [(m, n) for m, n in cp.REVERSE_NAME_MAPPING]
    for m in cp.REVERSE_IMPORT_MAPPING:
        try:
            mod = importlib.import_module(m)
        except ImportError:
            continue
        todo += [(m, n) for n in r.sample(sorted(vars(mod)), min(6, len(vars(mod))))]
    for m, n in todo:
        try:
            o = getattr(importlib.import_module(m), n)
        except (ImportError, AttributeError):
            continue
        if not isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType)):
            continue        # (dill has its own way of storing some other things)
        for p in r.sample(range(6), 2) + [2]:
            for fi in (True, False):
                try:
                    a = stdpickle.dumps([o], p, fix_imports=fi)
                    if pickle.loads(a, fix_imports=fi)[0] is not o:
                        continue
                except Exception:
                    continue
                ctx.count('moved_names')
                ctx.nontrivial('moved', m, n, p, fi)
                for who, fn in (("pickle's by dill", lambda: dill.loads(a, fix_imports=fi)), ("dill's by dill", lambda: dill.loads(dill.dumps([o], p, fix_imports=fi), fix_imports=fi)),
                                ("dill's by pickle", lambda: pickle.loads(dill.dumps([o], p, fix_imports=fi), fix_imports=fi))):
                    got, _ = run(fn)
                    if got[0] == 'error' or got[1][0] is not o:
                        ctx.violation('moved-names', '%s.%s, protocol %d, fix_imports=%s, %s: %r' % (m, n, p, fi, who, got))


def globs(s):
    return sorted({a for o, a, _ in pickletools.genops(s) if o.name == 'GLOBAL'})
