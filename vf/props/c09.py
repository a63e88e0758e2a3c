"""C09: a pickle loads in a fresh interpreter that shares nothing but importable modules."""
import functools, importlib, json, os, pickle, pickletools, subprocess, sys, types, warnings
import dill
from .. import core, fn_engine, gen_cls, gen_data, gen_fn, gen_glob, iso, ns
from .c05 import NS, may_refuse

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('seeded function programs, class programs, name graphs and data graphs dumped here and loaded in fresh interpreters with other hash seeds, -O levels, '
        'import orders, working directories and loading interfaces; probe outcomes are compared with those of the dumping process. '
        'Non-trivial = (kind of program, templates, outcomes)')
ASSUMPTIONS = ['functions of __main__ are dumped with recurse: otherwise their globals are those of the loading __main__ by design',
               'same machine, python version and installed modules']
FLOORS = {'loaded_elsewhere': 1200, 'probes': 6000, 'interpreters': 16}
BATCH = 60


def cases(ctx):
    n = 96 if ctx.quick else 800
    for i in ctx.mine(n):
        yield {'i': i}


# modules of packages that import little, so that loading has to
TREE = {'pk09/__init__.py': 'value = "pk"\ndef f(): return "pk.f"\nclass K:\n    def m(self): return "pk.K.m"\n    class In:\n        tag = "pk.K.In"\n',
        'pk09/sub.py': 'value = "sub"\ndef f(n=1): return "sub.f", n\nclass K:\n    def m(self): return "sub.K.m"\n    @classmethod\n    def c(cls): return cls.__module__\n    @staticmethod\n    def s(): return "s"\nINST = K()\n',
        'pk09/pk09.py': 'value = "same"\ndef f(): return "same.f"\nclass K:\n    def m(self): return "same.K.m"\n',
        'pk09/deep/__init__.py': 'from .. import value as up\nvalue = "deep"\ndef f(): return "deep.f", up\nclass K:\n    def m(self): return "deep.K.m"\n',
        'pk09/deep/leaf.py': 'import collections\nvalue = "leaf"\ndef f(): return "leaf.f"\nclass K:\n    def m(self): return "leaf.K.m"\nNT = collections.namedtuple("NT", "a b")\n',
        'pk09/hidden.py': 'value = "module hidden"\ndef f(): return "hidden.f"\nclass K:\n    def m(self): return "hidden.K.m"\n',
        'flat09.py': 'import pk09.sub\nvalue = "flat"\ndef f(): return "flat.f"\nclass K(pk09.sub.K):\n    def m(self): return "flat.K.m"\n'}
MODS = ['pk09', 'pk09.sub', 'pk09.pk09', 'pk09.deep', 'pk09.deep.leaf', 'pk09.hidden', 'flat09']


def setup(ctx):
    warnings.simplefilter('ignore')
    ctx.tree = os.path.join(ctx.scratch, 'tree09')
    for n, t in TREE.items():
        os.makedirs(os.path.dirname(os.path.join(ctx.tree, n)), exist_ok=True)
        with open(os.path.join(ctx.tree, n), 'w') as f:
            f.write(t)
    sys.path.insert(0, ctx.tree)
    sys.dont_write_bytecode = True


def modules(ctx, r, id):
    """what is in importable modules, the modules themselves, and functions stored by value that use them"""
    o, units = {}, []
    how = r.choice(['loads', 'file', 'unpickler', 'ignore', 'thread', 'pickle'])
    for i in range(r.choice([1, 2, 4])):
        mn = r.choice(MODS)
        m = importlib.import_module(mn)
        k = r.choice(['mod', 'mod', 'fn', 'cls', 'inst', 'meth', 'lam', 'lamsub', 'clo', 'in', 'part', 'nt', 'cm'])
        n = 'v%d' % i
        if k == 'mod':
            o[n], p = m, ['{n}.__name__', '{n}.value', '{n}.f()', '{n}.K().m()', '__import__("sys").modules[{n}.__name__] is {n}']
        elif k == 'fn':
            o[n], p = m.f, ['{n}()', '{n} is __import__("sys").modules[{n}.__module__].f']
        elif k == 'cls':
            o[n], p = m.K, ['{n}().m()', '{n}.__module__', '{n} is __import__("sys").modules[{n}.__module__].K']
        elif k == 'inst':
            o[n], p = m.K(), ['{n}.m()', 'type({n}).__module__']
        elif k == 'meth':
            o[n], p = m.K().m, ['{n}()']
        elif k in ('lam', 'lamsub'):
            d = {'__name__': 'nowhere09', 'm': m, 'pk': importlib.import_module('pk09')}
            exec({'lam': 'def g(): return m.f(), m.value', 'lamsub': 'def g():\n    import %s as q\n    return q.f(), m.__name__' % mn}[k], d)
            o[n], p = d['g'], ['{n}()']
        elif k == 'clo':
            o[n], p = (lambda m: lambda: (m.f(), m.K().m()))(m), ['{n}()']
            o[n].__module__ = 'nowhere09'
            o[n] = types.FunctionType(o[n].__code__, {'__name__': 'nowhere09'}, 'clo', None, o[n].__closure__)
        elif k == 'in':
            o[n], p = importlib.import_module('pk09').K.In, ['{n}.tag', '{n}.__qualname__']
        elif k == 'part':
            o[n], p = functools.partial(m.f), ['{n}()']
        elif k == 'nt':
            L = importlib.import_module('pk09.deep.leaf')
            o[n], p = r.choice([L.NT(1, 2), L.NT]), ['repr({n})', 'getattr({n}, "a", 0) and {n}.__class__.__module__']
        else:
            o[n], p = importlib.import_module('pk09.sub').K.c, ['{n}()']
        units.append((n, [x.replace('{n}', n) for x in p], 'importable:' + k))
    want = fn_engine.evaluate(units, lambda n: o[n], NS)
    kw = {'recurse': True} if r.random() < .3 else {'byref': True} if r.random() < .2 else {}
    p = r.choice([None, 0, 1, 2, 3, 4, 5])
    return {'id': id, 'bytes': dill.dumps(o, p, **kw), 'how': how, 'units': units, 'want': want, 'info': 'importable %s protocol %s: %s' % (kw, p, [u[2] for u in units])}


def stateful(ctx, r, id):
    """objects whose state is put back by calls made while loading (and so could depend on how the interpreter was started)"""
    import collections, contextlib, decimal, fractions, io, threading, weakref
    o, units = {}, []
    how = r.choice(['loads', 'file', 'unpickler', 'ignore', 'pickle'])
    for i in range(r.choice([2, 4, 6])):
        n, k = 'v%d' % i, r.choice(['lock', 'lock', 'rlock', 'rlock', 'sio', 'bio', 'part', 'proxy', 'cell', 'counter', 'dd', 'od', 'deque', 'exc', 'dec', 'frac',
                                    'view', 'slice', 'code', 'ag', 'ellipsis', 'wref', 'ctx', 'ws', 'gen-fn', 'ag2', 'ba', 'range', 'type'])
        if k == 'lock':
            v, p = threading.Lock(), ['{n}.locked()', '{n}.acquire(False)', '{n}.locked()']
            if r.random() < .6:
                v.acquire()
        elif k == 'rlock':
            v, p = threading.RLock(), ['repr({n}).split(" at ")[0].split("owner")[0]', '{n}.acquire(False)', '{n}._is_owned()', '{n}.release()']
            # (one that is owned belongs to a thread of this process and is refused elsewhere)
        elif k == 'sio':
            v, p = io.StringIO('some\ntext ' * r.randrange(4)), ['{n}.tell()', '{n}.getvalue()', '{n}.read(3)', '{n}.closed']
            v.seek(r.randrange(5))
        elif k == 'bio':
            v, p = io.BytesIO(b'some\ndata ' * r.randrange(4)), ['{n}.tell()', '{n}.getvalue()', '{n}.read(3)', '{n}.closed']
            v.seek(r.randrange(5))
        elif k == 'part':
            v, p = functools.partial(r.choice([max, min, sorted]), [3, r.randrange(9), 1], key=r.choice([None, abs])), ['{n}()', '{n}.keywords']
            v.note = r.randrange(9)
            p.append('{n}.note')
        elif k == 'proxy':
            v, p = types.MappingProxyType({'k': r.randrange(9), 'j': [1]}), ['dict({n})', 'type({n}).__name__']
        elif k == 'cell':
            v, p = r.choice([types.CellType(), types.CellType(r.randrange(9)), types.CellType([1, None])]), ['{n}.cell_contents']
        elif k == 'counter':
            v, p = collections.Counter('abca' * r.randrange(1, 4)), ['sorted({n}.items())', '{n}["zz"]']
        elif k == 'dd':
            v, p = collections.defaultdict(r.choice([list, int, None]), {1: r.randrange(9)}), ['{n}[1]', '{n}["new"]', 'len({n})']
        elif k == 'od':
            v, p = collections.OrderedDict((x, r.randrange(9)) for x in 'cab'), ['list({n}.items())', '{n}.popitem(False)']
        elif k == 'deque':
            v, p = collections.deque(range(r.randrange(6)), r.choice([None, 3, 0])), ['list({n})', '{n}.maxlen', '{n}.append(1)', 'list({n})']
        elif k == 'exc':
            v, p = r.choice([ValueError('a', 1), OSError(2, 'no', 'f'), KeyError('k'), UnicodeDecodeError('utf8', b'x', 0, 1, 'why'), StopIteration(3),
                             ExceptionGroup('g', [ValueError(1), TypeError('x')])]), ['repr({n})', 'str({n})', '{n}.args', 'getattr({n}, "note", None)']
            v.note = r.randrange(9)
        elif k == 'dec':
            v, p = decimal.Decimal(r.choice(['1.50', 'NaN', '-0', 'sNaN', 'Infinity'])), ['repr({n})', '{n}.as_tuple()']
        elif k == 'frac':
            v, p = fractions.Fraction(r.randrange(99), 7), ['repr({n})', '{n} + 1']
        elif k == 'view':
            d = {'a': r.randrange(9), 'b': 2}
            v, p = r.choice([d.keys(), d.values(), d.items()]), ['list({n})', 'type({n}).__name__']
        elif k == 'slice':
            v, p = slice(r.choice([None, 1]), r.randrange(9), r.choice([None, -1])), ['repr({n})', 'list(range(20))[{n}]']
        elif k == 'code':
            v, p = compile('assert q, "no"\nr = q * %d' % r.randrange(9), '<c09>', 'exec'), ['{n}.co_names', '{n}.co_filename', '(lambda d: (exec({n}, d), d["r"])[1])({"q": 3})', '(lambda d: (exec({n}, d), d["r"])[1])({"q": 0})']
        elif k in ('ag', 'ag2'):
            v, p = r.choice([__import__('operator').attrgetter('real', 'imag'), __import__('operator').itemgetter(1, 0), __import__('operator').methodcaller('__add__', 4)]), ['{n}(5)', '{n}([7, 8])']
        elif k == 'ellipsis':
            v, p = r.choice([Ellipsis, NotImplemented, None, type(None), type(Ellipsis)]), ['repr({n})', '{n} is ... or {n} is NotImplemented or {n} is None']
        elif k == 'wref':
            x = decimal.Decimal(r.randrange(9))
            x = collections.Counter(aa=r.randrange(9))
            o[n + 'k'] = x
            v, p = r.choice([weakref.ref(x), weakref.proxy(x)]), ['type({n}).__name__', '(({n}() if type({n}).__name__ == "ReferenceType" else {n}) == {n}k)']
            p[1] = '({n}() if type({n}).__name__ == "ReferenceType" else {n})["aa"]'
        elif k == 'ctx':
            v, p = decimal.Context(prec=r.randrange(1, 9), rounding=decimal.ROUND_UP), ['{n}.prec', '{n}.rounding', 'repr({n}.divide(decimal.Decimal(1), 3))'.replace('decimal.', '__import__("decimal").')]
        elif k == 'ws':
            v, p = types.SimpleNamespace(a=r.randrange(9), b=[1]), ['repr({n})', 'vars({n})']
        elif k == 'gen-fn':
            v, p = contextlib.nullcontext(r.randrange(9)), ['{n}.enter_result', '{n}.__enter__()']
        elif k == 'ba':
            v, p = r.choice([bytearray(b'ab\x00' * r.randrange(3)), __import__('array').array('d', [1.5, r.random()])]), ['repr({n})', '{n}.append(1)', 'len({n})']
        elif k == 'range':
            v, p = r.choice([range(0, 99, 7), range(5, -5, -2)]), ['list({n})', 'repr({n})']
        else:
            v, p = r.choice([type(None), types.CodeType, types.CellType, type({}.keys()), types.MappingProxyType, type(threading.Lock()), types.GenericAlias, list[int], dict[str, list[int]]]), ['repr({n})', '{n}.__name__']
        o[n] = v
        units.append((n, [x.replace('{n}', n) for x in p], 'stateful:' + k))
    p = r.choice([None, 0, 1, 2, 3, 4, 5])
    with warnings.catch_warnings():
        warnings.simplefilter('error', dill.PicklingWarning)
        try:
            s = dill.dumps(o, p)
        except Exception as e:
            ctx.count('refused')
            ctx.count('refused_stateful')
            return None
    want = fn_engine.evaluate(units, lambda n: o[n], NS)
    return {'id': id, 'bytes': s, 'how': how, 'units': units, 'want': want, 'info': 'stateful protocol %s: %s' % (p, [u[2] for u in units])}


FLAGS = [[], ['-O'], ['-OO'], ['-X', 'utf8'], ['-s'], ['-B', '-W', 'ignore'], ['-X', 'dev'], ['-X', 'no_debug_ranges']]
FIRST = [[], ['numpy'], ['cmath', 'pickle', 'copyreg'], ['_pickle', 'abc', 'enum'], ['threading', 'asyncio'], ['json', 'multiprocessing']]


def names_in(s):
    """every string argument of the pickle"""
    out = set()
    for op, arg, pos in pickletools.genops(s):
        if isinstance(arg, str):
            out.add(arg)
            out.update(arg.split(' '))
    return out


def run_case(ctx, case):
    jobs, want = [], {}
    for k in range(BATCH):
        r = ctx.rng('prog', case['i'], k)
        j = make(ctx, r, '%d/%d' % (case['i'], k), FLAGS[case['i'] % len(FLAGS)] == ['-OO'])
        if j is None:
            continue
        w = j.pop('want')
        info = j.pop('info')
        jobs.append(j)
        want[j['id']] = (w, info, j)
    r = ctx.rng('loader', case['i'])
    flags = FLAGS[case['i'] % len(FLAGS)]
    cwd = r.choice([ctx.scratch, '/', core.ROOT])
    job, out = os.path.join(ctx.scratch, 'job%d' % case['i']), os.path.join(ctx.scratch, 'out%d' % case['i'])
    first = r.choice(FIRST) + r.choice([[], [], ['pk09'], ['pk09'], ['pk09.deep'], ['flat09'], MODS])
    with open(job, 'wb') as f:
        pickle.dump({'first': first, 'jobs': jobs}, f)
    env = core.child_env(ctx.scratch, {'PYTHONHASHSEED': str(r.choice([0, 1, 2, 77, 4000000]))})
    env['PYTHONPATH'] = env.get('PYTHONPATH', '') + os.pathsep + ctx.tree
    script = os.path.join(core.ROOT, 'vf', 'loader.py')
    if r.random() < .4:
        cmd = [core.PY] + flags + ['-m', 'vf.loader', job, out]
    else:
        cmd = [core.PY] + flags + [script, job, out]
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, timeout=200)
    ctx.count('interpreters')
    what = 'flags %s, first %s, hashseed %s' % (flags, first, env['PYTHONHASHSEED'])
    if p.returncode or not os.path.exists(out):
        ctx.violation('loader-died', '%s: exit %s\n%s' % (what, p.returncode, p.stderr.decode('utf-8', 'replace')[-2500:]))
        return
    with open(out, encoding='utf-8', errors='surrogatepass') as f:
        res = json.load(f)
    os.unlink(job)
    os.unlink(out)
    if len(res) != len(jobs):
        ctx.violation('loader-died', '%s: %d of %d jobs answered' % (what, len(res), len(jobs)))
    for g in res:
        w, info, j = want[g['id']]
        ctx.count('loaded_elsewhere')
        ctx.count('how_' + j['how'])
        w0 = '%s, %s, loaded by %s' % (what, info, j['how'])
        if 'error' in g:
            ctx.violation('unloadable', '%s: %s' % (w0, g['error']))
            continue
        named = None
        for m in g['imports']:
            named = names_in(j['bytes']) if named is None else named
            if not m.startswith('encodings') and m not in named and not any(x.startswith(m + '.') for x in named):
                ctx.violation('extra-import', '%s: loading had to import %s, which the pickle does not name' % (w0, m))
        ctx.count('imports_seen', len(g['imports']))
        if g['mainkeys']:
            ctx.violation('main-polluted', '%s: loading added %s to __main__' % (w0, g['mainkeys']))
        if 'out' in g:
            for (nm, kind, probe, v), h in zip(w, g['out']):
                ctx.count('probes')
                if v != h:
                    ctx.violation('behaves-differently', '%s: %s (%s) probe %s\n here:  %s\n there: %s' % (w0, nm, kind, probe, v[:700], h[:700]))
            ctx.nontrivial(info, [x[3] for x in w])
        else:
            if g['canon'] != w:
                i = next((i for i, (a, b) in enumerate(zip(w, g['canon'])) if a != b), min(len(w), len(g['canon'])))
                ctx.violation('data-differs', '%s:\n here:  %s\n there: %s' % (w0, w[max(0, i - 100):i + 300], g['canon'][max(0, i - 100):i + 300]))
            ctx.nontrivial(info, w)
    ctx.sample({'loader': what, 'jobs': len(jobs)})


def make(ctx, r, id, OO):
    # (with -OO the doc strings of the standard library are gone, and class probes show some)
    t = r.choice(['fn', 'fn', 'glob', 'data', 'mods', 'stateful'] if OO else ['fn', 'fn', 'cls', 'cls', 'glob', 'data', 'mods', 'stateful'])
    if t == 'mods':
        return modules(ctx, r, id)
    if t == 'stateful':
        return stateful(ctx, r, id)
    proto = r.choice([None, 0, 1, 2, 3, 4, 5])
    how = r.choice(['loads', 'loads', 'file', 'unpickler', 'ignore', 'thread', 'pickle'])
    if t == 'data':
        o = gen_data.build(r, r.choice([5, 20, 60]))
        try:
            s = dill.dumps(o, proto)
        except Exception:
            ctx.count('data_refused')
            return None
        return {'id': id, 'bytes': s, 'how': how, 'want': iso.canon(dill.loads(s), 40), 'info': 'data protocol %s' % proto}
    kind = r.choice(['main', 'nowhere', 'local-main', 'runtime', 'noname'])
    kw = {'recurse': True} if kind in ('main', 'local-main') or r.random() < .3 else {}
    if kind in ('main', 'local-main') and how == 'pickle':
        how = 'loads'
    if t == 'fn':
        g = gen_fn.Gen(r, globals_write='none' if kw else 'self')
        src, units = g.program(r.choice([1, 3, 5]), None), None
    elif t == 'glob':
        g = gen_glob.GlobGen(r, r.choice([4, 8]))
        g.units = [(n, ['(lambda n: %s)(3)' % g.use(n)], g.kind[n]) for n in g.names if g.kind[n] not in ('module', 'builtin', 'unused')]
        if g.counters or not g.units:
            return None
        src = g.source()
        if kind.startswith('local'):
            kind = 'nowhere'
    else:
        g = gen_cls.Gen(r, noname=kind == 'noname')
        src = g.program(r.choice([1, 2, 4]))
    units = g.units
    sp = ns.Space(kind, ctx.scratch, 'x%d_' % ctx.shard)
    try:
        try:
            A = sp.run(src)
        except Exception:
            if t != 'cls':
                raise
            return None
        A = dict(A)
        want = fn_engine.evaluate(units, lambda n: A[n], NS)
        B = sp.run(src)
        if kind == 'main':
            B.pop('vf', None)
        o = {u[0]: B[u[0]] for u in units}
        if r.random() < .5 and len(units) > 1:
            u = r.choice(units)
            units = [u]
            o = {u[0]: B[u[0]]}
            want = [w for w in want if w[0] == u[0]]
        with warnings.catch_warnings():
            warnings.simplefilter('error', dill.PicklingWarning)
            try:
                s = dill.dumps(o, proto, **kw)
            except (dill.PicklingWarning, dill.PicklingError):
                ctx.count('refused')
                return None
            except Exception as e:
                if may_refuse(e, units, proto):
                    return None
                ctx.violation('cannot-dump', '%s in %s %s: %r\n%s' % (t, kind, kw, e, src[:1500]))
                return None
    finally:
        sp.close()
    return {'id': id, 'bytes': s, 'how': how, 'units': units, 'want': want,
            'info': '%s in %s %s protocol %s: %s' % (t, kind, kw, proto, [u[2] for u in units])}
