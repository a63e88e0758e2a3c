"""C13: a saved session restores the module it was saved from."""
import importlib, io, json, os, pathlib, pickle, subprocess, sys, types, warnings, weakref
import dill
from .. import core, fn_engine, fx, gen_sess, iso, ns
from .c05 import NS, may_refuse

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('seeded module states (functions, classes, imports, shared and cyclic data, self references, odd names) in __main__, importable modules, submodules and module-type objects, saved to paths and streams with all '
        'options; the module is disturbed, the session is loaded in the same process and in a second interpreter, names are compared one by one for isomorphism, functions are probed against a pristine twin and against '
        'the restored variables; non-trivial = (kind of module, options, how it is loaded, outcomes)')
ASSUMPTIONS = ['loading adds and replaces names and never removes any (documented as an update)', 'objects that other modules hold under the same name count as imported with refimported (documented heuristic)',
               'functions of a module-type object keep separate globals']
FLOORS = {'sessions_dumped': 600, 'loaded_here': 500, 'loaded_asdict': 200, 'loaded_elsewhere': 400, 'probes': 6000, 'rebinding_seen': 1000, 'names_compared': 10000, 'neighbour_names': 1500, 'detached': 700, 'awkward_objects': 700}
KINDS = ['main', 'module', 'sub', 'runtime']
BATCH = 12


def cases(ctx):
    for i in ctx.mine(192 if ctx.quick else 1600):
        yield {'i': i}
    for i in ctx.mine(400 if ctx.quick else 3000):
        yield {'i': i, 'detached': True}
    for i in ctx.mine(400 if ctx.quick else 3000):
        yield {'i': i, 'awkward': True}


def setup(ctx):
    warnings.simplefilter('ignore')
    os.chdir(ctx.scratch)


USER = ['det13', 'det13.deep', 'det13.deep.er', 'det13.other', 'det13_top']
SUBS = USER * 4 + ['os.path', 'xml.dom', 'xml.dom.minidom', 'email.mime', 'email.mime.text', 'importlib.util', 'concurrent.futures', 'json.decoder', 'collections.abc', 'logging.handlers', 'dill._dill', 'json', 'math', 'encodings.utf_8', 'urllib.parse', 'multiprocess.pool', 'attr.validators']


def detached(ctx, r):
    """modules that no other module holds at the time of the dump are still stored as imports"""
    kind = r.choice(KINDS)
    sp = ns.Space(kind, ctx.scratch, 'd%d_' % ctx.shard)
    base = os.path.join(ctx.scratch, 'mods')
    if not os.path.exists(os.path.join(base, 'det13_top.py')):
        os.makedirs(os.path.join(base, 'det13', 'deep'), exist_ok=True)
        for f in ('det13/__init__.py', 'det13/deep/__init__.py', 'det13/deep/er.py', 'det13/other.py', 'det13_top.py'):
            with open(os.path.join(base, f), 'w') as h:
                h.write('state = [%r]\n' % f)
        if base not in sys.path:
            sys.path.insert(0, base)
        importlib.invalidate_caches()
    subs = sorted(set(r.sample(SUBS, r.randrange(1, 6))))
    mods = [importlib.import_module(n) for n in subs]
    off, near = {}, None
    try:
        B = sp.run('x = 1\n')
        B.pop('vf', None)
        module = sys.modules['__main__'] if kind == 'main' else sp.mod
        want = {}
        for n, m in zip(subs, mods):
            for name in r.sample([n.rpartition('.')[2], 'held_%d' % len(want), 'math', 'sub', 'path', n.replace('.', '_')], r.randrange(1, 3)):
                B[name] = want[name] = m
        B['pile'] = [r.choice(mods) for _ in range(3)]
        ref = r.random() < .7
        for m in mods:
            if r.random() < .6:
                for h in [x for x in list(sys.modules.values()) if isinstance(x, types.ModuleType) and x is not module and x is not iso and x is not sys.modules[__name__] and not getattr(x, '__name__', '').startswith(('dill', 'pickle', 'importlib'))]:
                    # only where a package keeps its submodule
                    if m.__name__.startswith(getattr(h, '__name__', '-') + '.') and m.__name__ not in ('os.path', 'posixpath', 'importlib.util'):
                        n = m.__name__.rpartition('.')[2]
                        if h.__dict__.get(n) is m:
                            off.setdefault((id(h), n), (h, n, m))
        for h, n, m in off.values():
            delattr(h, n)
        b = io.BytesIO()
        try:
            dill.dump_module(b, module, refimported=ref)
        finally:
            for h, n, m in off.values():
                setattr(h, n, m)
        pile = B['pile']
        for n in want:
            B[n] = 'disturbed'
        B['pile'] = None
        b.seek(0)
        asdict = kind != 'main' and r.random() < .3
        got = dill.load_module_asdict(b) if asdict else dill.load_module(b, module=module)
        C = got if asdict else B
        ctx.count('detached', len(want))
        ctx.nontrivial('detached', kind, ref, asdict, subs, sorted(n for h, n, m in off.values()))
        bad = [n for n in want if C.get(n) is not want[n]]
        if bad or [id(x) for x in C['pile']] != [id(x) for x in pile]:
            ctx.violation('detached', '%s refimported=%s, modules %s, without a holder %s: restored %s' % (kind, ref, {n: m.__name__ for n, m in want.items()}, [m.__name__ for h, n, m in off.values()], {n: C.get(n) for n in bad} or C['pile']))
    except Exception as e:
        import traceback
        ctx.violation('detached-error', '%s modules %s: %r\n%s' % (kind, subs, e, traceback.format_exc()[-700:]))
    finally:
        sp.close()


def told(m):
    """an object with a module of its own"""
    def make(r):
        o = r.choice([fx.Plain, fx.Shy, fx.Answers])()
        o.__dict__['__module__'] = m
        return o
    return make


def dead(r):
    o = fx.Plain()
    p = weakref.proxy(o)
    return p


def live(r):
    KEPT.append(fx.Plain())
    return weakref.proxy(KEPT[-1])


KEPT = []
AWKWARD = {'dead': dead, 'path': lambda r: pathlib.PurePosixPath('/nowhere/%d.py' % r.randrange(9)), 'live': live, 'callable': lambda r: weakref.proxy(fx.topfunc), 'deadref': lambda r: weakref.ref(fx.Plain()), 'num': told(5), 'none': told(None), 'list': told(['threading']), 'bytes': told(b'typing'),
           'empty': told(''), 'threading': told('threading'), 'mp': told('multiprocessing.pool'), 'typing': told('typing'), 'main': told('__main__'), 'shy': lambda r: fx.Shy(2), 'answers': lambda r: fx.Answers(2),
           'module': lambda r: fx.Pretends(1), 'function': lambda r: fx.Pretends(2, types.FunctionType), 'class': lambda r: fx.Pretends(3, type), 'truth': lambda r: fx.NoTruth(4), 'all': lambda r: fx.EqAll(5), 'raises': lambda r: fx.EqRaises(6),
           'nan': lambda r: float('nan'), 'falsy': lambda r: fx.Falsy(8), 'bool': lambda r: r.choice([0, 1, 0.0, 1.0, '', ()])}


def facts(o):
    t = type(o)
    if t in weakref.ProxyTypes:
        try:
            return t.__name__, o.__call__ is None if t is weakref.CallableProxyType else type(o.__repr__()).__name__
        except ReferenceError:
            return t.__name__, 'dead'
    if t is weakref.ref:
        return t.__name__, o() is None
    d = getattr(o, '__dict__', None) if t not in (int, float, str, tuple, pathlib.PurePosixPath) else repr(o)
    return t.__module__, t.__qualname__, repr(sorted(d.items())) if isinstance(d, dict) else d


def awkward(ctx, r):
    """a session of objects that do not like to be looked at"""
    kind = r.choice(KINDS)
    sp = ns.Space(kind, ctx.scratch, 'w%d_' % ctx.shard)
    try:
        B = sp.run('x = 1\nimport math as m, json\nfrom math import sin\n')
        B.pop('vf', None)
        module = sys.modules['__main__'] if kind == 'main' else sp.mod
        picked = r.sample(sorted(AWKWARD), r.randrange(1, 7))
        # under a name of their own, or under one other modules have
        names = {n: r.choice(['o_' + n, 'o_' + n, '__author__', '__all__', '_sys', 'path', 'Any', 'Lock', 'Pool', 'error', 'o-' + n, 'exit', '__path__', '__package__']) for n in picked}
        if kind != 'main' and r.random() < .3:
            names[r.choice(['path', 'num', 'list', 'bytes', 'bool'])] = '__file__'
        for n, v in names.items():
            B[v] = AWKWARD[n](r)
        B['kept'] = KEPT[:]     # referents of live proxies
        KEPT.clear()
        want = {v: facts(B[v]) for v in names.values()}
        dup = r.choice(sorted(want))
        B['again'] = B[dup]
        ref = r.random() < .7
        b = io.BytesIO()
        dill.dump_module(b, module, refimported=ref)
        b.seek(0)
        asdict = r.random() < .3
        if not asdict:
            for v in want:
                B[v] = 'disturbed'
            B['again'] = B['sin'] = None
        with warnings.catch_warnings():
            warnings.simplefilter('error', dill.UnpicklingWarning)
            got = dill.load_module_asdict(b) if asdict else dill.load_module(b, module=module)
        C = got if asdict else B
        ctx.count('awkward_objects', len(want))
        ctx.nontrivial('awkward', kind, ref, asdict, sorted(names.items()))
        import math
        have = {v: facts(C[v]) if v in C else 'missing' for v in want}
        bad = {v: (want[v], have[v]) for v in want if want[v] != have[v]}
        if bad or C['again'] is not C[dup] and want[dup][0] != 'builtins' or C['sin'] is not math.sin or C['m'] is not math:
            ctx.violation('awkward', '%s refimported=%s %s %s: restored %s; alias of %s %s' % (kind, ref, names, 'asdict' if asdict else 'in place', bad, dup, C['again'] is C[dup]))
    except Exception as e:
        import traceback
        ctx.violation('awkward-error', '%s refimported=%s %s: %r\n%s' % (kind, locals().get('ref'), locals().get('names'), e, traceback.format_exc()[-700:]))
    finally:
        sp.close()


def run_case(ctx, case):
    if case.get('awkward'):
        return awkward(ctx, ctx.rng('awkward', case['i']))
    if case.get('detached'):
        return detached(ctx, ctx.rng('detached', case['i']))
    jobs, want, spaces = [], {}, []
    try:
        for k in range(BATCH):
            r = ctx.rng('sess', case['i'], k)
            one(ctx, r, '%d/%d' % (case['i'], k), jobs, want, spaces, KINDS[(case['i'] // 8 + k) % 4])
        elsewhere(ctx, case, jobs, want)
    finally:
        for sp in spaces:
            sp.close()


def neighbour(r, before, prog):
    """a module with values under the same names that are equal and not the same; what it holds has nothing to do with the session"""
    m = types.ModuleType('nb13_near')
    for n in prog.vars + prog.odd + [u[0] for u in prog.units]:
        v = before.get(n)
        if type(v) is types.FunctionType:
            c = types.FunctionType(v.__code__, {'__name__': 'nb13_near'}, v.__name__, v.__defaults__, v.__closure__)
        else:
            try:
                c = pickle.loads(pickle.dumps(v, 4))
            except Exception:
                continue
        if c is not v:
            setattr(m, n, c)
    return m


def targets(ctx, r, i):
    path = os.path.join(ctx.scratch, 'sess-%s.pkl' % i.replace('/', '-'))
    return r.choice(['path', 'path', 'pathlike', 'bytesio', 'file', 'raw', 'relative']), path


def one(ctx, r, id, jobs, want, spaces, kind):
    proto = r.choice([None, None, 2, 3, 4, 5, 0, 1])
    prog = gen_sess.Program(r, classes=proto not in (0, 1), data=proto not in (0, 1))
    prog.nofold = proto in (0, 1, 2, 3)     # below protocol 4 datetime itself leaves the fold out
    ref = r.random() < .5
    sp = ns.Space(kind, ctx.scratch, 'q%d_' % ctx.shard)
    spaces.append(sp)
    try:
        A = sp.run(prog.src)
    except Exception:
        if not prog.classes:
            raise
        ctx.count('program_does_not_run')
        return
    A = dict(A) if kind == 'main' else A
    A.pop('fx', None)
    names = [u[0] for u in prog.units]
    outs = fn_engine.evaluate(prog.units, A.__getitem__, NS)
    B = sp.run(prog.src)
    if kind == 'main':
        B.pop('vf', None)
    module = sys.modules['__main__'] if kind == 'main' else sp.mod
    prog.attach(B, module)
    before = dict(B)
    how, path = targets(ctx, r, id)
    what = '%s refimported=%s protocol %s to %s, imports %s, self references %d, units %s' % (kind, ref, proto, how, prog.imports, prog.selfref, [u[2] for u in prog.units])
    near = neighbour(r, before, prog) if r.random() < .5 else None
    old = dict(dill.settings)
    if proto is not None:
        dill.settings['protocol'] = proto
    kw = r.choice([{}, {}, {'recurse': True}, {'byref': True} if not ref and False else {}, {'fmode': 1}])
    arg = r.choice([module, sp.name]) if kind in ('module', 'sub') else module
    if kind == 'main' and r.random() < .7:
        arg = None
    if near:
        ctx.count('neighbour_names', len(near.__dict__))
        sys.modules[near.__name__] = near
    modules = dict(sys.modules)
    with warnings.catch_warnings():
        warnings.simplefilter('error', dill.PicklingWarning)
        try:
            data = save(how, path, arg, ref, kw)
        except (dill.PicklingWarning, dill.PicklingError) as e:
            if any(iso.leads_back(x) for x in list(before.values()) if isinstance(x, type)) or prog.classes and 'leads' not in str(e) and any(isinstance(x, type) for x in before.values()):
                ctx.count('refused')
                return
            ctx.violation('cannot-dump', '%s: %r\n%s' % (what, e, prog.src[:1500]))
            return
        except Exception as e:
            if may_refuse(e, prog.units, proto):
                ctx.count('refused')
                return
            ctx.violation('cannot-dump', '%s: %s: %s\n%s' % (what, type(e).__name__, e, prog.src[:1500]))
            return
        finally:
            dill.settings.clear()
            dill.settings.update(old)
            if near:
                near.__dict__.update({n: ('of the neighbour', n) for n in near.__dict__ if not n.startswith('__')})
                if r.random() < .5:
                    del sys.modules[near.__name__], modules[near.__name__]
                what += ', a neighbour has %s' % sorted(n for n in near.__dict__ if not n.startswith('__'))
    ctx.count('sessions_dumped')
    ctx.count('kind_' + kind)
    # dumping leaves the module and the interpreter as they were
    if list(B) != list(before) or any(B[n] is not before[n] for n in before):
        ctx.violation('dump-changed-module', '%s: names changed: %s' % (what, [n for n in set(B) | set(before) if B.get(n, ctx) is not before.get(n, ctx)][:8]))
        return
    if any(sys.modules.get(n) is not m for n, m in modules.items()) or module is not (sys.modules['__main__'] if kind == 'main' else sys.modules.get(sp.name, module)):
        ctx.violation('dump-changed-modules', what)
    if r.random() < .1:
        renamed(ctx, r, what, path, arg, ref)
    # a dict of it first, then the module itself
    if r.random() < .5:
        asdict(ctx, r, what, data, path, how, B, before, module, kind, ref, prog, outs)
    # the second interpreter gets it too
    jobs.append({'id': id, 'session': True, 'bytes': data, 'how': r.choice(['stream', 'path', 'raw', 'pipe']), 'kind': kind, 'name': sp.name, 'units': prog.units, 'vars': prog.vars + prog.odd,
                 'accessors': prog.vars, 'passmodule': r.random() < .3, 'imports': prog.imports, 'ref': ref})
    want[id] = (outs, what, iso.canon([before[n] for n in prog.vars + prog.odd], 30), sorted(before), kind)
    # disturb the module, then restore it
    gone = [n for n in before if not n.startswith('__') and r.random() < .4]
    for n in gone:
        if r.random() < .5:
            del B[n]
        else:
            B[n] = ('disturbed', n)
    B['fresh_name'] = fresh = ['only here']
    mode = r.choice(['default', 'default', 'module', 'new'] if kind == 'runtime' else ['default', 'default', 'module', 'name'])
    live = dict(B)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('error', dill.UnpicklingWarning)
            target = {'default': None, 'module': module, 'new': types.ModuleType(sp.name), 'name': sp.name}[mode]
            src = source(r, data, path, how)
            old = r.random()
            if old < .1:
                got = dill.load_module(src, main=target)
            elif old < .2 and (kind == 'main' or mode in ('module', 'new')):
                got = dill.load_session(src, main=target)
            elif old < .3:
                got = dill.load_module(src, target)
            else:
                got = dill.load_module(src, **({} if target is None else {'module': target}))
    except Exception as e:
        import traceback
        ctx.violation('cannot-load', '%s, load into %s: %s: %s\n%s' % (what, mode, type(e).__name__, e, traceback.format_exc()[-900:]))
        return
    ctx.count('loaded_here')
    what += ' load into ' + mode
    if mode == 'name':
        target = module
    res = module if kind != 'runtime' or mode == 'module' else got if mode == 'default' else target
    wantret = None if kind == 'main' or mode in ('module', 'new') else res
    if got is not wantret:
        ctx.violation('return-value', '%s: load_module returned %r' % (what, got))
        if res is None:
            return
    if type(res) is not types.ModuleType or res.__name__ != sp.name:
        ctx.violation('wrong-module', '%s: the loaded module is %r' % (what, res))
        return
    if kind == 'runtime' and mode == 'default' and (res is module or any(B.get(n, ctx) is not live.get(n, ctx) for n in set(B) | set(live))):
        ctx.violation('wrong-module', '%s: the live module-type object was changed' % what)
    if [n for n in sys.modules if n.startswith('__runtime__')]:
        ctx.violation('stray-module', '%s: sys.modules has %s' % (what, [n for n in sys.modules if n.startswith('__runtime__')]))
    C = res.__dict__
    if C is B and C.get('fresh_name') is not fresh:
        ctx.violation('lost-name', '%s: a name that is not in the session is gone' % what)
    same(ctx, what, before, C, B, module, res, ref, kind, prog)
    behave(ctx, what, C, res, prog, outs, shared=kind != 'runtime')
    ctx.nontrivial(kind, ref, proto, how, mode, sorted(kw), [u[2] for u in prog.units])
    ctx.sample({'session': what[:400]})


def renamed(ctx, r, what, path, arg, ref):
    """the old names of functions and parameters still do, and say so"""
    out = []
    for call in (lambda b: dill.dump_module(b, arg, ref), lambda b: dill.dump_module(b, main=arg, byref=ref), lambda b: dill.dump_session(b, arg, ref), lambda b: dill.dump_session(b, main=arg, byref=ref)):
        b = io.BytesIO()
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            call(b)
        out.append((b.getvalue(), sum(issubclass(x.category, PendingDeprecationWarning) for x in w)))
    ctx.count('renamed')
    if len({o for o, n in out}) != 1:
        ctx.violation('renamed', '%s: the old names give another session: %s' % (what, [len(o) for o, n in out]))
    if [bool(n) for o, n in out] != [False, True, True, True]:
        ctx.violation('renamed', '%s: deprecation warnings %s' % (what, [n for o, n in out]))
    for kw in ({'module': arg or '__main__', 'main': arg}, {'refimported': True, 'byref': ref}):
        b = io.BytesIO(b'untouched')
        try:
            dill.dump_module(b, **kw)
            ctx.violation('renamed', '%s: dump_module(%s) was accepted' % (what, kw))
        except TypeError:
            pass
    for f, kw in ((dill.load_module, {'module': '__main__', 'main': '__main__'}), (dill.load_module_asdict, {'module': '__main__'})):
        try:
            f(io.BytesIO(out[0][0]), **kw)
            ctx.violation('renamed', '%s: %s(%s) was accepted' % (what, f.__name__, kw))
        except TypeError:
            pass


def save(how, path, arg, ref, kw):
    if how in ('path', 'relative', 'pathlike'):
        p = {'path': path, 'relative': os.path.relpath(path), 'pathlike': pathlib.Path(path)}[how]
        dill.dump_module(p, arg, ref, **kw)
    elif how == 'bytesio':
        b = io.BytesIO()
        dill.dump_module(b, module=arg, refimported=ref, **kw)
        if b.closed:
            raise AssertionError('the stream was closed')
        return b.getvalue()
    else:
        with open(path, 'wb', **({'buffering': 0} if how == 'raw' else {})) as f:
            dill.dump_module(f, module=arg, refimported=ref, **kw)
            f.write(b'')
    with open(path, 'rb') as f:
        return f.read()


def source(r, data, path, how):
    if how == 'bytesio' or r.random() < .4:
        return io.BytesIO(data)
    return r.choice([path, pathlib.Path(path), os.path.relpath(path)])


SKIP = {'__builtins__', '__loader__', '__spec__', '__session__', '__cached__', '__file__', '__package__', '__name__', 'fresh_name', '__annotations__'}


def imported_ids(before, module):
    """ids of objects other modules hold under a name (what refimported may store as an import)"""
    byname = {}
    for mn, m in list(sys.modules.items()):
        if isinstance(m, types.ModuleType) and m is not module and mn not in ('__main__', '__mp_main__'):
            for n, v in list(m.__dict__.items()):
                if n in before and before[n] is v:
                    byname[n] = v
    return byname


def same(ctx, what, before, C, B, module, res, ref, kind, prog):
    names = [n for n in before if n not in SKIP]
    missing = [n for n in names if n not in C]
    if missing:
        ctx.violation('name-missing', '%s: names %s are missing' % (what, missing[:8]))
        return
    byname = imported_ids(before, module) if ref else {}
    for n, v in byname.items():
        if n in C and n in before and C[n] is not v and not isinstance(v, (int, str, float, bytes, tuple, types.ModuleType)):
            ctx.violation('import-lost', '%s: imported name %s became a different object (%r)' % (what, n, C[n]))
    for n in list(names):
        v = before[n]
        if v is module:
            names.remove(n)
            if C[n] is not res:
                ctx.violation('self-reference', '%s: %s is not the loaded module but %r' % (what, n, C[n]))
        elif v is B:
            names.remove(n)
            if C[n] is not C:
                ctx.violation('self-reference', '%s: %s is not the namespace of the loaded module' % (what, n))
        elif n == 'deep':
            names.remove(n)
            if C[n]['mod'][0] is not res or C[n]['dict'][0] is not C:
                ctx.violation('self-reference', '%s: inner references to the module or its namespace are %r' % (what, list(C[n])))
        elif n in byname:
            names.remove(n)
        elif isinstance(v, types.ModuleType):
            names.remove(n)
            if C[n] is not v:
                ctx.violation('import-lost', '%s: module %s became %r' % (what, n, C[n]))
    # same process: values of the session are compared as one graph, so sharing between names counts
    d = iso.compare([before[n] for n in names], [C[n] for n in names], checkglobals=False, mine=module.__name__)
    ctx.count('names_compared', len(names))
    ctx.count('nodes', d.nodes)
    if prog.nofold:
        d.diffs = [x for x in d.diffs if 'fold=1' not in x]
    if d.diffs:
        ctx.violation('not-isomorphic', '%s\n%s\n%s' % (what, names, '\n'.join(d.diffs)))


def behave(ctx, what, C, res, prog, outs, shared):
    """functions of the session see the session's variables; everything acts like the pristine twin"""
    from operator import is_
    for n, u in ((u[0], u) for u in prog.units):
        if n not in C:
            ctx.violation('name-missing', '%s: %s' % (what, n))
            return
    for v in prog.vars:
        f = C['get_' + v]
        if shared:
            if f() is not C[v]:
                ctx.violation('globals-apart', '%s: a function reads %s as %r, the module has %r' % (what, v, iso.srepr(f()), iso.srepr(C[v])))
                return
            mark = object()
            old = C[v]
            C[v] = mark
            ctx.count('rebinding_seen')
            if f() is not mark:
                ctx.violation('globals-apart', '%s: a restored function does not see the module variable %s rebound' % (what, v))
            C['put_' + v](7)
            if C[v] != 7:
                ctx.violation('globals-apart', '%s: a restored function writes %s somewhere else' % (what, v))
            C[v] = old
    got = fn_engine.evaluate(prog.units, C.__getitem__, NS)
    for w, h in zip(outs, got):
        ctx.count('probes')
        if w != h:
            ctx.violation('behaves-differently', '%s: %s (%s) probe %s\n original: %s\n restored: %s' % (what, w[0], w[1], w[2], w[3][:600], h[3][:600]))


def asdict(ctx, r, what, data, path, how, B, before, module, kind, ref, prog, outs):
    modules = dict(sys.modules)
    what += ' asdict'
    try:
        d = dill.load_module_asdict(source(r, data, path, how))
    except Exception as e:
        ctx.violation('cannot-load', '%s: %s: %s' % (what, type(e).__name__, e))
        return
    ctx.count('loaded_asdict')
    if list(B) != list(before) or any(B[n] is not before[n] for n in before):
        ctx.violation('asdict-changed-module', '%s: %s' % (what, [n for n in set(B) | set(before) if B.get(n, ctx) is not before.get(n, ctx)][:8]))
    if {n: m for n, m in sys.modules.items() if n in modules} != modules or any(n.startswith('__runtime__') for n in sys.modules):
        ctx.violation('asdict-changed-modules', '%s: sys.modules %s' % (what, [n for n in sys.modules if modules.get(n) is not sys.modules[n]][:5]))
    if type(d) is not dict or d is B or '__session__' not in d:
        ctx.violation('asdict-result', '%s: %r' % (what, type(d)))
        return
    if prog.selfref and (d['space'] is not d or d['me'] is module or d['me'].__dict__ is not d):
        ctx.violation('self-reference', '%s: the dictionary refers to the live module' % what)
    same(ctx, what, before, d, B, module, d.get('me'), ref, kind, prog)
    behave(ctx, what, d, None, prog, outs, shared=kind != 'runtime')
    if list(B) != list(before) or any(B[n] is not before[n] for n in before):
        ctx.violation('asdict-changed-module', '%s, after calling its functions: %s' % (what, [n for n in set(B) | set(before) if B.get(n, ctx) is not before.get(n, ctx)][:8]))
        B.clear()
        B.update(before)


def elsewhere(ctx, case, jobs, want):
    r = ctx.rng('loader', case['i'])
    job, out = os.path.join(ctx.scratch, 'job%d' % case['i']), os.path.join(ctx.scratch, 'out%d' % case['i'])
    with open(job, 'wb') as f:
        pickle.dump({'first': [], 'jobs': jobs}, f)
    env = core.child_env(ctx.scratch, {'PYTHONHASHSEED': str(r.choice([0, 1, 77]))})
    env['PYTHONPATH'] += os.pathsep + os.path.join(ctx.scratch, 'mods')
    cmd = [core.PY, os.path.join(core.ROOT, 'vf', 'loader.py'), job, out]
    p = subprocess.run(cmd, cwd=ctx.scratch, env=env, capture_output=True, timeout=300)
    ctx.count('interpreters')
    if p.returncode or not os.path.exists(out):
        ctx.violation('loader-died', 'exit %s\n%s' % (p.returncode, p.stderr.decode('utf-8', 'replace')[-2500:]))
        return
    with open(out, encoding='utf-8', errors='surrogatepass') as f:
        res = json.load(f)
    for g in res:
        outs, what, canon, names, kind = want[g['id']]
        what += ' in a second interpreter'
        if 'error' in g:
            ctx.violation('cannot-load', '%s: %s' % (what, g['error']))
            continue
        ctx.count('loaded_elsewhere')
        miss = [n for n in names if n not in g['names'] and n not in SKIP]
        if miss:
            ctx.violation('name-missing', '%s: %s' % (what, miss[:8]))
            continue
        if g['problems']:
            ctx.violation('elsewhere-problem', '%s: %s' % (what, g['problems']))
        w, g['canon'] = (t.replace(', fold=1', '') for t in (canon, g['canon']))
        if g['canon'] != w:
            i = next((i for i, (a, b) in enumerate(zip(w, g['canon'])) if a != b), min(len(w), len(g['canon'])))
            ctx.violation('data-differs', '%s:\n here:  %s\n there: %s' % (what, w[max(0, i - 100):i + 300], g['canon'][max(0, i - 100):i + 300]))
        for w, h in zip(outs, g['out']):
            ctx.count('probes')
            if w[3] != h:
                ctx.violation('behaves-differently', '%s: %s (%s) probe %s\n original: %s\n restored: %s' % (what, w[0], w[1], w[2], w[3][:600], h[:600]))
    for f in (job, out):
        os.unlink(f)
