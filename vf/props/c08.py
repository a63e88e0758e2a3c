"""C08: recurse stores exactly the globals a function can reach."""
import builtins, dis, functools, sys, types, warnings
import dill
from .. import fx, gen_early, gen_glob, iso, ns
from .c13 import AWKWARD, KEPT, facts

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 500}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('seeded namespaces of 3-12 symbols of 24 kinds (functions, classes, instances, closures, partials, containers of functions, data) that name '
        'each other through 34 syntactic forms, plus poisoned globals no code names; a symbol or several are dumped with recurse, the namespace is '
        'destroyed, and the copies are called; globals and variables that do not like to be looked at (dead proxies, pretended classes, odd attributes). Non-trivial = (namespace kind, symbol kinds, forms, reads) seen')
ASSUMPTIONS = ['a global counts as reachable when any code reachable from the dumped object names it by a global or class-body name instruction',
               'functions that only share state through writing globals are compared one by one: with recurse each function owns its globals']
FLOORS = {'copies': 2000, 'global_reads': 7000, 'poison_objects': 5000, 'functions_in_copies': 5000, 'outcomes_compared': 1500, 'early_loaded': 300, 'awkward_calls': 350}
KINDS = ['nowhere', 'main', 'runtime', 'nowhere', 'noname', 'module-late']
GLOBAL_OPS = {'LOAD_GLOBAL', 'STORE_GLOBAL', 'DELETE_GLOBAL', 'LOAD_NAME', 'STORE_NAME', 'DELETE_NAME', 'LOAD_FROM_DICT_OR_GLOBALS', 'LOAD_CLASSDEREF'}
TOUCHED = []


class Poison:
    def __init__(self, name):
        self.name = name

    def __reduce_ex__(self, p):
        TOUCHED.append(self.name)
        raise TypeError('poisoned global %s was stored' % self.name)


def boom(name):
    raise TypeError('poisoned global %s was loaded' % name)


class Unloadable(Poison):
    def __reduce_ex__(self, p):
        TOUCHED.append(self.name)
        return boom, (self.name,)


class Rec(dict):
    """a namespace that notes which of its names executing code reads"""
    def __init__(self, *a):
        dict.__init__(self, *a)
        self.reads = set()

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        self.reads.add(k)
        return v


def cases(ctx):
    for i in ctx.mine(4000 if ctx.quick else 80000):
        yield {'i': i}
    for i in ctx.mine(64):
        yield {'i': i, 'shadow': True}
    for i in ctx.mine(800 if ctx.quick else 8000):
        yield {'i': i, 'early': True}
    for i in ctx.mine(800 if ctx.quick else 8000):
        yield {'i': i, 'awkward': True}


def setup(ctx):
    warnings.simplefilter('ignore')
    warnings.simplefilter('error', dill.PicklingWarning)     # a class that leads back to itself: refused, or in __main__ this warning


def code_names(co, out):
    for ins in dis.get_instructions(co):
        if ins.opname in GLOBAL_OPS:
            out.add(ins.argval)
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            code_names(c, out)
    return out


def walk(roots, visit):
    """everything reachable by value from the roots"""
    seen, todo = {}, list(roots)
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if isinstance(o, (str, bytes, int, float, types.ModuleType, types.BuiltinFunctionType, types.NoneType)):
            continue
        if isinstance(o, (list, tuple, set, frozenset)):
            todo += o
        elif isinstance(o, dict):
            todo += list(o.keys()) + list(o.values())
        elif isinstance(o, types.FunctionType):
            todo += visit(o)
            todo += [o.__defaults__, o.__kwdefaults__, o.__dict__, o.__annotations__]
            for c in o.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
        elif isinstance(o, types.MethodType):
            todo += [o.__func__, o.__self__]
        elif isinstance(o, functools.partial):
            todo += [o.func, o.args, o.keywords]
        elif isinstance(o, type):
            if not iso.importable(o):
                todo += [v for k, v in vars(o).items() if k != '__dict__'] + list(o.__bases__)
        elif hasattr(o, '__dict__'):
            todo += [o.__dict__, type(o)]


def reachable_names(roots):
    names = set()

    def visit(f):
        if iso.importable(f):
            return []       # stored by reference: its code is not reached
        mine = code_names(f.__code__, set())
        names.update(mine)
        return [dict.get(f.__globals__, n) for n in mine if n in f.__globals__]
    walk(roots, visit)
    return names


AWK = '''
def first(): return [A0]
def second(n=0):
    def inner(): return [A1, n]
    return inner
def third():
    return first() + second()()
def make(cell):
    def closed(): return [cell] + first()
    return closed
def method(self): return [A2, self.x] + third()
class K:
    x = 1
    meth = method
bound = K().meth
code = third.__code__
NAMES = 1
'''


def awkward(ctx, r):
    """globals and closure variables that do not like to be looked at"""
    kind = r.choice(['nowhere', 'runtime', 'noname', 'main'])
    sp = ns.Space(kind, ctx.scratch, 'k%d_' % ctx.shard)
    picked = [r.choice(sorted(AWKWARD)) for i in range(4)]
    try:
        A = sp.run(AWK)
        for i, n in enumerate(picked[:3]):
            A['A%d' % i] = AWKWARD[n](r)
        A['unused'] = Poison('unused')
        A['closed'] = A['make'](AWKWARD[picked[3]](r))
        f = r.choice(['first', 'third', 'closed', 'bound', 'second'])
        kept, KEPT[:] = KEPT[:], []
        call = lambda g: [facts(x) for x in (g()() if f == 'second' else g())]
        want = call(A[f])
        set_ = r.choice([{'recurse': True}, {'recurse': True, 'byref': True} if f != 'bound' else {'recurse': True}])
        p = dill.dumps([A[f], kept], r.choice([None, 2, 3, 4, 5]), **set_)
        for n in list(A):
            if not n.startswith('__'):
                del A[n]
        g, kept2 = dill.loads(p)
        have = call(g)
        ctx.count('awkward_calls')
        ctx.nontrivial('awkward', kind, f, picked)
        if want != have:
            ctx.violation('awkward', '%s %s with %s: %s became %s' % (kind, f, picked, want, have))
    except Exception as e:
        import traceback
        ctx.violation('awkward-error', '%s with %s: %r\n%s' % (kind, picked, e, traceback.format_exc()[-700:]))
    finally:
        KEPT.clear()
        sp.close()


def run_case(ctx, case):
    if case.get('awkward'):
        return awkward(ctx, ctx.rng('awkward', case['i']))
    if case.get('shadow'):
        return shadow(ctx, case)
    if case.get('early'):
        r = ctx.rng('early', case['i'])
        kind = r.choice(['nowhere', 'noname', 'runtime', 'main', 'module'])
        sp = ns.Space(kind, ctx.scratch, 'e%d_' % ctx.shard)
        try:
            return gen_early.run(ctx, r, kind, {'recurse': True}, r.choice([None, 2, 3, 4, 5, 0, 1]), sp)
        finally:
            sp.close()
    r = ctx.rng('c', case['i'])
    kind = KINDS[case['i'] % len(KINDS)]
    g = gen_glob.GlobGen(r, r.choice([3, 5, 8, 12]))
    src = g.source()
    case['src'] = src[:5000]
    # 1. execution in a recording namespace: the reference outcomes and the globals really read
    rec = Rec({'__name__': '__main__' if kind == 'main' else 'ref'})
    exec(compile(src, '<ref>', 'exec', dont_inherit=True), rec)
    dump = [n for n in g.names if g.kind[n] not in ('module', 'builtin', 'unused', 'data', 'dict', 'str')]
    if not dump:
        return
    roots = r.sample(dump, min(len(dump), r.choice([1, 1, 1, 2, 3])))

    def fresh(nm, d):
        return iso.outcome(eval, '(lambda n: %s)(4)' % g.use(nm), {nm: d})
    want, reads = {}, {}
    for nm in roots:
        for c in g.counters:      # each copied function owns its globals: state must not flow between the probes
            rec[c] = 10
        rec.reads = set()
        want[nm] = fresh(nm, dict.__getitem__(rec, nm))
        reads[nm] = set(rec.reads)
        ctx.count('global_reads', len(reads[nm]))
    # 2. the namespace that gets dumped
    sp = ns.Space('runtime' if kind == 'module-late' else kind, ctx.scratch, 'g%d_' % ctx.shard)
    if kind == 'nowhere' and r.random() < .3:
        sp.name = r.choice(ns.ODD)
        ctx.count('odd_names')
    try:
        extra = {p: (Poison if j % 2 else Unloadable)(p) for j, p in enumerate(g.poison)}
        extra['_unrelated_'] = Poison('_unrelated_')
        if kind == 'main':
            B = sp.run(src)
            B.pop('vf', None)
            B.update(extra)
        else:
            B = sp.run(src, extra)
        if kind == 'module-late':
            sys.modules[sp.name] = sp.mod      # importable by name now, but gone again before the load
            del sys.modules[sp.name]
        ctx.count('poison_objects', len(extra))
        del TOUCHED[:]
        allowed = reachable_names([B[n] for n in roots])
        stateful = len(g.counters & allowed) > 0
        objs = [B[n] for n in roots]
        proto = r.choice([None, 0, 1, 2, 3, 4, 5])
        what = 'kind=%s roots=%s protocol=%s' % (kind, [(n, g.kind[n]) for n in roots], proto)
        how = r.choice(['kw', 'kw', 'settings', 'pickler'])
        try:
            if how == 'settings':
                dill.settings['recurse'] = True
                try:
                    s = dill.dumps(objs, proto)
                finally:
                    dill.settings['recurse'] = False
            elif how == 'pickler':
                import io
                f = io.BytesIO()
                dill.Pickler(f, proto, recurse=True).dump(objs)
                s = f.getvalue()
            else:
                s = dill.dumps(objs, proto, recurse=True)
        except dill.PicklingWarning as e:
            ctx.count('refused_cycle')
            return
        except dill.PicklingError as e:
            if any(g.kind[n] in ('class', 'selfclass', 'subclass', 'inst', 'method', 'exc') for n in g.names) and 'recurs' in str(e).lower():
                ctx.count('refused_cycle')
                return
            ctx.violation('cannot-copy', '%s: %r' % (what, e))
            return
        except TypeError as e:
            ctx.violation('poison-stored' if TOUCHED else 'cannot-copy', '%s: %r; reachable names %s' % (what, e, sorted(allowed)))
            return
        if TOUCHED:
            ctx.violation('poison-stored', '%s: stored %s; reachable names %s' % (what, TOUCHED, sorted(allowed)))
            return
        # 3. the original namespace disappears, decoys take its place
        del objs
        B.clear()
        if kind in ('main',):
            ns.main_reset()
        for n in g.names:
            ns.MAIN.__dict__[n] = Poison('decoy')
        copies = dill.loads(s, ignore=True)
        # 4. what came along
        fs, got = [], set()

        def visit(f):
            if iso.importable(f):
                return []
            fs.append(f)
            if f.__globals__ is ns.MAIN.__dict__ or f.__globals__ is rec:
                ctx.violation('live-globals', '%s: the copy of %s uses a live namespace' % (what, f.__qualname__))
            got.update(f.__globals__)
            return list(f.__globals__.values())
        walk(copies, visit)
        ctx.count('functions_in_copies', len(fs))
        own = {'__name__', '__builtins__'}
        over = got - allowed - own
        if over:
            ctx.violation('over-capture', '%s: globals %s are stored, but no reachable code names them' % (what, sorted(over)))
        for f in fs:
            need = {n for n in code_names(f.__code__, set()) if n in rec}
            # names bound in the class bodies inside the function are not globals of the program, so `rec` lacks them
            missing = need - set(f.__globals__) - set(vars(builtins))
            if missing:
                ctx.violation('missing', '%s: %s of the copy lacks the globals %s' % (what, f.__qualname__, sorted(missing)))
        for nm, c in zip(roots, copies):
            ctx.count('copies')
            lost = reads[nm] - got - set(vars(builtins)) - own - {nm}
            if lost:
                ctx.violation('missing', '%s: executing %s reads %s, which did not come along' % (what, nm, sorted(lost)))
            if stateful:
                # functions that write a global others read do not share it after a recursive copy
                ctx.count('stateful_not_compared')
                continue
            h = fresh(nm, c)
            if h != want[nm]:
                ctx.violation('behaves-differently', '%s %s (%s)\n original: %s\n copy:     %s' % (what, nm, g.kind[nm], want[nm][:900], h[:900]))
            ctx.count('outcomes_compared')
        ctx.nontrivial(kind, [g.kind[n] for n in roots], sorted(g.forms), [sorted(reads[n]) for n in roots], proto)
        ctx.sample({'case': what, 'globals stored': sorted(got), 'reads': sorted(set().union(*reads.values()))})
    finally:
        sp.close()
        ns.main_reset()


def shadow(ctx, case):
    """functions of another namespace in the closure do not lend their globals to the function"""
    r = ctx.rng('shadow', case['i'])
    name = r.choice(['len', 'sorted', 'repr', 'sum', 'print', 'str', 'K'])
    other = {'__name__': 'other', name: r.choice([lambda *a: 'other namespace', 'other value', [1]])}
    exec('def g(): return repr(type(%s).__name__)' % name, other)
    mine = {'__name__': 'mine'}
    exec('''def mk(g):
    def f(x):
        try: v = %s(x)
        except NameError: v = "NameError"
        return (v, g())
    return f
def direct(x):
    try: v = %s(x)
    except NameError: v = "NameError"
    return (v, other())
''' % (name, name), mine)
    mine['other'] = other['g']
    if case['i'] % 2:
        # the other namespace is an importable module with things that cannot be stored
        m = types.ModuleType('vf_foreign')
        m.__dict__.update(other, __name__='vf_foreign', _conn=(i for i in ()))
        exec('def g():\n    _conn\n    return repr(type(%s).__name__)' % name, m.__dict__)
        sys.modules['vf_foreign'] = m
        mine['other'] = m.g
    g = mine['other']
    for f in (mine['mk'](g), mine['direct']):
        want = iso.outcome(f, [3, 1])
        ctx.count('shadow')
        try:
            c = dill.copy(f, recurse=True)
        except Exception as e:
            ctx.violation('foreign-globals', 'name %s: cannot copy: %r' % (name, e))
            continue
        got = iso.outcome(c, [3, 1])
        if got != want:
            ctx.violation('foreign-globals', 'name %s: original %s, copy %s' % (name, want, got))
