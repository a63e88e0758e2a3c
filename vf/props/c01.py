"""C01: plain object graphs survive dumps/loads as an isomorphic copy."""
import io, os, pickle, random, sys
import dill
from .. import fx, gen_data, iso, stdpickle

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 500}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('seeded random object graphs (2-40 nodes: builtin containers, instances with dict/slots/state/reduce '
        'protocols, leaves, sharing and cycles; every 5th graph adds a shape around a batch/memo/frame limit; for half of them __main__ has classes with the names of those in use), dumped '
        'under each protocol and settings combination; non-trivial = a graph with a cycle or a shared mutable node, '
        'counted by canonical form')
ASSUMPTIONS = ['graphs stdlib pickle itself refuses are only required not to be corrupted',
               'identity of tuples/frozensets/atoms is only required where the original shared them']
FLOORS = {'graphs': 100, 'copies': 500, 'nodes': 20000, 'cyclic': 5, 'namesakes': 20}
MODES = [{}, {'recurse': True}, {'byref': True}, {'fmode': 1}]


def cases(ctx):
    n = 2400 if ctx.quick else 20000
    for i in ctx.mine(n):
        r = ctx.rng('g', i)
        yield {'i': i, 'n': r.choice([1, 2, 3, 5, 8, 13, 20, 40]), 'wide': (i // 5 % 9 + 1) if i % 5 == 0 else 0}


def setup(ctx):
    ctx.namesakes = {}
    for n, t in list(vars(fx).items()):
        if isinstance(t, type) and t.__module__ == fx.__name__:
            try:
                ctx.namesakes[n] = type(t)(n, t.__bases__, {'__module__': '__main__', '__slots__': t.__slots__} if '__slots__' in vars(t) else {'__module__': '__main__'})
            except Exception:
                ctx.namesakes[n] = type(n, (), {'__module__': '__main__'})


def run_case(ctx, case):
    if case['i'] % 2:
        return graph(ctx, case)
    # classes of __main__ with the names of those in use
    main = sys.modules['__main__'].__dict__
    assert not set(main) & set(ctx.namesakes)
    main.update(ctx.namesakes)
    try:
        graph(ctx, case)
    finally:
        for n in ctx.namesakes:
            main.pop(n, None)


def graph(ctx, case):
    r = ctx.rng('graph', case['i'])
    g, kinds = gen_data.build(r, case['n'], case['wide'])
    ctx.count('graphs')
    nontrivial = False
    protos = list(range(0, 6)) if case['i'] % 4 == 0 else r.sample(range(6), 2) + [None, -1]
    ref_ok = {}
    for p in protos:
        try:
            stdpickle.loads(stdpickle.dumps(g, p))
            ref_ok[p] = True
        except Exception as e:
            ref_ok[p] = e
    for p in protos:
        mode = r.choice(MODES)
        how = r.randrange(4)
        try:
            s = dumps(how, g, p, mode, ctx)
        except Exception as e:
            if ref_ok[p] is True:
                ctx.violation('refused', 'pickle round-trips the graph under protocol %s, dill.dumps raised %r' % (p, e))
            ctx.count('refused_by_both')
            continue
        try:
            c = loads(how, s, ctx)
        except Exception as e:
            if ref_ok[p] is True:
                ctx.violation('unloadable', 'pickle round-trips the graph under protocol %s, dill.loads raised %r' % (p, e))
            continue
        ctx.count('copies')
        if ref_ok[p] is not True:
            continue
        d = iso.compare(g, c, aliasok=[fx.SINGLETON], recurse='recurse' in mode)
        ctx.count('nodes', d.nodes)
        if not case['i'] % 2 and type(g).__name__ in ctx.namesakes:
            ctx.count('namesakes')
        if d.diffs:
            # the pickle reference decides whether the difference is dill's
            rd = iso.compare(g, stdpickle.loads(stdpickle.dumps(g, p)), aliasok=[fx.SINGLETON])
            new = [x for x in d.diffs if x not in rd.diffs]
            if new:
                ctx.violation('not-isomorphic', 'protocol %s mode %s\n%s' % (p, mode, '\n'.join(new)))
            ctx.count('pickle_differs_too')
        shared = len(d.keep)
        if shared:
            nontrivial = True
    if cyclic(g):
        ctx.count('cyclic')
    if nontrivial:
        ctx.nontrivial(iso.canon(g, 6))
    ctx.sample({'case': case, 'kinds': dict(kinds), 'root': iso.canon(g, 3)[:300]})


def cyclic(g):
    import gc
    gc.disable()
    try:
        seen, stack = set(), [g]
        while stack:
            o = stack.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, (list, dict, tuple, fx.Plain)):
                for x in gc.get_referents(o):
                    if x is g:
                        return True
                    if isinstance(x, (list, dict, tuple, fx.Plain)):
                        stack.append(x)
        return False
    finally:
        gc.enable()


def dumps(how, g, p, mode, ctx):
    if how == 0:
        return dill.dumps(g, p, **mode)
    if how == 1:
        b = io.BytesIO()
        dill.dump(g, b, p, **mode)
        return b.getvalue()
    if how == 2:
        b = io.BytesIO()
        from dill.settings import settings
        dill.Pickler(b, settings['protocol'] if p is None else p, **mode).dump(g)
        return b.getvalue()
    fn = os.path.join(ctx.scratch, 'd.pkl')
    with open(fn, 'wb') as f:
        dill.dump(g, f, protocol=p, **mode)
    with open(fn, 'rb') as f:
        return f.read()


def loads(how, s, ctx):
    if how == 0:
        return dill.loads(s)
    if how == 1:
        return dill.load(io.BytesIO(s))
    if how == 2:
        return dill.Unpickler(io.BytesIO(s)).load()
    fn = os.path.join(ctx.scratch, 'd.pkl')
    with open(fn, 'wb') as f:
        f.write(s)
    with open(fn, 'rb') as f:
        return dill.load(f)
