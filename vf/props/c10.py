"""C10: builtin exotic types are restored with their state, or refused."""
import functools, random, warnings
import dill
from .. import fx, gen_exotic, iso

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 500}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('seeded objects of about 30 families of odd builtin, stdlib and numpy types, each with its parts in a graph that shows sharing, copied under every protocol; the copy is compared '
        'structurally and then both the copy and a twin are acted upon; non-trivial = (family, type, protocol, outcomes)')
ASSUMPTIONS = ['what the standard pickle drops (exception causes and tracebacks, lru_cache contents) is dropped',
               'attributes set on lru_cache, classmethod and staticmethod objects are known findings']
FLOORS = {'copies': 30000, 'probes': 100000, 'refused_kinds': 900}


def cases(ctx):
    for i in ctx.mine(48000 if ctx.quick else 600000):
        yield {'i': i}
    for i in ctx.mine(1600 if ctx.quick else 10000):
        yield {'r': i}
    if ctx.shard == 0:
        yield {'d': 1}


def setup(ctx):
    warnings.simplefilter('ignore')


def run_case(ctx, case):
    if 'd' in case:
        return dedicated(ctx, case)
    if 'r' in case:
        return refuse(ctx, case)
    seed = '%s-%s' % (ctx.seed, case['i'])
    fam = sorted(gen_exotic.B)[case['i'] // 8 % len(gen_exotic.B)]
    build = gen_exotic.B[fam]
    root, probes = build(random.Random(seed))
    twin, tprobes = build(random.Random(seed))
    r = ctx.rng('x', case['i'])
    proto = r.choice([None, 0, 1, 2, 3, 4, 5])
    kw = r.choice([{}, {}, {}, {'recurse': True}, {'byref': True}])
    order = r.randrange(4)
    obj = {0: root, 1: root[::-1], 2: {'a': root[0], 'b': root}, 3: [fx.Plain(x=root[0]), root]}[order]
    case.update(fam=fam, type=type(root[0]).__name__)
    what = '%s %s %s protocol %s %s order %d' % (fam, type(root[0]).__name__, iso.srepr(root[0]), proto, kw, order)
    if fam in ('dict_descriptor', 'slot_descriptor') and 'byref' in kw:
        kw = {}     # the class is nowhere to be found
    # a type the standard library itself cannot copy at this protocol may be refused
    try:
        s = dill.dumps(obj, proto, **kw)
    except Exception as e:
        if proto in (0, 1) and (fam in ('stringio', 'bytesio', 'slot_descriptor') or 'ForwardRef' in repr(root[0]) or fam == 'bound_builtin' and type(root[1]).__name__ == 'BytesIO'):
            ctx.count('std_refused')
            return
        ctx.violation('refused:%s' % fam, '%s: %r' % (what, e))
        return
    try:
        c = dill.loads(s)
    except Exception as e:
        ctx.violation('unloadable:%s' % fam, '%s: %r' % (what, e))
        return
    ctx.count('copies')
    ctx.count('family_' + fam)
    d = iso.compare(obj, c, byref=bool(kw.get('byref')), recurse='recurse' in kw, checkglobals=False)
    ctx.count('nodes', d.nodes)
    if d.diffs:
        ctx.violation('not-isomorphic:%s' % fam, '%s\n%s' % (what, '\n'.join(d.diffs)))
        return
    croot = {0: lambda: c, 1: lambda: c[::-1], 2: lambda: c['b'], 3: lambda: c[1]}[order]()
    if order == 2 and c['a'] is not croot[0] and not isinstance(root[0], (str, int, tuple, float)) or order == 3 and c[0].x is not croot[0]:
        if type(root[0]).__name__ not in ATOMIC:
            ctx.violation('sharing:%s' % fam, '%s: two references became two objects' % what)
    outs = []
    for i, (p, q) in enumerate(zip(tprobes, probes)):
        w = iso.outcome(p, twin)
        h = iso.outcome(p, croot)
        ctx.count('probes')
        outs.append(h)
        if gen_exotic.clean(w) != gen_exotic.clean(h):
            ctx.violation('state:%s' % fam, '%s: probe %d\n original: %s\n copy:     %s' % (what, i, w[:800], h[:800]))
            return
    ctx.nontrivial(fam, type(root[0]).__name__, proto, sorted(kw), [gen_exotic.clean(o) for o in outs])
    ctx.sample({'case': what, 'outcomes': outs[:4]})


ATOMIC = set()


def refuse(ctx, case):
    r = ctx.rng('r', case['r'])
    k = case['r'] // 8 % len(gen_exotic.REFUSE)
    try:
        x = gen_exotic.REFUSE[k](r)
    except Exception:
        ctx.count('refuse_not_built')
        return
    proto = r.choice([2, 3, 4, 5])     # below, even the standard pickle writes things it cannot load
    obj = r.choice([x, [x], {'k': (1, x)}, fx.Plain(v=x)])
    ctx.count('refused_kinds')
    try:
        s = dill.dumps(obj, proto)
    except Exception as e:
        ctx.nontrivial('refused', k, type(x).__name__, type(e).__name__)
        return
    try:
        c = dill.loads(s)
    except Exception as e:
        ctx.violation('unrestorable-dumped', '%r was dumped without an error, but does not load: %r' % (x, e))
        return
    ctx.violation('unrestorable-dumped', '%r was dumped without an error, and loads as %r' % (x, c))


def dedicated(ctx, case):
    f = functools.lru_cache(maxsize=4)(lambda x: x)
    f.tag = [1]
    if getattr(dill.copy(f), 'tag', None) != [1]:
        ctx.violation('lru-attributes', 'attributes set on an lru_cache function are lost')
    for k in (classmethod, staticmethod):
        m = k(lambda *a: 1)
        m.tag = [1]
        if getattr(dill.copy(m), 'tag', None) != [1]:
            ctx.violation('classmethod-attributes', 'attributes set on a %s object are lost' % k.__name__)
    import numpy as np
    a = np.empty(1, object)
    a[0] = a
    try:
        c = dill.copy(a)
        ok = c[0] is c
    except RecursionError:
        ok = False
    if not ok:
        ctx.violation('array-contains-itself', 'an object array that is an item of itself cannot be copied')
    b = np.arange(2).view(type('Arr', (np.ndarray,), {}))
    b.me = b
    c = dill.copy(b)
    if getattr(c, 'me', None) is not c:
        ctx.violation('array-attribute-itself', 'the attributes of an array that lead directly to the array are lost')
