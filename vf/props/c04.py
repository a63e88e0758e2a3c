"""C04: closures keep their topology: shared cells, empty cells, cycles, recursion."""
import functools, types, warnings
import dill
from .. import gen_clo, iso, ns

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 500}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('seeded random closure graphs (1-7 functions, 0-5 closure variables holding atoms, containers, functions, '
        'instances, classes, cells or nothing, wired at random, cycles included), dumped whole, in part and in random '
        'order; non-trivial = distinct (roots, cell/function reference graph) with at least one cell')
ASSUMPTIONS = ['a class whose own definition is being pickled when it is met again through a method closure may be '
               'refused with PicklingError naming the class; it may never be copied wrongly']
FLOORS = {'copies': 500, 'cells': 1000, 'cyclic_graphs': 100, 'mutations': 300}
KINDS = ['main', 'module', 'nowhere', 'runtime', 'sub']


def cases(ctx):
    n = 16000 if ctx.quick else 200000
    for i in ctx.mine(n):
        yield {'i': i}


def run_case(ctx, case):
    r = ctx.rng('c', case['i'])
    kind = KINDS[case['i'] // 8 % len(KINDS)]
    classes = r.random() < .35
    src, names, fs, kinds = gen_clo.build(r, r.choice([1, 2, 2, 3, 4, 7]), r.choice([0, 1, 2, 3, 5]), classes)
    case['src'] = src
    case['kind'] = kind
    sp = ns.Space(kind, ctx.scratch, 'c%d_' % ctx.shard)
    kw = r.choice([{}, {}, {}, {'recurse': True}])
    if kind == 'nowhere' and r.random() < .3:
        sp.name = r.choice(ns.ODD)
        ctx.count('odd_names')
    proto = r.choice([None, 0, 1, 2, 3, 4, 5])
    try:
        A = sp.run(src)
        G = A['graph']()
        root_kind = r.randrange(5)
        if root_kind == 0:
            roots = list(G.values())
        elif root_kind == 1:
            roots = [G[r.choice(fs)]]
        elif root_kind == 2:
            roots = [G[n] for n in r.sample(names, min(len(names), 3))]
        elif root_kind == 3:
            roots = [{'d': (G[r.choice(fs)], [G[n] for n in names[:2]])}]
        else:
            roots = [c for n in names if isinstance(G[n], types.FunctionType) for c in (G[n].__closure__ or ())] + [G[fs[0]]]
        case['root_kind'] = root_kind
        # scramble the order: which function is met first decides who completes whom
        r.shuffle(roots)
        with warnings.catch_warnings(record=True) as W:
            warnings.simplefilter('always')
            try:
                s = dill.dumps(roots, proto, **kw)
            except dill.PicklingError as e:
                if classes and 'K' in str(e) and any(iso.leads_back(G[k]) for k in ('K', 'K2', 'K3') if k in G):
                    ctx.count('refused_recursive_class')
                    return
                ctx.violation('refused:PicklingError', 'kind=%s %s root_kind=%d: %r' % (kind, kw, root_kind, e))
                return
            except Exception as e:
                ctx.violation('refused:%s' % type(e).__name__, 'kind=%s %s root_kind=%d: %r' % (kind, kw, root_kind, e))
                return
        try:
            C = dill.loads(s)
        except Exception as e:
            if classes and any('recursive' in str(w.message) for w in W) and any(iso.leads_back(G[k]) for k in ('K', 'K2', 'K3') if k in G):
                ctx.count('refused_recursive_class_on_load')
                return
            ctx.violation('unloadable:%s' % type(e).__name__, 'kind=%s %s root_kind=%d: %r' % (kind, kw, root_kind, e))
            return
        ctx.count('copies')
        d = iso.compare(roots, C, recurse=bool(kw))
        ctx.count('cells', d.bytype.get('cell', 0))
        ctx.count('functions', d.bytype.get('function', 0))
        if d.diffs:
            ctx.violation('topology', 'kind=%s %s root_kind=%d\n%s' % (kind, kw, root_kind, '\n'.join(d.diffs)))
            return
        nfun = d.bytype.get('function', 0)
        if nfun > len({id(x) for x, y in d.keep if isinstance(x, types.FunctionType)}):
            ctx.count('cyclic_graphs')
        if d.bytype.get('cell'):
            ctx.nontrivial(root_kind, sorted(kinds.items()), d.nodes, sorted(d.bytype.items()), src)
        # cells of the copy are live: writing one through the copy is seen by every sharer, never by the original
        pairs = [(x, y) for x, y in d.keep if isinstance(x, types.CellType)]
        before = [cellid(x) for x, y in pairs]
        for j, (x, y) in enumerate(pairs[:6]):
            mark = ['mark', j]
            y.cell_contents = mark
            ctx.count('mutations')
            for fx_, fy in d.keep:
                if isinstance(fx_, types.FunctionType) and fx_.__closure__:
                    for cx, cy in zip(fx_.__closure__, fy.__closure__):
                        if (cx is x) != (cy.cell_contents is mark if full(cy) else False):
                            ctx.violation('cell-sharing', 'kind=%s %s: a write through one closure reached the wrong set of closures' % (kind, kw))
        if [cellid(x) for x, y in pairs] != before:
            ctx.violation('original-changed', 'writing cells of the copy changed the original')
        if case['i'] < 4:
            ctx.sample({'kind': kind, 'settings': kw, 'roots': root_kind, 'graph': src[:800]})
    finally:
        sp.close()


def full(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def cellid(c):
    try:
        return id(c.cell_contents)
    except ValueError:
        return None
