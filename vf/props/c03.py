"""C03: functions stored by value behave like the originals and keep their metadata."""
from .. import fn_engine, gen_early, gen_fn, ns

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 500}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('seeded programs over 44 function templates with random expressions, executed in 7 kinds of namespace; every '
        'function copied alone and in groups, compared structurally with the original and then called with the '
        'same probes as a pristine second instance; non-trivial = (namespace kind, template, settings, outcomes) tuples')
ASSUMPTIONS = ['functions outside any importable module own separate globals after copying, so global state shared '
               'by two such functions is not probed', 'PEP 695 type parameters are excluded (known finding)']
FLOORS = {'copies': 400, 'probes': 1500, 'seen_function': 1500, 'seen_cell': 150, 'early_loaded': 300, 'odd_names': 120}
KINDS = ['main', 'nowhere', 'module', 'local-main', 'local-module', 'noname', 'runtime', 'sub']


def cases(ctx):
    n = 6000 if ctx.quick else 60000
    for i in ctx.mine(n):
        yield {'i': i}
    for i in ctx.mine(n // 4):
        yield {'i': i, 'early': True}


def run_case(ctx, case):
    r = ctx.rng('case', case['i'])
    kind = KINDS[case['i'] // 8 % len(KINDS)]
    if case.get('early'):
        kind = r.choice(['nowhere', 'noname', 'runtime', 'main', 'module'])
        sp = ns.Space(kind, ctx.scratch, 'e%d_' % ctx.shard)
        try:
            gen_early.run(ctx, r, kind, {}, r.choice([None, 2, 3, 4, 5, 0, 1]), sp)
        finally:
            sp.close()
        return
    gw = 'any' if kind in ('main', 'module', 'local-main', 'local-module', 'sub') else 'self'
    kw = r.choice([{}, {}, {'fmode': 2}])
    name = None
    if kind == 'nowhere' and case['i'] % 3 == 0:
        name = ns.ODD[case['i'] // 3 % len(ns.ODD)]
        ctx.count('odd_names')
    fn_engine.run(ctx, case, kind, {'globals_write': gw}, kw, r.choice(['each', 'all', 'pairs']),
                  r.choice([None, 0, 1, 2, 3, 4, 5]), nfun=r.choice([2, 4, 7]), name=name)
    ctx.count('programs_' + kind)
    if case['i'] < 3:
        ctx.sample({'kind': kind, 'settings': kw, 'program': case['src'][:600]})
