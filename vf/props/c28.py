"""C28: pickles written by the released format keep loading."""
import json, os, pickle, subprocess, warnings, zlib
from .. import core

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('a stored corpus written by the pinned commit (functions, classes, name graphs, data, 30 families of exotic types, sessions of __main__ and of module-type objects; every protocol) is loaded by dill and, with nothing of '
        'dill imported before, by the standard pickle, in fresh interpreters with other hash seeds; what the loaded objects do is compared with what they did when loaded by the pinned commit; the constructors named by '
        'pickles of all ages are called with every argument shape that versions of the library wrote; non-trivial = (pickle or call, way of loading, outcome)')
ASSUMPTIONS = ['python 3.12: pickles of other interpreters are represented by the argument shapes of their code objects', 'what the pinned commit could not load itself, or answered with an accidental error, is not required']
FLOORS = {'loaded': 700, 'loaded_by_pickle': 700, 'outcomes': 5000, 'calls': 400, 'sessions': 20}
with open(os.path.join(core.ROOT, 'vf', 'golden.bin'), 'rb') as f:
    GOLD = pickle.loads(zlib.decompress(f.read()))
# where the pinned commit itself was wrong (known_findings.txt, fixed), what is right
for _k in ('rlock_1', 'rlock_4'):
    GOLD['calls'][_k] = 'tuple([bool:False,bool:True])'
GOLD['calls']['namedtuple_4'] = "tuple([str:'sign',str:'digits'])"


def cases(ctx):
    reps = 1 if ctx.quick else 6
    for rep in range(reps):
        for how in ('dill', 'pickle'):
            for part in ctx.mine(16):
                yield {'how': how, 'part': part, 'rep': rep}
        for part in ctx.mine(8):
            yield {'how': 'session', 'part': part, 'rep': rep}


def setup(ctx):
    warnings.simplefilter('ignore')


def run_case(ctx, case):
    if case['how'] == 'session':
        return sessions(ctx, case)
    r = ctx.rng('gold', case['how'], case['part'], case['rep'])
    how, part = case['how'], case['part']
    jobs = [j for i, j in enumerate(GOLD['jobs']) if i % 16 == part and (how == 'dill' or j['pickle'])]
    r.shuffle(jobs)
    calls = [k for i, k in enumerate(GOLD['calls']) if i % 16 == part] if how == 'dill' else []
    place = os.path.join(ctx.scratch, 'place')
    os.makedirs(place, exist_ok=True)
    send = [{k: v for k, v in j.items() if k not in ('out', 'pickle')} for j in jobs]
    res, what = interpret(ctx, r, 'old_loader.py', {'jobs': send, 'how': how, 'calls': calls, 'place': place})
    if res is None:
        return
    got = {g['id']: g for g in res['jobs']}
    for j in jobs:
        ctx.count('loaded_by_pickle' if how == 'pickle' else 'loaded')
        g = got.get(j['id'], {'error': 'no answer'})
        w = '%s, %s: %s' % (what, j['id'], j['info'])
        if 'error' in g:
            ctx.violation('unloadable', '%s: the stored pickle does not load: %s' % (w, g['error']))
            continue
        probes = [p for u in j.get('units', ()) for p in u[1]]
        for i, (a, b) in enumerate(zip(j['out'], g['out'])):
            ctx.count('outcomes')
            if a != b:
                ctx.violation('behaves-differently', '%s: probe %s\n recorded: %s\n now:      %s' % (w, probes[i] if probes else i, a[:700], b[:700]))
        if len(j['out']) != len(g['out']):
            ctx.violation('behaves-differently', '%s: %d outcomes of %d' % (w, len(g['out']), len(j['out'])))
        ctx.nontrivial(how, j['id'], g['out'])
    for k in calls:
        ctx.count('calls')
        a, b = GOLD['calls'][k], res['calls'].get(k)
        if a != b:
            from .. import old_calls
            ctx.violation('constructor', 'called as old pickles do: %s: %s\n recorded: %s\n now:      %s' % (k, old_calls.CALLS.get(k) or old_calls.RAW.get(k), a[:500], (b or 'nothing')[:500]))
        ctx.nontrivial(k, b)
    ctx.sample({'loader': what, 'pickles': len(jobs), 'calls': len(calls)})


def interpret(ctx, r, script, spec):
    job, out = os.path.join(ctx.scratch, 'job'), os.path.join(ctx.scratch, 'out')
    with open(job, 'wb') as f:
        pickle.dump(spec, f)
    if os.path.exists(out):
        os.unlink(out)
    env = core.child_env(ctx.scratch, {'PYTHONHASHSEED': str(r.choice([0, 1, 2, 77, 4000000]))})
    flags = r.choice([[], ['-X', 'utf8'], ['-B']])
    p = subprocess.run([core.PY] + flags + [os.path.join(core.ROOT, 'vf', script), job, out], cwd=ctx.scratch, env=env, capture_output=True, timeout=300)
    what = 'flags %s, hashseed %s, %s' % (flags, env['PYTHONHASHSEED'], spec.get('how', 'sessions'))
    if p.returncode or not os.path.exists(out):
        ctx.violation('loader-died', '%s: exit %s\n%s' % (what, p.returncode, p.stderr.decode('utf-8', 'replace')[-2500:]))
        return None, what
    with open(out, encoding='utf-8', errors='surrogatepass') as f:
        return json.load(f), what


def sessions(ctx, case):
    r = ctx.rng('gold', 'sessions', case['part'], case['rep'])
    jobs = [j for i, j in enumerate(GOLD['sessions']) if i % 8 == case['part']]
    res, what = interpret(ctx, r, 'loader.py', {'first': [], 'jobs': [{k: v for k, v in j.items() if k not in ('res', 'info')} for j in jobs]})
    if res is None:
        return
    got = {g['id']: g for g in res}
    for j in jobs:
        ctx.count('sessions')
        g, a = got.get(j['id'], {'error': 'no answer'}), j['res']
        w = '%s, %s: %s' % (what, j['id'], j['info'])
        if 'error' in g:
            ctx.violation('session-unloadable', '%s: the stored session does not load: %s' % (w, g['error']))
            continue
        for k in ('out', 'canon', 'problems'):
            ctx.count('outcomes', len(a[k]))
            if a[k] != g[k]:
                i = next((i for i, (x, y) in enumerate(zip(a[k], g[k])) if x != y), 0)
                ctx.violation('session-differs', '%s: %s %d\n recorded: %s\n now:      %s' % (w, k, i, str(a[k][i:i + 300])[:800], str(g[k][i:i + 300])[:800]))
        if sorted(n for n in a['names'] if not n.startswith('__')) != sorted(n for n in g['names'] if not n.startswith('__')):
            ctx.violation('session-differs', '%s: names %s' % (w, sorted(set(a['names']) ^ set(g['names']))))
        ctx.nontrivial('session', j['id'], g['out'])
