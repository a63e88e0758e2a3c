"""C29: the catalogue of types is consistent."""
import json, os, pickle, subprocess
from .. import core

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('histories of load_types calls (every way of passing the two flags), of names added to and removed from dill.objects and of names removed from dill.types, in fresh interpreters, some of which lack numpy, sqlite3, bz2, '
        'dbm, symtable or _pyio: after every call the set of names, the identity of every object and every type in dill.types are compared with a model; types are compared with those of the types module and of a stored '
        'listing; entries that must be alive are used; every entry filed as picklable is pickled under many settings, loaded, and loaded again by another interpreter; non-trivial = (history, blocked modules, protocol)')
ASSUMPTIONS = ['iterators that the standard pickle restores as list iterators are accepted', 'protocols 0 and 1 are left out (the standard library itself refuses slots and BytesIO there)',
               'a name filed both ways is served by either when both are asked for', 'the buffering of file handles is not restored']
FLOORS = {'histories': 40, 'load_types': 150, 'entries': 20000, 'pickled': 2000, 'loaded_elsewhere': 800, 'live': 300, 'refused': 300}
with open(os.path.join(core.ROOT, 'vf', 'catalogue.json')) as f:
    LISTING = json.load(f)
FLAGS = [([], {}), ([True], {}), ([False], {}), ([True, False], {}), ([False, True], {}), ([False, False], {}), ([True, True], {}), ([], {'pickleable': False}), ([], {'unpickleable': False}), ([], {'pickleable': True, 'unpickleable': False}),
         ([], {'pickleable': False, 'unpickleable': False}), ([0, 1], {}), ([1], {'unpickleable': 0}), ([False], {'unpickleable': True})]
BLOCK = ['numpy', 'sqlite3', 'bz2', 'dbm.ndbm', 'symtable', '_pyio']


def cases(ctx):
    for i in ctx.mine(96 if ctx.quick else 800):
        yield {'i': i}


def run_case(ctx, case):
    r = ctx.rng('cat', case['i'])
    calls = []
    for k in range(r.choice([1, 3, 6, 12])):
        q = r.random()
        if q < .65 or not k:
            a, kw = r.choice(FLAGS)
            calls.append(['load', a, kw])
        elif q < .75:
            calls.append(['add', r.choice(['MyType', 'OwnType', 'another_name', 'LambdaType', 'IntType', 'StreamReader', 'GeneratorType'])])
        elif q < .85:
            calls.append(['del', r.choice(['MyType', 'OwnType', 'IntType', 'FileType', 'GeneratorType', 'CellType'])])
        else:
            calls.append(['types'])
    calls.append(['load'] + list(r.choice(FLAGS)))
    proto = r.choice([None, 2, 3, 4, 5])
    if r.random() < .7:
        calls.insert(r.randrange(1, len(calls) + 1), ['pickle', proto, r.choice([{}, {}, {'recurse': True}, {'byref': True}, {'fmode': 1}])])
        if calls[-1][0] == 'pickle' and r.random() < .5:
            calls.append(['load'] + list(r.choice(FLAGS)))
    block = r.sample(BLOCK, r.choice([0, 0, 0, 1, 2]))
    job, out, tmp = (os.path.join(ctx.scratch, n) for n in ('job', 'out', 'tmp'))
    os.makedirs(tmp, exist_ok=True)
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    for f in (out,):
        if os.path.exists(f):
            os.unlink(f)
    with open(job, 'w') as f:
        json.dump({'calls': calls, 'block': block}, f)
    env = core.child_env(ctx.scratch, {'PYTHONHASHSEED': str(r.choice([0, 1, 2])), 'TMPDIR': tmp})
    p = subprocess.run([core.PY] + r.choice([[], [], ['-O'], ['-W', 'error::ResourceWarning']]) + [os.path.join(core.ROOT, 'vf', 'cat_runner.py'), job, out], cwd=ctx.scratch, env=env, capture_output=True, timeout=200)
    what = 'calls %s%s' % (calls, ', without ' + ' and '.join(block) if block else '')
    ctx.count('histories')
    ctx.count('load_types', sum(c[0] == 'load' for c in calls))
    if p.returncode or not os.path.exists(out):
        ctx.violation('interpreter-died', '%s: exit %s\n%s' % (what, p.returncode, p.stderr.decode('utf-8', 'replace')[-2000:]))
        return
    with open(out) as f:
        res = json.load(f)
    for k in ('entries', 'pickled', 'live', 'refused'):
        ctx.count(k, res.get(k, 0))
    for q in res['problems'][:6]:
        ctx.violation('inconsistent', '%s: %s' % (what, q))
    if 'types' in res:
        for n, t in res['types'].items():
            if n in LISTING['types'] and t not in LISTING['types'][n]:
                ctx.violation('listing', '%s: %s is an instance of %s, and was one of %s' % (what, n, t, LISTING['types'][n]))
        if not block:
            for k in ('succeeds', 'failures', 'registered'):
                gone = sorted(set(LISTING[k]) - set(res['filed'][k]))
                if k == 'failures':
                    gone = [n for n in gone if n not in res['filed']['succeeds']]       # it pickles now
                if gone:
                    ctx.violation('listing', '%s: no longer %s: %s' % (what, k, gone))
    if res['bytes'] and r.random() < .6:
        elsewhere(ctx, r, what, res, job, out, env)
    ctx.nontrivial(calls, block, proto)
    ctx.sample({'history': what, 'entries': res['entries']})


SCRIPT = '''
import json, sys, warnings
warnings.simplefilter('ignore')
import dill
with open(sys.argv[1]) as f: job = json.load(f)
res = {}
for n, h in job.items():
    try:
        t = type(dill.loads(bytes.fromhex(h)))
        res[n] = '%s.%s' % (t.__module__, t.__qualname__)
    except Exception as e:
        res[n] = 'raises %r' % e
with open(sys.argv[2], 'w') as f: json.dump(res, f)
import os
os._exit(0)
'''


def elsewhere(ctx, r, what, res, job, out, env):
    with open(job, 'w') as f:
        json.dump(res['bytes'], f)
    os.unlink(out)
    p = subprocess.run([core.PY, '-c', SCRIPT, job, out], cwd=ctx.scratch, env=env, capture_output=True, timeout=200)
    if p.returncode or not os.path.exists(out):
        ctx.violation('interpreter-died', '%s: the one that loads: exit %s\n%s' % (what, p.returncode, p.stderr.decode('utf-8', 'replace')[-2000:]))
        return
    with open(out) as f:
        got = json.load(f)
    for n, t in got.items():
        ctx.count('loaded_elsewhere')
        a = LISTING['types'].get(n, [t])
        if t not in a and t != 'builtins.list_iterator' and n not in ('FileType', 'ClosedFileType'):
            ctx.violation('elsewhere', '%s: %s, filed as picklable, loads in another interpreter as %s' % (what, n, t))
