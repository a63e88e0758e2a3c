"""Writes vf/golden.bin, the corpus of C28, with the library as it was at a commit: mkcorpus.py [commit]

Everything is dumped, loaded and probed by that commit; what it cannot load again itself, or what acts differently under another hash seed, is left out.
"""
import json, os, pickle, random, shutil, subprocess, sys, tempfile, warnings, zlib, base64

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMIT = 'eec956e'
N = {'prog': 700, 'exotic': 700, 'session': 60}


class Box:
    """stands in for a worker's context"""
    def __init__(self, scratch):
        self.scratch, self.shard, self.counts, self.bad = scratch, 0, {}, []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violation(self, k, m):
        self.bad.append((k, m))

    def nontrivial(self, *a):
        pass
    sample = nontrivial


def build(scratch):
    """runs with the old library"""
    sys.path.insert(0, ROOT)
    warnings.simplefilter('ignore')
    os.chdir(scratch)
    import dill
    from vf import fx, gen_exotic
    from vf.props import c09, c13
    ctx = Box(scratch)
    jobs, sessions = [], []
    for i in range(N['prog']):
        r = random.Random('golden-%d' % i)
        try:
            j = c09.make(ctx, r, 'prog-%d' % i, False)
        except Exception:
            continue
        if j is None or len(j['bytes']) > 30000:
            continue
        del j['want'], j['how']
        j['type'] = 'units' if 'units' in j else 'data'
        jobs.append(j)
    for i in range(N['exotic']):
        seed = 'golden-%d' % i
        fam = sorted(gen_exotic.B)[i % len(gen_exotic.B)]
        r = random.Random(seed + 'x')
        proto = r.choice([None, 0, 1, 2, 3, 4, 5])
        kw = r.choice([{}, {}, {}, {'recurse': True}])
        try:
            root, probes = gen_exotic.B[fam](random.Random(seed))
            s = dill.dumps(root, proto, **kw)
        except Exception:
            continue
        if len(s) < 30000:
            jobs.append({'id': 'exotic-%d' % i, 'type': 'exotic', 'family': fam, 'seed': seed, 'bytes': s, 'info': 'exotic %s protocol %s %s' % (fam, proto, kw)})
    for i in range(N['session']):
        r = random.Random('golden-%d' % i)
        want, spaces, js = {}, [], []
        try:
            c13.one(ctx, r, 'session-%d' % i, js, want, spaces, ['main', 'runtime'][i % 2])
        except Exception:
            js = []
        finally:
            for sp in spaces:
                sp.close()
        for j in js:
            if len(j['bytes']) < 60000:
                j['info'] = want[j['id']][1]
                sessions.append(j)
    with open('built', 'wb') as f:
        pickle.dump((jobs, sessions), f)


def load(scratch, repo, jobs, calls, how, seed):
    """{id: outcome} as given by a fresh interpreter"""
    job, out = os.path.join(scratch, 'job'), os.path.join(scratch, 'out')
    place = os.path.join(scratch, 'place')
    os.makedirs(place, exist_ok=True)
    with open(job, 'wb') as f:
        pickle.dump({'jobs': jobs, 'how': how, 'calls': calls, 'place': place}, f)
    p = subprocess.run([sys.executable, os.path.join(ROOT, 'vf', 'old_loader.py'), job, out], cwd=scratch, env=env(repo, seed), capture_output=True)
    assert not p.returncode, p.stderr.decode()[-3000:]
    with open(out, encoding='utf-8', errors='surrogatepass') as f:
        res = json.load(f)
    return {r['id']: r.get('out', r.get('error')) if 'out' in r else None for r in res['jobs']}, res.get('calls'), {r['id']: r.get('error') for r in res['jobs']}


def load_sessions(scratch, repo, jobs, seed):
    job, out = os.path.join(scratch, 'job'), os.path.join(scratch, 'out')
    with open(job, 'wb') as f:
        pickle.dump({'first': [], 'jobs': jobs}, f)
    p = subprocess.run([sys.executable, os.path.join(ROOT, 'vf', 'loader.py'), job, out], cwd=scratch, env=env(repo, seed), capture_output=True)
    assert not p.returncode, p.stderr.decode()[-3000:]
    with open(out, encoding='utf-8', errors='surrogatepass') as f:
        return {r['id']: None if 'error' in r else r for r in json.load(f)}


def env(repo, seed):
    return dict(os.environ, PYTHONPATH=repo + os.pathsep + ROOT, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1')


def main():
    commit = sys.argv[1] if len(sys.argv) > 1 else COMMIT
    scratch = tempfile.mkdtemp(prefix='golden')
    repo = os.path.join(scratch, 'repo')
    os.makedirs(repo)
    subprocess.run('git -C /repo archive %s | tar -x -C %s' % (commit, repo), shell=True, check=True)
    shutil.copy('/repo/dill/__info__.py', repo + '/dill/') if os.path.exists('/repo/dill/__info__.py') else None
    try:
        subprocess.run([sys.executable, os.path.abspath(__file__), '--build', scratch], env=env(repo, 1), check=True)
        with open(os.path.join(scratch, 'built'), 'rb') as f:
            jobs, sessions = pickle.load(f)
        sys.path[:0] = [ROOT]
        os.environ['PYTHONPATH'] = repo
        import ast
        calls = json.loads(subprocess.run([sys.executable, '-c', 'import json, vf.old_calls as o; print(json.dumps(list(o.CALLS) + list(o.RAW)))'], env=env(repo, 1), capture_output=True, check=True).stdout)
        a, ca, ea = load(scratch, repo, jobs, calls, 'dill', 1)
        b, cb, _ = load(scratch, repo, jobs, calls, 'dill', 77)
        c, _, _ = load(scratch, repo, jobs, [], 'pickle', 3)
        exotic = [j for j in jobs if j['type'] == 'exotic']
        twin, _, _ = load(scratch, repo, exotic, [], 'twin', 1)
        now, _, _ = load(scratch, '/repo', exotic, [], 'dill', 1)
        keep = []
        for j in jobs:
            i = j['id']
            if a[i] is None:
                print('left out', i, j['info'], (ea[i] or '')[:150].replace('\n', ' '))
                continue
            if a[i] != b[i]:
                print('unstable', i, j['info'])
                continue
            if i in twin and a[i] != twin[i]:
                # the commit itself did not restore the object: what counts is the object, if that was repaired since
                print('not restored by the commit', i, j['info'], 'repaired' if now[i] == twin[i] else '')
                if now[i] == twin[i]:
                    a[i] = twin[i]
                    c[i] = twin[i] if c[i] is not None else None
                elif now[i] != a[i]:
                    continue
            j['out'] = a[i]
            j['pickle'] = c[i] == a[i]
            if not j['pickle']:
                print('not by pickle', i, j['info'])
            keep.append(j)
        unstable = [k for k in calls if ca[k] != cb[k]]
        print('unstable calls', unstable)
        # an error is part of the convention only where the library says so
        errors = [k for k in ca if ca[k].startswith('raises') and not (k.startswith(('code_bad', 'file_')) and 'TypeError' not in ca[k] or k in ('rlock_3', 'import_4', 'getattribute_3', 'getattribute_4', 'getattr_8', 'cell_2', 'cell_4', 'get_attr_3'))]
        print('errors left out', [k for k in errors if not k.startswith(('file_', 'load_type'))])
        ca = {k: v for k, v in ca.items() if k not in unstable and k not in errors}
        s1, s2 = load_sessions(scratch, repo, sessions, 1), load_sessions(scratch, repo, sessions, 5)
        keeps = []
        for j in sessions:
            if s1[j['id']] is None or s1[j['id']] != s2[j['id']] or s1[j['id']]['problems']:
                print('left out session', j['id'], j['info'][:100])
                continue
            j['res'] = s1[j['id']]
            keeps.append(j)
        data = zlib.compress(pickle.dumps({'commit': commit, 'jobs': keep, 'sessions': keeps, 'calls': ca}), 9)
        with open(os.path.join(ROOT, 'vf', 'golden.bin'), 'wb') as f:
            f.write(data)
        print(len(jobs), 'pickles,', len(keep), 'kept,', sum(j['pickle'] for j in keep), 'by pickle;', len(sessions), 'sessions,', len(keeps), 'kept;', len(ca), 'calls;', len(data), 'bytes')
    finally:
        shutil.rmtree(scratch)


if __name__ == '__main__':
    if sys.argv[1:2] == ['--build']:
        build(sys.argv[2])
    else:
        main()
