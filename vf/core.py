"""Parent side of a check: shards, watchdogs, verdict, evidence, replay files.

A check is `python3 check.py <ID>`; the deciding work runs in worker processes
under the interpreter the project is built for, with dill imported from the
working tree of /repo (VF_REPO overrides the location for scratch copies).
"""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
PY = os.environ.get('VF_PYTHON', '/opt/venv/bin/python')
if not os.path.exists(PY):
    PY = sys.executable
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
NPROC = int(os.environ.get('VF_NPROC', '0')) or min(8, os.cpu_count() or 1)


def child_env(scratch, extra=None):
    env = {
        'PATH': '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
        'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
        'HOME': scratch, 'TMPDIR': scratch,
        'PYTHONPATH': REPO + os.pathsep + ROOT,
        'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
        'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
        'VF_REPO': REPO, 'VF_PYTHON': PY,
        'VERIF_SEED': str(SEED), 'VERIF_TIER': TIER,
    }
    if extra:
        env.update(extra)
    return env


def load_known():
    """lines "known: property=<id> key=<key> <what fails>" of known_findings.txt -> {pid: {key: what}}"""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            if line.startswith('known: '):
                _, prop, key, what = line.strip().split(' ', 3)
                out.setdefault(prop.partition('=')[2], {})[key.partition('=')[2]] = what
    return out


class Inconclusive(Exception):
    pass


def run_shards(pid, spec, scratch, replay=None):
    """spec: {'shards': n, 'timeout': s}. returns list of result dicts"""
    n = 1 if replay else spec.get('shards', NPROC)
    timeout = spec.get('timeout', 600)
    pending = list(range(n))
    if os.environ.get('VF_ONE') and not replay:       # one slice of the cases only, for tools/mutate.py
        pending, n = [int(os.environ['VF_ONE'].split('/')[0])], int(os.environ['VF_ONE'].split('/')[1])
    running = {}
    results = {}
    deadline = time.monotonic() + timeout
    while pending or running:
        while pending and len(running) < NPROC:
            s = pending.pop(0)
            sd = os.path.join(scratch, 's%d' % s)
            os.makedirs(sd, exist_ok=True)
            out = os.path.join(sd, 'result.json')
            prog = os.path.join(sd, 'progress.txt')
            arg = json.dumps({'pid': pid, 'shard': s, 'nshards': n, 'tier': TIER,
                              'seed': SEED, 'out': out, 'progress': prog,
                              'scratch': sd, 'replay': replay})
            log = open(os.path.join(sd, 'log.txt'), 'wb')
            pyargs = spec.get('pyargs', [])
            p = subprocess.Popen(
                [PY, '-X', 'faulthandler'] + pyargs +
                ['-c', 'import vf.worker; vf.worker.main()', arg],
                env=child_env(sd, spec.get('env')), cwd=sd, stdin=subprocess.DEVNULL,
                stdout=log, stderr=log, start_new_session=True)
            log.close()
            running[s] = (p, out, prog, sd)
        time.sleep(0.02)
        for s, (p, out, prog, sd) in list(running.items()):
            rc = p.poll()
            if rc is None and time.monotonic() > deadline:
                _kill(p)
                rc = 'timeout'
            if rc is None:
                continue
            del running[s]
            _kill(p)
            res = None
            if os.path.exists(out):
                try:
                    res = json.load(open(out, encoding='utf-8'))
                except Exception:
                    res = None
            cur = ''
            if os.path.exists(prog):
                cur = open(prog, encoding='utf-8', errors='replace').read()[-4000:]
            tail = open(os.path.join(sd, 'log.txt'), 'rb').read()[-3000:].decode('utf-8', 'replace')
            results[s] = {'shard': s, 'rc': rc, 'res': res, 'case': cur, 'log': tail}
    return [results[s] for s in sorted(results)]


class Meta:
    """the literal SPEC/RULE/LEVEL/ASSUMPTIONS/FLOORS of a property module, without importing it"""
    def __init__(self, pid):
        import ast
        with open(os.path.join(ROOT, 'vf', 'props', pid.lower() + '.py'), encoding='utf-8') as f:
            tree = ast.parse(f.read())
        for st in tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and \
                    st.targets[0].id in ('SPEC', 'RULE', 'LEVEL', 'ASSUMPTIONS', 'FLOORS'):
                setattr(self, st.targets[0].id, ast.literal_eval(st.value))


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(5)
    except Exception:
        pass


def main(argv):
    pid = argv[0]
    replay = None
    if '--replay' in argv:
        replay = json.load(open(argv[argv.index('--replay') + 1], encoding='utf-8'))['case']
    t0 = time.time()
    mod = Meta(pid)
    spec = mod.SPEC.get(TIER, mod.SPEC.get('quick')) if hasattr(mod, 'SPEC') else {}
    base = tempfile.mkdtemp(prefix='vf-%s-' % pid.lower())
    try:
        outs = run_shards(pid, spec, base, replay)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return conclude(pid, mod, spec, outs, t0, replay)


def conclude(pid, mod, spec, outs, t0, replay):
    viol, incon = [], []
    counters, samples = {}, []
    evaluations = 0
    hashes = set()
    cov = set()
    covtotal = 0
    for o in outs:
        r = o['res']
        if r is None or not r.get('complete'):
            # the worker died or hung inside a case
            if o['rc'] == 'timeout':
                incon.append('shard %d ran out of time in case %s' % (o['shard'], o['case'][:300]))
            elif isinstance(o['rc'], int) and o['rc'] < 0:
                sig = -o['rc']
                if sig in (6, 7, 8, 11, 4) and o['case']:
                    viol.append({'key': 'crash', 'msg': 'interpreter died on signal %d while running a case\n%s'
                                 % (sig, o['log'][-1500:]), 'case': json.loads(o['case'].splitlines()[-1])
                                 if o['case'].strip().startswith('{') else o['case']})
                else:
                    incon.append('shard %d killed by signal %d' % (o['shard'], sig))
            else:
                # dill not importable / worker error
                incon.append('shard %d rc=%s\n%s' % (o['shard'], o['rc'], o['log'][-2500:]))
        if r:
            viol += r['violations']
            evaluations += r['evaluations']
            hashes.update(r['hashes'])
            for k, v in r['counters'].items():
                counters[k] = counters.get(k, 0) + v
            samples += r['samples']
            incon += r.get('inconclusive', [])
            cov.update(map(tuple, r.get('cov', [])))
            covtotal = max(covtotal, r.get('covtotal', 0))
    if os.environ.get('VF_COVOUT'):
        with open(os.environ['VF_COVOUT'], 'a') as f:
            json.dump([pid, sorted(cov)], f)
            f.write('\n')
    known = load_known().get(pid, {})
    fresh, seen_known = [], {}
    for v in viol:
        if v['key'] in known:
            seen_known[v['key']] = seen_known.get(v['key'], 0) + 1
        else:
            fresh.append(v)
    if not replay:
        for name, least in getattr(mod, 'FLOORS', {}).items():
            if counters.get(name, 0) < least and not fresh:
                incon.append('monitor %s observed %d events, needs %d' % (name, counters.get(name, 0), least))
        for k in known:
            # the listed finding is announced on every run that still exhibits it
            if k in seen_known:
                print('KNOWN-FINDING: property=%s %s (%s; %d cases)' % (pid, known[k], k, seen_known[k]))
    # one replay file per distinct key
    bykey = {}
    for v in fresh:
        bykey.setdefault(v['key'], []).append(v)
    rdir = os.path.join(ROOT, 'replays', pid)
    if not replay and os.path.isdir(rdir):
        shutil.rmtree(rdir, ignore_errors=True)
    for key, vs in sorted(bykey.items()):
        v = vs[0]
        if replay:
            path = '(replayed)'
        else:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, hashlib.sha1(key.encode()).hexdigest()[:12] + '.json')
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({'property': pid, 'seed': SEED, 'tier': TIER, 'key': key,
                           'msg': v['msg'], 'case': v['case'], 'count': len(vs)}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  key=%s cases=%d\n  %s' % (key, len(vs), v['msg'][:1500].replace('\n', '\n  ')))
        if replay:
            print('  case=%s' % json.dumps(v['case'])[:2000])
    if not replay:
        ev = {
            'property': pid, 'tier': TIER, 'seed': SEED,
            'level': getattr(mod, 'LEVEL', 'exploration'),
            'coverage': {
                'evaluations': evaluations,
                'distinct_nontrivial': len(hashes),
                'rule': mod.RULE,
                'samples': samples[:12],
                'monitor_events': counters,
                'dill_lines_executed': len(cov), 'dill_lines_total': covtotal,
                'shards': len(outs),
                'inconclusive': incon[:5],
                'known_findings_seen': seen_known,
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(time.time() - t0, 2),
            'violations': len(fresh),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, default=repr)
        print('%s %s seed=%d: %d evaluations, %d distinct, %d/%d dill lines, %d violations, %.1fs'
              % (pid, TIER, SEED, evaluations, len(hashes), len(cov), covtotal, len(fresh), time.time() - t0))
        if os.environ.get('VF_VERBOSE'):
            print(json.dumps(counters, indent=1, sort_keys=True))
    if fresh:
        if incon and os.environ.get('VF_VERBOSE'):
            print('ALSO INCONCLUSIVE:\n%s' % '\n'.join(incon[:6]))
        return 1
    if incon:
        print('INCONCLUSIVE %s:\n%s' % (pid, '\n'.join(incon[:6])))
        return 3
    return 0
