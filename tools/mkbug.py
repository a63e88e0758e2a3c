#!/usr/bin/env python3
"""Builds and validates planted bugs: python3 tools/mkbug.py SPEC.py [id...]
SPEC.py defines BUGS = [dict(id, property, file, edits=[(old, new)...], demo, needs, breaks)]; each becomes seeded/<id>/
only if the edits apply, the tests still pass with them, and the demo passes without and fails with them."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=600, **k)


def tests(tree):
    """ids of the tests that pass in a scratch tree, each file as a script and under pytest like /opt/vp/test.sh"""
    import concurrent.futures, glob, re

    def one(t):
        td = tempfile.mkdtemp(prefix='mkbugt')
        env = 'cd %s; TMPDIR=%s PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s/dill/tests:%s ' % (tree, td, tree, tree)
        out = set()
        if sh(env + 'timeout 100 %s %s </dev/null' % (PY, t), tree).returncode == 0:
            out.add('script::' + t)
        r = sh(env + 'timeout 100 %s -m pytest -q -rA --no-header --tb=no --assert=plain -p no:cacheprovider %s </dev/null' % (PY, t), tree)
        out.update(re.findall(r'^PASSED (\S+)', r.stdout, re.M))
        shutil.rmtree(td, ignore_errors=True)
        return out
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return set().union(*ex.map(one, [os.path.relpath(f, tree) for f in sorted(glob.glob(tree + '/dill/tests/test_*.py'))]))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    base = json.load(open('/opt/vp/BASELINE.json'))
    tmp = tempfile.mkdtemp(prefix='mkbug')
    tree = tmp + '/repo'
    shutil.copytree('/repo', tree, symlinks=True)
    ref = tests(tree)
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        sh('git checkout -q -- .', tree)
        edits = b['edits'] if 'edits' in b else [(b['old'], b['new'])]
        bad = None
        for e in edits:
            f, old, new = e if len(e) == 3 else (b['file'],) + tuple(e)
            p = os.path.join(tree, f)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                bad = 'edit matches %d times in %s: %r' % (s.count(old), f, old[:80])
                break
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        if bad:
            print(b['id'], 'REJECTED', bad)
            continue
        diff = sh('git diff', tree).stdout
        # changed lines must be of the original repository
        mine = []
        for f in sh('git diff --name-only', tree).stdout.split():
            orig = sh('git show eec956e:' + f, tree).stdout.split('\n')
            cur = None
            for l in sh('git diff -U0 ' + f, tree).stdout.split('\n'):
                if l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
                    mine.append(l)
        if mine:
            print(b['id'], 'REJECTED changes lines that are not of the original:', mine)
            continue
        d = os.path.join(tmp, 'demo-' + b['id'])
        os.makedirs(d)
        open(d + '/demo.py', 'w', encoding='utf-8').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        with_ = sh('bash %s/demo.sh' % d, tree)
        got = tests(tree)
        sh('git checkout -q -- .', tree)
        without = sh('bash %s/demo.sh' % d, tree)
        lost = ref - got
        if without.returncode != 0 or with_.returncode == 0 or lost:
            print(b['id'], 'REJECTED demo without=%d with=%d lost=%s\n%s\n%s' % (without.returncode, with_.returncode, sorted(lost)[:5], without.stderr[-700:], with_.stderr[-300:]))
            continue
        out = os.path.join(ROOT, 'seeded', b['id'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + '/patch.diff', 'w', encoding='utf-8').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        print(b['id'], 'ok', with_.stderr.strip().splitlines()[-1:] )
    shutil.rmtree(tmp)


main()
