#!/usr/bin/env python3
"""Runs the checks against planted bugs in a scratch copy: python3 tools/runbugs.py [id...] -> which checks report which bug.
ALL=1 runs every check, otherwise only the check of the bug's property."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
checks = [c['property'] for c in json.load(open(ROOT + '/MANIFEST.json'))['checks']]
tmp = tempfile.mkdtemp(prefix='runbug')
tree = tmp + '/repo'
shutil.copytree('/repo', tree, symlinks=True)
for i in ids:
    meta = json.load(open('%s/seeded/%s/meta.json' % (ROOT, i)))
    subprocess.run('git checkout -q -- .; git apply %s/seeded/%s/patch.diff' % (ROOT, i), shell=True, cwd=tree, check=True)
    res = {}
    for c in checks if os.environ.get('ALL') else [meta['property']]:
        if c not in checks:
            res[c] = 'no check'
            continue
        r = subprocess.run([sys.executable, ROOT + '/check.py', c], capture_output=True, text=True, errors='replace', env=dict(os.environ, VF_REPO=tree))
        keys = [l.strip().split()[0] for l in r.stdout.splitlines() if l.strip().startswith('key=')]
        if r.returncode:
            res[c] = '%d %s' % (r.returncode, ' '.join(keys[:3]))
    own = res.get(meta['property'], '')
    print(i, meta['property'], 'CAUGHT' if own.startswith('1') else 'MISSED', res, flush=True)
shutil.rmtree(tmp)
