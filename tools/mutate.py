#!/usr/bin/env python3
"""Mutation testing of dill against the checks (never run by a check): python3 tools/mutate.py OUT.jsonl COUNT [seed] [file]
Seeded AST mutants of /repo/dill that the project's tests accept are given to all checks (one slice of each); what survives is listed
for a look by hand. Works in scratch copies under /tmp only."""
import ast, concurrent.futures, glob, json, os, queue, random, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = {'_dill.py': 10, 'session.py': 5, 'detect.py': 3, 'source.py': 5, 'pointers.py': 2, 'temp.py': 2, '__diff.py': 3, 'logger.py': 2, '_shims.py': 2, 'settings.py': 1, '__init__.py': 1, 'objtypes.py': 1, '_objects.py': 1}
ORDER = {'session.py': 'C13 C14 C15', 'detect.py': 'C23', 'source.py': 'C24 C25', 'pointers.py': 'C26', 'temp.py': 'C25', '__diff.py': 'C27', 'logger.py': 'C22', '_objects.py': 'C29', 'objtypes.py': 'C29', '__init__.py': 'C20 C29'}
ALL = ['C%02d' % i for i in range(1, 31)]
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def mutants(src, covered):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in src.encode().split(b'\n'):
        offs.append(offs[-1] + len(l) + 1)
    b = src.encode()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
    out = []

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def put(n, text, kind):
        if n.lineno not in covered and not any(i in covered for i in range(n.lineno, n.end_lineno + 1)):
            return
        s, e = span(n)
        out.append((kind, n.lineno, b[s:e].decode(), text, (b[:s] + text.encode() + b[e:]).decode()))
    for n in ast.walk(tree):
        if n in doc:
            continue
        u = ast.unparse
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = CMP[type(n.ops[0])]
            put(n, '(%s)' % u(ast.Compare(n.left, [t()], n.comparators)), 'cmp')
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                put(n, '(%s)' % u(ast.Compare(n.left, [ast.Eq() if isinstance(n.ops[0], ast.Is) else ast.NotEq()], n.comparators)), 'is->eq')
        elif isinstance(n, ast.BoolOp):
            put(n, '(%s)' % u(ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values)), 'boolop')
            for i in range(len(n.values)):
                v = n.values[:i] + n.values[i + 1:]
                put(n, '(%s)' % u(v[0] if len(v) == 1 else ast.BoolOp(n.op, v)), 'dropcond')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, '(not (%s))' % u(n.test), 'negate')
            if not isinstance(n, ast.While):
                put(n.test, 'True', 'always')
                put(n.test, 'False', 'never')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % u(n.operand), 'unnot')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, str(not n.value), 'flip')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            put(n, str(n.value + 1), 'int')
            put(n, str(n.value - 1), 'int')
        elif isinstance(n, ast.Constant) and n.value is None:
            put(n, '()', 'none')
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)):
            put(n, 'pass', 'dropcall')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            put(n, 'pass', 'dropassign')
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                put(n, 'return None', 'return')
        elif isinstance(n, ast.Raise):
            put(n, 'pass', 'dropraise')
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, 'pass', 'dropjump')
        elif isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for i in range(len(n.type.elts)):
                put(n.type, u(ast.Tuple(n.type.elts[:i] + n.type.elts[i + 1:], ast.Load())), 'except')
        elif isinstance(n, ast.Call):
            for i in range(len(n.keywords)):
                if n.keywords[i].arg:
                    put(n, u(ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:])), 'dropkw')
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                put(n, u(ast.Call(n.func, n.args[::-1], n.keywords)), 'swapargs')
            if n.args and len(n.args) > 1:
                put(n, u(ast.Call(n.func, n.args[:-1], n.keywords)), 'droparg')
        elif isinstance(n, ast.BinOp):
            op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}.get(type(n.op))
            if op and not isinstance(n.left, ast.Constant):
                put(n, '(%s)' % u(ast.BinOp(n.left, op(), n.right)), 'binop')
        elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
            i = len(n.elts) // 2
            put(n, '(%s,)' % ', '.join(u(x) for x in n.elts[:i] + n.elts[i + 1:]), 'tuple')
    res = []
    for m in out:
        try:
            compile(m[4], 'x', 'exec')
        except Exception:
            continue
        res.append(m)
    return res


def run(cmd, env=None, cwd='/tmp', timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''


def tests(tree):
    out = set()
    for f in sorted(glob.glob(tree + '/dill/tests/test_*.py')):
        t = os.path.relpath(f, tree)
        td = tempfile.mkdtemp(prefix='mut')
        env = {'TMPDIR': td, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONPATH': '%s/dill/tests:%s' % (tree, tree)}
        if run('timeout 60 %s %s </dev/null' % (PY, t), env, tree)[0] == 0:
            out.add('script::' + t)
        r = run('timeout 60 %s -m pytest -q -rA --no-header --tb=no --assert=plain -p no:cacheprovider %s </dev/null' % (PY, t), env, tree)
        out.update(re.findall(r'^PASSED (\S+)', r[1], re.M))
        shutil.rmtree(td, ignore_errors=True)
        yield t, out


def main():
    outfile, count = sys.argv[1], int(sys.argv[2])
    seed = sys.argv[3] if len(sys.argv) > 3 else '1'
    only = sys.argv[4].split(',') if len(sys.argv) > 4 else None
    slots = int(os.environ.get('SLOTS', '7'))
    part = int(os.environ.get('PART', '16'))
    cov = {}
    for l in open(os.environ['COV']):
        for f, n in json.loads(l)[1]:
            cov.setdefault(f, set()).add(n)
    r = random.Random(seed)
    pool = []
    for f, w in FILES.items():
        if only and f not in only:
            continue
        ms = mutants(open('/repo/dill/' + f).read(), cov.get(f, set()))
        print(f, len(ms), flush=True)
        r.shuffle(ms)
        k = max(1, count * w // sum(FILES[x] for x in (only or FILES)))
        pool += [(f,) + m for m in ms[:k]]
    r.shuffle(pool)
    base = tempfile.mkdtemp(prefix='mutate')
    free = queue.Queue()
    for i in range(slots):
        os.makedirs('%s/%d' % (base, i))
        shutil.copytree('/repo', '%s/%d/repo' % (base, i), symlinks=True, ignore=shutil.ignore_patterns('.git'))
        shutil.copytree(ROOT, '%s/%d/verif' % (base, i), symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence'))
        free.put('%s/%d' % (base, i))
    ref = {t: set(o) for t, o in tests(base + '/0/repo')}
    n = [0]

    def one(m):
        f, kind, line, old, new, text = m
        d = free.get()
        try:
            p = d + '/repo/dill/' + f
            orig = open(p).read()
            open(p, 'w').write(text)
            res = None
            for t, got in tests(d + '/repo'):
                if ref[t] - got:
                    res = 'tests'
                    break
            if res is None:
                order = ORDER.get(f, '').split()
                rest = [c for c in ALL if c not in order]
                random.Random(str(m[:5])).shuffle(rest)
                odd = []
                for c in order + rest:
                    rc, o = run('timeout 400 %s check.py %s' % (PY, c), {'VF_REPO': d + '/repo', 'VF_ONE': '%d/%d' % (random.Random(str(m[:5]) + c).randrange(part), part), 'VERIF_SEED': seed, 'TMPDIR': d}, d + '/verif')
                    if rc == 1 and 'VIOLATION property=%s' % c in o:
                        res = c
                        break
                    if 'rc=' in o and 'INCONCLUSIVE' in o and 'needs' not in o:
                        odd.append(c)
                    if rc == 'timeout':
                        odd.append(c + ' timeout')
                if res is None:
                    res = 'SURVIVED' + (' odd ' + ' '.join(odd) if odd else '')
            open(p, 'w').write(orig)
            n[0] += 1
            with open(outfile, 'a') as g:
                g.write(json.dumps({'file': f, 'kind': kind, 'line': line, 'old': old[:300], 'new': new[:300], 'result': res}) + '\n')
        finally:
            free.put(d)
    with concurrent.futures.ThreadPoolExecutor(slots) as ex:
        list(ex.map(one, pool))
    shutil.rmtree(base)


main()
