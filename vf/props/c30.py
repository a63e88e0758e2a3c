"""C30: pickles and check tell the truth."""
import io, math, os, pickle, re, subprocess, sys, warnings
import dill
from .. import corpus, fx, odd_eq, state

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('pickles is asked about objects of every kind the generators know, and about objects built so that the answer is known (every way of comparing, of being restored as something else, of raising anywhere and anything), with every '
        'combination of exact, safe and settings; a separate dumps, loads and comparison decides what it has to answer or raise, and interpreter and object are compared before and after; check is asked about objects of all kinds with '
        'its own output and that of the other process captured, against a fresh interpreter that loads the same bytes from a file; non-trivial = (kind, exact, safe, settings, answer)')
ASSUMPTIONS = ['"the same kind of object" is: equal, or of the same type, or of a type that prints the same (classes stored whole)', 'check needs the other process to print what it loaded']
FLOORS = {'pickles_true': 5000, 'pickles_false': 2500, 'pickles_raised': 300, 'known_answers': 6000, 'snapshots': 3000, 'checks_success': 50, 'checks_failed': 15, 'checks_undumpable': 10}
OPTS = [{}, {}, {}, {'recurse': True}, {'byref': True}, {'protocol': 2}, {'protocol': 5}, {'protocol': 3}, {'ignore': True}, {'ignore': False}, {'fmode': 1}, {'byref': False, 'recurse': True, 'protocol': 4}]
nan = float('nan')


def cases(ctx):
    for i in ctx.mine(12000 if ctx.quick else 120000):
        yield {'known': i}
    for i in ctx.mine(6000 if ctx.quick else 60000):
        yield {'i': i}
    for i in ctx.mine(200 if ctx.quick else 1200):
        yield {'check': i}


def setup(ctx):
    warnings.simplefilter('ignore')
    import numpy, numpy.ma, json, collections, dataclasses, typing, sched, unittest.mock, encodings.raw_unicode_escape, encodings.latin_1, encodings.idna, dis, inspect
    os.chdir(ctx.scratch)
    dill.copy([numpy.ones(3), numpy.sin, numpy.dtype('i4')])


def run_case(ctx, case):
    if 'known' in case:
        known(ctx, case)
    elif 'i' in case:
        anyobject(ctx, case)
    else:
        checks(ctx, case)


# ---- pickles, with the answer known beforehand -----------------------------------------------------------------
def known(ctx, case):
    """-> the object, whether its copy equals it, whether it is of the same kind, what is raised"""
    r = ctx.rng('known', case['known'])
    np = odd_eq.np
    fam = r.choice(['eq', 'eq', 'eq', 'remade', 'fails', 'fails', 'nan', 'arrays', 'twin', 'plain'])
    err = None
    kind = True
    if fam == 'eq':
        how = r.choice(sorted(odd_eq.ANSWERS))
        arg = None
        equal = odd_eq.EQUAL.get(how)
        if how == 'raises':
            arg = r.choice([e for e in odd_eq.ERRORS if issubclass(e, Exception)])
        elif how == 'warns':
            arg = r.random() < .5
            equal = arg
        elif how == 'array':
            arg = r.choice([[], [True], [False], [True, False], [[True, True], [True, True]], [[1, 0]], True, False, [1, 2], [0]])
            equal = bool(np.array(arg).all())
        elif how == 'verdict':
            v = r.random() < .5
            arg = (v, r.choice(['all', 'toarray', 'truth', 'nested']))
            equal = v
        elif how == 'fields':
            arg = r.choice([1, 'x', [1, 2], None])
        o = odd_eq.AnyEq(how, arg)
        label = 'eq %s %r' % (how, arg)
        w = r.random()
        if w < .15 and how in ('true', 'false', 'one', 'none', 'empty', 'full', 'notimpl', 'raises', 'nobool', 'fields'):
            o, label = [o], label + ' in a list'
        elif w < .2:
            o, label, equal = fx.Plain(o=o), label + ' in an object', False
    elif fam == 'remade':
        o, equal, kind = r.choice([
            lambda: (odd_eq.Remade(int, (5,)), False, False), lambda: (odd_eq.Remade(int, (5,), 5), True, False), lambda: (odd_eq.Remade(list, (), ()), False, False), lambda: (odd_eq.Remade(str, ('a',), 'a'), True, False),
            lambda: (odd_eq.ListLike([1, 2]), True, False), lambda: (odd_eq.ListLike(), True, False), lambda: ([odd_eq.ListLike([3])], True, True), lambda: ([odd_eq.Remade(int, (5,))], False, True),
            lambda: (odd_eq.Remade(odd_eq.Remade, (int, (5,))), False, True), lambda: (odd_eq.Remade(dict, ([('a', 1)],), {'a': 1}), True, False), lambda: (odd_eq.Remade(eval, ('None',)), False, False),
            lambda: (odd_eq.Remade(eval, ('None',), 0), False, False), lambda: (odd_eq.Remade(eval, ('NotImplemented',)), False, False)])()
        label = 'remade %s' % (type(o).__name__ if not isinstance(o, odd_eq.Remade) else o.__dict__)
    elif fam == 'fails':
        err = r.choice(odd_eq.ERRORS)
        where = r.choice(['dump', 'load', 'make'])
        o = odd_eq.Fails(where, err)
        label = 'raises %s on %s' % (err.__name__, where)
        if r.random() < .5:
            o = r.choice([lambda: [1, o], lambda: {'k': (o, 2)}, lambda: fx.Plain(o=o)])()
            label += ' in something'
        equal = False
    elif fam == 'nan':
        o, equal = r.choice([lambda: (nan, False), lambda: ([nan], False), lambda: (complex(nan, 0), False), lambda: ({'a': (1, nan)}, False), lambda: (math.inf, True), lambda: (-0.0, True), lambda: ([math.inf, -0.0], True),
                             lambda: (np.array([1, nan]), False), lambda: (np.float64(nan), False), lambda: (np.array(nan), False), lambda: (np.array([], float), True)])()
        label = 'nan %r' % (o,)
    elif fam == 'arrays':
        o, equal, kind = r.choice([
            lambda: (np.arange(r.randrange(5)), True, True), lambda: (np.zeros((2, 0)), True, True), lambda: (np.array(3), True, True), lambda: (np.ones((2, 3), 'f4', order='F'), True, True),
            lambda: ([np.arange(3)], False, True), lambda: ({'a': np.arange(2)}, False, True), lambda: ((np.arange(1),), True, True), lambda: ([np.array([])], False, True), lambda: (np.ones(4).view(odd_eq.Shrinks), False, False),
            lambda: (np.ones(1).view(odd_eq.Shrinks), True, False), lambda: (np.ones((1, 1)).view(odd_eq.Shrinks), False, False), lambda: (np.array([('a', 1)], dtype=[('x', 'U2'), ('y', int)]), True, True),
            lambda: (np.array([None, 'a', [1]], dtype=object), True, True), lambda: (np.int8(4), True, True), lambda: (np.array(['a', 'b']), True, True), lambda: (np.matrix([[1, 2]]), True, True)])()
        label = 'array %r' % (o,)
    elif fam == 'twin':
        c = odd_eq.samename(r.randrange(3))
        o, equal = r.choice([lambda: (c(), False), lambda: ([c()], False), lambda: (c, False), lambda: ((lambda x=c: x), False)])()
        label = 'twin %s' % type(o).__name__
    else:
        o, equal = r.choice([lambda: (r.choice([None, True, 0, 'x', b'', (), [], {}, set(), 2.5, len, int, os.path.join, Ellipsis, range(3), fx.Plain, fx.topfunc]), True), lambda: (fx.Plain(a=1), False),
                             lambda: ([fx.Plain()], False), lambda: (object(), False), lambda: ((lambda: 1), False), lambda: ({1: [2, (3,)]}, True), lambda: (os, True), lambda: (iter([1, 2]), False)])()
        label = 'plain %r' % (type(o),)
    exact, safe = r.random() < .5, r.random() < .5
    kw = dict(r.choice(OPTS))
    if fam == 'twin':
        kw.pop('byref', None)
    what = '%s; exact %s, safe %s, %s' % (label, exact, safe, kw)
    case['what'] = what
    expect = ask_expected(exact, safe, equal, kind, err)
    judge(ctx, o, exact, safe, kw, expect, what, r, how=r.randrange(3))
    ctx.count('known_answers')


def ask_expected(exact, safe, equal, kind, err):
    if err is not None:
        if issubclass(err, odd_eq.TRAPPED) or safe and issubclass(err, Exception):
            return False
        return err
    return equal if exact else equal or kind


def judge(ctx, o, exact, safe, kw, expect, what, r, how=0, snap=None):
    filters = list(warnings.filters)
    if how == 2 and not kw.get('byref'):
        with warnings.catch_warnings():
            warnings.simplefilter('error', UserWarning)
            got = answer(o, exact, safe, kw, how)
    else:
        got = answer(o, exact, safe, kw, how)
    if warnings.filters != filters:
        ctx.violation('filters-changed', what)
    ctx.count('pickles_true' if got is True else 'pickles_false' if got is False else 'pickles_raised')
    ctx.nontrivial(re.sub(r'0x\w+', '', what)[:120], str(got))
    if got is not expect:
        ctx.violation('wrong-answer', '%s: %r, expected %r' % (what, got, expect))
        return False
    return True


def answer(o, exact, safe, kw, how=0):
    try:
        if how == 1:
            return dill.pickles(o, exact, safe, **kw)
        return dill.pickles(o, exact=exact, safe=safe, **kw) if exact or safe or how == 2 else dill.pickles(o, **kw)
    except BaseException as e:
        if type(e).__name__ == 'CaseTimeout':
            raise
        return type(e)


# ---- pickles of any object, against a separate copy and comparison ----------------------------------------------
def anyobject(ctx, case):
    r = ctx.rng(case['i'])
    it = corpus.make(r, ctx.scratch, str(ctx.shard))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('error', dill.PicklingWarning)
            exact, safe = r.random() < .5, r.random() < .4
            kw = dict(r.choice(OPTS))
            case['label'], case['src'] = it.label, it.src[:3000]
            what = '%s; exact %s, safe %s, %s' % (it.label, exact, safe, kw)
            case['what'] = what
            o = it.obj
            ig = {k: v for k, v in kw.items() if k == 'ignore'}
            err = None
            equal = kind = False
            try:
                c = dill.loads(dill.dumps(o, **{k: v for k, v in kw.items() if k != 'ignore'}), **ig)
            except Exception as e:
                err = type(e)
            else:
                try:
                    equal = c == o
                    if isinstance(equal, odd_eq.np.ndarray):
                        equal = equal.all() and c.shape == o.shape
                    equal = bool(equal)
                except Exception:
                    equal = False
                kind = type(c) is type(o) or repr(type(c)) == repr(type(o))
                if it.label.startswith('file'):
                    for f in c[:1]:
                        f.close()
            c = None
            if it.label.startswith('file'):
                graph = None
            else:
                graph = state.Graph(o)
            before = state.Interp()
            expect = ask_expected(exact, safe, equal, kind, err)
            ok = judge(ctx, o, exact, safe, kw, expect, what, r)
            ctx.count('snapshots')
            bad = before.diff(state.Interp(), ('fds',) if it.label.startswith('file') else ())
            if graph is not None:
                bad += graph.changed()
            if bad:
                ctx.violation('side-effect:%s' % bad[0].partition(':')[0].split(' ')[0], '%s\n%s' % (what, '\n'.join(bad[:6])))
            elif ok and r.random() < .3:
                got = answer(o, exact, safe, kw)
                ctx.count('asked_again')
                if got is not expect:
                    ctx.violation('not-repeatable', '%s: %r, then %r' % (what, expect, got))
    finally:
        it.close()


# ---- check ------------------------------------------------------------------------------------------------------
BIG = [70000, 131072, 400000, 3000000]


def checks(ctx, case):
    r = ctx.rng('check', case['check'])
    fam = r.choice(['corpus', 'corpus', 'corpus', 'bad', 'text', 'big', 'unprintable', 'much', 'missing', 'loadfails', 'exits', 'stored', 'stored'])
    closers = []
    if fam == 'corpus':
        it = corpus.make(r, ctx.scratch, 'c%d' % ctx.shard, r.choice(['data', 'data', 'functions', 'classes', 'exotic', 'reference', 'hooks']), ['main', 'nowhere', 'runtime'])
        o, label = it.obj, it.label
        closers = it.closers
    elif fam == 'bad':
        it = corpus.make(r, ctx.scratch, 'c%d' % ctx.shard, 'bad', ['main', 'nowhere'])
        o, label = it.obj, it.label
        closers = it.closers
    elif fam == 'text':
        o = r.choice(['', 'a b', '\'', '"', '\'"\\', '\n\t ', '  leading', '\x00nul', '\u00e9\u4e2d', '%s %d', '{}', b'\x00\xff', '\ud800', 'x\n' * 50, ["it's", '"'], ';import os', '-c'])
        label = 'text %a' % (o,)
    elif fam == 'big':
        n = r.choice(BIG)
        o = r.choice([lambda: 'x' * n, lambda: bytes(n), lambda: list(range(n // 4)), lambda: {'k': 'y\n' * (n // 2)}])()
        label = 'big %s %d' % (type(o).__name__, n)
    elif fam == 'unprintable':
        o, label = r.choice([odd_eq.Unprintable(), [odd_eq.Unprintable()]]), 'unprintable'
    elif fam == 'much':
        o, label = odd_eq.SaysMuch(r.choice([1, 'a b\nc', b'\xff'])), 'much'
    elif fam == 'stored':
        o, label = [odd_eq.Stored()], 'tells the protocol'
    elif fam == 'missing':
        import types
        m = types.ModuleType('vf_missing')
        m.f = type('C', (), {'__module__': 'vf_missing', '__qualname__': 'f'})
        sys.modules['vf_missing'] = m
        closers.append(lambda: sys.modules.pop('vf_missing', None))
        o, label = r.choice([lambda: m.f, lambda: [1, m.f()]])(), 'of a module the other process lacks'
    elif fam == 'loadfails':
        o, label = odd_eq.Fails('load', r.choice([ValueError, TypeError, KeyError])), 'fails on load'
    else:
        o, label = odd_eq.Fails('load', SystemExit), 'exits on load'
    kw = dict(r.choice([{}, {}, {'protocol': 2}, {'protocol': r.randrange(6)}, {'byref': True}, {'recurse': True}, {'ignore': True}, {'ignore': False}]))
    verbose = r.choice([None, True, True, True, False])
    py = r.choice([None, None, 'script', 'spaced', 'absent'])
    what = 'check of %s; %s, verbose %s, python %s' % (label, kw, verbose, py)
    case['what'] = what
    try:
        one_check(ctx, r, o, kw, verbose, py, what, fam)
    finally:
        for c in closers:
            c()


def script(ctx, name):
    d = os.path.join(ctx.scratch, 'with space' if name == 'spaced' else 'nospace')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'py')
    if not os.path.exists(p):
        with open(p, 'w') as f:
            f.write('#!/bin/sh\necho ran >> "$VF_CHECKLOG"\nexec "%s" "$@"\n' % sys.executable)
        os.chmod(p, 0o755)
    return p


def one_check(ctx, r, o, kw, verbose, py, what, fam):
    log = os.path.join(ctx.scratch, 'checklog')
    if os.path.exists(log):
        os.unlink(log)
    os.environ['VF_CHECKLOG'] = log
    exe = None if py is None else script(ctx, py) if py != 'absent' else os.path.join(ctx.scratch, 'no such python')
    ig = {k: v for k, v in kw.items() if k == 'ignore'}
    dk = {k: v for k, v in kw.items() if k != 'ignore'}
    data = err = None
    with warnings.catch_warnings():
        warnings.simplefilter('error', dill.PicklingWarning)
        try:
            data = dill.dumps(o, **dk)
        except Exception as e:
            err = type(e)
    # what a fresh interpreter makes of these bytes
    want = None
    if data is not None and py != 'absent':
        p = os.path.join(ctx.scratch, 'check.pkl')
        with open(p, 'wb') as f:
            f.write(data)
        # the bytes are on its standard input, too
        with open(p, 'rb') as f:
            q = subprocess.run([exe or sys.executable, '-c', 'import dill\nwith open(%r, "rb") as f: s = f.read()\nprint(dill.loads(s, **%r))' % (p, ig)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        want = q.returncode == 0, q.stdout
        if os.path.exists(log):
            os.unlink(log)
    kk = dict(kw)
    if verbose is not None:
        kk['verbose'] = verbose
    if exe is not None:
        kk['python'] = exe
    before = state.Interp()
    args = ()
    if 'protocol' in kk and r.random() < .5:
        args = (kk.pop('protocol'),)
    got, ret, said, printed = captured(ctx, o, args, kk)
    ctx.count('snapshots')
    bad = before.diff(state.Interp())
    if bad:
        ctx.violation('check-side-effect', '%s\n%s' % (what, '\n'.join(bad[:5])))
        return
    if err is not None:
        ctx.count('checks_undumpable')
        if got is not err:
            ctx.violation('check-outcome', '%s: %r instead of %s' % (what, got, err.__name__))
        if said != ('DUMP FAILED\n' if verbose else '') or printed:
            ctx.violation('check-said', '%s: said %r, other process %r' % (what, said, printed[:200]))
        if os.path.exists(log):
            ctx.violation('check-ran', '%s: started another process although nothing can be stored' % what)
    elif py == 'absent':
        ctx.count('checks_absent')
        if not (isinstance(got, type) and issubclass(got, OSError)):
            ctx.violation('check-outcome', '%s: %r without an interpreter' % (what, got))
        if 'SUCCESS' in said:
            ctx.violation('check-said', '%s: said %r' % (what, said))
    else:
        ok, out = want
        ctx.count('checks_success' if ok else 'checks_failed')
        if got is not None or ret is not None:
            ctx.violation('check-outcome', '%s: %r, returned %r' % (what, got, ret))
            return
        line = 'SUCCESS\n' if ok else 'LOAD FAILED\n'
        if said != (line if verbose else ''):
            ctx.violation('check-said', '%s: said %r, expected %r' % (what, said, line if verbose else ''))
        scrub = lambda b: re.sub(rb'0x[0-9a-f]+', b'0x', b)
        if sorted(scrub(printed)) != sorted(scrub(out)):       # (sets come in any order)
            ctx.violation('check-printed', '%s: the other process printed %.300r, expected %.300r' % (what, printed, out))
        if exe is not None and not os.path.exists(log):
            ctx.violation('check-ran', '%s: the interpreter that was named was not used' % what)
    ctx.nontrivial(fam, sorted(kw), verbose, py, said)


def captured(ctx, o, args, kk):
    """run check with descriptors 1 and 2 going to files -> exception type, result, what it said, what the other process printed"""
    files = [open(os.path.join(ctx.scratch, n), 'w+b') for n in ('fd1', 'fd2')]
    sys.stdout.flush()
    sys.stderr.flush()
    saved = [os.dup(1), os.dup(2)]
    out = sys.stdout
    sys.stdout = io.StringIO()
    got = ret = None
    try:
        os.dup2(files[0].fileno(), 1)
        os.dup2(files[1].fileno(), 2)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('error', dill.PicklingWarning)
                ret = dill.check(o, *args, **kk)
        except Exception as e:
            got = type(e)
    finally:
        for n, s in ((1, saved[0]), (2, saved[1])):
            os.dup2(s, n)
            os.close(s)
        said = sys.stdout.getvalue()
        sys.stdout = out
        files[0].seek(0)
        printed = files[0].read()
        for f in files:
            f.close()
    return got, ret, said, printed
