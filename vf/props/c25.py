"""C25: temporary-file dumps hold what was put in."""
import ast, gc, importlib, io, os, subprocess, sys, types, warnings
import numpy as np
import dill
from dill import temp
from .. import gen_data, gen_imp, iso
from .c24 import call, same

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('dump/load, dumpIO/loadIO of random object graphs and dump_source/load_source, dumpIO_source/loadIO_source of functions, closures, classes, literals and arrays, by handle, by name, in every mode, with aliases, '
        'prefixes, suffixes and directories: the loaded object must be equivalent, the file must be there while its handle is (and hold a pickle dill.load reads, or importable source in utf-8), be gone after, and directory '
        'snapshots must show nothing else, also after dumps that fail; the content is compared with dumps; capture() must restore the stream; non-trivial = (kind of object, way in, way out)')
ASSUMPTIONS = ['source dumps are asked of objects whose importable source is right (C24)', 'the file of a handle closed twice or of delete=False belongs to the caller']
FLOORS = {'dumped': 1200, 'loaded': 6000, 'sources': 1200, 'source_loads': 4000, 'gone': 4000, 'failures': 200, 'captures': 200, 'settings': 3000, 'snapshots': 1900, 'imported': 300}


def cases(ctx):
    for i in ctx.mine(2400 if ctx.quick else 20000):
        yield {'i': i}
    for i in ctx.mine(640 if ctx.quick else 5000):
        yield {'i': i, 'src': True}
    for i in ctx.mine(400 if ctx.quick else 3000):
        yield {'i': i, 'lit': True}
    for i in ctx.mine(400 if ctx.quick else 3000):
        yield {'i': i, 'fail': True}
    for i in ctx.mine(400 if ctx.quick else 1500):
        yield {'i': i, 'cap': True}


def setup(ctx):
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    sys.path.insert(0, ctx.scratch)
    ctx.home = os.path.join(ctx.scratch, 'default')
    os.makedirs(ctx.home, exist_ok=True)
    import tempfile
    tempfile.tempdir = ctx.home


def run_case(ctx, c):
    for k in ('src', 'lit', 'fail', 'cap'):
        if k in c:
            return globals()[k](ctx, c)
    data(ctx, c)


def files(ctx, d):
    return sorted(os.listdir(ctx.home)), sorted(os.listdir(d))


class Dir:
    """a directory of its own, checked to be empty again"""
    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c
        self.path = os.path.join(ctx.scratch, 'd%d' % c['i'])

    def __enter__(self):
        os.makedirs(self.path, exist_ok=True)
        self.before = set(os.listdir(self.ctx.home))
        self.fds = len(os.listdir('/proc/self/fd'))
        return self.path

    def __exit__(self, *exc):
        if exc[0] is None:
            self.ctx.count('snapshots')
            left = os.listdir(self.path) + sorted(set(os.listdir(self.ctx.home)) - self.before)
            if left:
                self.ctx.violation('left', '%s left behind %s' % (self.c, left))
            if len(os.listdir('/proc/self/fd')) != self.fds:
                self.ctx.violation('open', '%s left files open' % self.c)
        for d, names in ((self.path, os.listdir(self.path)), (self.ctx.home, set(os.listdir(self.ctx.home)) - self.before)):
            for n in names:
                os.unlink(os.path.join(d, n))
        os.rmdir(self.path)


def kwds(r, d, suffix=True):
    k = {}
    if r.random() < .6:
        k['dir'] = d
    if r.random() < .4:
        k['prefix'] = r.choice(['pre_', 'x', 'été_'])
    if suffix and r.random() < .4:
        k['suffix'] = r.choice(['.pkl', '.py', '_s'])
    if r.random() < .2:
        k['delete'] = False
    return k


def handle(ctx, f, k, where, suffix):
    """what kind of file is it"""
    p = f.name
    if not os.path.exists(p):
        ctx.violation('nofile', '%s: no file while the handle is there' % where)
        return
    base = os.path.basename(p)
    if os.path.realpath(os.path.dirname(p)) != os.path.realpath(k.get('dir', ctx.home)) or not base.startswith(k.get('prefix', '')) or not base.endswith(suffix):
        ctx.violation('name', '%s: %r for %r' % (where, p, k))


def gone(ctx, f, k, where, r):
    """closing the handle, or letting go of it, removes the file"""
    p = f.name
    ctx.count('gone')
    if k.get('delete') is False:
        f.close()
        if not os.path.exists(p):
            ctx.violation('deleted', where)
            return
        os.unlink(p)
        return
    if r.random() < .5:
        f.close()
    del f
    return p


def settings(ctx, r, o):
    """the settings apply to these dumps as well"""
    ns = {'__name__': '__main__'}
    exec('class Here25:\n    x = 1\n    def m(self): return 2\n', ns)
    import __main__
    __main__.Here25 = ns['Here25']
    keep, o = o, [[1, 'a'], ns['Here25'](), ns['Here25']]
    for k, vs in (('protocol', (0, 2, 4)), ('byref', (True,)), ('recurse', (True,)), ('ignore', (True,))):
        v = r.choice(vs)
        old = dill.settings[k]
        dill.settings[k] = v
        try:
            f = temp.dump(o)
            with open(f.name, 'rb') as g:
                got = {'dump': g.read()}
            f.close()
            got['dumpIO'] = temp.dumpIO(o).getvalue()
            want = dill.dumps(o)
            for w, b in got.items():
                ctx.count('settings')
                if abs(len(b) - len(want)) > 16 or (k == 'protocol' and b[:2] != want[:2]):
                    ctx.violation('settings|' + k, '%s writes %d bytes, dumps %d: %r' % (w, len(b), len(want), b[:200]))
        except Exception as e:
            ctx.violation('settings|' + k, repr(e))
        finally:
            dill.settings[k] = old
    del __main__.Here25
    return keep


def data(ctx, c):
    r = ctx.rng(c['i'])
    n = r.choice([1, 3, 10, 30])
    o = gen_data.build(r, n)[0]
    try:
        want = dill.dumps(o)
        ref = dill.loads(want)
    except Exception:
        return
    if iso.compare(o, ref).diffs:
        return          # (C01)
    where = '%s of %d' % (type(o).__name__, n)
    if len(want) == len(dill.dumps(o)) and r.random() < .5:
        o = settings(ctx, r, o)
    with Dir(ctx, c) as d:
        k = kwds(r, d)
        mode = r.random()
        f = temp.dump(o, **dict(k))
        ctx.count('dumped')
        handle(ctx, f, k, where, k.get('suffix', ''))
        with open(f.name, 'rb') as g:
            stored = g.read()
        if stored != dill.dumps(o) and iso.compare(o, dill.loads(stored)).diffs:
            ctx.violation('content', where)
        ways = [('handle', lambda: temp.load(f)), ('name', lambda: temp.load(f.name)), ('mode', lambda: temp.load(f, mode='rb')), ('buffering', lambda: temp.load(f.name, buffering=64)), ('again', lambda: temp.load(f))]
        if k.get('delete') is False:
            ways.append(('closed', lambda: (f.close(), temp.load(f))[1]))
        for way, fn in ways:
            ctx.count('loaded')
            ctx.nontrivial(type(o).__name__, way, sorted(k), n)
            try:
                got = fn()
            except Exception as e:
                ctx.violation('load|' + way, '%s: %r' % (where, e))
                continue
            dd = iso.compare(o, got).diffs
            if dd:
                ctx.violation('load|' + way, '%s: %s' % (where, dd[:3]))
        p = gone(ctx, f, k, where, r)
        del f, ways, fn
        if p and os.path.exists(p):
            gc.collect()
            ctx.violation('stays', '%s: the file outlives its handle' % where)
        b = temp.dumpIO(o)
        if not isinstance(b, io.BytesIO):
            ctx.violation('contentIO', where)
        for way, fn in [('buffer', lambda: temp.loadIO(b)), ('bytes', lambda: temp.loadIO(b.getvalue())), ('again', lambda: temp.loadIO(b))]:
            ctx.count('loaded')
            try:
                got = fn()
            except Exception as e:
                ctx.violation('loadIO|' + way, '%s: %r' % (where, e))
                continue
            dd = iso.compare(o, got).diffs
            if dd:
                ctx.violation('loadIO|' + way, '%s: %s' % (where, dd[:3]))


def load_open(path, name):
    with open(path, 'rb') as g:
        return temp.load_source(g, alias=name)


def sources(ctx, r, d, o, nm, kind, equal, text=''):
    """o through every way of storing source"""
    where = '%s %s' % (kind, nm)
    for alias in ('', r.choice(['zz_', 'été', '_f', nm or 'x'])):
        k = kwds(r, d)
        a = {'alias': alias} if alias else {}
        try:
            f = temp.dump_source(o, **dict(k, **a))
        except Exception as e:
            ctx.violation('dump_source|' + kind, '%s: %r\n%s' % (where, e, text))
            continue
        ctx.count('sources')
        handle(ctx, f, k, where, '.py')
        with open(f.name, 'rb') as g:
            stored = g.read()
        try:
            compile(stored, f.name, 'exec')
        except Exception as e:
            ctx.violation('source|' + kind, '%s: %r\n%r\n%s' % (where, e, stored, text))
        b = temp.dumpIO_source(o, **a)
        if b.getvalue() != stored:
            ctx.violation('sourceIO|' + kind, '%s: the buffer has\n%s\n-- the file\n%s' % (where, b.getvalue(), stored))
        ways = [('handle', lambda: temp.load_source(f)), ('name', lambda: temp.load_source(f.name)), ('mode', lambda: temp.load_source(f, mode='rb')), ('again', lambda: temp.load_source(f)),
                ('buffer', lambda: temp.loadIO_source(b)), ('bytes', lambda: temp.loadIO_source(b.getvalue()))]
        if alias:
            ways += [('alias', lambda: temp.load_source(f, alias=alias)), ('aliasIO', lambda: temp.loadIO_source(b, alias=alias))]
        name = alias or nm
        if name and kind != 'literal':
            # more code after it, with no tag or with the tag of something else: the alias says what is wanted
            more = stored + r.choice([b'\nafter_ = 1\n', b'\nafter_ = 1\n\n#NAME: after_\n', b'\n# the end\n'])
            other = os.path.join(d, 'more25.py')
            with open(other, 'wb') as g:
                g.write(more)
            ways += [('untagged', lambda: temp.load_source(other, alias=name)), ('untaggedIO', lambda: temp.loadIO_source(more, alias=name)),
                     ('untagged handle', lambda: load_open(other, name)), ('expression', lambda: temp.loadIO_source(b, alias='(%s,)[0]' % name))]
        if k.get('dir') and (alias or nm) and kind != 'literal':
            def imp():
                name = os.path.basename(f.name)[:-3]
                importlib.invalidate_caches()
                sys.path.insert(0, d)
                try:
                    ctx.count('imported')
                    return getattr(importlib.import_module(name), alias or nm)
                finally:
                    sys.path.remove(d)
                    sys.modules.pop(name, None)
            if os.path.basename(f.name)[:-3].isidentifier():
                ways.append(('import', imp))
        for way, fn in ways:
            ctx.count('source_loads')
            ctx.nontrivial('source', kind, way, bool(alias), sorted(k), text and hash(text))
            try:
                got = fn()
            except Exception as e:
                ctx.violation('load_source|%s|%s' % (way, kind), '%s: %r\n%s\n-- of\n%s' % (where, e, stored.decode('utf-8', 'replace'), text))
                continue
            msg = equal(got)
            if msg:
                ctx.violation('load_source|%s|%s' % (way, kind), '%s: %s\n%s\n-- of\n%s' % (where, msg, stored.decode('utf-8', 'replace'), text))
        p = gone(ctx, f, k, where, r)
        del f, ways, fn
        imp = None
        if os.path.exists(os.path.join(d, 'more25.py')):
            os.unlink(os.path.join(d, 'more25.py'))
        if p and os.path.exists(p):
            gc.collect()
            if os.path.exists(p):
                ctx.violation('stays', '%s: the file outlives its handle' % where)


def src(ctx, c):
    r = ctx.rng('src', c['i'])
    text, objs = gen_imp.module(r)
    if r.random() < .4:         # not ASCII
        text = text.replace('"text"', '"t\u00e9xt \u4f60\U0001f600"').replace('"s"', '"\u00df"').replace('doc', 'd\u014dc')
    name = 'm25_%d_%d' % (ctx.shard, c['i'])
    p = os.path.join(ctx.scratch, name + '.py')
    with open(p, 'w', encoding='utf-8') as f:
        f.write(text)
    importlib.invalidate_caches()
    m = importlib.import_module(name)
    try:
        with Dir(ctx, c) as d:
            for nm, kind, args in objs:
                o = getattr(m, nm)
                # moved where the importable text is the source
                if isinstance(o, type):
                    eq = lambda got, o=o: None if same(got, o) else 'is %r' % (got,)
                else:
                    want = [call(o, a) for a in args]
                    eq = lambda got, want=want, args=args: None if callable(got) and [call(got, a) for a in args] == want else 'is %r, does not give %r' % (got, want)
                sources(ctx, r, d, o, nm, kind, eq, text)
    finally:
        sys.modules.pop(name, None)
        os.unlink(p)


LITS = [lambda r: r.choice([0, -1, 3, 10 ** 30]), lambda r: r.choice([1.5, -0.0, 1e300]), lambda r: r.choice(['', 'text', 'two\nlines', "it's \"q\"", 'h\u00e9 \u4f60\U0001f600', '<a>b', '#NAME: no', 'a=b', 'f(x)', '\\', '\t']),
        lambda r: r.choice([b'', b'\x00\xff', b'<b>']), lambda r: r.choice([None, True, False]), lambda r: r.choice([1j, 2 - 3.5j])]


def lit(ctx, c):
    r = ctx.rng('lit', c['i'])

    def make(depth):
        k = r.choice(['leaf', 'leaf', 'list', 'tuple', 'dict', 'set']) if depth < 3 else 'leaf'
        if k == 'leaf':
            return r.choice(LITS)(r)
        n = r.choice([0, 1, 3])
        if k == 'dict':
            return {r.choice(LITS)(r): make(depth + 1) for i in range(n)}
        if k == 'set':
            return {r.choice(LITS)(r) for i in range(n)}
        return [make(depth + 1) for i in range(n)] if k == 'list' else tuple(make(depth + 1) for i in range(n))
    if r.random() < .8:
        o = make(0)
        eq = lambda got: None if iso.compare(o, got, order=False).diffs == [] else 'is %r' % (got,)
        eq = lambda got: None if type(got) is type(o) and got == o and (isinstance(o, (set, dict)) or repr(got) == repr(o) or '{' in repr(o)) else 'is %r, not %r' % (got, o)
        kind = 'literal'
    else:
        o = r.choice([np.arange(r.choice([1, 5])), np.eye(2), np.array([1.5, 2]), np.float64(2.5), np.int16(4), np.array(3)])
        eq = lambda got: None if np.array_equal(got, o) and got.dtype == o.dtype else 'is %r, not %r' % (got, o)
        kind = 'numpy'
    with Dir(ctx, c) as d:
        sources(ctx, r, d, o, None, kind, eq)


class Refuses:
    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc


def fail(ctx, c):
    """what cannot be stored or loaded raises, and leaves nothing"""
    r = ctx.rng('fail', c['i'])
    exc = r.choice([ValueError('no'), KeyboardInterrupt(), RuntimeError('x')])
    with Dir(ctx, c) as d:
        k = kwds(r, d)
        o = [list(range(r.choice([1, 5000]))), r.choice([Refuses(exc), (x for x in ())])]
        held = None
        ctx.count('failures')
        ctx.nontrivial('fail', type(exc).__name__, sorted(k), type(o[1]).__name__, len(o[0]))
        for fn in (lambda: temp.dump(o, **dict(k)), lambda: temp.dumpIO(o), lambda: temp.dump_source((x for x in ()), **dict(k)), lambda: temp.dumpIO_source((x for x in ())), lambda: temp.dump_source(Refuses(exc).__class__('e'), **dict(k))):
            try:
                f = fn()
                if hasattr(f, 'name'):
                    f.close()
                    if os.path.exists(f.name):
                        os.unlink(f.name)
            except BaseException as e:
                held = e            # the traceback keeps its frames
                if isinstance(o[1], Refuses) and fn.__code__.co_names[:2] == ('temp', 'dump') and e is not exc:
                    ctx.violation('failure', '%r instead of %r' % (e, exc))
            else:
                if 'source' not in str(fn.__code__.co_names):
                    ctx.violation('failure', 'stored what cannot be')
            left = os.listdir(d) + [x for x in os.listdir(ctx.home)]
            if left:
                ctx.violation('leftfail', '%r with %r left %s' % (fn.__code__.co_names, k, left))
        del held
        # loading something else
        p = os.path.join(d, 'other')
        with open(p, 'wb') as f:
            f.write(r.choice([b'x = 1\n', b'', b'#NAME:\n', b'x = 1\n\n#NAME: y\n', b'def (\n\n#NAME: x\n']))
        for fn in (temp.load, temp.load_source, lambda p: temp.loadIO(open(p, 'rb').read()), lambda p: temp.loadIO_source(open(p, 'rb').read()), lambda p: temp.load(p + 'no'), lambda p: temp.load_source(p + 'no')):
            try:
                v = fn(p)
            except Exception:
                continue
            ctx.violation('loads', 'garbage loads as %r' % (v,))
        os.unlink(p)


def cap(ctx, c):
    r = ctx.rng('cap', c['i'])
    text = r.choice(['', 'a', 'two\nlines\n', '\u4f60'])
    stream = r.choice(['stdout', 'stderr'])
    old = {s: getattr(sys, s) for s in ('stdout', 'stderr')}
    mine = io.StringIO()
    setattr(sys, stream, mine)
    err = r.choice([None, ValueError('x'), KeyboardInterrupt(), SystemExit()])
    ctx.count('captures')
    ctx.nontrivial('cap', text, stream, repr(err))
    got = inner = None
    try:
        mine.write('before')
        try:
            with (temp.capture() if stream == 'stdout' and r.random() < .5 else temp.capture(stream)) as out:
                if getattr(sys, stream) is not out:
                    ctx.violation('capture', 'the stream is not the one given')
                print(text, end='', file=getattr(sys, stream))
                with temp.capture(stream) as out2:
                    print('inner', end='', file=getattr(sys, stream))
                other = 'stderr' if stream == 'stdout' else 'stdout'
                if getattr(sys, other) is not old[other]:
                    ctx.violation('capture', 'the other stream was replaced')
                print('!', end='', file=getattr(sys, stream))
                got, inner = out, out2
                if err:
                    raise err
        except BaseException as e:
            if e is not err:
                raise
        else:
            if err:
                ctx.violation('capture', 'the exception was swallowed')
        if getattr(sys, stream) is not mine:
            ctx.violation('capture', 'the stream was not restored')
        mine.write('after')
    finally:
        for s in old:
            setattr(sys, s, old[s])
    if got.getvalue() != text + '!' or inner.getvalue() != 'inner' or mine.getvalue() != 'beforeafter':
        ctx.violation('capture', '%r %r %r' % (got.getvalue(), inner.getvalue(), mine.getvalue()))
