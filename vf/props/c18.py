"""C18: damaged pickles do not load as something else."""
import gc, gzip, io, os, pickle, sys, warnings
import dill
from .. import corpus, iso, ns, state
from . import c16

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('pickles of objects of every kind are cut at every position (at most a few hundred per large pickle, both ends always included) and every proper prefix is loaded through several kinds of stream; several pickles, '
        'with other data around them, are written to one stream (memory, buffered and unbuffered file, gzip, pipe, minimal reader, bytearray) and loaded one by one through load and Unpickler, and several of one Pickler through one Unpickler; the position '
        'after every load must be the end of that pickle and the result isomorphic to loading it alone; non-trivial = (kind of object, protocol, stream, cut or place in the stream)')
ASSUMPTIONS = ['a raw pipe that returns short reads is not a stream pickle can read; pipes are buffered here']
FLOORS = {'prefixes': 100000, 'pickles_cut': 400, 'all_cuts': 200, 'loaded_from_stream': 2000, 'positions': 2000, 'reused_unpickler': 200, 'tails_intact': 900}


def cases(ctx):
    for i in ctx.mine(2400 if ctx.quick else 24000):
        yield {'i': i}


def setup(ctx):
    c16.setup(ctx)
    warnings.simplefilter('error', dill.PicklingWarning)     # a class that leads back to itself: refused


class Minimal:
    """the least pickle needs"""
    def __init__(self, data):
        self.b = io.BytesIO(data)
        self.read, self.readline, self.tell = self.b.read, self.b.readline, self.b.tell


class Into(Minimal):
    def __init__(self, data):
        Minimal.__init__(self, data)
        self.readinto = self.b.readinto


def stream(ctx, r, data, kind):
    """stream, tell or None, closer"""
    path = os.path.join(ctx.scratch, 'stream%d' % ctx.shard)
    if kind == 'memory':
        f = io.BytesIO(data)
        return f, f.tell, f.close
    if kind in ('minimal', 'into'):
        f = (Minimal if kind == 'minimal' else Into)(data)
        return f, f.tell, None
    if kind in ('file', 'raw', 'small'):
        with open(path, 'wb') as f:
            f.write(data)
        f = open(path, 'rb', buffering={'file': -1, 'raw': 0, 'small': 16}[kind])
        return f, f.tell, f.close
    if kind == 'rw':
        f = open(path, 'w+b')
        f.write(data)
        f.seek(0)
        return f, f.tell, f.close
    if kind == 'gzip':
        with gzip.open(path, 'wb', 1) as f:
            f.write(data)
        f = gzip.open(path, 'rb')
        return f, f.tell, f.close
    if kind == 'pipe':
        a, b = os.pipe()
        os.set_blocking(b, False)
        try:
            if os.write(b, data) != len(data):
                raise BlockingIOError
        except BlockingIOError:     # more than a pipe holds
            os.close(a)
            os.close(b)
            return stream(ctx, r, data, 'memory')
        os.close(b)
        f = os.fdopen(a, 'rb')
        return f, None, f.close


KINDS = ['memory', 'memory', 'file', 'raw', 'small', 'rw', 'gzip', 'pipe', 'minimal', 'into']


def run_case(ctx, case):
    r = ctx.rng(case['i'])
    if case['i'] % 3 == 0:
        cuts(ctx, r, case)
    else:
        sequence(ctx, r, case)


def pickled(ctx, r, n):
    """n items with their pickles and protocols"""
    out = []
    while len(out) < n:
        it = corpus.make(r, ctx.scratch, '%d_%d' % (ctx.shard, len(out)), r.choice([k for k in corpus.KINDS if k not in ('bad', 'files', 'weak')]))
        proto = r.choice([None, 0, 1, 2, 3, 4, 5])
        kw = r.choice([{}, {}, {'recurse': True}, {'byref': True}][:4 if n == 1 else 3])     # (by reference only while __main__ is as it was)
        try:
            data = dill.dumps(it.obj, proto, **kw)
            solo = dill.loads(data, ignore=True)
        except Exception:
            ctx.count('not_a_pickle')
            it.close()
            continue
        out.append((it, proto, kw, data, solo))
    return out


def load(r, f):
    """one of the ways to load, by name"""
    way = r.choice(['load', 'load', 'Unpickler', 'load ignore'])
    if way == 'load':
        return way, lambda: dill.load(f)
    if way == 'Unpickler':
        return way, lambda: dill.Unpickler(f).load()
    return way, lambda: dill.load(f, ignore=True)


def cuts(ctx, r, case):
    (it, proto, kw, data, solo), = pickled(ctx, r, 1)
    case['label'], case['src'] = it.label, it.src[:2000]
    what = '%s, protocol %s, %s' % (it.label, proto, kw)
    solo = None
    try:
        n = len(data)
        limit = 500 if ctx.quick else 3000
        if n <= limit:
            where = range(n)
            ctx.count('all_cuts')
        else:
            where = sorted(set(range(60)) | set(range(n - 120, n)) | {r.randrange(n) for i in range(limit - 180)})
        ctx.count('pickles_cut')
        before = state.Interp()
        kind = r.choice(['loads', 'loads', 'memory', 'minimal', 'into'])
        for c in where:
            part = data[:c]
            ctx.count('prefixes')
            if kind == 'loads':
                way, act = 'loads', lambda: dill.loads(part)
            else:
                f, tell, close = stream(ctx, r, part, kind)
                way, act = load(r, f)
            try:
                v = act()
            except Exception:
                continue
            ctx.violation('prefix-loads', '%s: the first %d of %d bytes load through %s (%s) as %s' % (what, c, n, way, kind, iso.srepr(v)))
            break
        ctx.nontrivial(it.label[:60], proto, kind, n)
        gc.collect()
        bad = before.diff(state.Interp())
        if bad:
            ctx.violation('prefix-effect', '%s: loading cut pickles changed %s' % (what, bad[:4]))
    finally:
        it.close()


def sequence(ctx, r, case):
    items = pickled(ctx, r, r.choice([1, 2, 3, 4]))
    case['label'] = [x[0].label for x in items]
    try:
        kind = r.choice(KINDS)
        glue = [r.choice([b'', b'', b'.', b'junk', b'\x80\x04N.', b'\n' * 5, bytes(40)]) if r.random() < .4 else b'' for x in items]
        tail = r.choice([b'', b'tail', b'.', b'\x80', pickle.dumps('x'), bytes(9000)])
        blob = b''.join(g + x[3] for g, x in zip(glue, items)) + tail
        what = 'pickles of %s in %s, tail %d' % ([(x[0].label[:50], x[1], x[2]) for x in items], kind, len(tail))
        f, tell, close = stream(ctx, r, blob, kind)
        pos = 0
        try:
            for n, (it, proto, kw, data, solo) in enumerate(items):
                if glue[n] and f.read(len(glue[n])) != glue[n]:
                    ctx.violation('position', '%s: the data before pickle %d is not readable' % (what, n))
                    return
                pos += len(glue[n])
                way, act = load(r, f)
                try:
                    v = act()
                except Exception as e:
                    ctx.violation('next-pickle', '%s: pickle %d does not load through %s: %r' % (what, n, way, e))
                    return
                ctx.count('loaded_from_stream')
                pos += len(data)
                ctx.nontrivial(it.label[:60], proto, kind, way, n, bool(glue[n]), len(tail))
                if tell is not None:
                    ctx.count('positions')
                    if tell() != pos:
                        ctx.violation('position', '%s: after pickle %d through %s the stream is at %d, the pickle ends at %d' % (what, n, way, tell(), pos))
                        return
                d = iso.compare(solo, v, checkglobals=False, byref=True)
                if d.diffs:
                    ctx.violation('other-result', '%s: pickle %d through %s differs from loading it alone\n%s' % (what, n, way, '\n'.join(map(str, d.diffs[:5]))))
                    return
            rest = f.read()
            ctx.count('tails_intact')
            if rest != tail:
                ctx.violation('position', '%s: %d bytes are left, %d follow the pickles' % (what, len(rest), len(tail)))
        finally:
            if close:
                close()
        shared(ctx, r, items, what)
    finally:
        for x in items:
            x[0].close()


def shared(ctx, r, items, what):
    """one Pickler writes several pickles with one memo, one Unpickler reads them"""
    out = io.BytesIO()
    p = dill.Pickler(out, r.choice([None, 0, 1, 2, 3, 4, 5]))
    box = [['box', n] for n in range(3)]
    want = [[n, box[n % 3], box] for n in range(r.choice([2, 3, 5]))]
    ends = []
    for w in want:
        p.dump(w)
        ends.append(out.tell())
    out.write(b'rest')
    out.seek(0)
    u = dill.Unpickler(out)
    got = []
    for n, w in enumerate(want):
        try:
            got.append(u.load())
        except Exception as e:
            ctx.violation('next-pickle', 'pickle %d of one Pickler does not load through one Unpickler: %r' % (n, e))
            return
        if out.tell() != ends[n]:
            ctx.violation('position', 'pickle %d of one Pickler ends at %d, the stream is at %d' % (n, ends[n], out.tell()))
    ctx.count('reused_unpickler')
    if got != want or any(g[2] is not got[0][2] or g[1] is not g[2][n % 3] for n, g in enumerate(got)):
        ctx.violation('other-result', 'pickles of one Pickler load through one Unpickler as %s' % iso.srepr(got, 300))
