"""C17: failures are contained."""
import gc, io, os, sys, types, warnings
import dill
from .. import corpus, fx, fx_hooks, iso, state
from . import c16

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('for objects of every kind, a fault is injected at the n-th write, at the n-th user hook, at the n-th function call inside dill and pickle while dumping, and at the n-th read and function call while loading, '
        'for n spread over all of them; the caller must get the injected exception, what was written must not be a complete pickle, the interpreter and the object graph must be as before, and the next dump, by a new and by '
        'the same pickler, must give the right bytes; non-trivial = (kind of object, kind of fault, position, exception)')
ASSUMPTIONS = ['faults are exceptions raised by streams, hooks and calls (sys.setprofile), not lost power', 'a swallowed interruption of a probing call is no failure if the bytes are the right ones']
FLOORS = {"faults_write": 1500, "faults_hook": 300, "faults_call": 2000, "faults_read": 1000, "next_dumps": 4000, "snapshots": 5000}


def cases(ctx):
    for i in ctx.mine(1200 if ctx.quick else 12000):
        yield {'i': i}


def setup(ctx):
    from . import c16
    c16.setup(ctx)


class Boom(Exception):
    pass


class BoomInterrupt(KeyboardInterrupt):
    pass


class Stream:
    def __init__(self, n, exc, part):
        self.n, self.exc, self.part = n, exc, part
        self.calls = 0
        self.got = []

    def write(self, b):
        self.calls += 1
        if self.calls - 1 == self.n:
            if self.part:
                self.got.append(bytes(b)[:len(b) // 2])
            raise self.exc
        self.got.append(bytes(b))
        return len(b)


class Source(io.BytesIO):
    def __init__(self, data, n, exc):
        io.BytesIO.__init__(self, data)
        self.n, self.exc, self.calls = n, exc, 0

    def tick(self):
        self.calls += 1
        if self.calls - 1 == self.n:
            raise self.exc

    def read(self, *a):
        self.tick()
        return io.BytesIO.read(self, *a)

    def readline(self, *a):
        self.tick()
        return io.BytesIO.readline(self, *a)

    def readinto(self, b):
        self.tick()
        return io.BytesIO.readinto(self, b)


TICK = [0, None, None]      # hook calls so far, number that fails, exception


def tick():
    TICK[0] += 1
    if TICK[1] is not None and TICK[0] - 1 == TICK[1]:
        raise TICK[2]


class T1:
    def __getstate__(self):
        tick()
        return {'a': 1}


class T2:
    def __reduce__(self):
        tick()
        return T2, ()


class T3:
    def __reduce_ex__(self, p):
        tick()
        return list, ([1],), None, self.items()

    def items(self):
        tick()
        yield 1
        tick()
        yield T1()


class T4(dict):
    def __reduce__(self):
        return T4, (), {'x': T2()}, None, self.pairs()

    def pairs(self):
        tick()
        yield 'k', 1


class T5:
    def __getnewargs__(self):
        tick()
        return ()


class TMeta(type):
    def __getattribute__(cls, n):
        return super().__getattribute__(n)


def with_hooks(r, obj):
    """hooks in many places around and inside obj"""
    t = [r.choice([T1, T2, T3, T4, T5])() for i in range(4)]
    a, b, c, d = t

    def f(x=b):
        return a, f, obj
    f.attr = c

    class K:
        held = d

        def m(self): return a, obj

    def g(*, k=a): return K
    return r.choice([lambda: [a, obj, b], lambda: {'f': f, 'o': obj, 'a': a}, lambda: [K, K(), obj, f], lambda: [g, obj, K], lambda: fx.Plain(x=a, f=f, K=K)])()


def exceptions(r):
    return r.choice([OSError(28, 'injected'), Boom('injected'), MemoryError('injected'), BoomInterrupt('injected'), AttributeError('injected'), KeyError('injected'), TypeError('injected'), ValueError('injected'),
                     ImportError('injected'), dill.PicklingError('injected'), RecursionError('injected'), StopIteration('injected'), IndexError('injected'), RuntimeError('injected'), EOFError('injected')])


def spread(r, n, k):
    """k positions out of n, ends included"""
    if n <= k:
        return list(range(n))
    return sorted({0, n - 1} | {r.randrange(n) for i in range(k)})


class Calls:
    """raises at the n-th python function call made inside dill, pickle and their helpers"""
    roots = None

    def __init__(self, n, exc):
        self.n, self.exc, self.calls, self.where = n, exc, 0, None
        if Calls.roots is None:
            import pickle
            Calls.roots = (os.path.dirname(os.path.realpath(dill.__file__)) + os.sep, os.path.realpath(pickle.__file__))

    def __call__(self, frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(Calls.roots):
            self.calls += 1
            if self.calls - 1 == self.n:
                self.where = frame.f_code.co_qualname
                raise self.exc

    def run(self, fn):
        sys.setprofile(self)
        try:
            return fn()
        finally:
            sys.setprofile(None)


def run_case(ctx, case):
    r = ctx.rng(case['i'])
    it = corpus.make(r, ctx.scratch, str(ctx.shard))
    try:
        one(ctx, r, it, case)
    finally:
        TICK[1] = None
        it.close()
        if 'file' in it.label:
            gc.collect()        # copies of the handle


def one(ctx, r, it, case):
    proto = r.choice([None, None, 0, 1, 2, 3, 4, 5])
    kw = r.choice([{}, {}, {'recurse': True}, {'byref': True}])
    obj = with_hooks(r, it.obj) if r.random() < .5 else it.obj
    what = '%s%s, protocol %s, %s' % (it.label, ' with hooks' if obj is not it.obj else '', proto, kw)
    case['label'], case['src'] = what, it.src[:2000]
    TICK[:] = [0, None, None]
    graph = state.Graph(obj)
    ref = Stream(None, None, False)
    try:
        dill.dump(obj, ref, proto, **kw)
    except Exception as e:
        ctx.count('cannot_be_pickled')
        # it fails by itself: nothing complete may have been written, and the next dump works
        complete(ctx, what + ', which cannot be pickled', b''.join(ref.got))
        followup(ctx, what, None, None, None, None)
        return
    data = b''.join(ref.got)
    hooks, writes = TICK[0], ref.calls
    counter = Calls(None, None)
    counter.run(lambda: dill.dump(obj, io.BytesIO(), proto, **kw))
    k = 6 if ctx.quick else 20
    plan = [('write', n) for n in spread(r, writes, k)] + [('hook', n) for n in spread(r, hooks, k)] + [('call', n) for n in spread(r, counter.calls, k)]
    for kind, n in plan:
        exc = exceptions(r) if kind != 'call' else r.choice([BoomInterrupt('injected'), BoomInterrupt('injected'), Boom('injected'), MemoryError('injected')])
        out = Stream(n if kind == 'write' else None, exc, r.random() < .3)
        TICK[:] = [0, n if kind == 'hook' else None, exc]
        pickler = dill.Pickler(out, proto, **kw)
        act = r.choice([lambda: dill.dump(obj, out, proto, **kw), lambda: pickler.dump(obj)])
        calls = Calls(n, exc)
        if 'file' in it.label:
            gc.collect()        # copies of the handle
        before = state.Interp()
        got = None
        try:
            if kind == 'call':
                calls.run(act)
            else:
                act()
        except BaseException as e:
            got = e
        TICK[1] = None
        ctx.count('faults_' + kind)
        ctx.count('snapshots')
        where = '%s: %r at %s %d%s' % (what, exc, kind, n, ' (%s)' % calls.where if calls.where else '')
        ctx.nontrivial(it.label[:60], proto, kind, n, type(exc).__name__, type(got).__name__)
        bad = before.diff(state.Interp()) + graph.changed()
        if bad:
            ctx.violation('not-restored:%s' % bad[0].partition(':')[0], '%s\n%s' % (where, '\n'.join(bad[:5])))
            return
        written = b''.join(out.got)
        if got is None:
            if kind == 'call' and not isinstance(exc, KeyboardInterrupt):
                ctx.count('swallowed')      # a probe that may fail; what was written has to be a working pickle
                try:
                    dill.loads(written)
                except Exception as e:
                    ctx.violation('failure-hidden', '%s: reported success, but the pickle does not load: %r' % (where, e))
            elif written != data:
                ctx.violation('failure-hidden', '%s: reported success, %d bytes of %d written' % (where, len(written), len(data)))
        else:
            if kind == 'write' and got is not exc or kind == 'hook' and got is not exc and type(exc) is not StopIteration:
                ctx.violation('other-exception', '%s: the caller got %r' % (where, got))
            elif isinstance(exc, KeyboardInterrupt) and got is not exc:
                ctx.violation('other-exception', '%s: the caller got %r' % (where, got))
            if kind != 'call' or len(written) < len(data):
                complete(ctx, where, written)
        got = None
        exc.__traceback__ = exc.__context__ = None
        followup(ctx, where, obj, data, (proto, kw), pickler if r.random() < .5 else None)
        if ctx.vkeys:
            return
    loads(ctx, r, it, what, data)


def complete(ctx, what, written):
    """bytes left by a failed dump must not load as anything"""
    if not written:
        return
    ctx.count('leftovers')
    try:
        v = dill.loads(written)
    except BaseException:
        return
    ctx.violation('complete-but-failed', '%s: the dump was reported as failed, and what it wrote loads as %s' % (what, iso.srepr(v)))


CHECK = [1, 'two', (lambda x: x + 1), {'k': [3]}]
EXPECT = []


def followup(ctx, what, obj, data, opts, pickler):
    """the next dump works, through a new pickler and through the one that failed"""
    ctx.count('next_dumps')
    if obj is not None:
        TICK[:] = [0, None, None]
        try:
            again = dill.dumps(obj, opts[0], **opts[1])
        except Exception as e:
            ctx.violation('next-dump', '%s: the next dump fails with %r' % (what, e))
            return
        if again != data:
            ctx.violation('next-dump', '%s: the next dump gives other bytes (%d and %d)\n%s' % (what, len(data), len(again), c16.opsdiff(data, again)[:1500]))
    if not EXPECT:
        EXPECT.append(dill.dumps(CHECK))
    if dill.dumps(CHECK) != EXPECT[0]:
        ctx.violation('next-dump', '%s: a later dump of something else gives other bytes' % what)
    if pickler is not None:
        out = pickler_out(pickler)
        if out is None:
            return
        out.n, out.got = None, []
        ctx.count('same_pickler')
        pickler.clear_memo()
        try:
            pickler.dump(obj)
        except Exception as e:
            ctx.violation('next-dump', '%s: the same pickler, memo cleared, fails with %r' % (what, e))
            return
        if b''.join(out.got) not in (data, data[2:]):      # (pickle.py loses the PROTO opcode to the frame that was open)
            ctx.violation('next-dump', '%s: the same pickler, memo cleared, writes other bytes' % what)


def pickler_out(p):
    w = getattr(p, '_file_write', None) or getattr(getattr(p, 'framer', None), 'file_write', None)
    o = getattr(w, '__self__', None)
    return o if isinstance(o, Stream) else None


def loads(ctx, r, it, what, data):
    """the same for loading"""
    try:
        ref = Source(data, None, None)
        dill.load(ref)
    except Exception as e:
        ctx.count('does_not_load')
        return
    counter = Calls(None, None)
    counter.run(lambda: dill.loads(data))
    k = 4 if ctx.quick else 15
    for kind, n in [('read', n) for n in spread(r, ref.calls, k)] + [('loadcall', n) for n in spread(r, counter.calls, k)]:
        exc = r.choice([OSError(5, 'injected'), Boom('injected'), MemoryError('injected'), EOFError('injected'), BoomInterrupt('injected'), AttributeError('injected'), KeyError('injected'), ImportError('injected')]) \
            if kind == 'read' else BoomInterrupt('injected')
        src = Source(data, n if kind == 'read' else None, exc)
        calls = Calls(n, exc)
        if 'file' in it.label:
            gc.collect()        # copies of the handle
        before = state.Interp()
        got = v = None
        try:
            v = calls.run(lambda: dill.load(src)) if kind == 'loadcall' else dill.load(src)
        except BaseException as e:
            got = e
        ctx.count('faults_' + kind)
        ctx.count('snapshots')
        where = '%s: %r at %s %d of a load%s' % (what, exc, kind, n, ' (%s)' % calls.where if calls.where else '')
        ctx.nontrivial(it.label[:60], kind, n, type(exc).__name__, type(got).__name__)
        bad = before.diff(state.Interp(), but=('fds',) if it.label.startswith('file') else ())
        if bad:
            ctx.violation('not-restored:%s' % bad[0].partition(':')[0], '%s\n%s' % (where, '\n'.join(bad[:5])))
            return
        if got is not exc and not (kind == 'loadcall' and got is None):
            ctx.violation('other-exception' if got is not None else 'failure-hidden', '%s: the caller got %r' % (where, got if got is not None else v))
        exc.__traceback__ = exc.__context__ = got = None
        try:
            dill.loads(data)
            ctx.count('next_loads')
        except Exception as e:
            ctx.violation('next-load', '%s: the next load fails with %r' % (where, e))
            return
