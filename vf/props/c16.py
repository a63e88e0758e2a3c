"""C16: dumping and loading have no side effects."""
import decimal, gc, io, os, sys, warnings
import dill
from .. import corpus, fx_hooks, iso, ns, state

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('objects of every kind the generators know (data, functions, closures, classes, odd builtins, hooks, weak references, files, references, and unpicklable ones) are dumped under every protocol and setting and loaded '
        'again, a third of them in an interpreter in an unusual state (recursion limit, gc, filters, streams, umask, decimal context, directory, ...), to streams that look at the objects in the middle of the dump and to streams that fail at any write; around every call the interpreter (modules, namespaces of __main__, builtins, pickle and dill, warning filters, streams, recursion limit, environment, settings, registries, trace functions, logging, threads, '
        'file descriptors) and the object graph (every node and the identities of what it holds) are compared, and a second dump must give the same bytes; non-trivial = (kind of object, protocol, settings, entry point, outcome)')
ASSUMPTIONS = ['what CPython creates lazily on attribute access (instance dictionaries, annotations, __slotnames__, version caches) is not a change',
               'modules an object names are imported on loading; here they are imported beforehand']
FLOORS = {'dumps_ok': 5000, 'dumps_failed': 500, 'loads_ok': 5000, 'second_dumps': 4000, 'broken_dumps': 2500, 'watched_dumps': 1200, 'graph_nodes': 100000, 'snapshots': 12000, 'unusual_states': 1500}
OPTS = [{}, {}, {'recurse': True}, {'byref': True}, {'fmode': 1}, {'fmode': 2}, {'recurse': True, 'byref': True}]


def cases(ctx):
    for i in ctx.mine(12000 if ctx.quick else 120000):
        yield {'i': i}


def setup(ctx):
    warnings.simplefilter('ignore')
    import numpy, numpy.ma, json, collections, dataclasses, typing, sched, unittest.mock, pickletools, encodings.raw_unicode_escape, encodings.latin_1, encodings.idna, dis, inspect
    os.chdir(ctx.scratch)
    dill.copy([numpy.ones(3), numpy.sin, numpy.dtype('i4')])       # dill looks at numpy when it first meets it


def run_case(ctx, case):
    r = ctx.rng(case['i'])
    it = corpus.make(r, ctx.scratch, str(ctx.shard))
    undo = unusual(ctx, ctx.rng('setting', case['i']))
    try:
        check(ctx, r, it, case)
    finally:
        undo()
        it.close()


def unusual(ctx, r):
    """a state of the interpreter that is not the one it starts in; returns what puts it back"""
    k = r.randrange(36)
    if k >= 12:
        return lambda: None
    ctx.count('unusual_states')
    if k < 3:
        old = sys.getrecursionlimit()
        sys.setrecursionlimit([980, 940, 3000][k])
        return lambda: sys.setrecursionlimit(old)
    if k == 3:
        gc.disable()
        return gc.enable
    if k == 4:
        old = gc.get_threshold()
        gc.set_threshold(50, 3, 3)
        return lambda: gc.set_threshold(*old)
    if k == 5:
        old = warnings.filters[:]
        warnings.filterwarnings('always', 'nothing like this', UserWarning)
        warnings.filterwarnings('ignore')
        def undo():
            warnings.filters[:] = old
            warnings._filters_mutated()
        return undo
    if k == 6:
        old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        def undo():
            sys.stdout, sys.stderr = old
        return undo
    if k == 7:
        old = os.umask(0o077)
        return lambda: os.umask(old)
    if k == 8:
        old = decimal.getcontext()
        decimal.setcontext(decimal.Context(prec=5, rounding=decimal.ROUND_UP))
        return lambda: decimal.setcontext(old)
    if k == 9:
        old = sys.getswitchinterval()
        sys.setswitchinterval(.05)
        return lambda: sys.setswitchinterval(old)
    if k == 10:
        old = sys.get_int_max_str_digits()
        sys.set_int_max_str_digits(9000)
        return lambda: sys.set_int_max_str_digits(old)
    old = os.getcwd()
    d = os.path.join(ctx.scratch, 'elsewhere')
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    return lambda: os.chdir(old)


def changed(ctx, before, graph, but=()):
    ctx.count('snapshots')
    out = before.diff(state.Interp(), but)
    if graph is not None:
        out += graph.changed()
    return out


def check(ctx, r, it, case):
    proto = r.choice([None, None, 0, 1, 2, 3, 4, 5])
    kw = r.choice(OPTS)
    entry = r.choice(['dumps', 'dumps', 'dump', 'pickler', 'copy', 'settings'])
    case['label'] = it.label
    case['src'] = it.src[:3000]
    what = '%s, protocol %s, %s, %s' % (it.label, proto, kw, entry)
    obj = it.obj
    if entry == 'settings':
        old = dict(dill.settings)
        dill.settings.update(kw)
        if proto is not None:
            dill.settings['protocol'] = proto

    def dump():
        if entry in ('dumps', 'copy'):
            return dill.dumps(obj, proto, **kw)
        if entry == 'settings':
            return dill.dumps(obj)
        b = io.BytesIO()
        if entry == 'dump':
            dill.dump(obj, b, proto, **kw)
        else:
            dill.Pickler(b, proto, **kw).dump(obj)
        return b.getvalue()
    try:
        graph = state.Graph(obj)
        ctx.count('graph_nodes', graph.nodes)
        before = state.Interp()
        data = err = None
        try:
            data = dump()
        except Exception as e:
            err = type(e).__name__
        bad = changed(ctx, before, graph)
        ctx.count('dumps_ok' if err is None else 'dumps_failed')
        ctx.nontrivial(it.label[:80], proto, sorted(kw), entry, err)
        if bad:
            ctx.violation('dump-side-effect:%s' % kindof(bad), '%s (%s)\n%s' % (what, err or 'dumped', '\n'.join(bad[:6])))
            return
        if err is not None:
            # a failed dump fails the same way again, and leaves the next one alone
            ctx.count('failed_again')
            try:
                dump()
                ctx.violation('not-repeatable', '%s: failed with %s, then succeeded' % (what, err))
            except Exception as e:
                if type(e).__name__ != err:
                    ctx.violation('not-repeatable', '%s: failed with %s, then with %s' % (what, err, type(e).__name__))
            return
        again = dump()
        ctx.count('second_dumps')
        if again != data:
            ctx.violation('bytes-differ', '%s: two dumps differ (%d and %d bytes) %s' % (what, len(data), len(again), opsdiff(data, again)[:1500]))
            return
        bad = graph.changed()
        if bad:
            ctx.violation('dump-side-effect:%s' % kindof(bad), '%s (second dump)\n%s' % (what, '\n'.join(bad[:6])))
            return
        if case['i'] % 3 == 0 and not watched(ctx, r, obj, graph, proto, kw, entry, what):
            return
        del fx_hooks.LOG[:]
        before = state.Interp()
        copy = err = None
        try:
            if entry == 'copy':
                copy = dill.copy(obj, **dict(kw, protocol=proto))
            else:
                copy = dill.loads(data) if r.random() < .5 else dill.load(io.BytesIO(data))
        except Exception as e:
            err = type(e).__name__
        ctx.count('loads_ok' if err is None else 'loads_failed')
        bad = changed(ctx, before, graph, but=('fds',) if it.label.startswith('file') else ())
        if bad:
            ctx.violation('load-side-effect:%s' % kindof(bad), '%s (%s)\n%s' % (what, err or 'loaded', '\n'.join(bad[:6])))
        if it.label.startswith('file') and copy is not None:
            copy[0].close()
    finally:
        if entry == 'settings':
            dill.settings.clear()
            dill.settings.update(old)


class Full(Exception):
    pass


class Stream:
    """looks at the graph during some writes, and fails at one"""
    def __init__(self, graph, look, fail):
        self.graph, self.look, self.fail = graph, look, fail
        self.n = 0
        self.bad = []

    def write(self, data):
        self.n += 1
        if self.n in self.look:
            self.bad += self.graph.changed()
        if self.n == self.fail:
            raise Full
        return len(data)


def watched(ctx, r, obj, graph, proto, kw, entry, what):
    """the graph stays as it is during a dump, and the rest after one that was broken off at any point"""
    def dump(f):
        if entry == 'settings':
            dill.dump(obj, f)
        else:
            dill.Pickler(f, proto, **kw).dump(obj)
    f = Stream(graph, (), 0)
    dump(f)
    n = f.n
    for k in range(3):
        fail = r.randrange(n) + 1 if k else 0
        f = Stream(graph, {r.randrange(n) + 1 for _ in range(4)}, fail)
        before = state.Interp()
        err = None
        try:
            dump(f)
        except Full as e:
            err = 'write %d of %d failed' % (fail, n)
        except Exception as e:
            err = repr(e)
        ctx.count('broken_dumps' if fail else 'watched_dumps')
        if fail and err is None:
            ctx.violation('fault-hidden', '%s: write %d of %d failed and the dump did not' % (what, fail, n))
        bad = changed(ctx, before, graph)
        if bad or f.bad:
            ctx.violation('dump-side-effect:%s' % kindof(bad or f.bad), '%s (%s)\n%s' % (what, err or 'during the dump', '\n'.join((bad or f.bad)[:6])))
            return False
    return True


def kindof(bad):
    return bad[0].partition(':')[0].split(' ')[0]


def opsdiff(a, b):
    import difflib, pickletools
    o = lambda x: ['%s %r' % (op.name, arg) for op, arg, pos in pickletools.genops(x)]
    return '\n'.join(l[:150] for l in difflib.unified_diff(o(a), o(b), lineterm='', n=4))
