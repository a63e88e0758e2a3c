"""C19: threads can dump and load at the same time."""
import io, logging, os, re, sys, threading, time, types, warnings
import dill
from .. import corpus, fx, iso, ns, state
from . import c16

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 800}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('two to four threads dump, load, copy and register unrelated objects of every kind; a scheduler that owns the only baton switches threads between lines of dill and pickle: one switch at each of many points (the other '
        'threads run to their end in between), then two threads at the same line of dill, then several random switches, then free running with a tiny switch interval; each result (bytes, exception, isomorphic copy, trace records) must be the one the thread gets alone, and the '
        'interpreter must be as before; non-trivial = distinct sequence of switches (thread, place, next thread)')
ASSUMPTIONS = ['switches happen between lines of dill, pickle and warnings, not between bytecodes, except when running freely', 'a thread that blocks on a lock held by a paused one hands the baton back after 10 ms',
               'the objects of different threads share only importable things']
FLOORS = {'schedules': 1000, 'switches': 3000, 'results': 3000, 'distinct_schedules': 800, 'free_runs': 60, 'copies_compared': 800, 'first_sight': 4, 'trace_compared': 100, 'registered': 15}


def cases(ctx):
    for i in ctx.mine(200 if ctx.quick else 3000):
        yield {'i': i}


def setup(ctx):
    warnings.simplefilter('ignore')
    warnings.simplefilter('error', dill.PicklingWarning)     # a class that leads back to itself: refused
    import numpy, numpy.ma, json, collections, dataclasses, typing, sched, unittest.mock, pickletools, encodings.raw_unicode_escape, encodings.latin_1, encodings.idna, dis, inspect
    os.chdir(ctx.scratch)
    ctx.seen = set()
    if ctx.replay is None or ctx.replay.get('first'):
        first_sight(ctx)
    if ctx.shard == 0:
        pickles_filters(ctx)
    c16.setup(ctx)
    warnings.simplefilter('error', dill.PicklingWarning)


ROOTS = None


def scope(fn):
    global ROOTS
    if ROOTS is None:
        import pickle
        ROOTS = (os.path.dirname(os.path.realpath(dill.__file__)) + os.sep, os.path.realpath(pickle.__file__), os.path.realpath(warnings.__file__))
    return fn.startswith(ROOTS)


class Sched:
    """one thread runs at a time; it gives the baton away at planned line events"""
    def __init__(self, r, jobs, plan):
        self.r, self.jobs, self.plan = r, jobs, plan
        self.cond = threading.Condition()
        self.cur = r.randrange(len(jobs)) if plan is not None and not any(plan[0:1]) else 0
        self.alive = set(range(len(jobs)))
        self.counts = [0] * len(jobs)
        self.progress = 0
        self.log = []
        self.steals = 0
        self.results = [None] * len(jobs)
        self.lines = None

    def run(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in ts:
            t.start()
        end = time.monotonic() + 60
        for t in ts:
            t.join(max(0.1, end - time.monotonic()))
        return not any(t.is_alive() for t in ts)

    def thread(self, i):
        with self.cond:
            self.wait(i)
        sys.settrace(lambda frame, event, arg: self.trace(i, frame, event))
        try:
            res = outcome(self.jobs[i])
        finally:
            sys.settrace(None)
        self.results[i] = res
        with self.cond:
            self.alive.discard(i)
            self.progress += 1
            if self.cur == i and self.alive:
                self.cur = self.r.choice(sorted(self.alive))
            self.cond.notify_all()

    def trace(self, i, frame, event):
        if not scope(frame.f_code.co_filename):
            return None

        def local(frame, event, arg):
            if event == 'line':
                self.point(i, frame)
            return local
        return local

    def point(self, i, frame):
        self.counts[i] += 1
        self.progress += 1
        if self.lines is not None:
            k = (frame.f_code.co_filename, frame.f_lineno)
            self.lines[i].setdefault(k, []).append(self.counts[i])
        go = self.counts[i] in self.plan[i]
        if not go and self.cur == i:
            return
        with self.cond:
            if go and self.cur == i:
                others = sorted(self.alive - {i})
                if others:
                    self.cur = self.r.choice(others)
                    self.log.append((i, os.path.basename(frame.f_code.co_filename), frame.f_lineno, self.cur))
                    self.cond.notify_all()
            self.wait(i)

    def wait(self, i):
        seen = self.progress
        idle = 0
        while self.cur != i:
            self.cond.wait(0.005)
            if self.cur == i:
                break
            if self.progress == seen:
                idle += 1
                if idle >= 2 or self.cur not in self.alive:
                    self.steals += 1        # the runner waits for something one of us holds
                    self.cur = i
                    break
            else:
                seen, idle = self.progress, 0


def outcome(job):
    try:
        return job()
    except Exception as e:
        return 'raised', type(e).__name__, str(e)[:500]


class Recorder(logging.Handler):
    """trace records by thread"""
    def __init__(self):
        logging.Handler.__init__(self)
        self.by = {}

    def emit(self, rec):
        self.by.setdefault(rec.thread, []).append((re.sub('0x[0-9a-f]+', '0x', rec.getMessage()), getattr(rec, 'depth', None), getattr(rec, 'size', None)))


REC = [None]


def traced(job):
    """the job's result with the trace records of this thread"""
    def run():
        REC[0].by.pop(threading.get_ident(), None)
        res = outcome(job)
        return res, tuple(REC[0].by.pop(threading.get_ident(), ()))
    return run


SEQ = [0]


def make_jobs(ctx, r, items, copies):
    """per thread: callable -> comparable result; loaded copies are left in copies[i]"""
    jobs = []
    for i, it in enumerate(items):
        proto = r.choice([None, None, 0, 1, 2, 3, 4, 5])
        kw = r.choice([{}, {}, {'recurse': True}, {'byref': True}, {'recurse': True, 'byref': True}])
        k = r.choice(['dumps', 'dumps', 'roundtrip', 'roundtrip', 'roundtrip', 'loads', 'copy', 'pickler', 'register', 'register', 'pickles'])
        it.opts = k, proto, kw

        def dumps(it=it, proto=proto, kw=kw):
            return dill.dumps(it.obj, proto, **kw)

        def roundtrip(it=it, proto=proto, kw=kw, i=i):
            data = dill.dumps(it.obj, proto, **kw)
            copies[i] = dill.loads(data, ignore=True)
            return data

        def copy(it=it, proto=proto, kw=kw, i=i):
            copies[i] = dill.copy(it.obj, protocol=proto, **kw)
            return 'copied'

        def pickler(it=it, proto=proto, kw=kw, i=i):
            out = io.BytesIO()
            p = dill.Pickler(out, proto, **kw)
            p.dump(it.obj)
            p.dump([it.obj])
            data = out.getvalue()
            out.seek(0)
            u = dill.Unpickler(out, ignore=True)
            copies[i] = u.load()
            u.load()
            return data

        def pickles(it=it, proto=proto, kw=kw):
            return dill.pickles(it.obj, protocol=proto, **kw)

        def register(it=it, proto=proto, kw=kw):
            class New:
                def __init__(self, v):
                    self.v = v

            @dill.register(New)
            def save(pickler, obj):
                pickler.save_reduce(list, ((obj.v,),), obj=obj)
            try:
                got = dill.copy([New(5), New(6)], protocol=proto)
                data = dill.dumps(it.obj, proto, **kw)
                return got, dill.Pickler.dispatch.get(New) is not None, data
            finally:
                dill.Pickler.dispatch.pop(New, None)
        if k == 'loads':
            try:
                data = dill.dumps(it.obj, proto, **kw)
            except Exception:
                k = 'dumps'

            else:
                def loads(data=data, i=i):
                    copies[i] = dill.loads(data, ignore=True)
                    return 'loaded'
        jobs.append(locals()[k])
    return jobs


def compare(ctx, what, items, want, got, solo, copies):
    for i, it in enumerate(items):
        ctx.count('results')
        if got[i] != want[i]:
            ctx.violation('other-result', '%s: thread %d (%s %s) got %s, alone it gets %s' % (what, i, it.label, it.opts, short(got[i]), short(want[i])))
            return False
        if i in solo:
            ctx.count('copies_compared')
            if i not in copies:
                ctx.violation('other-result', '%s: thread %d (%s %s) has no copy' % (what, i, it.label, it.opts))
                return False
            d = iso.compare(solo[i], copies[i], checkglobals=False, byref=True)
            if d.diffs:
                ctx.violation('other-copy', '%s: thread %d (%s %s) loads something else\n%s' % (what, i, it.label, it.opts, '\n'.join(map(str, d.diffs[:5]))))
                return False
    return True


def short(x):
    return iso.srepr(x, 300)


def run_case(ctx, case):
    r = ctx.rng(case['i'])
    items = []
    try:
        n = r.choice([2, 2, 2, 3])
        spaces = ['nowhere', 'module', 'local-module', 'runtime', 'sub', 'noname']
        for i in range(n):
            kinds = [k for k in corpus.KINDS if k != 'files'] + ['functions', 'globals']
            it = corpus.make(r, ctx.scratch, 't%d_%d' % (ctx.shard, i), r.choice(kinds), spaces)
            while 'rlock' in it.label:      # (its owner is a thread)
                it.close()
                it = corpus.make(r, ctx.scratch, 't%d_%d' % (ctx.shard, i), r.choice(kinds), spaces)
            items.append(it)
        case['label'] = [it.label for it in items]
        go(ctx, r, items, case)
    finally:
        for it in items:
            it.close()


def go(ctx, r, items, case):
    solo, spare = {}, {}
    use_trace = r.random() < .2
    jobs = make_jobs(ctx, r, items, solo)
    if use_trace:
        REC[0] = Recorder()
        lg = logging.getLogger('dill')
        old = lg.handlers[:], lg.level
        for h in lg.handlers[:]:
            lg.removeHandler(h)
        lg.addHandler(REC[0])
        lg.setLevel(logging.INFO)
        jobs = [traced(j) for j in jobs]
    try:
        explore(ctx, r, items, jobs, solo, case, use_trace)
    finally:
        if use_trace:
            lg.removeHandler(REC[0])
            for h in old[0]:
                lg.addHandler(h)
            lg.setLevel(old[1])


def explore(ctx, r, items, jobs, copies, case, use_trace):
    want = [outcome(j) for j in jobs]
    again = [outcome(j) for j in jobs]
    if want != again:
        ctx.count('unsettled')
        ctx.sample('unsettled: %s' % [(it.label, it.opts, iso.srepr(a, 100), iso.srepr(b, 100)) for it, a, b in zip(items, want, again) if a != b])      # (C16 watches over this)
        return
    if any(it.opts[0] == 'pickles' for it in items) and 'PicklingWarning' in repr(want):
        ctx.count('warnings_and_pickles')      # (known: see pickles_filters)
        return
    solo = dict(copies)
    ctx.count('registered', sum(it.opts[0] == 'register' for it in items))
    # how many line events each thread has
    copies.clear()
    probe = Sched(r, jobs, [set()] * len(jobs))
    probe.lines = [{} for j in jobs]
    before = state.Interp()
    if not probe.run() or not compare(ctx, 'one after the other, %s' % case['label'], items, want, probe.results, solo, copies):
        ctx.violation('stuck', 'one after the other: %s does not end' % case['label']) if not ctx.vkeys else None
        return
    events = probe.counts
    ctx.count('line_events', sum(events))
    plans = []
    k = 4 if ctx.quick else 40
    for n in sorted({r.randrange(1, max(events[0], 1) + 1) for i in range(k)}):
        plans.append([{n}] + [set()] * (len(jobs) - 1))
    for m in range(4 if ctx.quick else 30):
        c = r.choice([1, 2, 4, 10, 50])
        plans.append([{r.randrange(1, max(e, 1) + 1) for i in range(c)} for e in events])
    # the second thread gets to the line where the first one waits, then the first goes on
    common = [l for l in probe.lines[0] if l in probe.lines[1] and not l[0].endswith('pickle.py')]
    r.shuffle(common)
    for l in common[:16 if ctx.quick else 200]:
        plans.append([{r.choice(probe.lines[0][l])}, {r.choice(probe.lines[1][l])}] + [set()] * (len(jobs) - 2))
        ctx.count('rendezvous')
    if sum(events) < 6000:
        plans.append([set(range(0, e, r.choice([1, 3, 7]))) for e in events])
    for plan in plans:
        copies.clear()
        s = Sched(r, jobs, plan)
        done = s.run()
        ctx.count('schedules')
        ctx.count('switches', len(s.log))
        ctx.count('steals', s.steals)
        ctx.nontrivial(case['i'], s.log)
        h = hash((case['i'], tuple(s.log)))
        if h not in ctx.seen:
            ctx.seen.add(h)
            ctx.count('distinct_schedules')
        what = 'switches %s' % s.log[:12]
        if not done:
            ctx.violation('stuck', '%s: %s do not end' % (what, case['label']))
            return
        if use_trace:
            ctx.count('trace_compared', len(items))
        if not compare(ctx, what, items, want, s.results, solo, copies):
            return
    # free running
    old = sys.getswitchinterval()
    for rep in range(2):
        copies.clear()
        res = [None] * len(jobs)
        bar = threading.Barrier(len(jobs))

        def body(i):
            bar.wait()
            for n in range(3 if ctx.quick else 10):
                res[i] = outcome(jobs[i])
                if res[i] != want[i]:
                    break
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        sys.setswitchinterval(1e-6)
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
        finally:
            sys.setswitchinterval(old)
        if any(t.is_alive() for t in ts):
            ctx.violation('stuck', 'running freely: %s do not end' % case['label'])
            return
        ctx.count('free_runs')
        if not compare(ctx, 'running freely', items, want, res, solo, copies):
            return
    shares = any(it.opts[0] == 'pickles' for it in items)       # (known: see pickles_filters)
    if shares:
        warnings.filters[:] = before.s['filters']
        warnings._filters_mutated()
    bad = before.diff(state.Interp(), ('filters',) if shares else ())
    if bad:
        ctx.violation('not-restored:%s' % bad[0].partition(':')[0], '%s: %s' % (case['label'], '\n'.join(bad[:5])))


def first_sight(ctx):
    """dill meets numpy for the first time, in two threads"""
    import numpy
    ctx.case = {'first': True, 'i': 0}
    r = ctx.rng('first')
    objs = [[numpy.arange(6).reshape(2, 3), numpy.sin], [numpy.dtype('i4'), numpy.ones(2), numpy.add]]

    def job(o):
        return lambda: (dill.dumps(o), repr(dill.copy(o)))
    jobs = [job(o) for o in objs]
    s = Sched(r, jobs, [{r.randrange(1, 700) for i in range(r.choice([1, 3, 30]))} for o in objs])
    ok = s.run()
    want = [outcome(j) for j in jobs]
    ctx.count('first_sight')
    ctx.nontrivial('first', s.log)
    if not ok:
        ctx.violation('stuck', 'numpy met for the first time by two threads: no end')
    elif s.results != want:
        ctx.violation('first-sight', 'numpy met for the first time by two threads, switches %s: %s, later %s' % (s.log[:8], short(s.results), short(want)))


class Meet:
    """== of one waits for the other"""
    def __init__(self, mine, other):
        self.mine, self.other = mine, other

    def __eq__(self, o):
        EVENTS[self.mine].set()
        EVENTS[self.other].wait(5)
        return True


EVENTS = {}


def pickles_filters(ctx):
    """two threads are inside the comparison of dill.pickles at the same time, the first in leaves first"""
    ctx.case = {'first': True, 'i': 0}
    for k in 'ab':
        EVENTS[k] = threading.Event()
    EVENTS['c'] = threading.Event()
    was = list(warnings.filters)
    done = []
    a = threading.Thread(target=lambda: done.append(dill.pickles(Meet('a', 'b'))))
    b = threading.Thread(target=lambda: done.append(dill.pickles(Meet('b', 'c'))))
    a.start()
    EVENTS['a'].wait(5)
    b.start()
    a.join(10)
    EVENTS['c'].set()
    b.join(10)
    ctx.count('results', 2)
    if done != [True, True]:
        ctx.violation('other-result', 'pickles() in two threads: %s' % done)
    if warnings.filters != was:
        ctx.violation('pickles-filters', 'after pickles() in two threads the warning filters are %s...' % warnings.filters[:2])
        warnings.filters[:] = was
        warnings._filters_mutated()
