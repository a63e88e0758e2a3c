"""Worker side: one process per shard, imports dill from the tree under test."""
import gc, hashlib, importlib, json, os, random, resource, signal, sys, time, traceback

CPU_CASE_LIMIT = 60.0   # CPU seconds for one case; ordinary cases take milliseconds


class CaseTimeout(BaseException):
    pass


class Coverage:
    """dill lines executed, through sys.monitoring (first hit only, then disabled)"""
    def __init__(self, root):
        self.root = os.path.join(os.path.realpath(root), 'dill') + os.sep
        self.hit = set()
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(mon.COVERAGE_ID, 'vf')
        except ValueError:
            return
        root, hit, DIS = self.root, self.hit, mon.DISABLE

        def line(code, no):
            f = code.co_filename
            if f.startswith(root) and '/tests/' not in f:
                hit.add((f[len(root):], no))
            return DIS
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        self.on = True

    def stop(self):
        if self.on:
            mon = sys.monitoring
            mon.set_events(mon.COVERAGE_ID, 0)
            mon.free_tool_id(mon.COVERAGE_ID)
            self.on = False

    def total(self):
        n = 0
        import types

        def lines(co):
            s = {l for _, _, l in co.co_lines() if l}
            for c in co.co_consts:
                if isinstance(c, types.CodeType):
                    s |= lines(c)
            return s
        for fn in sorted(os.listdir(self.root)):
            if fn.endswith('.py') and fn not in ('__info__.py', '_objects.py'):
                try:
                    with open(self.root + fn, encoding='utf-8') as f:
                        n += len(lines(compile(f.read(), fn, 'exec', dont_inherit=True)))
                except Exception:
                    pass
        return n


class Ctx:
    def __init__(self, a):
        self.__dict__.update(a)
        self.counters = {}
        self.violations = []
        self.hashes = set()
        self.samples = []
        self.inconclusive = []
        self.evaluations = 0
        self.case = None
        self.vkeys = {}
        self._prog = open(self.progress, 'w', encoding='utf-8')
        self.quick = self.tier == 'quick'

    def rng(self, *key):
        return random.Random('%s|%s|%s' % (self.seed, self.pid, '|'.join(map(str, key))))

    def mine(self, n):
        return range(self.shard, n, self.nshards)

    def share(self, seq):
        return [x for i, x in enumerate(seq) if i % self.nshards == self.shard]

    def begin(self, case):
        self.case = case
        self._prog.seek(0)
        self._prog.truncate()
        self._prog.write(json.dumps(case))
        self._prog.flush()
        self.evaluations += 1
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_CASE_LIMIT)

    def end(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def nontrivial(self, *what):
        self.hashes.add(hashlib.sha1(repr(what).encode('utf-8', 'replace')).hexdigest()[:16])

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, msg, case=None):
        n = self.vkeys.get(key, 0)
        self.vkeys[key] = n + 1
        if n < 5:
            self.violations.append({'key': key, 'msg': str(msg)[:6000],
                                    'case': case if case is not None else self.case})

    def dump(self, complete, cov):
        r = {'complete': complete, 'violations': self.violations, 'evaluations': self.evaluations,
             'hashes': sorted(self.hashes), 'counters': self.counters, 'samples': self.samples,
             'inconclusive': self.inconclusive, 'cov': sorted(cov.hit), 'covtotal': cov.total()}
        tmp = self.out + '.tmp'
        with open(tmp, 'w', encoding='utf-8') as f:
            json.dump(r, f, default=repr)
        os.replace(tmp, self.out)


def in_dill(tb, root):
    root = os.path.join(os.path.realpath(root), 'dill') + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


def main():
    a = json.loads(sys.argv[-1])
    del sys.argv[1:]
    repo = os.environ.get('VF_REPO', '/repo')
    # what goes wrong must not take the machine's memory with it (a shifted pickle can ask for gigabytes)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    ctx = Ctx(a)
    cov = Coverage(repo)

    def onalarm(sig, frame):
        raise CaseTimeout()
    signal.signal(signal.SIGVTALRM, onalarm)
    cov.start()
    import dill
    if not os.path.realpath(dill.__file__).startswith(os.path.realpath(repo) + os.sep):
        print('wrong dill', dill.__file__)
        sys.exit(4)
    mod = importlib.import_module('vf.props.' + ctx.pid.lower())
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    cases = [ctx.replay] if ctx.replay else mod.cases(ctx)
    ok = True
    for case in cases:
        ctx.begin(case)
        try:
            mod.run_case(ctx, case)
        except CaseTimeout:
            ctx.violation('no-answer', 'no result after %d CPU seconds in one case' % CPU_CASE_LIMIT)
            ok = False
        except Exception as e:
            tbtxt = traceback.format_exc()
            if in_dill(e.__traceback__, repo):
                ctx.violation('uncaught:%s' % type(e).__name__, tbtxt)
            elif isinstance(e, (OSError, MemoryError)):
                ctx.inconclusive.append('no answer for %s\n%s' % (json.dumps(case)[:400], tbtxt[-1500:]))
                if len(ctx.inconclusive) > 20:
                    break
            else:
                # the monitor met something it cannot even examine: on a tree where the property holds
                # every case is examinable (the harness is swept over many seeds for that)
                ctx.violation('unexaminable:%s' % type(e).__name__, tbtxt)
        finally:
            ctx.end()
        if not ok:
            break
    if hasattr(mod, 'finish'):
        try:
            mod.finish(ctx)
        except Exception as e:
            ctx.inconclusive.append('harness error in finish\n' + traceback.format_exc()[-1500:])
    cov.stop()
    ctx.dump(True, cov)
    sys.stdout.flush()
    os._exit(0)
