"""C22: tracing reports and does not interfere."""
import gzip, io, logging, os, re, sys, threading, warnings
import dill
from dill import detect
from .. import corpus

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('objects of every family of the corpus dumped without and with tracing (flag, context, stream, file, nested; to memory, seekable, unseekable, write-only and moody streams; through pickler subclasses, failing dumps, threads): same bytes '
        'or same error, every line parsed and the tree checked (depths, matching exits, sizes that nest and add up to the pickle); and random histories of trace(True/False), nested redirecting and plain contexts left '
        'normally or by exceptions against a model of where output may appear; non-trivial = (object or history, variant)')
ASSUMPTIONS = ['what contexts outside the innermost redirecting one receive is not specified, except that nothing reaches stderr', 'objects whose dump is not repeatable without tracing are not compared']
FLOORS = {'objects': 500, 'traced_dumps': 2000, 'entries': 10000, 'sized_roots': 200, 'failed_dumps': 100, 'histories': 200, 'history_steps': 2000, 'silent_checked': 300, 'redirected': 300, 'unseekable': 300, 'threads': 20, 'reused_dumps': 300, 'duck_streams': 100}
ENTER1 = re.compile(r'┬ ([^\s:#]+): ', re.S)
ENTERN = re.compile(r'(│*)├┬ ([^\s:#]+): ', re.S)
EXIT = re.compile(r'(│*)└ # (\S+)(?: \[(\d+) ([KMGTP]i)?B\])?', re.S)
WRITES = {'D2', 'D4', 'F1', 'F2', 'Co', 'T1', 'T2', 'T4', 'Ce2', 'M2', 'Si', 'Wr'}
ASCII = str.maketrans({'+': '┬', '|': '│', '`': '└'})


class Enc(io.StringIO):
    def __init__(self, encoding='utf-8'):
        super().__init__()
        self._e = encoding

    @property
    def encoding(self):
        return self._e


class Record(logging.Handler):
    """keeps each formatted record of its own"""
    def __init__(self, encoding='utf-8'):
        super().__init__()
        self.stream = Enc(encoding)     # consulted for its encoding only
        self.lines = []                 # (text, size or None, thread)
        self.unformattable = 0

    def emit(self, record):
        try:
            t = self.format(record)
        except Exception:
            self.unformattable += 1
            t = None
        self.lines.append((t, getattr(record, 'size', None), record.thread))


class Cut(io.BytesIO):
    """fails after n bytes"""
    def __init__(self, n):
        super().__init__()
        self.n = n

    def write(self, b):
        if self.tell() + len(b) > self.n:
            raise OSError('disk full')
        return super().write(b)


class WriteOnly:
    def __init__(self):
        self.b = []

    def write(self, data):
        self.b.append(bytes(data))
        return len(data)

    def getvalue(self):
        return b''.join(self.b)


class NoTell(io.RawIOBase):
    """like a pipe: real stream, cannot be asked for its position"""
    def __init__(self):
        self.b = []

    def writable(self):
        return True

    def write(self, data):
        self.b.append(bytes(data))
        return len(data)

    def getvalue(self):
        return b''.join(self.b)


class BadTell(WriteOnly):
    """a user's own writer: it has a tell, which is of no use"""
    def __init__(self, how):
        super().__init__()
        self.how = how

    def tell(self):
        if isinstance(self.how, type):
            raise self.how('no position')
        return self.how


class Moody(io.BytesIO):
    """tells its position at times"""
    def __init__(self, pattern):
        super().__init__()
        self.pattern, self.n = pattern, 0

    def tell(self):
        self.n += 1
        if self.pattern >> self.n % 7 & 1:
            raise OSError('not now')
        return super().tell()


class Duck:
    """a stream of the user's own, with no more than is needed"""
    closed = False

    def __init__(self):
        self.b = []

    def write(self, s):
        self.b.append(s)

    def getvalue(self):
        return ''.join(self.b)


class Real(io.TextIOWrapper):
    """a file the user opened"""
    def __init__(self, path):
        super().__init__(open(path, 'wb+'), 'utf-8')
        self.path = path

    def getvalue(self):
        self.flush()
        return read(self.path)


def stream(ctx, r):
    k = r.randrange(5)
    if k == 0:
        return Real(os.path.join(ctx.scratch, 'stream%d.txt' % r.randrange(10**9)))
    return Duck() if k < 3 else Enc()


TELLS = [OSError, ValueError, io.UnsupportedOperation, AttributeError, TypeError, NotImplementedError, RuntimeError, EOFError, None]


class Sub(dill.Pickler):
    dispatch = dill.Pickler.dispatch.copy()


class SubPlain(dill.Pickler):
    pass


def cases(ctx):
    for i in ctx.mine(1500 if ctx.quick else 14000):
        yield {'i': i}
    for i in ctx.mine(480 if ctx.quick else 4000):
        yield {'i': i, 'history': True}
    for i in ctx.mine(240 if ctx.quick else 2000):
        yield {'i': i, 'reuse': True}
    for i in ctx.mine(40 if ctx.quick else 300):
        yield {'i': i, 'threads': True}


def setup(ctx):
    warnings.simplefilter('ignore')
    ctx.lg = logging.getLogger('dill')
    ctx.base = list(ctx.lg.handlers)


def outcome(dump, f):
    try:
        dump(f)
        return ('ok', f.getvalue())
    except RecursionError:
        return None
    except Exception as e:
        return ('error', type(e).__name__, scrub(str(e)), f.getvalue())


def scrub(s):
    return re.sub(r'0x[0-9a-f]+', '0x', s)


def run_case(ctx, c):
    err, sys.stderr = sys.stderr, Enc()
    lvl = ctx.lg.level
    try:
        if 'history' in c:
            history(ctx, c)
        elif 'reuse' in c:
            reuse(ctx, c)
        elif 'threads' in c:
            threads(ctx, c)
        else:
            one(ctx, c)
    finally:
        sys.stderr = err
        ctx.lg.setLevel(lvl)
        for h in list(ctx.lg.handlers):
            if h not in ctx.base:
                ctx.lg.removeHandler(h)
        for h in ctx.base:
            if h not in ctx.lg.handlers:
                ctx.lg.addHandler(h)


def parse(lines, ascii=False):
    """[(kind, depth, token, size, unit)] or a complaint"""
    out = []
    for t in lines:
        if ascii:
            m = re.match(r'([|+`]+)- ', t)
            if not m:
                return 'not a trace line: %r' % t
            pre = m.group(1)
            pre = pre.translate(ASCII) if len(pre) == 1 or pre[-1] == '`' else pre[:-2].translate(ASCII) + '├┬'
            t = pre + ' ' + t[m.end():]
        m = ENTER1.match(t)
        if m:
            out.append(('in', 1, m.group(1), None, ''))
            continue
        m = ENTERN.match(t)
        if m:
            out.append(('in', len(m.group(1)) + 2, m.group(2), None, ''))
            continue
        m = EXIT.fullmatch(t)
        if m:
            out.append(('out', len(m.group(1)) + 1, m.group(2), int(m.group(3)) if m.group(3) else None, m.group(4) or ''))
            continue
        return 'not a trace line: %r' % t
    return out


def tree(events, sizes, sized, complete):
    """well-formed? returns complaint or None"""
    stack = []
    for n, (kind, depth, tok, size, unit) in enumerate(events):
        if kind == 'in':
            if depth != len(stack) + 1:
                return 'line %d enters %s at depth %d below %d open entries' % (n, tok, depth, len(stack))
            stack.append([tok, 0])
            continue
        if not stack:
            return 'line %d leaves %s, nothing is open' % (n, tok)
        t, inner = stack.pop()
        if t != tok:
            return 'line %d leaves %s, open is %s' % (n, tok, t)
        if depth != len(stack) + 1:
            return 'line %d leaves %s at depth %d, entered at %d' % (n, tok, depth, len(stack) + 1)
        if sized and size is None and (depth == 1 or sizes[n] or inner or tok in WRITES):       # what writes nothing shows no size
            return 'line %d: %s has no size' % (n, tok)
        if sized is False and size is not None:
            return 'line %d: %s has a size, of a stream that tells none' % (n, tok)
        exact = sizes[n]
        if exact is None and not unit:
            exact = size
        if size is not None and exact is not None:
            k = {'': 0, 'Ki': 10, 'Mi': 20}.get(unit, 0)
            if size != exact >> k or (k and not size):
                return 'line %d: %s shows %d %sB for %d' % (n, tok, size, unit, exact)
            if exact < inner:
                return 'line %d: %s has %d bytes, its parts %d' % (n, tok, exact, inner)
            if stack:
                stack[-1][1] += exact
    if complete and stack:
        return '%d entries never left: %s' % (len(stack), [t for t, _ in stack])


class Fail(Exception):
    pass


def one(ctx, c):
    r = ctx.rng(c['i'])
    lg = ctx.lg
    it = corpus.make(r, ctx.scratch, '%d_' % c['i'])
    try:
        proto = r.choice([0, 1, 2, 3, 4, 4, 4, 5])
        kw = {'protocol': proto, 'byref': r.random() < .2, 'recurse': r.random() < .4}
        obj = it.obj if r.random() < .5 else {'a': it.obj}
        cls = r.choice([None, None, dill.Pickler, Sub, SubPlain])

        def dump(f):
            if cls is None:
                dill.dump(obj, f, **kw)
            else:
                p = cls(f, proto, byref=kw['byref'], recurse=kw['recurse'])
                p.dump(obj)
        kind = r.choice(['memory', 'memory', 'memory', 'offset', 'writeonly', 'notell', 'cut', 'gzip', 'pipe', 'badtell', 'badtell', 'moody'])
        pattern = r.randrange(1, 128)
        how = r.choice(TELLS)
        n = r.choice([0, 5, 20, 100, 300])

        def target():
            if kind == 'offset':
                f = io.BytesIO()
                f.write(b'x' * n)
                return f
            return {'memory': io.BytesIO, 'writeonly': WriteOnly, 'notell': NoTell, 'cut': lambda: Cut(n), 'gzip': Gz, 'pipe': Pipe, 'badtell': lambda: BadTell(how), 'moody': lambda: Moody(pattern)}[kind]()
        lg.setLevel(logging.WARNING)
        a = outcome(dump, target())
        b = outcome(dump, target())
        if a is None or b is None or a != b:
            ctx.count('not_repeatable')
            return
        ctx.count('objects')
        if kind in ('writeonly', 'notell', 'pipe', 'badtell'):
            ctx.count('unseekable')
        for v in r.sample(VARIANTS, 3):
            rec = Record(r.choice(['utf-8', 'UTF8', 'latin-1', 'ascii', None]))
            ascii = not (rec.stream.encoding or utf8()).lower().startswith('utf')
            dill.logger.adapter.addHandler(rec)
            f = target()
            sys.stderr = Enc()
            handlers = list(lg.handlers)
            level = lg.getEffectiveLevel()
            try:
                got = VAR[v](ctx, r, lambda: outcome(dump, f))
            finally:
                lg.removeHandler(rec)
                lg.setLevel(logging.WARNING)
            handlers.remove(rec)
            if got is None:
                ctx.count('too_deep')
                continue
            ctx.count('traced_dumps')
            tag = '%s | %s | %s | %s' % (it.label[:60], kind, v, kw)
            if got != a:
                ctx.violation('interferes|%s|%s' % (kind, v), '%s: ' % (how if kind == 'badtell' else '',) + '%s: untraced %.300r, traced %.300r\n%s' % (tag, a, got, it.src[:1500]))
                continue
            if [h for h in lg.handlers] != handlers and sorted(map(id, lg.handlers)) != sorted(map(id, handlers)):
                ctx.violation('handlers|' + v, '%s: handlers before %r, after %r' % (tag, handlers, lg.handlers))
            if level != logging.WARNING:
                ctx.violation('level|' + v, tag)
            if rec.unformattable:
                ctx.count('unformattable')
                continue
            lines = [t for t, _, _ in rec.lines]
            if cls is not None and cls is not dill.Pickler:
                if any(t.startswith(('┬', '│', '├', '└')) for t in lines):
                    ctx.count('subclass_trees')
                else:
                    continue
            if v == 'disabled':
                if lines:
                    ctx.violation('not-silent|disabled', '%s: %r' % (tag, lines[:3]))
                continue
            ev = parse(lines, ascii)
            if isinstance(ev, str):
                ctx.violation('line|' + ('ascii' if ascii else 'utf8'), '%s: %s' % (tag, ev))
                continue
            ctx.count('entries', len(ev))
            tellable = kind in ('memory', 'offset', 'cut', 'gzip')
            sizes = [s for _, s, _ in rec.lines]
            bad = tree(ev, sizes, None if kind == 'moody' else tellable, a[0] == 'ok')
            if bad:
                ctx.violation('tree|' + bad.split(':')[-1][:0] + kind, '%s: %s\n%s' % (tag, bad, '\n'.join(lines[:60])))
                continue
            if a[0] == 'error':
                ctx.count('failed_dumps')
            elif tellable and len(ev) > 1 and kind in ('memory', 'offset') and len(a[1]) < 60000 and a[1].count(b'\x95') <= 1 and type(obj) is dict and ev[-1][1] == 1:
                data = len(a[1]) - (n if kind == 'offset' else 0)
                want = data - 1 - (2 if proto >= 2 else 0) - (9 if proto >= 4 else 0)
                got_ = sizes[-1] if sizes[-1] is not None else (ev[-1][3] if not ev[-1][4] else None)
                roots = [e for e in ev if e[0] == 'in' and e[1] == 1]
                if len(roots) != 1:
                    ctx.violation('roots', '%s: %d trees\n%s' % (tag, len(roots), '\n'.join(lines[:60])))
                elif got_ is not None:
                    ctx.count('sized_roots')
                    if got_ != want:
                        ctx.violation('size|root', '%s: traced size %d, pickle of %d bytes holds %d' % (tag, got_, data, want))
            ctx.nontrivial(it.label, it.src, v, kind)
            if len(ctx.samples) < 3 and 8 < len(lines) < 25:
                ctx.sample({'case': c, 'what': tag, 'trace': lines})
        # afterwards tracing is off: nothing anywhere
        rec = Record()
        dill.logger.adapter.addHandler(rec)
        sys.stderr = e = Enc()
        outcome(dump, target())
        lg.removeHandler(rec)
        ctx.count('silent_checked')
        if rec.lines or e.getvalue():
            ctx.violation('not-silent', '%s: %r' % (it.label, (rec.lines[:3], e.getvalue()[:200])))
    finally:
        it.close()


class Gz(gzip.GzipFile):
    def __init__(self):
        self.raw = io.BytesIO()
        super().__init__(fileobj=self.raw, mode='wb', mtime=0)

    def getvalue(self):
        if not self.closed:
            self.close()
        return gzip.decompress(self.raw.getvalue())


class Pipe:
    """a real pipe behind a buffered writer"""
    def __init__(self):
        r, w = os.pipe()
        self.r, self.f, self.b = r, os.fdopen(w, 'wb'), []
        self.t = threading.Thread(target=self.drain)
        self.t.start()

    def drain(self):
        while True:
            b = os.read(self.r, 65536)
            if not b:
                break
            self.b.append(b)
        os.close(self.r)

    def __getattr__(self, n):
        return getattr(self.f, n)

    def getvalue(self):
        self.f.close()
        self.t.join()
        return b''.join(self.b)


def utf8():
    import locale
    return locale.getpreferredencoding()


def v_flag(ctx, r, go):
    detect.trace(True)
    try:
        return go()
    finally:
        detect.trace(False)


def v_context(ctx, r, go):
    with detect.trace():
        return go()


def v_stream(ctx, r, go):
    s = stream(ctx, r)
    with detect.trace(s):
        x = go()
    if sys.stderr.getvalue():
        ctx.violation('stderr|stream', sys.stderr.getvalue()[:300])
    s.write('still open')
    if isinstance(s, Real):
        s.close()
        os.unlink(s.path)
    ctx.count('redirected')
    return x


def v_broken(ctx, r, go):
    s = Enc()
    s.close()
    with detect.trace(s):
        return go()


def v_file(ctx, r, go):
    p = os.path.join(ctx.scratch, 'trace.txt')
    with detect.trace(p, mode=r.choice('aw')):
        return go()


def v_nested(ctx, r, go):
    with detect.trace(Enc()):
        with detect.trace():
            return go()


def v_left(ctx, r, go):
    out = []
    try:
        with detect.trace(Enc()):
            out.append(go())
            raise Fail()
    except Fail:
        pass
    return out[0]


def v_disabled(ctx, r, go):
    logging.disable(logging.CRITICAL)
    try:
        with detect.trace():
            return go()
    finally:
        logging.disable(logging.NOTSET)


def v_twice(ctx, r, go):
    """an aborted traced dump must not disturb the next one"""
    rec = ctx.lg.handlers[-1]
    with detect.trace():
        try:
            dill.dumps({'a': {'b': [{'c': (x for x in ())}]}})
        except Exception:
            pass
        if isinstance(rec, Record):
            rec.lines.clear()
        return go()


VAR = {'flag': v_flag, 'context': v_context, 'stream': v_stream, 'broken': v_broken, 'file': v_file, 'nested': v_nested, 'left': v_left, 'disabled': v_disabled, 'twice': v_twice}
VARIANTS = sorted(VAR)


# -- histories ------------------------------------------------------------------------------------------

class Level:
    """model: where a record may go now"""


def history(ctx, c):
    r = ctx.rng('history', c['i'])
    lg = ctx.lg
    lg.setLevel(r.choice([logging.WARNING, logging.WARNING, logging.ERROR, logging.INFO]))
    own = Record() if r.random() < .5 else None
    if own:
        dill.logger.adapter.addHandler(own)
    without = r.random() < .25          # the user does not want stderr at all
    if without:
        for h in ctx.base:
            dill.logger.adapter.removeHandler(h)
    before = sorted(map(id, lg.handlers))
    start = lg.getEffectiveLevel()
    level = start
    files = {}                          # path -> expected prefix content marks
    log = []
    tags = [0]
    opened = []
    stack = []                          # redirections, innermost last
    streams = []

    def mark(n):
        return 'mark%dx' % n

    def check_dump(logfn=None):
        tags[0] += 1
        nonlocal level
        m = mark(tags[0])

        class K:
            pass
        K.__name__ = K.__qualname__ = m
        sys.stderr = e = Enc()
        if own:
            own.lines.clear()
        try:
            if r.random() < .2:
                dill.dumps([K, (x for x in ())])
            else:
                dill.dumps({'a': K})
        except TypeError:
            pass
        on = level <= logging.INFO
        ctx.count('history_steps')
        red = [s for s in stack if s is not None]
        where = e.getvalue()
        if m in where and (not on or red or without):
            return 'dump %s shows on stderr (%s)' % (m, 'silent' if not on else 'redirected' if red else 'handler removed')
        if on and not red and not without and m not in where:
            return 'dump %s does not show on stderr' % m
        if own and (m in ''.join(t or '' for t, _, _ in own.lines)) != on:
            return 'dump %s: handler of the user got %r, tracing is %s' % (m, own.lines[:2], on)
        if own and on and r.random() < .9:
            ev = parse([t for t, _, _ in own.lines])
            bad = ev if isinstance(ev, str) else tree(ev, [s for _, s, _ in own.lines], True, False)
            if bad:
                return 'dump %s: %s' % (m, bad)
        for s in red:
            text = s['read']()
            if on and s is red[-1] and m not in text:
                return 'dump %s does not show where it is redirected' % m
            if not on and m in text:
                return 'dump %s shows in the redirection, tracing is off' % m
            ctx.count('redirected')
        for s in streams:
            if s not in red and m in s['read']():
                return 'dump %s shows in a redirection that was left' % m
        if not on:
            ctx.count('silent_checked')
        return None

    def body(depth):
        nonlocal level
        for k in range(r.choice([1, 2, 3, 4])):
            w = r.random()
            if w < .4:
                bad = check_dump()
                log.append('dump')
                if bad:
                    raise Bad(bad)
            elif w < .5:
                v = r.random() < .5
                log.append('trace(%s)' % v)
                detect.trace(v)
                level = logging.INFO if v else logging.WARNING
            elif w < .54:
                log.append('enter fails')
                try:
                    with detect.trace(os.path.join(ctx.scratch, 'no', 'such', 'dir')):
                        pass
                except OSError:
                    pass
                else:
                    raise Bad('a trace file that cannot be opened is no error')
            elif depth < 4:
                how = r.choice(['plain', 'stream', 'path', 'pathlike', 'stream', 'path'])
                leave = r.choice(['end', 'end', 'raise', 'again'])
                log.append('enter %s' % how)
                inner(depth, how, leave)
                log.append('left (%s)' % leave)
        bad = check_dump()
        if bad:
            raise Bad(bad)

    def inner(depth, how, leave):
        nonlocal level
        s = None
        if how == 'stream':
            b = stream(ctx, r)
            s = {'read': b.getvalue, 'stream': b}
            opened.append(b)
            ctx.count('duck_streams', isinstance(b, Duck))
            m = detect.trace(b)
        elif how == 'plain':
            m = detect.trace()
        else:
            p = os.path.join(ctx.scratch, 'h%d_%d.txt' % (c['i'], r.choice([1, 2, 3])))
            if any(x and x.get('path') == p for x in stack):
                p = os.path.join(ctx.scratch, 'h%d_%d_%d.txt' % (c['i'], depth, len(streams) + 10))
            mode = r.choice(['a', 'w', None])
            had = read(p)
            if how == 'pathlike':
                import pathlib
                q = pathlib.Path(p)
            else:
                q = p
            m = detect.trace(q) if mode is None else detect.trace(q, mode=mode)
            keep = had if mode != 'w' else ''
            for x in streams:
                if x.get('path') == p:
                    x['read'] = lambda: ''
            s = {'read': lambda: read(p)[len(keep):], 'path': p, 'keep': keep}
        for rep in range(2 if leave == 'again' and how != 'stream' else 1):
            saved = level
            before_ = read(p) if s and 'path' in s else ''
            if rep and s and mode == 'w':
                keep = ''
                s['keep'] = ''
            elif rep and s:
                keep = s['keep'] = read(p)
            if s:
                streams.append(s)
            try:
                with m as logfn:
                    stack.append(s)
                    level = logging.INFO
                    if s is not None:
                        tags[0] += 1
                        logfn('> note %d of %s', tags[0], 'x')
                        if '> note %d of x\n' % tags[0] not in s['read']():
                            raise Bad('log function does not write to the redirection: %r' % s['read']()[:200])
                    if s and 'path' in s and not read(s['path']).startswith(s['keep']):
                        raise Bad('trace file opened with mode %s lost what it had' % mode)
                    if s and 'path' in s and mode == 'w' and before_ and read(p).startswith(before_):
                        raise Bad('trace file opened with mode w kept what it had')
                    body(depth + 1)
                    if leave == 'raise':
                        raise Fail()
            except Fail:
                pass
            level = saved
            stack.pop()
            if s and 'stream' in s:
                if s['stream'].closed:
                    raise Bad('the stream of the user was closed')
            if s and 'path' in s:
                if open_here(s['path']):
                    raise Bad('trace file %s is still open' % os.path.basename(s['path']))

    try:
        body(0)
        if lg.getEffectiveLevel() != level:
            raise Bad('level %s after everything, expected %s' % (lg.getEffectiveLevel(), level))
        if sorted(map(id, lg.handlers)) != before:
            raise Bad('handlers are %r after everything' % lg.handlers)
        detect.trace(False)
        level = logging.WARNING
        bad = check_dump()
        if bad:
            raise Bad(bad)
    except Bad as e:
        ctx.violation('history|' + re.sub(r'mark\d+x|\d+', 'N', str(e))[:60], '%s\n%s' % (e, log))
    for b in opened:
        if isinstance(b, Real):
            b.close()
            os.unlink(b.path)
    ctx.count('histories')
    ctx.nontrivial(tuple(log))


class Bad(Exception):
    pass


def read(p):
    try:
        with open(p, encoding='utf-8') as f:
            return f.read()
    except FileNotFoundError:
        return ''


def open_here(p):
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd) == p:
                return True
        except OSError:
            pass
    return False


# -- threads ------------------------------------------------------------------------------------------

def threads(ctx, c):
    r = ctx.rng('threads', c['i'])
    objs = []
    for k in range(3):
        d = {}
        for j in range(r.randrange(1, 6)):
            d = {'a': d, 'f': eval('lambda x: x + %d' % j, {'k': d}), 'c': type('K%d' % j, (), {'a': 1})}
        objs.append(d)
    plain = [dill.dumps(o) for o in objs]
    rec = Record()
    dill.logger.adapter.addHandler(rec)
    out = [None] * 3
    ids = [None] * 3
    go = threading.Barrier(3)

    def work(k):
        ids[k] = threading.get_ident()
        go.wait()
        out[k] = [dill.dumps(objs[k]) for i in range(4)]
        go.wait()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    with detect.trace(Enc()):
        ts = [threading.Thread(target=work, args=(k,)) for k in range(3)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    sys.setswitchinterval(old)
    ctx.lg.removeHandler(rec)
    switches = sum(1 for x, y in zip(rec.lines, rec.lines[1:]) if x[2] != y[2])
    ctx.count('thread_switches', switches)
    for k in range(3):
        ctx.count('threads')
        if any(x != plain[k] for x in out[k] or [None]):
            ctx.violation('interferes|threads', 'bytes differ under tracing in threads')
        mine = [x for x in rec.lines if x[2] == ids[k]]
        ev = parse([x[0] for x in mine])
        bad = ev if isinstance(ev, str) else tree(ev, [x[1] for x in mine], True, True)
        if bad:
            ctx.violation('tree|threads', bad)
        elif sum(1 for e in ev if e[0] == 'in' and e[1] == 1) != 4:
            ctx.violation('roots|threads', '%d trees for 4 dumps' % sum(1 for e in ev if e[0] == 'in' and e[1] == 1))
    ctx.nontrivial('threads', c['i'], switches)


# -- one pickler, many dumps ------------------------------------------------------------------------------

def reuse(ctx, c):
    """each dump of one pickler, after failures and with tracing switched on and off in between, has its own tree"""
    r = ctx.rng('reuse', c['i'])
    f = r.choice([io.BytesIO, WriteOnly])()
    p = dill.Pickler(f, r.choice([2, 4]))
    rec = Record()
    dill.logger.adapter.addHandler(rec)
    log = []
    for k in range(r.randrange(3, 9)):
        on = r.random() < .7
        bad = r.random() < .5
        log.append((on, bad))
        o = {'a': {'b': eval('lambda x: x + %d' % k)}}
        for j in range(r.randrange(3)):
            o = {'n': o}
        if bad:
            o['a' if r.random() < .5 else 'z'] = {'q': {'w': (x for x in ())}}
        sys.stderr = Enc()
        rec.lines.clear()
        p.clear_memo()
        detect.trace(on)
        try:
            p.dump(o)
        except TypeError:
            if not bad:
                raise
        except IndexError as e:
            ctx.violation('interferes|reuse', '%s: %r' % (log, e))
            return
        if not on:
            if rec.lines:
                ctx.violation('not-silent|reuse', '%s' % log)
            continue
        ev = parse([x[0] for x in rec.lines])
        x = ev if isinstance(ev, str) else tree(ev, [y[1] for y in rec.lines], isinstance(f, io.BytesIO), not bad)
        if x:
            ctx.violation('tree|reuse', '%s: %s' % (log, x))
            return
        ctx.count('reused_dumps')
    ctx.nontrivial('reuse', tuple(log), type(f).__name__)
