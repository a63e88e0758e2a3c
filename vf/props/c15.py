"""C15: session files are written and read safely."""
import io, os, pathlib, stat, subprocess, sys, types, warnings
import dill, dill.session
from .. import core

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('a scratch tree with victims is put into every state the target path can have (missing, file, hard link, link to file, dangling link, link to link, directory, missing parent, linked parent), sessions are dumped '
        'to it and loaded from it through every entry point under many umasks, with failing objects, and with the path swapped for a link at every line and at every open that dill executes; the whole tree is compared '
        'through lstat before and after, audit events give every path opened, created or removed; non-trivial = (operation, path state, kind of path, umask, injection point, outcome)')
ASSUMPTIONS = ['posix file system; the caller is the only other writer', 'a link in a parent directory is followed as usual', 'a file that already exists keeps its permissions']
FLOORS = {'operations': 5000, 'link_refused': 700, 'created_private': 400, 'swaps_done': 2500, 'tree_entries_compared': 50000, 'no_nofollow_runs': 8}

EVENTS = []
WATCH = [None]
INJECT = [None]


def hook(event, args):
    if WATCH[0] is None:
        return
    if event == 'open':
        p, mode, flags = args
        try:
            p = os.fspath(p) if not isinstance(p, int) else p
        except TypeError:
            return
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)) if isinstance(flags, int) and flags else bool(mode and set(mode) & set('wax+'))
        EVENTS.append(('open', p, w))
        if INJECT[0] is not None and not isinstance(p, int) and os.path.basename(p) == os.path.basename(WATCH[0]):
            INJECT[0]('open')
    elif event in ('os.remove', 'os.rename', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.truncate', 'os.mkdir', 'os.rmdir', 'os.utime', 'shutil.move', 'shutil.rmtree', 'tempfile.mkstemp', 'tempfile.mkdtemp'):
        EVENTS.append((event, args[0] if args else None, True))


def cases(ctx):
    for i in ctx.mine(480 if ctx.quick else 4800):
        yield {'i': i, 'what': 'states'}
    for i in ctx.mine(96 if ctx.quick else 1600):
        yield {'i': i, 'what': 'swaps'}
    for i in ctx.mine(8 if ctx.quick else 32):
        yield {'i': i, 'what': 'nonofollow'}


def setup(ctx):
    warnings.simplefilter('ignore')
    os.chdir(ctx.scratch)
    sys.addaudithook(hook)
    assert dill.session.SESSION_TEMPFILE.startswith(ctx.scratch), dill.session.SESSION_TEMPFILE
    m = types.ModuleType('vfs_mod')
    m.value = 'victim'
    b = io.BytesIO()
    dill.dump_module(b, m)
    ctx.evil = b.getvalue()
    m.value = 'fresh'
    b = io.BytesIO()
    dill.dump_module(b, m)
    ctx.good = b.getvalue()
    dill.load_module(io.BytesIO(b.getvalue()))
    dill.load_module_asdict(io.BytesIO(b.getvalue()))


# ---- the tree

STATES = ['missing', 'file', 'private file', 'long file', 'hard link', 'link', 'dangling', 'link to link', 'link to dir', 'directory', 'no parent', 'linked parent', 'link to self', 'unreadable', 'relative link', 'link to null']
LINKS = {'link', 'dangling', 'link to link', 'link to dir', 'link to self', 'relative link', 'link to null'}


def plant(ctx, root, state):
    """-> target path"""
    os.makedirs(os.path.join(root, 'dir'))
    os.makedirs(os.path.join(root, 'else', 'where'))
    victim = os.path.join(root, 'else', 'victim')
    for p, data in ((victim, ctx.evil), (os.path.join(root, 'bystander'), b'bystander')):
        with open(p, 'wb') as f:
            f.write(data)
        os.chmod(p, 0o644)
    t = os.path.join(root, 'dir', 'session.pkl')
    put = lambda data, mode=0o644: (open(t, 'wb').write(data), os.chmod(t, mode))
    if state == 'file':
        put(ctx.good)
    elif state == 'private file':
        put(ctx.good, 0o600)
    elif state == 'long file':
        put(ctx.good + b'x' * 100000)
    elif state == 'unreadable':
        put(ctx.good, 0)
    elif state == 'hard link':
        put(ctx.good)
        os.link(t, os.path.join(root, 'dir', 'other name'))
    elif state == 'link':
        os.symlink(victim, t)
    elif state == 'relative link':
        os.symlink('../else/victim', t)
    elif state == 'link to null':
        os.symlink('/dev/null', t)
    elif state == 'dangling':
        os.symlink(os.path.join(root, 'else', 'not there'), t)
    elif state == 'link to link':
        os.symlink(victim, os.path.join(root, 'else', 'middle'))
        os.symlink(os.path.join(root, 'else', 'middle'), t)
    elif state == 'link to dir':
        os.symlink(os.path.join(root, 'else', 'where'), t)
    elif state == 'link to self':
        os.symlink('session.pkl', t)
    elif state == 'directory':
        os.mkdir(t)
    elif state == 'no parent':
        t = os.path.join(root, 'dir', 'nowhere', 'session.pkl')
    elif state == 'linked parent':
        os.symlink(os.path.join(root, 'dir'), os.path.join(root, 'way'))
        t = os.path.join(root, 'way', 'session.pkl')
    return t


def look(ctx, root):
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                v = ('link', os.readlink(p), st.st_ino)
            elif stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f:
                    v = ('file', st.st_mode, st.st_ino, f.read())
            else:
                v = ('dir', st.st_mode, st.st_ino)
            out[os.path.relpath(p, root)] = v
            ctx.count('tree_entries_compared')
    return out


def wipe(root):
    for base, dirs, files in os.walk(root, topdown=False):
        for n in files:
            os.unlink(os.path.join(base, n))
        for n in dirs:
            p = os.path.join(base, n)
            os.unlink(p) if os.path.islink(p) else os.rmdir(p)
    os.rmdir(root)


class PathLike:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


class Bad:
    def __reduce__(self):
        raise ValueError('not picklable')


def fds():
    return sorted(os.listdir('/proc/self/fd'))


def spell(r, t):
    k = r.choice(['str', 'str', 'Path', 'PathLike', 'relative', 'dotted', 'bytes'])
    return k, {'str': t, 'Path': pathlib.Path(t), 'PathLike': PathLike(t), 'relative': os.path.relpath(t), 'dotted': os.path.join(os.path.dirname(t), '.', os.path.basename(t)), 'bytes': os.fsencode(t)}[k]


def session_module(r, value='fresh', fail=False, size=None):
    m = types.ModuleType('vfs_mod')
    m.value = value
    m.data = [r.random() for i in range(size or r.choice([1, 10, 3000]))]
    if fail:
        m.zbad = Bad()
    return m


DUMPS = ['dump_module', 'dump_session']
LOADS = ['load_module', 'load_module_asdict', 'load_session']


def call(op, arg, m):
    if op == 'dump_module':
        return dill.dump_module(arg, m)
    if op == 'dump_session':
        return dill.dump_session(arg, main=m)
    if op == 'load_module':
        return dill.load_module(arg).__dict__
    if op == 'load_session':
        t = types.ModuleType('vfs_mod')
        dill.load_session(arg, main=t)
        return t.__dict__
    return dill.load_module_asdict(arg)


def run_case(ctx, case):
    r = ctx.rng(case['what'], case['i'])
    if case['what'] == 'nonofollow':
        return nonofollow(ctx, r)
    for k in range(10 if case['what'] == 'states' else 2):
        root = os.path.join(ctx.scratch, 'tree')
        os.mkdir(root)
        cwd = os.getcwd()
        try:
            if case['what'] == 'states':
                if r.random() < .15:
                    streams(ctx, r, root)
                else:
                    states(ctx, r, root)
            else:
                swaps(ctx, r, root)
        finally:
            os.umask(0o022)
            os.chdir(cwd)
            wipe(root)
            d = dill.session.SESSION_TEMPFILE
            if os.path.lexists(d):
                os.unlink(d)


def watched(path, fn):
    del EVENTS[:]
    WATCH[0] = path
    try:
        return fn()
    finally:
        WATCH[0] = None


def foreign_writes(path, root):
    """opened for writing, removed, renamed ... other than the path itself"""
    ok = {os.path.abspath(path), os.path.realpath(os.path.dirname(path)) + os.sep + os.path.basename(path)}
    out = []
    for ev, p, w in EVENTS:
        if w and not isinstance(p, int):
            q = os.path.abspath(os.fspath(p)) if p is not None else None
            if q not in ok or ev != 'open':
                out.append((ev, q))
    return out


def states(ctx, r, root):
    state = r.choice(STATES + ['missing'] * 5)
    t = plant(ctx, root, state)
    default = r.random() < .1
    if default:
        # the shared default path: the same rules, and a warning
        d = dill.session.SESSION_TEMPFILE
        if os.path.lexists(t) and state not in ('directory', 'no parent', 'linked parent', 'hard link', 'relative link', 'link to self'):
            os.rename(t, d)
        else:
            state = 'missing'
        t = d
    spelled, arg = ('default', None) if default else spell(r, t)
    op = r.choice(DUMPS * 2 + LOADS)
    fail = op in DUMPS and r.random() < .2
    mask = r.choice([0, 0o022, 0o002, 0o077, 0o007, 0o177, 0o070])
    m = session_module(r, fail=fail)
    what = '%s to %s given as %s, umask %o%s' % (op, state, spelled, mask, ', failing' if fail else '')
    os.path.relpath(t)
    before, open0 = look(ctx, root), fds()
    st0 = os.lstat(t) if os.path.lexists(t) else None
    os.umask(mask)
    res = err = None
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        try:
            res = watched(t, lambda: call(op, arg, m))
        except Exception as e:
            err = e
    os.umask(0o022)
    ctx.count('operations')
    ctx.nontrivial(op, state, spelled, mask, fail, type(err).__name__)
    warned = any(issubclass(w.category, dill.session.SecurityWarning) for w in caught)
    if warned != default:
        ctx.violation('default-warning', '%s: %s' % (what, 'no warning for the shared default path' if default else 'warned about an explicit path'))
    if err is not None:
        err.__traceback__ = None
    if fds() != open0:
        ctx.violation('open-file-left', '%s: file descriptors %s became %s' % (what, open0, fds()))
    w = foreign_writes(t, root)
    if w:
        ctx.violation('wrote-elsewhere', '%s: %s' % (what, w[:4]))
    after = look(ctx, root)
    rel = os.path.relpath(os.path.realpath(os.path.dirname(t)) + os.sep + os.path.basename(t), root) if not default else None
    other = 'dir/other name' if state == 'hard link' else None
    for n in sorted(set(before) | set(after)):
        if n in (rel, other) and op in DUMPS and state not in LINKS | {'directory', 'no parent'}:
            continue
        if before.get(n) != after.get(n):
            ctx.violation('tree-changed', '%s: %s was %s and is %s' % (what, n, str(before.get(n))[:80], str(after.get(n))[:80]))
    st1 = os.lstat(t) if os.path.lexists(t) else None
    if state in LINKS:
        if not isinstance(err, OSError):
            ctx.violation('link-followed', '%s: %s' % (what, 'the symbolic link was not refused' if err is None else repr(err)))
        else:
            ctx.count('link_refused')
        if st1 is None or not stat.S_ISLNK(st1.st_mode):
            ctx.violation('link-replaced', what)
        return
    if state in ('directory', 'no parent') or op in LOADS and st0 is None:
        if not isinstance(err, OSError):
            ctx.violation('not-reported', '%s: %r' % (what, err))
        return
    if op in LOADS:
        if st0.st_size and err is not None:
            ctx.violation('cannot-load', '%s: %r' % (what, err))
        elif res is not None and res.get('value') != 'fresh':
            ctx.violation('wrong-session', '%s: loaded %r' % (what, res.get('value')))
        return
    # dumps
    if fail:
        if not isinstance(err, ValueError):
            ctx.violation('not-reported', '%s: %r' % (what, err))
    elif err is not None:
        ctx.violation('cannot-dump', '%s: %r' % (what, err))
        return
    if st1 is None or not stat.S_ISREG(st1.st_mode):
        ctx.violation('no-file', what)
        return
    if st0 is None:
        if st1.st_mode & 0o077 or st1.st_uid != os.geteuid():
            ctx.violation('not-private', '%s: created with mode %o' % (what, st1.st_mode))
        else:
            ctx.count('created_private')
    elif st1.st_mode & 0o077 & ~st0.st_mode:
        ctx.violation('not-private', '%s: mode %o became %o' % (what, st0.st_mode, st1.st_mode))
    if not fail:
        got = call('load_module_asdict', t, None)
        if got['value'] != 'fresh' or got['data'] != m.data:
            ctx.violation('wrong-session', '%s: the file holds %r' % (what, got['value']))
        with open(t, 'rb') as f:
            data = f.read()
        b = io.BytesIO()
        dill.dump_module(b, m)
        if data != b.getvalue():
            ctx.violation('wrong-contents', '%s: the file is not what a stream gets (%d and %d bytes)' % (what, len(data), len(b.getvalue())))


class Writer:
    def __init__(self):
        self.b = []

    def write(self, x):
        self.b.append(bytes(x))
        return len(x)


def streams(ctx, r, root):
    """streams of the caller stay open, get the session where they are, and keep the rest"""
    m = session_module(r)
    ref = io.BytesIO()
    dill.dump_module(ref, m)
    data = ref.getvalue()
    p = os.path.join(root, 'stream')
    head, tail = b'H' * r.choice([0, 1, 5000]), b'T' * r.choice([0, 1, 50])
    with open(p, 'wb') as f:
        f.write(head + b'.' * len(data) + tail)
    kind = r.choice(['r+b', 'r+b raw', 'append', 'bytesio', 'writer', 'link', 'random'])
    before = None
    closer = lambda: None
    if kind in ('r+b', 'r+b raw', 'link', 'random'):
        q = p
        if kind == 'link':
            q = os.path.join(root, 'alink')     # a stream is the caller's business, however it was opened
            os.symlink(p, q)
        f = open(q, 'r+b', buffering=0 if kind == 'r+b raw' else -1)
        f.seek(len(head))
    elif kind == 'append':
        f = open(p, 'ab')
    elif kind == 'bytesio':
        f = io.BytesIO(head + b'.' * len(data) + tail)
        f.seek(len(head))
    else:
        f = Writer()
    ctx.count('operations')
    watched(p, lambda: dill.dump_module(f, m))
    ctx.nontrivial('stream', kind, len(head), len(tail))
    what = 'dump_module to a stream (%s)' % kind
    if any(w and ev != 'open' or w and not isinstance(q, int) for ev, q, w in EVENTS):
        ctx.violation('wrote-elsewhere', '%s: %s' % (what, EVENTS[:4]))
    if kind == 'writer':
        if b''.join(f.b) != data:
            ctx.violation('wrong-contents', what)
        return
    if f.closed:
        ctx.violation('stream-closed', what)
        return
    if kind == 'append':
        f.close()
        with open(p, 'rb') as g:
            if g.read() != head + b'.' * len(data) + tail + data:
                ctx.violation('wrong-contents', what)
        return
    if f.tell() != len(head) + len(data):
        ctx.violation('position', '%s: at %d instead of %d' % (what, f.tell(), len(head) + len(data)))
    f.seek(0)
    if f.read() != head + data + tail:
        ctx.violation('wrong-contents', '%s: bytes around the session changed' % what)
    # and read back from there
    f.seek(len(head))
    d = dill.load_module_asdict(f)
    if d['value'] != 'fresh' or f.closed or f.tell() != len(head) + len(data) or f.read() != tail:
        ctx.violation('position', '%s: after loading from it (%s)' % (what, 'closed' if f.closed else f.tell()))
    f.close()


def swaps(ctx, r, root):
    """the path turns into a link at each step of the call"""
    op = r.choice(DUMPS + LOADS)
    start = r.choice(['missing', 'file'] if op in DUMPS else ['file'])
    to = r.choice(['victim', 'victim', 'not there'])
    spelled, m = None, session_module(r, size=2)
    how = r.choice(['line', 'open'])
    sfile = os.path.realpath(dill.session.__file__)
    n = 0
    while n < 400:
        sub = os.path.join(root, 'n%d' % n)
        os.mkdir(sub)
        t = plant(ctx, sub, start)
        spelled, arg = spell(ctx.rng('spell', op, n), t)
        victim = os.path.join(sub, 'else', to)
        done = []

        def swap(where):
            if done:
                return
            left[0] -= 1
            if left[0] >= 0:
                return
            done.append(where)
            INJECT[0] = None
            if os.path.lexists(t):
                os.rename(t, os.path.join(sub, 'moved'))
            os.symlink(victim, t)
        left = [n]
        before = look(ctx, sub)

        def tracer(frame, event, x):
            if os.path.realpath(frame.f_code.co_filename) != sfile:
                return None
            if event == 'line':
                swap(frame.f_code.co_name)
            return tracer
        res = err = None
        if how == 'open':
            INJECT[0] = swap
        try:
            WATCH[0] = t
            if how == 'line':
                sys.settrace(tracer)
            res = call(op, arg, m)
        except Exception as e:
            err = e
        finally:
            sys.settrace(None)
            INJECT[0] = WATCH[0] = None
        ctx.count('operations')
        if not done:
            break
        ctx.count('swaps_done')
        what = '%s (%s, path given as %s), the path becomes a link to %s at step %d by %s in %s' % (op, start, spelled, to, n, how, done[0])
        ctx.nontrivial('swap', op, start, to, how, n, done[0], type(err).__name__)
        after = look(ctx, sub)
        for k in ('else/victim', 'else/not there', 'bystander'):
            if before.get(k) != after.get(k):
                ctx.violation('link-followed', '%s: %s was %s and is %s' % (what, k, str(before.get(k))[:60], str(after.get(k))[:60]))
        extra = set(after) - set(before) - {'dir/session.pkl', 'moved'}
        if extra:
            ctx.violation('tree-changed', '%s: new files %s' % (what, sorted(extra)))
        if after.get('dir/session.pkl', ('',))[0] != 'link':
            ctx.violation('link-replaced', '%s: the path is now a %s' % (what, after.get('dir/session.pkl', ('missing',))[0]))
        if op in LOADS and res is not None and res.get('value') != 'fresh':
            ctx.violation('link-followed', '%s: loaded %r through the link' % (what, res.get('value')))
        if err is not None and not isinstance(err, OSError):
            ctx.violation('wrong-error', '%s: %r' % (what, err))
        if op in DUMPS and err is None:
            moved = after.get('moved')
            if start == 'file' and not moved:
                ctx.violation('no-file', what)
        wipe(sub)
        n += 1 if n < 40 or not ctx.quick else 3
    else:
        n = 0


CODE = r'''
import os, sys, stat
if hasattr(os, 'O_NOFOLLOW'):
    del os.O_NOFOLLOW
import dill, types
root = sys.argv[1]
m = types.ModuleType('vfs_mod'); m.value = 'fresh'
link = os.path.join(root, 'link')
out = []
for op in (lambda: dill.dump_module(link, m), lambda: dill.load_module(link), lambda: dill.load_module_asdict(link)):
    try:
        op(); out.append('done')
    except OSError as e:
        out.append('refused')
os.umask(0)
new = os.path.join(root, 'new')
dill.dump_module(new, m)
out.append('%o' % stat.S_IMODE(os.lstat(new).st_mode))
out.append(dill.load_module_asdict(new)['value'])
dill.dump_module(new, m)
out.append(dill.load_module(new).value)
print('|'.join(out))
'''


def nonofollow(ctx, r):
    """a platform without O_NOFOLLOW still refuses links that are there"""
    root = os.path.join(ctx.scratch, 'plain')
    os.mkdir(root)
    victim = os.path.join(root, 'victim')
    with open(victim, 'wb') as f:
        f.write(ctx.evil)
    to = r.choice([victim, os.path.join(root, 'nothing')])
    os.symlink(to, os.path.join(root, 'link'))
    p = subprocess.run([core.PY, '-W', 'ignore', '-c', CODE, root], env=core.child_env(ctx.scratch), capture_output=True, text=True, timeout=120)
    got = p.stdout.strip().split('|')
    ctx.count('no_nofollow_runs')
    ctx.nontrivial('nonofollow', to == victim)
    with open(victim, 'rb') as f:
        if f.read() != ctx.evil or sorted(os.listdir(root)) != ['link', 'new', 'victim']:
            ctx.violation('link-followed', 'without O_NOFOLLOW: %s' % sorted(os.listdir(root)))
    want = ['refused', 'refused', 'refused', '600', 'fresh', 'fresh']
    if got != want:
        ctx.violation('without-nofollow', 'expected %s, got %s\n%s' % (want, got, p.stderr[-800:]))
    wipe(root)
