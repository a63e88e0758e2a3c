"""C12: file handles are restored as their mode and fmode say."""
import gc, io, os, random, shutil, sys, warnings
import dill
from .. import fx

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 500}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('seeded combinations of open mode (17), buffering, text/binary content, position, open/closed, fmode, how fmode is given, what happened to the file before loading (10 kinds) and where the handle '
        'sits in the pickled object; a reference model predicts error or (file content, position, temporary), and the loaded handle is compared with a handle opened on a twin file by reading or writing through both; '
        'non-trivial = (mode, fmode, event, closed, action, outcome)')
ASSUMPTIONS = ['encoding, newline handling and buffering are not stored (documented in the code), so they are the defaults', 'of handles without a name (TemporaryFile, fdopen) the copy is a temporary file of its own: with the contents for FILE_FMODE, else empty',
               'x mode is covered for CONTENTS_FMODE and for closed names that are free']
FLOORS = {'loads': 10000, 'content_checks': 10000, 'actions': 8000, 'errors_expected': 400, 'strict_errors': 600, 'std_streams': 30, 'unnamed': 1500}

MODES = ['r', 'rb', 'w', 'wb', 'a', 'ab', 'r+', 'r+b', 'w+', 'w+b', 'a+', 'a+b', 'x', 'xb', 'x+', 'x+b', 'rt']
EVENTS = ['same', 'same', 'same', 'shrank', 'grew', 'gone', 'empty', 'other', 'dir', 'nodir', 'link']


def cases(ctx):
    for i in ctx.mine(24000 if ctx.quick else 300000):
        yield {'i': i}
    for i in ctx.mine(1600 if ctx.quick else 6400):
        yield {'s': i}
    for i in ctx.mine(4000 if ctx.quick else 30000):
        yield {'u': i}
    for i in ctx.mine(24):
        yield {'std': i}


def setup(ctx):
    warnings.simplefilter('ignore')
    ctx.dir = os.path.join(ctx.scratch, 'files')
    os.makedirs(ctx.dir)
    os.chdir(ctx.scratch)


def content(r):
    k = r.randrange(6)
    if k == 0: return b''
    if k == 1: return ''.join(r.choice('abc \n\u00e9\u4e2d') for _ in range(r.randrange(1, 40))).encode()
    if k == 2: return b'line one\r\nline two\rline three\n' * r.randrange(1, 3)
    if k == 3: return b'x' * r.choice([8191, 8192, 8193, 20000])
    if k == 4: return '\ufeffabc\n'.encode() + b'\x00\x1a'
    return bytes(r.choice(b'abcdefgh\n') for _ in range(r.randrange(1, 300)))


def model(fmode, mode, closed, pos, then, now):
    """-> (content of the named file or None, position, is a temporary)"""
    if fmode == dill.FILE_FMODE:
        return then, len(then) if 'a' in mode and closed else pos, False
    if 'r' in mode:
        if now is None:
            return None, 0, True
        return now, 0 if fmode == dill.HANDLE_FMODE else min(pos, len(now)), False
    base = now or b''
    if 'w' in mode or 'x' in mode:
        if fmode == dill.HANDLE_FMODE:
            return b'', 0, False
        return base, min(pos, len(base)), False
    return base, len(base) if fmode == dill.HANDLE_FMODE else min(pos, len(base)), False


def read(path):
    with io.FileIO(path) as f:
        return f.readall()


def write(path, data):
    with io.FileIO(path, 'w') as f:
        f.write(data)


def fds():
    return len(os.listdir('/proc/self/fd'))


def run_case(ctx, case):
    if 's' in case:
        return strict(ctx, case)
    if 'std' in case:
        return std(ctx, case)
    if 'u' in case:
        return unnamed(ctx, case)
    r = ctx.rng('case', case['i'])
    mode = r.choice(MODES)
    fmode = r.choice([0, 1, 2])
    if 'x' in mode:
        fmode = 1
    d = os.path.join(ctx.dir, 'c%d' % case['i'])
    os.makedirs(os.path.join(d, 'sub'))
    try:
        one(ctx, case, r, mode, fmode, d)
    finally:
        gc.collect(0)
        shutil.rmtree(d, ignore_errors=True)


def one(ctx, case, r, mode, fmode, d):
    relative = r.random() < .2
    path = os.path.join(d, 'sub', r.choice(['f', 'na me.txt', '\u00e9.bin', '<fdopen>', '<stdin>x']))
    if relative:
        path = os.path.relpath(path)
    init = content(r)
    text = 'b' not in mode
    if text:
        try:
            init.decode()
        except UnicodeDecodeError:
            init = b'ascii\n'
    if 'x' not in mode and (r.random() < .8 or 'r' in mode):
        write(path, init)
    buf = r.choice([-1, -1, -1, 16, 0]) if not text else -1
    f = open(path, mode, buffering=buf)
    acts = []
    if f.readable() and r.random() < .7:
        acts.append('read')
        f.seek(0)
        try:
            f.read(r.choice([0, 1, 3, 10, 8192, -1]))
        except UnicodeDecodeError:
            f.seek(0)
    if f.writable() and r.random() < .7:
        acts.append('write')
        if '+' in mode:
            f.seek(0, r.choice([0, 2]))
        x = r.choice(['hello', 'two\nlines\n', '', 'z' * 9000, '\u00e9\u00e9'])
        f.write(x if text else x.encode())
    if not text and r.random() < .2 and 'a' not in mode:
        f.seek(r.choice([0, 1, 5]))
        acts.append('seek')
    closed = r.random() < .25
    if closed:
        f.close()
    if not closed and 'a' in mode:
        f.flush()
    pos = 0 if closed else f.tell()
    if not closed and pos > 1 << 40:
        f.seek(0, 2)        # an opaque position inside of a line ending
        pos = f.tell()
    what = '%s(%r) buffering %d acts %s closed %s pos %d fmode %d' % (type(f).__name__, mode, buf, acts, closed, pos, fmode)
    if pos > 0 and not closed:
        f.flush()
        if pos > os.path.getsize(path):
            f.seek(0)
            pos = 0
    how = r.randrange(4)
    shape = r.randrange(5)
    obj = {0: f, 1: [f, f], 2: {'k': (f, [f])}, 3: fx.Plain(f=f, g=[f]), 4: f}[shape]
    kw = r.choice([{}, {}, {'recurse': True}, {'protocol': r.choice([0, 1, 2, 3, 4, 5])}])
    mode_, name_ = f.mode, f.name
    n0 = fds()
    listing = sorted(os.listdir(os.path.join(d, 'sub')))
    try:
        if how == 0:
            old = dict(dill.settings)
            dill.settings['fmode'] = fmode
            try:
                s = dill.dumps(obj, **kw)
            finally:
                dill.settings.clear()
                dill.settings.update(old)
        elif how == 1:
            b = io.BytesIO()
            dill.Pickler(b, kw.get('protocol'), fmode=fmode).dump(obj)
            s = b.getvalue()
        else:
            s = dill.dumps(obj, fmode=fmode, **kw)
    except Exception as e:
        ctx.violation('refused', '%s: %s: %s' % (what, type(e).__name__, e))
        f.close()
        return
    # the handle itself is as before, apart from its buffer being written out
    if f.closed != closed or not closed and f.tell() != pos or (f.mode, f.name) != (mode_, name_):
        ctx.violation('dump-changed-handle', '%s: now %r at %r' % (what, f, None if f.closed else f.tell()))
    if fds() != n0 or sorted(os.listdir(os.path.join(d, 'sub'))) != listing:
        ctx.violation('dump-left-behind', '%s: descriptors %d -> %d, files %s -> %s' % (what, n0, fds(), listing, os.listdir(os.path.join(d, 'sub'))))
    then = read(path)
    # what happens in between
    ev = r.choice(EVENTS)
    if ev != 'same' or r.random() < .5:
        if not closed:
            f.close()
    now = then
    if ev == 'shrank': now = then[:len(then) // 2]
    elif ev == 'grew': now = then + b'more and more\n' * 3
    elif ev == 'empty': now = b''
    elif ev == 'other': now = bytes(r.choice(b'OTHER\n') for _ in range(len(then)))
    if ev in ('shrank', 'grew', 'empty', 'other'):
        write(path, now)
    elif ev == 'gone':
        os.unlink(path)
        now = None
    elif ev == 'dir':
        os.unlink(path)
        os.mkdir(path)
    elif ev == 'nodir':
        os.unlink(path)
        os.rmdir(os.path.join(d, 'sub'))
        now = None
    elif ev == 'link':
        write(os.path.join(d, 'target'), now)
        os.unlink(path)
        os.symlink('../target', path)
    what += ' then %s, %d bytes now %s' % (ev, len(then), None if now is None else len(now))
    case['what'] = what
    # a duplicate of the named file for the reference handle
    error = ev == 'dir' or ev == 'nodir' and (fmode == 2 or mode_[0] not in 'r')
    n1 = fds()
    try:
        c = dill.loads(s)
    except dill.UnpicklingError as e:
        if not error:
            ctx.violation('unloadable', '%s: %s' % (what, e))
        ctx.count('errors_expected')
        ctx.nontrivial(mode, fmode, ev, closed, 'error')
        e = None
        gc.collect(0)
        if fds() != n1:
            ctx.violation('descriptor-leak', '%s: a failed load leaves %d descriptors open' % (what, fds() - n1))
        return
    except Exception as e:
        ctx.violation('load-error', '%s: %s: %s' % (what, type(e).__name__, e))
        return
    ctx.count('loads')
    if shape in (1, 2, 3):
        g, h = {1: lambda: c, 2: lambda: (c['k'][0], c['k'][1][0]), 3: lambda: (c.f, c.g[0])}[shape]()
        if g is not h:
            ctx.violation('sharing', '%s: one handle became two' % what)
    else:
        g = c
    if error:
        ctx.violation('no-error', '%s: expected an error, got %r' % (what, g))
        return
    want, wpos, temp = model(fmode, mode_, closed, pos, then, now)
    if g.closed != closed:
        ctx.violation('closed', '%s: copy closed is %s' % (what, g.closed))
        return
    if not temp and (g.name != name_ or g.mode != mode_):
        ctx.violation('name-or-mode', '%s: name %r mode %r became %r %r' % (what, name_, mode_, g.name, g.mode))
    if temp and (g.readable(), g.writable()) != ('r' in mode_ or '+' in mode_, '+' in mode_) if not closed else False:
        ctx.violation('name-or-mode', '%s: the temporary file is %r' % (what, g.mode))
    if isinstance(f, io.TextIOBase) != isinstance(g, io.TextIOBase):
        ctx.violation('kind', '%s: %r became %r' % (what, f, g))
    if not closed and g.tell() != wpos:
        ctx.violation('position', '%s: position %d, expected %d' % (what, g.tell(), wpos))
        return
    ctx.count('content_checks')
    out = ['temp' if temp else 'file', wpos == pos]
    here = sorted(os.listdir(os.path.dirname(path))) if ev != 'nodir' else None
    if here is not None and here != ([] if temp else [os.path.basename(path)]):
        ctx.violation('stray-file', '%s: the directory has %s' % (what, here))
    if not closed:
        g.flush() if g.writable() else None
    if not temp:
        got = read(path)
        if got != want:
            ctx.violation('content', '%s: the file has %r, expected %r' % (what, got[:200], want[:200]))
            return
    if not closed:
        # act through the copy and through a reference handle on a twin file
        twin = os.path.join(d, 'twin')
        write(twin, b'' if temp else want)
        act = r.choice(['read', 'write', 'write', 'readwrite', 'lines'])
        m = mode_
        if 'w' in m or 'x' in m:
            m = 'r+b' if 'b' in m else 'r+'
        ref = open(twin, m)
        if 'a' not in m or fmode:
            ref.seek(wpos)
        o = []
        for x in (g, ref):
            o.append(use(x, act, 'b' in m, ('w' in mode_ or 'x' in mode_) and '+' not in mode_))
        ctx.count('actions')
        if o[0] != o[1]:
            ctx.violation('behaves-differently', '%s: %s gives %.300r, expected %.300r' % (what, act, o[0], o[1]))
        elif not temp and read(path) != read(twin):
            ctx.violation('behaves-differently', '%s: after %s the file has %r, expected %r' % (what, act, read(path)[:200], read(twin)[:200]))
        out.append(act)
    g.close()
    c = g = h = None
    f.close()
    if fds() > n1:
        ctx.violation('descriptor-leak', '%s: %d descriptors stay open' % (what, fds() - n1))
    ctx.nontrivial(mode, fmode, ev, closed, out)
    ctx.sample({'case': what, 'outcome': out})


def use(f, act, binary, noread):
    out = []
    for step in {'read': ['read'], 'write': ['write'], 'readwrite': ['read', 'write', 'read'], 'lines': ['line', 'line']}[act]:
        try:
            if step == 'read':
                if noread: raise io.UnsupportedOperation
                out.append(f.read())
            elif step == 'line':
                if noread: raise io.UnsupportedOperation
                out.append(f.readline())
            else:
                out.append(f.write(b'W\nX' if binary else 'W\nX'))
                f.flush()
            out.append(f.tell())
        except (OSError, ValueError) as e:
            out.append(type(e).__name__ if not isinstance(e, io.UnsupportedOperation) else 'unsupported')
    try:
        f.close()
    except OSError as e:
        out.append(repr(e))
    return out


def strict(ctx, case):
    """the constructor named in pickles, with strictio on"""
    r = ctx.rng('s', case['s'])
    mode = r.choice(MODES)
    fmode = r.choice([0, 1, 2])
    path = os.path.join(ctx.dir, 's%d' % case['s'])
    now = r.choice([None, b'', b'abc', b'abcdef\n'])
    pos = r.randrange(10)
    closed = r.random() < .2
    if now is not None:
        write(path, now)
    want = FileNotFoundError if now is None else ValueError if pos > len(now) else None
    what = 'strictio %r fmode %d position %d file %r' % (mode, fmode, pos, now)
    case['what'] = what
    try:
        f = dill._dill._create_filehandle(path, mode, pos, closed, open, True, fmode, b'0123456789')
    except Exception as e:
        if want is None:
            if not ('x' in mode and fmode != 1 and isinstance(e, (OSError, dill.UnpicklingError))):
                ctx.violation('strict-error', '%s: %s: %s' % (what, type(e).__name__, e))
        elif not isinstance(e, want):
            ctx.violation('strict-error', '%s: %s: %s instead of %s' % (what, type(e).__name__, e, want.__name__))
        else:
            ctx.count('strict_errors')
            if (read(path) if os.path.exists(path) else None) != now:
                ctx.violation('strict-damage', '%s: the file changed although loading was refused' % what)
    else:
        f.close()
        if want is not None:
            ctx.violation('strict-error', '%s: no error' % what)
    if os.path.exists(path):
        os.unlink(path)
    ctx.nontrivial('strict', mode, fmode, pos, now)


def unnamed(ctx, case):
    """handles known by their descriptor only: the copy must be independent of it"""
    import tempfile
    r = ctx.rng('u', case['u'])
    fmode = r.choice([0, 1, 2])
    how = r.choice(['temporary', 'temporary', 'fdopen', 'open-int', 'pipe', 'raw'])
    path = os.path.join(ctx.dir, 'u%d' % case['u'])
    init = content(r)
    if how == 'temporary':
        mode = r.choice(['w+b', 'w+', 'r+b', 'a+b', 'w+t'])
    else:
        mode = r.choice(['r', 'rb', 'r+b', 'r+', 'w', 'wb', 'w+b', 'a', 'ab'])
    text = 'b' not in mode
    if text:
        try:
            init.decode()
        except UnicodeDecodeError:
            init = b'ascii\n'
    other = None
    if how == 'temporary':
        f = tempfile.TemporaryFile(mode)
    elif how == 'pipe':
        a, b = os.pipe()
        mode = r.choice(['rb', 'wb'])
        f = open(a if mode == 'rb' else b, mode)
        other = b if mode == 'rb' else a
    else:
        write(path, init)
        fd = os.open(path, os.O_RDWR | (os.O_APPEND if 'a' in mode else 0) | (os.O_TRUNC if 'w' in mode else 0))
        f = os.fdopen(fd, mode) if how == 'fdopen' else open(fd, mode) if how == 'open-int' or text else io.FileIO(fd, mode)
    pos = 0
    if how == 'temporary' or how != 'pipe' and f.writable():
        if how == 'temporary' or r.random() < .5:
            f.write(init.decode() if text else init)
    if how != 'pipe':
        f.flush()
        if r.random() < .6 and 'a' not in mode and not text:
            f.seek(r.choice([0, 1, 5]))
        pos = f.tell()
        size = os.fstat(f.fileno()).st_size
        if pos > size:
            f.seek(0)
            pos = 0
    closed = r.random() < .15
    there = b''
    if how != 'pipe':
        there = os.pread(f.fileno(), 1 << 20, 0) if f.readable() or how != 'temporary' else b''
    if closed:
        f.close()
    what = 'unnamed %s(%r) %s, fmode %d, position %s of %d bytes, closed %s' % (type(f).__name__, mode, how, fmode, pos, len(there), closed)
    case['what'] = what
    named = getattr(f, 'name', None)
    n0 = fds()
    obj = r.choice([f, [f, f], {'k': f}])
    pick = lambda c: c[0] if isinstance(c, list) else c['k'] if isinstance(c, dict) else c
    ctx.count('unnamed')
    try:
        s = dill.dumps(obj, r.choice([None, 0, 2, 4, 5]), fmode=fmode)
        g = pick(dill.loads(s))
    except Exception as e:
        ctx.nontrivial('unnamed', how, mode, fmode, closed, type(e).__name__)
        if how == 'pipe' or how == 'raw':
            ctx.count('unnamed_refused')       # no position to restore, or no handler for raw files
        else:
            ctx.violation('unnamed-refused', '%s: %s: %s' % (what, type(e).__name__, e))
        g = None
    if g is not None:
        if type(g) is not type(f) and not (how == 'temporary'):
            if isinstance(g, io.TextIOBase) != isinstance(f, io.TextIOBase):
                ctx.violation('kind', '%s: became %r' % (what, g))
        if g.closed != closed:
            ctx.violation('closed', '%s: copy closed is %s' % (what, g.closed))
        elif not closed:
            if g.fileno() == f.fileno():
                ctx.violation('unnamed-shared', '%s: the copy has the descriptor of the original' % what)
            st, so = os.fstat(g.fileno()), os.fstat(f.fileno())
            if (st.st_dev, st.st_ino) == (so.st_dev, so.st_ino):
                ctx.violation('unnamed-shared', '%s: the copy is of the same file' % what)
            if f.readable() and not g.readable() or f.writable() and not g.writable() and fmode == 2:
                ctx.violation('unnamed-mode', '%s: the copy is %r' % (what, g))
            if how != 'pipe':
                g.flush() if g.writable() else None
                got = os.pread(g.fileno(), 1 << 20, 0) if g.readable() else None
                want = there if fmode == 2 else b''
                if got is not None and got != want:
                    ctx.violation('unnamed-content', '%s: the copy has %r, expected %r' % (what, got[:100], want[:100]))
                wpos = pos if fmode == 2 else 0
                if g.tell() != wpos:
                    ctx.violation('position', '%s: the copy is at %s, expected %s' % (what, g.tell(), wpos))
                # what is done with the copy does not reach the original
                if g.writable():
                    g.seek(0)
                    g.write('COPY' if isinstance(g, io.TextIOBase) else b'COPY')
                    g.flush()
        if how != 'pipe':
            g.close()
    g = None
    gc.collect(0)
    if fds() != n0:
        ctx.violation('descriptor-leak', '%s: %d descriptors became %d' % (what, n0, fds()))
    if f.closed != closed or getattr(f, 'name', None) != named:
        ctx.violation('dump-changed-handle', '%s: now %r' % (what, f))
    elif not closed:
        try:
            os.fstat(f.fileno())
        except OSError as e:
            ctx.violation('unnamed-closed', '%s: the descriptor of the original is gone: %s' % (what, e))
            f = None
        else:
            if how != 'pipe':
                if f.tell() != pos:
                    ctx.violation('dump-changed-handle', '%s: now at %s' % (what, f.tell()))
                now = os.pread(f.fileno(), 1 << 20, 0)
                if now != there:
                    ctx.violation('dump-changed-handle', '%s: the original now has %r' % (what, now[:100]))
    if f is not None and not f.closed:
        f.close()
    if other is not None:
        os.close(other)
    if os.path.exists(path):
        os.unlink(path)
    # with strictio, a handle without a file is an error
    if case['u'] % 16 == 0:
        try:
            h = dill._dill._create_filehandle(r.randrange(3, 40), 'rb', 0, False, open, True, fmode, b'')
        except FileNotFoundError:
            ctx.count('unnamed_strict')
        except Exception as e:
            ctx.violation('strict-error', 'unnamed handle with strictio: %s: %s' % (type(e).__name__, e))
        else:
            ctx.violation('strict-error', 'unnamed handle with strictio: %r' % h)
    ctx.nontrivial('unnamed', how, mode, fmode, closed)


def std(ctx, case):
    r = ctx.rng('std', case['std'])
    for fmode in (0, 1, 2):
        for n in ('stdin', 'stdout', 'stderr'):
            f = getattr(sys, '__%s__' % n)
            ctx.count('std_streams')
            try:
                c = dill.loads(dill.dumps([f], r.choice([2, 3, 4, 5]), fmode=fmode))[0]
            except Exception as e:
                ctx.violation('std-stream', 'fmode %d %s: %s: %s' % (fmode, n, type(e).__name__, e))
                continue
            if c is not f or f.closed:
                ctx.violation('std-stream', 'fmode %d: %s became %r' % (fmode, n, c))
            ctx.nontrivial('std', n, fmode)
