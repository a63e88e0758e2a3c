"""C14: loading a session touches only its target."""
import bz2, gzip, io, os, pathlib, pickle, sys, tempfile, types, warnings
import dill
from .. import fx, iso, ns

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('sessions of __main__, importable modules, submodules and module-type objects (odd names included) are offered to load_module_asdict, load_module and load_module(module=...) with every kind of right and '
        'wrong target, from every kind of stream at random positions with data after them, whole, truncated, failing at a read, failing inside an object, or not a session at all; a model of the documentation says '
        'whether the load succeeds or with which error it is refused; sys.modules and the namespaces of every module involved are compared by identity before and after; non-trivial = (saved kind, operation, target, stream, fault)')
ASSUMPTIONS = ['a stream with neither peek nor seek cannot be identified: with a target given it is loaded unchecked, without one it is refused',
               'a load that fails inside the target module may leave the target partly updated; nothing else']
FLOORS = {'loads': 12000, 'refused_as_expected': 1000, 'failed_by_fault': 1500, 'asdict_ok': 1500, 'load_ok': 2000, 'namespaces_compared': 60000}
KINDS = ['main', 'module', 'sub', 'runtime', 'runtime']
RUNNAMES = ['__main__', '__main__', 'vfr_plain', 'm\u00f6dul', 'json', 'math', 'vfx_other', 'with space', 'vfr_' + 'n' * 200, 'x']


def cases(ctx):
    for i in ctx.mine(960 if ctx.quick else 12000):
        yield {'i': i}


def setup(ctx):
    warnings.simplefilter('ignore')
    os.chdir(ctx.scratch)
    import importlib
    base = os.path.join(ctx.scratch, 'mods')
    os.makedirs(os.path.join(base, 'vfx_pkg'), exist_ok=True)
    for n in ('vfx_other.py', 'vfx_pkg/__init__.py', 'vfx_pkg/sub.py'):
        with open(os.path.join(base, n), 'w') as f:
            f.write('value = ["original"]\ndef fun(): return value\n')
    if base not in sys.path:
        sys.path.insert(0, base)
    for n in ('vfx_other', 'vfx_pkg', 'vfx_pkg.sub', 'json', 'gzip', 'bz2', 'math', 'collections', 'encodings.latin_1', 'encodings.ascii', 'encodings.raw_unicode_escape', 'pickletools'):
        importlib.import_module(n)
    d = types.ModuleType('warm')
    d.a = fx.Plain()
    b = io.BytesIO()
    dill.dump_module(b, d)
    dill.load_module_asdict(io.BytesIO(b.getvalue()))


class Bomb:
    """raises when it is loaded"""
    def __setstate__(self, s):
        raise fx_error()

    def __getstate__(self):
        return {'x': 1}


class LoadError(Exception):
    pass


def fx_error():
    return LoadError('refuses to load')


SRC = '''
import math, json as js
from collections import OrderedDict, Counter as C
from vf.fx import topfunc, Plain
value = ["saved", {1: 2}]
count = 0
def fun(): return value
def bump():
    global count
    count += 1
    return count
class K:
    shared = value
    def m(self): return value
inst = [K(), Plain()]
lam = lambda x: (x, count)
'''


def run_case(ctx, case):
    r = ctx.rng(case['i'])
    kind = KINDS[(case['i'] // 8) % len(KINDS)]
    sp = ns.Space(kind, ctx.scratch, 'y%d_' % ctx.shard)
    if kind == 'runtime':
        sp.name = r.choice(RUNNAMES)
    try:
        d = sp.run(SRC)
        if kind == 'main':
            d.pop('vf', None)
        module = sys.modules['__main__'] if kind == 'main' else sp.mod
        if r.random() < .4:
            d['me'], d['inner'] = module, {'m': [module], 'd': d}
        ref = r.random() < .5
        proto = r.choice([None, None, 2, 3, 4, 5])
        old = dict(dill.settings)
        good, bomb = io.BytesIO(), io.BytesIO()
        try:
            dill.settings['protocol'] = proto if proto is not None else old['protocol']
            for b in (good, bomb):
                if b is bomb:
                    d['bomb'] = Bomb()
                dill.dump_module(b, module, refimported=ref)
        finally:
            dill.settings.clear()
            dill.settings.update(old)
            d.pop('bomb', None)
        d['fresh'] = ['only in the live module']
        for k in range(24):
            try:
                trial(ctx, r, sp, kind, module, good.getvalue(), bomb.getvalue(), (ref, proto))
            finally:
                # whatever a load did, the next one starts from the same state
                if kind in ('module', 'sub'):
                    sys.modules[sp.name] = module
                    if kind == 'sub':
                        setattr(sys.modules[sp.pkg], 'sub', module)
    finally:
        sp.close()


# ---- streams

class Reader:
    """the least pickle asks for"""
    def __init__(self, data):
        self._b = io.BytesIO(data)

    def read(self, n=-1):
        return self._b.read(n)

    def readline(self):
        return self._b.readline()


class Seekable(Reader):
    def tell(self):
        return self._b.tell()

    def seek(self, *a):
        return self._b.seek(*a)


class Raw(io.RawIOBase):
    """an unseekable raw stream that gives a few bytes at a time"""
    def __init__(self, data, chunk):
        self._b, self.chunk = io.BytesIO(data), chunk

    def readable(self):
        return True

    def readinto(self, buf):
        got = self._b.read(min(len(buf), self.chunk))
        buf[:len(got)] = got
        return len(got)


class Failing(io.BytesIO):
    """fails at the n-th read"""
    def __init__(self, data, n):
        io.BytesIO.__init__(self, data)
        self.left = n

    def _tick(self):
        self.left -= 1
        if self.left < 0:
            raise OSError(5, 'injected')

    def read(self, *a):
        self._tick()
        return io.BytesIO.read(self, *a)

    def readline(self, *a):
        self._tick()
        return io.BytesIO.readline(self, *a)

    def readinto(self, b):
        self._tick()
        return io.BytesIO.readinto(self, b)


def stream(ctx, r, data):
    """(kind, source, check of what is left, cleanup)"""
    kind = r.choice(['path', 'pathlike', 'relative', 'bytesio', 'bytesio', 'offset', 'offset', 'file', 'raw', 'update', 'pipe', 'gzip', 'bz2', 'spooled', 'min', 'seekable', 'bufreader', 'random'])
    tail = r.choice([b'', b'tail', data, b'\x80\x04N.'])
    head = b'' if kind == 'bytesio' else r.choice([b'', b'#!head\n', bytes(5000), data])
    if kind in ('path', 'pathlike', 'relative'):
        p = os.path.join(ctx.scratch, 'c14.pkl')
        with open(p, 'wb') as f:
            f.write(data + tail)
        return kind, {'path': p, 'pathlike': pathlib.Path(p), 'relative': 'c14.pkl'}[kind], None, lambda: os.unlink(p)
    if kind in ('bytesio', 'offset'):
        b = io.BytesIO(head + data + tail)
        b.seek(len(head))
        return kind, b, lambda: b.read() == tail, lambda: None
    if kind in ('file', 'raw', 'update'):
        p = os.path.join(ctx.scratch, 'c14.pkl')
        with open(p, 'wb') as f:
            f.write(head + data + tail)
        f = open(p, 'r+b' if kind == 'update' else 'rb', buffering=0 if kind == 'raw' else -1)
        f.read(len(head)) if r.random() < .5 else f.seek(len(head))

        def done():
            f.close()
            os.unlink(p)
        return kind, f, lambda: f.read() == tail, done
    if kind == 'pipe':
        if len(head + data + tail) > 60000:
            head = tail = b''
        i, o = os.pipe()
        os.write(o, data + tail)
        os.close(o)
        f = open(i, 'rb')
        return kind, f, lambda: f.read() == tail, f.close
    if kind in ('gzip', 'bz2'):
        mod = {'gzip': gzip, 'bz2': bz2}[kind]
        b = mod.open(io.BytesIO(mod.compress(head + data + tail)), 'rb')
        b.read(len(head))
        return kind, b, lambda: b.read() == tail, b.close
    if kind == 'spooled':
        b = tempfile.SpooledTemporaryFile(max_size=r.choice([10, 10 ** 6]), dir=ctx.scratch)
        b.write(head + data + tail)
        b.seek(len(head))
        return kind, b, lambda: b.read() == tail, b.close
    if kind == 'min':
        b = Reader(data + tail)
        return kind, b, lambda: b.read() == tail, lambda: None
    if kind == 'seekable':
        b = Seekable(head + data + tail)
        b.seek(len(head))
        return kind, b, lambda: b.read() == tail, lambda: None
    if kind == 'bufreader':
        b = io.BufferedReader(Raw(data + tail, r.choice([300, 4096, 10 ** 6])), r.choice([4096, 8192]))
        return kind, b, lambda: b.read() == tail, lambda: None
    b = io.BufferedRandom(io.BytesIO(head + data + tail)) if False else io.BufferedReader(io.BytesIO(head + data + tail), r.choice([1, 16, 8192]))
    b.read(len(head))
    return kind, b, lambda: b.read() == tail, lambda: None


# ---- targets

def targets(r, sp, kind, module):
    """(label, argument, verdict): verdict is None for a good target, else the error the documentation gives"""
    other, opkg, osub = (sys.modules[n] for n in ('vfx_other', 'vfx_pkg', 'vfx_pkg.sub'))
    twin = types.ModuleType(sp.name)        # not imported, same name
    same = [('own', module, None)]
    if kind in ('module', 'sub'):
        same.append(('own name', sp.name, None))
    if kind == 'main':
        same.append(('own name', '__main__', None))
    if kind == 'runtime':
        same.append(('twin', twin, None))
    wrong = [('other', other, ValueError), ('other name', 'vfx_other', ValueError), ('package', opkg, ValueError), ('submodule', osub, ValueError), ('submodule name', 'vfx_pkg.sub', ValueError),
             ('other runtime', types.ModuleType('vfr_another'), ValueError), ('number', 7, TypeError), ('dict', {}, TypeError), ('class', type, TypeError)]
    if kind != 'main':
        wrong.append(('main', sys.modules['__main__'], ValueError))
    if kind != 'runtime':
        wrong.append(('twin', twin, ValueError))
    elif sp.name in sys.modules:
        wrong += [('imported namesake', sys.modules[sp.name], ValueError), ('name of the imported namesake', sp.name, ValueError)] * 2
    else:
        wrong.append(('name of no module', sp.name, ImportError))
    if kind == 'sub':
        wrong.append(('parent', sys.modules[sp.pkg], ValueError))
    return r.choice(same) if r.random() < .5 else r.choice(wrong)


class Snap:
    """identities of sys.modules and of the namespaces of everything that could be touched"""
    def __init__(self, *mods):
        self.modules = dict(sys.modules)
        self.spaces = {}
        for m in mods + tuple(sys.modules[n] for n in ('__main__', 'vfx_other', 'vfx_pkg', 'vfx_pkg.sub', 'json', 'math', 'collections', 'dill', 'dill._dill', 'dill.session', 'builtins', 'vf.fx')):
            if isinstance(m, types.ModuleType):
                self.spaces[id(m)] = (m, dict(m.__dict__))

    def changes(self, ctx, but=()):
        out = []
        for n in set(self.modules) | set(sys.modules):
            if self.modules.get(n) is not sys.modules.get(n) and n not in but:
                out.append('sys.modules[%r] %s' % (n, 'added' if n not in self.modules else 'removed' if n not in sys.modules else 'replaced'))
        if list(n for n in sys.modules if n in self.modules) != [n for n in self.modules if n in sys.modules]:
            pass        # the order of sys.modules is nobody's business
        for m, before in self.spaces.values():
            ctx.count('namespaces_compared')
            if m in but:
                continue
            now = m.__dict__
            diff = [n for n in set(now) | set(before) if now.get(n, self) is not before.get(n, self) and n != '__warningregistry__']
            if diff:
                out.append('namespace of %s: %s' % (m.__name__, sorted(map(str, diff))[:8]))
        return out

    def restore(self):
        for m, before in self.spaces.values():
            if any(m.__dict__.get(n, self) is not before.get(n, self) for n in set(m.__dict__) | set(before)):
                m.__dict__.clear()
                m.__dict__.update(before)
        for n in set(sys.modules) - set(self.modules):
            del sys.modules[n]
        sys.modules.update(self.modules)


def trial(ctx, r, sp, kind, module, good, bomb, opts):
    fault = r.choice([None] * 6 + ['cut', 'cut', 'read', 'bomb', 'notsession', 'empty'])
    data = good
    if fault == 'cut':
        data = good[:r.randrange(len(good))]
    elif fault == 'bomb':
        data = bomb
    elif fault == 'notsession':
        data = r.choice([dill.dumps([1, 2]), dill.dumps(SRC), b'not a pickle at all', pickle.dumps(sys.version), dill.dumps(lambda: 0), bytes(64), pickle.dumps('_import_module')])
    elif fault == 'empty':
        data = b''
    if fault == 'read':
        n = r.randrange(40) if r.random() < .5 else r.randrange(1200)
        src = Failing(data, n)
        skind, left, done = 'failing', None, lambda: None
    else:
        skind, src, left, done = stream(ctx, r, data)
    if fault in ('cut', 'empty', 'notsession'):
        left = None
        if skind not in ('path', 'pathlike', 'relative'):
            done()
            skind, src, left, done = 'bytesio', io.BytesIO(data), None, lambda: None
        else:
            with open('c14.pkl', 'wb') as f:
                f.write(data)
    op = r.choice(['asdict', 'asdict', 'default', 'target', 'target', 'target', 'legacy', 'update'])
    if kind == 'runtime' and op == 'update':
        op = 'asdict'
    label, arg, verdict = targets(r, sp, kind, module) if op in ('target', 'legacy') else ('', None, None)
    absent = kind in ('module', 'sub') and op in ('asdict', 'default', 'update') and r.random() < .3
    if absent:
        # nobody imported the module yet
        del sys.modules[sp.name]
        if kind == 'sub':
            delattr(sys.modules[sp.pkg], 'sub')
    what = '%s session %s (refimported, protocol %s), %s%s%s from %s%s' % (
        kind, ascii(sp.name)[:30], opts, op, ' into ' + label if label else '', ', module not imported' if absent else '', skind, ', fault %s' % fault if fault else '')
    snap = Snap(module, arg, *([sys.modules[sp.pkg]] if kind == 'sub' else []))
    ctx.count('loads')
    res = err = None
    try:
        if op in ('asdict', 'update'):
            res = dill.load_module_asdict(src, **({'update': True} if op == 'update' else {}))
        elif op == 'default':
            res = dill.load_module(src)
        elif op == 'target':
            res = dill.load_module(src, arg) if r.random() < .5 else dill.load_module(src, module=arg)
        else:
            res = dill.load_session(src, main=arg)
    except Exception as e:
        err = e
    ctx.nontrivial(kind, op, label, skind, fault, absent, opts, type(err).__name__)
    ok = fault is None
    unidentified = skind == 'min' and op in ('asdict', 'update', 'default')
    # --- what may differ
    but = set()
    if op in ('default', 'target', 'legacy') and (verdict is None or skind == 'min' and verdict is ValueError):
        but.add(module if op == 'default' or isinstance(arg, str) else arg)
        if absent:
            but.add(sp.name)
            but |= {sys.modules.get(sp.name), sys.modules.get(getattr(sp, 'pkg', None))}
    if op == 'update' and absent:
        but.add(sp.name)        # documented: update imports the module
        but.add(sys.modules.get(getattr(sp, 'pkg', None)))
    but.discard(None)
    if skind == 'min' and verdict is not None:
        but |= {module, arg} if isinstance(arg, types.ModuleType) else {module}     # unidentifiable stream
        but |= {sys.modules.get('vfx_other'), sys.modules.get('vfx_pkg.sub')}
    changes = snap.changes(ctx, but)
    if changes:
        ctx.violation('touched:%s:%s' % (op if op not in ('target', 'legacy') else 'load', 'failed' if err is not None else 'loaded'), '%s: %s\n%s' % (what, '\n'.join(changes[:6]), err and repr(err)))
    if op in ('asdict', 'update') and any(n.startswith('__runtime__') for n in sys.modules):
        ctx.violation('stray', what)
    # --- verdict
    if verdict is not None and ok and skind != 'min':
        if err is None:
            ctx.violation('not-refused', '%s: the load succeeded (returned %r)' % (what, res))
        elif not isinstance(err, verdict):
            ctx.violation('wrong-error', '%s: expected %s, got %r' % (what, verdict.__name__, err))
        else:
            ctx.count('refused_as_expected')
    elif verdict is None and ok and not unidentified:
        if err is not None:
            ctx.violation('cannot-load', '%s: %s: %s' % (what, type(err).__name__, err))
        else:
            examine(ctx, what, op, kind, sp, module, arg, res, src, skind)
            if left is not None and not left():
                ctx.violation('position', '%s: the stream is not positioned after the session' % what)
    elif ok and unidentified:
        if not isinstance(err, dill.UnpicklingError):
            ctx.violation('wrong-error', '%s: a stream that cannot be identified gave %r' % (what, err if err is not None else res))
    elif fault == 'bomb' and verdict is None and not unidentified and not (isinstance(err, LoadError) and 'refuses' in str(err)):
        ctx.violation('fault-hidden', '%s: gave %r' % (what, err if err is not None else res))
    elif fault in ('cut', 'empty', 'notsession') and err is None:
        ctx.violation('loaded-nonsense', '%s: returned %r' % (what, res))
    if fault is not None and err is not None:
        ctx.count('failed_by_fault')
    if fault == 'read' and err is None and src.left < 0:
        ctx.violation('fault-hidden', '%s: a read failed and the load reported success' % what)
    if hasattr(src, 'read') and getattr(src, 'closed', False):
        ctx.violation('stream-closed', what)
    snap.restore()
    done()


def examine(ctx, what, op, kind, sp, module, arg, res, src, skind):
    if op in ('asdict', 'update'):
        ctx.count('asdict_ok')
        if type(res) is not dict or res is module.__dict__ or res.get('__session__') != str(src) or res.get('__name__') != sp.name:
            ctx.violation('asdict-result', '%s: %s' % (what, {k: res.get(k) for k in ('__session__', '__name__')} if type(res) is dict else type(res)))
            return
        d = res
        if ('fresh' in d) != (op == 'update' and module.__name__ in sys.modules and sys.modules[module.__name__] is module):
            ctx.violation('asdict-result', '%s: %s' % (what, 'has a name of the live module' if 'fresh' in d else 'update lacks a name of the live module'))
        if d['value'] is module.__dict__['value'] or d['value'] != ['saved', {1: 2}]:
            ctx.violation('asdict-result', '%s: value %r' % (what, d['value']))
        if kind != 'runtime':
            # its functions work on the dictionary, not on the live module
            before = module.__dict__['count']
            if d['bump']() != before + 1 and d['bump']() is None or module.__dict__['count'] != before:
                ctx.violation('asdict-alive', '%s: a function of the dictionary writes to the live module' % what)
        if 'me' in d and (d['me'].__dict__ is not d or d['inner']['m'][0].__dict__ is not d or d['inner']['d'] is not d):
            ctx.violation('asdict-alive', '%s: self references lead to the live module' % what)
        return
    ctx.count('load_ok')
    if op == 'default':
        target = res if kind == 'runtime' else sys.modules.get(sp.name) if kind != 'main' else module
    else:
        target = module if isinstance(arg, str) else arg
    want = None if kind == 'main' or op == 'legacy' or isinstance(arg, types.ModuleType) else target
    if res is not want or not isinstance(target, types.ModuleType):
        ctx.violation('wrong-module', '%s: returned %r' % (what, res))
        return
    if kind == 'runtime' and op == 'default' and (res is module or res.__name__ != sp.name):
        ctx.violation('wrong-module', '%s: returned %r' % (what, res))
        return
    d = target.__dict__
    if d.get('value') != ['saved', {1: 2}] or 'K' not in d or [type(x).__name__ for x in d['inst']] != ['K', 'Plain']:
        ctx.violation('wrong-module', '%s: the target does not have the saved variables' % what)
    if target is module and 'fresh' not in d:
        ctx.violation('lost-name', what)
