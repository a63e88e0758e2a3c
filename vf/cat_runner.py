"""Interpreter of C29: one history of load_types calls; argv: job (json), result (json).

The job: {'block': modules that cannot be imported, 'calls': [[kind, ...], ...], 'dump': protocol or None}.
"""
import json, os, sys

with open(sys.argv[1]) as f:
    JOB = json.load(f)
for m in JOB['block']:
    sys.modules[m] = None
import io, weakref, warnings
out, sys.stdout = sys.stdout, io.StringIO()
import dill
res = {'problems': [], 'log': [], 'entries': 0, 'pickled': 0, 'bytes': {}}
P = res['problems'].append


def qual(t):
    return '%s.%s' % (t.__module__, t.__qualname__)


import tempfile
TMP = tempfile.gettempdir()
before_tmp = set(os.listdir(TMP))
settings = dict(dill.settings)
dispatch = set(dill.Pickler.dispatch)
TYPES0 = dict(vars(dill.types))
if dill.objects:
    P('objects is not empty before load_types: %s' % list(dill.objects)[:5])
first, cat, extra, seen = True, None, {}, {}
tid = id(dill.types)
for call in JOB['calls']:
    kind = call[0]
    if kind == 'load':
        args, kw = call[1], call[2]
        r = dill.load_types(*args, **kw)
        p = args[0] if args else kw.get('pickleable', True)
        u = args[1] if len(args) > 1 else kw.get('unpickleable', True)
        if r is not None:
            P('load_types returned %r' % (r,))
        from dill import _objects as o
        if cat is None:
            cat = {k: dict(getattr(o, k)) for k in ('succeeds', 'failures', 'registered')}
            names = set(cat['succeeds']) | set(cat['failures'])
            if not set(cat['registered']) <= names:
                P('registered but neither picklable nor not: %s' % sorted(set(cat['registered']) - names))
        for k in cat:
            now = getattr(o, k)
            if set(now) != set(cat[k]) or any(now[n] is not v for n, v in cat[k].items()):
                P('the catalogue itself changed: %s' % sorted(set(now) ^ set(cat[k]))[:5])
        extra = {n: v for n, v in extra.items() if n not in names}      # what the catalogue names is put back
        want = set(extra) | set(cat['registered'])
        if p: want |= set(cat['succeeds'])
        if u: want |= set(cat['failures'])
        have = dict(dill.objects)
        if set(have) != want:
            P('%s: missing %s, there without being asked for %s' % (call, sorted(want - set(have))[:6], sorted(set(have) - want)[:6]))
        for n, v in have.items():
            ok = [extra[n]] if n in extra else [cat[k][n] for k, yes in (('succeeds', p), ('failures', u), ('registered', 1)) if yes and n in cat[k]]
            if not any(v is x for x in ok):
                P('%s: %s is another object' % (call, n))
        T = vars(dill.types)
        for n, v in have.items():
            if T.get(n) is not type(v):
                P('%s: dill.types.%s is %r, the object is %r' % (call, n, T.get(n), type(v)))
        for n in set(T) - set(have):
            if n in names or n.endswith('Type'):
                P('%s: dill.types still has %s' % (call, n))
            elif n not in TYPES0:
                P('%s: dill.types got %s' % (call, n))
        for n in TYPES0:
            if n not in T:
                P('%s: dill.types lost %s' % (call, n))
        if sys.modules.get('dill.objtypes') is not dill.types or id(dill.types) != tid:
            P('dill.types is another module')
        import types as std
        for n, v in have.items():
            res['entries'] += 1
            if n not in extra:
                if seen.setdefault(n, qual(type(v))) != qual(type(v)) and not (n in cat['succeeds'] and n in cat['failures']):
                    P('%s was %s and is %s' % (n, seen[n], qual(type(v))))
                s = getattr(std, n, None)
                if isinstance(s, type) and type(v) is not s:
                    P('%s is an instance of %s' % (n, qual(type(v))))
    elif kind == 'add':
        n, v = call[1], [call[1]]
        dill.objects[n] = v
        extra[n] = v
    elif kind == 'del':
        n = call[1]
        dill.objects.pop(n, None)
        extra.pop(n, None)
    elif kind == 'types':
        for n in list(vars(dill.types)):
            if n.endswith('Type') and hash(n) % 3 == 0:
                delattr(dill.types, n)
    elif kind == 'pickle' and cat:
        warnings.simplefilter('ignore')
        for n in sorted(cat['succeeds']):
            v = cat['succeeds'][n]
            try:
                s = dill.dumps(v, call[1], **call[2])
                c = dill.loads(s)
            except Exception as e:
                P('%s, filed as picklable, does not pickle with protocol %s %s: %r' % (n, call[1], call[2], e))
                continue
            res['pickled'] += 1
            res['bytes'][n] = s.hex()
            a, b = qual(type(v)), qual(type(c))
            if a != b and not (b == 'builtins.list_iterator' and 'iterator' in a) and n not in ('FileType', 'ClosedFileType'):
                P('%s pickles as %s, loads as %s' % (n, a, b))
            if issubclass(type(v), io.IOBase) and n != 'TemporaryFileType':
                try:
                    c.close()
                except Exception:
                    pass
            if n == 'TemporaryFileType':
                c.close()
                try:
                    os.fstat(v.fileno())
                except OSError as e:
                    P('closing the copy of TemporaryFileType closed the original: %r' % e)
        for n in sorted(set(cat['failures']) - set(cat['succeeds'])):
            # these may be refused with an error of any kind, but the pickler is as good as before
            try:
                dill.loads(dill.dumps(cat['failures'][n], call[1]))
            except Exception as e:
                res['refused'] = res.get('refused', 0) + 1
if cat:
    res['types'] = seen
    res['filed'] = {k: sorted(v) for k, v in cat.items()}
    o = dill.objects
    live = {'ReferenceType': lambda v: v() is not None, 'DeadReferenceType': lambda v: v() is None,
            'ProxyType': lambda v: bool(repr(v.__class__)), 'CallableProxyType': lambda v: v() is None,
            'FrameType': lambda v: v.f_code.co_name == '_function', 'GeneratorType': lambda v: v.gi_frame is not None,
            'CursorType': lambda v: v.execute('select 1').fetchall() == [(1,)], 'SocketType': lambda v: v.fileno() >= 0, 'SocketPairType': lambda v: v.fileno() >= 0,
            'TemporaryFileType': lambda v: not v.closed and os.fstat(v.fileno()).st_size >= 0, 'TextWrapperType': lambda v: v.read(1) == '',
            'MemoryType': lambda v: len(v.tobytes()) == 1, 'CellType': lambda v: v.cell_contents is not None or True, 'LockType': lambda v: not v.locked()}
    for n, f in live.items():
        for k in ('succeeds', 'failures'):
            if n in cat[k]:
                res['live'] = res.get('live', 0) + 1
                try:
                    ok = f(cat[k][n])
                except Exception as e:
                    ok = repr(e)
                if ok is not True:
                    P('%s is not a live instance: %s' % (n, ok))
if dict(dill.settings) != settings:
    P('settings changed')
if not dispatch <= set(dill.Pickler.dispatch):
    P('handlers are gone')
left = set(os.listdir(TMP)) - before_tmp
if left and cat:
    P('left in the temporary directory: %s' % sorted(left))
if sys.stdout.getvalue():
    P('printed %r' % sys.stdout.getvalue()[:200])
sys.stdout = out
with open(sys.argv[2], 'w') as f:
    json.dump(res, f)
os._exit(0)
