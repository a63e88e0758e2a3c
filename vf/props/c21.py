"""C21: settings and keyword arguments take effect exactly where they should."""
import io, itertools, os, pickle, pickletools, sys, types, warnings
import __main__
import dill

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('every combination of setting and keyword (absent, each value) of byref, recurse, fmode and ignore, with the protocol settings and keywords sampled along, through dumps, dump, Pickler, Pickler subclass, copy, positional '
        'arguments and dump_module; one probe object per option tells which value was in effect (class gone at load, unpicklable unused global, handle position and contents without the file, identity of the class, opcodes); then '
        'a call without keywords must show the settings again and the settings must be as they were set; non-trivial = (settings, keywords, entry point)')
ASSUMPTIONS = ['a Pickler takes the settings of the time it is made; the protocol setting is for dump, dumps, copy and dump_module only']
FLOORS = {'combinations': 8000, 'effects': 50000, 'explicit_over_setting': 5000, 'setting_over_default': 3000, 'no_leak': 8000, 'module_dumps': 200, 'load_options': 80, 'interleaved': 300}

DEFAULT = {'protocol': 4, 'byref': False, 'fmode': 0, 'recurse': False, 'ignore': False}
ENTRIES = ['dumps', 'dump', 'Pickler', 'subclass', 'copy', 'positional', 'loads']
SRC = '''
class Known:
    def __init__(self, v=1): self.v = v
    class Inner:
        pass
'''


def cases(ctx):
    combos = list(itertools.product(*[[(s, k) for s in vals for k in [None] + list(vals)] for vals in ([False, True], [False, True], [0, 1, 2], [False, True])]))
    n = 0
    for rep in range(1 if ctx.quick else 6):
        for i, c in enumerate(combos):
            for e, entry in enumerate(ENTRIES):
                if n % ctx.nshards == ctx.shard:
                    yield {'i': n, 'combo': [list(x) for x in c], 'entry': entry}
                n += 1
    for i in range(ctx.shard, 600 if ctx.quick else 4000, ctx.nshards):
        yield {'i': i, 'extra': True}


def setup(ctx):
    warnings.simplefilter('ignore')
    os.chdir(ctx.scratch)
    ctx.main = __main__.__dict__
    exec(compile(SRC, '<known>', 'exec'), ctx.main)
    ctx.path = os.path.join(ctx.scratch, 'probe.txt')
    g = {'used': 41, 'bad': (x for x in ())}
    exec('def fn(): return used + 1', g)
    ctx.fn = g['fn']


def probe(ctx, kind):
    if kind in ('byref', 'ignore', 'protocol'):
        return ctx.main['Known'](7)
    if kind == 'recurse':
        return ctx.fn
    with open(ctx.path, 'w') as f:
        f.write('0123456789')
    f = open(ctx.path)
    f.read(4)
    return f


def observe(ctx, kind, entry, dkw, lkw, eff):
    """what the probe of one option shows; eff: what should be in effect (for the ways to look)"""
    obj = probe(ctx, kind)
    try:
        if entry == 'copy' and kind in ('recurse', 'ignore', 'fmode'):
            if kind == 'recurse':
                try:
                    return dill.copy(obj, **dkw, **lkw)() == 42
                except TypeError:
                    return False
            c = dill.copy(obj, **dkw, **lkw)
            if kind == 'ignore':
                return look_ignore(ctx, c, obj, eff)
            return look_file(c, None)
        try:
            data = dump(ctx, entry, obj, dkw)
        except TypeError:
            if kind == 'recurse':
                return False
            raise
        if kind == 'recurse':
            return dill.loads(data)() == 42
        if kind == 'protocol':
            return protocol_of(data)
        if kind == 'ignore':
            return look_ignore(ctx, load(entry, data, lkw), obj, eff)
        if kind == 'byref':
            K = ctx.main.pop('Known')
            try:
                return dill.loads(data).v != 7
            except AttributeError:
                return True
            finally:
                ctx.main['Known'] = K
        return look_file(dill.loads(data), lambda: dill.loads(data))
    finally:
        if kind == 'fmode':
            obj.close()


def look_ignore(ctx, c, obj, eff):
    if eff['byref']:        # there is just one class then
        return eff['ignore'] if type(c) is ctx.main['Known'] and c.v == 7 else 'other class'
    if type(c) is ctx.main['Known']:
        return False
    return True if type(c).__name__ == 'Known' and c.v == 7 else type(c)


def look_file(c, again):
    with c:
        pos = c.tell()
    if pos == 0:
        return 0
    if pos != 4:
        return 'position %d' % pos
    if again is None:
        return 'kept'
    os.unlink(c.name)
    try:
        d = again()
    except OSError:
        return 1
    with d:
        try:
            d.seek(0)
            text = d.read()
        except OSError:
            text = None
    return 2 if text == '0123456789' else 1


def protocol_of(data):
    ops = list(pickletools.genops(data))
    if ops[0][0].name == 'PROTO':
        return ops[0][1]
    return max(o.proto for o, a, p in ops)


def dump(ctx, entry, obj, dkw):
    if entry in ('dumps', 'copy', 'loads'):
        return dill.dumps(obj, **dkw)
    if entry == 'positional':
        return dill.dumps(obj, dkw.get('protocol'), dkw.get('byref'), dkw.get('fmode'), dkw.get('recurse'))
    out = io.BytesIO()
    if entry == 'dump':
        dill.dump(obj, out, **dkw)
    else:
        K = dill.Pickler if entry == 'Pickler' else type('Sub', (dill.Pickler,), {})
        K(out, **dkw).dump(obj)
    return out.getvalue()


def load(entry, data, lkw):
    if entry == 'positional':
        return dill.loads(data, lkw.get('ignore'))
    if entry in ('dump', 'loads'):
        return dill.load(io.BytesIO(data), **lkw)
    if entry in ('Pickler', 'subclass'):
        return dill.Unpickler(io.BytesIO(data), **lkw).load()
    return dill.loads(data, **lkw)


def run_case(ctx, case):
    r = ctx.rng(case.get('extra'), case['i'])
    old = dict(dill.settings)
    try:
        if case.get('extra'):
            extra(ctx, r, case)
        else:
            combination(ctx, r, case)
    finally:
        dill.settings.clear()
        dill.settings.update(old)
        if old != DEFAULT:
            ctx.violation('leak', 'the settings are %s before a case' % old)


def combination(ctx, r, case):
    entry = case['entry']
    opts = {n: tuple(c) for n, c in zip(('byref', 'recurse', 'fmode', 'ignore'), case['combo'])}
    opts['protocol'] = (r.choice([4, 4, 0, 1, 2, 3, 5]), r.choice([None, 0, 1, 2, 3, 4, 5]))
    sets = {n: s for n, (s, k) in opts.items()}
    dill.settings.update(sets)
    dkw = {n: k for n, (s, k) in opts.items() if n != 'ignore' and (k is not None or r.random() < .3)}
    lkw = {'ignore': opts['ignore'][1]} if opts['ignore'][1] is not None or r.random() < .3 else {}
    eff = {n: s if k is None else k for n, (s, k) in opts.items()}
    if entry in ('Pickler', 'subclass') and opts['protocol'][1] is None:
        eff['protocol'] = pickle.DEFAULT_PROTOCOL
    what = 'settings %s, keywords %s %s through %s' % (sets, dkw, lkw, entry)
    ctx.count('combinations')
    ctx.nontrivial(what)
    for kind in ('byref', 'recurse', 'fmode', 'ignore', 'protocol'):
        ctx.count('effects')
        s, k = opts[kind]
        ctx.count('explicit_over_setting' if k is not None and k != s else 'setting_over_default' if k is None and s != DEFAULT[kind] else 'other')
        got = observe(ctx, kind, entry, dkw, lkw, eff)
        want = eff[kind]
        if got == 'kept':
            got = want if want in (1, 2) else got
        if got != want or type(got) is not type(want):
            ctx.violation('effect:%s' % kind, '%s: %s acts as %r, it has to be %r' % (what, kind, got, want))
            return
    if dict(dill.settings) != sets:
        ctx.violation('leak', '%s: afterwards the settings are %s' % (what, dict(dill.settings)))
        return
    # the keywords were for that call
    kind = r.choice(['byref', 'recurse', 'fmode', 'ignore', 'protocol'])
    ctx.count('no_leak')
    got = observe(ctx, kind, 'dumps', {}, {}, sets)
    if got != sets[kind]:
        ctx.violation('leak', '%s: in the next call %s acts as %r, the setting is %r' % (what, kind, got, sets[kind]))


def extra(ctx, r, case):
    k = case['i'] % 4
    if k == 0:
        interleaved(ctx, r)
    elif k == 1:
        load_options(ctx, r)
    elif k == 2:
        modules(ctx, r, case)
    else:
        others(ctx, r)


def interleaved(ctx, r):
    """picklers with different options at work at the same time, settings changing in between"""
    made = []
    for n in range(4):
        sets = {'byref': r.random() < .5, 'recurse': r.random() < .5, 'protocol': r.choice([0, 2, 4])}
        dill.settings.update(sets)
        kw = {k: r.random() < .5 for k in ('byref', 'recurse') if r.random() < .5}
        proto = r.choice([0, 1, 2, 3, 4, 5])
        out = io.BytesIO()
        eff = {k: kw.get(k, sets[k]) for k in ('byref', 'recurse')}
        made.append((dill.Pickler(out, proto, **kw), out, dict(eff, protocol=proto), sets, kw))
    dill.settings.update(byref=r.random() < .5, recurse=r.random() < .5, protocol=1)
    r.shuffle(made)
    for p, out, eff, sets, kw in made:
        what = 'a Pickler made under %s with %s, protocol %d, used under %s' % (sets, kw, eff['protocol'], dict(dill.settings))
        ctx.count('interleaved')
        ctx.nontrivial(what)
        try:
            p.dump(ctx.fn)
            rec = True
        except TypeError:
            rec = False
        if rec != eff['recurse']:
            ctx.violation('effect:recurse', '%s: recurse acts as %s' % (what, rec))
        q, out = (p, out) if rec else (None, None)
        if q is None:
            continue
        out.seek(0)
        out.truncate()
        q.clear_memo()
        q.dump(ctx.main['Known'](7))
        data = out.getvalue()
        if protocol_of(data) != eff['protocol']:
            ctx.violation('effect:protocol', '%s: protocol %d' % (what, protocol_of(data)))
        K = ctx.main.pop('Known')
        try:
            byref = dill.loads(data).v != 7
        except AttributeError:
            byref = True
        finally:
            ctx.main['Known'] = K
        if byref != eff['byref']:
            ctx.violation('effect:byref', '%s: byref acts as %s' % (what, byref))


def load_options(ctx, r):
    """what pickle's own arguments do"""
    ctx.count('load_options')
    old = b'U\x02\xe9\xe8.'         # a python 2 string
    for how, f in (('loads', lambda **k: dill.loads(old, **k)), ('load', lambda **k: dill.load(io.BytesIO(old), **k)), ('Unpickler', lambda **k: dill.Unpickler(io.BytesIO(old), **k).load())):
        for k, want in (({'encoding': 'latin1'}, '\xe9\xe8'), ({'encoding': 'bytes'}, b'\xe9\xe8'), ({'errors': 'replace'}, '\ufffd\ufffd'), ({}, UnicodeDecodeError), ({'encoding': 'utf-8', 'errors': 'ignore'}, '')):
            try:
                got = f(**dict(k, **({'ignore': r.random() < .5} if r.random() < .5 else {})))
            except Exception as e:
                got = type(e)
            ctx.nontrivial('encoding', how, str(k))
            if got != want:
                ctx.violation('effect:encoding', '%s(%s) of a python 2 string gives %r, not %r' % (how, k, got, want))
    gone = b'c__builtin__\nxrange\n.'
    for fix in (True, False):
        try:
            got = dill.loads(gone, fix_imports=fix)
        except Exception as e:
            got = type(e)
        if got is not (range if fix else ModuleNotFoundError):
            ctx.violation('effect:fix_imports', 'fix_imports=%s gives %r' % (fix, got))
    data = dill.dumps(range, 2, fix_imports=False), dill.dumps(map, 2, fix_imports=True)
    if b'__builtin__' in data[0] and b'_load_type' not in data[0]:
        ctx.violation('effect:fix_imports', 'dumps(fix_imports=False) writes %r' % data[0])
    bufs = []
    big = pickle.PickleBuffer(b'x' * 100)
    d = dill.dumps([big], 5, buffer_callback=bufs.append)
    if len(bufs) != 1 or b'xxxx' in d or bytes(dill.loads(d, buffers=bufs)[0]) != b'x' * 100 or bytes(dill.load(io.BytesIO(d), buffers=bufs)[0]) != b'x' * 100:
        ctx.violation('effect:buffers', 'buffer_callback got %d buffers' % len(bufs))
    bufs = []
    out = io.BytesIO()
    dill.dump([big], out, 5, buffer_callback=bufs.append)
    if len(bufs) != 1 or bytes(dill.loads(out.getvalue(), buffers=bufs)[0]) != b'x' * 100:
        ctx.violation('effect:buffers', 'dump: buffer_callback got %d buffers' % len(bufs))


def modules(ctx, r, case):
    """dump_module takes the protocol setting and is not affected by byref and recurse"""
    name = 'c21mod%d_%d' % (ctx.shard, case['i'])
    m = types.ModuleType(name)
    exec(compile('class K:\n    pass\nk = K()\ndef f(): return x\nx = 1\nunused = [2]\n', '<m>', 'exec'), m.__dict__)
    with open(os.path.join(ctx.scratch, name + '.py'), 'w') as f:
        f.write('class K:\n    pass\nk = K()\ndef f(): return x\nx = 1\nunused = [2]\n')
    sys.path.insert(0, ctx.scratch)
    try:
        m = __import__(name)
        m.k.tag = 'changed'
        want = None
        for byref, recurse, ignore in itertools.product([False, True], repeat=3):
            for proto in (2, 4) if byref else (0, 3, 5):
                dill.settings.update(byref=byref, recurse=recurse, ignore=ignore, protocol=proto)
                out = io.BytesIO()
                dill.dump_module(out, m)
                data = out.getvalue()
                ctx.count('module_dumps')
                ctx.nontrivial('dump_module', byref, recurse, ignore, proto)
                if protocol_of(data) != proto:
                    ctx.violation('effect:protocol', 'dump_module under %s uses protocol %d' % (dict(dill.settings), protocol_of(data)))
                m.x, m.k = 5, None
                out.seek(0)
                dill.load_module(out, m)
                if m.x != 1 or type(m.k) is not m.K or m.k.tag != 'changed' or m.f() != 1 or m.unused != [2]:
                    ctx.violation('effect:module', 'a session under %s restores x=%r k=%r f()=%r' % (dict(dill.settings), m.x, m.k, m.f()))
    finally:
        sys.path.remove(ctx.scratch)
        sys.modules.pop(name, None)
        os.unlink(os.path.join(ctx.scratch, name + '.py'))


def others(ctx, r):
    """entry points that hand their keywords on; inner classes; ignore for what is not an instance of a class of __main__"""
    ctx.count('others')
    for set_, kw in itertools.product([False, True], [None, False, True]):
        dill.settings['recurse'] = set_
        k = {} if kw is None else {'recurse': kw}
        eff = set_ if kw is None else kw
        ctx.nontrivial('pickles', set_, kw)
        if bool(dill.pickles(ctx.fn, **k)) != eff:
            ctx.violation('effect:pickles', 'settings recurse %s, pickles(recurse=%s) is %s' % (set_, kw, not eff))
        if bool(dill.detect.errors(ctx.fn)) == set_ if kw is None else False:
            ctx.violation('effect:errors', 'settings recurse %s: detect.errors gives %r' % (set_, dill.detect.errors(ctx.fn)))
    dill.settings['recurse'] = False
    # (copy and dumps/loads)
    for ig_set, ig in itertools.product([False, True], [None, False, True]):
        dill.settings['ignore'] = ig_set
        eff = ig_set if ig is None else ig
        kw = {} if ig is None else {'ignore': ig}
        for cls in (ctx.main['Known'], ctx.main['Known'].Inner):
            for how, c in (('copy', lambda o: dill.copy(o, **kw)), ('loads', lambda o: dill.loads(dill.dumps(o), **kw)), ('copy positional', lambda o: dill.copy(o, 4, False, 0, False, **kw))):
                o = cls()
                got = c(o)
                ctx.nontrivial('ignore', ig_set, ig, how, cls.__qualname__)
                if (type(got) is not cls) != eff or type(got).__qualname__ != cls.__qualname__:
                    ctx.violation('effect:ignore', 'ignore setting %s, keyword %s: the %s of a %s has class %s (%s)' % (ig_set, ig, how, cls.__qualname__, type(got).__qualname__, 'the live one' if type(got) is cls else 'another'))
            inside = dill.copy([cls()], **kw)[0]
            if type(inside) is cls or type(inside).__qualname__ != cls.__qualname__:
                ctx.violation('effect:ignore', 'ignore setting %s, keyword %s: inside a list a %s has class %s' % (ig_set, ig, cls.__qualname__, 'the live one' if type(inside) is cls else type(inside).__qualname__))
        # nothing of that name in __main__: the stored class stays
        K = ctx.main['Known']
        o = K(3)
        data = dill.dumps(o)
        for now in ('gone', 5, 'other'):
            del ctx.main['Known']
            if now == 5:
                ctx.main['Known'] = 5
            if now == 'other':
                class Other:
                    pass
                ctx.main['Known'] = Other
            try:
                got = dill.loads(data, **kw)
                if now == 'other' and not eff:
                    if type(got) is not Other:
                        ctx.violation('effect:ignore', 'another class of that name in __main__: the loaded object has class %s' % type(got))
                elif type(got) is K or type(got).__qualname__ != 'Known' or got.v != 3:
                    ctx.violation('effect:ignore', 'the class of __main__ is %s: loaded with ignore %s/%s as %r' % (now, ig_set, ig, type(got)))
            finally:
                ctx.main['Known'] = K
