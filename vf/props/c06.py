"""C06: code objects are copied exactly."""
import marshal, os, pickle, struct, sysconfig, types
import dill
from .. import gen_cls, gen_fn, probe

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 500}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('every code object of compiled standard-library and site-packages files (sampled in the quick tier, all in the '
        'thorough tier) at optimisation levels 0-2, of generated programs (also after the adaptive interpreter has run '
        'them), of mutated code objects (odd constants, tables, names, flags), and the argument tuples of older '
        'interpreters; non-trivial = distinct code objects by content')
ASSUMPTIONS = ['tables of foreign interpreters cannot be interpreted here: legacy tuples carry this interpreter\'s bytecode']
FLOORS = {'code_objects': 5000, 'mutants': 300, 'legacy': 200, 'executed': 200}
ATTRS = [a for a in dir(types.CodeType) if a.startswith('co_') and a not in ('co_lnotab', 'co_lines', 'co_positions')]
PKG = [sysconfig.get_paths()['stdlib'], '/opt/venv/lib/python3.12/site-packages']


def files():
    out = []
    for base in PKG:
        for root, dirs, fs in os.walk(base):
            dirs.sort()
            if base == PKG[0] and ('site-packages' in root or 'dist-packages' in root):
                continue
            out += [os.path.join(root, f) for f in sorted(fs) if f.endswith('.py')]
    return out


def cases(ctx):
    fs = files()
    if ctx.quick:
        fs = ctx.rng('files').sample(fs, min(1000, len(fs)))
    for f in ctx.share(fs):
        yield {'t': 'file', 'f': f}
    for i in ctx.mine(400 if ctx.quick else 10000):
        yield {'t': 'gen', 'i': i}
    for i in ctx.mine(4000 if ctx.quick else 200000):
        yield {'t': 'mut', 'i': i}
    for i in ctx.mine(800 if ctx.quick else 20000):
        yield {'t': 'legacy', 'i': i}


def same(a, b, path, out, tables=True):
    """strict structural equality of constants and code, recording where it fails"""
    if type(a) is not type(b):
        out.append('%s: type %s became %s' % (path, type(a).__name__, type(b).__name__))
    elif isinstance(a, types.CodeType):
        for n in ATTRS:
            same(getattr(a, n), getattr(b, n), path + '.' + n, out, tables)
        for n in ('co_lines', 'co_positions') if tables else ():
            x, y = rows(getattr(a, n)), rows(getattr(b, n))
            if x != y:
                out.append('%s.%s differs' % (path, n))
    elif isinstance(a, tuple):
        if len(a) != len(b):
            out.append('%s: %d items became %d' % (path, len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, '%s[%d]' % (path, i), out, tables)
    elif isinstance(a, frozenset):
        if sorted(map(key, a)) != sorted(map(key, b)):
            out.append('%s: %r became %r' % (path, a, b))
    elif key(a) != key(b):
        out.append('%s: %.80r became %.80r' % (path, a, b))


def rows(m):
    try:
        return list(m())
    except Exception as e:      # a mutated table need not be readable
        return repr(e)


def key(a):
    if isinstance(a, float):
        return 'nan' if a != a else 'f' + struct.pack('d', a).hex()
    if isinstance(a, complex):
        return 'c' + key(a.real) + key(a.imag)
    if isinstance(a, (tuple, frozenset)):
        ks = [key(x) for x in a]
        return type(a).__name__ + str(sorted(ks) if isinstance(a, frozenset) else ks)
    if isinstance(a, str):
        return 's' + a.encode('utf-8', 'surrogatepass').hex()
    return type(a).__name__ + repr(a)


def walk(co):
    yield co
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            yield from walk(c)


def check(ctx, co, how, proto, **kw):
    ctx.count('copies')
    try:
        s = dill.dumps(co, proto, **kw)
        c = dill.loads(s)
    except Exception as e:
        ctx.violation('cannot-copy:%s' % type(e).__name__, '%s of %r protocol %s: %r' % (how, co, proto, e))
        return None
    out = []
    same(co, c, 'code', out, how != 'mutant')
    if not out and (c != co or hash(c) != hash(co)) and marshal.loads(marshal.dumps(co)) == co:  # nan constants never are
        out.append('copy and original do not compare equal')
    if out:
        ctx.violation('differs', '%s of %r protocol %s\n%s' % (how, co, proto, '\n'.join(out[:12])))
    return c


def run_case(ctx, case):
    r = ctx.rng(case['t'], case.get('i', case.get('f')))
    if case['t'] == 'file':
        try:
            with open(case['f'], 'rb') as f:
                co = compile(f.read(), case['f'], 'exec', dont_inherit=True, optimize=r.randrange(3))
        except (SyntaxError, ValueError, UnicodeError):
            ctx.count('not_compilable')
            return
        n = 0
        for c in walk(co):
            n += 1
            ctx.nontrivial(c.co_code, c.co_name, c.co_linetable)
        ctx.count('code_objects', n)
        check(ctx, co, 'file', r.choice([None, 0, 1, 2, 3, 4, 5]), **r.choice([{}, {}, {'recurse': True}, {'byref': True}]))
        if r.random() < .2:
            for c in walk(co):
                check(ctx, c, 'nested code', r.choice([None, 0, 2, 5]))
    elif case['t'] == 'gen':
        g = gen_fn.Gen(r)
        src = g.program(6)
        co = compile(src, r.choice(['<gen>', '/a/b c/\u4e2d.py', '', 'x\udce4.py']), 'exec', dont_inherit=True, optimize=r.randrange(3))
        ctx.count('code_objects', sum(1 for _ in walk(co)))
        check(ctx, co, 'program', r.choice([None, 0, 1, 2, 3, 4, 5]))
        ctx.nontrivial(src)
        # executed: the adaptive interpreter rewrites the code in place
        d = {'__name__': 'vfgen'}
        exec(co, d)
        env = dict(probe.NS, **d)
        for name, probes, kind in g.units:
            for p in probes:
                for _ in range(r.choice([1, 12])):
                    try:
                        eval(p, env)
                    except Exception:
                        pass
            f = d.get(name)
            if isinstance(f, types.FunctionType):
                ctx.count('executed')
                check(ctx, f.__code__, 'executed function %s' % kind, r.choice([None, 0, 5]))
    elif case['t'] == 'mut':
        co = mutate(r, base(r))
        ctx.count('mutants')
        ctx.nontrivial(repr([getattr(co, a) for a in ATTRS]))
        check(ctx, co, 'mutant', r.choice([None, 0, 1, 2, 3, 4, 5]))
    else:
        legacy(ctx, r)


SRCS = ['def f(a, /, b, *, c=3, **k):\n    return a + b + c\n', 'def f(*a, b=1):\n    return [x for x in a] + [b]\n',
        'def f(x):\n    try:\n        return 1 / x\n    except ZeroDivisionError as e:\n        return str(e)\n    finally:\n        x = 2\n',
        'def f():\n    y = 1\n    def g(z=y):\n        nonlocal y\n        y += z\n        return y\n    return g\n',
        'async def f(a):\n    async with a as b:\n        yield b\n', 'f = lambda *, q=(1, (2.0, -0.0), frozenset()): q\n',
        'class f:\n    """doc"""\n    x = 1\n    def m(self): return super().m()\n', 'def f(n):\n    while n:\n        n -= 1\n        yield n, __name__\n']


def base(r):
    co = compile(r.choice(SRCS), '<m>', 'exec', dont_inherit=True)
    return r.choice(list(walk(co)))


ODD = ['', 'a', '\ud800', '\x00', '\u4e2d' * 50, '\n', 'a.b', '<lambda>', "q'\"", ' ', '\\N{x}']
CONSTS = [0.0, -0.0, 1, True, 1.0, float('nan'), float('inf'), 1j, complex(-0.0, 0.0), complex(0.0, -0.0), b'', b'\xff\x00', '', '\ud834', 'x' * 300,
          2**100, -2**31, Ellipsis, None, (), ((),), (1, (True, (1.0,))), frozenset(), frozenset([1, 'a']), frozenset([(1, 2), b'z']),
          ('a', None, Ellipsis, 0), False]


def mutate(r, co):
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        k = r.randrange(13)
        blob = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 7, 40, 300])))
        if k == 0:
            co = co.replace(co_consts=tuple(r.choice(CONSTS + [co]) for _ in range(r.randrange(6))))
        elif k == 1:
            co = co.replace(co_name=r.choice(ODD))
        elif k == 2:
            co = co.replace(co_qualname=r.choice(ODD))
        elif k == 3:
            co = co.replace(co_filename=r.choice(ODD + ['/usr/\udcff.py']))
        elif k == 4:
            co = co.replace(co_firstlineno=r.choice([0, 1, 255, 256, 65536, 2**31 - 1]))
        elif k == 5:
            co = co.replace(co_exceptiontable=blob)
        elif k == 6:
            # a table of another function, or none: random bytes make the interpreter itself read past the end
            co = co.replace(co_linetable=r.choice([b'', base(r).co_linetable, base(r).co_linetable]))
        elif k == 7:
            co = co.replace(co_stacksize=co.co_stacksize + r.choice([1, 100, 30000]))
        elif k == 8:
            co = co.replace(co_flags=co.co_flags ^ r.choice([0x20, 0x40, 0x20000, 0x400000, 0x1000000, 0x80]))
        elif k == 9:
            co = co.replace(co_names=tuple(r.choice(ODD) for _ in range(r.randrange(5))))
        elif k == 10:
            co = co.replace(co_code=co.co_code + bytes([9, 0]) * r.randrange(9))
        elif k == 11:
            co = co.replace(co_consts=co.co_consts + tuple(walk(base(r))))
        elif co.co_varnames and co.co_nlocals:
            co = co.replace(co_varnames=tuple('v%d\u00e9' % i for i in range(len(co.co_varnames))))
    return co


class Call:
    def __init__(self, args):
        self.args = args

    def __reduce__(self):
        return dill._dill._create_code, self.args


PLAIN = ['def f(a, b=2, *c, d=4, **e):\n    x = a * 3\n    return x, b, c, d, sorted(e)\n',
         'def f(a, b=2, *c, d=4, **e):\n    return [i + a for i in range(b)] + list(c) + [d]\n',
         'def f(a, b=2, *c, d=4, **e):\n    g = lambda q: q + a\n    return g(b), len(c), d\n',
         'def f(a, b=2, *c, d=4, **e):\n    s = 0\n    for i in range(a):\n        s += i * b\n    return s, min(d, 3), "x%s" % (c,)\n']
CUR = 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable exceptiontable freevars cellvars'.split()
OLD = {
    '3.11': CUR,
    'pypy': [n for n in CUR if n != 'exceptiontable'],
    '3.10': [n for n in CUR if n not in ('exceptiontable', 'qualname')],
    '3.8': [n for n in CUR if n not in ('exceptiontable', 'qualname')],
    '3.7': [n for n in CUR if n not in ('exceptiontable', 'qualname', 'posonlyargcount')],
    '3.11a': CUR[:15] + ['endlinetable', 'columntable'] + CUR[15:],
}


def legacy(ctx, r):
    ver = r.choice(sorted(OLD))
    if ver == '3.7':
        src = r.choice(PLAIN)
    else:
        src = r.choice(PLAIN).replace('b=2,', 'b=2, /,') if r.random() < .5 and ver != '3.7' else r.choice(PLAIN)
    d = {}
    exec(compile(src, '/old/%s.py' % ver, 'exec', dont_inherit=True), d)
    f = d['f']
    co = f.__code__
    if co.co_exceptiontable and 'exceptiontable' not in OLD[ver]:
        ctx.count('legacy_needs_table')
        return
    vals = {n: getattr(co, 'co_' + n, None) for n in CUR}
    vals['endlinetable'] = vals['columntable'] = b''
    args = tuple(vals[n] for n in OLD[ver])
    with_lnotab = ver in ('3.11', '3.10', '3.11a', 'pypy') and r.random() < .7
    if with_lnotab:
        args = (b'',) + args
    # python 2 era and text-mode pickles hold the byte fields as str
    astext = r.random() < .25 and all(b < 128 for n in ('code', 'linetable', 'exceptiontable') for b in vals[n])
    if astext:
        args = tuple(a.decode('latin1') if isinstance(a, bytes) and i else a for i, a in enumerate(args))
    ctx.count('legacy')
    try:
        c = dill.loads(dill.dumps(Call(args), r.choice([0, 2, 4])))
    except Exception as e:
        ctx.violation('legacy:%s' % type(e).__name__, '%s tuple of %r: %r' % (ver, src, e))
        return
    for n in OLD[ver]:
        if n in ('endlinetable', 'columntable'):
            continue
        if n == 'linetable' and ver == '3.7':
            continue
        out = []
        same(getattr(co, 'co_' + n), getattr(c, 'co_' + n), 'co_' + n, out)
        if out:
            ctx.violation('legacy-differs', '%s tuple of %r: %s' % (ver, src, out[0]))
    if c.co_qualname != ('f'):
        ctx.violation('legacy-differs', '%s tuple: qualname %r' % (ver, c.co_qualname))
    g = types.FunctionType(c, {'__builtins__': __builtins__}, 'f', f.__defaults__)
    g.__kwdefaults__ = f.__kwdefaults__
    for a, k in [((1,), {}), ((2, 5, 6), {'d': 1}), ((3,), {'zz': 1})]:
        try:
            want = f(*a, **k)
        except Exception as e:
            want = repr(e)
        try:
            got = g(*a, **k)
        except Exception as e:
            got = repr(e)
        if want != got:
            ctx.violation('legacy-behaves', '%s tuple of %r: %r instead of %r' % (ver, src, got, want))
    # a tuple of no known shape is refused
    bad = args[:r.choice([3, 9, 13])]
    try:
        c = dill.loads(dill.dumps(Call(bad), 2))
        ctx.violation('legacy-accepted', 'a code tuple of %d members built %r' % (len(bad), c))
    except dill.UnpicklingError:
        ctx.count('legacy_refused')
    except Exception as e:
        ctx.violation('legacy-refusal:%s' % type(e).__name__, 'a code tuple of %d members: %r' % (len(bad), e))
