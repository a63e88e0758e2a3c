"""Random Python programs whose functions exercise the by-value function path.

A program is source text plus, for every function it binds, probe expressions.
Everything is deterministic; a failing probe (exception) is as good an outcome
as a value.  Options say which kinds of global state a function may touch,
because copies made outside __main__ own separate globals by design.
"""

HEADER = '''import math, functools, collections, itertools, contextlib
from operator import add as opadd, itemgetter
from vf.probe import Awaitable, CM
'''


class Gen:
    def __init__(self, r, globals_write='any', prefix=''):
        self.r = r
        self.n = 0
        self.gw = globals_write
        self.prefix = prefix
        self.lines = []
        self.units = []      # (name, [probe...], kind)
        self.globs = []
        self.funcs = []      # simple int->value global functions callable from others

    def uid(self, p='f'):
        self.n += 1
        return '%s%s%d' % (self.prefix, p, self.n)

    # -- expressions over the names in scope
    def const(self):
        r = self.r
        return r.choice(['0', '1', '-3', '7', '2.5', '"s"', "'\\u00e9'", 'b"b"', 'None', 'True', '(1, 2)', '1j', '10**20',
                         '...', '-0.0', '"a" "b"', '255', '65536', 'frozenset((1,))', '()'])

    def expr(self, names, d=2):
        r = self.r
        if d <= 0 or r.random() < .25:
            k = r.random()
            if k < .55 and names:
                return r.choice(names)
            if k < .7 and self.globs:
                return r.choice(self.globs)
            return self.const()
        e = lambda: self.expr(names, d - 1)
        k = r.randrange(19)
        if k == 0: return '(%s, %s)' % (e(), e())
        if k == 1: return '[%s, %s]' % (e(), e())
        if k == 2: return '{%s: %s}' % (r.choice(["'k'", '1', '(1,2)']), e())
        if k == 3: return '(%s if %s else %s)' % (e(), e(), e())
        if k == 4: return 'str(%s)' % e()
        if k == 5: return '[i%d for i%d in range(%d)]' % (d, d, r.randrange(4))
        if k == 6: return '(lambda q: (q, %s))(%s)' % (e(), e())
        if k == 7: return "f'{%s!r}:{%s}'" % (r.choice(names) if names else '1', '1+1')
        if k == 8: return '(%s, *[%s])' % (e(), e())
        if k == 9: return '(%s == %s)' % (e(), e())
        if k == 10: return '(%s) and (%s)' % (e(), e())
        if k == 11: return 'len(repr(%s))' % e()
        if k == 12: return 'math.floor(%s)' % r.choice(['2.7', '-1.5', r.choice(names) if names else '1'])
        if k == 13 and self.funcs: return '%s(%s)' % (r.choice(self.funcs), r.choice(['2', '3', r.choice(names) if names else '4']))
        if k == 14: return 'sorted({%s, 1})' % r.choice(['2', '3'])
        if k == 15: return '(%s in {1, 2, "s"})' % r.choice(['1', '"s"', 'None'])
        if k == 16: return 'tuple(x%d for x%d in (%s, %s) if x%d is not None)' % (d, d, e(), e(), d)
        if k == 17: return '[(u%d := %s), u%d][1]' % (d, e(), d)
        return 'dict(a=%s, **{"b": %s})' % (e(), e())

    def add(self, src, name, probes, kind):
        self.lines.append(src)
        self.units.append((name, probes, kind))

    def globalvars(self, n=3):
        r = self.r
        for _ in range(n):
            g = self.uid('G')
            self.lines.append('%s = %s' % (g, r.choice(
                ['5', '[1, 2, 3]', '{"a": 1}', '(1, [2])', '"txt"', '{1, 2}', 'None', '3.5', '[]', '{}',
                 'collections.OrderedDict(a=1)', 'range(4)', 'b"xx"', 'int', 'math.sqrt', 'len'])))
            self.globs.append(g)
        h = self.uid('h')
        self.lines.append('def %s(n):\n    return (n, %s)' % (h, self.expr(['n'], 1)))
        self.funcs.append(h)

    # -- templates -------------------------------------------------------
    def t_plain(self):
        f = self.uid()
        e1, e2 = self.expr(['a', 'b']), self.expr(['a', 'b', 'c'])
        doc = self.r.choice(['', '    "doc of %s"\n' % f, '    """multi\n    line \\u00e9\n    """\n'])
        self.add('def %s(a, b=2):\n%s    c = %s\n    return %s' % (f, doc, e1, e2), f,
                 ['many(%s, (1,), (2, 3), ("x",), ())' % f, 'meta(%s)' % f], 'plain')

    def t_params(self):
        f = self.uid()
        r = self.r
        sig = r.choice(['a, /, b, *, c', 'a, b=1, /, *args, c=2, **kw', '*, k, j=3', '*args, **kw', 'a: int, b: "str" = None, *c: tuple, d: dict = {}, **e: list',
                        'a=[], *, b={"x": []}', 'a, b=(1, [2]), *, c=frozenset((1,)), d'])
        ret = r.choice(['', ' -> int', ' -> "forward.Ref"', ' -> None'])
        import ast
        ar = ast.parse('def f(%s): pass' % sig).body[0].args
        names = [x.arg for x in ar.posonlyargs + ar.args + ar.kwonlyargs + [y for y in (ar.vararg, ar.kwarg) if y]]
        self.add('def %s(%s)%s:\n    return (%s)' % (f, sig, ret, ', '.join(names) or '0') + '', f,
                 ['many(%s, (1,), (1, 2), (1, 2, 3), ())' % f, '%s(1, c=5, d=6)' % f, '%s(k=1)' % f, '%s(1, 2, c=3)' % f, 'meta(%s)' % f,
                  'str(__import__("inspect").signature(%s))' % f], 'params')

    def t_closure(self):
        f = self.uid()
        self.add('def mk_%s(x, y=[]):\n    z = %s\n    def %s(w):\n        nonlocal x\n        x += w\n        y.append(w)\n'
                 '        return (x, list(y), z)\n    return %s\n%s = mk_%s(%d)' % (f, self.expr(['x'], 1), f, f, f, f, self.r.randrange(9)),
                 f, ['many(%s, (1,), (2,), ("a",), (3,))' % f], 'closure')

    def t_closure3(self):
        f = self.uid()
        self.add('def mk_%s(a):\n    def m1(b):\n        def m2(c):\n            return (a, b, c, %s)\n        m2.tag = (a, b)\n        return m2\n'
                 '    return m1\n%s = mk_%s([1])("b")' % (f, self.expr(['a', 'b', 'c']), f, f), f,
                 ['many(%s, (1,), (None,))' % f, '%s.tag' % f, 'meta(%s)' % f], 'closure3')

    def t_lambda(self):
        f = self.uid()
        self.add('%s = lambda a, *r, k=%s: %s' % (f, self.const(), self.expr(['a', 'r', 'k'])), f,
                 ['many(%s, (1,), (1, 2, 3), ())' % f, '%s(4, k=5)' % f, 'meta(%s)' % f], 'lambda')

    def t_looplambdas(self):
        f = self.uid()
        self.add('def mk_%s():\n    out = []\n    for i in range(3):\n        out.append(lambda: i)\n        out.append(lambda j=i: (i, j))\n'
                 '    def bump():\n        nonlocal i\n        i += 10\n        return i\n    out.append(bump)\n    return out\n%s = mk_%s()' % (f, f, f),
                 f, ['[g() for g in %s]' % f, '[g() for g in %s]' % f], 'looplambdas')

    def t_gen(self):
        f = self.uid()
        self.add('def %s(n, step=%d):\n    i = 0\n    while i < n:\n        got = yield i\n        i += got or step\n    return %s' %
                 (f, self.r.randrange(1, 3), self.expr(['n', 'i'], 1)), f,
                 ['take(%s(5))' % f, 'push(%s(5), [2, None, 3])' % f], 'gen')

    def t_genfrom(self):
        f = self.uid()
        self.add('def %s(n):\n    def inner(m):\n        x = yield from range(m)\n        return (x, m)\n    v = yield from inner(n)\n    yield v' % f, f,
                 ['take(%s(3))' % f], 'genfrom')

    def t_async(self):
        f = self.uid()
        self.add('async def %s(a):\n    async def inner(b):\n        return await Awaitable(b)\n    r = [await inner(x) for x in range(a)]\n'
                 '    return (r, %s)' % (f, self.expr(['a'], 1)), f, ['drive(%s(2))' % f], 'async')

    def t_agen(self):
        f = self.uid()
        self.add('async def %s(a):\n    for i in range(a):\n        yield i\n        yield (await Awaitable(i))' % f, f,
                 ['adrive(%s(2))' % f], 'agen')

    def t_try(self):
        f = self.uid()
        self.add('def %s(a):\n    log = []\n    try:\n        try:\n            log.append(1 // a)\n        except ZeroDivisionError as e:\n'
                 '            log.append(type(e).__name__)\n            raise KeyError(a) from e\n        else:\n            log.append("else")\n'
                 '        finally:\n            log.append("fin")\n    except KeyError as e:\n        log.append(repr(e.__cause__))\n'
                 '    for q in (1, 2, 3):\n        try:\n            if q == a: break\n            continue\n        finally:\n            log.append(q)\n'
                 '    else:\n        log.append("nobreak")\n    return log' % f, f, ['many(%s, (0,), (1,), (2,), ("z",))' % f], 'try')

    def t_with(self):
        f = self.uid()
        self.add('def %s(a, swallow=False):\n    log = []\n    with CM(log, swallow) as c, contextlib.suppress(KeyError):\n        log.append(c.swallow)\n'
                 '        if a == 1: raise KeyError(a)\n        if a == 2: raise ValueError(a)\n        log.append("body")\n    return log' % f, f,
                 ['many(%s, (0,), (1,), (2,), (2, True))' % f], 'with')

    def t_match(self):
        f = self.uid()
        self.add('def %s(v):\n    match v:\n        case 0 | 1: return "small"\n        case [x, *rest] if rest: return ("seq", x, rest)\n'
                 '        case {"k": y, **kw}: return ("map", y, kw)\n        case complex(real=0): return "im"\n        case str() as s: return s + "!"\n'
                 '        case (a, b): return (a, b)\n        case _: return %s' % (f, self.expr(['v'], 1)), f,
                 ['many(%s, (0,), ([1, 2, 3],), ({"k": 1, "z": 2},), (2j,), ("s",), (None,))' % f], 'match')

    def t_comp(self):
        f = self.uid()
        self.add('def %s(n):\n    k = n + 1\n    a = [[i * j + k for i in range(n) if i != 1] for j in range(n)]\n    b = {i: (lambda: i + k)() for i in range(n)}\n'
                 '    c = {x for y in a for x in y}\n    d = list(z for z in (w for w in range(n)) if z & 1)\n    return a, b, sorted(c), d, %s' %
                 (f, self.expr(['n', 'k'], 1)), f, ['many(%s, (0,), (3,), ("x",))' % f], 'comp')

    def t_rec(self):
        f = self.uid()
        self.add('def %s(n, acc=()):\n    return acc if n <= 0 else %s(n - 1, acc + (n, %s))' % (f, f, self.expr(['n'], 1)), f,
                 ['many(%s, (0,), (4,))' % f], 'rec')

    def t_mutual(self):
        f, g = self.uid(), self.uid()
        self.add('def %s(n):\n    return n == 0 or %s(n - 1)\ndef %s(n):\n    return n != 0 and %s(n - 1)' % (f, g, g, f), f,
                 ['many(%s, (0,), (3,), (4,))' % f], 'mutual')
        self.units.append((g, ['many(%s, (0,), (3,), (4,))' % g], 'mutual'))

    def t_lrec(self):
        f = self.uid()
        self.add('def mk_%s(k):\n    def %s(n):\n        return [k] if n <= 0 else [n] + %s(n - 1)\n    return %s\n%s = mk_%s("K")' % (f, f, f, f, f, f), f,
                 ['many(%s, (0,), (3,))' % f], 'lrec')

    def t_lmutual(self):
        f = self.uid()
        self.add('def mk_%s():\n    cnt = [0]\n    def ev(n):\n        cnt[0] += 1\n        return True if n == 0 else od(n - 1)\n    def od(n):\n        cnt[0] += 1\n        return False if n == 0 else ev(n - 1)\n'
                 '    def total(): return cnt[0]\n    return ev, od, total\n%s = mk_%s()' % (f, f, f), f,
                 ['%s[0](4)' % f, '%s[1](4)' % f, '%s[2]()' % f], 'lmutual')

    def t_sharedcell(self):
        f = self.uid()
        self.add('def mk_%s(v):\n    def get(): return v\n    def put(x):\n        nonlocal v\n        v = x\n        return put\n    def drop():\n        nonlocal v\n        del v\n    return {"get": get, "put": put, "drop": drop}\n%s = mk_%s([0])' % (f, f, f), f,
                 ['%s["get"]()' % f, '%s["put"](5) is %s["put"]' % (f, f), '%s["get"]()' % f, '%s["drop"]()' % f, 'many(%s["get"], ())' % f], 'sharedcell')

    def t_emptycell(self):
        f = self.uid()
        self.add('def mk_%s(fill):\n    def %s():\n        return later\n    def setit(v):\n        nonlocal later\n        later = v\n    if fill: later = "set"\n    %s.setit = setit\n    return %s\n%s = mk_%s(%s)' %
                 (f, f, f, f, f, f, self.r.choice(['0', '1'])), f, ['many(%s, ())' % f, '%s.setit(9)' % f, 'many(%s, ())' % f], 'emptycell')

    def t_cellcycle(self):
        f = self.uid()
        self.add('def mk_%s():\n    box = []\n    def %s(n):\n        return (len(box), n, box[0] is %s, box[1] is box)\n    box.append(%s)\n    box.append(box)\n    %s.box = box\n    return %s\n%s = mk_%s()' % (f, f, f, f, f, f, f, f),
                 f, ['%s(1)' % f, '%s.box[0] is %s' % (f, f), '%s.box[1] is %s.box' % (f, f)], 'cellcycle')

    def t_gwrite(self):
        g = self.uid('W')
        f = self.uid()
        self.add('%s = %d\ndef %s(v):\n    global %s\n    old = %s\n    %s = v\n    return (old, %s)' % (g, self.r.randrange(9), f, g, g, g, g), f,
                 ['many(%s, (1,), ("b",), (3,))' % f], 'gwrite')

    def t_gshared(self):
        """two functions sharing a global they both write: only where globals are shared by design"""
        if self.gw != 'any':
            return self.t_gwrite()
        g, f, k = self.uid('W'), self.uid(), self.uid()
        self.add('%s = []\ndef %s(v):\n    %s.append(v)\n    return len(%s)\ndef %s():\n    global %s\n    %s = %s + ["k"]\n    return %s' % (g, f, g, g, k, g, g, g, g), f,
                 ['%s(1)' % f, '%s(2)' % f], 'gshared')
        self.units.append((k, ['%s()' % k, '%s()' % k], 'gshared'))

    def t_deco(self):
        f = self.uid()
        self.add('def deco_%s(fn):\n    @functools.wraps(fn)\n    def wrapper(*a, **k):\n        "wrapper doc"\n        wrapper.calls += 1\n        return (wrapper.calls, fn(*a, **k))\n    wrapper.calls = 0\n    return wrapper\n@deco_%s\ndef %s(x, y=1):\n    "orig doc"\n    return %s' %
                 (f, f, f, self.expr(['x', 'y'])), f, ['many(%s, (1,), (2, 3), ())' % f, '%s.calls' % f, 'meta(%s)' % f, '%s.__wrapped__(5)' % f], 'deco')

    def t_paramdeco(self):
        f = self.uid()
        self.add('def pd_%s(times, log):\n    def deco(fn):\n        def inner(*a):\n            log.append(len(a))\n            return [fn(*a) for _ in range(times)] + [list(log)]\n        inner.orig = fn\n        return inner\n    return deco\n@pd_%s(2, [])\ndef %s(x):\n    return %s' %
                 (f, f, f, self.expr(['x'])), f, ['many(%s, (1,), (2,))' % f, '%s.orig(3)' % f], 'paramdeco')

    def t_lru(self):
        f = self.uid()
        self.add('@functools.lru_cache(maxsize=%s, typed=%s)\ndef %s(x):\n    return [x, %s]' % (self.r.choice(['None', '2', '128']), self.r.choice(['True', 'False']), f, self.expr(['x'], 1)),
                 f, ['many(%s, (1,), (1,), (2,))' % f, 'tuple(%s.cache_info())' % f, '%s.cache_parameters()' % f], 'lru')

    def t_partial(self):
        f = self.uid()
        self.add('def b_%s(a, b, *c, d=0): return (a, b, c, d)\n%s = functools.partial(functools.partial(b_%s, 1, d=[2]), "x")\n%s.note = "n"' % (f, f, f, f), f,
                 ['many(%s, (), (5,), (6, 7))' % f, '%s(d=9)' % f, '%s.note' % f, '%s.args' % f, '%s.keywords' % f], 'partial')

    def t_classin(self):
        f = self.uid()
        g = self.r.choice(self.globs) if self.globs else '1'
        self.add('def %s(a):\n    class C:\n        attr = %s\n        def m(self): return (a, self.attr, __class__.__name__)\n        def s(self): return super().__init__\n        class D:\n            deep = a\n    c = C()\n    return (c.m(), C.D.deep, C.__qualname__)' % (f, g), f,
                 ['many(%s, (1,), ("q",))' % f], 'classin')

    def t_defaults(self):
        f = self.uid()
        self.add('_sh_%s = []\ndef %s(a, acc=_sh_%s, *, kacc=_sh_%s, key={}):\n    acc.append(a)\n    key[len(key)] = a\n    return (len(acc), acc is kacc, list(key))' % (f, f, f, f), f,
                 ['many(%s, (1,), (2,))' % f, '%s.__defaults__[0] is %s.__kwdefaults__["kacc"]' % (f, f)], 'defaults')

    def t_attr(self):
        f = self.uid()
        self.add('def %s(x):\n    %s.count += 1\n    return (%s.count, %s.data, x)\n%s.count = 0\n%s.data = %s\n%s.me = %s\n%s.__annotations__["x"] = %s' %
                 (f, f, f, f, f, f, self.r.choice(['[1, [2]]', '{"k": (1,)}', '"t"']), f, f, f, self.r.choice(['int', '"int"', 'list[int]', '{"k": 1}'])), f,
                 ['%s.me is %s' % (f, f), '%s.data' % f, '%s.__annotations__' % f], 'attr')

    def t_renamed(self):
        f = self.uid()
        r = self.r
        ops = r.sample(['%s.__name__ = "other"' % f, '%s.__qualname__ = "Some.other"' % f, '%s.__doc__ = "new doc"' % f, '%s.__doc__ = 5' % f,
                        '%s.__defaults__ = (7,)' % f, '%s.__kwdefaults__ = {"k": [1]}' % f, '%s.__doc__ = None' % f,
                        '%s.__qualname__ = "%s"' % (f, f)], 3)
        self.add('def mk_%s():\n    def %s(a=1, *, k=2):\n        "first doc"\n        return (a, k)\n    return %s\n%s = mk_%s()\n%s' % (f, f, f, f, f, '\n'.join(ops)), f,
                 ['many(%s, (), (2,))' % f, 'meta(%s)' % f], 'renamed')

    def t_consts(self):
        f = self.uid()
        r = self.r
        cs = r.sample(['1e400', '-0.0', '0.0', '1e400 - 1e400', '10**30', '-1', 'b"\\x00\\xff"', '"\\ud800"', '(1, (2.0, (3j,)))', '...', 'frozenset({1})', '1 in {1, 2.0, "x", b"y"}',
                       '"\\u4e2d" * 3', 'True', '(None, True)', '0x7fffffff', '2**63', '-2**63', '"" ""', '(1.0, 1, True)', '"%s" % 3', '(0.0, -0.0)'], 7)
        self.add('def %s(i):\n    return (%s)[i]' % (f, ', '.join(cs)), f, ['[%s(i) for i in range(7)]' % f], 'consts')

    def t_big(self):
        f = self.uid()
        n = self.r.choice([40, 300])
        self.add('def %s(x):\n%s\n    if x > 0:\n%s\n    return x' % (f, '\n'.join('    v%d = x + %d' % (i, i * 1000 + 7) for i in range(n)),
                 '\n'.join('        x += v%d' % i for i in range(n))), f, ['many(%s, (0,), (1,))' % f], 'big')

    def t_unicode(self):
        f = self.uid()
        self.add('def %s(\u00e9, \u4e2d=1):\n    \u03b1\u03b2 = \u00e9\n    def \u00f1(): return (\u03b1\u03b2, \u4e2d)\n    return \u00f1(), \u00f1.__name__' % f, f, ['many(%s, (1,), (2, 3))' % f], 'unicode')

    def t_import(self):
        f = self.uid()
        self.add('def %s(x):\n    import json as j, os.path\n    from collections import OrderedDict as OD\n    return j.dumps([x]), os.path.basename("/a/b"), list(OD(a=x))' % f, f, ['many(%s, (1,), ("s",))' % f], 'import')

    def t_methodfn(self):
        f = self.uid()
        self.add('class K_%s:\n    def __init__(self, v): self.v = v\n    def %s(self, x=3):\n        "meth doc"\n        return (self.v, x, __class__.__name__)\n%s = K_%s.%s' % (f, f, f, f, f), f,
                 ['%s(type("T", (), {"v": 1})())' % f, 'meta(%s)' % f], 'methodfn')

    def t_bound(self):
        f = self.uid()
        self.add('class B_%s:\n    def __init__(self): self.log = []\n    def go(self, x):\n        self.log.append(x)\n        return list(self.log)\n_b = B_%s()\n%s = [_b.go, _b.go, _b]' % (f, f, f), f,
                 ['%s[0](1)' % f, '%s[1](2)' % f, '%s[2].log' % f, '%s[0].__self__ is %s[2]' % (f, f)], 'bound')

    def t_exgroup(self):
        f = self.uid()
        self.add('def %s(k):\n    log = []\n    try:\n        raise ExceptionGroup("g", [ValueError(1), KeyError(k)][:k])\n    except* ValueError as e:\n        log.append(len(e.exceptions))\n    except* KeyError as e:\n        log.append("key")\n    return log' % f, f,
                 ['many(%s, (1,), (2,))' % f], 'exgroup')

    def t_star(self):
        f = self.uid()
        self.add('def %s(*a, **k):\n    x, *y = a\n    (p, q), *_ = k.items() or [(0, 0)]\n    print_ = lambda *z, **w: (z, w)\n    return x, y, p, q, print_(*a, **k), {**k, "n": 1}, [*a, *y]' % f, f,
                 ['%s(1, 2, 3, m=4)' % f, 'many(%s, (), (1,))' % f], 'star')

    def t_builtinshadow(self):
        f = self.uid()
        s = self.r.choice(['len', 'sum', 'print', 'id'])
        self.add('def mk_%s():\n    %s = lambda *a: ("shadow", a)\n    def %s(x): return %s(x), abs(-1)\n    return %s\n%s = mk_%s()' % (f, s, f, s, f, f, f), f, ['many(%s, (1,))' % f], 'builtinshadow')

    def t_nesteddef(self):
        f = self.uid()
        g = self.r.choice(self.globs) if self.globs else '1'
        h = self.funcs[0] if self.funcs else 'len'
        self.add('def %s(a):\n    def one(b):\n        def two(c):\n            return (%s, %s(c), a, b)\n        return two\n    return one(2)(3)' % (f, g, h), f, ['many(%s, (1,))' % f], 'nesteddef')

    def t_closurecls(self):
        f = self.uid()
        self.add('def mk_%s(v):\n    class Loc:\n        x = v\n        def __init__(self, n): self.n = n\n        def clone(self): return Loc(self.n + 1)\n        def __eq__(self, o): return isinstance(o, Loc) and o.n == self.n\n    def %s(n):\n        l = Loc(n).clone()\n        return (l.n, l.x, l == Loc(n + 1), type(l).__name__)\n    %s.cls = Loc\n    return %s\n%s = mk_%s([1])' % (f, f, f, f, f, f), f,
                 ['many(%s, (1,))' % f, '%s.cls(3).clone().n' % f, '%s.cls.x' % f], 'closurecls')

    def t_static(self):
        f = self.uid()
        self.add('%s = (staticmethod(lambda x: ("st", x)), classmethod(lambda c, x=2: (c.__name__, x)), property(lambda s: s, doc="pd"))' % f, f,
                 ['%s[0](1)' % f, '%s[1].__get__(None, int)()' % f, '%s[2].fget(3)' % f, '%s[2].__doc__' % f], 'static')

    def t_fdict(self):
        """a dispatch table of functions, some shared"""
        f = self.uid()
        self.add('def op_%s(x): return x * 2\n%s = {"a": op_%s, "b": [op_%s, lambda y: op_%s(y) + 1], "c": (max, op_%s)}' % (f, f, f, f, f, f), f,
                 ['%s["a"](4)' % f, '%s["b"][1](4)' % f, '%s["a"] is %s["b"][0] is %s["c"][1]' % (f, f, f)], 'fdict')

    TEMPLATES = [n for n in list(locals()) if n.startswith('t_')]

    def program(self, n, only=None):
        self.globalvars(self.r.randrange(1, 4))
        names = only or self.TEMPLATES
        for t in (self.r.sample(names, min(n, len(names)))):
            marks = [(v, len(v)) for v in (self.lines, self.units, self.globs, self.funcs)]
            getattr(self, t)()
            try:
                body = '\n'.join(self.lines[marks[0][1]:])
                compile(body, '<gen>', 'exec', dont_inherit=True)
            except SyntaxError:     # e.g. := inside the iterable of a comprehension
                for v, k in marks:
                    del v[k:]
        return HEADER + '\n'.join(self.lines) + '\n'
