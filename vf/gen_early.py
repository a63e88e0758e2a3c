"""Programs whose own code runs while they are being loaded: metaclass hooks, hashes of set elements, constructors that
__reduce__ names, __setstate__, __setitem__, append.  All of it reads globals through helper functions."""
import dill

HELP = {'plain': 'def limit(): return k\n', 'chain': 'def limit(): return mid() + 0\ndef mid(): return k\n', 'lam': 'limit = lambda: k\n',
        'clo': 'def mk(z):\n    def limit(): return z + k\n    return limit\nlimit = mk(0)\ndel mk\n',
        'default': 'def limit(n=3, *, m=[0]): return n + m[0] if k else k\n', 'listed': 'def mid(): return k\nfs = [mid]\ndef limit(): return fs[0]()\n',
        'obj': 'class C:\n    def m(self): return k\nc = C()\ndef limit(): return c.m()\n', 'two': 'def limit(): return lo() + hi()\ndef lo(): return k - 1\ndef hi(): return len(t)\nt = [1]\n',
        'attr': 'def limit(): return limit.n + (k and 0)\nlimit.n = 3\n', 'rec': 'def limit(n=2): return k if n == 0 else limit(n - 1)\n',
        'nested': 'def limit():\n    def inner(): return [k for _ in range(1)]\n    return inner()[0]\n'}
TRIG = {'meta_init': 'class Meta(type):\n    def __init__(cls, *a):\n        super().__init__(*a)\n        cls.size = limit()\n@L\nclass A(metaclass=Meta): pass\n',
        'meta_new': 'class Meta(type):\n    def __new__(m, n, b, d):\n        d = dict(d, size=limit())\n        return super().__new__(m, n, b, d)\n@L\nclass A(metaclass=Meta): pass\n',
        'init_sub': 'class Base:\n    def __init_subclass__(cls): cls.size = limit()\n@L\nclass A(Base): pass\n',
        'set_name': 'class D:\n    def __set_name__(self, o, n): self.v = limit()\n    def __get__(self, i, o): return self.v\n@L\nclass A:\n    size = D()\n',
        'hash': 'class H:\n    def __hash__(self): return limit()\n    def __eq__(self, o): return type(o).__name__ == "H"\nA = {H()}\nsize = lambda: H() in A and limit()\n',
        'hashkey': 'class H:\n    def __hash__(self): return limit()\n    def __eq__(self, o): return type(o).__name__ == "H"\nA = {H(): 1}\nsize = lambda: A[H()]\n',
        'frozen': 'class H:\n    def __hash__(self): return limit()\n    def __eq__(self, o): return type(o).__name__ == "H"\nA = frozenset([H()])\nsize = lambda: len(A) + (H() in A)\n',
        'setstate': 'class S:\n    def __init__(self): self.v = limit()\n    def __getstate__(self): return {"q": 1}\n    def __setstate__(self, s): self.v = limit()\nA = S()\nsize = lambda: A.v\n',
        'reduce': 'def build(): return ["built", limit()]\nclass R(list):\n    def __reduce__(self): return build, ()\nA = R([0, 3])\nA = [A, 1]\nsize = lambda: A[0][-1]\n',
        'setitem': 'class S(dict):\n    def __setitem__(self, k, v): dict.__setitem__(self, k, limit())\nA = S()\nA["q"] = 0\nsize = lambda: A["q"]\n',
        'append': 'class S(list):\n    def append(self, v): list.append(self, limit())\n    def extend(self, v): list.extend(self, [limit() for _ in v])\nA = S()\nA.append(0)\nsize = lambda: A[0]\n',
        'new': 'class N:\n    def __new__(cls, *a):\n        o = object.__new__(cls)\n        o.v = limit()\n        return o\n    def __getnewargs__(self): return (limit(),)\n    def __getstate__(self): return None\nA = N()\nsize = lambda: A.v\n'}
CLASSY = ('meta_init', 'meta_new', 'init_sub', 'set_name')
ROOTS = [('f', 'o'), ('[f]', 'o[0]'), ('(f, limit)', 'o[0]'), ('(limit, f)', 'o[1]'), ('{"f": f}', 'o["f"]'), ('[f, f]', 'o[1]')]


def program(r):
    """(description, source, name of the function is f, whether f may stay a global, root expression, how to get f out of it)"""
    h, t, local = r.choice(sorted(HELP)), r.choice(sorted(TRIG)), r.random() < .5
    if t in CLASSY and h == 'clo':
        h = 'chain'        # a cell gets its value as late as possible: C05's known finding late-cell
    pre = ['k = 3\n', HELP[h]]
    r.shuffle(pre)
    s, trig = ''.join(pre), TRIG[t]
    ind = lambda x: ''.join('    ' + l + '\n' for l in x.splitlines())
    a, b = trig.split('@L\n') if t in CLASSY else (trig[:trig.index('A = ')], trig[trig.index('A = '):])
    use = 'A.size' if t in CLASSY else 'size()'
    if local:
        s += a + 'def make():\n' + ind(b) + '    def f(): return %s\n    return f\nf = make()\ndel make\n' % use
    else:
        s += a + b + 'def f(): return %s\n' % use
    root, get = r.choice(ROOTS)
    return (h, t, 'local' if local else 'global'), s, local, root, get


def run(ctx, r, kind, kw, proto, sp):
    """dumps, loads and calls; what=None when the combination is outside the domain"""
    what, src, local, root, get = program(r)
    ctx.count('early_programs')
    A = sp.run(src)
    o = eval(root, A)
    f = A['f']
    want = f()
    own = kind in ('nowhere', 'noname', 'runtime')        # globals are copied
    if own and not kw.get('recurse'):
        if not local:
            return      # the globals lead back to what is being loaded: no order can serve
        del A['f']
    if what[1] == 'new' and proto in (0, 1):
        proto = 2       # (below, pickle does not call __new__)
    s = dill.dumps(o, proto, **kw)
    w = '%s in %s, %s, protocol %s, dumped %s' % ('/'.join(what), kind, kw, proto, root)
    try:
        c = eval(get, {'o': dill.loads(s)})
        got = c()
    except Exception as e:
        ctx.violation('early-code', '%s: code that runs while loading failed: %s: %s\n%s' % (w, type(e).__name__, e, src))
        return
    ctx.count('early_loaded')
    if got != want or own and c is f:
        ctx.violation('early-code', '%s: %r became %r\n%s' % (w, want, got, src))
    ctx.nontrivial('early', what, kind, sorted(kw), root)
