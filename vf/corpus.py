"""One object of any kind the other generators know, for monitors that look at the calls and not at the copies."""
import io, os, random, sys, types, weakref
from . import fx, fx_hooks, gen_clo, gen_cls, gen_data, gen_exotic, gen_fn, gen_glob, ns

KINDS = ['data', 'data', 'functions', 'functions', 'closures', 'classes', 'classes', 'exotic', 'exotic', 'hooks', 'weak', 'globals', 'files', 'reference', 'bad', 'bad']
SPACES = ['main', 'nowhere', 'module', 'local-main', 'local-module', 'noname', 'runtime', 'sub']


class Raiser:
    """raises somewhere in its pickling"""
    def __init__(self, where):
        self.where = where

    def __reduce_ex__(self, proto):
        if self.where == 'reduce':
            raise fx_error('reduce')
        return super().__reduce_ex__(proto)

    def __getstate__(self):
        if self.where == 'state':
            raise fx_error('state')
        return {'where': self.where, 'big': list(range(5))}


class Injected(Exception):
    pass


def fx_error(w):
    return Injected(w)


class Item:
    """label, object, spaces to close; `bad` objects are expected to fail"""
    def __init__(self, label, obj, closers=(), bad=False, src=''):
        self.label, self.obj, self.closers, self.bad, self.src = label, obj, list(closers), bad, src

    def close(self):
        for c in self.closers:
            c()
        self.closers = []


def make(r, scratch, tag='', kind=None, spaces=None):
    kind = kind or r.choice(KINDS)
    return globals()['k_' + kind](r, scratch, tag, spaces or SPACES)


def k_data(r, scratch, tag, spaces):
    root, kinds = gen_data.build(r, r.choice([1, 3, 10, 40]))
    return Item('data ' + '+'.join(sorted(kinds))[:60], root)


def k_reference(r, scratch, tag, spaces):
    pool = [len, int, print, str.join, [].append, fx.Plain, fx.topfunc, fx.Color.RED if hasattr(fx.Color, 'RED') else fx.Color, os.path.join, type(None), Ellipsis, NotImplemented, sys, types, random.Random, types.FunctionType,
            io.StringIO, Exception, {}.keys().__class__, dict.fromkeys, type, object, None, True, types.MappingProxyType]
    o = [r.choice(pool) for i in range(r.choice([1, 3]))]
    return Item('reference', o if r.random() < .5 else o[0])


def k_functions(r, scratch, tag, spaces):
    kind = r.choice(spaces)
    g = gen_fn.Gen(r, globals_write='any' if 'main' in kind or 'module' in kind or kind == 'sub' else 'self')
    src = g.program(r.choice([1, 2, 4]), None)
    sp = ns.Space(kind, scratch, 'k%s_' % tag)
    d = sp.run(src)
    names = [u[0] for u in g.units]
    o = {n: d[n] for n in names}
    return Item('functions in %s: %s' % (kind, [u[2] for u in g.units]), o if r.random() < .7 or not names else o[r.choice(names)], [sp.close], src=src)


def k_closures(r, scratch, tag, spaces):
    kind = r.choice(spaces)
    src, names, fs, kinds = gen_clo.build(r, r.choice([1, 2, 3, 5]), r.choice([0, 1, 2, 4]), r.random() < .3)
    sp = ns.Space(kind, scratch, 'k%s_' % tag)
    G = sp.run(src)['graph']()
    roots = [G[n] for n in names]
    r.shuffle(roots)
    return Item('closures in ' + kind, roots, [sp.close], src=src)


def k_classes(r, scratch, tag, spaces):
    kind = r.choice(spaces)
    g = gen_cls.Gen(r, noname=kind == 'noname')
    src = g.program(r.choice([1, 2, 3]))
    sp = ns.Space(kind, scratch, 'k%s_' % tag)
    try:
        d = sp.run(src)
    except Exception:
        sp.close()
        return k_functions(r, scratch, tag, spaces)
    if kind in ('main', 'nowhere', 'noname', 'runtime'):
        d.pop('fx', None)       # a module outside the library would travel with its state
    names = [u[0] for u in g.units]
    o = {n: d[n] for n in names}
    for n in names:
        if isinstance(d[n], type) and r.random() < .6:
            try:
                o[n + '()'] = d[n]()
            except Exception:
                pass
    return Item('classes in %s: %s' % (kind, [u[2] for u in g.units]), o, [sp.close], src=src)


def k_exotic(r, scratch, tag, spaces):
    fam = r.choice(sorted(f for f in gen_exotic.B if f != 'module'))     # (that one stores the fx module itself)
    root, probes = gen_exotic.B[fam](r)
    return Item('exotic ' + fam, root)


def k_globals(r, scratch, tag, spaces):
    kind = r.choice(spaces)
    g = gen_glob.GlobGen(r, r.choice([3, 6, 10]), poison=2)
    sp = ns.Space(kind if not kind.startswith('local') else 'main', scratch, 'k%s_' % tag)
    d = sp.run(g.source(), {p: 0 for p in g.poison})
    d.pop('fx', None)
    fs = [v for v in d.values() if isinstance(v, types.FunctionType) and v.__globals__ is d]
    return Item('globals in ' + sp.kind, fs[:3] or [1], [sp.close])


def k_hooks(r, scratch, tag, spaces):
    ks = [fx_hooks.GetState, fx_hooks.Falsy, fx_hooks.ReduceEx, fx_hooks.Reduce, fx_hooks.NewArgs, fx_hooks.NewArgsEx, fx_hooks.Items, fx_hooks.StateSetter, fx_hooks.ListLike, fx_hooks.DictLike, fx_hooks.CopyReg]
    return Item('hooks', [r.choice(ks)(i, [i]) for i in range(r.choice([1, 3]))])


def k_weak(r, scratch, tag, spaces):
    p = [fx.Plain(i=i) for i in range(3)]
    out = []
    for i in range(r.choice([1, 3])):
        q = r.choice(p)
        out.append(r.choice([weakref.ref, weakref.proxy])(q))
    dead = weakref.ref(fx.Plain())
    return Item('weak', [p, out, dead] if r.random() < .5 else [out, p])


def k_files(r, scratch, tag, spaces):
    p = os.path.join(scratch, 'corpus%s-%d.txt' % (tag, r.randrange(10 ** 6)))
    with open(p, 'w') as f:
        f.write('some contents\nand more\n')
    f = open(p, r.choice(['r', 'rb', 'r+', 'a', 'r+b']))
    if r.random() < .5 and f.mode != 'a':
        f.read(4)

    def close():
        f.close()
        os.unlink(p)
    return Item('file ' + f.mode, [f, {'f': f}], [close])


def gen():
    yield 1


def k_bad(r, scratch, tag, spaces):
    """something that cannot be pickled, deep inside something that can"""
    good = make(r, scratch, tag, r.choice(['data', 'functions', 'closures', 'classes', 'exotic']), spaces)
    bad = r.choice([lambda: gen(), lambda: Raiser('reduce'), lambda: Raiser('state'), lambda: memoryview(b'x'), lambda: sys._getframe(), lambda: weakref.WeakMethod(fx.Plain().meth), lambda: iter(gen())])()
    o = r.choice([lambda: [good.obj, bad], lambda: {'a': good.obj, 'b': (bad, good.obj)}, lambda: [good.obj, (lambda: bad)], lambda: fx.Plain(x=good.obj, y=[bad]), lambda: cls_with(good.obj, bad)])()
    return Item('bad %s after %s' % (type(bad).__name__, good.label), o, good.closers, True, good.src)


def cls_with(good, bad):
    class Local:
        first = good
        second = bad

        def m(self): return bad
    return [Local, Local()]
