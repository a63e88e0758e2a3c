"""C26: object pointers and parents are reported truthfully."""
import gc, sys, types, warnings, weakref
import dill
from dill import pointers, detect
from .. import gen_data, gen_fn

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('random graphs of instances, slotted instances, lists, tuples, dicts, sets, closures, bound methods, iterators, partials, generators, cycles and shared parts are built; parents/children/parent are asked for every depth, '
        'type, tuple of types and objects to ignore; every link of every returned chain is checked against gc.get_referents, its end against the type, its length against the depth and the shortest one there is (an independent '
        'breadth-first search), and against what is to be ignored; nothing found must be [obj] / None and only when the search finds nothing; at(id(x)) and reference(proxy) for live and dead objects of many types; '
        'non-trivial = (kinds on the chain, depth, filter)')
ASSUMPTIONS = ['the garbage collector knows the references (gc.get_referents)', 'addresses of objects the collector does not track are found in a module only']
FLOORS = {'internals': 200, 'parents': 3500, 'children': 1500, 'found_parents': 1000, 'found_children': 300, 'not_found': 2000, 'ignored': 1500, 'parent': 3500, 'at': 20000, 'reference': 10000, 'dead': 300, 'links': 2000}


def cases(ctx):
    for i in ctx.mine(400 if ctx.quick else 6000):
        yield {'i': i}
    for i in ctx.mine(800 if ctx.quick else 8000):
        yield {'i': i, 'at': True}


def setup(ctx):
    warnings.simplefilter('ignore')


def run_case(ctx, c):
    if 'at' in c:
        return places(ctx, c)
    chains(ctx, c)


class Node:
    def __init__(self, n):
        self.n = n


class Leaf(Node):
    pass


class Top(Node):
    pass


class Same(Node):
    def __eq__(self, o):
        return True
    __hash__ = object.__hash__


class No(Leaf):
    def __bool__(self):
        return False


class Unsure(Node):
    def __bool__(self):
        raise ValueError('truth value is ambiguous')


class Empty(Leaf):
    def __len__(self):
        return 0


class Slot:
    __slots__ = ('a', 'b', '__weakref__')


class List(list):
    pass


class Dict(dict):
    pass


class Meth:
    def go(self):
        return self


def gen(x):
    yield x


def graph(r):
    """[objects], leaves first: everything refers to earlier things (plus some cycles)"""
    import functools
    pool = [r.choice([Leaf, Leaf, No, Empty])(i) for i in range(r.choice([1, 2, 4]))]
    for i in range(r.choice([2, 5, 12, 25])):
        p = [r.choice(pool[-6:]) for j in range(r.choice([1, 1, 2, 3]))]
        k = r.choice(['node', 'node', 'top', 'slot', 'list', 'tuple', 'dict', 'xlist', 'xdict', 'set', 'closure', 'method', 'iter', 'partial', 'gen', 'keys', 'cell', 'lambda', 'default', 'cycle', 'proxyless'])
        o = None
        if k in ('node', 'top', 'cycle', 'proxyless'):
            o = (Top if k == 'top' else r.choice([Node, Node, Same, No, Unsure]))(i)
            o.ref = p[0]
            if len(p) > 1:
                o.more = p[1:]
            if k == 'cycle':
                o.me = o
                q = r.choice(pool)
                if isinstance(q, Node):
                    q.back = o
        elif k == 'slot':
            o = Slot()
            o.a = p[0]
        elif k == 'list':
            o = p + [i]
        elif k == 'tuple':
            o = (i,) + tuple(p)
        elif k == 'dict':
            o = {j: x for j, x in enumerate(p)}
        elif k == 'xlist':
            o = List(p)
        elif k == 'xdict':
            o = Dict((str(j), x) for j, x in enumerate(p))
        elif k == 'set':
            o = {id(p[0]), 's'}
            try:
                o.add(p[0])
            except TypeError:
                pass
        elif k in ('closure', 'lambda'):
            x = p[0]
            o = lambda: x
        elif k == 'default':
            def o(a=p[0]):
                return a
        elif k == 'method':
            o = Meth()
            o.x = p[0]
            pool.append(o)
            o = o.go
        elif k == 'iter':
            o = iter(p)
        elif k == 'partial':
            o = functools.partial(len, p[0])
        elif k == 'gen':
            o = gen(p[0])
        elif k == 'keys':
            o = {id(p[0]): p[0]}.values()
        elif k == 'cell':
            o = types.CellType(p[0])
        pool.append(o)
    return pool


FILTERS = [Leaf, Node, Same, Top, list, dict,  Slot, list, tuple, dict, List, Dict, set, types.FunctionType, types.MethodType, Meth, types.CellType, (Leaf, list), (Top, dict), (Slot, List, Dict), types.GeneratorType, object, int, types.ModuleType, str, float]


def refs(a, b):
    return any(x is b for x in gc.get_referents(a))


def nearest(obj, pred, depth, skip):
    """shortest distance along gc.get_referents to what pred likes"""
    seen = {id(obj)}
    level = [obj]
    for d in range(depth + 1):
        for x in level:
            if pred(x):
                return d
        nxt = []
        for x in level:
            for y in gc.get_referents(x):
                if id(y) not in seen and id(y) not in skip:
                    seen.add(id(y))
                    nxt.append(y)
        level = nxt
    return None


def nearest_back(obj, pool, pred, depth, skip):
    """the same, backwards and within the pool (others may be nearer)"""
    seen = {id(obj)}
    level = [obj]
    holders = pool + [vars(x) for x in pool if isinstance(x, (Node, Meth))]
    for d in range(depth + 1):
        for x in level:
            if pred(x):
                return d
        nxt = []
        for y in holders:
            if id(y) not in seen and id(y) not in skip and any(refs(y, x) for x in level):
                seen.add(id(y))
                nxt.append(y)
        level = nxt
    return None


def check(ctx, what, chain, obj, flt, depth, skip, best, exact, order):
    """one chain, from obj on"""
    d = '%s(%s, %s, depth=%d)' % (what, type(obj).__name__, flt, depth)
    names = [type(x).__name__ for x in chain] if isinstance(chain, list) else repr(chain)
    if not isinstance(chain, list) or not chain or chain[0] is not obj:
        ctx.violation(what + '|ends', '%s: %s' % (d, names))
        return
    if len(chain) == 1 and not isinstance(obj, flt):
        ctx.count('not_found')
        if best is not None:
            ctx.violation(what + '|missed', '%s: there is one %d away' % (d, best))
        return
    ctx.count('found_' + what)
    ctx.nontrivial(what, names, depth, str(flt), bool(skip))
    if len(chain) - 1 > depth:
        ctx.violation(what + '|depth', '%s: %s' % (d, names))
    if not isinstance(chain[-1], flt):
        ctx.violation(what + '|type', '%s: %s' % (d, names))
    if any(isinstance(x, flt) for x in chain[:-1]):
        ctx.violation(what + '|early', '%s: %s' % (d, names))
    if any(id(x) in skip for x in chain[1:]):
        ctx.violation(what + '|ignored', '%s: %s' % (d, names))
    for a, b in zip(chain, chain[1:]):
        ctx.count('links')
        if not (refs(a, b) if what != 'children' else refs(b, a)):
            ctx.violation(what + '|link', '%s: %s, where %r and %r' % (d, names, type(a), type(b)))
            return
    if len({id(x) for x in chain}) != len(chain):
        ctx.violation(what + '|twice', '%s: %s' % (d, names))
    if best is not None and (len(chain) - 1 > best or exact and len(chain) - 1 != best):
        ctx.violation(what + '|longer', '%s: %s, but there is one %d away' % (d, names, best))
    if exact and best is None:
        ctx.violation(what + '|more', '%s: %s' % (d, names))


def chains(ctx, c):
    r = ctx.rng(c['i'])
    pool = graph(r)
    mod = r.choice([pointers, detect])
    for q in range(20):
        obj = r.choice(pool)
        flt = r.choice(FILTERS)
        if r.random() < .5:     # something there is
            flt = type(r.choice(pool[-8:] if q % 2 == 0 else pool[:8]))
            obj = r.choice(pool[:6] if q % 2 == 0 else pool[-6:])
            if r.random() < .3:
                flt = (flt, r.choice([Top, Slot]))
        depth = r.choice([1, 1, 1, 2, 3, 5])
        ign, skip = (), set()
        if r.random() < .5:
            near = gc.get_referents(obj) + pool[:3]
            some = [r.choice(near) for i in range(r.choice([1, 1, 2, 3]))]
            some = [x for x in some if x is not obj and not isinstance(x, type)]
            if len(some) == 1 and not hasattr(some[0], '__len__') and r.random() < .5:
                ign, skip = some[0], {id(some[0])}
            elif some:
                ign = tuple(some)
                skip = {id(x) for x in some}
                if r.random() < .2:
                    ign = list(some)
            del near
            if some:
                ctx.count('ignored')
            del some
        pred = lambda x: isinstance(x, flt)
        if isinstance(obj, flt) and r.random() < .7:
            continue
        best = nearest(obj, pred, depth, skip | {id(ign)})
        ctx.count('parents')
        kw = {'ignore': ign} if skip else {}
        chain = mod.parents(obj, flt, depth, **kw) if depth != 1 or r.random() < .5 else mod.parents(obj, flt, **kw)
        check(ctx, 'parents', chain, obj, flt, depth, skip, best, True, r)
        one = mod.parent(obj, flt, **kw)
        ctx.count('parent')
        if one is None:
            if nearest(obj, pred, 1, skip) == 1 and not (isinstance(None, flt) and any(x is None for x in gc.get_referents(obj))):
                ctx.violation('parent|missed', '%s of %s' % (flt, type(obj)))
        elif not isinstance(one, flt) or not refs(obj, one) or one is obj or isinstance(obj, flt) or id(one) in skip:
            ctx.violation('parent|other', '%s of %s: %s, %s' % (flt, type(obj), type(one), (isinstance(one, flt), refs(obj, one), one is obj, id(one) in skip)))
        del chain, one
        # the other direction searches the whole heap
        if q % 2 == 0 and flt is not object and not (flt in (list, dict, tuple, types.CellType, types.FunctionType, set, types.ModuleType) and depth > 3):
            depth = min(depth, 3)
            # (what refers to the pool from here)
            hide = (pool, sys._getframe())
            if ign == () or not skip:
                ig = hide
            else:
                ig = hide + (tuple(ign) if isinstance(ign, (tuple, list)) else (ign,))
            sk = {id(x) for x in ig}
            best = nearest_back(obj, pool, pred, depth, sk)
            ctx.count('children')
            before = {id(x) for x in gc.get_objects()} if flt in (list, dict, tuple, set) else None
            if before:
                before.add(id(obj))
                ctx.count('internals')
            chain = (mod.children(obj, flt, depth, ignore=ig) if depth != 1 or r.random() < .5 else mod.children(obj, flt, ignore=ig))[::-1]
            check(ctx, 'children', chain, obj, flt, depth, sk, best, False, r)
            for x in chain:
                if isinstance(x, (types.FrameType,)) and x.f_code.co_filename.endswith('pointers.py'):
                    ctx.violation('children|own', 'a frame of the search itself')
            if before and id(chain[-1]) not in before:
                ctx.violation('children|own', '%s: a %s that was not there before' % (flt, type(chain[-1])))
            del chain, ig, hide


class Str:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class Repr(Str):
    def __repr__(self):
        return self.s


class Call(Str):
    def __call__(self):
        return 1


class Hostile:
    def __eq__(self, o):
        raise ValueError('no')
    __hash__ = None

    def __bool__(self):
        raise ValueError('no')


def places(ctx, c):
    r = ctx.rng('at', c['i'])
    s = r.choice(['x', '', '<K at 0x10>', '<a object at %s>' % hex(id(ctx)), 'dead>', "<weakproxy at 0x1; dead>", '<x at zz>', 'at 0x'])
    objs = [Node(1), Str(s), Repr(s), Call(s), Hostile(), List([1]), [1, 2], {'a': []}, {1}, ([],), lambda: 1, Node(1).__init__, Node, type, sys, iter([1]), (x for x in [1]), ValueError(s), types.SimpleNamespace(a=[1])]
    if r.random() < .3:
        objs += gen_data.build(r, 3)[0:1]
    for o in objs:
        for at in (pointers.at, detect.at, pointers.refobject):
            if not gc.is_tracked(o):
                continue
            ctx.count('at')
            try:
                got = at(id(o))
            except Exception as e:
                ctx.violation('at|raised', '%s: %r' % (type(o), e))
                continue
            if got is not o:
                ctx.violation('at|other', '%s' % type(o))
        ctx.count('reference')
        try:
            if pointers.reference(o) != id(o):
                ctx.violation('reference|other', '%s' % type(o))
        except Exception as e:
            ctx.violation('reference|raised', '%s %r: %r' % (type(o), s, e))
        try:
            p = weakref.proxy(o)
        except TypeError:
            continue
        ctx.count('reference')
        ctx.nontrivial('reference', type(o).__name__, s)
        try:
            if pointers.reference(p) != id(o) or detect.reference(p) != id(o):
                ctx.violation('reference|proxy', '%s %r: %x is not %x' % (type(o), s, pointers.reference(p), id(o)))
            if gc.is_tracked(o) and detect.at(detect.reference(p)) is not o:
                ctx.violation('reference|at', '%s' % type(o))
        except Exception as e:
            ctx.violation('reference|proxyraised', '%s %r: %r' % (type(o), s, e))
    for o in (None, True, False):
        ctx.count('at')
        if pointers.at(id(o)) is not o or pointers.reference(o) != id(o):
            ctx.violation('at|special', repr(o))
    # what the collector does not track is in modules
    m = types.ModuleType('m')
    vals = {'i': 10 ** 9 + r.randrange(10 ** 6), 's': 'some %s text' % r.random(), 'f': 2.5 * r.random(), 'n': Node(1), 'b': b'x%d' % r.randrange(99), 'h': Hostile(), 'none': None}
    vars(m).update(vals)
    for k, v in vals.items():
        ctx.count('at')
        try:
            if pointers.at(id(v), m) is not v or pointers.at(id(v), module=m) is not v:
                ctx.violation('at|module', k)
        except Exception as e:
            ctx.violation('at|module', '%s: %r' % (k, e))
    other = types.ModuleType('other')
    try:
        ctx.violation('at|elsewhere', repr(pointers.at(id(vals['n']), other)))
    except ReferenceError:
        pass
    # dead and impossible
    o = r.choice([Node, List, Str('x').__class__ and (lambda: Str('x')), lambda: Call('x')])
    o = o(1) if o is Node else o()
    p = weakref.proxy(o)
    a = id(o)
    del o
    ctx.count('dead')
    if pointers.reference(p) != id(None):
        ctx.violation('dead|reference', hex(pointers.reference(p)))
    for bad, exc in ((0, ReferenceError), (-1, ReferenceError), (2 ** 64 + 8, ReferenceError), ('x', TypeError), (1.5, TypeError), ([], TypeError)):
        try:
            got = pointers.at(bad)
        except exc:
            continue
        except Exception as e:
            got = e
        ctx.violation('dead|at', '%r: %r' % (bad, got))
    try:
        got = pointers.at(a)
        if id(got) != a:
            ctx.violation('dead|other', repr(type(got)))
    except ReferenceError:
        pass
