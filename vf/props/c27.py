"""C27: object differencing sees every change."""
import array, collections, os, subprocess, sys, types, warnings, weakref
from unittest import mock
import numpy as np
import dill
from .. import core

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('histories over random graphs (instances, slots, classes, functions, modules, lists, tuples, dicts, sets, deques, defaultdicts, OrderedDicts, arrays, strings and dict subclasses; shared, nested and cyclic): memorise some, '
        'mutate (set, delete, replace, restore, append, insert, pop, reorder, resize, clear, in place and deep down, or nothing), memorise again with and without force, ask whats_changed/has_changed of any object with and without '
        'shared seen; a shadow model of what was memorised says which attributes and whether the items changed, exactly; whatever is asked must not change the object; release_gone keeps what is alive; fresh interpreters with up to 200 modules of the library start differencing; '
        'non-trivial = (kinds, mutation, answer)')
ASSUMPTIONS = ['attributes that only lead back to the object they were asked of, or into a cycle, may or may not be reported (the answer of has_changed is exact)', 'items a container makes when asked (dict views, memoryviews) cannot be compared',
               'changes are those of identity: an equal value in place of another is a change', 'state kept in slots or in C is not looked at', 'the order of dicts and sets is not looked at']
FLOORS = {'asked': 40000, 'changed': 12000, 'unchanged': 20000, 'mutations': 8000, 'forced': 2000, 'keys': 6000, 'acyclic': 30000, 'arrays': 5000, 'unmemorised': 4000, 'released': 200, 'modules_memorised': 500000, 'modules_later': 50}


def cases(ctx):
    for i in ctx.mine(6000 if ctx.quick else 60000):
        yield {'i': i}
    for i in ctx.mine(32 if ctx.quick else 320):
        yield {'i': i, 'modules': True}


def setup(ctx):
    warnings.simplefilter('ignore')
    try:
        from dill import __diff
    except Exception as e:      # it memorises all modules there are
        __diff = e
    ctx.diff = __diff


class A:
    pass


class Str(str):
    pass


class Dict(dict):
    pass


class List(list):
    pass


class Equal:
    """equal to everything"""
    def __eq__(self, o):
        return True
    __hash__ = object.__hash__


class Answers(tuple):
    """has every attribute that is asked for"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: Answers((n,))


class Named(list):
    """a list with attributes named like the methods of others"""
    def __init__(self, *a):
        list.__init__(self, *a)
        self.items = 3
        self.keys = [1]


def dead():
    return weakref.proxy(A())


ATOMS = [lambda r: r.randrange(1000, 10 ** 6), lambda r: 'text %d' % r.randrange(10 ** 6), lambda r: r.random(), lambda r: None, lambda r: A(), lambda r: Equal(), lambda r: (), lambda r: b'x', lambda r: 1, lambda r: Str('s'), lambda r: Answers((r.random(),)), lambda r: r.choice([dead, dead, lambda: mock.call.this, lambda: Named([5.5])])()]
KINDS = ['obj', 'obj', 'obj', 'list', 'list', 'dict', 'dict', 'tuple', 'set', 'fset', 'class', 'fn', 'mod', 'deque', 'dd', 'od', 'xdict', 'xlist', 'str', 'arr', 'arr2', 'parr', 'objarr', 'eq']
MUTABLE = ('obj', 'list', 'dict', 'set', 'class', 'fn', 'mod', 'deque', 'dd', 'od', 'xdict', 'xlist', 'str', 'arr', 'arr2', 'parr', 'objarr', 'eq')


def hashable(o):
    try:
        hash(o)
    except TypeError:
        return False
    return True


def make(r, kind, parts):
    n = len(parts)
    at = {'k%d' % i: p for i, p in enumerate(parts)}
    if kind in ('obj', 'fn', 'mod', 'str', 'eq'):
        o = {'obj': A, 'fn': lambda: (lambda: 0), 'mod': lambda: types.ModuleType('m'), 'str': lambda: Str('s'), 'eq': Equal}[kind]()
        o.__dict__.update(at)
        return o
    if kind == 'class':
        return type('K', (), at)
    if kind == 'set':
        return {p for p in parts if hashable(p)}
    if kind == 'fset':
        return frozenset(p for p in parts if hashable(p))
    if kind in ('dict', 'dd', 'od', 'xdict'):
        d = {'dict': dict, 'dd': lambda: collections.defaultdict(list), 'od': collections.OrderedDict, 'xdict': Dict}[kind]()
        for i, p in enumerate(parts):
            d[p if hashable(p) and r.random() < .3 else i] = r.choice([p, p, parts[0], 'v%d' % i])
        return d
    if kind in ('arr', 'arr2', 'parr'):
        vals = [r.randrange(5) for i in range(r.choice([1, 4]))]
        return np.array(vals, dtype=r.choice([int, float])) if kind == 'arr' else np.array([vals, vals]) if kind == 'arr2' else array.array('d', vals)
    if kind == 'objarr':
        a = np.empty(n, dtype=object)
        for i, p in enumerate(parts):
            a[i] = p
        return a
    return {'list': list, 'tuple': tuple, 'deque': collections.deque, 'xlist': List}[kind](parts)


def graph(r):
    """[(kind, object)], parts first, and some cycles"""
    out = []
    for i in range(r.choice([2, 4, 8, 16])):
        kind = r.choice(KINDS)
        parts = [r.choice(out[-6:])[1] if out and r.random() < .6 else r.choice(ATOMS)(r) for j in range(r.choice([0, 1, 2, 3]))]
        out.append((kind, make(r, kind, parts)))
    if r.random() < .35:
        for i in range(r.choice([1, 2])):
            k, o = r.choice(out)
            x = r.choice(out)[1]
            if k in ('obj', 'eq', 'mod'):
                o.back = x
            elif k in ('list', 'xlist', 'deque'):
                o.append(x)
            elif k in ('dict', 'od', 'dd'):
                o['back'] = x
    return out


# -- the model ---------------------------------------------------------------------------------------------

PLAIN = (str, list, dict, set, frozenset, int)


def attrs(o):
    if type(o) is weakref.ProxyType:
        return None         # only dead ones are made
    if type(o) in PLAIN or isinstance(o, type) and o in PLAIN:
        return None
    d = getattr(o, '__dict__', None)
    return None if d is None else dict(d)


def items(o):
    """('map', [(key, value)]), ('seq', [...]), ('set', [...]), ('raw', bytes) or None"""
    if type(o) is weakref.ProxyType:
        return None
    if isinstance(o, np.ndarray):
        return ('seq', o.ravel().tolist()) if o.dtype.hasobject else ('raw', (o.tobytes(), o.shape, o.dtype.str))
    if isinstance(o, array.array):
        return ('raw', o.tobytes())
    if isinstance(o, dict):
        return ('map', list(o.items()))
    if isinstance(o, (list, tuple, collections.deque)):
        return ('seq', list(o))
    if isinstance(o, (set, frozenset)):
        return ('set', list(o))
    if isinstance(o, bytes):
        return ('seq', list(o))
    return None


class Shadow:
    def __init__(self):
        self.memo = {}

    def memorise(self, o, force=False):
        todo = [(o, force)]
        while todo:
            o, force = todo.pop()
            if id(o) in self.memo and not force:
                continue
            a, s = attrs(o), items(o)
            self.memo[id(o)] = (o, a, s)
            todo += [(v, False) for v in (a or {}).values()]
            todo += [(v, False) for v in self.parts(s)]

    @staticmethod
    def parts(s):
        if s is None or s[0] == 'raw':
            return []
        return [x for kv in s[1] for x in kv] if s[0] == 'map' else s[1]

    def direct(self, o):
        """({changed names}, items changed) of o itself; None if it was not memorised"""
        if id(o) not in self.memo:
            return None
        _, a, s = self.memo[id(o)]
        na, ns = attrs(o), items(o)
        names = set()
        for k in set(a or ()) | set(na or ()):
            if k not in (a or ()) or k not in (na or ()) or a[k] is not na[k]:
                names.add(k)
        if s is None or ns is None:
            return names, False
        if s[0] == 'raw':
            return names, s[1] != ns[1]
        if s[0] == 'map':
            x, y = [sorted((id(k), id(v)) for k, v in q[1]) for q in (s, ns)]
        elif s[0] == 'set':
            x, y = [sorted(id(k) for k in q[1]) for q in (s, ns)]
        else:
            x, y = [[id(k) for k in q[1]] for q in (s, ns)]
        return names, x != y

    def kids(self, o):
        return list((attrs(o) or {}).values()) + self.parts(items(o))

    def reaches(self, o):
        """does o, or anything it leads to now, differ?"""
        seen, todo = set(), [o]
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            d = self.direct(x)
            if d is None or d[0] or d[1]:
                return True
            todo += self.kids(x)
        return False

    def cyclic(self, o):
        """is there a cycle in what o leads to?"""
        state = {}
        stack = [(o, None)]
        keep = []
        while stack:
            x, it = stack.pop()
            if it is None:
                if state.get(id(x)) == 1:
                    return True
                if state.get(id(x)) == 2:
                    continue
                state[id(x)] = 1
                kids = self.kids(x)
                keep.append(kids)
                it = iter(kids)
            for k in it:
                stack.append((x, it))
                stack.append((k, None))
                break
            else:
                state[id(x)] = 2
        return False


# -- histories ---------------------------------------------------------------------------------------------

def mutate(r, kind, o, pool):
    """change o, or make as if"""
    new = r.choice(pool)[1] if r.random() < .3 else r.choice(ATOMS)(r)
    if kind in ('obj', 'fn', 'mod', 'str', 'eq', 'class'):
        names = [k for k in vars(o) if not k.startswith('__')]
        m = r.choice(['set', 'set', 'del', 'replace', 'same', 'restore', 'swap', 'doc'])
        if m == 'set' or not names:
            setattr(o, 'n%d' % r.randrange(3), new)
            return 'set'
        k = r.choice(names)
        if m == 'del':
            delattr(o, k)
        elif m == 'replace':
            setattr(o, k, new)
        elif m == 'same':
            setattr(o, k, getattr(o, k) if kind != 'class' else vars(o)[k])
        elif m == 'restore':
            old = vars(o)[k]
            delattr(o, k)
            setattr(o, k, old)
        elif m == 'swap' and len(names) > 1:
            j = r.choice(names)
            x, y = vars(o)[k], vars(o)[j]
            setattr(o, k, y)
            setattr(o, j, x)
        elif m == 'doc' and kind in ('mod', 'class'):
            o.__doc__ = 'new doc'
        return m
    if kind in ('arr', 'arr2', 'parr'):
        m = r.choice(['set', 'same'])
        i = r.randrange(len(o))
        o[i] = o[i] + 1 if m == 'set' else o[i]
        return m
    if kind == 'objarr':
        if not len(o):
            return 'none'
        i = r.randrange(len(o))
        m = r.choice(['set', 'same'])
        o[i] = new if m == 'set' else o[i]
        return m
    if kind == 'set':
        m = r.choice(['add', 'remove', 'same', 'grow'])
        if m == 'add' and hashable(new):
            o.add(new)
        elif m == 'remove' and o:
            o.remove(r.choice(sorted(o, key=id)))
        elif m == 'same' and o:
            x = r.choice(sorted(o, key=id))
            o.remove(x)
            o.add(x)
        elif m == 'grow':
            o.update(range(2000, 2100))
            o.difference_update(range(2000, 2100))
        return m
    if kind in ('dict', 'dd', 'od', 'xdict'):
        m = r.choice(['set', 'del', 'replace', 'same', 'restore', 'clear', 'key'])
        k = r.choice(list(o)) if o else None
        if m == 'set' or k is None and not o:
            o['n%d' % r.randrange(3)] = new
        elif m == 'del':
            del o[k]
        elif m == 'replace':
            o[k] = new
        elif m == 'same':
            o[k] = o[k]
        elif m == 'restore':
            v = o.pop(k)
            o[k] = v
        elif m == 'clear':
            o.clear()
        elif m == 'key' and isinstance(k, int):
            v = o.pop(k)
            o[float(k)] = v
        return m
    m = r.choice(['append', 'pop', 'replace', 'same', 'swap', 'insert', 'clear'])
    if m == 'append' or not len(o):
        o.append(new)
        return 'append'
    i = r.randrange(len(o))
    if m == 'pop':
        del o[i]
    elif m == 'replace':
        o[i] = new
    elif m == 'same':
        o[i] = o[i]
    elif m == 'swap':
        j = r.randrange(len(o))
        o[i], o[j] = o[j], o[i]
    elif m == 'insert':
        o.insert(i, new)
    else:
        o.clear()
    return m


def ask(ctx, r, sh, kind, o, what, seen):
    d = ctx.diff
    ctx.count('asked')
    where = '%s after %s' % (kind, what)
    mine = sh.direct(o)
    if mine is None and type(o) is tuple and not o:
        return              # the one empty tuple is memorised by many
    if mine is None:
        ctx.count('unmemorised')
        if not d.has_changed(o):
            ctx.violation('unmemorised|has', where)
        try:
            got = d.whats_changed(o)
            ctx.violation('unmemorised|whats', '%s: %s' % (where, got))
        except RuntimeError:
            pass
        return
    ctx.count('arrays', 'arr' in kind)
    before = (attrs(o), items(o))
    want = sh.reaches(o)
    ctx.count('changed' if want else 'unchanged')
    ctx.nontrivial(kind, what[-2:], want, seen is not None)
    try:
        has = [d.has_changed(o), d.whats_changed(o, simple=True)]
        got = d.whats_changed(o) if seen is None else d.whats_changed(o, seen)
    except Exception as e:
        ctx.violation('raised', '%s: %r' % (where, e))
        return
    for h in has:
        if bool(h) != want:
            ctx.violation('has|%s|%s' % (kind, 'missed' if want else 'invented'), '%s: %r, whats_changed gives %r' % (where, h, got))
    if not (isinstance(got, (tuple, list)) and len(got) == 2 and isinstance(got[0], dict)):
        ctx.violation('shape', '%s: %r' % (where, got))
        return
    names = set(got[0])
    now = attrs(o) or {}
    cyc = sh.cyclic(o)
    full = mine[0] | {k for k, v in now.items() if sh.reaches(v)}
    inside = mine[1] or any(sh.reaches(v) for v in sh.parts(items(o)))
    ctx.count('keys', len(names))
    if not mine[0] <= names:
        ctx.violation('keys|missed|' + kind, '%s: %s, not %s' % (where, sorted(names), sorted(mine[0])))
    if mine[1] and not got[1]:
        ctx.violation('items|missed|' + kind, '%s: %r' % (where, got))
    if not names <= full:
        ctx.violation('keys|invented|' + kind, '%s: %s, only %s changed' % (where, sorted(names), sorted(full)))
    if got[1] and not inside:
        ctx.violation('items|invented|' + kind, where)
    if not cyc:
        ctx.count('acyclic')
        if names != full:
            ctx.violation('keys|deep|' + kind, '%s: %s, not %s' % (where, sorted(names), sorted(full)))
        if bool(got[1]) != bool(inside):
            ctx.violation('items|deep|' + kind, '%s: %r, not %r' % (where, got[1], inside))
    for k, v in got[0].items():
        if (k in now and v is not now[k]) or (k not in now and v is not None):
            ctx.violation('keys|value|' + kind, '%s: %s is %r' % (where, k, v))
    after = (attrs(o), items(o))
    if before[0] is not None and {k: id(v) for k, v in before[0].items()} != {k: id(v) for k, v in after[0].items()} or [id(x) for x in sh.parts(before[1])] != [id(x) for x in sh.parts(after[1])]:
        ctx.violation('modified', where)


SCRIPT = """
import importlib, io, sys, warnings
warnings.simplefilter('ignore')
out, sys.stdout = sys.stdout, io.StringIO()
first, later = eval(sys.argv[1])
def load(names):
    for m in names:
        try: __import__(m)
        except BaseException as e:
            if isinstance(e, RecursionError): raise
load(first)
import dill
d = importlib.import_module('dill.__diff')
known = len(d.memo)
class A: pass
a = A()
a.part = [1, {2: [3]}]
d.memorise(a)
assert d.whats_changed(a) == ({}, False), d.whats_changed(a)
load(later)
a.part[1][2].append(4)
assert d.whats_changed(a) == ({'part': a.part}, False), d.whats_changed(a)
assert d.has_changed(a)
n = 0
for m in later:
    if m in sys.modules and m not in first:
        # memorised by its import
        import types
        mod = sys.modules[m]
        if type(mod) is types.ModuleType and id(mod) in d.memo:
            mod.vf_new_name = [1]
            c, s = d.whats_changed(mod)
            assert 'vf_new_name' in c, m
            n += 1
sys.stdout = out
print('fine', known, n)
"""


def modules(ctx, r):
    """differencing starts in an interpreter that has many modules"""
    pool = [m for m in sorted(sys.stdlib_module_names) if not m.startswith('_') and m not in ('antigravity', 'this', 'idlelib', 'turtle', 'turtledemo', 'lib2to3', 'tkinter', 'nt', 'winreg', 'pty', 'webbrowser')]
    pool += ['unittest.mock', 'unittest.mock', 'numpy', 'numpy.ma', 'sympy', 'attr', 'multiprocess', 'xml.dom.minidom', 'concurrent.futures.thread', 'email.mime.text', 'logging.handlers', 'vf.fx', 'vf.fx_hooks', 'importlib.metadata']
    first, later = r.sample(pool, r.choice([1, 10, 60, 200])), r.sample(pool, 8)
    if r.random() < .3:
        first.append('unittest.mock')
    env = core.child_env(ctx.scratch, {})
    p = subprocess.run([core.PY, '-c', SCRIPT, repr((first, later))], cwd=ctx.scratch, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=200)
    last = p.stdout.split('\n')[-2:][0].split()
    ctx.count('interpreters')
    if p.returncode or last[:1] != ['fine']:
        ctx.violation('modules|%s' % (p.stderr.strip().split('\n')[-1][:60]), 'with %s, later %s: %s%s' % (first, later, p.stdout[-200:], p.stderr[-800:]))
        return
    ctx.count('modules_memorised', int(last[1]))
    ctx.count('modules_later', int(last[2]))
    ctx.nontrivial('modules', sorted(first), later)


def run_case(ctx, c):
    if c.get('modules'):
        return modules(ctx, ctx.rng('modules', c['i']))
    if isinstance(ctx.diff, Exception):
        ctx.violation('cannot-start', 'differencing cannot be imported here: %r' % (ctx.diff,))
        return
    r = ctx.rng(c['i'])
    d = ctx.diff
    pool = graph(r)
    sh = Shadow()
    log = []
    for k, o in pool if r.random() < .5 else [r.choice(pool) for i in range(3)]:
        (d.memorise if r.random() < .8 else lambda o: d.memorise(o, False))(o)
        sh.memorise(o)
    for q in range(r.choice([2, 4, 8])):
        act = r.choice(['mutate', 'mutate', 'mutate', 'none', 'memorise', 'force', 'many', 'release'])
        if act in ('mutate', 'many'):
            for i in range(1 if act == 'mutate' else 4):
                k, o = r.choice(pool)
                if k in MUTABLE:
                    log.append('%s %s' % (k, mutate(r, k, o, pool)))
                    ctx.count('mutations')
        elif act == 'memorise':
            k, o = r.choice(pool)
            d.memorise(o)
            sh.memorise(o)
            log.append('memorise %s' % k)
        elif act == 'force':
            for i in range(r.choice([1, 3])):
                k, o = r.choice(pool)
                d.memorise(o, force=True)
                sh.memorise(o, True)
                log.append('force %s' % k)
                ctx.count('forced')
        elif act == 'release':
            # what is alive stays memorised
            x = A()
            x.part = A()
            d.memorise(x)
            i, j = id(x), id(x.part)
            del x
            if r.random() < .2:
                d.release_gone()
                ctx.count('released')
                if i in d.memo or i in d.id_to_obj:
                    ctx.violation('release|kept', 'what is gone is still memorised')
            log.append('release')
        seen = {} if r.random() < .3 else None
        for k, o in [r.choice(pool) for i in range(4)]:
            ask(ctx, r, sh, k, o, log[-6:], seen)
    del sh
    pool.clear()
    if c['i'] % 64 == ctx.shard % 8:
        d.release_gone()
