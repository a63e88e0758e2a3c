"""Random plain-object graphs with sharing, cycles and awkward values."""
import array, collections, datetime, decimal, fractions, functools, math, operator, pathlib, re, uuid
from . import fx

INTS = [0, 1, -1, 2, 127, 128, 255, 256, 257, 65535, 65536, -128, -32769, 2**31 - 1, 2**31, -2**31, -2**31 - 1,
        2**32, 2**63 - 1, 2**63, -2**63, 2**64, 10**50, -10**50, 2**2039, -(2**2040), 2**4000]
FLOATS = [0.0, -0.0, 1.0, -1.5, float('inf'), float('-inf'), float('nan'), 5e-324, 1.7976931348623157e308,
          0.1, 1e16, 3.141592653589793]
STRS = ['', 'a', 'abc', '\x00', '\n', 'a\r\nb', '\u00e9', '\u4e2d\u6587', '\U0001f600', '\ud800', 'x\udcffy',
        '\\u0041', '\\', "'\"", '__main__', 'a' * 255, 'b' * 256, '\u00e9' * 130, '\x1a\x85\u2028', 'builtins',
        '\\\n\x00\x1a']
BYTES = [b'', b'a', b'\x00', b'\xff\xfe', b'\n', b"'\"\\", b'x' * 255, b'y' * 256, bytes(range(256))]


def atom(r):
    k = r.randrange(14)
    if k < 3:
        return r.choice(INTS)
    if k < 4:
        return r.randrange(-10**6, 10**6)
    if k < 6:
        return r.choice(FLOATS)
    if k < 9:
        return r.choice(STRS)
    if k < 10:
        return ''.join(chr(r.choice([r.randrange(32, 127), r.randrange(0, 0x3000)])) for _ in range(r.randrange(12)))
    if k < 12:
        return r.choice(BYTES)
    return r.choice([None, True, False, Ellipsis, NotImplemented, 1j, complex(-0.0, float('nan')), complex(2, -3)])


def leaf(r):
    """values that are objects but have no graph children"""
    k = r.randrange(34)
    if k == 0: return range(r.randrange(-5, 5), r.randrange(5, 50), r.randrange(1, 4))
    if k == 1: return slice(r.choice([None, 1, 'a']), r.choice([None, 5]), r.choice([None, -1, 2.5]))
    if k == 2: return datetime.datetime(2020, 1, 2, 3, 4, 5, 678901, tzinfo=r.choice([None, datetime.timezone.utc]), fold=r.randrange(2))
    if k == 3: return datetime.timedelta(days=-r.randrange(9), microseconds=5)
    if k == 4: return datetime.date(1999, 12, 31)
    if k == 5: return datetime.timezone(datetime.timedelta(minutes=-330), 'X')
    if k == 6: return decimal.Decimal(r.choice(['0', '-0.0', 'NaN1', '1E+10', 'Infinity', '3.1400']))if True else None
    if k == 7: return fractions.Fraction(r.randrange(-9, 9), 7)
    if k == 8: return uuid.UUID(int=r.getrandbits(128))
    if k == 9: return pathlib.PurePosixPath('/a/b', str(r.randrange(9)))
    if k == 10: return array.array(r.choice('bHidf'), [1, 2, 3])
    if k == 11: return re.compile(r.choice(['a+', '(?i)x', '\\d']), r.choice([0, re.M]))
    if k == 12: return r.choice([fx.Color.RED, fx.Color.BLUE, fx.Perm.R | fx.Perm.W, fx.Level.HIGH, fx.Perm(0)])
    if k == 13: return r.choice([len, print, math.sin, operator.add, [].__class__.append, dict.fromkeys, object])
    if k == 14: return r.choice([int, dict, type, type(None), type(...), type(NotImplemented), collections.OrderedDict, fx.Plain,
                                 fx.Plain.Nested, fx.Color, fx.Point, ValueError, type(len), type(lambda: 0), type(int.__add__)])
    if k == 15: return r.choice([fx.topfunc, fx.adder, fx.Plain.meth, fx.Plain.smeth, collections.namedtuple])
    if k == 16: return fx.SINGLETON
    if k == 17: return fx.Hashed(r.randrange(5))
    if k == 18: return fx.StrSub(r.choice(STRS[:12]))
    if k == 19: return fx.IntSub(r.choice(INTS[:20]))
    if k == 20: return fx.FloatSub(r.choice(FLOATS[:5]))
    if k == 21: return fx.BytesSub(r.choice(BYTES))
    if k == 22: return bytearray(r.choice(BYTES))
    if k == 23: return fx.Frozen(r.randrange(9), 'zz')
    if k == 24: return fx.FalsyState()
    if k == 25: return operator.itemgetter(*([1] if r.random() < .5 else [2, 'k']))
    if k == 26: return operator.attrgetter(*(['a'] if r.random() < .5 else ['a.b', 'c']))
    if k == 27: return operator.methodcaller('foo', 1, x=2)
    if k == 28: return fx.EqAll(r.randrange(9))
    if k == 29: return fx.EqRaises(r.randrange(9))
    if k == 30: return fx.BadRepr(r.randrange(9))
    if k == 31: return list[int] if r.random() < .5 else dict[str, list[int]]
    if k == 32: return fx.Plain.cmeth
    return datetime.time(1, 2, 3, 4)


# containers: (make empty, fill) so that anything may refer to anything
MUT = ['list', 'dict', 'set', 'odict', 'ddict', 'deque', 'plain', 'plain', 'slots', 'slotsdict', 'privslots',
       'dictsub', 'listsub', 'setsub', 'state', 'tstate', 'rebuilt', 'data', 'slotdata', 'counter', 'list', 'dict',
       'setter', 'ordsub', 'error', 'bound', 'falsy', 'getattr', 'tuplestate']
IMM = ['tuple', 'tuple', 'tuple', 'frozenset', 'point', 'pointd', 'typed', 'tuplesub', 'partial', 'newargs',
       'newargsex', 'copyreg', 'frozensub']


def hashable(r, pool):
    k = r.randrange(8)
    if k < 4:
        a = atom(r)
        return a
    if k < 5:
        return tuple(atom(r) for _ in range(r.randrange(3)))
    if k < 6:
        return frozenset([r.randrange(5), 'q'])
    if k < 7:
        return r.choice([fx.Color.RED, fx.Hashed(r.randrange(4)), int, len, fx.Level.LOW, fx.Point(1, 'p')])
    return fx.StrSub('k%d' % r.randrange(5))


def build(r, n, wide=0):
    """returns (root, stats)"""
    nodes = []
    fills = []
    kinds = collections.Counter()

    def ref():
        k = r.random()
        if k < .25 or not nodes:
            return atom(r)
        if k < .4:
            return leaf(r)
        return r.choice(nodes)

    # phase 1: empty mutable shells
    for i in range(n):
        k = r.choice(MUT)
        kinds[k] += 1
        if k == 'list': o = []
        elif k == 'dict': o = {}
        elif k == 'set': o = set()
        elif k == 'odict': o = collections.OrderedDict()
        elif k == 'ddict': o = collections.defaultdict(r.choice([int, list, None, fx.adder]))
        elif k == 'deque': o = collections.deque(maxlen=r.choice([None, 10]))
        elif k == 'plain': o = fx.Plain()
        elif k == 'slots': o = fx.Slots()
        elif k == 'slotsdict': o = fx.SlotsDict()
        elif k == 'privslots': o = fx.PrivSlots()
        elif k == 'dictsub': o = fx.DictSub()
        elif k == 'ordsub': o = fx.OrdSub()
        elif k == 'listsub': o = fx.ListSub()
        elif k == 'setsub': o = fx.SetSub()
        elif k == 'state': o = fx.StateObj()
        elif k in ('tstate', 'tuplestate'): o = fx.TupleState()
        elif k == 'rebuilt': o = fx.Rebuilt()
        elif k == 'setter': o = fx.Setter()
        elif k == 'data': o = fx.Data(i)
        elif k == 'slotdata': o = fx.SlotData(i)
        elif k == 'counter': o = collections.Counter()
        elif k == 'error': o = r.choice([ValueError('m', i), fx.MyError('a', i), OSError(2, 'x'), KeyError('k')])
        elif k == 'falsy': o = fx.Falsy(None)
        elif k == 'getattr': o = fx.GetAttrAny(None)
        elif k == 'bound': o = fx.Plain()
        nodes.append(o)
        fills.append((k, o))
    nodes += [leaf(r) for _ in range(n // 4)]
    # phase 2: immutables, each over anything that exists
    for i in range(max(1, n // 3)):
        k = r.choice(IMM)
        kinds[k] += 1
        m = r.choice([0, 1, 2, 3, 4, 5])
        if k == 'tuple': o = tuple(ref() for _ in range(m))
        elif k == 'frozenset': o = frozenset(hashable(r, nodes) for _ in range(m))
        elif k == 'frozensub': o = fx.FrozenSub(hashable(r, nodes) for _ in range(m))
        elif k == 'point': o = fx.Point(ref(), ref())
        elif k == 'pointd': o = fx.PointD(ref(), ref())
        elif k == 'typed': o = fx.Typed('n', r.randrange(9))
        elif k == 'tuplesub':
            # contents are passed through __reduce__ args: no cycles through itself
            o = fx.TupleSub(atom(r) for _ in range(m))
            o.extra = atom(r)
        elif k == 'partial': o = functools.partial(fx.topfunc, atom(r), c=leaf(r))
        elif k == 'newargs': o = fx.NewArgs(atom(r), atom(r))
        elif k == 'newargsex': o = fx.NewArgsEx(atom(r), b=atom(r))
        elif k == 'copyreg': o = fx.CopyReg(atom(r))
        nodes.append(o)
    # phase 3: fill
    for k, o in fills:
        m = r.choice([0, 1, 2, 3, 4])
        if k in ('list', 'listsub'): o.extend(ref() for _ in range(m))
        elif k == 'deque': o.extend(ref() for _ in range(m))
        elif k in ('set', 'setsub'): o.update(hashable(r, nodes) for _ in range(m))
        elif k in ('dict', 'dictsub', 'odict', 'ordsub', 'ddict'):
            for _ in range(m):
                o[hashable(r, nodes)] = ref()
            if r.random() < .06:
                # keys that look like those of a module's namespace
                o['__name__'] = r.choice([ref, lambda: fx.StrSub('math'), lambda: 'math', lambda: 'no_such_module', lambda: ['os'], lambda: '', lambda: b'math', lambda: '__main__', lambda: 'vf.fx'])()
                o[r.choice(['__doc__', '__file__', '__dict__', '__builtins__', '__main__', '__class__'])] = ref()
            if k == 'dict' and r.random() < .15:
                # an identity-hashed key that may be part of a cycle
                o[r.choice([x for x in nodes if type(x) is fx.Plain] or [1])] = ref()
        elif k == 'counter':
            for _ in range(m): o[hashable(r, nodes)] += r.randrange(5)
        elif k in ('plain', 'getattr'):
            for j in range(m): o.__dict__['a%d' % r.randrange(6)] = ref()
        elif k == 'bound':
            o.b = r.choice([fx.Plain(q=1).meth, fx.Plain.cmeth, o.meth])
        elif k == 'slots':
            for s in r.sample('abc', min(m, 3)): setattr(o, s, ref())
        elif k == 'slotsdict':
            for s in r.sample('abcde', min(m, 5)): setattr(o, s, ref())
        elif k == 'privslots':
            if m: o.set(ref(), ref())
        elif k == 'state': o.v = ref(); o.log = 'L%d' % m
        elif k in ('tstate', 'tuplestate'): o.a, o.b = ref(), ref()
        elif k == 'rebuilt':
            o.args = [atom(r) for _ in range(m)]
            o.L = [ref() for _ in range(m)]
            o.D = {i: ref() for i in range(m)}
            o.st = ref() if r.random() < .5 else None
            if not o.st and o.st is not None: o.st = None
        elif k == 'setter': o.v = ref()
        elif k == 'data': o.y.extend(ref() for _ in range(m)); o.z = ref()
        elif k == 'slotdata': o.y = ref()
        elif k == 'error':
            if m > 1: o.note = ref()
        elif k == 'falsy': o.v = ref()
    root = r.choice(nodes) if r.random() < .3 else list(nodes)
    if r.random() < .2:
        root = (root, nodes[0], root)
    if wide:
        root = [root, shape(r, wide)]
    return root, kinds


def shape(r, which):
    """sizes around the encoder's batch / memo / framing limits"""
    w = r.choice([999, 1000, 1001, 2000, 2001, 2500])
    k = which % 9
    if k == 0: return list(range(w))
    if k == 1: return {i: str(i) for i in range(w)}
    if k == 2: return set(range(w))
    if k == 3: return [[i] for i in range(r.choice([255, 256, 257, 300]))]
    if k == 4: return ['s' * 70000, b'b' * 70000, bytearray(b'c' * 70000), ['x' * 40000, 'y' * 40000]]
    if k == 5:
        x = []
        for i in range(r.choice([20, 60])):
            x = r.choice([lambda v: [v], lambda v: {'k': v}, lambda v: (v,), lambda v: fx.Plain(a=v)])(x)
        return x
    if k == 6: return collections.OrderedDict((i, i) for i in range(w))
    if k == 7: return fx.ListSub([fx.Point(i, i) for i in range(w)])
    shared = [1]
    return [(shared, i) for i in range(w)]
