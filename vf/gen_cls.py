"""Random user-defined classes, composed from feature snippets.

Each class is a unit with probe expressions; probes must be deterministic and
must not depend on object addresses.
"""

HEADER = '''import abc, collections, dataclasses, functools, typing, operator
from vf import fx
'''

# feature -> (body lines, probes); %(C)s class name, %(n)s unique number
FEATURES = {
    'init': (['def __init__(self, a=1, *b, **k):', '    self.a = a', '    self.b = list(b)', '    self.__dict__.update(k)'],
             ['vars(mk({C}, 4, 5, z=6))']),
    'method': (['def meth{n}(self, x=[0]):', '    """method doc"""', '    x.append(len(x))', '    return (type(self).__name__, list(x))'],
               ['mk({C}).meth{n}()', 'mk({C}).meth{n}()', '{C}.meth{n}.__doc__', '{C}.meth{n}.__qualname__', 'mk({C}).meth{n}([9])']),
    'classmethod': (['@classmethod', 'def make{n}(cls, *a):', '    return (cls.__name__, a)'],
                    ['{C}.make{n}(1)', 'mk({C}).make{n}()', '{C}.make{n}.__self__ is {C}', 'type({C}.__dict__["make{n}"]).__name__']),
    'staticmethod': (['@staticmethod', 'def st{n}(x, y=2):', '    return (x, y)'], ['{C}.st{n}(1)', 'mk({C}).st{n}(1, 3)', 'type({C}.__dict__["st{n}"]).__name__']),
    'property': (['@property', 'def prop{n}(self):', '    "prop doc"', '    return getattr(self, "_p{n}", "unset")',
                  '@prop{n}.setter', 'def prop{n}(self, v): self._p{n} = ("set", v)', '@prop{n}.deleter', 'def prop{n}(self): self._p{n} = "deleted"'],
                 ['mk({C}).prop{n}', 'setget(mk({C}), "prop{n}", 5)', 'delget(mk({C}), "prop{n}")', '{C}.prop{n}.__doc__']),
    'rprop': (['rp{n} = property(lambda self: 42, doc="ro")'], ['mk({C}).rp{n}', 'setget(mk({C}), "rp{n}", 5)', '{C}.rp{n}.__doc__']),
    'cached_property': (['@functools.cached_property', 'def cp{n}(self): return [type(self).__name__]'],
                        ['(lambda o: (o.cp{n}, o.cp{n} is o.cp{n}, sorted(vars(o))))(mk({C}))', '{C}.cp{n}.attrname']),
    'attrs': (['CONST{n} = (1, [2, 3], {{"k": {{4}}}})', 'shared{n} = CONST{n}[1]', 'none{n} = None', 'fs{n} = frozenset((1, 2))'],
              ['{C}.CONST{n}', '{C}.shared{n} is {C}.CONST{n}[1]', '{C}.none{n}', '{C}.fs{n}']),
    'annot': (['x{n}: int = 3', 'y{n}: "typing.List[int]"', 'z{n}: typing.Optional[str] = None'], ['{C}.__annotations__', '{C}.x{n}']),
    'doc': (['"""class doc {n}"""'], ['{C}.__doc__']),
    'super': (['def __repr__(self):', '    return "<%s %d>" % (__class__.__name__, len(super().__repr__()) > 0)'], ['repr(mk({C}))']),
    'super2': (['def sup{n}(self):', '    return (super().__class__.__name__, hasattr(super(), "sup{n}"), __class__ is type(self))'], ['mk({C}).sup{n}()']),
    'eq': (['def __eq__(self, o): return type(o) is type(self)', '__hash__ = None'], ['mk({C}) == mk({C})', 'mk({C}) == 1', 'many(hash, (mk({C}),))']),
    'hash': (['def __hash__(self): return 77', 'def __eq__(self, o): return isinstance(o, __class__)'], ['hash(mk({C}))', 'len({{mk({C}), mk({C})}})']),
    'call': (['def __call__(self, *a, **k): return (a, k)'], ['mk({C})(1, x=2)']),
    'container': (['def __len__(self): return 3', 'def __getitem__(self, i):', '    if i > 2: raise IndexError(i)', '    return i * 2',
                   'def __contains__(self, x): return x == "in"', 'def __iter__(self): yield from (7, 8)'],
                  ['len(mk({C}))', 'mk({C})[1]', 'many(mk({C}).__getitem__, (5,))', '"in" in mk({C})', 'list(mk({C}))', 'bool(mk({C}))']),
    'getattr': (['def __getattr__(self, n):', '    if n.startswith("dyn"): return n.upper()', '    raise AttributeError(n)'],
                ['mk({C}).dynamic', 'many(getattr, (mk({C}), "nope"))']),
    'ctx': (['def __enter__(self): return "in"', 'def __exit__(self, *a): return True'], ['withit(mk({C}))']),
    'ops': (['def __add__(self, o): return ("add", o)', 'def __radd__(self, o): return ("radd", o)', 'def __lt__(self, o): return True',
             'def __bool__(self): return False', 'def __index__(self): return 5'], ['mk({C}) + 1', '1 + mk({C})', 'mk({C}) < 3', 'bool(mk({C}))', '[0]*10 and list(range(9))[mk({C})]']),
    'newdunder': (['def __new__(cls, *a, **k):', '    self = super().__new__(cls)', '    self.made = cls.__name__', '    return self'],
                  ['mk({C}).made']),
    'selfref': (['def me{n}(self): return {C}'], ['mk({C}).me{n}().__name__']),
    'nested': (['class Inner{n}:', '    val = [1]', '    def hi(self): return (type(self).__qualname__, self.val)'],
               ['{C}.Inner{n}().hi()', '{C}.Inner{n}.__qualname__', '{C}.Inner{n}.__module__']),
    'init_subclass': (['def __init_subclass__(cls, **kw):', '    super().__init_subclass__(**kw)', '    cls.tagged{n} = cls.__name__'],
                      ['type("Sub", ({C},), {{}}).tagged{n}', '"tagged{n}" in vars({C})']),
    'set_name': (['field{n} = fx.Named()'], ['{C}.field{n}', '{C}.__dict__["field{n}"].where[1]']),
    'desc': (['d{n} = fx.Descr([1])'], ['mk({C}).d{n}', 'setget(mk({C}), "d{n}", 9)', '{C}.d{n}']),
    'lru': (['@functools.lru_cache(maxsize=3)', 'def cached{n}(self, x=1): return x * 2'], ['mk({C}).cached{n}(4)', '{C}.cached{n}.cache_parameters()']),
    'partialmethod': (['def _base{n}(self, a, b): return (a, b)', 'pm{n} = functools.partialmethod(_base{n}, 1)'], ['mk({C}).pm{n}(2)']),
    'sdm': (['@functools.singledispatchmethod', 'def sd{n}(self, x): return "obj"', '@sd{n}.register', 'def _(self, x: int): return "int"'],
            ['mk({C}).sd{n}(1)', 'mk({C}).sd{n}("")']),
    'class_getitem': (['def __class_getitem__(cls, k): return (cls.__name__, k)'], ['{C}[int]']),
    'gen': (['def gen{n}(self, k=3):', '    for i in range(k): yield (i, type(self).__name__)', 'async def co{n}(self): return 5'],
            ['list(mk({C}).gen{n}())', 'drive(mk({C}).co{n}())']),
    'lambda': (['lam{n} = lambda self, k=5: (k, isinstance(self, object))'], ['mk({C}).lam{n}()', '{C}.lam{n}.__name__']),
    'private': (['__secret{n} = ["p"]', 'def _get{n}(self): return self.__secret{n}'], ['mk({C})._get{n}()', 'sorted(k for k in vars({C}) if "secret" in k)']),
    'borrowed': (['conj{n} = len', 'cnt{n} = operator.itemgetter(0)', 'up{n} = str.upper', 'oe{n} = collections.OrderedDict'],
                 ['{C}.conj{n} is len', '{C}.up{n}("a")', '{C}.oe{n} is __import__("collections").OrderedDict']),
    'kept_hash': (['def __eq__(self, o): return self is o', '__hash__ = object.__hash__'], ['{C}.__hash__ is object.__hash__', 'isinstance(many(hash, (mk({C}),)), list)', 'hash(mk({C})) is None']),
    'removed_hash': (['def __eq__(self, o): return self is o'], ['{C}.__hash__', 'many(hash, (mk({C}),))']),
    'match_args': (['__match_args__ = ("a", "b")'], ['{C}.__match_args__']),
    'fn_attr': (['def withattr{n}(self): return 1', 'withattr{n}.tags = ["t", {{"u": 1}}]'], ['{C}.withattr{n}.tags']),
    'alias': (['def first{n}(self): return "f"', 'second{n} = first{n}'], ['{C}.first{n} is {C}.second{n}', 'mk({C}).second{n}()', '{C}.second{n}.__name__']),
    'wrapped': (['@fx.deco', 'def deco{n}(self, x): return (x, 1)'], ['mk({C}).deco{n}(4)', '{C}.deco{n}.__wrapped__.__name__']),
    'weakstate': (['def __getstate__(self): return {{"got": sorted(vars(self))}}', 'def __setstate__(self, s): self.restored = s'],
                  ['mk({C}).__getstate__()']),
    'str': (['def __str__(self): return "str{n}"', 'def __format__(self, s): return "fmt" + s', 'def __bytes__(self): return b"by"'],
            ['str(mk({C}))', 'format(mk({C}), "z")', 'bytes(mk({C}))']),
    'static_lambda': (['sl{n} = staticmethod(lambda *a: a)', 'cl{n} = classmethod(lambda c, *a: (c.__name__, a))'], ['mk({C}).sl{n}(1)', '{C}.cl{n}(2)']),
    'comp': (['squares{n} = [i * i for i in range(4)]', 'lookup{n} = {{i: (lambda i=i: i) for i in range(3)}}'], ['{C}.squares{n}', '[f() for f in {C}.lookup{n}.values()]']),
    'instattr': (['singleton{n} = fx.SINGLETON', 'exc{n} = ValueError("x", 1)', 'kind{n} = fx.Plain'], ['{C}.singleton{n} is __import__("vf.fx").fx.SINGLETON', '{C}.exc{n}.args', '{C}.kind{n}.__name__']),
    'delattr': (['def __delattr__(self, n): object.__setattr__(self, "gone", n)', 'def __setattr__(self, n, v): object.__setattr__(self, n, ("via", v))'],
                ['setget(mk({C}), "q", 1)', 'delget2(mk({C}), "q")']),
    'dirsize': (['def __dir__(self): return ["one", "two"]', 'def __sizeof__(self): return 10'], ['dir(mk({C}))', 'mk({C}).__sizeof__()']),
    'copyrt': (['def __copy__(self): return "copied"', 'def __deepcopy__(self, memo): return "deep"'], ['__import__("copy").copy(mk({C}))']),
    'unicode': (['\u00e9t\u00e9{n} = "\u2603"', 'def na\u00efve{n}(self): return self.\u00e9t\u00e9{n}'], ['mk({C}).na\u00efve{n}()']),
}
CONFLICTS = [{'eq', 'hash', 'removed_hash', 'kept_hash'}, {'delattr', 'property', 'desc'}, {'ops', 'container'}, {'call', 'class_getitem'}]
SLOTTABLE = ['method', 'classmethod', 'staticmethod', 'attrs', 'doc', 'eq', 'call', 'container', 'getattr', 'selfref', 'nested', 'borrowed', 'lambda',
             'private', 'rprop', 'str', 'gen', 'class_getitem', 'super2', 'hash', 'alias', 'fn_attr', 'comp', 'ops', 'dirsize', 'partialmethod']

BASES = ['object'] * 14 + [ 'dict', 'list', 'int', 'str', 'tuple', 'set', 'Exception', 'float', 'collections.OrderedDict',
         'fx.Plain', 'collections.UserDict', 'bytes', 'collections.deque', 'complex', 'frozenset', 'fx.AbstractThing', 'collections.Counter']
BASE_PROBES = {
    'dict': ['mk({C}, {{1: 2}}) == {{1: 2}}'], 'list': ['list(list.__iter__(mk({C}, [1, 2])))'], 'int': ['int.__add__(mk({C}, 4), 1)'],
    'str': ['str.__len__(mk({C}, "abc"))'], 'tuple': ['tuple.__len__(mk({C}, (1, 2)))'], 'Exception': ['many(raise_, (mk({C}, 1),))'],
    'set': ['set.__len__(mk({C}, [1, 1]))'],
}


def mk(cls, *a, **k):
    """an instance made as leniently as possible"""
    try:
        return cls(*a, **k)
    except TypeError:
        return cls()


def setget(o, n, v):
    try:
        setattr(o, n, v)
        return getattr(o, n)
    except Exception as e:
        return type(e).__name__


def delget(o, n):
    try:
        setattr(o, n, 1)
        delattr(o, n)
        return getattr(o, n)
    except Exception as e:
        return type(e).__name__


def delget2(o, n):
    try:
        delattr(o, n)
        return o.gone
    except Exception as e:
        return type(e).__name__


def withit(o):
    with o as v:
        raise KeyError
    return v


def raise_(e):
    raise e


def clean(s):
    import re
    return re.sub('0x[0-9a-f]+', '0x', s)


EXTRA_NS = {'clean': clean, 'mk': mk, 'setget': setget, 'delget': delget, 'delget2': delget2, 'withit': withit, 'raise_': raise_}


class Gen:
    def __init__(self, r, prefix='', noname=False):
        self.noname = noname
        self.r = r
        self.n = 0
        self.prefix = prefix
        self.lines = []
        self.units = []
        self.classes = []      # (name, root base, slotted)
        self.kinds = []
        self.odd = set()

    def uid(self):
        self.n += 1
        return '%sK%d' % (self.prefix, self.n)

    def plain(self):
        r = self.r
        C = self.uid()
        parents = []
        root = None
        if self.classes and r.random() < .55:
            k = r.choice(self.classes)
            parents.append(k[0])
            root = k[1]
            if r.random() < .35:
                other = r.choice(self.classes)
                if other[0] != k[0] and (other[1] == 'object' or other[1] == root):
                    parents.append(other[0])
        else:
            root = r.choice(BASES)
            if root != 'object' or r.random() < .3:
                parents.append(root)
        kw = ''
        meta = r.random()
        if meta < .12 and root == 'object' and not self.classes:
            kw = 'metaclass=fx.Meta'
        elif meta < .2 and root == 'object' and not self.classes:
            kw = 'metaclass=abc.ABCMeta'
        slots = None
        if r.random() < .22:
            slots = r.choice(['("s1", "s2")', '["s1", "__dict__"]', '"only"', '("s1", "__weakref__")', '()', '("__hidden", "s_2")', '"_u"', '"__prv"', '"ab"', '("_a", "__w", "__dict__", "__weakref__")', '["__hidden"]', '{"_a": "doc of a", "s1": None}'])
            if root in ('int', 'tuple', 'bytes', 'str') and slots != '()':
                slots = '()'
        feats = r.sample(SLOTTABLE if slots else sorted(FEATURES), r.randrange(0, 7))
        for grp in CONFLICTS:
            got = [f for f in feats if f in grp]
            for f in got[1:]:
                feats.remove(f)
        if root not in ('object',) and root is not None:
            feats = [f for f in feats if f not in ('newdunder', 'init', 'eq', 'hash', 'container', 'delattr', 'ops', 'removed_hash', 'kept_hash')]
        if root == 'str':
            feats = [f for f in feats if f != 'str']     # protocols 0 and 1 rebuild str(self)
        body, probes = [], []
        feats.sort(key=lambda f: f != 'doc')
        for f in feats:
            src, pr = FEATURES[f]
            n = r.randrange(100)
            body += [l.format(C=C, n=n) if ('{n}' in l or '{C}' in l or '{{' in l) else l for l in src]
            probes += [p.format(C=C, n=n) for p in pr]
        if slots:
            body.append('__slots__ = ' + slots)
            probes += ['setget(mk(%s), "s1", 3)' % C, 'setget(mk(%s), "zz", 3)' % C, 'hasattr(mk(%s), "__dict__")' % C,
                       'setget(mk(%s), "_%s__hidden", 4)' % (C, C.lstrip('_')), 'setget(mk(%s), "_u", 4)' % C, 'setget(mk(%s), "_%s__prv", 4)' % (C, C.lstrip('_')),
                       'setget(mk(%s), "ab", 4)' % C, 'setget(mk(%s), "_a", 4)' % C, 'many(lambda: %s._a.__doc__)' % C]
        deco = ''
        if r.random() < .1:
            deco = r.choice(['@functools.total_ordering\n', '@fx.mark\n', '@typing.final\n', '@fx.mark\n'])
            if 'total_ordering' in deco:
                if 'ops' not in feats:
                    body.append('def __lt__(self, o): return id(self) < 0')
        if not body:
            body = ['pass']
        head = '%sclass %s(%s):' % (deco, C, ', '.join(parents + ([kw] if kw else [])))
        self.lines.append(head + '\n' + '\n'.join('    ' + l for l in body))
        probes += [p.format(C=C) for p in BASE_PROBES.get(root, [])]
        probes += ['[k.__name__ for k in %s.__mro__]' % C, '%s.__qualname__' % C, '%s.__module__' % C, 'type(%s).__name__' % C,
                   'many(%s)' % C, 'type(mk(%s)) is %s' % (C, C), 'sorted(k for k in dir(%s) if k[:1] != "_")' % C, '%s.__flags__ & 0x3ff' % C,
                   '(%s.__basicsize__, %s.__itemsize__, %s.__dictoffset__, %s.__weakrefoffset__)' % (C, C, C, C)]
        self.units.append((C, probes, '+'.join(sorted(feats) + ([root] if root else []) + (['slots'] if slots else []) + ([kw] if kw else []))))
        self.classes.append((C, root, slots))
        self.kinds += feats
        if 'weakstate' in feats or 'delattr' in feats or any(p in self.odd for p in parents):
            self.odd.add(C)
        elif r.random() < .5 and (root == 'object' or root in ('dict', 'list', 'int', 'str', 'tuple', 'float', 'Exception', 'fx.Plain')
                                  and not any(k[2] for k in self.classes)):
            self.instance(C, bool(slots))

    def instance(self, C, slots):
        r = self.r
        I = 'i' + C
        self.lines.append('try: %s = [%s(), 1]\nexcept TypeError: %s = [None]\n'
                          'for _n, _v in (("s1", [1]), ("extra", {"k": %s[0]}), ("deep", (1, [%s[0]])), ("_p1", 2)):\n'
                          '    try: setattr(%s[0], _n, _v)\n    except Exception: pass' % (I, C, I, I, I, I))
        self.units.append((I, ['type(%s[0]).__name__' % I, 'sorted(vars(%s[0]))' % I, '%s[0].deep[1][0] is %s[0]' % (I, I), '%s[0].s1' % I,
                               '%s[0].extra' % I], 'instance' + ('+slots' if slots else '')))

    # -- special shapes
    def special(self, kind=None):
        r = self.r
        C = self.uid()
        kind = kind or r.choice(sorted(n for n in dir(self) if n.startswith('s_') and n != 's_cycle' and not (self.noname and n == 's_bare')))
        src, probes = getattr(self, kind)(C)
        self.lines.append(src)
        self.units.append((C, [p.replace('{C}', C) for p in probes] + ['%s.__qualname__' % C], kind))
        self.kinds.append(kind)

    def s_dataclass(self, C):
        opts = self.r.choice(['', '(frozen=True)', '(order=True)', '(slots=True)', '(eq=False)', '(kw_only=True)', '(unsafe_hash=True)', '(repr=False)'])
        return ('@dataclasses.dataclass%s\nclass %s:\n    """dc"""\n    a: int\n    b: str = "x"\n    c: list = dataclasses.field(default_factory=list, compare=False)\n'
                '    d: typing.ClassVar[int] = 7\n    def total(self): return (self.a, self.b, self.c)' % (opts, C),
                ['clean(repr({C}(a=1)))', '{C}(a=1, b="q").total()', '[f.name for f in dataclasses_fields({C})]', 'many(lambda: {C}(a=1) < {C}(a=2))',
                 '{C}(a=1).c is {C}(a=1).c', 'setget({C}(a=1), "a", 5)', 'many(lambda: {C}(1))', 'dataclasses_asdict({C}(a=1))', '{C}.d',
                 'many(lambda: {C}(a=1) == {C}(a=1))', 'many(lambda: dataclasses_replace({C}(a=1), b="z").b)', '{C}.__match_args__', '{C}.__doc__',
                 'str(__import__("inspect").signature({C}))'])

    def s_dcinherit(self, C):
        return ('@dataclasses.dataclass\nclass %s_P:\n    a: int = 1\n    def __post_init__(self): self.post = self.a + 1\n'
                '@dataclasses.dataclass\nclass %s(%s_P):\n    b: dataclasses.InitVar[int] = 5\n    def __post_init__(self, b):\n        super().__post_init__()\n        self.bb = b' % (C, C, C),
                ['vars({C}())', 'vars({C}(3, 4))', '[f.name for f in dataclasses_fields({C})]', '{C}.__mro__[1].__name__'])

    def s_namedtuple(self, C):
        return ('%s = collections.namedtuple("%s", "x y z", defaults=%s)' % (C, C, self.r.choice(['[3]', '[3]', '[None]', '[None, 3]', '[0, None]', '[(), "", 0.0]', '[False]', '[None, None, None]', '[]', 'None'])),
                ['many(lambda: {C}(1, 2))', '{C}(1, 2, 4)._asdict()', '{C}._fields', '{C}._field_defaults', 'many(lambda: {C}(1, y=2)._replace(x=9))', '{C}.__new__.__defaults__ or ()', 'many({C})', 'many({C}, (1,))', '{C}.x.__doc__'])

    def s_ntsub(self, C):
        base = self.r.choice([C, C + '_base'])     # a namedtuple base may carry the very name of its subclass
        return ('class %s(collections.namedtuple("%s", "x y")):\n    """sub doc"""\n    __slots__ = ()\n    def norm(self): return self.x + self.y\n    @property\n    def px(self): return self.x' % (C, base),
                ['len({C}.__mro__)', '{C}(1, 2).norm()', '{C}(1, 2).px', '{C}(1, 2)', '{C}.__doc__', 'setget({C}(1, 2), "q", 1)', '{C}.__mro__[1].__name__'])

    def s_abc(self, C):
        return ('class %s_A(abc.ABC):\n    @abc.abstractmethod\n    def need(self): ...\n    @property\n    @abc.abstractmethod\n    def prop(self): ...\n    def have(self): return self.need()\n'
                'class %s(%s_A):\n    def need(self): return "needed"\n    prop = 5\n%s_A.register(complex)' % (C, C, C, C),
                ['many({C}.__mro__[1])', '{C}().have()', 'sorted({C}.__mro__[1].__abstractmethods__)', 'issubclass(complex, {C}.__mro__[1])',
                 'isinstance(1j, {C}.__mro__[1])', 'issubclass(int, {C}.__mro__[1])', 'isinstance({C}(), {C}.__mro__[1])'])

    def s_subclasshook(self, C):
        return ('class %s(abc.ABC):\n    @classmethod\n    def __subclasshook__(cls, o): return hasattr(o, "keys") or NotImplemented' % C,
                ['issubclass(dict, {C})', 'issubclass(int, {C})', 'isinstance({{}}, {C})'.replace('{{}}', '{}')])

    def s_generic(self, C):
        b = self.r.choice(['typing.Generic[fx.T]', 'typing.List[int]', 'typing.Generic[fx.T, fx.U]', 'dict[str, int]', 'typing.Dict[str, fx.T]', 'collections.abc.Sized'])
        return ('import collections.abc\nclass %s(%s):\n    """g"""\n    attr: "int" = 4\n    def __len__(self): return 6\n    def pick(self, *a): return (type(self).__name__, a)' % (C, b),
                ['{C}().pick(1)', '{C}.__orig_bases__' if 'abc' not in b else '1', 'many(lambda: str({C}[int])[-12:])' if 'abc' not in b else '2', 'len({C}())', '{C}.attr', '[k.__name__ for k in {C}.__mro__]',
                 'getattr({C}, "__parameters__", None)'])

    def s_generic_sub(self, C):
        return ('class %s_G(typing.Generic[fx.T]):\n    kind = "g"\n    def who(self): return type(self).__name__\nclass %s_1(%s_G[int]):\n    extra = [1]\nclass %s(%s_1):\n    pass' % ((C,) * 5),
                ['{C}().who()', '[k.__name__ for k in {C}.__mro__]', 'len({C}.__orig_bases__)', '"__orig_bases__" in vars({C})', '{C}.extra is {C}.__mro__[1].extra',
                 '{C}.kind', 'str({C}.__mro__[1].__orig_bases__[0])[-6:]', '{C}.__parameters__'])

    def s_protocol(self, C):
        return ('@typing.runtime_checkable\nclass %s(typing.Protocol):\n    def quack(self) -> int: ...' % C,
                ['isinstance(1, {C})', 'isinstance(type("D", (), {"quack": 1})(), {C})', '{C}._is_protocol'])

    def s_typeddict(self, C):
        return ('class %s(collections.UserList):\n    def total(self): return sum(self.data)' % C, ['{C}([1, 2]).total()', '{C}([1])'])

    def s_meta(self, C):
        return ('class %s_M(type):\n    tag = "meta"\n    def __new__(m, n, b, d, **k):\n        c = super().__new__(m, n, b, d)\n        if "count" not in vars(c): c.count = 0\n        return c\n'
                '    def __call__(cls, *a): return super().__call__(*a)\n    def __len__(cls): return 11\n    @property\n    def mp(cls): return cls.__name__ + "!"\n    def __iter__(cls): return iter((1, 2))\n'
                'class %s(metaclass=%s_M):\n    def __init__(self, v=1): self.v = v\n%s.late = "set later"' % (C, C, C, C),
                ['len({C})', '{C}.mp', 'list({C})', '{C}().v', '{C}.tag', '{C}.late', 'type({C}).__name__', 'type({C}).__mro__[1] is type', '{C}.count'])

    def s_metaeq(self, C):
        like = self.r.choice(['int', 'dict', 'type(None)', 'type(len)', 'super', 'type({}.keys())'])
        body = self.r.choice(['    def __eq__(cls, o): return True\n    def __hash__(cls): return hash(%s)' % like, '    def __eq__(cls, o): return cls is o\n    __hash__ = None',
                              '    def __eq__(cls, o): return NotImplemented\n    def __hash__(cls): return -1'])
        return ('class %s_M(type):\n    tag = "meta"\n%s\nclass %s(metaclass=%s_M):\n    v = [1]\n    def get(self): return self.v\nclass %s_2(%s):\n    up = %s' % (C, body, C, C, C, C, C),
                ['{C}().get()', '{C}.__name__', '{C}.tag', 'type({C}).__name__', '{C}.__mro__[1] is object', '{C}.v is {C}().get()'])

    def s_metashadow(self, C):
        """its place in an imported module is taken by a class that its metaclass calls equal"""
        eq = self.r.choice(['True', 'getattr(o, "__name__", 0) == cls.__name__', 'cls is o'])
        return ('import sys, types\nclass %s_M(type):\n    def __eq__(cls, o): return %s\n    def __hash__(cls): return 5\nclass %s(metaclass=%s_M):\n    version = 1\n    def get(self): return self.version\n'
                '%s_N = %s_M("%s", (), {"version": 2})\n%s.__module__ = %s_N.__module__ = "vfshadow"\n%s.__qualname__ = "%s"\n'
                'setattr(sys.modules.setdefault("vfshadow", types.ModuleType("vfshadow")), "%s", %s_N)\ndel %s_N' % (C, eq, C, C, C, C, C, C, C, C, C, C, C, C),
                ['{C}().get()', '{C}.version', '{C}.__module__', 'type({C}).__name__'])

    def s_metaprep(self, C):
        return ('class %s_M(type):\n    @classmethod\n    def __prepare__(m, name, bases): return collections.OrderedDict(prepared=name)\nclass %s(metaclass=%s_M):\n    b = 1\n    a = 2\n    c = 3' % (C, C, C),
                ['[k for k in vars({C}) if k[0] != "_"]', '{C}.prepared'])

    def s_cycle(self, C):
        return ('class %s:\n    def __init__(self, v=None): self.v = v\n    def peer(self): return %s_B\nclass %s_B(%s):\n    pass\n%s.inst = %s(1)\n%s.inst.v = %s.inst\n%s.kids = [%s_B, %s]' % ((C,) * 11),
                ['{C}.inst.v is {C}.inst', 'type({C}.inst) is {C}', '{C}.kids[1] is {C}', '{C}.kids[0].__mro__[1] is {C}', '{C}().peer().__name__', '{C}.kids[0].inst is {C}.inst'])

    def s_exc(self, C):
        return ('class %s(ValueError, KeyError):\n    code = 3\n    def __init__(self, a, b=2):\n        super().__init__(a)\n        self.b = b\n    def __str__(self): return "E%%s" %% self.b' % C,
                ['str({C}(1))', '{C}(1).args', 'many(raise_, ({C}(7, 8),))', 'issubclass({C}, LookupError)'])

    def s_closureclass(self, C):
        return ('def mk_%s(base, n):\n    items = [n]\n    class %s(base):\n        def add(self, x):\n            nonlocal n\n            n += x\n            items.append(x)\n            return (n, list(items))\n        def cls(self): return %s\n    return %s\n%s = mk_%s(object, 3)' % ((C,) * 6),
                ['{C}().add(2)', '{C}().add(3)', '{C}().cls() is {C}', '{C}.__qualname__'])

    def s_bare(self, C):
        return ('%s = type("%s", (%s,), {"a": 1, "f": lambda self: self.a, "__doc__": None})' % (C, C, self.r.choice(['', 'dict', 'object', 'Exception']).strip() or 'object'),
                ['{C}().f()', '{C}.__doc__', '{C}.__module__'])

    def s_renamed(self, C):
        return ('class %s:\n    def f(self): return 1\n%s.__name__ = "Other"\n%s.__qualname__ = "Deep.Other"\n%s.__doc__ = "changed"\n%s.g = lambda self: 2\ndel %s.f' % ((C,) * 6),
                ['{C}.__name__', '{C}.__qualname__', '{C}.__doc__', '{C}().g()', 'hasattr({C}, "f")'])

    def s_inherit_removed(self, C):
        return ('class %s_A:\n    def f(self): return "A"\n    def g(self): return "gA"\nclass %s_B:\n    def f(self): return "B"\nclass %s(%s_A, %s_B):\n    f = %s_B.f\n    g = %s_A.g' % ((C,) * 7),
                ['{C}().f()', '{C}().g()', '{C}.__mro__[1]().f()'])

    def s_diamond(self, C):
        return ('class %s_R:\n    def go(self): return ["R"]\nclass %s_1(%s_R):\n    def go(self): return ["1"] + super().go()\nclass %s_2(%s_R):\n    def go(self): return ["2"] + super().go()\nclass %s(%s_1, %s_2):\n    def go(self): return ["C"] + super().go()' % ((C,) * 8),
                ['{C}().go()', '[k.__name__ for k in {C}.__mro__]', '{C}.__mro__[1]().go()'])

    def s_mixinslots(self, C):
        return ('class %s_S:\n    __slots__ = ("a", "_b")\n    def __init__(self, a=1): self.a = a\nclass %s(%s_S):\n    __slots__ = {"c": "doc of c", "__d": None}\n    def setd(self, v):\n        self.__d = v\n        return self.__d' % (C, C, C),
                ['{C}(4).a', 'setget({C}(), "c", 1)', '{C}().setd(3)', 'setget({C}(), "nope", 1)', 'sorted({C}.__slots__)', 'many(lambda: {C}()._b)'])

    def s_typevar_attr(self, C):
        return ('class %s:\n    alias = typing.List[int]\n    opt = typing.Optional["X"]\n    cb = typing.Callable[[int], str]\n    un = int | str\n    ga = list[int]' % C,
                ['{C}.alias', '{C}.opt', '{C}.cb', '{C}.un', '{C}.ga'])

    def s_singledispatch(self, C):
        return ('class %s:\n    def __init__(self): self.parts = []\n    @functools.singledispatchmethod\n    def add(self, x): self.parts.append("o"); return self.parts\n    @add.register(int)\n    def _i(self, x): self.parts.append("i"); return self.parts\n    @add.register(str)\n    def _s(self, x): self.parts.append("s"); return self.parts' % C,
                ['{C}().add(1)', '{C}().add("")', '{C}().add(None)'])

    def program(self, n):
        for _ in range(n):
            if self.r.random() < .4:
                self.special()
            else:
                self.plain()
        return HEADER + '\n'.join(self.lines) + '\n'
