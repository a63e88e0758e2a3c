"""Random closure graphs: functions and cells wired in arbitrary ways."""

SHAPES = ['atom', 'list', 'dict', 'tuple', 'unset', 'func', 'inst', 'cls', 'partial', 'method', 'self', 'celltuple', 'set']


def build(r, nfun, nvar, classes=True):
    """source of `graph()` returning dict name -> function/object, plus names"""
    fs = ['f%d' % i for i in range(nfun)]
    vs = ['v%d' % i for i in range(nvar)]
    kinds = {}
    L = ['def graph():']
    for f in fs:
        reads = r.sample(vs, min(len(vs), r.randrange(0, 4)))
        funs = r.sample(fs, min(len(fs), r.choice([0, 0, 1, 1, 2])))
        cap = reads + funs
        form = r.randrange(6)
        ret = '(%s)' % ''.join('%s, ' % c for c in cap) if cap else '()'
        if form == 0:
            L.append('    %s = lambda: %s' % (f, ret))
        elif form == 1:
            L.append('    def %s(a=1, *, k=[2]):\n        return %s' % (f, ret))
        elif form == 2 and reads:
            L.append('    def %s(new):\n        nonlocal %s\n        %s = new\n        return %s' % (f, reads[0], reads[0], ret))
        elif form == 3:
            L.append('    def %s(n=0):\n        def inner():\n            return %s\n        return inner' % (f, ret))
        elif form == 4:
            L.append('    def %s():\n        yield %s' % (f, ret))
        else:
            L.append('    def %s(*a):\n        return [c() if callable(c) and a else c for c in %s]' % (f, ret))
    ks = ['K', 'K2', 'K3'][:r.choice([1, 1, 2, 3])] if classes else []
    for i, k in enumerate(ks):
        m = r.choice(vs) if vs else fs[0]
        if i == 0:
            L.append('    class K:\n        def __init__(self, x): self.x = x\n        def meth(self): return (self.x, %s)' % m)
        else:
            L.append('    class %s(%s):\n        def other(self): return (%s, %s)' % (k, r.choice(ks[:i]), m, r.choice(ks)))
        for j in range(r.randrange(3)):
            c = r.choice(fs + vs + ks)
            L.append('        ' + r.choice(['def m%d(self): return (super().__init__, %s)', 'm%d = staticmethod(lambda: %s)', 'm%d = property(lambda self: [%s])',
                                            'def m%d(self):\n            def in_(): return %s, __class__\n            return in_',
                                            'm%d = lambda self, a=%s: a' if c in fs else 'm%d = lambda self: %s', 'm%d = [%s]' if c in fs else 'm%d = classmethod(lambda k: %s)']) % (j, c))
    order = vs[:]
    r.shuffle(order)
    assign = []
    for v in order:
        k = r.choice(SHAPES)
        if not classes and k in ('inst', 'cls', 'method'):
            k = 'list'
        pick = lambda: r.choice(fs + [x for x in vs if kinds.get(x) not in (None, 'unset')])
        if k == 'atom': a = r.choice(['1', '"s"', 'None', '2.5'])
        elif k == 'list': a = '[%s]' % ', '.join(pick() for _ in range(r.randrange(3)))
        elif k == 'dict': a = '{%s}' % ', '.join('%d: %s' % (i, pick()) for i in range(r.randrange(3)))
        elif k == 'tuple': a = '(%s,)' % ', '.join(pick() for _ in range(r.randrange(1, 3)))
        elif k == 'func': a = r.choice(fs)
        elif k == 'inst': a = '%s(%s)' % (r.choice(ks), pick())
        elif k == 'cls': a = r.choice(ks)
        elif k == 'partial': a = '__import__("functools").partial(%s, 1)' % r.choice(fs)
        elif k == 'method': a = '%s(%s).meth' % (r.choice(ks), pick())
        elif k == 'self': a = '[]'
        elif k == 'set': a = '{%s}' % r.choice(fs)
        elif k == 'celltuple': a = '(%s.__closure__ or (None,))' % r.choice(fs)
        kinds[v] = k
        if k == 'unset':
            # known to the compiler, never assigned
            assign.append('    if 0: %s = None' % v)
        else:
            assign.append('    %s = %s' % (v, a))
            if k == 'self':
                assign.append('    %s.append(%s)' % (v, v))
    # late additions make cycles through containers
    for v in vs:
        if kinds[v] in ('list', 'self') and r.random() < .5:
            assign.append('    %s.append(%s)' % (v, r.choice(fs)))
        if kinds[v] == 'dict' and r.random() < .5:
            assign.append('    %s["late"] = %s' % (v, r.choice(fs)))
        if kinds[v] == 'inst' and r.random() < .5:
            assign.append('    %s.late = %s' % (v, r.choice(fs)))
    for f in fs:
        if r.random() < .25:
            assign.append('    %s.attr = %s' % (f, r.choice(fs + [x for x in vs if kinds[x] != 'unset'] + ks)))
    L += assign
    names = fs + [v for v in vs if kinds[v] != 'unset'] + ks
    L.append('    return {%s}' % ', '.join('"%s": %s' % (n, n) for n in names))
    return '\n'.join(L) + '\n', names, fs, kinds
