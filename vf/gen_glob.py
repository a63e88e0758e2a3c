"""Random global namespaces whose functions, classes and data name one another in many ways.

Every symbol is callable through use(name, n): 'SYM(n)'-like expressions give a
deterministic nested tuple; n bounds the recursion.
"""
import functools

HEADER = 'import functools, math, collections, contextlib, operator as op_mod\nfrom vf import fx\n'
KINDS = ['func'] * 6 + ['lambda', 'partial', 'flist', 'class', 'class', 'inst', 'data', 'data', 'dict', 'closure', 'closure', 'module', 'exc',
         'wrapped', 'method', 'attrfn', 'defaults', 'gen', 'alias', 'selfclass', 'subclass', 'str', 'builtin', 'unused']
FN = ('func', 'lambda', 'closure', 'wrapped', 'attrfn', 'defaults')
CL = ('class', 'selfclass', 'subclass')


class GlobGen:
    def __init__(self, r, n, poison=4):
        self.r = r
        self.syms = []
        self.kind = {}
        self.counters = set()
        self.stateful = r.random() < .3
        self.lines = []
        self.poison = ['POI%d' % i for i in range(poison)]
        names = []
        for i in range(n):
            k = r.choice(KINDS)
            if i == 0:
                k = r.choice(['func', 'closure', 'lambda', 'class', 'wrapped'])
            nm = r.choice(['s%d', 'Sym%d', '_p%d', '\u00e9%d', 'NULL%d', 'LOAD_GLOBAL_%d']) % i
            names.append(nm)
            self.kind[nm] = k
        self.names = names
        self.refs = {}
        for i, nm in enumerate(names):
            k = self.kind[nm]
            if k in ('partial', 'flist', 'alias', 'wrapped') and not self.early(i, *FN) or k in ('inst', 'method', 'subclass') and not self.early(i, *CL):
                self.kind[nm] = 'func'
        for i, nm in enumerate(names):
            self.define(i, nm, self.kind[nm])

    # -- an expression using another symbol at run time (inside a function body with local n)
    def use(self, nm):
        k = self.kind[nm]
        return {'func': '%s(n - 1)', 'lambda': '%s(n - 1)', 'partial': '%s(n - 1)', 'flist': '[q(n - 1) for q in %s]', 'class': '%s().m(n - 1)',
                'inst': '%s.m(n - 1)', 'data': 'list(%s)', 'dict': 'sorted(%s)', 'closure': '%s(n - 1)', 'module': '%s.__name__',
                'exc': '%s.__name__', 'wrapped': '%s(n - 1)', 'method': '%s(n - 1)', 'attrfn': '%s(n - 1)', 'defaults': '%s(n - 1)',
                'gen': 'list(%s(n - 1))', 'alias': '%s(n - 1)', 'selfclass': '%s().m(n - 1)', 'subclass': '%s().m(n - 1)', 'str': '%s.upper()',
                'builtin': '%s([n])', 'unused': 'str(%s)'}[k] % nm

    def early(self, i, *kinds):
        """an already defined symbol of one of the kinds"""
        c = [x for x in self.names[:i] if self.kind[x] in kinds]
        return self.r.choice(c) if c else None

    def form(self, ex, nm, t):
        """statement lines (level 1) evaluating ex into out"""
        r = self.r
        P = r.choice(self.poison)
        k = r.randrange(34)
        F = 'in%d' % t
        L = {
            0: ['out.append(%s)' % ex],
            1: ['def %s():' % F, '    return %s' % ex, 'out.append(%s())' % F],
            2: ['%s = lambda n=n: %s' % (F, ex), 'out.append(%s())' % F],
            3: ['out.append([%s for z in range(1)])' % ex],
            4: ['out.append(list(%s for z in range(1)))' % ex],
            5: ['out.append({z: %s for z in range(1)})' % ex],
            6: ['class %s:' % F, '    got = %s' % ex, 'out.append(%s.got)' % F],
            7: ['class %s:' % F, '    def g(self): return %s' % ex, 'out.append(%s().g())' % F],
            8: ['def %s(a=%s): return a' % (F, ex), 'out.append(%s())' % F],
            9: ['def %s(*, a=%s): return a' % (F, ex), 'out.append(%s())' % F],
            10: ['out.append(f"{%s!r:>3}")' % ex.replace('"', "'")],
            11: ['if n > 1000:', '    out.append(%s)' % ex],
            12: ['try:', '    [][1]', 'except IndexError:', '    out.append(%s)' % ex],
            13: ['def %s():' % F, '    def a():', '        def b(): return %s' % ex, '        return b', '    return a', 'out.append(%s()()())' % F],
            14: ['def %s():' % F, '    yield %s' % ex, 'out.append(next(%s()))' % F],
            15: ['async def %s():' % F, '    return %s' % ex, 'try: %s().send(None)' % F, 'except StopIteration as e: out.append(e.value)'],
            16: ['out.append((lambda: (lambda: %s)())())' % ex],
            17: ['for z in [%s]: out.append(z)' % ex],
            18: ['while True:', '    out.append(%s)' % ex, '    break'],
            19: ['assert True, %s' % ex, 'out.append(%s if n else 0)' % ex],
            20: ['with contextlib.nullcontext(%s) as z: out.append(z)' % ex],
            21: ['match n:', '    case z if z > -99: out.append(%s)' % ex],
            22: ['(z := %s)' % ex, 'out.append(z)'],
            23: ['class %s:' % F, '    class H:', '        def g(self, a=%s): return a' % ex, 'out.append(%s.H().g())' % F],
            24: ['out.append([[%s for z in range(1)] for y in range(1)])' % ex],
            25: ['out.append(%s)' % ex, 'out.append(fx.Plain(%s=3).%s)' % (P, P)],      # attribute named like a poisoned global
            26: ['out.append(dict(%s=%s))' % (P, ex)],
            27: ['%s = %s' % (P, ex), 'out.append(%s)' % P],                            # a local of that name
            28: ['out.append([%s for %s in (%s,)])' % (P, P, ex)],
            29: ['def %s(%s): return %s' % (F, P, P), 'out.append(%s(%s))' % (F, ex)],
            30: ['out.append((%s, "%s", "_GLOBAL (%s)"))' % (ex, P, P)],                 # mere text
            31: ['def %s(a: (%s)): return a.__class__' % (F, ex), 'out.append(list(%s.__annotations__.values()))' % F],
            32: ['try: raise KeyError(%s)' % ex, 'except KeyError as z: out.append(z.args)', 'finally: pass'],
            33: ['import math as %s' % P, 'out.append((%s.__name__, %s))' % (P, ex)],
        }[k]
        self.forms.add(k)
        return L

    forms = None

    def body(self, i, nm, ind='    '):
        """a function body using random symbols, defined earlier or later"""
        r = self.r
        if self.forms is None:
            self.forms = set()
        lines = ['out = [%r]' % nm, 'if n <= 0: return tuple(out)']
        k = r.randrange(12) if self.stateful else 12
        cn = 'Cnt%d' % r.randrange(3)
        if k < 4:
            self.counters.add(cn)
        if k == 0:
            lines = ['global %s' % cn, '%s += 1' % cn, 'out = [%s]' % cn] + lines[1:]
        elif k == 1:
            lines = ['global %s' % cn, 'out = ["w"]', 'del %s' % cn, '%s = 7' % cn] + lines[1:]
        elif k == 2:
            lines = ['def setit():', '    global %s' % cn, '    %s = 5' % cn, 'setit()'] + lines
        elif k == 3:
            lines.append('out.append(%s is not None)' % cn)
        used_poison = []
        for t in range(r.choice([0, 1, 1, 2, 2, 3])):
            tgt = r.choice(self.names)
            fl = self.form(self.use(tgt), tgt, t)
            self.refs.setdefault(nm, set()).add(tgt)
            # a poison made local in one line must stay local in the whole body: one such form per function
            p = [x for x in self.poison if any(x in l for l in fl)]
            if p and used_poison:
                continue
            used_poison += p
            lines += fl
        lines.append('return tuple(out)')
        return [ind + l for l in lines]

    def define(self, i, nm, k):
        r = self.r
        if self.forms is None:
            self.forms = set()
        o = self.lines
        fn = self.early(i, *FN)
        cl = self.early(i, *CL)
        if k == 'func':
            o += ['def %s(n=2):' % nm] + self.body(i, nm)
        elif k == 'lambda':
            t = r.choice(self.names)
            o.append('%s = lambda n=2: (%r, %s) if n > 0 else %r' % (nm, nm, self.use(t), nm))
            self.refs.setdefault(nm, set()).add(t)
        elif k == 'partial':
            o.append('%s = functools.partial(%s)' % (nm, fn))
        elif k == 'flist':
            o.append('%s = [%s, len.__class__ and %s]' % (nm, fn, fn))
        elif k in ('class', 'selfclass'):
            o += ['class %s:' % nm, '    def m(self, n=2):'] + self.body(i, nm, '        ')
            if k == 'selfclass':
                o += ['    def me(self): return %s' % nm]
        elif k == 'subclass':
            o += ['class %s(%s):' % (nm, cl), '    def m(self, n=2): return (%r, super().m(n))' % nm]
        elif k == 'inst':
            o.append('%s = %s()' % (nm, cl))
        elif k == 'method':
            o.append('%s = %s().m' % (nm, cl))
        elif k == 'data':
            o.append('%s = [%d, "%s"]' % (nm, i, nm))
        elif k == 'dict':
            o.append('%s = {"%s": %d}' % (nm, nm, i))
        elif k == 'str':
            o.append('%s = "text %s"' % (nm, nm))
        elif k == 'module':
            o.append('import %s as %s' % (r.choice(['math', 'collections', 'os.path', 'json']), nm))
        elif k == 'builtin':
            o.append('%s = %s' % (nm, r.choice(['len', 'repr', 'sorted'])))
        elif k == 'exc':
            o.append('class %s(ValueError): pass' % nm)
        elif k == 'closure':
            o += ['def mk_%s(cellv):' % nm, '    def %s(n=2):' % nm] + self.body(i, nm, '        ')
            o += ['    def outer(n=2): return (%s(n), cellv and cellv(n - 1))' % nm, '    return outer', '%s = mk_%s(%s)' % (nm, nm, fn), 'del mk_%s' % nm]
        elif k == 'wrapped':
            o += ['@functools.wraps(%s)' % fn, 'def %s(n=2): return ("w", %s(n - 1)) if n > 0 else "w"' % (nm, fn)]
        elif k == 'attrfn':
            o += ['def %s(n=2):' % nm] + self.body(i, nm) + ['%s.helper = %s' % (nm, fn)]
        elif k == 'defaults':
            o += ['def %s(n=2, f=%s, *, g=[%s]): return (%r, f and n > 0 and f(n - 1), len(g))' % (nm, fn, fn, nm)]
        elif k == 'gen':
            o += ['def %s(n=2):' % nm, '    if n > 0: yield from %s' % '(lambda *a: a)(%s)' % self.use(r.choice(self.names))]
        elif k == 'alias':
            o.append('%s = %s' % (nm, fn))
        elif k == 'unused':
            o.append('%s = object' % nm)

    def source(self):
        return HEADER + ''.join('%s = 10\n' % c for c in sorted(self.counters)) + '\n'.join(self.lines) + '\n'
