"""Modules with definitions that look alike, whose objects carry tags: every function returns its own tag."""
import keyword

NAMES = ['f', 'fn', 'f2', 'work', 'lam', 'deff', 'lambda_', 'aclass', 'run', 'été']
CLS = ['K', 'Kl', 'K2', 'Thing', 'clas']


class Src:
    """lines of the module and where each tag was defined"""
    def __init__(self, r, stdin=False):
        self.r, self.stdin = r, stdin
        self.n = 0
        self.lines = []
        self.tags = {}          # tag -> dict(kind=..., name=..., top=bool)
        self.blocks = []        # for interactive use: one list of lines per statement

    def tag(self, kind, name, top, **kw):
        self.n += 1
        t = 't%d' % self.n
        self.tags[t] = dict(kw, kind=kind, name=name, top=top)
        return t

    def body(self, pad, t, depth):
        """statements of a function that ends in returning its tag"""
        r = self.r
        out = []
        if r.random() < .25:
            q = r.choice(['"""', "'''"])
            out += r.choice([[pad + q + 'doc' + q], [pad + q + 'doc', 'def f(): pass', pad + '  lambda x: x', pad + q], [pad + q + 'class K:', '', '@deco', pad + q]])
        for i in range(r.choice([0, 0, 1, 2])):
            out += r.choice([
                [pad + 'v = 1'], [''], [pad + '# def f():'], ['# at the margin'], [pad + 'if t_:', pad + '    pass', pad + 'else:', pad + '    w = 2'], [pad + 's = "def f(): lambda x: 1"'],
                [pad + 'd = {', pad + "    'a': 1,", pad + '    }'], [pad + 'z = 1 + \\', pad + '    2'], [pad + "m = '''multi", "line def f():", pad + "  more'''"], [pad + 'for i in ():', '', pad + '    continue'],
                [pad + 'y = f"{1 + 1} {\'a\'}"'], [pad + 'l = lambda q: q'], [pad + 'x = [lambda: 1 for i in (1,)]'], [pad + 'pass; pass']])
        if depth < 2 and r.random() < .25 and not self.stdin:
            out += self.fun(pad, depth + 1, False)
        out += [pad + r.choice(['return "%s"', "return '%s'  # tag", 'return ("%s")', 'return ("%s"\n' + pad + '        )']) % t]
        return [x for l in out for x in l.split('\n')]

    def fun(self, pad, depth, top, method=None):
        r = self.r
        name = r.choice(NAMES)
        kind = r.choice(['def', 'def', 'def', 'def', 'one', 'async', 'gen'])
        if method and kind == 'async':
            kind = 'def'
        deco = r.choice([[], [], [], ['@same'], ['@same', '@same2(1)'], ['@same2(', '    2)'], ['@same', '# def f(): note', '@same']]) if not method else r.choice([[], [], ['@same']])
        if method in ('staticmethod', 'classmethod', 'property'):
            deco = ['@' + method] + deco
        first = {'staticmethod': [], 'classmethod': ['cls'], 'property': ['self'], 'plain': ['self']}.get(method, [])
        if first == ['self'] and method == 'property':
            args = first
        else:
            args = first + r.choice([[], [], ['a=1'], ['a=(1, 2)', '*b'], ['a: "lambda x: x" = 1'], ['a=lambda q: q'], ['*', 'c=3', '**k']])
        t = self.tag(kind if not method else method, name, top, deco=bool([d for d in deco if d.startswith('@same')]), depth=depth)
        ret = r.choice(['', '', ' -> str', ' -> "def g(): 1"'])
        head = 'async def' if kind == 'async' else 'def'
        sep = r.choice([' ', ' ', ' ', '  '])
        if kind == 'one':
            ls = [pad + '%s%s%s(%s)%s: return "%s"' % (head, sep, name, ', '.join(args), ret, t)]
        else:
            if args and r.random() < .3:
                ls = [pad + '%s%s%s(' % (head, sep, name)] + [pad + '        %s,' % a for a in args if a != '**k'] + [pad + '        )%s:' % ret]
                if ls[-2].strip() == '*,':
                    ls[-2:-1] = []
            else:
                ls = [pad + '%s%s%s(%s)%s:' % (head, sep, name, ', '.join(args), ret)] + ([pad + '    # note'] if r.random() < .1 else [])
            b = self.body(pad + '    ', t, depth)
            if kind == 'gen':
                b.insert(len(b) - 1 if not b[-1].strip().startswith(')') else len(b) - 2, pad + '    if 0: yield')
            ls += b
        out = [pad + d for d in deco] + ls
        reg = 'REG.append(("%s", %s))' % (t, name)
        if method:
            return out
        out += [pad + reg]
        if kind not in ('async', 'gen'):
            out += [pad + name + '()']
        return out

    def lam(self, pad, top):
        r = self.r
        name = r.choice(NAMES)
        t = self.tag('lambda', name, top)
        form = r.choice(['simple', 'simple', 'simple', 'args', 'paren', 'two', 'dict', 'call', 'multi', 'nested', 'cond'])
        self.tags[t]['form'] = form
        L = 'lambda: "%s"' % t
        if form == 'simple':
            ls = ['%s = %s' % (name, L)]
        elif form == 'args':
            ls = ['%s = lambda a=1, *b, **k: "%s"' % (name, t)]
        elif form == 'paren':
            ls = ['%s = (%s)' % (name, L)]
        elif form == 'two':
            u = self.tag('lambda', 'other', top, form='two')
            ls = ['%s, other = (%s), (lambda: "%s")' % (name, L, u), 'REG.append(("%s", other))' % u]
        elif form == 'dict':
            ls = ['box = {"k": %s}' % L, '%s = box["k"]' % name]
        elif form == 'call':
            ls = ['%s = ident(%s)' % (name, L)]
        elif form == 'multi':
            ls = ['%s = ident(' % name, '    1,', '    %s' % L, '    )']
        elif form == 'nested':
            ls = ['%s = (lambda: lambda: "%s")()' % (name, t)]
        else:
            ls = ['%s = (%s) if 1 else None' % (name, L)]
        return [pad + l for l in ls] + [pad + 'REG.append(("%s", %s))' % (t, name)]

    def cls(self, pad, depth, top):
        r = self.r
        name = r.choice(CLS)
        t = self.tag('class', name, top, depth=depth)
        base = r.choice(['', '', '(object)', '()', '(dict)', '(Base,\n%s    Base2)' % pad])
        deco = r.choice([[], [], [], ['@cdeco'], ['@cdeco', '@cdeco']])
        self.tags[t]['deco'] = bool(deco)
        ls = [pad + d for d in deco] + (pad + 'class %s%s:' % (name, base)).split('\n')
        p = pad + '    '
        if r.random() < .3:
            ls += [p + '"""doc of %s' % t, p + 'class K: pass', p + '"""']
        ls += [p + 'tag = "%s"' % t]
        ms = []
        for i in range(r.choice([0, 1, 2, 3])):
            m = r.choice(['plain', 'plain', 'plain', 'staticmethod', 'classmethod', 'property'])
            ls += [''] if r.random() < .5 else []
            before = self.n
            ls += self.fun(p, 1, False, m)
            mt = [x for x in list(self.tags) if int(x[1:]) > before and self.tags[x]['kind'] == m][0]
            ms.append((mt, m, self.tags[mt]['name']))
        seen = {}
        for mt, m, n in ms:
            seen[n] = (mt, m)
        if depth < 2 and r.random() < .3:
            ls += self.cls(p, depth + 1, False)
        ls += [pad + 'REG.append(("%s", %s))' % (t, name)]
        for n, (mt, m) in seen.items():
            self.tags[mt]['cls'] = name
            if m == 'property':
                ls += [pad + 'REG.append(("%s", vars(%s)["%s"].fget))' % (mt, name, n)]
            else:
                ls += [pad + 'REG.append(("%s", %s.%s))' % (mt, name, n)]
                if m == 'plain':
                    ls += [pad + 'REG.append(("%s", %s().%s))' % (mt, name, n)]
        for mt, m, n in ms:
            if seen[n][0] != mt:
                self.tags.pop(mt)
        return ls

    PRE = ['import functools', 'REG = []', 't_ = True', '', 'def same(f): return f', 'def same2(n):', '    return same', 'def cdeco(c): return c', 'def ident(*a): return a[-1]', 'class Base: pass', 'class Base2: pass', '']

    def module(self, k):
        r = self.r
        out = list(self.PRE)
        for i in range(k):
            w = r.random()
            pad = ''
            if w < .5:
                ls = self.fun('', 0, True)
            elif w < .7:
                ls = self.lam('', True)
            else:
                ls = self.cls('', 0, True)
            if r.random() < .15:
                x = r.choice(['if t_:', 'try:', 'for i_ in (1,):', 'with open("/dev/null"):'])
                strs = any("'''" in l or '"""' in l for l in ls)
                if not strs:
                    ls = [x] + ['    ' + l if l else l for l in ls] + (['finally:', '    pass'] if x == 'try:' else [])
                    for t in self.tags.values():
                        pass
            out += ls + [''] * r.choice([0, 0, 1, 2]) + (['# %s' % r.choice(['def f():', 'class K:', 'lambda'])] if r.random() < .1 else [])
        self.lines = out
        return '\n'.join(out) + r.choice(['\n', '\n', ''])
