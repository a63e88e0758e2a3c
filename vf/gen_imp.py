"""Interactive sessions, and modules whose functions can be rebuilt from their text."""


def session(r):
    """[(statement, names it defines)]"""
    out = []
    n = [0]

    def t():
        n[0] += 1
        return 't%d' % n[0]
    names = ['f', 'ff', 'fab', 'g', 'lam', 'defx', 'cls', 'work']
    for i in range(r.choice([2, 4, 7])):
        k = r.choice(['def', 'def', 'one', 'lambda', 'lambda', 'class', 'other', 'deco', 'async', 'multi', 'doc'])
        nm = r.choice(names)
        if k == 'def':
            a = r.choice(names)
            out.append(('def %s(%s=1):\n    %s\n    return "%s"\n' % (nm, a, r.choice(['x = 2', 'pass', '%s' % a, 'y = [i for i in (1, 2)]']), t()), [nm]))
        elif k == 'one':
            out.append(('def %s(): return "%s"\n' % (nm, t()), [nm]))
        elif k == 'multi':
            out.append(('def %s(a=1,\n        b=2):\n    return ("%s",\n            1)\n' % (nm, t()), [nm]))
        elif k == 'doc':
            out.append(('def %s():\n    "doc of %s"\n    return "%s"\n' % (nm, r.choice(names), t()), [nm]))
        elif k == 'lambda':
            n[0] += 1
            body = r.choice(['x + %d', 'x * %d - x', '(x, %d)', '[x, x, %d]', 'str(x) * %d']) % (n[0] + 1)
            if r.random() < .3:
                out.append(('%s = lambda: %s\n' % (nm, r.choice(['%d', '"t%d"', '[%d]', 'len(str(%d))']) % n[0]), [nm]))
                continue
            if r.random() < .3:
                body = 'None if x else ' + body
            out.append(('%s = lambda x=1: %s\n' % (nm, body), [nm]))
        elif k == 'class':
            nm = r.choice(['K', 'Kl', 'Thing'])
            out.append(('class %s:\n    tag = "%s"\n    def work(self):\n        return "%s"\n' % (nm, t(), t()), [nm]))
        elif k == 'deco':
            out.append(('def same(f): return f\n', []))
            out.append(('@same\ndef %s():\n    return "%s"\n' % (nm, t()), [nm]))
        elif k == 'async':
            out.append(('async def %s():\n    return "%s"\n' % (nm, t()), [nm]))
        else:
            out.append(('%s_v = %s\n' % (nm, r.choice(['1', '"def f(): pass"', '[1, 2]', '"lambda x: x"'])), []))
    return out


def module(r):
    """source, [(name, kind, [args])]: functions of constants, of each other and closures"""
    lines, objs = [], []
    consts = []
    for i in range(r.choice([1, 3, 5])):
        nm = 'c%d' % i
        lines.append('%s = %s' % (nm, r.choice(['3', '"text"', '2.5', '[1, 2]', '{"a": 1}', '(1, "b")', 'None', 'True', '-7'])))
        consts.append(nm)
    fs = []
    A = [[(1,), (2,)], [(0,), (5,)]]
    for i in range(r.choice([2, 3, 5])):
        nm = 'fun%d' % i
        k = r.choice(['const', 'const', 'plain', 'calls', 'closure', 'closure2', 'lambda', 'nested', 'lamclosure', 'class', 'default'])
        args = r.choice(A)
        if k == 'calls' and not fs:
            k = 'const'
        if k == 'const':
            lines += ['def %s(x):' % nm, '    return (x, %s, %s, %d)' % (r.choice(consts), r.choice(consts), i), '']
            fs.append(nm)
        elif k == 'plain':
            lines += ['def %s(x=1, *, y=2):' % nm, '    """doc', '    of it', '    """', '    return x + y + %d' % i, '']
            fs.append(nm)
        elif k == 'calls':
            lines += ['def %s(x):' % nm, '    return [%s(x), %d]' % (r.choice(fs), i), '']
        elif k == 'closure':
            lines += ['def mk%d(a, b=%d):' % (i, i), '    def %s(x):' % nm, '        return (a, b, x)', '    return %s' % nm, '%s = mk%d(%s)' % (nm, i, r.choice(['1', '"s"', '[1, 2]', '2.5'])), '']
        elif k == 'closure2':
            lines += ['def mk%d(a):' % i, '    k = [%d]' % i, '    def %s(x):' % nm, '        s = """two', '  lines"""', '        return (a, k, x, s)', '    return %s' % nm, '%s = mk%d(7)' % (nm, i), '']
        elif k == 'lambda':
            lines += ['%s = lambda x: (x, %d, %s)' % (nm, i, r.choice(consts)), '']
        elif k == 'lamclosure':
            lines += ['def mk%d(a):' % i, '    return lambda x: (a, x, %d)' % i, '%s = mk%d(3)' % (nm, i), '']
            continue            # a returned lambda has no name of its own
        elif k == 'nested':
            lines += ['def %s(x):' % nm, '    def inner(y):', '        return (x, y, %d)' % i, '    return inner(x)', '']
            fs.append(nm)
        elif k == 'default':
            lines += ['def %s(x, y=%d, z=(1, 2)):' % (nm, i), '    return (x, y, z)', '']
            fs.append(nm)
        else:
            lines += ['class %s:' % nm, '    tag = %d' % i, '    def m(self, x):', '        return (x, %d)' % i, '']
            objs.append((nm, 'class', []))
            continue
        objs.append((nm, k, args))
    return '\n'.join(lines) + '\n', objs
