"""C24: extracted source rebuilds the object."""
import ast, builtins, importlib, inspect, io, linecache, os, re, shutil, sys, types, warnings
import dill
from dill import source
from .. import gen_src, gen_imp

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('generated modules full of look-alike definitions (same names nested, in classes, redefined; decorators, multi-line signatures, strings and comments that look like code, lambdas in every position, async, generators, indented '
        'blocks) where every function returns its own tag: findsource/getsourcelines/getsource must give exactly the definition (against the syntax tree), the text must compile, and executed define code equal to the original that returns its tag, '
        'also with alias, lstrip, enclosing; the same definitions entered in an interactive history; getimport/importable text executed must give the very object; importable source of functions with constants, functions and closures '
        'executed in an empty namespace behaves alike; dumpsource of picklable objects; importable text of literals (with text that looks like a repr or like code) and of numbers and containers of the library whose repr is their constructor gives an equal object; indent/outdent keep the meaning; non-trivial = (module, object, request)')
ASSUMPTIONS = ['a class defined again under the same qualified name and without methods cannot be told apart', 'an interactive history is searched for the last definition of the name',
               'import strings are asked of objects their module still holds under their name', 'functions whose source depends on objects with unhelpful repr are not in the domain of importable']
FLOORS = {'objects': 3000, 'exact': 3000, 'executed': 3000, 'aliased': 2500, 'enclosing': 2000, 'imports': 8000, 'history': 700, 'stitched': 2000, 'dumped': 300, 'indented': 2500, 'refused': 100, 'lib': 6000, 'reprs': 4000, 'literals': 3000, 'absent': 3000, 'instances': 4000}


LIB = ('os os.path json json.decoder collections collections.abc functools itertools math cmath re io abc typing types inspect textwrap string random statistics fractions decimal datetime calendar heapq bisect operator contextlib '
       'dataclasses enum numbers pathlib tempfile shutil glob fnmatch logging logging.handlers argparse ast dis token tokenize email.message email.mime.text http http.client urllib.parse urllib.request xml.dom xml.etree.ElementTree struct '
       'array pickle copy copyreg weakref threading queue concurrent.futures subprocess socket select asyncio asyncio.events unittest unittest.mock ctypes csv hashlib zlib gzip time timeit builtins numpy numpy.linalg sympy').split()


def cases(ctx):
    for i in ctx.mine(1000 if ctx.quick else 4000):
        yield {'i': i}
    for i in ctx.mine(800 if ctx.quick else 3000):
        yield {'i': i, 'history': True}
    for i in ctx.mine(1200 if ctx.quick else 8000):
        yield {'i': i, 'stitch': True}
    for i in ctx.mine(600 if ctx.quick else 3000):
        yield {'i': i, 'dump': True}
    for i in ctx.mine(80 if ctx.quick else 400):
        yield {'i': i, 'refuse': True}
    for i in ctx.mine(len(LIB)):
        yield {'i': i, 'lib': True}
    for i in ctx.mine(200 if ctx.quick else 1500):
        yield {'i': i, 'reprs': True}
    for i in ctx.mine(800 if ctx.quick else 8000):
        yield {'i': i, 'literal': True}
    for i in ctx.mine(160 if ctx.quick else 1200):
        yield {'i': i, 'absent': True}
    for i in ctx.mine(400 if ctx.quick else 4000):
        yield {'i': i, 'instance': True}


def setup(ctx):
    warnings.simplefilter('ignore')
    sys.path.insert(0, ctx.scratch)
    sys.dont_write_bytecode = True


def run_case(ctx, c):
    for k in ('history', 'stitch', 'dump', 'refuse', 'lib', 'reprs', 'literal', 'absent', 'instance'):
        if k in c:
            return globals()[k](ctx, c)
    module(ctx, c)


def nodes(tree):
    """tag -> node of its definition, with its parents"""
    out = {}

    def visit(n, up):
        for k in ast.iter_child_nodes(n):
            t = None
            if isinstance(k, ast.ClassDef):
                for s in k.body:
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and getattr(s.targets[0], 'id', '') == 'tag':
                        t = s.value.value
            elif isinstance(k, ast.Lambda):
                t = k.body.value if isinstance(k.body, ast.Constant) and isinstance(k.body.value, str) else None
            elif isinstance(k, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for s in k.body:
                    if isinstance(s, ast.Return) and isinstance(s.value, ast.Constant):
                        t = s.value.value
            if t and t not in out:
                out[t] = (k, up)
            visit(k, up + [k])
    visit(tree, [])
    return out


def first(n):
    return min([n.lineno] + [d.lineno for d in getattr(n, 'decorator_list', [])])


def shape(co):
    """code without places"""
    return (co.co_code, co.co_names, co.co_varnames, co.co_argcount, co.co_kwonlyargcount, co.co_flags & ~inspect.CO_NESTED, tuple(shape(k) if isinstance(k, types.CodeType) else (type(k).__name__, repr(k)) for k in co.co_consts))


def shapes(co):
    yield shape(co)
    for k in co.co_consts:
        if isinstance(k, types.CodeType):
            yield from shapes(k)


def unwrap(x):
    for i in range(5):
        if isinstance(x, (staticmethod, classmethod, types.MethodType)):
            x = x.__func__
        elif isinstance(x, property):
            x = x.fget
    return x


def same(got, obj):
    """is what the text defined the object?"""
    got, obj = unwrap(got), unwrap(obj)
    if isinstance(obj, type):
        return isinstance(got, type) and got.__name__ == obj.__name__ and classes(got) == classes(obj) and [b.__name__ for b in got.__bases__] == [b.__name__ for b in obj.__bases__]
    return isinstance(got, types.FunctionType) and shape(got.__code__) == shape(obj.__code__)


def classes(k):
    out = []
    for n, v in vars(k).items():
        v = unwrap(v)
        if isinstance(v, types.FunctionType):
            out.append((n, shape(v.__code__)))
        elif isinstance(v, type):
            out.append((n, v.__name__, classes(v)))
        elif n in ('tag', '__doc__'):
            out.append((n, v))
    return out


PLACES = ['{n}', 'p24_{n}.{n}', '{n}.{n}', '{n}', 'p24_{n}.q.{n}', 'p24_{n}', '{n}.__init__', 'p24_{n}.{n}.{n}', '{n}.x.y', 'dill_{n}.source', 'p24_{n}.os']


def load(ctx, name, src, where=''):
    """import src as a module, at some place of a package"""
    where = where.format(n=name) or name
    init = where.endswith('.__init__')
    parts = where.split('.')
    if init:
        parts.pop()
    d = ctx.scratch
    for k in parts if init else parts[:-1]:
        d = os.path.join(d, k)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '__init__.py')
        if not os.path.exists(f):
            open(f, 'w').close()
    p = os.path.join(d, ('__init__' if init else parts[-1]) + '.py')
    with open(p, 'w', encoding='utf-8') as f:
        f.write(src)
    importlib.invalidate_caches()
    return importlib.import_module('.'.join(parts)), p


def unload(ctx, m, p):
    top = m.__name__.split('.')[0]
    for k in [k for k in sys.modules if k == top or k.startswith(top + '.')]:
        del sys.modules[k]
    linecache.clearcache()
    os.unlink(p)
    d = os.path.join(ctx.scratch, top)
    if os.path.isdir(d):
        shutil.rmtree(d)


def module(ctx, c):
    r = ctx.rng(c['i'])
    g = gen_src.Src(r)
    src = g.module(r.choice([2, 4, 8]))
    name = 'm24_%d_%d' % (ctx.shard, c['i'])
    m, p = load(ctx, name, src, r.choice(PLACES))
    lines = src.splitlines(True)
    if not lines[-1].endswith('\n'):
        lines[-1] += '\n'
    byt = nodes(ast.parse(src))
    dup = {}
    for n, up in byt.values():
        if isinstance(n, ast.ClassDef):
            q = '.'.join(getattr(u, 'name', '') + ('' if isinstance(u, ast.ClassDef) else '<locals>') for u in up + [n] if hasattr(u, 'name'))
            dup[q] = dup.get(q, 0) + 1
    try:
        for t, o in m.REG:
            n, up = byt[t]
            if isinstance(n, ast.ClassDef) and not any(isinstance(unwrap(v), types.FunctionType) for v in vars(o).values()):
                q = '.'.join(getattr(u, 'name', '') + ('' if isinstance(u, ast.ClassDef) else '<locals>') for u in up + [n] if hasattr(u, 'name'))
                if dup[q] > 1:
                    ctx.count('ambiguous')
                    continue
            one(ctx, r, m, t, o, n, up, g.tags[t], lines, src)
        ls, num = source.findsource(m)
        if ls != lines or num != 0 or source.getsource(m) != ''.join(lines):
            ctx.violation('module', src)
    finally:
        unload(ctx, m, p)


def one(ctx, r, m, t, o, n, up, info, lines, src):
    kind = info['kind'] + ('/' + info['form'] if 'form' in info else '') + ('/deco' if info.get('deco') else '')
    start = first(n)
    want = ''.join(lines[start - 1:n.end_lineno])

    def bad(key, msg):
        ctx.violation('%s|%s' % (key, kind.split('/')[0]), '%s %s (%s, line %d): %s\n-- wanted\n%s' % (kind, t, info['name'], start, msg, want))
    ctx.count('objects')
    ctx.nontrivial(want, kind)
    islambda = isinstance(n, ast.Lambda)
    try:
        ls, num = source.findsource(o)
        block, bnum = source.getsourcelines(o)
        text = source.getsource(o)
        stripped = source.getsource(o, lstrip=True)
    except Exception as e:
        bad('raised', '%r' % e)
        return
    if ls != lines or num != start - 1 or bnum != num or text != ''.join(block):
        bad('place', 'found line %d: %s' % (num + 1, ''.join(block)))
        return
    if islambda:
        if ''.join(lines[num:num + len(block)]) != text or not block:
            bad('block', text)
            return
    elif text.rstrip('\n') != want.rstrip('\n'):
        bad('block', text)
        return
    ctx.count('exact')
    if islambda and info.get('form') in ('multi',):
        return          # the line of a lambda inside a larger statement is not a statement
    g = {k: v for k, v in vars(m).items()}
    g['REG'] = []
    try:
        exec(compile(stripped, '<text>', 'exec'), g)
        got = g.get(info['name']) if not islambda else None
        if islambda:
            got = next((v for v in list(g.values()) + list(g.get('box', {}).values() if isinstance(g.get('box'), dict) else ()) if same(v, o) and v() == t), None)
        if got is None or not same(got, o):
            bad('executed', 'text defines %r\n%s' % (got, stripped))
        elif isinstance(o, (types.FunctionType, types.MethodType)) and info['kind'] in ('def', 'one', 'lambda', 'staticmethod'):
            f = unwrap(got)
            if not inspect.isgeneratorfunction(f) and f() != t:
                bad('executed', 'returns %r' % f())
        ctx.count('executed')
    except Exception as e:
        bad('executed', '%r\n%s' % (e, stripped))
    # alias
    if not (islambda and info['form'] in ('dict', 'two', 'call', 'nested', 'cond', 'paren')):
        g = {k: v for k, v in vars(m).items()}
        g['REG'] = []
        try:
            alias = r.choice(['zz_', info['name'] + '2', info['name'][0], info['name']])
            text = source.getsource(o, alias=alias)
            exec(compile(text, '<alias>', 'exec'), g)
            if not same(g.get(alias), o):
                bad('alias', '%s is %r\n%s' % (alias, g.get(alias), text))
            ctx.count('aliased')
        except Exception as e:
            bad('alias', '%r\n%s' % (e, text))
    # enclosing
    fs = [u for u in up if isinstance(u, (ast.FunctionDef, ast.AsyncFunctionDef))]
    if not islambda and not isinstance(n, ast.ClassDef):
        try:
            enc, enum_ = source.getsourcelines(o, enclosing=True)
        except Exception as e:
            bad('enclosing', repr(e))
            return
        ctx.count('enclosing')
        outer = fs[0] if fs else n
        lo = first(outer)
        if [x.rstrip('\n') for x in enc] != [x.rstrip('\n') for x in lines[lo - 1:outer.end_lineno]] or enum_ != lo - 1:
            bad('enclosing', 'enclosing is line %d: %s' % (enum_ + 1, ''.join(enc)))
    # import strings
    if info['top'] and getattr(m, info['name'], None) is o and o.__module__ == m.__name__:
        if islambda and info['form'] not in ('simple', 'args', 'paren', 'nested', 'cond', 'call'):
            return
        for fn in (lambda **k: source.getimport(o, **k), lambda **k: source.importable(o, source=False, **k), lambda **k: source.importable(o, **k), lambda **k: source.getimport(o, verify=False, **k)):
            for alias in ('', 'zz_', info['name'], info['name'] + '_'):
                g = {}
                try:
                    text = fn(alias=alias) if alias else fn()
                    exec(text, g)
                    got = g.get(alias or info['name'])
                except Exception as e:
                    bad('import', '%r' % e)
                    continue
                ctx.count('imports')
                if got is not o:
                    bad('import', 'alias %r: %r gives %r' % (alias, text, got))
    # indent and outdent keep the meaning of blocks
    if not islambda:
        ctx.count('indented')
        tree = ast.dump(ast.parse(stripped))
        k = r.choice([2, 4, 8])
        ind = source.indent(stripped, k)
        try:
            if ast.dump(ast.parse('if 1:\n' + ind).body[0].body[0]) != ast.dump(ast.parse(stripped).body[0]):
                bad('indent', ind)
            if ast.dump(ast.parse(source.outdent(ind))) != tree or ast.dump(ast.parse(source.outdent(stripped))) != tree:
                bad('outdent', source.outdent(ind))
            # by less than all of it, by more than there is, by a tab, by other white space; and only the first line
            left = source.outdent(ind, spaces=r.choice([1, k - 1, k]))
            for text in (left, source.indent(stripped, '\t'), source.indent(stripped, ' \t ')):
                block = ast.parse('if 1:\n' + text).body[0] if text[:1].isspace() else ast.parse(text)
                if ast.dump(block.body[0]) != ast.dump(ast.parse(stripped).body[0]):
                    bad('outdent', text)
            if ast.dump(ast.parse(source.outdent(ind, spaces=r.choice([k + 1, 99, -1, None])))) != tree:
                bad('outdent', 'too much of\n' + ind)
            one = source.outdent(ind, all=False)
            if one != ind[len(ind) - len(ind.lstrip(' \t')):]:
                bad('outdent', 'first line\n' + one)
        except SyntaxError as e:
            bad('indent', '%r\n%s' % (e, ind))


# -- interactive history ------------------------------------------------------------------------------------

def history(ctx, c):
    """definitions typed at a prompt: main without a file, readline has the lines"""
    import __main__, readline
    r = ctx.rng('history', c['i'])
    stmts = gen_imp.session(r)
    main = __main__.__dict__
    saved = dict(main)
    n0 = readline.get_current_history_length()
    readline.clear_history()
    for i in range(r.choice([0, 3])):
        readline.add_history('import os')
    try:
        main.pop('__file__', None)
        for k in [k for k in main if not k.startswith('__')]:
            main.pop(k)
        for s, names in stmts:
            for l in s.rstrip('\n').split('\n'):
                readline.add_history(l)
            exec(compile(s, '<stdin>', 'single' if s.count('\n') == 1 or names else 'exec'), main)
        text = '\n'.join(s for s, _ in stmts)
        live = {}
        for s, names in stmts:
            for nm in names:
                live[nm] = s
        for nm, s in live.items():
            o = main[nm]
            kind = 'class' if isinstance(o, type) else 'lambda' if 'lambda' in s.split('\n')[0] and not s.startswith(('def', 'async', '@')) else 'def'
            ctx.count('history')
            ctx.nontrivial('history', s, kind)
            try:
                got = source.getsource(o)
            except Exception as e:
                ctx.violation('history|raised|' + kind, '%s: %r\n%s' % (nm, e, text))
                continue
            if got.rstrip('\n') != s.rstrip('\n'):
                ctx.violation('history|text|' + kind, '%s: got\n%s\n-- wanted\n%s\n-- history\n%s' % (nm, got, s, text))
                continue
            g = {k: v for k, v in main.items() if k != nm}
            for alias in ('', 'zz_'):
                try:
                    t = source.importable(o, alias=alias, source=True) if r.random() < .5 else source.getsource(o, alias=alias, lstrip=True)
                    exec(t, g)
                except Exception as e:
                    ctx.violation('history|executed|' + kind, '%s: %r\n%s\n-- history\n%s' % (nm, e, t, text))
                    break
                if not same(g.get(alias or nm), o):
                    ctx.violation('history|other|' + kind, '%s: %r\n%s\n-- history\n%s' % (nm, g.get(alias or nm), t, text))
    finally:
        main.clear()
        main.update(saved)
        readline.clear_history()


# -- importable source --------------------------------------------------------------------------------------

def stitch(ctx, c):
    r = ctx.rng('stitch', c['i'])
    src, objs = gen_imp.module(r)
    name = 'm24s_%d_%d' % (ctx.shard, c['i'])
    m, p = load(ctx, name, src, r.choice(PLACES))
    try:
        for nm, kind, args in objs:
            o = getattr(m, nm)
            want = [call(o, a) for a in args] if not isinstance(o, type) else None
            for alias in ('', 'zz_'):
                g = {}
                try:
                    text = source.importable(o, alias=alias, source=True)
                except Exception as e:
                    ctx.violation('stitch|raised|' + kind, '%s: %r\n%s' % (nm, e, src))
                    continue
                ctx.count('stitched')
                ctx.nontrivial('stitch', text)
                try:
                    exec(text, g)
                except Exception as e:
                    ctx.violation('stitch|exec|' + kind, '%s: %r\n%s\n-- of\n%s' % (nm, e, text, src))
                    continue
                names = [alias] if alias else [nm, getattr(o, '__name__', nm)]
                got = next((g[k] for k in names if k in g), None)
                if isinstance(o, type):
                    if not same(got, o):
                        ctx.violation('stitch|other|' + kind, '%s: %r\n%s\n-- of\n%s' % (nm, got, text, src))
                    continue
                if not callable(got) or [call(got, a) for a in args] != want:
                    ctx.violation('stitch|other|' + kind, '%s: %r, calls give %r, not %r\n%s\n-- of\n%s' % (nm, got, [call(got, a) for a in args] if callable(got) else None, want, text, src))
    finally:
        unload(ctx, m, p)


def call(f, a):
    try:
        return ('ok', f(*a))
    except Exception as e:
        return ('error', type(e).__name__, str(e))


# -- dumpsource ---------------------------------------------------------------------------------------------

def dump(ctx, c):
    from .. import gen_data, iso
    r = ctx.rng('dump', c['i'])
    o = gen_data.build(r, r.choice([1, 3, 10]))[0]
    alias = r.choice(['x', 'some_name'])
    enclose = r.random() < .5
    try:
        dill.dumps(o)
    except Exception:
        return
    text = source.dumpsource(o, alias=alias, enclose=enclose)
    g = {'keep': 1}
    try:
        exec(text, g)
    except Exception as e:
        ctx.violation('dumpsource|raised', '%r: %r' % (type(o), e))
        return
    ctx.count('dumped')
    d = iso.compare(o, g[alias]).diffs
    if d:
        ctx.violation('dumpsource|other', '%s' % d[:3])
    if set(g) - {'keep', '__builtins__', alias, 'dill'} or (enclose and 'dill' in g):
        ctx.violation('dumpsource|names', '%s' % sorted(set(g) - {'__builtins__'}))
    ctx.nontrivial('dump', text[:300])


# -- what has no source -------------------------------------------------------------------------------------

def refuse(ctx, c):
    """no text rather than other text"""
    r = ctx.rng('refuse', c['i'])
    ns = {'__name__': 'nowhere24'}
    exec(compile('def f(): return 1\nlam = lambda: 2\nclass K:\n    def m(self): return 3\n', '<nosuch24>', 'exec'), ns)
    made = type('Base', (), {'x': 1})
    made2 = types.new_class('Kl')
    pool = [len, [].append, int, 3, None, 'abc', ns['f'], ns['lam'], ns['K'], ns['K'].m, ns['f'].__code__, [1, 2], {}.keys, made, made2, sys, (x for x in ()), type(len), 2.5, made()]
    o = r.choice(pool)
    for fn in (source.findsource, source.getsourcelines, source.getsource):
        ctx.count('refused')
        try:
            x = fn(o)
        except (OSError, TypeError, AttributeError):
            continue
        except Exception as e:
            ctx.violation('refuse|error', '%s(%r): %r' % (fn.__name__, o, e))
            continue
        ctx.violation('refuse|text', '%s(%r) gives %.300r' % (fn.__name__, o, x))
    ctx.nontrivial('refuse', repr(type(o)))


# -- import strings of what is installed, and of classes with a repr of their own ---------------------------------

def ask(ctx, o, n, key, odd=False):
    for kw in ({}, {'alias': 'zz_'}, {'builtin': True}, {'builtin': True, 'alias': 'zz_'}, {'verify': False}, {'alias': n}):
        for fn in (source.getimport, source.importable):
            k = dict(kw)
            if fn is source.importable:
                if 'verify' in k:
                    continue
                k['source'] = False
            g, t = {}, None
            try:
                t = fn(o, **k)
                exec(t, g)
            except Exception as e:
                ctx.violation(key + '|raised', '%s of %s.%s, %r: %r from %r' % (fn.__name__, o.__module__, n, kw, e, t))
                continue
            ctx.count(key)
            if t.strip() == n and getattr(builtins, n, None) is o:
                continue        # nothing to import
            if g.get(k.get('alias') or n) is not o:
                ctx.violation(key + '|other', '%s of %s.%s, %r: %r gives %r' % (fn.__name__, o.__module__, n, kw, t, list(g)))
            if len(set(g) - {'__builtins__'}) != 1 and not (k.get('alias') and set(g) - {'__builtins__'} <= {n, k['alias']}):
                ctx.violation(key + '|names', '%s of %s.%s, %r: %r binds %r' % (fn.__name__, o.__module__, n, kw, t, list(g)))


def lib(ctx, c):
    mn = LIB[c['i']]
    m = importlib.import_module(mn)
    for n, o in sorted(vars(m).items()):
        if n.startswith('_') or not isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType)) or getattr(o, '__module__', None) != m.__name__ or o.__name__ != n:
            continue
        ctx.nontrivial('lib', mn, n)
        ask(ctx, o, n, 'lib')


REPRS = ["'{m}.B'", "\"<class '{m}.B'>\"", "'B'", "'<class B>'", "'{m}.B()'", "'int'", "'<B object at 0x12>'", "''", "self.__name__", "'{m}.' + self.__name__", "'<' + self.__name__ + '>'", "'<function B at 0x1>'", "'<bound B>'",
         "\"<class '__main__.A'>\"", "\"<class 'A'>\"", "'a b\\nc'", "'A = 5'"]


def reprs(ctx, c):
    """classes whose metaclass has a repr (as enums, Django models and others do)"""
    r = ctx.rng('repr', c['i'])
    src = 'import enum\nclass M(type):\n    def __repr__(self): return %s\n' % r.choice(REPRS)
    name = 'm24r_%d_%d' % (ctx.shard, c['i'])
    place = r.choice(PLACES)
    full = place.format(n=name).replace('.__init__', '')
    src = src.replace('{m}', full)
    names = ['A', 'B', 'AB', 'Inner']
    r.shuffle(names)
    for k in names:
        src += r.choice(['class %s(metaclass=M):\n    tag = %r\n', 'class %s(metaclass=M):\n    tag = %r\n', 'class %s:\n    tag = %r\n', 'class %s(enum.Enum):\n    tag = %r\n']) % (k, k)
    m, p = load(ctx, name, src, place)
    try:
        for k in names:
            ctx.nontrivial('repr', src, k)
            ask(ctx, getattr(m, k), k, 'reprs')
    finally:
        unload(ctx, m, p)


def absent(ctx, c):
    """classes and functions whose __module__ is a module that is not there (or not yet), exposed by the package"""
    r = ctx.rng('absent', c['i'])
    name = 'm24a_%d_%d' % (ctx.shard, c['i'])
    place = r.choice(PLACES)
    full = place.format(n=name).replace('.__init__', '')
    src = ''
    for k in ('K', 'L', 'KL'):
        src += 'class %s%s:\n    tag = %r\n' % (k, r.choice(['', '(dict)', '(list)', '(Exception)', '(object)']), k)
    src += 'def f(): return 1\nlam = lambda: 2\n'
    where = {}
    for k in ('K', 'L', 'KL', 'f', 'lam'):
        where[k] = r.choice([full, full + '.gone', full + '._impl', full + '.K', full + '.x.y', full + '.' + k, 'nowhere24.gone', 'nowhere24', '', '.x', None])
        src += '%s.__module__ = %r\n' % (k, where[k])
    m, p = load(ctx, name, src, place)
    try:
        ctx.nontrivial('absent', src)
        for k in ('K', 'L', 'KL', 'f', 'lam'):
            o = getattr(m, k)
            inst = not where[k] or not where[k].startswith(full)
            for x in [o] + ([o()] if k.isupper() and not inst else []):
                for kw in ({}, {'alias': 'zz_'}, {'builtin': True}, {'builtin': True, 'alias': 'zz_'}, {'alias': k}, {'enclosing': True}):
                    for fn in (source.getimport, source.importable) if x is o else (source.getimport,):
                        if 'enclosing' in kw and (x is not o or fn is source.importable):
                            continue
                        q = dict(kw)
                        if fn is source.importable:
                            q['source'] = False
                        ctx.count('absent')
                        t, g = None, {}
                        try:
                            t = fn(x, **q)
                            exec(t, g)
                        except Exception as e:
                            if t is None and x is o and isinstance(e, ImportError) or x is o and k == 'lam':
                                continue        # no text rather than other text
                            ctx.violation('absent|raised', '%s of %r of %s, __module__ %r, %r: %r from %r' % (fn.__name__, x, full, where[k], kw, e, t))
                            continue
                        got = g.get(q.get('alias') or k)
                        if fn is source.importable and t.startswith(('def ', 'class ', 'lam = ', 'zz_ = lam = ')) and type(got) is type(o) and got.__qualname__ == o.__qualname__ and (got() == o() if not k.isupper() else got.tag == o.tag):
                            continue        # its source, for want of an import
                        if got is not o:
                            ctx.violation('absent|other', '%s of %r of %s, __module__ %r, %r: %r gives %r' % (fn.__name__, x, full, where[k], kw, t, list(g)))
    finally:
        unload(ctx, m, p)


IREPR = [None, None, None, "'{n}(%r)' % (self.v,)", "'{n}(v=%r)' % (self.v,)", 'repr({{"v": (self.v, 1)}})', "'[%r, (1, 2)]' % (self.v,)", "'<{n}>'", "'({n})'", "'{n}'", "'{n}.v(1)'", "'[{n}(1)]'", "'{n}(<...>)'", "'{n}(1'", "''", "'import os'", "'len'",
         "'5'", "'{n}(1) + 1'", "'# (x)'", "'lambda: (1)'", "'{n} object (v)'", "'v = {n}(1)'", "'a b(c)'"]


def instance(ctx, c):
    """text of instances, run in a module of another name"""
    r = ctx.rng('instance', c['i'])
    name = 'm24o_%d_%d' % (ctx.shard, c['i'])
    place = r.choice(PLACES)
    src, build = '', []
    for n in r.sample(['K', 'Longer', 'A1', 'Ab', 'Abc'], 3):
        base = r.choice(['', '', '', '(dict)', '(list)', '(OSError)', '(object)'])
        rep = r.choice(IREPR)
        src += 'class %s%s:\n    def __init__(self, v=None):\n        %sself.v = v\n    def get(self): return [%r, self.v]\n' % (n, base, 'super().__init__(v); ' if base == '(OSError)' else 'super().__init__(); ' if base and r.random() < .5 else '', n)
        if rep:
            src += '    def __repr__(self): return %s\n' % rep.format(n=n)
        src += r.choice(['', '', '\n', '# end\n'])
        build.append((n, base, rep))
    m, p = load(ctx, name, src, place)
    full = m.__name__
    other = r.choice(['x', 'o24', 'other_' * 9, full + '_', 'q', full[:3], '__o24__', '\xe9\xe8'])
    M = types.ModuleType(other)
    try:
        for n, base, rep in build:
            k = getattr(m, n)
            v = r.choice([1, 'text', full, 'c%s\n%s\n' % (full, n), (1, 2), [1, [2]], {'a': (3,)}, None, 2.5])
            o = k(v)
            if base == '(dict)':
                o.update({'a': (1, 2)} if r.random() < .7 else {})
            elif base in ('(list)', '(set)'):
                getattr(o, {'(list)': 'append', '(set)': 'add'}[base])((1, 'z'))
            if rep and rep.startswith("'{n}(") and base in ('(dict)', '(list)', '(set)') and '%' in rep:
                o.clear()       # else its repr is not what makes it
            asks = [(source.importable, {}), (source.importable, {'alias': 'zz_'}), (source.importable, {'source': False}), (source.importable, {'source': True}), (source.importable, {'source': True, 'alias': 'zz_'}),
                    (source.getsource, {}), (source.getsource, {'alias': 'zz_'}), (source.getsource, {'force': True}), (source.getsource, {'force': True, 'alias': 'zz_'}),
                    (source.dumpsource, {'alias': 'zz_'}), (source.dumpsource, {'alias': 'zz_', 'enclose': False}), (source.dumpsource, {'alias': 'zz_', 'new': True}), (source.dumpsource, {'alias': 'zz_', 'new': True, 'enclose': False}), (source.dumpsource, {'new': True, 'enclose': False}),
                    (source.getimport, {}), (source.getimport, {'alias': 'zz_'})]
            for fn, kw in asks:
                what = '%s of %s.%s%s with repr %s, %r in %r' % (fn.__name__, full, n, base, rep, kw, other)
                g = M.__dict__
                g.clear()
                g['__name__'] = other
                sys.modules[other] = M
                t = None
                try:
                    t = fn(o, **kw)
                    if fn is source.getimport:
                        exec(t, g)
                        got = g[kw.get('alias', n)]
                    elif 'alias' in kw:
                        exec(t, g)
                        got = g['zz_']
                    else:
                        tree = ast.parse(t)
                        last = tree.body.pop()
                        exec(compile(tree, '<instance>', 'exec'), g)
                        got = eval(compile(ast.Expression(last.value), '<instance>', 'eval'), g)
                except Exception as e:
                    ctx.violation('instance|raised', '%s: %r from %.600r' % (what, e, t))
                    continue
                finally:
                    del sys.modules[other]
                ctx.count('instances')
                if fn is source.getimport:
                    if got is not k:
                        ctx.violation('instance|import', '%s: %r from %r' % (what, got, t))
                    continue
                content = (lambda x: dict.copy(x) if isinstance(x, dict) else sorted(x) if isinstance(x, (list, set)) else None)
                if type(got).__name__ != n or not isinstance(got, k.__bases__) or got.get() != [n, v] or content(got) != content(o):
                    ctx.violation('instance|other', '%s: %r (%r) from %.600r' % (what, got, type(got), t))
                elif 'class ' in t and kw.get('new', True) and fn is not source.importable and type(got) is not g.get(n) and kw.get('enclose', fn is not source.dumpsource) is False:
                    ctx.violation('instance|class', '%s: an instance of %r, not of the class in the text %.600r' % (what, type(got), t))
            ctx.nontrivial('instance', base, rep, place, other, repr(v))
    finally:
        unload(ctx, m, p)


# -- importable text of what its own repr rebuilds ------------------------------------------------------------------

CH = ['a', '<', '>', '(', ')', "'", '"', '\n', '=', ',', '.', ' ', '[', ']', '{', '\\', '\xe9', 'import', 'lambda', '#', ':', ' as ', 'len']


def text_(r):
    return ''.join(r.choice(CH) for _ in range(r.randrange(8)))


def lit(r, d=0):
    k = r.randrange(13 if d < 3 else 6)
    if k == 0:
        return r.choice([0, 1, -1, 10 ** 30, True, False, None])
    if k == 1:
        return r.choice([1.5, -2.0, 1e100, 3 + 2j, -1j])
    if k in (2, 3, 4):
        return text_(r)
    if k == 5:
        return text_(r).encode()
    if k in (6, 7, 8):
        return [lit(r, d + 1) for _ in range(r.randrange(4))]
    if k == 9:
        return tuple(lit(r, d + 1) for _ in range(r.randrange(4)))
    if k in (10, 11):
        return {text_(r): lit(r, d + 1) for _ in range(r.randrange(4))}
    return {text_(r) for _ in range(r.randrange(1, 4))}


def literal(ctx, c):
    import collections, decimal, fractions, uuid
    r = ctx.rng('literal', c['i'])
    plain = r.random() < .7
    o = lit(r) if plain else r.choice([
        lambda: fractions.Fraction(r.randrange(9), 7), lambda: decimal.Decimal(r.choice(['1.50', '-3', '1E+3'])), lambda: collections.deque([lit(r, 2) for _ in range(3)], r.choice([None, 5])), lambda: collections.Counter(text_(r)),
        lambda: uuid.UUID(int=r.randrange(9 ** 9)), lambda: collections.ChainMap({text_(r): lit(r, 2)}), lambda: range(r.randrange(4), 9), lambda: frozenset([1, r.randrange(5)]), lambda: slice(1, r.randrange(5)), lambda: bytearray(b'(x)')])()
    for kw in ({}, {'alias': 'zz_'}, {'alias': 'zz_', 'builtin': True}, {'builtin': True}, {'source': False}) + (({'alias': 'zz_', 'source': True},) if plain else ()):
        g, t = {}, None
        try:
            t = source.importable(o, **kw)
            if 'alias' in kw:
                exec(t, g)
                got = g['zz_']
            else:
                tree = ast.parse(t)
                last = tree.body.pop()
                exec(compile(tree, '<literal>', 'exec'), g)
                got = eval(compile(ast.Expression(last.value), '<literal>', 'eval'), g)
        except Exception as e:
            ctx.violation('literal|raised', '%.200r, %r: %r from %.300r' % (o, kw, e, t))
            continue
        ctx.count('literals')
        if type(got) is not type(o) or got != o:
            ctx.violation('literal|other', '%.200r, %r: %.300r gives %.200r' % (o, kw, t, got))
    ctx.nontrivial('literal', repr(o))
