"""C23: detect reports what a function really refers to."""
import dis, gc, inspect, io, linecache, os, sys, types, warnings
import dill
from dill import detect
from .. import corpus, state

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 700}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('generated pairs of modules whose functions refer to globals in every way the language has (bodies, nested functions, lambdas, comprehensions, class bodies, decorators, defaults, annotations, global statements, f-strings, '
        'type parameters) with decoys (attributes, keywords, strings, imports, locals and parameters of the same names), executed with a recording namespace: every global really loaded must be reported, everything '
        'reported must be named by a global-accessing instruction of a reachable function and be the very object; freevars, varnames, nestedcode, referrednested, outermost, getmodule against the code and the known '
        'definitions; nothing is executed or changed; badobjects/badtypes/errors/baditems against independent dump, load and compare of each part; non-trivial = (program, function)')
ASSUMPTIONS = ['classes and instances found in globals are not followed (their methods are pickled with their own globals)',
               'a part is bad if dill.copy of it raises or returns another type']
FLOORS = {'functions': 4000, 'loads_seen': 7000, 'globals_reported': 10000, 'frees': 800, 'nested': 2000, 'outermost': 500, 'unchanged': 500, 'bad_parts': 1500, 'good_parts': 2000, 'errors_checked': 800, 'shared_modules': 200}

NAMES = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta']
GLOBAL_OPS = {'LOAD_GLOBAL', 'STORE_GLOBAL', 'DELETE_GLOBAL', 'LOAD_FROM_DICT_OR_GLOBALS'}


class Touched(Exception):
    pass


class Trap:
    """must not be asked anything"""
    def _no(self, *a, **k):
        raise Touched('asked')
    __eq__ = __ne__ = __hash__ = __bool__ = __len__ = __iter__ = __call__ = __contains__ = __getitem__ = __repr__ = __str__ = _no

    def __getattr__(self, n):
        raise Touched('asked for ' + n) if not n.startswith('__') else AttributeError(n)


class Rec(dict):
    """globals that know who was looked up"""
    def __init__(self, *a):
        super().__init__(*a)
        dict.__setattr__(self, 'seen', set()) if hasattr(self, '__dict__') else None

    def __getitem__(self, k):
        self.seen.add(k)
        return super().__getitem__(k)


class Gen:
    def __init__(self, r, mod, funcs):
        self.r, self.mod, self.funcs, self.n, self.frees = r, mod, funcs, 0, []

    def g(self):
        return self.r.choice(NAMES)

    def fn(self):
        return self.r.choice(self.funcs) if self.funcs else 'len'

    def stmt(self, ind, depth, loc):
        """lines; loc: names that are local here"""
        r, g = self.r, self.g
        pad = '    ' * ind
        self.n += 1
        n = self.n
        k = r.randrange(22)
        a, b = g(), g()
        decoy = r.choice(['o_.%s' % a, 'kw_(%s=1)' % a, 'str(%r)' % a, 'len("{%s}")' % a, '(lambda %s: %s)(1)' % (a, a), '[%s for %s in (1, 2)]' % (a, a), '{%s: 1 for %s in (1,)}' % (a, a)])
        if k == 0:
            return [pad + 'out_.append(%s)' % a] if a not in loc else [pad + 'pass']
        if k in (1, 2):
            return [pad + 'out_.append(%s)' % decoy]
        if k == 3 and depth < 3:
            return [pad + 'def in%d(p=1, q=%s):' % (n, a)] + self.body(ind + 1, depth + 1, loc | {'p', 'q'}) + [pad + 'in%d()' % n]
        if k == 4:
            return [pad + 'out_.append((lambda: %s)())' % a]
        if k == 5:
            return [pad + 'out_.append([(x_, %s) for x_ in (1, 2)])' % a]
        if k == 6 and depth < 3:
            m = r.choice(['%s = 1' % b, 'w_ = %s' % a, 'w_ = 1; v_ = w_', 'def m_(self): return %s' % a, '@staticmethod\n' + pad + '    def %s(): return %s' % (b, a)])
            return [pad + 'class C%d:' % n, pad + '    ' + m, pad + '    z_ = %s' % g(), pad + '    def k_(self): return %s' % g(), pad + 'C%d().k_()' % n]
        if k == 7:
            return [pad + 'out_.append(f"{len([%s])} {o_.%s}")' % (a, b)]
        if k == 8 and depth < 3:
            return [pad + 'def in%d(p: "no" = 2) -> str: return %s' % (n, a), pad + 'in%d()' % n]
        if k == 9:
            return [pad + 'import os as os_%d' % n]
        if k == 10:
            return [pad + 'if out_ is None:', pad + '    never_%s(%s)' % (a, b)]
        if k == 11:
            return [pad + 'try:', pad + '    raise KeyError(len([%s]))' % a, pad + 'except KeyError as e_:', pad + '    pass']
        if k == 12:
            return [pad + 'out_.append(%s())' % self.fn()]
        if k == 13 and depth == 0:
            return [pad + 'free%d = len([%s])' % (n, a), pad + 'def in%d():' % n, pad + '    return (free%d, %s)' % (n, b), pad + 'keep_.append(in%d)' % n, pad + 'in%d()' % n]
        if k == 14 and depth == 0:
            return [pad + 'def rec%d(i): return rec%d(i - 1) if i else %s' % (n, n, a), pad + 'keep_.append(rec%d)' % n, pad + 'rec%d(2)' % n]
        if k == 15:
            return [pad + 'out_.append(list(%s for y_ in range(2)))' % a]
        if k == 16:
            return [pad + 'def gen%d[T](p: T = None): return [%s]' % (n, a), pad + 'gen%d()' % n]
        if k == 17:
            return [pad + 'class G%d[T]:' % n, pad + '    w_ = [%s]' % a, pad + '    def k_(self, p: T = 1): return %s' % b, pad + 'G%d().k_()' % n]
        if k == 18 and depth == 0:
            return [pad + 'def late%d(): return later%d, zlast%d, (afirst%d for i in (1,))' % (n, n, n, n), pad + 'zlast%d = afirst%d = [%s]' % (n, n, a), pad + 'keep_.append(late%d)' % n, pad + 'if out_ is None: later%d = 1' % n]
        if k == 19:
            return [pad + 'out_.append(kw_(*[%s], **{%r: 1}))' % (a, b)]
        if k == 20:
            return [pad + 'match [%s]:' % a, pad + '    case [%s_m]: out_.append(len([%s]))' % (b, g())]
        return [pad + 'out_.append(%s)' % self.r.choice([a, '[%s]' % a, '(%s, o_.%s)' % (a, b)])]

    def body(self, ind, depth, loc=frozenset()):
        r = self.r
        out = []
        pad = '    ' * ind
        if depth == 0 and r.random() < .2:
            x = 'glob_%d' % self.n
            out += [pad + 'global ' + x, pad + x + ' = 1']
            if r.random() < .5:
                out += [pad + 'out_.append(%s)' % x]
        for i in range(r.choice([1, 2, 3, 5]) if depth < 2 else 1):
            out += self.stmt(ind, depth, set(loc))
        return out

    def module(self, k):
        lines = ['"""generated"""']
        names = []
        for i in range(k):
            f = '%s_f%d' % (self.mod, i)
            r = self.r
            kind = r.choice(['def', 'def', 'def', 'lambda', 'method', 'closure', 'gen', 'shadow'])
            if kind == 'lambda':
                lines += ['%s = lambda: [%s, o_.%s, %s]' % (f, self.g(), self.g(), self.g())]
            elif kind == 'method':
                lines += ['class %s_c:' % f, '    def %s(self):' % self.g()] + self.body(2, 0) + ['%s = list(vars(%s_c).values())[1].__get__(%s_c())' % (f, f, f)]
                lines[-1] = '%s = [v for v in vars(%s_c).values() if type(v) is type(lambda: 0)][0].__get__(%s_c())' % (f, f, f)
            elif kind == 'closure':
                lines += ['def %s_mk(fr, fr2):' % f, '    def %s_in():' % f, '        fr2'] + self.body(2, 1) + ['        return fr', '    return %s_in' % f, '%s = %s_mk(%s, %s)' % (f, f, self.r.choice(['1', 'o_', 'len'] + ['%s' % x for x in names[-1:]]), self.r.choice(['3', 'kw_'] + names[-1:]))]
            elif kind == 'gen':
                lines += ['def %s():' % f] + self.body(1, 0) + ['    return []']
            elif kind == 'shadow':
                a, b = self.g(), self.g()
                lines += ['def %s(%s=1):' % (f, a), '    out_.append(%s)' % a, '    def in_(%s=%s): return %s' % (b, a, b), '    in_()'] + ['    out_.append(%s)' % self.g() if a not in NAMES else '    pass']
            else:
                lines += ['def %s():' % f] + self.body(1, 0)
            names.append(f)
            self.funcs.append(f)
            if self.r.random() < .15 and len(names) > 1:      # a cycle
                lines += ['def %s_cyc(n_=2): return n_ and (%s, %s_cyc2(n_ - 1))' % (f, f, f), 'def %s_cyc2(n_=2): return n_ and (%s, %s_cyc(n_ - 1))' % (f, self.g(), f)]
                names += ['%s_cyc' % f, '%s_cyc2' % f]
        return '\n'.join(lines) + '\n', names


def cases(ctx):
    for i in ctx.mine(700 if ctx.quick else 8000):
        yield {'i': i}
    for i in ctx.mine(400 if ctx.quick else 4000):
        yield {'i': i, 'nest': True}
    for i in ctx.mine(500 if ctx.quick else 5000):
        yield {'i': i, 'bad': True}


def setup(ctx):
    warnings.simplefilter('ignore')
    sys.path.insert(0, ctx.scratch)
    ctx.n = 0


def run_case(ctx, c):
    if 'nest' in c:
        nest(ctx, c)
    elif 'bad' in c:
        bad(ctx, c)
    else:
        program(ctx, c)


def base(f):
    return f.__func__ if isinstance(f, types.MethodType) else f


def codes(co, recurse=True):
    out = []
    for k in co.co_consts:
        if isinstance(k, types.CodeType):
            out.append(k)
            if recurse:
                out += codes(k)
    return out


def named(co, recurse=True):
    """(must, may): global names its instructions mention"""
    must, may = set(), set()
    stored = {i.argval for i in dis.get_instructions(co) if i.opname in ('STORE_NAME', 'DELETE_NAME')} | {'__name__'}
    for i in dis.get_instructions(co):
        if i.opname in GLOBAL_OPS:
            (must if i.opname != 'LOAD_FROM_DICT_OR_GLOBALS' else may).add(i.argval)
        elif i.opname == 'LOAD_NAME':
            may.add(i.argval)
            if i.argval not in stored:
                must.add(i.argval)
    if recurse:
        for k in codes(co):
            a, b = named(k, False)
            must |= a
            may |= b
    return must, may | must


def reach(f, pick):
    """functions that f refers to, itself included"""
    todo, seen = [base(f)], {}
    while todo:
        g = todo.pop()
        if id(g) in seen:
            continue
        seen[id(g)] = g
        vals = [g.__globals__[k] for k in list(named(g.__code__)[pick]) if dict.__contains__(g.__globals__, k)]
        for cell in g.__closure__ or ():
            try:
                vals.append(cell.cell_contents)
            except ValueError:
                pass
        for v in vals:
            v = base(v) if type(v) in (types.MethodType,) else v
            if type(v) is types.FunctionType:
                todo.append(v)
    return list(seen.values())


def chained(f):
    """what f refers to through functions, as far as each link means the same variable"""
    fs = reach(f, 0)
    own = {}
    links = {}
    for g in fs:
        G = g.__globals__
        own[id(g)] = {k for k in named(g.__code__)[0] if dict.__contains__(G, k)}
        vals = [dict.__getitem__(G, k) for k in own[id(g)]]
        for cell in g.__closure__ or ():
            try:
                vals.append(cell.cell_contents)
            except ValueError:
                pass
        links[id(g)] = [base(v) for v in vals if type(v) in (types.FunctionType, types.MethodType) and type(base(v)) is types.FunctionType]
    change = True
    while change:
        change = False
        for g in fs:
            for h in links[id(g)]:
                new = {k for k in own[id(h)] if k not in own[id(g)] and dict.__contains__(g.__globals__, k) and dict.__getitem__(g.__globals__, k) is dict.__getitem__(h.__globals__, k)}
                if new:
                    own[id(g)] |= new
                    change = True
    return own[id(f)]


def program(ctx, c):
    r = ctx.rng(c['i'])
    D = {}
    log = {'out_': [], 'keep_': []}
    ctx.n += 1
    recs = {}
    srcs = {}
    shared = dict(log, o_=types.SimpleNamespace(**{n: n for n in NAMES}), kw_=lambda *a, **k: k)
    trap = Trap()
    vals = {n: r.choice([lambda: i for i in (1,)] if False else [1, [n], (n,), trap, n, None, Ellipsis]) for n in NAMES}
    funcs = []
    src, names = '', []
    for mod in ['A', 'B'] if r.random() < .5 else ['A']:
        g = Rec({'__name__': 'm23_%d_%s' % (c['i'], mod), '__builtins__': __builtins__ if isinstance(__builtins__, dict) else vars(__builtins__)})
        g.update(shared)
        for n in NAMES:                 # some are the same variable in both modules, some only share the name
            if r.random() < .9:
                g[n] = vals[n] if r.random() < .6 else r.choice([1, [n], trap, 2.5])
        gen = Gen(r, mod, list(funcs))
        for f in funcs:
            g[f] = D[f]
        s, ns_ = gen.module(r.choice([2, 3, 5]))
        try:
            exec(compile(s, '<m23 %s>' % mod, 'exec'), g)
        except SyntaxError:
            print(s)
            raise
        srcs[mod] = s
        for n in ns_:
            D[n] = dict.__getitem__(g, n)
        funcs += ns_
        recs[mod] = g
        if r.random() < .3 and mod == 'B':          # the first module refers back
            for n in ns_:
                dict.__setitem__(recs['A'], n, D[n])
    if len(recs) > 1:
        ctx.count('shared_modules')
    src = '\n# ----\n'.join(srcs[m] for m in sorted(srcs))
    snap = {m: dict(g) for m, g in recs.items()}
    keep = [D[n] for n in funcs]
    todo = [(n, D[n]) for n in funcs]
    for phase in range(2):
        for name, f in todo:
            try:
                look(ctx, c, r, name, f, src, phase)
            except Touched as e:
                ctx.violation('touched', '%s: an object in the namespace was %s\n%s' % (name, e, src))
                return
        if phase:
            break
        for m, g in recs.items():
            if set(snap[m]) != set(g) or any(snap[m][k] is not dict.get(g, k) for k in snap[m]) or shared['out_'] or shared['keep_']:
                ctx.violation('changed', 'namespace changed or code ran: %s' % src)
            ctx.count('unchanged')
        # now really run them
        inner = []
        for name, f in todo:
            b = base(f)
            g = b.__globals__
            before = {m: set(x.seen) for m, x in recs.items()}
            for x in recs.values():
                x.seen.clear()
            try:
                f()
            except Touched:
                pass
            except Exception as e:
                ctx.count('raised')
            seen = {k for k in g.seen if dict.__contains__(g, k)}
            for x in recs.values():
                x.seen.clear()
            ctx.count('loads_seen', len(seen))
            # what methods of classes reachable in the namespace do is theirs
            got = set(detect.globalvars(f))
            extra = {k for k in seen - got if not k.startswith('__')}       # the interpreter itself looks those up
            if extra:
                ctx.violation('missed|executed', '%s really uses %s, globalvars reports %s\n%s' % (name, sorted(extra), sorted(got), src))
            ng = set(detect.nestedglobals(b))
            ctx.count('executed')
        inner = [(k.__qualname__, k) for k in shared['keep_']]
        ctx.count('kept', len(inner))
        # functions made while running
        for name, f in todo:
            b = base(f)
            nc = codes(b.__code__)
            want = {id(k) for k in shared['keep_'] if any(k.__code__ is x for x in nc)}
            got = detect.referrednested(f)
            if want - {id(k) for k in got}:
                ctx.violation('referrednested|missing', '%s: %s\n%s' % (name, got, src))
            for k in got:
                if not any(detect.code(k) is x for x in nc):
                    ctx.violation('referrednested|foreign', '%s: %r\n%s' % (name, k, src))
        todo = todo + inner
    ctx.nontrivial(src)
    if len(ctx.samples) < 2 and len(src) < 900:
        ctx.sample({'case': c, 'source': src, 'globalvars': {n: sorted(detect.globalvars(f)) for n, f in todo[:6]}})


def look(ctx, c, r, name, f, src, phase):
    b = base(f)
    co, g = b.__code__, b.__globals__
    ctx.count('functions')

    def bad(key, msg):
        ctx.violation(key, '%s: %s\n%s' % (name, msg, src))
    for recurse in (True, False):
        must, may = named(co, recurse)
        for x in (f, co):
            got = set(detect.nestedglobals(x, recurse=recurse)) if not recurse or r.random() < .5 else set(detect.nestedglobals(x))
            if not must <= got <= may:
                bad('nestedglobals|%s' % recurse, 'nestedglobals(recurse=%s) missing %s, too many %s' % (recurse, sorted(must - got), sorted(got - may)))
    # globalvars
    rs = reach(b, 1)
    for builtin in (False, True):
        got = detect.globalvars(f, builtin=True) if builtin else detect.globalvars(f)
        bi = g['__builtins__'] if builtin else {}
        bi = bi if isinstance(bi, dict) else vars(bi)
        ctx.count('globals_reported', len(got))
        must, may = named(co)

        def value(k):
            return dict.__getitem__(g, k) if dict.__contains__(g, k) else bi[k]
        need = {k for k in must if dict.__contains__(g, k) or k in bi}
        # functions of the same namespace reachable without leaving it
        near = [b]
        for h in near:
            vs = [dict.__getitem__(g, k) for k in named(h.__code__)[0] if dict.__contains__(g, k)]
            for cell in h.__closure__ or ():
                try:
                    vs.append(cell.cell_contents)
                except ValueError:
                    pass
            for v in vs:
                v = base(v) if type(v) is types.MethodType else v
                if type(v) is types.FunctionType and v.__globals__ is g and not any(v is x for x in near):
                    near.append(v)
                    need |= {k for k in named(v.__code__)[0] if dict.__contains__(g, k) or k in bi}
        for k in (chained(b) if not builtin else ()):
            need.add(k)
        may = set(may)
        for h in rs:
            may |= named(h.__code__)[1]
        if not need <= set(got):
            bad('globalvars|missing', 'globalvars(builtin=%s) misses %s' % (builtin, sorted(need - set(got))))
        if not set(got) <= may:
            bad('globalvars|foreign', 'globalvars(builtin=%s) reports %s, which no reachable function names' % (builtin, sorted(set(got) - may)))
        for k, v in got.items():
            if not (dict.__contains__(g, k) or k in bi):
                bad('globalvars|undefined', 'globalvars(builtin=%s) reports %s, which is not defined' % (builtin, k))
            elif v is not value(k):
                bad('globalvars|other', 'globalvars(builtin=%s) reports another object for %s' % (builtin, k))
            elif k not in named(co)[1]:
                # came through another function: must be its variable too
                if not any(k in named(h.__code__)[1] and (h.__globals__.get(k, bi.get(k, h)) is v) for h in rs):
                    bad('globalvars|unrelated', '%s is reported for functions that mean another variable' % k)
    flat = detect.globalvars(f, recurse=False)
    must, may = named(co, False)
    for k, v in flat.items():
        if not dict.__contains__(g, k) or v is not dict.__getitem__(g, k):
            bad('globalvars|flat-other', k)
    need = {k for k in must if dict.__contains__(g, k)}
    if not need <= set(flat):
        bad('globalvars|flat-missing', '%s' % sorted(need - set(flat)))
    if not b.__closure__ and not set(flat) <= may:
        bad('globalvars|flat-foreign', '%s' % sorted(set(flat) - set(co.co_names)))
    if set(detect.referredglobals(f)) != set(detect.globalvars(f)):
        bad('referredglobals', '')
    # a code object has no globals of its own, but may have builtins
    import builtins
    for recurse in (True, False):
        must, may = named(co, recurse)
        got = detect.globalvars(co, recurse=recurse, builtin=True)
        if not {k for k in must if hasattr(builtins, k)} <= set(got) <= {k for k in may if hasattr(builtins, k)} or any(got[k] is not getattr(builtins, k) for k in got):
            bad('globalvars|code', 'globalvars of the code (recurse=%s) %s' % (recurse, sorted(got)))
        if detect.globalvars(co, recurse=recurse):
            bad('globalvars|code', 'globalvars of the code without builtins')
    if detect.varnames(len) != () or detect.varnames(5) != () or detect.globalvars(5) != {} or detect.globalvars(len, builtin=True) != {} or detect.nestedglobals(5) != [] and detect.nestedglobals(5) != set():
        bad('nofunction', 'varnames or globalvars of what is no function')
    # freevars
    want = {}
    for n, cell in zip(co.co_freevars, b.__closure__ or ()):
        try:
            want[n] = cell.cell_contents
        except ValueError:
            pass
    got = detect.freevars(f)
    ctx.count('frees', len(want))
    if set(got) != set(want) or any(got[k] is not want[k] for k in got):
        bad('freevars', '%r, not %r' % (got, want))
    if detect.freevars(co) != {}:
        bad('freevars|code', '')
    # nestedcode, varnames, code
    for recurse in (True, False):
        want = codes(co, recurse)
        for x in (f, co):
            got = detect.nestedcode(x, recurse)
            ctx.count('nested', len(want))
            if len(got) != len(set(want)) or set(got) != set(want):
                bad('nestedcode', 'recurse=%s: %r, not %r' % (recurse, got, want))
    if tuple(map(tuple, detect.varnames(f))) != (co.co_varnames, co.co_cellvars) or detect.varnames(co) != detect.varnames(f):
        bad('varnames', '%r' % (detect.varnames(f),))
    if detect.code(f) is not co or detect.code(co) is not co or detect.code(Trap) is not None:
        bad('code', '')


# -- which definition encloses it -------------------------------------------------------------------------

def nest(ctx, c):
    """modules in files with look-alike nests of functions"""
    r = ctx.rng('nest', c['i'])
    name = 'm23n_%d_%d' % (ctx.shard, c['i'])
    lines, tops = ['import functools', 'keep = []', 'V = 1', ''], []

    def inner(ind, depth, nm):
        pad = '    ' * ind
        out = []
        for j in range(r.choice([1, 1, 2])):
            k = r.choice(['def', 'def', 'lambda', 'call'])
            n = r.choice(['inner', 'g', 'h%d' % j])
            if k == 'def':
                out += [pad + 'def %s(y=%d):' % (n, r.choice([1, 2])), pad + '    z = y + a']
                if depth < 2 and r.random() < .5:
                    out += inner(ind + 1, depth + 1, nm)
                out += [pad + '    return z', pad + 'keep.append((%r, %s))' % (nm, n)]
            elif k == 'lambda':
                out += [pad + '%s = lambda y=1: y + a' % n, pad + 'keep.append((%r, %s))' % (nm, n)]
            out += [pad + '%s()' % n] if k == 'def' else []
            if r.random() < .2:
                out += ['', pad + '# note', '']
        return out
    for i in range(r.choice([2, 3, 4])):
        nm = 'top%d' % i
        if r.random() < .2:
            lines += ['# %s' % nm]
        lines += ['def %s(a=1):' % nm] + (['    """doc with def inner(y=1):"""'] if r.random() < .3 else []) + inner(1, 0, nm) + ['    return a', '']
        if r.random() < .4:
            lines += ['']
        tops.append(nm)
    extras = []
    for i in range(r.choice([0, 1, 2, 3])):
        k = r.choice(['async', 'deco', 'cls', 'lam', 'pair', 'clsin'])
        nm = 'x%d' % i
        if k == 'async':
            lines += ['async def %s(a=1):' % nm, '    async def inner(y=1):', '        return a + y', '    keep.append((%r, inner))' % nm, '    return a', '']
        elif k == 'deco':
            lines += ['def %s(f):' % nm, '    @functools.wraps(f)', '    def inner(y=1):', '        return f(y)', '    keep.append((%r, inner))' % nm, '    return inner', '', '@%s' % nm, 'def %s_d(a=1):' % nm, '    return a', '']
        elif k == 'cls':
            lines += ['class %s:' % nm, '    def inner(self, y=1):', '        return y', 'keep.append((None, %s.inner))' % nm, 'keep.append((None, %s().inner))' % nm, '']
        elif k == 'lam':
            lines += ['%s = lambda y=1: y' % nm, 'keep.append((%r, %s))' % (nm, nm), '']
        elif k == 'pair':
            lines += ['%s, %s_b = (lambda: 1), (lambda: 1)' % (nm, nm), 'keep.append((%r, %s))' % (nm, nm), 'keep.append((%r, %s_b))' % (nm + '_b', nm), '']
        elif k == 'clsin':
            lines += ['def %s(a=1):' % nm, '    class L:', '        def inner(self, y=1):', '            return y', '    keep.append((%r, L.inner))' % nm, '    keep.append((%r, L().inner))' % nm, '    return L', '']
        if k in ('async', 'clsin'):
            extras.append((k, nm))
    r.shuffle(tops)
    lines += ['alias = top0', '%s_x = top1' % name]
    src = '\n'.join(lines) + '\n'
    p = os.path.join(ctx.scratch, name + '.py')
    with open(p, 'w') as f:
        f.write(src)
    import importlib
    importlib.invalidate_caches()
    m = importlib.import_module(name)
    for t in tops:
        getattr(m, t)()
    for k, t in extras:
        x = getattr(m, t)()
        if k == 'async':
            try:
                x.send(None)
            except StopIteration:
                pass
    try:
        for t in tops:
            f = getattr(m, t)
            if detect.outermost(f) is not f:
                ctx.violation('outermost|top', 'outermost(%s) is %r\n%s' % (t, detect.outermost(f), src))
            if detect.getmodule(f) is not m:
                ctx.violation('getmodule', '%r' % detect.getmodule(f))
        for t, k in m.keep:
            o = detect.outermost(k)
            ctx.count('outermost')
            if t is None:
                if o is not None and not any(detect.code(k) is x for x in [detect.code(o)] + codes(detect.code(o) or (lambda: 0).__code__)):
                    ctx.violation('outermost|method', '%r: %r\n%s' % (k, o, src))
                continue
            if o is not getattr(m, t):
                if o is None and k.__name__ == '<lambda>':
                    ctx.count('outermost_lambda_none')
                    continue
                ctx.violation('outermost|%s' % ('none' if o is None else 'other'), 'outermost(%s in %s, line %d) is %r\n%s' % (k.__qualname__, t, k.__code__.co_firstlineno, o, src))
            if detect.getmodule(k) is not m:
                ctx.violation('getmodule', '%r' % detect.getmodule(k))
    finally:
        sys.modules.pop(name, None)
        linecache.clearcache()
        os.unlink(p)
    for b in ('len', 'print', 'sum'):
        if detect.getmodule(__builtins__[b] if isinstance(__builtins__, dict) else getattr(__builtins__, b), force=True).__name__ != 'builtins':
            ctx.violation('getmodule|builtin', b)
    ctx.nontrivial(src)


# -- what fails to pickle ---------------------------------------------------------------------------------

class Part:
    """attributes of all sorts"""


class Slotted:
    __slots__ = ('a', 'b', 'unset')

    def __init__(self, a, b):
        self.a, self.b = a, b


class Raising:
    def __init__(self, a):
        self.a = a

    @property
    def bad(self):
        raise ValueError('no')

    @property
    def gen(self):
        return (x for x in ())


class Same:
    """equal to everything, does not pickle"""
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return True
    __hash__ = None

    def __reduce_ex__(self, p):
        raise TypeError('Same %s' % self.n)


class Odd:
    """comes back as something else"""
    def __reduce__(self):
        return list, ()

    def __eq__(self, o):
        return o is self
    __hash__ = object.__hash__


class Err:
    def __init__(self, e):
        self.e = e

    def __reduce__(self):
        raise self.e


class NewEq:
    """never equal to its copy"""
    def __init__(self, v=1):
        self.v = v

    def __eq__(self, o):
        return self is o
    __hash__ = object.__hash__


def arrays():
    import numpy
    return [numpy.arange(3), numpy.array([]), numpy.array([[1, 2], [3, 4]])]


def piece(r):
    return r.choice([
        lambda: 1, lambda: 'abc', lambda: [1, 2], lambda: {'a': 1}, lambda: None, lambda: (lambda: 1), lambda: Part, lambda: len, lambda: 2.5, lambda: {1, 2}, lambda: NewEq(3), lambda: r.choice(arrays()),
        lambda: (x for x in ()), lambda: sys._getframe(), lambda: Same(r.randrange(9)), lambda: Odd(), lambda: Err(TypeError('t')), lambda: memoryview(b'a'), lambda: [(x for x in ())], lambda: {'k': sys._getframe()},
        lambda: iter([1, 2]), lambda: float('nan')])()


def truth(x, exact=False):
    """(does it come back?, exception or None), independently"""
    try:
        y = dill.loads(dill.dumps(x))
    except Exception as e:
        return False, e
    if exact:
        try:
            eq = bool(type(y) is type(x) and (y == x))
        except ValueError:
            import numpy
            eq = numpy.array_equal(y, x)
        if not eq:
            return False, None
    if type(y) is not type(x) and repr(type(y)) != repr(type(x)) and not (y == x):
        return False, None
    return True, None


def bad(ctx, c):
    r = ctx.rng('bad', c['i'])
    mode = r.choice(['list', 'list', 'tuple', 'dict', 'values', 'one', 'attrs', 'attrs', 'slots', 'raising'])
    parts = [piece(r) for i in range(r.choice([1, 2, 4, 7]))]
    safe = r.random() < .4
    if safe and r.random() < .6:
        parts.insert(r.randrange(len(parts) + 1), Err(r.choice([ValueError('v'), RuntimeError('r'), KeyError('k')])))
    ctx.nontrivial(mode, [type(p).__name__ for p in parts])
    desc = '%s of %s' % (mode, [type(p).__name__ for p in parts])
    if mode in ('list', 'tuple', 'dict', 'values'):
        o = parts if mode == 'list' else tuple(parts) if mode == 'tuple' else {i: p for i, p in enumerate(parts)}
        if mode == 'values':
            o = types.MappingProxyType(o)
        if r.random() < .3 and parts:
            parts.append(parts[0])
            o = parts if mode == 'list' else tuple(parts) if mode == 'tuple' else {i: p for i, p in enumerate(parts)}
        want = []
        for p in parts:
            ok = truth(p)[0]
            ctx.count('good_parts' if ok else 'bad_parts')
            if not ok and not any(p is w for w in want):
                want.append(p)
        try:
            got = detect.baditems(o, safe=True) if safe else detect.baditems(o)
        except Exception as e:
            ctx.violation('baditems|raised', '%s: %r' % (desc, e))
            return
        seen = []
        for x in got:
            if not any(x is y for y in seen):
                seen.append(x)
        if sorted(map(id, seen)) != sorted(map(id, want)):
            ctx.violation('baditems', '%s: reported %s, fail %s' % (desc, [type(x).__name__ for x in got], [type(x).__name__ for x in want]))
        return
    if mode == 'one':
        for p in parts:
            ok, e = truth(p)
            ctx.count('good_parts' if ok else 'bad_parts')
            kw = {'safe': True} if safe else {}
            b, t, er = detect.badobjects(p, **kw), detect.badtypes(p, **kw), detect.errors(p, **kw)
            if ok and (b is not None or t is not None):
                ctx.violation('badobjects|good', '%r' % type(p))
            if not ok and p is not None and (b is not p or t is not type(p)):
                ctx.violation('badobjects|missed', '%r: %r %r' % (type(p), b, t))
            ctx.count('errors_checked')
            if e is not None and (type(er) is not type(e) or str(er)[:20] != str(e)[:20]):
                ctx.violation('errors|other', '%r: %r, not %r' % (type(p), er, e))
            if e is None and ok and er is not None:
                ctx.violation('errors|good', '%r: %r' % (type(p), er))
            if e is None and not ok and not isinstance(er, AssertionError):
                ctx.violation('errors|unreported', '%r comes back as another type: %r' % (type(p), er))
            if not hasattr(p, '__iter__'):
                bi = detect.baditems(p, **kw)
                if (ok and bi) or (not ok and not (len(bi) == 1 and bi[0] is p)):
                    ctx.violation('baditems|one', '%r: %r' % (type(p), bi))
            ok, e = truth(p, True)
            er = detect.errors(p, exact=True)
            if (er is None) != ok and not isinstance(p, float):
                ctx.violation('errors|exact', '%r: %r, expected %s' % (type(p), er, 'none' if ok else 'one'))
            if (detect.badobjects(p, exact=True, safe=True) is None) != ok and not isinstance(p, float):
                if type(p).__name__ == 'ndarray' and not p.size:
                    continue
                ctx.violation('badobjects|exact', '%r %r' % (type(p), ok))
        return
    if mode == 'attrs':
        o = Part()
        for i, p in enumerate(parts):
            setattr(o, 'p%d' % i, p)
    elif mode == 'slots':
        o = Slotted(parts[0], parts[-1])
    else:
        o = Raising(parts[0])
    depth = r.choice([1, 1, 1, 2])
    want, raising = {}, set()
    for a in dir(o):
        try:
            v = getattr(o, a)
        except Exception:
            raising.add(a)
            continue
        ok, e = truth(v)
        ctx.count('good_parts' if ok else 'bad_parts')
        if not ok:
            want[a] = (v, e)
    for fn in ('badobjects', 'badtypes', 'errors'):
        try:
            got = getattr(detect, fn)(o, depth, safe=True)
        except Exception as e:
            ctx.violation(fn + '|raised', '%s depth %d: %r' % (desc, depth, e))
            continue
        keys = set(got) - raising
        if keys != set(want):
            ctx.violation(fn + '|parts', '%s depth %d: reported %s, fail %s' % (desc, depth, sorted(keys), sorted(want)))
            continue
        if fn == 'errors' and not raising <= set(got):
            ctx.violation('errors|unreadable', '%s: %s' % (desc, raising))
        for a in keys:
            v, e = want[a]
            x = got[a]
            if depth == 1:
                if fn == 'badobjects' and a in (vars(o) if hasattr(o, '__dict__') else 'ab') and x is not v:
                    ctx.violation('badobjects|other', '%s.%s' % (desc, a))
                if fn == 'badtypes' and x is not type(v):
                    ctx.violation('badtypes|other', '%s.%s: %r' % (desc, a, x))
                if fn == 'errors':
                    ctx.count('errors_checked')
                    if e is not None and type(x) is not type(e):
                        ctx.violation('errors|other', '%s.%s: %r, not %r' % (desc, a, x, e))
                    if not isinstance(x, Exception):
                        ctx.violation('errors|none', '%s.%s: %r' % (desc, a, x))
            elif not isinstance(x, dict):
                ctx.violation(fn + '|depth', '%s.%s at depth 2: %r' % (desc, a, type(x)))
