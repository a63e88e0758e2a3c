"""C07: importable things are stored by reference and never resolve to something else."""
import importlib, importlib.util, os, pkgutil, sys, types, warnings
import dill
from .. import fx, iso, ns

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 500}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('every module, class, function, builtin, method and descriptor found in the importable standard library (and numpy) copied '
        'under several protocols and settings; and generated modules whose names were shadowed, renamed, deleted, decorated, moved, '
        'or unloaded before copying. Non-trivial = distinct (object, state of its name)')
ASSUMPTIONS = ['modules that are not builtin or installed are stored with their state by design; their identity is still required']
FLOORS = {'by_reference': 8000, 'perturbed': 1000, 'by_value': 300, 'refused': 20, 'modules_named': 200, 'modules_unnamed': 400}
LIST = '''abc aifc argparse array ast asyncio atexit base64 bdb binascii bisect builtins bz2 calendar cmath cmd code codecs codeop collections
 collections.abc colorsys compileall concurrent.futures configparser contextlib contextvars copy copyreg csv ctypes ctypes.util dataclasses datetime
 decimal difflib dis doctest email email.message email.mime.text enum errno faulthandler fcntl filecmp fileinput fnmatch fractions ftplib functools gc
 genericpath getopt gettext glob graphlib grp gzip hashlib heapq hmac html html.parser http http.client http.cookies http.server imaplib importlib
 importlib.abc importlib.machinery importlib.util inspect io ipaddress itertools json json.decoder keyword linecache locale logging
 logging.handlers lzma mailbox marshal math mimetypes mmap modulefinder multiprocessing multiprocessing.pool netrc numbers opcode operator optparse os os.path
 pathlib pdb pickle pickletools pkgutil platform plistlib poplib posix posixpath pprint profile pstats pty pwd py_compile pyclbr queue quopri random re reprlib
 resource rlcompleter runpy sched secrets select selectors shelve shlex shutil signal smtplib socket socketserver sqlite3 ssl stat
 statistics string stringprep struct subprocess symtable sys sysconfig syslog tabnanny tarfile tempfile termios textwrap threading time timeit
 token tokenize trace traceback tracemalloc types typing unicodedata unittest unittest.mock unittest.main unittest.result unittest.loader sympy.core.add sympy.core.expr numpy.ma.core attr.validators urllib.error urllib.parse urllib.request uuid warnings wave
 weakref webbrowser wsgiref xml.dom xml.dom.minidom xml.etree.ElementTree xml.sax xmlrpc.client zipapp zipfile zipimport zlib zoneinfo
 _thread _io _collections _functools _operator _struct _pickle numpy numpy.linalg numpy.random numpy.ma attr sympy.core.symbol dill dill._dill dill.detect vf.fx'''.split()
DESC = (types.WrapperDescriptorType, types.MethodDescriptorType, types.GetSetDescriptorType, types.MemberDescriptorType, types.ClassMethodDescriptorType)


def cases(ctx):
    for m in ctx.share(LIST):
        yield {'t': 'lib', 'm': m}
    for i in ctx.mine(4800 if ctx.quick else 40000):
        yield {'t': 'pert', 'i': i}
    for i in ctx.mine(1600 if ctx.quick else 16000):
        yield {'t': 'mod', 'i': i}


def setup(ctx):
    warnings.simplefilter('ignore')


def run_case(ctx, case):
    if case['t'] == 'lib':
        lib(ctx, case)
    elif case['t'] == 'mod':
        module(ctx, case, ctx.rng('mod', case['i']))
    else:
        pert(ctx, case, ctx.rng('p', case['i']))


def kwds(r):
    return r.choice([{}, {}, {'recurse': True}, {'byref': True}])


def lib(ctx, case):
    try:
        m = importlib.import_module(case['m'])
    except Exception:
        ctx.count('module_missing')
        return
    r = ctx.rng('lib', case['m'])
    todo = [('module', m)]
    seen = set()
    for n, v in list(vars(m).items()):
        if isinstance(v, types.ModuleType) and dill._dill is not v and getattr(v, '__spec__', None) is not None:
            todo.append((n, v))
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType, type)):
            todo.append((n, v))
            if isinstance(v, type) and iso.importable(v):
                for k, w in list(vars(v).items()):
                    if isinstance(w, (types.FunctionType, type) + DESC):
                        todo.append((n + '.' + k, w))
                    elif isinstance(w, (classmethod, staticmethod)) and isinstance(getattr(w, '__func__', None), types.FunctionType):
                        todo.append((n + '.' + k + '.__func__', w.__func__))
    for n, v in todo:
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, types.ModuleType):
            must = sys.modules.get(v.__name__) is v
        elif isinstance(v, DESC):
            must = iso.importable(v.__objclass__)
            if must and v.__objclass__.__dict__.get(v.__name__) is not v:
                must = False
        elif isinstance(v, types.BuiltinFunctionType):
            must = iso.importable(v) and (v.__self__ is None or isinstance(v.__self__, (types.ModuleType, type)))
        else:
            must = iso.importable(v)
        if must and not isinstance(v, types.ModuleType) and not agree(v.__objclass__ if isinstance(v, DESC) else v):
            ctx.count('masked')
        if not must:
            # stored by value or refused; whatever loads must not be some other existing object
            if isinstance(v, (types.FunctionType, type)) and r.random() < .15:
                try:
                    c = dill.copy(v)
                except Exception:
                    ctx.count('lib_refused')
                    continue
                ctx.count('lib_by_value')
                if c is not v and iso.importable(c) and type(c) is not types.BuiltinFunctionType and not iso.importable(v):
                    ctx.violation('became-another', '%s.%s: %r became the importable %r' % (case['m'], n, v, c))
            continue
        p = r.choice([0, 1, 2, 3, 4, 5])
        kw = kwds(r)
        if isinstance(v, types.ModuleType) and not stored_by_name(v):
            continue
        ctx.count('by_reference')
        try:
            s = dill.dumps(v, p, **kw)
            c = dill.loads(s)
        except Exception as e:
            ctx.violation('refused', '%s.%s: %r protocol %d %s: %r' % (case['m'], n, v, p, kw, e))
            continue
        if c is not v:
            ctx.violation('not-identical', '%s.%s: %r became %r, protocol %d %s' % (case['m'], n, v, c, p, kw))
        if len(s) > 600:
            ctx.violation('by-value', '%s.%s: %r takes %d bytes, protocol %d %s' % (case['m'], n, v, len(s), p, kw))
        ctx.nontrivial(case['m'], n)


def agree(o):
    """do sys.modules and the attributes of the packages lead to the same module?"""
    m = getattr(o, '__module__', None)
    if not isinstance(m, str) or '.' not in m:
        return True
    mod = sys.modules.get(m.partition('.')[0])
    for part in m.split('.')[1:]:
        mod = getattr(mod, part, None)
    return mod is sys.modules.get(m)


def stored_by_name(m):
    f = getattr(m, '__file__', None)
    return f is None or f.startswith((sys.prefix, sys.base_prefix)) or 'site-packages' in f


SRC = '''
import functools
LOG = []
def f(a, b=1):
    """doc f"""
    return ('f', a, b)
def g(a):
    return ('g', a)
def deco(h):
    @functools.wraps(h)
    def wrapper(*x):
        return ('deco', h(*x))
    return wrapper
class A:
    x = 1
    def m(self): return ('A.m', self.x)
    @classmethod
    def c(cls): return cls.__name__
    @staticmethod
    def s(v): return ('A.s', v)
    class In:
        y = 2
        def m(self): return 'In.m'
        class Deep:
            z = 3
class B(A):
    x = 5
    def m(self): return ('B.m', super().m())
class Meta(type):
    pass
class WM(metaclass=Meta):
    def m(self): return 'WM.m'
class MetaU(type):
    def __eq__(cls, other): return cls is other
    __hash__ = None
class WU(metaclass=MetaU):
    def m(self): return 'WU.m'
class MetaE(type):
    like = int
    def __eq__(cls, other): return True
    def __hash__(cls): return hash(cls.like)
class WE(metaclass=MetaE):
    def m(self): return 'WE.m'
class WL(WE):
    like = list
    def m(self): return 'WL.m'
lam = lambda v: ('lam', v)
def make():
    def inner(v): return ('inner', v)
    class Loc:
        def m(self): return 'Loc'
    return inner, Loc
inner, Loc = make()
inst = A()
def gen(n):
    yield from range(n)
'''
OBJS = ['f', 'g', 'A', 'B', 'A.m', 'A.In', 'A.In.Deep', 'A.In.m', 'lam', 'inner', 'Loc', 'Meta', 'WM', 'WM.m', 'deco', 'gen', 'make', 'B.m', 'A.s', 'WU', 'WE', 'WL', 'MetaE']
PERT = ['none', 'shadow', 'shadow-int', 'delete', 'rename', 'name', 'qualname', 'module-none', 'module-missing', 'module-other', 'module-lies',
        'module-int', 'decorate', 'reload', 'unload', 'replace-module', 'shadow-twin', 'shadow-parent', 'delete-parent', 'qual-other', 'builtin-name',
        'module-main', 'parent-attr', 'shadow-eq', 'lies-stdlib', 'proxy-module', 'alias-deleted']


class Eq:
    def __eq__(self, o):
        return True
    __hash__ = None


def get(d, q):
    o = d[q.split('.')[0]]
    for p in q.split('.')[1:]:
        o = getattr(o, p)
    return o


def pert(ctx, case, r):
    kind = r.choice(['main', 'module', 'module', 'sub', 'sub'])
    sp = ns.Space(kind, ctx.scratch, 'p%d_' % ctx.shard)
    added = []
    saved = dict(sys.modules)
    try:
        d = sp.run(SRC)
        d.pop('vf', None)
        q = r.choice(OBJS)
        x = get(d, q)
        k = r.choice(PERT)
        case.update(q=q, pert=k, kind=kind)
        top, _, rest = q.rpartition('.')
        holder = get(d, top) if top else None

        def put(v):
            if holder is None:
                d[rest] = v
            else:
                setattr(holder, rest, v)

        def rm():
            if holder is None:
                del d[rest]
            else:
                delattr(holder, rest)
        other = get(d, r.choice(['g', 'lam', 'WM', 'gen']))
        if k == 'shadow': put(other if other is not x else d['gen'])
        elif k == 'shadow-int': put(5)
        elif k == 'shadow-eq': put(Eq())
        elif k == 'delete': rm()
        elif k == 'rename':
            rm()
            d['other_name'] = x
        elif k == 'alias-deleted':
            d['alias'] = x
            rm()
        elif k == 'name': x.__name__ = r.choice(['zzz', 'f', 'g', 'A', 'len'])
        elif k == 'qualname': x.__qualname__ = r.choice(['zzz', 'g', 'A.m', 'A.In', 'f.<locals>.g', 'A.zz', 'B', 'lam'])
        elif k == 'qual-other': x.__qualname__ = 'gen'; x.__name__ = 'gen'
        elif k == 'module-none': x.__module__ = None
        elif k == 'module-missing': x.__module__ = 'no_such_module_vf'
        elif k == 'module-other': x.__module__ = 'vf.fx'
        elif k == 'module-lies':
            x.__module__, x.__qualname__, x.__name__ = 'vf.fx', 'Plain', 'Plain'
        elif k == 'lies-stdlib':
            x.__module__, x.__qualname__, x.__name__ = r.choice([('os.path', 'join', 'join'), ('collections', 'OrderedDict', 'OrderedDict'),
                                                                 ('builtins', 'len', 'len'), ('builtins', 'int', 'int'), ('os', 'path', 'path')])
        elif k == 'module-int' and not isinstance(x, type): x.__module__ = 'vf'
        elif k == 'module-main': x.__module__ = '__main__'
        elif k == 'builtin-name': x.__qualname__ = x.__name__ = 'len'; d['len'] = len
        elif k == 'decorate' and isinstance(x, types.FunctionType) and holder is None: put(d['deco'](x))
        elif k == 'reload' and kind != 'main': importlib.reload(sp.mod)
        elif k == 'unload' and kind != 'main': del sys.modules[sp.name]
        elif k == 'replace-module' and kind != 'main':
            m = types.ModuleType(sp.name)
            m.__dict__.update({n: v for n, v in d.items() if n[:2] != '__'})
            m.__dict__['f'] = fx.topfunc
            sys.modules[sp.name] = m
            if kind == 'sub':
                setattr(sys.modules[sp.pkg], 'sub', m)
        elif k == 'proxy-module' and kind != 'main':
            sys.modules[sp.name] = fx.Plain(**{n: v for n, v in d.items() if n[:2] != '__'})
        elif k == 'shadow-twin':
            # a different object with the same name, qualified name and look
            t = {'__name__': d.get('__name__')}
            exec(SRC, t)
            put(get(t, q))
        elif k == 'shadow-parent' and top: d[top.split('.')[0]] = fx.Plain
        elif k == 'delete-parent' and top: del d[top.split('.')[0]]
        elif k == 'parent-attr' and kind == 'sub':
            setattr(sys.modules[sp.pkg], 'sub', r.choice([5, fx, fx.Plain]))
        ctx.count('perturbed')
        p = r.choice([None, 0, 1, 2, 3, 4, 5])
        kw = kwds(r)
        byref = 'byref' in kw and isinstance(x, type)
        must = iso.importable(x, byref) and (getattr(x, '__module__', None) != '__main__' or byref)
        if must and not agree(x):
            ctx.count('masked')      # the package has something else with the name of the module
        # (an unloaded module is imported afresh by the dump itself, so names change meaning half-way)
        steady = agree(x) and k != 'unload'
        what = '%s in %s, %s, protocol %s %s' % (q, kind, k, p, kw)
        wrap = r.random() < .3
        try:
            s = dill.dumps([x, x] if wrap else x, p, **kw)
        except dill.PicklingError as e:
            ctx.count('refused')
            if must:
                ctx.violation('refused', '%s: %r' % (what, e))
            elif 'byref' not in kw and steady and not (isinstance(x, type) and any(iso.importable(v) for v in vars(x).values())):
                # (a class whose methods are found by import leads back to itself and may be refused)
                ctx.violation('refused', '%s: a thing that is not importable is stored by value: %r' % (what, e))
            return
        except Exception as e:
            ctx.violation('refused:%s' % type(e).__name__, '%s: %r' % (what, e))
            return
        try:
            # an instance of a class of main would be re-bound to the live class
            c = dill.loads(s, ignore=True)
        except Exception as e:
            ctx.violation('unloadable:%s' % type(e).__name__, '%s: %r' % (what, e))
            return
        if wrap:
            if c[0] is not c[1]:
                ctx.violation('sharing', what)
            c = c[0]
        ctx.nontrivial(q, k, kind, p, sorted(kw))
        if must:
            ctx.count('by_reference')
            if c is not x:
                ctx.violation('not-identical', '%s: became %r' % (what, c))
        elif must is False:
            ctx.count('by_value')
            if c is x:
                # a class whose methods are importable is reached through them: still the right object
                ctx.count('same_object_though_unnamed')
                return
            if iso.importable(c, True) and not (isinstance(c, type) and c.__bases__ == (tuple,)):
                ctx.violation('became-another', '%s: became the object found under the name, %r' % (what, c))
                return
            dd = iso.compare(x, c, byref='byref' in kw, recurse='recurse' in kw, checkglobals=False)
            if dd.diffs:
                ctx.violation('not-isomorphic', '%s\n%s' % (what, '\n'.join(dd.diffs[:6])))
            ctx.count('nodes', dd.nodes)
        ctx.sample({'case': what, 'result': 'same object' if c is x else 'copy'})
    finally:
        for n in list(sys.modules):
            if n not in saved:
                del sys.modules[n]
        sys.modules.update(saved)
        sp.close()
        if kind != 'main':
            sys.modules.pop(sp.name, None)


# ---- modules whose name leads back to them, to nothing, or to another module

NAMES = ['json', 'math', 'colorsys', 'xml.dom', 'vf.fx', 'vfq_none', 'vfq_user', 'vfq_pkg.sub', 'dill', 'dill._dill', 'builtins', 'numpy', 'sys']


def module(ctx, case, r):
    import json, math, colorsys, xml.dom, numpy
    base = os.path.join(ctx.scratch, 'mod07')
    saved, path = dict(sys.modules), list(sys.path)
    name = r.choice(NAMES)
    how = r.choice(['made', 'made', 'spec', 'exec', 'import'])
    where = r.choice([None, 'absent', 'user', 'installed', 'none'])
    stored = r.choice(['out', 'out', 'in', 'alias'])
    case.update(name=name, how=how, where=where, stored=stored)
    try:
        os.makedirs(os.path.join(base, 'vfq_pkg'), exist_ok=True)
        for n in ('vfq_user.py', 'vfq_pkg/__init__.py', 'vfq_pkg/sub.py'):
            with open(os.path.join(base, n), 'w') as f:
                f.write('value = ["imported"]\ndef fun(): return value\n')
        sys.path.insert(0, base)
        importlib.invalidate_caches()
        for n in ('vfq_user', 'vfq_pkg.sub'):
            importlib.import_module(n)
        if how == 'import':
            if name == 'vfq_none':
                return
            m = importlib.import_module(name)
            stored = 'in'
        elif how == 'made':
            m = types.ModuleType(name)
        else:
            f = os.path.join(base, 'loose_file.py')
            with open(f, 'w') as g:
                g.write('value = ["loose"]\ndef fun(): return value\n')
            sp = importlib.util.spec_from_file_location(name, f)
            m = importlib.util.module_from_spec(sp)
            if how == 'exec':
                sp.loader.exec_module(m)
        if how != 'import':
            m.mark = ['mark']
            if how == 'made' and where is not None and where != 'absent':
                m.__file__ = {'user': os.path.join(base, 'x.py'), 'installed': os.path.join(os.path.dirname(numpy.__file__), 'x.py'), 'none': None}[where]
            if stored == 'in' and name not in ('dill', 'dill._dill', 'builtins', 'sys', 'numpy'):
                sys.modules[name] = m
                if '.' in name:
                    setattr(sys.modules[name.rpartition('.')[0]], name.rpartition('.')[2], m)
            elif stored == 'alias':
                sys.modules['vfq_alias'] = m
        parent, _, last = name.rpartition('.')
        masked = parent and parent != 'dill' and r.random() < .4
        if masked:
            setattr(sys.modules[parent], last, r.choice([type(last, (), {}), (lambda: 0), 5, None, json, types.ModuleType(name)]))
            case['masked'] = repr(getattr(sys.modules[parent], last))
        mine = sys.modules.get(name) is m
        ctx.count('modules')
        what = 'module %s, %s, file %s, %s sys.modules%s' % (name, how, where, stored, ', masked by ' + case['masked'] if masked else '')
        shape = r.choice([lambda: m, lambda: [m, m], lambda: {'m': m}])()
        p, kw = r.choice([None, 0, 1, 2, 3, 4, 5]), kwds(r)
        spaces = {n: (x, dict(vars(x))) for n, x in sys.modules.items() if isinstance(x, types.ModuleType)}
        got = err = None
        try:
            got = dill.loads(dill.dumps(shape, p, **kw))
        except Exception as e:
            err = e
        c = got[0] if isinstance(got, list) else got['m'] if isinstance(got, dict) else got
        ctx.nontrivial(name, how, where, stored, p, sorted(kw), type(shape).__name__)
        if mine:
            if err is not None and not (how != 'import' or name in ('dill', 'dill._dill')):
                ctx.violation('refused', '%s: %r' % (what, err))
            elif err is None and c is not m:
                ctx.violation('not-identical', '%s: became %r' % (what, c))
            ctx.count('modules_named')
            ctx.count('masked_modules', bool(masked))
        else:
            ctx.count('modules_unnamed')
            if err is None and c is not m and isinstance(c, types.ModuleType) and c in sys.modules.values():
                ctx.violation('became-another', '%s: became %r' % (what, c))
        for n, (x, d) in spaces.items():
            if x is not m and n != '__main__' and any(vars(x).get(k, x) is not v for k, v in d.items() if k != '__warningregistry__'):
                ctx.violation('overwritten', '%s: loading changed %s of %s' % (what, [k for k, v in d.items() if vars(x).get(k, x) is not v][:5], n))
                vars(x).clear()
                vars(x).update(d)
    finally:
        for n in list(sys.modules):
            if n not in saved:
                del sys.modules[n]
        sys.modules.update(saved)
        sys.path[:] = path
        if 'xml' in sys.modules:
            sys.modules['xml'].dom = saved.get('xml.dom', xml.dom)
        import vf
        vf.fx = fx
