"""C05: user-defined classes stored by value work like the originals."""
import dataclasses, os, sysconfig, types, warnings
import dill
from .. import fn_engine, fx, gen_cls, iso, ns

LEVEL = 'exploration'
SPEC = {'quick': {'shards': 8, 'timeout': 500}, 'thorough': {'shards': 8, 'timeout': 3000}}
RULE = ('seeded class programs: 1-5 classes per program, each composed of up to 6 of 50 feature snippets over 18 kinds of '
        'base (or one of 24 special shapes: dataclass, ABC, generic, metaclass, slots, closure class, diamond, ...), '
        'executed in 6 kinds of namespace, copied alone and together, compared structurally and by probes with a '
        'pristine second instance; and the classes and functions of 150 standard library modules, made again in a module that cannot be imported; non-trivial = (namespace kind, feature set, settings, outcomes)')
ASSUMPTIONS = ['Enum subclasses and methods of NamedTuple classes that cannot be imported are known findings, driven by '
               'dedicated cases only', 'method globals follow the rule of C03']
FLOORS = {'copies': 400, 'probes': 3000, 'seen_type': 400, 'lib_copies': 700}
KINDS = ['main', 'local-main', 'nowhere', 'local-module', 'runtime', 'noname']
NS = dict(gen_cls.EXTRA_NS, dataclasses_fields=dataclasses.fields, dataclasses_asdict=dataclasses.asdict,
          dataclasses_replace=dataclasses.replace)


def cases(ctx):
    n = 8000 if ctx.quick else 80000
    for i in ctx.mine(n):
        yield {'i': i}
    for m in ctx.share(LIBS):
        for recurse in (False, True):
            yield {'i': -1, 'lib': m, 'recurse': recurse}
    if ctx.shard == 0:
        for k in sorted(DEDICATED):
            yield {'i': -1, 'dedicated': k}


def run_case(ctx, case):
    if 'dedicated' in case:
        return DEDICATED[case['dedicated']](ctx, case)
    if 'lib' in case:
        return lib_case(ctx, case)
    r = ctx.rng('case', case['i'])
    kind = KINDS[case['i'] // 8 % len(KINDS)]
    g = gen_cls.Gen(r, noname=kind == 'noname')
    if case['i'] % 40 == 39 and kind != 'main':
        g.special('s_cycle')
    src = g.program(0 if g.units else r.choice([1, 2, 3, 5]))
    kw = r.choice([{}, {}, {'recurse': True}])
    if kind.startswith('local'):
        # names of the sibling classes are closure variables there
        ctx.count('local_programs')
    fn_engine.run(ctx, case, kind, None, kw, r.choice(['each', 'all', 'pairs']), r.choice([None, 0, 1, 2, 3, 4, 5]),
                  src_units=(src, g.units), extra_ns=NS, may_refuse=may_refuse,
                  iso_kw={'aliasok': [fx.SINGLETON]}, name=ns.ODD[case['i'] // 3 % len(ns.ODD)] if kind == 'nowhere' and case['i'] % 3 == 0 and 'byref' not in kw else None)
    for k in g.kinds:
        ctx.count('feature_' + k)
    if case['i'] < 3:
        ctx.sample({'kind': kind, 'settings': kw, 'program': src[:900]})


def may_refuse(e, units, proto):
    kinds = '+'.join(u[2] for u in units)
    if isinstance(e, dill.PicklingError) and 's_cycle' in kinds:
        return True     # a class whose own attributes lead back to it is refused, with a warning that says so
    if isinstance(e, TypeError) and 'defines __slots__' in str(e) and proto in (0, 1):
        return True     # instances with slots (dataclasses.Field too) need protocol 2
    return False


LIBS = '''_collections_abc _compression _markupbase _osx_support _py_abc _pydatetime _pyio _strptime _threading_local _weakrefset aifc argparse ast asynchat base64
 bdb bisect bz2 calendar cgi chunk cmd code codecs codeop collections.abc colorsys compileall configparser contextlib copy copyreg csv dataclasses datetime decimal
 difflib dis doctest email._header_value_parser email.charset email.contentmanager email.errors email.feedparser email.generator email.header email.headerregistry
 email.message email.parser email.policy fileinput fnmatch fractions ftplib functools genericpath getopt gettext glob graphlib gzip heapq hmac html.parser http.client
 http.cookiejar http.cookies http.server imaplib importlib.abc inspect io ipaddress json.decoder json.encoder keyword linecache logging.config logging.handlers lzma
 mailbox mimetypes modulefinder netrc nntplib numbers opcode operator optparse os pathlib pdb pickle pickletools pkgutil platform plistlib poplib pprint profile pstats
 pyclbr queue quopri random reprlib sched selectors shelve shlex shutil smtplib socket socketserver sre_parse statistics string subprocess symtable tabnanny tarfile
 tempfile textwrap threading timeit token tokenize trace traceback types unittest.case unittest.loader unittest.mock unittest.result unittest.runner unittest.suite
 urllib.error urllib.parse urllib.request urllib.response urllib.robotparser uuid warnings wave weakref xml.etree.ElementPath xml.etree.ElementTree zipapp zipfile
 asyncio.base_events asyncio.futures asyncio.locks asyncio.queues asyncio.streams asyncio.tasks asyncio.transports concurrent.futures._base concurrent.futures.thread'''.split()


def lib_case(ctx, case):
    """the classes and functions of the standard library, made again in a module that cannot be imported"""
    name = case['lib']
    fn = os.path.join(sysconfig.get_paths()['stdlib'], name.replace('.', '/') + '.py')
    if not os.path.exists(fn):
        return
    r = ctx.rng('lib', name, case['recurse'])
    m = types.ModuleType('vflib_' + name.replace('.', '_'))
    m.__package__ = name.rpartition('.')[0]
    state = list(warnings.filters)
    try:
        with open(fn, encoding='utf-8') as f:
            exec(compile(f.read(), fn, 'exec'), m.__dict__)
    except Exception:
        ctx.count('lib_not_run')
        return
    finally:
        warnings.filters[:] = state
        warnings._filters_mutated()
    objs = [(k, v) for k, v in vars(m).items() if isinstance(v, (type, types.FunctionType)) and v.__module__ == m.__name__]
    for k, v in r.sample(objs, min(len(objs), 12 if ctx.quick else 200)):
        p = r.choice([0, 1, 2, 3, 4, 5])
        what = '%s.%s made again, protocol %s, recurse %s' % (name, k, p, case['recurse'])
        try:
            s = dill.dumps(v, p, recurse=case['recurse'])
        except Exception:
            ctx.count('lib_refused')    # its globals hold what cannot be pickled
            continue
        try:
            c = dill.loads(s)
        except Exception as e:
            ctx.violation('lib-unloadable', '%s: %r' % (what, e))
            continue
        ctx.count('lib_copies')
        d = iso.compare(v, c, checkglobals=False)
        bad = [x for x in d.diffs if 'one frozenset became' not in x]
        if bad:
            ctx.violation('lib-not-isomorphic', '%s\n%s' % (what, '\n'.join(bad[:6])))
        ctx.count('lib_nodes', d.nodes)
        ctx.nontrivial('lib', name, k, p, case['recurse'])


def enum_case(ctx, case):
    sp = ns.Space('nowhere', ctx.scratch)
    d = sp.run('import enum\nclass E(enum.Enum):\n    A = 1\n    B = "b"\n    def hi(self): return self.name\nclass F(enum.IntFlag):\n    X = 1\n    Y = 2\n')
    for n in 'EF':
        E = d[n]
        ctx.count('dedicated_enum')
        try:
            C = dill.loads(dill.dumps(E))
            ok = C is not E and [m.name for m in C] == [m.name for m in E] and [m.value for m in C] == [m.value for m in E]
            m = list(E)[1]
            c, k = dill.loads(dill.dumps([E, m]))
            ok = ok and k is c[m.name]
        except Exception as e:
            ctx.violation('enum-by-value', 'an Enum class that cannot be imported: %r' % e)
            continue
        if not ok:
            ctx.violation('enum-by-value', 'an Enum class that cannot be imported became %r' % C)


def namedtuple_case(ctx, case):
    sp = ns.Space('nowhere', ctx.scratch)
    d = sp.run('import typing\nclass P(typing.NamedTuple):\n    x: int\n    y: int = 2\n    def norm(self): return self.x + self.y\n')
    C = dill.loads(dill.dumps(d['P']))
    ctx.count('dedicated_namedtuple')
    if C._fields != ('x', 'y') or C(1) != (1, 2):
        ctx.violation('namedtuple-fields', 'NamedTuple class became %r' % C)
    if not hasattr(C, 'norm'):
        ctx.violation('namedtuple-methods', 'a NamedTuple class that cannot be imported loses its methods')


def pep695_case(ctx, case):
    sp = ns.Space('nowhere', ctx.scratch)
    d = sp.run('class P[T]:\n    def one(self, x: T) -> T: return x\ndef f[U](a: U) -> U: return a\n')
    for n in 'Pf':
        ctx.count('dedicated_pep695')
        try:
            C = dill.loads(dill.dumps(d[n]))
            got = [t.__name__ for t in C.__type_params__]
        except Exception as e:
            ctx.violation('pep695', 'a class or function with type parameters: %r' % e)
            continue
        if got != [t.__name__ for t in d[n].__type_params__]:
            ctx.violation('pep695', 'type parameters of %s became %r' % (n, got))


def late_cell_case(ctx, case):
    """a hook that runs while its class is being loaded and goes through a closure (as decorated functions do)"""
    sp = ns.Space('nowhere', ctx.scratch)
    d = sp.run('def deco(f):\n    def w(*a): return f(*a)\n    return w\nclass M(type):\n    @deco\n    def __init__(cls, *a): cls.n = len(a)\nclass K(metaclass=M): pass\n')
    ctx.count('dedicated_late_cell')
    try:
        ok = dill.loads(dill.dumps(d['K'])).n == 3
    except TypeError as e:
        ctx.violation('late-cell', 'a hook that runs while its class is loaded and reads a closure variable: %r' % e)
        return
    if not ok:
        ctx.violation('late-cell-value', 'a metaclass hook did not run')


DEDICATED = {'late-cell': late_cell_case, 'enum': enum_case, 'namedtuple': namedtuple_case, 'pep695': pep695_case}
