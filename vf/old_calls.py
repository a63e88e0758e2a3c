"""The constructors that stored pickles name, called the way pickles of all ages call them; and such pickles written by hand.

CALLS: id -> expression; `D` is dill._dill, `P` a place for files, `code(...)` the fields of a code object of this interpreter.
The outcomes at the pinned commit are recorded in the corpus.
"""
import types


def code(f, shape, lnotab=None, text=()):
    """code fields of f in the shape some version of the library stored them"""
    c = f.__code__
    d = {n: getattr(c, 'co_' + n) for n in ('argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable exceptiontable freevars cellvars').split()}
    d['lnotab'] = b''
    d['endlinetable'] = d['columntable'] = None
    for t in text:
        d[t] = d[t].decode('latin1')
    a = [d[n] for n in shape.split()]
    return a if lnotab is None else [lnotab] + a


S37 = 'argcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name firstlineno lnotab freevars cellvars'
S38 = 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name firstlineno lnotab freevars cellvars'
S310 = 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name firstlineno linetable freevars cellvars'
S311P = 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable freevars cellvars'
S311 = 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable exceptiontable freevars cellvars'
S311A = 'argcount posonlyargcount kwonlyargcount nlocals stacksize flags code consts names varnames filename name qualname firstlineno linetable endlinetable columntable exceptiontable freevars cellvars'


def plain(a, b=2, *c, k=3, **d):
    x = a + b
    return (x, c, k, sorted(d))


def nested(a):
    def inner(b):
        return [a, b, [i for i in (a, b)]]
    return inner(a + 1)


def posonly(a, b, /, c=3):
    return (a, b, c)


def guarded(a):
    try:
        return 1 / a
    except ZeroDivisionError:
        return 'zero'


def codeinfo(c):
    return [getattr(c, 'co_' + n) for n in 'argcount posonlyargcount kwonlyargcount nlocals flags names varnames name qualname firstlineno freevars cellvars'.split()]


def file(f):
    """what a handle is like"""
    out = [type(f).__name__, f.closed]
    if not f.closed:
        out += [f.mode, f.tell()]
        try:
            out.append(f.read())
        except Exception as e:
            out.append(type(e).__name__)
        f.close()
    return out


def put(p, text='0123456789'):
    with open(p, 'w') as f:
        f.write(text)
    return p


def get(p):
    with open(p) as f:
        return f.read()


def tell(f):
    if f.closed:
        return 'closed'
    p = f.tell()
    return (type(f).__name__, p, f.read(), f.getvalue())


class Holder:
    pass


class WithDict(Holder):
    attr = 5

    def meth(self):
        return 'meth'


HOLD = []


def hold(o):
    HOLD.append(o)
    return o


CALLS = {}


def add(**kw):
    for k, v in kw.items():
        assert k not in CALLS
        CALLS[k] = v


for sh in ('S37', 'S38', 'S310', 'S311P', 'S311', 'S311A'):
    for fn in ('plain', 'nested', 'posonly', 'guarded'):
        if fn == 'guarded' and sh in ('S37', 'S38', 'S310', 'S311P') or fn == 'posonly' and sh == 'S37':
            continue        # these shapes do not carry what the function needs
        args = {'plain': '(1, 5, 6, k=7, z=1)', 'nested': '(3)', 'posonly': '(1, 2)', 'guarded': '(0)'}[fn]
        tables = {'S37': ['lnotab'], 'S38': ['lnotab']}.get(sh, ['linetable'])
        for nm, lno, text in (('', 'None', ()), ('_lno', "b''", ()), ('_strlno', "''", ()), ('_text', 'None', ['code'] if fn != 'never' else [])):
            # text of a code field is decoded with utf-8, so only ascii code would survive: an empty table is text instead
            if text:
                CALLS['code_%s_%s_text' % (sh, fn)] = "codeinfo(D._create_code(*code(%s, %s, b'', %r)))" % (fn, sh, ['lnotab'] if sh in ('S37', 'S38') else ['exceptiontable'] if sh in ('S311', 'S311A') and fn != 'guarded' else [])
                continue
            CALLS['code_%s_%s%s' % (sh, fn, nm)] = '(lambda c: [codeinfo(c), D._create_function(c, {"__builtins__": __builtins__}, %r, (2,) if %r == "plain" else None, None, None, {"k": 3} if %r == "plain" else None)%s])(D._create_code(*code(%s, %s, %s)))' % (
                fn, fn, fn, args if fn != 'posonly' else '(1, 2, 3)', fn, sh, lno)
for bad in ('()', '(1,)', '(1, 2, 3)', "(b'', 1, 2)"):
    CALLS['code_bad_%s' % bad] = 'D._create_code(*%s)' % bad

add(function_1='D._create_function(plain.__code__, {})(1, 2, k=4)',
    function_2='D._create_function(plain.__code__, None)(1, 2, k=4)',
    function_3='(lambda f: (f.__name__, f.__defaults__, f(1, k=0)))(D._create_function(plain.__code__, {}, "nm", (7,)))',
    function_4='(lambda f: (f(), f.__closure__[0].cell_contents))(D._create_function((lambda x: lambda: x)(1).__code__, {}, "nm", None, (D._create_cell("in"),)))',
    function_5='(lambda f: (f.__dict__, f.__kwdefaults__))(D._create_function(plain.__code__, {}, "nm", None, None, {"a": 1}))',
    function_6='(lambda f: (f.__dict__, f.__kwdefaults__, f(1, 2)))(D._create_function(plain.__code__, {}, "nm", None, None, None, {"k": 9}))',
    function_7='(lambda f: (f.__name__, f(2)))(D._create_function(fcode=(lambda x: len([x])).__code__, fglobals={}, fname="q"))',
    function_globals='(lambda g: (D._create_function((lambda: name).__code__, g)(), g is D._create_function((lambda: name).__code__, g).__globals__, sorted(g)))({"name": "global"})',
    function_builtins='D._create_function((lambda: name).__code__, {"name": 5, "__builtins__": {"len": 1}}).__globals__["__builtins__"]',
    unmarshal='D._unmarshal(__import__("marshal").dumps([1, "a", (2.5, None)]))',
    unmarshal_code='eval(D._unmarshal(__import__("marshal").dumps(compile("3 + 4", "f", "eval"))))',
    type_1='D._create_type(type, "K", (), {"a": 1}).a',
    type_2='(lambda k: (k.__name__, k.__bases__, k().m()))(D._create_type(type, "K", (Holder,), {"m": lambda s: 3}))',
    type_3='D._create_type(int, "7")',
    type_4='D._create_type(object).__class__',
    ftype_1='D._create_ftype(__import__("functools").partial, int, ("12",), {"base": 5})()',
    ftype_2='D._create_ftype(__import__("functools").partial, int, None, None)("12")',
    ftype_3='D._create_ftype(__import__("operator").methodcaller, "count", ("a",), {})("banana")',
    typing_1='D._create_typing_tuple(())', typing_2='D._create_typing_tuple(((),))', typing_3='D._create_typing_tuple((int, str))',
    typing_4='D._create_typing_tuple((int, ...))', typing_5='D._create_typing_tuple((int,), "extra", 1)',
    lock_1='D._create_lock(True).locked()', lock_2='D._create_lock(False).locked()', lock_3='D._create_lock(True, "x", None).locked()',
    rlock_1='(lambda l: (l._is_owned(), l.acquire(False)))(D._create_rlock(0, 0))',
    rlock_2='(lambda l: (l._is_owned(), l._release_save()[0]))(D._create_rlock(2, __import__("threading").get_ident()))',
    rlock_3='D._create_rlock(1, 12345)', rlock_4='(lambda l: (l._is_owned(), l.acquire(False)))(D._create_rlock(0, 0, True))',
    cell_1='D._create_cell(5).cell_contents', cell_2='D._create_cell().cell_contents', cell_3='D._create_cell(None).cell_contents', cell_4='D._create_cell(D._CELL_EMPTY).cell_contents',
    cell_ref='D._CELL_REF', cell_empty='type(D._CELL_EMPTY).__name__',
    weakref_1='(lambda o: D._create_weakref(o)() is o)(hold(Holder()))', weakref_2='D._create_weakref(None)()',
    weakref_3='(lambda o: D._create_weakref(o, None)() is o)(hold(Holder()))', weakref_4='type(D._create_weakref(None, None)).__name__',
    weakproxy_1='(lambda o: D._create_weakproxy(o).attr)(hold(WithDict()))', weakproxy_2='(lambda o: type(D._create_weakproxy(o, True)).__name__)(hold(plain))',
    weakproxy_3='type(D._create_weakproxy(None)).__name__', weakproxy_4='type(D._create_weakproxy(None, True)).__name__', weakproxy_5='(lambda o: D._create_weakproxy(o, False, None).attr)(hold(WithDict()))',
    weakproxy_6='D._create_weakproxy(None, True).__name__',
    eval_repr='D._eval_repr("[1, (2, 3), None]")', eval_repr_2='D._eval_repr("slice(1, 2)")',
    array_1='(lambda a: (a.tolist(), a.dtype.str))(D._create_array(np.core.multiarray._reconstruct if False else _rec, (np.ndarray, (0,), b"b"), (1, (2, 2), np.dtype("int32"), False, bytes(range(16)))))',
    array_2='(lambda a: (a.tolist(), type(a).__name__, a.__dict__))(D._create_array(_rec, (Arr, (0,), b"b"), (1, (2,), np.dtype("int8"), False, b"\\x01\\x02"), {"tag": 5}))',
    array_3='(lambda a: a.tolist())(D._create_array(_rec, (np.ndarray, (0,), b"b"), (1, (2,), np.dtype("int8"), False, b"\\x01\\x02"), None))',
    dtypemeta_1='D._create_dtypemeta(None).__name__', dtypemeta_2='D._create_dtypemeta(np.float64) is type(np.dtype("f8"))', dtypemeta_3='D._create_dtypemeta(np.int32) is type(np.dtype("i4"))',
    namedtuple_1='(lambda t: (t.__name__, t._fields, t.__module__, t(1, 2)))(D._create_namedtuple("Nt", ["a", "b"], "no_such_module"))',
    namedtuple_2='(lambda t: (t._field_defaults, t(1)))(D._create_namedtuple("Nt", ("a", "b"), "no_such_module", (5,)))',
    namedtuple_3='D._create_namedtuple("Match", ("a", "b", "size"), "difflib") is __import__("difflib").Match._Match__x if False else D._create_namedtuple("DecimalTuple", ("sign", "digits", "exponent"), "decimal") is __import__("decimal").DecimalTuple',
    namedtuple_4='D._create_namedtuple("DecimalTuple", ("sign", "digits"), "decimal")._fields', namedtuple_5='D._create_namedtuple("Nt", "a b", "no_such_module", None)._fields',
    capsule='type(D._create_capsule(0, b"datetime.datetime_CAPI", None, None)).__name__',
    getattr_1='D._getattr(dict, "fromkeys", "<built-in method>")', getattr_2='D._getattr(str, "join", "<method \'join\' of \'str\' objects>")("-", "ab")',
    getattr_3='D._getattr(WithDict, "attr", "?")', getattr_4='type(D._getattr(Holder, "__dict__", "<attribute \'__dict__\' of \'Holder\' objects>")).__name__',
    getattr_5='D._getattr(list, "append", "<method \'append\' of \'list\' objects>").__objclass__', getattr_6='D._getattr(type, "__doc__", "x") is type.__dict__["__doc__"]',
    getattr_7='D._getattr(int, "real", "<attribute \'real\' of \'int\' objects>").__get__(5)', getattr_8='D._getattr(Holder, "missing", "?")',
    get_attr_1='D._get_attr(WithDict(), "attr")', get_attr_2='D._get_attr(WithDict(), "len")', get_attr_3='D._get_attr(WithDict(), "nothing_at_all")', get_attr_4='D._get_attr(__import__("math"), "pi")',
    import_1='D._import_module("os.path").__name__', import_2='D._import_module("json").__name__', import_3='D._import_module("no_such_module", True)', import_4='D._import_module("no_such_module")',
    import_5='D._import_module("collections.OrderedDict")', import_6='D._import_module("json.nothing", safe=True)', import_7='D._import_module("xml.dom.minidom").__name__', import_8='D._import_module("__runtime__.nothing", True)',
    import_9='D._import_module("dill._dill") is D',
    getattribute_1='D._getattribute(WithDict, "meth")[1] is WithDict', getattribute_2='D._getattribute(WithDict, "meth.__name__")[0]', getattribute_3='D._getattribute(WithDict, "<locals>.x")', getattribute_4='D._getattribute(WithDict, "zz")',
    setitems='(lambda d: (D._setitems(d, {"b": 2, 3: 4}), d))({"a": 1})',
    stringi_1='tell(D._create_stringi(b"hello", 2, False))', stringi_2='tell(D._create_stringi(b"hello", 2, True))', stringi_3='tell(D._create_stringi(b"", 0, False))',
    stringo_1='tell(D._create_stringo(b"hello", 2, False))', stringo_2='tell(D._create_stringo(b"hello", 2, True))', stringo_3='tell(D._create_stringo(b"h\xe9", 2, False))',
    module_main='D._import_module("__main__").__name__',
    shims="[getattr(D, n, 'missing') for n in ('_setattr', '_delattr')]",
    unicode='D.__dict__.get("unicode", None)', stored_names="[n for n in %r if not hasattr(D, n)]" % (
        '_create_array _create_capsule _create_cell _create_code _create_dtypemeta _create_filehandle _create_ftype _create_function _create_lock _create_namedtuple _create_rlock _create_stringi _create_stringo '
        '_create_type _create_typing_tuple _create_weakproxy _create_weakref _eval_repr _get_attr _getattr _getattribute _import_module _load_type _setitems _unmarshal _CELL_EMPTY _CELL_REF '
        '_dictproxy_helper _attrgetter_helper _itemgetter_helper _dictproxy_helper_instance').split(),
    reduce='D._shims.Reduce(len, ("abc",)).__reduce__()', objects='type(D.loads(D.dumps(len))).__name__')
TYPES = ('CodeType FunctionType MethodType ModuleType CellType BuiltinFunctionType GeneratorType TracebackType FrameType DictProxyType MappingProxyType LambdaType NoneType EllipsisType NotImplementedType '
         'GetSetDescriptorType MemberDescriptorType WrapperDescriptorType MethodDescriptorType MethodWrapperType ClassMethodDescriptorType SimpleNamespace '
         'PartialType LRUCacheType ItemGetterType AttrGetterType MethodCallerType BufferedRandomType BufferedReaderType BufferedWriterType FileType TextWrapperType PyBufferedRandomType '
         'PyTextWrapperType LockType RLockType SuperType XRangeType ExitType InputType OutputType ReferenceType ProxyType CallableProxyType SingleRefType DeadRefType '
         'object type int str bytes dict list tuple set frozenset float complex bool property classmethod staticmethod slice range super bytearray memoryview enumerate zip map filter reversed '
         'BaseException Exception ValueError KeyError OSError IOError Warning StopIteration EnvironmentError PyCapsuleType GenericAlias UnionType CoroutineType AsyncGeneratorType DynamicClassAttribute '
         'IPYTHON_SINGLETON unknown').split()
for t in TYPES:
    CALLS['load_type_' + t] = 'D._load_type(%r)' % t
n = 0
for mode in ('r', 'rb', 'r+', 'w', 'wb', 'a', 'w+', 'x'):
    for fmode in (0, 1, 2):
        for strict in (0, 1):
            for exists in (1, 0):
                for pos, closed in ((0, 0), (4, 0), (4, 1), (99, 0)):
                    if exists and mode == 'x' and fmode != 1 or pos == 99 and fmode == 0 and not strict:
                        continue
                    data = {2: repr('filedata'), }.get(fmode, "''")
                    if 'b' in mode:
                        data = 'b' + data if fmode == 2 else data
                    elif fmode == 2 and pos == 4:
                        data = 'b' + data
                    pre = 'put(P + "/f")' if exists else 'P + "/f"'
                    CALLS['file_%s_%d_%d_%d_%d_%d' % (mode, fmode, strict, exists, pos, closed)] = '(lambda p: (file(D._create_filehandle(p, %r, %d, %s, open, %s, %d, %s)), get(p) if os.path.exists(p) else None))(%s)' % (
                        mode, pos, bool(closed), bool(strict), fmode, data, pre)
for nm in ('<stdin>', '<stdout>', '<stderr>'):
    CALLS['file_' + nm] = '(lambda f: (f.name, f.closed))(D._create_filehandle(%r, "r", -1, False, open, False, 0, ""))' % nm
CALLS['file_fdopen'] = 'file(D._create_filehandle("<fdopen>", "w+b", 0, False, open, False, 0, ""))'

# pickles written by hand, the way python 2 and old versions wrote them
RAW = {
    'dill.dill': b'cdill.dill\n_load_type\n(S\'CodeType\'\ntR.',
    'dill.dill create_type': b'cdill.dill\n_create_type\n(cdill.dill\n_load_type\n(S\'TypeType\'\ntRS\'K\'\n(t(dtR.',
    'builtin None type': b'c__builtin__\nNoneType\n.',
    'builtin main': b'c__builtin__\n__main__\n.',
    'py2 names': b'c__builtin__\nxrange\n.',
    'py2 exceptions': b'cexceptions\nValueError\n(S\'a\'\ntR.',
    'py2 copy_reg': b'ccopy_reg\n_reconstructor\n(c__builtin__\nobject\nc__builtin__\nobject\nNtR.',
    'type NoneType': b'cdill._dill\n_load_type\n(VNoneType\ntR.',
    'cell by value': b'cdill._dill\n_create_cell\n(I5\ntR.',
    'cell filled later': b'cdill._dill\n_create_cell\n(NtR(N}S\'cell_contents\'\nI7\nstb.',
    'lambda type': b'cdill._dill\n_load_type\n(VLambdaType\ntR.',
    'eval repr': b'cdill._dill\n_eval_repr\n(Vxrange(3) if False else range(3)\ntR.',
    'lock': b'cdill._dill\n_create_lock\n(I01\ntR.',
    'lock old': b'cdill._dill\n_create_lock\n(I01\nI01\ntR.',
    'import': b'cdill._dill\n_import_module\n(Vos.path\ntR.',
    'get_attr': b'cdill._dill\n_get_attr\n(cdill._dill\n_import_module\n(Vmath\ntRVpi\ntR.',
    'setattr shim': b'c__builtin__\ngetattr\n(cdill\n_dill\nV_setattr\nc__builtin__\nsetattr\ntR.',
    'weakref dead': b'cdill._dill\n_create_weakref\n(NtR.',
    'stringi': b'\x80\x03cdill._dill\n_create_stringi\n(C\x05helloI2\nI00\ntR.',
    'stringo': b'\x80\x03cdill._dill\n_create_stringo\n(C\x05helloI2\nI00\ntR.',
    'settings': b'cdill\ndumps\n.', 'pickler': b'cdill\nPickler\n.', 'unpickler': b'cdill._dill\nUnpickler\n.', 'session': b'cdill.session\ndump_module\n.', 'old session': b'cdill._dill\ndump_session\n.',
}


def told(f, arg, place):
    """what a call answers; of an error only the kind counts"""
    from . import gen_exotic, iso
    try:
        r = f(arg)
    except Exception as e:
        return 'raises ' + type(e).__name__
    return gen_exotic.clean(iso.canon(r)).replace(place, 'P')


def run(which, place):
    """outcomes of the calls"""
    import os, sys, io
    import numpy as np, dill
    try:
        from numpy._core.multiarray import _reconstruct as rec
    except ImportError:
        from numpy.core.multiarray import _reconstruct as rec
    ns = dict(globals(), D=sys.modules['dill._dill'], os=os, sys=sys, np=np, P=place, _rec=rec, Arr=type('Arr', (np.ndarray,), {}))
    D = ns['D']
    if not hasattr(D, 'loads'):
        D.loads, D.dumps = dill.loads, dill.dumps
    out = {}
    for k in which:
        for f in os.listdir(place):
            os.unlink(os.path.join(place, f))
        if k in CALLS:
            out[k] = told(lambda e: eval(e, ns), CALLS[k], place)
        else:
            def go(b):
                o = dill.loads(b)
                if isinstance(o, (io.StringIO, io.BytesIO)):
                    return tell(o)
                if isinstance(o, types.CellType):
                    return ('cell', o.cell_contents)
                if o is sys.modules['__main__'].__dict__:
                    return '__main__'
                if type(o).__name__ == 'lock':
                    return o.locked()
                return o if not isinstance(o, (type, types.ModuleType, types.FunctionType)) else (type(o).__name__, o.__module__ if hasattr(o, '__module__') else '', o.__name__)
            out[k] = told(go, RAW[k], place)
    return out
