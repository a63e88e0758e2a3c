#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place to edit)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

D, S, DET, SRC, SHIM = 'dill/_dill.py', 'dill/session.py', 'dill/detect.py', 'dill/source.py', 'dill/_shims.py'
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism], 'observe_at': observe},
                  technique=technique, note=note))


p('C01', 'Plain object graphs survive a dump and load as an isomorphic copy',
  'For every object graph that the standard pickle can round-trip, dumping with dill under any protocol and settings and loading the '
  'result yields a graph isomorphic to the original: same types, values, order, sharing and cycles, sharing no mutable object with the original. '
  'This holds through dumps/loads, dump/load on memory and real files, and Pickler/Unpickler alike.',
  ['inputs', 'configurations'], 'all finite object graphs over builtin and importable types, protocols 0-5, settings',
  'tests round-trip a few dozen literal objects and compare by ==; sharing, cycles, memo and batch limits are unbounded',
  [D], [('save_module_dict', D), ('Pickler.save', D), ('save_type', D), ('dump/dumps/load/loads', D)],
  ['dill.dumps/loads', 'dill.dump/load', 'dill.Pickler/Unpickler'],
  'lockstep isomorphism monitor over seeded random object graphs, stdlib pickle as reference',
  'seeded sampling of graphs up to a few hundred nodes; the monitor compares every node reached')

p('C02', 'dill is a drop-in extension of the standard pickle machinery',
  'Anything pickle honours dill honours with the same observable result: reduce/getstate/setstate/getnewargs hooks, copyreg and dispatch tables, '
  'reducer_override, persistent ids, out-of-band buffers, protocol selection, several dumps through one Pickler. '
  'Pickles of plain importable data written by either library load in the other to equal objects, and no opcode newer than the requested protocol is emitted.',
  ['inputs', 'configurations', 'histories'], 'all objects using pickle hooks, all protocols, all pickler configurations and reuse histories',
  'the tests use the hooks in one or two places each and never mix the two libraries',
  [D], [('class Pickler', D), ('Pickler.save', D), ('class Unpickler', D), ('load', D)],
  ['dill.Pickler', 'dill.Unpickler', 'pickletools.genops over the output'],
  'differential monitor against stdlib pickle: call logs of hooks, results, and an opcode-level protocol checker',
  'seeded sampling; the reference is the pure-python pickle of the same interpreter')

p('C03', 'Functions stored by value behave like the originals and keep their metadata',
  'A function that cannot be imported (lambda, nested, defined in __main__ or in a namespace without a module) comes back as a function that gives the same '
  'result, exception and side effect on every call, with the same signature, defaults, keyword defaults, annotations, attributes, doc, name, qualified name and module. '
  'Generators, coroutines, decorators, partials, methods, recursion and mutual reference keep working, and functions copied together keep their shared defaults and globals.',
  ['programs', 'inputs', 'configurations'], 'all functions a program can define, all calls, all settings',
  'tests call a handful of functions once; the space of code shapes, closures and metadata is unbounded',
  [D], [('save_function', D), ('_create_function', D), ('save_code', D), ('_save_with_postproc', D)],
  ['dill.dumps/loads', 'calls of the copy'],
  'behavioural monitor: every copy is probed against a pristine twin, plus a structural comparator',
  'seeded program generation over 44 templates and 8 namespaces')

p('C04', 'Closures keep their topology: shared, empty, cyclic and recursive cells',
  'After a copy, two closures share a cell exactly if the originals did, empty cells are empty, and cycles among functions, cells, containers and instances are rebuilt, '
  'whatever part of the graph is dumped and in whatever order it is met. '
  'Writing a variable through one copied closure is seen by all its sharers and by no original.',
  ['programs', 'histories', 'configurations'], 'all reference graphs among functions, cells, containers, instances and classes; all dump roots and orders',
  'tests cover some fixed shapes from bug reports; ordering of post-processing makes others break',
  [D, SHIM], [('save_cell', D), ('_save_with_postproc', D), ('save_function', D), ('_create_cell', D)],
  ['dill.dumps/loads', '__closure__ of the copies'],
  'graph-isomorphism monitor over random closure graphs, with write-through probes on every cell',
  'seeded sampling of graphs with up to 7 functions and 5 variables')

p('C05', 'User-defined classes stored by value work like the originals',
  'A class that cannot be imported, and instances of it, come back with the same name, bases, mro, metaclass, attributes, methods, properties, descriptors, slots, '
  'abstractness, annotations and attribute order, and behave the same under construction, attribute access, operators, super() and subclass checks. '
  'Copied classes keep their identity relations: instances belong to the copied class, and nothing of the original class is shared or changed.',
  ['programs', 'configurations'], 'all class definitions built from combinations of language features; all settings',
  'tests define a fixed list of classes; feature combinations are unbounded',
  [D], [('save_type', D), ('_create_type', D), ('_get_typedict_type', D), ('_get_typedict_abc', D), ('_create_namedtuple', D)],
  ['dill.dumps/loads', 'the copied class'],
  'structural and behavioural monitor over random class programs composed of feature snippets',
  'seeded sampling over 50 snippets, 18 bases and 24 special shapes; self-containing classes may be refused')

p('C06', 'Code objects are copied exactly',
  'A copied code object compares equal to the original and agrees with it in every attribute, recursively through its constants, including line, column and exception tables, flags and names. '
  'This holds for every code object of any program, and argument tuples written for older interpreters still build working code where documented.',
  ['programs', 'inputs'], 'all code objects (standard library corpus, generated programs, mutated code objects)',
  'tests copy a few functions and never look at the tables',
  [D], [('save_code', D), ('_create_code', D)], ['dill.copy of code objects'],
  'attribute-exact comparator over the code objects of the standard library and of generated and mutated code',
  'corpus plus seeded sampling; legacy tuples are built from the current interpreter\'s own code')

p('C07', 'Importable things are stored by reference and never resolve to something else',
  'Modules, classes, functions, builtins, methods and type objects that import back to themselves are copied to the very same object, and with byref also classes of __main__. '
  'Anything whose name no longer leads back to it (shadowed, renamed, deleted, decorated, monkey-patched) is stored by value or refused, and never silently becomes a different object.',
  ['programs', 'configurations', 'histories'], 'all name/namespace states relating an object to what its name resolves to',
  'tests check a few builtins; the relation between an object and its names has many states',
  [D], [('_locate_function', D), ('_import_module', D), ('save_function', D), ('save_type', D), ('save_module', D)],
  ['dill.copy', 'opcodes of the pickle'],
  'identity monitor over standard-library members and over randomly perturbed namespaces',
  'corpus plus seeded sampling')

p('C08', 'recurse stores exactly the globals a function can reach',
  'With recurse, a function copied into an empty namespace still behaves like the original, because every global it reads, directly or through nested code, classes, defaults and other functions, comes along. '
  'Globals that no reachable code names are not stored, so an unpicklable or unloadable one does no harm.',
  ['programs', 'configurations'], 'all functions and the global namespaces around them',
  'tests use a few recursive functions; name resolution spans nested code, comprehensions, class bodies and mutual recursion',
  [D, DET], [('save_function', D), ('globalvars', DET), ('nestedglobals', DET), ('freevars', DET)],
  ['dill.dumps(recurse=True)', '__globals__ of the copy'],
  'monitor of the globals that executing the original really reads, against the globals the copy received',
  'seeded program generation; poisoned globals detect over-capture')

p('C09', 'A pickle loads in a fresh interpreter that shares nothing but importable modules',
  'Bytes dumped in one process load in another process that never ran the defining program, and the loaded functions, classes and instances behave there as in the first. '
  'The loading process needs only the modules the pickled objects import by name, and loading does not depend on hash seeds, optimisation level or import order.',
  ['programs', 'configurations'], 'all programs, hash seeds, interpreter flags',
  'tests load in the process that dumped, where names still resolve by accident',
  [D], [('Unpickler.find_class', D), ('save_function', D), ('save_type', D)],
  ['stdout of a second interpreter'],
  'cross-process behavioural monitor: probe outcomes of dumping and loading interpreters are compared',
  'same machine and python version; different processes, hash seeds and -O levels')

p('C10', 'Builtin exotic types are restored with their state',
  'Method wrappers, bound and unbound builtins, slot and getset descriptors, dict views, mapping proxies, cells, ranges and slices, properties, classmethods, partials, attr/item/method getters, locks, '
  'StringIO, lru_caches, exceptions, numpy arrays and ufuncs, and the interpreter singletons come back as working equivalents in the state they were in. '
  'Where the kind cannot be restored dumping fails with an exception instead of producing something else.',
  ['inputs'], 'all values of the registered exotic types, alone and inside graphs',
  'tests build one value per type',
  [D], [('register handlers', D), ('_create_* constructors', D)], ['dill.copy', 'calls on the copies'],
  'typed state comparator over generated values of each exotic type', 'seeded sampling over the types the interpreter has here')

p('C11', 'Weak references point at the copied referent',
  'A weak reference or weak proxy dumped together with its referent comes back referring to the copy of that referent, a dead one comes back dead, and a callable proxy stays callable, whatever the referent looks like. '
  'Weak references do not keep the copy alive beyond the graph they were dumped with, and weak kinds that cannot be restored (WeakMethod, subclasses of ref) are refused.',
  ['inputs', 'histories'], 'all referents, all positions of reference and referent in a graph, live and dead',
  'tests copy five references whose referents are plain',
  [D], [('save_weakref', D), ('save_weakproxy', D), ('_proxy_helper', D), ('_locate_object', D), ('_create_weakref', D)],
  ['dill.copy', 'the referent through the copy'], 'identity and liveness monitor over generated weakref graphs', 'seeded sampling')

p('C12', 'File handles are restored as their mode and fmode say',
  'A dumped file handle that was opened by name comes back open or closed as it was, with the same name and mode, and with position and contents as documented for HANDLE_FMODE, CONTENTS_FMODE and FILE_FMODE, whether the file still is as it was, shrank, grew or is gone. '
  'Handles of the standard streams come back as those streams. strictio turns each documented unsafe restoration into an error, and no restoration damages a file beyond what its mode documents.',
  ['inputs', 'histories', 'configurations'], 'open modes x buffering x fmode x strictio x what happened to the file in between x contents',
  'tests cover text files with one content and the w/r/a modes',
  [D], [('_save_file', D), ('_create_filehandle', D)], ['the file system', 'the loaded handle'],
  'reference model of handle restoration checked against the real file system after every load', 'files live in a scratch directory; x mode is covered for CONTENTS_FMODE only')

p('C13', 'A saved session restores the module it was saved from',
  'dump_module followed by load_module restores every variable of a module (main, imported, or module-type) as an isomorphic copy with names bound as they were, in the same process and in a fresh one, with or without refimported and recurse. '
  'Functions of the restored session see the restored variables, and dumping leaves the module as it was.',
  ['programs', 'histories', 'configurations'], 'all module states, saving options, and processes loading them',
  'tests save two fixed modules',
  [S, D], [('dump_module', S), ('load_module', S), ('_stash_modules', S), ('_restore_modules', S)],
  ['module __dict__ before and after'], 'isomorphism monitor over generated module states, same-process and cross-process', 'seeded sampling; file and stream targets')

p('C14', 'Loading a session touches only its target',
  'load_module_asdict never changes the live module or sys.modules, load_module refuses a file that belongs to another module or kind of module before changing it, and a failed load leaves no stray entry in sys.modules. '
  'Sessions are loadable from any readable stream at any position.',
  ['histories', 'inputs', 'fault_sequences'], 'all pairs of saved module and load target, all stream kinds and positions, truncated files',
  'tests check a few mismatches with files positioned at zero',
  [S], [('load_module', S), ('load_module_asdict', S), ('_identify_module', S), ('_make_peekable', S)],
  ['sys.modules', 'module dicts', 'exceptions'], 'state-snapshot monitor around every load, with expected verdicts from a small model', 'seeded sampling')

p('C15', 'Session files are written and read safely',
  'dump_module to a path never writes through a symbolic link and creates files private to the user whatever the umask, and reading refuses symbolic links as well. '
  'No other file is created, followed or truncated, using the shared default path warns, and streams given by the caller are left open and positioned after the session.',
  ['inputs', 'configurations', 'fault_sequences'], 'all file system states at the target path (missing, file, link, dangling link, directory, link swapped in), umasks',
  'tests check one symlink',
  [S], [('_safe_open_for_writing', S), ('_safe_open_for_reading', S)], ['the file system through lstat'],
  'file-system monitor: inode, mode, link and content snapshots of a scratch tree around every call', 'only default-path and explicit-path code; races are simulated by audit-hook injection')

p('C16', 'Dumping and loading have no side effects',
  'Dumping never changes the object graph, the interpreter state (modules, warning filters, standard streams, recursion limit, working directory, settings, registries) or any namespace, whether it succeeds or fails. '
  'Dumping the same state twice gives the same bytes, and loading changes nothing but what loading the named modules does.',
  ['inputs', 'configurations', 'histories'], 'all objects and settings, successful and failing dumps',
  'tests never look at the state around a call',
  [D, DET], [('dump', D), ('Pickler.dump', D), ('save_code', D), ('nestedglobals', DET)], ['snapshots of interpreter state'],
  'state-snapshot monitor around every dump and load of a diverse corpus', 'the snapshot covers the named state')

p('C17', 'Failures are contained',
  'When dumping fails, at any write, in any user hook, or on an object that cannot be pickled, the caller gets an exception, the objects and the interpreter are unchanged, and the next dump works. '
  'A pickle that was written completely is never reported as failed, and one that was not is never reported as written.',
  ['fault_sequences', 'inputs'], 'a fault at every write call, every hook call and every allocation-like step of a dump',
  'tests inject no faults',
  [D], [('dump', D), ('Pickler.dump', D), ('_save_with_postproc', D)], ['the stream', 'exceptions', 'state snapshots'],
  'fault-point enumeration: the n-th write or hook call fails, for every n, with a state monitor', 'faults are exceptions raised by streams and hooks')

p('C18', 'Damaged pickles do not load as something else',
  'A proper prefix of a pickle never loads successfully, and reading stops exactly after the pickle so that following data stays readable. '
  'Several pickles written to one stream load one by one in order, equal to loading each alone.',
  ['inputs', 'fault_sequences'], 'all cut points of all pickles, all sequences of pickles in one stream',
  'tests load whole, single pickles',
  [D], [('load', D), ('loads', D), ('Unpickler.load', D)], ['dill.loads of every prefix'],
  'exhaustive cut-point monitor over a pickle corpus, plus stream-position monitor', 'every prefix of the sampled pickles')

p('C19', 'Threads can dump and load at the same time',
  'Concurrent dumps and loads of unrelated objects in one process give each thread what it would get alone, under every interleaving. '
  'The interpreter state afterwards is what it was, and tracing, settings and registries are not corrupted.',
  ['schedules'], 'all interleavings of dill operations in several threads',
  'the tests are single-threaded',
  [D, 'dill/logger.py', DET], [('save_code', D), ('Pickler', D), ('Unpickler', D)], ['results per thread', 'interpreter state after'],
  'controlled line-level scheduler plus free-running stress, every thread result compared with the solo result', 'interleavings are sampled, counted by distinct switch sequences')

p('C20', 'Type registration is honoured and reversible',
  'A handler registered with dill.register or dill.pickle is used for exactly its type by every later dump, overrides a previous one, and does not leak into the standard pickle. '
  'extend(False) and extend(True) remove and restore dill\'s own types, copy-registered reducers keep working, and a Pickler subclass\'s own dispatch stays its own.',
  ['histories', 'configurations'], 'all sequences of register/pickle/extend/subclass operations',
  'tests register once',
  [D], [('register', D), ('pickle', D), ('_extend', D), ('_revert/use_diff', D)], ['dispatch results observed by dumping'],
  'model-based history monitor: a small model predicts which handler serves each dump', 'seeded histories')

p('C21', 'Settings and keyword arguments take effect exactly where they should',
  'Explicit keyword arguments win over dill.settings, settings win over defaults, and both affect only the call or pickler they are given to. '
  'ignore re-binds classes of __main__ to the live ones or keeps the stored ones as documented, and copy(x, **kw) equals loads(dumps(x, **kw)).',
  ['configurations', 'histories'], 'all combinations of settings, keyword arguments and entry points, over histories that change them',
  'tests use one setting at a time',
  [D, 'dill/settings.py'], [('dump', D), ('Pickler.__init__', D), ('Unpickler.load', D), ('copy', D), ('settings', 'dill/settings.py')],
  ['effects of each option on the result'], 'full-combination monitor with an effect-observing probe object per option', 'every combination of the listed options')

p('C22', 'Tracing reports and does not interfere',
  'With tracing on, every dump gives the same bytes or error as with tracing off, and the trace is well formed: each object\'s entry is closed by a matching exit at the same depth, with sizes that add up. '
  'Turning tracing off, or leaving the context manager in any way, restores silence.',
  ['inputs', 'histories'], 'all dumps, nested trace contexts, failures in the middle',
  'tests compare a few trace lines',
  ['dill/logger.py', D], [('TraceAdapter', 'dill/logger.py'), ('TraceFormatter', 'dill/logger.py'), ('trace', 'dill/logger.py')],
  ['log records'], 'trace-grammar monitor over the emitted log records, differential bytes with tracing off', 'seeded sampling')

p('C23', 'detect reports what a function really refers to',
  'globalvars, nestedglobals, freevars, referredglobals, nestedcode, outermost and varnames agree with what the code of the function really loads, for every function, without executing or changing it. '
  'badobjects, badtypes, errors and baditems name exactly the parts of an object that fail to pickle.',
  ['programs', 'inputs'], 'all functions and objects',
  'tests use a few functions',
  [DET], [('globalvars', DET), ('nestedglobals', DET), ('freevars', DET), ('outermost', DET), ('badobjects', DET), ('errors', DET)],
  ['return values'], 'reference computation from bytecode and from execution with a recording namespace', 'seeded program generation')

p('C24', 'Extracted source rebuilds the object',
  'getsource, importable and dumpsource of a function or class give text that compiles and, when executed, defines an object behaving like the original, and getimport/importable name a place from which the same object can be had. '
  'The text is found for the right object even when several on nearby or the same lines look alike, and failures raise instead of returning other code.',
  ['programs'], 'all function and class definitions in files and interactive history',
  'tests read their own file',
  [SRC], [('findsource', SRC), ('getblocks', SRC), ('getsource', SRC), ('importable', SRC), ('getimport', SRC)],
  ['the returned text, executed'], 'behavioural monitor: executed extracted text is probed against the original', 'seeded module generation')

p('C25', 'Temporary-file dumps hold what was put in',
  'temp.dump, dump_source and dumpIO_source store an object in a named file or buffer from which load, load_source and loadIO_source give an equivalent object. '
  'The file exists as long as its handle, and nothing else is left behind.',
  ['inputs', 'programs'], 'all picklable objects and source-recoverable functions',
  'tests store two objects',
  ['dill/temp.py'], [('dump', 'dill/temp.py'), ('dump_source', 'dill/temp.py'), ('loadIO', 'dill/temp.py')], ['the scratch directory', 'loaded objects'],
  'round-trip monitor plus directory snapshots', 'seeded sampling')

p('C26', 'Object pointers and parents are reported truthfully',
  'pointers.parents, children, parent and reference return only objects that really refer to or are referred to by the given object, up to the requested depth and type, and honour the ignore list. '
  'at() and reference() are inverse to id for live objects.',
  ['inputs'], 'all object graphs, depths and type filters',
  'tests look at one chain',
  ['dill/pointers.py', D], [('parent', 'dill/pointers.py'), ('parents', 'dill/pointers.py'), ('children', 'dill/pointers.py'), ('at', D), ('reference', D)],
  ['return values'], 'gc-based reference relation checked on every returned object', 'seeded sampling')

p('C27', 'Object differencing sees every change',
  'After memorise, whats_changed reports exactly the attributes and items of an object that were added, removed or replaced since, recursively, and has_changed is true exactly when there are any. '
  'Asking never changes the object, and release_gone forgets only what nobody else refers to.',
  ['histories'], 'all sequences of mutations between memorise and whats_changed',
  'tests do two mutations',
  ['dill/__diff.py'], [('memorise', 'dill/__diff.py'), ('whats_changed', 'dill/__diff.py'), ('has_changed', 'dill/__diff.py')],
  ['return values'], 'mutation-history monitor against a shadow model', 'seeded histories')

p('C28', 'Pickles written by the released format keep loading',
  'Every pickle stored by an earlier state of this library on this interpreter loads to an object that behaves as recorded, and the constructors that old pickles name stay available with their old calling conventions. '
  'Pickles written now can be read by name through the standard pickle module once dill is importable.',
  ['inputs'], 'all pickles of the stored corpus and all argument shapes of the constructors they name',
  'tests only load what they just dumped',
  [D, SHIM], [('_create_* constructors', D), ('_load_type', D), ('_import_module', D), ('_shims', SHIM)], ['loads of the stored corpus'],
  'golden-corpus monitor: stored pickles loaded and probed against recorded outcomes', 'corpus written at the pinned commit with python 3.12')

p('C29', 'The catalogue of types is consistent',
  'dill.objects registers only live instances of the types it names, load_types moves each of them between the picklable and unpicklable sets as asked, and every type filed as picklable really pickles. '
  'dill.types exposes the same types after any sequence of load_types calls.',
  ['histories'], 'all sequences of load_types calls, all catalogue entries',
  'tests load the catalogue once',
  ['dill/__init__.py', 'dill/_objects.py', 'dill/objtypes.py'], [('load_types', 'dill/__init__.py'), ('objects', 'dill/_objects.py')],
  ['dill.objects', 'dill.types'], 'history monitor over load_types in subprocesses, every entry pickled', 'the entries this platform has')

p('C30', 'pickles and check tell the truth',
  'pickles(x) is true exactly if x survives dumps and loads as the same kind of object, pickles(x, exact=True) exactly if the copy also equals x, never raising pickling errors, and never changing x or the interpreter. '
  'check(x) reports success exactly if a fresh interpreter can load x.',
  ['inputs', 'configurations'], 'all objects, comparisons with any __eq__, all settings',
  'tests ask about objects known to be fine',
  [D], [('pickles', D), ('check', D)], ['return values'], 'truth monitor: independent dumps/loads/compare decides each answer', 'seeded sampling')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for q in P:
            f.write(json.dumps({k: q[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    checks, na = [], []
    for q in P:
        if os.path.exists(os.path.join(ROOT, 'vf', 'props', q['id'].lower() + '.py')):
            checks.append({'property': q['id'], 'quick_cmd': 'python3 check.py ' + q['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + q['id'],
                           'evidence_file': 'evidence/%s.json' % q['id'],
                           'technique': q['technique'], 'level': 'exploration', 'level_note': q['note']})
        else:
            na.append({'property': q['id'], 'reason': NA.get(q['id'], 'its monitor is not built yet')})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
         'hooks': {'guard': 'none', 'enable': 'no instrumentation is added to /repo: monitors observe the public interface, sys.monitoring, '
                   'audit hooks and trace functions from outside', 'source_commits': []},
         'notes': 'fix: commits in /repo repair genuine defects; they are listed in known_findings.txt'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


NA = {}
main()
