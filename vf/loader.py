"""Second interpreter of C09/C28: loads pickles written elsewhere and reports what they do.

argv: job file, result file.  The job file is a plain pickle of
{'first': [modules imported before dill], 'jobs': [{'id', 'bytes', 'units', 'how', 'names'}]}.
"""
import json, os, pickle, sys

JOB, OUT = sys.argv[1:3]
with open(JOB, 'rb') as f:
    spec = pickle.load(f)
for m in spec['first']:
    __import__(m)
if not spec.get('lazy'):
    import dill
from vf import gen_cls, fn_engine, iso, fx, probe      # (imports dill)
import dataclasses, typing, collections.abc, functools, itertools, contextlib, operator, math, warnings
warnings.simplefilter('ignore')

ATTEMPTS = []


class Watch:
    """notes every import that really has to look for a module"""
    def find_spec(self, name, path=None, target=None, sys=sys, ATTEMPTS=ATTEMPTS):
        f = sys._getframe(1)
        depth = 0
        while f is not None:
            if f.f_code.co_name == '_find_and_load_unlocked':
                depth += 1
            f = f.f_back
        if depth <= 1:
            ATTEMPTS.append(name)
        return None


sys.meta_path.insert(0, Watch())
NS = dict(gen_cls.EXTRA_NS, dataclasses_fields=dataclasses.fields, dataclasses_asdict=dataclasses.asdict,
          dataclasses_replace=dataclasses.replace)


def load(b, how):
    import dill, io
    if how == 'pickle':
        return pickle.loads(b)
    if how == 'file':
        p = JOB + '.pkl'
        with open(p, 'wb') as f:
            f.write(b)
        with open(p, 'rb') as f:
            return dill.load(f)
    if how == 'unpickler':
        return dill.Unpickler(io.BytesIO(b)).load()
    if how == 'ignore':
        return dill.loads(b, ignore=True)
    if how == 'thread':
        import threading
        box = []

        def go():
            try:
                box.append(dill.loads(b))
            except BaseException as e:
                box.append(e)
        t = threading.Thread(target=go)
        t.start()
        t.join()
        if isinstance(box[0], BaseException):
            raise box[0]
        return box[0]
    return dill.loads(b)


def session(j):
    """loads a saved session the way the job says, and reports on the module"""
    import dill, io, json, os, sys, types
    from vf import fn_engine, iso
    main = sys.modules['__main__']
    d = main.__dict__
    saved = dict(d)
    p, ns = saved['JOB'] + '.pkl', saved['NS']      # (the session may take the place of all globals here)
    r = {'id': j['id'], 'problems': []}
    try:
        if j['kind'] == 'main':
            for n in list(d):
                if n not in ('__name__', '__builtins__', '__loader__', '__spec__', '__doc__', '__package__', '__file__', '__cached__', '__annotations__'):
                    del d[n]
        with open(p, 'wb') as f:
            f.write(j['bytes'])
        if j['how'] == 'stream':
            src = io.BytesIO(j['bytes'])
        elif j['how'] == 'path':
            src = p
        elif j['how'] == 'raw':
            src = open(p, 'rb', buffering=0)
        else:
            src = open(p, 'rb')
        kw = {}
        if j['passmodule'] and j['kind'] in ('module', 'sub'):
            kw = {'module': j['name']}
        elif j['passmodule'] and j['kind'] == 'runtime':
            kw = {'module': types.ModuleType(j['name'])}
        before = set(sys.modules)
        got = dill.load_module(src, **kw)
        if hasattr(src, 'close'):
            if src.closed:
                r['problems'].append('the stream given by the caller was closed')
            src.close()
        mod = main if j['kind'] == 'main' else sys.modules.get(j['name']) if j['kind'] != 'runtime' else got or kw['module']
        if j['kind'] == 'runtime' and j['name'] in sys.modules:
            r['problems'].append('a module-type object is in sys.modules')
        if any(n.startswith('__runtime__') for n in sys.modules):
            r['problems'].append('sys.modules has a __runtime__ entry')
        if got is not (None if mod is main or kw.get('module') is mod else mod):
            r['problems'].append('load_module returned %r' % (got,))
        m = mod.__dict__
        r['names'] = list(m)
        r['canon'] = iso.canon([m[n] for n in j['vars']], 30)
        if 'me' in m and (m['me'] is not mod or m['space'] is not m):
            r['problems'].append('self references are not to the loaded module')
        if j['kind'] != 'runtime':
            for v in j['accessors']:
                if m['get_' + v]() is not m[v]:
                    r['problems'].append('a function does not read %s of the module' % v)
                old, m[v] = m[v], 5
                if m['get_' + v]() != 5:
                    r['problems'].append('a function does not see %s rebound' % v)
                m[v] = old
        r['out'] = [w[3] for w in fn_engine.evaluate(j['units'], m.__getitem__, ns)]
    except BaseException as e:
        import traceback
        r['error'] = '%s: %s\n%s' % (type(e).__name__, str(e)[:500], traceback.format_exc()[-1500:])
    d.clear()
    d.update(saved)
    return r


def main():
    res = []
    base = set(sys.modules['__main__'].__dict__)
    import dill
    for j in spec['jobs']:
        if 'session' in j:
            res.append(SESSION(j))
            continue
        r = {'id': j['id']}
        del ATTEMPTS[:]
        before = set(sys.modules)
        mainkeys = set(sys.modules['__main__'].__dict__)
        try:
            o = load(j['bytes'], j['how'])
        except BaseException as e:
            import traceback
            r['error'] = '%s: %s\n%s' % (type(e).__name__, str(e)[:500], traceback.format_exc()[-1200:])
            res.append(r)
            continue
        r['imports'] = list(ATTEMPTS)
        r['newmodules'] = sorted(set(sys.modules) - before)
        r['mainkeys'] = sorted(set(sys.modules['__main__'].__dict__) - mainkeys)
        if 'units' in j:
            r['out'] = [w[3] for w in fn_engine.evaluate(j['units'], lambda n: o[n], NS)]
        else:
            r['canon'] = iso.canon(o, 40)
        res.append(r)
    with open(OUT, 'w', encoding='utf-8', errors='surrogatepass') as f:
        json.dump(res, f)


SESSION = session
if __name__ == '__main__':
    main()
    sys.stdout.flush()
    os._exit(0)
