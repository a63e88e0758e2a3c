"""Interpreter of C28: loads stored pickles and reports what they do.

argv: job file (a plain pickle of {'jobs': [...], 'how': 'dill' | 'pickle', 'calls': [...], 'place': dir}), result file.
With 'pickle', nothing but the standard pickle is imported when the pickles are loaded: each in a fork of its own.
"""
import json, os, pickle, sys

JOB, OUT = sys.argv[1:3]
with open(JOB, 'rb') as f:
    spec = pickle.load(f)
PLACE = spec['place']


def examine(j, o):
    """the outcomes of a loaded object"""
    import random, warnings
    warnings.simplefilter('ignore')
    from vf import fn_engine, gen_cls, gen_exotic, iso
    import dataclasses
    if j['type'] == 'units':
        ns = dict(gen_cls.EXTRA_NS, dataclasses_fields=dataclasses.fields, dataclasses_asdict=dataclasses.asdict, dataclasses_replace=dataclasses.replace)
        return [w[3] for w in fn_engine.evaluate(j['units'], lambda n: o[n], ns)]
    if j['type'] == 'exotic':
        root, probes = gen_exotic.B[j['family']](random.Random(j['seed']))
        if spec['how'] == 'twin':       # what the original does
            o = root
        return [gen_exotic.clean(iso.outcome(p, o)) for p in probes]
    return [iso.canon(o, 40)]


def answer(j, load):
    r = {'id': j['id']}
    try:
        r['out'] = examine(j, load(j['bytes']))
    except BaseException as e:
        import traceback
        r['error'] = '%s: %s\n%s' % (type(e).__name__, str(e)[:500], traceback.format_exc()[-1200:])
    return r


def by_pickle(jobs):
    res = []
    for k in range(0, len(jobs)):
        p = '%s.%d' % (OUT, k)
        pid = os.fork()
        if not pid:
            try:
                assert 'dill' not in sys.modules
                with open(p, 'w', encoding='utf-8', errors='surrogatepass') as f:
                    json.dump(answer(jobs[k], pickle.loads), f)
            except BaseException:
                import traceback
                traceback.print_exc()
                sys.stderr.flush()
            os._exit(0)
        st = os.waitpid(pid, 0)[1]
        try:
            with open(p, encoding='utf-8', errors='surrogatepass') as f:
                res.append(json.load(f))
            os.unlink(p)
        except Exception:
            res.append({'id': jobs[k]['id'], 'error': 'interpreter ended with %s' % st})
    return res


def main():
    if spec['how'] == 'twin':
        res = {'jobs': [answer(j, lambda b: None) for j in spec['jobs']]}
    elif spec['how'] == 'pickle':
        res = {'jobs': by_pickle(spec['jobs'])}
    else:
        import dill
        from vf import gen_cls, gen_exotic, iso, old_calls
        res = {'jobs': [answer(j, dill.loads) for j in spec['jobs']], 'calls': old_calls.run(spec['calls'], PLACE)}
    with open(OUT, 'w', encoding='utf-8', errors='surrogatepass') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
    sys.stdout.flush()
    os._exit(0)
