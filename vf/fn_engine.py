"""Run a generated program twice: once for reference outcomes, once to copy its
functions with dill and observe the copies."""
import io, sys
import dill
from . import gen_fn, iso, ns, probe


def evaluate(units, look, extra=None):
    """outcome strings of every probe, in order"""
    out = []
    for name, probes, kind in units:
        env = dict(probe.NS)
        if extra:
            env.update(extra)
        env[name] = look(name)
        for p in probes:
            out.append((name, kind, p, iso.outcome(eval, p, env)))
    return out


def run(ctx, case, kind, gen_kw, dump_kw, together, proto, only=None, nfun=5, key='', iso_kw=None, via=None,
        extra_check=None, src_units=None, extra_ns=None, may_refuse=None, name=None):
    """returns number of copies examined"""
    r = ctx.rng('prog', case['i'])
    if src_units:
        src, units = src_units
    else:
        g = gen_fn.Gen(r, **gen_kw)
        src = g.program(nfun, only)
        units = g.units
    sp = ns.Space(kind, ctx.scratch, 's%d_' % ctx.shard)
    if name is not None:
        sp.name = name
    case['src'] = src if len(src) < 4000 else src[:4000]
    recurse = bool(dump_kw.get('recurse'))
    try:
        try:
            A = sp.run(src)
        except Exception as e:
            if src_units is None:
                raise
            ctx.count('program_does_not_run')
            return 0
        want = evaluate(units, lambda n: A[n], extra_ns)
        ctx.count('probes_reference', len(want))
        B = sp.run(src)
        if via is None:
            def via(o):
                return dill.loads(dill.dumps(o, proto, **dump_kw))
        names = [u[0] for u in units]
        copies = {}
        groups = {'each': [[n] for n in names], 'all': [names], 'pairs': [names[i:i + 2] for i in range(0, len(names), 2)]}[together]
        for grp in groups:
            o = {n: B[n] for n in grp}
            try:
                c = via(o if len(grp) > 1 else [o[grp[0]]])
            except RecursionError as e:
                ctx.violation('cannot-copy:RecursionError%s' % key, 'kind=%s dump_kw=%s units=%s: %r' % (
                    kind, dump_kw, [u[2] for u in units if u[0] in grp], e))
                continue
            except Exception as e:
                if may_refuse and may_refuse(e, [u for u in units if u[0] in grp], proto):
                    ctx.count('refused')
                    continue
                ctx.violation('cannot-copy:%s%s' % (type(e).__name__, key), 'kind=%s dump_kw=%s units=%s: %r' % (
                    kind, dump_kw, [u[2] for u in units if u[0] in grp], e))
                continue
            if len(grp) > 1:
                if type(c) is not dict or list(c) != list(o):
                    ctx.violation('not-isomorphic' + key, 'copied dict %r' % (c,))
                    continue
                d = iso.compare(o, c, recurse=recurse, **(iso_kw or {}))
                copies.update(c)
            else:
                if type(c) is not list or len(c) != 1:
                    ctx.violation('not-isomorphic' + key, 'copied list %r' % (c,))
                    continue
                d = iso.compare([o[grp[0]]], c, recurse=recurse, **(iso_kw or {}))
                copies[grp[0]] = c[0]
            ctx.count('copies', len(grp))
            ctx.count('nodes', d.nodes)
            for k, v in d.bytype.items():
                if k in ('function', 'cell', 'code', 'type', 'method', 'partial', 'property'):
                    ctx.count('seen_' + k, v)
            if d.diffs:
                ctx.violation('not-isomorphic' + key, 'kind=%s dump_kw=%s units=%s\n%s' % (
                    kind, dump_kw, [u[2] for u in units if u[0] in grp], '\n'.join(d.diffs)))
            if extra_check:
                extra_check(o, c, grp, sp)
        have = [u for u in units if u[0] in copies]
        got = evaluate(have, lambda n: copies[n], extra_ns)
        ctx.count('probes', len(got))
        wantd = [w for w in want if w[0] in copies]
        for w, h in zip(wantd, got):
            if w != h:
                ctx.violation('behaves-differently' + key, 'kind=%s dump_kw=%s template=%s probe=%s\n original: %s\n copy:     %s' % (
                    kind, dump_kw, w[1], w[2], w[3][:700], h[3][:700]))
        for u in have:
            ctx.nontrivial(kind, u[2], sorted(dump_kw.items()), together, proto, [g[3] for g in got if g[0] == u[0]])
        return len(copies)
    finally:
        sp.close()
