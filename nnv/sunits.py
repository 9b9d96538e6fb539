"""Units of the task submission layer (C12, C13)."""
from . import sver, sspec, sreplay, rlib, cxx, solve, dims
from .sver import *
from .sspec import SUBS
import re, os, time


def table(prop):
    if prop not in ('C12', 'C13'): return []
    out = [('submit ' + op, SubUnit(op)) for op in SUBS]
    if prop == 'C13': out.append(('reduction methods of a tensor', ReduxUnit()))
    return out


def report(r, key, name, failed, n):
    for v in failed[:3]:
        r.violations.append(dict(key='%s:%s' % (key, v.name[:60]), confirmed=False, message='obligation not discharged: %s, %s (line %d)' % (v.fn, v.name, v.line),
                                 data=dict(hyps=[str(h) for h in v.hyps][:60], goal=str(v.goal)[:4000], solver=str(v.why)[:2000], replays=n)))


class SubUnit(object):
    def __init__(self, op): self.op = op

    def __call__(self, r, prop, tier, seed):
        solve.CROSS = False
        starpu_codes()
        op = self.op
        qn = 'nntile::starpu::%s::submit' % op
        failed = []; und = []
        try:
            tu = cxx.TU(op_file(op))
            cl = run_init(tu, 'nntile::starpu::' + op)
        except (Undecided, TooBig, RecursionError) as x:
            und.append('init: %s' % x); cl = None
        subs = SUBS[op]
        for sub in (subs if cl is not None else ()):
            fs = find_submits(tu, sub)
            if not fs: und.append('no function with the parameters of %s' % sub.key)
            for f in fs:
                try: a, b = verify_submit(sub, tu, f, cl)
                except (Undecided, TooBig, RecursionError) as x:
                    und.append('%s: %s' % (f['name'], x)); continue
                for v in (a if prop == 'C12' else b):
                    ok = v.run()
                    r.obl.append((v.fn, v.name, v.kind, ok, v.by, v.t, str(v.why)[:200]))
                    if not ok: failed.append(v)
        if prop == 'C13' and cl is not None and op in REDUX_CODELETS:
            try: vs = codelet_modes(op, subs[0], tu, cl)
            except (Undecided, TooBig) as x: und.append('codelet modes: %s' % x); vs = []
            for v in vs:
                ok = v.run()
                r.obl.append((v.fn, v.name, v.kind, ok, v.by, v.t, str(v.why)[:200]))
                if not ok: failed.append(v)
        n = 0; viol = None
        if op not in sreplay.SKIP:
            deep = bool(failed or und)
            num_ = (600 if deep else 40) if tier == 'quick' else 2000
            for sub in subs:
                try: comp = sreplay.compile_sub(sub)
                except cxx.FrontEndError as x:
                    r.undecided.append((qn, 'replay harness: %s' % str(x)[:300])); continue
                if comp is None:
                    if rlib.LIB is not None and os.path.exists(rlib.LIB + '/failed'): r.undecided.append((qn, 'the library does not build on the stand-in runtime: ' + open(rlib.LIB + '/failed').read()[:300]))
                    continue
                k, viol, s = sreplay.replay(sub, comp, seed, num_, prop)
                n += k; r.samples += s
                if viol: break
            r.evaluations += n
        if viol:
            r.violations.append(dict(key='%s:%s' % (op, viol['message'][:40]), confirmed=True, message='%s: %s at %s' % (qn, viol['message'], viol['sc']), data=viol,
                                     obligations=[dict(name=v.name, line=v.line) for v in failed][:10] or und[:5]))
            return
        if und:
            r.undecided.append((qn, und[0]))
            r.bounded.append('%s: %s; bounded check: %d submissions on the stand-in runtime' % (qn, und[0][:200], n))
        report(r, op, qn, failed, n)


REDUX_CODELETS = {'accumulate', 'accumulate_hypot', 'accumulate_maxsumexp', 'clear'}


def codelet_modes(op, sub, tu, cl):
    """codelets that the runtime itself uses for reductions: declared buffers and modes"""
    out = []
    fs = find_submits(tu, sub)
    want = {'clear': [W_]}.get(op, [RW_, R_])
    for q, c in cl.items():
        fn_ = 'starpu::%s::init (%s)' % (op, q.split('::')[-1])
        nb = c['nbuffers']
        out.append(DVC2(fn_, 'the reduction codelet has %d buffers' % len(want), [], eq(asint(nb), num(len(want))) if isinstance(nb, T) else FALSE, 0, 'post'))
        for i, w in enumerate(want):
            m = c['modes'].get(i)
            good = isinstance(m, T) and isnum(m) and (int(m.args[0]) & ~COM) == w
            out.append(DVC2(fn_, 'declared access of buffer %d of the reduction codelet' % i, [], TRUE if good else FALSE, 0, 'post'))
        out.append(DVC2(fn_, 'the reduction codelet has a CPU worker', [], TRUE if 0 in c['cpu'] else FALSE, 0, 'post'))
    return out


class ReduxUnit(object):
    """Tensor::set_reduction_X binds, on every tile, the accumulation of that kind and the codelet that clears"""
    def __call__(self, r, prop, tier, seed):
        solve.CROSS = False
        tu = cxx.TU(cxx.HERE + '/inst/tensor.cc') if hasattr(cxx, 'HERE') else cxx.TU(os.path.dirname(os.path.abspath(__file__)) + '/inst/tensor.cc')
        failed = []; und = []
        for kind, cod in (('add', 'accumulate'), ('hypot', 'accumulate_hypot'), ('maxsumexp', 'accumulate_maxsumexp')):
            fs = tu.find('nntile::tensor::Tensor::set_reduction_' + kind)
            if not fs: und.append('set_reduction_%s not found' % kind)
            for f in fs:
                ta = [c.get('type', {}).get('qualType') for c in tu.parent[f['id']].get('inner', ()) if c.get('kind') == 'TemplateArgument']
                fn_ = 'tensor::Tensor<%s>::set_reduction_%s' % (','.join(map(str, ta)), kind)
                ex = RExec(tu)
                def init():
                    n = sym('ndim'); ex.st.pc.append((ge(n, Z), False))
                    ex.ten = ex.tensor('A', n)
                    ex.st.vars['this'] = ex.ten
                from .kver import run_function
                try: paths = run_function(ex, f, init)
                except (Undecided, TooBig, RecursionError) as x:
                    und.append('%s: %s' % (fn_, x)); continue
                vcs = []
                for kd, val, st, _ in paths:
                    hy = st.hyps()
                    if kd == 'throw': vcs.append(DVC2(fn_, 'does not fail', hy, FALSE, val, 'post')); continue
                    evs = [o for o in st.trace if isinstance(o.val, Traced) and o.val.name == 'reduction']
                    ok = len(evs) == 1 and len(evs[0].binders) == 1
                    ex.st = st
                    vcs.append(DVC2(fn_, 'reduction methods are set in one loop over the tiles', hy, TRUE if ok else FALSE, line(f), 'post'))
                    if not ok: continue
                    e = evs[0]; b, cnt = e.binders[0]
                    nt = ex.load(LField(ex.H(ex.ten)['grid'].oid, 'nelems'))
                    vcs.append(DVC2(fn_, 'every tile is visited', hy, And(eq(cnt, nt), e.guard), e.line, 'post'))
                    h, c1, c2 = e.val.args
                    good = isinstance(h, Opaque) and h.kind == 'handle'
                    vcs.append(DVC2(fn_, 'the tile visited is set up', hy + [ge(b, Z), lt(b, cnt)], eq(h.data[1], b) if good else FALSE, e.line, 'post'))
                    sfx = {'float': 'fp32', 'double': 'fp64', 'nntile::fp32_t': 'fp32', 'nntile::fp64_t': 'fp64'}[ta[0]]
                    vcs.append(DVC2(fn_, 'the accumulation is of the kind and precision asked for', hy, TRUE if c1 == 'nntile::starpu::%s::codelet_%s' % (cod, sfx) else FALSE, e.line, 'post'))
                    vcs.append(DVC2(fn_, 'the buffers of a reduction start from zero', hy, TRUE if c2 == 'nntile::starpu::clear::codelet' else FALSE, e.line, 'post'))
                for v in vcs:
                    v.run = None
                    res = dims.prove(v.hyps, v.goal) if v.goal is not TRUE else None
                    ok = res is None or bool(res.ok)
                    r.obl.append((v.fn, v.name, v.kind, ok, res.by if res is not None else 'simplifier', 0.0, ''))
                    if not ok: failed.append(v)
        for u in und: r.undecided.append(('Tensor::set_reduction', u))
        report(r, 'set_reduction', 'Tensor::set_reduction', failed, 0)


class RExec(SExec):
    def contract_for(self, r, args, n):
        nm = r.get('name')
        if nm == 'starpu_data_set_reduction_methods':
            vals = [self.rv(a) for a in args]
            def cod(v):
                if isinstance(v, Opaque) and v.kind == 'addr': v = v.data[0]
                return self.st.heap[v.oid]['_q'] if isinstance(v, LObj) else None
            self.event('reduction', [vals[0], cod(vals[1]), cod(vals[2])], n)
            return Opaque('void')
        return SExec.contract_for(self, r, args, n)
