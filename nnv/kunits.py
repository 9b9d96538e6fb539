"""Units of the kernel layer."""
from . import kver, kspec, kreplay, cxx, solve
from .exec import Undecided
from .terms import TooBig
import time

PROPS = ('C05', 'C06', 'C07', 'C08', 'C09', 'C10')
# obligations which are outside the reach of the prover; a bounded check stands in
STANDIN = set()


def table(prop):
    out = []
    for nm, K in kspec.KERNELS.items():
        if K.prop == prop or prop == 'C11': out.append(('kernel ' + nm, Unit(nm)))
    return out


class Unit(object):
    def __init__(self, nm): self.nm = nm

    def __call__(self, r, prop, tier, seed):
        K = kspec.KERNELS[self.nm]
        solve.CROSS = False
        qn = 'nntile::kernel::%s::%s' % (K.name, K.fname)
        tu = kver.kernel_tu(K.name)
        fs = tu.find(qn)
        if not fs:
            r.undecided.append((qn, 'function not found')); return
        failed = []
        und = []
        for f in fs:
            try:
                vcs, ex, paths = kver.verify_kernel(K, tu, f)
            except (Undecided, TooBig, RecursionError) as x:
                und.append('%s' % x); continue
            for v in vcs:
                if prop == 'C11' and v.kind not in ('safety', 'frame'): continue
                if prop != 'C11' and v.kind == 'safety': continue
                ok = v.run()
                if not ok: ok = v.run()
                r.obl.append((v.fn, v.name, v.kind, ok, v.by, v.t, str(v.why)[:200]))
                if not ok: failed.append(v)
        standin = und or (failed and self.nm in STANDIN)
        deep = bool(failed or und) or tier == 'thorough'
        n, viol, samples = kreplay.replay_kernel(K, tu, fs, cxx.workdir(), seed, (150 if und or failed else 12) if tier == 'quick' else 1500, deep, 60 if tier == 'quick' else 600)
        r.evaluations += n; r.samples += samples
        if viol:
            if prop == 'C11' and not ('signal' in viol['message'] or 'outside' in viol['message'] or 'const buffer' in viol['message']): viol = None
        if viol:
            r.violations.append(dict(key='%s:%s' % (K.name, viol['message'][:40]), confirmed=True,
                                     message='%s: %s at %s' % (qn, viol['message'], viol['sc']), data=viol,
                                     obligations=[dict(name=v.name, line=v.line) for v in failed] or und))
            return
        if standin:
            why = und[0] if und else 'unproved: ' + '; '.join(sorted({v.name for v in failed}))
            if self.nm not in STANDIN: r.undecided.append((qn, why))
            r.bounded.append('%s: %s; bounded check: %d executions, sizes up to ~10 per dimension' % (qn, why[:200], n))
            # obligations of a stand-in are not counted as proof obligations
            names = {v.name for v in failed}
            r.obl = [o for o in r.obl if o[3] or o[1] not in names]
            return
        for v in failed[:3]:
            r.violations.append(dict(key='%s:%s' % (K.name, v.name[:60]), confirmed=False, message='obligation not discharged: %s, %s (line %d)' % (v.fn, v.name, v.line),
                                     data=dict(hyps=[str(h) for h in v.hyps][:60], goal=str(v.goal)[:4000], solver=str(v.why)[:2000], replays=n)))
