"""Check runner:  python3-vt -m nnv.check C05 [--tier quick|thorough]
Runs every unit of a property (a unit = one function of /repo under contract), in a process pool,
aggregates the verdicts, writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines."""
import argparse, hashlib, json, multiprocessing as mp, os, re, sys, time, traceback, signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


class Result(object):
    """what one unit produced (picklable)"""
    def __init__(self, unit):
        self.unit = unit
        self.obl = []            # (function, obligation, kind, ok, by, seconds, why)
        self.undecided = []      # (function, reason)
        self.violations = []     # dict(key, message, confirmed, data)
        self.evaluations = 0
        self.samples = []
        self.bounded = []        # text of bounded stand-ins that ran
        self.wall = 0.0
        self.error = None


def unit_table(prop):
    from . import units
    return units.table(prop)


def units_mod():
    from . import units
    return units


def start_lib():
    from . import rlib
    return rlib.start()


def run_unit(args):
    prop, name, fn, tier, seed = args
    t0 = time.time()
    r = Result(name)
    try: fn(r, prop, tier, seed)
    except Exception:
        r.error = traceback.format_exc()
    r.wall = time.time() - t0
    return r


def child(conn, args):
    from . import cxx
    cxx.WORK = None
    try:
        r = run_unit(args)
        conn.send(r)
    finally:
        conn.close()
        if cxx.WORK and os.path.isdir(cxx.WORK):
            import shutil
            shutil.rmtree(cxx.WORK, ignore_errors=True)
    os._exit(0)


def run_pool(tasks, jobs, limit):
    """own pool: every unit in a process of its own, with a time limit"""
    pend = list(tasks)[::-1]
    act = []
    out = []
    while pend or act:
        while pend and len(act) < jobs:
            t = pend.pop()
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(b, t))
            p.start(); b.close()
            act.append((p, a, t, time.time()))
        nxt = []
        for p, a, t, t0 in act:
            done = False
            if a.poll(0):
                try: out.append(a.recv())
                except EOFError:
                    r = Result(t[1]); r.error = 'unit process died'; out.append(r)
                done = True
            elif time.time() - t0 > limit:
                r = Result(t[1]); r.error = 'time limit of %d s' % limit; r.wall = limit
                out.append(r); p.kill(); done = True
            if done: p.join(5); a.close()
            else: nxt.append((p, a, t, t0))
        act = nxt
        time.sleep(0.02)
    return out


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
                if m: out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--only', default=None); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tab = unit_table(a.prop)
    tasks = [(a.prop, nm, fn, a.tier, seed) for nm, fn in tab if a.only is None or re.search(a.only, nm)]
    bg = None
    if a.prop in units_mod().NEED_LIB and tasks: bg = start_lib()
    limit = 300 if a.tier == 'quick' else 2400
    res = run_pool(tasks, a.j, limit)
    order = {nm: i for i, (nm, _) in enumerate(tab)}
    res.sort(key=lambda r: order.get(r.unit, 0))
    kf = known_findings()
    nob = nok = 0
    viol = 0
    byk = {}; stime = 0.0
    lines = []
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    hard = False
    for r in res:
        if r.error:
            print('UNIT-ERROR %s: %s' % (r.unit, r.error.strip().splitlines()[-1]))
            if a.v: print(r.error)
            r.undecided.append((r.unit, 'no answer: ' + r.error.strip().splitlines()[-1]))
        for o in r.obl:
            nob += 1; nok += bool(o[3]); byk[o[4]] = byk.get(o[4], 0) + 1 if o[3] else byk.get(o[4], 0); stime += o[5]
        if a.v:
            print('%-44s obl %4d ok %4d undecided %s bounded %s eval %d %.1fs' % (r.unit, len(r.obl), sum(1 for o in r.obl if o[3]), r.undecided, r.bounded, r.evaluations, r.wall))
            for o in r.obl:
                if not o[3]: print('      FAILED', o[:3], o[6])
        for f, why in r.undecided: lines.append('UNDECIDED property=%s %s: %s' % (a.prop, f, why))
        for v in r.violations:
            k = [x for x in kf if x[0] == a.prop and x[1] == v['key']]
            if k:
                print('KNOWN-FINDING: property=%s %s' % (a.prop, k[0][2])); continue
            viol += 1
            h = hashlib.sha1((r.unit + v['key']).encode()).hexdigest()[:10]
            path = os.path.join(HERE, 'replays', '%s_%s.json' % (a.prop, h))
            json.dump(dict(property=a.prop, unit=r.unit, **v), open(path, 'w'), indent=1, default=str)
            print('VIOLATION property=%s replay=%s%s' % (a.prop, path, '' if v['confirmed'] else ' no-failing-input-found'))
            print('  ' + r.unit + ': ' + v['message'][:400])
    for l in lines: print(l[:300])
    from . import units
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level=units.LEVEL.get(a.prop, 'proof'), wall_s=round(time.time() - t0, 2), violations=viol,
              assumptions=units.assumptions(a.prop),
              coverage=dict(obligations=nob, discharged=nok, checker_cmd='python3-vt -m nnv.check %s --tier %s' % (a.prop, a.tier),
                            trusted_base=units.TRUSTED,
                            functions_under_contract=sorted({o[0] for r in res for o in r.obl}),
                            discharged_by=byk, solver_seconds=round(stime, 2),
                            evaluations=sum(r.evaluations for r in res),
                            rule='executions of the real compiled functions compared with the contract (cross-check of the contracts; decides only the listed bounded stand-ins)',
                            bounded_standins=[b for r in res for b in r.bounded],
                            undecided=['%s: %s' % u for r in res for u in r.undecided],
                            failed=[list(o[:3]) for r in res for o in r.obl if not o[3]][:50],
                            obligation_kinds={k: sum(1 for r in res for o in r.obl if o[2] == k) for k in sorted({o[2] for r in res for o in r.obl})},
                            samples=[s for r in res for s in r.samples][:12]))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print('%s: %d units, %d/%d obligations discharged, %d bounded stand-ins, %d real executions, %.1f s' % (
        a.prop, len(res), nok, nob, len(ev['coverage']['bounded_standins']), ev['coverage']['evaluations'], time.time() - t0))
    if viol: sys.exit(1)
    if res and all(r.error for r in res): sys.exit(2)
    sys.exit(0)


if __name__ == '__main__': main()
