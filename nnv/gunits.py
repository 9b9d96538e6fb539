"""Units of the geometry layer (C01-C04): the constructors and queries of tile and tensor traits, the
block-cyclic distribution, the tile tables of a tensor."""
from . import gver, glemmas, cxx, solve, rlib
from .exec import Undecided, TooBig
import os, subprocess, time

INST = gver.INST
DISTR = 'src/tensor/distributions.cc'
GROUPS = {'C01': [('tile traits constructor', INST, ['c01_ctor'], [], ['nntile::tile::TileTraits::TileTraits']),
                  ('tile constructors', INST, ['c01_tile'], [], ['nntile::tile::Tile::Tile'])],
          'C02': [('index conversions', INST, ['c02'], ['arithmetic', 'radix'], ['nntile::tile::TileTraits::index_to_linear', 'nntile::tile::TileTraits::linear_to_index', 'nntile::tile::TileTraits::contains_index'])],
          'C03': [('tensor traits', INST, ['c03'], ['partition'], ['nntile::tensor::TensorTraits::TensorTraits', 'nntile::tensor::TensorTraits::get_tile_shape']),
                  ('tensor constructor', INST, ['c03_tensor'], [], ['nntile::tensor::Tensor::Tensor']),
                  ('tile access of a tensor', INST, ['c03_access'], [], ['nntile::tensor::Tensor::get_tile'])],
          'C04': [('block_cyclic', DISTR, ['c04'], ['arithmetic', 'radix'], ['nntile::tensor::distributions::block_cyclic'])]}


# without a contract: a bounded check stands in
MOVES = {'C14': ('tensor_copy_intersection',), 'C18': ('tensor_copy_intersection',)}
ASPECT = {'C14': 'accept', 'C18': 'values', 'C19': 'wait', 'C20': 'values'}


def table(prop):
    if prop in MOVES: return [(('random fill ' if 'randn' in m else 'data movement ') + m, MoveUnit(m)) for m in MOVES[prop]]
    out = [('geometry ' + g[0], GeoUnit(g)) for g in GROUPS.get(prop, ())]
    if out: out.append(('geometry executions', ExecUnit()))
    return out


def harness():
    w = cxx.workdir() + '/geom'
    p = subprocess.run(['g++', '-O1', '-g0', '-D_GLIBCXX_ASSERTIONS', '-w'] + cxx.flags() + [rlib.HERE + '/stub/geom.cc', rlib.HERE + '/stub/stub.cc', cxx.source(DISTR), '-o', w], capture_output=True, text=True)
    return (w, '') if p.returncode == 0 else (None, p.stderr[:600])


def execute(r, prop, seed, count):
    """runs the real classes against the reference; the failing case, or None"""
    w, err = harness()
    if w is None: r.undecided.append(('replay harness', err)); return None
    try: p = subprocess.run([w, prop[2:].lstrip('0'), str(seed), str(count)], capture_output=True, text=True, timeout=200)
    except subprocess.TimeoutExpired: r.undecided.append(('replay harness', 'time limit')); return None
    o = p.stdout.strip()
    if o.startswith('OK'): r.evaluations += count; return None
    if o.startswith('BAD'):
        what, _, case = o[4:].partition(' | ')
        return dict(what=what, case=case, seed=seed)
    r.undecided.append(('replay harness', 'exit %d %s' % (p.returncode, (o + p.stderr)[-300:]))); return None


class ExecUnit(object):
    """the contracts against executions of the real classes (decides nothing when the proofs are complete)"""
    def __call__(self, r, prop, tier, seed):
        b = execute(r, prop, seed, 20000 if tier == 'quick' else 400000)
        if b: r.violations.append(dict(key='exec:' + b['what'][:40], confirmed=True, message='%s; %s' % (b['what'], b['case']), data=b))


class GeoUnit(object):
    def __init__(self, g): self.g = g

    def __call__(self, r, prop, tier, seed):
        solve.CROSS = False
        nm, src, fns, lems, quals = self.g
        failed = []; und = []
        try: tu = cxx.TU(src)
        except (Undecided, cxx.FrontEndError) as x: und.append('%s: %s' % (src, str(x)[:200])); tu = None
        for fn in (fns if tu is not None else ()):
            try: Fs = getattr(gver, fn)(tu)
            except (Undecided, TooBig, RecursionError) as x: und.append('%s: %s' % (nm, x)); continue
            names = [F.name for F in Fs]
            for q in quals:
                if not any(q.split('::')[-1] in n for n in names): und.append('%s: no function %s' % (nm, q))
            for F in Fs:
                vs = F.finish()
                if not vs: und.append('%s: no obligation' % F.name)
                for v in vs:
                    try: ok = v.run()
                    except (Undecided, TooBig, RecursionError) as x: ok = False; v.why = str(x)
                    r.obl.append((F.name, v.name, v.kind, ok, v.by, v.t, str(v.why)[:200]))
                    if not ok: failed.append((F.name, v))
        for l in lems:
            for L in getattr(glemmas, l)():
                ok = L.run()
                r.obl.append(('lemma', L.name, 'lemma', ok, L.by, L.t, L.why))
                if not ok: und.append('lemma %s' % L.name)
        b = None
        if failed or und: b = execute(r, prop, seed + 1000, 200000)
        if b:
            r.violations.append(dict(key='%s:%s' % (nm, b['what'][:40]), confirmed=True, message='%s; %s' % (b['what'], b['case']), data=b, obligations=[dict(function=n, name=v.name, line=v.line) for n, v in failed][:10] or und[:5]))
            return
        for u in und: r.undecided.append((nm, u))
        if und: r.bounded.append('%s: %s; bounded check: %d random geometries of rank at most 6' % (nm, und[0][:200], r.evaluations))
        for n, v in failed[:3]:
            r.violations.append(dict(key='%s:%s' % (nm, v.name[:60]), confirmed=False, message='obligation not discharged: %s, %s (line %d)' % (n, v.name, v.line),
                                     data=dict(hyps=[str(h) for h in v.hyps][:60], goal=str(v.goal)[:4000], solver=str(v.why)[:2000], replays=r.evaluations)))


def move_harness():
    """one binary for all modes, shared by the units"""
    w = rlib.LIB + '/move'
    import fcntl
    with open(w + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(w): return w, ''
        p = subprocess.run(['g++'] + rlib.CXXF + cxx.flags() + ['-I' + rlib.HERE + '/stub', rlib.HERE + '/stub/move.cc', '-o', w + '.tmp', '-L' + rlib.LIB, '-lnn', '-Wl,-rpath,' + rlib.LIB, '-lopenblas'], capture_output=True, text=True)
        if p.returncode: return None, p.stderr[:600]
        os.rename(w + '.tmp', w)
    return w, ''


def move_run(r, mode, seed, aspect, count, limit):
    """(failing case | None, number of executions); None, 0 with an entry in r.undecided when there is no answer"""
    if not rlib.wait(): r.undecided.append((mode, 'the library does not build on the stand-in runtime')); return None, 0
    w, err = move_harness()
    if w is None: r.undecided.append((mode, 'replay harness: ' + err[:300])); return None, 0
    try: p = subprocess.run([w, mode, str(seed), str(count), aspect], capture_output=True, text=True, timeout=limit, env=dict(os.environ, OPENBLAS_NUM_THREADS='1'))
    except subprocess.TimeoutExpired: r.undecided.append((mode, 'time limit of the replay')); return None, 0
    o = p.stdout.strip()
    if o.startswith('OK'): return None, count
    if o.startswith('BAD'):
        what, _, case = o[4:].partition(' | ')
        return dict(what=what, case=case, seed=seed), count
    if p.returncode < 0: return dict(what='crash (signal %d)' % -p.returncode, case='mode %s seed %d; %s' % (mode, seed, o[-300:]), seed=seed), count
    r.undecided.append((mode, 'replay harness: exit %d %s' % (p.returncode, (o + p.stderr)[-300:]))); return None, 0


class MoveUnit(object):
    """bounded stand-in: data movement and random fill on the stand-in runtime against an element-wise reference"""
    def __init__(self, m): self.m = m

    def __call__(self, r, prop, tier, seed):
        m = self.m
        fn = 'nntile::' + (m.replace('_', '::', 1) if m.startswith('t') else 'tensor::' + m)
        n = 20000 if tier == 'quick' else 400000
        b, k = move_run(r, m, seed, ASPECT[prop], n, 250 if tier == 'quick' else 2000)
        if b: r.violations.append(dict(key='%s:%s' % (m, b['what'][:40]), confirmed=True, message='%s; %s' % (b['what'], b['case']), data=b)); return
        if k:
            r.evaluations += k
            r.bounded.append('%s: bounded check: %d random operations of rank at most 4, extents at most 9, every tiling and offset kind, both precisions, random legal schedules' % (fn, k))
