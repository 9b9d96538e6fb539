"""Replay of kernel contracts on the real compiled kernels (used to confirm failed obligations and as
labelled bounded check for obligations outside the prover's reach)."""
import ctypes, json, math, mmap, os, random, select, signal, subprocess, sys, time
import numpy as np
from .terms import *
from . import cxx, solve, kspec
from .kspec import E

libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
PG = 4096


class GuardBuf(object):
    """array placed against an inaccessible page; mode 0: end guard is tight, 1: start guard is tight"""
    def __init__(self, arr, mode):
        nb = max(1, arr.nbytes)
        self.np = (nb + PG - 1) // PG
        self.base = libc.mmap(None, (self.np + 2) * PG, mmap.PROT_READ | mmap.PROT_WRITE, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, -1, 0)
        self.addr = self.base + PG + (0 if mode else self.np * PG - arr.nbytes)
        if arr.nbytes:
            ctypes.memmove(self.addr, arr.ctypes.data, arr.nbytes)
        libc.mprotect(self.base, PG, 0)
        libc.mprotect(self.base + (self.np + 1) * PG, PG, 0)
        self.arr = arr

    def readonly(self): libc.mprotect(self.base + PG, self.np * PG, mmap.PROT_READ)

    def get(self):
        out = np.empty_like(self.arr)
        if out.nbytes: ctypes.memmove(out.ctypes.data, self.addr, out.nbytes)
        return out

    def free(self): libc.munmap(self.base, (self.np + 2) * PG)


def ctypes_of(ty):
    t = ty.replace('const ', '').replace('nntile::', '').strip()
    return t


DT = {'float': np.float32, 'double': np.float64, 'fp32_t': np.float32, 'fp64_t': np.float64, 'bool': np.bool_, 'bool_t': np.bool_, 'Index': np.int64,
      'long': np.int64, 'int64_t': np.int64, 'fp16_t': np.int16}


def compile_kernel(name, fname, insts, out, params):
    """insts: list of list of template args; one extern C wrapper per instantiation"""
    src = '#include "nntile/kernel/%s/cpu.hh"\nusing namespace nntile;\n' % name
    for j, ta in enumerate(insts):
        ps = params[j]
        sig = []; args = []
        for i, p in enumerate(ps):
            if '*' in p: sig.append('void *a%d' % i); args.append('(%s)a%d' % (p, i))
            elif p.strip() in ('float', 'double', 'fp32_t', 'fp64_t', 'Scalar'): sig.append('double a%d' % i); args.append('(%s)a%d' % (p, i))
            else: sig.append('long a%d' % i); args.append('(%s)a%d' % (p, i))
        targ = '<%s>' % ', '.join(ta) if ta else ''
        src += 'extern "C" void w%d(%s) { kernel::%s::%s%s(%s); }\n' % (j, ', '.join(sig), name, fname, targ, ', '.join(args))
    w = out + '.cc'
    open(w, 'w').write(src)
    cmd = ['g++', '-O1', '-w', '-fPIC', '-shared', '-o', out] + cxx.flags() + [w, cxx.source('src/kernel/%s/cpu.cc' % name)]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise cxx.FrontEndError('g++ failed: ' + r.stderr[-1500:])
    return out


def literals(tu, f):
    ints, fls = set(), set()
    def walk(n, seen):
        if not isinstance(n, dict): return
        k = n.get('kind')
        if k == 'IntegerLiteral':
            try: ints.add(int(n['value']))
            except Exception: pass
        elif k == 'FloatingLiteral':
            try: fls.add(float(n['value']))
            except Exception: pass
        elif k == 'DeclRefExpr':
            d = tu.definition_of(n.get('referencedDecl', {}))
            if d is not None and d['id'] not in seen and d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                seen.add(d['id']); walk(tu.body(d), seen)
            elif d is None:
                v = tu.decls.get(n.get('referencedDecl', {}).get('id'))
                if v is not None and v['kind'] == 'VarDecl' and v['id'] not in seen:
                    seen.add(v['id']); walk(v, seen)
        for c in n.get('inner', ()): walk(c, seen)
    walk(tu.body(f), {f['id']})
    return sorted(ints), sorted(fls)


class Env(object):
    def __init__(self, sc, arrays): self.sc = sc; self.arrays = arrays
    def vals(self, t): return self.sc[t.args[0]]
    def arr(self, nm, ix, sort):
        a = self.arrays[nm]; i = int(ix[0])
        if i < 0 or i >= len(a): return float('nan') if sort == 'R' else 0
        v = a[i]
        return float(v) if sort == 'R' else (bool(v) if sort == 'B' else int(v))
    def preds(self, nm, a): return math.isinf(a[0]) if nm == 'isinf' else False


def gen_scalar(K, p, rng, fls):
    d = (K.dom or {}).get(p.name)
    c = [0.0, 1.0, -1.0, 0.5, 2.0, -1.5, 3.0, 0.25] + [x for x in fls for x in (x, -x)]
    if d == 'pos': return rng.choice([1e-6, 1e-3, 0.5, 1.0, 2.0])
    if d == 'nonneg': return rng.choice([0.0, 1e-6, 0.5, 1.0])
    if d == '01': return rng.choice([0.0, 0.5, 0.9, 0.99, 0.999])
    if rng.random() < 0.75: return rng.choice(c)
    return round(rng.uniform(-3, 3), 3)


def gen_array(K, p, n, rng, env, np_rng, dt):
    d = (K.dom or {}).get(p.name)
    if p.sort == 'B': return np_rng.integers(0, 2, n).astype(np.bool_)
    if p.sort == 'I':
        hi = env[d] if d else 3
        a = np_rng.integers(0, max(1, hi), n)
        if n > 2 and rng.random() < .5: a[rng.randrange(n)] = hi - 1; a[rng.randrange(n)] = 0
        return a.astype(np.int64)
    s = rng.random()
    if s < .35: a = np_rng.integers(-8, 9, n) / 4.0
    elif s < .5: a = np_rng.normal(size=n) * rng.choice([0.01, 1, 8])
    elif s < .6: a = np_rng.normal(size=n) * np_rng.choice([1e-3, 1, 30.], n)
    elif s < .65: a = np_rng.choice([-1e3, -60., -20., 0., 20., 60., 1e3], n)
    else: a = np_rng.normal(size=n) * 2
    if rng.random() < .1: a = a * 0
    if d == 'pos': a = np.abs(a) + 0.125
    elif d == 'nonneg': a = np.abs(a)
    elif d == 'inf':
        if rng.random() < .6: a = np.where(np_rng.random(n) < rng.choice([.2, .6]), -np.inf, a)
        elif rng.random() < .4: a = a + rng.choice([-800., 900.])
    elif d == 'pairs':
        a = np.abs(a) + 0.125
        off = rng.choice([0., 0., 700., -900.])
        mode = rng.random()
        for i in range(0, n, 2):
            a[i] = rng.choice([-2, -1, 0, .5, 1, 3]) + off
            if mode < .5 and rng.random() < .4: a[i + 1] = 0; a[i] = 0 if rng.random() < .5 else a[i]
    return a.astype(dt)


def dtype_of(p, ta):
    if p.sort == 'I': return np.int64
    if p.sort == 'B': return np.bool_
    return DT[ta[0]]


def gen_case(K, ta, rng, np_rng, lits, sizes=None, maxel=3000):
    ints, fls = lits
    sc = {}
    fam = rng.random()
    names = [p for p in K.params if p.kind in ('I', 'G')]
    for p in names:
        d = (K.dom or {}).get(p.name)
        if d == 'iter': sc[p.name] = rng.choice([1, 1, 2, 3, 10, 100]); continue
        if len(names) == 1: v = rng.choice([1, 2, 3, 5, 8, 17, 40])
        else: v = rng.choice([1, 2, 3, 4, 5]) if fam < .8 else rng.choice([1, 2, 3, 7, 9])
        sc[p.name] = max(v, p.lo)
    if K.name in ('embedding', 'embedding_backward'):
        sc['k'] = rng.choice([1, 2, 4, 6]); sc['k_start'] = rng.randrange(sc['k']); sc['k_size'] = rng.randint(1, sc['k'] - sc['k_start'])
    if sizes:
        sc.update(sizes)
        if K.name in ('embedding', 'embedding_backward'):
            sc['k_start'] = rng.randrange(sc['k']); sc['k_size'] = rng.randint(1, sc['k'] - sc['k_start'])
    if K.gen: K.gen(sc, rng)
    for p in K.params:
        if p.kind == 'S': sc[p.name] = gen_scalar(K, p, rng, fls)
        elif p.kind == 'Z': sc[p.name] = 0          # position of the initial state
    if ta and DT.get(ta[0]) is np.float32:
        for p in K.params:
            if p.kind == 'S': sc[p.name] = float(np.float32(sc[p.name]))
    e = E({k: num(v) if isinstance(v, int) else num(Q(v).limit_denominator(10**12), 'R') for k, v in sc.items()}, {p.name: p.sort for p in K.params if p.kind in 'CW'})
    for p in K.params:
        if p.kind == 'N' and callable(p.length): sc[p.name] = int(p.length(e).args[0])
    arrays = {}
    for p in K.params:
        if p.kind in 'CW':
            n = int(p.length(e).args[0]) if p.length(e).op == 'num' else None
            if n > maxel * 60: return None
            arrays[p.name] = gen_array(K, p, n, rng, sc, np_rng, dtype_of(p, ta))
        elif p.kind == 'V': arrays[p.name] = np.array([int(x.args[0]) for x in p.length(e)], np.int64)
        elif p.kind == 'X': arrays[p.name] = np.full(int(p.length(e).args[0]), -7, np.int64)
    if K.name in ('softmax', 'softmax_inplace'): fix_softmax(K, sc, arrays, rng)
    if K.name == 'normalize': fix_normalize(sc, arrays, rng)
    # contents that must not matter are poisoned
    poison = []
    for s, b in K.noread:
        hit = s is None
        if s and '=' in s: a_, b_ = s.split('='); hit = sc[a_] == int(b_)
        elif s: hit = sc[s] == 0
        if hit and rng.random() < .7 and arrays[b].dtype.kind == 'f':
            arrays[b] = np.full_like(arrays[b], np.nan); poison.append(b)
    return dict(sc=sc, arrays=arrays, poison=poison)


def fix_softmax(K, sc, arrays, rng):
    src = arrays['src'] if K.name == 'softmax' else arrays['dst']
    m, n, k = sc['m'], sc['n'], sc['k']
    x = src.reshape((n, k, m)).astype(np.float64)
    for i2 in range(n):
        for i0 in range(m):
            v = x[i2, :, i0]
            fin = v[np.isfinite(v)]
            if len(fin) == 0: mx, s = 0., 1.
            else: mx = fin.max(); s = np.exp(fin - mx).sum()
            if rng.random() < .2: s *= 3
            if rng.random() < .2: mx += 1
            arrays['maxsumexp'][(i2 * m + i0) * 2] = mx
            arrays['maxsumexp'][(i2 * m + i0) * 2 + 1] = s


def fix_normalize(sc, arrays, rng):
    m, n, k, l = sc['m'], sc['n'], sc['k'], sc['l']
    x = arrays['dst'].reshape((n, k, m)).astype(np.float64)
    if rng.random() < .8:
        l = sc['l'] = k
    for i2 in range(n):
        for i0 in range(m):
            v = x[i2, :, i0]
            s = v.sum(); nn = math.sqrt((v * v).sum())
            if l != k:
                nn = abs(s) / math.sqrt(l) * 1.5 + nn
            arrays['sumnorm'][(i2 * m + i0) * 2] = s
            arrays['sumnorm'][(i2 * m + i0) * 2 + 1] = nn


def offsets(o, e_num):
    ns = [int(solve.evalt(n, Env({}, {}))) for n in o.box]
    g = np.indices(ns).reshape(len(ns), -1) if ns else np.zeros((0, 1), int)
    bs = [fresh('o%d' % i) for i in range(len(ns))]
    off = o.off(*bs)
    v = solve.evalt(off, Env({}, {}), {b: g[i] for i, b in enumerate(bs)})
    if np.isscalar(v): v = np.full(g.shape[1], v)
    return g, v


def check_case(K, ta, case, got, rng, nsample=60):
    """compare the results of the real run with the contract; returns None or a description"""
    sc, arrays = case['sc'], case['arrays']
    e = E({k: num(v) if isinstance(v, int) else sym(k, 'R') for k, v in sc.items()}, {p.name: p.sort for p in K.params if p.kind in 'CW'})
    env = Env(sc, arrays)
    fl = DT[ta[0]] if ta else np.float64
    tol = 1e-8 if fl is np.float64 else 4e-4
    for p in K.params:
        if p.kind == 'C' and got[p.name].tobytes() != arrays[p.name].tobytes():
            return 'const buffer %s was modified' % p.name
    if K.post == 'maxsumexp': return check_maxsumexp(sc, arrays, got, tol)
    outs = K.outs(e)
    mag = 0.
    for nm, a in arrays.items():
        if a.dtype.kind == 'f' and nm not in case['poison'] and len(a):
            f = a[np.isfinite(a)]
            if len(f): mag = max(mag, float(np.abs(f).max()))
    mag = 1. if K.stable or K.name.startswith('adam') else max(1., mag)
    covered = {}
    for o in outs:
        g, off = offsets(o, e)
        b = o.buf
        covered.setdefault(b, np.zeros(len(arrays[b]), bool))[off] = True
        idx = range(g.shape[1])
        if len(idx) > nsample: idx = sorted(set(rng.sample(list(idx), nsample)) | {0, g.shape[1] - 1})
        bs = [fresh('o%d' % i) for i in range(len(o.box))]
        val = o.val(*bs)
        for i in idx:
            try: want = solve.evalt(val, env, {b_: int(g[q][i]) for q, b_ in enumerate(bs)})
            except (OverflowError, ZeroDivisionError): continue
            have = got[b][off[i]]
            if isinstance(want, float):
                if math.isnan(want): continue
                if math.isinf(want) or abs(want) > 1e30: continue
                if not (abs(float(have) - want) <= tol * (abs(want) + mag)):
                    return '%s[%d] is %r, contract value %r' % (b, off[i], float(have), want)
            elif have != want: return '%s[%d] is %r, contract value %r' % (b, off[i], have, want)
    for p in K.params:
        if p.kind == 'W':
            cov = covered.get(p.name, np.zeros(len(arrays[p.name]), bool))
            a = arrays[p.name][~cov]; h = got[p.name][~cov]
            # adam kernels may overwrite the gradient (documented weight decay) - frame excludes declared scratch
            if p.name in getattr(K, 'scratch', ()): continue
            if a.tobytes() != h.tobytes(): return 'element of %s outside the described output changed' % p.name
    return None


def check_maxsumexp(sc, arrays, got, tol):
    m, n, k = sc['m'], sc['n'], sc['k']
    x = arrays['src'].reshape((n, k, m)).astype(np.float64)
    for i2 in range(n):
        for i0 in range(m):
            o = (i2 * m + i0) * 2
            mo, so = float(arrays['maxsumexp'][o]), float(arrays['maxsumexp'][o + 1])
            gm, gs = float(got['maxsumexp'][o]), float(got['maxsumexp'][o + 1])
            v = x[i2, :, i0]; v = v[np.isfinite(v)]
            if len(v) == 0:
                if gm != mo or gs != so: return 'maxsumexp[%d]: fully masked slice changed (%r,%r) -> (%r,%r)' % (o, mo, so, gm, gs)
                continue
            M = max(v.max(), mo) if so != 0 else v.max()
            S = np.exp(v - M).sum() + (so * math.exp(mo - M) if so != 0 else 0)
            if not abs(gm - M) <= tol * (1 + abs(M)) * 1e-1: return 'maxsumexp[%d] is %r, true maximum %r' % (o, gm, M)
            if not abs(gs - S) <= tol * (1 + abs(S)): return 'maxsumexp[%d] is %r, true sum of exponents %r' % (o + 1, gs, S)
    return None


def run_cases(K, ta, lib, j, ptypes, cases):
    """run cases in a forked child; yields (index, got | None, crash text)"""
    results = []
    start = 0
    while start < len(cases):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                signal.alarm(60)
                so = ctypes.CDLL(lib)
                fnc = getattr(so, 'w%d' % j)
                fnc.restype = None
                f = os.fdopen(wr, 'wb')
                for i in range(start, len(cases)):
                    c = cases[i]
                    f.write(b'S'); f.flush()
                    bufs = {}; args = []
                    for p in [p for p in K.params if p.kind != 'G']:
                        if p.kind == 'I': args.append(ctypes.c_long(c['sc'][p.name]))
                        elif p.kind == 'S': args.append(ctypes.c_double(c['sc'][p.name]))
                        elif p.kind == 'N': args.append(ctypes.c_long(p.length if not callable(p.length) else c['sc'][p.name]))
                        elif p.kind == 'Z': args.append(ctypes.c_long(solve.SEED0))
                        else:
                            b = GuardBuf(c['arrays'][p.name], i % 2)
                            if p.kind in 'CV': b.readonly()
                            bufs[p.name] = b; args.append(ctypes.c_void_p(b.addr))
                    fnc(*args)
                    f.write(b'D')
                    for p in K.params:
                        if p.kind in 'CW': f.write(bufs[p.name].get().tobytes())
                        if p.name in bufs: bufs[p.name].free()
                    f.flush()
                f.close()
            finally:
                os._exit(0)
        os.close(wr)
        data = b''
        with os.fdopen(rd, 'rb') as f: data = f.read()
        _, status = os.waitpid(pid, 0)
        pos = 0; i = start
        crashed = False
        while i < len(cases):
            if pos >= len(data): crashed = True; break
            assert data[pos:pos + 1] == b'S'; pos += 1
            if data[pos:pos + 1] != b'D': crashed = True; break
            pos += 1
            got = {}
            for p in K.params:
                if p.kind in 'CW':
                    a = cases[i]['arrays'][p.name]
                    if pos + a.nbytes > len(data): crashed = True; break
                    got[p.name] = np.frombuffer(data[pos:pos + a.nbytes], a.dtype); pos += a.nbytes
            if crashed: break
            results.append((i, got, None)); i += 1
        if i >= len(cases): break
        sig = status & 127
        results.append((i, None, 'process ended by signal %d (%s)' % (sig, {11: 'access outside the buffers or write to a const buffer', 7: 'access outside the buffers',
                                                                           14: 'did not terminate', 8: 'integer division by zero'}.get(sig, 'abort'))))
        start = i + 1
        if len([r for r in results if r[2]]) > 3: break
    return results


def size_families(K, ints, deep):
    out = []
    lits = sorted({v + d for v in ints if 2 <= v <= 70000 for d in (-1, 0, 1, 2)})
    names = [p.name for p in K.params if p.kind in ('I', 'G') and p.name not in ('k_start', 'k_size', 'num_iter')]
    if deep:
        for v in lits:
            for nm in names: out.append({**{x: 2 for x in names}, nm: v})
        for v in (1, 33, 65, 129, 257, 1025):
            for nm in names: out.append({**{x: 2 for x in names}, nm: v})
        for nm in names: out.append({**{x: 1 for x in names}, nm: 3}); out.append({**{x: 3 for x in names}, nm: 1})
        for v in ints:
            if 0 < v < 10**7 and any(p.name == 'num_iter' for p in K.params):
                for d in (-1, 0, 1): out.append({'num_iter': max(1, v + d), 'num_elems': 3})
    else:
        for nm in names[:3]: out.append({**{x: 2 for x in names}, nm: 1})
    return out


def replay_kernel(K, tu, fs, workdir, seed, ncases, deep, budget=40.0, types=None):
    """returns (n_evaluated, violation dict | None)"""
    t0 = time.time()
    insts = []; params = []
    for f in fs:
        insts.append([c.get('type', {}).get('qualType') for c in f.get('inner', ()) if c.get('kind') == 'TemplateArgument'])
        params.append([p['type'].get('qualType') for p in tu.params(f)])
    lib = compile_kernel(K.name, K.fname, insts, os.path.join(workdir, 'k_%s_%s_%d.so' % (K.name, K.fname, os.getpid())), params)
    ints, fls = literals(tu, fs[0])
    n = 0; samples = []
    for j, ta in enumerate(insts):
        if ta and DT.get(ta[0]) is None: continue
        rng = random.Random(seed * 7919 + j); np_rng = np.random.default_rng(seed * 31 + j)
        cases = []
        for s in size_families(K, ints, deep):
            for _ in range(2 if deep else 1):
                c = gen_case(K, ta, rng, np_rng, (ints, fls), s)
                if c: cases.append(c)
        for _ in range(ncases):
            c = gen_case(K, ta, rng, np_rng, (ints, fls))
            if c: cases.append(c)
        for i0 in range(0, len(cases), 40):
            part = cases[i0:i0 + 40]
            for i, got, crash in run_cases(K, ta, lib, j, params[j], part):
                n += 1
                msg = crash or check_case(K, ta, part[i], got, rng)
                if msg:
                    return n, dict(kernel=K.name, fname=K.fname, targs=ta, sc=part[i]['sc'], arrays={k: v.tolist() for k, v in part[i]['arrays'].items()},
                                   guard_mode=i % 2, message=msg), samples
                if len(samples) < 2: samples.append('%s<%s> %s' % (K.name, ','.join(ta), part[i]['sc']))
            if time.time() - t0 > budget: break
    return n, None, samples
