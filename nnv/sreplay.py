"""Replay of the submission contracts: submit() of the real library on the stand-in runtime against the contract
of the kernel it has to run.  One execution = one submission; order independence of commutative and reduction
accesses is observed with two submissions that the stand-in may reorder."""
import ctypes, math, os, random, signal, subprocess, time
import numpy as np
from .terms import *
from . import cxx, rlib, kreplay, kspec, sspec, solve
from .kspec import Kernel, P, W, C, I
from .sspec import SUBS, kern

CT = {'float': 'fp32_t', 'double': 'fp64_t'}
REDUXM = {'add': 'accumulate::codelet<T>()', 'hypot': 'accumulate_hypot::codelet<T>()', 'maxsumexp': 'accumulate_maxsumexp::codelet<T>()'}
SKIP = {'randn', 'subcopy'}


class OpK(object):
    """a kernel contract seen as a contract of submit"""
    def __init__(self, sub):
        g, kn, args = sub.calls[0]
        K = kern(kn)
        self.sub = sub; self.base = K; self.name = K.name; self.args = args
        self.params = []
        for p in K.params:
            q = P(p.kind, p.name, p.length, p.sort, p.lo)
            self.params.append(q)
        self.outs = K.outs; self.noread = K.noread; self.post = K.post; self.stable = K.stable; self.dom = K.dom; self.fname = K.fname
        real = [p for p in K.params if p.kind != 'G']
        self.fixed = {}; self.of = {}
        self.sizes_from = None
        for p, a in zip(real, args):
            self.of[p.name] = a
            if a.lstrip('-').isdigit(): self.fixed[p.name] = float(a) if p.kind == 'S' else int(a)
        if kn in ('memset0', 'memcpy'): self.params = [p for p in self.params]


def gen_source(sub, ok):
    real = [p for p in ok.base.params if p.kind != 'G']
    sig = []; pre = ''; exprs = {}
    bufs = [p for p in real if p.kind in 'CW']
    for p in real:
        if p.kind == 'S': sig.append('double a_%s' % p.name)
        elif p.kind in 'CW': sig.append('void *a_%s' % p.name)
        else: sig.append('long a_%s' % p.name)
    for p in bufs: sig.append('long z_%s' % p.name)
    for p in real:
        if p.kind == 'S': sig.append('double b_%s' % p.name)
    sig.append('long redux')
    body = ''
    handles = {}
    for p in bufs:
        a = ok.of[p.name]
        if '+' in a: continue
        group = [q for q in bufs if ok.of[q.name].split('+')[0] == a]
        if len(group) == 1:
            body += '  starpu_data_handle_t h_%s; starpu_variable_data_register(&h_%s, 0, (uintptr_t)a_%s, z_%s);\n' % (a, a, p.name, p.name)
        else:
            body += '  std::vector<char> c_%s;\n' % a
            for q in group: body += '  c_%s.insert(c_%s.end(), (char *)a_%s, (char *)a_%s + z_%s);\n' % (a, a, q.name, q.name, q.name)
            body += '  starpu_data_handle_t h_%s; starpu_variable_data_register(&h_%s, 0, (uintptr_t)c_%s.data(), c_%s.size());\n' % (a, a, a, a)
        handles[a] = p
    if sub.redux or sub.op in REDUXM:
        for a, p in handles.items():
            if p.kind == 'W': body += '  starpu_data_set_reduction_methods(h_%s, starpu::%s, &starpu::clear::codelet);\n' % (a, REDUXM[sub.redux or 'add'])
    def call(pre):
        out = []
        inv = {}
        for p in real: inv.setdefault(ok.of[p.name], p)
        for nm, k in sub.params:
            if k == 'H': out.append('wrap(h_%s)' % nm)
            elif k == 'R': out.append('(int)redux')
            elif k == 'Q': out.append('TransOp(a_%s ? TransOp::Trans : TransOp::NoTrans)' % inv[nm].name)
            elif k == 'S': out.append('(T)%s_%s' % (pre, inv[nm].name))
            else: out.append('a_%s' % inv[nm].name)
        ta = {'gemm': '<T, T>', 'clear': '', 'copy': ''}.get(sub.op, '<T>')
        return 'starpu::%s::submit%s(%s);' % (sub.op, ta, ', '.join(out))
    s = 'template<typename T> static const char *go(long twice, unsigned long seed, %s)\n{\n  static std::string res; res.clear();\n  stub_reset(seed);\n%s' % (', '.join(sig), body)
    s += '  try {\n    %s\n    if(twice) { if(twice == 1) stub_drain(); %s }\n    if(stub_submitted() > (twice ? 2 : 1)) res = "more than one task";\n  } catch(const std::exception &e) { res = std::string("refused: ") + e.what(); }\n' % (call('a'), call('b'))
    s += '  stub_drain();\n'
    for a in handles: s += '  stub_ptr(h_%s);\n' % a
    s += '  if(res.empty() && *stub_errors()) res = stub_errors();\n  return res.c_str();\n}\n'
    s = '#include "th.hh"\n' + s
    names = [x.split()[-1].lstrip('*') for x in sig]
    for t in ('fp32_t', 'fp64_t'):
        s += 'extern "C" const char *w_%s(long twice, unsigned long seed, %s) { return go<%s>(twice, seed, %s); }\n' % (t, ', '.join(sig), t, ', '.join(names))
    s += 'extern "C" void w_init() { starpu::init(); }\n'
    return s


def compile_sub(sub):
    if not rlib.wait(): return None
    ok = OpK(sub)
    w = '%s/s_%s_%d_%d' % (rlib.LIB, sub.op, len(sub.params), os.getpid())
    src = gen_source(sub, ok)
    open(w + '.cc', 'w').write(src)
    r = subprocess.run(['g++', '-O1', '-w', '-fPIC', '-shared', '-o', w + '.so', w + '.cc', '-I' + rlib.HERE + '/stub'] + cxx.flags() + ['-L' + rlib.LIB, '-lnn', '-Wl,-rpath,' + rlib.LIB, '-lopenblas'],
                       capture_output=True, text=True)
    if r.returncode: raise cxx.FrontEndError(r.stderr[:1500])
    return ok, w + '.so'


class Gen(object):
    """K as the generator of kreplay wants it (transposition flags as sizes)"""
    def __init__(self, ok):
        self.gen = None
        self.__dict__.update(ok.__dict__)
        self.params = [P('I', p.name, p.length, p.sort, 0) if p.kind in 'QU' else p for p in ok.params]


def gen(ok, T_, rng, np_rng, twice):
    G = Gen(ok)
    for _ in range(20):
        sizes = {p.name: rng.randrange(2) for p in ok.params if p.kind == 'Q'}
        if not sizes: sizes = None
        c = gen_plain(G, ok, T_, rng, np_rng, sizes)
        if c is not None: break
    c['redux'] = rng.randrange(2)
    c['second'] = {p.name: (c['sc'][p.name] if rng.random() < .3 else kreplay.gen_scalar(ok, p, rng, [])) for p in ok.params if p.kind == 'S'}
    return c


def gen_plain(G, ok, T_, rng, np_rng, sizes):
    old = list(G.noread)
    G.noread = []                       # write-only buffers are overwritten by the runtime before the task
    c = None
    for _ in range(5):
        c = kreplay.gen_case(G, [CT[T_]], rng, np_rng, ([], [1., 0., -1.]), sizes)
        if c is None: continue
        break
    if c is None: return None
    for k, v in ok.fixed.items(): c['sc'][k] = v
    return c


def run(lib, ok, T_, cases, twice):
    """[(index, result text | None, {buffer: array})] executed in a child"""
    out = []; start = 0
    while start < len(cases):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd); signal.alarm(60)
                so = ctypes.CDLL(lib)
                so.w_init()
                f = os.fdopen(wr, 'wb')
                fnc = getattr(so, 'w_' + CT[T_]); fnc.restype = ctypes.c_char_p
                real = [p for p in ok.params if p.kind != 'G']
                for i in range(start, len(cases)):
                    c = cases[i]
                    f.write(b'S'); f.flush()
                    args = [ctypes.c_long(twice), ctypes.c_ulong(c['seed'])]; bufs = {}
                    for p in real:
                        if p.kind == 'S': args.append(ctypes.c_double(c['sc'][p.name]))
                        elif p.kind in 'CW':
                            b = kreplay.GuardBuf(c['arrays'][p.name], i % 2)
                            bufs[p.name] = b; args.append(ctypes.c_void_p(b.addr))
                        else: args.append(ctypes.c_long(c['sc'][p.name]))
                    for p in real:
                        if p.kind in 'CW': args.append(ctypes.c_long(c['arrays'][p.name].nbytes))
                    for p in real:
                        if p.kind == 'S': args.append(ctypes.c_double(c['second'][p.name]))
                    args.append(ctypes.c_long(c['redux']))
                    m = fnc(*args) or b''
                    f.write(b'D' + len(m).to_bytes(4, 'little') + m)
                    for p in real:
                        if p.kind in 'CW': f.write(bufs[p.name].get().tobytes())
                    f.flush()
                f.close()
            finally: os._exit(0)
        os.close(wr)
        with os.fdopen(rd, 'rb') as f: data = f.read()
        _, status = os.waitpid(pid, 0)
        pos = 0; i = start; crashed = False
        while i < len(cases):
            if data[pos:pos + 2] != b'SD': crashed = True; break
            pos += 2
            n = int.from_bytes(data[pos:pos + 4], 'little'); m = data[pos + 4:pos + 4 + n].decode(errors='replace'); pos += 4 + n
            got = {}
            for p in ok.params:
                if p.kind in 'CW':
                    a = cases[i]['arrays'][p.name]
                    if pos + a.nbytes > len(data): crashed = True; break
                    got[p.name] = np.frombuffer(data[pos:pos + a.nbytes], a.dtype); pos += a.nbytes
            if crashed: break
            out.append((i, m or None, got)); i += 1
        if i >= len(cases): break
        out.append((i, 'process ended by signal %d' % (status & 127), None)); start = i + 1
        if len([1 for r in out if r[2] is None]) > 2: break
    return out


def same(x, y, T_):
    tol = 1e-9 if T_ == 'double' else 3e-4
    for k in x:
        a, b = x[k], y[k]
        if a.dtype.kind == 'f':
            with np.errstate(all='ignore'):
                m = max([1.] + [float(np.abs(v[np.isfinite(v)]).max()) for v in (a, b) if np.isfinite(v).any()])
                bad = ~((np.abs(a.astype(float) - b.astype(float)) <= tol * m) | ((a != a) & (b != b)) | (a == b))
            if bad.any(): return '%s[%d] is %r in one order of the tasks and %r in another' % (k, int(np.argmax(bad)), float(b[np.argmax(bad)]), float(a[np.argmax(bad)]))
        elif a.tobytes() != b.tobytes(): return '%s differs' % k
    return None


def replay(sub, comp, seed, ncases, aspect, budget=40.):
    """(executions, violation | None, samples)"""
    ok, lib = comp
    t0 = time.time(); n = 0; samples = []
    for T_ in ('float', 'double'):
        rng = random.Random(seed * 71 + len(sub.op) + (T_ == 'float')); np_rng = np.random.default_rng(seed * 13 + len(sub.op))
        for part in range((ncases + 39) // 40):
            cases = []
            for _ in range(40):
                c = gen(ok, T_, rng, np_rng, 0)
                c['seed'] = rng.randrange(1 << 30); cases.append(c)
            for i, msg, got in run(lib, ok, T_, cases, 0):
                n += 1
                if msg is None: msg = kreplay.check_case(Gen(ok), [CT[T_]], cases[i], got, rng)
                if msg: return n, viol(sub, T_, cases[i], msg), samples
                if len(samples) < 2: samples.append('%s<%s> %s' % (sub.op, T_, cases[i]['sc']))
            if aspect == 'C13':
                one = run(lib, ok, T_, cases, 1)
                for rep in range(3):
                    for c in cases: c['seed'] += 17
                    two = run(lib, ok, T_, cases, 2)
                    for (i, m1, g1), (j, m2, g2) in zip(one, two):
                        n += 1
                        if i != j or g1 is None or g2 is None: continue
                        if m1 is None and m2: return n, viol(sub, T_, cases[j], m2), samples
                        d = same(g1, g2, T_) if not m1 else None
                        if d: return n, viol(sub, T_, cases[i], d + ' (two submissions, second with %s)' % cases[i]['second']), samples
            if time.time() - t0 > budget: break
    return n, None, samples


def viol(sub, T_, c, msg):
    return dict(op=sub.op, precision=T_, sc=c['sc'], second=c.get('second'), redux=c['redux'], arrays={k: v.tolist() for k, v in c['arrays'].items()}, message=msg)
