"""Replay of the contracts of the tensor / tile layer on the real compiled library (src/tensor, src/tile,
src/starpu, src/kernel) running on the stand-in of the StarPU runtime."""
import os, random, subprocess, signal
from fractions import Fraction
from .terms import *
from . import cxx, rlib, cspec, solve
from .cspec import OPS, Ctx

ETYPE = {'labels': 'Index', 'index': 'Index', 'mask': 'bool_t'}
FILL = {('softmax', 'maxsumexp'): 'm', ('softmax_inplace', 'maxsumexp'): 'm', ('maxsumexp', 'dst'): 'm', ('logsumexp', 'src'): 'm', ('normalize', 'src'): 's',
        ('sqrt', 'src'): 'p', ('sqrt_inplace', 'A'): 'p', ('pow', 'A'): 'p', ('hypot_scalar_inverse', 'dst'): 'p', ('addcdiv', 'denom'): 'p',
        ('adam_step', 'second_moment'): 'p', ('adamw_step', 'second_moment'): 'p', ('norm_slice', 'dst'): 'p', ('hypot', 'dst'): 'p', ('sumnorm', 'dst'): 'm'}
REDUX = {'sum_slice': 'a', 'sum_fiber': 'a', 'sumprod_slice': 'a', 'sumprod_fiber': 'a', 'gemm': 'a', 'gemm_ex': 'a', 'norm_slice': 'h', 'maxsumexp': 'x', 'embedding_backward': 'a'}
NOCPU = 'codelet without CPU function'      # gemm_ex and the fp16 conversions run on GPUs only
TARGS = {'gemm': 'T, T'}


def etype(name, o):
    if name == 'fp32_to_fp16': return dict(src='fp32_t', dst='fp16_t')[o]
    if name == 'fp16_to_fp32': return dict(src='fp16_t', dst='fp32_t')[o]
    return ETYPE.get(o, 'T')


def gen_source(O):
    nm = O.fn
    ops = [n for n, k in O.sig if k == 'T']
    oth = [(n, k) for n, k in O.sig if k != 'T']
    ta = '<%s>' % TARGS.get(nm, 'T')
    if nm in ('fp32_to_fp16', 'fp16_to_fp32'): ta = ''
    s = '#include "th.hh"\n'
    s += 'template<typename T> void go(std::istream &in, long id, int tile, int blocking, int valid, unsigned long seed)\n{\n'
    for o in ops: s += '  Spec s_%s = read_spec(in); char r_%s; in >> r_%s;\n' % (o, o, o)
    for n, k in oth:
        if k == 'S': s += '  double d_%s; in >> d_%s; T %s = (T)d_%s;\n' % (n, n, n, n)
        elif k in 'IN': s += '  Index %s; in >> %s;\n' % (n, n)
        elif k == 'R': s += '  int %s; in >> %s;\n' % (n, n)
        elif k == 'E': s += '  int e_%s; in >> e_%s; TransOp %s(e_%s ? TransOp::Trans : TransOp::NoTrans);\n' % (n, n, n, n)
    for o in ops: s += '  Operand<%s> %s(s_%s, tile, r_%s);\n' % (etype(nm, o), o, o, o)
    s += '  bool threw = false; std::string what, bad;\n'
    for o in ops: s += '  %s.load();\n' % o
    call = lambda m: ', '.join('*%s.%s' % (n, m) if k == 'T' else n for n, k in O.signature(m == 'til'))
    s += '  try {\n'
    if O.tile:
        s += '    if(tile) { if(blocking) tile::%s%s(%s); else tile::%s_async%s(%s); }\n' % (nm, ta, call('til'), nm, ta, call('til'))
    if O.tensor:
        s += '    if(!tile) { if(blocking) tensor::%s%s(%s); else tensor::%s_async%s(%s); }\n' % (nm, ta, call('ten'), nm, ta, call('ten'))
    s += '  } catch(const std::exception &e) { threw = true; what = e.what(); }\n'
    s += '  long sub = stub_submitted(), pend = stub_pending();\n'
    s += '  stub_drain();\n'
    for o in ops: s += '  if(bad.empty()) { bad = %s.fetch(); if(!bad.empty()) bad = "%s: " + bad; }\n' % (o, o)
    s += '  if(bad.empty() && *stub_errors()) bad = stub_errors();\n'
    s += '  if(!threw) {\n    int nf; in >> nf;\n    for(int f = 0; f < nf; ++f) {\n      std::string task; int na; in >> task >> na; std::vector<double> a(na); for(auto &x : a) in >> x;\n@REF@    }\n    stub_drain();\n'
    tol = 'sizeof(T) == 8 ? 1e-9 : 2e-4'
    for o in ops: s += '    if(bad.empty()) { bad = %s.compare(%s); if(!bad.empty()) bad = "%s: " + bad; }\n' % (o, tol, o)
    s += '  }\n'
    s += '  printf("R %ld %d %ld %ld %s\\n", id, (int)threw, sub, pend, bad.c_str()); fflush(stdout);\n}\n'
    s += '''int main()
{
  starpu::init();
  std::string line;
  while(std::getline(std::cin, line)) {
    std::istringstream in(line); long id; int tile, blocking, valid, prec; unsigned long seed;
    in >> id >> tile >> blocking >> valid >> prec >> seed;
    hr.seed(seed); stub_reset(seed);
    printf("S %ld\\n", id); fflush(stdout);
    @GO@
  }
  fflush(stdout); _exit(0);
}
'''
    return s


def ref_source(O, shapes):
    """calls of the contract tasks; argument kinds from a sample: list of (task, kinds, targs)"""
    out = ''
    for task, kinds, targs in shapes:
        args = []
        j = 0
        for k in kinds:
            if isinstance(k, tuple) and k[0] == 'H': args.append('wrap(%s.whole())' % k[1])
            elif isinstance(k, tuple) and k[0] == 'E': args.append(k[1])
            else: args.append('a[%d]' % j); j += 1
        ta = {'gemm': '<T, T>', 'nrm2': '<T>'}.get(task, '<T>' if targs == 'T' or task in ('gemm_ex',) else '')
        out += '      if(task == "%s/%s") starpu::%s::submit%s(%s);\n' % (task, len(kinds), task, ta, ', '.join(args))
    return out


def ev(t, env=None):
    """numeric value of a closed term"""
    if isinstance(t, (int, float, Fraction)): return t
    return solve.evalt(t, None)


def fval(x):
    return num(Fraction(x).limit_denominator(10 ** 9), 'R') if not isinstance(x, T) else x


class Sample(object): pass


def numctx(O, c):
    S = lambda g: num(c.S[g])
    B = lambda g: num(c.B[g])
    sc = {}
    for n, k in O.sig:
        if k == 'S': sc[n] = num(Fraction(c.scal[n]), 'R')
        elif k in 'INR': sc[n] = num(int(c.scal[n] if n in c.scal else c.iv[n]))
    return Ctx(sc, S, B, True), S, B


def fam_args(O, c):
    ctx, S, B = numctx(O, c)
    out = []
    for F in c.combo.fams:
        p = {g: num(0) for g in range(c.combo.N)}
        if F.guard is not None and ev(F.guard(ctx, p)) is False: continue
        args = F.args(ctx, p)
        out.append((F, args))
    return out


def holds(O, c, tile):
    """does the sample satisfy the relation R of its combination?"""
    combo = O.combos({o: len(c.shape[o]) for o in O.operands}, c.iv, tile)
    if combo is None or any(len(m) != len(c.shape[o]) for o, m in combo.maps.items()): return None
    S, B = {}, {}
    for o in O.operands:
        for d, g in enumerate(combo.maps[o]):
            s, b = c.shape[o][d], c.bt[o][d]
            if isinstance(g, tuple):
                if s != g[1]: return None
                if not tile and g[0] == 'c' and b != g[1]: return None
                if not tile and g[0] != 'c' and -(-s // b) != 1: return None
                continue
            if g in S:
                if S[g] != s or (not tile and B[g] != b): return None
            S[g] = s; B[g] = b
    c2 = Sample(); c2.S = S; c2.B = B; c2.scal = c.scal; c2.iv = c.iv
    ctx, _, _ = numctx(O, c2)
    ctx.tile = tile
    for x in combo.extra:
        if not truth(ev(x(ctx))): return None
    return combo, S, B


def truth(v):
    if isinstance(v, T): return v is TRUE
    return bool(v)


def gen(O, tile, rng, valid=True, maxel=600):
    nm = O.fn
    for _ in range(200):
        mr = min(4, O.maxrank + 1)
        combos = []
        rk = {o: rng.randint(0, mr) for o in O.operands}
        iv = {n: rng.randint(0, mr) for n in O.ints}
        for n, k in O.sig:
            if k == 'E': iv[n] = rng.randint(0, 1)
        # choose the rank of the operands so that they fit: search over a few candidates
        import itertools
        key = (O.name, tile)
        L = _rk.get(key)
        if L is None:
            L = []
            for r in itertools.product(range(mr + 1), repeat=len(O.operands)):
                if max(r) > mr or (len(O.operands) > 3 and max(r) > 3): continue
                rr = dict(zip(O.operands, r))
                for q in itertools.product(range(-1, mr + 1), repeat=len(O.ints)):
                    for e in itertools.product((0, 1), repeat=sum(1 for _, k in O.sig if k == 'E')):
                        v = dict(zip(O.ints, q)); v.update(zip([n for n, k in O.sig if k == 'E'], e))
                        cb = O.combos(rr, v, tile)
                        if cb is not None and all(len(m) == rr[o] for o, m in cb.maps.items()): L.append((rr, v))
            _rk[key] = L
        if not L: return None
        rk, iv = rng.choice(L)
        if max(rk.values()) == 0 and rng.random() < .7: continue
        combo = O.combos(rk, iv, tile)
        c = Sample(); c.iv = dict(iv); c.combo = combo
        c.S = {}; c.B = {}
        hi = 6 if combo.N <= 3 else 4
        for g in range(combo.N):
            s = rng.randint(1, hi); c.S[g] = s
            b = rng.choice([1, 2, s, rng.randint(1, s), rng.randint(1, s), s + 1])
            c.B[g] = b
        c.scal = {}
        for n, k in O.sig:
            if k == 'S':
                c.scal[n] = rng.choice([0., 1., -1., 2., .5, round(rng.uniform(-2, 2), 2)])
                if n in ('eps', 'lr', 'weight_decay') or n.startswith('beta_'): c.scal[n] = rng.choice([.1, .25, .5, .9])
                if n == 'exp': c.scal[n] = rng.choice([1., 2., .5])
                if n == 'weight_decay': c.scal[n] = rng.choice([0., .1])
            elif k == 'N': c.scal[n] = rng.choice([1, 1, 2, 3, 7])
            elif k == 'R': c.scal[n] = 0 if tile else rng.randint(0, 1)
        if nm == 'hypot' and c.scal['alpha'] == 0 and c.scal['beta'] == 1: continue
        c.shape = {}; c.bt = {}
        for o in O.operands:
            sh = []; bt = []
            for g in combo.maps[o]:
                if isinstance(g, tuple): sh.append(g[1]); bt.append(g[1])
                else: sh.append(c.S[g]); bt.append(c.B[g])
            c.shape[o] = sh; c.bt[o] = bt
        tot = 1
        for s in c.S.values(): tot *= s
        if tot > maxel: continue
        if valid:
            if holds(O, c, tile) is None:
                # conditions such as "dimension 0 is not cut"
                for g in range(combo.N):
                    c.B[g] = c.S[g]
                    for o in O.operands:
                        for d, gg in enumerate(combo.maps[o]):
                            if gg == g: c.bt[o][d] = c.S[g]
                    if holds(O, c, tile) is not None: break
                if holds(O, c, tile) is None: continue
            return c
        # spoil one thing
        for _ in range(6):
            what = rng.choice(['shape', 'bt', 'rank', 'int'] if O.ints else ['shape', 'bt', 'rank'])
            if what == 'int':
                n = rng.choice(O.ints); c.iv[n] = c.iv[n] + rng.choice([-3, -2, -1, 1, 2, 5])
            else:
                o = rng.choice(O.operands)
                if what == 'rank':
                    if c.shape[o] and rng.random() < .5: c.shape[o].pop(); c.bt[o].pop()
                    else: c.shape[o].append(rng.randint(1, 2)); c.bt[o].append(1)
                elif c.shape[o]:
                    d = rng.randrange(len(c.shape[o]))
                    if what == 'shape': c.shape[o][d] = max(1, c.shape[o][d] + rng.choice([-1, 1, 1, 2]))
                    else: c.bt[o][d] = max(1, c.bt[o][d] + rng.choice([-1, 1]))
                else: continue
            if holds(O, c, tile) is None: return c
            if rng.random() < .3: continue
    return None


_rk = {}


def fill_of(O, o, c):
    nm = O.fn
    if c.scal.get('beta') == 0. and o in ('dst', 'C') and nm not in ('hypot', 'add_scalar', 'add_slice3'): return 'n'
    return FILL.get((nm, o), 'u')


def par_of(O, o, c):
    if o == 'labels':
        b = c.shape.get('dst') if O.fn != 'total_sum_accum' else c.shape.get('src')
        return (b[0] if b else 1)
    if o == 'index': return c.shape['vocab'][1] if len(c.shape['vocab']) > 1 else 1
    return 3


def line_of(O, i, c, tile, blocking, valid, prec, seed):
    w = [i, int(tile), int(blocking), int(valid), prec, seed]
    for o in O.operands:
        w.append(len(c.shape[o])); w += c.shape[o]; w += c.bt[o]
        w += [fill_of(O, o, c), par_of(O, o, c)]
        rx = '0'
        if c.scal.get('redux') and o in ('dst', 'C', 'vocab') and etype(O.fn, o) == 'T': rx = REDUX.get(O.fn, '0')
        w.append(rx)
    for n, k in O.sig:
        if k == 'T': continue
        if k in 'IE': w.append(c.iv[n])
        else: w.append(c.scal[n])
    if valid:
        fa = fam_args(O, c)
        w.append(len(fa))
        for F, args in fa:
            nums = [repr(float(ev(a[2] if isinstance(a, tuple) else a))) for a in args if not isinstance(a, tuple) or a[0] == 'alt']
            w += ['%s/%d' % (F.task, len(args)), len(nums)] + nums
    return ' '.join(str(x) for x in w)


def compile_op(O, rng=None):
    """harness binary of an operation (None: the library does not build)"""
    if not rlib.wait(): return None
    rng = random.Random(5)
    shapes = {}
    for tile in ([False] if not O.tile else [True] if not O.tensor else [False, True]):
        for _ in range(6):
            c = gen(O, tile, rng)
            if c is None: continue
            for F, args in fam_args(O, c): shapes[(F.task, len(args))] = (F.task, args, F.targs)
    go = 'go<fp32_t>(in, id, tile, blocking, valid, seed);'
    if O.fn != 'gemm_ex': go = 'if(prec == 64) go<fp64_t>(in, id, tile, blocking, valid, seed); else ' + go
    src = gen_source(O).replace('@REF@', ref_source(O, shapes.values())).replace('@GO@', go)
    d = rlib.LIB
    f = '%s/h_%s_%d' % (d, O.key, os.getpid())
    open(f + '.cc', 'w').write(src)
    fl = cxx.flags()
    p = subprocess.run(['g++'] + rlib.CXXF + fl + ['-I' + rlib.HERE + '/stub', f + '.cc', '-o', f, '-L' + d, '-lnn', '-Wl,-rpath,' + d, '-lopenblas'], capture_output=True, text=True)
    if p.returncode: raise cxx.FrontEndError('harness of %s: %s' % (O.name, p.stderr[-1500:]))
    return f


def run_lines(exe, lines, limit=60):
    """results by case id; a crash is reported for the case it happened in, the rest is run again"""
    res = {}
    todo = list(lines)
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    while todo:
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        try: out, _ = p.communicate('\n'.join(l for _, l in todo) + '\n', timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill(); out, _ = p.communicate(); hang = True
        else: hang = False
        started = None
        geo = None
        for l in out.splitlines():
            w = l.split(' ', 5)
            if w[0] == 'S': started = int(w[1])
            elif w[0] == 'R': res[int(w[1])] = (int(w[2]), int(w[3]), int(w[4]), w[5] if len(w) > 5 else ''); started = None
            elif w[0] == 'GEOMETRY': geo = l
        if started is not None:
            res[started] = ('crash', geo or ('time limit' if hang else 'signal %s' % (-p.returncode if p.returncode < 0 else p.returncode)), 0, '')
            k = [i for i, (j, _) in enumerate(todo) if j == started][0]
            todo = todo[k + 1:]
        else: break
        if sum(1 for r in res.values() if r[0] == 'crash') > 5: break
    return res


def describe(O, c, tile, blocking, prec):
    return '%s::%s%s<fp%d> %s' % ('tile' if tile else 'tensor', O.fn, '' if blocking else '_async', prec,
        ' '.join(['%s:shape=%s%s' % (o, c.shape[o], '' if tile else ',basetile=%s' % c.bt[o]) for o in O.operands] + ['%s=%s' % (k, v) for k, v in list(c.iv.items()) + list(c.scal.items())]))


def replay(O, exe, seed, n, aspect, levels=None):
    """aspect: 'c14' (acceptance), 'result' (values), 'wait' (blocking forms).  Returns (runs, violation|None, samples)"""
    rng = random.Random(seed)
    lines = []; cs = {}
    lv = levels or ([False] if not O.tile else [True] if not O.tensor else [False, True])
    for i in range(n):
        tile = lv[i % len(lv)]
        valid = True if aspect != 'c14' else rng.random() < .4
        c = gen(O, tile, rng, valid)
        if c is None: continue
        blocking = aspect == 'wait' or (aspect == 'result' and rng.random() < .3)
        prec = rng.choice([64, 64, 32])
        cs[i] = (c, tile, blocking, valid, prec)
        lines.append((i, line_of(O, i, c, tile, blocking, valid, prec, rng.randrange(1 << 30))))
    res = run_lines(exe, lines)
    samples = []
    for i, (c, tile, blocking, valid, prec) in cs.items():
        r = res.get(i)
        if r is None: continue
        d = describe(O, c, tile, blocking, prec)
        msg = None
        if r[0] == 'crash': msg = 'crash (%s)' % r[1]
        elif aspect == 'c14':
            if valid and r[0]: msg = 'compatible operands are rejected'
            elif not valid and not r[0]: msg = 'incompatible operands are accepted (%d tasks submitted)' % r[1]
            elif r[0] and r[1]: msg = '%d tasks were submitted before the operands were rejected' % r[1]
        elif aspect == 'result':
            if r[0]: msg = None       # acceptance is the subject of C14
            elif r[3] and not r[3].startswith(NOCPU): msg = r[3]
        elif aspect == 'wait':
            if not r[0] and r[2]: msg = 'returns with %d submitted tasks not completed' % r[2]
            elif not r[0] and r[3] and not r[3].startswith(NOCPU): msg = r[3]
        if len(samples) < 2: samples.append(d[:200] + ' -> ' + str(r)[:80])
        if msg: return len(res), dict(message=msg, input=d, line=dict(lines)[i]), samples
    return len(res), None, samples
