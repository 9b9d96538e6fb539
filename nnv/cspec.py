"""Contracts of the tensor-level and tile-level operations.

An operation has global dimensions 0..N-1 with extent S(g), base tile extent B(g) and grid extent
G(g) = ceil(S(g)/B(g)).  Every operand owns some of them (map: its dimension -> global dimension, or a
fixed extent).  The contract of the operation:
  requires (else: throws, nothing submitted)   R = ranks fit, extents and base tile extents of shared
                                               dimensions agree, fixed extents hold, extra conditions
  ensures   the submitted tasks are exactly the families listed in `fams`: one task per point of the
            grid box of the family, with exactly these arguments, in an order respecting `order`."""
from .terms import *
from .dims import ceildiv, text, l2i, lin
import itertools

Z = num(0); ONE = num(1)


class Fam(object):
    """task family: task name, global dims it ranges over, guard(p), args(p) ; handles are ('H', operand)"""
    def __init__(self, task, dims, args, targs='T', guard=None, opt=False):
        self.task = task; self.dims = tuple(dims); self.args = args; self.targs = targs; self.guard = guard


class Combo(object):
    def __init__(self, N, maps, extra=None, fams=None, order=(), alts=(), basefree=(), subs=None, facts=None):
        self.N = N; self.maps = maps
        self.extra = extra or []          # extra conditions of R: functions of the context -> bool term
        self.fams = fams; self.order = order; self.alts = alts
        self.basefree = basefree          # operands whose base tiles are not constrained by sharing
        self.label = ''
        self.subs = subs                  # rewriting that follows from R: context -> {term: term}
        self.facts = facts                # facts about the symbols introduced by subs


class COp(object):
    def __init__(self, name, sig, combos, tile=True, prop='C15', maxrank=3, tensor=True, fn=None, ranks=None, tilecombos=None):
        self.name = name; self.sig = sig; self.combos = combos; self.prop = prop; self.maxrank = maxrank
        self.tile = tile; self.tensor = tensor; self.fn = fn or name
        self.operands = [n for n, k in sig if k == 'T']
        self.ints = [n for n, k in sig if k == 'I']
        self.vecs = [n for n, k in sig if k == 'V']       # vectors of indices; their lengths are enumerated like the ranks
        self.ranks = ranks
        self.tile_redux = False
        self.move = None                  # executions: modes of the harness stub/move.cc
        self.other = {}                   # parameters that are neither tensors nor scalars
        # documented shortcut: nothing to do (tasks would leave the output unchanged)
        self.noop = None
        names = [n for n, k in sig]
        if name in ('add', 'add_scalar', 'add_slice', 'add_fiber'):
            self.noop = lambda c: And(eq(c.alpha, num(0, 'R')), eq(c.beta, num(1, 'R')))


    def signature(self, tile):
        return [(n, k) for n, k in self.sig if not (tile and k == 'R' and not self.tile_redux)]


class Ops(dict):
    def __setitem__(self, k, v):
        v.key = k
        dict.__setitem__(self, k, v)


OPS = Ops()


def op(name, sig, **kw):
    s = [tuple(x.split(':')) for x in sig.split()]
    def d(f):
        k = kw.pop('key', name)
        OPS[k] = COp(name, s, f, **kw)
        return f
    return d


# ------------------------------------------------------------------ helpers used in contracts
class Ctx(object):
    """evaluation context of a family: scalars, extents of the tile p"""
    def __init__(self, scal, S, B, tile):
        self.scal = scal; self.S = S; self.B = B; self.tile = tile
    def __getattr__(self, k):
        if k == 'redux' and k not in self.scal: return num(0)      # tile-level forms have no such parameter
        try: return self.scal[k]
        except KeyError: raise AttributeError(k)
    def E(self, g, p): return self.S(g) if self.tile else text(self.S(g), self.B(g), p[g])
    def prod(self, gs, p):
        r = ONE
        for g in gs: r = r * self.E(g, p)
        return r


def H(o): return ('H', o)


def REDUX(c):
    """the reduction mode is a request: a task may ignore it (the mode itself is the subject of C13)"""
    return ('alt', c.redux, Z)


def one_if(c, p, red, v):
    """v for the first contribution (all reduced coordinates zero), 1 afterwards"""
    if c.tile: return v
    return ite(And(*[eq(p[g], Z) for g in red]), v, num(1, 'R'))


def ident(n): return tuple(range(n))


# ------------------------------------------------------------------ elementwise
def elementwise(operands, args, task, **kw):
    def combos(rk, iv, tile):
        n = rk[operands[0]]
        if any(rk[o] != n for o in operands): return None
        full = lambda c, p: args(c, c.prod(range(n), p))
        return Combo(n, {o: ident(n) for o in operands}, fams=[Fam(task, range(n), full, **kw)])
    return combos


def ew(name, sig, args, task=None, prop='C15', **kw):
    s = [tuple(x.split(':')) for x in sig.split()]
    ops_ = [n for n, k in s if k == 'T']
    k2 = {k: v for k, v in kw.items() if k in ('targs',)}
    k3 = {k: v for k, v in kw.items() if k in ('tile', 'tensor')}
    OPS[name] = COp(name, s, elementwise(ops_, args, task or name, **k2), prop=prop, **k3)


ew('add', 'alpha:S src:T beta:S dst:T', lambda c, n: [n, c.alpha, H('src'), c.beta, H('dst')])
ew('hypot', 'alpha:S src:T beta:S dst:T', lambda c, n: [n, c.alpha, H('src'), c.beta, H('dst')])
ew('add_scalar', 'alpha:S beta:S dst:T', lambda c, n: [n, c.alpha, c.beta, H('dst')])
ew('fill', 'val:S A:T', lambda c, n: [n, c.val, H('A')])
ew('scal', 'alpha:S src:T dst:T', lambda c, n: [n, c.alpha, H('src'), H('dst')])
ew('scal_inplace', 'alpha:S data:T', lambda c, n: [c.alpha, n, H('data')])
ew('prod', 'src:T dst:T', lambda c, n: [n, H('src'), H('dst')])
ew('maximum', 'src:T dst:T', lambda c, n: [n, H('src'), H('dst')])
ew('pow', 'alpha:S exp:S A:T', lambda c, n: [n, c.alpha, c.exp, H('A')])
ew('sqrt', 'src:T dst:T', lambda c, n: [n, H('src'), H('dst')])
ew('relu_forward', 'src:T dst:T', lambda c, n: [n, H('src'), H('dst')])
ew('gelutanh', 'src:T dst:T', lambda c, n: [n, H('src'), H('dst')])
for nm in ('sqrt_inplace', 'relu', 'drelu', 'gelu', 'dgelu', 'gelutanh_inplace', 'dgelutanh'):
    ew(nm, 'A:T', lambda c, n: [n, H('A')])
for nm in ('gelu_backward', 'gelutanh_backward', 'relu_backward'):
    ew(nm, 'x:T dy:T dx:T', lambda c, n: [n, H('x'), H('dy'), H('dx')])
ew('fp32_to_fp16', 'src:T dst:T', lambda c, n: [n, H('src'), H('dst')], targs=None)
ew('fp16_to_fp32', 'src:T dst:T', lambda c, n: [n, H('src'), H('dst')], targs=None)
ew('clear', 'dst:T', lambda c, n: [H('dst')], targs=None)
ew('copy', 'src:T dst:T', lambda c, n: [H('src'), H('dst')], targs=None, prop='C18')
ew('hypot_scalar_inverse', 'eps:S alpha:S dst:T', lambda c, n: [n, c.eps, c.alpha, H('dst')], tile=False)
ew('addcdiv', 'val:S eps:S nom:T denom:T src:T', lambda c, n: [c.val, c.eps, n, H('nom'), H('denom'), H('src')])
_AD = 'num_iter:N beta_1:S beta_2:S eps:S lr:S weight_decay:S grad:T first_moment:T second_moment:T p:T'
for nm in ('adam_step', 'adamw_step'):
    ew(nm, _AD, lambda c, n: [c.num_iter, n, c.beta_1, c.beta_2, c.eps, c.lr, c.weight_decay, H('grad'), H('first_moment'), H('second_moment'), H('p')])


@op('axpy', 'alpha:S src:T dst:T', key='axpy')
def _(rk, iv, tile):
    n = rk['src']
    if rk['dst'] != n: return None
    return Combo(n, dict(src=ident(n), dst=ident(n)), fams=[Fam('axpy', range(n), lambda c, p: [c.alpha, c.prod(range(n), p), H('src'), H('dst')])])


@op('axpy', 'alpha:T src:T dst:T', key='axpy_tensor')
def _(rk, iv, tile):
    n = rk['src']
    if rk['dst'] != n or rk['alpha'] != 0: return None
    return Combo(n, dict(src=ident(n), dst=ident(n), alpha=()), fams=[Fam('axpy', range(n), lambda c, p: [H('alpha'), c.prod(range(n), p), H('src'), H('dst')])])


@op('mask_scalar', 'mask:T val:S A:T batch_ndim:I', tile=False)
def _(rk, iv, tile):
    n = rk['A']; b = iv['batch_ndim']
    if b is None or b < 0 or b > n or rk['mask'] != n - b: return None
    return Combo(n, dict(mask=ident(n - b), A=ident(n)),
                 fams=[Fam('mask_scalar', range(n), lambda c, p: [c.prod(range(n - b), p), c.prod(range(n - b, n), p), H('mask'), c.val, H('A')])])


@op('mask_scalar', 'mask:T val:S A:T', tensor=False, key='mask_scalar_tile')
def _(rk, iv, tile):
    n = rk['A']
    if n < 1 or rk['mask'] != n - 1: return None
    return Combo(n, dict(mask=ident(n - 1), A=ident(n)),
                 fams=[Fam('mask_scalar', range(n), lambda c, p: [c.prod(range(n - 1), p), c.E(n - 1, p), H('mask'), c.val, H('A')])])


@op('logsumexp', 'src:T dst:T')
def _(rk, iv, tile):
    n = rk['dst']
    if rk['src'] != n + 1: return None
    return Combo(n, dict(src=(('c', 2),) + ident(n), dst=ident(n)),
                 fams=[Fam('logsumexp', range(n), lambda c, p: [c.prod(range(n), p), H('src'), H('dst')])])


def _whole0(c):
    """dimension 0 is not cut"""
    return TRUE if c.tile else eq(c.S(0), c.B(0))


@op('subtract_indexed_outputs', 'val:S labels:T dst:T')
def _(rk, iv, tile):
    n = rk['dst']
    if rk['labels'] != n - 1: return None
    return Combo(n, dict(dst=ident(n), labels=tuple(range(1, n))), extra=[_whole0],
                 fams=[Fam('subtract_indexed_outputs', range(1, n), lambda c, p: [c.S(0), c.prod(range(1, n), p), c.val, H('labels'), H('dst')])])


@op('total_sum_accum', 'alpha:S logsumexp:T src:T labels:T val:T', maxrank=3)
def _(rk, iv, tile):
    n = rk['src']
    if rk['labels'] != n - 1 or rk['logsumexp'] != n - 1 or rk['val'] != 0: return None
    m = tuple(range(1, n))
    return Combo(n, dict(src=ident(n), logsumexp=m, labels=m, val=()), extra=[_whole0],
                 fams=[Fam('total_sum_accum', m, lambda c, p: [c.alpha, c.S(0), c.prod(m, p), H('logsumexp'), H('src'), H('labels'), H('val')])])


# ------------------------------------------------------------------ slices
def mnk(c, p, n, a): return [c.prod(range(a), p), c.prod(range(a + 1, n), p), c.E(a, p)]


def but(n, a): return tuple(g for g in range(n) if g != a)


def slice_op(name, sig, big, small, args, red=True, prop='C16', fams=None, **kw):
    """big operands own all dims, small ones all but the axis (a leading 2 when marked +)"""
    def combos(rk, iv, tile):
        n = rk[big[0]]; a = iv['axis']
        if n == 0 or a is None or a < 0 or a >= n: return None
        if any(rk[o] != n for o in big): return None
        maps = {o: ident(n) for o in big}
        for o in small:
            pre = o.endswith('+'); o = o.rstrip('+')
            if rk[o] != n - (0 if pre else 1): return None
            maps[o] = ((('c', 2),) if pre else ()) + but(n, a)
        f, order, extra, mm = (fams or _slicefam)(n, a, args, name, tile)
        maps.update(mm)
        return Combo(n, maps, fams=f, order=order, extra=extra)
    def _slicefam(n, a, args, name, tile):
        f = [Fam(name, range(n), lambda c, p: args(c, p, n, a))]
        order = [(0, lambda p: eq(p[a], Z), 0, lambda p: Not(eq(p[a], Z)), but(n, a))] if red else []
        return f, order, [], {}
    OPS[name] = COp(name, [tuple(x.split(':')) for x in sig.split()], combos, prop=prop, **kw)


slice_op('add_slice', 'alpha:S src:T beta:S dst:T axis:I', ['dst'], ['src'],
         lambda c, p, n, a: mnk(c, p, n, a) + [c.alpha, H('src'), c.beta, H('dst')], red=False)
slice_op('add_slice3', 'alpha:S src1:T beta:S src2:T dst:T axis:I', ['dst', 'src2'], ['src1'],
         lambda c, p, n, a: mnk(c, p, n, a) + [c.alpha, H('src1'), c.beta, H('src2'), H('dst')], red=False)
slice_op('prod_slice', 'src:T alpha:S dst:T axis:I', ['dst'], ['src'],
         lambda c, p, n, a: mnk(c, p, n, a) + [c.alpha, H('src'), H('dst')], red=False)
slice_op('sum_slice', 'alpha:S src:T beta:S dst:T axis:I redux:R', ['src'], ['dst'],
         lambda c, p, n, a: mnk(c, p, n, a) + [c.alpha, H('src'), one_if(c, p, [a], c.beta), H('dst'), REDUX(c)])
slice_op('norm_slice', 'alpha:S src:T beta:S dst:T axis:I redux:R', ['src'], ['dst'],
         lambda c, p, n, a: mnk(c, p, n, a) + [c.alpha, H('src'), one_if(c, p, [a], c.beta), H('dst'), REDUX(c)])
slice_op('sumprod_slice', 'alpha:S src1:T src2:T beta:S dst:T axis:I redux:R', ['src1', 'src2'], ['dst'],
         lambda c, p, n, a: mnk(c, p, n, a) + [c.alpha, H('src1'), H('src2'), one_if(c, p, [a], c.beta), H('dst'), REDUX(c)])
slice_op('maxsumexp', 'src:T dst:T axis:I redux:R', ['src'], ['dst+'],
         lambda c, p, n, a: mnk(c, p, n, a) + [H('src'), H('dst'), REDUX(c)], red=False)
slice_op('softmax', 'maxsumexp:T src:T alpha:S dst:T axis:I', ['dst', 'src'], ['maxsumexp+'],
         lambda c, p, n, a: mnk(c, p, n, a) + [H('maxsumexp'), H('src'), c.alpha, H('dst')], red=False)
slice_op('softmax_inplace', 'maxsumexp:T alpha:S dst:T axis:I', ['dst'], ['maxsumexp+'],
         lambda c, p, n, a: mnk(c, p, n, a) + [H('maxsumexp'), c.alpha, H('dst')], red=False)


def _sumnorm(n, a, args, name, tile):
    f = [Fam('sumnorm', range(n), lambda c, p: mnk(c, p, n, a) + [H('src'), H('dst')])]
    if tile: return f, [], [], {}
    f = [Fam('clear', but(n, a), lambda c, p: [H('dst')], targs=None)] + f
    return f, [(0, lambda p: TRUE, 1, lambda p: TRUE, but(n, a))], [], {}


slice_op('sumnorm', 'src:T dst:T axis:I', ['src'], ['dst+'], None, fams=_sumnorm)


def _normalize(n, a, args, name, tile):
    f = [Fam('normalize', range(n), lambda c, p: mnk(c, p, n, a) + [c.l, c.eps, H('gamma_beta'), H('src'), H('dst')])]
    return f, [], [lambda c: ge(c.l, ONE), lambda c: gt(c.eps, num(0, 'R'))], {'gamma_beta': (('c1', 2),)}


slice_op('normalize', 'gamma_beta:T src:T dst:T l:N eps:S axis:I', ['dst'], ['src+'], None, fams=_normalize)


# ------------------------------------------------------------------ fibers
def mnkb(c, p, n, a, b): return [c.prod(range(a), p), c.prod(range(a + 1, n - b), p), c.E(a, p), c.prod(range(n - b, n), p)]


def fiber_op(name, sig, big, small, args, red=False, batch=True, prop='C16', **kw):
    def combos(rk, iv, tile):
        n = rk[big[0]]; a = iv['axis']; b = iv.get('batch_ndim', 0)
        if a is None or b is None or b < 0 or a < 0 or n == 0 or a >= n - b: return None
        if any(rk[o] != n for o in big) or any(rk[o] != b + 1 for o in small): return None
        sm = (a,) + tuple(range(n - b, n))
        maps = {o: ident(n) for o in big}
        for o in small: maps[o] = sm
        rd = [g for g in range(n) if g not in sm]
        f = [Fam(name, range(n), lambda c, p: args(c, p, n, a, b, rd))]
        order = []
        if red: order = [(0, lambda p: And(*[eq(p[g], Z) for g in rd]), 0, lambda p: Not(And(*[eq(p[g], Z) for g in rd])), sm)]
        return Combo(n, maps, fams=f, order=order)
    OPS[name] = COp(name, [tuple(x.split(':')) for x in sig.split()], combos, prop=prop, **kw)


fiber_op('add_fiber', 'alpha:S src:T beta:S dst:T axis:I batch_ndim:I', ['dst'], ['src'],
         lambda c, p, n, a, b, rd: mnkb(c, p, n, a, b) + [c.alpha, H('src'), c.beta, H('dst')])
fiber_op('sum_fiber', 'alpha:S src:T beta:S dst:T axis:I batch_ndim:I redux:R', ['src'], ['dst'],
         lambda c, p, n, a, b, rd: mnkb(c, p, n, a, b) + [c.alpha, H('src'), one_if(c, p, rd, c.beta), H('dst'), REDUX(c)], red=True)
fiber_op('prod_fiber', 'src:T alpha:S dst:T axis:I', ['dst'], ['src'],
         lambda c, p, n, a, b, rd: mnk(c, p, n, a) + [c.alpha, H('src'), H('dst')])
fiber_op('prod_fiber3', 'src1:T alpha:S src2:T dst:T axis:I', ['dst', 'src2'], ['src1'],
         lambda c, p, n, a, b, rd: mnk(c, p, n, a) + [c.alpha, H('src1'), H('src2'), H('dst')])
fiber_op('sumprod_fiber', 'alpha:S src1:T src2:T beta:S dst:T axis:I redux:R', ['src1', 'src2'], ['dst'],
         lambda c, p, n, a, b, rd: mnk(c, p, n, a) + [c.alpha, H('src1'), H('src2'), one_if(c, p, rd, c.beta), H('dst'), REDUX(c)], red=True)


# ------------------------------------------------------------------ matrix multiplication
def gemm_op(name, maxrank=3):
    def combos(rk, iv, tile):
        nd, nb = iv['ndim'], iv['batch_ndim']
        ra, rb, rc = rk['A'], rk['B'], rk['C']
        if nd is None or nb is None or nd < (1 if tile else 0) or nb < 0 or ra < nd + nb or rb < nd + nb or ra + rb != rc + 2 * nd + nb: return None
        tA, tB = iv['transA'], iv['transB']
        qm = ra - nd - nb; qn = rb - nd - nb
        gm = tuple(range(qm)); gn = tuple(range(qm, qm + qn)); gb = tuple(range(qm + qn, qm + qn + nb)); gk = tuple(range(rc, rc + nd))
        N = rc + nd
        maps = dict(C=gm + gn + gb, A=(gk + gm if tA else gm + gk) + gb, B=(gn + gk if tB else gk + gn) + gb)
        f = [Fam(name, range(N), lambda c, p: [('E', 'transA'), ('E', 'transB'), c.prod(gm, p), c.prod(gn, p), c.prod(gk, p), c.prod(gb, p), c.alpha, H('A'), H('B'),
                                                one_if(c, p, gk, c.beta), H('C')] + ([REDUX(c)] if name == 'gemm' or True else []), targs=None)]
        order = [(0, lambda p: And(*[eq(p[g], Z) for g in gk]), 0, lambda p: Not(And(*[eq(p[g], Z) for g in gk])), gm + gn + gb)]
        return Combo(N, maps, fams=f, order=order)
    OPS[name] = COp(name, [tuple(x.split(':')) for x in 'alpha:S transA:E A:T transB:E B:T beta:S C:T ndim:I batch_ndim:I redux:R'.split()],
                    combos, prop='C17', maxrank=maxrank)


gemm_op('gemm'); gemm_op('gemm_ex')


# ------------------------------------------------------------------ transpose
@op('transpose', 'alpha:S src:T dst:T ndim:I', prop='C18', tile=False)
def _(rk, iv, tile):
    n = rk['src']; q = iv['ndim']
    if q is None or q <= 0 or q >= n or rk['dst'] != n: return None
    return Combo(n, dict(src=ident(n), dst=tuple(range(q, n)) + tuple(range(q))),
                 fams=[Fam('transpose', range(n), lambda c, p: [c.prod(range(q), p), c.prod(range(q, n), p), c.alpha, H('src'), H('dst')])])


# ------------------------------------------------------------------ norm of a whole tensor, embedding
@op('nrm2', 'alpha:S src:T beta:S dst:T tmp:T', prop='C20')
def _(rk, iv, tile):
    n = rk['src']
    if rk['dst'] != 0 or rk['tmp'] != (0 if tile else n): return None
    zero = num(0, 'R'); one = num(1, 'R')
    nrm = lambda to: Fam('nrm2', range(n), lambda c, p: [c.prod(range(n), p), H('src'), H(to)])
    f = [nrm('tmp'), Fam('hypot', range(n), lambda c, p: [ONE, c.alpha, H('tmp'), one_if(c, p, range(n), c.beta), H('dst')])]
    always = lambda p: TRUE
    order = [(0, always, 1, always, tuple(range(n))),
             (1, lambda p: And(*[eq(p[g], Z) for g in range(n)]), 1, lambda p: Not(And(*[eq(p[g], Z) for g in range(n)])), ())]
    alts = []
    if tile:
        scal = Fam('scal_inplace', range(n), lambda c, p: [fn("fabs", c.alpha), ONE, H('dst')])
        alts = [(lambda c: eq(c.beta, zero), [nrm('dst'), scal], [(0, always, 1, always, ())]),
                (lambda c: And(eq(c.beta, zero), Or(eq(c.alpha, one), eq(c.alpha, num(-1, 'R')))), [nrm('dst')], []),
                (lambda c: And(eq(c.beta, zero), eq(c.alpha, zero)), [Fam('clear', range(n), lambda c, p: [H('dst')], targs=None)], [])]
    return Combo(n, dict(src=ident(n), dst=(), tmp=() if tile else tuple(('g', g) for g in range(n))), fams=f, order=order, alts=alts)


def embedding_op(name, sig, task_args, clear):
    """the embedding dimension a of the output is cut into tiles, each of which is a whole number r of vocabulary tiles;
    dimension n is the vocabulary tile, dimension n+1 the vocabulary entry (one tile)"""
    RT = sel('tiles.ratio', num(0), sort='I')
    def combos(rk, iv, tile):
        n = rk['embed']; a = iv['axis']
        if a is None or a < 0 or a >= n or rk['index'] != n - 1 or rk['vocab'] != 2: return None
        rest = but(n, a)
        extra = [lambda c: eq(c.S(a), c.S(n)), lambda c: eq(c.B(n + 1), c.S(n + 1)), lambda c: eq(imod(c.B(a), c.B(n)), Z)]
        subs = lambda c: {c.S(n): c.S(a), c.B(n + 1): c.S(n + 1), c.B(a): RT * c.B(n)}
        facts = lambda c: [ge(RT, ONE)]
        inside = lambda c, p: And(le(p[a] * RT, p[n]), lt(p[n], (p[a] + 1) * RT))
        args = lambda c, p: [c.prod(range(a), p), c.prod(range(a + 1, n), p), c.E(a, p), (p[n] - p[a] * RT) * c.B(n), c.E(n, p)] + task_args(c)
        f = [Fam(name, range(n + 1), args, guard=inside)]
        order = []
        if clear:
            f = f + [Fam('clear', range(n), lambda c, p: [H('embed')], targs=None)]
            order = [(1, lambda p: TRUE, 0, lambda p: TRUE, tuple(range(n)))]
        return Combo(n + 2, dict(embed=ident(n), index=rest, vocab=(n, n + 1)), extra=extra, subs=subs, facts=facts, fams=f, order=order)
    OPS[name] = COp(name, [tuple(x.split(':')) for x in sig.split()], combos, prop='C20', tile=False, maxrank=3)


embedding_op('embedding', 'index:T vocab:T embed:T axis:I', lambda c: [H('index'), H('vocab'), H('embed')], True)
embedding_op('embedding_backward', 'index:T embed:T vocab:T axis:I redux:R', lambda c: [H('index'), H('embed'), H('vocab'), REDUX(c)], False)


# ------------------------------------------------------------------ data movement, random fill
def rowstride(c, gs, p):
    """strides of the tile p of an operand with the dimensions gs"""
    return [c.prod(gs[:d], p) for d in range(len(gs))]


def wholestride(c, gs):
    """strides of an operand that is a single tile"""
    out = []; r = ONE
    for g in gs: out.append(r); r = r * c.S(g)
    return out


def mode(nm): return sym('enum:STARPU_' + nm)


def move_op(name, tiled, single):
    """elements move between a tensor of one tile and a tensor of many"""
    def combos(rk, iv, tile):
        n = rk['src']
        if rk['dst'] != n: return None
        gs = ident(n)
        start = lambda c, p: [p[g] * c.B(g) for g in gs]
        zero = [Z] * n
        def args(c, p):
            a = ([zero, rowstride(c, gs, p), start(c, p), wholestride(c, gs)] if tiled == 'src' else
                 [start(c, p), wholestride(c, gs), zero, rowstride(c, gs, p)])
            # a gathered tile overwrites a part of the destination: only the first one need not keep what is there
            m = mode('W') if tiled == 'dst' else ite(And(*[eq(p[g], Z) for g in gs]), mode('W'), mode('RW'))
            return [num(n)] + [('vec', x) for x in a] + [('vec', [c.E(g, p) for g in gs]), H('src'), H('dst'), ('scratch', num(16 * n)), m]
        first = lambda p: And(*[eq(p[g], Z) for g in gs])
        order = [(0, first, 0, lambda p: Not(first(p)), ())] if tiled == 'src' else []
        copy = Fam('copy', gs, lambda c, p: [H('src'), H('dst')], targs=None)
        nt = lambda c: prod_of(ceildiv(c.S(g), c.B(g)) for g in gs)
        return Combo(n, {tiled: gs, single: tuple(('s', g) for g in gs)}, fams=[Fam('subcopy', gs, args)], order=order,
                     alts=[(lambda c: eq(nt(c), ONE), [copy], [])])
    OPS[name] = COp(name, [('src', 'T'), ('dst', 'T')], combos, prop='C18', tile=False, maxrank=3)
    OPS[name].move = {'tensor': name}


def prod_of(xs):
    r = ONE
    for x in xs: r = r * x
    return r


move_op('gather', 'src', 'dst')
move_op('scatter', 'dst', 'src')


@op('randn', 'dst:T start:V underlying_shape:V seed:S mean:S stddev:S', prop='C20')
def _(rk, iv, tile):
    n = rk['dst']
    if rk['start'] != n or rk['underlying_shape'] != n: return None
    gs = ident(n)
    st = lambda d: sel('start', num(d), sort='I')
    un = lambda d: sel('underlying_shape', num(d), sort='I')
    extra = []
    for d in gs: extra += [lambda c, d=d: ge(st(d), Z), lambda c, d=d: le(st(d) + c.S(d), un(d))]
    args = lambda c, p: [num(n), c.prod(gs, p), c.seed, c.mean, c.stddev, ('vec', [st(d) + (Z if tile else p[d] * c.B(d)) for d in gs]),
                         ('vec', [c.E(g, p) for g in gs]), ('vec', rowstride(c, gs, p)), ('vec', [un(d) for d in gs]), H('dst'), ('scratch', num(16 * n))]
    return Combo(n, dict(dst=gs), extra=extra, fams=[Fam('randn', gs, args)])


@op('copy_intersection', 'src:T src_offset:V dst:T dst_offset:V scratch:T', prop='C18', tensor=False)
def _(rk, iv, tile):
    n = rk['src']
    if rk['dst'] != n or rk['src_offset'] != n or rk['dst_offset'] != n or rk['scratch'] != 1: return None
    gs = ident(n); gd = tuple(range(n, 2 * n))
    so = lambda d: sel('src_offset', num(d), sort='I')
    do = lambda d: sel('dst_offset', num(d), sort='I')
    lo = lambda c, d: ite(lt(so(d), do(d)), do(d), so(d))
    hi = lambda c, d: ite(lt(so(d) + c.S(d), do(d) + c.S(n + d)), so(d) + c.S(d), do(d) + c.S(n + d))
    meet = lambda c: And(*[And(lt(so(d), do(d) + c.S(n + d)), lt(do(d), so(d) + c.S(d))) for d in gs])
    whole = lambda c: And(*[eq(hi(c, d) - lo(c, d), c.S(n + d)) for d in gs])
    args = lambda c, p: [num(n), ('vec', [lo(c, d) - so(d) for d in gs]), ('vec', wholestride(c, gs)), ('vec', [lo(c, d) - do(d) for d in gs]), ('vec', wholestride(c, gd)),
                         ('vec', [hi(c, d) - lo(c, d) for d in gs]), H('src'), H('dst'), H('scratch'), ite(whole(c), mode('W'), mode('RW'))]
    copy = Fam('copy', (), lambda c, p: [H('src'), H('dst')], targs=None)
    same = lambda c: And(*[And(eq(so(d), do(d)), eq(c.S(d), c.S(n + d))) for d in gs])
    return Combo(2 * n + 1, dict(src=gs, dst=gd, scratch=(2 * n,)), extra=[lambda c: ge(c.S(2 * n), num(2 * n))],
                 fams=[Fam('subcopy', (), args, guard=lambda c, p: meet(c))], alts=[(same, [copy], [])])


OPS['copy_intersection'].move = {'tile': 'tile_copy_intersection'}
OPS['randn'].move = {'tensor': 'tensor_randn', 'tile': 'tile_randn'}
OPS['nrm2'].move = {'tensor': 'tensor_nrm2', 'tile': 'tile_nrm2'}
for _k in ('embedding', 'embedding_backward'): OPS[_k].move = {'tensor': _k}
