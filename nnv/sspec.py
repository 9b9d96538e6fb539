"""Contracts of the task submission layer (src/starpu/*.cc).

S(op, 'a:I b:S c:H ...', 'kernel arg arg ...') : submit(a, b, c, ...) makes one task whose effect is
the call  kernel(arg, arg, ...)  of the kernel contract (kspec), where every argument is a parameter of submit.
Kinds: I index, S scalar of the operation's precision, H handle, R reduction request (int), X ignored int,
       Q TransOp, V vector of indices, M access mode, U unsigned seed."""
from .terms import *
from .kspec import Kernel, KERNELS, P, I, S as Sc, C, W, Out, R0, sq, nel, rl
from . import kspec

Z = num(0)
PSEUDO = {}


def pk(*a, **k):
    K = Kernel(*a, **k)
    PSEUDO[K.name] = K


# ---------------------------------------------------------------- library calls and composite workers
pk('memset0', 'C12', [W('data', lambda e: e.n), P('G', 'n')], lambda e: [Out('data', [e.n], lambda i: i, lambda i: R0)], noread=[(None, 'data')])
pk('memcpy', 'C12', [C('src', lambda e: e.n), W('dst', lambda e: e.n), P('G', 'n')], lambda e: [Out('dst', [e.n], lambda i: i, lambda i: e('src', i))], noread=[(None, 'dst')])
pk('cblas_scal', 'C12', [I('nelems'), Sc('alpha'), W('data', nel)], lambda e: [Out('data', [e.nelems], lambda i: i, lambda i: e.alpha * e('data', i))])
pk('cblas_axpy', 'C12', [I('nelems'), Sc('alpha'), C('src', nel), W('dst', nel)],
   lambda e: [Out('dst', [e.nelems], lambda i: i, lambda i: e('dst', i) + e.alpha * e('src', i))])
pk('axpy_tensor', 'C12', [I('nelems'), C('alpha', lambda e: num(1)), C('src', nel), W('dst', nel)],
   lambda e: [Out('dst', [e.nelems], lambda i: i, lambda i: e('dst', i) + e('alpha', num(0)) * e('src', i))])


def nrm2_outs(e):
    k = sym('_kk')
    return [Out('dst', [], lambda: num(0), lambda: sq(Sum(k, num(0), e.nelems, e('src', k) * e('src', k))))]


pk('cblas_nrm2', 'C12', [I('nelems'), C('src', nel), W('dst', lambda e: num(1))], nrm2_outs, noread=[(None, 'dst')])


def gemm_outs(e):
    """column-major m x k times k x n for every batch; transX == 1 : the operand is stored transposed"""
    def v(i, j, b):
        l = sym('_kk')
        A = ite(eq(e.transA, Z), e('A', (b * e.k + l) * e.m + i), e('A', (b * e.m + i) * e.k + l))
        B = ite(eq(e.transB, Z), e('B', (b * e.n + j) * e.k + l), e('B', (b * e.k + l) * e.n + j))
        return e.beta * e('C', (b * e.n + j) * e.m + i) + e.alpha * Sum(l, Z, e.k, A * B)
    return [Out('C', [e.m, e.n, e.batch], lambda i, j, b: (b * e.n + j) * e.m + i, v)]


pk('gemm', 'C12', [P('Q', 'transA'), P('Q', 'transB'), I('m'), I('n'), I('k'), I('batch'), Sc('alpha'), C('A', lambda e: e.m * e.k * e.batch),
                   C('B', lambda e: e.n * e.k * e.batch), Sc('beta'), W('C', lambda e: e.m * e.n * e.batch)], gemm_outs, noread=[('beta', 'C')])
# random numbers, sub-copy: not described by outputs here; X = scratch buffer
pk('randn', 'C12', [I('ndim'), I('nelems'), P('U', 'seed'), Sc('mean'), Sc('stddev'), P('V', 'start'), P('V', 'shape'), P('V', 'underlying_shape'),
                    W('data', None), P('V', 'stride'), P('X', 'tmp_index')], noread=[(None, 'data')])
pk('randn.cpu_ndim0', 'C12', [P('U', 'seed'), Sc('mean'), Sc('stddev'), W('data', None)], noread=[(None, 'data')])
pk('subcopy', 'C12', [I('ndim', 0), P('V', 'src_start'), P('V', 'src_stride'), P('V', 'copy_shape'), C('src', None), P('V', 'dst_start'), P('V', 'dst_stride'),
                      W('dst', None), P('X', 'tmp_index')])
FULL = {'gemm', 'randn', 'randn.cpu_ndim0', 'memset0', 'memcpy', 'cblas_nrm2', 'maxsumexp'}     # write-all by the contract of the (library) function
PARTIAL = {'subcopy'}


def kern(name):
    return PSEUDO.get(name) or KERNELS[name]


class Sub(object):
    def __init__(self, op, params, calls, redux=None, types=None, mode=None):
        self.op = op; self.params = [tuple(p.split(':')) for p in params.split()]
        self.calls = calls            # list of (guard or None, kernel, [args])
        self.redux = redux            # kind of accumulation the reduction mode stands for
        self.types = types
        self.mode = mode
        self.names = [p for p, k in self.params]
        self.kind = dict(self.params)
    @property
    def key(self): return self.op + '(' + ','.join(k for _, k in self.params) + ')'


SUBS = {}


def S(op, params, *calls, **kw):
    cs = []
    for c in calls:
        g = None
        if '?' in c: g, c = c.split('?')
        w = c.split()
        cs.append((g, w[0], w[1:]))
    SUBS.setdefault(op, []).append(Sub(op, params, cs, **kw))


def el(op, extra='', kargs=None, handles='src dst'):
    hs = handles.split()
    S(op, 'nelems:I ' + extra + ' '.join(h + ':H' for h in hs), '%s %s' % (op, kargs or 'nelems ' + ' '.join(x.split(':')[0] for x in extra.split()) + ' ' + handles))


S('accumulate', 'src:H dst:H', 'add N(dst) 1 src 1 dst')
S('accumulate_hypot', 'src:H dst:H', 'hypot N(dst) 1 src 1 dst')
S('accumulate_maxsumexp', 'src:H dst:H', 'accumulate_maxsumexp N2(dst) src dst')
for o in ('adam_step', 'adamw_step'):
    S(o, 'num_iter:I num_elems:I beta_1:S beta_2:S eps:S lr:S weight_decay:S grad:H first_moment:H second_moment:H p:H',
      o + ' num_iter num_elems beta_1 beta_2 eps lr weight_decay grad first_moment second_moment p')
S('add', 'nelems:I alpha:S src:H beta:S dst:H', 'add nelems alpha src beta dst')
S('add_fiber', 'm:I n:I k:I batch:I alpha:S src:H beta:S dst:H', 'add_fiber m n k batch alpha src beta dst')
S('add_scalar', 'nelems:I alpha:S beta:S dst:H', 'add_scalar nelems alpha beta dst')
S('add_slice', 'm:I n:I k:I alpha:S src:H beta:S dst:H', 'add_slice m n k alpha src beta dst')
S('add_slice3', 'm:I n:I k:I alpha:S src1:H beta:S src2:H dst:H', 'add_slice3 m n k alpha src1 beta src2 dst')
S('addcdiv', 'val:S eps:S nelems:I nom:H denom:H src:H', 'addcdiv val eps nelems nom denom src')
S('axpy', 'alpha:H nelems:I src:H dst:H', 'axpy_tensor nelems alpha src dst')
S('axpy', 'alpha:S nelems:I src:H dst:H', 'cblas_axpy nelems alpha src dst')
S('clear', 'data:H', 'memset0 data')
S('copy', 'src:H dst:H', 'memcpy src dst')
for o in ('dgelu', 'dgelutanh', 'drelu', 'gelu', 'gelutanh_inplace', 'relu', 'sqrt_inplace'):
    S(o, 'nelems:I data:H', o + ' nelems data')
for o in ('gelutanh', 'relu_forward', 'sqrt', 'maximum', 'prod'):
    S(o, 'nelems:I src:H dst:H', o + ' nelems src dst')
for o in ('gelu_backward', 'gelutanh_backward', 'relu_backward'):
    S(o, 'nelems:I x:H dy:H dx:H', o + ' nelems x dy dx')
S('embedding', 'm:I n:I k:I k_start:I k_size:I index:H vocab:H embed:H', 'embedding m n k k_start k_size index vocab embed')
S('embedding_backward', 'm:I n:I k:I k_start:I k_size:I index:H embed:H vocab:H redux:R', 'embedding_backward m n k k_start k_size index embed vocab', redux='add')
S('fill', 'nelems:I val:S data:H', 'fill nelems val data')
S('gemm', 'transA:Q transB:Q m:I n:I k:I batch:I alpha:S A:H B:H beta:S C:H redux:R', 'gemm transA transB m n k batch alpha A B beta C', redux='add')
S('hypot', 'nelems:I alpha:S src:H beta:S dst:H', 'hypot nelems alpha src beta dst')
S('hypot_scalar_inverse', 'nelems:I eps:S alpha:S dst:H', 'hypot_scalar_inverse nelems eps alpha dst')
S('logsumexp', 'nelems:I maxsumexp:H logsumexp:H', 'logsumexp nelems maxsumexp logsumexp')
S('mask_scalar', 'nrows:I ncols:I mask:H val:S data:H', 'mask_scalar nrows ncols mask val data')
S('maxsumexp', 'm:I n:I k:I src:H dst:H redux:R', 'maxsumexp m n k src dst', redux='maxsumexp')
S('norm_slice', 'm:I n:I k:I alpha:S src:H beta:S dst:H redux:R', 'norm_slice m n k alpha src beta dst', redux='hypot')
S('normalize', 'm:I n:I k:I l:I eps:S gamma_beta:H sumnorm:H dst:H', 'normalize m n k l eps gamma_beta gamma_beta+1 sumnorm dst')
S('nrm2', 'nelems:I src:H dst:H', 'cblas_nrm2 nelems src dst')
S('pow', 'nelems:I alpha:S exp:S data:H', 'pow nelems alpha exp data')
S('prod_fiber', 'm:I n:I k:I alpha:S src:H dst:H', 'prod_fiber m n k alpha src dst')
S('prod_slice', 'm:I n:I k:I alpha:S src:H dst:H', 'prod_slice m n k alpha src dst')
S('prod_fiber3', 'm:I n:I k:I alpha:S src1:H src2:H dst:H', 'prod_fiber3 m n k alpha src1 src2 dst')
S('randn', 'ndim:I nelems:I seed:U mean:S stddev:S start:V shape:V stride:V underlying_shape:V data:H tmp_index:H',
  'ndim>0?randn ndim nelems seed mean stddev start shape underlying_shape data stride tmp_index', 'ndim=0?randn.cpu_ndim0 seed mean stddev data')
S('scal', 'nelems:I alpha:S src:H dst:H', 'scal nelems alpha src dst')
S('scal_inplace', 'alpha:S nelems:I data:H', 'cblas_scal nelems alpha data')
S('softmax', 'm:I n:I k:I maxsumexp:H src:H alpha:S dst:H', 'softmax m n k maxsumexp src alpha dst')
S('softmax_inplace', 'm:I n:I k:I maxsumexp:H alpha:S dst:H', 'softmax_inplace m n k maxsumexp alpha dst')
S('subcopy', 'ndim:I src_start:V src_stride:V dst_start:V dst_stride:V copy_shape:V src:H dst:H tmp_index:H mode:M',
  'subcopy ndim src_start src_stride copy_shape src dst_start dst_stride dst tmp_index', mode='dst')
S('subtract_indexed_outputs', 'n_labels:I n_outputs:I val:S labels:H dst:H', 'subtract_indexed_outputs n_labels n_outputs val labels dst')
S('sum_fiber', 'm:I n:I k:I batch:I alpha:S src:H beta:S dst:H redux:R', 'sum_fiber m n k batch alpha src beta dst', redux='add')
S('sum_slice', 'm:I n:I k:I alpha:S src:H beta:S dst:H redux:R', 'sum_slice m n k alpha src beta dst', redux='add')
S('sumnorm', 'm:I n:I k:I src:H dst:H', 'sumnorm m n k src dst')
S('sumprod_fiber', 'm:I n:I k:I alpha:S src1:H src2:H beta:S dst:H redux:R', 'sumprod_fiber m n k alpha src1 src2 beta dst', redux='add')
S('sumprod_slice', 'm:I n:I k:I alpha:S src1:H src2:H beta:S dst:H redux:R', 'sumprod_slice m n k alpha src1 src2 beta dst', redux='add')
S('total_sum_accum', 'alpha:S n_labels:I n_outputs:I logsumexp:H src:H labels:H val:H', 'total_sum_accum alpha n_labels n_outputs logsumexp src labels val')
S('transpose', 'm:I n:I alpha:S src:H dst:H', 'transpose m n alpha src dst')
