"""Contracts of the CPU kernels (src/kernel/*/cpu.cc): preconditions, memory footprint and
postcondition of every kernel, written against the parameter positions of the real function.

A kernel contract is
  params   list of P(...): size ('I'), real scalar ('S'), const buffer ('C'), modified buffer ('W')
  pre      extra preconditions over the parameters
  outs     per modified buffer the list of output families  (box, offset, value)
The value is a term over the *initial* contents of all buffers.
"""
from .terms import *
import math

R0 = num(0, 'R'); R1 = num(1, 'R')


def rl(x): return num(Q(str(x)), 'R') if not isinstance(x, int) else num(x, 'R')


class P(object):
    def __init__(self, kind, name, length=None, sort='R', lo=1):
        self.kind = kind; self.name = name; self.length = length; self.sort = sort; self.lo = lo


def I(name, lo=1): return P('I', name, lo=lo)
def S(name): return P('S', name)
def C(name, length, sort='R'): return P('C', name, length, sort)
def W(name, length, sort='R'): return P('W', name, length, sort)


class Out(object):
    def __init__(self, buf, box, off, val, over=None):
        self.buf = buf; self.box = box; self.off = off; self.val = val
        self.over = over            # machine arithmetic: (condition, value to which the result is rounded when the condition holds)


class Kernel(object):
    def __init__(self, name, prop, params, outs=(), pre=None, noread=(), post=None, stable=False, dom=None, fname='cpu', nondiv=None,
                 gen=None, oracle=None, rel=None):
        self.rel = rel              # relational postcondition of pairs of cells
        self.name = name; self.prop = prop; self.params = params
        self.outs = outs if callable(outs) else (lambda e, o=outs: o)
        self.pre = pre or (lambda e: [])
        self.noread = noread        # [(scalar, buffer)]: scalar == 0 -> initial content of the buffer is not read
        self.post = post            # custom relational postcondition
        self.stable = stable        # exponent arguments must be <= 0: by the path conditions, or by the given family
        self.dom = dom              # numeric domain restrictions for replays
        self.fname = fname
        self.nondiv = nondiv
        self.gen = gen
        self.oracle = oracle


KERNELS = {}


def kernel(*a, **k):
    key = k.pop('key', None)
    K = Kernel(*a, **k)
    KERNELS[key or (K.name if K.fname == 'cpu' else K.name + '.' + K.fname)] = K


class E(object):
    """environment handed to contract lambdas: e.m is the size/scalar symbol, e('src', off) initial content"""
    def __init__(self, d, sorts): self.__dict__.update(d); self._sorts = sorts
    def __call__(self, buf, off): return sel(buf, off, sort=self._sorts[buf])


def elem1(name, prop, params, buf, n, val, over=None, **k):
    kernel(name, prop, params, lambda e: [Out(buf, [getattr(e, n)], lambda i: i, lambda i: val(e, i), over and (lambda i: over(e, i)))], **k)


sq = lambda x: fn('sqrt', x)
PI = rl('3.141592653589793238462643383279502884')
nel = lambda e: e.nelems
nel2 = lambda e: e.nelems * 2
RD = ['src']

# ---------------------------------------------------------------- C05 elementwise
def std(*ps): return [I('nelems')] + list(ps)
cs = C('src', nel); wd = W('dst', nel); wdata = W('data', nel)
elem1('add', 'C05', std(S('alpha'), cs, S('beta'), wd), 'dst', 'nelems', lambda e, i: e.alpha * e('src', i) + e.beta * e('dst', i))
elem1('add_scalar', 'C05', std(S('alpha'), S('beta'), wd), 'dst', 'nelems', lambda e, i: e.alpha + e.beta * e('dst', i))
elem1('scal', 'C05', std(S('alpha'), cs, wd), 'dst', 'nelems', lambda e, i: e.alpha * e('src', i), noread=[(None, 'dst')])
elem1('fill', 'C05', std(S('val'), wdata), 'data', 'nelems', lambda e, i: e.val, noread=[(None, 'data')])
elem1('prod', 'C05', std(cs, wd), 'dst', 'nelems', lambda e, i: e('src', i) * e('dst', i))
elem1('pow', 'C05', std(S('alpha'), S('exp'), wdata), 'data', 'nelems', 
      lambda e, i: ite(eq(e.exp, rl(-1)), e.alpha * inv(e('data', i)), e.alpha * fn('pow', e('data', i), e.exp)), dom={'data': 'pos'})
elem1('sqrt', 'C05', std(cs, wd), 'dst', 'nelems', lambda e, i: sq(e('src', i)), dom={'src': 'nonneg'}, noread=[(None, 'dst')])
elem1('sqrt_inplace', 'C05', std(wdata), 'data', 'nelems', lambda e, i: sq(e('data', i)), dom={'data': 'nonneg'})
elem1('hypot', 'C05', std(S('alpha'), cs, S('beta'), wd), 'dst', 'nelems', lambda e, i: hypot(e.alpha * e('src', i), e.beta * e('dst', i)), noread=[('beta', 'dst')])
elem1('hypot_scalar_inverse', 'C05', std(S('eps'), S('alpha'), wd), 'dst', 'nelems', lambda e, i: inv(hypot(e.alpha * e('dst', i), e.eps)),
      dom={'eps': 'pos'})
elem1('maximum', 'C05', std(cs, wd), 'dst', 'nelems', lambda e, i: fmax(e('src', i), e('dst', i)))
elem1('relu', 'C05', std(wdata), 'data', 'nelems', lambda e, i: fmax(e('data', i), R0))
elem1('relu_forward', 'C05', std(cs, wd), 'dst', 'nelems', lambda e, i: fmax(e('src', i), R0), noread=[(None, 'dst')])
elem1('drelu', 'C05', std(wdata), 'data', 'nelems', lambda e, i: ite(gt(e('data', i), R0), R1, R0))
elem1('relu_backward', 'C05', std(C('x', nel), C('dy', nel), W('dx', nel)), 'dx', 'nelems',
      lambda e, i: e('dx', i) + ite(gt(e('x', i), R0), e('dy', i), R0))


def Phi(x): return rl('0.5') * fn('erfc', -x * inv(sq(rl(2))))
def phi(x): return inv(sq(rl(2) * PI)) * fn('exp', x * x * rl('-0.5'))
def g_gelu(x): return x * Phi(x)
def g_dgelu(x): return Phi(x) + x * phi(x)
# gelutanh: x/2*(1+tanh(u)), u = sqrt(2/pi)(x+0.044715x^3); = x*sigma(2u)
def uu(x): return sq(rl(2)) * inv(sq(PI)) * (x + rl('0.044715') * x * x * x)
def du(x): return sq(rl(2)) * inv(sq(PI)) * (R1 + rl('0.134145') * x * x)
def th(x): return fn('tanh', x)
def g_gelutanh(x): return x * rl('0.5') * (R1 + th(uu(x)))
# exp(-2u) overflows: the derivative is below the smallest positive number
def expover(x): return pred('isinf', fn('exp', uu(x) * rl(-2)))
def g_dgelutanh(x): return rl('0.5') * (R1 + th(uu(x))) + rl('0.5') * x * (R1 - th(uu(x)) * th(uu(x))) * du(x)


elem1('gelu', 'C05', std(wdata), 'data', 'nelems', lambda e, i: g_gelu(e('data', i)))
elem1('dgelu', 'C05', std(wdata), 'data', 'nelems', lambda e, i: g_dgelu(e('data', i)))
elem1('gelu_backward', 'C05', std(C('x', nel), C('dy', nel), W('dx', nel)), 'dx', 'nelems',
      lambda e, i: e('dx', i) + g_dgelu(e('x', i)) * e('dy', i))
elem1('gelutanh', 'C05', std(cs, wd), 'dst', 'nelems', lambda e, i: g_gelutanh(e('src', i)), noread=[(None, 'dst')])
elem1('gelutanh_inplace', 'C05', std(wdata), 'data', 'nelems', lambda e, i: g_gelutanh(e('data', i)))
elem1('dgelutanh', 'C05', std(wdata), 'data', 'nelems', lambda e, i: g_dgelutanh(e('data', i)), over=lambda e, i: (expover(e('data', i)), R0))
elem1('gelutanh_backward', 'C05', std(C('x', nel), C('dy', nel), W('dx', nel)), 'dx', 'nelems',
      lambda e, i: e('dx', i) + g_dgelutanh(e('x', i)) * e('dy', i), over=lambda e, i: (expover(e('x', i)), e('dx', i)))
kernel('addcdiv', 'C05', [S('val'), S('eps'), I('nelems'), C('nom', nel), C('denom', nel), W('res', nel)],
       lambda e: [Out('res', [e.nelems], lambda i: i, lambda i: e('res', i) + e.val * e('nom', i) * inv(e('denom', i) + e.eps))],
       dom={'denom': 'pos', 'eps': 'nonneg'})
elem1('logsumexp', 'C05', std(C('maxsumexp', nel2), W('logsumexp', nel)), 'logsumexp', 'nelems',
      lambda e, i: e('maxsumexp', i * 2) + fn('log', e('maxsumexp', i * 2 + 1)), dom={'maxsumexp': 'pos'}, noread=[(None, 'logsumexp')])
kernel('mask_scalar', 'C05', [I('nrows'), I('ncols'), C('mask', lambda e: e.nrows, 'B'), S('val'), W('data', lambda e: e.nrows * e.ncols)],
       lambda e: [Out('data', [e.ncols, e.nrows], lambda j, i: j * e.nrows + i,
                      lambda j, i: ite(e('mask', i), e('data', j * e.nrows + i), e.val))])

# ---------------------------------------------------------------- C06 broadcast
mnk = [I('m'), I('n'), I('k')]
big = lambda e: e.m * e.n * e.k
sl = lambda e: e.m * e.n
o3 = lambda e: (lambda i0, i1, i2: (i2 * e.k + i1) * e.m + i0)


def slice_out(buf, val):
    # i0<m, i1<k (reduced), i2<n
    return lambda e: [Out(buf, [e.m, e.k, e.n], o3(e), lambda i0, i1, i2: val(e, i2 * e.m + i0, o3(e)(i0, i1, i2)))]


kernel('add_slice', 'C06', mnk + [S('alpha'), C('src', sl), S('beta'), W('dst', big)],
       slice_out('dst', lambda e, s, b: e.alpha * e('src', s) + e.beta * e('dst', b)), noread=[('beta', 'dst')])
kernel('add_slice3', 'C06', mnk + [S('alpha'), C('src1', sl), S('beta'), C('src2', big), W('dst', big)],
       slice_out('dst', lambda e, s, b: e.alpha * e('src1', s) + e.beta * e('src2', b)), noread=[('beta', 'src2'), (None, 'dst')])
kernel('prod_slice', 'C06', mnk + [S('alpha'), C('src', sl), W('dst', big)],
       slice_out('dst', lambda e, s, b: e.alpha * e('src', s) * e('dst', b)))


def fiber_out(buf, val, batch=False):
    def f(e):
        if batch:
            o = lambda i0, i1, i2, b: ((b * e.n + i1) * e.k + i2) * e.m + i0
            return [Out(buf, [e.m, e.n, e.k, e.batch], o, lambda i0, i1, i2, b: val(e, b * e.k + i2, o(i0, i1, i2, b)))]
        o = lambda i0, i1, i2: (i1 * e.k + i2) * e.m + i0
        return [Out(buf, [e.m, e.n, e.k], o, lambda i0, i1, i2: val(e, i2, o(i0, i1, i2)))]
    return f


bigb = lambda e: e.m * e.n * e.k * e.batch
kernel('add_fiber', 'C06', mnk + [I('batch'), S('alpha'), C('src', lambda e: e.k * e.batch), S('beta'), W('dst', bigb)],
       fiber_out('dst', lambda e, s, b: e.alpha * e('src', s) + e.beta * e('dst', b), True), noread=[('beta', 'dst')])
kernel('prod_fiber', 'C06', mnk + [S('alpha'), C('src', lambda e: e.k), W('dst', big)],
       fiber_out('dst', lambda e, s, b: e.alpha * e('src', s) * e('dst', b)))
kernel('prod_fiber3', 'C06', mnk + [S('alpha'), C('src1', lambda e: e.k), C('src2', big), W('dst', big)],
       fiber_out('dst', lambda e, s, b: e.alpha * e('src1', s) * e('src2', b)), noread=[(None, 'dst')])

# ---------------------------------------------------------------- C07 reductions
def redu_slice(val):
    def f(e):
        def v(i0, i2):
            k = sym('_kk')
            return val(e, i2 * e.m + i0, lambda g: Sum(k, num(0), e.k, g((i2 * e.k + k) * e.m + i0)))
        return [Out('dst', [e.m, e.n], lambda i0, i2: i2 * e.m + i0, v)]
    return f


kernel('sum_slice', 'C07', mnk + [S('alpha'), C('src', big), S('beta'), W('dst', sl)],
       redu_slice(lambda e, o, Su: e.beta * e('dst', o) + e.alpha * Su(lambda b: e('src', b))), noread=[('beta', 'dst')])
kernel('sumprod_slice', 'C07', mnk + [S('alpha'), C('src1', big), C('src2', big), S('beta'), W('dst', sl)],
       redu_slice(lambda e, o, Su: e.beta * e('dst', o) + e.alpha * Su(lambda b: e('src1', b) * e('src2', b))), noread=[('beta', 'dst')])
kernel('norm_slice', 'C07', mnk + [S('alpha'), C('src', big), S('beta'), W('dst', sl)],
       redu_slice(lambda e, o, Su: sq(e.beta * e.beta * e('dst', o) * e('dst', o) + e.alpha * e.alpha * Su(lambda b: e('src', b) * e('src', b)))),
       noread=[('beta', 'dst')])


def redu_fiber(val, batch):
    def f(e):
        def v(i2, b=num(0)):
            x = sym('_k0'); y = sym('_k1')
            return val(e, b * e.k + i2, lambda g: Sum(x, num(0), e.m, Sum(y, num(0), e.n, g(((b * e.n + y) * e.k + i2) * e.m + x))))
        return [Out('dst', [e.k, e.batch] if batch else [e.k], (lambda i2, b: b * e.k + i2) if batch else (lambda i2: i2), v)]
    return f


kernel('sum_fiber', 'C07', mnk + [I('batch'), S('alpha'), C('src', bigb), S('beta'), W('dst', lambda e: e.k * e.batch)],
       redu_fiber(lambda e, o, Su: e.beta * e('dst', o) + e.alpha * Su(lambda b: e('src', b)), True), noread=[('beta', 'dst')])
kernel('sumprod_fiber', 'C07', mnk + [S('alpha'), C('src1', big), C('src2', big), S('beta'), W('dst', lambda e: e.k)],
       redu_fiber(lambda e, o, Su: e.beta * e('dst', o) + e.alpha * Su(lambda b: e('src1', b) * e('src2', b)), False), noread=[('beta', 'dst')])


def sumnorm_outs(e):
    def s(i0, i2):
        k = sym('_kk')
        return e('sumnorm', (i2 * e.m + i0) * 2) + Sum(k, num(0), e.k, e('src', (i2 * e.k + k) * e.m + i0))

    def nrm(i0, i2):
        k = sym('_kk')
        o = e('sumnorm', (i2 * e.m + i0) * 2 + 1)
        x = e('src', (i2 * e.k + k) * e.m + i0)
        return sq(o * o + Sum(k, num(0), e.k, x * x))
    return [Out('sumnorm', [e.m, e.n], lambda i0, i2: (i2 * e.m + i0) * 2, s),
            Out('sumnorm', [e.m, e.n], lambda i0, i2: (i2 * e.m + i0) * 2 + 1, nrm)]


_q = sym('_q9')
kernel('sumnorm', 'C07', mnk + [C('src', big), W('sumnorm', lambda e: e.m * e.n * 2)], sumnorm_outs,
       pre=lambda e: [forall(_q, num(0), e.m * e.n, ge(e('sumnorm', _q * 2 + 1), R0))], dom={'sumnorm': 'nonneg'})


def labels_ok(e, n):
    return [forall(_q, num(0), n, And(ge(e('labels', _q), num(0)), lt(e('labels', _q), e.n_labels)))]


def tsa_outs(e):
    i = sym('_kk')
    return [Out('val', [], lambda: num(0), lambda: e('val', num(0)) + e.alpha * Sum(i, num(0), e.n_outputs, e('logsumexp', i) - e('src', e('labels', i) + i * e.n_labels)))]


kernel('total_sum_accum', 'C07', [S('alpha'), I('n_labels'), I('n_outputs'), C('logsumexp', lambda e: e.n_outputs), C('src', lambda e: e.n_labels * e.n_outputs),
                                  C('labels', lambda e: e.n_outputs, 'I'), W('val', lambda e: num(1))], tsa_outs,
       pre=lambda e: labels_ok(e, e.n_outputs), dom={'labels': 'n_labels'})

# ---------------------------------------------------------------- C08 softmax
def softmax_outs(src):
    def f(e):
        def v(i0, i1, i2):
            x = e(src, (i2 * e.k + i1) * e.m + i0)
            mx = e('maxsumexp', (i2 * e.m + i0) * 2); s = e('maxsumexp', (i2 * e.m + i0) * 2 + 1)
            return ite(pred('isinf', x), R0, e.alpha * fn('exp', x - mx) * inv(s))
        return [Out('dst', [e.m, e.k, e.n], o3(e), v)]
    return f


def covered(src):
    """the exponents are x - max for a value and the maximum of its pair (precondition: the pair covers the value)"""
    def f(e):
        return [e.m, e.k, e.n], lambda i0, i1, i2: e(src, (i2 * e.k + i1) * e.m + i0) - e('maxsumexp', (i2 * e.m + i0) * 2)
    return f


ms2 = C('maxsumexp', lambda e: e.m * e.n * 2)
kernel('softmax', 'C08', mnk + [ms2, C('src', big), S('alpha'), W('dst', big)], softmax_outs('src'), stable=covered('src'), noread=[(None, 'dst')],
       dom={'maxsumexp': 'pos', 'src': 'inf'})
kernel('softmax_inplace', 'C08', mnk + [ms2, S('alpha'), W('dst', big)], softmax_outs('dst'), stable=covered('dst'), dom={'maxsumexp': 'pos', 'dst': 'inf'})


def acc_outs(e):
    def parts(i):
        m1, s1 = e('src', i * 2), e('src', i * 2 + 1)
        m2, s2 = e('dst', i * 2), e('dst', i * 2 + 1)
        M = fmax(m1, m2)
        return m1, s1, m2, s2, M

    def vm(i):
        m1, s1, m2, s2, M = parts(i)
        return ite(eq(s1, R0), m2, ite(eq(s2, R0), m1, M))

    def vs(i):
        m1, s1, m2, s2, M = parts(i)
        return ite(eq(s1, R0), s2, ite(eq(s2, R0), s1, ite(le(m2, m1), s1 + s2 * fn('exp', m2 - m1), s1 * fn('exp', m1 - m2) + s2)))
    return [Out('dst', [e.nelems], lambda i: i * 2, vm), Out('dst', [e.nelems], lambda i: i * 2 + 1, vs)]


kernel('accumulate_maxsumexp', 'C08', [I('nelems'), C('src', nel2), W('dst', nel2)], acc_outs, stable=True, dom={'src': 'pairs', 'dst': 'pairs'})
def mse_rel(e):
    """values are finite or minus infinity (masked); a pair with zero sum is empty"""
    inf = lambda x: pred('isinf', x)
    w = lambda x: ite(inf(x), R0, fn('exp', x))
    def f(i0, i2, g0, g1):
        o = (i2 * e.m + i0) * 2
        M0, S0 = e('maxsumexp', o), e('maxsumexp', o + 1)
        x = lambda j: e('src', (i2 * e.k + j) * e.m + i0)
        j = sym('_j0')
        P = pmax(x(num(0)), Lam(j, e.k - 1, x(j + 1)))
        tot = w(x(num(0))) + Sum(j, num(0), e.k - 1, w(x(j + 1)))
        return [('fully masked slice leaves the pair unchanged', [inf(P)], And(eq(g0, M0), eq(g1, S0))),
                ('maximum, empty pair', [Not(inf(P)), eq(S0, R0)], eq(g0, P)),
                ('sum of exponents, empty pair', [Not(inf(P)), eq(S0, R0)], eq(g1 * fn('exp', g0), tot)),
                ('maximum of pair and slice', [Not(inf(P)), ne(S0, R0)], eq(g0, fmax(M0, P))),
                ('sum of exponents of pair and slice', [Not(inf(P)), ne(S0, R0)], eq(g1 * fn('exp', g0), S0 * w(M0) + tot))]
    return f


kernel('maxsumexp', 'C08', mnk + [C('src', big), W('maxsumexp', lambda e: e.m * e.n * 2)], lambda e: [
    Out('maxsumexp', [e.m, e.n], lambda i0, i2: (i2 * e.m + i0) * 2, None), Out('maxsumexp', [e.m, e.n], lambda i0, i2: (i2 * e.m + i0) * 2 + 1, None)],
       post='maxsumexp', rel=mse_rel, stable=True, dom={'src': 'inf', 'maxsumexp': 'pairs'}, oracle='maxsumexp')

# ---------------------------------------------------------------- C09 Adam, AdamW, normalize
def adam_outs(decoupled):
    def f(e):
        def parts(i):
            p = e('p', i); g = e('grad', i)
            if decoupled: p = ite(eq(e.weight_decay, R0), p, p * (R1 - e.lr * e.weight_decay))
            else: g = ite(eq(e.weight_decay, R0), g, g + e.weight_decay * p)
            first = eq(e.num_iter, num(1))
            m = ite(first, (R1 - e.beta_1) * g, e.beta_1 * e('first_moment', i) + (R1 - e.beta_1) * g)
            v = e('second_moment', i)
            s = ite(first, sq(R1 - e.beta_2) * fn('fabs', g), hypot(sq(e.beta_2) * v, sq(R1 - e.beta_2) * g))
            mh = m * inv(R1 - fn('pow', e.beta_1, toreal(e.num_iter)))
            sh = s * inv(sq(R1 - fn('pow', e.beta_2, toreal(e.num_iter))))
            return p, m, s, p - e.lr * mh * inv(sh + e.eps)
        o = lambda i: i
        return [Out('first_moment', [e.num_elems], o, lambda i: parts(i)[1]), Out('second_moment', [e.num_elems], o, lambda i: parts(i)[2]),
                Out('p', [e.num_elems], o, lambda i: parts(i)[3])]
    return f


ne_ = lambda e: e.num_elems
for nm, dec in (('adam_step', False), ('adamw_step', True)):
    kernel(nm, 'C09', [I('num_iter'), I('num_elems'), S('beta_1'), S('beta_2'), S('eps'), S('lr'), S('weight_decay'), W('grad', ne_), W('first_moment', ne_),
                       W('second_moment', ne_), W('p', ne_)], adam_outs(dec),
           pre=lambda e: [ge(e.beta_1, R0), lt(e.beta_1, R1), ge(e.beta_2, R0), lt(e.beta_2, R1), gt(e.eps, R0)],
           dom={'beta_1': '01', 'beta_2': '01', 'eps': 'pos', 'num_iter': 'iter', 'second_moment': 'nonneg'},
           noread=[('num_iter=1', 'first_moment'), ('num_iter=1', 'second_moment')])


def norm_outs(e):
    def v(i0, i1, i2):
        x = e('dst', (i2 * e.k + i1) * e.m + i0)
        il = inv(toreal(e.l))
        mean = e('sumnorm', (i2 * e.m + i0) * 2) * il
        n2 = e('sumnorm', (i2 * e.m + i0) * 2 + 1)
        var = n2 * n2 * il - mean * mean
        return e('gamma', num(0)) * (x - mean) * inv(sq(ite(le(var, R0), R0, var) + e.eps)) + e('beta', num(0))
    return [Out('dst', [e.m, e.k, e.n], o3(e), v)]


kernel('normalize', 'C09', [I('m'), I('n'), I('k'), I('l'), S('eps'), C('gamma', lambda e: num(1)), C('beta', lambda e: num(1)), C('sumnorm', lambda e: e.m * e.n * 2),
                            W('dst', big)], norm_outs,
       pre=lambda e: [gt(e.eps, R0), forall(_q, num(0), e.m * e.n, ge(e('sumnorm', _q * 2 + 1), R0))], dom={'eps': 'pos', 'sumnorm': 'sumnorm'})

# ---------------------------------------------------------------- C10 data movement
kernel('transpose', 'C10', [I('m'), I('n'), S('alpha'), C('src', sl), W('dst', sl)],
       lambda e: [Out('dst', [e.m, e.n], lambda i, j: i * e.n + j, lambda i, j: e.alpha * e('src', i + j * e.m))], noread=[(None, 'dst')])


def index_ok(e):
    return [forall(_q, num(0), e.m * e.n, And(ge(e('index', _q), num(0)), lt(e('index', _q), e.vsize))), ge(e.k_start, num(0)),
            le(e.k_start + e.k_size, e.k), ge(e.vsize, num(1))]


emb = [I('m'), I('n'), I('k'), I('k_start', 0), I('k_size'), C('index', sl, 'I')]
kernel('embedding', 'C10', emb + [C('vocab', lambda e: e.k_size * e.vsize), W('embed', big), P('G', 'vsize')],
       lambda e: [Out('embed', [e.m, e.k_size, e.n], lambda i0, j, i2: (i2 * e.k + e.k_start + j) * e.m + i0,
                      lambda i0, j, i2: e('vocab', e('index', i2 * e.m + i0) * e.k_size + j))], pre=index_ok, noread=[(None, 'embed')], dom={'index': 'vsize'})


def embb_outs(e):
    def v(j, c):
        x = sym('_k0'); y = sym('_k1')
        return e('vocab', c * e.k_size + j) + Sum(x, num(0), e.m, Sum(y, num(0), e.n, ite(eq(e('index', y * e.m + x), c),
                                                                                        e('embed', (y * e.k + e.k_start + j) * e.m + x), R0)))
    return [Out('vocab', [e.k_size, e.vsize], lambda j, c: c * e.k_size + j, v)]


kernel('embedding_backward', 'C10', emb + [C('embed', big), W('vocab', lambda e: e.k_size * e.vsize), P('G', 'vsize')], embb_outs, pre=index_ok, dom={'index': 'vsize'})
kernel('subtract_indexed_outputs', 'C10', [I('n_labels'), I('n_outputs'), S('val'), C('labels', lambda e: e.n_outputs, 'I'), W('dst', lambda e: e.n_labels * e.n_outputs)],
       lambda e: [Out('dst', [e.n_labels, e.n_outputs], lambda r, i: i * e.n_labels + r,
                      lambda r, i: e('dst', i * e.n_labels + r) - ite(eq(e('labels', i), r), e.val, R0))], pre=lambda e: labels_ok(e, e.n_outputs), dom={'labels': 'n_labels'})


# sub-array copy of rank r: S, D = extents of the arrays, c = extents of the box, a, b = its start in both
def subcopy(r):
    R = range(r)
    def prods(e, x):
        p = [num(1)]
        for d in R: p.append(p[-1] * getattr(e, x + str(d)))
        return p
    def at(e, st, x, ds):
        p = prods(e, x); o = num(0)
        for d in R: o = o + (getattr(e, st + str(d)) + ds[d]) * p[d]
        return o
    vec = lambda name, f: P('V', name, lambda e, f=f: [f(e, d) for d in R], 'I')
    ps = [P('N', 'ndim', r), vec('src_start', lambda e, d: getattr(e, 'a%d' % d)), vec('src_stride', lambda e, d: prods(e, 'S')[d]),
          vec('copy_shape', lambda e, d: getattr(e, 'c%d' % d)), C('src', lambda e: prods(e, 'S')[r]),
          vec('dst_start', lambda e, d: getattr(e, 'b%d' % d)), vec('dst_stride', lambda e, d: prods(e, 'D')[d]),
          W('dst', lambda e: prods(e, 'D')[r]), P('X', 'tmp_index', lambda e: num(2 * r), 'I')]
    ps += [P('G', '%s%d' % (x, d), lo=0 if x in 'ab' else 1) for x in 'SDcab' for d in R]
    def pre(e):
        o = []
        for d in R:
            g = lambda x: getattr(e, x + str(d))
            o += [le(g('a') + g('c'), g('S')), le(g('b') + g('c'), g('D'))]
        return o
    def gen(sc, rng):
        for d in R:
            for x in 'ab': sc['%s%d' % (x, d)] = rng.choice([0, 0, 1, 2])
            c = sc['c%d' % d] = rng.choice([1, 2, 3, 4])
            sc['S%d' % d] = sc['a%d' % d] + c + rng.choice([0, 0, 1, 2])
            sc['D%d' % d] = sc['b%d' % d] + c + rng.choice([0, 0, 1, 2])
    kernel('subcopy', 'C10', ps, lambda e: [Out('dst', [getattr(e, 'c%d' % d) for d in R], lambda *x: at(e, 'b', 'D', x), lambda *x: e('src', at(e, 'a', 'S', x)))],
           pre=pre, gen=gen, key='subcopy rank %d' % r)


for _r in (1, 2, 3, 4): subcopy(_r)


# random fill of a box of rank r (extents c) of an array with extents D; b = its start in the underlying array with extents S.
# e.seed is the position of the state in the random sequence: an element uses the numbers 2L, 2L+1 with L its position
def randn(r):
    R = range(r)
    def prods(e, x):
        p = [num(1)]
        for d in R: p.append(p[-1] * getattr(e, x + str(d)))
        return p
    def at(e, x, ds, st=None):
        p = prods(e, x); o = num(0)
        for d in R: o = o + ((getattr(e, st + str(d)) + ds[d]) if st else ds[d]) * p[d]
        return o
    vec = lambda name, f: P('V', name, lambda e, f=f: [f(e, d) for d in R], 'I')
    ps = [P('N', 'ndim', r), P('N', 'nelems', lambda e: prods(e, 'c')[r]), P('Z', 'seed'), S('mean'), S('stddev'),
          vec('start', lambda e, d: getattr(e, 'b%d' % d)), vec('shape', lambda e, d: getattr(e, 'c%d' % d)), vec('underlying_shape', lambda e, d: getattr(e, 'S%d' % d)),
          W('data', lambda e: prods(e, 'D')[r]), vec('stride', lambda e, d: prods(e, 'D')[d]), P('X', 'tmp_index', lambda e: num(2 * r), 'I')]
    ps += [P('G', '%s%d' % (x, d), lo=0 if x == 'b' else 1) for x in 'SDcb' for d in R]
    def pre(e):
        o = []
        for d in R:
            g = lambda x: getattr(e, x + str(d))
            o += [le(g('b') + g('c'), g('S')), le(g('c'), g('D'))]
        return o
    def gen(sc, rng):
        for d in R:
            sc['b%d' % d] = rng.choice([0, 0, 1, 2])
            c = sc['c%d' % d] = rng.choice([1, 2, 3, 4])
            sc['S%d' % d] = sc['b%d' % d] + c + rng.choice([0, 0, 1, 2])
            sc['D%d' % d] = c + rng.choice([0, 0, 1, 2])
    kernel('randn', 'C20', ps, lambda e: [Out('data', [getattr(e, 'c%d' % d) for d in R], lambda *x: at(e, 'D', x),
                                              lambda *x: fn('gauss', e.seed + 2 * at(e, 'S', x, 'b'), e.mean, e.stddev))],
           pre=pre, gen=gen, key='randn rank %d' % r, noread=[(None, 'data')])


for _r in (1, 2, 3, 4): randn(_r)
kernel('randn', 'C20', [P('Z', 'seed'), S('mean'), S('stddev'), W('data', lambda e: num(1))],
       lambda e: [Out('data', [num(1)], lambda x: x, lambda x: fn('gauss', e.seed + 2 * x, e.mean, e.stddev))], fname='cpu_ndim0', noread=[(None, 'data')])
