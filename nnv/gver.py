"""Geometry layer: TileTraits, TensorTraits, Tensor construction, block-cyclic distribution (C01 - C04).

The real constructors and member functions are executed symbolically for every number of dimensions; loops are
summarised by closed forms that are checked to be inductive.  P(d) = product of the extents before d.

Rules used by canon() (each instance checks its side conditions by proof):
  D1  x - (x div a)*a = x mod a                      a > 0
  D2  (x mod a*k) mod a = x mod a                    a, k > 0, x >= 0
  D3  (x div a) div b = x div (a*b)                  a, b > 0, x >= 0
  D4  (x div a) mod b = (x mod a*b) div a            a, b > 0, x >= 0
  D5  x mod a = x                                    0 <= x < a
  D6  x div a = 0                                    0 <= x < a
  S1  sum over [0,T) of f(T-1-s) = sum of f          reversal
  S2  sum over [0,T+1) = sum over [0,T) + f(T)
The rules are discharged as obligations themselves (lemmas())."""
from .cpp import *
from .exec import *
from .terms import *
from . import terms as TM
from . import dims, solve, cxx
from .kver import run_function, VC
import os, time

INST = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inst', 'tensor.cc')


def pos(hy, x): return bool(dims.prove(hy, gt(x, Z), quick=True))
def nonneg(hy, x): return bool(dims.prove(hy, ge(x, Z), quick=True))


def quotient(hy, M, A):
    """k with M = A*k (proved) or None"""
    if M is A: return num(1)
    q, r = exact_div(M, A)
    if q is not None: return q
    if M.op == 'pprod' and A.op == 'pprod' and M.args[3] is A.args[3] and M.args[0] is A.args[0]:
        v, lo, hi, body = M.args; _, lo2, hi2, _ = A.args
        if lo is lo2 and dims.prove(hy, And(le(lo, hi2), le(hi2, hi)), quick=True): return Prod(v, hi2, hi, body)
        if hi is hi2 and dims.prove(hy, And(le(lo, lo2), le(lo2, hi)), quick=True): return Prod(v, lo, lo2, body)
    # M = A * atom when the product A * factor is what M splits into
    if M.op == 'pprod':
        v, lo, hi, body = M.args
        for b, p in ((hi - 1, Prod(v, lo, hi - 1, body)), (lo, Prod(v, lo + 1, hi, body))):
            x = subst(body, {v: b})
            if dims.prove(hy, lt(lo, hi), quick=True):
                if p is A: return x
                if x is A: return p
    if dims.prove(hy, le(M, Z), quick=True): return None
    return None


def pjoin(hy, a, b):
    """a*b in closed form: joins adjacent ranges of one product"""
    for x, y in ((a, b), (b, a)):
        if x.op == 'pprod':
            v, lo, hi, body = x.args
            if y.op == 'pprod' and y.args[3] is body and y.args[1] is hi: return Prod(v, lo, y.args[2], body)
            if subst(body, {v: hi}) is y: return Prod(v, lo, hi + 1, body)
            if subst(body, {v: lo - 1}) is y: return Prod(v, lo - 1, hi, body)
    return a * b


def canon(x, hy, depth=0):
    if not isinstance(x, T) or depth > 40: return x
    if not any(a.op in ('div', 'mod', 'psum', 'fn') for a in subterms(x)): return x
    f = lambda y: canon(y, hy, depth + 1)
    if x.op == 'all':
        v, lo, hi, body = x.args
        w = fresh('q'); lo = f(lo); hi = f(hi)
        return forall(w, lo, hi, canon(subst(body, {v: w}), hy + [le(lo, w), lt(w, hi)], depth + 1))
    if x.op == 'psum':
        bs, body = x.args
        if len(bs) == 1:
            b, n = bs[0]
            v = fresh('s'); n = f(n)
            body = canon(subst(body, {b: v}), hy + [ge(v, Z), lt(v, n)], depth + 1)
            ld = TM._lead_index(body, v)
            if ld is not None and ld[1] < 0: body = subst(body, {v: n - 1 - v})        # S1
            return Sum(v, Z, n, body)
    if x.op == 'pprod':
        v, lo, hi, body = x.args
        return Prod(v, f(lo), f(hi), body) if closed_body(body) else x
    y = rebuild(x, f)
    if y.op == 'poly':
        # D1
        for _ in range(4):
            done = True
            for a in [a for c, m in terms_of(y) for a, e in m if a.op == 'div']:
                X, A = a.args
                q, r = polydiv(y, a)
                k, _r = exact_div(q, A)
                if k is None and A.op != 'poly':
                    k2, r2 = polydiv(q, A)
                    k = k2 if not (isnum(k2) and k2.args[0] == 0) else None
                if k is None or not isnum(k): continue
                if not (nonneg(hy, X) and pos(hy, A)): continue
                y = canon(y - k * a * A + k * (X - imod(X, A)), hy, depth + 1); done = False
                break
            if done or y.op != 'poly': break
    if y.op == 'mod':
        X, A = y.args
        if X.op == 'mod' and nonneg(hy, X.args[0]) and pos(hy, A):
            k = quotient(hy, X.args[1], A)
            if k is not None and pos(hy, k): return canon(imod(X.args[0], A), hy, depth + 1)
        if X.op == 'div' and nonneg(hy, X.args[0]) and pos(hy, X.args[1]) and pos(hy, A):
            M = pjoin(hy, X.args[1], A)
            return canon(idiv(imod(X.args[0], M), X.args[1]), hy, depth + 1)
        if dims.prove(hy, And(ge(X, Z), lt(X, A)), quick=True): return X
    if y.op == 'div':
        X, A = y.args
        if X.op == 'div' and nonneg(hy, X.args[0]) and pos(hy, X.args[1]) and pos(hy, A):
            return canon(idiv(X.args[0], pjoin(hy, X.args[1], A)), hy, depth + 1)
        if dims.prove(hy, And(ge(X, Z), lt(X, A)), quick=True): return Z
    return y


def closed_body(b): return True


def sumfacts(hy, goal):
    """S2 between sums of the same terms whose lengths differ by one or two; equal sums (pointwise)"""
    ats = set()
    for g in list(hy) + [goal]: subterms(g, ats)
    S = sorted(a for a in ats if a.op == 'psum' and len(a.args[0]) == 1 and solve.closed(a))
    out = []
    for p in S:
        (b, n), = p.args[0]; body = p.args[1]
        if dims.prove(hy, ge(n, ONE), quick=True):
            v = fresh('s')
            out.append(eq(p, Sum(v, Z, n - 1, subst(body, {b: v})) + subst(body, {b: n - 1})))
            out.append(eq(p, Sum(v, Z, n - 1, subst(body, {b: v + 1})) + subst(body, {b: Z})))
        elif dims.prove(hy, le(n, Z), quick=True): out.append(eq(p, Z))
    for p in S:
        x = radix_bound(hy, p)
        if x is not None:
            out.append(x)
            up = x.args[-1] if x.op == 'and' else None
            out += radix_step(hy, p, goal)
    for i, p in enumerate(S):
        for q in S[:i]:
            (b, n), = p.args[0]; (b2, n2), = q.args[0]
            v = fresh('s')
            x = subst(p.args[1], {b: v}); y = subst(q.args[1], {b2: v})
            if n is n2 or dims.prove(hy, eq(n, n2), quick=True):
                if dims.prove(hy + [ge(v, Z), lt(v, n)], eq(x, y), quick=True): out.append(eq(p, q))
    return out


def radix_bound(hy, p):
    """S3  0 <= v(d) < k(c+d)  =>  0 <= sum_{d<T} v(d)*prod_{c<=e<c+d} k(e) < prod_{c<=e<c+T} k(e)"""
    (b, n), = p.args[0]
    w = fresh('s')
    body = subst(p.args[1], {b: w})
    tm = terms_of(body)
    if len(tm) != 1: return None
    for a, e in tm[0][1]:
        if a.op == 'pprod' and e == 1 and w not in syms(a.args[1]) and a.args[2] is a.args[1] + w:
            v, r = polydiv(body, a)
            pv, lo, hi, k = a.args
            h2 = hy + [ge(w, Z), lt(w, n)]
            if dims.prove(h2, And(ge(v, Z), lt(v, subst(k, {pv: lo + w}))), quick=True):
                x = fresh('x')
                return And(ge(p, Z), lt(p, Prod(x, lo, lo + n, subst(k, {pv: x}))))
    return None


def radix_step(hy, p, goal):
    """k(c-1)*p <= k(c-1)*(prod_{c..c+T} - 1) when that multiple occurs; wider products are not smaller"""
    (b, n), = p.args[0]
    out = []
    for a in subterms(p.args[1]):
        if a.op != 'pprod' or b in syms(a.args[1]): continue
        pv, lo, hi, k = a.args
        f = subst(k, {pv: lo - 1})
        if not any(x.op == 'poly' and any(dict(m).get(p) and dict(m).get(f) for c, m in terms_of(x)) for x in subterms(goal)): continue
        W = Prod(pv, lo, lo + n, k)
        if dims.prove(hy, And(ge(f, ONE), ge(n, Z)), quick=True):
            out.append(le(f * p, f * W - f))
            W1 = Prod(pv, lo - 1, lo + n, k)
            out.append(eq(W1, f * W))
            for q in subterms(And(*hy)):
                if q.op == 'pprod' and q.args[3] is a.args[3] and solve.closed(q) and dims.prove(hy, And(le(q.args[1], lo - 1), le(lo - 1, lo + n), le(lo + n, q.args[2])), quick=True):
                    v = fresh('d')
                    if dims.prove(hy + [le(q.args[1], v), lt(v, q.args[2])], ge(subst(k, {pv: v}), ONE), quick=True): out.append(le(W1, q))
        break
    return out


def prodfacts(hy, goal):
    ats = set()
    for g in list(hy) + [goal]: subterms(g, ats)
    out = []
    for p in sorted(a for a in ats if a.op == 'pprod' and solve.closed(a)):
        v, lo, hi, body = p.args
        if dims.prove(hy, lt(lo, hi), quick=True):
            out.append(eq(p, Prod(v, lo, hi - 1, body) * subst(body, {v: hi - 1})))
            out.append(eq(p, Prod(v, lo + 1, hi, body) * subst(body, {v: lo})))
        elif dims.prove(hy, le(hi, lo), quick=True): out.append(eq(p, num(1)))
        x = fresh('d')
        if dims.prove(hy + [le(lo, x), lt(x, hi)], ge(subst(body, {v: x}), ONE), quick=True): out.append(ge(p, ONE))
    return out


def indexfacts(hy, goal):
    """coordinates of an offset inside the shape are inside the shape (contract of linear_to_index)"""
    ats = set()
    for g in list(hy) + [goal]: subterms(g, ats)
    out = []
    for a in sorted(a for a in ats if a.op == 'sel' and a.args[0] == 'l2i' and solve.closed(a)):
        K, n, i, d = a.args[1:]
        if K.op == 'lam' and dims.prove(hy, And(ge(i, Z), lt(i, dims.prod_lam(K)), ge(d, Z), lt(d, n)), quick=True):
            out.append(And(ge(a, Z), lt(a, lamapp(K, d))))
    return out


def mod_eq(g):
    """a mod c = b mod c follows from a = b"""
    if g.op != 'eq': return None
    tm = terms_of(g.args[0])
    if len(tm) != 2 or tm[0][0] != -tm[1][0]: return None
    a, b = [m[0][0] if len(m) == 1 and m[0][1] == 1 else None for c, m in tm]
    if a is None or b is None or a.op != 'mod' or b.op != 'mod' or a.args[1] is not b.args[1]: return None
    return a.args[0], b.args[0]


def stepfacts(hy, goal):
    """D7: quotients and remainders of x and x-1 by the same divisor"""
    at = set()
    for h in list(hy) + [goal]:
        if not solve.closed(h): continue
        for a in subterms(h):
            if isinstance(a, T) and a.op in ('div', 'mod') and solve.closed(a): at.add(a.args)
    at = sorted(at, key=lambda k: (k[0].id, k[1].id)) if at and hasattr(next(iter(at))[0], 'id') else sorted(at, key=repr)
    out = []
    for x, a in at:
        for y, b in at:
            if b is a and (x - y) is ONE and pos(hy, a) and pos(hy, x):
                out.append(Or(And(eq(idiv(x, a), idiv(y, a)), eq(imod(x, a), imod(y, a) + 1)),
                              And(eq(idiv(x, a), idiv(y, a) + 1), eq(imod(x, a), Z), eq(imod(y, a), a - 1))))
    return out[:4]


class Yes(object):
    ok = True; by = 'simplifier'; info = ''; cex = None
    def __bool__(self): return True


def sym_eqs(hyps, goal):
    """equalities between symbols are substituted"""
    for _ in range(6):
        for h in hyps:
            if h.op != 'eq': continue
            tm = terms_of(h.args[0])
            if len(tm) == 2 and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym' for c, m in tm) and tm[0][0] == -tm[1][0]:
                x, y = sorted((tm[0][1][0][0], tm[1][1][0][0]), key=lambda a: (len(a.args[0]), a.args[0]))
                mp = {y: x}
                hyps = [z for z in (subst(k, mp) for k in hyps if k is not h) if z is not TRUE]
                goal = subst(goal, mp)
                break
        else: break
    return hyps, goal


def gprove(hyps, goal, timeout=None, quick=False):
    hyps = [h for h in solve.conj(hyps) if h is not TRUE]
    hyps, goal = sym_eqs(hyps, goal)
    if goal is TRUE: return Yes()
    if goal.op == 'and':
        for g in goal.args:
            r = gprove(hyps, g, timeout)
            if not r: return r
        return r
    if goal.op == 'all':
        v, lo, hi, body = goal.args
        sk = fresh('sk')
        return gprove(hyps + [le(lo, sk), lt(sk, hi)], subst(body, {v: sk}), timeout)
    if goal.op == 'or' and goal.args[0].op != 'all':
        return gprove(hyps + [Not(g) for g in goal.args], FALSE, timeout)
    # split on the conditions of conditional values
    for c in ite_conditions(goal):
        if not solve.closed(c): continue
        if any(isinstance(a, T) and a.op == 'ite' for a in subterms(c)): continue
        for k, h in ((TRUE, c), (FALSE, Not(c))):
            r = gprove(hyps + [h], subst(goal, {c: k}), timeout)
            if not r: return r
        return r
    g = canon(goal, hyps)
    if g is TRUE: return Yes()
    ab = mod_eq(g)
    if ab is not None:
        r = gprove(hyps, eq(*ab), timeout, quick)
        if r: return r
    r = dims.prove(hyps, g, quick=quick)
    if r: return r
    f = sumfacts(hyps, g) + prodfacts(hyps, g) + indexfacts(hyps, g)
    f = [canon(x, hyps) for x in f]
    r = solve.prove(hyps + f, g, timeout=timeout)
    if r: return r
    f += stepfacts(hyps, g)
    return dims.prove(hyps + f, g, timeout=timeout)


class GVC(VC):
    def run(self):
        t0 = time.time()
        try:
            if self.goal is TRUE: self.ok = True; self.by = 'simplifier'
            else:
                r = gprove(self.hyps, self.goal)
                self.ok = bool(r.ok); self.by = r.by; self.why = r.info
        except TooBig: self.ok = False; self.why = 'term too big'
        self.t = time.time() - t0
        return self.ok


def candidates(u, g, v0, t, hy):
    """closed forms for a loop-carried integer, read off the divisions it takes part in"""
    out = []
    ds = []
    for a in subterms(u):
        if a.op in ('div', 'mod') and a.args[0] is g: ds.append(a.args[1])
    for D in dict.fromkeys(ds):
        out.append(imod(v0, subst(D, {t: t - 1})))
        s_ = fresh('s')
        out.append(idiv(v0, Prod(s_, Z, t, subst(D, {t: s_}))))
    return out


class GExec(CppExec):
    def __init__(self, tu):
        CppExec.__init__(self, tu)

    # ---- constructors
    def run_inits(self, f):
        for c in f.get('inner', ()):
            if c.get('kind') != 'CXXCtorInitializer': continue
            e = self.kids(c)[0]
            this = self.st.vars['this']
            v = self.rv(e)
            if 'baseInit' in c:
                h = self.H(v) if isinstance(v, LObj) else {}
                self.H(this).update({k: x for k, x in h.items() if k not in ('cls', 'name')})
                if isinstance(v, Opaque): self.H(this)['_handle'] = v
            else: self.H(this)[c['anyInit']['name']] = v

    # ---- a conversion to a narrower type must keep the value
    def int_cast(self, v, src, dst):
        r = CppExec.int_cast(self, v, src, dst)
        if isinstance(r, T) and r.op == 'fn' and str(r.args[0]).startswith('narrow'):
            wd = int(r.args[0][6:])
            self.oblige('conversion to %s keeps the value' % dst, And(ge(v, num(-(1 << (wd - 1)))), le(v, num((1 << (wd - 1)) - 1))), None)
            return v
        return r

    def binop(self, op, x, y, n):
        r = CppExec.binop(self, op, x, y, n)
        if op in ('/', '%') and isinstance(r, T): return canon(r, self.st.hyps())
        return r

    # ---- closed forms, checked: F(0) = v0, F(t+1) = u(F(t))
    def solve_group(self, L, st0, gens, gset, upd, app, t, trip, hy0, norm, guards, npc0, hasgen, sol, n):
        rng = [ge(t, Z), lt(t, trip)]
        for g in list(gset):
            k, v0 = gens[g]
            u = app(upd[g])
            if u.sort != 'I' or (set(syms(u)) & gset) - {g} or cur_atoms(u, L): continue
            cs = candidates(u, g, v0, t, hy0)
            for F in self.affine(u, g, v0, t, hasgen, hy0 + rng):
                sol[g] = canon(F, hy0 + rng); gset.discard(g)
                return True
            for F in cs:
                F = canon(F, hy0 + rng)
                if not gprove(hy0 + [lt(Z, trip)], eq(subst(F, {t: Z}), v0), quick=True): continue
                step = eq(canon(subst(u, {g: F}), hy0 + rng), canon(subst(F, {t: t + 1}), hy0 + rng))
                if step is TRUE or gprove(hy0 + rng, step):
                    sol[g] = F; gset.discard(g)
                    return True
        return False

    def affine(self, u, g, v0, t, hasgen, hy):
        """u = g*a + b:  v0*prod a + sum_s b(s) * prod_{r>s} a(r)"""
        if u.op == 'ite': return []
        a, b = polydiv(u, g)
        if g in syms(a) or g in syms(b) or (isnum(a) and a.args[0] == 0): return []
        s_ = fresh('s'); r_ = fresh('r')
        pr = lambda lo: Prod(r_, lo, t, subst(a, {t: r_}))
        return [v0 * pr(Z) + Sum(s_, Z, t, subst(b, {t: s_}) * pr(s_ + 1))]


# ------------------------------------------------------------------ contracts
S = lambda d: sel('s', d, sort='I')
B = lambda d: sel('b', d, sort='I')
def PP(f, lo, hi):
    v = fresh('d')
    return Prod(v, lo, hi, f(v))
def all_pos(n, f):
    v = fresh('d')
    return forall(v, Z, n, ge(f(v), ONE))
def rng(d, n): return [ge(d, Z), lt(d, n)]


class Fn(object):
    """runs one function of the real source and collects the obligations"""
    def __init__(self, tu, f, name):
        self.tu = tu; self.f = f; self.name = name; self.ex = GExec(tu); self.vcs = []

    def run(self, init):
        self.paths = run_function(self.ex, self.f, init)
        return self.paths

    def add(self, name, hyps, goal, ln=0, kind='post'): self.vcs.append(GVC(self.name, name, hyps, goal, ln, kind))

    def throws(self, ok, what):
        """the function throws exactly when not ok (ok over the initial values)"""
        for kind, val, st, _ in self.paths:
            if kind == 'throw': self.add('rejects only: %s' % what, st.hyps(), Not(ok), val, 'throw')
            else: self.add('accepts only: not (%s)' % what, st.hyps(), ok, 0, 'throw')

    def results(self):
        for kind, val, st, _ in self.paths:
            if kind != 'throw':
                self.ex.st = st
                yield kind, val, st

    def finish(self):
        for o in self.ex.obl: self.add(o.name, o.hyps, o.goal, o.line, 'safety')
        return self.vcs


def vec_eq(F, what, v, n, f, st, ln=0):
    ex = F.ex
    if isinstance(v, LV) and not isinstance(v, LObj): v = ex.load(v)
    if not isinstance(v, LObj) or ex.H(v).get('cls') != 'vec':
        F.add('%s is a vector' % what, st.hyps(), FALSE, ln); return
    F.add('length of %s' % what, st.hyps(), eq(ex.H(v)['len'], n), ln)
    d = fresh('d')
    hy = st.hyps() + rng(d, n)
    F.add('value of %s[d]' % what, hy, eq(ex.vec_read(v, d, hy), f(d)), ln)


def find(tu, qual, prefix='', nparams=None):
    fs = [f for f in tu.find(qual, nparams=nparams) if f['type']['qualType'].startswith(prefix) and not f.get('isImplicit')]
    return fs


NDIM = sym('n')


def invec(ex, name, n=NDIM, f=None):
    return ex.new_vec(name, n, f or (lambda d: sel(name, d, sort='I')), writable=False)


def geometry(F, o, n, f, st, pre=''):
    """o describes the column-major geometry of the extents f(0..n-1)  (contract of TileTraits)"""
    ex = F.ex; h = ex.H(o)
    for k in ('ndim', 'nelems', 'shape', 'stride', 'matrix_shape'):
        if k not in h: F.add('%s%s is set' % (pre, k), st.hyps(), FALSE); return
    F.add(pre + 'ndim', st.hyps(), eq(h['ndim'], n))
    F.add(pre + 'nelems is the product of the extents', st.hyps(), eq(h['nelems'], PP(f, Z, n)))
    vec_eq(F, pre + 'shape', h['shape'], n, f, st)
    vec_eq(F, pre + 'stride', h['stride'], n, lambda d: PP(f, Z, d), st)
    F.add(pre + 'length of matrix_shape', st.hyps(), eq(ex.H(h['matrix_shape'])['len'], n + 1))
    d = fresh('d')
    hy = st.hyps() + [ge(d, Z), le(d, n)]
    F.add(pre + 'matrix_shape[d][0]', hy, eq(ex.vec_read(h['matrix_shape'], (d, Z), hy), PP(f, Z, d)))
    F.add(pre + 'matrix_shape[d][1]', hy, eq(ex.vec_read(h['matrix_shape'], (d, ONE), hy), PP(f, d, n)))


def c01_ctor(tu):
    out = []
    for f in find(tu, 'nntile::tile::TileTraits::TileTraits', 'void (const std::vector', 1):
        F = Fn(tu, f, 'tile::TileTraits::TileTraits')
        def init():
            F.ex.st.pc.append((ge(NDIM, Z), False))
            F.ex.st.vars['this'] = F.ex.obj('TileTraits')
            F.ex.st.vars[tu.params(f)[0]['id']] = invec(F.ex, 's')
        F.run(init)
        F.throws(all_pos(NDIM, S), 'an extent is not positive')
        for kind, val, st in F.results():
            geometry(F, st.vars['this'], NDIM, S, st)
        out.append(F)
    return out


def self_traits(F, ex):
    ex.st.pc.append((ge(NDIM, Z), False))
    ex.pos_facts(NDIM, S)
    ex.st.vars['this'] = ex.traits(NDIM, S, 't')


def in_shape(n, x, f):
    v = fresh('d')
    return forall(v, Z, n, And(ge(x(v), Z), lt(x(v), f(v))))


X = lambda d: sel('x', d, sort='I')


def c02(tu):
    out = []
    T_ = 'nntile::tile::TileTraits::'
    ni = sym('ni')
    def with_index(F, f):
        def init():
            self_traits(F, F.ex)
            F.ex.st.pc.append((ge(ni, Z), False))
            F.ex.st.vars[tu.params(f)[0]['id']] = invec(F.ex, 'x', ni)
        return init
    for f in find(tu, T_ + 'index_to_linear', '', 1):
        F = Fn(tu, f, 'tile::TileTraits::index_to_linear')
        F.run(with_index(F, f))
        F.throws(And(eq(ni, NDIM), in_shape(NDIM, X, S)), 'wrong length or a coordinate out of range')
        for kind, val, st in F.results():
            v = fresh('d')
            F.add('offset is the sum of index times stride', st.hyps(), eq(val, Sum(v, Z, NDIM, X(v) * PP(S, Z, v))) if isinstance(val, T) else FALSE)
        out.append(F)
    for f in find(tu, T_ + 'contains_index', '', 1):
        F = Fn(tu, f, 'tile::TileTraits::contains_index')
        F.run(with_index(F, f))
        F.throws(eq(ni, NDIM), 'index of wrong length')
        for kind, val, st in F.results():
            inside = in_shape(NDIM, X, S)
            if not isinstance(val, T): F.add('a truth value is returned', st.hyps(), FALSE); continue
            val = asbool(val)
            F.add('true only for indices inside the shape', st.hyps() + [val], inside)
            F.add('true for every index inside the shape', st.hyps() + [inside], val)
        out.append(F)
    for f in find(tu, T_ + 'linear_to_index', '', 1):
        F = Fn(tu, f, 'tile::TileTraits::linear_to_index')
        off = sym('off')
        def init():
            self_traits(F, F.ex)
            F.ex.st.vars[tu.params(f)[0]['id']] = off
        F.run(init)
        F.throws(And(ge(off, Z), lt(off, PP(S, Z, NDIM))), 'offset outside of [0, nelems)')
        for kind, val, st in F.results():
            vec_eq(F, 'the index', val, NDIM, lambda d: idiv(imod(off, PP(S, Z, d + 1)), PP(S, Z, d)), st)
        out.append(F)
    return out


# ------------------------------------------------------------------ C03
G = lambda d: sel('g', d, sort='I')


def grid_def(n, g=G):
    """g(d) = ceil(s(d)/b(d))"""
    v = fresh('d')
    return forall(v, Z, n, And(ge(g(v), ONE), lt((g(v) - 1) * B(v), S(v)), le(S(v), g(v) * B(v))))


def c03(tu):
    out = []
    nb = sym('nb')
    for f in find(tu, 'nntile::tensor::TensorTraits::TensorTraits', 'void (const std::vector', 2):
        F = Fn(tu, f, 'tensor::TensorTraits::TensorTraits')
        ps = tu.params(f)
        def init():
            ex = F.ex
            ex.st.pc.append((ge(NDIM, Z), False)); ex.st.pc.append((ge(nb, Z), False))
            ex.st.vars['this'] = ex.obj('TensorTraits')
            ex.st.vars[ps[0]['id']] = invec(ex, 's'); ex.st.vars[ps[1]['id']] = invec(ex, 'b', nb)
        F.run(init)
        F.throws(And(all_pos(NDIM, S), eq(nb, NDIM), all_pos(NDIM, B)), 'shape or base tile shape is invalid')
        for kind, val, st in F.results():
            ex = F.ex; o = st.vars['this']; h = ex.H(o)
            geometry(F, o, NDIM, S, st)
            vec_eq(F, 'basetile_shape', h.get('basetile_shape'), NDIM, B, st)
            gr = h.get('grid')
            if not isinstance(gr, LObj): F.add('grid is set', st.hyps(), FALSE); continue
            gs = ex.H(gr)['shape']
            F.add('length of grid.shape', st.hyps(), eq(ex.H(gs)['len'], NDIM))
            d = fresh('d'); hy = st.hyps() + rng(d, NDIM)
            g = ex.vec_read(gs, d, hy)
            F.add('grid.shape[d] = ceil(shape[d] / basetile_shape[d])', hy, And(ge(g, ONE), lt((g - 1) * B(d), S(d)), le(S(d), g * B(d))))
            ex.st = st
            geometry(F, gr, NDIM, lambda q: ex.vec_read(gs, q, st.hyps()), st, 'grid.')
            lo = h.get('leftover_shape')
            vec_eq(F, 'leftover_shape', lo, NDIM, lambda q: S(q) - (ex.vec_read(gs, q, st.hyps()) - 1) * B(q), st)
            l = ex.vec_read(lo, d, hy)
            F.add('leftover extent between 1 and the base extent', hy, And(ge(l, ONE), le(l, B(d))))
            F.add('tile extents sum to the tensor extent', hy, eq((g - 1) * B(d) + l, S(d)))
        out.append(F)
    for f in find(tu, 'nntile::tensor::TensorTraits::get_tile_shape', '', 1):
        F = Fn(tu, f, 'tensor::TensorTraits::get_tile_shape')
        ni = sym('ni')
        def init():
            ex = F.ex
            tensor_traits(ex)
            ex.st.pc.append((ge(ni, Z), False))
            ex.st.vars[tu.params(f)[0]['id']] = invec(ex, 'x', ni)
        F.run(init)
        F.throws(And(eq(ni, NDIM), in_shape(NDIM, X, G)), 'wrong length or a tile index outside of the grid')
        for kind, val, st in F.results():
            vec_eq(F, 'the tile shape', val, NDIM, lambda d: ite(eq(X(d), G(d) - 1), S(d) - (G(d) - 1) * B(d), B(d)), st)
        out.append(F)
    return out


def tensor_traits(ex):
    """an object that satisfies the contract of TensorTraits"""
    ex.st.pc.append((ge(NDIM, Z), False))
    ex.pos_facts(NDIM, S); ex.pos_facts(NDIM, B)
    ex.st.pc.append((grid_def(NDIM), False))
    t = ex.traits(NDIM, S, 't', 'TensorTraits')
    h = ex.H(t)
    h['basetile_shape'] = invec(ex, 'b', NDIM, B)
    h['grid'] = ex.traits(NDIM, G, 'grid')
    h['leftover_shape'] = invec(ex, 'l', NDIM, lambda d: S(d) - (G(d) - 1) * B(d))
    ex.st.vars['this'] = t
    return t


# ------------------------------------------------------------------ C04
M = lambda d: sel('m', d, sort='I')
INTMAX = num((1 << 31) - 1)


def c04(tu):
    out = []
    for f in find(tu, 'nntile::tensor::distributions::block_cyclic', '', 4):
        F = Fn(tu, f, 'tensor::distributions::block_cyclic')
        ps = tu.params(f)
        nm = sym('nm'); start = sym('start'); mx = sym('max')
        def init():
            ex = F.ex; st = ex.st
            for x in (NDIM, nm): st.pc.append((ge(x, Z), False))
            st.vars[ps[0]['id']] = invec(ex, 's'); st.vars[ps[1]['id']] = invec(ex, 'm', nm)
            st.vars[ps[2]['id']] = start; st.vars[ps[3]['id']] = mx
            for x in (start, mx): st.pc.append((And(ge(x, -INTMAX - 1), le(x, INTMAX)), False))
            v = fresh('d')
            st.pc.append((all_pos(NDIM, S), False))
            st.pc.append((forall(v, Z, nm, And(ge(M(v), ONE), le(M(v), INTMAX))), False))
            # precondition: the ranks of the process grid, shifted by the start rank, are ints
            st.pc.append((le(PP(M, Z, nm) + mx, INTMAX), False))
        F.run(init)
        F.throws(And(eq(nm, NDIM), ge(start, Z), lt(start, mx)), 'grids of different rank or start rank outside of [0, max_rank)')
        for kind, val, st in F.results():
            ex = F.ex
            N = PP(S, Z, NDIM)
            def rank(i):
                v = fresh('d')
                K = ex.mklam(NDIM, lambda d, h: S(d))
                return imod(start + Sum(v, Z, NDIM, imod(l2i(K, NDIM, i, v), M(v)) * PP(M, Z, v)), mx)
            vec_eq(F, 'the ranks', val, N, rank, st)
            d = fresh('i'); hy = st.hyps() + rng(d, N)
            if isinstance(val, LObj):
                r = ex.vec_read(val, d, hy)
                F.add('every rank in [0, max_rank)', hy, And(ge(r, Z), lt(r, mx)))
        out.append(F)
    return out


# ------------------------------------------------------------------ Tensor, Tile objects
class TExec(GExec):
    PAIRINV = True
    """vectors of tile traits and of handles: elements are recorded as events with their position"""
    def __init__(self, tu):
        GExec.__init__(self, tu)
        self.last = {}

    def construct_obj(self, ty, ks, n):
        b = clean(ty)
        m = re.match(r'(?:std::)?vector<(.*)>$', b)
        if m and re.search(r'TileTraits|VariableHandle', m.group(1)) and not ks:
            return self.obj('ovec', len=Z, elem=m.group(1))
        if b.endswith('VariableHandle') and len(ks) == 3:
            return Opaque('bound', *self.argvals(ks))
        if b.endswith('TensorTraits') and len(ks) == 1:
            v = self.rv(ks[0])
            if isinstance(v, LObj): return self.copy_obj(v)
        if re.search(r'tile::Tile<', b) and len(ks) == 2:
            vals = self.argvals(ks)
            if isinstance(vals[0], Opaque): return Opaque('tile', *vals)
        return GExec.construct_obj(self, ty, ks, n)

    def global_value(self, q, r):
        return GExec.global_value(self, q, r)

    def member_call(self, b, nm, args, n, c):
        if isinstance(b, LObj) and self.H(b)['cls'] == 'ovec':
            h = self.H(b)
            if nm == 'reserve': self.argvals(args); return Opaque('void')
            if nm == 'size': return h['len']
            if nm in ('emplace_back', 'push_back'):
                vals = self.argvals([a for a in args if a['kind'] != 'CXXDefaultArgExpr'])
                o = None
                if len(vals) == 1 and isinstance(vals[0], LObj):
                    v = vals[0]
                    o = self.make_traits(v, n) if self.H(v)['cls'] == 'vec' else self.copy_obj(v)
                    sh = self.H(o)['shape']
                    vals = [Opaque('vec', self.H(sh)['len'], self.veclam(sh)), self.H(o)['nelems']]
                k = h['len']
                self.event('push:' + b.oid, [k] + vals, n)
                self.last[b.oid] = (k, o)
                h['len'] = k + 1
                return Opaque('void')
            if nm == 'back' and b.oid in self.last: return self.last[b.oid][1]
        return GExec.member_call(self, b, nm, args, n, c)

    def e_CXXOperatorCallExpr(self, n):
        ks = self.kids(n)
        nm = self.strip_casts(ks[0]).get('referencedDecl', {}).get('name')
        if nm == 'operator[]':
            b = self.ev(ks[1])
            if isinstance(b, LV) and not isinstance(b, (LObj, LMem)): b = self.load(b)
            if isinstance(b, LObj) and self.H(b)['cls'] == 'ovec':
                i = self.rv(ks[2])
                h = self.H(b)
                self.oblige('element of the vector exists', And(ge(i, Z), lt(i, h['len'])), n)
                if b.oid in self.last:
                    k, o = self.last[b.oid]
                    if o is not None and self.prove(self.st.hyps(), eq(k, i), quick=True): return o
                    raise Undecided('element of a vector of objects')
                return Opaque('elem', h.get('name'), i)
        return GExec.e_CXXOperatorCallExpr(self, n)

    def geom_call(self, b, cls, nm, args, n):
        if nm == 'get_tile_shape':
            v = self.rv(args[0]); h = self.H(b)
            self.require(eq(self.H(v)['len'], h['ndim']), n)
            g = self.H(h['grid'])['shape']
            self.require(self.in_range_all(h['ndim'], lambda d, hy: self.vec_read(v, d, hy), self.veclam(g)), n)
            x = self.copy_vec(v)
            f = lambda d: ite(eq(self.vec_read(x, d, self.fn_hyps), G(d) - 1), S(d) - (G(d) - 1) * B(d), B(d))
            return self.new_vec('tile_shape', h['ndim'], f)
        if cls == 'Tensor' and nm not in ('linear_to_index', 'index_to_linear', 'contains_index'): return None
        return GExec.geom_call(self, b, cls, nm, args, n)


def sizeof(T_): return num({'float': 4, 'double': 8, 'nntile::fp32_t': 4, 'nntile::fp64_t': 8}[T_])


def class_targ(tu, f):
    p = tu.parent.get(f['id'])
    for c in (p or {}).get('inner', ()):
        if c.get('kind') == 'TemplateArgument': return c.get('type', {}).get('qualType')
    return None


def c03_tensor(tu):
    out = []
    for f in find(tu, 'nntile::tensor::Tensor::Tensor', 'void (const TensorTraits', 3) + find(tu, 'nntile::tensor::Tensor::Tensor', 'void (const nntile::tensor::TensorTraits', 3):
        ta = class_targ(tu, f)
        if ta is None: continue
        F = Fn(tu, f, 'tensor::Tensor<%s>::Tensor' % ta); F.ex = TExec(tu)
        ps = tu.params(f); nd = sym('nd'); tag = sym('tag')
        def init():
            ex = F.ex
            ex.last = {}
            t = tensor_traits(ex)
            ex.st.pc.append((ge(nd, Z), False))
            ex.st.vars['this'] = ex.obj('Tensor')
            ex.st.vars[ps[0]['id']] = t
            ex.st.vars[ps[1]['id']] = invec(ex, 'distr', nd)
            ex.st.vars['tag'] = tag
            ex.st.vars[ps[2]['id']] = LVar('tag')
        F.run(init)
        N = PP(G, Z, NDIM)
        F.throws(eq(nd, N), 'distribution of wrong length')
        for kind, val, st in F.results():
            ex = F.ex; o = st.vars['this']; h = ex.H(o)
            hy = st.hyps()
            geometry(F, o, NDIM, S, st)
            vec_eq(F, 'basetile_shape', h.get('basetile_shape'), NDIM, B, st)
            geometry(F, h['grid'], NDIM, G, st, 'grid.')
            vec_eq(F, 'leftover_shape', h.get('leftover_shape'), NDIM, lambda d: S(d) - (G(d) - 1) * B(d), st)
            vec_eq(F, 'tile_distr', h.get('tile_distr'), nd, lambda d: sel('distr', d, sort='I'), st)
            for fld, what in (('tile_traits', 'tile'), ('tile_handles', 'handle')):
                v = h.get(fld)
                if not isinstance(v, LObj) or ex.H(v).get('cls') != 'ovec': F.add(fld + ' is a vector', hy, FALSE); continue
                F.add('one %s per grid position' % what, hy, eq(ex.H(v)['len'], N))
                evs = [e for e in st.trace if isinstance(e.val, Traced) and e.val.name == 'push:' + v.oid]
                if len(evs) != 1 or len(evs[0].binders) != 1: F.add('%s entries are appended in one loop over the grid' % fld, hy, FALSE); continue
                e = evs[0]; (b, n), = e.binders
                hb = hy + rng(b, n)
                F.add('every grid position gets a %s' % what, hb, e.guard, e.line)
                F.add('%s number i belongs to grid position i' % what, hb, eq(e.val.args[0], b), e.line)
                K = ex.mklam(NDIM, lambda d, hh: G(d))
                ext = lambda d: ite(eq(l2i(K, NDIM, b, d), G(d) - 1), S(d) - (G(d) - 1) * B(d), B(d))
                d = fresh('d')
                if what == 'tile':
                    a = e.val.args[1]
                    if not (isinstance(a, Opaque) and a.kind == 'vec'): F.add('tile shape', hb, FALSE, e.line); continue
                    F.add('rank of the tile', hb, eq(a.data[0], NDIM), e.line)
                    F.add('extents of the tile', hb + rng(d, NDIM), eq(lamapp(a.data[1], d), ext(d)), e.line)
                else:
                    a = e.val.args[1]
                    w = fresh('d')
                    F.add('byte size of the tile', hb, eq(a, sizeof(ta) * Prod(w, Z, NDIM, ext(w))) if isinstance(a, T) else FALSE, e.line)
        out.append(F)
    return out


def tensor_object(ex):
    t = tensor_traits(ex)
    h = ex.H(t)
    h['cls'] = 'Tensor'
    N = PP(G, Z, NDIM)
    for fld in ('tile_traits', 'tile_handles'): h[fld] = ex.obj('ovec', len=N, name=fld)
    return t


def c03_access(tu):
    """get_tile, get_tile_traits, get_tile_handle return the entry of the tile asked for"""
    out = []
    N = PP(G, Z, NDIM); off = sym('off'); ni = sym('ni')
    for nm in ('get_tile', 'get_tile_traits', 'get_tile_handle'):
        for f in find(tu, 'nntile::tensor::Tensor::' + nm, '', 1):
            ta = class_targ(tu, f)
            if ta is None: continue
            p = tu.params(f)[0]
            byindex = 'vector' in tyof(p)
            F = Fn(tu, f, 'tensor::Tensor<%s>::%s(%s)' % (ta, nm, 'index' if byindex else 'offset')); F.ex = TExec(tu)
            def init():
                ex = F.ex; ex.last = {}
                tensor_object(ex)
                if byindex:
                    ex.st.pc.append((ge(ni, Z), False))
                    ex.st.vars[p['id']] = invec(ex, 'x', ni)
                else:
                    if nm != 'get_tile': ex.st.pc.append((And(ge(off, Z), lt(off, N)), False))     # unchecked by documentation of the callers
                    ex.st.vars[p['id']] = off
            F.run(init)
            if byindex: F.throws(And(eq(ni, NDIM), in_shape(NDIM, X, G)), 'tile index outside of the grid')
            elif nm == 'get_tile': F.throws(And(ge(off, Z), lt(off, N)), 'tile offset outside of the grid')
            else: F.throws(TRUE, 'nothing')
            for kind, val, st in F.results():
                ex = F.ex; hy = st.hyps()
                if isinstance(val, LV) and not isinstance(val, LObj): val = ex.load(val)
                v = fresh('d')
                want = off if not byindex else dims.lin(ex.mklam(NDIM, lambda d, h: G(d)), NDIM, ex.mklam(NDIM, lambda d, h: X(d)))
                flds = {'get_tile': ('tile_traits', 'tile_handles'), 'get_tile_traits': ('tile_traits',), 'get_tile_handle': ('tile_handles',)}[nm]
                parts = val.data if isinstance(val, Opaque) and val.kind == 'tile' else (val,)
                if len(parts) != len(flds): F.add('result', hy, FALSE); continue
                for q, fld in zip(parts, flds):
                    F.add('%s of the tile asked for' % fld, hy, eq(q.data[1], want) if isinstance(q, Opaque) and q.kind == 'elem' and q.data[0] == fld else FALSE)
            out.append(F)
    return out


def c01_tile(tu):
    """constructors of Tile: a registered buffer of exactly the bytes of the shape; user memory must be large enough"""
    out = []
    pn = sym('pn')
    for f in find(tu, 'nntile::tile::Tile::Tile', ''):
        ta = class_targ(tu, f)
        ps = tu.params(f)
        if ta is None or f.get('isImplicit') or not ps: continue
        kinds = ['vec' if 'vector' in tyof(p) else 'ptr' if is_ptr(tyof(p)) else 'handle' if 'Handle' in tyof(p) else 'int' if sort_of(tyof(p)) == 'I' else 'traits' for p in ps]
        F = Fn(tu, f, 'tile::Tile<%s>::Tile(%s)' % (ta, ','.join(kinds))); F.ex = TExec(tu)
        def init():
            ex = F.ex; ex.last = {}
            ex.st.pc.append((ge(NDIM, Z), False))
            ex.st.vars['this'] = ex.obj('Tile')
            for k, p in zip(kinds, ps):
                if k == 'vec': v = invec(ex, 's')
                elif k == 'traits':
                    ex.pos_facts(NDIM, S); v = ex.traits(NDIM, S, 't')
                elif k == 'ptr': v = Ptr(ex.new_region('user', None), (Z,))
                elif k == 'int': v = pn
                else: v = Opaque('handle', 'H', Z)
                ex.st.vars[p['id']] = v
        F.run(init)
        ok = all_pos(NDIM, S)
        if 'int' in kinds:
            ok = And(ok, le(PP(S, Z, NDIM), pn))
        F.throws(ok, 'invalid shape or memory smaller than the shape')
        for kind, val, st in F.results():
            geometry(F, st.vars['this'], NDIM, S, st)
            o = F.ex.H(st.vars['this']).get('_handle')
            if 'handle' in kinds: F.add('the tile refers to the handle it was given', st.hyps(), TRUE if isinstance(o, Opaque) and o.kind == 'handle' else FALSE); continue
            a = None
            if isinstance(o, Opaque): a = o.data[0] if o.kind == 'scratch' else o.data[1] if o.kind == 'bound' else None
            F.add('bytes of the buffer', st.hyps(), eq(a, sizeof(ta) * PP(S, Z, NDIM)) if isinstance(a, T) else FALSE)
        out.append(F)
    return out
