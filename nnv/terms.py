"""Hash-consed term language with polynomial normal form (integers and reals).

Integers are mathematical integers, reals are mathematical reals (the floating
point types of the code are modelled by reals, see DESIGN.md, "assumptions").
inv(x) is a total function with inv(0)=0; x*inv(x) is NOT simplified to 1.
"""
from fractions import Fraction as Q
import math

_intern = {}
_count = [0]


class T(object):
    __slots__ = ('op', 'args', 'sort', 'id', '_syms', '_key')

    def __add__(a, b): return add(a, lift(b, a.sort))
    __radd__ = __add__
    def __neg__(a): return scale(a, Q(-1))
    def __sub__(a, b): return add(a, scale(lift(b, a.sort), Q(-1)))
    def __rsub__(a, b): return add(lift(b, a.sort), scale(a, Q(-1)))
    def __mul__(a, b): return mul(a, lift(b, a.sort))
    __rmul__ = __mul__
    def __truediv__(a, b): return mul(a, inv(lift(b, 'R')))
    def __rtruediv__(a, b): return mul(lift(b, 'R'), inv(a))
    def __pow__(a, n):
        r = num(1, a.sort)
        for _ in range(n):
            r = mul(r, a)
        return r
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id
    def __bool__(self): raise TypeError('symbolic term used as a bool: %r' % self)


def mk(op, args, sort):
    k = (op, args, sort)
    t = _intern.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _count[0] += 1
        t.id = _count[0]
        t._syms = None
        t._key = None
        _intern[k] = t
    return t


def lift(x, sort='I'):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return num(x, sort)


def num(x, sort='I'):
    if sort == 'B':
        return TRUE if x else FALSE
    if isinstance(x, float):
        x = Q(x)
    return mk('num', (Q(x),), sort)


def sym(name, sort='I'):
    return mk('sym', (name,), sort)


_fresh = [0]


def fresh(base, sort='I'):
    _fresh[0] += 1
    return mk('sym', ('%s!%d' % (base, _fresh[0]),), sort)


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def isnum(t): return t.op == 'num'


def terms_of(t):
    """list of (coef, mono) of an arithmetic term"""
    if t.op == 'num':
        c = t.args[0]
        return ((c, ()),) if c != 0 else ()
    if t.op == 'poly':
        return t.args
    return ((Q(1), ((t, 1),)),)


def _monokey(m):
    return tuple((a.id, e) for a, e in m)


def from_terms(d, sort):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return num(0, sort)
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].sort == sort:
            return m[0][0]
    items.sort(key=lambda mc: _monokey(mc[0]))
    return mk('poly', tuple((c, m) for m, c in items), sort)


def _sort2(a, b):
    if a.sort == 'R' or b.sort == 'R':
        return 'R'
    return 'I'


def asbool(t):
    """C++ value used as condition"""
    if t.sort == 'B':
        return t
    return Not(eq(t, num(0, t.sort)))


def asint(t):
    if t.sort == 'B':
        if t is TRUE: return num(1)
        if t is FALSE: return num(0)
        return ite(t, num(1), num(0))
    return t


def add(a, b):
    a = asint(a); b = asint(b)
    s = _sort2(a, b)
    d = {}
    for c, m in terms_of(a):
        d[m] = d.get(m, 0) + c
    for c, m in terms_of(b):
        d[m] = d.get(m, 0) + c
    return from_terms(d, s)


def scale(a, q):
    a = asint(a)
    if q == 1: return a
    return from_terms({m: c * q for c, m in terms_of(a)}, a.sort)


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    return d


def _mono_norm(d):
    """d: atom->exp ; returns (coef, mono, extra_factor_term or None)"""
    exps = [a for a in d if a.op == 'fn' and a.args[0] == 'exp']
    extra = None
    if len(exps) > 1 or any(d[a] > 1 for a in exps):
        arg = num(0, 'R')
        for a in exps:
            arg = add(arg, scale(a.args[1], Q(d.pop(a))))
        extra = fn('exp', arg)
    # sqrt(x)^2 = x only when x>=0: not simplified, except positive constants
    for a in list(d):
        if a.op == 'fn' and a.args[0] == 'sqrt' and d[a] > 1 and isnum(a.args[1]) and a.args[1].args[0] >= 0:
            n = d.pop(a)
            if n % 2: d[a] = 1
            f = num(a.args[1].args[0] ** (n // 2), 'R')
            extra = f if extra is None else mul(extra, f)
        elif a.op == 'fn' and a.args[0] == 'fabs' and d[a] > 1:
            n = d.pop(a)
            if n % 2: d[a] = 1
            f = num(1, 'R')
            for _ in range(n // 2 * 2): f = mul(f, a.args[1])
            extra = f if extra is None else mul(extra, f)
    m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
    return m, extra


def mul(a, b):
    a = asint(a); b = asint(b)
    s = _sort2(a, b)
    ta = terms_of(a); tb = terms_of(b)
    if len(ta) * len(tb) > 4000:
        raise TooBig()
    d = {}
    extras = []
    for c1, m1 in ta:
        for c2, m2 in tb:
            if not m1:
                m, ex = m2, None
            elif not m2:
                m, ex = m1, None
            else:
                m, ex = _mono_norm(_mono_mul(m1, m2))
            if ex is None:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                extras.append((c1 * c2, m, ex))
    r = from_terms(d, s)
    for c, m, ex in extras:
        r = add(r, mul(from_terms({m: c}, s), ex))
    return r


class TooBig(Exception):
    pass


def toreal(t):
    t = asint(t)
    if t.sort == 'R':
        return t
    if t.op == 'num':
        return num(t.args[0], 'R')
    if t.op == 'ite':
        return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    d = {}
    for c, m in terms_of(t):
        d[m] = d.get(m, 0) + c
    items = sorted(((m, c) for m, c in d.items()), key=lambda mc: _monokey(mc[0]))
    return mk('poly', tuple((c, m) for m, c in items), 'R')


def inv(p):
    p = toreal(p)
    if p.op == 'num':
        c = p.args[0]
        return num(0 if c == 0 else 1 / c, 'R')
    ts = terms_of(p)
    if len(ts) == 1:
        c, m = ts[0]
        r = num(1 / c, 'R')
        for a, e in m:
            for _ in range(e):
                r = mul(r, _inv_atom(a))
        return r
    # normalise leading coefficient
    lead = ts[0][0]
    q = scale(p, 1 / lead)
    # factor a common exp() ? not needed
    return scale(mk('inv', (q,), 'R'), 1 / lead)


def _inv_atom(a):
    if a.op == 'inv':
        return a.args[0]
    if a.op == 'fn' and a.args[0] == 'exp':
        return fn('exp', scale(a.args[1], Q(-1)))
    if a.op == 'ite':
        return ite(a.args[0], inv(a.args[1]), inv(a.args[2]))
    return mk('inv', (toreal(a) if a.sort == 'I' else a,), 'R')


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort != b.sort:
        if 'B' in (a.sort, b.sort):
            a, b = asint(a), asint(b)
        if a.sort != b.sort:
            a, b = toreal(a), toreal(b)
        if a is b: return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return Not(c)
        return Or(And(c, a), And(Not(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'eq':
        # ite(x == r, a, b) where b at x == r is a
        p = c.args[0]
        for co, mo in terms_of(p):
            if len(mo) == 1 and mo[0][1] == 1 and (mo[0][0].op == 'sel' or mo[0][0].op == 'sym'):
                x = mo[0][0]
                if x.sort != p.sort or (p.sort == 'I' and abs(co) != 1): continue
                r = x - scale(p, 1 / co)
                if x in subterms(r): continue
                if subst(b, {x: r}) is subst(a, {x: r}): return b
                break
    # simplify nested branches on the same condition
    a2 = _assume_in(a, c, True)
    b2 = _assume_in(b, c, False)
    if a2 is b2: return a2
    return mk('ite', (c, a2, b2), a.sort)


def _assume_in(t, c, v):
    if t.op == 'ite' and t.args[0] is c:
        return t.args[1] if v else t.args[2]
    return t


def fn(name, *args):
    args = tuple(toreal(a) if a.sort == 'I' and name in REALFN else a for a in args)
    if name == 'exp':
        a = args[0]
        if isnum(a) and a.args[0] == 0: return num(1, 'R')
        if a.op == 'fn' and a.args[0] == 'log_': return a.args[1]
    elif name == 'sqrt':
        a = args[0]
        if isnum(a):
            v = a.args[0]
            if v >= 0:
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n * n == v.numerator and d * d == v.denominator:
                    return num(Q(n, d), 'R')
    elif name == 'fabs':
        a = args[0]
        if isnum(a): return num(abs(a.args[0]), 'R')
        ts = terms_of(a)
        if len(ts) == 1:
            c, m = ts[0]
            if c != 1 or len(m) > 1 or (m and m[0][1] > 1):
                r = num(abs(c), 'R')
                for at, e in m:
                    x = at if at.sort == 'R' else toreal(at)
                    if e % 2 == 0:
                        y = num(1, 'R')
                        for _ in range(e): y = mul(y, x)
                    else:
                        y = mk('fn', ('fabs', x), 'R') if not _nonneg_atom(at) else x
                        for _ in range(e - 1): y = mul(y, x)
                    r = mul(r, y)
                return r
            if m and _nonneg_atom(m[0][0]): return a
        elif ts and ts[0][0] < 0:
            return fn('fabs', scale(a, Q(-1)))
    elif name == 'erf':
        return num(1, 'R') - fn('erfc', args[0])
    elif name == 'tanh':
        # tanh(x) = 1 - 2/(exp(2x)+1)
        return num(1, 'R') - num(2, 'R') * inv(fn('exp', scale(args[0], Q(2))) + 1)
    elif name == 'pow':
        b, e = args
        if isnum(e) and e.args[0].denominator == 1 and 0 <= e.args[0] <= 4:
            r = num(1, 'R')
            for _ in range(int(e.args[0])): r = mul(r, b)
            return r
        if isnum(e) and e.args[0] == -1:
            return inv(b)
    elif name == 'log':
        if args[0].op == 'fn' and args[0].args[0] == 'exp': return args[0].args[1]
        if isnum(args[0]) and args[0].args[0] == 1: return num(0, 'R')
    return mk('fn', (name,) + args, FNSORT.get(name, 'R'))


def _nonneg_atom(a):
    return a.op == 'fn' and a.args[0] in ('exp', 'sqrt', 'fabs')


REALFN = {'exp', 'sqrt', 'fabs', 'erf', 'erfc', 'tanh', 'pow', 'log', 'cos', 'sin', 'log1p', 'expm1'}
FNSORT = {}


def sel(arr, *idx, sort='R'):
    return mk('sel', (arr,) + tuple(lift(i) for i in idx), sort)


def fmax(a, b):
    return ite(le(b, a), a, b)


def fmin(a, b):
    return ite(le(a, b), a, b)


def hypot(a, b):
    return fn('sqrt', a * a + b * b)


# ---- booleans
def le(a, b): return cmp0('le', asint(a) - asint(b))
def lt(a, b):
    d = asint(a) - asint(b)
    if d.sort == 'I':
        return cmp0('le', d + 1)
    return cmp0('lt', d)
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    if a.sort == 'B' and b.sort == 'B':
        if a is b: return TRUE
        return Or(And(a, b), And(Not(a), Not(b)))
    if a.sort == 'U' or b.sort == 'U':
        if a is b: return TRUE
        x, y = (a, b) if a.id < b.id else (b, a)
        return mk('equ', (x, y), 'B')
    return cmp0('eq', asint(a) - asint(b))


def ne(a, b): return Not(eq(a, b))


def cmp0(op, p):
    """p op 0"""
    if p.op == 'num':
        c = p.args[0]
        return TRUE if {'le': c <= 0, 'lt': c < 0, 'eq': c == 0}[op] else FALSE
    ts = terms_of(p)
    if p.sort == 'I':
        # integer: divide by gcd of non-constant coefficients
        g = 0
        for c, m in ts:
            if m: g = math.gcd(g, c.numerator if c.denominator == 1 else 1)
        if g > 1 and all(c.denominator == 1 for c, m in ts):
            d = {}
            for c, m in ts:
                if m: d[m] = c / g
                elif op == 'le': d[m] = Q(math.ceil(c / g))
                elif op == 'eq':
                    if c % g: return FALSE
                    d[m] = c / g
                else: d[m] = c / g
            p = from_terms(d, 'I')
            ts = terms_of(p)
        if op == 'eq' and ts[0][0] < 0:
            p = scale(p, Q(-1))
    else:
        lead = ts[0][0]
        if op == 'eq':
            p = scale(p, 1 / lead)
        else:
            p = scale(p, 1 / abs(lead))
    return mk(op, (p,), 'B')


def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'le':
        p = a.args[0]
        if p.sort == 'I': return cmp0('le', 1 - p)
        return cmp0('lt', -p)
    if a.op == 'lt':
        return cmp0('le', -a.args[0])
    if a.op == 'and': return Or(*[Not(x) for x in a.args])
    if a.op == 'or': return And(*[Not(x) for x in a.args])
    return mk('not', (a,), 'B')


def And(*xs):
    out = []
    for x in xs:
        if x is TRUE: continue
        if x is FALSE: return FALSE
        if x.op == 'and':
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    for x in out:
        if Not(x) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(sorted(out)), 'B')


def Or(*xs):
    out = []
    for x in xs:
        if x is FALSE: continue
        if x is TRUE: return TRUE
        if x.op == 'or':
            for y in x.args:
                if y not in out: out.append(y)
        elif x not in out: out.append(x)
    for x in out:
        if Not(x) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', tuple(sorted(out)), 'B')


def Implies(a, b): return Or(Not(a), b)


def pred(name, *args): return mk('pred', (name,) + tuple(args), 'B')


def forall(v, lo, hi, body):
    """for all integers lo <= v < hi: body"""
    if body is TRUE: return TRUE
    b = bound_for(body, 'q')
    return mk('all', (b, lo, hi, subst(body, {v: b})), 'B')


def exists(v, lo, hi, body):
    return Not(forall(v, lo, hi, Not(body)))


# ---- sums.  psum(((b,n),..), body) = sum_{0<=b<n} body ; built only with n>=0 known (trip counts)
def bound_for(body, pre='b'):
    n = 0
    names = set(s.args[0] for s in syms(body, bound=True))
    while '_%s%d' % (pre, n) in names:
        n += 1
    return sym('_%s%d' % (pre, n), 'I')


def Sum(v, lo, hi, body):
    """sum_{lo<=v<hi} body (needs lo<=hi to be known by the caller; prefix-sum representation)"""
    if not (isnum(lo) and lo.args[0] == 0):
        body = subst(body, {v: v + lo})
        hi = hi - lo
    return _psum(v, hi, body)


def _psum(v, n, body):
    if isnum(n):
        c = int(n.args[0])
        if c <= 0: return num(0, body.sort)
        if c <= 4:
            r = num(0, body.sort)
            for i in range(c): r = r + subst(body, {v: num(i)})
            return r
    r = num(0, body.sort)
    if body.op == 'ite' and v not in syms(body.args[0]):
        return ite(body.args[0], _psum(v, n, body.args[1]), _psum(v, n, body.args[2]))
    d = {}
    for c, m in terms_of(body):
        outm = []; inm = []
        for a, e in m:
            (inm if v in syms(a) else outm).append((a, e))
        outp = from_terms({tuple(outm): c}, body.sort)
        inm = tuple(inm)
        d[inm] = d[inm] + outp if inm in d else outp
    for inm, f in d.items():
        if not inm:
            r = r + f * (n if body.sort == 'I' else toreal(n))
            continue
        if body.sort == 'I' and inm == ((v, 1),):
            # sum of v = n(n-1)/2
            nn = n * (n - 1)
            r = r + f * scale(nn, Q(1, 2))
            continue
        b1 = from_terms({inm: Q(1)}, body.sort)
        r = r + f * mk_psum(v, n, b1)
    return r


def mk_psum(v, n, body):
    # gather nested psum binders when body is exactly a psum atom (independent box): canonical order
    binders = [(v, n)]
    inner = body
    if inner.op == 'psum':
        # inner is psum over k binders: ((b1,n1),(b2,n2)...), body
        bs, ib = inner.args
        ren = {}
        nb = []
        for (b, nn) in bs:
            f = fresh('sb')
            ren[b] = f
            nb.append((f, nn))
        if all(v not in syms(nn) for _, nn in nb):
            binders = [(v, n)] + nb
            inner = subst(ib, ren)
    return canon_psum(binders, inner)


def canon_psum(binders, body):
    import itertools
    binders = list(binders)
    vars_ = [b for b, _ in binders]
    n = len(binders)
    # choose free canonical names
    names = set(s.args[0] for s in syms(body, bound=True)) | set(
        s.args[0] for _, h in binders for s in syms(h, bound=True))
    # nested bound names must not collide
    base = 0
    while any(('_b%d' % (base + i)) in names for i in range(n)):
        base += 1
    best = None
    perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
    for perm in perms:
        mp = {vars_[perm[i]]: sym('_b%d' % (base + i)) for i in range(n)}
        bb = subst(body, mp)
        key = (tuple(skey(binders[perm[i]][1]) for i in range(n)), skey(bb))
        if best is None or key < best[0]:
            best = (key, tuple((sym('_b%d' % (base + i)), binders[perm[i]][1]) for i in range(n)), bb)
    return mk('psum', (best[1], best[2]), body.sort)


def skey(t):
    if t._key is None:
        t._key = show(t)
    return t._key


# ---- products over a range of dimensions.  pprod(b, lo, hi, body) = prod_{lo<=b<hi} body(b)  (1 when hi<=lo)
def _lead_index(body, v):
    """(coefficient, rest) of the binder in the first array index that contains it"""
    best = None
    for s in subterms(body):
        if s.op != 'sel': continue
        for i in s.args[1:]:
            if isinstance(i, T) and i.sort == 'I' and v in syms(i):
                c = None; rest = {}
                for cc, m in terms_of(i):
                    d = dict(m)
                    if v in d:
                        if len(d) == 1 and d[v] == 1 and abs(cc) == 1: c = cc
                        else: c = None; break
                    else: rest[m] = cc
                if c is None: continue
                r = from_terms(rest, 'I')
                key = (str(s.args[0]), len(s.args), show(r))
                if best is None or key < best[0]: best = (key, c, r)
    return best


def Prod(v, lo, hi, body):
    """prod_{lo<=v<hi} body in canonical form"""
    n = hi - lo
    if isnum(n):
        c = int(n.args[0])
        if c <= 0: return num(1)
        if c <= 12:
            r = num(1)
            for i in range(c): r = r * subst(body, {v: lo + i})
            return r
    if isnum(body) and body.args[0] == 1: return num(1)
    b = _lead_index(body, v)
    if b is not None:
        _, c, r = b
        if c < 0:
            body = subst(body, {v: r - v})     # v' = r - v
            lo, hi = r - hi + 1, r - lo + 1
        elif not (isnum(r) and r.args[0] == 0):
            body = subst(body, {v: v - r})     # v' = v + r
            lo, hi = lo + r, hi + r
    k = 0
    names = set(s.args[0] for s in syms(body, bound=True))
    while '_p%d' % k in names: k += 1
    w = sym('_p%d' % k)
    return mk('pprod', (w, lo, hi, subst(body, {v: w})), 'I')


# ---- traversal
def syms(t, bound=False):
    """free symbols (frozenset). bound=True: include bound ones"""
    s = t._syms
    if s is None:
        s = _calc_syms(t)
        t._syms = s
    return s[1] if bound else s[0]


_E = frozenset()


def _calc_syms(t):
    if t.op == 'sym':
        f = frozenset([t]); return (f, f)
    if t.op in ('num', 'true', 'false'): return (_E, _E)
    if t.op == 'poly':
        fr = set(); bd = set()
        for c, m in t.args:
            for a, e in m:
                fr |= syms(a); bd |= syms(a, True)
        return (frozenset(fr), frozenset(bd))
    if t.op in ('all', 'pprod'):
        b, lo, hi, body = t.args
        fr = (syms(body) - {b}) | syms(lo) | syms(hi)
        bd = syms(body, True) | {b} | syms(lo, True) | syms(hi, True)
        return (frozenset(fr), frozenset(bd))
    if t.op == 'lam':
        b, n, body = t.args
        return (frozenset((syms(body) - {b}) | syms(n)), frozenset(syms(body, True) | syms(n, True) | {b}))
    if t.op == 'psum':
        bs, body = t.args
        fr = set(syms(body)); bd = set(syms(body, True))
        for b, h in bs: fr.discard(b)
        for b, h in bs:
            fr |= syms(h); bd |= syms(h, True); bd.add(b)
        return (frozenset(fr), frozenset(bd))
    fr = set(); bd = set()
    for a in t.args:
        if isinstance(a, T):
            fr |= syms(a); bd |= syms(a, True)
    return (frozenset(fr), frozenset(bd))


def rebuild(t, f):
    """apply f to direct children and rebuild with the smart constructors"""
    op = t.op
    if op in ('num', 'sym', 'true', 'false'): return t
    if op == 'poly':
        r = num(0, t.sort)
        for c, m in t.args:
            x = num(c, t.sort)
            for a, e in m:
                y = f(a)
                if t.sort == 'R' and y.sort == 'I': y = toreal(y)
                for _ in range(e): x = mul(x, y)
            r = add(r, x)
        return r
    if op == 'ite':
        c = f(t.args[0])
        if c is TRUE: return f(t.args[1])
        if c is FALSE: return f(t.args[2])
        return ite(c, f(t.args[1]), f(t.args[2]))
    if op == 'fn':
        return mkfn(t.args[0], [f(a) if isinstance(a, T) else a for a in t.args[1:]], t.sort)
    if op == 'inv': return inv(f(t.args[0]))
    if op in ('le', 'lt', 'eq'): return cmp0(op, f(t.args[0]))
    if op == 'not': return Not(f(t.args[0]))
    if op == 'and': return And(*[f(a) for a in t.args])
    if op == 'or': return Or(*[f(a) for a in t.args])
    if op == 'div': return idiv(f(t.args[0]), f(t.args[1]))
    if op == 'mod': return imod(f(t.args[0]), f(t.args[1]))
    if op == 'equ': return eq(f(t.args[0]), f(t.args[1]))
    if op == 'psum':
        bs, body = t.args
        nb = []
        ren = {}
        for b, h in bs:
            v = fresh('sv'); ren[b] = v
            nb.append((v, f(h)))
        # bound variables are renamed apart before the children are rewritten
        body = f(subst(body, ren))
        r = body
        for v, h in reversed(nb):
            r = _psum(v, h, r)
        return r
    if op == 'all':
        b, lo, hi, body = t.args
        v = fresh('qv')
        return forall(v, f(lo), f(hi), f(subst(body, {b: v})))
    if op == 'pprod':
        b, lo, hi, body = t.args
        v = fresh('pv')
        return Prod(v, f(lo), f(hi), f(subst(body, {b: v})))
    if op == 'lam':
        b, n, body = t.args
        v = fresh('lv')
        return Lam(v, f(n), f(subst(body, {b: v})))
    if op == 'sel' and t.args[0] in SELHOOK:
        return SELHOOK[t.args[0]](t.sort, *[f(a) for a in t.args[1:]])
    return mk(op, tuple(f(a) if isinstance(a, T) else a for a in t.args), t.sort)


# ---- finite sequences: Lam(v, n, body) is the sequence body(0) .. body(n-1)
def Lam(v, n, body):
    if isnum(n):
        return mk('tup', tuple(subst(body, {v: num(i)}) for i in range(max(0, int(n.args[0])))), 'U')
    k = 0
    names = set(s.args[0] for s in syms(body, bound=True))
    while '_l%d' % k in names: k += 1
    w = sym('_l%d' % k)
    return mk('lam', (w, n, subst(body, {v: w})), 'U')


def lamlen(l):
    return num(len(l.args)) if l.op == 'tup' else l.args[1]


def lamapp(l, d):
    if l.op == 'tup':
        if isnum(d):
            i = int(d.args[0])
            if 0 <= i < len(l.args): return l.args[i]
            return sel('undef', d, sort='I')
        if not l.args: return sel('undef', d, sort='I')
        r = l.args[-1]
        for i in range(len(l.args) - 2, -1, -1): r = ite(eq(d, num(i)), l.args[i], r)
        return r
    return subst(l.args[2], {l.args[0]: d})


def pmax(base, l):
    """maximum of base and the members of the sequence l"""
    base = toreal(base)
    if l.op == 'tup':
        r = base
        for x in l.args: r = fmax(r, x)
        return r
    return mk('fn', ('pmax', base, l), 'R')


# rewriting constructors of defined symbols (see dims.py)
SELHOOK = {}
FNHOOK = {'pmax': pmax}


def mkfn(name, args, sort):
    if name in REALFN: return fn(name, *args)
    if name in FNHOOK: return FNHOOK[name](*args)
    return mk('fn', (name,) + tuple(args), sort)


def subst(t, mp):
    if not mp: return t
    keys = frozenset(mp)
    symkeys = all(k.op == 'sym' for k in keys)
    memo = {}

    def go(x):
        if x in mp: return mp[x]
        if symkeys and not (syms(x) & keys): return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def subterms(t, acc=None):
    """set of all subterms (including under binders)"""
    if acc is None: acc = set()
    if t in acc: return acc
    acc.add(t)
    if t.op == 'poly':
        for c, m in t.args:
            for a, e in m: subterms(a, acc)
    elif t.op == 'psum':
        for b, h in t.args[0]: subterms(h, acc)
        subterms(t.args[1], acc)
    else:
        for a in t.args:
            if isinstance(a, T): subterms(a, acc)
    return acc


def idiv(a, b):
    """C++ integer division; only used/reasoned about for a>=0,b>0"""
    if isnum(b) and b.args[0] == 1: return a
    if isnum(a) and isnum(b) and b.args[0] != 0:
        x, y = int(a.args[0]), int(b.args[0])
        q = abs(x) // abs(y)
        return num(q if (x < 0) == (y < 0) else -q)
    return mk('div', (a, b), 'I')


def imod(a, b):
    if isnum(b) and b.args[0] == 1: return num(0)
    if isnum(a) and isnum(b) and b.args[0] != 0:
        x, y = int(a.args[0]), int(b.args[0])
        q = abs(x) // abs(y)
        q = q if (x < 0) == (y < 0) else -q
        return num(x - q * y)
    return mk('mod', (a, b), 'I')


def polydiv(p, d):
    """exact polynomial quotient p/d for a monomial d; returns (quotient, remainder): terms divisible by d / rest"""
    dt = terms_of(d)
    assert len(dt) == 1
    dc, dm = dt[0]
    dd = dict(dm)
    q = {}; r = {}
    for c, m in terms_of(p):
        md = dict(m)
        ok = all(md.get(a, 0) >= e for a, e in dd.items())
        if ok and p.sort == 'I' and (c / dc).denominator != 1: ok = False
        if ok:
            nm = {a: e - dd.get(a, 0) for a, e in md.items()}
            nm = tuple(sorted(((a, e) for a, e in nm.items() if e), key=lambda x: x[0].id))
            q[nm] = q.get(nm, 0) + c / dc
        else:
            r[m] = r.get(m, 0) + c
    return from_terms(q, p.sort), from_terms(r, p.sort)


# ---- printing
def show(t):
    if not isinstance(t, T): return str(t)
    op = t.op
    if op == 'num':
        c = t.args[0]
        if c.denominator == 1: return str(c.numerator)
        f = float(c)
        return str(c) if len(str(c)) < 14 else '%.17g' % f
    if op == 'sym': return t.args[0]
    if op == 'poly':
        out = []
        for c, m in t.args:
            fs = [show(a) if e == 1 else '%s^%d' % (show(a), e) for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, show(num(c, 'R')))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op == 'sel': return '%s[%s]' % (show(t.args[0]), ','.join(show(a) for a in t.args[1:]))
    if op == 'fn': return '%s(%s)' % (t.args[0], ','.join(show(a) for a in t.args[1:]))
    if op == 'pred': return '%s(%s)' % (t.args[0], ','.join(show(a) for a in t.args[1:]))
    if op == 'inv': return 'inv(%s)' % show(t.args[0])
    if op == 'ite': return 'ite(%s, %s, %s)' % tuple(show(a) for a in t.args)
    if op in ('le', 'lt', 'eq'): return '%s %s 0' % (show(t.args[0]), {'le': '<=', 'lt': '<', 'eq': '=='}[op])
    if op == 'not': return '!(%s)' % show(t.args[0])
    if op in ('and', 'or'): return '(' + (' & ' if op == 'and' else ' | ').join(show(a) for a in t.args) + ')'
    if op == 'psum':
        return 'Sum{%s}(%s)' % (', '.join('%s<%s' % (show(b), show(h)) for b, h in t.args[0]), show(t.args[1]))
    if op == 'lam': return '<%s<%s: %s>' % tuple(show(a) for a in t.args)
    if op == 'tup': return '<%s>' % ', '.join(show(a) for a in t.args)
    if op == 'pprod': return 'Prod{%s in %s..%s}(%s)' % tuple(show(a) for a in t.args)
    if op == 'all': return 'all(%s in %s..%s: %s)' % tuple(show(a) for a in t.args)
    return '%s(%s)' % (op, ','.join(show(a) for a in t.args))
