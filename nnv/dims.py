"""Reasoning about ranges of dimensions of unknown number: products over ranges (pprod), mixed-radix
conversions (lin / l2i, the contracts of TileTraits::index_to_linear / linear_to_index) and tile extents.

Facts are added to the hypotheses before a goal is handed to solve.prove; every fact is itself
proved from the hypotheses (pointwise, for a fresh dimension) or is an instance of one of these lemmas:
  P1  body >= 1 on [lo,hi)                          =>  pprod >= 1
  P2  a <= b <= c                                   =>  pprod[a,c) = pprod[a,b) * pprod[b,c)
  P3  body1(x+s) = body2(x) for x in [c,d)          =>  pprod2[c,d) = pprod1[c+s,d+s)
  L0  0 <= i < prod(K)                              =>  0 <= l2i(K,i,d) < K[d];  L0z  all of them zero <=> i = 0
  L1  V in range pointwise                          =>  0 <= lin(K,n,V) < pprod(K)
  L2  V1 = V2 pointwise on [0,n), K likewise        =>  lin(K1,n,V1) = lin(K2,n,V2)      (and for l2i)
  L3  lin and l2i are inverse to each other (contract C02)
"""
from .terms import *
from . import terms as TM
from . import solve
from .solve import closed, conj


def ceildiv(s, b):
    if isnum(s) and isnum(b) and b.args[0] > 0: return num(-((-int(s.args[0])) // int(b.args[0])))
    if isnum(b) and b.args[0] == 1: return s
    return mk('fn', ('ceildiv', s, b), 'I')


def text(s, b, u):
    """extent of tile u of a dimension of extent s cut into pieces of b"""
    if isnum(s) and isnum(b) and isnum(u):
        return num(min(int(b.args[0]), int(s.args[0]) - int(u.args[0]) * int(b.args[0])))
    return mk('fn', ('text', s, b, u), 'I')


def l2i(K, n, i, d):
    if isnum(n) and n.args[0] == 1: return i
    if i.op == 'fn' and i.args[0] == 'lin' and i.args[1] is K: return lamapp(i.args[3], d)
    if i.op == 'fn' and i.args[0] == 'lin' and lamlen(i.args[1]) is lamlen(K) and same_lam(K, i.args[1]): return lamapp(i.args[3], d)
    if isnum(i) and i.args[0] == 0: return num(0)
    return mk('sel', ('l2i', K, n, i, d), 'I')


def same_lam(a, b): return a is b


def lin(K, n, V):
    if isnum(n):
        c = int(n.args[0])
        if c == 0: return num(0)
        if c == 1: return lamapp(V, num(0))
        if V.op == 'tup':
            if all(isnum(x) and x.args[0] == 0 for x in V.args): return num(0)
            x0 = V.args[0]
            if x0.op == 'sel' and x0.args[0] == 'l2i' and x0.args[1] is K:
                i = x0.args[3]
                if all(V.args[d] is l2i(K, n, i, num(d)) for d in range(c)): return i
    elif V.op == 'lam':
        b = V.args[2]
        if b.op == 'sel' and b.args[0] == 'l2i' and b.args[1] is K and b.args[4] is V.args[0] and V.args[0] not in syms(b.args[3]): return b.args[3]
        if isnum(b) and b.args[0] == 0: return num(0)
    return mk('fn', ('lin', K, n, V), 'I')


def _h_l2i(sort, K, n, i, d): return l2i(K, n, i, d)
TM.SELHOOK['l2i'] = _h_l2i
TM.FNHOOK['lin'] = lin
TM.FNHOOK['ceildiv'] = ceildiv
TM.FNHOOK['text'] = text

_cache = {}
_depth = [0]


def base_prove(hyps, goal, quick=True): return solve.prove(hyps, goal, quick=quick)


def atoms_of(forms):
    acc = set()
    for f in forms: subterms(f, acc)
    return [a for a in acc if a.op in ('pprod', 'fn', 'sel') and closed(a)]


def prove(hyps, goal, want_cex=False, timeout=None, quick=False):
    hyps = [h for h in conj(hyps) if h is not TRUE]
    if goal is TRUE or FALSE in hyps or goal in hyps: return solve.prove(hyps, goal, quick=quick)
    key = (frozenset(hyps), goal, quick)
    r = _cache.get(key)
    if r is None:
        r = _prove(hyps, goal, timeout, quick)
        _cache[key] = r
    return r


def _prove(hyps, goal, timeout, quick):
    if goal.op == 'and':
        for g in goal.args:
            r = prove(hyps, g, timeout=timeout, quick=quick)
            if not r: return r
        return r
    if goal.op == 'all':
        v, lo, hi, body = goal.args
        sk = fresh('sk')
        return prove(hyps + [le(lo, sk), lt(sk, hi)], subst(body, {v: sk}), timeout=timeout, quick=quick)
    if goal.op == 'or':
        return prove(hyps + [Not(g) for g in goal.args], FALSE, timeout=timeout, quick=quick)
    if goal.op == 'not' and goal.args[0].op in ('all', 'eq', 'equ'):
        if goal.args[0].op != 'equ':
            return prove(hyps + [goal.args[0]], FALSE, timeout=timeout, quick=quick)
    f = facts(hyps, goal) if _depth[0] < 2 else []
    return solve.prove(hyps + f, goal, timeout=timeout, quick=quick)


def facts(hyps, goal):
    _depth[0] += 1
    try: return _facts(hyps, goal)
    finally: _depth[0] -= 1


def _facts(hyps, goal):
    ats = atoms_of(list(hyps) + [goal])
    P = sorted(a for a in ats if a.op == 'pprod')
    Ls = sorted(a for a in ats if a.op == 'fn' and a.args[0] == 'lin')
    D = sorted(a for a in ats if a.op == 'sel' and a.args[0] == 'l2i')
    out = []
    if not (P or Ls or D): return out
    pr = lambda h, g: prove(h, g, quick=True) if _depth[0] < 2 else base_prove(h, g)
    key = ('F', frozenset(hyps), tuple(P), tuple(Ls), tuple(D))
    if key in _cache: return _cache[key]
    hy = hyps
    # ---- lin / l2i with pointwise equal arguments
    for l in (Ls,):
        for i in range(len(l)):
            for j in range(i):
                a, b = l[i], l[j]
                if a.args[1] is b.args[1] and a.args[3] is b.args[3]: continue
                if lin_same(hy, a, b, pr): out.append(eq(a, b))
    for i in range(len(D)):
        for j in range(i):
            a, b = D[i], D[j]
            if a.args[1] is b.args[1]: continue
            if a.args[1].op == 'tup' or b.args[1].op == 'tup':
                if a.args[1].op != b.args[1].op or len(a.args[1].args) != len(b.args[1].args): continue
            if not (eqq(hy, a.args[3], b.args[3], pr) and eqq(hy, a.args[4], b.args[4], pr) and eqq(hy, a.args[2], b.args[2], pr)): continue
            if lam_same(hy, a.args[1], b.args[1], pr): out.append(eq(a, b))
    # ---- products
    if P:
        P = close_products(hy, P, out, pr)
        for p in P:
            v, lo, hi, body = p.args
            x = fresh('d')
            if pr(hy + [le(lo, x), lt(x, hi)], ge(subst(body, {v: x}), num(1))): out.append(ge(p, num(1)))
        for p in P:
            v, lo, hi, body = p.args
            if base_prove(hy, le(hi, lo)): out.append(eq(p, num(1)))
    for a in D:
        K, n, i, d = a.args[1:]
        if K.op == 'tup' and isnum(d) and 0 <= d.args[0] < len(K.args):
            # L0: coordinates of an index inside the grid
            if base_prove(hy + out, And(ge(i, num(0)), lt(i, prod_lam(K)))):
                out.append(And(ge(a, num(0)), lt(a, K.args[int(d.args[0])])))
        elif K.op == 'lam':
            if base_prove(hy, And(ge(i, num(0)), lt(i, prod_lam(K)), ge(d, num(0)), lt(d, n))):
                out.append(And(ge(a, num(0)), lt(a, lamapp(K, d))))
    grp = {}
    for a in D:
        K, n, i, d = a.args[1:]
        if K.op == 'tup' and isnum(d): grp.setdefault((K, n, i), []).append(a)
    for (K, n, i), as_ in grp.items():
        # L0z: the first tile is the one with all coordinates zero
        if not base_prove(hy + out, And(ge(i, num(0)), lt(i, prod_lam(K)))): continue
        z = And(*[eq(l2i(K, n, i, num(d)), num(0)) for d in range(len(K.args))])
        out.append(And(Or(Not(z), eq(i, num(0))), Or(z, Not(eq(i, num(0))))))
        for d in range(len(K.args)):
            c = l2i(K, n, i, num(d))
            if c not in D: out.append(And(ge(c, num(0)), lt(c, K.args[d])))
    for a in Ls:
        K, n, V = a.args[1:]
        N = prod_lam(K)
        out.append(And(ge(a, num(0)), lt(a, N)))      # L1: range was checked where lin was introduced
        if V.op == 'tup':
            z = And(*[eq(x, num(0)) for x in V.args])
            out.append(And(Or(Not(z), eq(a, num(0))), Or(z, Not(eq(a, num(0))))))       # L0z
    _cache[key] = out
    return out


def prod_lam(K):
    if K.op == 'tup':
        r = num(1)
        for x in K.args: r = r * x
        return r
    v = fresh('d')
    return Prod(v, num(0), K.args[1], lamapp(K, v))


def eqq(hy, a, b, pr):
    if a is b: return True
    e = eq(a, b)
    if e is FALSE: return False
    return bool(pr(hy, e))


def lam_same(hy, a, b, pr):
    if a is b: return True
    n1, n2 = lamlen(a), lamlen(b)
    if not eqq(hy, n1, n2, pr): return False
    x = fresh('d')
    return bool(pr(hy + [ge(x, num(0)), lt(x, n1)], eq(lamapp(a, x), lamapp(b, x))))


def lin_same(hy, a, b, pr):
    return lam_same(hy, a.args[3], b.args[3], pr) and lam_same(hy, a.args[1], b.args[1], pr)


def close_products(hy, P, out, pr):
    """adds splitting and matching facts; returns the extended list of product atoms"""
    P = list(P)
    seen = set()
    group = {}
    def key(p): return (p.args[0], p.args[3])
    for rnd in range(3):
        new = []
        for i in range(len(P)):
            for j in range(len(P)):
                if i == j or (P[i], P[j]) in seen: continue
                seen.add((P[i], P[j]))
                p, q = P[i], P[j]
                if key(p) == key(q):
                    v, a, c, body = p.args
                    _, a2, c2, _ = q.args
                    mk_ = lambda lo, hi: Prod(v, lo, hi, body)
                    if a is a2:
                        # p=[a,c) q=[a,c2): p = q*[c2,c) when a<=c2<=c
                        if base_prove(hy, And(le(a, c2), le(c2, c))):
                            r = mk_(c2, c)
                            out.append(eq(p, q * r)); new.append(r)
                    elif c is c2:
                        if base_prove(hy, And(le(a, a2), le(a2, c))):
                            r = mk_(a, a2)
                            out.append(eq(p, r * q)); new.append(r)
                    elif base_prove(hy, And(le(a, a2), le(a2, c2), le(c2, c))):
                        r = mk_(a, a2); s = mk_(c2, c)
                        out.append(eq(p, r * q * s)); new += [r, s]
                elif i < j:
                    m = match(hy, p, q, pr)
                    if m is not None:
                        out.append(eq(*m)); new += [x for x in m]
        add = []
        for x in new:
            for y in prods_in(x):
                if y not in P and y not in add: add.append(y)
        if not add: break
        P += add
        if len(P) > 14: break
    return P


def prods_in(t): return [a for a in subterms(t) if a.op == 'pprod' and closed(a)]


def match(hy, p, q, pr):
    """P3 in either direction"""
    for x, y in ((p, q), (q, p)):
        v, a, b, body = x.args          # x: bigger
        w, c, d, body2 = y.args
        for s in dict.fromkeys((b - d, a - c)):
            # bodies equal: body(x+s) = body2(x) on [c,d), and [c+s,d+s) inside [a,b)
            z = fresh('d')
            if not base_prove(hy, And(le(a, c + s), le(d + s, b))): continue
            e = eq(subst(body, {v: z + s}), subst(body2, {w: z}))
            if e is FALSE: continue
            if e is TRUE or pr(hy + [le(c, z), lt(z, d)], e):
                return y, Prod(v, c + s, d + s, body)
    return None
