"""Verification of one tensor-level / tile-level operation against its contract (cspec) for one
combination of operand ranks and integer arguments (shapes, tilings and scalars stay symbolic)."""
from .cpp import *
from . import cspec, dims, kver, solve, cxx
from .cspec import OPS, Ctx, Fam, Combo
from .kver import VC
from .dims import ceildiv, text, l2i, lin
from . import terms as TM
import itertools, time


class DVC(VC):
    def run(self):
        t0 = time.time()
        try:
            if self.ok is None:
                r = dims.prove(self.hyps, self.goal)
                self.ok = bool(r.ok); self.by = r.by; self.why = r.info
        except TooBig:
            self.ok = False; self.why = 'term too big'
        self.t = time.time() - t0
        return self.ok


def op_tu(level, name):
    p = 'src/%s/%s.cc' % (level, name)
    return cxx.TU(p)


def find_fn(tu, level, O):
    qn = 'nntile::%s::%s_async' % (level, O.fn)
    want = [k for n, k in O.signature(level == 'tile')]
    out = []
    for f in tu.find(qn):
        ps = tu.params(f)
        if len(ps) != len(want): continue
        ok = True
        for k, q in zip(want, ps):
            ty = q['type'].get('qualType', '')
            isT = ('Tensor<' in ty or 'Tile<' in ty)
            if (k == 'T') != isT: ok = False
        if ok: out.append(f)
    return out


def targs_of(f):
    return [c.get('type', {}).get('qualType') for c in f.get('inner', ()) if c.get('kind') == 'TemplateArgument']


class Case(object):
    """one rank/argument combination"""
    def __init__(self, rk, iv, combo, label, pre=None):
        self.rk = rk; self.iv = iv; self.combo = combo; self.label = label; self.pre = pre


def cases(O, tile, maxrank=None):
    mr = maxrank if maxrank is not None else O.maxrank
    out = []
    enums = [n for n, k in O.sig if k == 'E']
    for r in itertools.product(range(mr + 1), repeat=len(O.operands + O.vecs)):
        rk = dict(zip(O.operands + O.vecs, r))
        hi = max(r) + 1
        valid = []
        invalid_iv = []
        ints = [list(range(-1, hi + 1)) for _ in O.ints]
        for iv in itertools.product(*ints):
            d = dict(zip(O.ints, iv))
            for ev in itertools.product((0, 1), repeat=len(enums)):
                d2 = dict(d); d2.update(zip(enums, ev))
                c = O.combos(rk, d2, tile)
                if c is not None and any(len(m) != rk[o] for o, m in c.maps.items()): c = None
                lab = ','.join('%s=%s' % (k, v) for k, v in list(rk.items()) + list(d2.items()))
                if c is not None: valid.append(Case(rk, d2, c, lab))
                else: invalid_iv.append(Case(rk, d2, None, lab))
        out += valid
        out += invalid_iv
        if valid and O.ints:
            # any value outside the enumerated range
            for i, nm in enumerate(O.ints):
                for side in (-1, 1):
                    base = dict(valid[0].iv)
                    base[nm] = None
                    out.append(Case(rk, base, None, ','.join('%s=%s' % (k, v) for k, v in list(rk.items()) + list(base.items())) + ('<-1' if side < 0 else '>%d' % hi),
                                    pre=(nm, side, hi)))
    return out


def setup(ex, O, f, case, tile):
    ps = ex.tu.params(f)
    scal = {}
    for (nm, k), q in zip(O.signature(tile), ps):
        ty = tyof(q)
        if k == 'T':
            ex.st.vars[q['id']] = ex.tensor(nm, num(case.rk[nm]), tile)
            continue
        if k == 'V':
            ex.st.vars[q['id']] = ex.new_vec(nm, num(case.rk[nm]), lambda d, nm=nm: sel(nm, d, sort='I'), writable=False)
            continue
        if k == 'E':
            # TransOp: object with an enum field
            v = case.iv[nm]
            ex.st.vars[q['id']] = ex.obj('TransOp', value=num(v), label=Opaque('E', nm))
            continue
        s = sort_of(ty)
        if k == 'I':
            if case.iv[nm] is None:
                v = sym(nm)
                _, side, hi = case.pre
                ex.st.pc.append((lt(v, num(-1)) if side < 0 else gt(v, num(hi)), False))
            else: v = num(case.iv[nm])
        else:
            if s is None: raise Undecided('parameter %s has type %s' % (nm, ty))
            v = sym(nm, s)
        scal[nm] = v
        ex.st.vars[q['id']] = v
    return scal


# ------------------------------------------------------------------ canonical form
def gsym(nm, d, what): return sel('%s.%s' % (nm, what), num(d), sort='I')


def relation(O, combo, tile, scal):
    """list of (name, condition) of R; substitution to canonical symbols; S, B"""
    canon = {}
    conds = []
    mp = {}
    for o in O.operands:
        for d, g in enumerate(combo.maps[o]):
            if not isinstance(g, tuple) and g not in canon: canon[g] = (o, d)
    for o in O.operands:
        for d, g in enumerate(combo.maps[o]):
            s = gsym(o, d, 'shape'); b = gsym(o, d, 'basetile')
            if isinstance(g, tuple) and g[0] == 'g':
                q = ceildiv(gsym(*canon[g[1]], 'shape'), gsym(*canon[g[1]], 'basetile'))
                conds.append(('%s.shape[%d] is the grid extent along dimension %d' % (o, d, g[1]), eq(s, q)))
                conds.append(('%s.basetile_shape[%d] == 1' % (o, d), eq(b, ONE)))
                mp[s] = q; mp[b] = ONE
                continue
            if isinstance(g, tuple) and g[0] == 's':
                o1, d1 = canon[g[1]]
                s1 = gsym(o1, d1, 'shape')
                conds.append(('%s.shape[%d] == %s.shape[%d]' % (o1, d1, o, d), eq(s1, s)))
                mp[s] = s1
                if not tile:
                    conds.append(('%s is one tile along %d' % (o, d), eq(ceildiv(s, b), ONE)))
                    mp[ceildiv(s, b)] = ONE; mp[ceildiv(s1, b)] = ONE
                    mp[text(s, b, Z)] = s1; mp[text(s1, b, Z)] = s1
                continue
            if isinstance(g, tuple):
                conds.append(('%s.shape[%d] == %d' % (o, d, g[1]), eq(s, num(g[1]))))
                mp[s] = num(g[1])
                if not tile and g[0] == 'c':
                    conds.append(('%s.basetile_shape[%d] == %d' % (o, d, g[1]), eq(b, num(g[1]))))
                    mp[b] = num(g[1])
                elif not tile:
                    conds.append(('%s is one tile along %d' % (o, d), eq(ceildiv(s, b), ONE)))
                    mp[ceildiv(s, b)] = ONE; mp[ceildiv(num(g[1]), b)] = ONE
                continue
            if canon[g] == (o, d): continue
            o1, d1 = canon[g]
            s1 = gsym(o1, d1, 'shape'); b1 = gsym(o1, d1, 'basetile')
            conds.append(('%s.shape[%d] == %s.shape[%d]' % (o1, d1, o, d), eq(s1, s)))
            mp[s] = s1
            if not tile:
                conds.append(('%s.basetile_shape[%d] == %s.basetile_shape[%d]' % (o1, d1, o, d), eq(b1, b)))
                mp[b] = b1
    S = lambda g: gsym(canon[g][0], canon[g][1], 'shape')
    B = lambda g: gsym(canon[g][0], canon[g][1], 'basetile')
    c = Ctx(scal, S, B, tile)
    for i, x in enumerate(combo.extra):
        t = x(c)
        conds.append(('condition %d: %s' % (i, show(t)), t))
        if t.op == 'eq' and not tile:
            # equality of symbols used for rewriting: the whole extent is one tile
            if combo.subs is None and eq(S(0), B(0)) is t: mp2 = {B(0): S(0)}; mp.update({k: subst(v, mp2) for k, v in mp.items()}); mp.update(mp2)
    if combo.subs is not None:
        mp2 = combo.subs(c); mp.update({k: subst(v, mp2) for k, v in mp.items()}); mp.update(mp2)
    return conds, mp, c


def cvals(v, f):
    """rewrite an event argument"""
    if isinstance(v, T): return f(v)
    if isinstance(v, Opaque): return v.map(f)
    return v


class Norm(object):
    """rewriting to canonical symbols and mixed-radix normal form of tile indices"""
    def __init__(self, mp, hyps=()):
        self.mp = mp; self.hyps = list(hyps); self.memo = {}

    def __call__(self, t):
        if not isinstance(t, T): return t
        r = self.memo.get(t)
        if r is None:
            r = t
            for _ in range(4):
                n = self.go(subst(r, self.mp), {})
                if n is r: break
                r = n
            self.memo[t] = r
        return r

    def go(self, t, memo):
        if t in memo: return memo[t]
        if t.op == 'sel' and t.args[0] == 'l2i':
            K, n, i, d = [self.go(a, memo) if isinstance(a, T) else a for a in t.args[1:]]
            r = self.l2i(K, n, i, d)
        elif t.op == 'fn' and t.args[0] == 'lin':
            r = self.lin(*[self.go(a, memo) for a in t.args[1:]])
        elif t.op == 'fn' and t.args[0] == 'ceildiv' and self.go(t.args[1], memo) is self.go(t.args[2], memo): r = ONE
        elif t.op == 'fn' and t.args[0] == 'text' and self.go(t.args[1], memo) is self.go(t.args[2], memo): r = self.go(t.args[1], memo)
        elif t.op == 'div': r = self.div(self.go(t.args[0], memo), self.go(t.args[1], memo))
        else: r = TM.rebuild(t, lambda x: self.go(x, memo))
        memo[t] = r
        return r

    def div(self, a, b):
        """exact quotient of a product"""
        if not isnum(b) and len(TM.terms_of(b)) == 1:
            hi, lo = split_poly(a, b)
            if hi is not None and lo is Z and self.hyps_prove(ge(b, ONE)): return hi
        return TM.idiv(a, b)

    def lin(self, K, n, V):
        if K.op == 'tup' and V.op == 'tup' and any(isnum(k) and k.args[0] == 1 for k in K.args):
            keep = [i for i, k in enumerate(K.args) if not (isnum(k) and k.args[0] == 1)]
            K = tup([K.args[i] for i in keep]); V = tup([V.args[i] for i in keep]); n = num(len(keep))
        return lin(K, n, V)

    def l2i(self, K, n, i, d):
        if K.op != 'tup' or not isnum(d): return l2i(K, n, i, d)
        d = int(d.args[0])
        if not (0 <= d < len(K.args)): return l2i(K, n, i, num(d))
        if isnum(K.args[d]) and K.args[d].args[0] == 1: return Z
        keep = [q for q, k in enumerate(K.args) if not (isnum(k) and k.args[0] == 1)]
        d = keep.index(d)
        ks = [K.args[q] for q in keep]
        return self.l2i2(ks, i, d)

    def l2i2(self, ks, i, d):
        """ks without unit extents"""
        if len(ks) == 1: return i
        K = tup(ks)
        r = l2i(K, num(len(ks)), i, num(d))
        if not (r.op == 'sel' and r.args[0] == 'l2i'): return r
        M = ONE
        for q in range(1, len(ks)):
            M = M * ks[q - 1]
            hi, lo = split_poly(i, M)
            if hi is None: continue
            if hi is Z and i.op != 'poly' and lt(i, M) not in self.hyps: continue
            if not self.hyps_prove(And(ge(lo, Z), lt(lo, M))): continue
            if d < q: return self.l2i2(ks[:q], lo, d) if q > 1 else lo
            return self.l2i2(ks[q:], hi, d - q) if len(ks) - q > 1 else hi
        return r

    def hyps_prove(self, g):
        return bool(dims.prove(self.hyps, g))


def tup(xs): return mk('tup', tuple(xs), 'U')


def split_poly(i, M):
    """i = lo + M*hi : monomials of i divisible by the monomial M go to hi"""
    mt = TM.terms_of(M)
    if len(mt) != 1: return None, None
    hi = num(0); lo = num(0)
    (mc, mm), = mt
    md = dict(mm)
    for c, mono in TM.terms_of(i):
        dd = dict(mono)
        if all(dd.get(a, 0) >= e for a, e in md.items()) and md:
            rest = num(c / mc)
            for a, e in dd.items():
                for _ in range(e - md.get(a, 0)): rest = rest * a
            hi = hi + rest
        else:
            x = num(c)
            for a, e in dd.items():
                for _ in range(e): x = x * a
            lo = lo + x
    return hi, lo


# ------------------------------------------------------------------ one path
def base_facts(O, combo, c, tile):
    """S >= 1, B >= 1, G >= 1 of the global dimensions"""
    out = []
    for g in range(combo.N):
        out.append(ge(c.S(g), ONE))
        if not tile:
            out += [ge(c.B(g), ONE), ge(ceildiv(c.S(g), c.B(g)), ONE)]
    return out


def solve_witness(pmap, binders, w, N):
    """pmap: g -> term in the binders; returns binder -> term in w, or None"""
    W = {b: Z for b, n in binders if n is ONE}
    bs = [b for b, n in binders]
    bset = set(bs)
    work = True
    groups = {}
    while work and len(W) < len(bs):
        work = False
        for g, t in pmap.items():
            un = (set(syms(t)) & bset) - set(W)
            if len(un) != 1: continue
            b = next(iter(un))
            s = subst(t, {x: y for x, y in W.items()}) if False else t
            r = invert(t, b, w[g])
            if r is not None and not (set(syms(r)) & bset - set(W)):
                W[b] = subst(r, W); work = True; continue
        # l2i groups
        groups = {}
        for g, t in pmap.items():
            if t.op == 'sel' and t.args[0] == 'l2i' and isnum(t.args[4]):
                K, n, i, d = t.args[1:]
                groups.setdefault((K, i), {})[int(d.args[0])] = g
        for (K, i), ds in groups.items():
            if K.op != 'tup' or set(ds) != set(range(len(K.args))): continue
            un = (set(syms(i)) & bset) - set(W)
            if len(un) != 1: continue
            b = next(iter(un))
            L = lin(K, num(len(K.args)), tup([w[ds[d]] for d in range(len(K.args))]))
            r = invert(i, b, L)
            if r is not None and not (set(syms(r)) & bset - set(W)):
                W[b] = subst(r, W); work = True
    if any(b not in W for b in bs): return None
    return W


def invert(t, b, target):
    """solve t(b) = target for b when t = b + rest"""
    if t is b: return target
    try: rest = t - b
    except Exception: return None
    if t.sort == 'I' and b not in syms(rest): return target - rest
    rest = t + b
    if b not in syms(rest): return rest - target
    return None


class EvInfo(object): pass


def sub_ev(v, mp):
    f = lambda x: subst(x, mp)
    return cvals(v, f)


def check_normal(O, f, case, st, scal, fname, tile, prop_t, out, vcs_name):
    """obligations of a normally ending path: tasks = contract"""
    combo = case.combo
    conds, mp, c = relation(O, combo, tile, scal)
    facts = base_facts(O, combo, c, tile)
    if combo.facts is not None: facts = [x for x in (subst(h, mp) for h in facts) if x is not TRUE] + combo.facts(c)
    T_ = (targs_of(f) or [None])[0]
    # events
    evs = []
    nrm0 = Norm(mp, facts)
    pc = [x for x in (nrm0(h) for h in st.hyps()) if x is not TRUE]
    facts = facts + [x for x in pc if x not in facts]
    alts = [(None, combo.fams, combo.order)]
    if O.noop is not None and solve.prove(facts, O.noop(c)): alts.append((None, [], []))
    alts += [(x[0], x[1], x[2]) for x in combo.alts if solve.prove(facts, x[0](c))]
    for k, o in enumerate(st.trace):
        if not isinstance(o.val, Traced): continue
        if o.val.name in ('wait_for_all', 'unregister') or o.val.name.startswith('tensor.'): continue
        e = EvInfo()
        e.k = k; e.line = o.line; e.name = o.val.name; e.targs = o.val.targs; e.o = o
        e.binders = [(b, nrm0(n)) for b, n in o.binders]
        e.rng = []
        for b, n in e.binders: e.rng += [ge(b, Z), lt(b, n)]
        hy = facts + e.rng
        N1 = Norm(mp, hy)
        e.guard = N1(o.guard)
        N2 = Norm(mp, hy + [e.guard])
        e.args = [cvals(a, N2) if isinstance(a, (T, Opaque)) else a for a in o.val.args]
        e.hy = hy + [e.guard]
        if e.guard is FALSE: continue
        evs.append(e)
    best = None
    for cond, fams, order in alts:
        r = match_families(O, combo, c, tile, fams, order, evs, facts, fname, case, T_, mp)
        bad = [v for v in r if not v.run()]
        if not bad: out += r; return
        if best is None: best = r
    out += best


def point_of(O, combo, e, mp, fam):
    """grid coordinates of the task: from its handles"""
    p = {}
    extra = []       # (name, eq)
    N = Norm(mp, e.hy)
    for a in e.args:
        if isinstance(a, Opaque) and a.kind == 'handle' and a.data[0] in combo.maps:
            o, idx = a.data
            m = combo.maps[o]
            K = tup([N(ceildiv(gsym(o, d, 'shape'), gsym(o, d, 'basetile'))) for d in range(len(m))])
            for d, g in enumerate(m):
                co = N.l2i(K, num(len(m)), idx, num(d))
                if isinstance(g, tuple) and g[0] == 'g':
                    if g[1] in p and p[g[1]] is not co: extra.append(('tiles of the operands have the same coordinate along dimension %d' % g[1], eq(p[g[1]], co)))
                    p.setdefault(g[1], co)
                    continue
                if isinstance(g, tuple):
                    if co is not Z: extra.append(('coordinate %d of %s is 0' % (d, o), eq(co, Z)))
                    continue
                if g in p:
                    if p[g] is not co: extra.append(('tiles of the operands have the same coordinate along dimension %d' % g, eq(p[g], co)))
                else: p[g] = co
            if not m and idx is not Z: extra.append(('%s is one tile' % o, eq(idx, Z)))
    return p, extra


def match_families(O, combo, c, tile, fams, order, evs, facts, fname, case, T_, mp):
    out = []
    def vc(name, hy, goal, line=0, kind='post'):
        out.append(DVC(fname, '%s [%s]' % (name, case.label), hy, goal, line, kind))
    byfam = {i: [] for i in range(len(fams))}
    for e in evs:
        cand = [i for i, F in enumerate(fams) if F.task == e.name]
        if not cand:
            vc('no task outside the contract: %s' % e.name, e.hy, FALSE, e.line); continue
        i = cand[0]
        F = fams[i]
        if tile: e.p, e.extra = {g: Z for g in range(combo.N)}, []
        else: e.p, e.extra = point_of(O, combo, e, mp, F)
        for nm, g in e.extra: vc('task %s: %s' % (e.name, nm), e.hy, g, e.line, 'pairing')
        miss = [g for g in F.dims if g not in e.p]
        if miss and not tile:
            vc('task %s: its operands determine its place in the grid' % e.name, e.hy, FALSE, e.line, 'pairing'); continue
        rngp = []
        if F.targs == 'T' and T_ is not None:
            ok = tuple(e.targs[:1]) == (T_,)
            if not ok: vc('task %s is submitted for type %s' % (e.name, T_), e.hy, FALSE, e.line, 'args')
        want = F.args(c, e.p)
        if len(want) != len(e.args):
            if len(e.args) < len(want) or True:
                vc('task %s has the arguments of its contract' % e.name, e.hy, FALSE, e.line, 'args'); continue
        Nn = Norm(mp, e.hy)
        for j, (x, y) in enumerate(zip(want, e.args)):
            nm = 'task %s: argument %d' % (e.name, j + 1)
            if isinstance(x, tuple) and x[0] == 'H':
                good = isinstance(y, Opaque) and y.kind == 'handle' and y.data[0] == x[1]
                if not good: vc(nm + ' is a tile of %s' % x[1], e.hy, FALSE, e.line, 'args')
                else: out.append(_ok(fname, nm + ' is a tile of %s [%s]' % (x[1], case.label), e.line, 'args'))
                continue
            if isinstance(x, tuple) and x[0] == 'E':
                good = isinstance(y, Opaque) and y.kind == 'E' and y.data[0] == x[1] or (isinstance(y, Opaque) and y.kind == 'Eval' and y.data[0] == x[1])
                if not good: vc(nm + ' is %s' % x[1], e.hy, FALSE, e.line, 'args')
                else: out.append(_ok(fname, nm + ' is %s [%s]' % (x[1], case.label), e.line, 'args'))
                continue
            if isinstance(x, tuple) and x[0] == 'vec':
                vs = vec_elems(y)
                if vs is None or len(vs) != len(x[1]): vc(nm + ' has %d elements' % len(x[1]), e.hy, FALSE, e.line, 'args'); continue
                for d, (u, v) in enumerate(zip(x[1], vs)): vc(nm + '[%d] = %s' % (d, show(Nn(u))[:80]), e.hy, eq(Nn(u), v), e.line, 'args')
                continue
            if isinstance(x, tuple) and x[0] == 'scratch':
                if x[1] is Z and isinstance(y, Opaque) and y.kind in ('nohandle', 'scratch'): continue
                if isinstance(y, Opaque) and y.kind == 'scratch': vc(nm + ' is a scratch buffer of %s bytes' % show(x[1]), e.hy, ge(y.data[0], x[1]), e.line, 'args')
                else: vc(nm + ' is a scratch buffer', e.hy, FALSE, e.line, 'args')
                continue
            if not isinstance(y, T): vc(nm, e.hy, FALSE, e.line, 'args'); continue
            if isinstance(x, tuple) and x[0] == 'alt':
                vc(nm + ' is one of ' + ', '.join(show(a)[:30] for a in x[1:]), e.hy, Or(*[eq(Nn(a), y) for a in x[1:]]), e.line, 'args'); continue
            x = Nn(x)
            if x.sort != y.sort: x, y = toreal(x), toreal(y)
            vc(nm + ' = ' + show(x)[:80], e.hy, eq(x, y), e.line, 'args')
        e.fam = i
        byfam[i].append(e)
    # ---- coverage
    for i, F in enumerate(fams):
        es = byfam[i]
        if tile:
            if F.guard is not None and not es:
                vc('task %s where the contract has one' % F.task, facts, Not(F.guard(c, {})), 0, 'cover')
            elif F.guard is not None and len(es) == 1 and not es[0].binders:
                vc('task %s only where the contract has one' % F.task, es[0].hy, F.guard(c, {}), es[0].line, 'cover')
                vc('task %s where the contract has one' % F.task, facts + [F.guard(c, {})], es[0].guard, es[0].line, 'cover')
            elif len(es) != 1 or es[0].binders:
                vc('exactly one task %s' % F.task, facts, FALSE, es[0].line if es else 0, 'cover')
            else: vc('exactly one task %s' % F.task, facts, es[0].guard, es[0].line, 'cover')
            continue
        w = {g: fresh('w%d' % g) for g in F.dims}
        whyp = list(facts)
        for g in F.dims: whyp += [ge(w[g], Z), lt(w[g], Norm(mp, facts)(ceildiv(c.S(g), c.B(g))))]
        cover = []
        okw = True
        for e in es:
            e.W = None
            pm = {g: e.p[g] for g in F.dims}
            Wt = solve_witness(pm, e.binders, w, combo.N)
            if Wt is None:
                vc('each tile is visited once by task %s (no inverse of its index map)' % F.task, e.hy, FALSE, e.line, 'cover'); okw = False; continue
            e.W = Wt
            Nw = Norm(mp, whyp)
            conj_ = []
            for b, n in e.binders: conj_ += [ge(Nw(Wt[b]), Z), lt(Nw(Wt[b]), Nw(subst(n, Wt)))]
            conj_.append(Nw(subst(e.guard, Wt)))
            for g in F.dims: conj_.append(eq(Nw(subst(e.p[g], Wt)), w[g]))
            e.cov = And(*conj_)
            cover.append(e.cov)
            # no duplicates inside the event
            pw = {w[g]: e.p[g] for g in F.dims}
            Ne = Norm(mp, e.hy)
            for b, n in e.binders:
                vc('each tile gets one task %s (loop of %s)' % (F.task, b.args[0].split('!')[0]), e.hy, eq(Ne(subst(Wt[b], pw)), b), e.line, 'cover')
            if F.guard is not None:
                vc('task %s only where the contract has one' % F.task, e.hy, F.guard(c, e.p), e.line, 'cover')
            for g in F.dims:
                G = Ne(ceildiv(c.S(g), c.B(g)))
                vc('task %s stays in the grid along dimension %d' % (F.task, g), e.hy, And(ge(e.p[g], Z), lt(e.p[g], G)), e.line, 'cover')
        if not okw: continue
        wh = whyp + ([F.guard(c, w)] if F.guard is not None else [])
        vc('every tile gets its task %s' % F.task, wh, Or(*cover), es[0].line if es else 0, 'cover')
        for x in range(len(es)):
            for y in range(x):
                vc('no tile gets two tasks %s' % F.task, wh + [es[x].cov, es[y].cov], FALSE, es[x].line, 'cover')
    # ---- order
    if True:
        for (i, Pi, j, Pj, shared) in order:
            for e1 in byfam[i]:
                for e2 in byfam[j]:
                    o1 = before(e1, e2, Pi, Pj, shared, mp, facts, c, combo)
                    if o1 is None: continue
                    hy, goal = o1
                    vc('the first contribution to an output tile precedes the others' if i == j else 'task %s precedes task %s on the same tile' % (fams[i].task, fams[j].task),
                       hy, goal, e2.line, 'order')
    return out


def vec_elems(y):
    if not (isinstance(y, Opaque) and y.kind == 'vec' and isnum(y.data[0])): return None
    return [lamapp(y.data[1], num(d)) for d in range(int(y.data[0].args[0]))]


def _ok(fname, name, line, kind):
    v = DVC(fname, name, [], TRUE, line, kind)
    v.ok = True; v.by = 'syntactic'
    return v


def before(e1, e2, P1, P2, shared, mp, facts, c, combo):
    """e1 at points with P1 runs before e2 at points with P2 with equal shared coordinates"""
    ren = {b: fresh(b.args[0].split('!')[0]) for b, n in e2.binders}
    r = lambda t: subst(t, ren)
    hy = list(e1.hy) + [r(h) for h in e2.hy]
    p2 = {g: r(t) for g, t in e2.p.items()}
    hy += [P1(e1.p), P2(p2)]
    hy += [eq(e1.p[g], p2[g]) for g in shared]
    for x in list(hy):
        if x is FALSE: return None
    goal = FALSE
    eqs = TRUE
    b1 = [b for b, n in e1.binders]; b2 = [b for b, n in e2.binders]
    k = 0
    alts = []
    while k < len(b1) and k < len(b2) and b1[k] is b2[k]:
        alts.append(And(eqs, lt(b1[k], ren[b2[k]])))
        eqs = And(eqs, eq(b1[k], ren[b2[k]]))
        k += 1
    if e1 is not e2 and e1.k < e2.k: alts.append(eqs)
    goal = Or(*alts)
    # monotonicity of the linear tile index: pointwise <= of the coordinates implies <= (lemma L4)
    for q in range(k):
        x, y = b1[q], ren[b2[q]]
        Ks = set()
        for e, bb in ((e1, x),):
            for g, t in e.p.items():
                if t.op == 'sel' and t.args[0] == 'l2i' and t.args[3] is x and t.args[1].op == 'tup': Ks.add(t.args[1])
        for K in Ks:
            n = len(K.args)
            cs = [(l2i(K, num(n), x, num(d)), l2i(K, num(n), y, num(d))) for d in range(n)]
            for u, v in cs: hy += [ge(u, Z), ge(v, Z)]
            hy.append(Or(And(*[eq(u, v) for u, v in cs], eq(x, y)), lt(x, y), *[gt(u, v) for u, v in cs]))
    return hy, goal


def verify_case(O, level, tu, f, case):
    """returns dict: prop-part -> VCs"""
    tile = level == 'tile'
    ex = CppExec(tu)
    ex.case = (O, case, tile)
    fname = '%s::%s_async<%s>' % (level, O.fn, ','.join(map(str, targs_of(f))))
    paths = kver.run_function(ex, f, lambda: setup(ex, O, f, case, tile))
    c14 = []; main = []
    combo = case.combo
    for kind, val, st, scal in paths:
        hy = st.hyps()
        evs = [o for o in st.trace if isinstance(o.val, Traced)]
        if combo is None:
            c14.append(DVC(fname, 'incompatible operands are rejected [%s]' % case.label, hy, FALSE if kind != 'throw' else TRUE, val if isinstance(val, int) else 0, 'reject'))
            if kind == 'throw': c14.append(DVC(fname, 'nothing is submitted before an operand is rejected [%s]' % case.label, hy, TRUE if not evs else FALSE, val, 'reject'))
            continue
        conds, mp, c = relation(O, combo, tile, scal)
        if kind == 'throw':
            c14.append(DVC(fname, 'compatible operands are accepted [%s]' % case.label, hy + [x for _, x in conds], FALSE, val if isinstance(val, int) else 0, 'accept'))
            c14.append(DVC(fname, 'nothing is submitted before an operand is rejected [%s]' % case.label, hy, TRUE if not evs else FALSE, val, 'reject'))
            continue
        for nm, x in conds:
            c14.append(DVC(fname, 'accepted operands satisfy %s [%s]' % (nm, case.label), hy, x, 0, 'reject'))
        check_normal(O, f, case, st, scal, fname, tile, None, main, None)
    N = None
    for o in ex.obl:
        hy, g = o.hyps, o.goal
        c14.append(DVC(fname, '%s [%s]' % (o.name, case.label), hy, g, o.line, 'safety'))
    return c14, main, paths, ex
