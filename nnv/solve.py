"""Discharging verification conditions: normaliser, z3, cvc5.

prove(hyps, goal) -> Result.  Non-linear integer terms: every non-linear
monomial becomes an integer variable and products of hypotheses (sound
consequences) are added until the linear solver closes the goal.
"""
import time, math, random, os
import z3
from .terms import *
from .terms import _monokey
from fractions import Fraction as Q

STATS = dict(nf=0, z3=0, cvc5_agree=0, cvc5_unknown=0, cvc5_disagree=0, z3_time=0.0, cvc5_time=0.0, queries=0)
CROSS = os.environ.get('NNV_CVC5', '1') == '1'
TIMEOUT = 4000


class Result(object):
    def __init__(self, ok, by='', info='', cex=None):
        self.ok = ok; self.by = by; self.info = info; self.cex = cex

    def __bool__(self): return self.ok


# ------------------------------------------------------------------ translation
class Tr(object):
    def __init__(self, nonlinear=False):
        self.v = {}
        self.nl = nonlinear
        self.monos = {}
        self.allv = {}
        self.memo = {}

    def atom(self, a):
        x = self.v.get(a)
        if x is None:
            nm = 'a%d' % a.id
            if a.sort == 'I': x = z3.Int(nm)
            elif a.sort == 'R': x = z3.Real(nm)
            elif a.sort == 'B': x = z3.Bool(nm)
            else: x = z3.Int(nm)
            self.v[a] = x
        return x

    def arith(self, t):
        r = self.memo.get(t)
        if r is not None: return r
        if t.op == 'num':
            r = z3.RealVal(str(t.args[0])) if t.sort == 'R' else z3.IntVal(int(t.args[0]))
        elif t.op == 'poly':
            parts = []
            frac = t.sort == 'I' and any(c.denominator != 1 for c, m in t.args)
            real = t.sort == 'R' or frac
            for c, m in t.args:
                if not m:
                    parts.append(z3.RealVal(str(c)) if real else z3.IntVal(int(c)))
                    continue
                x = self.mono(m)
                if real and x.sort() == z3.IntSort(): x = z3.ToReal(x)
                if c != 1:
                    x = (z3.RealVal(str(c)) if real else z3.IntVal(int(c))) * x
                parts.append(x)
            r = z3.Sum(parts) if len(parts) > 1 else parts[0]
        else:
            r = self.atom(t)
        self.memo[t] = r
        return r

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        if self.nl:
            r = None
            real = any(a.sort == 'R' for a, e in m)
            for a, e in m:
                x = self.atom(a)
                if real and x.sort() == z3.IntSort(): x = z3.ToReal(x)
                for _ in range(e): r = x if r is None else r * x
            return r
        x = self.monos.get(m)
        if x is None:
            real = any(a.sort == 'R' for a, e in m)
            nm = 'm_' + '_'.join('%d^%d' % (a.id, e) for a, e in m)
            x = z3.Real(nm) if real else z3.Int(nm)
            self.monos[m] = x
        return x

    def boolean(self, t):
        op = t.op
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op in ('le', 'lt', 'eq'):
            x = self.arith(t.args[0])
            return x <= 0 if op == 'le' else (x < 0 if op == 'lt' else x == 0)
        if op == 'not': return z3.Not(self.boolean(t.args[0]))
        if op == 'and': return z3.And([self.boolean(a) for a in t.args])
        if op == 'or': return z3.Or([self.boolean(a) for a in t.args])
        if op == 'ite':
            return z3.If(self.boolean(t.args[0]), self.boolean(t.args[1]), self.boolean(t.args[2]))
        return self.atom(t)


# ------------------------------------------------------------------ atom axioms
def collect_atoms(forms):
    acc = set()
    for f in forms: subterms(f, acc)
    return acc


BOUND = lambda s: s.args[0][0] == '_' and s.args[0][1] in 'bqpl'


def closed(t):
    """no canonical bound variable occurs free"""
    return not any(BOUND(s) for s in syms(t))


def atom_axioms(atoms, nl):
    ax = []
    sels = {}
    psums = {}
    preds = {}
    exps = []
    fns = {}
    invs = []
    for a in atoms:
        if not closed(a): continue
        if a.op in ('div', 'mod'):
            x, y = a.args
            q = mk('div', (x, y), 'I'); r = mk('mod', (x, y), 'I')
            ax.append(Implies(And(ge(x, num(0)), gt(y, num(0))),
                              And(eq(x, y * q + r), ge(r, num(0)), lt(r, y), ge(q, num(0)), le(q, x))))
        elif a.op == 'ite' and a.sort != 'B':
            c, x, y = a.args
            ax.append(Implies(c, eq(a, x))); ax.append(Implies(Not(c), eq(a, y)))
        elif a.op == 'fn':
            n = a.args[0]
            if n == 'exp':
                ax.append(gt(a, num(0, 'R'))); exps.append(a)
                ax.append(Implies(le(a.args[1], num(0, 'R')), le(a, num(1, 'R'))))
            elif n == 'sqrt':
                p = a.args[1]
                z = num(0, 'R')
                ax.append(ge(a, z))
                ax.append(Implies(ge(p, z), eq(a * a, p)))
                ax.append(Implies(gt(p, z), gt(a, z)))
            elif n == 'fabs':
                p = a.args[1]; z = num(0, 'R')
                ax.append(ge(a, z)); ax.append(Implies(ge(p, z), eq(a, p))); ax.append(Implies(le(p, z), eq(a, -p)))
            elif n == 'pmax':
                b, l = a.args[1:]
                ax.append(ge(a, b))
                if l.op == 'lam':
                    v, cnt, d = l.args
                    ax.append(Implies(le(cnt, num(0)), eq(a, b)))
                    if d.op == 'fn' and d.args[0] == 'fabs':
                        # all members are zero when the maximum of nonnegative numbers is
                        w = fresh('w')
                        ax.append(Implies(le(a, num(0, 'R')), eq(Sum(w, num(0), cnt, subst(d.args[1] * d.args[1], {v: w})), num(0, 'R'))))
            elif n == 'ceildiv':
                p, q = a.args[1:]
                ax.append(Implies(And(ge(p, num(1)), ge(q, num(1))), And(ge(a, num(1)), ge(p, (a - 1) * q + 1), le(p, a * q))))
            elif n == 'text':
                p, q, u = a.args[1:]
                g = mk('fn', ('ceildiv', p, q), 'I')
                ax.append(Implies(And(ge(p, num(1)), ge(q, num(1)), ge(u, num(0)), lt(u, g)),
                                  And(ge(a, num(1)), le(a, q), le(u * q + a, p), Implies(lt(u, g - 1), eq(a, q)),
                                      Implies(eq(u, g - 1), eq(u * q + a, p)))))
            fns.setdefault((n, len(a.args)), []).append(a)
        elif a.op == 'inv':
            p = a.args[0]; z = num(0, 'R')
            invs.append(a)
            ax.append(Implies(gt(p, z), gt(a, z))); ax.append(Implies(lt(p, z), lt(a, z)))
            ax.append(Implies(eq(p, z), eq(a, z)))
            if nl or len(terms_of(p)) == 1:
                ax.append(Implies(ne(p, z), eq(p * a, num(1, 'R'))))
        elif a.op == 'sel':
            sels.setdefault((a.args[0], len(a.args), a.sort), []).append(a)
        elif a.op == 'pred':
            preds.setdefault((a.args[0], len(a.args)), []).append(a)
        elif a.op == 'psum':
            psums.setdefault(a.args[1], []).append(a)
            if len(a.args[0]) >= 1:
                for b, n in a.args[0]:
                    ax.append(Implies(le(n, num(0)), eq(a, num(0, a.sort))))
    infs = [a for (n, k), l in preds.items() if n == 'isinf' for a in l]
    if 1 < len(infs) < 8:
        for x in infs:
            for y in infs:
                if x is y: continue
                u, w = x.args[1], y.args[1]
                if any(q.op == 'fn' and q.args[0] == 'exp' for q in subterms(u) | subterms(w)): continue
                ax.append(Implies(And(x, Not(y)), lt(u, w)))
                if x.id < y.id: ax.append(Implies(And(x, y), eq(u, w)))
    for body, l in psums.items():
        for a in l:
            for b in l:
                if a is b or len(a.args[0]) != 1 or len(b.args[0]) != 1: continue
                n1, n2 = a.args[0][0][1], b.args[0][0][1]
                d = n2 - n1
                if isnum(d) and d.args[0] == 1:
                    f = subst(body, {a.args[0][0][0]: n1})
                    ax.append(Implies(ge(n1, num(0)), eq(b, a + f)))
    for grp in list(sels.values()) + list(preds.values()) + list(fns.values()):
        grp = sorted(grp)
        if len(grp) > 40: grp = grp[:40]
        for i in range(len(grp)):
            for j in range(i):
                x, y = grp[i], grp[j]
                conds = []
                for u, w in zip(x.args, y.args):
                    if u is w or not isinstance(u, T): 
                        if not isinstance(u, T) and u != w: conds = None; break
                        continue
                    e = eq(u, w) if u.sort != 'B' else eq(u, w)
                    if e is FALSE: conds = None; break
                    conds.append(e)
                if conds is None: continue
                ax.append(Implies(And(*conds), eq(x, y)))
    for i in range(len(exps)):
        for j in range(len(exps)):
            if i != j and len(exps) <= 6:
                ax.append(Implies(le(exps[i].args[1], exps[j].args[1]), le(exps[i], exps[j])))
    return [a for a in ax if a is not TRUE]


# ------------------------------------------------------------------ quantifiers
def quant_instances(forms, rounds=2):
    """replace every 'all' subterm by a boolean variable constrained by instances / a skolem witness"""
    bvars = {}
    extra = []
    done = set()
    qs = {}

    def strip(t):
        if t.op == 'all':
            if not closed(t):
                return t
            if t not in qs:
                b = mk('sym', ('Q#%d' % t.id,), 'B')
                qs[t] = b
                v, lo, hi, body = t.args
                sk = fresh('sk')
                neg = And(le(lo, sk), lt(sk, hi), Not(strip(subst(body, {v: sk}))))
                extra.append(Or(b, neg))
            return qs[t]
        if t.op in ('and', 'or', 'not') or (t.op == 'ite' and t.sort == 'B'):
            return rebuild(t, strip)
        return t
    out = [strip(f) for f in forms]
    for _ in range(rounds):
        atoms = collect_atoms(out + extra)
        # index terms per array
        idx = {}
        ints = set()
        for a in atoms:
            if a.op == 'sel' and closed(a):
                for p, i in enumerate(a.args[1:]):
                    idx.setdefault((a.args[0], len(a.args), p), set()).add(i)
            if a.op == 'sym' and a.sort == 'I' and not BOUND(a): ints.add(a)
        new = False
        for t, b in list(qs.items()):
            v, lo, hi, body = t.args
            cands = set()
            for s in subterms(body):
                if s.op == 'sel' and v in syms(s):
                    for p, i in enumerate(s.args[1:]):
                        if v not in syms(i): continue
                        for x in idx.get((s.args[0], len(s.args), p), ()):
                            if closed(x):
                                x = match_index(i, v, x)
                                if x is not None: cands.add(x)
            if not cands and len(ints) < 12: cands = ints
            for x in sorted(cands)[:25]:
                if (t, x) in done: continue
                done.add((t, x))
                new = True
                extra.append(Or(Not(b), Not(And(le(lo, x), lt(x, hi))), strip(subst(body, {v: x}))))
        if not new: break
    return out + extra


def match_index(i, v, x):
    """the value of v with i == x, for i = a*v + c"""
    a = next((co for co, m in terms_of(i) if m == ((v, 1),)), None)
    if a is None: return None
    c = i - scale(v, a)
    if v in syms(c): return None
    r = scale(x - c, 1 / Q(a))
    if any(co.denominator != 1 for co, m in terms_of(r)): return None
    return r


def known_instances(hyps, goal):
    """instances of quantified hypotheses about cells of real arrays that the goal mentions, with a proved range"""
    alls = [h for h in hyps if h.op == 'all' and any(s.op == 'sel' and s.sort == 'R' for s in subterms(h.args[3]))]
    if not alls: return []
    cells = sorted((a for a in subterms(goal) if a.op == 'sel' and closed(a)), key=lambda a: a.id)
    if not cells or len(cells) > 40: return []
    base = [h for h in hyps if h.op != 'all' and not any(s.sort == 'R' for s in subterms(h))]
    out = []
    for t in alls:
        v, lo, hi, body = t.args
        for s in subterms(body):
            if s.op != 'sel' or v not in syms(s): continue
            for a in cells:
                if a.args[0] != s.args[0] or len(a.args) != len(s.args): continue
                x = next((match_index(i, v, y) for i, y in zip(s.args[1:], a.args[1:]) if v in syms(i)), None)
                if x is None: continue
                g = subst(body, {v: x})
                if g in hyps or g in out: continue
                if _prove(base, And(le(lo, x), lt(x, hi)), 2000, True).ok: out.append(g)
    return out


# ------------------------------------------------------------------ products of hypotheses
def conj(forms):
    out = []
    for f in forms:
        if f.op == 'and': out.extend(conj(f.args))
        else: out.append(f)
    return out


def saturate(forms, extra_monos=(), cap=300, rounds=3):
    """returns product facts (polys p with p<=0, as 'le' terms / 'eq' terms) implied by the conjunction of forms"""
    facts = []   # (kind, poly) : poly>=0 or poly==0, integer sort
    nonneg = set()
    for f in conj(forms):
        if f.op == 'le' and f.args[0].sort == 'I': facts.append(('ge', -f.args[0]))
        elif f.op == 'eq' and f.args[0].sort == 'I': facts.append(('eq', f.args[0]))
    for k, p in facts:
        ts = terms_of(p)
        if k == 'ge' and all(c > 0 or not m for c, m in ts) and all(len(m) <= 1 for c, m in ts):
            lin = [(c, m) for c, m in ts if m]
            cst = sum((c for c, m in ts if not m), Q(0))
            if len(lin) == 1 and lin[0][0] > 0 and cst <= 0 and lin[0][1][0][1] == 1:
                nonneg.add(lin[0][1][0][0])
    monos = set(extra_monos)
    for f in collect_atoms(forms):
        if f.op in ('le', 'eq') and f.args[0].sort == 'I':
            for c, m in terms_of(f.args[0]):
                if sum(e for a, e in m) > 1: monos.add(m)
    out = []
    seen = set(p for _, p in facts)
    # nonnegativity of monomials of nonneg atoms
    frontier = list(facts)
    nn_done = set()
    for r in range(rounds):
        newm = set()
        newfacts = []
        for mu in list(monos):
            if mu not in nn_done and all(a in nonneg for a, e in mu):
                nn_done.add(mu)
                p = from_terms({mu: Q(1)}, 'I')
                if p not in seen:
                    seen.add(p); out.append(ge(p, num(0)))
        for k, p in (facts if r == 0 else facts + []):
            ts = terms_of(p)
            for mu in list(monos):
                mud = dict(mu)
                for c, nu in ts:
                    if not nu: continue
                    ok = all(mud.get(a, 0) >= e for a, e in nu)
                    if not ok: continue
                    mult = {a: e - dict(nu).get(a, 0) for a, e in mud.items()}
                    mult = tuple(sorted(((a, e) for a, e in mult.items() if e), key=lambda x: x[0].id))
                    if not mult: continue
                    if k == 'ge' and not all(a in nonneg for a, e in mult): continue
                    q = mul(p, from_terms({mult: Q(1)}, 'I'))
                    if q in seen: continue
                    if sum(e for a, e in max((m for c, m in terms_of(q)), key=lambda m: sum(e for a, e in m), default=())) > 6: continue
                    seen.add(q)
                    out.append(ge(q, num(0)) if k == 'ge' else eq(q, num(0)))
                    for c2, m2 in terms_of(q):
                        if sum(e for a, e in m2) > 1 and m2 not in monos: newm.add(m2)
                    if len(out) > cap: return out
        if not newm: break
        monos |= newm
    return out


# ------------------------------------------------------------------ proving
def subst_eqs(hyps, goal, keep=()):
    """use hypotheses sym == term (and simple equalities) as rewrites"""
    hyps = list(hyps)
    for _ in range(8):
        done = True
        for i, h in enumerate(hyps):
            if h.op != 'eq': continue
            ts = terms_of(h.args[0])
            for c, m in ts:
                if len(m) == 1 and m[0][1] == 1 and (m[0][0].op == 'sym' and abs(c) == 1 or m[0][0].op == 'sel' and m[0][0].sort == 'R' and closed(m[0][0])):
                    s = m[0][0]
                    if s.op == 'sym' and BOUND(s) or s in keep: continue
                    e = s - scale(h.args[0], 1 / c)
                    if s.op == 'sym' and s in syms(e) or s.op == 'sel' and s in subterms(e): continue
                    if s.sort == 'I' and e.sort != 'I': continue
                    mp = {s: e}
                    hyps = [subst(x, mp) for j, x in enumerate(hyps) if j != i]
                    goal = subst(goal, mp)
                    done = False
                    break
            if not done: break
        if done: break
    return hyps, goal


def ite_conds(t, acc):
    for s in subterms(t):
        if s.op == 'ite' and closed(s.args[0]): atomic(s.args[0], acc)
    return acc


def atomic(c, acc):
    if c.op in ('and', 'or', 'not'):
        for a in c.args: atomic(a, acc)
    elif c.op not in ('true', 'false'): acc.add(c)


def _assume2(t, c, v):
    # compound condition: substitute the whole subterm
    mp = {c: TRUE if v else FALSE}
    n = Not(c)
    if n.op not in ('true', 'false'): mp[n] = FALSE if v else TRUE
    return subst(t, mp)


_cache = {}


def prove(hyps, goal, want_cex=False, timeout=None, quick=False):
    hyps = [h for h in conj(hyps) if h is not TRUE]
    if FALSE in hyps: return Result(True, 'nf')
    key = (frozenset(hyps), goal, quick)
    if key in _cache: return _cache[key]
    r = _prove(hyps, goal, timeout or TIMEOUT, quick)
    _cache[key] = r
    return r


def split_candidates(p):
    """divisor candidates c for c*q + r == 0"""
    cands = {}
    for c, m in terms_of(p):
        if sum(e for a, e in m) < 2: continue
        at = [a for a, e in m for _ in range(e)]
        n = len(at)
        if n > 5: continue
        for mask in range(1, (1 << n) - 1):
            sub = [at[i] for i in range(n) if mask >> i & 1]
            if any(a.op != 'sym' or '!' in a.args[0] for a in sub): continue
            d = {}
            for a in sub: d[a] = d.get(a, 0) + 1
            mm = tuple(sorted(d.items(), key=lambda x: x[0].id))
            cands[mm] = sum(d.values())
    return [from_terms({m: Q(1)}, 'I') for m, k in sorted(cands.items(), key=lambda x: (-x[1], [a.id for a, e in x[0]]))]


def split_eq(p, hyps, depth=0):
    """polynomials whose vanishing is equivalent (under hyps) to p == 0
    lemma: c*q + r = 0 and -c < r < c imply q = 0 and r = 0"""
    if p.sort != 'I' or isnum(p) or depth > 6: return [p]
    # common factor known to be positive
    ts = terms_of(p)
    com = None
    for c, m in ts:
        d = {a: e for a, e in m if a.op == 'sym' and '!' not in a.args[0]}
        com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
    if com and len(ts) > 1:
        mono = tuple(sorted(com.items(), key=lambda x: x[0].id))
        c = from_terms({mono: Q(1)}, 'I')
        if all(z3_check(hyps, ge(a, num(1)), False, 300, light=True).ok for a in com):
            q, r = polydiv(p, c)
            return split_eq(q, hyps, depth + 1)
    for c in split_candidates(p)[:12]:
        q, r = polydiv(p, c)
        if isnum(r) and r.args[0] == 0: continue
        if isnum(q): continue
        if z3_check(hyps, And(lt(r, c), lt(-c, r)), False, 700).ok:
            return split_eq(q, hyps, depth + 1) + split_eq(r, hyps, depth + 1)
    return [p]


def split_hyps(hyps):
    out = []
    ch = False
    for h in hyps:
        if h.op == 'eq' and h.args[0].sort == 'I' and any(sum(e for a, e in m) > 1 for c, m in terms_of(h.args[0])):
            rest = [x for x in hyps if x is not h]
            ps = split_eq(h.args[0], rest)
            if len(ps) > 1 or ps[0] is not h.args[0]:
                ch = True
                out += [cmp0('eq', x) for x in ps]
                continue
        out.append(h)
    return out, ch


def tighten(hyps):
    """p <= 0 and -p <= 0 give p == 0"""
    les = {}
    out = list(hyps)
    for h in hyps:
        if h.op == 'le': les[h.args[0]] = h
    for p in list(les):
        q = -p
        if q in les and p.id < q.id:
            out.append(cmp0('eq', p))
    return out


def _prove(hyps, goal, timeout, quick, depth=0):
    STATS['queries'] += 1
    if goal is TRUE or goal in hyps: STATS['nf'] += 1; return Result(True, 'nf')
    if goal.op == 'and':
        for g in goal.args:
            r = _prove(hyps, g, timeout, quick, depth)
            if not r: return r
        return Result(True, r.by)
    if goal.op == 'all':
        v, lo, hi, body = goal.args
        sk = fresh('sk')
        return _prove(hyps + [le(lo, sk), lt(sk, hi)], subst(body, {v: sk}), timeout, quick, depth)
    if goal.op == 'or':
        hyps = conj(list(hyps) + [Not(g) for g in goal.args]); goal = FALSE
    elif goal.op == 'not':
        hyps = conj(list(hyps) + [goal.args[0]]); goal = FALSE
    hyps = list(dict.fromkeys(h for h in hyps if h is not TRUE))
    if len(hyps) < 60: hyps = tighten(hyps)
    if depth < 3 and any(h.op == 'eq' and h.args[0].sort == 'I' and any(sum(e for a, e in m) > 1 for c, m in terms_of(h.args[0])) for h in hyps):
        hy2, ch = split_hyps(hyps)
        if ch: return _prove(conj(hy2), goal, timeout, quick, depth + 1)
    hyps, goal = subst_eqs(hyps, goal)
    hyps = [h for h in conj(hyps) if h is not TRUE]
    if FALSE in hyps or goal is TRUE or goal in hyps: STATS['nf'] += 1; return Result(True, 'nf')
    real = any(a.sort == 'R' for a in subterms(goal) if a.op in ('poly', 'sel', 'sym', 'fn', 'num')) if goal.op in ('eq', 'le', 'lt') else False
    if real and goal.args[0].sort == 'R':
        return prove_real(hyps, goal, timeout, quick, depth)
    r = z3_check(hyps, goal, False, timeout)
    if r.ok or quick: return r
    # case split on ite conditions
    cs = ite_conds(goal, set())
    if cs and depth < 6:
        c = sorted(cs)[0]
        for v in (True, False):
            rr = _prove(hyps + [c if v else Not(c)], _assume2(goal, c, v), timeout, quick, depth + 1)
            if not rr: return rr
        return rr
    r2 = z3_check(hyps, goal, True, timeout)
    return r2 if r2.ok else r


def exp_of_inf(hyps, goal):
    """an infinite value is minus infinity: exp(x + ...) is zero for infinite x"""
    infs = [h.args[1] for h in hyps if h.op == 'pred' and h.args[0] == 'isinf' and h.args[1].op != 'poly' and not (h.args[1].op == 'fn' and h.args[1].args[0] != 'pmax')]
    if not infs: return None
    mp = {}
    for e in collect_exp([goal] + list(hyps)):
        for c, m in terms_of(e.args[1]):
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in infs and c > 0: mp[e] = num(0, 'R')
    if not mp: return None
    return [subst(h, mp) for h in hyps], subst(goal, mp)


def exp_pairs(hyps, goal):
    """exp(a) and exp(-a) by a positive number and its inverse"""
    es = [a for a in collect_exp([goal] + list(hyps))]
    if len(es) < 2: return None
    reps = []; mp = {}
    new = []
    pair = False
    for x in es:
        a = round_consts(x.args[1]) if any(const_val(y) is not None for y in subterms(x.args[1]) if y.op in ('fn', 'inv')) else x.args[1]
        for b, e, s in reps:
            if b is a: mp[x] = e if s else inv(e); pair = pair or b is not x.args[1]; break
            if b is scale(a, Q(-1)): mp[x] = inv(e); pair = True; break
        else:
            e = fresh('e', 'R'); reps.append((a, e, True)); mp[x] = e
            new.append(gt(e, num(0, 'R')))
    if not pair: return None
    f = lambda t: flat_inv(subst(t, mp), [e for _, e, _ in reps])
    return [f(h) for h in hyps] + new, f(goal)


def collect_exp(forms):
    out = {}
    for f in forms:
        for x in subterms(f):
            if x.op == 'fn' and x.args[0] == 'exp' and set(syms(x)) <= set(syms(f)) and not any(str(y.args[0]).startswith('_') for y in syms(x)): out[x] = 1
    return sorted(out, key=lambda x: x.id)


def flat_inv(t, es):
    """inv(p) with inverses of the positive numbers es inside p: multiplied out"""
    ies = {inv(e): e for e in es}
    memo = {}
    def go(x):
        if x in memo: return memo[x]
        y = rebuild(x, go) if x.op not in ('num', 'sym', 'true', 'false') else x
        for _ in range(4):
            if y.op != 'inv': break
            p = y.args[0]
            k = next((a for c, m in terms_of(p) for a, e in m if a in ies), None)
            if k is None: break
            e = ies[k]; q = num(0, 'R'); n = max(d for c, m in terms_of(p) for a, d in m if a is k)
            for c, m in terms_of(p):
                md = dict(m); d = md.pop(k, 0)
                z = num(c, 'R')
                for a, dd in md.items():
                    for _i in range(dd): z = mul(z, a if a.sort == 'R' else toreal(a))
                for _i in range(n - d): z = mul(z, e)
                q = q + z
            y = inv(q)
            for _i in range(n): y = mul(y, e)
            if y.op != 'inv': break
        memo[x] = y
        return y
    return go(t)


def prove_real(hyps, goal, timeout, quick, depth=0):
    if depth == 0 and not quick:
        ki = known_instances(hyps, goal)
        if ki: hyps = conj(list(hyps) + ki)
    if depth < 9 and not quick:
        try: q = exp_pairs(hyps, goal)
        except TooBig: q = None
        if q is not None:
            r = prove_real(conj(q[0]), q[1], timeout, quick, depth)
            if r.ok: return r
    cs = ite_conds(goal, set())
    if cs and depth < 8:
        # pick an innermost condition (one without ite inside)
        cs = sorted(cs, key=lambda c: (sum(1 for s in subterms(c) if s.op == 'ite'), c.id))
        c = cs[0]
        rr = None
        for v in (True, False):
            h = c if v else Not(c)
            hy = hyps + [h]
            if Not(h) in hyps: continue
            g = _assume2(goal, c, v)
            hy2 = [(_assume2(x, c, v) if x is not h else x) for x in hy]
            if any(x is FALSE for x in hy2): continue
            if z3_check(hy2, FALSE, False, 500, light=True).ok: continue
            rr = _prove(hy2, g, timeout, quick, depth + 1)
            if not rr: return rr
        return rr if rr is not None else Result(True, 'nf')
    z = exp_of_inf(hyps, goal)
    if z is not None: return _prove(z[0], z[1], timeout, quick, depth + 1)
    if goal.op == 'eq':
        p = goal.args[0]
        if approx_zero(p): STATS['nf'] += 1; return Result(True, 'nf')
    # cancel inverses of provably nonzero terms
    g2 = cancel(goal, hyps)
    if g2 is TRUE: STATS['nf'] += 1; return Result(True, 'nf')
    if g2.op == 'eq' and approx_zero(g2.args[0]): STATS['nf'] += 1; return Result(True, 'nf')
    r = z3_check(hyps, g2, False, timeout)
    if r.ok or quick: return r
    if depth < 9:
        hyps = sign_facts(hyps)
        eqs = [cmp0('eq', h.args[0]) for h in hyps if h.op == 'le' and h.args[0].sort == 'R' and len(terms_of(h.args[0])) == 1
               and len(terms_of(h.args[0])[0][1]) == 1 and sign(h.args[0], [x for x in hyps if x is not h]) in ('nonneg', 'zero', 'pos')]
        eqs = [q for q in eqs if q not in hyps]
        if eqs: return _prove(hyps + eqs, goal, timeout, quick, depth + 1)
        hy3 = real_hyps(hyps)
        if z3_check(hy3, FALSE, False, 1000).ok: return Result(True, 'z3')
        g3 = real_simplify(goal, hyps)
        if g3 is TRUE or g3.op == 'eq' and approx_zero(g3.args[0]): STATS['nf'] += 1; return Result(True, 'nf')
        rr = sqrt_rule(hyps, g3, timeout, depth)
        if rr is not None and rr.ok: return rr
        r3 = z3_check(hy3, g3, False, timeout)
        if r3.ok: return r3
        r3 = z3_check(hy3, g3, True, timeout)
        if r3.ok: return r3
    r2 = z3_check(hyps, g2, True, timeout)
    return r2 if r2.ok else r


_sg = {}


def sign(p, hyps):
    """'pos' / 'nonneg' / 'zero' / None for a real term under hyps"""
    key = (p, tuple(hyps))
    if key in _sg: return _sg[key]
    z = num(0, 'R')
    r = None
    ts = terms_of(p)
    if isnum(p):
        c = p.args[0]
        r = 'pos' if c > 0 else ('zero' if c == 0 else None)
    elif len(ts) == 1 and (len(ts[0][1]) > 1 or ts[0][1][0][1] > 1 or ts[0][0] != 1):
        c, m = ts[0]
        if c > 0:
            ss = []
            for a, e in m:
                if e % 2 == 0:
                    ss.append('pos' if sign(a, hyps) == 'pos' else 'nonneg')
                else: ss.append(sign(a, hyps))
            if all(x == 'pos' for x in ss): r = 'pos'
            elif all(x in ('pos', 'nonneg', 'zero') for x in ss): r = 'nonneg'
    elif p.op == 'inv':
        r = sign(p.args[0], hyps)
        if r == 'zero': r = 'zero'
    elif p.op == 'fn' and p.args[0] == 'exp': r = 'pos'
    elif p.op == 'fn' and p.args[0] == 'sqrt':
        r = 'pos' if sign(p.args[1], hyps) == 'pos' else 'nonneg'
    elif p.op == 'fn' and p.args[0] == 'fabs':
        r = 'pos' if nonzero(p.args[1], hyps) else 'nonneg'
    if p.op == 'psum' and r is None:
        if sign(p.args[1], []) in ('pos', 'nonneg'): r = 'nonneg'
    if p.op == 'poly' and len(ts) > 1 and r is None:
        ss = [sign(from_terms({m: c}, 'R'), hyps) for c, m in ts]
        if all(x is not None for x in ss):
            r = 'pos' if 'pos' in ss else 'nonneg'
    if r is None:
        if z3_check(hyps, gt(p, z), False, 500, light=True).ok: r = 'pos'
        elif z3_check(hyps, ge(p, z), False, 500, light=True).ok: r = 'nonneg'
        elif len(ts) > 1:
            if z3_check(hyps, gt(p, z), True, 1000).ok: r = 'pos'
            elif z3_check(hyps, ge(p, z), True, 1000).ok: r = 'nonneg'
    _sg[key] = r
    return r


def simp_mono(c, m, hyps):
    """sqrt(a)^2 -> a, |a| -> +-a, merge the non-negative part of a monomial that contains a square root under one root"""
    out = num(c, 'R')
    d = dict(m)
    rest = {}
    N = []; D = []
    for a, e in list(d.items()):
        base, s = (a.args[0], -1) if a.op == 'inv' else (a, 1)
        b = base
        if b.op == 'fn' and b.args[0] == 'fabs':
            sg = sign(b.args[1], hyps)
            if sg is not None: x = b.args[1]
            elif sign(-b.args[1], hyps) is not None: x = -b.args[1]
            else: x = None
            if x is not None:
                for _ in range(e): out = out * (x if s == 1 else inv(x))
                continue
        if b.op == 'fn' and b.args[0] == 'sqrt' and (e > 1 or True):
            if sign(b.args[1], hyps) is not None:
                k = e // 2
                for _ in range(k): out = out * (b.args[1] if s == 1 else inv(b.args[1]))
                if e % 2: (N if s == 1 else D).append(b.args[1])
                continue
        rest[a] = e
    return out, rest, N, D


def real_simplify_poly(p, hyps, root=True):
    r = num(0, 'R')
    for c, m in terms_of(p):
        out, rest, N, D = simp_mono(c, m, hyps)
        if N or D:
            n = num(1, 'R'); dd = num(1, 'R')
            for x in N: n = n * x
            for x in D: dd = dd * x
            # non-negative plain factors go under the root
            for a in list(rest):
                if a.op == 'fn' and a.args[0] in ('exp',): continue
                if sign(a, hyps) in ('pos', 'nonneg') and (a.op in ('sel', 'sym', 'inv') or (a.op == 'fn' and a.args[0] == 'fabs')):
                    e = rest.pop(a)
                    for _ in range(e):
                        if D: dd = dd * inv(a) * inv(a)
                        else: n = n * a * a
            # numeric coefficient stays outside
            for lst in (0,):
                if len(terms_of(out)) == 1:
                    co, mo = terms_of(out)[0]
                    keep = {}
                    for a, e in mo:
                        if sign(a, hyps) in ('pos', 'nonneg') and a.op in ('sel', 'sym', 'inv'):
                            for _ in range(e):
                                if D: dd = dd * inv(a) * inv(a)
                                else: n = n * a * a
                        else: keep[a] = e
                    out = from_terms({tuple(sorted(keep.items(), key=lambda x: x[0].id)): co}, 'R')
            n = cancel_poly(real_simplify_poly(n, hyps, False), hyps); dd = cancel_poly(real_simplify_poly(dd, hyps, False), hyps)
            out = out * fn('sqrt', n) * inv(fn('sqrt', dd))
        r = r + out * from_terms({tuple(sorted(rest.items(), key=lambda x: x[0].id)): Q(1)}, 'R')
    return r


def cancel_poly(p, hyps):
    g = cancel(cmp0('eq', p * sym('__c', 'R')), hyps) if False else None
    return _cancel_go(p, hyps)


def rewrite_rules(hyps):
    rules = []
    for h in hyps:
        if h.op != 'eq' or h.args[0].sort != 'R': continue
        ts = terms_of(h.args[0])
        best = None
        for c, m in ts:
            if not m: continue
            sc = (sum(1 for a, e in m if a.op == 'sel' and a.args[0].startswith('hv@')), sum(1 for a, e in m if a.op == 'psum'))
            if sc > (0, 0) and (best is None or sc > best[0]): best = (sc, c, m)
        if best is None: continue
        sc, c, m = best
        rhs = from_terms({m: Q(1)}, 'R') - scale(h.args[0], 1 / c)
        rules.append((m, rhs))
    return rules


def reduce(p, rules):
    for _ in range(12):
        ch = False
        for m, rhs in rules:
            q, r = polydiv(p, from_terms({m: Q(1)}, 'R'))
            if not (isnum(q) and q.args[0] == 0):
                p = r + q * rhs; ch = True
        if not ch: break
    return p


def real_simplify(goal, hyps):
    if goal.op not in ('eq', 'le', 'lt'): return goal
    p = goal.args[0]
    for _ in range(2):
        p = real_simplify_poly(p, hyps)
        p = _cancel_go(p, hyps)
        p = reduce(p, rewrite_rules(hyps))
    if goal.op == 'eq' and approx_zero(p): return TRUE
    return cancel(cmp0(goal.op, p), hyps)


def clear_inv(q, hyps):
    for _ in range(8):
        ia = [x for c, m in terms_of(q) for x, e in m if x.op == 'inv' and sign(x.args[0], hyps) == 'pos']
        if not ia: break
        q = _cancel_go(q * ia[0].args[0], hyps)
    return q


def sign_facts(hyps):
    """sign facts of products: drop factors known to be positive"""
    out = list(hyps)
    for h in hyps:
        if h.op in ('le', 'lt', 'eq') and h.args[0].sort == 'R':
            ts = terms_of(h.args[0])
            if len(ts) != 1: continue
            c, m = ts[0]
            d = tuple((a, e) for a, e in m if sign(a, hyps) != 'pos')
            if len(d) < len(m): out.append(cmp0(h.op, from_terms({d: c}, 'R')))
    return out


def real_hyps(hyps):
    """simplified hypotheses plus squares of  a <= b  facts with both sides non-negative; denominators cleared"""
    out = list(hyps)
    for h in hyps:
        if h.op in ('le', 'lt', 'eq') and h.args[0].sort == 'R':
            p = h.args[0]
            ts = terms_of(p)
            roots = any(x.op == 'fn' and x.args[0] in ('sqrt', 'fabs') for x in subterms(p))
            if not roots:
                q = clear_inv(_cancel_go(p, hyps), hyps)
                if q is not p: out.append(cmp0(h.op, q))
            elif len(ts) == 2:
                (c1, m1), (c2, m2) = ts
                a = from_terms({m1: c1}, 'R'); b = from_terms({m2: c2}, 'R')
                if c1 < 0 < c2 or c2 < 0 < c1:
                    lo, hi = (b, -a) if c1 < 0 else (a, -b)     # lo <= hi
                    if sign(lo, hyps) is not None and sign(hi, hyps) is not None:
                        q = real_simplify_poly(lo * lo - hi * hi, hyps)
                        q = clear_inv(_cancel_go(q, hyps), hyps)
                        out.append(cmp0(h.op, q))
            elif len(ts) == 1:
                c, m = ts[0]
                # sign facts of a product: drop factors known to be positive
                d = tuple((a, e) for a, e in m if sign(a, hyps) != 'pos')
                if len(d) < len(m): out.append(cmp0(h.op, from_terms({d: c}, 'R')))
    return list(dict.fromkeys(x for x in out if x is not TRUE))


def sqrt_rule(hyps, goal, timeout, depth):
    """X - sqrt(W) == 0  <=  X >= 0 and X*X == W and W >= 0"""
    if goal.op != 'eq': return None
    p = goal.args[0]
    sq = [(c, m[0][0]) for c, m in terms_of(p) if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] == 'sqrt']
    for c, a in sq:
        X = a - scale(p, 1 / c)
        if a in subterms(X): continue
        W = a.args[1]
        if sign(X, hyps) is None: continue
        g = cmp0('eq', X * X - W)
        g = real_simplify(g, hyps)
        if g is TRUE or g.op == 'eq' and approx_zero(g.args[0]): STATS['nf'] += 1; return Result(True, 'nf')
        r = z3_check(hyps, g, False, timeout)
        if r.ok: return r
        r = z3_check(hyps, g, True, timeout)
        if r.ok: return r
    return None


def nonzero(p, hyps):
    z = num(0, 'R')
    if ne(p, z) in hyps or gt(p, z) in hyps or lt(p, z) in hyps: return True
    return z3_check(hyps, ne(p, z), False, 600, light=True).ok or z3_check(hyps, ne(p, z), True, 1200).ok


def _cancel_go(t0, hyps):
    """rewrite p*inv(p) -> 1 for p provably nonzero"""
    def go(t):
        if t.op == 'poly' and t.sort == 'R':
            r = num(0, 'R')
            changed = False
            for c, m in t.args:
                md = dict(m)
                ch = False
                for a in list(md):
                    if a.op == 'inv' and a in md:
                        p = a.args[0]
                        pa = terms_of(p)
                        if len(pa) == 1 and len(pa[0][1]) == 1 and pa[0][1][0][0] in md:
                            b = pa[0][1][0][0]
                            if nonzero(p, hyps):
                                k = min(md[a], md[b])
                                md[a] -= k; md[b] -= k
                                ch = True
                if ch:
                    changed = True
                    mm = tuple(sorted(((a, e) for a, e in md.items() if e), key=lambda x: x[0].id))
                    r = r + from_terms({mm: c}, 'R')
                else:
                    r = r + from_terms({m: c}, 'R')
            if changed: return go2(r)
        return go2(t)

    def go2(t):
        if t.op == 'poly':
            return t
        return rebuild(t, go)
    return go(t0)


def cancel(goal, hyps):
    go = lambda t: _cancel_go(t, hyps)
    if goal.op in ('eq', 'le', 'lt'):
        p = goal.args[0]
        q = go(p)
        # clear remaining denominators of multi-term polys for equalities
        if goal.op == 'eq':
            for _ in range(4):
                ia = [a for c, m in terms_of(q) for a, e in m if a.op == 'inv']
                if not ia: break
                a = ia[0]
                if not nonzero(a.args[0], hyps): break
                k = max(e for c, m in terms_of(q) for b, e in m if b is a)
                nq = num(0, 'R')
                for c, m in terms_of(q):
                    md = dict(m); e = md.pop(a, 0)
                    mm = tuple(sorted(((x, y) for x, y in md.items() if y), key=lambda x: x[0].id))
                    x = from_terms({mm: c}, 'R')
                    for _i in range(k - e): x = x * a.args[0]
                    nq = nq + x
                q = go(nq)
        return cmp0(goal.op, q)
    return goal


# --- numeric constants
def const_val(t):
    if syms(t) or any(s.op == 'sel' for s in subterms(t)): return None
    try:
        return evalt(t, None)
    except Exception:
        return None


def round_consts(t, memo=None):
    """numeric evaluation of constant subterms, coefficients rounded to 6 significant digits"""
    if memo is None: memo = {}
    if t in memo: return memo[t]
    if t.sort == 'R' and t.op in ('poly', 'fn', 'inv', 'num'):
        if t.op == 'poly':
            r = num(0, 'R')
            for c, m in t.args:
                x = num(1, 'R'); k = float(c)
                for a, e in m:
                    y = round_consts(a, memo)
                    for _ in range(e):
                        x = mul(x, y if y.sort == 'R' else toreal(y))
                r = r + scale(x, Q(k))
            # round coefficients
            r = from_terms({m: rnd(c) for c, m in terms_of(r)}, 'R')
        else:
            v = const_val(t)
            if v is not None and isinstance(v, float) and math.isfinite(v):
                r = num(rnd(Q(v)), 'R')
            else:
                r = rebuild(t, lambda x: round_consts(x, memo))
    elif t.op in ('num', 'sym'):
        r = t
    else:
        r = rebuild(t, lambda x: round_consts(x, memo))
    memo[t] = r
    return r


def rnd(c):
    if c == 0: return Q(0)
    return Q('%.6g' % float(c))


def approx_zero(p):
    if p.op == 'num': return p.args[0] == 0
    if not any(const_val(a) is not None for a in subterms(p) if a.op in ('fn', 'inv')) and \
            all(len(str(c)) < 12 for x in subterms(p) if x.op == 'poly' for c, m in x.args):
        return False
    # unrounded evaluation, then compare coefficients with the magnitude of what cancelled
    memo = {}
    tot = {}
    mag = {}
    for c, m in terms_of(p):
        x = num(1, 'R')
        for a, e in m:
            y = round_consts(a, memo)
            for _ in range(e): x = mul(x, y if y.sort == 'R' else toreal(y))
        for c2, m2 in terms_of(x):
            v = float(c) * float(c2)
            tot[m2] = tot.get(m2, 0.0) + v
            mag[m2] = max(mag.get(m2, 0.0), abs(v))
    return all(abs(tot[m]) <= 2e-5 * mag[m] for m in tot)


# ------------------------------------------------------------------ z3 / cvc5
def relevant(hyps, goal):
    return hyps


def z3_check(hyps, goal, nl, timeout, light=False):
    forms = list(hyps) + ([Not(goal)] if goal is not FALSE else [])
    if any(s.op == 'all' for f in forms for s in subterms(f)):
        forms = quant_instances(forms)
    forms = conj(forms)
    if FALSE in forms: return Result(True, 'nf')
    atoms = collect_atoms(forms)
    ax = atom_axioms(atoms, nl)
    # axioms may introduce new atoms (e.g. the other of div/mod): one more round
    atoms2 = collect_atoms(ax) - atoms
    if atoms2: ax += atom_axioms(atoms | atoms2, nl)
    forms2 = forms + ax
    if not nl and not light:
        forms2 = forms2 + saturate(forms2)
    elif not nl:
        forms2 = forms2 + saturate(forms2, cap=60, rounds=1)
    tr = Tr(nl)
    s = z3.SolverFor('QF_NIRA') if False else z3.Solver()
    s.set('timeout', int(timeout))
    for f in forms2:
        s.add(tr.boolean(f))
    t0 = time.time()
    r = s.check()
    STATS['z3_time'] += time.time() - t0
    if r == z3.unsat:
        STATS['z3'] += 1
        if CROSS and not light:
            cross_check(s, timeout)
        return Result(True, 'z3')
    return Result(False, 'z3', str(r))


def cross_check(s, timeout):
    import cvc5
    t0 = time.time()
    try:
        tm = cvc5.TermManager()
        c = cvc5.Solver(tm)
        c.setOption('tlimit-per', str(int(timeout)))
        c.setLogic('ALL')
        p = cvc5.InputParser(c)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, s.to_smt2().replace('(check-sat)', ''), 'q')
        sm = p.getSymbolManager()
        while True:
            cmd = p.nextCommand()
            if cmd.isNull(): break
            cmd.invoke(c, sm)
        r = c.checkSat()
        if r.isUnsat(): STATS['cvc5_agree'] += 1
        elif r.isSat(): STATS['cvc5_disagree'] += 1
        else: STATS['cvc5_unknown'] += 1
    except Exception as e:
        STATS['cvc5_unknown'] += 1
    STATS['cvc5_time'] += time.time() - t0


# ------------------------------------------------------------------ numeric evaluation
class Env(object):
    def __init__(self, vals, arr, preds=None):
        self.vals = vals; self.arr = arr; self.preds = preds or (lambda n, a: False)


SEED0 = 0x2545F4914F6CDD1D     # replays: the state at position 0
_lcg = {}


def gauss(pos, mean, stddev):
    """the normal number whose two uniform numbers start at the position of the sequence that starts with SEED0"""
    M = (1 << 64) - 1
    A, C = 6364136223846793005, 1
    def jump(n, x):
        a, c = A, C
        while n:
            if n & 1: x = (a * x + c) & M
            c = (c * (a + 1)) & M; a = (a * a) & M; n >>= 1
        return x
    s = jump(int(pos), SEED0)
    u = s * 5.4210108624275222e-20; v = ((A * s + C) & M) * 5.4210108624275222e-20
    return stddev * (math.sqrt(-2 * math.log(u)) * math.cos(v * 6.2831853071795864769252867663)) + mean if u > 0 else float('nan')


def evalt(t, env, bound=None):
    op = t.op
    if op == 'num':
        c = t.args[0]
        return int(c) if t.sort == 'I' and c.denominator == 1 else float(c)
    if op == 'sym':
        if bound and t in bound: return bound[t]
        return env.vals(t)
    if op == 'poly':
        r = 0
        for c, m in t.args:
            x = int(c) if c.denominator == 1 else float(c)
            for a, e in m:
                v = evalt(a, env, bound)
                x = x * v ** e
            r += x
        if t.sort == 'I' and isinstance(r, float): r = int(round(r))
        return r
    if op == 'inv':
        v = evalt(t.args[0], env, bound)
        return 0.0 if v == 0 else 1.0 / v
    if op == 'fn' and t.args[0] == 'pmax':
        r = evalt(t.args[1], env, bound); l = t.args[2]
        bd = dict(bound or {})
        for k in range(max(0, evalt(l.args[1], env, bound))):
            bd[l.args[0]] = k
            r = max(r, evalt(l.args[2], env, bd))
        return r
    if op == 'fn':
        a = [evalt(x, env, bound) for x in t.args[1:]]
        n = t.args[0]
        if n == 'exp': return math.exp(min(a[0], 700))
        if n == 'sqrt': return math.sqrt(a[0]) if a[0] >= 0 else float('nan')
        if n == 'fabs': return abs(a[0])
        if n == 'erfc': return math.erfc(a[0])
        if n == 'log': return math.log(a[0]) if a[0] > 0 else float('-inf')
        if n == 'pow': return math.pow(a[0], a[1]) if a[0] > 0 or float(a[1]).is_integer() and a[0] != 0 else float('nan')
        if n == 'cos': return math.cos(a[0])
        if n == 'gauss': return gauss(*a)
        if n == 'sin': return math.sin(a[0])
        return float((hash((n,) + tuple(round(float(x), 9) for x in a)) % 10007)) / 1009.0
    if op == 'sel':
        return env.arr(t.args[0], tuple(evalt(x, env, bound) for x in t.args[1:]), t.sort)
    if op == 'ite':
        return evalt(t.args[1] if evalt(t.args[0], env, bound) else t.args[2], env, bound)
    if op == 'true': return True
    if op == 'false': return False
    if op == 'le': return evalt(t.args[0], env, bound) <= 1e-9 * (t.args[0].sort == 'R')
    if op == 'lt': return evalt(t.args[0], env, bound) < 0
    if op == 'eq':
        v = evalt(t.args[0], env, bound)
        return v == 0 if t.args[0].sort == 'I' else abs(v) < 1e-7
    if op == 'not': return not evalt(t.args[0], env, bound)
    if op == 'and': return all(evalt(x, env, bound) for x in t.args)
    if op == 'or': return any(evalt(x, env, bound) for x in t.args)
    if op == 'div':
        a, b = [evalt(x, env, bound) for x in t.args]
        if b == 0: return 0
        q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
    if op == 'mod':
        a, b = [evalt(x, env, bound) for x in t.args]
        if b == 0: return 0
        q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
        return a - q * b
    if op == 'psum':
        bs, body = t.args
        bd = dict(bound or {})

        def rec(i):
            if i == len(bs): return evalt(body, env, bd)
            n = evalt(bs[i][1], env, bd)
            r = 0
            for k in range(max(0, n)):
                bd[bs[i][0]] = k
                r += rec(i + 1)
            return r
        return rec(0)
    if op == 'all':
        v, lo, hi, body = t.args
        bd = dict(bound or {})
        for k in range(evalt(lo, env, bound), evalt(hi, env, bound)):
            bd[v] = k
            if not evalt(body, env, bd): return False
        return True
    if op == 'pred':
        return env.preds(t.args[0], tuple(evalt(x, env, bound) for x in t.args[1:]))
    if op == 'equ': return t.args[0] is t.args[1]
    raise ValueError(op)
