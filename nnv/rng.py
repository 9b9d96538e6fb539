"""Contracts of the random number generator (external/random.h):  f(x) = A*x + C  on 64-bit words.

  CORE_slaran, CORE_dlaran(s)  returns a value that depends on *s only;  *s' = f(*s)
  CORE_rnd64_jump(n, s)        returns f applied 2n times to s

jump: with f^M(x) = a*x + c the loop keeps  f^(M*n)(ran) = f^(2 n0)(s).  Obligations: a, c are the coefficients of f
and n = 2 n0, ran = s before the loop; one iteration doubles M (a' = a*a, c' = a*c + c), halves n, and applies f^M to
ran exactly if n is odd; n = 0 and ran is returned after the loop.  The identities hold over the integers, hence modulo 2^64."""
import itertools
from .terms import *
from .exec import *
from .kver import KExec, VC, run_function
from . import cxx, kver

_cache = {}


def tu_of(name):
    if name not in _cache: _cache[name] = cxx.TU('src/kernel/randn/cpu.cc', name)
    t = _cache[name]
    fs = [f for f in t.functions() if f.get('name') == name and t.body(f) is not None]
    if not fs: raise Undecided('function %s not found' % name)
    return t, fs[0]


class StepDone(Exception): pass


class JExec(KExec):
    looped = None

    def bitop(self, op, x, y, n):
        x = asint(x); y = asint(y)
        if isnum(y) and not isnum(x) and 'unsigned' in clean(tyof(n)):
            k = int(y.args[0])
            if op == '<<': return x * num(2 ** k)
            if op == '>>': return idiv(x, num(2 ** k))
            if op == '&' and k == 1: return imod(x, num(2))
        return KExec.bitop(self, op, x, y, n)

    def loop(self, cond, inc, body, n):
        if self.looped is not None: raise Undecided('second loop')
        before = dict(self.st.vars)
        mod = set()
        def walk(x):
            if not isinstance(x, dict): return
            k = x.get('kind')
            if (k == 'BinaryOperator' and x.get('opcode') == '=') or k == 'CompoundAssignOperator' or (k == 'UnaryOperator' and x.get('opcode') in ('++', '--', '&')):
                y = x['inner'][0]
                while y.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): y = y['inner'][0]
                if y.get('kind') == 'DeclRefExpr': mod.add(y['referencedDecl']['id'])
                else: raise Undecided('assignment in the jump loop')
            if k in ('CallExpr', 'LambdaExpr'): raise Undecided('call in the jump loop')
            for c in x.get('inner', ()): walk(c)
        for x in (cond, inc, body): walk(x)
        cur = {}
        for i in sorted(mod):
            if i not in before: continue
            v = before[i]
            if not isinstance(v, T) or v.sort != 'I': raise Undecided('variable of the jump loop')
            cur[i] = fresh('j'); self.st.vars[i] = cur[i]
            self.st.pc.append((ge(cur[i], num(0)), False))
        self.looped = (before, cur, list(self.st.pc), n)
        c = self.as_cond(self.rv(cond))
        if not self.branch(c): return
        try: self.stmt(body)
        except ContinueEx: pass
        if inc is not None: self.ev(inc)
        raise StepDone()


def coefficients(rv):
    """(A, C) of the generator from the constants of the numbers functions: the value after the call is A*s + C"""
    s = sym('s')
    c = subst(rv, {s: num(0)}); a = subst(rv, {s: num(1)}) - c
    if not (isnum(a) and isnum(c)): raise Undecided('generator step')
    return a, c


def verify_laran(name):
    tu, f = tu_of(name)
    ex = KExec(tu); ex.rng = 3
    out = []
    step = None
    ps = tu.params(f)
    if len(ps) != 1: raise Undecided('parameters of %s' % name)
    s = sym('s')
    reg = []
    def init():
        r = ex.new_region('state', num(1), 'I', True)
        reg[:] = [r]
        ex.st.vars[ps[0]['id']] = Ptr(r, (Z,))
        ex.st.pc.append((ge(s, Z), False))
    for kind, val, st, _ in run_function(ex, f, init):
        ex.st = st
        r = reg[0]
        hy = st.hyps()
        old = ex.read(r, Arr(('init', 'state')), (Z,), hy)
        good = kind == 'ret' and isinstance(val, T)
        if good: val = subst(val, {old: s}); good = all(x is s for x in syms(val))
        out.append(VC(name, 'the value depends on the state only', hy, TRUE if good else FALSE, 0, 'post'))
        new = subst(ex.read(r, st.mem[r], (Z,), hy), {old: s})
        ac = coefficients(new)
        if step is None: step = ac
        out.append(VC(name, 'the state advances by one step of the generator', hy, And(eq(new, ac[0] * s + ac[1]), TRUE if ac == step else FALSE), 0, 'post'))
    for o in ex.obl: out.append(VC(name, o.name, o.hyps, o.goal, o.line, o.kind))
    return out, step


def verify_jump(step):
    name = 'CORE_rnd64_jump'
    tu, f = tu_of(name)
    ps = tu.params(f)
    if len(ps) != 2: raise Undecided('parameters of %s' % name)
    ex = JExec(tu)
    n0, s = sym('n0'), sym('s')
    A, C = step
    res = []
    def one():
        ex.st = State(); ex.looped = None
        ex.st.vars[ps[0]['id']] = n0; ex.st.vars[ps[1]['id']] = s
        ex.st.pc += [(ge(n0, Z), False), (ge(s, Z), False)]
        try:
            ex.stmt(tu.body(f))
            k, v = 'norm', None
        except ReturnEx as r: k, v = 'ret', r.v
        except StepDone: k, v = 'step', None
        return k, v, ex.st, ex.looped
    paths = ex.explore(one)
    best = None
    ids = sorted({i for p in paths if p[3] for i in p[3][1]})
    def build(roles):
        a, c, r, n = roles
        out = []
        for k, v, st, lp in paths:
            hy = st.hyps()
            if lp is None:
                # left without the loop: only nothing to skip, or not at all
                out.append(VC(name, 'early exit only when nothing is skipped', hy, And(eq(n0, Z), eq(v, s)) if k == 'ret' and isinstance(v, T) else FALSE, 0, 'post')); continue
            before, cur, h0, node = lp
            if any(x not in cur for x in roles): return None
            A_, C_, R_, N_ = [cur[x] for x in roles]
            if k == 'step':
                V = lambda x: st.vars[x]
                for nm, g in (('a is the factor of one step', eq(before[a], A)), ('c is the increment of one step', eq(before[c], C)), ('two numbers are skipped per element', eq(before[n], 2 * n0)), ('the walk begins with the given state', eq(before[r], s))):
                    out.append(VC(name, 'before the loop: ' + nm, [x for x, _ in h0], g, line(node), 'inv'))
                for nm, g in (('the factor of the doubled step', eq(V(a), A_ * A_)), ('the increment of the doubled step', eq(V(c), A_ * C_ + C_)), ('the remaining count is halved', eq(V(n), idiv(N_, num(2)))),
                              ('an odd count applies the step', Or(ne(imod(N_, num(2)), num(1)), eq(V(r), A_ * R_ + C_))), ('an even count leaves the state', Or(eq(imod(N_, num(2)), num(1)), eq(V(r), R_)))):
                    out.append(VC(name, 'loop: ' + nm, hy, g, line(node), 'inv'))
            else:
                out.append(VC(name, 'the loop ends with nothing left to skip', hy, eq(N_, Z), line(node), 'inv'))
                out.append(VC(name, 'the state after the skipped numbers is returned', hy, eq(v, R_) if k == 'ret' and isinstance(v, T) else FALSE, line(node), 'post'))
        return out
    for roles in itertools.permutations(ids, 4):
        # the values before the loop tell the roles apart
        lp = [p[3] for p in paths if p[0] == 'step']
        if not lp: break
        b = lp[0][0]
        sc = sum(1 for x, w in zip(roles, (A, C, s, 2 * n0)) if b.get(x) is w)
        if best is None or sc > best[0]:
            o = build(roles)
            if o is not None: best = (sc, o)
    if best is None: raise Undecided('%s: no loop of the known form' % name)
    out = best[1]
    for o in ex.obl: out.append(VC(name, o.name, o.hyps, o.goal, o.line, o.kind))
    return out


def verify():
    out = []
    steps = []
    for nm in ('CORE_slaran', 'CORE_dlaran'):
        o, st = verify_laran(nm)
        out += o; steps.append(st)
    out.append(VC('random.h', 'single and double precision numbers use the same sequence', [], TRUE if steps[0] == steps[1] else FALSE, 0, 'post'))
    return out + verify_jump(steps[0])
