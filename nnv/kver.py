"""Verification of one kernel function against its contract (kspec)."""
from .terms import *
from .exec import *
from . import cxx, solve, kspec
from .kspec import KERNELS, E
import time


def kernel_tu(name):
    return cxx.TU('src/kernel/%s/cpu.cc' % name)


RNGT = 'unsigned long long'


class KExec(Exec):
    """a random state is represented by its position in the sequence of its generator: a state is only handed to the
    functions under contract (jump, one number, one normal number); arithmetic on it is not understood"""
    rng = 0            # 1: kernel (normal numbers by contract), 2: normal number (uniform numbers by contract)

    def contract_for(self, r, args, n):
        nm = r.get('name') or ''
        if not self.rng: return None
        if nm == 'CORE_rnd64_jump' and len(args) == 2:
            c, s = self.rv(args[0]), self.rv(args[1])
            self.oblige('number of skipped random numbers is nonnegative', ge(c, num(0)), n)
            return s + 2 * c
        if nm in ('CORE_slaran', 'CORE_dlaran') and self.rng == 2 and len(args) == 1:
            a = self.rv(args[0])
            if isinstance(a, Opaque) and a.kind == 'addr': a = a.data[0]
            v = self.load(a) if isinstance(a, LV) else None
            if not isinstance(v, T): raise Undecided('random number generator state')
            self.store(a, v + 1, n)
            return fn('uniform' + nm[5], v)
        f = self.tu.definition_of(r)
        if f is None: return None
        ps = self.tu.params(f)
        if self.rng == 1 and ps and clean(tyof(ps[0])).rstrip('& ') == RNGT and is_ref(tyof(ps[0])) and len(ps) == 3 and all(sort_of(tyof(q)) == 'R' for q in ps[1:]):
            self.gauss[f['id']] = f
            l = self.lv(args[0]); v = self.load(l)
            m, d = self.rv(args[1]), self.rv(args[2])
            self.store(l, v + 2, n)
            return fn('gauss', v, toreal(m), toreal(d))
        return None


def rng_arith(tu, f):
    """arithmetic on the state of a generator?"""
    def walk(n):
        if not isinstance(n, dict): return False
        if n.get('kind') in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and n.get('opcode') not in ('=', '&', '*', ',') and clean(n.get('type', {}).get('qualType', '')) == RNGT: return True
        return any(walk(c) for c in n.get('inner', ()))
    return walk(tu.body(f))


def verify_gauss(K, tu, f):
    """contract of the normal number: a value of state, mean and deviation; the state advances by two numbers"""
    ex = KExec(tu); ex.rng = 2
    if rng_arith(tu, f): raise Undecided('arithmetic on the state of the random number generator')
    names = ('seed', 'mean', 'stddev')
    def init():
        for q, nm in zip(tu.params(f), names): ex.st.vars[q['id']] = sym(nm, 'I' if nm == 'seed' else 'R')
    out = []
    fname = '%s<%s>' % (f.get('name'), clean(tyof(tu.params(f)[1])))
    for kind, val, st, _ in run_function(ex, f, init):
        hy = st.hyps()
        good = kind == 'ret' and isinstance(val, T) and all(s.args[0] in names for s in syms(val)) and not st.reads
        out.append(VC(fname, 'the value depends on state, mean and deviation only', hy, TRUE if good else FALSE, 0, 'post'))
        s = st.vars[tu.params(f)[0]['id']]
        out.append(VC(fname, 'two random numbers are used', hy, eq(s, sym('seed') + 2), 0, 'post'))
    for o in ex.obl: out.append(VC(fname, o.name, o.hyps, o.goal, o.line, o.kind))
    return out


def setup(ex, K, f):
    ps = ex.tu.params(f)
    spec = [p for p in K.params if p.kind != 'G']
    if len(ps) != len(spec): raise Undecided('kernel %s has %d parameters, contract has %d' % (K.name, len(ps), len(spec)))
    st = State()
    ex.st = st
    env = {}
    sorts = {}
    for p in K.params:
        if p.kind in ('I', 'G'): env[p.name] = sym(p.name); 
        elif p.kind == 'Z': env[p.name] = sym(p.name)
        elif p.kind == 'S': env[p.name] = sym(p.name, 'R')
        elif p.kind in 'CW': sorts[p.name] = p.sort
    e = E(env, sorts)
    for p in K.params:
        if p.kind in ('I', 'G'): st.pc.append((ge(env[p.name], num(p.lo)), False))
    regs = {}
    for p, q in zip(spec, ps):
        ty = tyof(q)
        if p.kind == 'I' or p.kind == 'S':
            want = 'I' if p.kind == 'I' else 'R'
            s = sort_of(ty)
            if s != want: raise Undecided('parameter %s of kernel %s has type %s' % (p.name, K.name, ty))
            st.vars[q['id']] = env[p.name]
        elif p.kind == 'N': st.vars[q['id']] = p.length(e) if callable(p.length) else num(p.length)
        elif p.kind == 'Z':
            if clean(ty) != RNGT: raise Undecided('parameter %s of kernel %s has type %s' % (p.name, K.name, ty))
            st.vars[q['id']] = env[p.name]
        else:
            if not is_ptr(ty): raise Undecided('parameter %s is not a pointer' % p.name)
            if p.kind == 'V':
                cells = p.length(e)
                def at(d, cells=cells):
                    if not isnum(d) or not 0 <= d.args[0] < len(cells): raise Undecided('index %s into a vector of %d' % (show(d), len(cells)))
                    return cells[int(d.args[0])]
                r = ex.new_region(p.name, num(len(cells)), 'I', False, kind='vec', init=('fn', at))
            elif p.kind == 'X': r = ex.new_region(p.name, p.length(e), 'I', True, kind='vec')
            else:
                r = ex.new_region(p.name, p.length(e), p.sort, p.kind == 'W')
                regs[p.name] = r
            st.vars[q['id']] = Ptr(r, (Z,))
    for h in K.pre(e): st.pc.append((h, False))
    return e, regs


class VC(object):
    """one proof obligation with its verdict"""
    alt = None
    def __init__(self, fn, name, hyps, goal, line, kind):
        self.fn = fn; self.name = name; self.hyps = hyps; self.goal = goal; self.line = line; self.kind = kind
        self.ok = None; self.by = ''; self.t = 0.0; self.cex = None; self.why = ''

    def run(self):
        t0 = time.time()
        try:
            r = solve.prove(self.hyps, self.goal)
            if not r.ok and self.alt is not None: r = solve.prove(self.hyps, self.alt)
            self.ok = bool(r.ok); self.by = r.by; self.why = r.info
        except TooBig:
            self.ok = False; self.why = 'term too big'
        self.t = time.time() - t0
        return self.ok


def run_function(ex, f, init):
    def one():
        st = State(); ex.st = st
        aux = init()
        try:
            ex.run_inits(f)
            ex.stmt(ex.tu.body(f))
            return ('norm', None, ex.st, aux)
        except ReturnEx as r: return ('ret', r.v, ex.st, aux)
        except ThrowEx as t: return ('throw', t.what, ex.st, aux)
    return ex.explore(one)


def verify_kernel(K, tu, f):
    """returns list of VC (not yet run) ; raises Undecided"""
    ex = KExec(tu)
    ta = [c.get('type', {}).get('qualType') for c in f.get('inner', ()) if c.get('kind') == 'TemplateArgument']
    fname = '%s::cpu<%s>' % (K.name, ','.join(map(str, ta)))
    ex.kernel = K
    if K.name == 'randn':
        ex.rng = 1; ex.gauss = {}
        if rng_arith(tu, f): raise Undecided('arithmetic on the state of the random number generator')
    paths = run_function(ex, f, lambda: setup(ex, K, f))
    vcs = []
    for pi, (kind, val, st, (e, regs)) in enumerate(paths):
        if kind == 'throw': 
            vcs.append(VC(fname, 'kernel does not throw', st.hyps(), FALSE, val, 'post')); continue
        ex.st = st
        outs = K.outs(e)
        for o in outs:
            r = regs[o.buf]
            bs = [fresh('x%d' % i) for i in range(len(o.box))]
            rng = []
            for b, n in zip(bs, o.box): rng += [ge(b, Z), lt(b, n)]
            off = o.off(*bs)
            hy = st.hyps() + rng
            if o.val is None: continue
            want = toval(o.val(*bs), r.sort)
            got = ex.read(r, st.mem[r], (off,), hy)
            goal = eq(got, want)
            if o.over is None: vcs.append(VC(fname, 'postcondition of %s[%s]' % (o.buf, show(off)), hy, goal, 0, 'post'))
            else:
                c, lim = o.over(*bs)
                vcs.append(VC(fname, 'postcondition of %s[%s]' % (o.buf, show(off)), hy + [Not(c)], goal, 0, 'post'))
                vcs.append(VC(fname, 'postcondition of %s[%s] on overflow' % (o.buf, show(off)), hy + [c], goal, 0, 'post'))
                vcs[-1].alt = eq(got, toval(lim, r.sort))
        if K.rel is not None:
            a, b = outs
            bs = [fresh('x%d' % i) for i in range(len(a.box))]
            hy = st.hyps()
            for x, n in zip(bs, a.box): hy = hy + [ge(x, Z), lt(x, n)]
            g0, g1 = [ex.read(regs[o.buf], st.mem[regs[o.buf]], (o.off(*bs),), hy) for o in (a, b)]
            for nm, h, goal in K.rel(e)(*(bs + [g0, g1])): vcs.append(VC(fname, 'postcondition: ' + nm, hy + h, goal, 0, 'post'))
        for nm, r in regs.items():
            for op in st.mem[r].ops:
                w = op.rename()
                alts = []
                for o in outs:
                    if o.buf != nm: continue
                    bs = [fresh('y%d' % i) for i in range(len(o.box))]
                    so = Op('w', tuple(zip(bs, o.box)), TRUE, (o.off(*bs),), Z)
                    mp, resid = unify(so, w.off)
                    if mp is None or any(b not in mp for b in bs): continue
                    alts.append(And(*[And(ge(mp[b], Z), lt(mp[b], n)) for b, n in zip(bs, o.box)] + [eq(subst(so.off[0], mp), w.off[0])]))
                vcs.append(VC(fname, 'writes of %s stay in the described outputs (line %d)' % (nm, op.line), st.hyps() + w.ranges() + [w.guard], Or(*alts), op.line, 'frame'))
        for sc, buf in K.noread:
            for (r, off, pc) in st.reads:
                if r.name != buf: continue
                hy = [c for c, g in pc]
                if sc is not None:
                    if '=' in sc:
                        a, b = sc.split('='); hy.append(eq(getattr(e, a), num(int(b), getattr(e, a).sort)))
                    else: hy.append(eq(getattr(e, sc), num(0, 'R')))
                # reading back a cell written by this call is harmless
                if written_before(ex, st, r, off, pc): continue
                vcs.append(VC(fname, 'old content of %s is not read%s' % (buf, '' if sc is None else ' when %s' % (sc if '=' in sc else sc + '==0')), hy, FALSE, 0, 'noread'))
    if K.stable:
        e = paths[0][3][0]
        for hy, a, ln in ex.expargs:
            hy = [h for h in hy if h is not TRUE]
            if K.stable is True: goal = le(a, num(0, 'R'))
            else:
                # an instance of the family which the precondition bounds
                box, f = K.stable(e)
                bs = [fresh('y%d' % i) for i in range(len(box))]
                want = f(*bs)
                goal = FALSE
                pos = [(t_, m_) for t_, m_ in terms_of(want) if t_ > 0][0][1][0][0]
                for c_, m_ in terms_of(a):
                    at = m_[0][0] if len(m_) == 1 and m_[0][1] == 1 else None
                    if c_ != 1 or at is None or at.op != 'sel' or at.args[0] != pos.args[0]: continue
                    mp, resid = unify(Op('w', tuple(zip(bs, box)), TRUE, (pos.args[1],), Z), (at.args[1],))
                    if mp is None or any(b not in mp for b in bs): continue
                    goal = Or(goal, And(*[And(ge(mp[b], Z), lt(mp[b], n)) for b, n in zip(bs, box)] + [eq(subst(want, mp), a)]))
            vcs.append(VC(fname, 'exponent is not positive (line %d)' % ln, hy, goal, ln, 'post'))
            if K.rel is not None:
                # no difference of two infinite values
                vcs.append(VC(fname, 'no infinite value is subtracted (line %d)' % ln, hy, And(*[Not(pred('isinf', x)) for x in negatives(a)]), ln, 'post'))
    for o in ex.obl:
        vcs.append(VC(fname, o.name, o.hyps, o.goal, o.line, 'safety' if o.kind == 'safety' else o.kind))
    if K.name == 'randn':
        from . import rng
        for g in ex.gauss.values(): vcs += verify_gauss(K, tu, g)
        vcs += rng.verify()
    return vcs, ex, paths


def written_before(ex, st, r, off, pc): return False


def toval(v, s):
    if s == 'R': return toreal(v)
    return v


def negatives(a):
    return [m[0][0] for c, m in terms_of(a) if c < 0 and len(m) == 1 and m[0][1] == 1]
