"""Symbolic execution of the real C++ code; loops are summarised for all iteration counts.

Every summary (closed form of a loop-carried variable, family of array writes) is justified by
obligations recorded here and discharged by solve.prove; nothing is unrolled unless the trip count
is a literal.
"""
from .terms import *
from . import terms as TM
from .solve import prove, z3_check
from . import solve
from . import cxx
from .cxx import line
import re, sys
from . import odo
from .odo import Odometer


class Undecided(Exception):
    """construct or reasoning step outside the verifier's reach (never a violation)"""


class Infeasible(Exception): pass
class BreakEx(Exception): pass
class ContinueEx(Exception): pass


class ReturnEx(Exception):
    def __init__(self, v): self.v = v


class ThrowEx(Exception):
    def __init__(self, what=''): self.what = what


Z = num(0)
ONE = num(1)


class Region(object):
    def __init__(self, name, length=None, sort='R', writable=True, elem=None, kind='buf', initname=None):
        self.name = name; self.length = length; self.sort = sort; self.writable = writable
        self.elem = elem      # element kind for arrays of objects
        self.kind = kind
        self.initname = initname if initname is not None else name

    def __repr__(self): return 'Region(%s)' % self.name


class Op(object):
    """family of writes: for all binders in range with guard: A[off] := val   (kind 'w')
       or A[off] += val (kind 'acc')"""
    __slots__ = ('kind', 'binders', 'guard', 'off', 'val', 'line', 'inj')

    def __init__(self, kind, binders, guard, off, val, line=0):
        self.kind = kind; self.binders = tuple(binders); self.guard = guard
        self.off = off; self.val = val; self.line = line; self.inj = None

    def map(self, f, extra_binders=(), guard=None):
        bs = tuple(extra_binders) + tuple((v, f(n)) for v, n in self.binders)
        g = f(self.guard)
        if guard is not None: g = And(guard, g)
        v = f(self.val) if isinstance(self.val, T) else mapval(self.val, f)
        o = Op(self.kind, bs, g, tuple(f(x) for x in self.off), v, self.line)
        return o

    def rename(self):
        mp = {v: fresh(v.args[0].split('!')[0]) for v, n in self.binders}
        f = lambda x: subst(x, mp)
        o = Op(self.kind, tuple((mp[v], f(n)) for v, n in self.binders), f(self.guard), tuple(f(x) for x in self.off),
               f(self.val) if isinstance(self.val, T) else mapval(self.val, f), self.line)
        o.inj = self.inj
        return o

    def ranges(self):
        r = []
        for v, n in self.binders: r += [ge(v, Z), lt(v, n)]
        return r

    def __repr__(self):
        return '%s{%s | %s} [%s] := %r' % (self.kind, ', '.join('%s<%r' % (v.args[0], n) for v, n in self.binders),
                                         self.guard, ','.join(map(show, self.off)), self.val)


def mapval(v, f):
    if isinstance(v, T): return f(v)
    if hasattr(v, 'map'): return v.map(f)
    return v


class Arr(object):
    """content of a region: base + ops ; base is ('init', name) or ('cur', loopid, region)"""
    __slots__ = ('base', 'ops')

    def __init__(self, base, ops=()): self.base = base; self.ops = tuple(ops)


class Ptr(object):
    def __init__(self, region, off, ety=None): self.region = region; self.off = tuple(off); self.ety = ety
    def map(self, f): return Ptr(self.region, tuple(f(x) for x in self.off), self.ety)
    def __repr__(self): return 'Ptr(%s+%s)' % (self.region.name, ','.join(map(show, self.off)))


class Null(object):
    def __repr__(self): return 'Null'


NULL = Null()


class Opaque(object):
    """opaque value (handles, strings, function references ...)"""
    def __init__(self, kind, *data): self.kind = kind; self.data = data
    def map(self, f):
        return Opaque(self.kind, *[mapval(d, f) for d in self.data])
    def key(self): return (self.kind,) + tuple(x.key() if isinstance(x, Opaque) else x for x in self.data)
    def __repr__(self): return '%s(%s)' % (self.kind, ', '.join(map(str, self.data)))


class LV(object):
    pass


class LVar(LV):
    def __init__(self, key): self.key = key


class LMem(LV):
    def __init__(self, region, off): self.region = region; self.off = tuple(off)


class LObj(LV):
    """an object (struct/vector) stored in the heap under oid"""
    def __init__(self, oid): self.oid = oid


class LField(LV):
    def __init__(self, oid, name): self.oid = oid; self.name = name


class LTmp(LV):
    def __init__(self, v): self.v = v


class State(object):
    def __init__(self):
        self.vars = {}
        self.mem = {}       # region -> Arr
        self.heap = {}      # oid -> dict field -> value  (objects)
        self.pc = []        # list of (term, is_guard)
        self.trace = ()
        self.reads = ()     # recorded reads of buffers: (region, off, pc)

    def clone(self):
        s = State()
        s.vars = dict(self.vars); s.mem = dict(self.mem)
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.pc = list(self.pc); s.trace = self.trace; s.reads = self.reads
        return s

    def hyps(self): return [t for t, g in self.pc]


class Obligation(object):
    def __init__(self, name, hyps, goal, line, kind): 
        self.name = name; self.hyps = hyps; self.goal = goal; self.line = line; self.kind = kind


INT_TYPES = {'int', 'long', 'unsigned long', 'unsigned long long', 'long long', 'short', 'char', 'unsigned int', 'unsigned char',
             'signed char', 'unsigned short', '__int64_t', 'int64_t', 'size_t', 'unsigned'}
WIDTH = {'int': 32, 'unsigned int': 32, 'unsigned': 32, 'short': 16, 'char': 8, 'unsigned char': 8, 'signed char': 8, 'unsigned short': 16}
REAL_TYPES = {'float', 'double', 'long double'}


def clean(ty):
    ty = ty.replace('const ', '').replace(' const', '').replace('volatile ', '').strip()
    return ty


def tyof(n):
    t = n.get('type', {})
    s = t.get('desugaredQualType') or t.get('qualType') or ''
    return s


ALIASES = {'nntile::Index': 'long', 'Index': 'long', 'nntile::fp32_t': 'float', 'nntile::fp64_t': 'double', 'fp32_t': 'float',
           'fp64_t': 'double', 'bool_t': 'bool', 'nntile::bool_t': 'bool', 'uint32_t': 'unsigned int', 'std::size_t': 'size_t',
           'int64_t': 'long', 'uint64_t': 'unsigned long', 'int32_t': 'int', 'starpu_mpi_tag_t': 'long'}


def base(ty):
    ty = clean(ty).rstrip('&').strip()
    ty = clean(ty)
    return ALIASES.get(ty, ty)


def sort_of(ty):
    b = base(ty)
    if b in INT_TYPES: return 'I'
    if b in REAL_TYPES: return 'R'
    if b == 'bool' or b == '_Bool': return 'B'
    return None


def is_ptr(ty): return clean(ty).rstrip('&').strip().endswith('*')
def is_ref(ty): return ty.strip().endswith('&')


MATH1 = {'exp', 'sqrt', 'fabs', 'abs', 'log', 'erfc', 'erf', 'tanh', 'cos', 'sin', 'log1p', 'expm1',
         'expf', 'sqrtf', 'fabsf', 'logf', 'erfcf', 'erff', 'tanhf', 'cosf', 'sinf'}


class Exec(Odometer):
    MAXUNROLL = 40

    def __init__(self, tu, contracts=None, prover=prove):
        self.tu = tu
        self.contracts = contracts or {}
        self.obl = []
        self.prove = prover
        self.dec = []
        self.curctx = {}
        self.loopid = 0
        self.depth = 0
        self.inv_used = []
        self.templates = []      # extra potential templates
        self.st = None
        self.loops = []
        self.notes = []
        self.fresh_env = {}
        self.expargs = []        # (hyps, arg, line): arguments of exp, for stability obligations
        self.divs = []
        self.ext_tus = []
        self.last_line = 0
        self.npaths = 0

    # ---------------------------------------------------------------- path exploration
    def explore(self, fnc):
        stack = [[]]
        out = []
        while stack:
            d = stack.pop()
            self.dec.append([d, 0, stack])
            try:
                out.append(fnc())
                self.npaths += 1
                if len(out) > 400: raise Undecided('path explosion')
            except Infeasible:
                pass
            finally:
                self.dec.pop()
        return out

    def branch(self, c):
        """decide condition c on the current path (forks when undetermined)"""
        if c is TRUE: return True
        if c is FALSE: return False
        hy = self.st.hyps()
        if c in hy: return True
        if Not(c) in hy: return False
        cj = conjs(hy)
        if c in cj: return True
        if Not(c) in cj: return False
        if c.op == 'and' and all(x in cj for x in c.args): return True
        if c.op == 'and' and any(Not(x) in cj for x in c.args): return False
        if self.quick(c): return True
        if self.quick(Not(c)): return False
        if not self.dec: raise Undecided('branch outside exploration')
        fr = self.dec[-1]
        d, pos, stack = fr
        if pos < len(d):
            v = d[pos]
        else:
            v = True
            stack.append(list(d) + [False])
            d.append(True)
        fr[1] += 1
        self.st.pc.append((c if v else Not(c), True))
        return v

    def quick(self, c):
        if c.op in ('pred', 'sym'): return False
        return z3_check(self.st.hyps(), c, False, 300, light=True).ok

    def assume(self, c, guard=False):
        if c is TRUE: return
        if c is FALSE: raise Infeasible()
        self.st.pc.append((c, guard))

    def oblige(self, name, goal, n=None, kind='safety'):
        self.obl.append(Obligation(name, self.st.hyps(), goal, line(n) if n is not None else self.last_line, kind))

    # ---------------------------------------------------------------- memory
    def new_region(self, name, length=None, sort='R', writable=True, elem=None, kind='buf', init='init'):
        r = Region(name, length, sort, writable, elem, kind)
        self.st.mem[r] = Arr(('init', name) if init == 'init' else init)
        return r

    def bounds(self, region, off, n, what):
        if region.length is None: return
        L = region.length
        if len(off) == 1 and isinstance(L, T):
            if self.odo and isnum(L) and isnum(off[0]) and not 0 <= off[0].args[0] < L.args[0]:
                self.oblige('%s of %s in bounds' % (what, region.name), FALSE, n)
                raise Infeasible()
            self.oblige('%s of %s in bounds' % (what, region.name), And(ge(off[0], Z), lt(off[0], L)), n)
        elif isinstance(L, tuple):
            self.oblige('%s of %s in bounds' % (what, region.name), And(*[And(ge(o, Z), lt(o, l)) for o, l in zip(off, L)]), n)

    def load(self, lv, n=None):
        if isinstance(lv, LTmp): return lv.v
        if isinstance(lv, LVar):
            v = self.st.vars.get(lv.key)
            if v is None: raise Undecided('read of unknown variable %s' % (lv.key,))
            if isinstance(v, LV): return self.load(v, n)
            return v
        if isinstance(lv, LObj): return lv
        if isinstance(lv, LField):
            v = self.st.heap[lv.oid].get(lv.name)
            if v is None: raise Undecided('field %s' % lv.name)
            if isinstance(v, LV) and not isinstance(v, LObj): return self.load(v, n)
            return v
        if isinstance(lv, LMem):
            self.bounds(lv.region, lv.off, n, 'read')
            arr = self.st.mem[lv.region]
            v = self.read(lv.region, arr, lv.off)
            if lv.region.kind == 'buf' and self.old_content(v, lv.region, arr):
                self.st.reads = self.st.reads + ((lv.region, lv.off, tuple(self.st.pc)),)
            return v
        raise Undecided('load %r' % lv)

    def old_content(self, v, region, arr):
        """may the value just read depend on what the buffer held before? (a cell written by this call holds what was written)"""
        if not isinstance(v, T) or not arr.ops: return True
        nm = {arr.base[1] if arr.base[0] == 'init' else None, 'cur@%s@%s' % (arr.base[1] if arr.base[0] == 'cur' else '', region.name)}
        return any(a.op == 'sel' and a.args[0] in nm for a in subterms(v)) or arr.base[0] not in ('init', 'cur')

    def store(self, lv, v, n=None):
        if isinstance(lv, LVar):
            cur = self.st.vars.get(lv.key)
            if isinstance(cur, LV) and not isinstance(cur, LObj):
                return self.store(cur, v, n)
            self.st.vars[lv.key] = v
            return
        if isinstance(lv, LField):
            cur = self.st.heap[lv.oid].get(lv.name)
            if isinstance(cur, LV) and not isinstance(cur, LObj): return self.store(cur, v, n)
            self.st.heap[lv.oid][lv.name] = v
            return
        if isinstance(lv, LMem):
            r = lv.region
            if not r.writable:
                self.oblige('write to read-only buffer %s' % r.name, FALSE, n, 'frame')
            self.bounds(r, lv.off, n, 'write')
            if isinstance(v, T):
                if r.sort == 'R': v = toreal(v)
                elif r.sort == 'I': v = asint(v)
                elif r.sort == 'B': v = asbool(v)
            a = self.st.mem[r]
            ops = a.ops
            # overwrite of the same scalar cell
            if ops and not ops[-1].binders and ops[-1].guard is TRUE and ops[-1].off == lv.off and ops[-1].kind == 'w':
                ops = ops[:-1]
            self.st.mem[r] = Arr(a.base, ops + (Op('w', (), TRUE, lv.off, v, line(n) if n else 0),))
            return
        if isinstance(lv, LObj):
            return self.assign_obj(lv, v, n)
        raise Undecided('store')

    # ---- reading through operation families
    def read(self, region, arr, e, hyps=None):
        hy = self.st.hyps() if hyps is None else hyps
        return self.read_ops(region, arr.base, list(arr.ops), e, hy)

    def read_base(self, region, b, e, hy):
        if b[0] == 'init':
            if region.kind == 'fill': return b[1]
            return sel(b[1], *e, sort=region.sort)
        if b[0] == 'fill': return b[1]
        if b[0] == 'fn':
            return b[1](*e)
        if b[0] == 'cur':
            a = mk('sel', ('cur@%d@%s' % (b[1], region.name),) + tuple(e), region.sort)
            # context: only facts valid universally for the free symbols
            old = self.curctx.get(a)
            if old is None: self.curctx[a] = (region, b[1], tuple(e), list(hy))
            else:
                self.curctx[a] = (region, b[1], tuple(e), [h for h in old[3] if h in hy])
            return a
        raise Undecided('base')

    def read_ops(self, region, b, ops, e, hy):
        if not ops: return self.read_base(region, b, e, hy)
        op = ops[-1]
        rest = lambda: self.read_ops(region, b, ops[:-1], e, hy)
        diff = [x - y for x, y in zip(op.off, e)]
        if op.kind == 'w':
            if not op.binders:
                c = And(op.guard, *[eq(d, Z) for d in diff])
                if c is TRUE: return op.val
                if c is FALSE: return rest()
                if self.prove(hy, c, quick=True): return op.val
                if self.prove(hy, Not(c), quick=True): return rest()
                r = rest()
                if not (isinstance(r, T) and isinstance(op.val, T)): raise Undecided('aliasing of non-scalar cell')
                return ite(c, op.val, r)
            return self.read_family(region, op, e, hy, rest)
        # accumulation
        return self.read_acc(region, op, e, hy, rest)

    def solve_binders(self, o, e, hy):
        """equations equivalent to off == e, solved for as many binders as possible:
        (binder -> term, remaining equations) """
        h2 = list(hy) + o.ranges() + [o.guard]
        eqs = []
        for x, y in zip(o.off, e):
            if x.sort == 'U':
                if x is not y: return None, [FALSE]
                continue
            d = x - y
            if isnum(d):
                if d.args[0] != 0: return None, [FALSE]
                continue
            eqs += solve.split_eq(d, h2)
        bset = [v for v, n in o.binders]
        mp = {}
        prog = True
        while prog:
            prog = False
            for i, q in enumerate(eqs):
                for c, m in terms_of(q):
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] in bset and abs(c) == 1:
                        v = m[0][0]
                        t_ = v - scale(q, 1 / c)
                        if v in syms(t_): continue
                        s1 = {v: t_}
                        mp = {k: subst(x, s1) for k, x in mp.items()}
                        mp[v] = t_
                        bset.remove(v)
                        eqs = [subst(z, s1) for j, z in enumerate(eqs) if j != i]
                        prog = True
                        break
                if prog: break
        eqs = [cmp0('eq', q) for q in eqs]
        return mp, [q for q in eqs if q is not TRUE]

    def read_family(self, region, op, e, hy, rest):
        o = op.rename()
        mp, left = self.solve_binders(o, e, hy)
        if mp is None: return rest()
        if all(v in mp for v, n in o.binders):
            rng = [And(ge(mp[v], Z), lt(mp[v], subst(n, mp))) for v, n in o.binders]
            c = And(*([subst(o.guard, mp)] + left + rng))
            if self.prove(hy, And(*rng), quick=True): c = And(*([subst(o.guard, mp)] + left))
            if c is FALSE: return rest()
            val = mapval(o.val, lambda x: subst(x, mp))
            if c is TRUE or self.prove(hy, c, quick=True): return val
            if self.prove(hy, Not(c), quick=True): return rest()
            r = rest()
            if isinstance(r, T) and isinstance(val, T): return ite(c, val, r)
            raise Undecided('guarded non-scalar cell')
        return self.read_family_old(region, op, e, hy, rest)

    def read_family_old(self, region, op, e, hy, rest):
        o = op.rename()
        # not hit at all?
        w, residual = unify(o, e)
        if w is not None:
            mp = dict(w)
            free = [v for v, n in o.binders if v not in mp]
            if not free and not residual:
                rng = And(*[And(ge(mp[v], Z), lt(mp[v], subst(n, mp))) for v, n in o.binders])
                g = subst(o.guard, mp)
                if self.prove(hy, rng, quick=True):
                    if not self.injective(op, region): raise Undecided('write family of %s not injective' % region.name)
                    val = mapval(o.val, lambda x: subst(x, mp))
                    if g is TRUE: return val
                    if self.prove(hy, g, quick=True): return val
                    if self.prove(hy, Not(g), quick=True): return rest()
                    r = rest()
                    if not (isinstance(r, T) and isinstance(val, T)): raise Undecided('guarded non-scalar cell')
                    return ite(g, val, r)
        # prove not hit
        miss = Not(And(o.guard, *[eq(x, y) for x, y in zip(o.off, e)]))
        if self.prove(hy + o.ranges(), miss, quick=True): return rest()
        if w is not None and not [v for v, n in o.binders if v not in w] and not residual:
            mp = dict(w)
            rng = And(*[And(ge(mp[v], Z), lt(mp[v], subst(n, mp))) for v, n in o.binders])
            g = And(rng, subst(o.guard, mp))
            # unique preimage?
            uniq = And(*[eq(v, mp[v]) for v, n in o.binders])
            if self.prove(hy + o.ranges() + [o.guard] + [eq(x, y) for x, y in zip(o.off, e)], uniq):
                val = mapval(o.val, lambda x: subst(x, mp))
                r = rest()
                if isinstance(r, T) and isinstance(val, T): return ite(g, val, r)
        raise Undecided('cannot resolve a read of %s[%s] after the writes at line %d' % (region.name, ','.join(map(show, e)), op.line))

    def read_acc(self, region, op, e, hy, rest):
        o = op.rename()
        mp, left = self.solve_binders(o, e, hy)
        if mp is None: return rest()
        bs = [(v, n) for v, n in o.binders if v not in mp]
        if any(v in syms(n) for v, _ in bs for _, n in o.binders): raise Undecided('accumulation range of %s' % region.name)
        bst = set(v for v, n in bs)
        conds = [subst(o.guard, mp)] + left
        h2 = hy + [And(ge(v, Z), lt(v, n)) for v, n in bs]
        for v, n in o.binders:
            if v in mp:
                r_ = And(ge(mp[v], Z), lt(mp[v], subst(n, mp)))
                if not self.prove(h2, r_, quick=True): conds.append(r_)
        cond = And(*conds)
        if cond is FALSE: return rest()
        if cond is not TRUE and not (set(syms(cond)) & bst):
            if self.prove(hy, cond, quick=True): cond = TRUE
            elif self.prove(hy, Not(cond), quick=True): return rest()
        body = subst(o.val, mp)
        if cond is not TRUE: body = ite(cond, body, num(0, body.sort))
        for v, n in reversed(bs):
            body = Sum(v, Z, subst(n, mp), body)
        return rest() + body

    def injective(self, op, region):
        if op.inj is not None: return op.inj
        a = op.rename(); b = op.rename()
        hy = a.ranges() + b.ranges() + [a.guard, b.guard] + self.st.hyps()
        ok = True
        eqs = []
        for (u, _), (v, _) in zip(a.binders, b.binders):
            goal = Not(And(*[eq(x, y) for x, y in zip(a.off, b.off)]))
            if not self.prove(hy + eqs + [lt(u, v)], goal): ok = False; break
            eqs = eqs + [eq(u, v)]
        op.inj = ok
        return ok

    # ---------------------------------------------------------------- expressions
    def rv(self, n):
        """value of expression"""
        self.last_line = line(n) or self.last_line
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Undecided('expression %s at line %d' % (k, line(n)))
        v = m(n)
        if isinstance(v, LV) and not isinstance(v, LObj): v = self.load(v, n)
        return v

    def lv(self, n):
        self.last_line = line(n) or self.last_line
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Undecided('expression %s at line %d' % (k, line(n)))
        v = m(n)
        if not isinstance(v, LV): v = LTmp(v)
        return v

    def kids(self, n): return [c for c in n.get('inner', []) if c.get('kind') and not c['kind'].endswith('Comment')]

    def e_ParenExpr(self, n): return self.ev(self.kids(n)[0])
    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Undecided('expression %s at line %d' % (k, line(n)))
        self.last_line = line(n) or self.last_line
        return m(n)
    def e_ExprWithCleanups(self, n): return self.ev(self.kids(n)[0])
    def e_ConstantExpr(self, n): return self.ev(self.kids(n)[0])
    def e_MaterializeTemporaryExpr(self, n): return self.ev(self.kids(n)[0])
    def e_CXXBindTemporaryExpr(self, n): return self.ev(self.kids(n)[0])
    def e_SubstNonTypeTemplateParmExpr(self, n): return self.ev([c for c in self.kids(n) if c['kind'] != 'NonTypeTemplateParmDecl'][-1])
    def e_CXXDefaultArgExpr(self, n):
        ks = self.kids(n)
        if ks: return self.ev(ks[0])
        raise Undecided('default argument')
    def e_IntegerLiteral(self, n): return num(int(n['value']))
    def e_CharacterLiteral(self, n): return num(int(n['value']))
    def e_FloatingLiteral(self, n): return num(Q(n['value']), 'R')
    def e_CXXBoolLiteralExpr(self, n): return TRUE if n['value'] else FALSE
    def e_CXXNullPtrLiteralExpr(self, n): return NULL
    def e_GNUNullExpr(self, n): return NULL
    def e_StringLiteral(self, n): return Opaque('str', n.get('value'))
    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            a = n.get('argType', {})
            ty = a.get('desugaredQualType') or a.get('qualType')
            if ty is None and self.kids(n): ty = tyof(self.kids(n)[0])
            return self.sizeof(ty)
        raise Undecided('trait expr')

    def sizeof(self, ty):
        b = base(ty)
        sz = {'float': 4, 'double': 8, 'long': 8, 'int': 4, 'bool': 1, 'char': 1, 'unsigned long': 8, 'size_t': 8,
              'unsigned long long': 8, 'nntile::fp16_t': 2, 'fp16_t': 2, 'short': 2, 'unsigned int': 4}
        if is_ptr(ty): return num(8)
        if b in sz: return num(sz[b])
        return sym('sizeof(%s)' % b)

    def e_DeclRefExpr(self, n):
        r = n.get('referencedDecl', {})
        k = r.get('kind')
        if k in ('ParmVarDecl', 'VarDecl', 'BindingDecl'):
            key = r['id']
            if key in self.st.vars:
                v = self.st.vars[key]
                if isinstance(v, LV): return v
                return LVar(key)
            return self.global_var(r, n)
        if k == 'EnumConstantDecl': return self.enum_const(r)
        if k in ('FunctionDecl', 'CXXMethodDecl'): return Opaque('fun', r['id'], r.get('name'))
        if k == 'NonTypeTemplateParmDecl': raise Undecided('template parameter')
        raise Undecided('reference to %s %s' % (k, r.get('name')))

    def enum_const(self, r):
        nm = r['name']
        d = self.tu.decls.get(r['id'])
        if d is not None:
            p = self.tu.parent.get(d['id'])
            v = -1
            for c in (p or {}).get('inner', []):
                if c.get('kind') != 'EnumConstantDecl': continue
                ks = self.kids(c)
                if ks:
                    try: v = int(ks[0].get('value') or ks[0]['inner'][0]['value'])
                    except Exception: v = v + 1
                else: v += 1
                if c['id'] == d['id']: return num(v)
        return sym('enum:' + nm)

    def global_var(self, r, n):
        d = self.tu.decls.get(r['id'])
        if d is not None and d.get('init') and ('const' in d['type']['qualType'] or d.get('constexpr')):
            ks = self.kids(d)
            if ks:
                v = self.rv(ks[-1])
                return v
        q = self.tu.quals.get(r['id'], r.get('name'))
        v = self.global_value(q, r)
        if v is not None: return v
        raise Undecided('global variable %s' % q)

    def global_value(self, q, r): return None

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        c = self.kids(n)[0]
        if ck == 'LValueToRValue':
            l = self.ev(c)
            if isinstance(l, LV) and not isinstance(l, LObj): return self.load(l, c)
            return l
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion',
                  'UserDefinedConversion', 'BitCast', 'BaseToDerived', 'ToVoid', 'Dependent', 'LValueBitCast'):
            return self.cast_noop(n, c, ck)
        if ck == 'ArrayToPointerDecay':
            l = self.ev(c)
            return self.decay(l)
        v = self.rv(c)
        if ck == 'IntegralCast':
            return self.int_cast(asint(v), tyof(c), tyof(n))
        if ck in ('FloatingCast',): return v
        if ck == 'IntegralToFloating': return toreal(v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'): return asbool(v)
        if ck == 'PointerToBoolean': return FALSE if v is NULL else TRUE
        if ck == 'FloatingToIntegral': return mk('fn', ('ftoi', v), 'I')
        if ck == 'NullToPointer': return NULL
        if ck in ('PointerToIntegral', 'IntegralToPointer'): return v
        raise Undecided('cast %s' % ck)

    def cast_noop(self, n, c, ck): return self.ev(c)

    def decay(self, l):
        if isinstance(l, LMem): return Ptr(l.region, l.off + (Z,))
        if isinstance(l, LVar):
            v = self.st.vars[l.key]
            if isinstance(v, Ptr): return v
        if isinstance(l, Ptr) or isinstance(l, Opaque): return l
        if isinstance(l, LObj): return l
        raise Undecided('array decay')

    def int_cast(self, v, src, dst):
        ws = WIDTH.get(base(src), 64); wd = WIDTH.get(base(dst), 64)
        if base(src) == 'bool': ws = 1
        if wd >= ws or isnum(v): return v
        if base(dst) == 'bool': return asbool(v)
        hy = self.st.hyps()
        lo, hi = -(1 << (wd - 1)), (1 << (wd - 1)) - 1
        if self.prove(hy, And(ge(v, num(lo)), le(v, num(hi))), quick=True): return v
        return mk('fn', ('narrow%d' % wd, v), 'I')

    def e_CXXStaticCastExpr(self, n): return self.e_cast(n)
    def e_CXXFunctionalCastExpr(self, n): return self.e_cast(n)
    def e_CStyleCastExpr(self, n): return self.e_cast(n)
    def e_CXXConstCastExpr(self, n): return self.e_cast(n)
    def e_CXXReinterpretCastExpr(self, n): return self.e_cast(n)
    def e_BuiltinBitCastExpr(self, n): return self.e_cast(n)
    def e_cast(self, n):
        return self.e_ImplicitCastExpr(n)

    def e_CXXConstructExpr(self, n): return self.construct(n)
    def e_CXXTemporaryObjectExpr(self, n): return self.construct(n)

    def construct(self, n):
        ks = self.kids(n)
        ty = tyof(n)
        if sort_of(ty): return self.rv(ks[0]) if ks else self.zero(ty)
        return self.construct_obj(ty, ks, n)

    def construct_obj(self, ty, ks, n): raise Undecided('constructor of %s' % ty)
    def assign_obj(self, lv, v, n): raise Undecided('object assignment')

    def zero(self, ty):
        s = sort_of(ty)
        if s == 'B': return FALSE
        if s: return num(0, s)
        if is_ptr(ty): return NULL
        raise Undecided('zero of %s' % ty)

    def e_CXXScalarValueInitExpr(self, n): return self.zero(tyof(n))
    def e_ImplicitValueInitExpr(self, n): return self.zero(tyof(n))
    def e_InitListExpr(self, n):
        ks = self.kids(n)
        if sort_of(tyof(n)): return self.rv(ks[0]) if ks else self.zero(tyof(n))
        return self.init_list(n, ks)
    def init_list(self, n, ks): raise Undecided('initializer list')

    def e_ArraySubscriptExpr(self, n):
        a, b = self.kids(n)
        p = self.rv(a); i = self.rv(b)
        if isinstance(i, Ptr): p, i = i, p
        if not isinstance(p, Ptr): raise Undecided('subscript of non-pointer')
        return LMem(p.region, p.off[:-1] + (p.off[-1] + asint(i),))

    def e_UnaryOperator(self, n):
        op = n['opcode']; c = self.kids(n)[0]
        if op in ('++', '--'):
            l = self.lv(c); v = self.load(l, c)
            d = num(1 if op == '++' else -1)
            if isinstance(v, Ptr): nv = Ptr(v.region, v.off[:-1] + (v.off[-1] + d,), v.ety)
            elif isinstance(v, T): nv = asint(v) + d
            else: raise Undecided('increment')
            self.store(l, nv, c)
            return v if n.get('isPostfix') else l
        if op == '*':
            p = self.rv(c)
            return self.deref(p)
        if op == '&':
            l = self.ev(c)
            return self.addr_of(l)
        v = self.rv(c)
        if op == '-': return -asint(v)
        if op == '+': return v
        if op == '!': return Not(self.as_cond(v))
        raise Undecided('unary %s' % op)

    def deref(self, p):
        if isinstance(p, Ptr): return LMem(p.region, p.off)
        if isinstance(p, Opaque) and p.kind == 'addr': return p.data[0]
        if isinstance(p, LObj): return p
        raise Undecided('dereference of %r' % (p,))

    def addr_of(self, l):
        if isinstance(l, LMem): return Ptr(l.region, l.off)
        if isinstance(l, (LVar, LObj, LField)): return Opaque('addr', l)
        if isinstance(l, Opaque): return l
        raise Undecided('address of')

    def as_cond(self, v):
        if v is NULL: return FALSE
        if isinstance(v, Ptr): return TRUE
        if isinstance(v, T): return asbool(v)
        if isinstance(v, Opaque): return self.opaque_cond(v)
        raise Undecided('condition')

    def opaque_cond(self, v): raise Undecided('condition on %s' % v.kind)

    def e_BinaryOperator(self, n):
        op = n['opcode']; a, b = self.kids(n)
        if op == '=':
            l = self.lv(a); v = self.rv(b)
            self.store(l, v, n)
            return l
        if op == ',':
            self.ev(a); return self.ev(b)
        if op in ('&&', '||'):
            x = self.as_cond(self.rv(a))
            if x is TRUE: return self.as_cond(self.rv(b)) if op == '&&' else TRUE
            if x is FALSE: return FALSE if op == '&&' else self.as_cond(self.rv(b))
            # evaluate the second operand under the first one's outcome
            npc = len(self.st.pc)
            self.st.pc.append((x if op == '&&' else Not(x), False))
            if self.pure(b):
                y = self.as_cond(self.rv(b))
                del self.st.pc[npc:]
                return And(x, y) if op == '&&' else Or(x, y)
            del self.st.pc[npc:]
            if self.branch(x):
                return self.as_cond(self.rv(b)) if op == '&&' else TRUE
            return FALSE if op == '&&' else self.as_cond(self.rv(b))
        x = self.rv(a); y = self.rv(b)
        return self.binop(op, x, y, n)

    def pure(self, n):
        k = n['kind']
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            return self.pure_call(n)
        if k == 'BinaryOperator' and n['opcode'] == '=' or k == 'CompoundAssignOperator': return False
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'): return False
        return all(self.pure(c) for c in self.kids(n))

    def pure_call(self, n):
        c = self.kids(n)[0]
        while c['kind'] == 'ImplicitCastExpr': c = self.kids(c)[0]
        nm = c.get('referencedDecl', {}).get('name', '') or c.get('name', '')
        if nm in MATH1 or nm in ('isinf', 'isnan', 'hypot', 'fmax', 'max', 'min', 'operator[]', 'operator!=', 'operator==', 'size'):
            return all(self.pure(x) for x in self.kids(n)[1:])
        return False

    def binop(self, op, x, y, n):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(y, Ptr) and not isinstance(x, Ptr): x, y = y, x
            if isinstance(y, T):
                d = asint(y)
                if op == '-': d = -d
                elif op != '+': raise Undecided('pointer op')
                return Ptr(x.region, x.off[:-1] + (x.off[-1] + d,), x.ety)
            if isinstance(y, Ptr) and x.region is y.region:
                d = x.off[-1] - y.off[-1]
                if op == '-': return d
                return self.compare(op, d, Z)
            if y is NULL and op in ('==', '!='): return FALSE if op == '==' else TRUE
            raise Undecided('pointer arithmetic')
        if not (isinstance(x, T) and isinstance(y, T)):
            if op in ('==', '!='):
                r = self.opaque_eq(x, y)
                return r if op == '==' else Not(r)
            raise Undecided('operands of %s' % op)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return self.compare(op, x, y)
        if x.sort == 'U' or y.sort == 'U': raise Undecided('arithmetic on enum')
        if op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(op, x, y, n)
        x = asint(x); y = asint(y)
        if op == '+': return x + y
        if op == '-': return x - y
        if op == '*': return x * y
        if op == '/':
            if x.sort == 'I' and y.sort == 'I':
                self.oblige('divisor nonzero', ne(y, Z), n)
                q, r = exact_div(x, y)
                if q is not None: return q
                return idiv(x, y)
            self.divs.append((self.st.hyps(), toreal(y), line(n)))
            return toreal(x) * inv(toreal(y))
        if op == '%':
            self.oblige('divisor nonzero', ne(y, Z), n)
            return imod(x, y)
        raise Undecided('operator %s' % op)

    def bitop(self, op, x, y, n):
        x = asint(x); y = asint(y)
        if isnum(x) and isnum(y):
            a, b = int(x.args[0]), int(y.args[0])
            return num({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op])
        return mk('fn', ('bit' + op, x, y), 'I')

    def opaque_eq(self, x, y):
        if x is y: return TRUE
        if isinstance(x, Opaque) and isinstance(y, Opaque) and x.key() == y.key(): return TRUE
        if (x is NULL) != (y is NULL) and (isinstance(x, (Ptr, LObj)) or isinstance(y, (Ptr, LObj))): return FALSE
        raise Undecided('comparison of opaque values')

    def compare(self, op, x, y):
        if x.sort == 'B' and y.sort == 'B' and op in ('==', '!='):
            r = eq(x, y)
            return r if op == '==' else Not(r)
        x = asint(x); y = asint(y)
        return {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': ne}[op](x, y)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]; a, b = self.kids(n)
        l = self.lv(a)
        y = self.rv(b)
        x = self.load(l, a)
        v = self.binop(op, x, y, n)
        if isinstance(v, T) and v.sort == 'R' and sort_of(tyof(a)) == 'I': raise Undecided('float to int')
        self.store(l, v, n)
        return l

    def e_ConditionalOperator(self, n):
        c, a, b = self.kids(n)
        x = self.as_cond(self.rv(c))
        if x is TRUE: return self.ev(a)
        if x is FALSE: return self.ev(b)
        if self.pure(a) and self.pure(b) and sort_of(tyof(n)):
            npc = len(self.st.pc)
            self.st.pc.append((x, False)); u = self.rv(a); del self.st.pc[npc:]
            self.st.pc.append((Not(x), False)); v = self.rv(b); del self.st.pc[npc:]
            if isinstance(u, T) and isinstance(v, T): return ite(x, u, v)
        if self.branch(x): return self.ev(a)
        return self.ev(b)

    def e_CXXOperatorCallExpr(self, n):
        ks = self.kids(n)
        f = self.strip_all(ks[0])
        r = f.get('referencedDecl', {})
        d = self.tu.decls.get(r.get('id'))
        if r.get('name') == 'operator=' and d is not None and d.get('isImplicit') and len(ks) == 3:
            # implicitly defined assignment: copies the members
            v = self.rv(ks[2])
            l = self.lv(ks[1])
            self.store(l, v, n)
            return l
        if r.get('name') == 'operator()': return self.lambda_call(ks, n)
        raise Undecided('operator %s at line %d' % (r.get('name'), line(n)))

    def strip_all(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): n = self.kids(n)[0]
        return n

    def e_CXXThisExpr(self, n):
        return self.st.vars['this']

    def e_MemberExpr(self, n):
        c = self.kids(n)[0] if self.kids(n) else None
        nm = n.get('name')
        if c is None:
            raise Undecided('static member %s' % nm)
        b = self.rv(c) if n.get('isArrow') else self.ev(c)
        return self.member(b, nm, n)

    def member(self, b, nm, n):
        if isinstance(b, Opaque) and b.kind == 'addr': b = b.data[0]
        if isinstance(b, (LVar, LField)):
            v = self.load(b)
            if isinstance(v, LObj): b = v
        if isinstance(b, LObj): return LField(b.oid, nm)
        if isinstance(b, LMem): return LMem(b.region, b.off + (sym('.' + nm, 'U'),))
        raise Undecided('member %s of %r' % (nm, b))

    # ---------------------------------------------------------------- calls
    def callee(self, n):
        c = self.kids(n)[0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = self.kids(c)[0]
        return c

    def e_CallExpr(self, n):
        c = self.callee(n)
        args = self.kids(n)[1:]
        if c['kind'] == 'DeclRefExpr':
            r = c['referencedDecl']
            return self.call_decl(r, args, n)
        raise Undecided('indirect call')

    def call_decl(self, r, args, n):
        nm = r.get('name')
        b = self.builtin(nm, r, args, n)
        if b is not None: return b
        con = self.contract_for(r, args, n)
        if con is not None: return con
        f = self.tu.definition_of(r)
        if f is None: f = self.find_external(r)
        if f is None: raise Undecided('call of %s without a contract' % nm)
        return self.inline(f, args, n)

    def find_external(self, r):
        nm = r.get('name')
        for t in self.ext_tus:
            f = t.definition_of(r)
            if f is not None: return f
        if not nm: return None
        try:
            t = cxx.TU(self.tu.path, nm, self.tu.extra)
        except cxx.FrontEndError:
            return None
        ty = r.get('type', {}).get('qualType')
        for f in t.functions():
            if f.get('name') == nm and t.body(f) is not None and not t.is_pattern(f) and f['type'].get('qualType') == ty:
                # merge declarations
                for k, v in t.decls.items(): self.tu.decls.setdefault(k, v)
                for k, v in t.parent.items(): self.tu.parent.setdefault(k, v)
                for k, v in t.quals.items(): self.tu.quals.setdefault(k, v)
                return f
        return None

    def contract_for(self, r, args, n): return None

    def builtin(self, nm, r, args, n):
        if nm in MATH1:
            v = self.rv(args[0])
            base_ = nm[:-1] if nm.endswith('f') and nm != 'erf' and nm[:-1] in MATH1 else nm
            if nm == 'erff': base_ = 'erf'
            if base_ == 'abs':
                if v.sort == 'I': return ite(ge(v, Z), v, -v)
                base_ = 'fabs'
            v = toreal(v)
            if base_ == 'exp': self.expargs.append((self.st.hyps(), v, line(n)))
            return fn(base_, v)
        if nm in ('pow', 'powf'):
            return fn('pow', toreal(self.rv(args[0])), toreal(self.rv(args[1])))
        if nm in ('hypot', 'hypotf'):
            return hypot(toreal(self.rv(args[0])), toreal(self.rv(args[1])))
        if nm in ('fmax', 'max', 'fmaxf') and len(args) == 2:
            return fmax(*self._two(args))
        if nm in ('fmin', 'min', 'fminf') and len(args) == 2:
            return fmin(*self._two(args))
        if nm in ('fill', 'fill_n', 'copy', 'copy_n', 'equal') and len(args) == 3: return self.algorithm(nm, args, n)
        if nm in ('isinf', '__builtin_isinf', '__builtin_isinf_sign'): return pred('isinf', toreal(self.rv(args[0])))
        if nm in ('isnan',): return pred('isnan', toreal(self.rv(args[0])))
        if nm in ('isfinite',):
            v = toreal(self.rv(args[0]))
            return And(Not(pred('isinf', v)), Not(pred('isnan', v)))
        return None

    def algorithm(self, nm, args, n):
        """std::fill, fill_n, copy, copy_n, equal on contiguous ranges"""
        a, b, c = [self.rv(x) for x in args]
        if not isinstance(a, Ptr): raise Undecided('std::%s' % nm)
        if nm.endswith('_n'): cnt = asint(b)
        elif isinstance(b, Ptr) and b.region is a.region: cnt = b.off[-1] - a.off[-1]
        else: raise Undecided('std::%s' % nm)
        def ranged(r, off, what):
            npc = len(self.st.pc)
            self.st.pc.append((ge(cnt, num(1)), False))
            L = r.region.length
            if L is not None and not isinstance(L, tuple):
                self.oblige('%s of %s in bounds' % (what, r.region.name), And(ge(off, Z), le(off + cnt, L)), n)
            del self.st.pc[npc:]
        src, dst = (None, a) if nm.startswith('fill') else (a, c)
        if not isinstance(dst, Ptr): raise Undecided('std::%s' % nm)
        if nm == 'equal':
            t = num(0)
            if isnum(cnt): return And(*[eq(self.load(LMem(a.region, a.off[:-1] + (a.off[-1] + num(i),))), self.load(LMem(c.region, c.off[:-1] + (c.off[-1] + num(i),)))) for i in range(int(cnt.args[0]))])
            raise Undecided('std::equal')
        if src is not None and src.region is dst.region: raise Undecided('std::%s within an array' % nm)
        if not dst.region.writable: self.oblige('write to read-only buffer %s' % dst.region.name, Or(le(cnt, Z)), n, 'frame')
        ranged(dst, dst.off[-1], 'write')
        if src is not None: ranged(src, src.off[-1], 'read')
        end = Ptr(dst.region, dst.off[:-1] + (dst.off[-1] + cnt,), dst.ety) if nm != 'fill' else Opaque('void')
        if isnum(cnt):
            for i in range(int(cnt.args[0])):
                v = c if src is None else self.load(LMem(src.region, src.off[:-1] + (src.off[-1] + num(i),)))
                self.store(LMem(dst.region, dst.off[:-1] + (dst.off[-1] + num(i),)), v, n)
            return end
        t = fresh('t')
        if src is None: v = c
        else:
            npc = len(self.st.pc)
            self.st.pc += [(ge(t, Z), False), (lt(t, cnt), False)]
            v = self.load(LMem(src.region, src.off[:-1] + (src.off[-1] + t,)))
            del self.st.pc[npc:]
        if not isinstance(v, T): raise Undecided('std::%s of objects' % nm)
        v = toreal(v) if dst.region.sort == 'R' else asint(v)
        self.oblige('length of std::%s is nonnegative' % nm, ge(cnt, Z), n)
        m = self.st.mem[dst.region]
        self.st.mem[dst.region] = Arr(m.base, m.ops + (Op('w', ((t, cnt),), TRUE, dst.off[:-1] + (dst.off[-1] + t,), v, line(n)),))
        return end

    def _two(self, args):
        a, b = [self.rv(x) for x in args]
        if not (isinstance(a, T) and isinstance(b, T)): raise Undecided('min/max')
        if a.sort != b.sort: a, b = toreal(a), toreal(b)
        return a, b

    def inline(self, f, args, n, this=None):
        if self.depth > 12: raise Undecided('call depth')
        ps = self.tu.params(f)
        if len(args) < len(ps): raise Undecided('default arguments in call')
        vals = []
        for p, a in zip(ps, args):
            vals.append(self.bind(p, a))
        return self.run_body(f, ps, vals, this)

    def bind(self, p, a):
        ty = p['type'].get('desugaredQualType') or p['type']['qualType']
        if is_ref(ty): return self.lv(a)
        v = self.rv(a)
        if isinstance(v, LObj): v = self.copy_obj(v, tyof(p))
        return v

    def copy_obj(self, v, ty): return v

    def run_body(self, f, ps, vals, this=None):
        saved = dict(self.st.vars)
        for p, v in zip(ps, vals): self.st.vars[p['id']] = v
        if this is not None: self.st.vars['this'] = this
        self.depth += 1
        ret = None
        try:
            self.run_inits(f)
            self.stmt(self.tu.body(f))
        except ReturnEx as e:
            ret = e.v
        finally:
            self.depth -= 1
            # drop callee locals, keep modifications of the caller's variables
            nv = {k: self.st.vars.get(k, v) for k, v in saved.items()}
            for p in ps:
                if p['id'] in saved: nv[p['id']] = saved[p['id']]
            if 'this' in saved: nv['this'] = saved['this']
            elif 'this' in nv: del nv['this']
            self.st.vars = nv
        if ret is None: return Opaque('void')
        return ret

    def run_inits(self, f): pass

    # ---------------------------------------------------------------- statements
    def stmt(self, n):
        k = n['kind']
        if k in ('NullStmt',): return
        m = getattr(self, 's_' + k, None)
        self.last_line = line(n) or self.last_line
        if m is not None: return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        for c in self.kids(n): self.stmt(c)

    def s_DeclStmt(self, n):
        for d in self.kids(n):
            if d['kind'] == 'VarDecl': self.declare(d)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'CXXRecordDecl'): pass
            else: raise Undecided('declaration %s' % d['kind'])

    def declare(self, d):
        ty = d['type'].get('desugaredQualType') or d['type']['qualType']
        ks = self.kids(d)
        init = ks[-1] if d.get('init') and ks else None
        key = d['id']
        if is_ref(ty):
            v = self.lv(init)
            self.st.vars[key] = v.v if isinstance(v, LTmp) else v
            return
        if init is not None:
            v = self.rv(init)
            s = sort_of(ty)
            if isinstance(v, T) and s == 'R': v = toreal(v)
            if isinstance(v, LObj): v = self.adopt(v, init, ty)
            self.st.vars[key] = v
        else:
            self.st.vars[key] = self.undef(ty, d)

    def adopt(self, v, init, ty): return v

    def undef(self, ty, d):
        s = sort_of(ty)
        if s: return sym('undef:%s' % d.get('name'), s) if s != 'B' else mk('sym', ('undef:%s' % d.get('name'),), 'B')
        if is_ptr(ty): return NULL
        m = re.match(r'(.*)\[(\d+)\]$', clean(ty))
        if m and sort_of(m.group(1)):
            r = self.new_region('loc:%s' % d.get('name'), num(int(m.group(2))), sort_of(m.group(1)), kind='local')
            return Ptr(r, (Z,))
        return self.default_obj(ty, d)

    def default_obj(self, ty, d): raise Undecided('default construction of %s' % ty)

    def s_IfStmt(self, n):
        ks = self.kids(n)
        if n.get('hasInit') or n.get('hasVar'): raise Undecided('if with init')
        c = self.as_cond(self.rv(ks[0]))
        if self.branch(c): self.stmt(ks[1])
        elif len(ks) > 2: self.stmt(ks[2])

    def s_ReturnStmt(self, n):
        ks = self.kids(n)
        if not ks: raise ReturnEx(None)
        v = self.ev(ks[0])
        f_ref = False
        if isinstance(v, LV) and not isinstance(v, LObj):
            if ks[0].get('valueCategory') == 'lvalue': raise ReturnEx(v)
            v = self.load(v)
        raise ReturnEx(v)

    def s_BreakStmt(self, n): raise BreakEx()
    def s_ContinueStmt(self, n): raise ContinueEx()

    def e_CXXThrowExpr(self, n): raise ThrowEx(line(n))

    def s_SwitchStmt(self, n):
        ks = self.kids(n)
        v = self.rv(ks[0])
        body = ks[-1]
        items = []
        def flat(s):
            if s['kind'] == 'CaseStmt':
                kk = self.kids(s)
                items.append(('case', kk[0], line(s))); flat(kk[-1])
            elif s['kind'] == 'DefaultStmt':
                items.append(('default', None, line(s))); flat(self.kids(s)[-1])
            else: items.append(('stmt', s, 0))
        for s in self.kids(body): flat(s)
        start = None
        for i, (k, x, _) in enumerate(items):
            if k == 'case':
                c = self.rv(x)
                if self.branch(self.compare('==', v, c)): start = i; break
        if start is None:
            for i, (k, x, _) in enumerate(items):
                if k == 'default': start = i
        if start is None: return
        try:
            for k, x, _ in items[start:]:
                if k == 'stmt': self.stmt(x)
        except BreakEx:
            pass

    def s_ForStmt(self, n):
        inner = n['inner']     # init, condvar, cond, inc, body
        init, cv, cond, inc, body = inner
        if init and init.get('kind'): self.stmt(init)
        if not cond or not cond.get('kind'): raise Undecided('loop without condition')
        self.loop(cond, inc if inc and inc.get('kind') else None, body, n)

    def s_WhileStmt(self, n):
        ks = self.kids(n)
        self.loop(ks[0], None, ks[-1], n)

    def s_DoStmt(self, n):
        body, cond = self.kids(n)
        had = set(self.st.vars)
        try: self.stmt(body)
        except ContinueEx: pass
        except BreakEx: return
        for k in list(self.st.vars):
            if k not in had: del self.st.vars[k]
        self.loop(cond, None, body, n)

    def s_CXXForRangeStmt(self, n):
        ks = [c for c in n['inner'] if isinstance(c, dict) and c.get('kind')]
        body, var, inc, cond = ks[-1], ks[-2], ks[-3], ks[-4]
        for d in ks[:-4]: self.stmt(d)
        self.loop(cond, inc, dict(kind='CompoundStmt', id=n.get('id', '') + 'b', inner=[var, body], range=body.get('range', {}), loc=body.get('loc', {})), n)

    # ---------------------------------------------------------------- lambdas
    def e_LambdaExpr(self, n):
        """the body is executed at the call; what is captured by value must not have changed until then"""
        rec = n['inner'][0]
        byval = any(c.get('kind') == 'FieldDecl' and not is_ref(tyof(c)) for c in rec.get('inner', ()))
        snap = {}
        def walk(x):
            if not isinstance(x, dict): return
            if x.get('kind') == 'DeclRefExpr':
                i = x.get('referencedDecl', {}).get('id')
                if i in self.st.vars: snap[i] = self.st.vars[i]
            for c in x.get('inner', ()): walk(c)
        if byval: walk(n)
        return Opaque('lambda', n, snap)

    def lambda_call(self, ks, n):
        f = self.rv(ks[1])
        if isinstance(f, (LVar, LField)): f = self.load(f)
        if not (isinstance(f, Opaque) and f.kind == 'lambda'): raise Undecided('call of an object')
        node, snap = f.data
        for i, v in snap.items():
            if not same(self.st.vars.get(i), v): raise Undecided('captured variable changed')
        rid = self.strip_all(ks[0]).get('referencedDecl', {}).get('id')
        found = []
        def walk(x):
            if not isinstance(x, dict): return
            if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()' and any(c.get('kind') == 'CompoundStmt' for c in x.get('inner', ())): found.append(x)
            for c in x.get('inner', ()): walk(c)
        walk(node['inner'][0])
        m = [x for x in found if x.get('id') == rid] or (found if len(found) == 1 else [])
        if not m: raise Undecided('body of a lambda')
        this = self.st.vars.get('this')
        return self.inline(m[0], ks[2:], n, this)

    # ---------------------------------------------------------------- loops
    def loop(self, cond, inc, body, n):
        snap = self.st.clone()
        nobl = len(self.obl)
        cnt = 0
        while True:
            c = self.as_cond(self.rv(cond))
            if c is not TRUE and c is not FALSE and cnt > 0:
                # keep unrolling a loop that began with literal conditions only when decidable
                hy = self.st.hyps()
                if c in hy: c = TRUE
                elif Not(c) in hy: c = FALSE
                elif self.unroll_ok(n) or self.odo_relevant(c, n):
                    c = TRUE if self.branch(c) else FALSE
            elif c is not TRUE and c is not FALSE and (self.unroll_ok(n) or self.odo_relevant(c, n)):
                c = TRUE if self.branch(c) else FALSE
            if c is FALSE: return
            if c is not TRUE or cnt >= self.MAXUNROLL:
                # not literal: restart from the snapshot with a summary
                self.restore(snap); del self.obl[nobl:]
                return self.summarise(cond, inc, body, n)
            cnt += 1
            try:
                self.stmt(body)
            except ContinueEx: pass
            except BreakEx: return
            if inc is not None: self.ev(inc)

    def unroll_ok(self, n): return False

    def restore(self, s):
        st = self.st
        st.vars = dict(s.vars); st.mem = dict(s.mem); st.heap = {k: dict(v) for k, v in s.heap.items()}
        st.pc = list(s.pc); st.trace = s.trace; st.reads = s.reads

    def summarise(self, cond, inc, body, n):
        outer = self.st; snap = outer.clone()
        ns = [len(x) for x in (self.obl, self.expargs, self.divs)]
        try: return self.summarise_closed(cond, inc, body, n)
        except Undecided as u:
            why = str(u)
        self.st = outer; self.restore(snap)
        for x, k in zip((self.obl, self.expargs, self.divs), ns): del x[k:]
        try: return self.odometer(cond, inc, body, n)
        except Undecided as u:
            raise Undecided('%s; walk with carries: %s' % (why, u))

    def summarise_closed(self, cond, inc, body, n):
        self.loopid += 1
        L = self.loopid
        st0 = self.st.clone()
        npc0 = len(st0.pc)
        nobl = len(self.obl)
        nexp = len(self.expargs); ndiv = len(self.divs)
        M = {}         # key -> generic value
        W = set()
        H = set()      # heap fields (oid, name) modified
        POI = {}       # objects replaced in every iteration: unusable until they are assigned
        outer = self.st

        def one_iter():
            s = st0.clone()
            s.trace = (); s.reads = ()
            for k, v in M.items():
                if isinstance(k, tuple): s.heap[k[0]][k[1]] = v
                else: s.vars[k] = v
            self.poison(s, POI)
            for r in W: s.mem[r] = Arr(('cur', L, r.name))
            self.st = s
            for f_ in INV.values(): s.pc.append((f_, False))
            for (k1, k2), d_ in PAIRS.items():
                if k1 in M and k2 in M and M[k1].sort == 'I' and M[k2].sort == 'I': s.pc.append((eq(M[k1] - M[k2], d_), False))
            c = self.as_cond(self.rv(cond))
            if c is FALSE: raise Infeasible()
            condt[0] = c
            self.assume(c)
            kind = 'norm'; val = None
            try:
                try:
                    self.stmt(body)
                except ContinueEx: pass
                if inc is not None: self.ev(inc)
            except BreakEx: kind = 'break'
            except ReturnEx as e: kind = 'ret'; val = e.v
            except ThrowEx as e: kind = 'throw'; val = e.what
            return (kind, val, self.st)

        condt = [None]
        PAIRS = {}     # counters that advance together keep their difference
        INV = {}       # inductive facts about counters: value never passes its initial value
        for rnd_ in range(9):
            del self.obl[nobl:]; del self.expargs[nexp:]; del self.divs[ndiv:]
            res = self.explore(one_iter)
            self.st = outer
            newm = {}
            neww = set()
            for kind, val, s in res:
                for k, v in s.vars.items():
                    if k in st0.vars and k not in M and k not in POI and s.vars[k] is not st0.vars[k] and not same(s.vars[k], st0.vars[k]):
                        newm[k] = st0.vars[k]
                for o, fs in s.heap.items():
                    if o not in st0.heap: continue
                    for k, v in fs.items():
                        if (o, k) in M or (o, k) in POI: continue
                        if k not in st0.heap[o] or not same(v, st0.heap[o][k]):
                            newm[(o, k)] = st0.heap[o].get(k)
                for r, a in s.mem.items():
                    if r in st0.mem and r not in W and a is not st0.mem[r]:
                        neww.add(r)
            if not newm and not neww:
                bad = [p for p in PAIRS if not self.pair_stable(p, M, res)]
                if bad:
                    for p in bad: del PAIRS[p]
                    continue
                inv = self.counter_invariants(M, st0, res)
                if any(k not in inv for k in INV): raise Undecided('counter invariant not stable')
                if set(inv) == set(INV): break
                INV = inv
                continue
            for k, v in newm.items():
                nm = '%s@%d' % (self.name_of(k), L)
                if isinstance(v, Ptr): M[k] = Ptr(v.region, v.off[:-1] + (fresh(nm),), v.ety)
                elif isinstance(v, T): M[k] = fresh(nm, v.sort) if v.sort != 'B' else mk('sym', (fresh(nm).args[0],), 'B')
                elif isinstance(v, Region) or (isinstance(v, Opaque) and v.kind not in ('lambda',)): POI[k] = Region('poison ' + nm, None, 'I', True, kind='poison') if isinstance(v, Region) else Opaque('poison', nm)
                else: raise Undecided('loop modifies non-scalar %s' % nm)
            W |= neww
            if self.PAIRINV: self.pair_candidates(PAIRS, newm, st0, res)
        else:
            raise Undecided('loop footprint does not stabilise')
        cterm = condt[0]
        if cterm is None:
            return   # condition never true
        self.finish_loop(L, st0, npc0, nobl, nexp, ndiv, M, W, res, cterm, n)
        self.poison(self.st, POI)

    def poison(self, s, POI):
        for k, v in POI.items():
            if isinstance(v, Region): s.mem[v] = Arr(('poison',))
            if isinstance(k, tuple): s.heap[k[0]][k[1]] = v
            else: s.vars[k] = v

    PAIRINV = False

    @staticmethod
    def _at(s, k): return s.heap[k[0]][k[1]] if isinstance(k, tuple) else s.vars[k]

    def pair_candidates(self, PAIRS, newm, st0, res):
        norm = [s for kind, val, s in res if kind == 'norm']
        ks = [k for k, v in newm.items() if isinstance(v, T) and v.sort == 'I']
        inc = {}
        for k in ks:
            ds = []
            for s in norm:
                v = self._at(s, k)
                d = v - newm[k] if isinstance(v, T) and v.sort == 'I' else None
                ds.append(d if d is not None and isnum(d) else None)
            if ds and ds[0] is not None and all(d is ds[0] for d in ds): inc[k] = ds[0]
        for i, a in enumerate(ks):
            for b in ks[:i]:
                if a in inc and b in inc and inc[a] is inc[b]: PAIRS[(a, b)] = newm[a] - newm[b]

    def pair_stable(self, p, M, res):
        a, b = p
        if a not in M or b not in M: return False
        for kind, val, s in res:
            if kind != 'norm': continue
            x, y = self._at(s, a), self._at(s, b)
            if not (isinstance(x, T) and isinstance(y, T)): return False
            d = (x - M[a]) - (y - M[b])
            if not (isnum(d) and d.args[0] == 0): return False
        return True

    def counter_invariants(self, M, st0, res):
        out = {}
        norm = [s for kind, val, s in res if kind == 'norm']
        if not norm: return out
        for k, g in M.items():
            if not isinstance(g, T) or g.sort != 'I': continue
            v0 = st0.heap[k[0]].get(k[1]) if isinstance(k, tuple) else st0.vars[k]
            if not isinstance(v0, T): continue
            ds = []
            for s in norm:
                v = s.heap[k[0]][k[1]] if isinstance(k, tuple) else s.vars[k]
                d = v - g if isinstance(v, T) and v.sort == 'I' else None
                ds.append(d.args[0] if d is not None and isnum(d) else None)
            if any(d is None for d in ds): continue
            if all(d >= 0 for d in ds): out[k] = ge(g, v0)
            elif all(d <= 0 for d in ds): out[k] = le(g, v0)
        return out

    def name_of(self, k):
        if isinstance(k, tuple): return str(k[1])
        d = self.tu.decls.get(k)
        return d.get('name', str(k)) if d else str(k)

    def finish_loop(self, L, st0, npc0, nobl, nexp, ndiv, M, W, res, cterm, n):
        t = fresh('t')
        gens = {}      # generic symbol -> (key, initial term)
        for k, v in M.items():
            v0 = st0.heap[k[0]].get(k[1]) if isinstance(k, tuple) else st0.vars[k]
            if isinstance(v, Ptr): gens[v.off[-1]] = (k, v0.off[-1])
            else:
                gens[v] = (k, v0)
        norm = [s for kind, val, s in res if kind == 'norm']
        other = [(kind, val, s) for kind, val, s in res if kind != 'norm']
        if any(kind == 'break' for kind, _, _ in other):
            raise Undecided('loop with break')
        guards = [And(*[c for c, g in s.pc[npc0 + 1:] if g]) for s in norm]
        # merged updates
        upd = {}
        for g, (k, v0) in gens.items():
            u = None
            for s, gd in reversed(list(zip(norm, guards))):
                v = s.heap[k[0]][k[1]] if isinstance(k, tuple) else s.vars[k]
                if isinstance(v, Ptr):
                    if not isinstance(M[k], Ptr) or v.region is not M[k].region: raise Undecided('pointer changes its array in a loop')
                    v = v.off[-1]
                if not isinstance(v, T): raise Undecided('loop-carried value')
                u = v if u is None else ite(gd, v, u)
            upd[g] = u if u is not None else g
        sol = {}
        curres = {}
        trip = None
        gset = set(gens)

        def app(x): return subst(subst(x, sol), curres) if curres else subst(x, sol)

        def hasgen(x): return bool(set(syms(x)) & gset) or bool(cur_atoms(x, L))

        progress = True
        hy0 = st0.hyps()
        while progress:
            progress = False
            for g in list(gset):
                if g in sol: continue
                k, v0 = gens[g]
                u = app(upd[g])
                if u.sort == 'B':
                    if not hasgen(u):
                        sol[g] = ite(eq(t, Z), v0, subst(u, {t: t - 1})) if u is not v0 else v0
                        gset.discard(g); progress = True
                    continue
                if u is g:
                    sol[g] = v0; gset.discard(g); progress = True; continue
                d = u - g
                if not hasgen(d):
                    # additive recurrence
                    s_ = fresh('s')
                    if u.sort == 'R': d = toreal(d)
                    d = self.drop_first(d, t)
                    if d is None: continue
                    sol[g] = v0 + d(t)
                    gset.discard(g); progress = True
                elif not hasgen(u):
                    if not (set(syms(u)) & {t}) and same_term(u, v0, self, hy0):
                        sol[g] = v0
                    else:
                        sol[g] = ite(eq(t, Z), v0, subst(u, {t: t - 1}))
                    gset.discard(g); progress = True
                else:
                    c_ = self.const_update(u, g, v0, app, hasgen, hy0, L, t, trip, cterm)
                    if c_ is None: c_ = self.product_update(u, g, v0, hasgen, t)
                    if c_ is not None:
                        sol[g] = c_; gset.discard(g); progress = True
            if trip is None:
                ct = app(cterm)
                if not hasgen(ct):
                    trip = self.trip_count(ct, t, hy0, n)
                    progress = True
            if trip is not None and not progress:
                # resolve reads of arrays written in earlier iterations
                if self.resolve_cur(L, st0, npc0, norm, guards, W, app, sol, curres, t, trip, hasgen, hy0):
                    progress = True
            if not progress and gset and trip is not None:
                r = self.solve_group(L, st0, gens, gset, upd, app, t, trip, hy0, norm, guards, npc0, hasgen, sol, n)
                if r: progress = True
        if trip is None: raise Undecided('loop at line %d: iteration count not determined' % line(n))
        if gset:
            raise Undecided('loop at line %d: no closed form for %s' % (line(n), ', '.join(show(g) for g in gset)))
        rng = [ge(t, Z), lt(t, trip)]
        # obligations and recorded arguments
        def fix(h): return app(h)
        for o in self.obl[nobl:]:
            o.hyps = [fix(h) for h in o.hyps] + rng
            o.goal = fix(o.goal)
        for lst, m in ((self.expargs, nexp), (self.divs, ndiv)):
            for i in range(m, len(lst)):
                h, a, ln = lst[i]
                lst[i] = ([fix(x) for x in h] + rng, fix(a), ln)
        for a, (rg, l2, e, hy) in list(self.curctx.items()):
            if l2 < L:
                self.curctx[a] = (rg, l2, e, hy)
        # contexts of 'cur' atoms of enclosing loops created inside this loop mention our generic symbols: substitute
        for a in list(self.curctx):
            rg, l2, e, hy = self.curctx[a]
            if l2 != L and (set(x for y in e for x in syms(y)) & set(gens)):
                b = app(a)
                if b is not a and b.op == 'sel':
                    self.curctx[b] = (rg, l2, tuple(b.args[1:]), [fix(h) for h in hy] + rng)
            elif l2 != L:
                self.curctx[a] = (rg, l2, e, [fix(h) for h in hy] + (rng if any(t in syms(fix(h)) for h in hy) else []))
        # exits by return / throw inside the loop
        self.loop_exits(other, st0, npc0, app, t, trip, norm, guards, W, n)
        # array effects
        st = self.st
        newreads = []
        for r in W:
            ops = self.merge_ops(L, r, norm, guards, app, t, trip, hy0, rng, st0, W, hasgen)
            a = st0.mem[r]
            st.mem[r] = Arr(a.base, a.ops + tuple(ops))
        # reads record
        for s in norm:
            for (r, off, pc) in s.reads:
                newreads.append((r, tuple(app(x) for x in off), tuple((app(c), g) for c, g in pc) + tuple((x, False) for x in rng)))
        st.reads = st0.reads + tuple(newreads)
        # trace
        tr = []
        for s, gd in zip(norm, guards):
            for op in s.trace:
                tr.append(op.map(app, ((t, trip),), app(gd)))
        st.trace = st0.trace + tuple(tr)
        # scalars after the loop
        for g, (k, v0) in gens.items():
            v = subst(sol[g], {t: trip})
            v = self.simp_ite0(v, trip)
            if isinstance(M[k], Ptr): v = Ptr(M[k].region, M[k].off[:-1] + (v,), M[k].ety)
            if isinstance(k, tuple): st.heap[k[0]][k[1]] = v
            else: st.vars[k] = v
        st.pc = list(st0.pc)
        for f in self.post_facts.pop(L, []):
            st.pc.append((f, False))
        # facts established by normal completion (searching loops): for all t: no exit condition
        for f in self.loop_facts: st.pc.append((f, False))
        self.loop_facts = []

    loop_facts = []
    post_facts = {}

    def simp_ite0(self, v, trip):
        # ite(trip==0, ...) after the loop: decided when trip>=1 is known
        for c in ite_conditions(v):
            if self.prove(self.st.hyps(), c, quick=True): v = subst(v, {c: TRUE})
            elif self.prove(self.st.hyps(), Not(c), quick=True): v = subst(v, {c: FALSE})
        return v

    def drop_first(self, d, t):
        """d(t) increment -> function T -> sum_{s<T} d(s); handles increments special at t==0"""
        s_ = fresh('s')
        def total(T_):
            terms = d
            first = [c for c in ite_conditions(d) if c is eq(t, Z)]
            if first:
                a = subst(d, {first[0]: TRUE}); a = subst(a, {t: Z})
                b = subst(d, {first[0]: FALSE})
                sb = Sum(s_, Z, T_, subst(b, {t: s_}))
                # sum = sum of b + (a - b(0)) if T>0
                return sb + ite(gt(T_, Z), a - subst(b, {t: Z}), num(0, a.sort))
            return Sum(s_, Z, T_, subst(d, {t: s_}))
        return total

    def const_update(self, u, g, v0, app, hasgen, hy0, L, t, trip, cterm):
        """v' depends on loop-carried values but v==v0 is preserved (checked invariant v == v0)"""
        if hasgen(subst(v0, {})): return None
        u2 = subst(u, {g: v0})
        d = u2 - v0 if u2.sort != 'B' else None
        if d is None: return None
        if isnum(d) and d.args[0] == 0: return v0
        if isnum(d): return None
        # valid for all values of the other generic symbols?
        try:
            if self.prove(hy0, eq(d, num(0, d.sort)), quick=True): return v0
        except TooBig:
            pass
        return None

    def product_update(self, u, g, v0, hasgen, t):
        """v' = v * a(t): v0 times the product of the factors"""
        if u.sort != 'I' or u.op == 'ite': return None
        q, r = polydiv(u, g)
        if not (isnum(r) and r.args[0] == 0) or hasgen(q): return None
        s_ = fresh('s')
        return v0 * Prod(s_, Z, t, subst(q, {t: s_}))

    def trip_count(self, ct, t, hy0, n):
        """number of iterations of a loop whose condition in iteration t is ct(t)"""
        if t not in syms(ct):
            raise Undecided('loop condition does not change (line %d)' % line(n))
        if ct.op == 'not' and ct.args[0].op == 'eq':
            p = ct.args[0].args[0]
            a, b = lin_in(p, t)
            if a is None: raise Undecided('loop condition')
            if isnum(a) and abs(a.args[0]) == 1:
                T_ = scale(b, Q(-1) / a.args[0])
                if self.prove(hy0, ge(T_, Z)): return T_
            raise Undecided('loop condition != ')
        if ct.op == 'le' and ct.args[0].sort == 'I':
            a, b = lin_in(ct.args[0], t)      # a*t + b <= 0
            if a is None: raise Undecided('nonlinear loop condition')
            if isnum(a) and a.args[0] >= 1:
                k = int(a.args[0])
                if k == 1: T_ = 1 - b
                else:
                    T_ = idiv(num(k) - b, num(k))
                    if not self.prove(hy0, ge(num(k) - b, Z)): raise Undecided('trip count sign')
                    return T_
            else:
                # symbolic positive step: a*t + b <= 0 with b = 1 - a*q
                q, r = exact_div(1 - b, a)
                if q is None or not self.prove(hy0, ge(a, ONE)):
                    raise Undecided('loop step')
                T_ = q
            if self.prove(hy0, ge(T_, Z)): return T_
            return ite(ge(T_, Z), T_, Z)
        raise Undecided('loop condition form')

    # ---- arrays read and written in the loop
    def resolve_cur(self, L, st0, npc0, norm, guards, W, app, sol, curres, t, trip, hasgen, hy0):
        atoms = [a for a, c in self.curctx.items() if c[1] == L and a not in curres]
        if not atoms: return False
        rng = [ge(t, Z), lt(t, trip)]
        done = False
        for a in atoms:
            rg, l2, e, hy = self.curctx[a]
            e2 = [app(x) for x in e]
            if any(hasgen(x) for x in e2): continue
            hy2 = [app(h) for h in hy]
            hy2 = [h for h in hy2 if not hasgen(h)] + rng
            v = self.resolve_atom(L, st0, norm, guards, W, app, t, hasgen, rg, e2, hy2)
            if v is not None:
                curres[app(a)] = v
                curres[a] = v
                done = True
        return done

    def resolve_atom(self, L, st0, norm, guards, W, app, t, hasgen, rg, e2, hy2):
        """value at the start of iteration t of cell e2, when no earlier iteration wrote it"""
        for s, gd in zip(norm, guards):
            for o in s.mem[rg].ops:
                oo = o.map(app, (), app(gd))
                if any(hasgen(x) for x in oo.off): return None
                t2 = fresh('t2')
                oo = oo.rename()
                oo = oo.map(lambda x: subst(x, {t: t2}))
                gdd = oo.guard if not hasgen(oo.guard) else TRUE
                goal = Not(And(gdd, *[eq(x, y) for x, y in zip(oo.off, e2)]))
                if not self.prove(hy2 + oo.ranges() + [ge(t2, Z), lt(t2, t)], goal): return None
        v = self.read(rg, st0.mem[rg], tuple(e2), hy2)
        if not isinstance(v, T): raise Undecided('non-scalar cell')
        return v

    def gen_left(self, sol, x): return set()

    def merge_ops(self, L, r, norm, guards, app, t, trip, hy0, rng, st0, W, hasgen):
        lists = []
        for s, gd in zip(norm, guards):
            l = []
            for o in s.mem[r].ops:
                l.append(o.map(app, ()))
            lists.append((app(gd), l))
        # merge position-wise when all non-empty paths write the same scalar offsets
        merged = []
        lists = [(g, l) for g, l in lists]
        nonempty = [(g, l) for g, l in lists if l]
        if not nonempty: return []
        same_shape = len(set(len(l) for g, l in nonempty)) == 1 and \
            all(len(set(l[i].kind for g, l in nonempty)) == 1 for i in range(len(nonempty[0][1])))
        if same_shape:
            k = len(nonempty[0][1])
            for i in range(k):
                o0 = nonempty[0][1][i]
                if not all(len(l[i].binders) == len(o0.binders) for g, l in nonempty): same_shape = False; break
                # rename binders to those of o0
                cand = []
                for g, l in nonempty:
                    o = l[i]
                    mp = {v: w for (v, _), (w, _) in zip(o.binders, o0.binders)}
                    f = lambda x: subst(x, mp)
                    bs = tuple((mp[v], f(nn)) for v, nn in o.binders)
                    if bs != o0.binders or tuple(f(x) for x in o.off) != o0.off: same_shape = False; break
                    cand.append((And(g, f(o.guard)), mapval(o.val, f)))
                if not same_shape: break
                gall = Or(*[g for g, v in cand])
                if gall is not TRUE and self.prove(hy0 + rng + o0.ranges(), gall, quick=True): gall = TRUE
                val = cand[-1][1]
                for g, v in reversed(cand[:-1]):
                    if not (isinstance(v, T) and isinstance(val, T)):
                        if same(v, val): continue
                        same_shape = False; break
                    val = ite(g, v, val)
                if not same_shape: break
                merged.append(Op(o0.kind, o0.binders, gall, o0.off, val, o0.line))
        if not same_shape:
            merged = []
            for g, l in nonempty:
                for o in l: merged.append(Op(o.kind, o.binders, And(g, o.guard), o.off, o.val, o.line))
        out = []
        for i, o in enumerate(merged):
            if isinstance(o.val, T):
                curs = cur_atoms(And(*[eq(x, x + fresh('z')) for x in o.off]), L) + cur_atoms(o.guard, L) + cur_atoms(o.val, L)
                if curs:
                    hyo = hy0 + rng + o.ranges()
                    if not cur_atoms(o.guard, L): hyo = hyo + [o.guard]
                    mpc = {}
                    for a in curs:
                        rg = next((x for x in W if 'cur@%d@%s' % (L, x.name) == a.args[0]), None)
                        if rg is None: continue
                        if any(cur_atoms(x, L) for x in a.args[1:]): continue
                        v = self.resolve_atom(L, st0, norm, guards, W, app, t, hasgen, rg, list(a.args[1:]), hyo)
                        if v is not None: mpc[a] = v
                    if mpc:
                        f = lambda x: subst(x, mpc)
                        o = Op(o.kind, o.binders, f(o.guard), tuple(f(x) for x in o.off), f(o.val), o.line)
                    curs = cur_atoms(o.val, L)
                    goff = cur_atoms(o.guard, L) + [a for x in o.off for a in cur_atoms(x, L)]
                    if curs or goff:
                        me = [a for a in curs if a.args[0] == 'cur@%d@%s' % (L, r.name) and tuple(a.args[1:]) == o.off]
                        rest = (o.val - me[0]) if me else None
                        if rest is not None and o.kind == 'w' and not cur_atoms(rest, L) and not goff:
                            out.append(Op('acc', ((t, trip),) + o.binders, o.guard, o.off, rest, o.line))
                            continue
                        raise Undecided('loop-carried array dependence on %s (line %d)' % (r.name, o.line))
            no = Op(o.kind, ((t, trip),) + o.binders, o.guard, o.off, o.val, o.line)
            # the written cell does not depend on the iteration: the last iteration wins
            if o.kind == 'w' and t not in set(x for y in o.off for x in syms(y)) and not any(t in syms(nn) for _, nn in o.binders):
                if t in syms(o.guard): raise Undecided('conditional overwriting of one cell')
                last = trip - 1
                f = lambda x: subst(x, {t: last})
                no = Op('w', o.binders, And(o.guard, ge(trip, ONE)), o.off, mapval(o.val, f), o.line)
                if no.guard is not TRUE and self.prove(hy0, no.guard, quick=True): no.guard = TRUE
            out.append(no)
        # order: an earlier-listed op in a later iteration must not overwrite a later-listed op of an earlier iteration
        if len(out) > 1:
            for i in range(len(out)):
                for j in range(len(out)):
                    if i >= j: continue
                    P, Qo = out[i], out[j]
                    if P.kind == 'acc' and Qo.kind == 'acc': continue
                    if not P.binders or not Qo.binders: continue
                    a = P.rename(); b = Qo.rename()
                    tp = a.binders[0][0]; tq = b.binders[0][0]
                    goal = Not(And(a.guard, b.guard, *[eq(x, y) for x, y in zip(a.off, b.off)]))
                    if not self.prove(hy0 + a.ranges() + b.ranges() + [lt(tq, tp)], goal):
                        raise Undecided('cannot order the writes to %s at lines %d and %d' % (r.name, P.line, Qo.line))
        return out

    # ---- exits
    def loop_exits(self, other, st0, npc0, app, t, trip, norm, guards, W, n):
        facts = []
        for kind, val, s in other:
            g = And(*[app(c) for c, gg in s.pc[npc0 + 1:] if gg])
            if kind in ('throw', 'ret'):
                facts.append(g)
            else:
                raise Undecided('loop exit %s' % kind)
        if not facts: return
        if W and kind == 'ret': pass
        anyexit = Or(*facts)
        # fork: some iteration exits / none does
        ex = exists(t, Z, trip, anyexit)
        if self.branch(ex):
            t0 = fresh('tx')
            self.assume(And(ge(t0, Z), lt(t0, trip)))
            # which exit (fork)
            for (kind, val, s), g in zip(other, facts):
                if g is facts[-1] or self.branch(subst(g, {t: t0})):
                    self.assume(subst(g, {t: t0}), False)
                    # first exiting iteration
                    self.assume(forall(t, Z, t0, Not(anyexit)))
                    tr = []
                    for s2, gd in zip(norm, guards):
                        for op in s2.trace: tr.append(op.map(app, ((t, t0),), app(gd)))
                    for op in s.trace: tr.append(op.map(lambda x: subst(app(x), {t: t0})))
                    self.st.trace = st0.trace + tuple(tr)
                    if kind == 'throw': raise ThrowEx(val)
                    v = val
                    if v is not None: v = mapval(v, lambda x: subst(app(x), {t: t0}))
                    raise ReturnEx(v)
        self.loop_facts = [forall(t, Z, trip, Not(anyexit))]

    def unknown(self, t, hy0, extra):
        """an unspecified value of this moment"""
        Exec.NUNK += 1
        a = set()
        for h in list(hy0) + list(extra): a |= set(syms(h))
        return lambda tt: mkfn('unk', [num(Exec.NUNK), tt] + sorted(a - {t}, key=lambda x: x.id), 'R')

    NUNK = 0

    def solve_group(self, L, st0, gens, gset, upd, app, t, trip, hy0, norm, guards, npc0, hasgen, sol, n):
        """loop-carried values without a closed form of their own.
        1. running maximum  a' = max(a, d(t));
        2. a companion q of a running maximum with  W(a')*q' == W(a)*q + W(d(t)):  W(a)*q is the sum of the W(d);
        3. values nothing in the loop depends on are left unspecified."""
        R = sorted((g for g in gset if g.sort == 'R'), key=lambda g: g.id)
        z = num(0, 'R')
        for g in R:
            k, v0 = gens[g]
            u = app(upd[g])
            if not isinstance(v0, T) or hasgen(v0) or (set(syms(u)) & gset) - {g}: continue
            if not any(g in syms(c) for c in ite_conditions(u)): continue
            for d in [x for x in ite_leaves(u) if x.sort == 'R' and x is not g and not hasgen(x)][:3]:
                for asm in ([], [ge(v0, z)]):
                    hy = [h for h in hy0 if not hasgen(h)] + asm + [ge(g, v0)] + inf_order([g, d, v0], u)
                    if not self.prove(hy, eq(u, fmax(g, d))): continue
                    def P(T_, v0=v0, d=d):
                        v = fresh('mx')
                        return pmax(v0, Lam(v, T_, subst(d, {t: v})))
                    r = self.companions(g, v0, u, d, asm, P, R, gens, gset, upd, app, hasgen, t, hy0, sol)
                    unk = self.unknown(t, hy0, [v0])(t)
                    sol[g] = ite(And(*asm), P(t), unk) if asm else P(t)
                    gset.discard(g)
                    return True
        used = {}
        for h in gset:
            for x in syms(app(upd[h])): used.setdefault(x, set()).add(h)
        other = set()
        def note(x):
            if isinstance(x, T): other.update(syms(x, True))
        for s, gd in zip(norm, guards):
            note(gd)
            for a in s.mem.values():
                for o in a.ops:
                    for x in o.off: note(x)
                    note(o.guard); note(o.val)
            for r_, off, pc in s.reads[len(st0.reads):]:
                for x in off: note(x)
                for c, g_ in pc: note(c)
            for c, g_ in s.pc[npc0:]: note(c)
            for op in s.trace: other.update(op_syms(op))
        for o in self.obl:
            note(o.goal)
            for h in o.hyps: note(h)
        for lst in (self.expargs, self.divs):
            for h, a, ln in lst:
                note(a)
                for x in h: note(x)
        for a in self.curctx:
            for x in a.args[1:]: note(x)
        done = False
        for g in list(R):
            if g in other or (used.get(g, set()) - {g}): continue
            k, v0 = gens[g]
            sol[g] = self.unknown(t, hy0, [v0, app(upd[g])] )(t)
            # the unspecified value must not depend on unsolved values
            sol[g] = subst(sol[g], {x: Z for x in syms(sol[g]) if x in gset})
            gset.discard(g); R.remove(g); done = True
        return done

    def companions(self, g, v0, u, d, asm, P, R, gens, gset, upd, app, hasgen, t, hy0, sol):
        z = num(0, 'R')
        isinf = lambda x: pred('isinf', x)
        for q in R:
            if q is g or q in sol: continue
            k, q0 = gens[q]
            uq = app(upd[q])
            if not isinstance(q0, T) or hasgen(q0) or (set(syms(uq)) & gset) - {g, q}: continue
            if not any(q in syms(x) and x is not q for x in ite_leaves(uq)): continue
            for W, cond, iW in ((lambda a: a * a, lambda a: gt(a, z), lambda a: inv(a) * inv(a)),
                                (lambda a: ite(isinf(a), z, fn('exp', a)), lambda a: Not(isinf(a)), lambda a: fn('exp', -a))):
                try:
                    hy = [h for h in hy0 if not hasgen(h)] + asm + [ge(g, v0)] + inf_order([g, d, v0], u)
                    if not self.prove(hy, eq(W(u) * uq, W(g) * q + W(d))): continue
                except TooBig: continue
                v = fresh('sm')
                tot = W(v0) * q0 + Sum(v, Z, t, subst(W(d), {t: v}))
                pt = P(t)
                unk = self.unknown(t, hy0, [v0, q0])(t)
                sol[q] = ite(And(cond(pt), *asm), tot * iW(pt), unk)
                gset.discard(q)
                break


def op_syms(op):
    acc = set()
    op.map(lambda x: (acc.update(syms(x, True)), x)[1] if isinstance(x, T) else x, ())
    return acc


def ite_leaves(u):
    out = []
    def go(x):
        if x.op == 'ite': go(x.args[1]); go(x.args[2])
        elif x not in out: out.append(x)
    go(u)
    return out


def inf_order(xs, u):
    """order of infinite values, when the program distinguishes them: minus infinity is below everything"""
    if not any(s.op == 'pred' and s.args[0] == 'isinf' for s in subterms(u)): return []
    out = []
    xs = [x for x in xs if not isnum(x)]
    for x in xs:
        for y in xs:
            if x is not y: out.append(Or(Not(pred('isinf', x)), lt(x, y), And(pred('isinf', y), eq(x, y))))
    return out


# -------------------------------------------------------------------- helpers
def conjs(hy):
    out = set()
    for h in hy:
        if h.op == 'and': out.update(h.args)
        out.add(h)
    return out


def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.region is b.region and a.off == b.off
    if isinstance(a, LObj) and isinstance(b, LObj): return a.oid == b.oid
    if isinstance(a, LVar) and isinstance(b, LVar): return a.key == b.key
    if isinstance(a, LMem) and isinstance(b, LMem): return a.region is b.region and a.off == b.off
    if isinstance(a, LField) and isinstance(b, LField): return a.oid == b.oid and a.name == b.name
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.kind == b.kind and len(a.data) == len(b.data) and all(x is y or same(x, y) for x, y in zip(a.data, b.data))
    if isinstance(a, (str, int)) and a == b: return True
    return False


def same_term(a, b, ex, hy):
    if a is b: return True
    if a.sort == 'B' or b.sort == 'B': return False
    d = a - b
    if isnum(d): return d.args[0] == 0
    return bool(ex.prove(hy, eq(d, num(0, d.sort)), quick=True))


def cur_atoms(x, L):
    pre = 'cur@%d@' % L
    return [a for a in subterms(x) if a.op == 'sel' and isinstance(a.args[0], str) and a.args[0].startswith(pre)]


def sels_of(x):
    return [a for a in subterms(x) if a.op == 'sel']


def ite_conditions(v):
    return [s.args[0] for s in subterms(v) if s.op == 'ite']


def lin_in(p, t):
    """p = a*t + b with a,b free of t"""
    a = {}; b = {}
    for c, m in terms_of(p):
        d = dict(m)
        if t in d:
            if d[t] != 1: return None, None
            del d[t]
            mm = tuple(sorted(d.items(), key=lambda x: x[0].id))
            a[mm] = a.get(mm, 0) + c
        else:
            if any(t in syms(x) for x in d): return None, None
            b[m] = b.get(m, 0) + c
    A = from_terms(a, 'I')
    if any(t in syms(x) for c, m in terms_of(A) for x, e in m): return None, None
    return A, from_terms(b, 'I')


def exact_div(p, d):
    """p/d if d is a monomial dividing every term of p"""
    ts = terms_of(d)
    if len(ts) != 1:
        return (None, None)
    if isnum(d) and d.args[0] == 0: return (None, None)
    q, r = polydiv(p, d)
    if isnum(r) and r.args[0] == 0 and not isnum(p): return q, r
    return (None, None)


def unify(o, e):
    """solve o.off(x) = e for the binders x.  returns (dict binder->term, residual?)"""
    mp = {}
    residual = False
    bset = [v for v, n in o.binders]
    for off, ee in zip(o.off, e):
        if off.sort == 'U':
            if off is not ee: residual = True
            continue
        bs = [v for v in bset if v in syms(off) and v not in mp]
        off = subst(off, mp)
        if not bs:
            if off is not ee: residual = True
            continue
        coefs = []
        rest = off
        ok = True
        for v in bs:
            a, b = lin_in(rest, v)
            if a is None or isnum(a) and a.args[0] == 0: ok = False; break
            if any(x in syms(a) for x in bset): ok = False; break
            coefs.append((v, a)); rest = b
        if not ok:
            # off not affine in the binders: try those binders that are affine
            r = unify_partial(off, ee, bs, bset)
            if r is None: return None, True
            mp.update(r); residual = True
            continue
        rem = ee - rest
        # largest coefficient (degree, then magnitude) first
        def key(va):
            a = va[1]
            ts = terms_of(a)
            return (max(sum(x for _, x in m) for c, m in ts), max(abs(c) for c, m in ts))
        coefs.sort(key=key, reverse=True)
        for idx, (v, a) in enumerate(coefs):
            ts = terms_of(a)
            if len(ts) != 1: return None, True
            if isnum(a) and abs(a.args[0]) == 1:
                if idx != len(coefs) - 1:
                    return None, True
                mp[v] = scale(rem, 1 / a.args[0]); rem = Z
            else:
                q, r = polydiv(rem, a)
                mp[v] = q; rem = r
        if not (isnum(rem) and rem.args[0] == 0):
            if isnum(coefs[-1][1]): residual = True
            else: residual = True
    # substitute solved binders into each other (they are independent terms of e)
    return mp, residual


def unify_partial(off, ee, bs, bset):
    """offset contains data-dependent parts (reads through an index buffer): determine only unit-coefficient binders"""
    r = {}
    rest = off
    for v in bs:
        a, b = lin_in(rest, v)
        if a is not None and isnum(a) and a.args[0] == 1:
            # v + (stuff): v is the lowest digit; candidate = terms of ee not divisible by the coefficient of the stuff
            others = [(c, m) for c, m in terms_of(b)]
            cand = dict()
            # coefficient atoms shared by all other terms
            common = None
            for c, m in others:
                s = set(x for x, e in m if x.op == 'sym')
                common = s if common is None else common & s
            if common:
                k = sorted(common)[0]
                q, rem = polydiv(ee, k)
                r[v] = rem
                return r
    return r


def simplify_eqs(c):
    """divide an integer equality by a common symbolic factor known to be positive is left to the prover; only trivial cases here"""
    if c.op == 'eq' and c.args[0].sort == 'I':
        ts = terms_of(c.args[0])
        common = None
        for cc, m in ts:
            s = dict(m)
            common = s if common is None else {a: min(e, s[a]) for a, e in common.items() if a in s}
        common = {a: e for a, e in (common or {}).items() if a.op == 'sym'}
        if common:
            mono = tuple(sorted(common.items(), key=lambda x: x[0].id))
            q, r = polydiv(c.args[0], from_terms({mono: Q(1)}, 'I'))
            return cmp0('eq', q)
    if c.op == 'and': return And(*[simplify_eqs(x) for x in c.args])
    return c


odo.X = sys.modules[__name__]
