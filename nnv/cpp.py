"""Symbolic execution of the tile / tensor layer: vectors, traits, tensors, handles, task submission.

Functions of other units are replaced by their contracts (TileTraits::linear_to_index,
index_to_linear, contains_index, Tensor::get_tile_*, starpu::X::submit): a caller is checked
against the contract of the callee, not against its body."""
from .exec import *
from .exec import Exec as _Exec
from .terms import *
from . import dims
from .dims import ceildiv, text, l2i, lin, prod_lam
from . import cxx
import re

TWO = num(2)


class Traced(object):
    """an event: task submission, wait, call"""
    def __init__(self, name, args, targs=(), line=0):
        self.name = name; self.args = args; self.targs = targs; self.line = line
    def map(self, f): return Traced(self.name, [mapval(a, f) for a in self.args], self.targs, self.line)
    def __repr__(self): return '%s<%s>(%s)' % (self.name, ','.join(self.targs), ', '.join(map(str, self.args)))


class VecVal(object):
    """snapshot of a vector as a value: length and content function"""
    def __init__(self, n, fn): self.n = n; self.fn = fn
    def map(self, f): return VecVal(f(self.n), lambda *d: f(self.fn(*d)))
    def __repr__(self): return 'vec(%s)' % self.n


class CppExec(_Exec):
    MAXUNROLL = 24

    def __init__(self, tu):
        _Exec.__init__(self, tu, prover=dims.prove)
        self.oidn = 0
        self.async_contracts = False      # calls of X_async are recorded, not inlined (for blocking forms)
        self.inline_traits = False        # verify the traits classes themselves
        self.tensor_class = None

    # ------------------------------------------------------------ objects
    def new_oid(self):
        self.oidn += 1
        return 'o%d' % self.oidn

    def obj(self, cls, **fields):
        o = self.new_oid()
        d = dict(cls=cls); d.update(fields)
        self.st.heap[o] = d
        return LObj(o)

    def H(self, o): return self.st.heap[o.oid]

    def new_vec(self, name, n, fn=None, elem='I', writable=True, width=0):
        """vector of length n with content fn(d[, j])"""
        o = self.new_oid()
        length = n if not width else (n, num(width))
        r = Region(name if fn is not None and name else '%s#%s' % (name, o), length, elem, writable, kind='local')
        self.st.mem[r] = Arr(('fn', fn) if fn is not None else ('fill', num(0)))
        self.st.heap[o] = dict(cls='vec', reg=r, len=n, width=width)
        return LObj(o)

    def vec_read(self, v, d, hy=None):
        h = self.H(v)
        r = h['reg']
        e = d if isinstance(d, tuple) else (d,)
        assert len(e) == (2 if h.get('width') else 1)
        return self.read(r, self.st.mem[r], e, hy)

    def mklam(self, n, f, hy=None):
        """sequence f(0..n-1); f is evaluated for a generic index with 0 <= index < n known"""
        hy = self.st.hyps() if hy is None else hy
        if isnum(n):
            return mk('tup', tuple(f(num(i), hy) for i in range(max(0, int(n.args[0])))), 'U')
        v = fresh('d')
        body = f(v, hy + [ge(v, Z), lt(v, n)])
        r = Lam(v, n, body)
        # contexts of generic cells mentioned under the binder
        for a in subterms(body):
            if a in self.curctx and v in syms(a):
                rg, l2, e, h = self.curctx[a]
                mp = {v: r.args[0]}
                b = subst(a, mp)
                self.curctx.setdefault(b, (rg, l2, tuple(subst(x, mp) for x in e), [subst(x, mp) for x in h]))
        return r

    def veclam(self, v, hy=None):
        return self.mklam(self.H(v)['len'], lambda d, h: self.vec_read(v, d, h), hy)

    def copy_vec(self, v, name='copy'):
        h = self.H(v)
        r = h['reg']
        arr = self.st.mem[r]
        ex = self
        st_hyps = None
        def f(*d):
            return ex.read(r, arr, d, ex.fn_hyps if ex.fn_hyps is not None else ex.st.hyps())
        if arr.ops == () and arr.base[0] in ('fn', 'fill', 'init'):
            o = self.new_oid()
            r2 = Region('%s#%s' % (name, o), r.length, r.sort, True, kind='local')
            self.st.mem[r2] = arr if arr.base[0] != 'init' else Arr(arr.base)
            self.st.heap[o] = dict(cls='vec', reg=r2, len=h['len'], width=h.get('width', 0))
            return LObj(o)
        return self.new_vec(name, h['len'], f, r.sort, True, h.get('width', 0))

    fn_hyps = None

    def read_base(self, region, b, e, hy):
        if b[0] == 'fn':
            old = self.fn_hyps
            self.fn_hyps = hy
            try: return b[1](*e)
            finally: self.fn_hyps = old
        return _Exec.read_base(self, region, b, e, hy)

    def copy_obj(self, v, ty=''):
        h = self.H(v)
        if h['cls'] == 'vec': return self.copy_vec(v)
        o = self.new_oid()
        d = {}
        for k, x in h.items():
            d[k] = self.copy_obj(x) if isinstance(x, LObj) else x
        self.st.heap[o] = d
        return LObj(o)

    def assign_obj(self, lv, v, n):
        if isinstance(v, LObj):
            c = self.copy_obj(v)
            self.st.heap[lv.oid] = self.st.heap[c.oid]
            return
        raise Undecided('object assignment')

    def load(self, lv, n=None):
        if isinstance(lv, LField):
            h = self.st.heap[lv.oid]
            if lv.name not in h: raise Undecided('field %s of %s' % (lv.name, h.get('cls')))
            v = h[lv.name]
            if isinstance(v, LV) and not isinstance(v, LObj): return self.load(v, n)
            return v
        return _Exec.load(self, lv, n)

    # ------------------------------------------------------------ symbolic geometry
    def traits(self, n, shape, name='', cls='TileTraits', **more):
        """TileTraits of an n-dimensional shape (a function of the dimension), by contract C01"""
        def pr(lo, hi):
            v = fresh('d')
            return Prod(v, lo, hi, shape(v)) if not (isnum(lo) and isnum(hi)) else self.cprod(lo, hi, shape)
        def stride(d): return pr(Z, d)
        def msh(d, j):
            if isnum(j): return pr(Z, d) if j.args[0] == 0 else pr(d, n)
            return ite(eq(j, Z), pr(Z, d), pr(d, n))
        return self.obj(cls, ndim=n, shape=self.new_vec(name + '.shape', n, shape, writable=False),
                        stride=self.new_vec(name + '.stride', n, stride, writable=False),
                        matrix_shape=self.new_vec(name + '.matrix_shape', n + 1, msh, writable=False, width=2),
                        nelems=pr(Z, n), name=name, **more)

    def cprod(self, lo, hi, shape):
        r = num(1)
        for i in range(int(lo.args[0]), int(hi.args[0])): r = r * shape(num(i))
        return r

    def tensor(self, name, n, tile=False):
        sh = lambda d: sel(name + '.shape', d, sort='I')
        if tile:
            t = self.traits(n, sh, name, 'Tile', handle=Opaque('handle', name, Z))
            self.pos_facts(n, sh)
            return t
        bt = lambda d: sel(name + '.basetile', d, sort='I')
        self.pos_facts(n, sh); self.pos_facts(n, bt)
        g = lambda d: ceildiv(sh(d), bt(d))
        t = self.traits(n, sh, name, 'Tensor')
        h = self.H(t)
        h['basetile_shape'] = self.new_vec(name + '.basetile_shape', n, bt, writable=False)
        h['grid'] = self.traits(n, g, name + '.grid', 'TileTraits')
        h['leftover_shape'] = self.new_vec(name + '.leftover', n, lambda d: sh(d) - (g(d) - 1) * bt(d), writable=False)
        h['next_tag'] = sym(name + '.tag')
        return t

    def pos_facts(self, n, f):
        if isnum(n):
            for i in range(int(n.args[0])): self.st.pc.append((ge(f(num(i)), ONE), False))
        else:
            v = fresh('d')
            self.st.pc.append((forall(v, Z, n, ge(f(v), ONE)), False))

    def K(self, tr):
        """extents of a traits object as a sequence"""
        h = self.H(tr)
        return self.veclam(h['shape'])

    def in_range_all(self, n, f, K):
        """forall d < n: 0 <= f(d) < K(d)"""
        if isnum(n):
            return And(*[And(ge(f(num(i), None), Z), lt(f(num(i), None), lamapp(K, num(i)))) for i in range(int(n.args[0]))])
        v = fresh('d')
        x = f(v, self.st.hyps() + [ge(v, Z), lt(v, n)])
        return forall(v, Z, n, And(ge(x, Z), lt(x, lamapp(K, v))))

    def c_linear_to_index(self, tr, i, n=None):
        h = self.H(tr)
        ok = And(ge(i, Z), lt(i, h['nelems']))
        self.require(ok, n)
        K = self.K(tr); nd = h['ndim']
        f = lambda d: l2i(K, nd, i, d)
        if isnum(nd):
            for q in range(int(nd.args[0])):
                x = f(num(q))
                self.assume(And(ge(x, Z), lt(x, lamapp(K, num(q)))))
        else:
            v = fresh('d')
            self.assume(forall(v, Z, nd, And(ge(f(v), Z), lt(f(v), lamapp(K, v)))))
        return self.new_vec('idx', nd, f)

    def require(self, ok, n):
        """callee throws unless ok"""
        if self.prove(self.st.hyps(), ok, quick=False): return
        if not self.branch(ok): raise ThrowEx(line(n) if n else 0)

    def c_index_to_linear(self, tr, vec, n=None):
        h = self.H(tr); hv = self.H(vec)
        self.require(eq(hv['len'], h['ndim']), n)
        K = self.K(tr); nd = h['ndim']
        self.require(self.in_range_all(nd, lambda d, hy: self.vec_read(vec, d, hy), K), n)
        return lin(K, nd, self.mklam(nd, lambda d, hy: self.vec_read(vec, d, hy)))

    def c_contains_index(self, tr, vec, n=None):
        h = self.H(tr); hv = self.H(vec)
        self.require(eq(hv['len'], h['ndim']), n)
        return self.in_range_all(h['ndim'], lambda d, hy: self.vec_read(vec, d, hy), self.K(tr))

    def tile_of(self, ten, i, n, cls='TileTraits'):
        h = self.H(ten)
        name = h['name']
        self.require_index(h['grid'], i, n)
        K = self.K(h['grid']); nd = h['ndim']
        sh = lambda d: text(sel(name + '.shape', d, sort='I'), sel(name + '.basetile', d, sort='I'), l2i(K, nd, i, d))
        # range facts of the tile coordinates
        f = lambda d: l2i(K, nd, i, d)
        if isnum(nd):
            for q in range(int(nd.args[0])):
                x = f(num(q)); self.assume(And(ge(x, Z), lt(x, lamapp(K, num(q)))))
        else:
            v = fresh('d')
            self.assume(forall(v, Z, nd, And(ge(f(v), Z), lt(f(v), lamapp(K, v)))))
        t = self.traits(nd, sh, '%s.tile' % name, cls)
        self.H(t)['tileof'] = (name, i)
        if cls == 'Tile': self.H(t)['handle'] = Opaque('handle', name, i)
        return t

    def c_gemm_check(self, vals, n):
        """contract of gemm_check (defined in gemm.cc, where its body is verified as part of gemm_async): it throws
        unless the operands satisfy the relation of the operation"""
        from . import cver
        O, case, tile = self.case
        names = [x for x, k in O.sig if x in ('transA', 'A', 'transB', 'B', 'C', 'ndim', 'batch_ndim')]
        names = ['transA', 'A', 'transB', 'B', 'C', 'ndim', 'batch_ndim']
        if len(vals) != len(names): raise Undecided('call of gemm_check')
        for x, v in zip(names, vals):
            if x in ('ndim', 'batch_ndim'):
                w = case.iv[x]
                if not isinstance(v, T) or (w is not None and v is not num(w)) or (w is None and v is not sym(x)): raise Undecided('gemm_check: argument %s' % x)
            else:
                h = self.H(v)
                if x.startswith('trans'): ok = h.get('label') is not None and h['label'].data == (x,)
                else: ok = h.get('name') == x
                if not ok: raise Undecided('gemm_check: argument %s' % x)
        if case.combo is None: raise ThrowEx(line(n))
        conds, mp, c = cver.relation(O, case.combo, tile, {})
        self.require(And(*[x for _, x in conds]), n)
        return Opaque('void')

    def require_index(self, tr, i, n):
        """unchecked access of the tile arrays: undefined behaviour outside the range"""
        h = self.H(tr)
        self.oblige('tile index of %s in the grid' % h['name'], And(ge(i, Z), lt(i, h['nelems'])), n)

    # ------------------------------------------------------------ expressions
    def strip_casts(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr'):
            n = self.kids(n)[0]
        return n

    def e_CXXMemberCallExpr(self, n):
        c = self.callee(n)
        args = self.kids(n)[1:]
        if c['kind'] != 'MemberExpr': raise Undecided('member call')
        bk = self.kids(c)
        b = self.rv(bk[0]) if bk else self.st.vars['this']
        if isinstance(b, Opaque) and b.kind == 'addr' and isinstance(b.data[0], LObj): b = b.data[0]
        nm = c.get('name')
        return self.member_call(b, nm, args, n, c)

    def argvals(self, args):
        return [self.rv(a) for a in args]

    def member_call(self, b, nm, args, n, c):
        if isinstance(b, LObj):
            cls = self.H(b)['cls']
            if cls == 'vec': return self.vec_call(b, nm, args, n)
            if cls in ('Tensor', 'TileTraits', 'Tile', 'TensorTraits'):
                r = self.geom_call(b, cls, nm, args, n)
                if r is not None: return r
        if isinstance(b, Opaque) and b.kind in ('handle', 'scratch', 'handleptr'):
            r = self.handle_call(b, nm, args, n)
            if r is not None: return r
        if isinstance(b, LObj) and 'handle' in self.H(b):
            r = self.handle_call(self.H(b)['handle'], nm, args, n)
            if r is not None: return r
        return self.inline_member(b, nm, args, n, c)

    def inline_member(self, b, nm, args, n, c):
        d = self.tu.decls.get(c.get('referencedMemberDecl'))
        f = None
        if d is not None:
            f = d if self.tu.body(d) is not None else self.tu.definition_of(dict(id=d['id'], kind=d['kind'], name=d.get('name')))
        if f is None: raise Undecided('call of member %s without a contract' % nm)
        return self.inline(f, args, n, this=b)

    def handle_call(self, b, nm, args, n):
        if nm == 'mpi_get_rank' or nm == 'mpi_get_tag': return Z
        if nm in ('mpi_transfer', 'mpi_flush'):
            self.argvals(args)
            return Opaque('void')
        if nm.startswith('operator'): return b
        if nm == 'unregister': 
            self.event('unregister', [b], n); return Opaque('void')
        return None

    def event(self, name, args, n, targs=()):
        if any(isinstance(a, Opaque) and a.kind == 'poison' for a in args): raise Undecided('object of another iteration')
        op = Op('ev', (), TRUE, (), Traced(name, args, targs, line(n) if n else 0), line(n) if n else 0)
        self.st.trace = self.st.trace + (op,)

    def vec_call(self, b, nm, args, n):
        h = self.H(b)
        if nm == 'size': return h['len']
        if nm == 'empty': return eq(h['len'], Z)
        if nm == 'operator[]' or nm == 'at': return self.vec_at(b, self.rv(args[0]), n)
        if nm == 'reserve':
            self.argvals(args); return Opaque('void')
        if nm == 'push_back' or nm == 'emplace_back':
            v = self.rv(args[0])
            if not isinstance(v, T): raise Undecided('push_back of an object')
            r = h['reg']
            k = h['len']
            h['len'] = k + 1
            nr = Region(r.name, k + 1, r.sort, True, kind='local')
            self.st.mem[nr] = self.st.mem[r]
            h['reg'] = nr
            self.store(LMem(nr, (k,)), v, n)
            return Opaque('void')
        if nm == 'front': return self.vec_at(b, Z, n)
        if nm == 'back': return self.vec_at(b, h['len'] - 1, n)
        if nm in ('begin', 'cbegin'): return Ptr(h['reg'], (Z,)) if not h.get('width') else Opaque('iter', b.oid, Z)
        if nm in ('end', 'cend'): return Ptr(h['reg'], (h['len'],)) if not h.get('width') else Opaque('iter', b.oid, h['len'])
        if nm == 'data': return Ptr(h['reg'], (Z,))
        if nm in ('insert', 'erase', 'pop_back', 'clear', 'resize', 'assign') and not h.get('width'):
            vals = self.argvals(args)
            r, arr, k = h['reg'], self.st.mem[h['reg']], h['len']
            old = lambda d: self.read(r, arr, (d,), self.fn_hyps)
            if nm == 'clear': k2, f = Z, old
            elif nm == 'pop_back':
                self.oblige('vector not empty', ge(k, num(1)), n); k2, f = k - 1, old
            elif nm == 'resize' and isinstance(vals[0], T):
                self.oblige('vector length nonnegative', ge(vals[0], Z), n)
                fillv = vals[1] if len(vals) > 1 else num(0)
                k2, f = vals[0], lambda d: ite(lt(d, k), old(d), fillv)
            elif nm == 'assign' and len(vals) == 2 and isinstance(vals[0], T) and isinstance(vals[1], T):
                self.oblige('vector length nonnegative', ge(vals[0], Z), n)
                k2, f = vals[0], lambda d: vals[1]
            elif nm == 'insert' and len(vals) == 2 and isinstance(vals[0], Ptr) and vals[0].region is r and isinstance(vals[1], T):
                p = vals[0].off[-1]
                self.oblige('position of insert', And(ge(p, Z), le(p, k)), n)
                k2, f = k + 1, lambda d: ite(lt(d, p), old(d), ite(eq(d, p), vals[1], old(d - 1)))
            elif nm == 'erase' and len(vals) == 1 and isinstance(vals[0], Ptr) and vals[0].region is r:
                p = vals[0].off[-1]
                self.oblige('position of erase', And(ge(p, Z), lt(p, k)), n)
                k2, f = k - 1, lambda d: ite(lt(d, p), old(d), old(d + 1))
            else: raise Undecided('vector method %s' % nm)
            nr = Region(r.name, k2, r.sort, True, kind='local')
            self.st.mem[nr] = Arr(('fn', f))
            h['reg'] = nr; h['len'] = k2
            return Opaque('void')
        raise Undecided('vector method %s' % nm)

    def vec_at(self, b, i, n):
        h = self.H(b)
        return LMem(h['reg'], (asint(i),))

    def bounds(self, region, off, n, what):
        if region.length is None: return
        L = region.length
        if isinstance(L, tuple) and len(off) < len(L): return
        return _Exec.bounds(self, region, off, n, what)

    def geom_call(self, b, cls, nm, args, n):
        h = self.H(b)
        if self.inline_traits and h.get('real'): return None
        if nm == 'linear_to_index': return self.c_linear_to_index(b, self.rv(args[0]), n)
        if nm == 'index_to_linear': return self.c_index_to_linear(b, self.rv(args[0]), n)
        if nm == 'contains_index': return self.c_contains_index(b, self.rv(args[0]), n)
        if cls == 'Tensor':
            if nm in ('get_tile_handle', 'get_tile_traits', 'get_tile'):
                a = self.rv(args[0])
                if isinstance(a, LObj): a = self.c_index_to_linear(h['grid'], a, n)
                if nm == 'get_tile_handle':
                    self.require_index(h['grid'], a, n)
                    return Opaque('handle', h['name'], a)
                return self.tile_of(b, a, n, 'TileTraits' if nm == 'get_tile_traits' else 'Tile')
            if nm == 'get_tile_shape':
                a = self.rv(args[0])
                i = self.c_index_to_linear(h['grid'], a, n)
                t = self.tile_of(b, i, n)
                return self.copy_obj(self.H(t)['shape'])
            if nm in ('mpi_flush', 'wont_use', 'invalidate_submit', 'unregister'):
                if nm != 'mpi_flush': self.event('tensor.' + nm, [Opaque('tensor', h['name'])], n)
                return Opaque('void')
        return None

    def e_CXXOperatorCallExpr(self, n):
        ks = self.kids(n)
        c = self.strip_casts(ks[0])
        nm = c.get('referencedDecl', {}).get('name')
        args = ks[1:]
        if nm == 'operator[]':
            b = self.ev(args[0])
            if isinstance(b, LV) and not isinstance(b, (LObj, LMem)): b = self.load(b)
            if isinstance(b, LObj) and self.H(b)['cls'] == 'vec': return self.vec_at(b, self.rv(args[1]), n)
            if isinstance(b, LMem): return LMem(b.region, b.off + (asint(self.rv(args[1])),))
            raise Undecided('operator[]')
        if nm in ('operator==', 'operator!='):
            x = self.rv(args[0]); y = self.rv(args[1])
            e = self.binop('==', x, y, n) if isinstance(x, Ptr) and isinstance(y, Ptr) else self.obj_eq(x, y)
            return e if nm == 'operator==' else Not(e)
        if nm == 'operator=':
            l = self.lv(args[0]); v = self.rv(args[1])
            if isinstance(l, LVar) and isinstance(self.st.vars.get(l.key), LObj): l = self.st.vars[l.key]
            if isinstance(l, LField) and isinstance(self.st.heap[l.oid].get(l.name), LObj): l = self.st.heap[l.oid][l.name]
            if isinstance(v, LObj) and not isinstance(l, LObj): v = self.copy_obj(v)
            self.store(l, v, n)
            return l
        if nm == 'operator<<': return Opaque('stream')
        if nm == 'operator()': return self.lambda_call(ks, n)
        # iterators of vectors are pointers
        x = self.ev(args[0])
        px = x if isinstance(x, Ptr) else self.load(x) if isinstance(x, LV) and not isinstance(x, LObj) else None
        if isinstance(px, Ptr):
            if nm == 'operator*' and len(args) == 1: return self.deref(px)
            if nm in ('operator++', 'operator--'):
                d = num(1 if nm == 'operator++' else -1)
                self.store(x, Ptr(px.region, px.off[:-1] + (px.off[-1] + d,), px.ety), n)
                return px if len(args) == 2 else x
            y = self.rv(args[1])
            if nm in ('operator+=', 'operator-='):
                v = self.binop(nm[8], px, y, n); self.store(x, v, n); return x
            if nm in ('operator+', 'operator-', 'operator<', 'operator>', 'operator<=', 'operator>='): return self.binop(nm[8:], px, y, n)
        raise Undecided('operator %s' % nm)

    def obj_eq(self, x, y):
        if isinstance(x, LObj) and isinstance(y, LObj):
            hx, hy_ = self.H(x), self.H(y)
            if hx['cls'] == 'vec' and hy_['cls'] == 'vec':
                n1, n2 = hx['len'], hy_['len']
                e = eq(n1, n2)
                if e is FALSE: return FALSE
                w = h_w = hx.get('width', 0)
                if w:
                    if isnum(n1):
                        return And(e, *[eq(self.vec_read(x, (num(i), num(j))), self.vec_read(y, (num(i), num(j)))) for i in range(int(n1.args[0])) for j in range(w)])
                    v = fresh('d')
                    h = self.st.hyps() + [ge(v, Z), lt(v, n1), e]
                    return And(e, forall(v, Z, n1, And(*[eq(self.vec_read(x, (v, num(j)), h), self.vec_read(y, (v, num(j)), h)) for j in range(w)])))
                if isnum(n1):
                    return And(e, *[eq(self.vec_read(x, num(i)), self.vec_read(y, num(i))) for i in range(int(n1.args[0]))])
                v = fresh('d')
                h = self.st.hyps() + [ge(v, Z), lt(v, n1), e]
                return And(e, forall(v, Z, n1, eq(self.vec_read(x, v, h), self.vec_read(y, v, h))))
        return self.opaque_eq(x, y)

    def opaque_eq(self, x, y):
        if isinstance(x, Opaque) and isinstance(y, Opaque) and x.kind == 'handle' and y.kind == 'handle' and x.data[0] != y.data[0]: return FALSE
        return _Exec.opaque_eq(self, x, y)

    # ------------------------------------------------------------ construction
    def construct_obj(self, ty, ks, n):
        b = clean(ty)
        ct = n.get('ctorType', {}).get('qualType', '')
        if re.match(r'(std::)?(__1::|__cxx11::)?vector<', b):
            return self.make_vec(b, ks, ct, n)
        if '__normal_iterator<' in b and len(ks) == 1: return self.rv(ks[0])
        if 'Handle' in b and ('starpu' in b or b.startswith(('Handle', 'VariableHandle'))):
            if len(ks) == 1:
                v = self.rv(ks[0])
                if isinstance(v, LObj) and 'handle' in self.H(v): v = self.H(v)['handle']
                if isinstance(v, Opaque): return v
            if len(ks) == 2:
                a, m = self.argvals(ks)
                self.oidn += 1
                return Opaque('scratch', a, m)
            if not ks: return Opaque('nohandle')
        if b.endswith('runtime_error') or 'runtime_error' in b: return Opaque('exc')
        if b.endswith('TileTraits'):
            v = self.rv(ks[0])
            if isinstance(v, LObj) and self.H(v)['cls'] != 'vec': return self.copy_obj(v)
            return self.make_traits(v, n)
        if re.search(r'tile::Tile<|tensor::Tensor<', b) and len(ks) == 1:
            v = self.rv(ks[0])
            if isinstance(v, LObj): return v
        if b.startswith('std::array<') or b.startswith('array<'):
            if len(ks) == 1:
                v = self.rv(ks[0])
                if isinstance(v, LObj): return self.copy_obj(v)
            if not ks: return self.default_obj(ty, n)
        if 'string' in b: return Opaque('str')
        raise Undecided('constructor of %s' % ty)

    def make_traits(self, v, n):
        h = self.H(v)
        L = self.veclam(v)
        nd = h['len']
        ok = (And(*[ge(lamapp(L, num(i)), ONE) for i in range(int(nd.args[0]))]) if isnum(nd)
              else (lambda d: forall(d, Z, nd, ge(lamapp(L, d), ONE)))(fresh('d')))
        self.require(ok, n)
        return self.traits(nd, lambda d: lamapp(L, d), 'traits')

    def make_vec(self, b, ks, ct, n):
        if not ks: return self.new_vec('vec', Z)
        a0 = self.strip_casts(ks[0]) if ks else None
        if 'initializer_list' in ct:
            return self.rv(ks[0])
        first = self.rv(ks[0])
        rest = [k for k in ks[1:] if k['kind'] != 'CXXDefaultArgExpr']
        if isinstance(first, LObj) and self.H(first)['cls'] == 'vec':
            return first if ks[0].get('valueCategory') in ('prvalue', 'xvalue') else self.copy_vec(first)
        if isinstance(first, Ptr) and rest:
            second = self.rv(rest[0])
            if not (isinstance(second, Ptr) and second.region is first.region): raise Undecided('range of a vector constructor')
            r, arr, lo = first.region, self.st.mem[first.region], first.off[-1]
            self.oblige('range of a vector constructor', And(le(lo, second.off[-1]), ge(lo, Z), *([le(second.off[-1], r.length)] if isinstance(r.length, T) else [])), n)
            return self.new_vec('sub', second.off[-1] - lo, lambda d: self.read(r, arr, (lo + d,), self.fn_hyps))
        if isinstance(first, Opaque) and first.kind == 'iter' and rest:
            second = self.rv(rest[0])
            src = LObj(first.data[0]); lo = first.data[1]; hi = second.data[1]
            c = self.copy_vec(src)
            f = lambda d: self.vec_read(c, lo + d, self.fn_hyps)
            return self.new_vec('sub', hi - lo, f)
        if isinstance(first, T):
            m = re.match(r'(?:std::)?vector<(.*?)(?:, std::allocator.*)?>$', b)
            el = m.group(1) if m else ''
            width = 2 if 'array<' in el else 0
            self.oblige('vector length nonnegative', ge(first, Z), n)
            if rest:
                v = self.rv(rest[0])
                if isinstance(v, T): return self.new_vec('vec', first, lambda *d: v)
                raise Undecided('vector of objects')
            v = self.new_vec('vec', first, lambda *d: num(0), width=width)
            return v
        raise Undecided('vector constructor')

    def e_CXXStdInitializerListExpr(self, n): return self.ev(self.kids(n)[0])

    def init_list(self, n, ks):
        if not ks and re.search(r'vector<', clean(tyof(n))): return self.new_vec('list', Z)
        vals = [self.rv(k) for k in ks]
        if len(vals) == 1 and isinstance(vals[0], LObj): return vals[0]
        if all(isinstance(v, T) for v in vals):
            srt = vals[0].sort if vals else 'I'
            v = self.new_vec('list', num(len(vals)), None, srt)
            r = self.H(v)['reg']
            r.length = num(len(vals))
            for i, x in enumerate(vals): self.store(LMem(r, (num(i),)), x, n)
            return v
        raise Undecided('initializer list')

    def adopt(self, v, init, ty):
        """a copy construction of an object already made a copy; a prvalue is moved"""
        return v

    def declare(self, d):
        ty = d['type'].get('desugaredQualType') or d['type']['qualType']
        return _Exec.declare(self, d)

    def default_obj(self, ty, d):
        b = clean(ty)
        m = re.match(r'(?:std::)?array<(.*), (\d+)>$', b)
        if m and sort_of(m.group(1)):
            nm = d.get('name')
            v = self.new_vec('arr:%s' % nm, num(int(m.group(2))), lambda i: sel('undef:%s' % nm, i, sort=sort_of(m.group(1))), sort_of(m.group(1)))
            return v
        if re.match(r'(std::)?vector<', b): return self.new_vec('vec', Z)
        raise Undecided('default construction of %s' % ty)

    def cast_noop(self, n, c, ck):
        return self.ev(c)

    # ------------------------------------------------------------ calls
    def qual(self, r):
        return self.tu.quals.get(r.get('id'), r.get('name') or '')

    def targs(self, r):
        d = self.tu.decls.get(r.get('id'))
        if d is None: return ()
        return tuple(c.get('type', {}).get('qualType') or str(c.get('value')) for c in d.get('inner', ()) if c.get('kind') == 'TemplateArgument')

    def call_args(self, r, args, n):
        """argument values; default arguments come from the declaration"""
        d = self.tu.decls.get(r.get('id'))
        ps = self.tu.params(d) if d else []
        out = []
        for i, a in enumerate(args):
            if a['kind'] == 'CXXDefaultArgExpr':
                out.append(self.default_arg(r, i))
                continue
            v = self.rv(a)
            out.append(v)
        return out

    def default_arg(self, r, i):
        d = self.tu.decls.get(r.get('id'))
        cands = [d] if d is not None else []
        q = self.tu.quals.get(r.get('id'))
        cands += [f for f in self.tu.functions() if self.tu.quals.get(f['id']) == q]
        for f in cands:
            ps = self.tu.params(f)
            if i < len(ps) and ps[i].get('init') and self.kids(ps[i]):
                return self.rv(self.kids(ps[i])[-1])
        raise Undecided('default argument')

    def contract_for(self, r, args, n):
        q = self.qual(r)
        nm = r.get('name')
        if re.match(r'nntile::starpu::\w+::submit(_mpi)?$', q):
            vals = self.call_args(r, args, n)
            vals = [self.H(v)['handle'] if isinstance(v, LObj) and 'handle' in self.H(v) else v for v in vals]
            vals = [Opaque('vec', self.H(v)['len'], self.veclam(v)) if isinstance(v, LObj) and self.H(v)['cls'] == 'vec' else v for v in vals]
            vals = [self.H(v)['label'] if isinstance(v, LObj) and 'label' in self.H(v) else v for v in vals]
            if r.get('name') == 'submit_mpi':
                self.oblige('the task is inserted by the process that executes it', eq(vals[-1], Z), n)
                vals = vals[:-1]
            self.event(q.split('::')[2], vals, n, self.targs(r))
            return Opaque('void')
        if nm == 'starpu_task_wait_for_all':
            self.event('wait_for_all', [], n); return Z
        if nm in ('starpu_mpi_wait_for_all', 'starpu_mpi_barrier'): return Z
        if nm in ('starpu_mpi_world_rank',): return Z
        if nm in ('starpu_mpi_world_size',): return ONE
        if nm == 'gemm_check' and self.tu.definition_of(r) is None: return self.c_gemm_check(self.call_args(r, args, n), n)
        if nm == 'starpu_data_cpy':
            vals = self.call_args(r, args, n)
            if isinstance(vals[0], LObj): vals = [self.H(v)['handle'] if isinstance(v, LObj) and 'handle' in self.H(v) else v for v in vals]
            self.event('copy', [vals[1], vals[0]], n); return Z
        if nm == 'move' and len(args) == 1: return self.ev(args[0])
        if nm in ('malloc', 'free', 'printf'): return Opaque('void')
        if self.async_contracts and nm.endswith('_async'):
            vals = self.call_args(r, args, n)
            self.event('call:' + q, vals, n, self.targs(r)); return Opaque('void')
        return None

    def bind(self, p, a):
        if a['kind'] == 'CXXDefaultArgExpr':
            ks = self.kids(p)
            if p.get('init') and ks: return self.rv(ks[-1])
        return _Exec.bind(self, p, a)

    def global_value(self, q, r):
        nm = r.get('name') or ''
        if nm.startswith('STARPU_'): return sym('enum:' + nm)
        return None

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        if ck in ('UserDefinedConversion', 'ConstructorConversion', 'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase'):
            return self.ev(self.kids(n)[0])
        if ck == 'IntegralCast':
            c = self.kids(n)[0]
            v = self.rv(c)
            if isinstance(v, T) and v.sort == 'U': return v
            return self.int_cast(asint(v), tyof(c), tyof(n))
        return _Exec.e_ImplicitCastExpr(self, n)

    def e_CXXNewExpr(self, n): raise Undecided('new')
