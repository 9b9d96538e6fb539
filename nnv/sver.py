"""Verification of the task submission layer: submit() of every operation, the worker function its codelet runs,
and the declared access modes, against the contracts of sspec.

starpu_task_insert is given its documented meaning: the worker function of the codelet is executed on the buffers
in the order of the handles and on the argument block; the worker is executed at the point of insertion on the
symbolic argument block, kernels are replaced by their contracts (kspec)."""
from .cpp import *
from . import sspec, kspec, cver, dims, cxx, solve
from .cver import DVC, targs_of
from .kspec import E as Env
from .sspec import SUBS, kern
import re, time

R_, W_, RW_, SCR, RDX, COM = 1, 2, 3, 4, 8, 16
SHIFT = 17
PACK = {1: 'VALUE', 6: 'NODE', 7: 'NODE'}
TYN = {'float': 'float', 'double': 'double', 'nntile::fp32_t': 'float', 'nntile::fp64_t': 'double', 'fp32_t': 'float', 'fp64_t': 'double',
       'Index': 'long', 'nntile::Index': 'long', 'long': 'long', 'bool_t': 'bool', 'nntile::bool_t': 'bool', 'bool': 'bool', 'nntile::fp16_t': 'fp16', 'fp16_t': 'fp16'}


def tname(t):
    t = t.replace('const ', '').replace('*', '').strip()
    return TYN.get(t, t)


class Pack(object):
    """pointer into the packed argument block of a task (layout documented by starpu_task_insert: int count, then for
    every argument its size and its bytes)"""
    def __init__(self, blk, off, esz=1, ety=''): self.blk = blk; self.off = off; self.esz = esz; self.ety = ety
    def map(self, f): return Pack(self.blk, f(self.off), self.esz, self.ety)


class LPack(LV):
    def __init__(self, p): self.p = p


class SExec(CppExec):
    def __init__(self, tu):
        CppExec.__init__(self, tu)
        self.codelets = {}
        self.slots = None
        self.inworker = 0
        self.worker_t = None

    # ------------------------------------------------------------ objects of the runtime
    def codelet_obj(self, q):
        o = 'g:' + q
        if o not in self.st.heap: 
            d = dict(cls='codelet', _q=q)
            for fld in ('cpu_funcs', 'cuda_funcs', 'cuda_flags', 'modes'):
                r = Region('%s.%s' % (q, fld), None, 'U', True, kind='local')
                self.st.mem[r] = Arr(('fn', lambda i: NULL))
                d[fld] = Ptr(r, (Z,))
            d['nbuffers'] = num(-1); d['where'] = Z; d['where_default'] = Z; d['model'] = NULL; d['type'] = Z; d['symbol'] = NULL; d['footprint'] = NULL
            self.st.heap[o] = d
            c = self.codelets.get(q)
            if c:
                for i, v in c['cpu'].items(): self.store_raw(d['cpu_funcs'], i, v)
                for i, v in c['modes'].items(): self.store_raw(d['modes'], i, v)
                d['nbuffers'] = c['nbuffers']
        return LObj(o)

    def store_raw(self, p, i, v):
        a = self.st.mem[p.region]
        self.st.mem[p.region] = Arr(a.base, a.ops + (Op('w', (), TRUE, (num(i),), v, 0),))

    def slot_values(self, p):
        """{index: value} of a small array of a codelet"""
        out = {}
        for op in self.st.mem[p.region].ops:
            if op.binders or op.guard is not TRUE or not isnum(op.off[0]): raise Undecided('codelet array')
            out[int(op.off[0].args[0])] = op.val
        return out

    def global_value(self, q, r):
        d = self.tu.decls.get(r.get('id')) or r
        ty = d.get('type', {}).get('qualType', '')
        if 'Codelet' in ty: return self.codelet_obj(q)
        if r.get('name') == 'STARPU_RW_COMMUTE': return None
        return None

    def e_DeclRefExpr(self, n):
        r = n.get('referencedDecl', {})
        nm = r.get('name') or ''
        if r.get('kind') == 'EnumConstantDecl' and nm.startswith('STARPU_'):
            v = dict(STARPU_R=1, STARPU_W=2, STARPU_RW=3, STARPU_SCRATCH=4, STARPU_REDUX=8, STARPU_COMMUTE=16).get(nm)
            if v is not None: return num(v)
        return CppExec.e_DeclRefExpr(self, n)

    def load(self, lv, n=None):
        if isinstance(lv, LPack): return self.pack_read(lv.p)
        return CppExec.load(self, lv, n)

    def decay(self, l):
        if isinstance(l, LField):
            v = self.load(l)
            if isinstance(v, Ptr): return v
        return CppExec.decay(self, l)

    def member(self, b, nm, n):
        if isinstance(b, Opaque) and b.kind == 'iface':
            if nm == 'elemsize': return LTmp(sym('bytes(%s)' % self.slots[b.data[0]][0]))
            if nm == 'ptr': return LTmp(self.buf_ptr(b.data[0]))
            raise Undecided('field %s of a data interface' % nm)
        return CppExec.member(self, b, nm, n)

    def e_ArraySubscriptExpr(self, n):
        a, b = self.kids(n)
        p = self.rv(a)
        if isinstance(p, Opaque) and p.kind == 'buffers':
            i = self.rv(b)
            if not isnum(i): raise Undecided('buffer number')
            return LTmp(Opaque('iface', int(i.args[0])))
        if isinstance(p, Pack):
            i = asint(self.rv(b))
            return LPack(Pack(p.blk, p.off + i * p.esz, p.esz, p.ety))
        if isinstance(p, LField):
            p = self.decay(p)
            return LMem(p.region, (p.off[-1] + asint(self.rv(b)),))
        if isinstance(p, Opaque) and p.kind == 'addr':
            i = self.rv(b)
            if isnum(i) and i.args[0] == 0: return p.data[0]
        return CppExec.e_ArraySubscriptExpr(self, n)

    def rv(self, n):
        v = CppExec.rv(self, n)
        return v

    def deref(self, p):
        if isinstance(p, Pack): return LPack(p)
        return CppExec.deref(self, p)

    def addr_of(self, l):
        if isinstance(l, LPack): return l.p
        return CppExec.addr_of(self, l)

    def as_cond(self, v):
        if isinstance(v, (LObj, Pack)): return TRUE
        return CppExec.as_cond(self, v)

    def opaque_cond(self, v):
        if v.kind in ('addr', 'fun', 'task'): return TRUE
        if v.kind == 'null': return FALSE
        return CppExec.opaque_cond(self, v)

    def opaque_eq(self, x, y):
        return CppExec.opaque_eq(self, x, y)

    # ------------------------------------------------------------ casts, allocation
    def pointee(self, ty):
        t = clean(ty).strip()
        return t[:-1].strip() if t.endswith('*') else None

    def find_malloc(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr', 'ExprWithCleanups'):
            n = self.kids(n)[0]
        if n['kind'] == 'CallExpr':
            c = self.callee(n)
            if c['kind'] == 'DeclRefExpr' and c['referencedDecl'].get('name') == 'malloc': return n
        return None

    def e_cast(self, n):
        m = self.find_malloc(n)
        ty = n['type'].get('desugaredQualType') or tyof(n)
        if m is not None and is_ptr(ty):
            size = self.rv(self.kids(m)[1])
            return self.alloc(self.pointee(ty), size, n)
        v = self.rv_ptr(n)
        if isinstance(v, Pack):
            e = self.pointee(ty)
            esz = {'char': 1, 'bool': 1, 'int': 4, 'float': 4, 'double': 8, 'long': 8, 'unsigned long': 8, 'unsigned long long': 8, 'size_t': 8}.get(tname(e) if tname(e) in ('bool', 'long', 'float', 'double') else base(e), 0)
            return Pack(v.blk, v.off, num(esz) if esz else ONE, tname(e))
        if isinstance(v, Opaque) and v.kind == 'addr' and isinstance(v.data[0], LObj) and is_ptr(ty):
            c = self.st.heap[v.data[0].oid]['cls']
            e = tname(self.pointee(ty))
            if c.startswith('struct:') and e not in ('void', 'char') and self.struct_key(e) != c[7:]:
                raise Undecided('argument block of type %s read as %s' % (c[7:], e))
            return v
        if isinstance(v, Ptr) and is_ptr(ty) and n.get('castKind') in ('BitCast', 'LValueBitCast', None, 'NoOp'):
            e = tname(self.pointee(ty) or '')
            if e not in ('void', 'char') and v.ety and v.ety != e: raise Undecided('%s read as %s' % (v.ety, e))
            return v
        return CppExec.e_cast(self, n)

    def rv_ptr(self, n):
        """value of the operand when it is a pointer (no conversion of numbers)"""
        ty = n['type'].get('desugaredQualType') or tyof(n)
        if not is_ptr(ty): return None
        c = self.kids(n)[0]
        if n.get('castKind') not in ('BitCast', 'NoOp', 'LValueBitCast'): return None
        return self.rv(c)

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        if ck == 'FloatingCast':
            c = self.kids(n)[0]
            v = self.rv(c)
            if tname(tyof(c)) == 'double' and tname(tyof(n)) == 'float' and not isnum(v) and isinstance(v, T):
                return v if v.op == 'fn' and v.args[0] == 'narrowR' else mk('fn', ('narrowR', v), 'R')
            return v
        if ck == 'FloatingToIntegral':
            return mk('fn', ('ftoi', toreal(self.rv(self.kids(n)[0]))), 'I')
        if ck == 'BitCast' and is_ptr(tyof(n)):
            v = self.rv(self.kids(n)[0])
            if isinstance(v, (Pack, Ptr)) and tname(self.pointee(n['type'].get('desugaredQualType') or tyof(n)) or '') not in ('void', 'char'):
                return self.e_cast(n)
            return v
        if ck == 'ArrayToPointerDecay':
            return self.decay(self.ev(self.kids(n)[0]))
        return CppExec.e_ImplicitCastExpr(self, n)

    def struct_key(self, t): return t.replace('nntile::starpu::', '').replace('nntile::', '').replace('fp32_t', 'float').replace('fp64_t', 'double').split('::')[-1].replace(' ', '')

    def struct_fields(self, t):
        """field names of a structure type, in order"""
        key = self.struct_key(t)
        nm = re.sub(r'<.*', '', key)
        ta = re.findall(r'<(.*)>', key)
        for d in self.tu.decls.values():
            if d['kind'] in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and d.get('name') == nm:
                if d['kind'] == 'ClassTemplateSpecializationDecl':
                    a = [tname(c.get('type', {}).get('qualType') or '') for c in d.get('inner', ()) if c.get('kind') == 'TemplateArgument']
                    if not ta or ','.join(a) != ta[0].replace(' ', ''): continue
                elif ta: continue
                fs = [c for c in d.get('inner', ()) if c.get('kind') == 'FieldDecl']
                if fs: return [(c['name'], c['type'].get('desugaredQualType') or c['type']['qualType']) for c in fs]
        raise Undecided('structure %s' % t)

    def new_struct(self, t):
        fs = self.struct_fields(t)
        d = {}
        for f, ty in fs:
            s = sort_of(ty)
            d[f] = mk('sym', ('undef:' + f,), s) if s else Opaque('undef', f)
        o = self.obj('struct:' + self.struct_key(t))
        self.st.heap[o.oid].update(d)
        self.st.heap[o.oid]['_heap'] = True
        return o

    def alloc(self, ty, size, n):
        t = tname(ty)
        if t in ('long', 'int', 'float', 'double', 'bool', 'unsigned long', 'unsigned long long', 'char'):
            es = self.sizeof(ty)
            k = polydiv_exact(size, es)
            if k is None: raise Undecided('allocation size')
            r = self.new_region('args%d' % self.oidn, k, {'float': 'R', 'double': 'R', 'bool': 'B'}.get(t, 'I'), kind='heap'); self.oidn += 1
            self.st.mem[r] = Arr(('fn', lambda *d: mk('sym', ('undef:arg',), r.sort)))
            return Ptr(r, (Z,), t)
        o = self.new_struct(ty)
        self.oblige('the allocated block holds the arguments', ge(size, self.sizeof(ty)), n)
        return Opaque('addr', o)

    def sizeof(self, ty):
        b = clean(ty).replace('const ', '').strip()
        if tname(b) in ('float', 'double', 'long', 'bool'): return num({'float': 4, 'double': 8, 'long': 8, 'bool': 1}[tname(b)])
        if is_ptr(ty): return num(8)
        if re.match(r'(struct )?[\w:]*args\w*(<|$)', b): return sym('sizeof(%s)' % self.struct_key(b))
        return CppExec.sizeof(self, ty)

    def e_CXXNewExpr(self, n):
        ty = n['type'].get('desugaredQualType') or n['type']['qualType']
        t = self.pointee(ty)
        ks = self.kids(n)
        if n.get('isArray'): raise Undecided('new[]')
        if sort_of(t):
            p = self.alloc(t, self.sizeof(t), n)
            if ks:
                i = ks[-1]
                v = self.rv(i)
                self.store(LMem(p.region, (Z,)), v, n)
            return p
        o = None
        if ks:
            i = ks[-1]
            while i['kind'] in ('ExprWithCleanups', 'ImplicitCastExpr', 'MaterializeTemporaryExpr'): i = self.kids(i)[0]
            if i['kind'] == 'InitListExpr': o = self.struct_init(t, self.kids(i), n)
            elif i['kind'] == 'CXXConstructExpr' and not self.kids(i): o = self.new_struct(t)
        else: o = self.new_struct(t)
        if o is None: raise Undecided('new %s' % t)
        return Opaque('addr', o)

    def struct_init(self, t, ks, n):
        o = self.new_struct(t)
        fs = self.struct_fields(t)
        if len(ks) > len(fs): raise Undecided('initialiser of %s' % t)
        for (f, ty), k in zip(fs, ks):
            v = self.rv(k)
            if isinstance(v, LObj): v = self.copy_obj(v)
            self.st.heap[o.oid][f] = v
        return o

    def init_list(self, n, ks):
        ty = n['type'].get('desugaredQualType') or tyof(n)
        if re.search(r'args\w*(<|$)', clean(ty)): return self.struct_init(clean(ty), ks, n)
        vals = [self.rv(k) for k in ks]
        if all(isinstance(v, Opaque) or v is NULL for v in vals): return Opaque('ilist', *vals)
        return CppExec.init_list(self, n, ks)

    def construct_obj(self, ty, ks, n):
        b = clean(ty)
        if 'TransOp' in b and len(ks) == 1:
            v = self.rv(ks[0])
            if isinstance(v, LObj): return self.copy_obj(v)
        if 'initializer_list' in b and len(ks) == 1: return self.rv(ks[0])
        if 'initializer_list' in b and not ks: return Opaque('ilist')
        if 'Handle' in b and len(ks) == 1:
            v = self.rv(ks[0])
            if isinstance(v, Opaque): return v
        if re.search(r'args\w*(<|$)', b):
            if len(ks) == 1:
                v = self.rv(ks[0])
                if isinstance(v, LObj): return self.copy_obj(v)
            if not ks: return self.new_struct(b)
        return CppExec.construct_obj(self, ty, ks, n)

    def default_obj(self, ty, d):
        b = clean(ty)
        if 'starpu_data_access_mode' in b or 'CBLAS_' in b: return mk('sym', ('undef:mode',), 'I')
        if re.search(r'args\w*(<|$)', b):
            o = self.new_struct(b); self.st.heap[o.oid]['_heap'] = False
            return o
        return CppExec.default_obj(self, ty, d)

    def copy_obj(self, v, ty=''):
        h = self.H(v)
        if h['cls'] == 'vec': return v            # vectors are not modified here
        return CppExec.copy_obj(self, v, ty)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        if op in ('+', '-'):
            a, b = self.kids(n)
            if is_ptr(tyof(a)) or is_ptr(tyof(b)):
                x = self.rv(a)
                if isinstance(x, Pack):
                    y = asint(self.rv(b))
                    return Pack(x.blk, x.off + (y if op == '+' else -y) * x.esz, x.esz, x.ety)
        if op in ('|', '&'):
            a, b = self.kids(n)
            x = self.rv(a); y = self.rv(b)
            if isinstance(x, T) and isinstance(y, T) and isnum(x) and isnum(y):
                p, q = int(x.args[0]), int(y.args[0])
                return num(p | q if op == '|' else p & q)
            if isinstance(x, T) and isinstance(y, T) and op == '|' and isnum(y): return mk('fn', ('bitor', x, y), 'I')
        return CppExec.e_BinaryOperator(self, n)

    # ------------------------------------------------------------ packed arguments
    def layout(self, blk):
        """[(offset of size field, offset of data, value)]"""
        off = num(4); out = []
        for v, sz in blk:
            out.append((off, off + 8, v, sz)); off = off + 8 + sz
        return out

    def pack_read(self, p):
        if p.off is Z and p.ety == 'int': return num(len(p.blk))
        for so, do, v, sz in self.layout(p.blk):
            if p.off is so and p.ety in ('unsigned long', 'size_t', 'unsigned long long', 'long'): return sz
            if p.off is do:
                if isinstance(v, T): return v
                if isinstance(v, Ptr): return self.load(LMem(v.region, v.off))
        raise Undecided('read of the argument block at byte %s' % show(p.off))

    def pack_value(self, p):
        for so, do, v, sz in self.layout(p.blk):
            if p.off is do: return v, sz
        return None, None

    # ------------------------------------------------------------ calls
    def buf_ptr(self, i):
        if self.slots is None or i >= len(self.slots):
            self.oblige('buffer %d exists in the task' % i, FALSE)
            raise Undecided('buffer %d of a task with fewer handles' % i)
        nm = self.slots[i][0]
        return Ptr(self.region_of(nm), (Z,))

    def region_of(self, nm):
        r = self.regs.get(nm)
        if r is None:
            r = Region(nm, None, self.sortof.get(nm, 'R'), True)
            self.regs[nm] = r
        if r not in self.st.mem: self.st.mem[r] = Arr(('init', nm))
        return r

    def member_call(self, b, nm, args, n, c):
        if isinstance(b, Opaque) and b.kind == 'iface' and nm == 'get_ptr':
            i = b.data[0]
            p = self.buf_ptr(i)
            ty = n['type'].get('desugaredQualType') or tyof(n)
            t = tname(self.pointee(ty) or '')
            self.event('access', [Opaque('handle', self.slots[i][0], Z), Opaque('str', t)], n)
            return Ptr(p.region, p.off, t)
        if isinstance(b, Opaque) and b.kind == 'ilist':
            if nm == 'size': return num(len(b.data))
            if nm in ('begin', 'data', 'end'):
                vals = b.data
                r = self.new_region('ilist', None, 'U', kind='local')
                self.st.mem[r] = Arr(('fn', lambda i: vals[int(i.args[0])] if isnum(i) and int(i.args[0]) < len(vals) else NULL))
                return Ptr(r, (num(len(vals)) if nm == 'end' else Z,))
        if isinstance(b, Opaque) and b.kind in ('handle',):
            if nm.startswith('operator'): return b
        return CppExec.member_call(self, b, nm, args, n, c)

    def handle_call(self, b, nm, args, n):
        if nm == 'get': return b
        return CppExec.handle_call(self, b, nm, args, n)

    def contract_for(self, r, args, n):
        q = self.qual(r)
        nm = r.get('name')
        m = re.match(r'nntile::kernel::(\w+)::(\w+)$', q)
        if m:
            vals = self.call_args(r, args, n)
            k = m.group(1) if m.group(2) == 'cpu' else m.group(1) + '.' + m.group(2)
            self.event('K:' + k, vals, n, self.targs(r))
            return Opaque('void')
        if nm in ('starpu_task_insert', 'starpu_insert_task'): return self.task_insert(self.vararg(args), n)
        if nm == 'starpu_task_build': return self.task_build(self.vararg(args), n)
        if nm == 'starpu_task_submit':
            t = self.rv(args[0])
            if isinstance(t, Opaque) and t.kind == 'addr': t = t.data[0]
            h = self.st.heap[t.oid]
            self.run_task(h['_cl'], h['_modes'], h.get('cl_arg', NULL), h['_vals'], n)
            return Z
        if nm == 'malloc': raise Undecided('malloc of untyped memory')
        if nm == 'free':
            v = self.rv(args[0])
            self.event('free', [v], n); return Opaque('void')
        if nm in ('memset', 'memcpy'):
            vals = self.call_args(r, args, n)
            self.event('L:' + nm, vals, n); return vals[0]
        m = re.match(r'cblas_([sd])(gemm|scal|axpy|nrm2)$', nm or '')
        if m:
            vals = self.call_args(r, args, n)
            prec = {'s': 'float', 'd': 'double'}[m.group(1)]
            if m.group(2) == 'nrm2':
                p = vals[1]
                if not isinstance(p, Ptr): raise Undecided('nrm2')
                k = fresh('k')
                self.event('P:' + prec, [], n)
                rd = self.read(p.region, self.st.mem[p.region], p.off[:-1] + (p.off[-1] + k * asint(vals[2]),))
                return fn('sqrt', Sum(k, Z, asint(vals[0]), rd * rd))
            self.event('B:' + m.group(2), vals, n, (prec,))
            return Opaque('void')
        if re.match(r'nntile::starpu::\w+::submit$', q):
            vals = self.call_args(r, args, n)
            self.event('S:' + q.split('::')[2], vals, n, self.targs(r))
            return Opaque('void')
        if nm == 'infinity': return mk('sym', ('infinity',), 'R')
        if q.startswith('nntile::starpu::') or q.startswith('nntile::'): return None
        return CppExec.contract_for(self, r, args, n)

    def inline(self, f, args, n, this=None):
        old = self.depth
        if self.depth > 10: self.depth = 4        # parameter packs are unpacked recursively
        try: return CppExec.inline(self, f, args, n, this)
        finally: self.depth = old

    def vararg(self, args): return [self.rv(a) for a in args]

    def parse(self, vals, n):
        cl = vals[0]; i = 1
        modes = []; clarg = NULL; packs = []
        while i < len(vals):
            t = vals[i]
            if not isinstance(t, T): raise Undecided('argument of the task')
            if isnum(t):
                c = int(t.args[0])
                if c == 0: break
                hi = c >> SHIFT
                if hi == 0:
                    modes.append((t, vals[i + 1])); i += 2; continue
                if c == 1 << SHIFT: packs.append((vals[i + 1], vals[i + 2])); i += 3; continue
                nmx = CODES.get(hi)
                if nmx == 'CL_ARGS': clarg = vals[i + 1]; i += 3; continue
                if nmx is None: raise Undecided('task option %d' % hi)
                i += 1 + nmx; continue
            modes.append((t, vals[i + 1])); i += 2
        return cl, modes, clarg, packs

    def snapshot(self, packs):
        out = []
        for p, sz in packs:
            if isinstance(p, Opaque) and p.kind == 'addr':
                l = p.data[0]
                v = self.load(l)
                out.append((v, asint(sz)))
            elif isinstance(p, Ptr): out.append((p, asint(sz)))
            else: raise Undecided('packed argument')
        return tuple(out)

    def task_insert(self, vals, n):
        cl, modes, clarg, packs = self.parse(vals, n)
        self.run_task(cl, modes, clarg, self.snapshot(packs), n)
        return Z

    def task_build(self, vals, n):
        cl, modes, clarg, packs = self.parse(vals, n)
        o = self.obj('starpu_task', _cl=cl, _modes=modes, _vals=self.snapshot(packs), cl_arg=clarg, cl_arg_size=Z, cl_arg_free=Z)
        return Opaque('addr', o)

    def run_task(self, cl, modes, clarg, packs, n):
        if isinstance(cl, Opaque) and cl.kind == 'addr': cl = cl.data[0]
        if not isinstance(cl, LObj): raise Undecided('codelet')
        h = self.st.heap[cl.oid]
        slots = []
        for m, hd in modes:
            if not (isinstance(hd, Opaque) and hd.kind == 'handle'): raise Undecided('task on an unknown handle')
            slots.append((hd.data[0], m))
        self.event('task', [Opaque('codelet', h['_q'])] + [x for s in slots for x in (Opaque('handle', s[0], Z), s[1])], n)
        fs = self.slot_values(h['cpu_funcs'])
        f = fs.get(0)
        if f is None or f is NULL:
            self.event('nocpu', [], n); return
        d = self.tu.definition_of(dict(id=f.data[0], kind='FunctionDecl', name=f.data[1]))
        if d is None: raise Undecided('worker function %s without a body' % f.data[1])
        if isinstance(clarg, Opaque) and clarg.kind == 'addr':
            l = clarg.data[0]
            ok = isinstance(l, LObj) and self.st.heap[l.oid].get('_heap', False)
            self.oblige('the argument block outlives the call of submit', TRUE if ok else FALSE, n)
        if packs: clarg = Pack(packs, Z)
        self.event('worker', [Opaque('str', d['name'])], n, tuple(tname(x or '') for x in targs_of(d)))
        old = self.slots
        self.slots = slots
        ps = self.tu.params(d)
        try: self.run_body(d, ps, [Opaque('buffers'), clarg])
        finally: self.slots = old


CODES = {}


def starpu_codes():
    """numbers of the task options in the installed StarPU headers: name -> number of arguments"""
    if CODES: return
    import subprocess
    names = {'STARPU_CL_ARGS': 'CL_ARGS', 'STARPU_CL_ARGS_NFREE': 'CL_ARGS', 'STARPU_FLOPS': 1, 'STARPU_EXECUTE_ON_NODE': 1, 'STARPU_EXECUTE_ON_DATA': 1, 'STARPU_PRIORITY': 1,
             'STARPU_NAME': 1, 'STARPU_TASK_FILE': 1, 'STARPU_TASK_LINE': 1, 'STARPU_TAG': 1, 'STARPU_TAG_ONLY': 1}
    src = '#include <starpu.h>\n' + '\n'.join('#ifdef %s\nnnvcode %s %s\n#endif' % (k, k[6:], k) for k in names)
    r = subprocess.run([cxx.CLANG, '-E', '-P', '-x', 'c++', '-'] + cxx.starpu_flags(), input=src, capture_output=True, text=True)
    for m in re.finditer(r'nnvcode (\w+) (.*)', r.stdout):
        v = eval(re.sub(r'[^0-9<>()|+ ]', '', m.group(2)))
        CODES[int(v) >> SHIFT] = names['STARPU' + m.group(1)]


def polydiv_exact(p, d):
    if p is d: return ONE
    if isnum(p) and isnum(d): return num(p.args[0] // d.args[0]) if p.args[0] % d.args[0] == 0 else None
    if isnum(d):
        q = scale(p, Q(1) / d.args[0])
        return q
    return None


# ------------------------------------------------------------------ verification
def op_file(op):
    import os
    for p in ('src/starpu/%s.cc' % op, 'src/starpu/%s.cc.in' % op):
        if os.path.exists(cxx.REPO + '/' + p): return p
    raise cxx.FrontEndError('no source of ' + op)


def run_init(tu, ns):
    """executes init(): codelet -> worker functions, declared modes"""
    ex = SExec(tu)
    fs = tu.find(ns + '::init')
    if len(fs) != 1: raise Undecided('init of %s' % ns)
    def one():
        ex.st = State(); ex.regs = {}; ex.sortof = {}
        try: ex.stmt(tu.body(fs[0]))
        except ReturnEx: pass
        return ex.st
    paths = ex.explore(one)
    if len(paths) != 1: raise Undecided('init branches')
    st = paths[0]; ex.st = st
    out = {}
    for o, h in st.heap.items():
        if isinstance(h, dict) and h.get('cls') == 'codelet':
            out[h['_q']] = dict(cpu=ex.slot_values(h['cpu_funcs']), modes=ex.slot_values(h['modes']), nbuffers=h['nbuffers'])
    return out


def kinds_of(tu, f):
    out = []
    for p in tu.params(f):
        ty = p['type'].get('desugaredQualType') or p['type']['qualType']
        qt = p['type']['qualType']
        if 'vector' in ty: out.append('V')
        elif 'Handle' in ty: out.append('H')
        elif 'TransOp' in ty: out.append('Q')
        elif 'data_access_mode' in ty: out.append('M')
        elif tname(ty) in ('float', 'double') or sort_of(ty) == 'R': out.append('S')
        elif base(ty) == 'unsigned long long': out.append('U')
        elif base(ty) == 'int': out.append('R')
        else: out.append('I')
    return out


def find_submits(tu, sub):
    want = [k for _, k in sub.params]
    out = []
    for fn_ in ('submit', 'submit_mpi'):
        for f in tu.find('nntile::starpu::%s::%s' % (sub.op, fn_)):
            ks = kinds_of(tu, f)
            if fn_ == 'submit_mpi' and len(ks) == len(want) + 1: ks = ks[:-1]
            if ks == want: out.append(f)
    return out


def setup(ex, sub, f, T_):
    ex.regs = {}; ex.sortof = {}; ex.lenfacts = []
    st = ex.st
    env = {}
    ps = ex.tu.params(f)
    for (nm, k), q in zip(sub.params, ps):
        if k in ('I', 'R', 'U'): v = sym(nm)
        elif k == 'S': v = sym(nm, 'R')
        elif k == 'M': v = sym(nm)
        elif k == 'H': v = Opaque('handle', nm, Z)
        elif k == 'Q':
            v = ex.obj('TransOp', value=sym(nm)); st.pc.append((Or(eq(sym(nm), Z), eq(sym(nm), ONE)), False))
        elif k == 'V':
            v = ex.new_vec(nm, sym('ndim'), (lambda nm: lambda d: sel('vec:' + nm, d, sort='I'))(nm))
            ex.H(v)['reg'].name = 'vec:' + nm
        env[nm] = v
        st.vars[q['id']] = v
    for q in ps[len(sub.params):]: st.vars[q['id']] = sym('exec_rank')
    # sizes and buffer types from the contract of the kernel
    for g, kn, args in sub.calls:
        K = kern(kn)
        real = [p for p in K.params if p.kind != 'G']
        for p, a in zip(real, args):
            nm = a.split('+')[0]
            if p.kind == 'I' and nm in sub.kind: st.pc.append((ge(sym(nm), num(p.lo if not (sub.op == 'randn' and nm == 'ndim') else 0)), False))
            if p.kind in 'CW' and nm in sub.kind:
                ex.sortof[nm] = p.sort
                if a == nm and p.length is not None and kn not in ('memset0', 'memcpy') and all(b in sub.kind for b, q in zip(args, real) if q.kind == 'I') and T_ in ('float', 'double'):
                    e = Env(dict({q.name: sym(q.name) for q in K.params if q.kind == 'G'}, **{q.name: sym(b) for q, b in zip(real, args) if q.kind == 'I'}), {})
                    ex.lenfacts.append(eq(sym('len(%s)' % nm), p.length(e)))
                    esz = {'R': 4 if T_ == 'float' else 8, 'I': 8, 'B': 1}[p.sort]
                    ex.lenfacts.append(eq(sym('bytes(%s)' % nm), scale(p.length(e), esz)))
            if p.kind == 'X' and nm in sub.kind: ex.sortof[nm] = 'I'
    return env


def expected_type(sub, nm, T_):
    for g, kn, args in sub.calls:
        K = kern(kn)
        real = [p for p in K.params if p.kind != 'G']
        for p, a in zip(real, args):
            if a.split('+')[0] == nm:
                if p.kind == 'X' or p.sort == 'I': return 'long'
                if p.sort == 'B': return 'bool'
                return T_
    return T_


def spec_arg(a, sub, T_):
    m = re.match(r'N(2?)\((\w+)\)$', a)
    if m: 
        sz = {'float': 4, 'double': 8}[T_]
        v = idiv(sym('bytes(%s)' % m.group(2)), num(sz))
        return idiv(v, TWO) if m.group(1) else v
    if re.match(r'-?\d+$', a): return num(int(a))
    if '+' in a:
        b, o = a.split('+'); return ('ptr', b, num(int(o)))
    k = sub.kind[a]
    if k == 'H': return ('ptr', a, Z)
    if k == 'V': return ('vec', a)
    if k == 'S': return sym(a, 'R')
    return sym(a)


def guard_term(g):
    if g is None: return TRUE
    m = re.match(r'(\w+)([>=])(\d+)', g)
    x = sym(m.group(1)); c = num(int(m.group(3)))
    return gt(x, c) if m.group(2) == '>' else eq(x, c)


class Call(object):
    """one kernel execution with the contract it has: kernel contract, {parameter: term or (region name, offset)}"""
    def __init__(self, K, vals, line=0, binders=(), targs=(), guard=TRUE): self.binders = binders; self.K = K; self.vals = vals; self.line = line; self.targs = targs; self.guard = guard
    def env(self, read):
        d = {}
        for p, v in self.vals.items():
            if isinstance(v, T): d[p] = v
        sorts = {p.name: p.sort for p in self.K.params if p.kind in 'CW'}
        vals = self.vals
        class EE(object):
            def __call__(s, buf, off): return read(vals[buf][0], vals[buf][1] + off, sorts[buf])
        e = EE(); e.__dict__.update(d)
        return e


def spec_calls(sub, vals_of, T_, path_hyps, ex):
    """the canonical effect of an operation for given parameter values (vals_of: name -> T | ('ptr', region, off) | ...)"""
    out = []
    for g, kn, args in sub.calls:
        if g is not None:
            gt_ = subst_params(guard_term(g), vals_of)
            if not ex.prove(path_hyps, gt_, quick=False):
                if ex.prove(path_hyps, Not(gt_), quick=False): continue
                raise Undecided('case of %s not determined' % sub.op)
        K = kern(kn)
        real = [p for p in K.params if p.kind != 'G']
        vals = {}
        for p, a in zip(real, args):
            s = spec_arg(a, sub, T_)
            if isinstance(s, tuple):
                if s[0] == 'vec': vals[p.name] = s
                else:
                    h = vals_of[s[1]]
                    vals[p.name] = (h[0], h[1] + s[2])
            else: vals[p.name] = subst_params(s, vals_of)
        for p in K.params:
            if p.kind == 'G':
                pl = [q for q in K.params if q.kind in 'CW']
                vals[p.name] = sym('len(%s)' % vals[pl[-1].name][0]) if kn in ('memset0', 'memcpy') else sym(p.name)
        out.append(Call(K, vals))
    return out


def subst_params(t, vals_of):
    mp = {}
    for k, v in vals_of.items():
        if isinstance(v, T):
            s = sym(k, v.sort if v.sort in ('R', 'I') else 'I')
            mp[s] = v
            if v.sort == 'I': mp[sym(k)] = v
    # byte lengths and lengths follow the handle
    for x in syms(t):
        nm = x.args[0] if x.op == 'sym' else None
        m = re.match(r'(bytes|len)\((\w+)\)$', nm or '')
        if m and m.group(2) in vals_of: mp[x] = sym('%s(%s)' % (m.group(1), vals_of[m.group(2)][0]))
    return subst(t, mp)


def region_hyps(e, K):
    return []


CBT = {'enum:CblasNoTrans': 0, 'enum:CblasTrans': 1, 'enum:CblasConjTrans': 1, '111': 0, '112': 1, '113': 1}
NO_CPU = {'nntile::fp16_t', 'fp16_t', 'fp16'}


def is_ev(o, *pre): return isinstance(o.val, Traced) and o.val.name.startswith(pre)


def ptr_of(v):
    if isinstance(v, Ptr): return (v.region.name, v.off[-1])
    return None


class Mismatch(Exception):
    """the worker does something no contract describes; message"""


def to_call(o, T_):
    """event of a kernel execution -> Call with the parameter values of its contract"""
    v = o.val
    nm = v.name[2:]
    if v.name.startswith('K:'):
        K = kern(nm)
        real = [p for p in K.params if p.kind != 'G']
        if len(real) != len(v.args): raise Undecided('kernel %s has %d parameters, contract has %d' % (nm, len(v.args), len(real)))
        vals = {}
        for p, a in zip(real, v.args):
            if p.kind in 'ISU': 
                if not isinstance(a, T): raise Undecided('argument %s of %s' % (p.name, nm))
                vals[p.name] = toreal(a) if p.kind == 'S' else a
            elif p.kind == 'V': vals[p.name] = ('vec',) + ((a.blk, a.off) if isinstance(a, Pack) else (None, a))
            else:
                q = ptr_of(a)
                if q is None: raise Undecided('argument %s of %s' % (p.name, nm))
                vals[p.name] = q
        for p in K.params:
            if p.kind == 'G': vals[p.name] = sym(p.name)
        return Call(K, vals, o.line, o.binders, v.targs, o.guard)
    a = v.args
    def elems(n):
        q = polydiv_exact(n, num({'float': 4, 'double': 8}.get(T_, 1)))
        if q is None or T_ not in ('float', 'double'): return n
        return q
    if v.name == 'L:memset':
        d = ptr_of(a[0])
        if d is None or not (isinstance(a[1], T) and isnum(a[1]) and a[1].args[0] == 0): raise Mismatch('memory is filled with a value other than 0')
        return Call(kern('memset0'), dict(data=d, n=asint(a[2])), o.line, o.binders, (), o.guard)
    if v.name == 'L:memcpy':
        d, s_ = ptr_of(a[0]), ptr_of(a[1])
        if d is None or s_ is None: raise Undecided('memcpy')
        return Call(kern('memcpy'), dict(src=s_, dst=d, n=asint(a[2])), o.line, o.binders, (), o.guard)
    if v.name == 'B:scal': return Call(kern('cblas_scal'), dict(nelems=asint(a[0]), alpha=toreal(a[1]), data=ptr_of(a[2]), _inc=[a[3]]), o.line, o.binders, v.targs, o.guard)
    if v.name == 'B:axpy': return Call(kern('cblas_axpy'), dict(nelems=asint(a[0]), alpha=toreal(a[1]), src=ptr_of(a[2]), dst=ptr_of(a[4]), _inc=[a[3], a[5]]), o.line, o.binders, v.targs, o.guard)
    if v.name == 'B:gemm': return Call(kern('gemm'), dict(_cblas=a, _binders=o.binders), o.line, o.binders, v.targs, o.guard)
    raise Undecided('event ' + v.name)


def gemm_goals(c, o, params):
    """equality of a family of cblas_?gemm calls with the batched product"""
    a = c.vals['_cblas']; bs = c.vals['_binders']
    P_ = params
    def tr(x):
        t = CBT.get(x.args[0] if isinstance(x, T) and x.op == 'sym' else show(x))
        if t is None: raise Undecided('transposition of gemm')
        return t
    ta, tb = tr(a[1]), tr(a[2])
    m, n, k = P_['m'], P_['n'], P_['k']
    if len(bs) == 1: b, nb = bs[0]
    elif not bs: b, nb = Z, ONE
    else: raise Undecided('nest of gemm calls')
    lay = a[0].args[0] if a[0].op == 'sym' else show(a[0])
    if lay not in ('enum:CblasColMajor', '102'): raise Mismatch('row-major gemm')
    hy = [And(ge(x, Z), lt(x, c_)) for x, c_ in bs]
    g = [('number of products', eq(nb, P_['batch'])), ('operation of A', TRUE if ta == 0 else ne(P_['transA'], Z)), ('operation of B', TRUE if tb == 0 else ne(P_['transB'], Z))]
    if ta == 0: g.append(('operation of A', eq(P_['transA'], Z)))
    if tb == 0: g.append(('operation of B', eq(P_['transB'], Z)))
    g += [('m', eq(a[3], m)), ('n', eq(a[4], n)), ('k', eq(a[5], k)), ('alpha', eq(toreal(a[6]), P_['alpha'])), ('beta', eq(toreal(a[11]), P_['beta']))]
    for nm, i, off, ld in (('A', 7, b * m * k, m if ta == 0 else k), ('B', 9, b * n * k, k if tb == 0 else n), ('C', 12, b * m * n, m)):
        q = ptr_of(a[i])
        if q is None: raise Undecided('pointer of gemm')
        g.append(('buffer ' + nm, TRUE if q[0] == P_[nm][0] else FALSE))
        g.append(('offset of ' + nm, eq(q[1], off + P_[nm][1])))
        g.append(('leading dimension of ' + nm, eq(a[i + 1], ld)))
    g.append(('executed for every batch', c.guard))
    return [(x, Implies(And(*hy), y) if hy else y) for x, y in g]


def arg_goals(c, s, ex, T_, sub):
    """equality of an execution c and a canonical execution s of the same kernel"""
    if c.K.name == 'gemm' and '_cblas' in c.vals:
        return gemm_goals(c, None, s.vals)
    out = [('execution is unconditional', c.guard)]
    for i, x in enumerate(c.vals.get('_inc', ())): out.append(('stride %d' % i, eq(asint(x), ONE)))
    if c.binders: raise Undecided('kernel called in a loop')
    for p in c.K.params:
        if p.kind == 'G' and p.name not in ('n',): continue
        x = c.vals.get(p.name); y = s.vals.get(p.name)
        if c.K.name in ('memset0', 'memcpy') and p.name == 'n':
            buf = s.vals['data' if c.K.name == 'memset0' else 'src'][0]
            bytes_ = [sym('bytes(%s)' % b) for b in ([s.vals['data'][0]] if c.K.name == 'memset0' else [s.vals['src'][0], s.vals['dst'][0]])]
            out.append(('number of bytes', Or(*[eq(x, b) for b in bytes_])))
            continue
        nm = p.name
        if isinstance(y, T): out.append((nm, eq(x, y) if x.sort == y.sort else (eq(toreal(x), toreal(y)))))
        elif y[0] == 'vec':
            if x[0] != 'vec': out.append((nm, FALSE)); continue
            v, sz = ex.pack_value(Pack(x[1], x[2])) if x[1] is not None else (x[2], None)
            if not isinstance(v, Ptr):
                if isinstance(v, T) and v is NULL: out.append((nm, FALSE)); continue
                out.append((nm, FALSE)); continue
            good = eq(v.off[-1], Z) if v.region.name == 'vec:' + y[1] else FALSE
            if sz is not None: good = And(good, eq(sz, scale(sym('ndim'), 8)))
            out.append((nm, good))
        else:
            if p.kind == 'X' and x[0] != y[0]: out.append((nm, FALSE)); continue
            out.append((nm, eq(x[1], y[1]) if x[0] == y[0] else FALSE))
    return out


# ------------------------------------------------------------------ effect of a sequence of executions
def apply_calls(ex, calls):
    """the memory after the executions: kernel contracts as memory operations"""
    for c in calls:
        if c.binders or c.guard is not TRUE or '_cblas' in c.vals or c.K.name in PARTIAL_ or not has_outs(c): raise Undecided('effect of %s' % c.K.name)
        mem0 = dict(ex.st.mem)
        def read(rn, off, sort):
            r = ex.region_of(rn)
            a = mem0.get(r) or ex.st.mem[r]
            return ex.read(r, a, (off,), ex.st.hyps())
        e = c.env(read)
        new = []
        for o in c.K.outs(e):
            bs = [fresh('x%d' % i) for i in range(len(o.box))]
            rn, base_ = c.vals[o.buf]
            off = o.off(*bs) + base_
            if o.val is None: raise Undecided('effect of %s' % c.K.name)
            srt = [p.sort for p in c.K.params if p.name == o.buf][0]
            hy = [And(ge(b, Z), lt(b, n)) for b, n in zip(bs, o.box)]
            old = list(ex.st.pc)
            ex.st.pc = old + [(h, False) for h in hy]
            try: val = o.val(*bs)
            finally: ex.st.pc = old
            new.append((ex.region_of(rn), Op('w', tuple(zip(bs, o.box)), TRUE, (off,), toreal(val) if srt == 'R' else val, c.line)))
        for r, op in new:
            a = ex.st.mem[r]
            ex.st.mem[r] = Arr(a.base, a.ops + (op,))


PARTIAL_ = sspec.PARTIAL


def has_outs(c): return c.K.name not in ('randn', 'randn.cpu_ndim0', 'subcopy')


def effect_vcs(ex, st, fname, calls, spec, label, line):
    """the executions have the effect of the canonical executions, for every element"""
    out = []; keep = st
    st = copy_state(st); st.pc = st.pc + [(h, False) for h in ex.lenfacts]
    ex.st = copy_state(st)
    s0 = ex.st
    init = {r: a for r, a in s0.mem.items()}
    apply_calls(ex, calls)
    final = dict(ex.st.mem)
    # canonical, on a state of its own
    ex.st = copy_state(st); apply_calls(ex, spec)
    want = dict(ex.st.mem)
    wops = {}
    for r, a in list(final.items()) + list(want.items()):
        if r.kind in ('local', 'heap') or not a.ops: continue
        wops.setdefault(r, []).extend(a.ops)
    for r, ops in wops.items():
        seen = set()
        for op in ops:
            w = op.rename()
            hy = st.hyps() + w.ranges() + [w.guard]
            ka = skey_safe(op)
            if ka in seen: continue
            seen.add(ka)
            ex.st = copy_state(st)
            got = ex.read(r, final.get(r) or Arr(('init', r.name)), w.off, hy)
            exp = ex.read(r, want.get(r) or Arr(('init', r.name)), w.off, hy)
            ex.st = keep
            out.append(DVC2(fname, 'the effect on %s equals that of %s' % (r.name, label), hy, eq(got, exp), line, 'post'))
    ex.st = keep
    return out


def skey_safe(op):
    return (tuple(show(n) for _, n in op.binders), show(subst(op.off[0], {b: sym('_b%d' % i) for i, (b, _) in enumerate(op.binders)})), id(op.val) if not op.binders else show(subst(op.val, {b: sym('_b%d' % i) for i, (b, _) in enumerate(op.binders)}))[:2000])


def copy_state(st):
    import copy
    n = copy.copy(st)
    n.mem = dict(st.mem); n.pc = list(st.pc); n.vars = dict(st.vars); n.heap = dict(st.heap)
    return n


from .kver import VC


def widen(hyps):
    """rewriting of 32-bit conversions the path has checked to be exact"""
    mp = {}
    for h in hyps:
        for t in subterms(h):
            if t.op == 'fn' and t.args[0] == 'narrow32' and eq(t.args[1], t) in hyps: mp[t] = t.args[1]
    return mp


class DVC2(VC):
    def run(self):
        mp = widen(self.hyps)
        if mp: self.goal = subst(self.goal, mp); self.hyps = [subst(h, mp) for h in self.hyps]
        if self.goal is TRUE:
            self.ok = True; self.by = 'simplifier'; return True
        return VC.run(self)


# ------------------------------------------------------------------ one submit function
def verify_submit(sub, tu, f, codelets):
    """(C12 obligations, C13 obligations)"""
    ta = targs_of(f)
    T_ = tname(ta[0] or '') if ta else 'void'
    cpu = not (ta and (ta[0] or '') in NO_CPU) or sub.op == 'subcopy'
    ex = SExec(tu); ex.codelets = codelets
    fname = 'starpu::%s::%s%s' % (sub.op, f['name'], '<%s>' % ','.join(map(str, ta)) if ta else '')
    from .kver import run_function
    paths = run_function(ex, f, lambda: setup(ex, sub, f, T_))
    v12 = []; v13 = []
    for o in ex.obl:
        v12.append(DVC2(fname, o.name, o.hyps, o.goal, o.line, 'safety' if o.kind == 'safety' else o.kind))
    for kind, val, st, env in paths:
        ex.st = st
        hy = st.hyps()
        def vc(lst, name, goal, line=0, k='post', hyps=None): lst.append(DVC2(fname, name, hy if hyps is None else hyps, goal, line, k))
        if kind == 'throw':
            small = [ne(sym(p), mk('fn', ('narrow32', sym(p)), 'I')) for p, k in sub.params if k == 'I']
            vc(v12, 'submission fails only when a size does not fit the BLAS integer', Or(*small) if small else FALSE, val)
            continue
        evs = [o for o in st.trace if isinstance(o.val, Traced)]
        tasks = [o for o in evs if o.val.name == 'task']
        subs_ = [o for o in evs if o.val.name.startswith('S:')]
        for o in tasks + subs_:
            if o.binders: raise Undecided('tasks in a loop')
        vals_of = {}
        for p, k in sub.params:
            if k == 'H': vals_of[p] = (p, Z)
            elif k == 'V': vals_of[p] = ('vec', p)
            elif k == 'S': vals_of[p] = sym(p, 'R')
            else: vals_of[p] = sym(p)
        Tn = T_ if T_ in ('float', 'double') else 'float'
        spec = spec_calls(sub, vals_of, Tn, hy, ex)
        vc(v12, 'at most one task is submitted', TRUE if len(tasks) + len(subs_) <= 1 else FALSE, tasks[-1].line if tasks else 0)
        label = ' '.join([spec[0].K.name]) if spec else 'nothing'
        if subs_ and not tasks:
            o = subs_[0]
            dels = delegated(o, sub, T_, hy, ex, vc, v12)
            vc(v12, 'the delegated submission is made', o.guard, o.line)
            v12 += effect_vcs(ex, st, fname, dels, spec, label, o.line)
            continue
        if not tasks:
            v12 += effect_vcs(ex, st, fname, [], spec, label, 0)
            continue
        t = tasks[0]
        vc(v12, 'the task is submitted', t.guard, t.line)
        if any(o.val.name == 'nocpu' for o in evs):
            if cpu: vc(v12, 'the codelet has a worker function for the submitted precision', FALSE, t.line)
            continue
        for o in evs:
            if o.val.name == 'worker' and ta:
                wt = [x for x in o.val.targs if x]
                if wt: vc(v12, 'the worker runs in the submitted precision', TRUE if wt[0] == T_ else FALSE, o.line)
            if o.val.name == 'access':
                h = o.val.args[0].data[0]; ty = o.val.args[1].data[0]
                if ta or ty not in ('void', 'char'):
                    vc(v12, 'buffer %s is accessed with the type of its elements' % h, TRUE if ty in (expected_type(sub, h, T_), 'void', 'char') else FALSE, o.line)
            if o.val.name.startswith(('B:', 'P:')) and ta:
                prec = o.val.targs[0] if o.val.targs else o.val.name[2:]
                vc(v12, 'the BLAS routine has the submitted precision', TRUE if prec == T_ else FALSE, o.line)
        kev = [o for o in evs if o.val.name.startswith(('K:', 'L:', 'B:'))]
        direct = [r for r, a in st.mem.items() if r.kind not in ('local', 'heap') and a.ops and not r.name.startswith('vec:')]
        for o in kev:
            if o.val.name.startswith('K:') and ta and o.val.targs and T_ != 'fp16':
                w = [tname(x) for x in o.val.targs]
                vc(v12, 'the kernel runs in the submitted precision', TRUE if w[0] == T_ else FALSE, o.line)
        try: calls = [to_call(o, T_) for o in kev]
        except Mismatch as x:
            vc(v12, str(x), FALSE, t.line); continue
        done = False
        if len(calls) == 1 and len(spec) == 1 and not direct and calls[0].K is spec[0].K:
            try: goals = arg_goals(calls[0], spec[0], ex, T_, sub)
            except Mismatch as x: goals = [(str(x), FALSE)]
            mp = widen(hy)
            good = [subst(g, mp) is TRUE or ex.prove([subst(h, mp) for h in hy], subst(g, mp), quick=False) for _, g in goals]
            if all(good) or calls[0].K.name in ('gemm', 'randn', 'randn.cpu_ndim0', 'subcopy', 'maxsumexp') or not has_outs(calls[0]):
                for nm, g in goals: vc(v12, 'argument %s of %s is the submitted one' % (nm, calls[0].K.name), g, calls[0].line)
                done = True
            else:
                try: v12 += effect_vcs(ex, st, fname, calls, spec, label, calls[0].line); done = True
                except Undecided:
                    for nm, g in goals: vc(v12, 'argument %s of %s is the submitted one' % (nm, calls[0].K.name), g, calls[0].line)
                    done = True
        if not done:
            v12 += effect_vcs(ex, st, fname, calls, spec, label, t.line)
        modes_vcs(ex, st, sub, t, calls, direct, spec, vc, v13, hy)
    return v12, v13


def delegated(o, sub, T_, hy, ex, vc, v12):
    """canonical executions of the operation another submit is delegated to"""
    op = o.val.name[2:]
    ks = []
    for a in o.val.args:
        if isinstance(a, LObj): ks.append('V' if ex.H(a)['cls'] == 'vec' else 'Q')
        elif isinstance(a, Opaque) and a.kind == 'handle': ks.append('H')
        elif isinstance(a, T): ks.append('S' if a.sort == 'R' else 'I')
        else: ks.append('?')
    for s in SUBS.get(op, ()):
        w = ['I' if k in 'RUM' else k for _, k in s.params]
        if w == ks:
            vals = {}
            for (p, k), a in zip(s.params, o.val.args):
                if k == 'H': vals[p] = (a.data[0], Z)
                elif k == 'V': raise Undecided('delegated vectors')
                elif k == 'Q': vals[p] = ex.load(LField(a.oid, 'value'))
                else: vals[p] = a
            if o.val.targs: vc(v12, 'the delegated submission has the same precision', TRUE if tname(o.val.targs[0]) == T_ else FALSE, o.line)
            return spec_calls(s, vals, T_, hy, ex)
    raise Undecided('delegated submission ' + op)


# ------------------------------------------------------------------ access modes
def coverage(c, buf, hy, ex):
    """every element of the buffer is written by the contract of the kernel"""
    K = c.K
    if K.name in sspec.FULL: return TRUE
    if K.name in PARTIAL_: return FALSE
    e = Env({p.name: (c.vals[p.name] if isinstance(c.vals.get(p.name), T) else sym(p.name)) for p in K.params if p.kind in 'ISGUQ'}, {p.name: p.sort for p in K.params if p.kind in 'CW'})
    P_ = [p for p in K.params if p.name == buf][0]
    n = P_.length(e)
    tot = Z
    for o in K.outs(e):
        if o.buf != buf: continue
        t = ONE
        for b in o.box: t = t * b
        tot = tot + t
    # the families of an output are injective and disjoint (proved with the kernel's frame condition); then
    # as many writes as elements means all elements
    return eq(tot, n)


def modes_vcs(ex, st, sub, t, calls, direct, spec, vc, out, hy):
    a = t.val.args[1:]
    slots = [(a[i].data[0], a[i + 1]) for i in range(0, len(a), 2)]
    use = {}
    for c in calls:
        if c.K.name == 'gemm' and '_cblas' in c.vals:
            v = c.vals['_cblas']
            c = Call(c.K, dict(A=ptr_of(v[7]), B=ptr_of(v[9]), C=ptr_of(v[12]), alpha=toreal(v[6]), beta=toreal(v[11])), c.line)
        for p in c.K.params:
            if p.kind in 'CWX' and isinstance(c.vals.get(p.name), tuple): use.setdefault(c.vals[p.name][0], []).append((c, p))
    names = [h for h, m in slots]
    vc(out, 'every handle appears once in the task', TRUE if len(set(names)) == len(names) else FALSE, t.line)
    for h, m in slots:
        us = use.get(h, [])
        reads = [u for u in us if u[1].kind == 'C']
        writes = [u for u in us if u[1].kind == 'W' and modifies(u[0].K, u[1].name)]
        reads += [u for u in us if u[1].kind == 'W' and not modifies(u[0].K, u[1].name)]
        dw = any(r.name == h for r in direct)
        if sub.mode == h:
            # the caller chooses the mode
            want = sym('mode')
            vc(out, 'the access mode of %s is the requested one' % h, eq(m, want) if isinstance(m, T) else FALSE, t.line, hyps=hy + [eq(mk('fn', ('narrow32', want), 'I'), want)])
            continue
        if not (isinstance(m, T) and isnum(m)):
            raise Undecided('access mode %s of %s' % (m, h))
        mv = int(m.args[0])
        scratch = [u for u in us if u[1].kind == 'X']
        if mv == SCR:
            vc(out, 'only temporary buffers are declared as scratch (%s)' % h, TRUE if not reads and not writes and not dw else FALSE, t.line); continue
        if mv & ~(RW_ | RDX | COM) or mv in (0,):
            vc(out, 'the access mode of %s is a valid one' % h, FALSE, t.line); continue
        if writes or dw: vc(out, 'modified buffer %s is declared writable' % h, TRUE if mv & (W_ | RDX) else FALSE, t.line)
        if scratch: vc(out, 'temporary buffer %s is declared writable' % h, TRUE if mv & W_ else FALSE, t.line)
        if reads and not writes: vc(out, 'buffer %s, which is read, is declared readable' % h, TRUE if mv & R_ else FALSE, t.line)
        if mv & RDX or (mv & COM):
            kind = sub.redux if mv & RDX else (sub.redux or 'add')
            acc_vcs(ex, sub, h, mv, writes, reads, kind, vc, out, hy, t)
            continue
        if writes and not mv & R_:
            # the old content must not matter
            if reads: vc(out, 'buffer %s, which is read, is declared readable' % h, FALSE, t.line)
            c, p = writes[0]
            vc(out, 'write-only buffer %s: its old content is not read' % h, unread(c, p.name), t.line)
            vc(out, 'write-only buffer %s: every element is written' % h, coverage(c, p.name, hy, ex), t.line)
        if dw and not writes and not mv & R_:
            for r in direct:
                if r.name != h: continue
                ok = all(not depends(op.val, h) for op in st.mem[r].ops)
                vc(out, 'write-only buffer %s: its old content is not read' % h, TRUE if ok else FALSE, t.line)


def modifies(K, buf):
    """does the contract of the kernel let it change the buffer"""
    if K.name in ('randn', 'randn.cpu_ndim0', 'subcopy'): return True
    e = Env({p.name: sym(p.name, 'R' if p.kind == 'S' else 'I') for p in K.params if p.kind in 'ISGUQ'}, {p.name: p.sort for p in K.params if p.kind in 'CW'})
    return any(o.buf == buf for o in K.outs(e))


def unread(c, buf):
    alts = []
    for sc, b in c.K.noread:
        if b != buf: continue
        if sc is None: return TRUE
        if '=' in sc:
            x, n = sc.split('='); v = c.vals[x]
            alts.append(eq(v, num(int(n), v.sort)))
        else: alts.append(eq(c.vals[sc], num(0, 'R')))
    return Or(*alts) if alts else FALSE


def depends(t, buf):
    return any(x.op == 'sel' and x.args[0] == buf for x in subterms(t))


def acc_vcs(ex, sub, h, mv, writes, reads, kind, vc, out, hy, t):
    """reduction or commutative access: the update must be an accumulation  old (+) contribution"""
    what = 'reduction' if mv & RDX else 'commutative'
    if not mv & RDX and (mv & RW_) != RW_:
        vc(out, '%s access of %s is readable and writable' % (what, h), FALSE, t.line); return
    if reads or len(writes) != 1:
        vc(out, '%s buffer %s is only accumulated to' % (what, h), FALSE, t.line); return
    c, p = writes[0]
    if kind is None:
        vc(out, '%s access of %s: the operation accumulates' % (what, h), FALSE, t.line); return
    if kind == 'maxsumexp':
        # update of a (maximum, scaled sum) pair: order independence is the contract of accumulate_maxsumexp (C08)
        vc(out, '%s access of %s: accumulation of maximum and sum of exponents' % (what, h), TRUE if c.K.name in ('maxsumexp', 'accumulate_maxsumexp') else FALSE, t.line); return
    d = {q.name: c.vals[q.name] for q in c.K.params if q.kind in 'ISUQ' and isinstance(c.vals.get(q.name), T)}
    for q in c.K.params:
        if q.kind in 'IGQ': d.setdefault(q.name, sym('_' + q.name))
    e = Env(d, {q.name: q.sort for q in c.K.params if q.kind in 'CW'})
    e = Env(dict(d), {q.name: q.sort for q in c.K.params if q.kind in 'CW'})
    for o in c.K.outs(e):
        if o.buf != p.name: continue
        bs = [fresh('x%d' % i) for i in range(len(o.box))]
        hyb = hy + [And(ge(b, Z), lt(b, n)) for b, n in zip(bs, o.box)]
        off = o.off(*bs)
        if o.val is None: raise Undecided('accumulation of ' + c.K.name)
        val = toreal(o.val(*bs))
        old = sel(p.name, off)
        z = mk('sym', ('other old value',), 'R')
        sw = lambda tt, w: subst_sel(tt, p.name, off, w)
        if kind == 'add': goal = eq(val - old, sw(val, z) - z)
        elif kind == 'hypot': goal = eq(val * val - old * old, sw(val, z) * sw(val, z) - z * z)
        else: raise Undecided('reduction ' + kind)
        vc(out, '%s access of %s: the update adds a contribution that does not depend on the old content' % (what, h), goal, t.line, hyps=hyb)


def subst_sel(t, buf, off, w):
    a = sel(buf, off)
    return subst(t, {a: w})
