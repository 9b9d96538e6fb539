"""Loops that walk a box with a vector of indices and carries (odometers).

  for(i = i0; i < n; ++i) { body;  ++idx[0]; k = 0; while(idx[k] == end[k]) { idx[k] = begin[k]; ++k; ++idx[k]; } }

The invariant is inferred and then proven: with e = (e_0, ..., e_{r-1}) the mixed-radix digits of the
number t of completed iterations (radices: the extents the carries compare with), every modified index cell
and scalar v holds v0 + sum_d alpha_d*e_d.  Base: e = 0.  Step: on every path of the body the values after it
are those of the successor of e (digits below the carry become 0, the digit of the carry increases).  Values for which no
such form exists are arbitrary in every iteration.  Effects are families over the digits."""
from .terms import *
X = None                # module exec (set when that is loaded)

Z = num(0); ONE = num(1)
MAXCELLS = 16


def subscripts(n):
    if not isinstance(n, dict): return False
    return n.get('kind') in ('ArraySubscriptExpr', 'CXXOperatorCallExpr') or any(subscripts(c) for c in n.get('inner', ()))


class Odometer(object):
    odo = ()                # symbols of the loops being processed

    odo_scan = False

    def odo_relevant(self, c, n):
        if not self.odo: return False
        if self.odo_scan and (n['kind'] == 'WhileStmt' or (n['kind'] == 'ForStmt' and subscripts(n['inner'][2]))): return True
        return any(x in o for o in self.odo for x in syms(c))

    def odometer(self, cond, inc, body, n):
        from .exec import Undecided, Infeasible, ContinueEx, BreakEx, ReturnEx, ThrowEx, Arr, Op, Ptr, same
        self.loopid += 1
        L = self.loopid
        st0 = self.st.clone(); outer = self.st
        npc0 = len(st0.pc); nobl = len(self.obl); nexp = len(self.expargs); ndiv = len(self.divs)
        M = {}; cells = {}; W = set()
        condt = [None]

        def run(vm, vc, facts):
            s = st0.clone(); s.trace = (); s.reads = ()
            for k, v in vm.items():
                if isinstance(k, tuple): s.heap[k[0]][k[1]] = v
                else: s.vars[k] = v
            for r, vs in vc.items():
                s.mem[r] = Arr(('init', 'odo'), tuple(Op('w', (), TRUE, (num(i),), v, 0) for i, v in enumerate(vs)))
            for r in W: s.mem[r] = Arr(('cur', L, r.name))
            for f in facts: s.pc.append((f, False))
            self.st = s
            c = self.as_cond(self.rv(cond))
            if c is FALSE: raise Infeasible()
            condt[0] = c
            self.assume(c)
            kind = 'norm'; val = None
            try:
                try: self.stmt(body)
                except ContinueEx: pass
                if inc is not None: self.ev(inc)
            except BreakEx: kind = 'break'
            except ReturnEx as e: kind = 'ret'; val = e.v
            except ThrowEx as e: kind = 'throw'; val = e.what
            return (kind, val, self.st)

        def cellvals(s, r):
            return [self.read(r, s.mem[r], (num(i),), s.hyps()) for i in range(int(r.length.args[0]))]

        def gen(v, nm): return fresh('%s@%d' % (nm, L), v.sort)

        # -------- A: what is modified, how the carries go
        res = None
        for _ in range(10):
            del self.obl[nobl:]; del self.expargs[nexp:]; del self.divs[ndiv:]
            gs = set()
            for v in M.values(): gs.add(v.off[-1] if isinstance(v, Ptr) else v)
            for vs in cells.values(): gs.update(vs)
            self.odo = self.odo + (gs,); sc, self.odo_scan = self.odo_scan, True
            try: res = self.explore(lambda: run(M, cells, []))
            finally: self.odo = self.odo[:-1]; self.odo_scan = sc; self.st = outer
            new = False
            for kind, val, s in res:
                for k, v in s.vars.items():
                    if k in st0.vars and k not in M and v is not st0.vars[k] and not same(v, st0.vars[k]):
                        M[k] = self.odo_generic(st0.vars[k], L, self.name_of(k)); new = True
                for o, fs in s.heap.items():
                    if o not in st0.heap: continue
                    for k, v in fs.items():
                        if (o, k) not in M and (k not in st0.heap[o] or not same(v, st0.heap[o][k])):
                            M[(o, k)] = self.odo_generic(st0.heap[o].get(k), L, str(k)); new = True
                for r, a in s.mem.items():
                    if r in st0.mem and r not in W and r not in cells and a is not st0.mem[r]:
                        new = True
                        if isinstance(r.length, T) and isnum(r.length) and r.length.args[0] <= MAXCELLS and r.sort == 'I':
                            cells[r] = [fresh('%s[%d]@%d' % (r.name, i, L)) for i in range(int(r.length.args[0]))]
                        else: W.add(r)
            if not new: break
        else: raise Undecided('loop footprint does not stabilise')
        init = {}       # generic -> initial value
        where = {}      # generic -> ('m', key) | ('c', region, i)
        for k, v in M.items():
            v0 = self._at(st0, k)
            g = v.off[-1] if isinstance(v, Ptr) else v
            init[g] = v0.off[-1] if isinstance(v0, Ptr) else v0
            where[g] = ('m', k)
        for r, vs in cells.items():
            v0 = [self.read(r, st0.mem[r], (num(i),), st0.hyps()) for i in range(len(vs))]
            for i, g in enumerate(vs): init[g] = v0[i]; where[g] = ('c', r, i)

        def final(s, g):
            w = where[g]
            if w[0] == 'm':
                v = self._at(s, w[1])
                if isinstance(v, Ptr):
                    if v.region is not M[w[1]].region: return None
                    v = v.off[-1]
                return v if isinstance(v, T) else None
            return self.read(w[1], s.mem[w[1]], (num(w[2]),), s.hyps())
        G = set(init)
        norm = [s for kind, val, s in res if kind == 'norm']
        if not norm: raise Undecided('loop without a normal path')
        pats = []
        for s in norm:
            d = {}
            for c, g in s.pc[npc0:]:
                a = self.odo_atom(c, G) if g else None
                if a is not None and a[0] not in d: d[a[0]] = a[1]
            pats.append(d)
        chains = self.odo_chains(pats)
        if not chains: raise Undecided('no carries')
        box = None
        for ch in chains:
            ext = [last - init[g] + 1 for g, last in ch]
            if box is None or len(ext) > len(box): box = ext
        hy0 = st0.hyps()
        for ch in chains:
            ext = [last - init[g] + 1 for g, last in ch]
            if len(ext) != len(box): raise Undecided('carries of different length')
            for a, b in zip(ext, box):
                if not X.same_term(a, b, self, hy0): raise Undecided('carries of different extents')
        r_ = len(box)
        for b in box:
            if set(syms(b)) & G: raise Undecided('extent changes')
            if not self.prove(hy0, ge(b, ONE)): raise Undecided('extent of the walked box not positive')
        # coefficients
        alpha = {g: [] for g in G if init[g].sort == 'I'}
        for c in range(r_):
            p = [i for i, d in enumerate(pats) if all(d.get(ch[j]) is (j < c) for ch in chains for j in range(c + 1))]
            if not p: raise Undecided('no path with a carry of length %d' % c)
            s = norm[p[0]]
            m = {ch[j][0]: ch[j][1] for ch in chains for j in range(c)}
            for g in list(alpha):
                v = final(s, g)
                d = subst(v - g, m) if v is not None and v.sort == 'I' else None
                if v is not None and v.sort == 'I' and v is not g and not (set(syms(v)) & G) and same(v, init[g]):
                    alpha[g].append(Z); continue          # starts again: does not depend on the digits from here on
                if d is None or set(syms(d)) & G: del alpha[g]; continue
                a = d
                for j in range(c): a = a + alpha[g][j] * (box[j] - 1)
                alpha[g].append(a)
        # -------- B: proof
        e = [fresh('e%d' % j) for j in range(r_)]
        facts = []
        for j in range(r_): facts += [ge(e[j], Z), lt(e[j], box[j])]
        P = [ONE]
        for b in box: P.append(P[-1] * b)
        N = P[r_]
        lin = Z
        for j in range(r_): lin = lin + e[j] * P[j]

        def inv(g, ds):
            v = init[g]
            for a, d in zip(alpha[g], ds): v = v + a * d
            return v
        loose = {}
        for g in G:
            if g not in alpha: loose[g] = fresh('any') if g.sort == 'I' else fresh('any', g.sort)
        cur = lambda g: inv(g, e) if g in alpha else loose[g]
        vm = {}
        for k, v in M.items():
            if isinstance(v, Ptr): vm[k] = Ptr(v.region, v.off[:-1] + (cur(v.off[-1]),), v.ety)
            else: vm[k] = cur(v)
        vc = {r: [cur(g) for g in vs] for r, vs in cells.items()}
        del self.obl[nobl:]; del self.expargs[nexp:]; del self.divs[ndiv:]
        # number of iterations: the condition depends on counters (alpha = a*P) only
        t = fresh('t')
        cnt = {}
        for g in alpha:
            a0 = alpha[g][0]
            if all(X.same_term(alpha[g][j], a0 * P[j], self, hy0) for j in range(r_)): cnt[g] = init[g] + a0 * t
        cg = condt[0]
        if any(g not in cnt for g in syms(cg) if g in G): raise Undecided('loop condition of an odometer')
        used = [g for g in syms(cg) if g in G]
        trip = self.trip_count(subst(cg, {g: cnt[g] for g in used}), t, hy0, n)
        # every combination of digits is reached iff trip is the product; trip == product - 1 leaves out the last
        full = None
        if X.same_term(trip, N, self, hy0): full = True
        elif X.same_term(trip, N - 1, self, hy0): full = False
        else: raise Undecided('iterations %s of a walk through %s' % (show(trip), show(N)))
        notlast = Or(*[lt(e[j], box[j] - 1) for j in range(r_)])
        if not full: facts.append(notlast)
        self.odo = self.odo + (set(e),); sc, self.odo_scan = self.odo_scan, False
        try: resB = self.explore(lambda: run(vm, vc, facts))
        finally: self.odo = self.odo[:-1]; self.odo_scan = sc; self.st = outer
        paths = []      # (state, guards, level)
        for kind, val, s in resB:
            hy = s.hyps()
            if kind in ('ret', 'throw'):
                if self.prove(hy, FALSE): continue
                raise Undecided('odometer with %s' % kind)
            lev = None
            if kind == 'break':
                if not (full and self.prove(hy, And(*[eq(e[j], box[j] - 1) for j in range(r_)]))):
                    # the guard is in terms of the counter: last iteration
                    if not (full and self.odo_is_last(hy, lin, N, e, box)): raise Undecided('odometer left before the end')
                lev = r_
            else:
                for c in range(r_ + 1):
                    m = {e[j]: box[j] - 1 for j in range(c)}
                    ok = all(eq(e[j], box[j] - 1) in hy or self.prove(hy, eq(e[j], box[j] - 1), quick=True) for j in range(c))
                    if not ok: break
                    if c == r_ or lt(e[c], box[c] - 1) in hy or self.prove(hy, lt(e[c], box[c] - 1), quick=True): lev = c; break
                if lev is None:
                    if self.prove(hy, FALSE): continue
                    raise Undecided('path of an odometer without a carry level')
                nxt = [Z] * lev + ([e[lev] + 1] + e[lev + 1:] if lev < r_ else [])
                m = {e[j]: box[j] - 1 for j in range(lev)}
                for g in G:
                    if lev == r_ and g not in used: continue
                    if g not in alpha: continue
                    v = final(s, g)
                    want = subst(inv(g, nxt), {}) if lev < r_ else subst(init[g] + alpha[g][0] * N, {})
                    d = subst(v - want, m)
                    if isnum(d) and d.args[0] == 0: continue
                    if not self.prove([subst(h, m) for h in hy], eq(d, Z)): raise Undecided('invariant of the odometer at line %d' % X.line(n))
            gd = [c for c, gg in s.pc[npc0 + len(facts):] if gg]
            paths.append((s, gd, lev))
        # -------- effects
        st = self.st
        binders = tuple((e[j], box[j]) for j in reversed(range(r_)))
        once = TRUE if full else notlast
        tr = None if full else self.odo_events(paths, e, box)
        if tr is None:
            evs = []       # [op, [path indices], position]
            for i, (s, gd, lev) in enumerate(paths):
                seen = {}
                for op in s.trace:
                    k = opkey(op)
                    seen[k] = seen.get(k, 0) + 1
                    k = (k, seen[k])
                    for x in evs:
                        if x[0] == k: x[2].append(i); break
                    else: evs.append([k, op, [i]])
            tr = []
            for k, op, ps in evs:
                gd = self.odo_guard(ps, paths)
                tr.append(op.map(lambda x: x, binders, And(once, gd)))
        st.trace = st0.trace + tuple(tr)
        reads = []
        for s, gd, lev in paths:
            for rg, off, pc in s.reads: reads.append((rg, off, pc))
        st.reads = st0.reads + tuple(reads)
        for r in W:
            ops = self.odo_writes(r, paths, e, box, binders, once, full, L)
            a = st0.mem[r]
            st.mem[r] = Arr(a.base, a.ops + tuple(ops))
        for r in cells: st.mem[r] = Arr(('init', 'after@%d@%s' % (L, r.name)))
        for k, v in M.items():
            g = v.off[-1] if isinstance(v, Ptr) else v
            w = subst(cnt[g], {t: trip}) if g in cnt and not any(lv == r_ for s, gd, lev in paths for lv in [lev]) else fresh('after', g.sort)
            if isinstance(v, Ptr): w = Ptr(v.region, v.off[:-1] + (w,), v.ety)
            if isinstance(k, tuple): st.heap[k[0]][k[1]] = w
            else: st.vars[k] = w
        st.pc = list(st0.pc)

    def odo_is_last(self, hy, lin, N, e, box):
        """the path says that the number of the iteration is the last one; the digits are then the largest"""
        return eq(lin, N - 1) in hy or any(h.op == 'eq' and h.args[0].sort == 'I' and (
            h is eq(lin, N - 1) or X.same_term(h.args[0], lin - (N - 1), self, []) or X.same_term(h.args[0], (N - 1) - lin, self, [])) for h in hy)

    def odo_generic(self, v, L, nm):
        from .exec import Ptr, Undecided
        nm = '%s@%d' % (nm, L)
        if isinstance(v, Ptr): return Ptr(v.region, v.off[:-1] + (fresh(nm),), v.ety)
        if isinstance(v, T): return fresh(nm, v.sort) if v.sort != 'B' else mk('sym', (fresh(nm).args[0],), 'B')
        raise Undecided('loop modifies non-scalar %s' % nm)

    def odo_atom(self, c, G):
        """condition -> ((cell, last value), carry?)"""
        neg = False
        if c.op == 'not': neg = True; c = c.args[0]
        if c.op not in ('eq', 'le') or c.args[0].sort != 'I': return None
        p = c.args[0]
        gs = [g for g in syms(p) if g in G]
        if len(gs) != 1: return None
        g = gs[0]
        a, b = X.lin_in(p, g)
        if a is None or not isnum(a) or abs(a.args[0]) != 1: return None
        if c.op == 'eq':
            return ((g, scale(b, Q(-1) / a.args[0])), not neg)
        if a.args[0] == 1: return ((g, 1 - b), neg)          # g <= -b; carry beyond it
        return ((g, b), not neg)                              # g >= b

    def odo_chains(self, pats):
        atoms = []
        for d in pats:
            for a in d:
                if a not in atoms: atoms.append(a)
        where = {a: frozenset(i for i, d in enumerate(pats) if a in d) for a in atoms}
        pos = {a: frozenset(i for i, d in enumerate(pats) if d.get(a)) for a in atoms}
        allp = frozenset(range(len(pats)))
        chains = []
        usedc = set()
        for h in atoms:
            if where[h] != allp or h in usedc: continue
            ch = [h]; usedc.add(h)
            while True:
                nx = [a for a in atoms if a not in usedc and where[a] == pos[ch[-1]] and pos[ch[-1]]]
                if not nx: break
                ch.append(nx[0]); usedc.add(nx[0])
            chains.append(ch)
        # a comparison that never holds on these paths is a carry only if there are no others (a single dimension)
        most = max([len(c) for c in chains] or [0])
        return [c for c in chains if len(c) == most or pos[c[0]]]

    def odo_guard(self, ps, paths):
        from .exec import Undecided
        if len(ps) == len(paths): return TRUE
        com = None
        for i in ps:
            g = set(paths[i][1])
            com = g if com is None else com & g
        for i in range(len(paths)):
            if i in ps: continue
            if not any(Not(c) in paths[i][1] for c in com): raise Undecided('effects of an odometer body')
        return And(*sorted(com, key=lambda c: c.id))

    def odo_events(self, paths, e, box):
        """events in terms of the digits after the step (e_j = last below the carry, e_level = x_level - 1),
        if they are the same for every carry; else None"""
        n = len(paths[0][0].trace)
        base = next((s for s, gd, lev in paths if lev == 0), None)
        if base is None: return None
        x = [fresh('x%d' % j) for j in range(len(e))]
        def after(op, lev):
            m = {e[j]: (box[j] - 1 if j < lev else x[j] - 1 if j == lev else x[j]) for j in range(len(e))}
            return op.map(lambda y: subst(y, m) if isinstance(y, T) else y)
        b0 = [after(o, 0) for o in base.trace]
        for s, gd, lev in paths:
            if len(s.trace) != len(b0): return None
            z = {x[j]: Z for j in range(lev)}
            f = lambda y: subst(y, z) if isinstance(y, T) else y
            for o, ob in zip(s.trace, b0):
                if o.binders or o.guard is not TRUE: return None
                if opkey(after(o, lev).map(f)) != opkey(ob.map(f)): return None
        bs = tuple((x[j], box[j]) for j in reversed(range(len(e))))
        return [o.map(lambda y: y, bs, Or(*[ge(v, ONE) for v in x])) for o in b0]

    def odo_writes(self, r, paths, e, box, binders, once, full, L):
        from .exec import Undecided, Op, cur_atoms
        lists = [list(s.mem[r].ops) for s, gd, lev in paths]
        for l in lists:
            for o in l:
                if not isinstance(o.val, T): raise Undecided('non-scalar written by an odometer')
                if cur_atoms(o.val, L) or any(cur_atoms(x, L) for x in o.off) or cur_atoms(o.guard, L): raise Undecided('odometer reads what it writes')
        out = []
        same_all = all(len(l) == len(lists[0]) for l in lists) and all(
            opkey(l[i]) == opkey(lists[0][i]) for l in lists for i in range(len(l)))
        if same_all:
            if len(lists[0]) > 1: raise Undecided('several writes of an odometer body')
            return [o.map(lambda x: x, binders, once) for o in lists[0]]
        # in terms of the digits after the step: e_j = last (j < level), e_level = x_level - 1
        if full or any(len(l) != 1 or l[0].guard is not TRUE for l in lists): raise Undecided('writes of an odometer body')
        base = next((l[0] for l, (s, gd, lev) in zip(lists, paths) if lev == 0), None)
        if base is None: raise Undecided('writes of an odometer body')
        # the same binders on every path
        for l in lists:
            o = l[0]
            if o is base: continue
            if len(o.binders) != len(base.binders): raise Undecided('writes of an odometer body')
            mp = {v: w for (v, n), (w, m) in zip(o.binders, base.binders)}
            if any(subst(n, mp) is not m or set(syms(m)) & set(e) for (v, n), (w, m) in zip(o.binders, base.binders)): raise Undecided('writes of an odometer body')
            l[0] = Op(o.kind, base.binders, TRUE, tuple(subst(y, mp) for y in o.off), subst(o.val, mp), o.line)
        if any(set(syms(m)) & set(e) for w, m in base.binders): raise Undecided('writes of an odometer body')
        x = [fresh('x%d' % j) for j in range(len(e))]
        def after(o, lev):
            m = {e[j]: (box[j] - 1 if j < lev else x[j] - 1 if j == lev else x[j]) for j in range(len(e))}
            return tuple(subst(y, m) for y in o.off), subst(o.val, m)
        off0, val0 = after(base, 0)
        for l, (s, gd, lev) in zip(lists, paths):
            off, val = after(l[0], lev)
            z = {x[j]: Z for j in range(lev)}
            for a, b in list(zip(off, off0)) + [(val, val0)]:
                a, b = subst(a, z), subst(b, z)
                if a is b: continue
                if a.op == 'sel' and b.op == 'sel' and a.args[0] == b.args[0] and all(isnum(p - q) and (p - q).args[0] == 0 for p, q in zip(a.args[1:], b.args[1:])): continue
                d = a - b
                if not (isnum(d) and d.args[0] == 0): raise Undecided('writes of an odometer differ between carries')
        bs = tuple((x[j], box[j]) for j in reversed(range(len(e))))
        return [Op('w', bs + tuple(base.binders), Or(*[ge(v, ONE) for v in x]), off0, val0, base.line)]


def valkey(v):
    if isinstance(v, T): return ('t', v.id)
    if v is None or isinstance(v, (str, int)): return v
    n = type(v).__name__
    if n == 'VecVal':
        if isnum(v.n): return ('v', n) + tuple(valkey(v.fn(num(i))) for i in range(int(v.n.args[0])))
        return ('v', n, id(v))
    if n == 'Traced': return (n, v.name, tuple(v.targs), v.line) + tuple(valkey(a) for a in v.args)
    if n == 'Opaque': return (n, v.kind) + tuple(valkey(a) for a in v.data)
    if n == 'Ptr': return (n, v.region.name) + tuple(valkey(a) for a in v.off)
    if isinstance(v, (list, tuple)): return (n,) + tuple(valkey(a) for a in v)
    return (n, repr(v))


def opkey(o):
    return (o.kind, tuple((b.id, m.id) for b, m in o.binders), valkey(o.guard), tuple(valkey(x) for x in o.off) if o.off else (), valkey(o.val), o.line)
