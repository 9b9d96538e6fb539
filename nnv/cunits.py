"""Units of the tensor / tile layer (C14 - C19)."""
from . import kver, cver, cspec, treplay, rlib, cxx, solve
from .cpp import *
from .exec import Undecided
from .terms import *
import os, re, time, random, glob

TENSOR_PROPS = ('C14', 'C15', 'C16', 'C17', 'C18', 'C20')
PARTS = {('gemm', 'tensor'): 10, ('gemm_ex', 'tensor'): 6, ('normalize', 'tensor'): 2, ('softmax', 'tensor'): 2}
NO_CPU = {'fp32_to_fp16', 'fp16_to_fp32'}          # their codelets have no CPU implementation
# operations whose tiled form is outside the contracts; a bounded check stands in (none at present)


def table(prop):
    out = []
    if prop in TENSOR_PROPS:
        for key, O in cspec.OPS.items():
            if prop != 'C14' and O.prop != prop: continue
            for level in ('tensor', 'tile'):
                if not getattr(O, level): continue
                n = PARTS.get((key, level), 1)
                for i in range(n):
                    out.append(('%s %s%s' % (level, key, ' %d/%d' % (i + 1, n) if n > 1 else ''), OpUnit(key, level, i, n)))
    if prop == 'C19':
        for level in ('tensor', 'tile'):
            for p in sorted(glob.glob(cxx.REPO + '/src/%s/*.cc' % level)):
                nm = os.path.basename(p)[:-3]
                if nm in ('traits', 'distributions'): continue
                out.append(('%s %s' % (level, nm), WaitUnit(nm, level)))
    # long ones first
    out.sort(key=lambda t: (0 if ' gemm' in t[0] else 1, 0 if t[0].startswith('tensor') else 1))
    return out


# ------------------------------------------------------------------ equality of template instances
SKIPK = ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'FullComment', 'TemplateArgument')


def ast_sig(tu, f, ren=None):
    """shape of a function body up to the types it was instantiated for; equal shapes have equal obligations"""
    ta = cver.targs_of(f)
    ren = {}
    for t in ta:
        if t: ren[t] = 'T'; ren[t.replace('nntile::', '')] = 'T'
    pat = re.compile('|'.join(r'\b%s\b' % re.escape(t) for t in sorted(ren, key=len, reverse=True))) if ren else None
    sub = lambda s: pat.sub(lambda m: ren[m.group(0)], s) if (pat and s) else s
    ids = {}
    def go(n):
        if not isinstance(n, dict) or 'kind' not in n: return ()
        k = n['kind']
        if k in ('FullComment', 'TemplateArgument'): return ()
        kids = tuple(x for x in (go(c) for c in n.get('inner', ())) if x != ())
        if k in SKIPK and len(kids) == 1: return kids[0]
        if k == 'ImplicitCastExpr': return kids
        it = [k, n.get('opcode'), n.get('value') if k not in ('FloatingLiteral',) else str(float(n.get('value', 0))), n.get('isArrow'), n.get('castKind') if k not in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') else None]
        if k.endswith('Decl') or 'Cast' in k or k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'UnaryExprOrTypeTraitExpr', 'CXXUnresolvedConstructExpr'):
            it.append(sub((n.get('type') or {}).get('qualType')))
            if k.endswith('Decl'):
                ids[n.get('id')] = len(ids)
                it.append(n.get('name'))
        r = n.get('referencedDecl') or n.get('foundReferencedDecl')
        if r:
            d = tu.decls.get(r.get('id'))
            if d is not None and d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                it.append(tu.quals.get(r['id']))
                it.append(tuple(sub(c.get('type', {}).get('qualType') or str(c.get('value'))) for c in d.get('inner', ()) if c.get('kind') == 'TemplateArgument'))
                if tu.body(d) is not None and tu.quals.get(r['id'], '').startswith('nntile') and 'starpu::' not in tu.quals.get(r['id'], '') and r['id'] not in ids:
                    ids[r['id']] = len(ids); it.append(go(tu.body(d)))
            else: it.append(r.get('name')); it.append(ids.get(r.get('id')))
        if n.get('referencedMemberDecl'):
            m = tu.decls.get(n['referencedMemberDecl'])
            it.append(n.get('name')); it.append(m.get('name') if m else None)
        return (tuple(it),) + kids
    return tuple(go(c) for c in tu.params(f)) + (go(tu.body(f)),)


def instances(tu, fs):
    """one representative per shape; (representatives, covered instances)"""
    seen = {}
    for f in fs:
        s = ast_sig(tu, f)
        seen.setdefault(s, []).append(f)
    # the instance with the most different types is verified: it does not confuse the template parameters
    return [(max(l, key=lambda x: len(set(cver.targs_of(x)))), [cver.targs_of(x) for x in l]) for l in seen.values()]


class OpUnit(object):
    def __init__(self, key, level, part=0, nparts=1): self.key = key; self.level = level; self.part = part; self.nparts = nparts

    def __call__(self, r, prop, tier, seed):
        O = cspec.OPS[self.key]
        solve.CROSS = False
        tile = self.level == 'tile'
        qn = 'nntile::%s::%s_async' % (self.level, O.fn)
        tu = cver.op_tu(self.level, O.fn)
        fs = cver.find_fn(tu, self.level, O)
        if not fs:
            r.undecided.append((qn, 'no function with this signature')); 
        failed = []; und = []
        mr = O.maxrank + (1 if tier == 'thorough' and 'gemm' not in O.fn else 0)
        for f, covered in instances(tu, fs):
            fn = '%s<%s>' % (qn.replace('nntile::', ''), ' | '.join(','.join(map(str, t)) for t in covered))
            cs = cver.cases(O, tile, mr)
            # heavy combinations are spread over the parts
            val = [c for c in cs if c.combo]; inv = [c for c in cs if not c.combo]
            cs = val[self.part::self.nparts] + inv[self.part::self.nparts]
            for c in cs:
                try: c14, main, paths, ex = cver.verify_case(O, self.level, tu, f, c)
                except (Undecided, TooBig, RecursionError) as x:
                    und.append('%s [%s]' % (x, c.label)); continue
                for v in (c14 if prop == 'C14' else main):
                    ok = v.run()
                    r.obl.append((fn, v.name, v.kind, ok, v.by, v.t, str(v.why)[:200]))
                    if not ok: failed.append(v)
                if len(failed) + len(und) > 60: break
        if not fs: und.append('no function with this signature')
        aspect = 'c14' if prop == 'C14' else 'result'
        run_replay(self, r, prop, O, self.level, aspect, tier, seed, failed, und, qn, light=self.part == 0)


def run_replay(u, r, prop, O, level, aspect, tier, seed, failed, und, qn, light=True):
    viol = None
    n = 0
    if O.move:
        if light or failed or und:
            from . import gunits
            viol, n = gunits.move_run(r, O.move[level], seed, {'c14': 'accept', 'result': 'values', 'wait': 'wait'}[aspect], (20000 if failed or und else 3000) if tier == 'quick' else 100000, 120 if tier == 'quick' else 1500)
            r.evaluations += n
            if viol: viol = dict(viol, message=viol['what'], input=viol['case'])
    elif aspect != 'c14' and O.fn in NO_CPU: pass
    elif light or failed or und:
        try: exe = treplay.compile_op(O)
        except cxx.FrontEndError as x:
            r.undecided.append((qn, 'replay harness: %s' % str(x)[:200])); exe = None
        if exe is None:
            if rlib.LIB is not None and os.path.exists(rlib.LIB + '/failed'): r.undecided.append((qn, 'the library does not build on the stand-in runtime: ' + open(rlib.LIB + '/failed').read()[:300]))
        else:
            deep = failed or und
            num_ = (2000 if deep else 60) if tier == 'quick' else 6000
            n, viol, samples = treplay.replay(O, exe, seed, num_, aspect, [level == 'tile'])
            r.evaluations += n; r.samples += samples
    if viol:
        r.violations.append(dict(key='%s:%s:%s' % (level, O.key, viol['message'][:40]), confirmed=True, message='%s: %s at %s' % (qn, viol['message'], viol['input']), data=viol,
                                 obligations=[dict(name=v.name, line=v.line) for v in failed][:10] or und[:5]))
        return
    if und:
        r.undecided.append((qn, '%d combinations: %s' % (len(und), und[0])))
        r.bounded.append('%s: %s; bounded check: %d executions on random shapes, tilings and scalars of rank <= %d' % (qn, und[0][:200], n, O.maxrank + 1))
    for v in failed[:3]:
        r.violations.append(dict(key='%s:%s:%s' % (level, O.key, re.sub(r' \[.*', '', v.name)[:60]), confirmed=False, message='obligation not discharged: %s, %s (line %d)' % (v.fn, v.name, v.line),
                                 data=dict(hyps=[str(h) for h in v.hyps][:60], goal=str(v.goal)[:4000], solver=str(v.why)[:2000], replays=n)))


# ------------------------------------------------------------------ blocking forms
class WaitUnit(object):
    def __init__(self, nm, level): self.nm = nm; self.level = level

    def __call__(self, r, prop, tier, seed):
        solve.CROSS = False
        tu = cxx.TU('src/%s/%s.cc' % (self.level, self.nm))
        ns = 'nntile::%s::' % self.level
        fs = [f for f in tu.functions() if tu.body(f) is not None and not tu.is_pattern(f) and f['kind'] == 'FunctionDecl'
              and tu.quals.get(f['id'], '').startswith(ns) and tu.quals[f['id']].count('::') == 2 and not f.get('name', '').endswith('_async')
              and tu.find(tu.quals[f['id']] + '_async')]
        failed = []; und = []
        if not fs: und.append('no blocking function found')
        for f, covered in instances(tu, fs):
            nm = f['name']
            fn = '%s::%s<%s>' % (self.level, nm, ' | '.join(','.join(map(str, t)) for t in covered))
            ex = CppExec(tu); ex.async_contracts = True
            try: paths = kver.run_function(ex, f, lambda: self.bind(ex, f))
            except (Undecided, TooBig, RecursionError) as x:
                und.append('%s: %s' % (nm, x)); continue
            vcs = []
            for kind, val, st, params in paths:
                hy = st.hyps()
                if kind == 'throw': vcs.append(cver.DVC(fn, 'the blocking form of %s does not refuse what the asynchronous form accepts' % nm, hy, FALSE, val, 'post')); continue
                evs = [o for o in st.trace if isinstance(o.val, Traced)]
                calls = [o for o in evs if o.val.name.startswith('call:')]
                others = [o for o in evs if not o.val.name.startswith('call:') and o.val.name != 'wait_for_all' and not o.val.name.startswith('tensor.')]
                good = len(calls) == 1 and not calls[0].binders and calls[0].val.name == 'call:' + ns + nm + '_async' and not others
                vcs.append(cver.DVC(fn, '%s submits the tasks of %s_async, once' % (nm, nm), hy, calls[0].guard if good else FALSE, line(f), 'post'))
                if good:
                    a = calls[0].val.args
                    ta = cver.targs_of(f)
                    vcs.append(cver.DVC(fn, '%s_async is called for the same types' % nm, hy, TRUE if tuple(calls[0].val.targs) == tuple(str(x) for x in ta) else FALSE, calls[0].line, 'post'))
                    vcs.append(cver.DVC(fn, '%s_async gets the arguments of %s' % (nm, nm), hy, And(*[same_arg(x, y) for x, y in zip(a, params)]) if len(a) == len(params) else FALSE, calls[0].line, 'post'))
                k = max([i for i, o in enumerate(evs) if o.val.name != 'wait_for_all'], default=-1)
                w = [o.guard for o in evs[k + 1:] if o.val.name == 'wait_for_all' and not o.binders]
                vcs.append(cver.DVC(fn, '%s waits for all tasks after the submission' % nm, hy, Or(*w) if w else FALSE, line(f), 'post'))
            for v in vcs:
                ok = v.run()
                r.obl.append((fn, v.name, v.kind, ok, v.by, v.t, str(v.why)[:200]))
                if not ok: failed.append(v)
        keys = [k for k, O in cspec.OPS.items() if O.fn == self.nm and getattr(O, self.level)]
        if keys:
            run_replay(self, r, prop, cspec.OPS[keys[0]], self.level, 'wait', tier, seed, failed, und, 'nntile::%s::%s' % (self.level, self.nm))
        else:
            if (failed or und) and self.nm == 'copy_intersection':
                from . import gunits
                b, n = gunits.move_run(r, 'tensor_copy_intersection', seed, 'wait', 20000, 120)
                r.evaluations += n
                if b:
                    r.violations.append(dict(key='%s:%s' % (self.nm, b['what'][:40]), confirmed=True, message='%s; %s' % (b['what'], b['case']), data=b)); return
            if und: r.undecided.append((self.nm, und[0]))
            for v in failed[:3]:
                r.violations.append(dict(key='%s:%s:%s' % (self.level, self.nm, v.name[:60]), confirmed=False, message='obligation not discharged: %s, %s (line %d)' % (v.fn, v.name, v.line),
                                         data=dict(goal=str(v.goal))))

    def bind(self, ex, f):
        ps = []
        for q in ex.tu.params(f):
            s = sort_of(tyof(q))
            v = sym(q['name'], s) if s and not re.search(r'Tensor|Tile|vector|\*', tyof(q)) else Opaque('param', q['name'])
            ex.st.vars[q['id']] = v
            ps.append(v)
        return ps


def same_arg(x, y):
    if x is y: return TRUE
    if isinstance(x, T) and isinstance(y, T):
        if x.sort != y.sort: return FALSE
        return eq(x, y)
    if isinstance(x, Opaque) and isinstance(y, Opaque): return TRUE if (x.kind, x.data) == (y.kind, y.data) else FALSE
    return FALSE
