"""API-level proofs: elementwise copies, factories, reductions."""
import z3
from . import logic as L, model as M
from .logic import I, sel, simp, isnum
from .engine import *
from .model import T, TI, LY, SL
from .tasks_a import Task, find
from .tasks_b import *

A = M.A_LAYER
FALSE = z3.BoolVal(False)


def mem(p, name, n=None, pred=None): return find(p, TN + '::' + name, n, pred)


def handles(d): return all('Tensor' in x.s for x in d['pt'])


def t_elementwise(key, what, dt, out, fspec, member=True, cls=None, contig=True, dtarg=None, rgmode='same', pre=None):
    """result has the operand's sizes, dtype `out` and fspec(element) at every index"""
    def f(run):
        a = M.tensor(run, 'a', dt); g = run.fresh('g', L.Int)
        if pre: pre(run, a)

        def spec(X, m, t, d):
            return None if d != out else fspec(run, elem(run, a, dt, X))
        run.ghost['map'] = [M.Map(g, spec)]
        rg = a.rg; args = []
        if dtarg is not None: args = [IV(DTS.index(dtarg))]
        h = facade(run, a, 'a')
        try: v = call(run, key, h if member else None, args if member else [h] + args)
        except CppThrow as ex:
            thrown(run, ex, 'a rejected ' + what); M.frame(run, 'a rejected ' + what)
            run.oblige('%s throws only for a tensor that requires grad and an integer dtype' % what, z3.And(rg, z3.BoolVal(dtarg is not None and dtarg[0] == 'i'))); return
        if dtarg is not None and dtarg[0] == 'i': run.oblige('%s rejects a tensor that requires grad' % what, z3.Not(rg))
        t = impl(run, v); w = 'result of ' + what
        s, n = a.s, a.n
        oblige_sizes(run, t, w, s, n)
        M.oblige_wf(run, t, w, out); oblige_fresh(run, t, w)
        j = run.fresh('j', L.Int)
        if contig: run.oblige(w + ' is contiguous', z3.Implies(z3.And(0 <= j, j < n), z3.And(sel(t.S, j) == L.Wt(t.s, t.n, j + 1), t.off == 0)))
        X = L.unrank(s, n, g)
        run.oblige(w + ' holds the right element at every index', z3.Implies(z3.And(0 <= g, g < L.Wt(s, n, I(0))), t.at(out, X) == spec(X, n, t, out)))
        run.oblige(w + ' requires grad exactly when its operand does', t.rg == rg)
        run.oblige(w + ' has no gradient yet', t.grad == 0)
        if cls: oblige_fn(run, t, w, cls, [a.ref], rg)
        M.frame(run, what)
    return f


def t_same(key, what, dt):
    """type(dtype) is the tensor itself"""
    def f(run):
        a = M.tensor(run, 'a', dt); rg = a.rg
        if dt[0] == 'i': run.assume(z3.Not(rg))
        v = call(run, key, facade(run, a, 'a'), [IV(DTS.index(dt))])
        run.oblige('type to the same dtype returns the same tensor', run.hget(TN + '.fptr', v.ref, L.Int) == a.ref)
        M.frame(run, 'type')
    return f


def t_neg(key, dt):
    def f(run):
        a = M.tensor(run, 'a', dt); g = run.fresh('g', L.Int); s, n = a.s, a.n

        def spec(X, m, t, d): return None if d != dt else scalar(run, '-', IV(0, 0, 0), 'i8', elem(run, a, dt, X), dt, dt)
        run.ghost['map'] = [M.Map(g, spec)]
        rg = a.rg
        v = call(run, key, facade(run, a, 'a'), [])
        t = impl(run, v); w = 'result of unary -'
        oblige_sizes(run, t, w, s, n); M.oblige_wf(run, t, w, dt); oblige_fresh(run, t, w)
        X = L.unrank(s, n, g)
        run.oblige(w + ' holds 0 - element at every index', z3.Implies(z3.And(0 <= g, g < L.Wt(s, n, I(0))), t.at(dt, X) == spec(X, n, t, dt)))
        run.oblige(w + ' requires grad exactly when its operand does', t.rg == rg)
        M.frame(run, 'unary -')
    return f


def t_detach(key, dt):
    def f(run):
        a = M.tensor(run, 'a', dt); h = facade(run, a, 'a')
        s, n, S, off, st = a.s, a.n, a.S, a.off, a.st
        v = call(run, key, h, [])
        t = impl(run, v); w = 'detach()'
        run.oblige(w + ' shares the storage', t.st == st); oblige_sizes(run, t, w, s, n)
        M.oblige_wf(run, t, w, dt)
        g = run.fresh('g', L.Int); X = L.unrank(s, n, g)
        run.oblige(w + ' has the same element at every index', z3.Implies(z3.And(0 <= g, g < L.Wt(s, n, I(0))), t.slot(X) == off + L.dot(S, X, n)))
        run.oblige(w + ' does not require grad', z3.Not(t.rg)); run.oblige(w + ' has no history', z3.And(t.gradfn == 0, t.grad == 0))
        M.frame(run, 'detach')
    return f


def t_query(p):
    def num(key):
        def f(run):
            a = M.tensor(run, 'a'); v = call(run, key, facade(run, a, 'a'), [])
            run.oblige('numel() is the number of elements', v.t == L.Wt(a.s, a.n, I(0))); M.frame(run, 'numel')
        return f

    def dim(key):
        def f(run):
            a = M.tensor(run, 'a'); v = call(run, key, facade(run, a, 'a'), [])
            run.oblige('dim() is the number of dimensions', v.t == a.n); M.frame(run, 'dim')
        return f

    def typ(key):
        def f(run):
            a = M.tensor(run, 'a'); v = call(run, key, facade(run, a, 'a'), [])
            run.oblige('type() is the dtype', v.t == a.dtype); M.frame(run, 'type()')
        return f

    def siz(key):
        def f(run):
            a = M.tensor(run, 'a'); v = run.val(call(run, key, facade(run, a, 'a'), [])); j = run.fresh('j', L.Int)
            run.oblige('size() has one entry per dimension', v.n == a.n)
            run.oblige('size() holds the sizes', z3.Implies(z3.And(0 <= j, j < a.n), sel(v.a, j) == sel(a.s, j))); M.frame(run, 'size')
        return f

    def stri(key):
        def f(run):
            a = M.tensor(run, 'a')
            try: v = run.val(call(run, key, facade(run, a, 'a'), []))
            except CppThrow: run.oblige('stride() does not throw', FALSE); return
            j = run.fresh('j', L.Int)
            run.oblige('stride() has one entry per dimension', v.n == a.n)
            run.oblige('stride() holds the strides', z3.Implies(z3.And(0 <= j, j < a.n), sel(v.a, j) == sel(a.S, j))); M.frame(run, 'stride')
        return f

    def rg(key):
        def f(run):
            a = M.tensor(run, 'a'); v = call(run, key, facade(run, a, 'a'), [])
            run.oblige('requires_grad() reports the flag', v.t == a.rg); M.frame(run, 'requires_grad()')
        return f
    out = []
    for nm, mk, ks in (('numel', num, mem(p, 'numel', 0)), ('dim', dim, mem(p, 'dim', 0)), ('type()', typ, mem(p, 'type', 0)), ('size()', siz, mem(p, 'size', 0)), ('stride()', stri, mem(p, 'stride', 0)), ('requires_grad()', rg, mem(p, 'requires_grad', 0))):
        for k in ks: out.append(Task('Tensor::' + nm, mk(k), k, A, group='query', opaque=True))
    return out


def t_contig(key):
    def f(run):
        a = M.tensor(run, 'a', inj=False); s, n, S = a.s, a.n, a.S
        b63 = M.B63; jj = z3.Int('j!ct')
        run.assume(M.qall([jj], z3.And(S[jj] >= -b63, S[jj] < b63), [S[jj]]))
        run.eng.assumed.add('products of the sizes of one tensor are below 2^63')
        run.assume(M.qall([jj], z3.And(L.Wt(s, n, jj) >= 0, L.Wt(s, n, jj) < b63), [L.Wt(s, n, jj)]))
        rowmajor = lambda j: S[j] == L.Wt(s, n, j + 1)
        run.ghost['preds'] = [('row', I(0), n, rowmajor, lambda j: [S[j]])]; run.ghost['vecs'] = [('s', VV(n, s, 'INNC::SizeVec'))]
        j = run.fresh('j', L.Int); run.assume(z3.And(0 <= j, j < n))
        allrow = run.fresh('allrow', L.Bool)
        run.assume(z3.Implies(allrow, M.qall([jj], z3.Implies(z3.And(0 <= jj, jj < n), rowmajor(jj)), [S[jj]])))
        v = call(run, key, facade(run, a, 'a'), [])
        run.oblige('is_contiguous() holds only for row-major strides', z3.Implies(v.t, sel(S, j) == L.Wt(s, n, j + 1)))
        run.oblige('is_contiguous() holds for row-major strides', z3.Implies(allrow, v.t))
        M.frame(run, 'is_contiguous')
    return f


def absval(dt):
    def fs(run, x):
        ct = cty(run.prog, dt)
        if dt[0] == 'f': return z3.If(x.t >= 0, x.t, fneg(int(dt[1:]), x.t)) if not run.math else z3.If(x.t >= 0, x.t, -x.t)
        pt = cty(run.prog, 'i64' if dt == 'i64' else 'i32')
        y = run.conv(run.arith('-', IV(0, 0, 0), run.conv(x, ct, pt), pt), pt, ct)
        return z3.If(x.t >= 0, x.t, run.wrapped(y, ct))
    return fs


# ---------------------------------------------------------------- factories
def t_factory(key, what, dt, args, value, shape=None):
    """a fresh tensor of the given sizes and dtype with value(X) at every index"""
    def f(run):
        g = run.fresh('g', L.Int)
        s, n, aa, val_ = args(run)
        def spec(X, m, t, d): return None if d != dt else val_(X)
        run.ghost['map'] = [M.Map(g, spec)]
        run.assume(L.Wt(s, n, I(0)) * 8 < M.B63)
        v = call(run, key, None, aa)
        t = impl(run, v); w = what
        oblige_sizes(run, t, w, s, n); M.oblige_wf(run, t, w, dt); oblige_fresh(run, t, w)
        X = L.unrank(s, n, g)
        if val_ is not None: run.oblige(w + ' holds the specified value at every index', z3.Implies(z3.And(0 <= g, g < L.Wt(s, n, I(0))), t.at(dt, X) == val_(X)))
        run.oblige(w + ' does not require grad', z3.Not(t.rg)); run.oblige(w + ' has no history and no gradient', z3.And(t.gradfn == 0, t.grad == 0))
        M.frame(run, what)
    return f


def const_term(dt, k): return I(k) if dt[0] == 'i' else z3.RealVal(k)


def tasks(p):
    out = []
    def add(name, ks, mk, grp, **kw):
        if not ks: out.append(Task(name, missing(name), None, A, group=grp))
        for i, k in enumerate(ks): out.append(Task(name + ('' if i == 0 else '#%d' % i), mk(k), k, A, group=grp, opaque=kw.pop('opaque', True), **kw))
    for dt in DTS:
        add('unary -(%s)' % dt, mem(p, 'operator-', 0), lambda k: t_neg(k, dt), 'neg')
        add('clone(%s)' % dt, mem(p, 'clone', 0), lambda k: t_elementwise(k, 'clone()', dt, dt, lambda run, x: x.t, cls='INNC::CloneBack'), 'copy')
        add('contiguous(%s)' % dt, mem(p, 'contiguous', 0), lambda k: t_elementwise(k, 'contiguous()', dt, dt, lambda run, x: x.t, cls='INNC::CloneBack'), 'copy')
        add('abs(%s)' % dt, mem(p, 'abs', 0), lambda k: t_elementwise(k, 'abs()', dt, dt, absval(dt), cls='INNC::KnownGradBack', contig=False), 'abs')
        add('detach(%s)' % dt, mem(p, 'detach', 0), lambda k: t_detach(k, dt), 'copy')
        for to in DTS:
            if to == dt: add('type(%s,%s)' % (to, dt), mem(p, 'type', 1), lambda k: t_same(k, 'type', dt), 'copy'); continue
            add('type(%s,%s)' % (to, dt), mem(p, 'type', 1), lambda k: t_elementwise(k, 'type()', dt, to, lambda run, x, dt=dt, to=to: to_mem(run, x, cty(run.prog, dt), to), cls='INNC::CloneBack', dtarg=to), 'copy')
        # factories
        for nm, c in (('zeros', 0), ('ones', 1)):
            def args(run, c=c, dt=dt):
                v = M.vecval(run, 's'); return v.a, v.n, [LTmp(v), IV(DTS.index(dt))], lambda X: const_term(dt, c)
            add('%s(%s)' % (nm, dt), mem(p, nm, 2), lambda k: t_factory(k, nm, dt, args, None), 'factory')
            def largs(run, c=c, dt=dt):
                a = M.tensor(run, 'a', dt); return a.s, a.n, [facade(run, a, 'a')], lambda X: const_term(dt, c)
            add('%s_like(%s)' % (nm, dt), mem(p, nm + '_like', 1), lambda k: t_factory(k, nm + '_like', dt, largs, None), 'factory')
        for fl in (True, False):
            def fargs(run, fl=fl, dt=dt):
                v = M.vecval(run, 's'); x = run.fresh('num', L.Real if fl else L.Int); sd = 'f64' if fl else 'i64'
                xv = FV(x) if fl else val(run, 'i64', x)
                return v.a, v.n, [LTmp(v), xv, IV(DTS.index(dt))], lambda X: to_mem(run, xv, cty(run.prog, sd), dt)
            add('full(%s,%s)' % ('double' if fl else 'int64', dt), mem(p, 'full', 3, lambda d: (d['pt'][1].c == 'float') == fl), lambda k: t_factory(k, 'full', dt, fargs, None), 'factory')
        for two in (True, False):
            def eargs(run, two=two, dt=dt):
                n = run.fresh('en', L.Int); m = run.fresh('em', L.Int) if two else n
                for q in (n, m): run.assume(z3.And(q >= 0, q < M.B63))
                a = z3.Store(z3.Store(z3.K(L.Int, I(0)), 0, n), 1, m)
                aa = [IV(n, 0, M.B63)] + ([IV(m, 0, M.B63)] if two else []) + [IV(DTS.index(dt))]
                def hint(run, lp, a=a, dt=dt):
                    from .cands import scope, cur
                    X = L.unrank(a, I(2), run.ghost['map'][0].g)
                    for it, ref in lp.mod.items():
                        if it[0] != 'h' or it[1] != 'M.' + dt or it[2] is None: continue
                        for t in M.tensors_of(run, ref):
                            for nm, c, v in scope(run, lp)[0]:
                                yield ('eye', it, c), lambda t=t, c=c: z3.Implies(z3.And(0 <= run.ghost['map'][0].g, run.ghost['map'][0].g < L.Wt(a, I(2), I(0))), sel(t.mem(dt), t.slot(X)) == z3.If(z3.And(sel(X, I(0)) == sel(X, I(1)), sel(X, I(0)) < cur(run, c).t), const_term(dt, 1), const_term(dt, 0)))
                run.ghost['hints'] = [hint]
                return a, I(2), aa, lambda X: z3.If(sel(X, I(0)) == sel(X, I(1)), const_term(dt, 1), const_term(dt, 0))
            add('eye(%s%s)' % ('n,m,' if two else 'n,', dt), mem(p, 'eye', 3 if two else 2), lambda k: t_factory(k, 'eye', dt, eargs, None), 'factory', opaque=False)
    out += t_query(p)
    add('is_contiguous', mem(p, 'is_contiguous', 0), lambda k: t_contig(k), 'query', opaque=False)
    return out


def missing(name):
    def f(run): raise Unsupported('no function for ' + name)
    return f
