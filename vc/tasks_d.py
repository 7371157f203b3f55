"""API-level proofs: reductions."""
import z3
from . import logic as L, model as M
from .logic import I, sel, simp, isnum
from .engine import *
from .model import T, TI, LY, SL
from .tasks_a import Task, find
from .tasks_b import *
from .tasks_c import mem, missing, const_term, FALSE, A


# ---------------------------------------------------------------- sum and mean
def fold_fn(dt, out):
    """fold(M, off, S, s, n, k): row-major left-to-right sum of the first k elements, in the accumulator type"""
    es = L.IA if dt[0] == 'i' else L.RA; os = L.Int if out[0] == 'i' else L.Real
    nm = 'fold.%s.%s' % (dt, out); f = z3.Function(nm, es, L.Int, L.IA, L.IA, L.Int, L.Int, os)

    def gen(t):
        m, off, S, s, n, k = t.children(); k1 = simp(k - 1)
        e = sel(m, simp(off + L.dot(S, L.unrank(s, n, k1), n))); p = f(m, off, S, s, n, k1)
        if out[0] == 'i':
            lo, hi = -(1 << 63), (1 << 63) - 1
            w = z3.Function('wrap_i64', L.Int, L.Int); x = simp(p + e); st = w(x)
            fs = [z3.And(t >= lo, t <= hi), z3.Implies(z3.And(x >= lo, x <= hi), st == x)]
            b = 1 << (int(dt[1:]) - 1); fs.append(z3.And(e >= -b, e < b))
        else: st = fop('+', 64, p, e); fs = []
        return fs + [z3.Implies(k1 <= 0, p == 0), z3.Implies(k <= 0, t == 0), z3.Implies(k > 0, t == st)]
    L.EXTRA[nm] = [gen]
    return f


def t_sum(key, dt, mean):
    out = 'i64' if dt[0] == 'i' else 'f64'; fold = fold_fn(dt, out); what = 'mean()' if mean else 'sum()'

    def f(run):
        a = M.tensor(run, 'a', dt); s, n, S, off, m = a.s, a.n, a.S, a.off, a.mem(dt); rg = a.rg
        if dt[0] == 'i': run.assume(z3.Not(rg))
        fl = lambda k: fold(m, off, S, s, n, k)
        N = L.Wt(s, n, I(0))
        run.ghost['folds'] = [('sum', fl, s, L.Int if out[0] == 'i' else L.Real)]
        run.ghost['vecs'] = [('a.s', VV(n, s, 'INNC::SizeVec'))]
        v = call(run, key, facade(run, a, 'a'), [])
        t = impl(run, v); w = 'result of ' + what
        run.oblige(w + ' is a scalar', t.n == 0)
        M.oblige_wf(run, t, w, out); oblige_fresh(run, t, w)
        x = sel(t.mem(out), t.off); F = fl(N)
        if not mean: run.oblige(w + ' adds every element once, in row-major order', x == F)
        else:
            run.oblige(w + ' of no elements is 0', z3.Implies(N == 0, x == 0))
            run.ghost['divok'] = True
            if out == 'i64':
                run.assume(z3.And(F >= -(1 << 63), F < (1 << 63)))
                q = z3.Function('tdiv', L.Int, L.Int, L.Int)(F, N); y = run.wrap(q, cty(run.prog, 'i64')); run.assume(L.inst_tdiv(q)[0])
            else: y = fop('/', 64, F, i2f(N, 64))
            run.oblige(w + ' divides the sum of all elements by their number', z3.Implies(N > 0, x == y))
        run.oblige(w + ' requires grad exactly when its operand does', t.rg == rg)
        run.oblige(w + ' has no gradient yet', t.grad == 0)
        oblige_fn(run, t, w, 'INNC::MeanBack' if mean else 'INNC::SumBack', [a.ref], rg)
        M.frame(run, what)
    return f


# ---------------------------------------------------------------- max and min
def t_ext(key, dt, mx):
    what = 'max()' if mx else 'min()'; le = (lambda x, y: x <= y) if mx else (lambda x, y: x >= y)
    ise = z3.Function('iselem.' + dt, L.Int if dt[0] == 'i' else L.Real, L.Bool)   # an arbitrary predicate that holds of every element

    def f(run):
        a = M.tensor(run, 'a', dt); s, n, S, off, m = a.s, a.n, a.S, a.off, a.mem(dt); rg = a.rg
        if dt[0] == 'i': run.assume(z3.Not(rg))
        N = L.Wt(s, n, I(0)); run.assume(N > 0)
        g, h = run.fresh('g', L.Int), run.fresh('h', L.Int)
        for q in (g, h): run.assume(z3.And(0 <= q, q < N))
        X = z3.Const('X!e', L.IA); d = L.dot(S, X, n)
        run.assume(M.qall([X], z3.Implies(L.inr(X, s, n), ise(m[off + d])), [d]))
        at = lambda q: sel(m, simp(off + L.dot(S, L.unrank(s, n, q), n)))
        run.ghost['map'] = [M.Map(q, lambda X, k, t, d_: const_term(d_, 0), nm) for q, nm in ((g, 'g0'), (h, 'h0'))]
        run.ghost['vecs'] = [('a.s', VV(n, s, 'INNC::SizeVec'))]

        def hint(run, lp):
            from .cands import ranks, cur
            acc = []
            for it, ref in lp.mod.items():
                if it[0] == 'h' and it[1] == 'M.' + dt and it[2] is not None: acc.append((it, lambda ref=ref: sel(run.mem(dt, ref), I(0))))
                elif it[0] == 'v' and isinstance(lp.old[it], IV if dt[0] == 'i' else FV): acc.append((it, lambda it=it: cur(run, it[1]).t))
            vs = [it for it in lp.mod if it[0] == 'v' and isinstance(lp.old[it], VV)]
            for it in vs: yield ('inr', it), lambda it=it: L.inr(cur(run, it[1]).a, s, n)
            for it, x in acc:
                yield ('ise', it), lambda x=x: ise(x())
                yield ('tyr', it), lambda x=x: z3.And(x() >= -(1 << (int(dt[1:]) - 1)), x() < (1 << (int(dt[1:]) - 1))) if dt[0] == 'i' else None
                for v in vs: yield ('argv', it, v), lambda x=x, v=v: x() == sel(m, simp(off + L.dot(S, cur(run, v[1]).a, n)))
                for rn, s1, n1, K in ranks(run, lp):
                    for qn, q in (('g', g), ('h', h)): yield ('bnd', it, rn, qn), lambda x=x, K=K, q=q: z3.Implies(q < K(), le(at(q), x()))
        run.ghost['hints'] = [hint]
        v = call(run, key, facade(run, a, 'a'), [])
        t = impl(run, v); w = 'result of ' + what
        run.oblige(w + ' is a scalar', t.n == 0)
        M.oblige_wf(run, t, w, dt); oblige_fresh(run, t, w)
        x = sel(t.mem(dt), t.off)
        run.oblige(w + ' is %s any element' % ('not less than' if mx else 'not greater than'), le(at(g), x))
        run.oblige(w + ' is one of the elements', ise(x))
        run.oblige(w + ' requires grad exactly when its operand does', t.rg == rg)
        run.oblige(w + ' has no gradient yet', t.grad == 0)
        oblige_fn(run, t, w, 'INNC::KnownGradBack', [a.ref], rg)
        if dt[0] == 'f' and run.branch(rg):
            k = T(run, run.hget('INNC::KnownGradBack.grad', t.gradfn, L.Int)); kw = 'selection mask of ' + what
            run.oblige(kw + ' exists', k.ref != 0)
            oblige_sizes(run, k, kw, s, n); M.oblige_wf(run, k, kw, dt); oblige_fresh(run, k, kw)
            run.oblige(kw + ' does not require grad', z3.Not(k.rg))
            mk = lambda q: k.at(dt, L.unrank(s, n, q))
            run.oblige(kw + ' holds only 0 and 1', z3.Or(mk(g) == 0, mk(g) == 1))
            run.oblige(kw + ' selects only elements attaining the extreme', z3.Implies(mk(g) == 1, at(g) == x))
            run.oblige(kw + ' selects at most one element', z3.Implies(z3.And(mk(g) == 1, mk(h) == 1), g == h))
            Y = z3.Const('Y!e', L.IA); dk = L.dot(k.S, Y, k.n)
            run.assume(M.qall([Y], z3.Implies(L.inr(Y, s, n), sel(k.mem(dt), simp(k.off + dk)) != 1), [dk]))
            run.oblige(kw + ' selects an element', FALSE)
            return
        M.frame(run, what)
    return f


# ---------------------------------------------------------------- all
class CAll(M.Contract):
    """TensorImpl::all on an i8 tensor: true exactly when no element is zero"""
    q = 'INNC::TensorImpl::all'; nargs = 0

    def apply(self, run, key, this, args):
        t = T(run, this.ref)
        if not (isnum(t.dtype) and t.dtype.as_long() == 0): return run.inline(key, this, args, None)
        M.oblige_wf(run, t, 'operand of all()', 'i8')
        b = run.fresh('all', L.Bool); N = L.Wt(t.s, t.n, I(0)); g, h = run.ghost['all']
        at = lambda q: t.at('i8', L.unrank(t.s, t.n, q))
        run.assume(z3.Implies(z3.And(b, 0 <= g, g < N), at(g) != 0))
        run.assume(z3.Or(b, z3.And(0 <= h, h < N, at(h) == 0)))   # h: arbitrary, standing for the zero element found
        return BV(b)


def t_all8(key, nz):
    """the contract of TensorImpl::all for i8"""
    def f(run):
        a = M.tensor(run, 'a', 'i8'); s, n, S, off, m = a.s, a.n, a.S, a.off, a.mem('i8')
        N = L.Wt(s, n, I(0)); g = run.fresh('g', L.Int)
        at = lambda q: sel(m, simp(off + L.dot(S, L.unrank(s, n, q), n)))
        run.ghost['vecs'] = [('a.s', VV(n, s, 'INNC::SizeVec'))]
        if nz:
            X = z3.Const('X!e', L.IA); d = L.dot(S, X, n)
            run.assume(M.qall([X], z3.Implies(L.inr(X, s, n), m[off + d] != 0), [d]))
            run.assume(z3.Implies(n == 0, m[off] != 0))

        def hint(run, lp):
            from .cands import ranks, cur
            for rn, s1, n1, K in ranks(run, lp): yield ('nzk', rn), lambda K=K: z3.Implies(z3.And(0 <= g, g < K()), at(g) != 0)
            for it, o in lp.mod.items():
                if it[0] == 'v' and isinstance(lp.old[it], BV):
                    yield ('bt', it), lambda it=it: cur(run, it[1]).t
                    for rn, s1, n1, K in ranks(run, lp): yield ('bnz', it, rn), lambda it=it, K=K: z3.Implies(z3.And(cur(run, it[1]).t, 0 <= g, g < K()), at(g) != 0)
        run.ghost['hints'] = [hint]
        v = call(run, key, a.obj(), [])
        b = v.t if isinstance(v, BV) else v.t != 0
        if nz: run.oblige('all() is true when every element is non-zero', b)
        else: run.oblige('all() is true only when every element is non-zero', z3.Implies(z3.And(b, 0 <= g, g < N), at(g) != 0))
        M.frame(run, 'all()')
    return f


def t_all(key, dt):
    def f(run):
        a = M.tensor(run, 'a', dt); s, n, S, off, m = a.s, a.n, a.S, a.off, a.mem(dt)
        N = L.Wt(s, n, I(0)); g, h = run.fresh('g', L.Int), run.fresh('h', L.Int); run.ghost['all'] = (g, h)
        at = lambda q: sel(m, simp(off + L.dot(S, L.unrank(s, n, q), n)))
        def spec(X, k, t, d): return None if d != 'i8' else scalar(run, '!=', elem(run, a, dt, X, k), dt, IV(0), 'i8', 'i8')
        run.ghost['map'] = [M.Map(q, spec, nm) for q, nm in ((g, 'g'), (h, 'h'))]
        v = call(run, key, facade(run, a, 'a'), [])
        b = v.t if isinstance(v, BV) else v.t != 0
        run.oblige('all() is true only when every element is non-zero', z3.Implies(z3.And(b, 0 <= g, g < N), at(g) != 0))
        run.assume(z3.Implies(z3.And(0 <= h, h < N), at(h) != 0))
        run.oblige('all() is true when every element is non-zero', b)
        M.frame(run, 'all()')
    return f


def tasks(p):
    out = []
    def add(name, ks, mk, grp, cs=A, rec=False, opaque='od'):
        if not ks: out.append(Task(name, missing(name), None, A, group=grp))
        for i, k in enumerate(ks): out.append(Task(name + ('' if i == 0 else '#%d' % i), mk(k), None if rec else k, cs, group=grp, opaque=opaque))
    for dt in DTS:
        add('sum(%s)' % dt, mem(p, 'sum', 0), lambda k: t_sum(k, dt, False), 'sum')
        add('mean(%s)' % dt, mem(p, 'mean', 0), lambda k: t_sum(k, dt, True), 'sum')
        add('max(%s)' % dt, mem(p, 'max', 0), lambda k: t_ext(k, dt, True), 'ext')
        add('min(%s)' % dt, mem(p, 'min', 0), lambda k: t_ext(k, dt, False), 'ext')
        add('all(%s)' % dt, mem(p, 'all', 0), lambda k: t_all(k, dt), 'all', cs=A + [CAll()], rec=True, opaque=True)
    for nz in (False, True): add('TensorImpl::all(i8)' + ('' if nz else ', true case'), find(p, TI + '::all', 0), lambda k: t_all8(k, nz), 'all')
    return out
