"""API-level proofs: views (transpose, slice, reshape) and the gradient storage they share."""
import z3
from . import logic as L, model as M
from .logic import I, sel, simp, isnum
from .engine import *
from .model import T, TI, LY, SL
from .tasks_a import Task, find
from .tasks_b import *
from .tasks_c import mem, missing, A, FALSE
from .tasks_f import put, same_sizes, KN

GC = [None, 0, 1, 2]   # requires grad: no, or yes with the gradient absent, present, present but not allocated


def gname(gc): return 'no grad' if gc is None else 'grad required, gradient ' + KN[gc]


def source(run, dt, gc):
    """an arbitrary tensor a view is taken of"""
    a = M.tensor(run, 'a', dt)
    put(run, a.rg, z3.BoolVal(gc is not None))
    if gc == 0: put(run, a.grad, I(0))
    elif gc is not None:
        # representation invariant of gradients: the gradient has the layout of the tensor
        g = T(run, a.grad); run.old.add(g.ref.get_id()); run.assume(g.ref < 0); run.declare_ne(g.ref, a.ref)
        for k, v, r in (('view', g.view, 1), ('st', g.st, 1), ('Sn', g.Sn, 0)): M.alias(run, v, 'a.g.' + k, bool(r))
        same_sizes(run, g, a); put(run, g.S, a.S); put(run, g.off, a.off); put(run, g.dtype, a.dtype); put(run, g.stsize, a.stsize)
        run.declare_ne(g.st, a.st)
        if gc == 1: M.alias(run, g.blob, 'a.g.blob', True); M.alias(run, g.bytes, 'a.g.bytes'); M.assume_wf(run, g, dt); run.declare_ne(g.blob, a.blob)
        else: M.assume_wf(run, g, dt, alloc=False); put(run, g.blob, I(0))
        put(run, g.rg, z3.BoolVal(False))
    return a


def oblige_inj(run, t, w, s, n, src, phi, hints):
    """distinct indices of the view address distinct elements, because phi maps them to distinct source indices;
    hints(d): source coordinates that determine coordinate d of an index of the view"""
    s0, n0, S0, off0 = src
    X, Y = run.fresh('X', L.IA), run.fresh('Y', L.IA); P = []
    pc0 = len(run.pc)
    for Z in (X, Y):
        run.assume(L.inr(Z, s, n)); pz = phi(Z)
        run.oblige(w + ': indices of the view stand for indices of the source', L.inr(pz, s0, n0))
        e = lambda q: simp(t.off + L.dot(t.S, Z, t.n)) == off0 + L.dot(S0, q, n0)
        run.oblige(w + ' has the right source element at every index', e(pz))
        q = run.fresh('P', L.IA); P.append(q); del run.pc[pc0:]
        # q stands for pz from here on
        keep = P_facts.setdefault(id(run), []); keep.append((Z, pz, q, e(q)))
    fs = P_facts.pop(id(run)); px, py = P; full = list(run.pc)
    # the rest needs few of the facts: a smaller context (fewer assumptions is sound)
    base = [f for f in M.sizes_ok(s0, n0) if z3.is_quantifier(f)][:1] + [n0 >= 0]
    inj = M.inj_form(S0, s0, n0)
    run.pc[:] = base + [inj] + [L.inr(q, s0, n0) for q in P] + [e for _, _, _, e in fs] + [L.dot(t.S, X, t.n) == L.dot(t.S, Y, t.n)]
    assert any(f.eq(inj) for f in full)
    rk = L.rank(s0, n0, px) == L.rank(s0, n0, py)
    run.oblige(w + ': distinct indices address distinct elements (source index)', rk)
    k, d = run.fresh('k', L.Int), run.fresh('d', L.Int); u = L.unrank(s0, n0, k); sc = []
    for h in hints(d):
        for q in (px, py):
            run.pc[:] = base + [L.inr(q, s0, n0), k == L.rank(s0, n0, q), 0 <= h, h < n0]
            run.oblige(w + ': distinct indices address distinct elements (source coordinates)', sel(q, h) == sel(u, h))
        sc.append(z3.Implies(z3.And(0 <= h, h < n0), sel(px, h) == sel(py, h)))
    run.pc[:] = full + [f for Z, pz, q, e in fs for f in (L.inr(Z, s, n), q == pz)] + [0 <= d, d < n] + sc
    run.oblige(w + ': distinct indices address distinct elements (coordinates)', sel(X, d) == sel(Y, d))
    j = z3.Int('j!dg')
    run.pc[:] = [M.qall([j], z3.Implies(z3.And(0 <= j, j < n), X[j] == Y[j]), [X[j]])]
    run.oblige(w + ': distinct indices address distinct elements', L.rank(s, n, X) == L.rank(s, n, Y))
    run.pc[:] = full


P_facts = {}


def unalloc_bounds(run, t, w):
    """an unallocated gradient storage is large enough for its tensor"""
    X = z3.Const('X!b', L.IA); d = L.dot(t.S, X, t.n); sz = M.size_of(t.dtype)
    run.oblige(w + ': elements lie inside the storage once allocated', M.qall([X], z3.Implies(L.inr(X, t.s, t.n), z3.And(0 <= t.off + d, (t.off + d + 1) * sz <= t.stsize)), [d]))


def post_view(run, a, a0, t, w, s, n, phi, hints, gc, dt):
    """a0: (sizes, rank, strides, offset, storage, dtype, gradient) of the source before the call"""
    s0, n0, S0, off0, st0, d0, g0 = a0
    oblige_sizes(run, t, w, s, n)
    run.oblige(w + ' shares the storage of its source', t.st == st0)
    run.oblige(w + ' has the dtype of its source', t.dtype == d0)
    X = run.fresh('X', L.IA); pc0 = len(run.pc); run.assume(L.inr(X, s, n))
    run.oblige(w + ': indices of the view stand for indices of the source', L.inr(phi(X), s0, n0))
    run.oblige(w + ' has the right source element at every index', simp(t.off + L.dot(t.S, X, t.n)) == off0 + L.dot(S0, phi(X), n0))
    run.oblige(w + ': elements lie inside the storage', z3.And(0 <= t.off + L.dot(t.S, X, t.n), (t.off + L.dot(t.S, X, t.n) + 1) * M.size_of(t.dtype) <= t.bytes))
    del run.pc[pc0:]
    for nm, f in M.wf_parts(t, dt, inj=False, post=True):
        if nm != 'elements lie inside the storage': run.oblige('%s: %s' % (w, nm), f)
    oblige_inj(run, t, w, s, n, (s0, n0, S0, off0), phi, hints)
    run.oblige(w + ' requires grad exactly when its source does', t.rg == z3.BoolVal(gc is not None))
    oblige_fn(run, t, w, 'INNC::NoBack', [a.ref], z3.BoolVal(gc is not None))
    if gc is None: run.oblige(w + ' has no gradient', t.grad == 0); return
    ga, gt = T(run, a.grad), T(run, t.grad); wg = 'gradient of ' + w
    run.oblige(w + ' and its source have gradients', z3.And(a.grad != 0, t.grad != 0, a.grad != t.grad))
    if gc: run.oblige('the gradient of the source is kept', a.grad == g0)
    else:
        u = 'the new gradient of the source'
        oblige_sizes(run, ga, u, s0, n0); run.oblige(u + ' has the layout of the source', z3.And(ga.off == off0, ga.S == S0, ga.Sn == n0, ga.dtype == d0, ga.stsize == a.stsize))
        run.oblige(u + ' has storage of its own', ga.st > 0); run.oblige(u + ' holds no elements yet', ga.blob == 0); run.oblige(u + ' does not require grad', z3.Not(ga.rg))
        for nm, f in M.wf_parts(ga, dt, alloc=False, inj=False, post=True): run.oblige('%s: %s' % (u, nm), f)
    run.oblige(wg + ' shares the gradient storage of the source', gt.st == ga.st)
    oblige_sizes(run, gt, wg, s, n)
    run.oblige(wg + ' has the layout of the view', z3.And(gt.off == t.off, gt.S == t.S, gt.Sn == n, gt.dtype == d0)); run.oblige(wg + ' does not require grad', z3.Not(gt.rg))
    run.oblige(wg + ' has no history', z3.And(gt.gradfn == 0, gt.grad == 0))
    for nm, f in M.wf_parts(gt, dt, alloc=False, inj=False, post=True): run.oblige('%s: %s' % (wg, nm), f)


def frame_view(run, a, what, gc):
    x = run.ghost['fx'] = run.fresh('fx', L.Int); run.old.add(x.get_id()); run.assume(x < 0)
    if gc == 0: run.declare_ne(x, a.ref)
    M.frame(run, what)


def before(a): return (a.s, a.n, a.S, a.off, a.st, a.dtype, a.grad)


def swapped(X, i, j): return z3.Store(z3.Store(X, i, z3.Select(X, j)), j, z3.Select(X, i))


def t_transpose(key, member, dt, gc):
    def f(run):
        a = source(run, dt, gc); a0 = before(a); h = facade(run, a, 'a')
        i, j = run.fresh('d0', L.Int), run.fresh('d1', L.Int)
        for q in (i, j): run.assume(z3.And(q >= 0, q < 2 * M.B63))
        args = [IV(i, 0, 2 * M.B63 - 1), IV(j, 0, 2 * M.B63 - 1)]
        ok = z3.And(i < a.n, j < a.n, i != j)
        try: v = call(run, key, h if member else None, args if member else [h] + args)
        except CppThrow as ex:
            run.oblige('transpose rejects only dimensions that are out of range or equal', z3.Not(ok)); thrown(run, ex, 'a rejected transpose'); M.frame(run, 'a rejected transpose'); return
        run.oblige('transpose rejects dimensions that are out of range or equal', ok)
        t = impl(run, v)
        post_view(run, a, a0, t, 'transpose', swapped(a0[0], i, j), a0[1], lambda X: swapped(X, i, j), lambda d: [i, j, d], gc, dt)
        frame_view(run, a, 'transpose', gc)
    return f


def tasks(p):
    out = []
    for gc in GC:
        for dt in [None]:
            for member in (True, False):
                ks = mem(p, 'transpose', 2 if member else 3)
                nm = '%stranspose (%s)' % ('member ' if member else 'static ', gname(gc))
                if not ks: out.append(Task(nm, missing(nm), None, A, group='transpose'))
                for i, k in enumerate(ks): out.append(Task(nm + ('' if i == 0 else '#%d' % i), t_transpose(k, member, dt, gc), k, A, group='transpose', opaque=True))
    return out
