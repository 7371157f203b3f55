"""API-level proofs: gradient flags and misuse, scalar construction, copying from memory, random tensors."""
import z3
from . import logic as L, model as M
from .logic import I, sel, simp, isnum
from .engine import *
from .model import T, TI, LY, SL
from .tasks_a import Task, find
from .tasks_b import *
from .tasks_c import mem, missing, const_term, A, FALSE
from .tasks_f import put, same_sizes, Grad, KN


def other(run, *refs):
    """an arbitrary existing object or block other than the given ones (for frame conditions)"""
    x = run.ghost['fx'] = run.fresh('fx', L.Int); run.old.add(x.get_id()); run.assume(x < 0)
    for r in refs: run.declare_ne(x, r)


# ---------------------------------------------------------------- flags
def t_setrg(key):
    def f(run):
        a = M.tensor(run, 'a'); b = run.fresh('b', L.Bool); rg0 = a.rg; fl = z3.Or(a.dtype == 4, a.dtype == 5)
        try: call(run, key, facade(run, a, 'a'), [BV(b)])
        except CppThrow as ex:
            run.oblige('requires_grad(b) throws only when grad is requested of an integer tensor', z3.And(b, z3.Not(fl)))
            run.oblige('a rejected requires_grad(true) throws runtime_error', z3.BoolVal(str(ex.ty).endswith('runtime_error')))
            M.frame(run, 'a rejected requires_grad(b)'); return
        run.oblige('requires_grad(true) rejects integer tensors', z3.Or(z3.Not(b), fl))
        run.oblige('requires_grad(b) sets the flag', a.rg == b)
        other(run, a.ref); M.frame(run, 'requires_grad(b)')
    return f


def t_retain(key):
    def f(run):
        a = M.tensor(run, 'a'); b = run.fresh('b', L.Bool)
        call(run, key, facade(run, a, 'a'), [BV(b)])
        run.oblige('retain_grad(b) sets the flag', a.f('retain_grad', L.Bool) == b)
        rg = run.heap0.get(TI + '.requires_grad')
        other(run, a.ref); M.frame(run, 'retain_grad(b)')
    return f


def t_getretain(key):
    def f(run):
        a = M.tensor(run, 'a'); v = call(run, key, facade(run, a, 'a'), [])
        run.oblige('retain_grad() reports the flag', v.t == a.f('retain_grad', L.Bool)); M.frame(run, 'retain_grad()')
    return f


def gtensor(run, dt, kind):
    a = M.tensor(run, 'a', dt); g = Grad(run, a, 'a', dt, kind)
    if g.old is not None:
        run.declare_ne(g.old.ref, a.ref); run.declare_ne(g.old.st, a.st)
        if kind == 1: run.declare_ne(g.old.blob, a.blob)
    return a, g


def t_grad(key, dt, kind):
    def f(run):
        a, g = gtensor(run, dt, kind)
        v = call(run, key, facade(run, a, 'a'), [])
        r = run.hget(TN + '.fptr', v.ref, L.Int)
        if kind == 1: run.oblige('grad() is the gradient', r == g.old.ref)
        else: run.oblige('grad() is empty when there is no gradient', r == 0)
        M.frame(run, 'grad()')
    return f


def t_zerograd(key, dt, kind):
    def f(run):
        a, g = gtensor(run, dt, kind); z = run.fresh('z', L.Int)
        if kind == 1: gs, gn, gS, goff, gb = g.old.s, g.old.n, g.old.S, g.old.off, g.old.blob
        call(run, key, facade(run, a, 'a'), [])
        run.oblige('zero_grad() keeps the gradient tensor', a.grad == (0 if g.old is None else g.old.ref))
        if kind == 1:
            run.oblige('zero_grad() keeps the gradient storage', g.old.blob == gb)
            X = run.fresh('X', L.IA); run.assume(L.inr(X, gs, gn))
            run.oblige('zero_grad() makes every element of the gradient zero', sel(g.old.mem(dt), simp(goff + L.dot(gS, X, gn))) == 0)
            M.oblige_wf(run, g.old, 'the zeroed gradient', dt)
            other(run, gb)
        M.frame(run, 'zero_grad()')
    return f


def t_misuse(key, what):
    def f(run):
        a = M.tensor(run, 'a'); N = L.Wt(a.s, a.n, I(0))
        run.assume({'norg': z3.Not(a.rg), 'nohist': z3.And(a.rg, a.gradfn == 0), 'many': z3.And(a.rg, a.gradfn != 0, N != 1)}[what])
        if what == 'norg': put(run, a.rg, FALSE)
        else: put(run, a.rg, z3.BoolVal(True))
        if what == 'nohist': put(run, a.gradfn, I(0))
        try: call(run, key, facade(run, a, 'a'), [])
        except CppThrow as ex:
            run.oblige('a rejected backward() throws runtime_error', z3.BoolVal(str(ex.ty).endswith('runtime_error')))
            M.frame(run, 'a rejected backward()'); return
        run.oblige({'norg': 'backward() rejects a tensor that does not require grad', 'nohist': 'backward() rejects a tensor without history', 'many': 'backward() rejects a tensor that does not have exactly one element'}[what], FALSE)
    return f


# ---------------------------------------------------------------- construction
def t_scalar(key, dt):
    def f(run):
        x = run.fresh('x', L.Real if dt[0] == 'f' else L.Int); v = val(run, dt, x)
        h = run.construct(TN, key, [v]); t = impl(run, h); w = 'Tensor(scalar)'
        run.oblige(w + ' is a scalar', t.n == 0); M.oblige_wf(run, t, w, dt); oblige_fresh(run, t, w)
        run.oblige(w + ' holds the number', sel(t.mem(dt), t.off) == x)
        run.oblige(w + ' does not require grad', z3.Not(t.rg)); run.oblige(w + ' has no history and no gradient', z3.And(t.gradfn == 0, t.grad == 0))
        M.frame(run, w)
    return f


def t_sized(key, dt):
    def f(run):
        s = M.vecval(run, 's'); run.assume(L.Wt(s.a, s.n, I(0)) * 8 < M.B63)
        h = run.construct(TN, key, [LTmp(s), IV(DTS.index(dt))]); t = impl(run, h); w = 'Tensor(sizes, dtype)'
        oblige_sizes(run, t, w, s.a, s.n); oblige_fresh(run, t, w)
        for nm, q in M.wf_parts(t, dt, post=True):
            if nm != 'storage holds elements of the dtype': run.oblige('%s: %s' % (w, nm), q)   # nothing is stored yet
        run.oblige(w + ' does not require grad', z3.Not(t.rg)); run.oblige(w + ' has no history and no gradient', z3.And(t.gradfn == 0, t.grad == 0))
        M.frame(run, w)
    return f


def t_blob(key, dt):
    def f(run):
        s = M.vecval(run, 's'); N = L.Wt(s.a, s.n, I(0)); run.assume(N * 8 < M.B63)
        b = run.oldref('data'); nb = run.hget('blob.bytes', b, L.Int); run.assume(z3.And(nb >= N * DT.size[dt], nb < M.B63)); put(run, run.hget('blob.tag', b, L.Int), I(DTS.index(dt)))
        src = run.mem(dt, b); g = run.fresh('g', L.Int); run.assume(z3.And(0 <= g, g < N))
        v = call(run, key, None, [DP(b, I(0), cty(run.prog, dt)), LTmp(s), IV(DTS.index(dt))]); t = impl(run, v); w = 'from_blob'
        oblige_sizes(run, t, w, s.a, s.n); M.oblige_wf(run, t, w, dt); oblige_fresh(run, t, w)
        X = L.unrank(s.a, s.n, g)
        run.oblige(w + ' copies the values in row-major order', t.at(dt, X) == sel(src, g))
        run.oblige(w + ' does not require grad', z3.Not(t.rg)); run.oblige(w + ' has no history and no gradient', z3.And(t.gradfn == 0, t.grad == 0))
        M.frame(run, w)
    return f


def t_randn(key, dt, like):
    def f(run):
        if like: a = M.tensor(run, 'a', dt); s, n, args = a.s, a.n, [facade(run, a, 'a')]
        else: v = M.vecval(run, 's'); s, n, args = v.a, v.n, [LTmp(v), IV(DTS.index(dt))]
        N = L.Wt(s, n, I(0)); run.assume(N * 8 < M.B63)
        drawn = z3.Function('drawn', L.Real, L.Bool); run.ghost['drawn'] = drawn   # the predicate "drawn from the generator"
        g = run.fresh('g', L.Int); run.assume(z3.And(0 <= g, g < N))

        def hint(run, lp):
            from .cands import scope, cur
            for it, ref in lp.mod.items():
                if it[0] != 'h' or it[1] != 'M.' + dt or it[2] is None: continue
                for nm, c, v in scope(run, lp)[0]: yield ('drawn', it, c), lambda c=c, ref=ref: z3.Implies(g < cur(run, c).t, drawn(sel(run.mem(dt, ref), g)))
                for nm, c, v in scope(run, lp)[0]: yield ('drawn0', it, c), lambda c=c, ref=ref: z3.Implies(cur(run, c).t > 0, run.hget('blob.tag', ref, L.Int) == DTS.index(dt))
        run.ghost['hints'] = [hint]
        try: v = call(run, key, None, args)
        except CppThrow as ex:
            run.oblige('randn rejects only integer dtypes', z3.BoolVal(dt[0] == 'i'))
            run.oblige('a rejected randn throws runtime_error', z3.BoolVal(str(ex.ty).endswith('runtime_error'))); M.frame(run, 'a rejected randn'); return
        run.oblige('randn rejects integer dtypes', z3.BoolVal(dt[0] == 'f'))
        t = impl(run, v); w = 'randn'
        oblige_sizes(run, t, w, s, n); M.oblige_wf(run, t, w, dt); oblige_fresh(run, t, w)
        X = L.unrank(s, n, g)
        run.oblige(w + ' initialises every element from the generator', drawn(t.at(dt, X)))
        run.oblige(w + ' does not require grad', z3.Not(t.rg)); run.oblige(w + ' has no history and no gradient', z3.And(t.gradfn == 0, t.grad == 0))
        M.frame(run, w)
    return f


def tasks(p):
    out = []
    def add(name, ks, mk, grp, opaque=True):
        if not ks: out.append(Task(name, missing(name), None, A, group=grp))
        for i, k in enumerate(ks): out.append(Task(name + ('' if i == 0 else '#%d' % i), mk(k), k, A, group=grp, opaque=opaque))
    add('requires_grad(b)', mem(p, 'requires_grad', 1), t_setrg, 'flags')
    add('retain_grad(b)', mem(p, 'retain_grad', 1), t_retain, 'flags'); add('retain_grad()', mem(p, 'retain_grad', 0), t_getretain, 'flags')
    for dt in ('f32', 'f64'):
        for k_ in range(3):
            add('grad() (%s, %s)' % (dt, KN[k_]), mem(p, 'grad', 0), lambda k: t_grad(k, dt, k_), 'flags')
            add('zero_grad() (%s, %s)' % (dt, KN[k_]), mem(p, 'zero_grad', 0), lambda k: t_zerograd(k, dt, k_), 'flags')
    for w in ('norg', 'nohist', 'many'): add('backward() misuse: ' + w, mem(p, 'backward', 0), lambda k: t_misuse(k, w), 'flags')
    ctor = find(p, TN + '::Tensor', 1)
    for dt in DTS:
        c = cty(p, dt)
        add('Tensor(%s)' % dt, [k for k in ctor if p.decls[k]['pt'][0].c == c.c and getattr(p.decls[k]['pt'][0], 'bits', None) == c.bits], lambda k: t_scalar(k, dt), 'construct')
        add('Tensor(sizes, %s)' % dt, find(p, TN + '::Tensor', 2), lambda k: t_sized(k, dt), 'construct')
        add('from_blob(%s)' % dt, mem(p, 'from_blob', 3), lambda k: t_blob(k, dt), 'construct')
        add('randn(%s)' % dt, mem(p, 'randn', 2), lambda k: t_randn(k, dt, False), 'construct')
        add('randn_like(%s)' % dt, mem(p, 'randn_like', 1), lambda k: t_randn(k, dt, True), 'construct')
    return out
