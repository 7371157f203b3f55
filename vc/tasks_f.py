"""Gradients: every backward step adds exactly the vector-Jacobian product to the gradients of its inputs (over the reals)."""
import z3
from . import logic as L, model as M
from .logic import I, sel, simp, isnum
from .engine import *
from .model import T, TI, LY, SL, US
from .tasks_a import Task, find
from .tasks_b import *
from .tasks_c import mem, missing, A
from .tasks_e import acc_fn, spec_fn, at_aug

FD = ['f32', 'f64']


def same_sizes(run, t, u):
    """t has the sizes of u (entries beyond the last dimension are not observable, so the whole arrays may be identified)"""
    put(run, t.n, u.n if isinstance(u, T) else u[1]); put(run, t.s, u.s if isinstance(u, T) else u[0])


def put(run, t, v): run.assume(t == v); run.lits[t.get_id()] = (t, v)


class Grad:
    """the gradient of tensor x before a backward step: absent, present, or present with storage not yet allocated"""
    def __init__(self, run, x, nm, dt, st=None):
        self.run = run; self.x = x; self.dt = dt; self.kind = ['absent', 'present', 'unallocated'][run.choose(3) if st is None else st]
        self.old = None
        if self.kind == 'absent': run.assume(x.grad == 0); run.lits[x.grad.get_id()] = (x.grad, I(0))
        else:
            g = self.old = T(run, x.grad); run.old.add(g.ref.get_id()); run.assume(g.ref < 0)
            for k, v, r in (('view', g.view, 1), ('st', g.st, 1), ('S', g.S, 0), ('off', g.off, 0), ('Sn', g.Sn, 0)): M.alias(run, v, nm + '.g.' + k, bool(r))
            same_sizes(run, g, x)
            if self.kind == 'present':
                M.alias(run, g.blob, nm + '.g.blob', True); M.alias(run, g.bytes, nm + '.g.bytes'); M.assume_wf(run, g, dt)
            else:
                M.assume_wf(run, g, dt, alloc=False); run.assume(g.blob == 0); run.lits[g.blob.get_id()] = (g.blob, I(0))
                X = z3.Const('X!b', L.IA); d = L.dot(g.S, X, g.n); run.assume(z3.And(g.stsize >= 0, g.stsize < M.B63))
                run.assume(M.qall([X], z3.Implies(L.inr(X, g.s, g.n), z3.And(0 <= g.off + d, (g.off + d + 1) * DT.size[dt] <= g.stsize)), [d]))
                run.assume(z3.Implies(g.n == 0, z3.And(0 <= g.off, (g.off + 1) * DT.size[dt] <= g.stsize)))
            run.assume(z3.Not(g.rg)); run.lits[g.rg.get_id()] = (g.rg, z3.BoolVal(False))
        self.m0 = self.old.mem(dt) if self.kind == 'present' else None
        v = self.x if self.kind == 'absent' else self.old
        self.S, self.off, self.s, self.n = v.S, v.off, v.s, v.n

    def base(self, z): return sel(self.m0, z) if self.m0 is not None else z3.RealVal(0)

    @property
    def now(self): return T(self.run, self.x.grad)

    def at(self, z): return sel(self.now.mem(self.dt), z)


def node(run, cls, o, ins):
    b = run.oldref('node'); run.set_lit(run.hget('dyn', b, L.Int), run.cid(cls))
    def put(c, v, s=L.Int):
        t = run.hget(BK + '.' + c, b, s); run.assume(t == v); run.lits[t.get_id()] = (t, v)
    put('this_tf', o.ref); put('input_tfs.len', I(len(ins)))
    arr = run.fresh('inputs', L.IA)
    for i, x in enumerate(ins): arr = z3.Store(arr, I(i), x.ref)
    put('input_tfs.arr', arr, L.IA)
    return LObj(b, cls)


def outgrad(run, o, dt):
    g = T(run, o.grad); run.old.add(g.ref.get_id()); run.assume(g.ref < 0)
    for k, v, r in (('view', g.view, 1), ('st', g.st, 1), ('S', g.S, 0), ('off', g.off, 0), ('Sn', g.Sn, 0), ('blob', g.blob, 1), ('bytes', g.bytes, 0)): M.alias(run, v, 'o.g.' + k, bool(r))
    same_sizes(run, g, o); M.assume_wf(run, g, dt)
    return g


def counters(run, xs):
    """traversal counters of the inputs that have a history"""
    return [run.hget(BK + '.accumulated_n_outway', x.gradfn, L.Int) for x in xs]


def touched(lp, dt, blob): return any(it[0] == 'h' and it[1] == 'M.' + dt and it[2] is not None and ref.eq(blob) for it, ref in lp.mod.items())


def fl(run, dt, term): return run.conv(val(run, dt, term), cty(run.prog, dt), cty(run.prog, 'f64')).t


def cases2(ld, rd, mode):
    """(which operands require grad, what their gradients are at the start, which have a history), and whether the quick tier runs it"""
    if mode == 'same': cases = [((1,), (k,), (fn,)) for k in range(3) for fn in (0, 1)]
    elif mode == 'shared': cases = [((1, 1), (1, 1), (0, 1)), ((1, 0), (1, 1), (1, 0)), ((0, 1), (1, 1), (0, 1))]
    else:
        cases = [((1, 1), (a, b), ((a + b) % 2, (a + b + 1) % 2)) for a in range(3) for b in range(3)] + [((1, 1), (0, 0), (0, 0)), ((1, 1), (0, 0), (1, 1))]
        cases += [((1, 0), (k, k), (k % 2, 1)) for k in range(3)] + [((0, 1), (k, k), (1, k % 2)) for k in range(3)]
    return [c for c in cases if all(d[0] == 'f' or not c[0][i] for i, d in enumerate([ld, rd][:len(c[0])]))]


def t_back2(key, cls, op, ld, rd, mode, case):
    """step_back of a binary operation; mode: distinct, same (one operand used twice), shared (gradients in one storage)"""
    od = larger(ld, rd)

    def f(run):
        x = M.tensor(run, 'x', ld); w = x if mode == 'same' else M.tensor(run, 'w', rd)
        if mode != 'same': run.declare_ne(x.ref, w.ref)
        for t, d in ((x, ld), (w, rd)):
            if d[0] == 'i': run.assume(z3.Not(t.rg)); run.lits[t.rg.get_id()] = (t.rg, z3.BoolVal(False))
        n = M.bcdim(x.n, w.n); R = L.mkbca(x.s, x.n, w.s, w.n)
        for q in M.bcok_facts(x.s, x.n, w.s, w.n): run.assume(q)
        run.assume(M.bcok(x.s, x.n, w.s, w.n))
        o = M.tensor(run, 'o', od, sizes=(R, n))
        for t in (x, w): run.declare_ne(o.ref, t.ref); run.declare_ne(o.blob, t.blob)
        og = outgrad(run, o, od)
        ins = [(x, ld)] if mode == 'same' else [(x, ld), (w, rd)]
        rgv, kinds, fns = case
        for (t, d), v, fn in zip(ins, rgv, fns):
            if not fn or d[0] == 'i': put(run, t.gradfn, I(0))
            else: run.assume(t.gradfn < 0)
        if mode != 'same' and all(fns) and ld[0] == rd[0] == 'f': run.declare_ne(x.gradfn, w.gradfn)
        for (t, d), v in zip(ins, rgv):
            if d[0] == 'f': put(run, t.rg, z3.BoolVal(bool(v)))
        gs = [Grad(run, t, nm, d, k if d[0] == 'f' else 0) for (t, d), nm, k in zip(ins, 'xw', kinds)]
        data = [x.blob, w.blob, o.blob, og.blob]; datast = [x.st, w.st, o.st, og.st]
        if mode == 'shared':
            a, b = gs[1].old, gs[0].old
            for u, v in ((a.st, b.st), (a.blob, b.blob), (a.bytes, b.bytes)): run.assume(u == v); run.lits[u.get_id()] = (u, v)
        for i, g in enumerate(gs):
            if g.kind == 'absent': continue
            run.declare_ne(g.old.ref, x.ref); run.declare_ne(g.old.ref, o.ref); run.declare_ne(g.old.ref, w.ref); run.declare_ne(g.old.ref, og.ref)
            for s in datast: run.declare_ne(g.old.st, s)
            if g.kind == 'present':
                for s in data: run.declare_ne(g.old.blob, s)
            for h in gs[:i]:
                if h.kind == 'absent': continue
                run.declare_ne(h.old.ref, g.old.ref)
                if mode != 'shared':
                    run.declare_ne(h.old.st, g.old.st)
                    if h.kind == g.kind == 'present': run.declare_ne(h.old.blob, g.old.blob)
        z = run.fresh('z', L.Int); N = L.Wt(R, n, I(0)); mo, mg, mx, mw = o.mem(od), og.mem(od), x.mem(ld), w.mem(rd)
        ogl, ol, xl, wl = (og.off, og.S, og.s, og.n), (o.off, o.S, o.s, o.n), (x.off, x.S, x.s, x.n), (w.off, w.S, w.s, w.n)
        E = lambda m, l, d, X: fl(run, d, at_aug(m, l[0], l[1], l[2], l[3], X, n))
        if op == '/':
            wt = None
            k = z3.Int('k!nz')
            den = lambda X: E(mw, wl, rd, X)
            X_ = z3.Const('X!q', L.IA); dd = L.dot(w.S, X_, w.n)
            run.assume(M.qall([X_], z3.Implies(L.inr(X_, w.s, w.n), sel(mw, w.off + dd) != 0), [dd]))
        def partial(side, X):
            g = E(mg, ogl, od, X)
            if op == '+': return g
            if op == '-': return g if side == 0 else -g
            if op == '*': return g * (E(mw, wl, rd, X) if side == 0 else E(mx, xl, ld, X))
            q = E(mw, wl, rd, X)
            return g / q if side == 0 else -(g * E(mo, ol, od, X) / q)
        accs = []
        prev = {}
        sides = [0, 1]
        tagname = '%s.%s.%s.%s.%s' % (op, ld, rd, mode, '.'.join(g.kind for g in gs) + str(rgv) + str(fns))
        for side in sides:
            gi = gs[0] if mode == 'same' else gs[side]
            t, d = (x, ld) if side == 0 else (w, rd)
            key_ = 'g' if mode in ('same', 'shared') else side
            base = prev.get(key_, gi.base(z))
            if d[0] == 'i': accs.append(None); continue

            def step(args, y_, k, p, side=side, gi=gi, base=base):
                X = L.unrank(R, n, k)
                hit = simp(gi.off + L.dot(gi.S, L.aug(gi.s, gi.n, X, n), gi.n)) == y_
                pc0 = len(run.pc); v = partial(side, X); facts = run.pc[pc0:]; del run.pc[pc0:]
                return z3.If(hit, p + v, p), facts, base
            ac = acc_fn('gacc%d.%s' % (side, tagname), L.Real, [], step)
            accs.append((gi, ac, base)); prev[key_] = ac(z, N) if rgv[0 if mode == 'same' else side] else base

        def each(run, lp, k, s, n_):
            K = lambda: run.load(k).t
            for i, a in enumerate(accs):
                if a is None: continue
                gi, ac, base = a
                if isnum(gi.x.grad) and gi.x.grad.as_long() == 0: continue
                if touched(lp, gi.dt, gi.now.blob): yield ('acc', i), lambda gi=gi, ac=ac: gi.at(z) == ac(z, K())
            yield ('NN',), lambda: N == L.Wt(s, n_, I(0))
        run.ghost['each'] = [each]
        c0 = counters(run, [x, w])
        b = node(run, cls, o, [x, w])
        try: call(run, key, b, [])
        except CppThrow:
            run.oblige('a backward step does not throw', z3.BoolVal(False)); return
        for i, (t, d) in enumerate(ins):
            g = gs[i]; nm = 'the gradient of operand %d' % (i + 1) if mode != 'same' else 'the gradient of the operand'
            if d[0] == 'i':
                run.oblige('an integer operand gets no gradient', t.grad == 0); continue
            rg = t.rg
            want = prev['g'] if mode in ('same', 'shared') else prev[i]
            if run.branch(rg):
                run.oblige(nm + ' exists', t.grad != 0)
                u = g.now
                M.oblige_wf(run, u, nm, d)
                oblige_sizes(run, u, nm, t.s, t.n)
                run.oblige(nm + ' is increased by upstream times partial, summed over the broadcast, at every element', g.at(z) == want)
            else:
                run.oblige('an operand that does not require grad gets no gradient', z3.And(t.grad == (0 if g.old is None else g.old.ref)))
                if g.kind == 'present' and mode != 'shared': run.oblige('an operand that does not require grad is left alone', g.at(z) == g.base(z))
        fx = run.ghost['fx'] = run.fresh('fx', L.Int); run.old.add(fx.get_id()); run.assume(fx < 0)
        for g in gs:
            if g.kind != 'absent': run.declare_ne(fx, g.old.st)
            if g.kind == 'present': run.declare_ne(fx, g.old.blob)
        for t, d in ins: run.declare_ne(fx, t.ref); run.declare_ne(fx, t.gradfn)
        M.frame(run, 'the backward step', keep=('blob.tag',))
        for i, (t, d) in enumerate(ins):
            twice = 2 if mode == 'same' else 1
            if d[0] == 'f': run.oblige('each use of an operand is counted once', z3.Implies(z3.And(t.gradfn != 0, t.rg), run.hget(BK + '.accumulated_n_outway', t.gradfn, L.Int) == simp(c0[i] + twice)))
    return f


KG = 'INNC::KnownGradBack'


def t_back1(key, cls, kind, d, od, shape, case):
    """step_back of an operation of one input; kind: what the input receives, shape: 'like' (the result has the sizes of the input) or 'scalar'"""
    rg, gk, fn = case

    def f(run):
        x = M.tensor(run, 'x', d); zero = z3.K(L.Int, I(1))
        o = M.tensor(run, 'o', od, sizes=(x.s, x.n) if shape == 'like' else (zero, I(0)))
        run.declare_ne(o.ref, x.ref); run.declare_ne(o.blob, x.blob)
        og = outgrad(run, o, od)
        m = None
        if kind == 'known':
            m = M.tensor(run, 'm', d, sizes=(x.s, x.n))
            for t in (x, o, og): run.declare_ne(m.ref, t.ref); run.declare_ne(m.blob, t.blob); run.declare_ne(m.st, t.st)
        if fn: run.assume(x.gradfn < 0)
        else: put(run, x.gradfn, I(0))
        put(run, x.rg, z3.BoolVal(bool(rg)))
        g = Grad(run, x, 'x', d, gk)
        if g.kind != 'absent':
            for t in (x, o, og) + ((m,) if m else ()):
                run.declare_ne(g.old.ref, t.ref); run.declare_ne(g.old.st, t.st)
                if g.kind == 'present': run.declare_ne(g.old.blob, t.blob)
        z = run.fresh('z', L.Int); N = L.Wt(x.s, x.n, I(0)); mg = og.mem(od); mm = m and m.mem(d)
        cnt = fl(run, 'i64', N)

        def partial(X):
            up = at_aug(mg, og.off, og.S, og.s, og.n, X, x.n)
            if kind == 'mean': return up * (1 / cnt)
            if kind == 'known': return up * at_aug(mm, m.off, m.S, m.s, m.n, X, x.n)
            return up

        def step(args, y_, k, p):
            X = L.unrank(x.s, x.n, k)
            hit = simp(g.off + L.dot(g.S, L.aug(g.s, g.n, X, x.n), g.n)) == y_
            return z3.If(hit, p + partial(X), p), [], g.base(z)
        ac = acc_fn('gacc1.%s.%s.%s.%s.%s' % (kind, d, od, shape, case), L.Real, [], step)
        want = ac(z, N) if rg and kind != 'none' else g.base(z)

        def each(run, lp, k, s, n_):
            K = lambda: run.load(k).t
            if not (isnum(x.grad) and x.grad.as_long() == 0) and touched(lp, d, g.now.blob): yield ('acc', 0), lambda: g.at(z) == ac(z, K())
            for it, ref in list(lp.mod.items()):  # a temporary filled with one value
                if kind in ('sum', 'mean') and it[0] == 'h' and it[1] == 'M.' + d and it[2] is not None and not any(ref.eq(b_) for b_ in blobs) and (g.old is None or not ref.eq(g.old.blob)):
                    zz = z3.Int('z!f')
                    def filled(ref=ref): mt = run.hget('M.' + d, ref, L.RA); return M.qall([zz], z3.Implies(z3.And(0 <= zz, zz < K()), mt[zz] == (1 if kind == 'sum' else 1 / cnt)), [mt[zz]])
                    yield ('filled', it), filled
            yield ('NN',), lambda: N == L.Wt(s, n_, I(0))
        run.ghost['each'] = [each]; blobs = [x.blob, o.blob, og.blob]
        c0 = counters(run, [x])
        b = node(run, cls, o, [x])
        if kind == 'known': t_ = run.hget(KG + '.grad', b.ref, L.Int); run.assume(t_ == m.ref); run.lits[t_.get_id()] = (t_, m.ref)
        try: call(run, key, b, [])
        except CppThrow: run.oblige('a backward step does not throw', z3.BoolVal(False)); return
        nm = 'the gradient of the input'
        if rg:
            run.oblige(nm + ' exists', x.grad != 0)
            u = g.now
            M.oblige_wf(run, u, nm, d)
            oblige_sizes(run, u, nm, x.s, x.n)
            run.oblige(nm + ' is increased by upstream times partial at every element', g.at(z) == want)
        else:
            run.oblige('an input that does not require grad gets no gradient', x.grad == (0 if g.old is None else g.old.ref))
            if g.kind == 'present': run.oblige('an input that does not require grad is left alone', g.at(z) == g.base(z))
        fx = run.ghost['fx'] = run.fresh('fx', L.Int); run.old.add(fx.get_id()); run.assume(fx < 0)
        if g.kind != 'absent': run.declare_ne(fx, g.old.st)
        if g.kind == 'present': run.declare_ne(fx, g.old.blob)
        run.declare_ne(fx, x.ref); run.declare_ne(fx, x.gradfn)
        M.frame(run, 'the backward step', keep=('blob.tag',))
        run.oblige('each use of an input is counted once', z3.Implies(z3.And(x.gradfn != 0, x.rg), run.hget(BK + '.accumulated_n_outway', x.gradfn, L.Int) == simp(c0[0] + 1)))
    return f


def t_absmask(key, dt):
    """abs() of a tensor that requires grad remembers the sign of every element"""
    def f(run):
        a = M.tensor(run, 'a', dt); g = run.fresh('g', L.Int); s, n, S, off, m = a.s, a.n, a.S, a.off, a.mem(dt)
        put(run, a.rg, z3.BoolVal(True))
        x = lambda X: sel(m, simp(off + L.dot(S, X, n)))
        ok = lambda v, X: z3.And(z3.Implies(x(X) > 0, v == 1), z3.Implies(x(X) < 0, v == -1), v >= -1, v <= 1)
        N = L.Wt(s, n, I(0)); G = L.unrank(s, n, g)

        def each(run, lp, k, s_, n_):
            K = lambda: run.load(k).t
            for it, ref in lp.mod.items():
                if it[0] == 'h' and it[1] == 'M.' + dt and it[2] is not None:
                    for t in M.tensors_of(run, ref): yield ('sign', it, t.ref.get_id()), lambda t=t: z3.Implies(z3.And(0 <= g, g < K()), ok(t.at(dt, L.unrank(s_, n_, g)), L.unrank(s_, n_, g)))
        run.ghost['each'] = [each]
        v = call(run, key, facade(run, a, 'a'), [])
        t = impl(run, v); w = 'sign mask of abs()'
        oblige_fn(run, t, 'result of abs()', KG, [a.ref], z3.BoolVal(True))
        k = T(run, run.hget(KG + '.grad', t.gradfn, L.Int))
        run.oblige(w + ' exists', k.ref != 0)
        oblige_sizes(run, k, w, s, n); M.oblige_wf(run, k, w, dt); oblige_fresh(run, k, w)
        run.oblige(w + ' is not the result', k.blob != t.blob)
        run.oblige(w + ' does not require grad', z3.Not(k.rg))
        run.oblige(w + ' holds the sign of every element', z3.Implies(z3.And(0 <= g, g < N), ok(k.at(dt, G), G)))
        M.frame(run, 'abs()')
    return f


KN = ['absent', 'present', 'unallocated']
QUICK = {('f32', 'f32', 'distinct'): [(0, 0), (1, 1), (1, 2), (2, 0)], ('f32', 'f64', 'distinct'): [(1, 1)], ('f64', 'f32', 'distinct'): [(0, 0)], ('i8', 'f32', 'distinct'): None, ('f32', 'i64', 'distinct'): None, ('i32', 'f64', 'distinct'): [(1, 1)], ('f64', 'i16', 'distinct'): [(0, 0)],
         ('f32', 'f32', 'same'): None, ('f64', 'f64', 'shared'): None}


def tasks(p):
    out = []
    for cls, op in (('AddBack', '+'), ('SubBack', '-'), ('MulBack', '*'), ('DivBack', '/')):
        ks = find(p, 'INNC::%s::step_back' % cls, 0)
        for ld in DTS:
            for rd in DTS:
                if ld[0] == 'i' and rd[0] == 'i': continue
                for md in ['distinct'] + (['shared', 'same'] if ld == rd else []):
                    for c in cases2(ld, rd, md):
                        name = 'gradient of %s (%s,%s), %s operands: %s' % (op, ld, rd, md, ', '.join('%s%s grad %s' % (KN[k], ' history' if f else '', 'required' if r else 'not required') for r, k, f in zip(*c)))
                        if not ks: out.append(Task(name, missing(name), None, A, group='gradarith'))
                        q = QUICK.get((ld, rd, md), ())
                        quick = q is None or c[1] in q
                        for i, k in enumerate(ks): out.append(Task(name + ('' if i == 0 else '#%d' % i), t_back2(k, 'INNC::' + cls, op, ld, rd, md, c), k, A, math=True, group='gradarith', opaque=True, quick=quick))
    for d in FD:
        ks = mem(p, 'abs', 0)
        for i, k in enumerate(ks): out.append(Task('sign mask of abs(%s)' % d + ('' if i == 0 else '#%d' % i), t_absmask(k, d), k, A, group='gradunary', opaque=True))
        if not ks: out.append(Task('sign mask of abs(%s)' % d, missing('abs'), None, A, group='gradunary'))
    C1 = [((1, k, f_), k != 1 or f_) for k in range(3) for f_ in (0, 1)] + [((0, 1, 1), True)]
    for cls, kind, shapes, ods, grp in (('SumBack', 'sum', ['scalar'], None, 'gradunary'), ('MeanBack', 'mean', ['scalar'], None, 'gradunary'), ('KnownGradBack', 'known', ['like', 'scalar'], None, 'gradunary'),
                                        ('CloneBack', 'copy', ['like'], FD, 'gradview'), ('NoBack', 'none', ['like', 'scalar'], None, 'gradview')):
        ks = find(p, 'INNC::%s::step_back' % cls, 0)
        for d in FD:
            for od in (ods or (['f64'] if kind in ('sum', 'mean') else [d])):
                for sh in shapes:
                    for c, q in C1:
                        name = 'gradient step %s (%s to %s, %s result): %s%s grad %s' % (cls, d, od, sh, KN[c[1]], ' history' if c[2] else '', 'required' if c[0] else 'not required')
                        if not ks: out.append(Task(name, missing(name), None, A, group=grp))
                        for i, k in enumerate(ks): out.append(Task(name + ('' if i == 0 else '#%d' % i), t_back1(k, 'INNC::' + cls, kind, d, od, sh, c), k, A, math=True, group=grp, opaque=True))
    return out
