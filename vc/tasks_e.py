"""API-level proofs: in-place addition, and gradients."""
import z3
from . import logic as L, model as M
from .logic import I, sel, simp, isnum
from .engine import *
from .model import T, TI, LY, SL
from .tasks_a import Task, find
from .tasks_b import *
from .tasks_c import mem, missing, const_term, FALSE, A


def acc_fn(nm, dsort, nargs_sorts, step):
    """acc(args..., y, k): value of element y of the destination after the first k result indices were accumulated;
    step(args, y, k, prev) is its value after index k when it is prev before"""
    f = z3.Function(nm, *(list(nargs_sorts) + [L.Int, L.Int, dsort]))

    def gen(t):
        c = t.children(); args, y, k = c[:-2], c[-2], c[-1]; k1 = simp(k - 1)
        p = f(*(args + [y, k1])); st, facts, base = step(args, y, k1, p)
        return facts + [z3.Implies(k1 <= 0, p == base), z3.Implies(k <= 0, t == base), z3.Implies(k > 0, t == st)]
    L.EXTRA[nm] = [gen]
    return f


_sf = {}


def spec_fn(run, f, *sorts):
    """f(args) as a substitution instance of a term built once: (term, facts about the term)"""
    k = len(_sf); _sf[k] = 1; vs = [z3.Const('pv!%d.%d' % (k, i), s) for i, s in enumerate(sorts)]
    pc0 = len(run.pc); t = f(*vs); facts = run.pc[pc0:]; del run.pc[pc0:]
    return lambda *a: (z3.substitute(t, *zip(vs, a)), [z3.substitute(x, *zip(vs, a)) for x in facts])


def at_aug(m, off, S, s, n, X, k): return sel(m, simp(off + L.dot(S, L.aug(s, n, X, k), n)))


def t_iadd(key, ld, rd, mode='disjoint'):
    """mode: disjoint storages; 'shared': views of one storage with no element in common; 'self': a += a"""
    es = lambda d: L.IA if d[0] == 'i' else L.RA
    ds = L.Int if ld[0] == 'i' else L.Real

    def f(run):
        a = M.tensor(run, 'a', ld); b = a if mode == 'self' else M.tensor(run, 'b', rd)
        if mode == 'disjoint': run.declare_ne(a.blob, b.blob); run.declare_ne(a.st, b.st)
        if mode == 'shared':
            for u, v in ((b.st, a.st), (b.blob, a.blob), (b.bytes, a.bytes)): run.assume(u == v); run.lits[u.get_id()] = (u, v)
        rga = a.rg
        n = M.bcdim(a.n, b.n); R = L.mkbca(a.s, a.n, b.s, b.n); c = M.bcok(a.s, a.n, b.s, b.n)
        for x in M.bcok_facts(a.s, a.n, b.s, b.n): run.assume(x)
        m0, mb = a.mem(ld), b.mem(rd); offa, Sa, sa, na = a.off, a.S, a.s, a.n; offb, Sb, sb, nb = b.off, b.S, b.s, b.n
        y = run.fresh('y', L.Int); run.assume(z3.And(0 <= y, y < L.Wt(sa, na, I(0))))
        Y = L.unrank(sa, na, y); sl = simp(offa + L.dot(Sa, Y, na)); N = L.Wt(R, n, I(0))
        z = run.fresh('z', L.Int); Xz = z3.Const('X!z', L.IA); dz = L.dot(Sa, Xz, na)
        run.assume(M.qall([Xz], z3.Implies(L.inr(Xz, sa, na), offa + dz != z), [dz]))

        Xb = z3.Const('X!b', L.IA); db = L.dot(Sb, Xb, nb)
        if mode == 'shared': run.assume(M.qall([Xz, Xb], z3.Implies(z3.And(L.inr(Xz, sa, na), L.inr(Xb, sb, nb)), offa + dz != offb + db), [z3.MultiPattern(dz, db)]))

        def step(args, y_, k, p):
            X = L.unrank(R, n, k); ax = L.aug(sa, na, X, n)
            v = at_aug(mb, offb, Sb, sb, nb, X, n)
            st, facts = plus(p, v)
            return z3.If(L.dot(L.wts(sa, na), ax, na) == y_, st, p), facts, sel(m0, sl)
        plus = spec_fn(run, lambda p, v: scalar(run, '+', val(run, ld, p), ld, val(run, rd, v), rd, ld), ds, L.Int if rd[0] == 'i' else L.Real)
        dbl = scalar(run, '+', val(run, ld, sel(m0, sl)), ld, val(run, ld, sel(m0, sl)), ld, ld)
        acc = acc_fn('acc.%s.%s.%s' % (ld, rd, mode), ds, [], step)

        def each(run, lp, k, s, n_):
            K = lambda: run.load(k).t
            if mode != 'self': yield ('acc',), lambda: sel(a.mem(ld), sl) == acc(y, K())
            if mode == 'shared': yield ('keepb',), lambda: M.qall([Xb], z3.Implies(L.inr(Xb, sb, nb), a.mem(ld)[offb + db] == m0[offb + db]), [db])
            if mode == 'self':
                yield ('rk',), lambda: z3.Implies(K() < N, z3.And(L.rank(sa, na, L.unrank(sa, na, K())) == K(), L.rank(sa, na, L.aug(sa, na, L.unrank(R, n, K()), n)) == K()))
                yield ('rkN',), lambda: z3.And(na == n, N == L.Wt(sa, na, I(0)))
                yield ('todo',), lambda: z3.Implies(K() <= y, sel(a.mem(ld), sl) == sel(m0, sl))
                yield ('done',), lambda: z3.Implies(K() > y, sel(a.mem(ld), sl) == dbl)
            yield ('accz',), lambda: sel(a.mem(ld), z) == sel(m0, z)
        run.ghost['each'] = [each]
        ha = facade(run, a, 'a')
        try: v = call(run, key, ha, [facade(run, b, 'b')])
        except CppThrow as ex:
            thrown(run, ex, 'a rejected +=')
            run.oblige('+= throws only for a left operand that requires grad or shapes that do not broadcast', z3.Or(rga, z3.Not(c)))
            run.oblige('+= that throws changes nothing', sel(a.mem(ld), sl) == sel(m0, sl)); M.frame(run, '+= that throws')
            return
        run.oblige('+= rejects a left operand that requires grad', z3.Not(rga))
        run.oblige('+= rejects shapes that do not broadcast', c)
        run.oblige('+= returns its left operand', run.hget(TN + '.fptr', v.ref, L.Int) == a.ref)
        run.oblige('+= adds every aligned element of the right operand exactly once', sel(a.mem(ld), sl) == (dbl if mode == 'self' else acc(y, N)))
        run.oblige('+= writes only elements of the left operand', sel(a.mem(ld), z) == sel(m0, z))
        x = run.ghost['fx'] = run.fresh('x', L.Int); run.old.add(x.get_id()); run.assume(x < 0); run.declare_ne(x, a.blob)
        M.frame(run, '+=', keep=('blob.tag',))
    return f


def tasks(p):
    out = []
    def add(name, ks, mk, grp, cs=A, rec=False, opaque=True):
        if not ks: out.append(Task(name, missing(name), None, A, group=grp))
        for i, k in enumerate(ks): out.append(Task(name + ('' if i == 0 else '#%d' % i), mk(k), None if rec else k, cs, group=grp, opaque=opaque))
    for ld in DTS:
        for rd in DTS: add('operator+=(%s,%s)' % (ld, rd), mem(p, 'operator+=', 1), lambda k: t_iadd(k, ld, rd), 'iadd')
        for md in ('self', 'shared'): add('operator+=(%s,%s), %s' % (ld, ld, md), mem(p, 'operator+=', 1), lambda k: t_iadd(k, ld, ld, md), 'iadd')
    return out
