"""API-level proofs: forward operations."""
import z3
from . import logic as L, model as M
from .logic import I, sel, simp, isnum
from .engine import *
from .model import T, TI, LY, SL
from .tasks_a import Task, find

DTS = DT.order


def cty(prog, dt):
    """the C++ type of a dtype"""
    for tu in prog.tus:
        for t in tu.types:
            if t.const: continue
            if dt[0] == 'f' and t.c == 'float' and t.bits == int(dt[1:]): return t
            if dt[0] == 'i' and t.c == 'int' and t.sg and t.bits == int(dt[1:]) and t.s in ('signed char', 'short', 'int', 'long', 'int8_t', 'int16_t', 'int32_t', 'int64_t', 'std::int8_t', 'std::int16_t', 'std::int32_t', 'std::int64_t'): return t
    raise Unsupported('type ' + dt)


def larger(a, b): return DTS[max(DTS.index(a), DTS.index(b))]


def common(prog, a, b):
    """usual arithmetic conversions"""
    if 'f' in a[0] + b[0]:
        fs = [x for x in (a, b) if x[0] == 'f']
        return cty(prog, 'f64' if 'f64' in fs else 'f32')
    return cty(prog, 'i64' if 'i64' in (a, b) else 'i32')


def val(run, dt, term):
    if dt[0] == 'f': return FV(term)
    lo, hi = irange(cty(run.prog, dt)); run.assume(z3.And(term >= lo, term <= hi)); return IV(term, lo, hi)


def elem(run, t, dt, X, m=None):
    """the element of tensor t at (broadcast) index X"""
    return val(run, dt, sel(t.mem(dt), t.slot(X) if m is None else t.augslot(X, m)))


def to_mem(run, v, ct, dt):
    """memory term of value v of C type ct converted to dtype dt"""
    d = cty(run.prog, dt); w = run.conv(v, ct, d)
    return run.wrapped(w, d) if isinstance(w, IV) else w.t


def scalar(run, op, a, ad, b, bd, out):
    ct = common(run.prog, ad, bd)
    x, y = run.conv(a, cty(run.prog, ad), ct), run.conv(b, cty(run.prog, bd), ct)
    if op in ('<', '>', '<=', '>=', '==', '!='):
        r = run.compare(op, x, y, ct); return z3.If(r.t, I(1), I(0))
    return to_mem(run, run.arith(op, x, y, ct), ct, out)


TN = 'INNC::Tensor'


def facade(run, t, nm):
    """an arbitrary pre-existing Tensor handle on tensor t"""
    r = run.oldref('h.' + nm); f = run.hget(TN + '.fptr', r, L.Int)
    run.assume(f == t.ref); run.lits[f.get_id()] = (f, t.ref)
    return LObj(r, TN)


def impl(run, v):
    """the tensor behind a returned Tensor handle"""
    ref = run.hget(TN + '.fptr', v.ref, L.Int)
    run.oblige('a returned tensor is not empty', ref != 0)
    return T(run, ref)


def call(run, key, this, args): return run.run_function(key, this, args)


BK = 'INNC::Backward'


def oblige_fn(run, t, w, cls, inputs, rg):
    """the history of result t: class of the backward step and its inputs"""
    if z3.is_false(simp(rg)): run.oblige(w + ' has no history', t.gradfn == 0); return
    f = t.gradfn
    run.oblige(w + ' has a history exactly when it requires grad', (f != 0) == rg)
    g = lambda c, s=L.Int: run.hget(BK + '.' + c, f, s)
    run.oblige(w + ' has the right kind of backward step', z3.Implies(rg, run.hget('dyn', f, L.Int) == run.cid(cls)))
    ins = [g('input_tfs.len') == len(inputs)] + [sel(g('input_tfs.arr', L.IA), I(i)) == x for i, x in enumerate(inputs)]
    run.oblige(w + ' remembers its operands', z3.Implies(rg, z3.And(*ins)))
    run.oblige(w + ' starts with cleared traversal counters', z3.Implies(rg, z3.And(g('this_tf') == t.ref, g('n_outway') == 0, g('accumulated_n_outway') == 0, g('back_version') == 0)))


def oblige_sizes(run, t, w, s, n):
    run.oblige(w + ' has the right number of dimensions', t.n == n)
    j = run.fresh('j', L.Int)
    run.oblige(w + ' has the right sizes', z3.Implies(z3.And(0 <= j, j < n), sel(t.s, j) == sel(s, j)))


def thrown(run, ex, what, ty='runtime_error'):
    run.oblige('%s throws %s' % (what, ty), z3.BoolVal(str(ex.ty).endswith(ty)))


def is_fresh(run, t): return isnum(t.st) and t.st.as_long() > 0


def oblige_fresh(run, t, w):
    run.oblige(w + ' has storage of its own', z3.And(t.st > 0, t.blob > 0))


def t_binop(key, op, ld, rd, cmp=False):
    out = 'i8' if cmp else larger(ld, rd); cls = {'+': 'INNC::AddBack', '-': 'INNC::SubBack', '*': 'INNC::MulBack', '/': 'INNC::DivBack'}.get(op)

    def f(run):
        l, r = M.tensor(run, 'l', ld), M.tensor(run, 'r', rd)
        n = M.bcdim(l.n, r.n); R = L.mkbca(l.s, l.n, r.s, r.n); c = M.bcok(l.s, l.n, r.s, r.n)
        for x in M.bcok_facts(l.s, l.n, r.s, r.n): run.assume(x)
        g = run.fresh('g', L.Int)
        run.ghost['divok'] = True

        def spec(X, m, t, dt):
            if dt != out: return None
            return scalar(run, op, elem(run, l, ld, X, m), ld, elem(run, r, rd, X, m), rd, out)
        run.ghost['map'] = [M.Map(g, spec)]
        lg, rg = l.rg, r.rg
        try: v = call(run, key, None, [facade(run, l, 'l'), facade(run, r, 'r')])
        except CppThrow as ex:
            run.oblige('operator %s rejects only shapes that do not broadcast' % op, z3.Not(c)); thrown(run, ex, 'a rejected operator ' + op); M.frame(run, 'a rejected operator ' + op); return
        run.oblige('operator %s rejects shapes that do not broadcast' % op, c)
        t = impl(run, v); w = 'result of ' + op
        oblige_sizes(run, t, w, R, n)
        M.oblige_wf(run, t, w, out); oblige_fresh(run, t, w)
        X = L.unrank(R, n, g)
        run.oblige(w + ' holds the scalar operation at every index', z3.Implies(z3.And(0 <= g, g < L.Wt(R, n, I(0))), t.at(out, X) == spec(X, n, t, out)))
        if not cmp: run.oblige(w + ' requires grad exactly when an operand does', t.rg == z3.Or(lg, rg))
        else: run.oblige(w + ' does not require grad', z3.Not(t.rg))
        run.oblige(w + ' has no gradient yet', t.grad == 0)
        oblige_fn(run, t, w, cls, [l.ref, r.ref], z3.BoolVal(False) if cmp else z3.Or(lg, rg))
        M.frame(run, 'operator ' + op)
    return f


AR = [('+', 'operator+'), ('-', 'operator-'), ('*', 'operator*'), ('/', 'operator/')]
CM = [(o, 'operator' + o) for o in ('<', '>', '<=', '>=', '==', '!=')]


def impl_fn(p, name, n=2):
    """friend operators on Tensor"""
    return find(p, 'INNC::' + name, n, lambda d: all('TensorImpl' not in x.s and 'Tensor' in x.s for x in d['pt']))


def tasks(p):
    out = []; A = M.A_LAYER
    for ops, cmp, grp in ((AR, False, 'arith'), (CM, True, 'cmp')):
        for op, fn in ops:
            for k in impl_fn(p, fn):
                for ld in DTS:
                    for rd in DTS: out.append(Task('operator%s(%s,%s)' % (op, ld, rd), t_binop(k, op, ld, rd, cmp), k, A, group=grp, opaque=True))
    return out
