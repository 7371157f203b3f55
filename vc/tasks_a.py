"""Proofs of the contracts of the index-arithmetic layer (model.A_LAYER)."""
import z3
from . import logic as L, model as M
from .logic import I, sel, simp, isnum
from .engine import *
from .model import T, TI, LY, SL


class Task:
    """one proof: `run` drives the real function and states its postconditions"""
    def __init__(self, name, fn, key=None, contracts=(), math=False, group=None, maxpaths=4000, opaque=False, quick=True):
        self.quick = quick  # part of the quick tier (the thorough tier runs every task)
        self.name = name; self.fn = fn; self.key = key; self.contracts = contracts; self.math = math; self.group = group; self.maxpaths = maxpaths; self.opaque = opaque


def find(p, q, n=None, pred=None):
    return [k for k in p.byname.get(q, ()) if (n is None or len(p.decls[k]['pt']) == n) and (pred is None or pred(p.decls[k]))]


def layout(run, nm='L', signed=True):
    """an arbitrary StridedLayout object"""
    r = run.oldref(nm); s = M.vecval(run, nm + '.s'); S = M.vecval(run, nm + '.S', 'INNC::SignedVec', True)
    run.assume(S.n == s.n)
    run.hset(LY + '.sizes.len', r, s.n); run.hset(LY + '.sizes.arr', r, s.a)
    run.hset(SL + '.strides.len', r, s.n); run.hset(SL + '.strides.arr', r, S.a)
    off = run.fresh(nm + '.off', L.Int); run.hset(SL + '.offset', r, off)
    return r, VV(s.n, s.a, 'INNC::SizeVec'), VV(s.n, S.a, 'INNC::SignedVec'), off


def t_numel(key):
    def f(run):
        r, s, S, off = layout(run)
        v = run.run_function(key, LObj(r, SL), [])
        run.oblige('numel is the product of the sizes', v.t == L.Wt(s.a, s.n, I(0)))
    return f


def t_ctor(key):
    def f(run):
        s = M.vecval(run, 's')
        run.eng.assumed.add('products of the sizes of one tensor are below 2^63')
        o = run.construct(SL, key, [LTmp(s)])
        n1 = run.hget(LY + '.sizes.len', o.ref, L.Int); a1 = run.hget(LY + '.sizes.arr', o.ref, L.IA)
        n2 = run.hget(SL + '.strides.len', o.ref, L.Int); a = run.hget(SL + '.strides.arr', o.ref, L.IA)
        run.oblige('one size per dimension', n1 == s.n)
        run.oblige('one stride per dimension', n2 == s.n)
        j = run.fresh('j', L.Int); run.assume(z3.And(0 <= j, j < s.n))
        run.oblige('sizes are kept', sel(a1, j) == sel(s.a, j))
        run.oblige('strides are row-major', sel(a, j) == L.Wt(s.a, s.n, j + 1))
        run.oblige('offset is zero', run.hget(SL + '.offset', o.ref, L.Int) == 0)
    return f


def t_cnt(key):
    def f(run):
        r, s, S, off = layout(run)
        x = M.vecval(run, 'x'); run.ghost['vecs'] = [('S', S)]
        try: v = run.run_function(key, LObj(r, SL), [LTmp(x)])
        except CppThrow: run.oblige('index arithmetic throws only on a wrong number of indices', x.n != s.n); return
        run.oblige('index arithmetic accepts only one index per dimension', x.n == s.n)
        run.oblige('position is offset plus the sum of stride times index', v.t == off + L.dot(S.a, x.a, s.n))
    return f


def t_aug(key):
    def f(run):
        t = M.tensor(run, 't', alloc=False, inj=False); x = M.vecval(run, 'x')
        s, n, m = t.s, t.n, x.n
        run.assume(m >= n); j = z3.Int('j!au')
        xi = x.a[m - n + j]
        run.assume(M.qall([j], z3.Implies(z3.And(0 <= j, j < n, s[j] != 1), z3.And(xi >= 0, xi < s[j])), [s[j]]))
        A = L.aug(s, n, x.a, m); run.ghost['specs'] = [('aug', lambda q: A[q])]
        S = t.S
        try: v = run.run_function(key, t.obj(), [LTmp(x)])
        except CppThrow: run.oblige('broadcast index arithmetic does not throw for an index in range', z3.BoolVal(False)); return
        run.oblige('broadcast position', v.t == t.off + L.dot(S, A, n))
    return f


def t_bc(key):
    def f(run):
        u, v = M.vecval(run, 'u'), M.vecval(run, 'v')
        for g in M.bcok_facts(u.a, u.n, v.a, v.n): run.assume(g)
        n = M.bcdim(u.n, v.n); R = L.mkbca(u.a, u.n, v.a, v.n); ok = M.bc_ok_at(u.a, u.n, v.a, v.n)
        run.ghost['specs'] = [('bca', lambda q: R[q])]
        run.ghost['preds'] = [('bcok', I(0), n, ok, lambda q: [R[q], u.a[q - (n - u.n)], v.a[q - (n - v.n)]])]
        c = M.bcok(u.a, u.n, v.a, v.n)
        try: w = run.run_function(key, None, [LTmp(u), LTmp(v)])
        except CppThrow: run.oblige('broadcasting rejects only incompatible sizes', z3.Not(c)); return
        run.oblige('broadcasting rejects incompatible sizes', c)
        run.oblige('broadcast result has the larger number of dimensions', w.n == n)
        j = run.fresh('j', L.Int); run.assume(z3.And(0 <= j, j < n))
        run.oblige('broadcast sizes', sel(w.a, j) == sel(R, j))
    return f


def t_each(key):
    def f(run):
        v = M.vecval(run, 'rg'); s, n = v.a, v.n
        run.eng.assumed.add('products of the sizes of one tensor are below 2^60')
        N = L.Wt(s, n, I(0)); run.assume(N * 8 < M.B63)
        k = run.cell('k', IV(0), run.eng.size_t)
        run.ghost['rankcell'] = k.c; run.ghost['vecs'] = [('rg', v)]

        def op(run, args):
            x = run.val(args[0]); kk = run.load(k).t
            run.oblige('iteration visits indices of the right dimension', x.n == n)
            run.oblige('iteration visits indices in range', L.inr(x.a, s, n))
            run.oblige('iteration visits indices in row-major order without gaps', L.rank(s, n, x.a) == kk)
            run.store(k, IV(simp(kk + 1)))
            return None
        rg = LTmp(v)
        run.run_function(key, None, [rg, AbsOp(op)])
        run.oblige('iteration visits every index', run.load(k).t == N)
    return f


def shape(p, key):
    """structure of a function body without type and declaration identities"""
    def w(x):
        if isinstance(x, dict):
            if x.get('k') == 'lambda':
                ks = p.lamfn.get(x['lam'], [])
                return ('lam', [(c.get('n'), c.get('ref')) for c in x['caps']], [w(p.fns[q]['body']) for q in ks])
            return tuple((a, w(b)) for a, b in sorted(x.items()) if a not in ('t', 'at', 'ct', 'ft', 'd', 'key', 'tu', 'fn', 'l', 'line', 'id', 'vsig'))
        if isinstance(x, list): return tuple(w(y) for y in x)
        if isinstance(x, (str, int, float, bool)) or x is None: return x
        return type(x).__name__
    return repr(w(p.fns[key]['body']))


def uniq(p, keys):
    seen = {}
    for k in keys: seen.setdefault(shape(p, k), k)
    return list(seen.values())


def tasks(p):
    out = []
    A = M.A_LAYER
    def add(name, ks, mk, contracts=A):
        for i, k in enumerate(ks): out.append(Task(name + ('' if i == 0 else '#%d' % i), mk(k), k, contracts))
    add('Layout::numel', find(p, 'INNC::Layout::numel'), t_numel)
    add('StridedLayout(sizes)', find(p, 'INNC::StridedLayout::StridedLayout', 1, lambda d: not d.get('copy') and not d.get('move')), t_ctor)
    add('StridedLayout::cnt_from_index', find(p, 'INNC::StridedLayout::cnt_from_index'), t_cnt)
    add('TensorImpl::cnt_from_aug_index', find(p, 'INNC::TensorImpl::cnt_from_aug_index'), t_aug)
    add('broadcast_range', find(p, 'INNC::broadcast_range', 2, lambda d: all(x.c == 'ref' for x in d['pt'])), t_bc)
    add('for_each_sizevec', uniq(p, find(p, 'INNC::for_each_sizevec')), t_each)
    return out
