"""Tensor model: well-formedness, spec-level helpers, and the contracts of the index-arithmetic layer."""
import z3
from . import logic as L
from .logic import I, sel, simp, isnum
from .engine import *
from .exec import Loop

TI = 'INNC::TensorImpl'; LY = 'INNC::Layout'; SL = 'INNC::StridedLayout'; US = 'UntypedStorage'
B63 = 1 << 63


def qall(vs, body, pats): return z3.ForAll(vs, body, patterns=pats)


class T:
    """a tensor (TensorImpl object) as seen in the current state of a run"""
    def __init__(self, run, ref): self.run = run; self.ref = ref

    def f(self, n, sort=L.Int): return self.run.hget(TI + '.' + n, self.ref, sort)

    @property
    def view(self): return self.f('view')

    @property
    def st(self): return self.f('data_')

    @property
    def n(self): return self.run.hget(LY + '.sizes.len', self.view, L.Int)

    @property
    def s(self): return self.run.hget(LY + '.sizes.arr', self.view, L.IA)

    @property
    def Sn(self): return self.run.hget(SL + '.strides.len', self.view, L.Int)

    @property
    def S(self): return self.run.hget(SL + '.strides.arr', self.view, L.IA)

    @property
    def off(self): return self.run.hget(SL + '.offset', self.view, L.Int)

    @property
    def dtype(self): return self.f('dtype')

    @property
    def blob(self): return self.run.hget(US + '.blob', self.st, L.Int)

    @property
    def stsize(self): return self.run.hget(US + '.size', self.st, L.Int)

    @property
    def bytes(self): return self.run.hget('blob.bytes', self.blob, L.Int)

    @property
    def rg(self): return self.f('requires_grad', L.Bool)

    @property
    def grad(self): return self.f('grad')

    @property
    def gradfn(self): return self.f('grad_fn')

    def slot(self, X): return simp(self.off + L.dot(self.S, X, self.n))

    def augslot(self, X, m): return simp(self.off + L.dot(self.S, L.aug(self.s, self.n, X, m), self.n))

    def mem(self, dt): return self.run.mem(dt, self.blob)

    def at(self, dt, X): return sel(self.mem(dt), self.slot(X))

    def vec(self): return VV(self.n, self.s, 'INNC::SizeVec')

    def numel(self): return L.Wt(self.s, self.n, I(0))

    def obj(self): return LObj(self.ref, TI)

    def op(self): return OP(self.ref, TI)


def sizes_ok(s, n):
    j = z3.Int('j!so')
    return [n >= 0, n < (1 << 31), L.nonneg(s, n), qall([j], z3.Implies(z3.And(0 <= j, j < n), s[j] < B63), [s[j]])]


def size_of(dt_term):
    if isnum(dt_term): return I(DT.size[DT.order[dt_term.as_long()]])
    return z3.If(dt_term == 0, I(1), z3.If(dt_term == 1, I(2), z3.If(z3.Or(dt_term == 2, dt_term == 4), I(4), I(8))))


def bounds_fact(t, sz=None):
    """every in-range index addresses an element inside the storage"""
    X = z3.Const('X!b', L.IA); S, n, s, off = t.S, t.n, t.s, t.off
    sz = sz if sz is not None else size_of(t.dtype)
    d = L.dot(S, X, n)
    nb = t.bytes
    def times(x): return x if isnum(sz) and sz.as_long() == 1 else x * sz
    return qall([X], z3.Implies(L.inr(X, s, n), z3.And(0 <= off + d, times(off + d + 1) <= nb)), [d])


def inj_fact(t): return inj_form(t.S, t.s, t.n)


def inj_form(S, s, n):
    X, Y = z3.Const('X!i', L.IA), z3.Const('Y!i', L.IA)
    return qall([X, Y], z3.Implies(z3.And(L.inr(X, s, n), L.inr(Y, s, n), L.dot(S, X, n) == L.dot(S, Y, n)), L.rank(s, n, X) == L.rank(s, n, Y)),
                [z3.MultiPattern(L.dot(S, X, n), L.dot(S, Y, n))])


def wf_parts(t, dt=None, alloc=True, inj=True, post=False):
    """(name, formula) list: the representation invariant of a tensor"""
    out = [('has a layout', t.view != 0), ('has a storage', t.st != 0), ('layout is strided', t.f('dlayout') == 0), ('layout is a StridedLayout', t.run.hget('dyn', t.view, L.Int) == t.run.cid(SL)),
           ('one stride per dimension', t.Sn == t.n)]
    out += [('sizes are valid', f) for f in sizes_ok(t.s, t.n)]
    out.append(('element count is representable', t.numel() * 8 < B63))
    out.append(('dtype is valid', z3.And(t.dtype >= 0, t.dtype <= 5) if dt is None else t.dtype == DT.order.index(dt)))
    sz = I(DT.size[dt]) if dt else None
    if alloc:
        out += [('storage is allocated', t.blob != 0), ('storage has its recorded size', z3.And(t.bytes == t.stsize, t.bytes >= 0, t.bytes < B63))]
        out.append(('elements lie inside the storage', bounds_fact(t, sz)))
        tag = t.run.hget('blob.tag', t.blob, L.Int)
        out.append(('storage holds elements of the dtype', z3.Or(tag == t.dtype, tag == -1) if not post else z3.Or(tag == t.dtype, tag == -1, t.numel() == 0)))
    if inj: out.append(('distinct indices address distinct elements', inj_fact(t)))
    return out


def assume_wf(run, t, dt=None, alloc=True, inj=True):
    if dt is not None and not isnum(t.dtype): run.set_lit(t.dtype, DT.order.index(dt))
    if not isnum(t.f('dlayout')): run.set_lit(t.f('dlayout'), 0)
    for nm, f in wf_parts(t, dt, alloc, inj): run.assume(f)
    # the previous fact at the only index of a rank-0 tensor
    if alloc: run.assume(z3.Implies(t.n == 0, z3.And(0 <= t.off, (t.off + 1) * (I(DT.size[dt]) if dt else size_of(t.dtype)) <= t.bytes)))


def oblige_wf(run, t, what, dt=None, alloc=True, inj=True):
    for nm, f in wf_parts(t, dt, alloc, inj, post=True): run.oblige('%s: %s' % (what, nm), f)


def alias(run, term, name, ref=False):
    """gives an initial heap term a short name"""
    if z3.is_const(term): return term
    c = z3.Const(name, term.sort()); run.born[name] = 0
    run.assume(term == c); run.lits[term.get_id()] = (term, c)
    if ref: run.old.add(c.get_id())
    return c


def tensor(run, name, dt=None, alloc=True, inj=True, sizes=None):
    ref = run.oldref(name); t = T(run, ref)
    alias(run, t.view, name + '.view', True); alias(run, t.st, name + '.st', True)
    if sizes is not None:
        # sizes beyond the last dimension are not observable, so the whole array may be identified with the given one
        for u, v in ((t.s, sizes[0]), (t.n, sizes[1])): run.assume(u == v); run.lits[u.get_id()] = (u, v)
    else: alias(run, t.n, name + '.n'); alias(run, t.s, name + '.s')
    alias(run, t.S, name + '.S'); alias(run, t.off, name + '.off')
    alias(run, t.Sn, name + '.Sn')
    if alloc: alias(run, t.blob, name + '.blob', True); alias(run, t.bytes, name + '.bytes')
    alias(run, t.grad, name + '.grad', True); alias(run, t.gradfn, name + '.fn', True); alias(run, t.rg, name + '.rg')
    assume_wf(run, t, dt, alloc, inj)
    return t


def vecval(run, nm, ety='INNC::SizeVec', signed=False):
    n = run.fresh(nm + '.n', L.Int); a = run.fresh(nm, L.IA)
    if signed:
        j = z3.Int('j!sv')
        run.assume(z3.And(n >= 0, n < (1 << 31))); run.assume(qall([j], z3.And(a[j] >= -B63, a[j] < B63), [a[j]]))
    else:
        for f in sizes_ok(a, n): run.assume(f)
    return VV(n, a, ety)


def index(run, nm, s, n):
    """an arbitrary in-range index"""
    X = run.fresh(nm, L.IA); run.assume(L.inr(X, s, n)); return X


# ---------------------------------------------------------------- broadcasting
def bcdim(nu, nv): return L.bdim(nu, nv)


def bc_ok_at(u, nu, v, nv):
    """j -> sizes agree at result dimension j"""
    def f(j):
        n = bcdim(nu, nv); iu, iv = j - (n - nu), j - (n - nv)
        a, b = u[simp(iu)], v[simp(iv)]
        return z3.Implies(z3.And(iu >= 0, iv >= 0), z3.Or(a == b, z3.And(a == 1, b >= 1), z3.And(b == 1, a >= 1)))
    return f


bcok_ = z3.Function('bcok', L.IA, L.Int, L.IA, L.Int, L.Bool)


def bcok(u, nu, v, nv):
    if u.eq(v) and nu.eq(nv): return z3.BoolVal(True)
    return bcok_(u, nu, v, nv) if L._key(u, nu) <= L._key(v, nv) else bcok_(v, nv, u, nu)



def bcok_facts(u, nu, v, nv):
    if L._key(u, nu) > L._key(v, nv): u, nu, v, nv = v, nv, u, nu
    n = bcdim(nu, nv); j = z3.Int('j!bk'); f = bc_ok_at(u, nu, v, nv); w = L.skolem('bcw', u, nu, v, nv)
    c = bcok(u, nu, v, nv); R = L.mkbca(u, nu, v, nv)
    if z3.is_true(c): return []
    for a, na, r in ((u, nu, v), (v, nv, u)):
        # a size vector broadcasts with its broadcast with another
        if R.eq(r) and z3.is_app(r) and r.decl().name() == 'bca' and ((r.arg(0).eq(a) and r.arg(1).eq(na)) or (r.arg(2).eq(a) and r.arg(3).eq(na))): return [z3.Implies(bcok(*r.children()), c)]
    b = f(j)
    pats = [R[j], u[j - (n - nu)] if not nu.eq(n) else u[j], v[j - (n - nv)] if not nv.eq(n) else v[j]]
    return [z3.Implies(c, qall([j], z3.Implies(z3.And(0 <= j, j < n), b), pats)),
            z3.Or(c, z3.And(0 <= w, w < n, z3.Not(f(w))))]


# ---------------------------------------------------------------- contracts
class Contract:
    q = None; nargs = None

    def matches(self, prog, key, d):
        return d['q'] == self.q and (self.nargs is None or len(d['pt']) == self.nargs) and self.accept(prog, key, d)

    def accept(self, prog, key, d): return True

    def used(self, run): run.eng.used.add(self.__class__.__name__)


class CNumel(Contract):
    """Layout::numel: the product of the sizes (mod 2^64)"""
    q = 'INNC::Layout::numel'

    def apply(self, run, key, this, args):
        s = run.hget(LY + '.sizes.arr', this.ref, L.IA); n = run.hget(LY + '.sizes.len', this.ref, L.Int)
        return IV(L.Wt(s, n, I(0)))


class CCtor(Contract):
    """StridedLayout(sizes): row-major strides, offset 0"""
    q = 'INNC::StridedLayout::StridedLayout'; nargs = 1

    def accept(self, prog, key, d): return not d.get('copy') and not d.get('move')

    def apply(self, run, key, this, args):
        v = run.val(args[0]); r = this.ref
        run.hset(LY + '.sizes.len', r, v.n); run.hset(LY + '.sizes.arr', r, v.a)
        run.hset(SL + '.strides.len', r, v.n); run.hset(SL + '.strides.arr', r, L.wts(v.a, v.n)); run.hset(SL + '.offset', r, I(0))
        return None


class CCnt(Contract):
    """StridedLayout::cnt_from_index: throws on a wrong number of indices, else offset + sum of stride*index"""
    q = 'INNC::StridedLayout::cnt_from_index'

    def apply(self, run, key, this, args):
        x = run.val(args[0]); r = this.ref
        n = run.hget(LY + '.sizes.len', r, L.Int); S = run.hget(SL + '.strides.arr', r, L.IA); off = run.hget(SL + '.offset', r, L.Int)
        run.oblige('one stride per dimension', run.hget(SL + '.strides.len', r, L.Int) == n)
        if not run.branch(x.n == n): raise CppThrow('std::runtime_error')
        return IV(simp(off + L.dot(S, x.a, n)))


class CAug(Contract):
    """TensorImpl::cnt_from_aug_index for an index of at least as many dimensions that is in range
    wherever the size is not 1"""
    q = 'INNC::TensorImpl::cnt_from_aug_index'

    def apply(self, run, key, this, args):
        x = run.val(args[0]); t = T(run, this.ref); j = z3.Int('j!au')
        run.oblige('broadcast index has enough dimensions', x.n >= t.n)
        m, n = x.n, t.n
        xi = x.a[simp(m - n + j)]
        run.oblige('broadcast index is in range', qall([j], z3.Implies(z3.And(0 <= j, j < n, t.s[j] != 1), z3.And(xi >= 0, xi < t.s[j])), [t.s[j]]))
        return IV(t.augslot(x.a, m))


class CBc(Contract):
    """broadcast_range: throws unless the sizes are compatible, else the broadcast sizes"""
    q = 'INNC::broadcast_range'; nargs = 2

    def accept(self, prog, key, d): return all(p.c == 'ref' for p in d['pt'])

    def apply(self, run, key, this, args):
        u, v = run.val(args[0]), run.val(args[1])
        for f in bcok_facts(u.a, u.n, v.a, v.n): run.assume(f)
        c = bcok(u.a, u.n, v.a, v.n)
        if not run.branch(c): raise CppThrow('std::runtime_error')
        n = bcdim(u.n, v.n); R = L.mkbca(u.a, u.n, v.a, v.n)
        # environment: the broadcast shape of two existing tensors has a representable element count
        run.eng.assumed.add('the element count of a broadcast result is below 2^60')
        run.assume(L.Wt(R, n, I(0)) * 8 < B63)
        return VV(n, R, 'INNC::SizeVec')


class CEach(Contract):
    """for_each_sizevec(range, op): op is called once for every in-range index, in row-major order"""
    q = 'INNC::for_each_sizevec'

    def apply(self, run, key, this, args):
        v = run.val(args[0]); op = args[1] if isinstance(args[1], LVS) else args[1]
        f = run.val(op); s, n = v.a, v.n
        for x in sizes_ok(s, n): run.oblige('iteration range is valid', x)
        k = run.cell('k', IV(0), run.eng.size_t)
        N = L.Wt(s, n, I(0))
        node = {'k': 'each'}
        lid = run.frame.chain + (key, run.cells, run.refs, 'each')
        lp = Loop(lid, node, run); lp.bound = None; lp.each = (k, s, n)
        lp.hints['each'] = (k, s, n)
        from . import builtins_ as B

        def body():
            kk = run.load(k).t; X = L.unrank(s, n, kk)
            run.assume(L.inr(X, s, n)); run.assume(L.rank(s, n, X) == kk)
            B.call_fn(run, f, [LTmp(VV(n, X, 'INNC::SizeVec'))])
        run.cut(lp, lambda: run.load(k).t < N, body, lambda: run.store(k, IV(simp(run.load(k).t + 1), 0, B63)))
        return None


A_LAYER = [CNumel(), CCtor(), CCnt(), CAug(), CBc(), CEach()]


def tensors_of(run, blob):
    """tensors created by this run whose storage is `blob`"""
    out = []
    for r, c in run.dyn.items():
        if c == TI:
            t = T(run, I(r))
            if t.blob.eq(blob): out.append(t)
    return out


def mdts(lp): return [d for d in range(6) if any(it[0] == 'h' and it[1] == 'M.' + DT.order[d] for it in lp.mod)]


def each_bounds(run, lp):
    if 'each' in lp.hints:
        k, s, n = lp.hints['each']
        K = lambda: run.load(k).t
        yield ('each-k',), lambda: z3.And(K() >= 0, K() <= L.Wt(s, n, I(0)))
        for it, ref in lp.mod.items():
            if it[0] != 'h' or it[2] is None: continue
            if it[1] == 'blob.tag':
                for d in mdts(lp): yield ('tagk', it, d), lambda ref=ref, d=d: z3.Implies(K() > 0, run.hget('blob.tag', ref, L.Int) == d)
            if it[1].startswith('M.') and 'map' in run.ghost:
                dt = it[1][2:]
                for mp in run.ghost['map']:
                    for t in tensors_of(run, ref):
                        def cand(t=t, dt=dt, mp=mp):
                            X = L.unrank(s, n, mp.g)
                            v = mp.spec(X, n, t, dt)
                            return None if v is None else z3.Implies(z3.And(mp.g >= 0, mp.g < K()), sel(t.mem(dt), t.slot(X)) == v)
                        yield ('map', it, mp.name, t.ref.get_id()), cand
        for g in run.ghost.get('each', ()):
            yield from g(run, lp, k, s, n)


class Map:
    """expected element value at the ghost index of rank g"""
    def __init__(self, g, spec, name='v'): self.g = g; self.spec = spec; self.name = name


def frame(run, what, keep=()):
    """no pre-existing object or memory block is changed (heap components in keep excepted)"""
    for c in sorted(run.heap):
        if c in keep or run.heap[c] is run.heap0.get(c): continue
        x = run.ghost.setdefault('fx', None)
        if x is None: x = run.ghost['fx'] = run.fresh('x', L.Int); run.old.add(x.get_id()); run.assume(x < 0)
        a, b = run.hsel(run.heap[c], x), z3.Select(run.heap0[c], x)
        if not a.eq(b): run.oblige('%s leaves %s of existing objects unchanged' % (what, c), a == b)
