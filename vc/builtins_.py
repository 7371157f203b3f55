"""Library functions (the trusted contracts of the C++ standard library used by the code)."""
import z3
from . import logic as L
from .logic import I, sel, simp, isnum
from .engine import *

SF = {}


def sfun(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in SF: SF[k] = z3.Function(name, *sorts)
    return SF[k]


scat = z3.Function('scat', L.Str, L.Str, L.Str)
slen = z3.Function('slen', L.Str, L.Int)
tostr_i = z3.Function('tostr_i', L.Int, L.Str)
tostr_f32 = z3.Function('tostr_f32', L.Real, L.Str)
tostr_f64 = z3.Function('tostr_f64', L.Real, L.Str)
stoll_ok = z3.Function('stoll_ok', L.Str, L.Bool)
stoll_v = z3.Function('stoll_v', L.Str, L.Int)


def as_lv(x): return x if isinstance(x, LVS) else LTmp(x)


def grow(run, v, n2, fill):
    """resize: keeps a[0..min), new cells hold fill"""
    n1 = simp(v.n); n2 = simp(n2)
    if isnum(n1) and n1.as_long() == 0: return VV(n2, z3.K(L.Int, fill), v.ety)
    if run.known(n2 <= n1): return VV(n2, v.a, v.ety)
    b = run.fresh('rsz', v.a.sort()); j = z3.Int('j!rs')
    run.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n1, j < n2), b[j] == v.a[j]), patterns=[b[j]]))
    run.assume(z3.ForAll([j], z3.Implies(z3.And(n1 <= j, j < n2), b[j] == fill), patterns=[b[j]]))
    return VV(n2, b, v.ety)


def default_el(run, ety):
    if isinstance(ety, str): return I(0)
    k = kind(ety)
    if k == 'str': return run.strlit('')
    if k == 'float': return z3.RealVal(0)
    if k == 'bool': return z3.BoolVal(False)
    return I(0)


def el_term(run, v, ety):
    """term of a value stored as a vector element"""
    if isinstance(v, LVS) and not isinstance(v, LObj): v = run.load(v)
    if isinstance(v, BV) and (isinstance(ety, str) or kind(ety) == 'int'): return z3.If(v.t, I(1), I(0))
    return run.term_of(v)


def is_unique(t):
    t = strip(t); return t.n == 'std::unique_ptr'


def smart_assign(run, this, arg, pt):
    v = run.val(arg)
    if pt.c == 'ref' and pt.rv and isinstance(arg, LVS) and not isinstance(arg, (LTmp, LObj)):
        z = DP(I(0), I(0), None) if isinstance(v, DP) else OP(0, None)
        run.store(arg, z)
    run.store(this, v)
    return this


def vec_member(run, n, d, this, args, e):
    v = run.val(this)
    if isinstance(v, OP): raise Unsupported('vector through pointer')
    a = [run.val(x) for x in args]
    if n == 'size': return IV(v.n, 0, (1 << 63) - 1)
    if n == 'empty': return BV(v.n == 0)
    if n in ('operator[]', 'at'):
        if n == 'at':
            i = run.norm(a[0], d['pt'][0]).t
            if not run.branch(z3.And(i >= 0, i < v.n)): raise CppThrow('std::out_of_range')
        return run.at(as_lv(this), a[0], strip(d['pt'][0]))
    if n == 'front': return run.at(as_lv(this), IV(0))
    if n == 'back': return run.at(as_lv(this), IV(simp(v.n - 1)))
    if n in ('push_back', 'emplace_back'):
        if len(args) != 1: raise Unsupported('emplace_back')
        x = args[0]
        t = el_term(run, x, v.ety)
        run.store(this, VV(simp(v.n + 1), z3.Store(v.a, v.n, t), v.ety)); return run.at(as_lv(this), IV(v.n))
    if n == 'pop_back':
        run.oblige('pop_back of a non-empty vector', v.n > 0); run.store(this, VV(simp(v.n - 1), v.a, v.ety)); return None
    if n == 'resize':
        m = run.norm(a[0], strip(d['pt'][0])).t
        fill = el_term(run, a[1], v.ety) if len(a) > 1 else default_el(run, v.ety)
        run.store(this, grow(run, v, m, fill)); return None
    if n == 'assign' and len(a) == 2 and isinstance(a[0], IV):
        m = run.norm(a[0], strip(d['pt'][0])).t
        run.store(this, VV(m, z3.K(L.Int, el_term(run, a[1], v.ety)), v.ety)); return None
    if n == 'reserve' or n == 'shrink_to_fit': return None
    if n == 'clear': run.store(this, VV(0, z3.K(L.Int, default_el(run, v.ety)), v.ety)); return None
    if n in ('begin', 'cbegin'): return ItV(as_lv(this), I(0))
    if n in ('end', 'cend'): return ItV(as_lv(this), v.n)
    if n == 'operator=':
        x = a[0]; run.store(this, VV(x.n, x.a, v.ety if v is not None else x.ety)); return this
    if n == 'swap':
        o = run.val(args[0]); run.store(args[0], VV(v.n, v.a, o.ety)); run.store(this, VV(o.n, o.a, v.ety)); return None
    raise Unsupported('vector::' + n)


def string_member(run, n, d, this, args, e):
    s = run.val(this).t
    a = [run.val(x) for x in args]
    if n in ('size', 'length'):
        t = slen(s); run.assume(t >= 0)
        lit = run.eng.strs.get(s.decl().name()) if z3.is_const(s) else None
        if lit is not None: return IV(len(lit))
        return IV(t, 0, (1 << 63) - 1)
    if n == 'empty':
        lit = run.eng.strs.get(s.decl().name()) if z3.is_const(s) else None
        if lit is not None: return BV(len(lit) == 0)
        run.assume(slen(s) >= 0); return BV(slen(s) == 0)
    if n == 'c_str': return LTmp(SV(s)).v
    if n in ('operator+=', 'append') and len(a) == 1 and isinstance(a[0], SV):
        run.store(this, SV(cat(run, s, a[0].t))); return this
    if n == 'operator=' and isinstance(a[0], SV): run.store(this, SV(a[0].t)); return this
    raise Unsupported('string::' + n)


def cat(run, a, b):
    """concatenation, kept right-associated so that the order of building does not matter"""
    if z3.is_app(a) and a.decl().eq(scat): return scat(a.arg(0), cat(run, a.arg(1), b))
    for x, y in ((a, b), (b, a)):
        if z3.is_const(x) and run.eng.strs.get(x.decl().name()) == '': return y
    return scat(a, b)


def queue_member(run, n, d, this, args, e):
    q = run.val(this)
    if n == 'empty': return BV(q.h >= q.t)
    if n == 'size': return IV(q.t - q.h, 0, 1 << 62)
    if n in ('push', 'emplace'):
        run.store(this, QV(q.h, simp(q.t + 1), z3.Store(q.a, q.t, run.term_of(run.val(args[0]))), q.ety)); return None
    if n == 'pop':
        run.oblige('pop of a non-empty queue', q.h < q.t); run.store(this, QV(simp(q.h + 1), q.t, q.a, q.ety)); return None
    if n == 'front':
        run.oblige('front of a non-empty queue', q.h < q.t); return LTmp(run.vec_el(q.ety, sel(q.a, q.h)))
    raise Unsupported('queue::' + n)


def call_fn(run, f, args):
    """calls a closure value"""
    f = run.val(f)
    if isinstance(f, AbsOp): return f.f(run, args)
    if isinstance(f, CV):
        ks = run.prog.lamfn.get(f.lam, [])
        if not ks: raise Unsupported('lambda')
        return run.val(run.call_closure(f, ks[0], args, None))
    if isinstance(f, FnV): return run.val(run.invoke(f.key, None, args))
    raise Unsupported('callable')


def sort_(run, args):
    b, en = run.val(args[0]), run.val(args[1]); lv = b.lv; v = run.val(lv)
    if not (isnum(simp(b.pos)) and simp(b.pos).as_long() == 0) or not run.known(en.pos == v.n): raise Unsupported('sort of a part')
    if len(args) > 2:
        x, y = run.fresh('sx', L.Int), run.fresh('sy', L.Int)
        saved = len(run.pc)
        run.assume(z3.And(0 <= x, x < v.n, 0 <= y, y < v.n))
        pre = dict(run.env), dict(run.heap)
        call_fn(run, args[2], [LTmp(run.vec_el(v.ety, sel(v.a, x))), LTmp(run.vec_el(v.ety, sel(v.a, y)))])
        if pre[1] != run.heap and any(pre[1].get(k) is not run.heap[k] and k in pre[1] for k in run.heap): raise Unsupported('comparator with effects')
        del run.pc[saved:]
    w = run.fresh('sorted', v.a.sort()); P = run.fresh('perm', L.IA); Q = run.fresh('permi', L.IA); j = z3.Int('j!so')
    run.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), z3.And(w[j] == v.a[P[j]], 0 <= P[j], P[j] < v.n, Q[P[j]] == j)), patterns=[w[j]]))
    run.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), z3.And(0 <= Q[j], Q[j] < v.n, P[Q[j]] == j, w[Q[j]] == v.a[j])), patterns=[v.a[j]]))
    # the inverse permutation must be available for every position mentioned
    run.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), z3.And(0 <= Q[j], Q[j] < v.n, w[Q[j]] == v.a[j])), patterns=[Q[j]]))
    run.ghost.setdefault('perms', []).append((w, P, Q, v.n))
    run.store(lv, VV(v.n, w, v.ety))


def builtin(run, key, d, this, args, e):
    q, n = d['q'], d['n']; ct = d.get('ct')
    if run.opaque_fn(d): run.eng.assumed.add('the text built by %s is not interpreted' % q); return SV(run.fresh('fmt', L.Str))
    if ct is not None and this is not None:
        c = ct.n
        if c == 'std::vector' or c in ('INNC::SizeVec', 'INNC::SignedVec') or c == 'std::initializer_list':
            return vec_member(run, n, d, this, args, e)
        if c in ('std::basic_string', 'std::__cxx11::basic_string', 'std::basic_string_view'): return string_member(run, n, d, this, args, e)
        if c in ('std::__shared_ptr', 'std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr_access'):
            if n in ('get', 'operator->'): return run.val(this)
            if n == 'operator*': return run.deref(run.val(this))
            if n == 'operator bool': return BV(run.ptr_term(run.val(this)) != 0)
            if n == 'reset':
                v = run.val(args[0]) if args else None
                if v is None: v = run.zero(this.ty) if hasattr(this, 'ty') else OP(0, None)
                run.store(this, v); return None
            if n == 'operator=': return smart_assign(run, this, args[0], d['pt'][0])
            if n == 'release':
                v = run.val(this); run.store(this, run.zero(this.ty)); return v
            if n == 'swap':
                a, b = run.val(this), run.val(args[0]); run.store(this, b); run.store(args[0], a); return None
        if c == 'std::enable_shared_from_this' and n == 'shared_from_this': return OP(this.ref, 'INNC::TensorImpl')
        if c == 'std::queue': return queue_member(run, n, d, this, args, e)
        if c == '__gnu_cxx::__normal_iterator':
            v = run.val(this)
            if n == 'operator*': return run.deref(v)
            if n in ('operator+', 'operator-') and args:
                o = run.val(args[0])
                if isinstance(o, ItV): return IV(simp(v.pos - o.pos))
                t = run.norm(o, strip(d['pt'][0])).t
                return ItV(v.lv, simp(v.pos + t if n == 'operator+' else v.pos - t))
            if n in ('operator++', 'operator--'):
                dlt = 1 if n == 'operator++' else -1
                run.store(this, ItV(v.lv, simp(v.pos + dlt))); return v if args else this
            if n == 'operator[]': return run.at(v.lv, IV(simp(v.pos + run.val(args[0]).t)))
        if c == 'std::array' and n == 'operator[]': return LTmp(run.tab_index(run.val(this), run.val(args[0]), strip(d['pt'][0])))
        if c == 'std::normal_distribution' and n == 'operator()':
            x = run.fresh('normal', L.Real)
            if 'drawn' in run.ghost: run.assume(run.ghost['drawn'](x))
            return FV(x)
        if n == 'operator=' and kind(ct) == 'obj':
            src = args[0]
            src = src if isinstance(src, LObj) else run.val(src)
            tgt = this if isinstance(this, LObj) else run.val(this)
            run.copy_obj(src, ct.n, move=(d['pt'][0].c == 'ref' and d['pt'][0].rv), dst=tgt.ref); return tgt
        if kind(ct) == 'opaque': return LTmp(Opq(c + '::' + n))
    if q == 'abort': raise PathAbort()
    if n in ('move', 'forward') and q.startswith('std::'): return args[0]
    if q in ('std::make_shared', 'std::make_unique'):
        t = d['ta'][0]
        if kind(t) != 'obj': raise Unsupported(q + ' of ' + t.s)
        k = run.resolve_ctor(t.n, args, d['pt'])
        aa = [a if run.prog.decls[k]['pt'][i].c == 'ref' else run.val(a) for i, a in enumerate(args)]
        dd = run.prog.decls[k]
        if (dd.get('copy') or dd.get('move')) and k not in run.prog.fns: return OP(run.copy_obj(run.val(aa[0]), t.n, bool(dd.get('move'))).ref, t.n)
        o = run.construct(t.n, k, aa, e)
        return OP(o.ref, t.n)
    if q in ('std::min', 'std::max') and len(args) == 2:
        t = strip(d['pt'][0]); a, b = run.val(args[0]), run.val(args[1])
        if isinstance(a, FV): raise Unsupported('float min/max')
        a, b = run.norm(a, t), run.norm(b, t)
        r = z3.If(a.t <= b.t, a.t, b.t) if q == 'std::min' else z3.If(a.t >= b.t, a.t, b.t)
        lo = hi = None
        if a.lo is not None and b.lo is not None:
            f = min if q == 'std::min' else max
            lo, hi = f(a.lo, b.lo), f(a.hi, b.hi)
        return LTmp(IV(simp(r), lo, hi))
    if q in ('std::abs', 'abs', 'llabs', 'labs') and len(args) == 1:
        v = run.val(args[0]); t = strip(d['pt'][0])
        if isinstance(v, FV): return FV(z3.If(v.t >= 0, v.t, -v.t)) if run.math else FV(z3.Function('fabs', L.Real, L.Real)(v.t))
        v = run.norm(v, t)
        return IV(simp(z3.If(v.t >= 0, v.t, -v.t)))
    if q == 'std::swap' and len(args) == 2:
        a, b = run.val(args[0]), run.val(args[1]); run.store(args[0], b); run.store(args[1], a); return None
    if q == 'std::sort': return sort_(run, args)
    if q == 'std::to_string':
        v = run.val(args[0]); t = strip(d['pt'][0])
        if isinstance(v, FV): return SV(tostr_f32(v.t) if t.bits == 32 else tostr_f64(v.t))
        return SV(tostr_i(run.norm(v, t).t))
    if q == 'std::stoll':
        s = run.val(args[0]).t
        if not run.branch(stoll_ok(s)): raise CppThrow('std::invalid_argument')
        r = stoll_v(s); lo, hi = irange(d['ret']); run.assume(z3.And(r >= lo, r <= hi)); return IV(r, lo, hi)
    if q == 'std::operator+' and len(args) == 2:
        a, b = run.val(args[0]), run.val(args[1])
        if isinstance(a, SV) and isinstance(b, SV): return SV(cat(run, a.t, b.t))
    if q in ('std::operator==', 'std::operator!=') and len(args) == 2:
        a, b = run.val(args[0]), run.val(args[1]); neg = q.endswith('!=')
        r = None
        if isinstance(a, VV):
            p = run.fresh('veq', L.Bool); j = z3.Int('j!ve'); w = run.fresh('vne', L.Int)
            run.assume(z3.Implies(p, z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < a.n), a.a[j] == b.a[j]), patterns=[a.a[j]]))))
            run.assume(z3.Implies(z3.Not(p), z3.Or(a.n != b.n, z3.And(0 <= w, w < a.n, sel(a.a, w) != sel(b.a, w)))))
            r = p
        elif isinstance(a, SV) and isinstance(b, SV): r = a.t == b.t
        elif isinstance(a, (OP, DP)) or isinstance(b, (OP, DP)): r = run.ptr_term(a) == run.ptr_term(b)
        if r is not None: return BV(z3.Not(r) if neg else r)
    if n in ('operator==', 'operator!=') and len(args) == 2:
        a, b = run.val(args[0]), run.val(args[1])
        if isinstance(a, ItV): return BV(simp(a.pos == b.pos if n == 'operator==' else a.pos != b.pos))
    if q in ('memset',):
        p = run.val(args[0]); c = run.val(args[1]); m = run.norm(run.val(args[2]), d['pt'][2]).t
        if not (isnum(c.t) and c.t.as_long() == 0): raise Unsupported('memset with a non-zero byte')
        nb = run.hget('blob.bytes', p.blob, L.Int)
        run.nonnull(p.blob, 'data pointer')
        run.oblige('memset stays inside the storage', z3.And(p.off == 0, m <= nb, m >= 0))
        if not run.known(m == nb): raise Unsupported('memset of a part of a block')
        run.hset('blob.tag', p.blob, I(-1))
        for dt in DT.order: run.setmem(dt, p.blob, z3.K(L.Int, I(0) if dt[0] == 'i' else z3.RealVal(0)))
        return p
    if q == 'memcpy':
        p, s = run.val(args[0]), run.val(args[1]); m = run.norm(run.val(args[2]), d['pt'][2]).t
        return copy_bytes(run, p, s, m)
    if q == '__builtin_expect': return run.val(args[0])
    if q == 'std::copy':
        a, b, o = run.val(args[0]), run.val(args[1]), args[2]; ov = run.val(o)
        if isinstance(a, DP) and isinstance(ov, DP): return copy_bytes(run, ov, a, simp(b.off - a.off))
        if isinstance(a, ItV) and isinstance(ov, ItV):
            src = run.val(a.lv); dst = run.val(ov.lv); m = simp(b.pos - a.pos); w = run.fresh('cpy', dst.a.sort()); j = z3.Int('j!cp')
            run.oblige('copied range fits the target vector', z3.And(m >= 0, ov.pos + m <= dst.n, a.pos >= 0, b.pos <= src.n))
            run.assume(z3.ForAll([j], w[j] == z3.If(z3.And(ov.pos <= j, j < ov.pos + m), src.a[a.pos + j - ov.pos], dst.a[j]), patterns=[w[j]]))
            run.store(ov.lv, VV(dst.n, w, dst.ety)); return ItV(ov.lv, simp(ov.pos + m))
    if q == 'std::fill' and isinstance(run.val(args[0]), ItV):
        a, b = run.val(args[0]), run.val(args[1]); dst = run.val(a.lv); t = el_term(run, args[2], dst.ety)
        if run.known(z3.And(a.pos == 0, b.pos == dst.n)): run.store(a.lv, VV(dst.n, z3.K(L.Int, t), dst.ety)); return None
    if q == 'std::iota' and isinstance(run.val(args[0]), ItV):
        a, b = run.val(args[0]), run.val(args[1]); dst = run.val(a.lv); t = el_term(run, args[2], dst.ety)
        if run.known(z3.And(a.pos == 0, b.pos == dst.n)):
            w = run.fresh('iota', dst.a.sort()); j = z3.Int('j!io')
            run.assume(z3.ForAll([j], w[j] == t + j, patterns=[w[j]]))
            run.store(a.lv, VV(dst.n, w, dst.ety)); return None
    if n == 'sformat' or n == 'snprintf': return SV(run.fresh('fmt', L.Str)) if n == 'sformat' else IV(run.fresh('snp', L.Int))
    if q in ('std::begin', 'std::end') and len(args) == 1:
        v = run.val(args[0])
        if isinstance(v, VV): return ItV(as_lv(args[0]), I(0) if n == 'begin' else v.n)
    if q == 'std::get' or q == 'std::distance': pass
    raise Unsupported('library function ' + q)


class PathAbort(PathEnd):
    pass


def copy_bytes(run, p, s, m):
    """memcpy of m bytes"""
    run.nonnull(p.blob, 'data pointer') if not run.known(m == 0) else None
    nb = run.hget('blob.bytes', p.blob, L.Int); sb = run.hget('blob.bytes', s.blob, L.Int)
    ps, ss = (run.esz(x.ety) if x.ety is not None and x.ety.c != 'void' else 1 for x in (p, s))
    po, so = simp(p.off * ps), simp(s.off * ss)
    run.oblige('copy stays inside both blocks', z3.And(m >= 0, po >= 0, so >= 0, po + m <= nb, so + m <= sb))
    tag = run.hget('blob.tag', s.blob, L.Int)
    whole = isnum(po) and po.as_long() == 0 and isnum(so) and so.as_long() == 0
    if not whole: raise Unsupported('copy into the middle of a block')
    run.hset('blob.tag', p.blob, tag)
    for dt in DT.order:
        old, src = run.mem(dt, p.blob), run.mem(dt, s.blob); sz = DT.size[dt]
        w = run.fresh('cpb.' + dt, old.sort()); j = z3.Int('j!cb')
        run.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, (j + 1) * sz <= m), w[j] == src[j]), patterns=[w[j]]))
        run.setmem(dt, p.blob, w)
    return p


def construct(run, t, k, d, args, e):
    a = [run.val(x) for x in args]
    if k == 'vec':
        if not a: return run.empty_vec(t)
        if isinstance(a[0], VV): return VV(a[0].n, a[0].a, elem_ty(t))
        if isinstance(a[0], IV):
            m = run.norm(a[0], strip(d['pt'][0])).t; ev = run.empty_vec(t)
            fill = el_term(run, a[1], elem_ty(t)) if len(a) > 1 and not isinstance(a[1], Opq) else default_el(run, elem_ty(t))
            return VV(m, z3.K(L.Int, fill), elem_ty(t))
        if isinstance(a[0], ItV):
            src = run.val(a[0].lv)
            if run.known(z3.And(a[0].pos == 0, a[1].pos == src.n)): return VV(src.n, src.a, elem_ty(t))
            w = run.fresh('rng', src.a.sort()); j = z3.Int('j!vr'); b0 = a[0].pos
            run.assume(z3.ForAll([j], w[j] == src.a[b0 + j], patterns=[w[j]]))
            return VV(simp(a[1].pos - b0), w, elem_ty(t))
    if k in ('sptr', 'dsptr'):
        if not a: return run.zero(t)
        v = a[0]
        pt = d['pt'][0]
        if pt.c == 'ref' and pt.rv and isinstance(args[0], LVS) and not isinstance(args[0], (LTmp, LObj)):
            run.store(args[0], DP(I(0), I(0), None) if isinstance(v, DP) else OP(0, None))
        if isinstance(v, OP): return DP(I(0), I(0), None) if k == 'dsptr' else v
        if isinstance(v, DP): return v
    if k == 'str':
        if not a: return SV(run.strlit(''))
        if isinstance(a[0], SV): return a[0]
        return SV(run.fresh('str', L.Str))
    if k == 'queue':
        ety = t.ta[0]
        return QV(I(0), I(0), z3.K(L.Int, I(0)), ety)
    if k == 'iter' and a: return a[0]
    if k == 'opaque': return Opq(t.n)
    if k == 'closure' and a: return a[0]
    raise Unsupported('constructor of ' + t.s)
