"""Candidate loop invariants (Houdini style: every candidate that survives is proved inductive)."""
import z3
from . import logic as L
from .logic import I, sel, simp, isnum
from .engine import *

J = z3.Int('j!c')


def fall(lo, hi, body, pat):
    """forall lo <= j < hi: body(j)"""
    b = body(J)
    ps = [p for p in pat(J)]
    ps = [p for p in ps if L.pat_ok(p) and not z3.is_store(p.arg(0))]
    return z3.ForAll([J], z3.Implies(z3.And(lo <= J, J < hi), b), patterns=ps)


def scope(run, lp):
    """(ints, vecs) visible and unmodified, (ints, vecs) modified"""
    mi, mv, ui, uv = [], [], [], []
    modv = {it[1] for it in lp.mod if it[0] == 'v'}
    seen = set()
    for it in lp.mod:
        if it[0] != 'v': continue
        v = lp.old[it]
        nm = run.cellname[it[1]]
        if 'each' in lp.hints and it[1] == lp.hints['each'][0].c: continue
        if isinstance(v, IV): mi.append((nm, it[1], v))
        elif isinstance(v, VV): mv.append((nm, it[1], v))
    fr = dict(run.frame.vars)
    for dkey, lv in fr.items():
        x = lv
        if isinstance(x, LVar):
            if x.c in modv: continue
            x = run.env.get(x.c); nm = run.cellname[lv.c]
        elif isinstance(x, LTmp): x = x.v; nm = 'tmp%s' % (dkey,)
        elif isinstance(x, LFld):
            if kind(x.ty) not in ('vec', 'int'): continue
            if ('h', x.cls + '.' + x.f + '.arr', x.ref.get_id()) in lp.mod or ('h', x.cls + '.' + x.f + '.arr', None) in lp.mod: continue
            x = run.load(x); nm = 'fld%s' % (dkey,)
        else: continue
        if isinstance(x, LP): x = run.val(x.lv)
        if isinstance(x, VV):
            if x.a.get_id() not in seen: seen.add(x.a.get_id()); uv.append((nm, x))
        elif isinstance(x, IV): ui.append((nm, x))
    if 'range' in lp.hints:
        r = lp.hints['range']
        if not (isinstance(r, LVar) and r.c in modv):
            x = run.val(r)
            if isinstance(x, VV) and x.a.get_id() not in seen: seen.add(x.a.get_id()); uv.append(('range', x))
    for nm, x in run.ghost.get('vecs', ()):
        if x.a.get_id() not in seen: seen.add(x.a.get_id()); uv.append((nm, x))
    return mi, mv, ui, uv


def isint(v): return isinstance(v.ety, str) or kind(v.ety) == 'int'


def cur(run, c): return run.env[c]


def generic(run, lp):
    mi, mv, ui, uv = scope(run, lp)
    iv = [x for x in uv if isint(x[1])]
    bnds = [(nm, x.t) for nm, x in ui] + [('len ' + nm, x.n) for nm, x in uv] + [('len0 ' + nm, v.n) for nm, c, v in mv]
    uniq = {}
    for nm, t in bnds:
        t = simp(t)
        if t.get_id() not in uniq: uniq[t.get_id()] = (nm, t)
    bnds = list(uniq.values())
    for nm, c, v in mi:
        v0 = v.t
        yield ('ge0', c), lambda c=c: cur(run, c).t >= 0
        if not (isnum(v0) and v0.as_long() == 0): yield ('ge', c), lambda c=c, v0=v0: cur(run, c).t >= v0
        yield ('gem1', c), lambda c=c: cur(run, c).t >= -1
        yield ('le', c), lambda c=c, v0=v0: cur(run, c).t <= v0
        for bn, b in bnds:
            yield ('leb', c, bn), lambda c=c, b=b: cur(run, c).t <= b
            yield ('leb1', c, bn), lambda c=c, b=b: cur(run, c).t <= b + 1
            yield ('ltb', c, bn), lambda c=c, b=b: cur(run, c).t < b
        if v.lo is None or v.lo != v.hi:
            pass
        yield ('lt64', c), lambda c=c: cur(run, c).t < (1 << 63)
    for nm, c, v in mv:
        yield ('len', c), lambda c=c, v=v: cur(run, c).n == v.n
        for cn, cc, cv in mi:
            yield ('lenpush', c, cc), lambda c=c, v=v, cc=cc, cv=cv: cur(run, c).n == v.n + (cur(run, cc).t - cv.t)
    # heap: lengths and type tags
    for it, ref in lp.mod.items():
        if it[0] == 'h' and it[1] == 'blob.tag' and it[2] is not None:
            for k in mdts(lp):
                yield ('tag', it, k), lambda it=it, ref=ref, k=k: z3.Or(run.hget('blob.tag', ref, L.Int) == lp.old[it], run.hget('blob.tag', ref, L.Int) == k)
        if it[0] == 'h' and it[1].endswith('.len') and it[2] is not None:
            yield ('hlen', it), lambda it=it, ref=ref: run.hget(it[1], ref, L.Int) == lp.old[it]
    ctrs = [(nm, c, v) for nm, c, v in mi]
    # accumulators
    for nm, c, v in mi:
        for cn, cc, cv in ctrs:
            if cc == c: continue
            for vn, x in iv:
                yield ('prod', c, cc, vn), lambda c=c, v=v, cc=cc, x=x: cur(run, c).t == simp(v.t * L.Pr(x.a, cur(run, cc).t)) if not (isnum(v.t) and v.t.as_long() == 1) else cur(run, c).t == L.Pr(x.a, cur(run, cc).t)
                yield ('prodd', c, cc, vn), lambda c=c, v=v, cc=cc, x=x: cur(run, c).t == L.Wt(x.a, x.n, cur(run, cc).t)
                yield ('prode', c, cc, vn), lambda c=c, v=v, cc=cc, x=x: cur(run, c).t == L.Wt(x.a, x.n, cur(run, cc).t + 1)
                yield ('vsum', c, cc, vn), lambda c=c, v=v, cc=cc, x=x: cur(run, c).t == v.t + L.vsum(x.a, cur(run, cc).t)
                for vm, y in iv:
                    if vm <= vn: continue
                    yield ('dot', c, cc, vn, vm), lambda c=c, v=v, cc=cc, x=x, y=y: cur(run, c).t == v.t + L.dot(x.a, y.a, cur(run, cc).t)
    # unmodified vectors scanned by a counter
    for cn, cc, cv in ctrs:
        for vn, x in iv:
            yield ('nz', cc, vn), lambda cc=cc, x=x: fall(0, cur(run, cc).t, lambda j: x.a[j] != 0, lambda j: [x.a[j]])
        for pn, lo, hi, f, pat in run.ghost.get('preds', ()):
            yield ('pre', cc, pn), lambda cc=cc, f=f, pat=pat, lo=lo: fall(lo, cur(run, cc).t, f, pat)
            yield ('suf1', cc, pn), lambda cc=cc, f=f, pat=pat, hi=hi: fall(hi - cur(run, cc).t + 1, hi, f, pat)
            yield ('suf', cc, pn), lambda cc=cc, f=f, pat=pat, hi=hi: fall(hi - cur(run, cc).t, hi, f, pat)
            yield ('sufi', cc, pn), lambda cc=cc, f=f, pat=pat, hi=hi: fall(cur(run, cc).t, hi, f, pat)
            yield ('sufj', cc, pn), lambda cc=cc, f=f, pat=pat, hi=hi: fall(cur(run, cc).t + 1, hi, f, pat)
    # vectors filled by a counter
    specs = list(run.ghost.get('specs', ()))
    for nm, c, v in mv:
        if not isint(v): continue
        yield from filled(run, lp, ('v', c), lambda c=c: cur(run, c), v, ctrs, iv, specs)
    for it, ref in lp.mod.items():
        if it[0] == 'h' and it[1].endswith('.arr') and it[2] is not None and lp.old[it] is not None and lp.old[it].sort() == L.IA:
            base = it[1][:-4]
            def get(base=base, ref=ref): return VV(run.hget(base + '.len', ref, L.Int), run.hget(base + '.arr', ref, L.IA), 'INNC::SizeVec')
            v0 = VV(run.hget(base + '.len', ref, L.Int), lp.old[it], 'INNC::SizeVec')
            yield from filled(run, lp, ('h', it), get, v0, ctrs, iv, specs)


def filled(run, lp, key, get, v0, ctrs, iv, specs):
    yield ('nn', key), lambda: fall(0, get().n, lambda j: get().a[j] >= 0, lambda j: [get().a[j]])
    for cn, cc, cv in ctrs:
        C = lambda cc=cc: cur(run, cc).t
        # zero filled
        yield ('z', key, cc), lambda C=C: fall(0, C(), lambda j: get().a[j] == 0, lambda j: [get().a[j]])
        for sn, sp in specs:
            f = lambda j, sp=sp: get().a[j] == sp(j)
            pat = lambda j: [get().a[j]]
            yield ('sp<', key, cc, sn), lambda C=C, f=f, pat=pat: fall(0, C(), f, pat)
            yield ('sp>1', key, cc, sn), lambda C=C, f=f, pat=pat: fall(get().n - C() + 1, get().n, f, pat)
            yield ('sp>0', key, cc, sn), lambda C=C, f=f, pat=pat: fall(get().n - C(), get().n, f, pat)
            yield ('sp>=', key, cc, sn), lambda C=C, f=f, pat=pat: fall(C(), get().n, f, pat)
            yield ('sp>', key, cc, sn), lambda C=C, f=f, pat=pat: fall(C() + 1, get().n, f, pat)
        for vn, x in iv:
            # row-major strides built from the back
            K = sel(v0.a, v0.n - 1)
            one = isnum(K) and K.as_long() == 1
            yield ('wts', key, cc, vn), lambda C=C, x=x, K=K, one=one: fall(C(), get().n, lambda j: get().a[j] == (L.Wt(x.a, x.n, j + 1) if one else K * L.Wt(x.a, x.n, j + 1)), lambda j: [get().a[j]])
            # copied
            yield ('cp', key, cc, vn), lambda C=C, x=x: fall(0, C(), lambda j: get().a[j] == x.a[j], lambda j: [get().a[j]])


def odometer(run, lp):
    """mixed-radix counters: a modified vector sv bounded by an unmodified vector s"""
    mi, mv, ui, uv = scope(run, lp)
    iv = [x for x in uv if isint(x[1])]
    for nm, c, v in mv:
        if not isint(v): continue
        for vn, x in iv:
            s, n = x.a, x.n
            S = lambda c=c: cur(run, c).a
            last = simp(n - 1)
            if not mi or all(m[1] == c for m in mi) or True:
                yield ('od-all', c, vn), lambda S=S, s=s, n=n, last=last: fall(0, last, lambda j: z3.And(0 <= S()[j], S()[j] < s[j]), lambda j: [S()[j]])
                yield ('od-last', c, vn), lambda S=S, s=s, last=last: z3.And(0 <= sel(S(), last), sel(S(), last) <= sel(s, last))
            if run.ghost.get('rankcell'):
                rc = run.ghost['rankcell']
                yield ('od-rk', c, vn), lambda S=S, s=s, n=n: L.dot(L.wts(s, n), S(), n) == run.env[rc].t
            yield ('od-rank', c, vn), lambda S=S, s=s, n=n, v=v: L.dot(L.wts(s, n), S(), n) == L.dot(L.wts(s, n), v.a, n)
            for cn, cc, cv in mi:
                P = lambda cc=cc: cur(run, cc).t
                yield ('od-p', c, vn, cc), lambda P=P, n=n: z3.And(0 <= P(), P() < n)
                yield ('od-oth', c, vn, cc), lambda P=P, S=S, s=s, n=n: fall(0, n, lambda j: z3.Implies(j != P(), z3.And(0 <= S()[j], S()[j] < s[j])), lambda j: [S()[j]])
                yield ('od-cur', c, vn, cc), lambda P=P, S=S, s=s: z3.And(0 <= sel(S(), P()), sel(S(), P()) <= sel(s, P()))
                yield ('od-zero', c, vn, cc), lambda P=P, S=S, s=s, n=n: fall(P() + 1, n, lambda j: S()[j] == 0, lambda j: [S()[j]])


def ranks(run, lp):
    """(name, s, n, K): loops that enumerate the indices of s in row-major order, K() of them done"""
    if 'each' in lp.hints:
        k, s, n = lp.hints['each']
        yield 'each', s, n, lambda: run.load(k).t
        return
    mi, mv, ui, uv = scope(run, lp)
    for nm, c, v in mv:
        if not isint(v): continue
        for vn, x in uv:
            if isint(x): yield ('od', c, vn), x.a, x.n, lambda c=c, x=x: L.rank(x.a, x.n, cur(run, c).a)
    for nm, c, v in mi: yield ('ctr', c), None, None, lambda c=c: cur(run, c).t


def folds(run, lp):
    """accumulators: memory slot 0 of a fresh scalar or a local equals fold(K)"""
    fl = run.ghost.get('folds', ())
    if not fl: return
    for fn, fold, s0, sort in fl:
        for rn, s, n, K in ranks(run, lp):
            if s is not None and not s.eq(s0): continue
            for it, ref in lp.mod.items():
                if it[0] == 'h' and it[1].startswith('M.') and it[2] is not None and (it[1][2] == 'i') == (sort == L.Int):
                    yield ('fold', fn, it, rn), lambda it=it, ref=ref, K=K, fold=fold: sel(run.mem(it[1][2:], ref), I(0)) == fold(K())
                elif it[0] == 'v' and isinstance(lp.old[it], (IV if sort == L.Int else FV)):
                    yield ('foldv', fn, it, rn), lambda it=it, K=K, fold=fold: cur(run, it[1]).t == fold(K())


def task_hints(run, lp):
    for g in run.ghost.get('hints', ()):
        yield from g(run, lp)


from .model import each_bounds, mdts
ALL = [each_bounds, generic, odometer, folds, task_hints]
