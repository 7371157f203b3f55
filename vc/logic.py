"""Spec functions, their axioms/lemmas (ground instantiation) and the prover front end."""
import z3, time, itertools

Int, Bool, Real = z3.IntSort(), z3.BoolSort(), z3.RealSort()
IA = z3.ArraySort(Int, Int)
RA = z3.ArraySort(Int, Real)
Str = z3.DeclareSort('Str')
SA = z3.ArraySort(Int, Str)
BA = z3.ArraySort(Int, Bool)
F = z3.Function

dot = F('dot', IA, IA, Int, Int)          # dot(S,X,n) = sum_{i<n} S[i]*X[i]
Wt = F('Wt', IA, Int, Int, Int)           # Wt(s,n,i) = prod_{i<=j<n} s[j]
wts = F('wts', IA, Int, IA)               # wts(s,n)[j] = Wt(s,n,j+1): row-major strides
aug = F('aug', IA, Int, IA, Int, IA)      # broadcast projection of an index
unrank = F('unrank', IA, Int, Int, IA)    # the in-range index of a given row-major rank
bca = F('bca', IA, Int, IA, Int, IA)      # broadcast of two size vectors
bcn = F('bcn', Int, Int, Int)
vsum = F('vsum', IA, Int, Int)            # vsum(a,n) = sum_{i<n} a[i]

def _key(*ts): return tuple(t.sexpr() for t in ts)


def _leaves(t, nm):
    if z3.is_app(t) and t.decl().name() == nm: return _leaves(t.arg(0), nm) | _leaves(t.arg(1), nm)
    return {t.get_id()}


def _sleaves(u, n):
    if z3.is_app(u) and u.decl().name() == 'bca' and bdim(u.arg(1), u.arg(3)).eq(n): return _sleaves(u.arg(0), u.arg(1)) | _sleaves(u.arg(2), u.arg(3))
    return {(u.get_id(), n.get_id())}


def bdim(a, b):
    """max(a, b), the same term for both argument orders"""
    if a.eq(b): return a
    la, lb = _leaves(a, 'bcn'), _leaves(b, 'bcn')
    if la <= lb: return b
    if lb <= la: return a
    return bcn(a, b) if _key(a) <= _key(b) else bcn(b, a)


def mkbca(u, nu, v, nv):
    """the broadcast of two size vectors; the entrywise maximum is idempotent, commutative and associative"""
    a, b = _sleaves(u, nu), _sleaves(v, nv)
    if a <= b: return v
    if b <= a: return u
    return bca(u, nu, v, nv) if _key(u, nu) <= _key(v, nv) else bca(v, nv, u, nu)


Pr = F('Pr', IA, Int, Int)                # Pr(s,i) = prod_{j<i} s[j]

EXTRA = {}   # decl name -> list of generator(term) -> formulas, registered by specs


def I(n): return z3.IntVal(n)


def isnum(t): return z3.is_int_value(t)


def simp(t): return z3.simplify(t)


def sel(a, i):
    """select with read-over-write simplification on syntactically decided indices"""
    i = simp(i) if not isnum(i) else i
    while z3.is_store(a):
        k = a.arg(1)
        if k.eq(i): return a.arg(2)
        d = z3.simplify(k - i)
        if isnum(d):
            if d.as_long() == 0: return a.arg(2)
            a = a.arg(0); continue
        break
    if z3.is_const_array(a): return a.arg(0)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() == 'wts': return Wt(a.arg(0), a.arg(1), simp(i + 1))
    return z3.Select(a, i)


_po = {}


def pat_ok(t):
    r = _po.get(t.get_id())
    if r is None:
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT): v = False
        elif z3.is_quantifier(t): v = False
        else: v = all(pat_ok(c) for c in t.children())
        r = _po[t.get_id()] = (v, t)
    return r[0]


def pats(*ts):
    for t in ts:
        if pat_ok(t): return [t]
    return []


def inr(X, s, n):
    j = z3.Int('j!inr')
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= X[j], X[j] < s[j])), patterns=pats(X[j], s[j]))


def nonneg(s, n):
    j = z3.Int('j!nn')
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), 0 <= s[j]), patterns=[s[j]])


def numel(s, n): return Wt(s, n, I(0))


def rank(s, n, X): return dot(wts(s, n), X, n)


def slot(off, S, X, n): return off + dot(S, X, n)


_skc = itertools.count()


class N:
    """cached view of an AST node (keeps the term alive, so ids stay unique)"""
    __slots__ = ('t', 'id', 'k', 'name', 'ch', 'ground', 'watched', 'muls', 'vi', 'so', 'lv')


_nodes = {}
_OPS = {z3.Z3_OP_SELECT: 'select', z3.Z3_OP_ADD: '+', z3.Z3_OP_SUB: '-', z3.Z3_OP_MUL: '*', z3.Z3_OP_STORE: 'store'}


def node(t):
    i = t.get_id(); n = _nodes.get(i)
    if n is not None: return n
    n = N(); n.t = t; n.id = i; n.watched = None; n.muls = None; n.vi = None; n.lv = None; n.so = t.sort().get_id() if not z3.is_quantifier(t) else 0; n.name = None; n.ch = ()
    if z3.is_quantifier(t): n.k = 'q'; n.ground = False; n.ch = (node(t.body()),)
    elif z3.is_var(t): n.k = 'v'; n.ground = False; n.vi = z3.get_var_index(t)
    else:
        n.k = 'a'; d = t.decl(); k = d.kind()
        n.name = d.name() if k == z3.Z3_OP_UNINTERPRETED else _OPS.get(k, 'op%d' % k if k != z3.Z3_OP_ANUM else 'num')
        n.ch = tuple(node(c) for c in t.children()); n.ground = all(c.ground for c in n.ch)
    _nodes[i] = n; return n


def ground(t): return node(t).ground


def watched(n):
    """ground applications of the spec functions (and selects) inside a formula"""
    if n.watched is None:
        out = []; seen = set(); st = [n]
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.k == 'a' and x.ch and (x.name in WATCH or x.name in EXTRA) and x.ground: out.append(x)
            st.extend(x.ch)
        n.watched = out
    return n.watched


class Collector:
    """collects ground applications of the spec functions"""
    def __init__(self): self.seen = set(); self.fseen = set(); self.terms = {}; self.by1 = {}

    def add(self, f):
        n = node(f)
        if n.id in self.fseen: return
        self.fseen.add(n.id)
        for x in watched(n):
            if x.id not in self.seen: self.seen.add(x.id); self.terms.setdefault(x.name, []).append(x); self.by1.setdefault((x.name, x.ch[0].id), []).append(x)


WATCH = {'fadd32', 'fadd64', 'fmul32', 'fmul64', 'tdiv', 'i2f32', 'i2f64', 'Pr', 'bcn', 'dot', 'Wt', 'select', 'wts', 'unrank', 'bca', 'vsum'}


def skolem(name, *args):
    """deterministic skolem constant for a tuple of terms"""
    fs = F('sk!' + name, *([a.sort() for a in args] + [Int]))
    return fs(*args)


OPAQUE = False      # hide the recursive definitions of dot and Wt (the derived lemmas stay); 'od': of dot only


def set_opaque(v):
    global OPAQUE
    if OPAQUE != v: OPAQUE = v; _gen.clear()


def inst_dot(t):
    S, X, e = t.children(); out = []
    if isnum(e) and e.as_long() == 0: return [t == 0]
    out.append(z3.Implies(e <= 0, t == 0))
    if z3.is_const_array(X) and isnum(X.arg(0)) and X.arg(0).as_long() == 0: return [t == 0]
    e1 = simp(e - 1)
    if not OPAQUE or (OPAQUE == 'od' and isnum(e)): out.append(z3.Implies(e > 0, t == dot(S, X, e1) + sel(S, e1) * sel(X, e1)))
    for A, mk in ((X, lambda Y: dot(S, Y, e)), (S, lambda Y: dot(Y, X, e))):
        if z3.is_store(A):
            A0, p, v = A.children(); O = S if A is X else X
            out.append(z3.Implies(z3.And(0 <= p, p < e), t == mk(A0) + sel(O, p) * (v - sel(A0, p))))
            out.append(z3.Implies(z3.Or(p < 0, p >= e), t == mk(A0)))
    if z3.is_app(S) and S.decl().name() == 'wts':
        s, n = S.children()
        if n.eq(e):
            d = skolem('tz', X, n)
            out.append(z3.Or(n < 1, t == dot(S, X, I(1)), z3.And(1 <= d, d < n, sel(X, d) != 0)))
            out.append(z3.Implies(z3.And(inr(X, s, n)), z3.And(0 <= t, t < Wt(s, n, I(0)))))
        if z3.is_app(X) and X.decl().name() == 'unrank' and X.arg(0).eq(s) and X.arg(1).eq(n) and n.eq(e):
            k = X.arg(2)
            out.append(z3.Implies(z3.And(0 <= k, k < Wt(s, n, I(0)), nonneg(s, n)), z3.And(t == k)))
    return out


def inst_Wt(t):
    s, n, i = t.children(); out = []
    if n.eq(i): return [t == 1]
    out.append(z3.Implies(i >= n, t == 1))
    i1 = simp(i + 1)
    if not OPAQUE or OPAQUE == 'od': out.append(z3.Implies(i < n, t == sel(s, i) * Wt(s, n, i1)))
    if isnum(i) and i.as_long() == 0 and pat_ok(s) and z3.is_const(s):
        j = z3.Int('j!wz'); out.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, s[j] == 0), t == 0), patterns=[s[j]]))
    if z3.is_store(s) and z3.is_store(s.arg(0)) and isnum(i) and i.as_long() == 0:
        # exchanging two factors keeps the product
        s0, p, v = s.arg(0).children(); q, w = s.arg(1), s.arg(2)
        out.append(z3.Implies(z3.And(0 <= p, p < n, 0 <= q, q < n, p != q, v == sel(s0, q), w == sel(s0, p)), t == Wt(s0, n, I(0))))
    # products of positive (non-negative) numbers
    out.append(z3.Or(t >= 1, z3.And(i <= skolem('wpos', s, n, i), skolem('wpos', s, n, i) < n, sel(s, skolem('wpos', s, n, i)) <= 0)))
    out.append(z3.Or(t >= 0, z3.And(i <= skolem('wneg', s, n, i), skolem('wneg', s, n, i) < n, sel(s, skolem('wneg', s, n, i)) < 0)))
    return out


def inst_select(t):
    a, i = t.children(); out = []
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        nm = a.decl().name()
        if nm == 'wts':
            s, n = a.children(); out.append(t == Wt(s, n, simp(i + 1)))
        elif nm == 'aug':
            s, n, x, m = a.children(); out.append(t == z3.If(sel(s, i) == 1, I(0), sel(x, simp(m - n + i))))
        elif nm == 'unrank':
            s, n, k = a.children()
            out.append(z3.Implies(z3.And(0 <= k, k < Wt(s, n, I(0)), 0 <= i, i < n, nonneg(s, n)), z3.And(0 <= t, t < sel(s, i))))
        elif nm == 'bca':
            u, nu, v, nv = a.children(); n = bdim(nu, nv)
            iu, iv = simp(i - (n - nu)), simp(i - (n - nv))
            out.append(z3.Implies(z3.And(0 <= i, i < n), t == z3.If(iu < 0, sel(v, iv), z3.If(iv < 0, sel(u, iu), z3.If(sel(u, iu) >= sel(v, iv), sel(u, iu), sel(v, iv))))))
    return out


def inst_vsum(t):
    a, n = t.children(); n1 = simp(n - 1)
    return [z3.Implies(n <= 0, t == 0), z3.Implies(n > 0, t == vsum(a, n1) + sel(a, n1))]


def inst_Pr(t):
    s, i = t.children(); i1 = simp(i - 1)
    return [z3.Implies(i <= 0, t == 1)] + ([z3.Implies(i > 0, t == Pr(s, i1) * sel(s, i1))] if not OPAQUE or OPAQUE == 'od' else []) + [z3.Implies(i >= 0, t == Wt(s, i, I(0)))]


def inst_bcn(t):
    a, b = t.children(); return [t == z3.If(a >= b, a, b)]


def inst_i2f(t):
    x = t.arg(0); return [z3.Implies(x == c, t == c) for c in (0, 1, -1)]


def inst_comm(t):
    x, y = t.children(); u = t.decl()(y, x)
    return ([t == u] if not x.eq(y) else []) + ([z3.Implies(x == 0, t == y), z3.Implies(y == 0, t == x)] if t.decl().name().startswith('fadd') else [])


def inst_tdiv(t):
    x, y = t.children(); return [z3.Implies(z3.And(x >= 0, y > 0), t == x / y)]


GEN = {'fadd32': inst_comm, 'fadd64': inst_comm, 'fmul32': inst_comm, 'fmul64': inst_comm, 'tdiv': inst_tdiv, 'i2f32': inst_i2f, 'i2f64': inst_i2f, 'bcn': inst_bcn, 'Pr': inst_Pr, 'dot': inst_dot, 'Wt': inst_Wt, 'select': inst_select, 'vsum': inst_vsum}


_pc = {}


def pair_instances(terms):
    out = []
    ds = terms.get('dot', [])
    if len(ds) > 16: ds = ds[:16]
    for a, b in itertools.combinations(ds, 2):
        k = ('d', a.id, b.id)
        if k not in _pc: _pc[k] = pair_dot(a.t, b.t)
        out += _pc[k]
    ws = [w for w in terms.get('Wt', []) if w.ch[2].name == 'num' and w.ch[2].t.as_long() == 0]
    for a, b in itertools.combinations(ws[:8], 2):
        k = ('w', a.id, b.id)
        if k not in _pc: _pc[k] = pair_wt(a.t, b.t)
        out += _pc[k]
    us = terms.get('unrank', [])[:8]
    for a, b in itertools.combinations(us, 2):
        k = ('u', a.id, b.id)
        if k not in _pc: _pc[k] = pair_unrank(a.t, b.t)
        out += _pc[k]
    if us:
        for d in ds:
            W = d.ch[0]
            if W.name != 'wts' or d.ch[1].name == 'unrank' or W.ch[1].id != d.ch[2].id: continue
            for u in us:
                if u.ch[0].id != W.ch[0].id or u.ch[1].id != W.ch[1].id: continue
                k = ('ur', d.id, u.id)
                if k not in _pc: _pc[k] = unrank_rank(d.t, u.t)
                out += _pc[k]
    # a zero size makes the product zero
    zs = {}
    for w in ws: zs.setdefault(w.ch[0].id, []).append(w)
    for t in terms.get('select', []):
        for w in zs.get(t.ch[0].id, ()):
            k = ('z', t.id, w.id)
            if k not in _pc:
                s, n, i = w.t.children(); j = t.t.arg(1)
                _pc[k] = [z3.Implies(z3.And(i <= j, j < n, sel(s, j) == 0), w.t == 0)]
            out += _pc[k]
    return out


def pair_dot(a, b):
    S, X, e = a.children(); S2, X2, e2 = b.children()
    if not e.eq(e2): return []
    if S.eq(S2) and not X.eq(X2):
        d = skolem('dext', X, X2, e)
        return [z3.Or(a == b, z3.And(0 <= d, d < e, sel(X, d) != sel(X2, d)))]
    if X.eq(X2) and not S.eq(S2):
        d = skolem('dext', S, S2, e)
        return [z3.Or(a == b, z3.And(0 <= d, d < e, sel(S, d) != sel(S2, d)))]
    d = skolem('dext2', S, S2, X, X2, e)
    return [z3.Or(a == b, z3.And(0 <= d, d < e, z3.Or(sel(X, d) != sel(X2, d), sel(S, d) != sel(S2, d))))]


def pair_unrank(a, b):
    """the digits of k depend only on the sizes"""
    s, n, k = a.children(); s2, n2, k2 = b.children()
    if s.eq(s2): return []
    d = skolem('uext', s, s2, n)
    return [z3.Or(a == b, k != k2, n != n2, z3.And(0 <= d, d < n, sel(s, d) != sel(s2, d)))]


def unrank_rank(d, u):
    """the digits of the rank of X are X"""
    W, X, n = d.children(); s = W.arg(0); k = u.arg(2); i = z3.Int('i!ur')
    return [z3.Implies(z3.And(inr(X, s, n), k == d), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), u[i] == X[i]), patterns=[u[i]]))]


def pair_wt(a, b):
    s, n, _ = a.children(); s2, n2, _ = b.children()
    if s.eq(s2): return []
    d = skolem('wext', s, s2, n)
    return [z3.Or(a == b, n != n2, z3.And(0 <= d, d < n, sel(s, d) != sel(s2, d)))]


def lin_var(x):
    """x as (bound variable, ground rest) when x is variable + ground terms"""
    if x.lv is None: x.lv = lin_var_(x)
    return x.lv


_lo = {}


def less(y, rest):
    k = (y.id, rest.get_id()); r = _lo.get(k)
    if r is None: r = _lo[k] = (node(simp(y.t - rest)), rest)
    return r[0]


def lin_var_(x):
    st = [(x, 1)]; v = None; rest = I(0)
    while st:
        t, sg = st.pop()
        if t.k == 'v':
            if v is not None or sg != 1: return None, None
            v = t
        elif t.ground: rest = rest + t.t if sg == 1 else rest - t.t
        elif t.name == '+': st += [(c, sg) for c in t.ch]
        elif t.name == '-': st += [(c, sg if i == 0 else -sg) for i, c in enumerate(t.ch)]
        else: return None, None
    return v, rest


def match(pat, t, sub):
    """one-way matching of a quantifier pattern against a ground term; sub: var index -> N"""
    if pat.k == 'v':
        o = sub.get(pat.vi)
        if o is not None: return o.id == t.id
        if pat.so != t.so: return False
        sub[pat.vi] = t; return True
    if pat.ground: return pat.id == t.id
    if pat.name != t.name or len(pat.ch) != len(t.ch): return False
    for x, y in zip(pat.ch, t.ch):
        if not match(x, y, sub):
            # offset patterns: j + c against a ground index
            if x.name in ('+', '-'):
                v, rest = lin_var(x)
                if v is not None and v.vi not in sub:
                    sub[v.vi] = less(y, rest); continue
            return False
    return True


_qp = {}; _qi = {}


def qinsts(gq, col, done):
    """trigger instances of a (guarded) universal formula over the collected ground terms"""
    guard, q = gq; qid = q.get_id()
    info = _qp.get(qid)
    if info is None: info = _qp[qid] = ([[node(p) for p in q.pattern(i).children()] for i in range(q.num_patterns())], q.num_vars(), q)
    out = []
    for pat in info[0]:
        subs = [{}]
        for p in pat:
            nxt = []
            cand = col.terms.get(p.name, ()) if not p.ch or not p.ch[0].ground else col.by1.get((p.name, p.ch[0].id), ())
            for sub in subs:
                for t in cand:
                    s2 = dict(sub)
                    if match(p, t, s2): nxt.append(s2)
            subs = nxt
            if len(subs) > 40: subs = subs[:40]
        for sub in subs:
            if len(sub) != info[1]: continue
            k = (qid, guard.get_id() if guard is not None else None) + tuple(sub[i].id for i in range(info[1]))
            if k in done: continue
            done.add(k)
            b = _qi.get(k)
            if b is None:
                b = z3.substitute_vars(q.body(), *[sub[i].t for i in range(info[1])])
                if guard is not None: b = z3.Implies(guard, b)
                b = _qi[k] = norm(b)
            out.append(b)
    return out


_nm = {}; _sk = {}


def hasq(n):
    return n.k == 'q' or (n.k == 'a' and z3.is_bool(n.t) and any(hasq(c) for c in n.ch))


_sc = {}


def sko(f, pos=True):
    """replaces universals in negative positions by their body at a witness constant"""
    k = (f.get_id(), pos); r = _sc.get(k)
    if r is None: r = _sc[k] = (sko_(f, pos), f)
    return r[0]


def sko_(f, pos=True):
    if z3.is_quantifier(f):
        if pos or not f.is_forall(): return f
        r = _sk.get(f.get_id())
        if r is None:
            k = len(_sk); vs = [z3.Const('w!%d.%d' % (k, i), f.var_sort(i)) for i in range(f.num_vars())]
            r = _sk[f.get_id()] = (z3.substitute_vars(f.body(), *reversed(vs)), f)
        return sko(r[0], pos)
    if not z3.is_app(f) or not z3.is_bool(f) or not f.children() or not hasq(node(f)): return f
    if z3.is_not(f): return z3.Not(sko(f.arg(0), not pos))
    if z3.is_and(f): return z3.And([sko(c, pos) for c in f.children()])
    if z3.is_or(f): return z3.Or([sko(c, pos) for c in f.children()])
    if z3.is_implies(f): return z3.Or(z3.Not(sko(f.arg(0), not pos)), sko(f.arg(1), pos))
    return f


def norm(f):
    i = f.get_id(); r = _nm.get(i)
    if r is None: r = _nm[i] = (z3.simplify(sko(f), som=True), f)
    return r[0]


_gen = {}


def gen(n):
    r = _gen.get(n.id)
    if r is None:
        r = []
        if n.name in GEN: r += GEN[n.name](n.t)
        for g in EXTRA.get(n.name, ()): r += g(n.t)
        r = _gen[n.id] = [norm(f) for f in r]
    return r


_gd = {}


def guarded(f):
    r = _gd.get(f.get_id())
    if r is None:
        r = ()
        if z3.is_quantifier(f):
            if f.is_forall(): r = ((None, f),)
        elif z3.is_implies(f) and z3.is_quantifier(f.arg(1)) and f.arg(1).is_forall(): r = ((f.arg(0), f.arg(1)),)
        elif z3.is_or(f):
            cs = f.children(); qs = [c for c in cs if z3.is_quantifier(c)]
            if len(qs) == 1 and qs[0].is_forall(): r = ((z3.And([z3.Not(c) for c in cs if not z3.is_quantifier(c)]), qs[0]),)
        _gd[f.get_id()] = (r, f); return r
    return r[0]


def instances(fs, rounds=2, pairs=True):
    col = Collector(); out = []; done = set(); qd = set(); qs = []; qseen = set()
    for f in fs: col.add(f); qs += guarded(f)
    # the recursive definitions registered by the specs: one unfolding of the terms of the query itself
    for nm in EXTRA:
        for t in list(col.terms.get(nm, ())):
            done.add(t.id)
            for f in gen(t):
                out.append(f); qs += guarded(f)
    for f in out: col.add(f)
    for nm in EXTRA: done.update(t.id for t in col.terms.get(nm, ()))
    first = {k: list(v) for k, v in col.terms.items()}
    for r in range(rounds):
        new = []
        for nm, ts in list(col.terms.items()):
            for t in list(ts):
                if t.id in done: continue
                done.add(t.id); new += gen(t)
        for q in qs: new += qinsts(q, col, qd)
        out += new
        if not new: break
        if r < rounds - 1:
            for f in new:
                col.add(f)
                for g in guarded(f):
                    if node(g[1]).id not in qseen: qseen.add(node(g[1]).id); qs.append(g)
    if not pairs: return out
    p = [norm(f) for f in pair_instances(col.terms if rounds < 3 else first)]
    out += p
    for r in range(3 if OPAQUE else 1):
        for f in p:
            col.add(f)
            if OPAQUE:
                for g in guarded(f):
                    if node(g[1]).id not in qseen: qseen.add(node(g[1]).id); qs.append(g)
        p = []
        for nm in (list(col.terms) if OPAQUE else ('select',)):
            for t in list(col.terms.get(nm, ())):
                if t.id in done: continue
                done.add(t.id); p += gen(t)
        for q in qs: p += qinsts(q, col, qd)
        out += p
        if not p: break
    return out


class Stats:
    def __init__(self): self.queries = 0; self.time = 0.0; self.max = 0.0


stats = Stats()
RL = 4_000_000


def mk_solver(rl, arith=None):
    s = z3.SimpleSolver()
    s.set('smt.mbqi', False); s.set('smt.auto_config', False); s.set('rlimit', rl); s.set('timeout', 30000); s.set('smt.random_seed', 1)
    if arith: s.set('smt.arith.solver', arith)
    return s


def relevant(pc, goal):
    return pc


_skn = itertools.count()


def split_goal(g):
    """list of (hypotheses, goal) whose validity implies g: conjunctions split, universals skolemised, implications moved"""
    g = simp(g) if not z3.is_quantifier(g) else g
    if z3.is_true(g): return []
    if z3.is_and(g):
        out = []
        for c in g.children(): out += split_goal(c)
        return out
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.Const('sk!%d' % next(_skn), g.var_sort(i)) for i in range(g.num_vars())]
        return split_goal(z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_implies(g):
        return [([g.arg(0)] + h, c) for h, c in split_goal(g.arg(1))]
    if z3.is_or(g) and any(z3.is_quantifier(c) or z3.is_and(c) for c in g.children()):
        cs = list(g.children()); k = next((i for i, c in enumerate(cs) if z3.is_quantifier(c) and c.is_forall()), None)
        if k is None: return [([], g)]
        rest = [z3.Not(c) for i, c in enumerate(cs) if i != k]
        return [(rest + h, c) for h, c in split_goal(cs[k])]
    return [([], g)]


def flat(fs):
    out = []
    for f in fs:
        if z3.is_and(f): out += flat(f.children())
        elif z3.is_not(f) and z3.is_or(f.arg(0)): out += flat([z3.Not(c) for c in f.arg(0).children()])
        elif z3.is_not(f) and z3.is_not(f.arg(0)): out += flat([f.arg(0).arg(0)])
        else: out.append(f)
    return out


def prove(pc, goal, rl=RL, rounds=2, extra=(), nl=True):
    """True iff pc |= goal was established. Returns (bool, why)."""
    for h, g in split_goal(goal):
        ok, why = prove1(list(pc) + flat(h), g, rl, rounds, extra, nl)
        if not ok: return ok, why
    return True, 'unsat'


mulU = F('mulU', Int, Int, Int)


_ml = {}


def muls(n):
    """binary integer products inside a formula"""
    if n.muls is None:
        out = []; seen = set(); st = [n]
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.k == 'q': continue
            if x.name == '*' and x.ground and z3.is_int(x.t):
                fac = [c for c in x.ch if c.name != 'num']
                if len(fac) == 2: out.append(tuple(sorted(fac, key=lambda c: c.id)))
            st.extend(x.ch)
        n.muls = out
    return n.muls


def mul_links(fs):
    """mulU(x,y) == x*y for the binary products occurring in fs: lets congruence act on factors"""
    out = []; done = set()
    for f in fs:
        for a, b in muls(node(f)):
            k = (a.id, b.id)
            if k in done: continue
            done.add(k)
            r = _ml.get(k)
            if r is None:
                x, y = a.t, b.t; m = mulU(x, y)
                r = _ml[k] = [m == x * y, mulU(y, x) == m, z3.Implies(x == 0, m == 0), z3.Implies(y == 0, m == 0), z3.Implies(x == 1, m == y), z3.Implies(y == 1, m == x)]
            out += r
    return out


_ab = {}


def absmul(n, prods):
    """the formula with non-linear integer products replaced by mulU applications"""
    if n.k == 'q' or not n.ch: return n.t
    r = _ab.get(n.id)
    if r is None:
        ps = []
        if n.name == '*' and z3.is_int(n.t) and sum(c.name != 'num' for c in n.ch) >= 2:
            co = None; fac = []
            for c in n.ch:
                if c.name == 'num': co = c.t
                else: fac.append(c)
            fac.sort(key=lambda c: c.id)
            t = absmul(fac[0], ps)
            for c in fac[1:]:
                u = absmul(c, ps); m = mulU(t, u); ps.append((t, u, m)); t = m
            if co is not None: t = co * t
        elif n.name and n.name.startswith('op') and z3.is_int(n.t) and n.t.decl().kind() == z3.Z3_OP_POWER: t = n.t
        else:
            cs = [absmul(c, ps) for c in n.ch]
            t = n.t if all(x.eq(y.t) for x, y in zip(cs, n.ch)) else n.t.decl()(*cs)
        r = _ab[n.id] = (t, ps)
    prods += r[1]
    return r[0]


def linear(fs):
    """abstraction of non-linear products, with the facts about them that proofs use"""
    prods = []; out = [absmul(node(norm(f)), prods) for f in fs]; done = set()
    for x, y, m in prods:
        k = m.get_id()
        if k in done: continue
        done.add(k)
        out += [mulU(y, x) == m, z3.Implies(x == 0, m == 0), z3.Implies(y == 0, m == 0), z3.Implies(x == 1, m == y), z3.Implies(y == 1, m == x),
                z3.Implies(z3.And(x >= 0, y >= 0), m >= 0), z3.Implies(z3.And(x >= 1, y >= 1), z3.And(m >= x, m >= y))]
    return out


def prove1(pc, goal, rl, rounds, extra, nl=True):
    t0 = time.time()
    fs = [sko(f) for f in list(pc) + list(extra)] + [z3.Not(goal)]
    if OPAQUE:
        # cheap attempt first
        s = mk_solver(rl // 10); s.add(*fs); s.add(*instances(fs, 1, False)); r = s.check()
        if r == z3.unsat:
            dt = time.time() - t0; stats.queries += 1; stats.time += dt; stats.max = max(stats.max, dt)
            return True, 'unsat'
        rounds += 2
    ins = instances(fs, rounds)
    if OPAQUE == 'od':
        s = mk_solver(rl); s.add(*linear(fs + ins))
        if s.check() == z3.unsat:
            dt = time.time() - t0; stats.queries += 1; stats.time += dt; stats.max = max(stats.max, dt)
            return True, 'unsat'
        if not nl:
            stats.queries += 1; stats.time += time.time() - t0
            return False, 'not shown by the linear attempt'
    s = mk_solver(rl)
    s.add(*fs)
    ins += mul_links(fs + ins)
    s.add(*ins)
    r = s.check()
    if r == z3.unknown and rl >= RL // 2:
        # second strategy: the other arithmetic solver
        s2 = mk_solver(rl, 2); s2.add(*fs); s2.add(*ins); r2 = s2.check()
        if r2 != z3.unknown: r = r2; s = s2
    dt = time.time() - t0
    stats.queries += 1; stats.time += dt; stats.max = max(stats.max, dt)
    if r == z3.unsat: return True, 'unsat'
    if r == z3.sat: return False, 'sat'
    return False, 'unknown:' + s.reason_unknown()


def feasible(pc, cond, rl=400_000):
    """False only if pc && cond was refuted."""
    t0 = time.time()
    c = simp(cond)
    if z3.is_false(c): return False
    fs = list(pc) + [c]
    s = mk_solver(rl); s.add(*fs); s.add(*instances(fs, 1))
    r = s.check()
    stats.queries += 1; stats.time += time.time() - t0
    return r != z3.unsat
