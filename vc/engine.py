"""Forward symbolic execution of the extracted C++ AST, one path at a time (paths are enumerated by
replaying decision scripts), generating proof obligations that logic.prove discharges."""
import z3, time
from . import logic as L
from .logic import I, sel, simp, isnum

M64 = 1 << 64


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, ty): self.ty = ty


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ---------------------------------------------------------------- values
class IV:
    """integer; t is a representative modulo 2^bits when rng is None"""
    __slots__ = ('t', 'lo', 'hi')

    def __init__(self, t, lo=None, hi=None):
        self.t = t if not isinstance(t, int) else I(t); self.lo = lo; self.hi = hi
        if lo is None and isnum(self.t): self.lo = self.hi = self.t.as_long()

    def __repr__(self): return 'IV(%s)' % self.t


class BV:
    __slots__ = ('t',)

    def __init__(self, t): self.t = z3.BoolVal(t) if isinstance(t, bool) else t


class FV:
    __slots__ = ('t',)

    def __init__(self, t): self.t = t


class OP:
    """pointer (raw or smart) to a class object; ref 0 is null"""
    __slots__ = ('ref', 'cls')

    def __init__(self, ref, cls): self.ref = ref if not isinstance(ref, int) else I(ref); self.cls = cls

    def __repr__(self): return 'OP(%s,%s)' % (self.ref, self.cls)


class DP:
    """pointer into a raw byte block; off counts elements of ety"""
    __slots__ = ('blob', 'off', 'ety')

    def __init__(self, blob, off, ety): self.blob = blob; self.off = off; self.ety = ety


class LP:
    """pointer to some other lvalue"""
    __slots__ = ('lv',)

    def __init__(self, lv): self.lv = lv


class VV:
    """std::vector / SizeVec / SignedVec / initializer_list value"""
    __slots__ = ('n', 'a', 'ety')

    def __init__(self, n, a, ety): self.n = n if not isinstance(n, int) else I(n); self.a = a; self.ety = ety


class QV:
    """std::queue: elements a[h..t)"""
    __slots__ = ('h', 't', 'a', 'ety')

    def __init__(self, h, t, a, ety): self.h = h; self.t = t; self.a = a; self.ety = ety


class SV:
    __slots__ = ('t',)

    def __init__(self, t): self.t = t


class CV:
    """closure"""
    __slots__ = ('lam', 'caps', 'this')

    def __init__(self, lam, caps, this): self.lam = lam; self.caps = caps; self.this = this


class FnV:
    __slots__ = ('key',)

    def __init__(self, key): self.key = key


class TabV:
    """evaluated constexpr data"""
    __slots__ = ('v', 'ty')

    def __init__(self, v, ty): self.v = v; self.ty = ty


class ItV:
    """iterator: position in an lvalue vector"""
    __slots__ = ('lv', 'pos')

    def __init__(self, lv, pos): self.lv = lv; self.pos = pos


class Opq:
    """opaque library object (stream, allocator, distribution, exception...)"""
    __slots__ = ('what', 'payload')

    def __init__(self, what, payload=None): self.what = what; self.payload = payload


class AbsOp:
    """abstract callable used when verifying higher-order functions"""
    __slots__ = ('f',)

    def __init__(self, f): self.f = f


# ---------------------------------------------------------------- lvalues
class LVar:
    __slots__ = ('c', 'ty')

    def __init__(self, c, ty): self.c = c; self.ty = ty


class LFld:
    __slots__ = ('cls', 'f', 'ref', 'ty')

    def __init__(self, cls, f, ref, ty): self.cls = cls; self.f = f; self.ref = ref; self.ty = ty


class LEl:
    __slots__ = ('b', 'i', 'ty')

    def __init__(self, b, i, ty): self.b = b; self.i = i; self.ty = ty


class LMem:
    __slots__ = ('p',)

    def __init__(self, p): self.p = p


class LObj:
    __slots__ = ('ref', 'cls')

    def __init__(self, ref, cls): self.ref = ref; self.cls = cls


class LGlob:
    __slots__ = ('n', 'ty')

    def __init__(self, n, ty): self.n = n; self.ty = ty


class LTmp:
    __slots__ = ('v',)

    def __init__(self, v): self.v = v


class LBytes:
    """byte block element lvalue as uint8_t"""
    __slots__ = ('p',)


LVS = (LVar, LFld, LEl, LMem, LObj, LGlob, LTmp)


def strip(t):
    while t.c == 'ref': t = t.e
    return t


def kind(t):
    if t.kind_ is None: t.kind_ = _kind(t)
    return t.kind_


def _kind(t):
    c = t.c
    if c in ('int', 'bool', 'float', 'enum', 'void', 'nullptr', 'func'): return c
    if c == 'ref': return 'ref'
    if c == 'ptr':
        k = kind(t.e)
        if k in ('int', 'float', 'bool', 'void'): return 'dptr'
        if k == 'obj': return 'optr'
        if k == 'func': return 'fptr'
        return 'lptr'
    if c == 'array': return 'array'
    if c == 'rec':
        n = t.n
        if t.lam: return 'closure'
        if n in ('std::vector', 'INNC::SizeVec', 'INNC::SignedVec', 'std::initializer_list'): return 'vec'
        if n in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr'):
            e = t.ta[0]
            return 'sptr' if kind(e) == 'obj' else 'dsptr'
        if n in ('std::basic_string', 'std::__cxx11::basic_string', 'std::basic_string_view'): return 'str'
        if n == 'std::queue': return 'queue'
        if n == '__gnu_cxx::__normal_iterator': return 'iter'
        if n == 'std::array': return 'tab'
        if n.startswith('INNC::') or n == 'UntypedStorage': return 'obj'
        return 'opaque'
    return 'other'


def elem_ty(t):
    """element type of a vector-like record type"""
    if t.n == 'INNC::SizeVec' or t.n == 'INNC::SignedVec': return t.n
    return t.ta[0]


def sort_of(k):
    if k in ('int', 'enum', 'optr', 'sptr', 'obj', 'dsptr', 'dptr'): return L.Int
    if k == 'bool': return L.Bool
    if k == 'float': return L.Real
    if k == 'str': return L.Str
    raise Unsupported('sort of ' + k)


class DT:
    """element data types of typed memory"""
    size = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8}
    order = ['i8', 'i16', 'i32', 'i64', 'f32', 'f64']


def dt_of(t):
    t = strip(t)
    if t.c == 'float': return 'f%d' % t.bits
    if t.c in ('int',) and (t.sg or t.bits == 8): return 'i%d' % t.bits
    if t.c == 'bool': return 'i8'
    raise Unsupported('memory element type ' + t.s)


def irange(t):
    if t.c == 'bool': return 0, 1
    b, s = t.bits, t.sg
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def add_lits(a, b): return simp(a + b)


class Engine:
    """one verification task: explores all paths of a goal"""
    def __init__(self, prog, contracts, math=False, maxpaths=4000):
        self.prog = prog; self.contracts = contracts; self.math = math; self.maxpaths = maxpaths
        self.memo = {}; self.obl = {}; self.order = []; self.modsets = {}; self.dropped = {}; self.paths = 0
        self.fails = []; self.reached = set(); self.callees = set(); self.assumed = set(); self.verifying = None
        self.restarts = 0; self.live = False; self.normal = 0

    # -------- exploration
    def explore(self, task):
        """first pass: loop summaries are learned with the obligations assumed; second pass: every obligation is proved
        (the candidates kept by the first pass are checked again on the way, from the same facts)"""
        self.learning = True
        while True:
            try:
                stack = [[]]; self.paths = 0; self.normal = 0; self.obl = {}; self.order = []
                while stack:
                    dec = stack.pop()
                    run = self.new_run(dec)
                    try:
                        task(run); self.normal += 1
                        if not self.learning and not self.live and not run.memo(lambda: L.prove(run.pc, z3.BoolVal(False), rl=400_000, nl=False)[0], ('live',)): self.live = True
                    except PathEnd: pass
                    stack += run.alts
                    self.paths += 1
                    if self.paths > self.maxpaths: raise Unsupported('too many paths')
                if not self.learning: return
                self.learning = False; self.arrived = set()
            except Restart:
                self.restarts += 1
                self.arrived = set()
                if self.restarts > 400: raise Unsupported('loop summaries do not converge')

    def record(self, name, ok, why, dt, line=None, detail=None):
        r = self.obl.get(name)
        if r is None: r = self.obl[name] = dict(name=name, n=0, ok=True, why=[], time=0.0); self.order.append(name)
        r['n'] += 1; r['time'] += dt
        if not ok: r['ok'] = False; r['why'].append((why, detail))


class Run:
    def __init__(self, eng, dec):
        self.eng = eng; self.prog = eng.prog; self.dec = list(dec); self.pos = 0; self.alts = []; self.q = 0
        self.env = {}; self.heap = {}; self.heap0 = {}; self.pc = []; self.cells = 0; self.refs = 0; self.freshc = {}
        self.old = set(); self.frames = []; self.ghost = {}; self.loopdepth = []; self.depth = 0; self.dyn = {}; self.writes = None
        self.math = eng.math; self.taken = (); self.loopstack = []; self.globals = {}; self.wf_done = set(); self.hyp = []
        self.lines = []

    # -------- decisions
    def choose(self, n, tag=''):
        if n == 1: return 0
        if self.pos < len(self.dec): d = self.dec[self.pos]
        else:
            d = 0
            base = self.dec[:self.pos]
            for k in range(n - 1, 0, -1): self.alts.append(base + [k])
            self.dec.append(0)
        self.pos += 1
        return d

    def memo(self, f, tag):
        """results of solver queries, keyed by the path condition and the query (terms are hash-consed)"""
        k = (self.math, tuple(c.get_id() for c in self.pc)) + tuple(x.get_id() if z3.is_expr(x) else x for x in tag)
        m = self.eng.memo
        if k in m: return m[k][0]
        r = f(); m[k] = (r, list(self.pc), [x for x in tag if z3.is_expr(x)]); return r

    def assume(self, f):
        f = simp(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f): return
        if z3.is_and(f):
            for c in f.children(): self.assume(c)
            return
        self.pc.append(f)

    def known(self, goal, rl=600_000):
        g = simp(goal)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        return self.memo(lambda: L.prove(self.pc, g, rl=rl, rounds=1)[0], ('k', g))

    def branch(self, cond):
        c = simp(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        ft = self.memo(lambda: L.feasible(self.pc, c), ('f', c)); ff = self.memo(lambda: L.feasible(self.pc, z3.Not(c)), ('nf', c))
        if ft and ff:
            d = self.choose(2)
            if d == 0: self.assume(c); return True
            self.assume(z3.Not(c)); return False
        if ft: self.assume(c); return True
        if ff: self.assume(z3.Not(c)); return False
        raise PathEnd()

    def feasible_or_end(self):
        if not self.memo(lambda: L.feasible(self.pc, z3.BoolVal(True), rl=1_500_000), ('ft',)): raise PathEnd()

    def oblige(self, name, goal, rl=None, rounds=2, detail=None):
        if self.eng.learning: self.assume(goal); return True
        t0 = time.time()
        ok, why = self.memo(lambda: L.prove(self.pc, goal, rl=rl or L.RL, rounds=rounds), ('o', goal, rounds))
        if not ok and rounds < 3:
            ok, why = self.memo(lambda: L.prove(self.pc, goal, rl=(rl or L.RL), rounds=3), ('o', goal, 3))
        self.eng.record(name, ok, why, time.time() - t0, detail=detail)
        self.assume(goal)
        return ok

    def split_feasible(self, goal):
        return self.memo(lambda: L.feasible(self.pc, goal), ('sf', goal))

    # -------- fresh things
    def fresh(self, base, sort):
        k = self.freshc.get(base, 0); self.freshc[base] = k + 1
        return z3.Const('%s!%d' % (base, k), sort)

    def oldref(self, name, cls=None):
        """an arbitrary pre-existing object"""
        r = self.fresh(name, L.Int); self.old.add(r.get_id()); self.hyp.append(r); self.assume(r < 0); return r

    def alloc(self, cls):
        self.refs += 1; r = I(self.refs)
        self.dyn[self.refs] = cls
        return r

    def is_old(self, r):
        if r.get_id() in self.old: return True
        if z3.is_select(r):
            a = r.arg(0)
            while z3.is_select(a): a = a.arg(0)
            if z3.is_const(a) and a.decl().name().startswith('h0.'): return True
            # element of a pre-existing vector
        return False

    def differ(self, a, b):
        if isnum(a) and isnum(b): return a.as_long() != b.as_long()
        if isnum(a) and a.as_long() > 0 and self.is_old(b): return True
        if isnum(b) and b.as_long() > 0 and self.is_old(a): return True
        k = (min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id()))
        return k in self.ghost.get('ne', ())

    def declare_ne(self, a, b):
        self.assume(a != b); self.ghost.setdefault('ne', set()).add((min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id()))); self.hyp += [a, b]

    def hsel(self, a, r):
        while z3.is_store(a):
            k = a.arg(1)
            if k.eq(r): return a.arg(2)
            if self.differ(k, r): a = a.arg(0); continue
            break
        return z3.Select(a, r)

    # -------- heap
    def comp(self, name, sort=None):
        if name not in self.heap:
            if sort is None: raise Unsupported('heap component ' + name)
            c = z3.Const('h0.' + name, z3.ArraySort(L.Int, sort)); self.heap[name] = c; self.heap0[name] = c
        return self.heap[name]

    def hget(self, name, ref, sort): return self.hsel(self.comp(name, sort), ref)

    def hset(self, name, ref, val):
        c = self.comp(name, val.sort())
        self.note_write(('h', name), ref)
        if z3.is_store(c) and c.arg(1).eq(ref): c = c.arg(0)
        self.heap[name] = z3.Store(c, ref, val)

    def note_write(self, what, ref=None):
        for ls in self.loopstack: ls.note(self, what, ref)

    def mem(self, dt, blob): return self.hget('M.' + dt, blob, L.IA if dt[0] == 'i' else L.RA)

    def setmem(self, dt, blob, arr): self.hset('M.' + dt, blob, arr)

    # -------- typed constructors of symbolic values
    def ival(self, ty, t):
        lo, hi = irange(ty); return IV(t, lo, hi)

    def from_term(self, ty, t):
        k = kind(ty)
        if k == 'int':
            return IV(t) if ty.bits == 64 else self.ival(ty, t)
        if k == 'enum': return self.ival(ty, t)
        if k == 'bool': return BV(t)
        if k == 'float': return FV(t)
        if k in ('optr',): return OP(t, strip(ty.e).n)
        if k == 'sptr': return OP(t, strip(ty.ta[0]).n)
        if k == 'dsptr': return DP(t, I(0), self.byte_ty(ty))
        if k == 'str': return SV(t)
        if k == 'obj': return LObj(t, ty.n)
        raise Unsupported('value of type ' + ty.s)

    def byte_ty(self, ty):
        e = ty.ta[0]
        return e.e if e.c == 'array' and e.e else e

    def term_of(self, v, ty=None):
        if isinstance(v, LVS) and not isinstance(v, LObj): v = self.load(v)
        if isinstance(v, (IV, BV, FV, SV)): return v.t
        if isinstance(v, OP): return v.ref
        if isinstance(v, LObj): return v.ref
        if isinstance(v, DP): return v.blob
        raise Unsupported('term of %r' % (v,))

    def vec_sort(self, ty):
        e = elem_ty(ty) if not isinstance(ty, str) else ty
        if isinstance(e, str): return L.IA
        return z3.ArraySort(L.Int, sort_of(kind(e)))

    def vec_el(self, ety, t):
        """value of vector element"""
        if isinstance(ety, str): return IV(t)
        if kind(ety) == 'int' and ety.bits == 64: return IV(t)
        return self.from_term(ety, t)

    # -------- load/store
    def load(self, lv):
        if isinstance(lv, LVar):
            if lv.c not in self.env: raise Unsupported('read of an uninitialised variable')
            return self.env[lv.c]
        if isinstance(lv, LTmp): return lv.v
        if isinstance(lv, LObj): return lv
        if isinstance(lv, LFld):
            k = kind(lv.ty); nm = lv.cls + '.' + lv.f
            if k == 'vec':
                s = self.vec_sort(lv.ty)
                return VV(self.hget(nm + '.len', lv.ref, L.Int), self.hget(nm + '.arr', lv.ref, s), elem_ty(lv.ty))
            if k == 'obj': return LObj(self.hget(nm, lv.ref, L.Int), lv.ty.n)
            return self.from_term(lv.ty, self.hget(nm, lv.ref, sort_of(k)))
        if isinstance(lv, LEl):
            v = self.load(lv.b)
            return self.vec_el(v.ety, sel(v.a, lv.i))
        if isinstance(lv, LMem): return self.mread(lv.p)
        if isinstance(lv, LGlob): return self.gload(lv)
        return lv

    def gload(self, lv):
        if lv.n not in self.globals:
            k = kind(lv.ty)
            if k in ('int', 'enum', 'bool', 'float'):
                self.globals[lv.n] = self.from_term(lv.ty, z3.Const('g0.' + lv.n, sort_of(k)))
                if k == 'int': self.assume(self.globals[lv.n].t >= irange(lv.ty)[0]); self.assume(self.globals[lv.n].t <= irange(lv.ty)[1])
            else: return Opq('global ' + lv.n)
        return self.globals[lv.n]

    def store(self, lv, v):
        if isinstance(v, LVS) and not isinstance(v, LObj): v = self.load(v)
        if isinstance(lv, LVar): self.note_write(('v', lv.c)); self.env[lv.c] = v
        elif isinstance(lv, LGlob): self.note_write(('g', lv.n)); self.globals[lv.n] = v
        elif isinstance(lv, LFld):
            k = kind(lv.ty); nm = lv.cls + '.' + lv.f
            if k == 'vec': self.hset(nm + '.len', lv.ref, v.n); self.hset(nm + '.arr', lv.ref, v.a)
            else: self.hset(nm, lv.ref, self.term_of(v))
        elif isinstance(lv, LEl):
            b = self.load(lv.b); self.store(lv.b, VV(b.n, z3.Store(b.a, lv.i, self.term_of(v)), b.ety))
        elif isinstance(lv, LMem): self.mwrite(lv.p, v)
        elif isinstance(lv, LTmp): lv.v = v
        else: raise Unsupported('store to %s' % type(lv).__name__)

    def bounds(self, p, what):
        dt = dt_of(p.ety); sz = DT.size[dt]; nb = self.hget('blob.bytes', p.blob, L.Int)
        if sz == 1: g = z3.And(p.off >= 0, p.off < nb)
        else: g = z3.And(p.off >= 0, (p.off + 1) * sz <= nb)
        self.oblige('%s stays inside the storage' % what, g)
        tag = self.hget('blob.tag', p.blob, L.Int); ti = DT.order.index(dt)
        return dt, tag, ti

    def mread(self, p):
        dt, tag, ti = self.bounds(p, 'read')
        if p.ety.c != 'bool': self.oblige('read uses the element type of the storage', z3.Or(tag == ti, tag == -1))
        t = sel(self.mem(dt, p.blob), p.off)
        if p.ety.c == 'bool':
            self.oblige('bool read of a byte holding 0 or 1', z3.And(t >= 0, t <= 1)); return BV(t != 0)
        if dt[0] == 'f': return FV(t)
        if p.ety.bits == 8 and not p.ety.sg: raise Unsupported('raw byte read')
        lo, hi = irange(p.ety)
        self.assume(z3.And(t >= lo, t <= hi))
        return IV(t, lo, hi)

    def mwrite(self, p, v):
        dt, tag, ti = self.bounds(p, 'write')
        if p.ety.bits == 8 and not p.ety.sg and p.ety.c == 'int': raise Unsupported('raw byte write')
        if not (isnum(tag) and tag.as_long() == ti):
            self.oblige('write uses the element type of the storage', z3.Or(tag == ti, tag == -1, tag == -2))
            self.hset('blob.tag', p.blob, I(ti))
        if isinstance(v, IV): v = IV(self.wrapped(v, p.ety))
        self.setmem(dt, p.blob, z3.Store(self.mem(dt, p.blob), p.off, self.term_of(v)))

    def wrapped(self, v, ty):
        """term of v brought into the range of ty"""
        lo, hi = irange(ty)
        if v.lo is not None and v.lo >= lo and v.hi <= hi: return v.t
        if isnum(v.t): return self.norm(v, ty).t
        return self.wrap(v.t, ty)

    # -------- integer semantics
    def norm(self, v, ty):
        """value of v as an integer in the range of ty"""
        if isinstance(v, BV): return IV(z3.If(v.t, I(1), I(0)), 0, 1)
        lo, hi = irange(ty)
        if v.lo is not None and v.lo >= lo and v.hi <= hi: return v
        if v.lo is not None and v.lo == v.hi:
            x = v.lo & ((1 << ty.bits) - 1)
            if ty.sg and x > hi: x -= 1 << ty.bits
            return IV(x)
        if self.known(z3.And(v.t >= lo, v.t <= hi)): return IV(v.t, lo, hi)
        if ty.bits == 64:
            q = z3.Function('quo64' + ('s' if ty.sg else 'u'), L.Int, L.Int)(v.t); r = v.t - q * M64
            self.assume(z3.And(r >= lo, r <= hi)); return IV(r, lo, hi)
        return IV(self.wrap(v.t, ty), lo, hi)

    def wrap(self, t, ty):
        lo, hi = irange(ty)
        f = z3.Function('wrap_%s%d' % ('i' if ty.sg else 'u', ty.bits), L.Int, L.Int)
        r = f(t); self.assume(z3.And(r >= lo, r <= hi, z3.Implies(z3.And(t >= lo, t <= hi), r == t)))
        return r

    def icast(self, v, src, dst):
        if dst.c == 'bool': return BV(self.norm(v, src).t != 0) if isinstance(v, IV) else v
        if isinstance(v, BV): return IV(z3.If(v.t, I(1), I(0)), 0, 1)
        lo, hi = irange(dst)
        if v.lo is not None and v.lo >= lo and v.hi <= hi: return v
        if src.bits == 64 and dst.bits == 64: return IV(v.t) if not isnum(v.t) else self.norm(v, dst)
        if src.bits < 64 and dst.bits == 64: return v if not (v.lo is not None and v.lo < lo) else IV(v.t)
        n = self.norm(v, src)
        if n.lo is not None and n.lo >= lo and n.hi <= hi: return n
        if isnum(n.t): return self.norm(n, dst)
        if not self.memread(n.t) and self.known(z3.And(n.t >= lo, n.t <= hi)): return IV(n.t, lo, hi)
        return IV(self.wrap(n.t, dst), lo, hi)

    def memread(self, t):
        """does the term depend on element data?"""
        if L.node(t).name == 'select' and str(L.node(t).ch[0].t.sort().range()) in ('Int', 'Real') and L.node(t).ch[0].name == 'select' and 'M.' in str(L.node(t).ch[0].ch[0].t)[:6]: return True
        return any(self.memread(c) for c in t.children())

    def arith(self, op, a, b, ty):
        if ty.c == 'float': return self.farith(op, a, b, ty)
        if isinstance(a, BV): a = self.norm(a, ty)
        if isinstance(b, BV): b = self.norm(b, ty)
        lo, hi = irange(ty)
        if op in '+-*':
            t = {'+': lambda: a.t + b.t, '-': lambda: a.t - b.t, '*': lambda: a.t * b.t}[op]()
            t = simp(t)
            if isnum(t):
                return self.norm(IV(t), ty)
            if a.lo is not None and b.lo is not None:
                cs = {'+': (a.lo + b.lo, a.hi + b.hi), '-': (a.lo - b.hi, a.hi - b.lo), '*': None}[op]
                if cs is None:
                    ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]; cs = (min(ps), max(ps))
                if cs[0] >= lo and cs[1] <= hi: return IV(t, *cs)
            if ty.bits == 64: return IV(t)
            return IV(self.wrap(t, ty), lo, hi)
        if op in '/%':
            a = self.norm(a, ty); b = self.norm(b, ty)
            if not self.ghost.get('divok'): self.oblige('integer divisor is not zero', b.t != 0)
            if self.known(z3.And(a.t >= 0, b.t > 0)): t = a.t / b.t if op == '/' else a.t % b.t
            else: t = z3.Function('tdiv' if op == '/' else 'tmod', L.Int, L.Int, L.Int)(a.t, b.t)
            if not ty.sg: return IV(t, lo, hi)
            return IV(t) if ty.bits == 64 else IV(self.wrap(t, ty), lo, hi) if self.ghost.get('divok') else IV(t, lo, hi)
        if op in ('&', '|', '^', '<<', '>>') and isnum(a.t) and isnum(b.t):
            x, y = a.t.as_long(), b.t.as_long()
            return self.norm(IV({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op]), ty)
        raise Unsupported('integer operator ' + op)

    def farith(self, op, a, b, ty):
        x, y = a.t, b.t
        if self.math:
            t = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]()
            return FV(t)
        return FV(fop(op, ty.bits, x, y))

    def compare(self, op, a, b, ty):
        if isinstance(a, FV): x, y = a.t, b.t
        elif isinstance(a, (OP,)) or isinstance(b, OP):
            x, y = self.ptr_term(a), self.ptr_term(b)
        elif isinstance(a, DP) or isinstance(b, DP):
            x, y = self.ptr_term(a), self.ptr_term(b)
            if isinstance(a, DP) and isinstance(b, DP): return BV(z3.And(x == y, a.off == b.off) if op == '==' else z3.Not(z3.And(x == y, a.off == b.off)))
        elif isinstance(a, BV) and isinstance(b, BV): x, y = self.norm(a, ty).t, self.norm(b, ty).t
        elif isinstance(a, (FnV, LP)) or isinstance(b, (FnV, LP)): raise Unsupported('pointer comparison')
        else:
            a = self.norm(a, ty); b = self.norm(b, ty); x, y = a.t, b.t
        return BV(simp({'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()))

    def ptr_term(self, v):
        if v is None: return I(0)
        if isinstance(v, OP): return v.ref
        if isinstance(v, DP): return v.blob
        if isinstance(v, IV): return v.t
        raise Unsupported('pointer value')

    def nonnull(self, ref, what='pointer'):
        if isnum(ref):
            if ref.as_long() == 0: self.oblige('dereferenced %s is not null' % what, z3.BoolVal(False)); raise PathEnd()
            return
        if ref.get_id() in self.old: return
        self.oblige('dereferenced %s is not null' % what, ref != 0)

    def fcast(self, v, src, dst):
        if self.math or dst.bits >= src.bits: return v
        return FV(rnd32(v.t))

    def i2f(self, v, src, dst):
        if isinstance(v, BV): v = self.norm(v, src)
        v = self.norm(v, src)
        return FV(i2f(v.t, dst.bits, self.math))

    def f2i(self, v, dst):
        return IV(f2i(v.t, dst.bits, dst.sg), *irange(dst))


def fop(op, bits, x, y):
    nm = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[op] + str(bits)
    f = z3.Function(nm, L.Real, L.Real, L.Real)
    if op in '+*' and x.get_id() != y.get_id() and x.sexpr() > y.sexpr(): x, y = y, x
    return f(x, y)


def fneg(bits, x): return z3.Function('fneg%d' % bits, L.Real, L.Real)(x)


def rnd32(x):
    if z3.is_rational_value(x):
        import struct
        q = x.as_fraction()
        try:
            fl = struct.unpack('f', struct.pack('f', float(q)))[0]
            from fractions import Fraction
            if Fraction(fl) == q: return x
        except OverflowError: pass
    return z3.Function('rnd32', L.Real, L.Real)(x)


def i2f(t, bits, math=False):
    if isnum(t) and abs(t.as_long()) <= (1 << 24): return z3.RealVal(t.as_long())
    if math: return z3.ToReal(t)
    return z3.Function('i2f%d' % bits, L.Int, L.Real)(t)


def f2i(t, bits, sg=1):
    if z3.is_rational_value(t) and t.as_fraction().denominator == 1 and abs(t.as_fraction()) < (1 << (bits - 1)): return I(int(t.as_fraction()))
    return z3.Function('f2i%d%s' % (bits, '' if sg else 'u'), L.Real, L.Int)(t)
