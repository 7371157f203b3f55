"""Statements, expressions, calls and loops of the extracted C++ AST."""
import z3, os
from fractions import Fraction
from decimal import Decimal
from . import logic as L
from .logic import I, sel, simp, isnum
from .engine import *
from .engine import Run as Base, Engine as BaseEngine


class Frame:
    def __init__(self, key, vars_, this, chain):
        self.key = key; self.vars = vars_; self.this = this; self.chain = chain


class Loop:
    """one arrival at a loop that is cut by an invariant"""
    def __init__(self, lid, node, run):
        self.lid = lid; self.node = node; self.cell0 = run.cells; self.ref0 = run.refs; self.seq0 = run.seq; self.dirty = False
        self.mod = run.eng.modsets.setdefault(lid, {}); self.old = {}; self.kind = 'loop'; self.hints = {}; self.frame = run.frame

    def note(self, run, what, ref):
        if what[0] == 'v':
            if run.cellno[what[1]] > self.cell0: return
            item = what
        elif what[0] == 'g': item = what
        else:
            if ref is not None and isnum(ref) and ref.as_long() > self.ref0: return
            if ref is not None and not run.invariant_term(ref, self.seq0): ref = None
            item = ('h', what[1], ref.get_id() if ref is not None else None)
            if item not in self.mod and ('h', what[1], None) in self.mod: return
        if item not in self.mod:
            self.mod[item] = ref; self.dirty = True


class Run(Base):
    MAXDEPTH = 60

    def __init__(self, eng, dec):
        super().__init__(eng, dec)
        self.frame = Frame(None, {}, None, ()); self.seq = 0; self.born = {}; self.cellno = {}; self.cellname = {}
        self.lits = {}; self.sites = []

    # ---------------- bookkeeping
    def fresh(self, base, sort):
        c = super().fresh(base, sort); self.seq += 1; self.born[c.decl().name()] = self.seq; return c

    def invariant_term(self, t, seq0):
        st = [t]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if self.born.get(x.decl().name(), 0) > seq0: return False
            if isnum(x) and x.as_long() > 0: pass
            st.extend(x.children())
        return True

    def hget(self, name, ref, sort):
        t = super().hget(name, ref, sort)
        r = self.lits.get(t.get_id())
        return r[1] if r is not None else t

    def set_lit(self, term, val):
        self.assume(term == val); self.lits[term.get_id()] = (term, I(val))

    def cell(self, name, v, ty):
        self.cells += 1; c = '%s#%d' % (name, self.cells); self.cellno[c] = self.cells; self.cellname[c] = name
        lv = LVar(c, ty)
        if v is not None: self.env[c] = v
        return lv

    # ---------------- conversions
    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, LVS) and not isinstance(v, LObj): v = self.load(v)
        return v

    def val(self, v):
        if isinstance(v, LVS) and not isinstance(v, LObj): v = self.load(v)
        return v

    def conv(self, v, src, dst):
        ks, kd = kind(src), kind(dst)
        if kd == 'bool':
            if isinstance(v, BV): return v
            if isinstance(v, FV): return BV(v.t != 0)
            if isinstance(v, IV): return BV(self.norm(v, src).t != 0)
            return BV(self.ptr_term(v) != 0)
        if kd in ('int', 'enum'):
            if isinstance(v, FV): return self.f2i(v, dst)
            return self.icast(v, src, dst)
        if kd == 'float':
            if isinstance(v, FV): return self.fcast(v, src, dst)
            return self.i2f(v, src if ks != 'bool' else dst, dst) if not isinstance(v, BV) else FV(z3.If(v.t, z3.RealVal(1), z3.RealVal(0)))
        return v

    # ---------------- expressions
    def ev(self, e):
        f = getattr(self, 'e_' + e['k'], None)
        if f is None: raise Unsupported('expression ' + e['k'] + ' ' + e.get('w', ''))
        return f(e)

    def e_unsup(self, e): raise Unsupported('expression ' + e.get('w', '?'))

    def e_int(self, e):
        if kind(e['t']) == 'bool': return BV(e['v'] != '0')
        return IV(int(e['v']))

    def e_flt(self, e):
        q = Fraction(Decimal(e['v']))
        return FV(z3.RealVal(q))

    def e_str(self, e): return LTmp(SV(self.strlit(e['v'])))

    def strlit(self, s):
        c = z3.Const('str:' + s, L.Str); self.eng.strs[c.decl().name()] = s
        return c

    def e_null(self, e): return OP(0, None)

    def e_this(self, e):
        th = self.frame.this
        if th is None: raise Unsupported('this')
        return OP(th[0], th[1]) if isinstance(th, tuple) else LP(th)

    def e_zero(self, e): return self.zero(e['t'])

    def zero(self, t):
        k = kind(t)
        if k in ('int', 'enum'): return IV(0)
        if k == 'bool': return BV(False)
        if k == 'float': return FV(z3.RealVal(0))
        if k in ('optr', 'sptr'): return OP(0, None)
        if k in ('dptr', 'dsptr'): return DP(I(0), I(0), None)
        if k == 'vec': return self.empty_vec(t)
        raise Unsupported('zero initialisation of ' + t.s)

    def empty_vec(self, t):
        e = elem_ty(t)
        if isinstance(e, str): return VV(0, z3.K(L.Int, I(0)), e)
        k = kind(e)
        if k == 'str': return VV(0, z3.K(L.Int, self.strlit('')), e)
        if k == 'float': return VV(0, z3.K(L.Int, z3.RealVal(0)), e)
        if k == 'bool': return VV(0, z3.K(L.Int, z3.BoolVal(False)), e)
        return VV(0, z3.K(L.Int, I(0)), e)

    def e_fref(self, e): return FnV(e['fn'])

    def e_ref(self, e):
        lv = self.frame.vars.get(e['d'])
        if lv is None: raise Unsupported('variable %s not in scope' % e['n'])
        if isinstance(lv, LVar) and isinstance(self.env.get(lv.c), LObj): return self.env[lv.c]
        return lv

    def e_gref(self, e):
        tu, i = e['d']; g = self.prog.tus[tu].globals.get(str(i))
        if g is None: raise Unsupported('global ' + e['n'])
        if 'v' in g and g['v'] is not None: return LTmp(self.tab(g['v'], g['t']))
        return LGlob(g['n'], g['t'])

    def tab(self, v, ty):
        if 'i' in v: return BV(v['i'] != '0') if kind(ty) == 'bool' else IV(int(v['i']))
        if 'fn' in v: return FnV(v['fn'])
        if 'null' in v: return OP(0, None)
        return TabV(v, ty)

    def tab_index(self, tv, iv, ity):
        v = tv.v
        if 'st' in v and len(v['st']) == 1 and 'a' in v['st'][0]: v = v['st'][0]
        if 'a' not in v: raise Unsupported('constant data')
        arr = v['a']; n = len(arr)
        i = self.norm(iv, ity).t
        i = self.lits[i.get_id()][1] if i.get_id() in self.lits else i
        if not isnum(i):
            self.oblige('table index in range', z3.And(i >= 0, i < n))
            # constant integer tables become a case expression
            if all('i' in x for x in arr) and len({x['i'] for x in arr}) == 1: return IV(int(arr[0]['i']))
            feas = self.memo(lambda: [k for k in range(n) if L.feasible(self.pc, i == k)], ('tab', i, n))
            if not feas: raise PathEnd()
            k = feas[self.choose(len(feas))]
            self.set_lit(i, k)
        else:
            k = i.as_long()
            if not 0 <= k < n: self.oblige('table index in range', z3.BoolVal(False)); raise PathEnd()
        ety = tv.ty.e if tv.ty.c == 'array' else (tv.ty.ta[0] if tv.ty.ta else None)
        if 'x' in arr[k] or 'lv' in arr[k] or ('st' in arr[k]): return Opq('constant')
        return self.tab(arr[k], ety)

    def obj_ref(self, e, arrow):
        """ref term of the object a member access goes through"""
        if arrow:
            p = self.rv(e)
            if isinstance(p, LP):
                w = self.val(p.lv) if not isinstance(p.lv, LObj) else p.lv
                return w if isinstance(w, LObj) else p.lv
            if not isinstance(p, OP): raise Unsupported('member of ' + type(p).__name__)
            self.nonnull(p.ref)
            return LObj(p.ref, p.cls)
        v = self.ev(e)
        if isinstance(v, LTmp) and isinstance(v.v, LObj): v = v.v
        if isinstance(v, LVar) and isinstance(self.env.get(v.c), LObj): v = self.env[v.c]
        if isinstance(v, LEl):
            w = self.load(v)
            if isinstance(w, LObj): v = w
        if not isinstance(v, LVS): v = LTmp(v)
        return v

    def e_mem(self, e):
        o = self.obj_ref(e['b'], e.get('ar'))
        if isinstance(o, LObj): return LFld(e['fc'], e['f'], o.ref, self.field_ty(e['fc'], e['f'], e['t']))
        raise Unsupported('member %s of %s' % (e['f'], type(o).__name__))

    def field_ty(self, c, f, t):
        for x in self.prog.classes.get(c, {}).get('fields', ()):
            if x['n'] == f: return x['t']
        return t

    def e_mat(self, e):
        v = self.ev(e['e'])
        return v if isinstance(v, LVS) else LTmp(v)

    def e_cast(self, e):
        ck = e['ck']; sub = e['e']
        if ck == 'LValueToRValue': return self.rv(sub)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay'): return self.ev(sub)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'): return self.ev(sub)
        if ck in ('IntegralCast', 'IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'BooleanToSignedIntegral'):
            return self.conv(self.rv(sub), sub['t'], e['t'])
        if ck == 'NullToPointer': return self.zero(e['t']) if kind(e['t']) in ('dptr', 'optr', 'sptr', 'dsptr') else OP(0, None)
        if ck == 'ArrayToPointerDecay': return self.val(self.ev(sub))
        if ck == 'BitCast': return self.recast(self.rv(sub), e['t'])
        if ck == 'Dynamic': return self.dyncast(self.rv(sub), e['t'])
        if ck == 'ToVoid': self.ev(sub); return None
        raise Unsupported('cast ' + ck)

    def recast(self, p, t):
        if isinstance(p, OP):
            if isnum(p.ref) and p.ref.as_long() == 0: return self.zero(t)
            if kind(t) == 'optr': return OP(p.ref, strip(t.e).n)
            raise Unsupported('pointer cast to ' + t.s)
        if not isinstance(p, DP): raise Unsupported('pointer cast of ' + type(p).__name__)
        et = t.e
        if et.c == 'void' or p.ety is None: return DP(p.blob, p.off, p.ety if et.c == 'void' else et)
        so = self.esz(p.ety); sn = self.esz(et)
        off = simp(p.off)
        if so == sn or (isnum(off) and off.as_long() == 0): return DP(p.blob, off, et)
        b = simp(off * so)
        if sn == 1: return DP(p.blob, b, et)
        if isnum(b) and b.as_long() % sn == 0: return DP(p.blob, I(b.as_long() // sn), et)
        q = self.fresh('el', L.Int)
        self.oblige('reinterpreted pointer is aligned', b % sn == 0)
        self.assume(b == q * sn)
        return DP(p.blob, q, et)

    def esz(self, t):
        if t.c == 'bool': return 1
        if t.c not in ('int', 'float', 'enum') or not t.bits: raise Unsupported('element size of ' + t.s)
        return t.bits // 8

    def classes_of(self, cls):
        """concrete classes an object of static class cls may have"""
        out = []
        for c in self.prog.subclasses(cls):
            if not self.abstract(c): out.append(c)
        return out

    def vtable(self, c):
        t = {}
        for b in self.prog.classes.get(c, {}).get('bases', ()): t.update(self.vtable(b.n))
        t.update(self.prog.classes.get(c, {}).get('virt', {}))
        return t

    def abstract(self, c): return any(v is None for v in self.vtable(c).values())

    def cid(self, c): return self.eng.cid(c)

    def dynset(self, ref, cls):
        if isnum(ref) and ref.as_long() in self.dyn: return [self.dyn[ref.as_long()]]
        return self.classes_of(cls)

    def pick_class(self, ref, cands, cls):
        """splits over the dynamic class of ref"""
        if len(cands) == 1: return cands[0]
        t = self.hget('dyn', ref, L.Int)
        if not isnum(t):
            self.assume(z3.Or([t == self.cid(c) for c in cands]))
            feas = self.memo(lambda: [c for c in cands if L.feasible(self.pc, t == self.cid(c))], ('dyn', t))
            if not feas: raise PathEnd()
            c = feas[self.choose(len(feas))]; self.set_lit(t, self.cid(c)); return c
        for c in cands:
            if self.cid(c) == t.as_long(): return c
        raise PathEnd()

    def dyncast(self, p, t):
        if not isinstance(p, OP): raise Unsupported('dynamic_cast')
        if isnum(p.ref) and p.ref.as_long() == 0: return OP(0, None)
        want = strip(t.e).n
        cands = self.dynset(p.ref, p.cls)
        yes = [c for c in cands if self.prog.is_sub(c, want)]
        if len(yes) == len(cands): return OP(p.ref, want)
        if not yes: return OP(0, None)
        d = self.hget('dyn', p.ref, L.Int)
        self.assume(z3.Implies(p.ref != 0, z3.Or([d == self.cid(c) for c in cands])))
        if not self.branch(p.ref != 0): return OP(0, None)
        if self.branch(z3.Or([d == self.cid(c) for c in yes])): return OP(p.ref, want)
        return OP(0, None)

    def e_un(self, e):
        op = e['op']; s = e['e']
        if op == '&':
            lv = self.ev(s)
            if isinstance(lv, LObj): return OP(lv.ref, lv.cls)
            if isinstance(lv, LMem): return lv.p
            if isinstance(lv, FnV): return lv
            return LP(lv)
        if op == '*':
            p = self.rv(s)
            return self.deref(p)
        if op in ('++', '--', 'p++', 'p--'):
            lv = self.ev(s); v = self.load(lv); d = 1 if '+' in op else -1
            if isinstance(v, DP): nv = DP(v.blob, simp(v.off + d), v.ety)
            elif isinstance(v, ItV): nv = ItV(v.lv, simp(v.pos + d))
            elif isinstance(v, FV): nv = self.farith('+', v, FV(z3.RealVal(d)), s['t'])
            else: nv = self.arith('+', v, IV(d), s['t'])
            self.store(lv, nv)
            return v if op[0] == 'p' else lv
        v = self.rv(s)
        if op == '!': return BV(z3.Not(v.t)) if isinstance(v, BV) else BV(self.ptr_term(v) == 0)
        if op == '-':
            if isinstance(v, FV): return FV(-v.t) if self.math or z3.is_rational_value(v.t) else FV(fneg(e['t'].bits, v.t))
            return self.arith('-', IV(0), v, e['t'])
        if op == '+': return v
        if op == '~':
            if isnum(v.t): return self.norm(IV(~v.t.as_long()), e['t'])
        raise Unsupported('unary ' + op)

    def deref(self, p):
        if isinstance(p, OP):
            self.nonnull(p.ref); return LObj(p.ref, p.cls)
        if isinstance(p, DP):
            if p.ety is None: self.nonnull(p.blob, 'data pointer'); raise Unsupported('dereference of an untyped pointer')
            return LMem(p)
        if isinstance(p, LP): return p.lv
        if isinstance(p, ItV): return self.at(p.lv, IV(p.pos))
        if isinstance(p, FnV): return p
        raise Unsupported('dereference of ' + type(p).__name__)

    def e_bin(self, e):
        op = e['op']
        if op == '=':
            # C++17: right operand first
            v = self.rv(e['b']); lv = self.ev(e['a']); self.store(lv, v); return lv
        if op == ',': self.ev(e['a']); return self.ev(e['b'])
        if op in ('&&', '||'):
            a = self.rv(e['a']); t = simp(a.t)
            if op == '&&':
                if z3.is_false(t): return BV(False)
                if z3.is_true(t): return self.rv(e['b'])
                if self.pure(e['b']): return BV(z3.And(t, self.rv(e['b']).t))
                return self.rv(e['b']) if self.branch(t) else BV(False)
            if z3.is_true(t): return BV(True)
            if z3.is_false(t): return self.rv(e['b'])
            if self.pure(e['b']): return BV(z3.Or(t, self.rv(e['b']).t))
            return BV(True) if self.branch(t) else self.rv(e['b'])
        a = self.rv(e['a']); b = self.rv(e['b']); ta = e['a']['t']; tb = e['b']['t']
        if op in ('==', '!=', '<', '>', '<=', '>='): return self.compare(op, a, b, ta)
        if isinstance(a, DP) or isinstance(b, DP): return self.ptr_arith(op, a, b, ta, tb)
        if isinstance(a, ItV):
            if isinstance(b, ItV): return IV(simp(a.pos - b.pos))
            return ItV(a.lv, simp(a.pos + b.t if op == '+' else a.pos - b.t))
        return self.arith(op, a, b, e['t'])

    def pure(self, e):
        """operands whose evaluation neither branches, nor writes, nor can be undefined"""
        k = e['k']
        if k in ('int', 'flt', 'ref', 'null'): return True
        if k == 'cast': return e['ck'] in ('LValueToRValue', 'NoOp', 'IntegralCast', 'IntegralToBoolean', 'IntegralToFloating') and self.pure(e['e'])
        if k == 'bin': return e['op'] in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '&&', '||') and self.pure(e['a']) and self.pure(e['b'])
        if k == 'un': return e['op'] in ('!', '-') and self.pure(e['e'])
        return False

    def ptr_arith(self, op, a, b, ta, tb):
        if isinstance(a, DP) and isinstance(b, DP):
            if op == '-': return IV(simp(a.off - b.off))
            raise Unsupported('pointer arithmetic')
        if isinstance(b, DP): a, b, ta, tb = b, a, tb, ta
        # the index is a 64-bit quantity; an unsigned one is taken modulo 2^64 like the machine does
        t = b.t if isinstance(b, IV) else self.norm(b, tb).t
        return DP(a.blob, simp(a.off + t if op == '+' else a.off - t), a.ety)

    def e_casg(self, e):
        op = e['op'][:-1]; v = self.rv(e['b']); lv = self.ev(e['a']); cur = self.load(lv); ta = strip(e['a']['t'])
        if isinstance(cur, DP): nv = self.ptr_arith(op, cur, v, ta, e['b']['t'])
        elif isinstance(cur, ItV): nv = ItV(cur.lv, simp(cur.pos + v.t if op == '+' else cur.pos - v.t))
        else:
            c = self.conv(cur, ta, e['ct'])
            r = self.arith(op, c, v, e['ct'])
            nv = self.conv(r, e['ct'], ta)
        self.store(lv, nv); return lv

    def e_cond(self, e):
        c = self.rv(e['c'])
        t = simp(c.t)
        if z3.is_true(t): return self.ev(e['a'])
        if z3.is_false(t): return self.ev(e['b'])
        if not e.get('lv') and kind(e['t']) in ('int', 'enum', 'float', 'bool') and self.pure(e['a']) and self.pure(e['b']):
            a, b = self.rv(e['a']), self.rv(e['b'])
            if isinstance(a, IV) and isinstance(b, IV):
                lo = min(a.lo, b.lo) if a.lo is not None and b.lo is not None else None
                hi = max(a.hi, b.hi) if a.hi is not None and b.hi is not None else None
                return IV(z3.If(t, a.t, b.t), lo, hi)
            return type(a)(z3.If(t, a.t, b.t))
        return self.ev(e['a']) if self.branch(t) else self.ev(e['b'])

    def e_sub(self, e):
        a = self.rv(e['a']); i = self.rv(e['i'])
        if isinstance(a, TabV):
            r = self.tab_index(a, i, e['i']['t']); return LTmp(r)
        if isinstance(a, DP): return LMem(DP(a.blob, simp(a.off + i.t), a.ety))
        if isinstance(a, SV): raise Unsupported('character of a string literal')
        raise Unsupported('subscript of ' + type(a).__name__)

    def e_sil(self, e):
        es = e['e']['es'] if e['e']['k'] == 'ilist' else None
        if es is None: raise Unsupported('initializer list')
        ety = e['t'].ta[0]; k = kind(ety)
        vs = [self.rv(x) for x in es]
        terms = [self.term_of(v) if not isinstance(v, IV) else self.norm(v, ety).t for v in vs]
        base = self.empty_vec(e['t']); a = base.a
        for j, t in enumerate(terms): a = z3.Store(a, I(j), t)
        return VV(len(terms), a, ety)

    def e_ilist(self, e):
        t = e['t']
        if t.c == 'rec' and kind(t) == 'obj':
            r = self.alloc(t.n); self.init_dyn(r, t.n)
            fl = self.prog.classes.get(t.n, {}).get('fields', [])
            for f, x in zip(fl, e['es']): self.store(LFld(t.n, f['n'], r, f['t']), self.rv(x))
            return LObj(r, t.n)
        if len(e['es']) == 1: return self.ev(e['es'][0])
        if not e['es'] and t.c != 'array': return self.zero(t)
        raise Unsupported('initialiser list of ' + t.s)

    def e_lambda(self, e):
        caps = {}; this = None
        for c in e['caps']:
            if 'this' in c: this = self.frame.this; continue
            if 'd' not in c: raise Unsupported('capture')
            if c['ref']: caps[c['d']] = self.ev(c['init'])
            else:
                v = self.ev(c['init'])
                if isinstance(v, LVS) and not isinstance(v, LObj): v = self.load(v)
                caps[c['d']] = ('copy', c['n'], v, strip(c['t']))
        return CV(e['lam'], caps, this)

    def e_new(self, e):
        at = e['at']
        if 'n' in e and e['n'] is not None:
            n = self.rv(e['n']); sz = self.esz(at)
            n = self.norm(n, e['n']['t'])
            return self.new_blob(simp(n.t * sz), at)
        if kind(at) != 'obj': raise Unsupported('new ' + at.s)
        v = self.ev(e['init']) if e.get('init') else self.construct(at.n, None, [])
        return OP(v.ref, at.n)

    def new_blob(self, nbytes, ety):
        r = self.alloc('blob')
        # operator new[] throws for sizes no object can have, so a returned block is smaller than 2^63
        self.assume(z3.And(nbytes >= 0, nbytes < (1 << 63)))
        self.hset('blob.bytes', r, nbytes); self.hset('blob.tag', r, I(-2))
        for dt in DT.order: self.setmem(dt, r, self.fresh('uninit.' + dt, L.IA if dt[0] == 'i' else L.RA))
        return DP(r, I(0), ety)

    def e_del(self, e): self.rv(e['e']); return None

    def e_throw(self, e):
        t = e['e']['t']
        raise CppThrow(t.n)

    def e_inhctor(self, e): raise Unsupported('inherited constructor here')

    # ---------------- calls
    def bind(self, e, pt):
        """argument value/lvalue for a parameter type"""
        if pt.c == 'ref':
            v = self.ev(e)
            return v if isinstance(v, LVS) else LTmp(v)
        return self.rv(e)

    def e_call(self, e):
        d = self.prog.decls[e['fn']]; pts = d['pt']
        if d['n'] == 'operator<<' and self.is_stream(e): return LTmp(Opq('stream'))
        this = None
        if 'obj' in e:
            this = self.obj_ref(e['obj'], e.get('ar')) if not (d['n'] == 'operator=' ) else self.ev(e['obj'])
        args = [self.bind(x, pts[i]) if i < len(pts) else self.rv(x) for i, x in enumerate(e['args'])]
        key = e['fn']
        if e.get('virt') and 'vsig' in d and isinstance(this, LObj):
            key = self.resolve_virtual(this, d)
        if e.get('lv') != 1 and e['t'].c == 'rec' and False: pass
        return self.invoke(key, this, args, e)

    def is_stream(self, e):
        x = e['obj'] if 'obj' in e else e['args'][0]
        return kind(strip(x['t'])) == 'opaque'

    def resolve_virtual(self, this, d):
        cands = self.dynset(this.ref, this.cls or d['cls'])
        keys = {c: self.vtable(c).get(d['vsig']) for c in cands}
        if not keys: raise Unsupported('no concrete class for %s' % this.cls)
        ks = set(keys.values())
        if len(ks) == 1: return ks.pop()
        c = self.pick_class(this.ref, cands, this.cls)
        this.cls = c
        return keys[c]

    def e_icall(self, e):
        f = self.rv(e['f'])
        if isinstance(f, FnV):
            d = self.prog.decls[f.key]
            args = [self.bind(x, d['pt'][i]) for i, x in enumerate(e['args'])]
            return self.invoke(f.key, None, args, e)
        raise Unsupported('indirect call')

    def invoke(self, key, this, args, e=None):
        d = self.prog.decls[key]
        self.eng.callees.add(key)
        if isinstance(this, (CV, AbsOp)) or (isinstance(this, LTmp) and isinstance(this.v, (CV, AbsOp))) or (isinstance(this, LVar) and isinstance(self.env.get(this.c), (CV, AbsOp))):
            f = self.val(this)
            if isinstance(f, AbsOp): return f.f(self, args)
            if f.lam == d.get('lam') and key in self.prog.fns: return self.call_closure(f, key, args, e)
        c = self.eng.contract(key)
        if c is not None: return c.apply(self, key, this, args)
        if key in self.prog.fns and not self.opaque_fn(d): return self.inline(key, this, args, e)
        from . import builtins_ as B
        return B.builtin(self, key, d, this, args, e)

    def opaque_fn(self, d): return d['n'] == 'sformat' or d['q'] in ('INNC::SizeVec::to_string', 'INNC::SignedVec::to_string')

    def call_closure(self, f, key, args, e):
        fr = {}
        for d_, c in f.caps.items():
            if isinstance(c, tuple): fr[d_] = self.cell(c[1], c[2], c[3])
            else: fr[d_] = c
        return self.inline(key, None, args, e, extra=fr, cthis=f.this)

    def params(self, key, args, fr, e=None):
        rec = self.prog.fns[key]
        for i, p in enumerate(rec['params']):
            if i < len(args): a = args[i]
            elif 'def' in p: a = self.bind(p['def'], p['t'])
            else: raise Unsupported('missing argument')
            if p['t'].c == 'ref': fr[p['d']] = a if isinstance(a, LVS) else LTmp(a)
            else: fr[p['d']] = self.cell(p['n'], self.val(a), p['t'])

    def inline(self, key, this, args, e, extra=None, cthis=None):
        rec = self.prog.fns[key]; d = self.prog.decls[key]
        if self.depth > self.MAXDEPTH: raise Unsupported('recursion in ' + d['q'])
        if key in self.eng.norecurse and self.sites.count(key) >= 1: raise Unsupported('recursive call without a contract: ' + d['q'])
        self.eng.inlined.add(key)
        fr = dict(extra or {})
        self.params(key, args, fr, e)
        th = None
        if isinstance(this, LObj): th = (this.ref, this.cls or d.get('cls'))
        elif cthis is not None: th = cthis
        elif this is not None and d.get('cls') and not d.get('lam') and not d.get('static'):
            # member function of a value-like class (SizeVec::to_string and the like)
            th = this
        saved = self.frame
        self.frame = Frame(key, fr, th, saved.chain + ((id(e),) if e is not None else ())); self.depth += 1; self.sites.append(key)
        try:
            try: self.st(rec['body'])
            except Ret as r: return r.v
            return None
        finally:
            self.frame = saved; self.depth -= 1; self.sites.pop()

    def run_function(self, key, this, args):
        """entry point used by tasks: executes the body even when the function has a contract"""
        return self.inline(key, this, args, None)

    # ---------------- construction
    def init_dyn(self, r, cls):
        self.dyn[r.as_long()] = cls
        if cls != 'blob' and cls in self.prog.classes: self.hset('dyn', r, I(self.cid(cls)))

    def e_ctor(self, e):
        d = self.prog.decls[e['fn']]; t = e['t']; k = kind(t)
        pts = d['pt']
        if k == 'obj':
            if (d.get('copy') or d.get('move')) and d.get('defaulted') and len(e['args']) == 1 and e['fn'] not in self.prog.fns:
                src = self.obj_ref(e['args'][0], False)
                return self.copy_obj(src, t.n, move=bool(d.get('move')))
            args = [self.bind(x, pts[i]) for i, x in enumerate(e['args'])]
            return self.construct(t.n, e['fn'], args, e)
        args = [self.bind(x, pts[i]) if i < len(pts) else self.rv(x) for i, x in enumerate(e['args'])]
        if k == 'vec' and e['fn'] in self.prog.fns: return self.construct_vec(t, e['fn'], args, e)
        from . import builtins_ as B
        return B.construct(self, t, k, d, args, e)

    def construct_vec(self, t, key, args, e):
        rec = self.prog.fns[key]; fr = {}
        self.params(key, args, fr)
        saved = self.frame; self.frame = Frame(key, fr, None, saved.chain + (id(e),)); self.depth += 1
        try:
            v = None
            for i in rec.get('inits', []):
                if 'base' in i: v = self.rv(i['e'])
            if v is None: v = self.empty_vec(t)
            if rec['body'] and rec['body'].get('b'): raise Unsupported('constructor body of ' + t.n)
            return VV(v.n, v.a, elem_ty(t))
        finally: self.frame = saved; self.depth -= 1

    def all_fields(self, cls):
        out = []
        c = self.prog.classes.get(cls)
        if not c: return out
        for b in c['bases']: out += self.all_fields(b.n)
        return out + [(cls, f['n'], f['t']) for f in c['fields']]

    def copy_obj(self, src, cls, move=False, dst=None):
        r = dst if dst is not None else self.alloc(cls)
        if dst is None: self.init_dyn(r, cls)
        for c, f, t in self.all_fields(cls):
            v = self.load(LFld(c, f, src.ref, t))
            self.store(LFld(c, f, r, t), v)
            if move and kind(t) in ('sptr', 'dsptr'): self.store(LFld(c, f, src.ref, t), self.zero(t))
        return LObj(r, cls)

    def construct(self, cls, key, args, e=None, ref=None):
        """runs constructor `key` of class cls"""
        if self.abstract(cls) and ref is None: raise Unsupported('construction of abstract ' + cls)
        r = ref if ref is not None else self.alloc(cls)
        if ref is None: self.init_dyn(r, cls)
        this = LObj(r, cls)
        if key is None: return this
        c = self.eng.contract(key)
        if c is not None: c.apply(self, key, this, args); return this
        d = self.prog.decls[key]
        if 'inh' in d and key not in self.prog.fns:
            base = self.prog.decls[d['inh']]['cls']
            self.construct(base, d['inh'], args, e, ref=r); self.default_fields(cls, r, skip=None); return this
        rec = self.prog.fns.get(key)
        if rec is None:
            if d.get('dflt') and d.get('defaulted'): return this
            if d.get('copy') or d.get('move'): self.copy_obj(self.val(args[0]), cls, bool(d.get('move')), dst=r); return this
            raise Unsupported('constructor ' + d['q'])
        self.ctor_body(key, rec, this, args, e)
        return this

    def default_fields(self, cls, r, skip): pass

    def ctor_body(self, key, rec, this, args, e):
        fr = {}
        self.params(key, args, fr, e)
        saved = self.frame; self.frame = Frame(key, fr, (this.ref, this.cls), saved.chain + ((id(e),) if e is not None else ())); self.depth += 1
        self.eng.inlined.add(key)
        if self.depth > self.MAXDEPTH: raise Unsupported('recursion')
        try:
            for i in rec.get('inits', []):
                if 'x' in i: raise Unsupported('constructor initialiser')
                if 'deleg' in i or 'base' in i:
                    x = i['e']
                    if x['k'] == 'ctor':
                        dd = self.prog.decls[x['fn']]; cn = i['base'].n if 'base' in i else this.cls
                        if cn not in self.prog.classes: continue
                        aa = [self.bind(y, dd['pt'][j]) for j, y in enumerate(x['args'])]
                        if (dd.get('copy') or dd.get('move')) and x['fn'] not in self.prog.fns: self.copy_obj(self.val(aa[0]), cn, bool(dd.get('move')), dst=this.ref)
                        else: self.construct(cn, x['fn'], aa, x, ref=this.ref)
                    elif x['k'] == 'inhctor': self.construct(i['base'].n, x['fn'], args, x, ref=this.ref)
                    else: raise Unsupported('base initialiser ' + x['k'])
                else:
                    ft = i['ft']
                    if ft.c == 'ref': raise Unsupported('reference member')
                    v = self.rv(i['e'])
                    if kind(ft) in ('opaque',): continue
                    self.store(LFld(i['fc'], i['f'], this.ref, ft), v)
            try: self.st(rec['body'])
            except Ret: pass
        finally: self.frame = saved; self.depth -= 1

    def resolve_ctor(self, cls, args, atys):
        """constructor chosen by make_shared/make_unique for these argument types"""
        best = None
        for k, d in self.prog.decls.items():
            if not d.get('ctor') or d.get('cls') != cls: continue
            if k not in self.prog.fns and not d.get('defaulted'): continue
            rec = self.prog.fns.get(k); n = len(d['pt'])
            if n < len(args): continue
            if n > len(args) and not (rec and all('def' in p for p in rec['params'][len(args):])): continue
            sc = 0; ok = True
            for p, a in zip(d['pt'], atys):
                ps, as_ = strip(p), strip(a)
                if ps.c == 'rec' and as_.c == 'rec':
                    if ps.n == as_.n: sc += 4
                    elif self.prog.is_sub(as_.n, ps.n): sc += 2
                    elif kind(ps) == 'sptr' and kind(as_) == 'sptr': sc += 1
                    else: ok = False; break
                    if p.c == 'ref' and p.rv: sc += 1 if not (a.c == 'ref' and not a.rv) else -100
                elif ps.c == 'rec' or as_.c == 'rec': ok = False; break
                else: sc += 2 if ps.s.replace('const ', '') == as_.s.replace('const ', '') else 1
            if ok and (best is None or sc > best[0]): best = (sc, k)
        if best is None or best[0] < -50: raise Unsupported('no constructor of %s' % cls)
        return best[1]

    # ---------------- statements
    def st(self, s):
        if s is None: return
        getattr(self, 's_' + s['k'])(s)

    def s_unsup(self, s): raise Unsupported('statement ' + s.get('w', '?'))

    def s_expr(self, s): self.ev(s['e'])

    def s_block(self, s):
        for x in s['b']: self.st(x)

    def s_decl(self, s):
        for v in s['v']: self.declare(v)

    def declare(self, v):
        t = v['t']
        if v.get('stat'): raise Unsupported('static local')
        if t.c == 'ref':
            lv = self.ev(v['i']); self.frame.vars[v['d']] = lv if isinstance(lv, LVS) else LTmp(lv); return
        if 'i' in v:
            x = self.rv(v['i'])
            self.frame.vars[v['d']] = self.cell(v['n'], x, t)
        else:
            self.frame.vars[v['d']] = self.cell(v['n'], None, t)

    def cond_of(self, s):
        if 'cv' in s:
            self.declare(s['cv'])
        c = self.rv(s['c'])
        if not isinstance(c, BV): c = BV(self.ptr_term(c) != 0)
        return c.t

    def s_if(self, s):
        if 'init' in s: self.st(s['init'])
        if self.branch(self.cond_of(s)): self.st(s['a'])
        elif s['b']: self.st(s['b'])

    def s_ret(self, s):
        if s['e'] is None: raise Ret(None)
        rt = self.prog.decls[self.frame.key]['ret'] if self.frame.key else None
        if rt is not None and rt.c == 'ref': raise Ret(self.ev(s['e']))
        raise Ret(self.rv(s['e']))

    def s_break(self, s): raise Brk()

    def s_cont(self, s): raise Cont()

    def s_switch(self, s):
        if s.get('init'): self.st(s['init'])
        c = self.rv(s['c']); items = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        t = self.norm(c, s['c']['t']).t
        start = None; dflt = None
        flat = []
        for x in items:
            labels = []
            while x['k'] in ('case', 'default'):
                if x.get('range'): raise Unsupported('case range')
                labels.append(None if x['k'] == 'default' else int(x['v'])); x = x['b']
            flat.append((labels, x))
        for i, (ls, x) in enumerate(flat):
            if None in ls: dflt = i
        for i, (ls, x) in enumerate(flat):
            vs = [v for v in ls if v is not None]
            if vs and self.branch(z3.Or([t == v for v in vs])): start = i; break
        if start is None: start = dflt
        if start is None: return
        try:
            for ls, x in flat[start:]: self.st(x)
        except Brk: pass

    def s_try(self, s):
        try: self.st(s['b'])
        except CppThrow: raise Unsupported('try block')

    # ---------------- loops
    def s_while(self, s):
        self.loop(s, lambda: self.cond_of(s), lambda: self.st(s['b']), None)

    def s_do(self, s):
        self.loop(s, lambda: self.cond_of(s), lambda: self.st(s['b']), None, post=True)

    def s_for(self, s):
        if s.get('init'): self.st(s['init'])
        c = (lambda: self.cond_of(s)) if s.get('c') else (lambda: z3.BoolVal(True))
        self.loop(s, c, lambda: self.st(s['b']), (lambda: self.ev(s['inc'])) if s.get('inc') else None)

    def s_rfor(self, s):
        if s.get('init'): self.st(s['init'])
        r = self.ev(s['r'])
        rl = r if isinstance(r, LVS) else LTmp(r)
        if isinstance(self.val(rl), Opq): raise Unsupported('range for over a library object')
        ity = self.eng.size_t
        ix = self.cell('__i', IV(0), ity)
        n = self.val(rl).n
        def body():
            v = s['v']; i = self.load(ix)
            el = self.elem_lv(rl, i)
            if v['t'].c == 'ref': self.frame.vars[v['d']] = el
            else: self.frame.vars[v['d']] = self.cell(v['n'], self.val(el), v['t'])
            self.st(s['b'])
        self.loop(s, lambda: self.load(ix).t < self.val(rl).n, body, lambda: self.store(ix, IV(simp(self.load(ix).t + 1), 0, 1 << 62)), bound=(ix, n), hints={'ctr': ix, 'range': rl})

    def elem_lv(self, lv, i):
        v = self.val(lv)
        if kind(v.ety) == 'obj' if not isinstance(v.ety, str) else False: return LObj(sel(v.a, i.t), v.ety.n)
        return LEl(lv, i.t, v.ety)

    def at(self, lv, iv, ity=None):
        v = self.val(lv)
        i = self.norm(iv, ity or self.eng.size_t)
        self.oblige('vector index in range', z3.And(i.t >= 0, i.t < v.n))
        return self.elem_lv(lv if isinstance(lv, LVS) else LTmp(lv), i)

    def impure(self, x):
        if isinstance(x, dict):
            if x.get('k') in ('casg', 'lambda', 'new', 'throw'): return True
            if x.get('k') == 'un' and ('++' in x['op'] or '--' in x['op']): return True
            if x.get('k') == 'bin' and x['op'] == '=': return True
            return any(self.impure(v) for v in x.values() if isinstance(v, (dict, list)))
        if isinstance(x, list): return any(self.impure(v) for v in x)
        return False

    def loop(self, node, cond, body, inc, post=False, bound=None, hints=None):
        lid = self.frame.chain + (self.frame.key, id(node), self.cells, self.refs)
        n = 0
        c_ast = node.get('c')
        forever = isinstance(c_ast, dict) and c_ast.get('k') == 'int'
        if not post and not forever and not (c_ast is not None and self.impure(c_ast)):
            while n < 12:
                c = simp(cond())
                if z3.is_false(c): return
                if not z3.is_true(c): break
                n += 1
                try: body()
                except Cont: pass
                except Brk: return
                if inc: inc()
        lp = Loop(lid, node, self); lp.bound = bound
        if hints: lp.hints.update(hints)
        self.cut(lp, cond, body, inc, post, forever)

    def havoc_val(self, name, v):
        if isinstance(v, IV): return IV(self.fresh(name, L.Int))
        if isinstance(v, BV): return BV(self.fresh(name, L.Bool))
        if isinstance(v, FV): return FV(self.fresh(name, L.Real))
        if isinstance(v, OP): return OP(self.fresh(name, L.Int), v.cls)
        if isinstance(v, VV): return VV(self.fresh(name + '.n', L.Int), self.fresh(name + '.a', v.a.sort()), v.ety)
        if isinstance(v, SV): return SV(self.fresh(name, L.Str))
        if isinstance(v, DP): return DP(v.blob, self.fresh(name + '.off', L.Int), v.ety)
        if isinstance(v, QV): return QV(self.fresh(name + '.h', L.Int), self.fresh(name + '.t', L.Int), self.fresh(name + '.a', v.a.sort()), v.ety)
        if isinstance(v, ItV): return ItV(v.lv, self.fresh(name + '.pos', L.Int))
        if isinstance(v, Opq): return v
        raise Unsupported('loop changes a %s' % type(v).__name__)

    def cut(self, lp, cond, body, inc, post=False, forever=False):
        eng = self.eng; lid = lp.lid
        self.loopstack_entry = lp
        # entry values
        for it in lp.mod:
            if it[0] == 'v': lp.old[it] = self.env.get(it[1])
            elif it[0] == 'g': lp.old[it] = self.gload(LGlob(it[1], lp.mod[it]))
            else: lp.old[it] = self.heap.get(it[1]) if it[2] is None else (self.hsel(self.heap[it[1]], lp.mod[it]) if it[1] in self.heap else None)
        cands = []
        dropped = eng.dropped.setdefault(lid, set()); seen = set()
        for g in eng.cands:
            for key, fn in g(self, lp):
                if key not in dropped and key not in seen: seen.add(key); cands.append((key, fn))
        bad = False
        keep = []
        for key, fn in cands:
            f = fn()
            if f is None: continue
            if self.quick(f): keep.append((key, fn))
            else:
                dropped.add(key); bad = True
                if eng.trace and str(key[0]) in eng.trace: print('DROP', key, 'entry', f)
        if bad and lid in eng.arrived: raise Restart()
        eng.arrived.add(lid)
        cands = keep
        # an arbitrary iteration
        for it, ref in list(lp.mod.items()):
            if it[0] == 'v':
                if lp.old[it] is None: self.env.pop(it[1], None)
                else: self.env[it[1]] = self.havoc_val(self.cellname[it[1]], lp.old[it])
            elif it[0] == 'g': self.globals[it[1]] = self.havoc_val(it[1], lp.old[it])
            else:
                h = self.heap.get(it[1])
                if h is None: continue
                if it[2] is None: self.heap[it[1]] = self.fresh('hv.' + it[1], h.sort())
                else: self.heap[it[1]] = z3.Store(h, ref, self.fresh('hv.' + it[1], h.sort().range()))
        lp.seq1 = self.seq
        for outer in self.loopstack:
            for it, ref in lp.mod.items():
                if it[0] == 'h': outer.note(self, ('h', it[1]), ref)
                else: outer.note(self, it, None)
        for key, fn in cands: self.assume(fn())
        eng.loops[lid] = [k for k, _ in cands]
        self.loopstack.append(lp)
        try:
            if post:
                self.one(lp, body)
                go = self.branch(cond())
                if not go: return
            else:
                if not self.branch(cond()): return
                self.one(lp, body)
            if inc: inc()
            if lp.dirty: raise Restart()
            bad = False
            for key, fn in cands:
                if not self.quick(fn(), inv=True):
                    dropped.add(key); bad = True
                    if eng.trace and str(key[0]) in eng.trace: print('DROP', key, 'inductive', fn())
            if bad: raise Restart()
            raise PathEnd()
        except Brk:
            return
        finally:
            self.loopstack.pop()
            if lp.dirty: raise Restart()

    def one(self, lp, body):
        try: body()
        except Cont: pass

    def quick(self, f, inv=False):
        if z3.is_true(f): return True
        return self.memo(lambda: self.prove_(f, rl=L.RL // 2), ('p', f))

    def prove_(self, f, rl):
        ok, why = L.prove(self.pc, f, rl=rl, nl=False)
        return ok


class Engine(BaseEngine):
    def __init__(self, prog, contracts=(), math=False, maxpaths=4000, cands=()):
        super().__init__(prog, contracts, math, maxpaths)
        self.cands = list(cands); self.arrived = set(); self.loops = {}; self.inlined = set(); self.strs = {}; self._c = {}; self.norecurse = set(); self.bykey = {}
        self.classids = {c: i + 1 for i, c in enumerate(sorted(prog.classes))}
        self.size_t = prog.size_t
        self.skip = None; self.used = set(); self.trace = os.environ.get('VCTRACE', '').split(',') if os.environ.get('VCTRACE') else None

    def cid(self, c): return self.classids[c]

    def contract(self, key):
        if key == self.skip: return None
        if key not in self._c:
            self._c[key] = None
            d = self.prog.decls[key]
            for c in self.contracts:
                if c.matches(self.prog, key, d): self._c[key] = c; break
        return self._c[key]

    def new_run(self, dec): return Run(self, dec)
