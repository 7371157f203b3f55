// Independent executable semantics of the INNC public API, used to find a concrete failing input on
// the real code after a proof obligation failed, and as the *bounded* stand-in for code the verifier
// cannot read.  Built against /repo's sources with ASan+UBSan and -fno-access-control.
//   oracle <property> <seed> <first-case> <n-cases>
// Cases run in forked children; the text of the running case lives in shared memory, so that a crash
// is attributed to its case.  Exit 0: no disagreement; 1: prints "FAIL case=<i> ..." ; 2: internal error.
#include "INNC/INNC.hpp"
#include "INNC/function.hpp"
#include "INNC/tensorImpl.hpp"
#include "INNC/utils/utils.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <random>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace INNC;
typedef long double LD;
typedef std::vector<size_t> Shape;

static char *shm;             // case text
static const size_t SHM = 1 << 16;
static std::string trace;
static void say(const std::string &s) {
  trace += s + "; ";
  size_t n = std::min(trace.size(), SHM - 8);
  memcpy(shm, trace.data(), n);
  shm[n] = 0;
}
struct Mismatch { std::string what; };
[[noreturn]] static void bad(const std::string &w) { throw Mismatch{w}; }
static std::mt19937_64 rg;
static long rnd(long lo, long hi) { return lo + (long)(rg() % (unsigned long)(hi - lo + 1)); }
static bool coin(int pct) { return rnd(0, 99) < pct; }

// ---------------------------------------------------------------- reference semantics
struct Sc { LD v; std::vector<std::pair<int, LD>> par; };
static std::vector<Sc> cells;
static int mk(LD v, std::vector<std::pair<int, LD>> par = {}) { cells.push_back({v, std::move(par)}); return cells.size() - 1; }
struct RT {
  types dt; Shape shape; std::vector<int> c; bool rg = false; bool leaf = true; int store = -1; bool view = false;
  size_t numel() const { return c.size(); }
};
static int n_store = 0;
static size_t nel(const Shape &s) { size_t n = 1; for (auto x : s) n *= x; return n; }
static std::string str(const Shape &s) { std::string r = "{"; for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string(s[i]); return r + "}"; }
static const char *tn(types t) { static const char *n[] = {"i8", "i16", "i32", "i64", "f32", "f64"}; return n[t]; }
static LD conv(LD v, types t) {
  switch (t) {
  case i8: return (std::int8_t)(long long)v;
  case i16: return (std::int16_t)(long long)v;
  case i32: return (std::int32_t)(long long)v;
  case i64: return (std::int64_t)(long long)v;
  case f32: return (float)v;
  case f64: return (double)v;
  default: abort();
  }
}
static bool isint(types t) { return t <= i64; }
static types larger(types a, types b) { return a >= b ? a : b; }
static LD bin(char op, types l, LD a, types r, LD b) {
  types t = larger(l, r);
  if (isint(t)) {
    unsigned long long x = (long long)a, y = (long long)b;
    switch (op) {
    case '+': return conv((LD)(long long)(x + y), t);
    case '-': return conv((LD)(long long)(x - y), t);
    case '*': return conv((LD)(long long)(x * y), t);
    default: return conv((LD)((long long)a / (long long)b), t);
    }
  }
  if (t == f32) {
    float x = (float)a, y = (float)b;
    switch (op) { case '+': return x + y; case '-': return x - y; case '*': return x * y; default: return x / y; }
  }
  double x = (double)a, y = (double)b;
  switch (op) { case '+': return x + y; case '-': return x - y; case '*': return x * y; default: return x / y; }
}
static bool cmpop(const std::string &op, types l, LD a, types r, LD b) {
  if (larger(l, r) == f32) { a = (float)a; b = (float)b; }
  if (larger(l, r) == f64) { a = (double)a; b = (double)b; }
  if (op == "<") return a < b; if (op == ">") return a > b; if (op == "<=") return a <= b;
  if (op == ">=") return a >= b; if (op == "==") return a == b; return a != b;
}
static std::optional<Shape> bshape(const Shape &a, const Shape &b) {
  size_t n = std::max(a.size(), b.size());
  Shape r(n);
  for (size_t i = 1; i <= n; i++) {
    size_t x = i <= a.size() ? a[a.size() - i] : (size_t)-1, y = i <= b.size() ? b[b.size() - i] : (size_t)-1;
    if (x == (size_t)-1) r[n - i] = y;
    else if (y == (size_t)-1) r[n - i] = x;
    else if (x == y) r[n - i] = x;
    else if (std::min(x, y) == 1) r[n - i] = std::max(x, y);
    else return std::nullopt;
  }
  return r;
}
static std::vector<size_t> unrank(const Shape &s, size_t k) {
  std::vector<size_t> ix(s.size());
  for (size_t i = s.size(); i-- > 0;) { ix[i] = k % s[i]; k /= s[i]; }
  return ix;
}
static size_t rankof(const Shape &s, const std::vector<size_t> &ix) { size_t k = 0; for (size_t i = 0; i < s.size(); i++) k = k * s[i] + ix[i]; return k; }
static size_t proj(const Shape &s, const std::vector<size_t> &ix) { // broadcast projection
  std::vector<size_t> p(s.size());
  for (size_t i = 0; i < s.size(); i++) p[i] = s[i] == 1 ? 0 : ix[ix.size() - s.size() + i];
  return rankof(s, p);
}

// ---------------------------------------------------------------- access to the real thing
static size_t esz(types t) { static size_t z[] = {1, 2, 4, 8, 4, 8}; return z[t]; }
static LD raw(const uint8_t *p, types t) {
  switch (t) {
  case i8: { std::int8_t x; memcpy(&x, p, 1); return x; }
  case i16: { std::int16_t x; memcpy(&x, p, 2); return x; }
  case i32: { std::int32_t x; memcpy(&x, p, 4); return x; }
  case i64: { std::int64_t x; memcpy(&x, p, 8); return x; }
  case f32: { float x; memcpy(&x, p, 4); return x; }
  case f64: { double x; memcpy(&x, p, 8); return x; }
  default: abort();
  }
}
static LD elem(const TensorImpl &t, const std::vector<size_t> &ix) {
  auto lay = dynamic_cast<StridedLayout *>(t.view.get());
  if (!lay) bad("layout is not strided");
  // address computed here, independently of the library
  __int128 a = (__int128)(long long)lay->offset;
  if (lay->strides.size() < ix.size()) bad("rank of strides smaller than rank");
  for (size_t i = 0; i < ix.size(); i++) a += (__int128)((std::vector<long long> &)lay->strides)[i] * ix[i];
  if (a < 0 || (size_t)(a + 1) * esz(t.dtype) > t.data_->get_size()) bad("element address outside storage");
  if (!t.data_->get_blob()) bad("storage not allocated");
  SizeVec sv; for (auto i : ix) sv.push_back(i);
  if (t.cnt_from_index(sv) != (size_t)a) bad("cnt_from_index disagrees with layout");
  return raw(t.data_->get_blob() + (size_t)a * esz(t.dtype), t.dtype);
}
static LD gslack; // rounding slack of gradients: every node may round in f32
static bool close(LD a, LD b, types t) {
  if (a == b) return true;
  LD e = t == f32 ? 2e-4L : 1e-9L;
  return std::fabs((double)(a - b)) <= e * (1 + std::fabs((double)a) + std::fabs((double)b)) + gslack;
}
static void check(const Tensor &T, const RT &R, const std::string &what, bool approx = false) {
  if (!T.fptr) bad(what + ": null tensor");
  if (T.type() != R.dt) bad(what + ": dtype " + tn(T.type()) + ", expected " + tn(R.dt));
  auto sz = T.size();
  if (!(Shape(sz.begin(), sz.end()) == R.shape)) bad(what + ": sizes " + sz.to_string() + ", expected " + str(R.shape));
  if (T.numel() != R.numel()) bad(what + ": numel");
  if (T.fptr->dim() != R.shape.size()) bad(what + ": dim");
  for (size_t k = 0; k < R.numel(); k++) {
    LD g = elem(*T.fptr, unrank(R.shape, k)), w = cells[R.c[k]].v;
    if (approx ? !close(g, w, R.dt) : g != w) bad(what + ": element " + str(unrank(R.shape, k)) + " is " + std::to_string((double)g) + ", expected " + std::to_string((double)w));
  }
}
struct TV { Tensor t; RT r; std::string n; TV() = default; TV(Tensor &&t, RT r, std::string n) : t(std::move(t)), r(std::move(r)), n(n) {} };
static std::vector<std::unique_ptr<TV>> pool;
static int tctr;
static TV &add(Tensor &&t, RT r) { pool.push_back(std::make_unique<TV>(std::move(t), std::move(r), "t" + std::to_string(tctr++))); return *pool.back(); }
static Tensor alias(const Tensor &t) { Tensor r; r = t; return r; }
static void check_all(const std::string &what, bool approx = false) { for (auto &p : pool) check(p->t, p->r, what + ": " + p->n, approx); }

static LD rndval(types t) {
  if (isint(t)) return coin(15) ? rnd(-100, 100) : rnd(-5, 6);
  return rnd(-20, 20) / 4.0L;
}
static LD rndnz(types t) { LD v; do v = rndval(t); while (v == 0); return v; }
static Shape rndshape(int maxrank = 4, bool zero = true) {
  Shape s(rnd(0, coin(20) ? maxrank + 1 : maxrank - 1));
  for (auto &x : s) x = coin(zero ? 5 : 0) ? 0 : coin(25) ? 1 : rnd(1, s.size() > 3 ? 2 : 4);
  return s;
}
static types rndtype() { return (types)rnd(0, 5); }
static Tensor blob(const Shape &s, types t, const std::vector<LD> &v) {
  std::vector<uint8_t> b(v.size() * esz(t) + 1);
  for (size_t i = 0; i < v.size(); i++) switch (t) {
    case i8: { std::int8_t x = (std::int8_t)v[i]; memcpy(&b[i], &x, 1); break; }
    case i16: { std::int16_t x = (std::int16_t)v[i]; memcpy(&b[i * 2], &x, 2); break; }
    case i32: { std::int32_t x = (std::int32_t)v[i]; memcpy(&b[i * 4], &x, 4); break; }
    case i64: { std::int64_t x = (std::int64_t)v[i]; memcpy(&b[i * 8], &x, 8); break; }
    case f32: { float x = (float)v[i]; memcpy(&b[i * 4], &x, 4); break; }
    case f64: { double x = (double)v[i]; memcpy(&b[i * 8], &x, 8); break; }
    default: abort();
    }
  SizeVec sv; for (auto x : s) sv.push_back(x);
  return Tensor::from_blob(b.data(), sv, t);
}
static RT fresh(const Shape &s, types t) { RT r; r.dt = t; r.shape = s; r.c.resize(nel(s)); r.store = n_store++; return r; }
static TV &newtensor(const Shape &s, types t, bool nz = false, bool distinct = false) {
  std::vector<LD> v(nel(s));
  for (auto &x : v) x = nz ? rndnz(t) : rndval(t);
  if (distinct) { for (size_t i = 0; i < v.size(); i++) v[i] = (LD)i + 1; std::shuffle(v.begin(), v.end(), rg); for (auto &x : v) x = conv(coin(50) ? x : x, t); }
  RT r = fresh(s, t);
  for (size_t i = 0; i < v.size(); i++) { v[i] = conv(v[i], t); r.c[i] = mk(v[i]); }
  std::string d; for (auto x : v) d += (d.size() ? "," : "") + std::to_string((double)x);
  auto &tv = add(blob(s, t, v), r);
  say(tv.n + " = from_blob([" + d + "], " + str(s) + ", " + tn(t) + ")");
  return tv;
}
// ---- slices
struct Dim { bool idx; long long i; std::optional<long long> b, e, s; std::string text; };
static std::string wsp() { return coin(15) ? std::string(rnd(1, 2), coin(50) ? ' ' : '\t') : ""; }
static Dim rnddim(size_t n) {
  Dim d; d.idx = false;
  auto lim = (long long)n + 2;
  auto num = [&]() -> long long { return coin(5) ? (coin(50) ? 99 : -99) : rnd(-lim - 1, lim + 1); };
  int k = rnd(0, 9);
  if (k < 3) { d.idx = true; d.i = coin(92) && n ? rnd(-(long)n, (long)n - 1) : num(); d.text = wsp() + std::to_string(d.i) + wsp(); return d; }
  if (k == 3) { d.text = coin(50) ? "" : ":"; if (d.text.empty()) {} return d; }
  if (coin(65)) d.b = num();
  if (coin(65)) d.e = num();
  if (coin(60)) { d.s = rnd(-3, 3); if (*d.s == 0 && coin(80)) d.s = coin(50) ? 1 : -1; }
  d.text = (d.b ? wsp() + std::to_string(*d.b) + wsp() : "") + ":" + (d.e ? wsp() + std::to_string(*d.e) + wsp() : "");
  if (d.s) d.text += ":" + wsp() + std::to_string(*d.s) + wsp(); else if (coin(30)) d.text += ":";
  return d;
}
static std::optional<RT> ref_slice(const RT &a, const std::vector<Dim> &ds) { // nullopt: must throw
  if (ds.size() > a.shape.size()) return std::nullopt;
  struct P { long long start, step; size_t cnt; bool keep; };
  std::vector<P> ps;
  for (size_t d = 0; d < a.shape.size(); d++) {
    long long n = a.shape[d];
    if (d >= ds.size()) { ps.push_back({0, 1, (size_t)n, true}); continue; }
    auto &D = ds[d];
    if (D.idx) { long long i = D.i; if (i < 0) i += n; if (i < 0 || i >= n) return std::nullopt; ps.push_back({i, 1, 1, false}); continue; }
    long long st = D.s.value_or(1);
    if (st == 0) return std::nullopt;
    long long b = D.b ? *D.b : (st < 0 ? LLONG_MAX : 0), e = D.e ? *D.e : (st < 0 ? LLONG_MIN : LLONG_MAX);
    // CPython's PySlice_AdjustIndices
    if (b < 0) { b = b < -n ? (st < 0 ? -1 : 0) : b + n; } else if (b >= n) b = st < 0 ? n - 1 : n;
    if (!D.e && st < 0) e = -1;
    else if (e < 0) { e = e < -n ? (st < 0 ? -1 : 0) : e + n; } else if (e >= n) e = st < 0 ? n - 1 : n;
    long long c = 0;
    if (st < 0) { if (e < b) c = (b - e - 1) / (-st) + 1; } else if (b < e) c = (e - b - 1) / st + 1;
    ps.push_back({b, st, (size_t)c, true});
  }
  RT r; r.dt = a.dt; r.store = a.store; r.rg = a.rg; r.leaf = false; r.view = true;
  for (auto &p : ps) if (p.keep) r.shape.push_back(p.cnt);
  r.c.resize(nel(r.shape));
  for (size_t k = 0; k < r.c.size(); k++) {
    auto ix = unrank(r.shape, k);
    std::vector<size_t> jx; size_t q = 0;
    for (auto &p : ps) jx.push_back(p.keep ? (size_t)(p.start + p.step * (long long)ix[q++]) : (size_t)p.start);
    r.c[k] = a.c[rankof(a.shape, jx)];
  }
  return r;
}
template <class F> static bool throws(F f, bool only_runtime = true) {
  try { f(); } catch (const std::runtime_error &) { return true; } catch (const Mismatch &) { throw; } catch (const std::exception &e) { if (only_runtime) bad(std::string("unexpected exception type: ") + e.what()); return true; }
  return false;
}
template <class F> static Tensor must(const std::string &what, F f) {
  try { return f(); } catch (const Mismatch &) { throw; } catch (const std::exception &e) { bad(what + " threw: " + e.what()); }
}
static std::string slicetext(const std::vector<Dim> &ds) { std::string s; for (size_t i = 0; i < ds.size(); i++) s += (i ? "," : "") + ds[i].text; return s; }
static TV *op_slice(TV &a, bool allowbad) {
  std::vector<Dim> ds(rnd(0, a.r.shape.size() + (allowbad && coin(10) ? 1 : 0)));
  for (size_t i = 0; i < ds.size(); i++) ds[i] = rnddim(i < a.r.shape.size() ? a.r.shape[i] : 2);
  std::string s = slicetext(ds);
  if (ds.size() == 1 && s.empty()) ds.clear(); // "" splits to no dimension at all
  auto R = ref_slice(a.r, ds);
  if (!R && !allowbad) return nullptr;
  say("t" + std::to_string(tctr) + " = " + a.n + "[\"" + s + "\"]" + (R ? "" : " (must throw)"));
  if (!R) { if (!throws([&] { Tensor x = a.t[s]; }, false)) bad("no exception"); return nullptr; }
  return &add(must("slice", [&] { return a.t[s]; }), *R);
}
static TV *op_transpose(TV &a, bool allowbad) {
  size_t n = a.r.shape.size();
  size_t i = rnd(0, n + (allowbad && coin(15))), j = rnd(0, n + (allowbad && coin(15)));
  bool ok = i < n && j < n && i != j;
  if (!ok && !allowbad) return nullptr;
  say("t" + std::to_string(tctr) + " = " + a.n + ".transpose(" + std::to_string(i) + "," + std::to_string(j) + ")" + (ok ? "" : " (must throw)"));
  if (!ok) { if (!throws([&] { Tensor x = a.t.transpose(i, j); })) bad("no exception"); return nullptr; }
  RT r; r.dt = a.r.dt; r.store = a.r.store; r.rg = a.r.rg; r.leaf = false; r.view = true; r.shape = a.r.shape; std::swap(r.shape[i], r.shape[j]);
  r.c.resize(a.r.numel());
  for (size_t k = 0; k < r.c.size(); k++) { auto ix = unrank(r.shape, k); std::swap(ix[i], ix[j]); r.c[k] = a.r.c[rankof(a.r.shape, ix)]; }
  bool st = coin(30);
  return &add(must("transpose", [&] { return st ? Tensor::transpose(a.t, i, j) : a.t.transpose(i, j); }), r);
}
static Shape factor(size_t n) {
  Shape s;
  if (n == 0) { s.resize(rnd(1, 3)); for (auto &x : s) x = rnd(0, 2); s[rnd(0, s.size() - 1)] = 0; return s; }
  while (n > 1) { std::vector<size_t> ds; for (size_t d = 2; d <= n; d++) if (n % d == 0) ds.push_back(d); size_t d = ds[rnd(0, ds.size() - 1)]; s.push_back(d); n /= d; }
  for (int i = rnd(0, 2); i > 0; i--) s.insert(s.begin() + rnd(0, s.size()), 1);
  return s;
}
static TV *op_reshape(TV &a, bool allowbad) {
  size_t n = a.r.numel();
  Shape s = factor(n);
  std::vector<long long> q(s.begin(), s.end());
  bool ok = true;
  std::string note;
  if (allowbad && coin(25)) {
    switch (rnd(0, 4)) {
    case 0: q.push_back(rnd(2, 3)); break;
    case 1: q.push_back(-1); q.push_back(-1); break;
    case 2: if (q.size()) q[rnd(0, q.size() - 1)] += 1; else q.push_back(2); break;
    case 3: q.push_back(-2); q.insert(q.begin(), -2); break;
    case 4: for (auto &x : q) if (x > 1 && coin(50)) x = -x; break;
    }
  }
  if (coin(35) && q.size()) q[rnd(0, q.size() - 1)] = -1;
  // oracle for validity
  int m1 = 0; size_t pr = 1; Shape out;
  for (auto x : q) { if (x == -1) m1++; else if (x < 0) ok = false; else pr *= x; }
  if (m1 > 1) ok = false;
  if (ok && m1 == 1) { if (pr == 0 || n % pr) ok = false; else { for (auto x : q) out.push_back(x == -1 ? n / pr : x); } }
  else if (ok) { if (pr != n) ok = false; for (auto x : q) out.push_back(x); }
  if (ok && q.empty() && n != 1) ok = false;
  if (!ok && !allowbad) return nullptr;
  SignedVec sv; std::string txt; for (auto x : q) { sv.push_back(x); txt += std::to_string(x) + ","; }
  say("t" + std::to_string(tctr) + " = " + a.n + ".reshape({" + txt + "})" + (ok ? "" : " (must throw)"));
  if (!ok) { if (!throws([&] { Tensor x = a.t.reshape(sv); })) bad("no exception"); return nullptr; }
  RT r = a.r; r.shape = out; r.leaf = false;
  Tensor T = must("reshape", [&] { return coin(30) ? Tensor::reshape(a.t, sv) : a.t.reshape(sv); });
  if (T.fptr->data_ != a.t.fptr->data_) { r.store = n_store++; for (auto &c : r.c) c = mk(cells[c].v, {{c, 1}}); } else r.view = true;
  return &add(std::move(T), r);
}
static TV &viewchain(TV &a, int maxn = 3) {
  TV *p = &a;
  for (int i = rnd(0, maxn); i > 0; i--) {
    TV *q = nullptr; int k = rnd(0, 4);
    if (k <= 2) q = op_slice(*p, false); else if (k == 3) q = op_transpose(*p, false); else q = op_reshape(*p, false);
    if (q) p = q;
  }
  return *p;
}
static TV &rndview(types t, bool nz = false, bool zero = true) { return viewchain(newtensor(rndshape(4, zero), t, nz)); }
// a partner shape that usually broadcasts with s
static Shape partner(const Shape &s) {
  Shape r = s;
  if (coin(20)) return rndshape();
  for (auto &x : r) if (coin(30)) x = 1;
  if (coin(40)) { size_t d = rnd(0, r.size()); r.erase(r.begin(), r.begin() + d); }
  else if (coin(30)) r.insert(r.begin(), rnd(1, 3));
  for (auto &x : r) if (x == 1 && coin(20)) x = rnd(1, 3);
  if (coin(8) && r.size()) r[rnd(0, r.size() - 1)] += 1;
  return r;
}
static TV &withshape(const Shape &s, types t, bool nz) { // a tensor of exactly this shape, possibly as a view
  if (coin(45)) return newtensor(s, t, nz);
  if (coin(50) && s.size() >= 2) {
    size_t i = rnd(0, s.size() - 1), j = rnd(0, s.size() - 1);
    if (i != j) { Shape q = s; std::swap(q[i], q[j]); TV &b = newtensor(q, t, nz); 
      say("t" + std::to_string(tctr) + " = " + b.n + ".transpose(" + std::to_string(i) + "," + std::to_string(j) + ")");
      RT r = b.r; r.shape = s; r.view = true; for (size_t k = 0; k < r.c.size(); k++) { auto ix = unrank(s, k); std::swap(ix[i], ix[j]); r.c[k] = b.r.c[rankof(q, ix)]; }
      return add(must("transpose", [&] { return b.t.transpose(i, j); }), r); }
  }
  if (s.size()) { // pad one dim and slice it back (offset / step / reversed)
    size_t d = rnd(0, s.size() - 1); long n = s[d];
    Shape q = s; int kind = rnd(0, 2);
    std::vector<Dim> ds(d + 1);
    for (auto &x : ds) { x.idx = false; x.text = ":"; }
    auto &D = ds[d];
    if (kind == 0) { q[d] = n + 2; D.b = 1; D.e = n + 1; D.text = "1:" + std::to_string(n + 1); }
    else if (kind == 1) { q[d] = 2 * n; D.s = 2; D.text = "::2"; }
    else { D.s = -1; D.text = "::-1"; }
    TV &b = newtensor(q, t, nz);
    auto R = ref_slice(b.r, ds);
    std::string txt = slicetext(ds);
    say("t" + std::to_string(tctr) + " = " + b.n + "[\"" + txt + "\"]");
    return add(must("slice", [&] { return b.t[txt]; }), *R);
  }
  return newtensor(s, t, nz);
}
static void expect_fresh(const Tensor &t, const std::string &w) {
  for (auto &p : pool) if (p->t.fptr != t.fptr && p->t.fptr->data_ == t.fptr->data_) bad(w + ": result shares storage with " + p->n);
}
// partials of binary ops at element
static LD dl(char op, LD a, LD b) { return op == '+' || op == '-' ? 1 : op == '*' ? b : 1 / b; }
static LD dr(char op, LD a, LD b) { return op == '+' ? 1 : op == '-' ? -1 : op == '*' ? a : -a / (b * b); }
static TV *op_bin(TV &a, TV &b, char op, bool allowbad) {
  auto s = bshape(a.r.shape, b.r.shape);
  if (!s && !allowbad) return nullptr;
  if (op == '/' ) for (auto c : b.r.c) if (cells[c].v == 0) return nullptr;
  say("t" + std::to_string(tctr) + " = " + a.n + " " + op + " " + b.n + (s ? "" : " (must throw)"));
  auto run = [&]() -> Tensor { switch (op) { case '+': return a.t + b.t; case '-': return a.t - b.t; case '*': return a.t * b.t; default: return a.t / b.t; } };
  if (!s) { if (!throws([&] { Tensor x = run(); })) bad("no exception"); return nullptr; }
  RT r = fresh(*s, larger(a.r.dt, b.r.dt)); r.rg = a.r.rg || b.r.rg; r.leaf = false;
  for (size_t k = 0; k < r.c.size(); k++) {
    auto ix = unrank(*s, k); int x = a.r.c[proj(a.r.shape, ix)], y = b.r.c[proj(b.r.shape, ix)];
    LD va = cells[x].v, vb = cells[y].v;
    r.c[k] = mk(bin(op, a.r.dt, va, b.r.dt, vb), {{x, dl(op, va, vb)}, {y, dr(op, va, vb)}});
  }
  Tensor T = must("arithmetic", run); expect_fresh(T, "arithmetic");
  return &add(std::move(T), r);
}
// ---------------------------------------------------------------- per-property cases
static void c_arith() {
  types l = rndtype(), r = rndtype(); char op = "+-*/"[rnd(0, 3)];
  int k = rnd(0, 9);
  if (k == 0) { TV &a = rndview(l); say("t" + std::to_string(tctr) + " = -" + a.n); RT q = fresh(a.r.shape, a.r.dt);
    for (size_t i = 0; i < q.c.size(); i++) q.c[i] = mk(conv(-cells[a.r.c[i]].v, a.r.dt));
    Tensor T = must("negate", [&] { return -a.t; }); expect_fresh(T, "negate"); add(std::move(T), q); check_all("unary minus"); return; }
  Shape s = coin(70) ? rndshape() : Shape{}; TV &a = withshape(coin(90) ? rndshape() : s, l, false); TV &b = withshape(partner(a.r.shape), r, op == '/');
  bool swap = coin(50) && op != '/';
  if (k <= 2) { // in-place +=
    auto sh = bshape(a.r.shape, b.r.shape);
    say(a.n + " += " + b.n + (sh ? "" : " (must throw)"));
    if (!sh) { std::vector<LD> old; if (!throws([&] { a.t += b.t; })) bad("no exception"); return; }
    for (size_t q = 0; q < nel(*sh); q++) { auto ix = unrank(*sh, q); int x = a.r.c[proj(a.r.shape, ix)], y = b.r.c[proj(b.r.shape, ix)];
      // the element is updated in a's dtype; the sum is formed by C++ arithmetic on (a, b)
      LD v = (larger(a.r.dt, b.r.dt) == a.r.dt) ? bin('+', a.r.dt, cells[x].v, b.r.dt, cells[y].v) : conv(bin('+', a.r.dt, cells[x].v, b.r.dt, cells[y].v), a.r.dt);
      cells[x].v = v; }
    try { a.t += b.t; } catch (const std::exception &e) { bad(std::string("+= threw: ") + e.what()); }
    check_all("+="); return;
  }
  op_bin(swap ? b : a, swap ? a : b, op, true);
  check_all("arithmetic");
}
static void c_cmp() {
  if (coin(35)) {
    TV &a = rndview(rndtype());
    if (coin(50)) for (auto c : a.r.c) if (cells[c].v == 0) { // often make it all non-zero
      goto done; }
  done:
    bool w = true; for (auto c : a.r.c) w = w && cells[c].v != 0;
    say(a.n + ".all()"); bool g = a.t.all(); if (g != w) bad(std::string("all() is ") + (g ? "true" : "false")); check_all("all"); return;
  }
  if (coin(20)) { TV &a = withshape(rndshape(), rndtype(), true); say(a.n + ".all()"); if (!a.t.all()) bad("all() is false"); return; }
  TV &a = withshape(rndshape(), rndtype(), false); TV &b = withshape(partner(a.r.shape), rndtype(), false);
  static const char *ops[] = {"<", ">", "<=", ">=", "==", "!="}; std::string op = ops[rnd(0, 5)];
  auto s = bshape(a.r.shape, b.r.shape);
  say("t" + std::to_string(tctr) + " = " + a.n + " " + op + " " + b.n + (s ? "" : " (must throw)"));
  auto run = [&]() -> Tensor { if (op == "<") return a.t < b.t; if (op == ">") return a.t > b.t; if (op == "<=") return a.t <= b.t; if (op == ">=") return a.t >= b.t; if (op == "==") return a.t == b.t; return a.t != b.t; };
  if (!s) { if (!throws([&] { Tensor x = run(); })) bad("no exception"); return; }
  RT r = fresh(*s, i8);
  for (size_t k = 0; k < r.c.size(); k++) { auto ix = unrank(*s, k); r.c[k] = mk(cmpop(op, a.r.dt, cells[a.r.c[proj(a.r.shape, ix)]].v, b.r.dt, cells[b.r.c[proj(b.r.shape, ix)]].v)); }
  Tensor T = must("compare", run); expect_fresh(T, "compare"); if (T.requires_grad()) bad("comparison requires grad");
  add(std::move(T), r); check_all("compare");
}
static void c_slice() {
  TV *p = &newtensor(rndshape(), rndtype()); for (int i = rnd(0, 2); i > 0; i--) { TV *q = coin(60) ? op_slice(*p, false) : op_transpose(*p, false); if (q) p = q; }
  if (coin(6)) { static const char *badtxt[] = {"a", " - 1", "x:1", ":q", "::z", " ", "--1"}; std::string s = badtxt[rnd(0, 6)];
    if (p->r.shape.size() == 0) return; say(p->n + "[\"" + s + "\"] (must throw)"); if (!throws([&] { Tensor x = p->t[s]; }, false)) bad("no exception"); return; }
  if (coin(25)) { // long slice texts: several dims
    }
  TV *q = op_slice(*p, true);
  if (q) { if (q->t.fptr->data_ != p->t.fptr->data_) bad("slice is not a view of the same storage"); }
  check_all("slice");
}
static void c_transpose() {
  TV &a = rndview(rndtype()); TV *q = op_transpose(a, true);
  if (q) { if (q->t.fptr->data_ != a.t.fptr->data_) bad("transpose is not a view"); }
  check_all("transpose");
}
static void c_reshape() {
  TV &a = rndview(rndtype()); bool rgd = coin(40) && a.r.dt >= f32;
  if (rgd) { say(a.n + ".requires_grad(true)"); a.t.requires_grad(true); a.r.rg = true; }
  if (coin(15)) { Shape s = factor(a.r.numel()); if (a.r.numel() == 1 && coin(30)) s.clear(); TV &b = newtensor(s, rndtype());
    say("t" + std::to_string(tctr) + " = " + a.n + ".reshape_as(" + b.n + ")"); RT r = a.r; r.shape = s; add(must("reshape_as", [&] { return a.t.reshape_as(b.t); }), r); }
  else op_reshape(a, true);
  check_all("reshape");
}
static TV *op_cat(std::vector<TV *> in, size_t dim, bool allowbad) {
  bool ok = !in.empty();
  if (ok) { ok = dim < in[0]->r.shape.size();
    for (auto p : in) { if (p->r.shape.size() != in[0]->r.shape.size()) { ok = false; break; } for (size_t j = 0; j < p->r.shape.size(); j++) if (j != dim && p->r.shape[j] != in[0]->r.shape[j]) ok = false; } }
  if (!ok && !allowbad) return nullptr;
  std::string tx; std::vector<Tensor> v; for (auto p : in) { tx += p->n + ","; v.push_back(alias(p->t)); }
  say("t" + std::to_string(tctr) + " = cat({" + tx + "}, " + std::to_string(dim) + ")" + (ok ? "" : " (must throw)"));
  if (!ok) { if (!throws([&] { Tensor x = INNC::cat(v, dim); })) bad("no exception"); return nullptr; }
  Shape s = in[0]->r.shape; s[dim] = 0; types t = in[0]->r.dt; bool rgd = false;
  for (auto p : in) { s[dim] += p->r.shape[dim]; t = larger(t, p->r.dt); rgd |= p->r.rg; }
  RT r = fresh(s, t); r.rg = rgd; r.leaf = false;
  size_t off = 0;
  for (auto p : in) { for (size_t k = 0; k < p->r.numel(); k++) { auto ix = unrank(p->r.shape, k); ix[dim] += off; int c = p->r.c[k]; r.c[rankof(s, ix)] = mk(conv(cells[c].v, t), {{c, 1}}); } off += p->r.shape[dim]; }
  Tensor T = must("cat", [&] { return INNC::cat(v, dim); }); v.clear(); expect_fresh(T, "cat"); return &add(std::move(T), r);
}
static void c_cat() {
  if (coin(3)) { op_cat({}, rnd(0, 1), true); return; }
  Shape s = rndshape(4); size_t dim = rnd(0, s.size()); if (coin(90) && s.size()) dim = rnd(0, s.size() - 1);
  std::vector<TV *> in; int n = rnd(1, 4);
  for (int i = 0; i < n; i++) { if (i && coin(15)) { in.push_back(in[rnd(0, i - 1)]); continue; } Shape q = s; if (dim < q.size()) q[dim] = coin(8) ? 0 : rnd(1, 3); if (coin(4) && q.size()) q[rnd(0, q.size() - 1)]++; if (coin(3)) q.push_back(1); in.push_back(&withshape(q, rndtype(), false)); }
  op_cat(in, dim, true); check_all("cat");
}
static TV *op_sum(TV &a, bool mean) {
  types t = isint(a.r.dt) ? i64 : f64; RT r = fresh({}, t); r.rg = a.r.rg; r.leaf = false; LD s = 0; std::vector<std::pair<int, LD>> par; size_t n = a.r.numel();
  for (auto c : a.r.c) { s = isint(t) ? s + cells[c].v : (LD)((double)s + (double)cells[c].v); par.push_back({c, mean ? 1.0L / n : 1}); }
  if (mean && n) s = isint(t) ? (LD)((long long)s / (long long)n) : (LD)((double)s / (double)n);
  r.c[0] = mk(s, par); say("t" + std::to_string(tctr) + " = " + a.n + (mean ? ".mean()" : ".sum()"));
  Tensor T = must("reduce", [&] { return mean ? a.t.mean() : a.t.sum(); }); expect_fresh(T, "reduce"); return &add(std::move(T), r);
}
static void c_sum() { TV &a = rndview(rndtype()); op_sum(a, coin(50)); check_all("sum/mean"); }
static TV *op_maxmin(TV &a, bool mx) {
  if (!a.r.numel()) return nullptr;
  LD v = cells[a.r.c[0]].v; int b = a.r.c[0]; for (auto c : a.r.c) if (mx ? cells[c].v > v : cells[c].v < v) { v = cells[c].v; b = c; }
  RT r = fresh({}, a.r.dt); r.rg = a.r.rg; r.leaf = false; r.c[0] = mk(v, {{b, 1}}); say("t" + std::to_string(tctr) + " = " + a.n + (mx ? ".max()" : ".min()"));
  Tensor T = must("max/min", [&] { return mx ? a.t.max() : a.t.min(); }); expect_fresh(T, "max/min"); return &add(std::move(T), r);
}
static TV *op_abs(TV &a) {
  RT r = fresh(a.r.shape, a.r.dt); r.rg = a.r.rg; r.leaf = false; for (size_t k = 0; k < r.c.size(); k++) { int c = a.r.c[k]; LD v = cells[c].v; r.c[k] = mk(conv(v >= 0 ? v : -v, a.r.dt), {{c, v >= 0 ? 1 : -1}}); }
  say("t" + std::to_string(tctr) + " = " + a.n + ".abs()"); Tensor T = must("abs", [&] { return a.t.abs(); }); expect_fresh(T, "abs"); return &add(std::move(T), r);
}
static void c_max() { TV &a = rndview(rndtype()); if (a.r.dt >= f32 && coin(30)) { say(a.n + ".requires_grad(true)"); a.t.requires_grad(true); } int k = rnd(0, 2); if (k == 2) op_abs(a); else op_maxmin(a, k); check_all("max/min/abs"); }
static TV *op_type(TV &a, types t) {
  if (a.r.rg && isint(t)) return nullptr;
  say("t" + std::to_string(tctr) + " = " + a.n + ".type(" + tn(t) + ")"); Tensor T = must("type", [&] { return a.t.type(t); });
  if (t == a.r.dt) { if (T.fptr != a.t.fptr) bad("type() to own dtype is another tensor"); return nullptr; }
  RT r = fresh(a.r.shape, t); r.rg = a.r.rg; r.leaf = false; for (size_t k = 0; k < r.c.size(); k++) { int c = a.r.c[k]; r.c[k] = mk(conv(cells[c].v, t), {{c, 1}}); }
  expect_fresh(T, "type"); return &add(std::move(T), r);
}
static bool ref_contig(const TensorImpl &t) { auto l = dynamic_cast<StridedLayout *>(t.view.get()); long long st = 1; for (size_t i = l->sizes.size(); i-- > 0;) { if (l->strides[i] != st) return false; st *= l->sizes[i]; } return true; }
static TV *op_clone(TV &a, bool cont) {
  RT r = fresh(a.r.shape, a.r.dt); r.rg = a.r.rg; r.leaf = false; for (size_t k = 0; k < r.c.size(); k++) { int c = a.r.c[k]; r.c[k] = mk(cells[c].v, {{c, 1}}); }
  say("t" + std::to_string(tctr) + " = " + a.n + (cont ? ".contiguous()" : ".clone()")); Tensor T = must("clone", [&] { return cont ? a.t.contiguous() : a.t.clone(); });
  expect_fresh(T, "clone"); if (!T.is_contiguous()) bad("clone is not contiguous"); return &add(std::move(T), r);
}
static void c_conv() {
  TV &a = rndview(rndtype()); int k = rnd(0, 5);
  if (k == 0) op_type(a, rndtype()); else if (k == 1) op_clone(a, false); else if (k == 2) op_clone(a, true);
  else if (k == 3) { RT r = a.r; r.rg = false; say("t" + std::to_string(tctr) + " = " + a.n + ".detach()"); Tensor T = must("detach", [&] { return a.t.detach(); }); if (T.fptr->data_ != a.t.fptr->data_) bad("detach copies"); add(std::move(T), r); }
  else if (k == 4) { say(a.n + ".is_contiguous()"); if (a.t.is_contiguous() != ref_contig(*a.t.fptr)) bad("is_contiguous() wrong"); }
  else { say(a.n + ".stride()"); auto lay = dynamic_cast<StridedLayout *>(a.t.fptr->view.get()); std::vector<long long> w(lay->strides.begin(), lay->strides.begin() + a.r.shape.size()); SignedVec g; try { g = a.t.stride(); } catch (const std::exception &e) { bad(std::string("stride() threw: ") + e.what()); } if (std::vector<long long>(g.begin(), g.end()) != w) bad("stride() wrong: " + g.to_string());
    // strides must reproduce the elements
  }
  check_all("conversion");
}
static void c_factory() {
  types t = rndtype(); Shape s = rndshape(); SizeVec sv; for (auto x : s) sv.push_back(x);
  RT r = fresh(s, t); auto setall = [&](std::function<LD(size_t)> f) { for (size_t k = 0; k < r.c.size(); k++) r.c[k] = mk(f(k)); };
  Tensor T; int k = rnd(0, 12);
  switch (k) {
  case 0: say("zeros(" + str(s) + "," + tn(t) + ")"); T = Tensor::zeros(sv, t); setall([](size_t) { return 0; }); break;
  case 1: say("ones(" + str(s) + "," + tn(t) + ")"); T = Tensor::ones(sv, t); setall([](size_t) { return 1; }); break;
  case 2: { std::int64_t v = rnd(-300, 300); say("full(" + str(s) + "," + std::to_string(v) + "l," + tn(t) + ")"); T = Tensor::full(sv, v, t); setall([&](size_t) { return conv(v, t); }); break; }
  case 3: { double v = rnd(-400, 400) / 8.0; say("full(" + str(s) + "," + std::to_string(v) + "," + tn(t) + ")"); T = Tensor::full(sv, v, t); setall([&](size_t) { return conv((LD)v, t); }); break; }
  case 4: { size_t n = rnd(0, 5), m = rnd(0, 5); bool sq = coin(30); if (sq) m = n; say("eye(" + std::to_string(n) + "," + std::to_string(m) + "," + tn(t) + ")"); T = sq ? Tensor::eye(n, t) : Tensor::eye(n, m, t); r = fresh({n, m}, t); setall([&](size_t q) { return q / m == q % m; }); break; }
  case 5: { auto &tv = newtensor(s, t); check(tv.t, tv.r, "from_blob"); return; }
  case 6: { TV &a = rndview(t); r = fresh(a.r.shape, t); bool z = coin(50); say(std::string(z ? "zeros" : "ones") + "_like(" + a.n + ")"); T = z ? Tensor::zeros_like(a.t) : Tensor::ones_like(a.t); setall([&](size_t) { return !z; }); break; }
  case 7: { r = fresh({}, t); LD v = rndval(t); say(std::string("Tensor(") + tn(t) + " " + std::to_string((double)v) + ")"); switch (t) { case i8: T = Tensor((std::int8_t)v); break; case i16: T = Tensor((std::int16_t)v); break; case i32: T = Tensor((std::int32_t)v); break; case i64: T = Tensor((std::int64_t)v); break; case f32: T = Tensor((float)v); break; default: T = Tensor((double)v); } setall([&](size_t) { return v; }); break; }
  case 8: case 9: {
    if (isint(t)) { say(std::string("randn(") + str(s) + "," + tn(t) + ") (must throw)"); if (!throws([&] { Tensor x = Tensor::randn(sv, t); })) bad("no exception"); return; }
    bool like = coin(30); say(std::string(like ? "randn_like(" : "randn(") + str(s) + "," + tn(t) + ")");
    if (like) { auto &b = newtensor(s, t); T = Tensor::randn_like(b.t); } else T = Tensor::randn(sv, t);
    if (T.type() != t) bad("randn dtype"); auto z = T.size(); if (Shape(z.begin(), z.end()) != s) bad("randn sizes"); if (T.fptr->data_->get_size() != nel(s) * esz(t)) bad("randn storage size");
    size_t zeros = 0; for (size_t q = 0; q < nel(s); q++) { LD v = elem(*T.fptr, unrank(s, q)); if (!(std::fabs((double)v) < 20)) bad("randn value not from a normal distribution"); zeros += v == 0; } if (zeros > 1) bad("randn left elements unset"); return; }
  case 10: { r = fresh({3}, i32); say("TensorInit{7,8,9}"); T = TensorInit{7, 8, 9}; setall([](size_t q) { return 7 + q; }); break; }
  case 11: { int w = rnd(0, 3); say("TensorInit nested " + std::to_string(w));
    if (w == 0) { r = fresh({2, 3}, f64); T = TensorInit{{1., 2., 3.}, {4., 5., 6.}}; setall([](size_t q) { return 1 + q; }); }
    else if (w == 1) { r = fresh({2, 2, 3}, i16); typedef std::int16_t S; T = TensorInit{{{S(0), S(1), S(2)}, {S(3), S(4), S(5)}}, {{S(6), S(7), S(8)}, {S(9), S(10), S(11)}}}; setall([](size_t q) { return q; }); }
    else if (w == 2) { r = fresh({3, 2, 1}, f32); T = TensorInit{{{1.f}, {2.f}}, {{3.f}, {4.f}}, {{5.f}, {6.f}}}; setall([](size_t q) { return 1 + q; }); }
    else { r = fresh({4, 1}, i64); T = TensorInit{{1l}, {2l}, {3l}, {4l}}; setall([](size_t q) { return 1 + q; }); }
    break; }
  default: { int w = rnd(0, 4); say("ragged TensorInit " + std::to_string(w)); bool th = false; try { if (w == 0) TensorInit{{1, 2, 3}, {4, 5}}; else if (w == 1) TensorInit{{1., 2.}, {4, 5}}; else if (w == 2) TensorInit{{{1, 2}, {3, 4}}, {{5, 6}, {7}}}; else if (w == 3) TensorInit{{1}, {2}, {3, 4}}; else TensorInit{{1, 2}, {3, 4}, {5.f, 6.f}}; } catch (const std::invalid_argument &) { th = true; } catch (const std::exception &) {} if (!th) bad("no invalid_argument"); return; }
  }
  expect_fresh(T, "factory"); if (T.requires_grad()) bad("factory result requires grad"); add(std::move(T), r); check_all("factory");
}
static void c_alias() { // history of views, results, in-place updates
  types t = rndtype(); newtensor(rndshape(3), t);
  for (int i = rnd(3, 9); i > 0; i--) {
    TV &a = *pool[rnd(0, pool.size() - 1)];
    switch (rnd(0, 11)) {
    case 0: case 1: op_slice(a, false); break;
    case 2: op_transpose(a, false); break;
    case 3: op_reshape(a, false); break;
    case 4: { RT r = a.r; say("t" + std::to_string(tctr) + " = " + a.n + ".detach()"); Tensor T = a.t.detach(); add(std::move(T), r); break; }
    case 5: op_clone(a, coin(50)); break;
    case 6: op_type(a, rndtype()); break;
    case 7: { TV &b = *pool[rnd(0, pool.size() - 1)]; op_bin(a, b, "+-*/"[rnd(0, 3)], false); break; }
    case 8: { int k = rnd(0, 3); if (k == 0) op_sum(a, coin(50)); else if (k == 1) op_abs(a); else op_maxmin(a, k == 2); break; }
    case 9: { op_cat({&a}, 0, false); break; }
    default: { LD v = rnd(-3, 3); TV &b = newtensor(Shape{}, i8); auto sh = bshape(a.r.shape, b.r.shape); say(a.n + " += " + b.n);
      for (auto c : a.r.c) cells[c].v = conv(larger(a.r.dt, i8) == a.r.dt ? bin('+', a.r.dt, cells[c].v, i8, cells[b.r.c[0]].v) : 0, a.r.dt); (void)v; (void)sh; a.t += b.t; break; }
    }
    check_all("after step");
  }
}
// ---- autograd
static std::map<int, LD> adj;
static void backprop(int root) { // tape order is topological
  adj.clear(); adj[root] = 1;
  std::map<int, LD> mag; mag[root] = 1; LD top = 1;
  for (int i = root; i >= 0; i--) { auto it = mag.find(i); if (it == mag.end()) continue; LD g = it->second; top = std::max(top, g); for (auto &p : cells[i].par) mag[p.first] += std::fabs((double)(g * p.second)); }
  gslack = std::max(gslack, 2e-6L * top);
  for (int i = root; i >= 0; i--) { auto it = adj.find(i); if (it == adj.end()) continue; LD g = it->second; for (auto &p : cells[i].par) adj[p.first] += g * p.second; }
}
struct Leaf { TV *tv; std::vector<LD> g; bool touched = false; };
static TV &leaf(std::vector<Leaf> &ls, bool nz, bool distinct = false, std::optional<Shape> sh = {}) {
  types t = coin(50) ? f32 : f64; Shape s = sh ? *sh : rndshape(3, false);
  TV *p = &newtensor(s, t, nz, distinct);
  if (coin(30) && !sh) p = &viewchain(*p, 2);
  // a leaf has its own scalar variables
  RT r = p->r; for (auto &c : r.c) c = mk(cells[c].v); r.leaf = true; r.view = false; p->r = r;
  if (coin(80)) { say(p->n + ".requires_grad(true)"); p->t.requires_grad(true); p->r.rg = true; ls.push_back({p, std::vector<LD>(r.numel(), 0)}); }
  return *p;
}
static bool finite_small(const TV &a) { for (auto c : a.r.c) if (!(std::fabs((double)cells[c].v) < 1e4)) return false; return true; }
static void check_grads(std::vector<Leaf> &ls, const std::string &what) {
  for (auto &l : ls) {
    Tensor g = l.tv->t.grad();
    if (!g.fptr) { if (l.touched) bad(what + ": no gradient in " + l.tv->n); continue; }
    RT r; r.dt = l.tv->r.dt; r.shape = l.tv->r.shape; for (auto v : l.g) r.c.push_back(mk(v));
    check(g, r, what + ": gradient of " + l.tv->n, true);
  }
}
// mode bits: 1 arithmetic, 2 reductions/abs, 4 views/cat/clone/type, 8 heavy sharing, 16 direct backward from a view
static void autograd(int mode) {
  std::vector<Leaf> ls; int rounds = coin(30) ? 2 : 1;
  std::vector<TV *> base;
  for (int i = rnd(1, 3); i > 0; i--) base.push_back(&leaf(ls, true, mode & 2 && coin(50)));
  for (int rd = 0; rd < rounds; rd++) {
    std::vector<TV *> xs = base; std::vector<TV *> retained;
    if (coin(30)) xs.push_back(&newtensor(coin(50) ? Shape{} : partner(base[0]->r.shape), rndtype(), true));
    for (int i = rnd(1, (mode & 8) ? 9 : 5); i > 0; i--) {
      TV &a = *xs[coin(60) ? xs.size() - 1 - rnd(0, std::min<long>(2, xs.size() - 1)) : rnd(0, xs.size() - 1)];
      TV *q = nullptr; std::vector<int> kinds; if (mode & 1) for (int k = 0; k < 4; k++) kinds.push_back(k); if (mode & 2) for (int k = 4; k < 9; k++) kinds.push_back(k); if (mode & 4) for (int k = 9; k < 15; k++) kinds.push_back(k); if (mode & 8) { kinds.push_back(0); kinds.push_back(2); }
      if (!finite_small(a)) continue;
      int k = kinds[rnd(0, kinds.size() - 1)];
      if (k < 4) {
        TV *b = xs[rnd(0, xs.size() - 1)]; if (coin(20)) b = &a; else if (coin(35)) { b = coin(60) ? &leaf(ls, true, false, partner(a.r.shape)) : &newtensor(partner(a.r.shape), rndtype(), true); }
        if (!finite_small(*b)) continue; bool tiny = false; if (k == 3) for (auto c : b->r.c) if (std::fabs((double)cells[c].v) < 0.2) tiny = true; if (tiny) continue;
        bool sw = coin(40) && k != 3; q = op_bin(sw ? *b : a, sw ? a : *b, "+-*/"[k], false);
        if (q && q->r.dt < f32) { continue; }
        if (b != &a && coin(40)) xs.push_back(b);
      } else if (k == 4) q = op_sum(a, false); else if (k == 5) q = op_sum(a, true);
      else if (k == 6 || k == 7) { std::set<LD> sv; for (auto c : a.r.c) sv.insert(cells[c].v); if (sv.size() != a.r.numel()) { if (!a.r.numel()) continue;
            // ties: only use when the extreme is unique
            LD m = cells[a.r.c[0]].v; for (auto c : a.r.c) m = k == 6 ? std::max(m, cells[c].v) : std::min(m, cells[c].v); int n = 0; for (auto c : a.r.c) n += cells[c].v == m; if (n != 1) continue; }
          q = op_maxmin(a, k == 6); }
      else if (k == 8) { bool z = false; for (auto c : a.r.c) z = z || std::fabs((double)cells[c].v) < 1e-3; if (!z) q = op_abs(a); }
      else if (k == 9 || k == 10) q = op_slice(a, false); else if (k == 11) q = op_transpose(a, false); else if (k == 12) q = op_reshape(a, false);
      else if (k == 13) q = coin(50) ? op_clone(a, coin(50)) : (a.r.dt >= f32 ? op_type(a, coin(50) ? f32 : f64) : nullptr);
      else { TV *b = coin(40) ? &a : &leaf(ls, true, false, a.r.shape); std::vector<TV *> in{&a, b}; if (coin(40)) in.push_back(coin(50) ? &a : b); if (a.r.shape.size()) q = op_cat(in, rnd(0, a.r.shape.size() - 1), false); if (q && q->r.dt < f32) q = nullptr; }
      if (!q) continue;
      check(q->t, q->r, "forward value", true);
      if (q->t.requires_grad() != q->r.rg) bad("requires_grad of " + q->n + " is " + (q->r.rg ? "false" : "true"));
      if (coin(15) && q->r.rg && !q->r.view) { say(q->n + ".retain_grad(true)"); q->t.retain_grad(true); retained.push_back(q); }
      xs.push_back(q);
    }
    TV *root = nullptr; for (size_t i = xs.size(); i-- > 0;) if (xs[i]->r.rg && !xs[i]->r.leaf) { root = xs[i]; break; }
    if (!root) return;
    if (!((mode & 16) && root->r.numel() == 1)) {
      if (coin(50) && root->r.numel()) { // random upstream weights
        TV &w = newtensor(root->r.shape, f64, true); TV *q = op_bin(*root, w, '*', false); if (!q) return; root = q; }
      if (coin(30) && xs.size() > 2 && xs[xs.size() - 2]->r.rg) { TV *a = op_sum(*xs[xs.size() - 2], false), *b = op_sum(*root, coin(30)); root = op_bin(*a, *b, coin(50) ? '+' : '*', false); }
      else if (root->r.numel() != 1 || coin(60)) root = op_sum(*root, coin(20));
    }
    if (!root || root->r.numel() != 1) return;
    say(root->n + ".backward()"); backprop(root->r.c[0]);
    bool reach_any = false; (void)reach_any;
    for (auto &l : ls) for (size_t k = 0; k < l.g.size(); k++) { auto it = adj.find(l.tv->r.c[k]); if (it != adj.end()) { l.g[k] += it->second; l.touched = true; } }
    try { root->t.backward(); } catch (const std::exception &e) { bad(std::string("backward threw: ") + e.what()); }
    check_grads(ls, "backward " + std::to_string(rd));
    for (auto p : retained) { bool has = false; for (auto c : p->r.c) has = has || adj.count(c); if (!has || p->r.numel() == 0) continue; Tensor g = p->t.grad(); if (!g.fptr) bad("retained gradient of " + p->n + " missing"); bool viewed = false; for (auto &q : pool) if (q->r.view && q->r.store == p->r.store) viewed = true; if (viewed) continue; RT r; r.dt = p->r.dt; r.shape = p->r.shape; for (auto c : p->r.c) r.c.push_back(mk(adj.count(c) ? adj[c] : 0)); check(g, r, "retained gradient of " + p->n, true); }
    for (auto &p : pool) if (p->r.rg && !p->r.leaf && !p->t.retain_grad() && adj.count(p->r.c.size() ? p->r.c[0] : -1) && !p->r.view) { if (p->t.fptr->grad && p->t.fptr->grad->data_->is_alloc()) bad("gradient of intermediate " + p->n + " was kept"); }
    if (coin(20)) { auto &l = ls[rnd(0, ls.size() - 1)]; say(l.tv->n + ".zero_grad()"); l.tv->t.zero_grad(); for (auto &g : l.g) g = 0; check_grads(ls, "zero_grad"); }
    check_all("values after backward", true);
  }
}
static void c_grad_misuse() {
  int k = rnd(0, 11); types t = rndtype(); TV &a = rndview(t);
  auto must_throw = [&](const std::string &w, std::function<void()> f) { say(w + " (must throw)"); if (!throws(f)) bad("no exception"); check_all("after rejected call"); };
  switch (k) {
  case 0: if (isint(t)) { must_throw(a.n + ".requires_grad(true)", [&] { a.t.requires_grad(true); }); if (a.t.requires_grad()) bad("flag set"); a.t.requires_grad(false); if (a.t.requires_grad()) bad("flag set"); } else { a.t.requires_grad(true); if (!a.t.requires_grad()) bad("flag not set"); a.t.requires_grad(false); if (a.t.requires_grad()) bad("flag not cleared"); } break;
  case 1: if (!isint(t)) { a.t.requires_grad(true); types d = (types)rnd(0, 3); must_throw(a.n + " rg .type(" + tn(d) + ")", [&] { Tensor x = a.t.type(d); }); } break;
  case 2: if (!isint(t)) { a.t.requires_grad(true); TV &b = newtensor({}, rndtype()); must_throw(a.n + " rg += " + b.n, [&] { a.t += b.t; }); } break;
  case 3: must_throw(a.n + ".backward() without grad", [&] { a.t.backward(); }); break;
  case 4: if (!isint(t)) { a.t.requires_grad(true); must_throw(a.n + ".backward() on leaf", [&] { a.t.backward(); }); if (a.t.grad().fptr) bad("grad appeared"); } break;
  case 5: if (!isint(t) && a.r.numel() != 1) { a.t.requires_grad(true); Tensor c = a.t.clone(); must_throw(a.n + ".clone().backward() non-scalar", [&] { c.backward(); }); if (a.t.grad().fptr) bad("grad appeared"); } break;
  case 6: { TV &b = newtensor(partner(a.r.shape), rndtype()); if (!bshape(a.r.shape, b.r.shape)) return; bool ra = !isint(a.r.dt) && coin(60), rb = !isint(b.r.dt) && coin(60); say("rg " + std::to_string(ra) + std::to_string(rb)); a.t.requires_grad(ra); b.t.requires_grad(rb); Tensor x = a.t + b.t, y = a.t - b.t, z = a.t * b.t; if (x.requires_grad() != (ra || rb) || y.requires_grad() != (ra || rb) || z.requires_grad() != (ra || rb)) bad("requires_grad not propagated"); if ((a.t < b.t).requires_grad() || (a.t == b.t).requires_grad()) bad("comparison requires grad"); break; }
  case 7: { if (isint(t)) return; bool g = coin(70); a.t.requires_grad(g); say("rg " + std::to_string(g)); auto ck = [&](const Tensor &x, const char *w) { if (x.requires_grad() != g) bad(std::string("requires_grad of ") + w); };
      ck(a.t.sum(), "sum"); ck(a.t.mean(), "mean"); ck(a.t.abs(), "abs"); if (a.r.numel()) { ck(a.t.max(), "max"); ck(a.t.min(), "min"); } ck(a.t.clone(), "clone"); ck(a.t.contiguous(), "contiguous"); ck(a.t[""], "slice"); ck(a.t.reshape({-1}), "reshape"); ck(a.t.type(f32), "type"); ck(a.t.type(f64), "type"); if (a.r.shape.size() > 1) ck(a.t.transpose(0, 1), "transpose"); ck(-a.t, "neg"); if (a.t.detach().requires_grad()) bad("detach requires grad"); if (a.r.shape.size()) { std::vector<Tensor> v(1); v[0] = a.t; ck(INNC::cat(v, 0), "cat"); } break; }
  case 8: { if (isint(t)) return; a.t.requires_grad(true); say("zero_grad"); a.t.zero_grad(); Tensor c = a.t * a.t; bool keep = coin(50); c.retain_grad(keep); if (c.retain_grad() != keep) bad("retain_grad flag"); c.sum().backward(); if ((bool)c.grad().fptr != keep) bad("intermediate gradient retention"); if (!a.t.grad().fptr) bad("leaf gradient missing"); a.t.zero_grad(); RT r = a.r; for (auto &x : r.c) x = mk(0); check(a.t.grad(), r, "zero_grad"); break; }
  case 9: { if (isint(t) || !a.r.shape.size()) return; a.t.requires_grad(true); say("grad() of sliced leaf before backward"); Tensor b = a.t[":"]; Tensor g = a.t.grad(); if (g.fptr) { g.to_string(); } g = b.grad(); if (g.fptr) g.to_string(); a.t.zero_grad(); break; }
  case 10: { TV &b = newtensor(partner(a.r.shape), rndtype(), true); if (isint(t) || !bshape(a.r.shape, b.r.shape)) return; a.t.requires_grad(true); Tensor q = a.t / b.t; if (!q.requires_grad()) bad("div"); break; }
  default: { Tensor z = Tensor::zeros({2}, f64), o = Tensor::ones({2}, f32), f = Tensor::full({2}, 1.0, f64); if (z.requires_grad() || o.requires_grad() || f.requires_grad()) bad("fresh tensor requires grad"); if (z.retain_grad() || z.grad().fptr) bad("fresh tensor state"); }
  }
  check_all("values after", false);
}
static std::string ref_str(const RT &r, size_t d, size_t base, size_t n) {
  if (d == r.shape.size()) { LD v = cells[r.c[base]].v; return isint(r.dt) ? std::to_string((long long)v) : r.dt == f32 ? std::to_string((float)v) : std::to_string((double)v); }
  std::string s = "["; size_t m = r.shape[d] ? n / r.shape[d] : 0;
  for (size_t i = 0; i < r.shape[d]; i++) s += (i ? ", " : "") + ref_str(r, d + 1, base + i * m, m);
  return s + "]";
}
static void c_str() {
  TV &a = rndview(rndtype()); say(a.n + ".to_string()"); std::string g = a.t.to_string(), w = ref_str(a.r, 0, 0, a.r.numel()); if (g != w) bad("got " + g + " expected " + w);
  SizeVec s; SignedVec q; std::string ws = "[", wq = "["; for (int i = 0, n = rnd(0, 4); i < n; i++) { size_t x = rnd(0, 1000); long long y = rnd(-1000, 1000); s.push_back(x); q.push_back(y); ws += (i ? ", " : "") + std::to_string(x); wq += (i ? ", " : "") + std::to_string(y); }
  if (s.to_string() != ws + "]") bad("SizeVec text " + s.to_string()); if (q.to_string() != wq + "]") bad("SignedVec text " + q.to_string());
  if (coin(3)) { Tensor e; if (e.to_string() != "[]") bad("empty tensor text"); }
}
static void c_safety() { switch (rnd(0, 12)) { case 0: c_arith(); break; case 1: c_cmp(); break; case 2: c_slice(); break; case 3: c_reshape(); break; case 4: c_cat(); break; case 5: c_sum(); break; case 6: c_max(); break; case 7: c_conv(); break; case 8: c_factory(); break; case 9: c_alias(); break; case 10: c_transpose(); break; default: autograd(31); } 
  // fresh tensors cover their storage exactly
  Shape s = rndshape(); types t = rndtype(); SizeVec sv; for (auto x : s) sv.push_back(x); say("zeros(" + str(s) + ")"); Tensor z = Tensor::zeros(sv, t); std::set<size_t> seen; for (size_t k = 0; k < nel(s); k++) { SizeVec ix; for (auto i : unrank(s, k)) ix.push_back(i); seen.insert(z.fptr->cnt_from_index(ix)); } if (seen.size() != nel(s) || (seen.size() && *seen.rbegin() + 1 != nel(s)) || z.fptr->data_->get_size() != nel(s) * esz(t)) bad("fresh tensor does not cover its storage exactly"); }

static void run_case(const std::string &p) {
  if (p == "C01") c_arith(); else if (p == "C02") c_cmp(); else if (p == "C03") c_safety(); else if (p == "C04") c_slice(); else if (p == "C05") c_transpose(); else if (p == "C06") c_reshape(); else if (p == "C07") c_cat(); else if (p == "C08") c_sum(); else if (p == "C09") c_max(); else if (p == "C10") c_conv(); else if (p == "C11") c_factory(); else if (p == "C12") c_alias();
  else if (p == "C13") autograd(1); else if (p == "C14") autograd(coin(50) ? 2 : 3); else if (p == "C15") autograd(coin(50) ? 4 | 16 : 5 | 16); else if (p == "C16") autograd(coin(50) ? 8 | 1 : 31); else if (p == "C17") { if (coin(70)) c_grad_misuse(); else autograd(31); } else if (p == "C18") c_str(); else { fprintf(stderr, "unknown property\n"); _exit(2); }
}
int main(int argc, char **argv) {
  if (argc < 5) { fprintf(stderr, "usage\n"); return 2; }
  std::string p = argv[1]; unsigned long seed = strtoul(argv[2], 0, 10), first = strtoul(argv[3], 0, 10), n = strtoul(argv[4], 0, 10);
  shm = (char *)mmap(0, SHM + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  unsigned long *cur = (unsigned long *)(shm + SHM);
  unsigned long i = first, end = first + n;
  while (i < end) {
    pid_t pid = fork();
    if (pid == 0) {
      for (; i < end; i++) {
        *cur = i; trace.clear(); shm[0] = 0; cells.clear(); gslack = 0; pool.clear(); tctr = 0; n_store = 0;
        rg.seed(seed * 1000003 + i * 7919 + std::hash<std::string>{}(p) % 65521);
        alarm(20);
        try { run_case(p); } catch (const Mismatch &m) { printf("FAIL case=%lu\nprogram: %s\nproblem: %s\n", i, trace.c_str(), m.what.c_str()); fflush(stdout); _exit(3); } catch (const std::exception &e) { printf("FAIL case=%lu\nprogram: %s\nproblem: unexpected exception: %s\n", i, trace.c_str(), e.what()); fflush(stdout); _exit(3); }
      }
      pool.clear();
      _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 1;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 2) return 2;
    printf("FAIL case=%lu\nprogram: %s\nproblem: the process died (%s %d)\n", *cur, shm, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    return 1;
  }
  printf("OK cases=%lu\n", n);
  return 0;
}
