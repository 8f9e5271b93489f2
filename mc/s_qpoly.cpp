// A08: polynomials over Q and cyclotomic polynomials.
#include "fields.h"
#include "spffl/polynomials/q_poly_t.h"
#include "spffl/q_cyclotomic/cyclo_poly.h"
#include "spffl/q_cyclotomic/qff.h"
#include <numeric>
#include <sys/wait.h>
#include <unistd.h>
#ifdef MC_PROP_A08
using mc::fmt;
using ref::ll;
using spffl::intmath::intrat_t;
using spffl::polynomials::q_poly_t;
typedef __int128 xl;

static ll maxseen;
struct Q {
  ll n, d;
  Q(xl n_ = 0, xl d_ = 1) {
    if (d_ < 0) { n_ = -n_; d_ = -d_; }
    xl a = n_ < 0 ? -n_ : n_, b = d_;
    while (b) { xl t = a % b; a = b; b = t; }
    if (a == 0) a = 1;
    n = (ll)(n_ / a); d = (ll)(d_ / a);
    maxseen = std::max({maxseen, n < 0 ? -n : n, d});
  }
  bool zero() const { return n == 0; }
  bool operator==(const Q &o) const { return n == o.n && d == o.d; }
  bool operator!=(const Q &o) const { return !(*this == o); }
};
static Q add(Q a, Q b) { return Q((xl)a.n * b.d + (xl)b.n * a.d, (xl)a.d * b.d); }
static Q neg(Q a) { return Q(-(xl)a.n, a.d); }
static Q mul(Q a, Q b) { return Q((xl)a.n * b.n, (xl)a.d * b.d); }
static Q inv(Q a) { return Q(a.d, a.n); }
static int qcmp(Q a, Q b) { xl x = (xl)a.n * b.d - (xl)b.n * a.d; return x < 0 ? -1 : x > 0; }
typedef std::vector<Q> V;
static void norm(V &a) { while (!a.empty() && a.back().zero()) a.pop_back(); }
static V vadd(const V &a, const V &b) { V r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); i++) r[i] = add(i < a.size() ? a[i] : Q(), i < b.size() ? b[i] : Q()); norm(r); return r; }
static V vscale(V a, Q s) { for (auto &c : a) c = mul(c, s); norm(a); return a; }
static V vsub(const V &a, const V &b) { return vadd(a, vscale(b, Q(-1))); }
static V vmul(const V &a, const V &b) { if (a.empty() || b.empty()) return {}; V r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = add(r[i + j], mul(a[i], b[j])); norm(r); return r; }
static void vdivmod(const V &a, const V &b, V &q, V &r) {
  r = a; q.clear();
  if (a.size() >= b.size()) q.assign(a.size() - b.size() + 1, Q());
  Q li = inv(b.back());
  for (int s = (int)a.size() - (int)b.size(); s >= 0; s--) { Q c = mul(r[s + b.size() - 1], li); q[s] = c; for (size_t i = 0; i < b.size(); i++) r[s + i] = add(r[s + i], neg(mul(c, b[i]))); }
  norm(q); norm(r);
}
static V vmonic(V a) { return a.empty() ? a : vscale(a, inv(a.back())); }
static V vgcd(V a, V b) { while (!b.empty()) { V q, r; vdivmod(a, b, q, r); a = b; b = r; } return vmonic(a); }
static V vderiv(const V &a) { V r; for (size_t i = 1; i < a.size(); i++) r.push_back(mul(a[i], Q((ll)i))); norm(r); return r; }
static Q veval(const V &a, Q c) { Q r; for (int i = (int)a.size() - 1; i >= 0; i--) r = add(mul(r, c), a[i]); return r; }
static std::string sh(const V &a) { std::string s = "["; for (int i = (int)a.size() - 1; i >= 0; i--) s += (s.size() > 1 ? " " : "") + fmt("%lld/%lld", a[i].n, a[i].d); return s + "]"; }
static intrat_t mkc(Q q) { return intrat_t((int)q.n, (int)q.d); }
static q_poly_t mk(const V &a) { q_poly_t r(mkc(a.empty() ? Q() : a[0])); for (int i = (int)a.size() - 1; i >= 1; i--) if (!a[i].zero()) r.set_coeff(i, mkc(a[i])); return r; }
static bool rdc(const intrat_t &c, Q &q) { ll n = c.get_numerator(), d = c.get_denominator(); if (d <= 0 || std::gcd(n, d) != 1) return false; q = Q(n, d); return true; }
static bool rd(const q_poly_t &x, V &r) {
  int d = x.find_degree();
  if (d < 0 || d > 10000) return false;
  r.assign(d + 1, Q());
  for (int i = 0; i <= d; i++) if (!rdc(x.get_coeff(i), r[i])) return false;
  if (d > 0 && r[d].zero()) return false;
  if (x.get_coeff(d + 1) != 0) return false;
  norm(r); return true;
}
static void chk(const q_poly_t &x, const V &w, const char *what) {
  V g;
  if (!rd(x, g)) mc::fail(fmt("%s is not canonical (stored degree %d), expected %s", what, x.find_degree(), sh(w).c_str()));
  else if (g != w) mc::fail(fmt("%s gives %s, expected %s", what, sh(g).c_str(), sh(w).c_str()));
}
static void chkc(const intrat_t &x, Q w, const char *what) { Q g; if (!rdc(x, g) || g != w) mc::fail(fmt("%s gives %d/%d, expected %lld/%lld", what, x.get_numerator(), x.get_denominator(), w.n, w.d)); }
// Representability: everything the exact computation goes through fits well
// inside an int, so that no evaluation order of it can overflow.
static bool fits(ll bound = 20000) { return maxseen < bound; }

static void pair_ops(const V &a, const V &b) {
  q_poly_t x = mk(a), y = mk(b);
  maxseen = 0;
  chk(x + y, vadd(a, b), "a+b"); chk(x - y, vsub(a, b), "a-b"); chk(x * y, vmul(a, b), "a*b");
  { q_poly_t z(x); z += y; chk(z, vadd(a, b), "a+=b"); }
  { q_poly_t z(x); z -= y; chk(z, vsub(a, b), "a-=b"); }
  { q_poly_t z(x); z *= y; chk(z, vmul(a, b), "a*=b"); }
  if (b.empty()) {
    MC_THROWS(x / y); MC_THROWS(x % y); q_poly_t z(x); MC_THROWS(z /= y); MC_THROWS(z %= y); chk(z, a, "a after a rejected division");
  } else {
    V q, r; maxseen = 0; vdivmod(a, b, q, r);
    if (fits()) {
      chk(x / y, q, "a/b"); chk(x % y, r, "a%b");
      q_poly_t lq = y, lr = x; x.quot_and_rem(y, lq, lr); chk(lq, q, "quotient"); chk(lr, r, "remainder");
      { q_poly_t z(x); z /= y; chk(z, q, "a/=b"); } { q_poly_t z(x); z %= y; chk(z, r, "a%=b"); }
    }
  }
  maxseen = 0; V g = vgcd(a, b);
  if (fits(3000)) {
    V got; q_poly_t lg = x.gcd(y);
    if (!rd(lg, got) || vmonic(got) != g) mc::fail("gcd gives " + sh(got) + ", expected an associate of " + sh(g));
    if (!(a.empty() && b.empty())) {
      // the multipliers of the classical algorithm
      V r0 = a, r1 = b, s0 = {Q(1)}, s1, t0, t1 = {Q(1)};
      while (!r1.empty()) { V q, r; vdivmod(r0, r1, q, r); r0 = r1; r1 = r; V t = vsub(s0, vmul(q, s1)); s0 = s1; s1 = t; t = vsub(t0, vmul(q, t1)); t0 = t1; t1 = t; }
      if (fits(3000)) {
        q_poly_t u = x, v = y; q_poly_t e = x.ext_gcd(y, u, v);
        V pe, pu, pv;
        if (!rd(e, pe) || !rd(u, pu) || !rd(v, pv)) mc::fail("ext_gcd results are not canonical");
        else {
          if (vmonic(pe) != g) mc::fail("ext_gcd gives " + sh(pe) + ", expected an associate of " + sh(g));
          V c = vadd(vmul(pu, a), vmul(pv, b));
          if (c != pe) mc::fail("ext_gcd multipliers " + sh(pu) + ", " + sh(pv) + " give " + sh(c) + " instead of " + sh(pe));
        }
      }
    }
  }
  int c = a.size() != b.size() ? (a.size() < b.size() ? -1 : 1) : 0;
  // degree of zero is zero: constants compare by value
  if (a.size() <= 1 && b.size() <= 1) c = 0;
  if (!c) for (int i = (int)std::max(a.size(), b.size()) - 1; i >= 0 && !c; i--) c = qcmp(i < (int)a.size() ? a[i] : Q(), i < (int)b.size() ? b[i] : Q());
  MC_EQ(x == y, c == 0); MC_EQ(x != y, c != 0); MC_EQ(x < y, c < 0); MC_EQ(x <= y, c <= 0); MC_EQ(x > y, c > 0); MC_EQ(x >= y, c >= 0);
  chk(x, a, "left operand afterwards"); chk(y, b, "right operand afterwards");
}
static void unary(const V &a, const std::vector<Q> &pts) {
  q_poly_t x = mk(a);
  int d = a.empty() ? 0 : (int)a.size() - 1;
  chk(x, a, "set_coeff"); chk(-x, vscale(a, Q(-1)), "-a"); chk(x + (-x), {}, "a+(-a)"); chk(x.deriv(), vderiv(a), "derivative");
  { q_poly_t y(x); chk(y, a, "copy"); y = y; chk(y, a, "self-assignment"); q_poly_t z; chk(z, {}, "default object"); z = x; chk(z, a, "assignment"); z = mk(V{Q(1), Q(), Q(), Q(), Q(), Q(2)}); z = x; chk(z, a, "assignment to a larger object"); z.set_coeff(0, mkc(Q(9))); chk(x, a, "original after mutating a copy");
    y += y; chk(y, vadd(a, a), "a+=a"); y = x; y -= y; chk(y, {}, "a-=a"); y = x; y *= y; chk(y, vmul(a, a), "a*=a"); if (!a.empty()) { y = x; y /= y; chk(y, {Q(1)}, "a/=a"); y = x; y %= y; chk(y, {}, "a%=a"); } }
  { q_poly_t y(x); y.promote(); V w = a; if (!w.empty()) w.insert(w.begin(), Q()); chk(y, w, "promote"); }
  for (Q c : {Q(), Q(1), Q(-3, 2)}) { q_poly_t y(x); y.promote_and_add(mkc(c)); V w = a; w.insert(w.begin(), c); norm(w); chk(y, w, "promote_and_add"); }
  for (int pos : {0, 1, d - 1, d, d + 1, d + 4}) if (pos >= 0) {
    chkc(x.get_coeff(pos), pos < (int)a.size() ? a[pos] : Q(), "get_coeff");
    for (Q c : {Q(), Q(1), Q(-3, 2)}) { q_poly_t y(x); y.set_coeff(pos, mkc(c)); V w = a; if ((int)w.size() <= pos) w.resize(pos + 1); w[pos] = c; norm(w); chk(y, w, "set_coeff"); chk(y - x, vsub(w, a), "set_coeff then -"); }
  }
  MC_THROWS(x.get_coeff(-1)); { q_poly_t y(x); MC_THROWS(y.set_coeff(-1, mkc(Q(1)))); chk(y, a, "after a rejected set_coeff"); }
  if (a.size() <= 1) chk(q_poly_t(mkc(a.empty() ? Q() : a[0])), a, "constructor c0");
  if (a.size() <= 2) chk(q_poly_t(mkc(a.size() > 1 ? a[1] : Q()), mkc(a.size() > 0 ? a[0] : Q())), a, "constructor c1,c0");
  if (a.size() <= 3) chk(q_poly_t(mkc(a.size() > 2 ? a[2] : Q()), mkc(a.size() > 1 ? a[1] : Q()), mkc(a.size() > 0 ? a[0] : Q())), a, "constructor c2,c1,c0");
  for (Q c : pts) {
    intrat_t k = mkc(c);
    maxseen = 0; Q e = veval(a, c); if (fits(1000000)) chkc(x.eval(k), e, "a(c)");
    V cp = c.zero() ? V() : V{c};
    chk(x + k, vadd(a, cp), "a+c"); chk(x - k, vsub(a, cp), "a-c"); chk(x * k, vscale(a, c), "a*c");
    { q_poly_t z(x); z += k; chk(z, vadd(a, cp), "a+=c"); } { q_poly_t z(x); z -= k; chk(z, vsub(a, cp), "a-=c"); } { q_poly_t z(x); z *= k; chk(z, vscale(a, c), "a*=c"); }
    if (c.zero()) { MC_THROWS(x / k); q_poly_t z(x); MC_THROWS(z /= k); chk(z, a, "after a rejected a/=0"); }
    else { chk(x / k, vscale(a, inv(c)), "a/c"); q_poly_t z(x); z /= k; chk(z, vscale(a, inv(c)), "a/=c"); }
    chkc(k, c, "c afterwards");
  }
  if (a.empty()) { MC_THROWS(x.exp(0)); MC_THROWS(x.exp(-1)); chk(x.exp(1), {}, "0^1"); chk(x.exp(3), {}, "0^3"); }
  else {
    V w = {Q(1)}; maxseen = 0;
    for (int e = 0; e <= 4; e++) { if (!fits(1000)) break; chk(x.exp(e), w, fmt("a^%d", e).c_str()); w = vmul(w, a); }
    if (a.size() > 1) { MC_THROWS(x.exp(-1)); MC_THROWS(x.exp(-2)); }
    else { chk(x.exp(-1), {inv(a[0])}, "c^-1"); chk(x.exp(-2), {mul(inv(a[0]), inv(a[0]))}, "c^-2"); }
  }
  chk(x, a, "operand afterwards");
}
static std::vector<V> all(const std::vector<Q> &vals, int deg) {
  std::vector<V> r = {{}}, cur = {{}};
  for (int d = 0; d <= deg; d++) { std::vector<V> nx; for (auto &v : cur) for (auto &q : vals) { V w = v; w.push_back(q); nx.push_back(w); } cur = nx; }
  r.clear();
  for (auto v : cur) { norm(v); r.push_back(v); }
  std::sort(r.begin(), r.end(), [](const V &a, const V &b) { return sh(a) < sh(b); });
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
static const int NOPS = 16;
struct H {
  q_poly_t x, y; V a, b;
  void step(int op) {
    switch (op) {
    case 0: x = y; a = b; break;
    case 1: y = x; b = a; break;
    case 2: x = x; break;
    case 3: x += y; a = vadd(a, b); break;
    case 4: x -= y; a = vsub(a, b); break;
    case 5: x *= y; a = vmul(a, b); break;
    case 6: if (b.empty()) MC_THROWS(x %= y); else { V q, r; vdivmod(a, b, q, r); x %= y; a = r; } break;
    case 7: if (b.empty()) MC_THROWS(x /= y); else { V q, r; vdivmod(a, b, q, r); x /= y; a = q; } break;
    case 8: { int p = a.empty() ? 0 : (int)a.size() - 1; x.set_coeff(p, mkc(Q())); if (!a.empty()) a[p] = Q(); norm(a); break; }
    case 9: x.set_coeff(4, mkc(Q(-1, 2))); if (a.size() < 5) a.resize(5); a[4] = Q(-1, 2); break;
    case 10: x.set_coeff(7, mkc(Q())); if (a.size() > 7) a[7] = Q(); norm(a); break;
    case 11: x.promote(); if (!a.empty()) a.insert(a.begin(), Q()); break;
    case 12: x = -x; a = vscale(a, Q(-1)); break;
    case 13: x = x.deriv(); a = vderiv(a); break;
    case 14: { q_poly_t t(x); x = y; y = t; std::swap(a, b); break; }
    case 15: x *= mkc(Q(2, 3)); a = vscale(a, Q(2, 3)); break;
    }
    chk(x, a, fmt("A after operation %d", op).c_str()); chk(y, b, fmt("B after operation %d", op).c_str());
  }
};
// Cyclotomic polynomials as integer vectors, by the defining product.
static std::vector<std::vector<ll>> phis(int n) {
  std::vector<std::vector<ll>> P(n + 1);
  for (int k = 1; k <= n; k++) {
    std::vector<ll> num(k + 1, 0); num[k] = 1; num[0] = -1;
    for (int d = 1; d < k; d++) if (k % d == 0) {
      auto &D = P[d]; std::vector<ll> q(num.size() - D.size() + 1, 0);
      for (int s = (int)q.size() - 1; s >= 0; s--) { ll c = num[s + D.size() - 1]; q[s] = c; for (size_t i = 0; i < D.size(); i++) num[s + i] -= c * D[i]; }
      num = q;
    }
    P[k] = num;
  }
  return P;
}
static void chk_phi(int n, const std::vector<ll> &w) { V v; for (ll c : w) v.push_back(Q(c)); chk(spffl::q_cyclotomic::get_cyclo_qpoly(n), v, fmt("cyclotomic polynomial %d", n).c_str()); }

MC_PROP(A08) {
  bool t = mc::thorough, s = mc::asan;
  std::vector<Q> v3 = {Q(), Q(1), Q(-1)}, v5 = {Q(), Q(1), Q(-1), Q(2), Q(1, 2)}, v9 = {Q(), Q(1), Q(-1), Q(2), Q(-2), Q(1, 2), Q(-2, 3), Q(5, 7), Q(-3)};
  std::vector<Q> pts = {Q(), Q(1), Q(-1), Q(2), Q(-1, 2), Q(3, 2), Q(-7, 5)};
  struct Sp { const char *n; std::vector<V> ps; };
  std::vector<Sp> sp = {{"coefficients 0,+-1 degree<=3", all(v3, s ? 1 : t ? 4 : 3)}, {"five coefficients degree<=2", all(v5, s ? 1 : t ? 3 : 2)}, {"nine coefficients degree<=1", all(v9, s ? 0 : t ? 2 : 1)}};
  for (auto &k : sp) for (size_t i = 0; i < k.ps.size(); i++) mc::unit(fmt("%s: %zu %s", k.n, i, sh(k.ps[i]).c_str()), [&] {
    mc::count_states();
    mc::run("itself", {(ll)i}, [&] { unary(k.ps[i], pts); });
    for (size_t j = 0; j < k.ps.size(); j++) mc::run("paired with", {(ll)j}, [&] { pair_ops(k.ps[i], k.ps[j]); });
  });
  int depth = s ? 2 : t ? 4 : 3;
  std::vector<std::pair<V, V>> init = {{{}, {Q(1)}}, {{Q(1), Q(-1, 2), Q(2)}, {Q(1), Q(1)}}, {{Q(-1), Q(), Q(), Q(1)}, {Q(2), Q(3)}}};
  for (size_t k = 0; k < init.size(); k++) for (int o1 = 0; o1 < NOPS; o1++) mc::unit(fmt("histories %zu of %d operations, first %d", k, depth, o1), [&] {
    mc::count_states();
    for (ll i = 0; i < ref::ipow(NOPS, depth - 1); i++) {
      std::vector<int> ops = {o1}; ll q = i; for (int j = 1; j < depth; j++) { ops.push_back((int)(q % NOPS)); q /= NOPS; }
      std::string lab; for (int o : ops) lab += fmt("%d,", o);
      mc::run("operations", lab, [&] { H h; h.a = init[k].first; h.b = init[k].second; h.x = mk(h.a); h.y = mk(h.b); maxseen = 0; for (int o : ops) h.step(o); });
    }
  });
  mc::unit("binomials", [&] {
    for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) if (i != j) for (Q c : v5) for (Q e : v5) mc::run("ci,i,cj,j", {i, j, c.n, e.n}, [&] {
      V w(8); w[i] = c; w[j] = e; norm(w); chk(q_poly_t::binomial(mkc(c), i, mkc(e), j), w, "binomial");
    });
  });
  int nmax = s ? 60 : t ? 330 : 140;
  auto P = phis(nmax);
  for (int n = 1; n <= nmax; n++) mc::unit(fmt("cyclotomic %d", n), [&] {
    mc::count_states();
    mc::run("n", {n}, [&] { chk_phi(n, P[n]); chk_phi(n, P[n]); });
    V prod = {Q(1)}; // product of the library's own values over the divisors
    if (n <= 60) mc::run("product over divisors", {n}, [&] {
      q_poly_t r(1); for (int d = 1; d <= n; d++) if (n % d == 0) r *= spffl::q_cyclotomic::get_cyclo_qpoly(d);
      V w(n + 1); w[n] = Q(1); w[0] = Q(-1); chk(r, w, "product of cyclotomics");
    });
    if (n <= 70) for (int p : {2, 3, 5, 7, 11, 13}) mc::run("image mod p", {n, p}, [&] {
      ref::Poly w; for (ll c : P[n]) w.push_back(ref::md(c, p));
      fld::FP f(p); fld::chk(f, spffl::q_cyclotomic::get_cyclo_fp_poly(n, p), w, "cyclotomic over Fp");
      if (p == 2) { ref::Poly g = fld::of_f2p(spffl::q_cyclotomic::get_cyclo_f2_poly(n)); if (g != w) mc::fail("cyclotomic over F2 is wrong"); }
    });
    if (n <= 40) mc::run("image over extensions", {n}, [&] {
      fld::F2N f4(7), f16(0x13); fld::FPN f9(3, ref::pol({1, 0, 1})), f25(5, ref::pol({1, 1, 1}));
      auto im = [&](int p) { ref::Poly w; for (ll c : P[n]) w.push_back(ref::md(c, p)); return w; };
      fld::chk(f4, spffl::q_cyclotomic::get_cyclo_f2n_poly(n, f4.M), im(2), "cyclotomic over F4");
      fld::chk(f16, spffl::q_cyclotomic::get_cyclo_f2n_poly(n, f16.M), im(2), "cyclotomic over F16");
      fld::chk(f9, spffl::q_cyclotomic::get_cyclo_fpn_poly(n, f9.M), im(3), "cyclotomic over F9");
      fld::chk(f25, spffl::q_cyclotomic::get_cyclo_fpn_poly(n, f25.M), im(5), "cyclotomic over F25");
    });
  });
  // The answer does not depend on earlier queries: every first query n1, in a
  // fresh process, followed by every other.
  for (int n1 = 1; n1 <= 36; n1++) mc::unit(fmt("cyclotomic query order starting with %d", n1), [&] {
    mc::run("n1", {n1}, [&] {
      pid_t c = fork();
      if (c == 0) {
        int bad = 0;
        try {
          for (int n2 = 1; n2 <= 36 && !bad; n2++) {
            int seq[3] = {n1, n2, n1};
            for (int n : seq) { q_poly_t q = spffl::q_cyclotomic::get_cyclo_qpoly(n); V g; if (!rd(q, g) || g.size() != P[n].size()) { bad = 1; break; } for (size_t i = 0; i < g.size(); i++) if (g[i] != Q(P[n][i])) bad = 1; }
          }
        } catch (...) { bad = 2; }
        _exit(bad);
      }
      int st = 0; waitpid(c, &st, 0);
      MC_EQ(st, 0);
    });
  });
  mc::unit("cyclotomic errors", [&] { for (int n : {0, -1, -5}) mc::run("n", {n}, [&] { MC_THROWS(spffl::q_cyclotomic::get_cyclo_qpoly(n)); }); });
  // Coefficient-wise reduction of any rational polynomial with denominators
  // prime to p.
  for (int p : {2, 3, 5, 7}) mc::unit(fmt("reduction modulo %d", p), [&] {
    auto ps = all(v5, 2); auto p9 = all(v9, 1); ps.insert(ps.end(), p9.begin(), p9.end());
    fld::FP f(p); fld::F2N f4(7); fld::FPN fe(p, p == 2 ? ref::pol({1, 1, 1}) : p == 3 || p == 7 ? ref::pol({1, 0, 1}) : ref::pol({1, 1, 1}));
    for (size_t i = 0; i < ps.size(); i++) mc::run("polynomial", {(ll)i}, [&] {
      bool ok = true; ref::Poly w;
      for (auto &c : ps[i]) { if (c.d % p == 0) ok = false; else w.push_back(ref::md((xl)ref::md(c.n, p) * ref::iinv(c.d, p), p)); }
      q_poly_t x = mk(ps[i]);
      if (!ok) { MC_THROWS(spffl::q_cyclotomic::fp_poly_from_qpoly(x, p)); return; }
      ref::norm(w);
      fld::chk(f, spffl::q_cyclotomic::fp_poly_from_qpoly(x, p), w, "reduction to Fp");
      fld::chk(fe, spffl::q_cyclotomic::fpn_poly_from_qpoly(x, fe.M), w, "reduction to Fp^n");
      if (p == 2) { if (fld::of_f2p(spffl::q_cyclotomic::f2_poly_from_q_poly(x)) != w) mc::fail("reduction to F2 is wrong"); fld::chk(f4, spffl::q_cyclotomic::f2n_poly_from_qpoly(x, f4.M), w, "reduction to F4"); }
    });
  });
}
#endif
