// A09: polynomial residue rings.
#include "fields.h"
#include <cmath>
using namespace fld;
using ref::ipow;
using ref::pdigits;
using ref::pindex;

// ---- GF(2) itself as a coefficient family for f2_poly_t
struct F2 {
  typedef f2_poly_t P;
  typedef f2_polymod_t M;
  RingP R; std::string name;
  F2() : R(new ref::Zn(2)), name("F2") {}
  P poly(const Poly &a) const { return f2p(a); }
  bool rdp(const P &x, Poly &r) const { int d = x.find_degree(); if (d < 0 || d > 100000) return false; r = of_f2p(x); return d == 0 || (int)r.size() == d + 1; }
};
template <class B, class PM> struct Fam : B {
  typedef PM M;
  using B::B;
  Fam(const B &b) : B(b) {}
  typename B::P poly(const Poly &a) const { return mk(*(const B *)this, a); }
  bool rdp(const typename B::P &x, Poly &r) const { return rd(*(const B *)this, x, r); }
};
typedef Fam<FP, fp_polymod_t> GP;
typedef Fam<F2N, f2n_polymod_t> G2N;
typedef Fam<FPN, fpn_polymod_t> GPN;

template <class F> struct Res {
  const F &f; Poly m; typename F::P M; int n; ll Q; std::shared_ptr<ref::Ext> E;
  Res(const F &f_, const Poly &m_) : f(f_), m(m_), M(f_.poly(m_)), n((int)m_.size() - 1) {
    Q = n * std::log2((double)f.R->q) < 40 ? ipow(f.R->q, n) : -1;
    if (Q > 0) E.reset(new ref::Ext(f.R, m));
  }
  Poly red(const Poly &a) const { return ref::pmod(*f.R, a, m); }
  typename F::M el(const Poly &a) const { return typename F::M(f.poly(a), M); }
  void chk(const typename F::M &x, const Poly &want, const char *what) const {
    Poly g;
    if (!f.rdp(x.get_residue(), g)) { mc::fail(mc::fmt("%s: residue is not canonical (stored degree %d), expected %s", what, x.get_residue().find_degree(), show(want).c_str())); return; }
    if (g != want) mc::fail(mc::fmt("%s gives %s, expected %s", what, show(g).c_str(), show(want).c_str()));
    if (x.get_modulus() != M) mc::fail(mc::fmt("%s: modulus changed", what));
  }
};

static Poly powmod(const ref::Ring &R, Poly a, unsigned long long e, const Poly &m) {
  Poly r = ref::pmod(R, {1}, m);
  while (e) { if (e & 1) r = ref::pmod(R, ref::pmul(R, r, a), m); e >>= 1; if (e) a = ref::pmod(R, ref::pmul(R, a, a), m); }
  return r;
}
static bool invmod(const ref::Ring &R, const Poly &a, const Poly &m, Poly &r) {
  Poly r0 = m, r1 = ref::pmod(R, a, m), t0 = {}, t1 = {1};
  while (!r1.empty()) { Poly q, s; ref::pdivmod(R, r0, r1, q, s); r0 = r1; r1 = s; Poly t = ref::psub(R, t0, ref::pmul(R, q, t1)); t0 = t1; t1 = t; }
  if (r0.size() != 1) return false;
  r = ref::pmod(R, ref::pscale(R, t0, R.inv(r0[0])), m);
  return true;
}

template <class F> void unary(const Res<F> &S, const Poly &a, bool full) {
  if (mc::asan && S.n > 2) full = false;
  typedef typename F::M M;
  const ref::Ring &R = *S.f.R;
  M x = S.el(a);
  S.chk(x, a, "element");
  S.chk(-x, ref::pneg(R, a), "-a");
  { M y(x); S.chk(y, a, "copy"); y = y; S.chk(y, a, "self-assigned"); M z; z = x; S.chk(z, a, "assigned"); z += x; S.chk(x, a, "source after changing its copy");
    y = x; y += y; S.chk(y, ref::padd(R, a, a), "a += a"); y = x; y -= y; S.chk(y, {}, "a -= a"); y = x; y *= y; S.chk(y, S.red(ref::pmul(R, a, a)), "a *= a"); }
  Poly inv; bool u = invmod(R, a, S.m, inv);
  { M r; bool g = x.recip(r); MC_CHECK(g == u, "recip returns " << g << " for " << (u ? "a unit" : "a non-unit"));
    if (g && u) { S.chk(r, inv, "recip"); S.chk(r * x, S.red({1}), "a * recip(a)"); }
    M z = x; if (u) { bool g2 = z.recip(z); MC_CHECK(g2, "recip in place"); S.chk(z, inv, "recip in place"); } }
  MC_EQ(x.get_characteristic(), R.p);
  static const int es[] = {0, 1, 2, 3, 4, 5, 7, 8, 15, 255, 1000003, 2147483646, 2147483647};
  for (int e : es) {
    if (!full && (e == 4 || e == 7 || e > 8)) continue;
    if (e == 0) { if (a.empty()) MC_THROWS(x.exp(0)); else S.chk(x.exp(0), S.red({1}), "a^0"); continue; }
    S.chk(x.exp(e), powmod(R, a, e, S.m), "a^e");
    if (a.empty() || !u) { if (e < 4) MC_THROWS(x.exp(-e)); }
    else S.chk(x.exp(-e), powmod(R, inv, e, S.m), "a^-e");
  }
  static const int ks[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 12, -1, -2, -3, -4, -5, -7, -10};
  static const int kb[] = {1000000007, 2147483647, 2147483646, -2147483647, -1000000007};
  auto mul = [&](int k) { if (R.fromint(k) > 300) return; /* repeated addition: slow */ Poly w = ref::pscale(R, a, R.fromint(k)); S.chk(x * k, w, mc::fmt("a * %d", k).c_str()); M y(x); y *= k; S.chk(y, w, mc::fmt("a *= %d", k).c_str());  };
  for (int k : ks) mul(k);
  if (full) for (int k : kb) mul(k);
}
template <class F> void embed(const Res<F> &S) {
  typedef typename F::M M;
  const ref::Ring &R = *S.f.R;
  M x = S.el({});
  auto one = [&](int v) {
    mc::run("integer", {v}, [&] {
      Poly w = {R.fromint(v)}; ref::norm(w); w = S.red(w);
      S.chk(x.prime_subfield_element(v), w, "prime_subfield_element");
      S.chk(M::prime_subfield_element(v, S.M), w, "static prime_subfield_element");
    });
  };
  for (int v = -20; v <= 20; v++) one(v);
  for (int v : {2147483647, 2147483646, -2147483647, -2147483646, 1 << 30, -(1 << 30)}) one(v);
}
template <class F> void pair(const Res<F> &S, const Poly &a, const Poly &b) {
  typedef typename F::M M;
  const ref::Ring &R = *S.f.R;
  M x = S.el(a), y = S.el(b);
  Poly s = ref::padd(R, a, b), d = ref::psub(R, a, b), p = S.red(ref::pmul(R, a, b)), inv, q;
  S.chk(x + y, s, "a+b"); S.chk(x - y, d, "a-b"); S.chk(x * y, p, "a*b");
  { M z(x); z += y; S.chk(z, s, "a+=b"); z = x; z -= y; S.chk(z, d, "a-=b"); z = x; z *= y; S.chk(z, p, "a*=b"); }
  if (invmod(R, b, S.m, inv)) {
    q = S.red(ref::pmul(R, a, inv));
    S.chk(x / y, q, "a/b"); S.chk(x % y, {}, "a%b");
    M z(x); z /= y; S.chk(z, q, "a/=b"); z = x; z %= y; S.chk(z, {}, "a%=b");
  } else if (!mc::asan || a == b || a.empty()) {
    M z(x);
    MC_THROWS(x / y); MC_THROWS(x % y); MC_THROWS(z /= y); MC_THROWS(z %= y);
    S.chk(z, a, "a after a rejected a/=b");
  }
  int c = ref::pcmp(a, b);
  MC_EQ(x == y, c == 0); MC_EQ(x != y, c != 0); MC_EQ(x < y, c < 0); MC_EQ(x > y, c > 0); MC_EQ(x <= y, c <= 0); MC_EQ(x >= y, c >= 0);
  S.chk(x, a, "a afterwards"); S.chk(y, b, "b afterwards");
}
// Every modulus of degree lo..hi over the family, every pair of residues.
template <class F> void all_moduli(const F &f, int lo, int hi, bool monic_only = false) {
  for (int n = lo; n <= hi; n++) {
    ll q = f.R->q, N = ipow(q, n);
    for (ll l = 1; l < q; l++) {
      if (monic_only && l > 1) break;
      for (ll k = 0; k < N; k++) {
        Poly m = pdigits(k, q); m.resize(n + 1, 0); m[n] = l;
        mc::unit(f.name + "[x]/" + show(m), [&] {
          Res<F> S(f, m);
          mc::count_states(N);
          embed(S);
          for (ll i = 0; i < N; i++) mc::run("element", {i}, [&] { unary(S, pdigits(i, q), !mc::asan || i < 6); });
          ll T = ipow(q, std::min(n + 2, n + (q > 8 ? 1 : 2)));
          if (mc::asan && T > 60) T = 60;
          for (ll i = 0; i < T; i++) mc::run("reduction of", {i}, [&] { Poly a = pdigits(i, q); S.chk(S.el(a), S.red(a), "reduction"); });
          for (ll i = 0; i < N; i++) for (ll j = 0; j < N; j++) mc::run("a,b", {i, j}, [&] { pair(S, pdigits(i, q), pdigits(j, q)); });
        });
      }
    }
  }
}
// Moduli too large for all pairs: boundary-shaped residues.
template <class F> void big_modulus(const F &f, const Poly &m, const std::vector<Poly> &els0, bool full = true) {
  std::vector<Poly> els; for (size_t i = 0; i < els0.size(); i++) if (!mc::asan || els0.size() < 10 || i % 4 == 1) els.push_back(els0[i]);
  mc::unit(f.name + "[x]/" + show(m), [&] {
    Res<F> S(f, m);
    mc::count_states(els.size());
    embed(S);
    for (size_t i = 0; i < els.size(); i++) mc::run("element", show(els[i]), [&] { unary(S, S.red(els[i]), full && !mc::asan); S.chk(S.el(els[i]), S.red(els[i]), "reduction"); });
    for (size_t i = 0; i < els.size(); i++) for (size_t j = 0; j < els.size(); j++) mc::run("a,b", {(ll)i, (ll)j}, [&] { pair(S, S.red(els[i]), S.red(els[j])); });
  });
}
template <class F> std::vector<Poly> shapes(const F &f, int n) {
  std::vector<Poly> v = {{}, {1}};
  ll h = f.R->q - 1;
  for (int d : {1, n / 2, n - 1, n, n + 1, 2 * n - 1}) {
    if (d < 1) continue;
    Poly a(d + 1, 0); a[d] = 1; v.push_back(a);
    a[0] = h; v.push_back(a);
    Poly b(d + 1, h); v.push_back(b);
    a[d / 2] = 1; v.push_back(a);
  }
  for (auto &p : v) ref::norm(p);
  return v;
}
template <class F> void mixed(const F &f, int n1, int n2) {
  ll q = f.R->q;
  for (ll k1 = ipow(q, n1); k1 < 2 * ipow(q, n1); k1++) {
    mc::unit(f.name + "[x]: mixed moduli, first " + show(pdigits(k1, q)), [&] {
      Res<F> S(f, pdigits(k1, q));
      ll lim = mc::asan ? 2 : 100;
      for (int n = 1; n <= n2; n++) for (ll k2 = ipow(q, n); k2 < std::min(q, 3LL) * ipow(q, n); k2++) {
        if (k1 == k2) continue;
        Res<F> T(f, pdigits(k2, q));
        for (ll i = 0; i < std::min(lim, S.Q); i++) for (ll j = 0; j < std::min(lim, T.Q); j++) mc::run("second modulus, a, b", {k2, i, j}, [&] {
          auto x = S.el(pdigits(i, q)); auto y = T.el(pdigits(j, q));
          MC_CHECK(!(x == y), "residues of different moduli compare equal"); MC_CHECK(x != y, "residues of different moduli do not compare unequal");
          MC_THROWS(x + y); MC_THROWS(x - y); MC_THROWS(x * y); MC_THROWS(x / y);
          if (i < 2 && j < 3) {
            MC_THROWS(x % y); MC_THROWS(x += y); MC_THROWS(x -= y); MC_THROWS(x *= y); MC_THROWS(x /= y); MC_THROWS(x %= y);
            MC_THROWS(x < y); MC_THROWS(x > y); MC_THROWS(x <= y); MC_THROWS(x >= y);
          }
          S.chk(x, pdigits(i, q), "a afterwards"); T.chk(y, pdigits(j, q), "b afterwards");
        });
      }
    });
  }
}

MC_PROP(A09) {
  bool t = mc::thorough, as = mc::asan;
  F2 b;
  all_moduli(b, 1, as ? 3 : t ? 7 : 5);
  if (as) mixed(b, 2, 2); else { mixed(b, 2, 3); mixed(b, 3, 2); }
  for (int n : {31, 32, 33, 63, 64, 65, 127, 128, 129}) {
    if (as && n != 64 && n != 32 && n != 33) continue;
    Poly m(n + 1, 0); m[n] = m[0] = 1; big_modulus(b, m, shapes(b, n));
    m[1] = 1; big_modulus(b, m, shapes(b, n));
    m.assign(n + 1, 1); big_modulus(b, m, shapes(b, n));
    m.assign(n + 1, 0); m[n] = 1; big_modulus(b, m, shapes(b, n));
  }
  for (int n = 1; n <= 5; n++) for (ll k = 1LL << n; k < 2LL << n; k++) mc::unit(mc::fmt("change modulus from %lld", k), [&] {
    Res<F2> S(b, pdigits(k, 2));
    for (ll k2 = 2; k2 < (as ? 12 : 64); k2++) { Res<F2> T(b, pdigits(k2, 2)); for (ll i = 0; i < S.Q; i++) mc::run("new modulus, element", {k2, i}, [&] {
      f2_polymod_t x = S.el(pdigits(i, 2)); x.change_modulus(T.M); T.chk(x, T.red(pdigits(i, 2)), "change_modulus");
    }); }
  });

  GP p2(2), p3(3), p5(5), p7(7), p11(11);
  all_moduli(p2, 1, as ? 2 : t ? 5 : 4);
  all_moduli(p3, 1, as ? 1 : 2); if (!as) all_moduli(p3, 3, 3, !t);
  all_moduli(p5, 1, as ? 1 : t ? 2 : 1); if (!as && !t) all_moduli(p5, 2, 2, true);
  all_moduli(p7, 1, 1, as); if (t && !as) all_moduli(p7, 2, 2, true);
  all_moduli(p11, 1, 1, as);
  mixed(p3, 2, 2); mixed(p5, 1, 1);
  for (int p : {2, 3, 7, 101, 65537, 1000003}) {
    GP f(p);
    for (int n : {1, 2, 5, 9}) {
      Poly m(n + 1, 0); m[n] = 1; m[0] = p - 1; big_modulus(f, m, shapes(f, n));
      m.assign(n + 1, p - 1); m[0] = 1; big_modulus(f, m, shapes(f, n));
    }
  }
  for (int p : {2, 3, 5, 7}) mc::unit(mc::fmt("F%d: residue times field element", p), [&] {
    GP f(p);
    for (ll k = p; k < 2LL * p * p * p && k < 200; k++) {
      Res<GP> S(f, pdigits(k, p));
      for (ll i = 0; i < std::min(S.Q, 60LL); i++) for (int c = 0; c < p; c++) mc::run("modulus, a, c", {k, i, c}, [&] {
        auto x = S.el(pdigits(i, p)); Poly w = ref::pscale(*f.R, pdigits(i, p), c);
        S.chk(x * intmod_t(c, p), w, "a * c"); auto y = x; y *= intmod_t(c, p); S.chk(y, w, "a *= c"); S.chk(x, pdigits(i, p), "a afterwards");
      });
    }
    Res<GP> S(f, pdigits(p * p + 1, p));
    for (ll i = 0; i < S.Q && i < 30; i++) for (int c = 0; c < 3; c++) mc::run("wrong field, a, c", {i, c}, [&] { auto x = S.el(pdigits(i, p)); MC_THROWS(x * intmod_t(c, p + 1)); });
  });

  G2N q4(0x7), q8(0xb), q2(0x2), q16(0x13);
  all_moduli(q2, 1, as ? 2 : 4);
  all_moduli(q4, 1, as ? 1 : 2); if (!as) { if (t) all_moduli(q4, 3, 3, true); }
  all_moduli(q8, 1, 1, as); if (!as && t) all_moduli(q8, 2, 2, true);
  mixed(q4, 2, 1); mixed(q4, 1, 2);
  for (auto &f : {q4, q8, q16}) for (int n : {2, 3, 6}) {
    Poly m(n + 1, 0); m[n] = 1; m[0] = f.R->q - 1; big_modulus(f, m, shapes(f, n));
    m.assign(n + 1, f.R->q - 1); m[1] = 1; big_modulus(f, m, shapes(f, n));
  }
  GPN q9(3, ref::pol({1, 0, 1})), r4(2, ref::pol({1, 1, 1})), r3(3, ref::pol({1, 0})), r25(5, ref::pol({1, 1, 2})), r27(3, ref::pol({1, 0, 2, 1}));
  all_moduli(r4, 1, as ? 1 : 2);
  all_moduli(q9, 1, 1, as); if (!as && t) all_moduli(q9, 2, 2, true);
  all_moduli(r3, 1, as ? 1 : 2);
  if (!as) all_moduli(r25, 1, 1, true);
  mixed(r4, 1, 2); mixed(q9, 1, 1);
  for (auto &f : {q9, r4, r27}) for (int n : {2, 4}) {
    if (as && n > 2) continue;
    Poly m(n + 1, 0); m[n] = 1; m[0] = f.R->q - 1; big_modulus(f, m, shapes(f, n), false);
    m.assign(n + 1, f.R->q - 1); m[1] = 1; big_modulus(f, m, shapes(f, n), false);
  }
}
