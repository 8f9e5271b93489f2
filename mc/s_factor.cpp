// B02-B04: factorization, irreducibility, totients and roots of polynomials.
#include "fields.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/containers/tvector.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/f2_poly_totient.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/factorization/f2n_poly_totient.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/factorization/fp_poly_totient.h"
using namespace fld;
using namespace spffl::factorization;
using ref::ipow;
using ref::pdigits;
using ref::pindex;

struct F2 {
  typedef f2_poly_t P;
  RingP R; std::string name;
  F2() : R(new ref::Zn(2)), name("F2") {}
  P poly(const Poly &a) const { return f2p(a); }
  bool rdp(const P &x, Poly &r) const { int d = x.find_degree(); if (d < 0 || d > 100000) return false; r = of_f2p(x); return d == 0 || (int)r.size() == d + 1; }
  tfacinfo<P> factor(const P &a) const { return f2_poly_factor(a); }
  bool irr(const P &a) const { return f2_poly_is_irreducible(a); }
  int tot(const P &a) const { return f2_poly_totient(a); }
  P one() const { return f2_poly_t(1); }
};
struct GP : FP {
  using FP::FP;
  P poly(const Poly &a) const { return mk(*(const FP *)this, a); }
  bool rdp(const P &x, Poly &r) const { return rd(*(const FP *)this, x, r); }
  tfacinfo<P> factor(const P &a) const { return fp_poly_factor(a); }
  bool irr(const P &a) const { return fp_poly_is_irreducible(a); }
  int tot(const P &a) const { return fp_poly_totient(a); }
  P one() const { return poly({1}); }
};
struct G2N : F2N {
  using F2N::F2N;
  P poly(const Poly &a) const { return mk(*(const F2N *)this, a); }
  bool rdp(const P &x, Poly &r) const { return rd(*(const F2N *)this, x, r); }
  tfacinfo<P> factor(const P &a) const { return f2n_poly_factor(a); }
  bool irr(const P &a) const { return f2n_poly_is_irreducible(a); }
  int tot(const P &a) const { return f2n_poly_totient(a); }
  P one() const { return poly({1}); }
};

typedef std::map<std::pair<size_t, std::vector<ll>>, int> Fac; // monic irreducible (keyed by size, coefficients) -> multiplicity
static void addf(Fac &f, const Poly &p, int n = 1) { f[{p.size(), p}] += n; }

// Smallest-degree monic factor of every monic polynomial up to degree D, by
// crossing out multiples of each irreducible.
struct Sieve {
  RingP R; ll q; int D;
  std::vector<std::vector<int>> spf; // [degree][low coefficients] -> irreducible number, -1 if irreducible
  std::vector<Poly> irr;
  static Poly monic(ll k, int d, ll q) { Poly a = pdigits(k, q); a.resize(d + 1, 0); a[d] = 1; return a; }
  Sieve(RingP R_, int D_) : R(R_), q(R_->q), D(D_) {
    for (int d = 0; d <= D; d++) spf.push_back(std::vector<int>(ipow(q, d), -1));
    for (int d = 1; d <= D; d++) for (ll k = 0; k < ipow(q, d); k++) if (spf[d][k] < 0) {
      Poly p = monic(k, d, q); irr.push_back(p);
      for (int e = d; d + e <= D; e++) for (ll j = 0; j < ipow(q, e); j++) {
        Poly m = ref::pmul(*R, p, monic(j, e, q)); m.pop_back();
        int &s = spf[d + e][pindex(m, q)];
        if (s < 0) s = (int)irr.size() - 1;
      }
    }
  }
  Fac factor(Poly a) const { // monic
    Fac f;
    while (a.size() > 1) {
      Poly low(a.begin(), a.end() - 1);
      int s = spf[a.size() - 1][pindex(low, q)];
      Poly p = s < 0 ? a : irr[s];
      addf(f, p); a = ref::pdiv(*R, a, p);
    }
    return f;
  }
};
static __int128 totient(const Fac &f, ll q) {
  __int128 t = 1;
  for (auto &e : f) { int d = (int)e.first.first - 1; __int128 u = 1; for (int i = 0; i < d; i++) u *= q; t *= u - 1; for (int i = 1; i < e.second; i++) t *= u; if (t > ((__int128)1 << 100)) return t; }
  return t;
}
static bool roots_of(const F2 &, const f2_poly_t &, tvector<f2_polymod_t> &) { return false; }

template <class F> void roots(const F &, const typename F::P &, const Fac &, const Poly &) {}
static void roots(const G2N &f, const f2n_poly_t &x, const Fac &want, const Poly &a) {
  std::vector<ll> w, g;
  if (f.R->q <= 64) { for (ll v = 0; v < f.R->q; v++) if (ref::peval(*f.R, a, v) == 0) w.push_back(v); }
  else { for (auto &e : want) if (e.first.first == 2) w.push_back(f.R->neg(e.first.second[0])); std::sort(w.begin(), w.end()); }
  tvector<f2_polymod_t> r;
  bool got = f2n_poly_roots(x, r);
  MC_EQ(got, !w.empty());
  if (!got || w.empty()) return;
  for (int i = 0; i < r.get_num_elements(); i++) g.push_back(f.idx(r[i]));
  std::sort(g.begin(), g.end());
  MC_EQ(g, w);
}

template <class F> void check(const F &f, const Poly &a, const Fac &want) {
  const ref::Ring &R = *f.R;
  auto x = f.poly(a);
  int tw = 0; for (auto &e : want) tw += e.second;
  tfacinfo<typename F::P> fi = f.factor(x);
  { Poly g; MC_CHECK(f.rdp(x, g) && g == a, "factoring changes its argument"); }
  Fac got; Poly prod = {1}, u; int total = 0;
  int nd = fi.get_num_distinct();
  MC_CHECK(nd >= 0 && nd < 1000, "number of distinct factors " << nd);
  for (int i = 0; i < nd; i++) {
    Poly p; if (!f.rdp(fi.get_ith_factor(i), p)) { mc::fail("a factor is not a canonical polynomial"); return; }
    int c = fi.get_ith_count(i);
    if (c < 1 || c > 100000) { mc::fail(mc::fmt("multiplicity %d", c)); return; }
    if (p.size() < 2) { mc::fail("a factor is constant: " + show(p)); return; }
    total += c;
    for (int k = 0; k < c && (int)prod.size() <= (int)a.size(); k++) prod = ref::pmul(R, prod, p);
    Poly m = ref::pmonic(R, p);
    if (got.count({m.size(), m})) mc::fail("factor " + show(m) + " is listed twice");
    addf(got, m, c);
  }
  typename F::P lu;
  if (fi.get_unit(lu)) { if (!f.rdp(lu, u) || u.size() != 1) mc::fail("the unit is not a non-zero constant"); prod = ref::pmul(R, prod, u); }
  if (prod != a) mc::fail("factors multiply to " + show(prod) + ", not to " + show(a));
  MC_EQ(fi.get_num_factors(), total);
  if (got != want) {
    std::string s, t;
    for (auto &e : got) s += show(e.first.second) + "^" + std::to_string(e.second) + " ";
    for (auto &e : want) t += show(e.first.second) + "^" + std::to_string(e.second) + " ";
    mc::fail("factorization of " + show(a) + " is " + s + ", expected " + t);
  }
  { Poly g; MC_CHECK(f.rdp(fi.unfactor(f.one()), g) && g == a, "unfactor does not give the polynomial back"); }
  MC_EQ(f.irr(x), tw == 1);
  __int128 t = totient(want, f.R->q);
  if (t <= 2147483647) MC_EQ(f.tot(x), (int)t);
  roots(f, x, want, a);
}
// Every polynomial of degree <= D; every leader up to degree L, then monic.
template <class F> void all(const F &f, int D, int L) {
  ll q = f.R->q;
  Sieve *S = nullptr;
  for (int d = 0; d <= D; d++) for (ll l = 1; l < (d <= L ? q : 2); l++) {
    ll N = ipow(q, d), step = std::max(1LL, std::min(N, (ll)(d > 6 ? 128 : 64)));
    for (ll b = 0; b < N; b += step) mc::unit(f.name + mc::fmt(": degree %d, leader %lld, from %lld", d, l, b), [&] {
      if (!S) S = new Sieve(f.R, D);
      for (ll k = b; k < std::min(N, b + step); k++) mc::run("polynomial", {k}, [&] {
        mc::count_states();
        Poly m = Sieve::monic(k, d, q);
        check(f, ref::pscale(*f.R, m, l), S->factor(m));
      });
    });
  }
  delete S;
}
// Products of chosen irreducibles with every exponent vector up to the bounds.
template <class F> void products(const F &f, int D, const std::vector<int> &which, int emax, int maxdeg, ll lead, int mindeg = 0) {
  Sieve S(f.R, D);
  std::vector<Poly> ps; for (int w : which) if (w < 0 ? (int)S.irr.size() + w >= 0 : w < (int)S.irr.size()) ps.push_back(S.irr[w < 0 ? (int)S.irr.size() + w : w]);
  ll n = ipow(emax + 1, (ll)ps.size());
  for (ll v = 1; v < n; v++) {
    std::vector<ll> e = pdigits(v, emax + 1); e.resize(ps.size(), 0);
    int d = 0; for (size_t i = 0; i < ps.size(); i++) d += (int)e[i] * ((int)ps[i].size() - 1);
    if (d > maxdeg || d < mindeg) continue;
    std::string nm = f.name + ": product"; for (size_t i = 0; i < ps.size(); i++) if (e[i]) nm += " " + show(ps[i]) + "^" + std::to_string(e[i]);
    mc::unit(nm + mc::fmt(" times %lld", lead), [&] {
      mc::count_states();
      mc::run("factor", {}, [&] {
        Poly a = {lead}; Fac w;
        for (size_t i = 0; i < ps.size(); i++) if (e[i]) { a = ref::pmul(*f.R, a, ref::ppow(*f.R, ps[i], e[i])); addf(w, ps[i], (int)e[i]); }
        check(f, a, w);
      });
    });
  }
}
#ifdef MC_PROP_B02
MC_PROP(B02) {
  bool t = mc::thorough, as = mc::asan;
  F2 f;
  all(f, as ? 7 : t ? 17 : 14, 0);
  products(f, 6, {0, 1, 2, 3, 5}, as ? 2 : t ? 5 : 3, 60, 1);           // x, x+1, quadratics, ...
  products(f, 6, {0, 1, 2}, as ? 5 : t ? 16 : 9, 80, 1);
  products(f, 7, {-1, -2, -3, 0, 1}, as ? 1 : 3, 70, 1);
  products(f, 8, {-1, -5, 1, 2}, as ? 2 : 4, 132, 1, 30);     // across word boundaries
}
#endif
#ifdef MC_PROP_B03
MC_PROP(B03) {
  bool t = mc::thorough, as = mc::asan;
  GP p2(2), p3(3), p5(5), p7(7), p11(11), p13(13);
  all(p2, as ? 5 : t ? 13 : 10, 0);
  all(p3, as ? 3 : t ? 8 : 7, as ? 2 : t ? 7 : 5);
  all(p5, as ? 2 : t ? 6 : 5, as ? 1 : t ? 4 : 3);
  all(p7, as ? 1 : t ? 5 : 4, as ? 1 : t ? 3 : 2);
  if (!as) { all(p11, t ? 3 : 2, 2); all(p13, t ? 3 : 2, t ? 2 : 1); }
  if (!as) { all(GP(101), 2, 0); }
  products(p2, 4, {0, 1, 2, 3, 5}, as ? 1 : 2, 40, 1);
  products(p3, 3, {0, 1, 2, 3, 6}, as ? 1 : t ? 3 : 2, 40, 2);
  products(p3, 3, {0, 2, 4}, as ? 3 : t ? 10 : 7, 40, 1);
  products(p5, 2, {0, 3, 5, 7}, as ? 1 : 3, 30, 3);
  products(p5, 2, {1, 6}, as ? 5 : 11, 30, 1);
  products(p7, 2, {0, 6, 8}, as ? 2 : t ? 8 : 4, 30, 5);
  if (!as) { products(GP(101), 1, {0, 1, 50, 99, 100}, 2, 8, 77); products(GP(251), 1, {0, 100, 250}, 3, 9, 250); products(GP(1009), 1, {0, 500, 1008}, 1, 9, 1008); products(GP(46349), 1, {0, 46340, 46348}, 2, 4, 46348); if (t) products(GP(65537), 1, {0, 1, 65536}, 2, 5, 65536); }
}
#endif
#ifdef MC_PROP_B04
MC_PROP(B04) {
  bool t = mc::thorough, as = mc::asan;
  G2N q2(0x2), q4(0x7), q8(0xb), q8b(0xd), q16(0x13), q16b(0x1f), q32(0x25), q64(0x43), q256(0x11b);
  all(q2, as ? 4 : t ? 10 : 8, 0);
  all(q4, as ? 2 : t ? 6 : 5, as ? 1 : t ? 4 : 3);
  all(q8, as ? 1 : 3, as ? 1 : t ? 3 : 2);
  if (!as) { all(q8b, 2, 1); all(q16, t ? 3 : 2, 1); all(q16b, 2, 0); all(q32, 2, 0); if (t) all(q64, 2, 0); }
  products(q2, 4, {0, 1, 2, 3, 5}, as ? 1 : 2, 30, 1);
  products(q4, 2, {0, 1, 3, 4, 6}, as ? 1 : t ? 3 : 2, 30, 2);
  products(q4, 2, {0, 2, 5}, as ? 3 : t ? 8 : 5, 30, 3);
  products(q8, 2, {0, 4, 9}, as ? 2 : 4, 30, 5);
  if (!as) { products(q16, 2, {0, 15, 20}, 3, 30, 9); products(q64, 1, {0, 1, 62, 63}, 2, 8, 40); products(q256, 1, {0, 77, 255}, 2, 8, 200); }
}
#endif
