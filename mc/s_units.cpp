// B05-B08: searches for irreducible and primitive polynomials, orders and
// generators, discrete logarithms, element lists.
#include "fields.h"
#include "spffl/bitrand/psdes.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/containers/tvector.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/list/list_elements.h"
#include "spffl/units/f2_polymod_units.h"
#include "spffl/units/f2n_polymod_units.h"
#include "spffl/units/fp_units.h"
#include <set>
using namespace fld;
using namespace spffl::factorization;
using namespace spffl::units;
using namespace spffl::list;
using ref::ipow;
using ref::pdigits;
using ref::pindex;

static Poly topped(ll low, int d, ll q, ll lead = 1) { Poly a = pdigits(low, q); a.resize(d + 1, 0); a[d] = lead; return a; }
// Order of a in a finite ring by repeated multiplication; 0 for a non-unit.
static ll order(const Ring &R, ll a) {
  ll x = a;
  for (ll e = 1; e <= R.q; e++) { if (x == 1 % R.q) return e; x = R.mul(x, a); }
  return 0;
}
static std::vector<bool> units_of(const Ring &R) {
  std::vector<bool> u(R.q, false);
  for (ll a = 0; a < R.q; a++) u[a] = order(R, a) != 0;
  return u;
}
static RingP f2ext(uint64_t m) { return RingP(new ref::Ext(RingP(new ref::Zn(2)), pdigits((ll)m, 2))); }
static uint64_t bits(const f2_poly_t &x, bool &ok) {
  int d = x.find_degree(); ok = d >= 0 && d < 63; if (!ok) return 0;
  return (uint64_t)pindex(of_f2p(x), 2);
}

#ifdef MC_PROP_B05
// Powers of x modulo m over F2, on 64-bit masks.
static ll xorder(uint64_t m) {
  int d = 63 - __builtin_clzll(m);
  if (!(m & 1) || d < 1) return 0;
  uint64_t r = 1; if (d == 0) return 1;
  for (ll e = 1;; e++) { r <<= 1; if (r >> d & 1) r ^= m; if (r == 1) return e; if (e > (1LL << (d + 1))) return 0; }
}
static ll f2phi(uint64_t m) { // by counting units
  int d = 63 - __builtin_clzll(m); ll n = 0;
  for (uint64_t r = 1; r < (1ull << d); r++) { uint64_t a = m, b = r; while (b) { while (a && 63 - __builtin_clzll(a) >= 63 - __builtin_clzll(b)) a ^= b << ((63 - __builtin_clzll(a)) - (63 - __builtin_clzll(b))); std::swap(a, b); } n += a == 1; }
  return n;
}
static bool f2irr(uint64_t m) {
  int d = 63 - __builtin_clzll(m);
  if (d < 1) return false;
  for (uint64_t b = 2; 2 * (63 - __builtin_clzll(b)) <= d; b++) {
    uint64_t a = m; int db = 63 - __builtin_clzll(b);
    while (a && 63 - __builtin_clzll(a) >= db) a ^= b << (63 - __builtin_clzll(a) - db);
    if (!a) return false;
  }
  return true;
}
template <class F, class G> void find_irr(const F &f, int D, G &&search) {
  for (int d = 1; d <= D; d++) mc::unit(f.name + mc::fmt(": first irreducible of degree %d", d), [&] {
    mc::run("search", {d}, [&] {
      mc::count_states();
      Poly want;
      for (ll k = 0; k < ipow(f.R->q, d) && want.empty(); k++) { Poly a = topped(k, d, f.R->q); if (a[0] && ref::pirr(*f.R, a)) want = a; }
      chk(f, search(d), want, "the search");
    });
  });
}
template <class F, class G> void rand_irr(const F &f, int D, int seeds, G &&search) {
  for (int d = 1; d <= D; d++) mc::unit(f.name + mc::fmt(": random irreducibles of degree %d", d), [&] {
    for (int s = 0; s < seeds; s++) mc::run("seed", {s}, [&] {
      mc::count_states();
      spffl::bitrand::sran32(s);
      auto x = search(d);
      Poly a;
      if (!rd(f, x, a)) { mc::fail("not a canonical polynomial"); return; }
      if ((int)a.size() != d + 1 || a[d] != 1 || !ref::pirr(*f.R, a)) mc::fail("random irreducible search of degree " + std::to_string(d) + " gives " + show(a));
    });
  });
}
MC_PROP(B05) {
  bool t = mc::thorough, as = mc::asan;
  // F2
  for (int d = 1; d <= (as ? 12 : t ? 34 : 28); d++) mc::unit(mc::fmt("F2: first irreducible of degree %d", d), [&] {
    mc::run("search", {d}, [&] {
      mc::count_states();
      uint64_t w = (1ull << d) | 1; while (!f2irr(w)) w++;
      bool ok; uint64_t g = bits(f2_poly_find_irreducible(d), ok);
      MC_CHECK(ok, "not a polynomial of small degree"); if (ok) MC_EQ(g, w);
    });
  });
  for (int need = 0; need < 2; need++) for (int d = 1; d <= (as ? 8 : t ? 18 : 14); d++) mc::unit(mc::fmt("F2: first primitive of degree %d, need_irr %d", d, need), [&] {
    mc::run("search", {d, need}, [&] {
      mc::count_states();
      uint64_t w = (1ull << d) | 1; while (xorder(w) != f2phi(w) || (need && !f2irr(w))) w++;
      bool ok; uint64_t g = bits(f2_poly_find_prim(d, need), ok);
      MC_CHECK(ok, "not a polynomial of small degree"); if (ok) MC_EQ(g, w);
    });
  });
  for (int need = 0; need < 2; need++) for (int d = 1; d <= (as ? 5 : 10); d++) mc::unit(mc::fmt("F2: random primitives of degree %d, need_irr %d", d, need), [&] {
    for (int s = 0; s < (as ? 6 : t ? 200 : 40); s++) mc::run("seed", {s}, [&] {
      mc::count_states();
      spffl::bitrand::sran32(s);
      bool ok; uint64_t g = bits(f2_poly_random_prim(d, need), ok);
      if (!ok || (int)(63 - __builtin_clzll(g | 1)) != d || xorder(g) != f2phi(g) || (need && !f2irr(g))) mc::fail(mc::fmt("random primitive search gives %llx", (unsigned long long)g));
    });
  });
  for (int d = 1; d <= (as ? 10 : 20); d++) mc::unit(mc::fmt("F2: random irreducibles of degree %d", d), [&] {
    for (int s = 0; s < (as ? 6 : t ? 200 : 40); s++) mc::run("seed", {s}, [&] {
      mc::count_states();
      spffl::bitrand::sran32(s);
      bool ok; uint64_t g = bits(f2_poly_random_irreducible(d), ok);
      if (!ok || 63 - __builtin_clzll(g | 1) != d || !f2irr(g)) mc::fail(mc::fmt("random irreducible search gives %llx", (unsigned long long)g));
    });
  });
  for (int d = 1; d <= (as ? 6 : t ? 13 : 11); d++) for (uint64_t b = 1ull << d; b < (2ull << d); b += 64) mc::unit(mc::fmt("F2: period and primitivity, degree %d, from %llx", d, (unsigned long long)b), [&] {
    for (uint64_t m = b; m < std::min<uint64_t>(b + 64, 2ull << d); m++) mc::run("polynomial", {(ll)m}, [&] {
      mc::count_states();
      ll o = xorder(m);
      MC_EQ(f2_poly_period(f2p(m)), (int)o);
      MC_EQ(f2_poly_is_primitive(f2p(m)), o != 0 && o == f2phi(m));
    });
  });
  if (!as) for (int d = 14; d <= (t ? 24 : 20); d++) mc::unit(mc::fmt("F2: period and primitivity, degree %d", d), [&] {
    // Sparse moduli of larger degree: x^d + (any quadratic part) + 1.
    for (uint64_t k = 1; k < 64; k += 2) { uint64_t m = (1ull << d) | k; mc::run("polynomial", {(ll)m}, [&] {
      mc::count_states();
      ll o = xorder(m);
      MC_EQ(f2_poly_period(f2p(m)), (int)o);
      if (f2irr(m)) MC_EQ(f2_poly_is_primitive(f2p(m)), o == (1ll << d) - 1);
    }); }
  });
  mc::unit("degree below one", [&] {
    for (int d = -2; d <= 0; d++) mc::run("degree", {d}, [&] {
      MC_THROWS(f2_poly_find_irreducible(d)); MC_THROWS(f2_poly_random_irreducible(d)); MC_THROWS(f2_poly_find_prim(d, 0)); MC_THROWS(f2_poly_random_prim(d, 1));
      MC_THROWS(fp_poly_find_irr(5, d)); MC_THROWS(fp_poly_random_irr(5, d)); MC_THROWS(f2n_poly_find_irr(f2p(7), d)); MC_THROWS(f2n_poly_random_irr(f2p(7), d));
    });
  });
  // Fp
  struct { int p, d, dt, da; } ps[] = {{2, 9, 12, 4}, {3, 6, 8, 3}, {5, 5, 6, 2}, {7, 4, 5, 2}, {11, 3, 4, 2}, {13, 3, 4, 1}, {101, 2, 2, 1}};
  for (auto &e : ps) {
    FP f(e.p);
    find_irr(f, as ? e.da : t ? e.dt : e.d, [&](int d) { return fp_poly_find_irr(e.p, d); });
    rand_irr(f, as ? std::min(2, e.da) : e.d, as ? 3 : t ? 40 : 10, [&](int d) { return fp_poly_random_irr(e.p, d); });
  }
  struct { uint64_t m; int d, dt, da; } fs[] = {{2, 7, 8, 3}, {7, 5, 6, 2}, {0xb, 3, 4, 2}, {0xd, 3, 4, 1}, {0x13, 3, 3, 1}, {0x25, 2, 3, 1}, {0x11b, 2, 2, 1}};
  for (auto &e : fs) {
    F2N f(e.m);
    find_irr(f, as ? e.da : t ? e.dt : e.d, [&](int d) { return f2n_poly_find_irr(f.M, d); });
    rand_irr(f, as ? std::min(2, e.da) : std::min(e.d, 4), as ? 3 : t ? 40 : 10, [&](int d) { return f2n_poly_random_irr(f.M, d); });
  }
}
#endif

#ifdef MC_PROP_B06
MC_PROP(B06) {
  bool t = mc::thorough, as = mc::asan;
  for (int b = 2; b < (as ? 40 : t ? 600 : 260); b += 4) mc::unit(mc::fmt("integers: moduli from %d", b), [&] {
    for (int m = b; m < b + 4; m++) {
      ref::Zn R(m); ll phi = 0, best = 0; std::vector<ll> os(m);
      for (ll a = 0; a < m; a++) { os[a] = order(R, a); phi += os[a] != 0; best = std::max(best, os[a]); }
      for (int a = 0; a < m; a++) mc::run("order", {a, m}, [&] {
        mc::count_states();
        if (os[a]) MC_EQ(fp_order(intmod_t(a, m)), (int)os[a]); else MC_THROWS(fp_order(intmod_t(a, m)));
      });
      mc::run("generator", {m}, [&] {
        intmod_t g; bool got = fp_find_generator(m, g);
        MC_EQ(got, best == phi);
        if (got) { MC_EQ(g.get_modulus(), m); MC_CHECK(g.get_residue() >= 0 && g.get_residue() < m && os[g.get_residue()] == phi, "generator " << g << " mod " << m << " does not generate"); }
      });
    }
  });
  int big[] = {997, 1009, 4093, 4096, 5040, 6561, 10007, 13122, 65537};
  for (int m : big) if (!as) mc::unit(mc::fmt("integers: modulus %d", m), [&] {
    ref::Zn R(m); ll phi = 0; for (ll a = 0; a < m; a++) phi += ref::igcd(a, m) == 1;
    for (int i = 0; i < 24; i++) { int a = i < 12 ? i : m - (i - 11); mc::run("order", {a, m}, [&] {
      mc::count_states();
      ll o = ref::igcd(a, m) == 1 ? order(R, a) : 0;
      if (o) MC_EQ(fp_order(intmod_t(a, m)), (int)o); else MC_THROWS(fp_order(intmod_t(a, m)));
    }); }
    mc::run("generator", {m}, [&] {
      bool cyclic = m != 4096 && m != 5040;
      intmod_t g; bool got = fp_find_generator(m, g);
      MC_EQ(got, cyclic);
      if (got && cyclic) MC_EQ(order(R, g.get_residue()), phi);
    });
  });
  // Moduli whose least generators are large: records, and a whole range of them.
  std::vector<int> rec = {409, 2161, 5881, 36721, 55441, 71761, 110881}; if (t) rec.push_back(760321); for (int b = 260; b < (t ? 2000 : 700); b++) rec.push_back(b);
  if (!as) for (size_t b = 0; b < rec.size(); b += b < 8 ? 1 : 16) mc::unit(mc::fmt("generators modulo %d..", rec[b]), [&] {
    for (size_t k = b; k < rec.size() && k < b + (b < 8 ? 1 : 16); k++) { int m = rec[k]; mc::run("generator", {m}, [&] {
      mc::count_states(); ref::Zn R(m); int n = m & 1 ? m : m / 2, pr = 0; for (int q = 3; q <= n && !pr; q += 2) if (n % q == 0) pr = q;
      while (pr && n % pr == 0) n /= pr;
      bool cyclic = m == 4 || (n == 1 && pr); ll phi = 0; for (ll a = 0; a < m; a++) phi += ref::igcd(a, m) == 1;
      intmod_t g; bool got = fp_find_generator(m, g); MC_EQ(got, cyclic);
      if (got && cyclic) { MC_EQ(g.get_modulus(), m); MC_EQ(order(R, g.get_residue()), phi); }
    }); }
  });
  for (uint64_t m = 2; m < (as ? 32u : t ? 512u : 256u); m++) mc::unit(mc::fmt("F2[x]/%llx", (unsigned long long)m), [&] {
    RingP R = f2ext(m); f2_poly_t M = f2p(m); ll phi = 0, best = 0; std::vector<ll> os(R->q);
    for (ll a = 0; a < R->q; a++) { os[a] = order(*R, a); phi += os[a] != 0; best = std::max(best, os[a]); }
    for (ll a = 0; a < R->q; a++) mc::run("order", {a}, [&] {
      mc::count_states();
      f2_polymod_t x(f2p((uint64_t)a), M);
      if (os[a]) MC_EQ(f2_polymod_order(x), (int)os[a]); else MC_THROWS(f2_polymod_order(x));
    });
    mc::run("generator", {}, [&] {
      f2_polymod_t g; bool got = f2_polymod_find_generator(M, g);
      MC_EQ(got, best == phi);
      if (got) { bool ok; uint64_t v = bits(g.get_residue(), ok); MC_CHECK(g.get_modulus() == M && ok && (ll)v < R->q && os[v] == phi, "generator " << g << " does not generate"); }
    });
  });
  mc::unit("constant moduli", [&] {
    mc::run("F2", {}, [&] { f2_polymod_t g; MC_THROWS(f2_polymod_find_generator(f2p(1ull), g)); });
    mc::run("F4", {}, [&] { f2n_polymod_t g; MC_THROWS(f2n_polymod_find_generator(f2n_poly_t(f2_polymod_t(f2p(1ull), f2p(7ull))), g)); });
  });
  struct { uint64_t im; int d, dt, da; } fs[] = {{2, 5, 6, 3}, {7, 3, 3, 1}, {0xb, 2, 2, 1}, {0x13, 1, 2, 0}};
  for (auto &e : fs) { F2N f(e.im); ll q = f.R->q;
    for (int d = 1; d <= (as ? e.da : t ? e.dt : e.d); d++) for (ll l = 1; l < (d == 1 ? q : std::min<ll>(q, 3)); l++) for (ll b = 0; b < ipow(q, d); b += 2)
      mc::unit(f.name + mc::fmt(": degree %d, leader %lld, from %lld", d, l, b), [&] {
        for (ll k = b; k < std::min(b + 2, ipow(q, d)); k++) {
          Poly mm = topped(k, d, q, l);
          ref::Ext R(f.R, mm); f2n_poly_t M = mk(f, mm); ll phi = 0, best = 0; std::vector<ll> os(R.q);
          for (ll a = 0; a < R.q; a++) { os[a] = order(R, a); phi += os[a] != 0; best = std::max(best, os[a]); }
          ll step = R.q > 64 ? 5 : 1;
          for (ll a = 0; a < R.q; a += step) mc::run("order", {k, a}, [&] {
            mc::count_states();
            f2n_polymod_t x(mk(f, pdigits(a, q)), M);
            if (os[a]) MC_EQ(f2n_polymod_order(x), (int)os[a]); else MC_THROWS(f2n_polymod_order(x));
          });
          mc::run("generator", {k}, [&] {
            f2n_polymod_t g; bool got = f2n_polymod_find_generator(M, g);
            MC_EQ(got, best == phi);
            if (got) { Poly r; MC_CHECK(rd(f, g.get_residue(), r) && pindex(r, q) < R.q && os[pindex(r, q)] == phi, "generator " << g << " does not generate"); }
          });
        }
      });
  }
}
#endif

#ifdef MC_PROP_B07
// All pairs (base of any order, target): the logarithm is right when it exists,
// and its absence is reported.
template <class E, class L> void logs(const Ring &R, const std::string &name, int step, E &&elt, L &&lg) {
  std::vector<ll> os(R.q); for (ll a = 0; a < R.q; a++) os[a] = order(R, a);
  for (ll gb = 0; gb < R.q; gb += step) mc::unit(name + mc::fmt(": bases from %lld", gb), [&] {
    for (ll g = gb; g < std::min<ll>(gb + step, R.q); g++) {
      std::vector<bool> pow(R.q, false); if (os[g]) { ll x = 1 % R.q; for (ll e = 0; e < os[g]; e++) { pow[x] = true; x = R.mul(x, g); } }
      for (ll a = 0; a < R.q; a++) mc::run("log", {g, a}, [&] {
        mc::count_states();
        if (!pow[a]) { MC_THROWS(lg(elt(g), elt(a))); return; }
        int e = lg(elt(g), elt(a));
        MC_CHECK(e >= 0 && e < R.q - 1 + (R.q == 1), "exponent " << e << " is outside the group of order " << R.q - 1);
        if (e >= 0) MC_EQ(R.pow(g, e), a);
      });
    }
  });
}
MC_PROP(B07) {
  bool t = mc::thorough, as = mc::asan;
  int ps[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151};
  for (int p : ps) if (p <= (as ? 13 : t ? 151 : 67)) logs(ref::Zn(p), mc::fmt("F%d", p), p > 40 ? 2 : 8, [&](ll a) { return intmod_t((int)a, p); }, [](const intmod_t &g, const intmod_t &a) { return fp_log(g, a); });
  for (uint64_t m : {0x2ull, 0x3ull, 0x7ull, 0xbull, 0xdull, 0x13ull, 0x19ull, 0x1full, 0x25ull, 0x37ull, 0x43ull, 0x49ull, 0x83ull}) {
    if (m >= (as ? 0x14 : t ? 0x100 : 0x45)) continue;
    f2_poly_t M = f2p(m); RingP R = f2ext(m);
    logs(*R, mc::fmt("F2[x]/%llx", (unsigned long long)m), 2, [&](ll a) { return f2_polymod_t(f2p((uint64_t)a), M); }, [](const f2_polymod_t &g, const f2_polymod_t &a) { return f2_polymod_log(g, a); });
  }
  struct { uint64_t im; std::vector<ll> om; int lvl; } fs[] = {{2, {1, 1}, 0}, {2, {1, 1, 1}, 0}, {2, {1, 1, 0, 1}, 0}, {7, {1, 1}, 0}, {7, {2, 1, 1}, 0}, {7, {2, 0, 0, 1}, 1}, {0xb, {1, 1, 1}, 1}, {0xb, {3, 1}, 0}, {0x13, {5, 1}, 1}, {0x13, {8, 1, 1}, 2}};
  for (auto &e : fs) {
    if (e.lvl > (as ? 0 : t ? 2 : 1)) continue;
    F2N f(e.im); Poly om = e.om;
    if (om.size() > 2 && !ref::pirr(*f.R, om)) { for (ll k = 0;; k++) { om = topped(k, (int)e.om.size() - 1, f.R->q); if (om[0] && ref::pirr(*f.R, om)) break; } }
    ref::Ext R(f.R, om); f2n_poly_t M = mk(f, om);
    logs(R, f.name + "[x]/" + show(om), 1, [&](ll a) { return f2n_polymod_t(mk(f, pdigits(a, f.R->q)), M); }, [](const f2n_polymod_t &g, const f2n_polymod_t &a) { return f2n_polymod_log(g, a); });
  }
  // Larger fields: every power of a generator in a window.
  if (!as) {
    for (int p : {251, 257, 1009, 4099, 65537, 999983}) mc::unit(mc::fmt("F%d: powers", p), [&] {
      ref::Zn R(p); intmod_t g; if (!fp_find_generator(p, g)) { mc::fail("no generator"); return; }
      for (int i = 0; i < 40; i++) { int e = i < 20 ? i : p - 1 - (i - 19); mc::run("log", {e}, [&] { mc::count_states(); MC_EQ(fp_log(g, intmod_t((int)R.pow(g.get_residue(), e), p)), e); }); }
    });
    for (uint64_t m : {0x11bull, 0x409ull, 0x1002dull, 0x100009ull, 0x20000029ull, 0x40000053ull}) {
      int d = 63 - __builtin_clzll(m);
      if (!t && d > 16) continue;
      mc::unit(mc::fmt("F2[x]/%llx: powers", (unsigned long long)m), [&] {
        RingP R = f2ext(m); f2_poly_t M = f2p(m); f2_polymod_t g(f2p(m == 0x11b ? 3ull : 2ull), M);
        ll gi = m == 0x11b ? 3 : 2;
        ll N = (1ll << d) - 1;
        for (int i = 0; i < (d > 20 ? 2 : d > 12 ? 6 : 30); i++) { ll e = i % 2 ? N - 1 - i / 2 : i / 2 * 3; mc::run("log", {e}, [&] {
          mc::count_states();
          int l = f2_polymod_log(g, f2_polymod_t(f2p((uint64_t)R->pow(gi, e)), M));
          MC_CHECK(l >= 0 && l < N, "exponent " << l); if (l >= 0) MC_EQ(R->pow(gi, l), R->pow(gi, e));
        }); }
      });
    }
  }
}
#endif

#ifdef MC_PROP_B08
template <class V, class I> void same(const V &v, const std::vector<ll> &want, I &&idx, const char *what) {
  std::vector<ll> g; int n = v.get_num_elements();
  if (n != (int)want.size()) { mc::fail(mc::fmt("%s has %d elements, expected %d", what, n, (int)want.size())); return; }
  for (int i = 0; i < n; i++) g.push_back(idx(v[i]));
  if (g != want) mc::fail(std::string(what) + " is " + mc::str(g).substr(0, 300) + ", expected " + mc::str(want).substr(0, 300));
}
static std::vector<ll> pick(const std::vector<bool> &u, int which) { std::vector<ll> r; for (size_t i = 0; i < u.size(); i++) if (which == 2 || u[i] == (which == 0)) r.push_back((ll)i); return r; }
template <class T, class E, class M> void spaces(const Ring &R, const std::string &name, int nmax, E &&An, M &&Pn, T &&idx) {
  ll q = R.q;
  for (int n = 1; n <= nmax; n++) mc::unit(name + mc::fmt(": affine and projective %d-space", n), [&] {
    mc::run("affine", {n}, [&] {
      mc::count_states(ipow(q, n));
      auto a = An(n);
      if (a.get_num_rows() != ipow(q, n) || a.get_num_cols() != n) { mc::fail("affine list has the wrong shape"); return; }
      for (ll i = 0; i < ipow(q, n); i++) for (int j = 0; j < n; j++) { ll w = i / ipow(q, n - 1 - j) % q; if (idx(a[i][j]) != w) { mc::fail(mc::fmt("affine point %lld, coordinate %d is %lld, expected %lld", i, j, idx(a[i][j]), w)); return; } }
    });
    mc::run("projective", {n}, [&] {
      ll N = 0; for (int k = 0; k <= n; k++) N += ipow(q, k);
      mc::count_states(N);
      auto a = Pn(n);
      if (a.get_num_rows() != N || a.get_num_cols() != n + 1) { mc::fail("projective list has the wrong shape"); return; }
      // Exactly one representative of each class: normalise and compare sets.
      std::set<std::vector<ll>> seen;
      for (ll i = 0; i < N; i++) {
        std::vector<ll> v; for (int j = 0; j <= n; j++) v.push_back(idx(a[i][j]));
        for (ll c : v) if (c < 0) { mc::fail("a coordinate is not in the field"); return; }
        int k = n; while (k >= 0 && v[k] == 0) k--;
        if (k < 0) { mc::fail("the zero vector is listed"); return; }
        ll iv = R.inv(v[k]); for (auto &c : v) c = R.mul(c, iv);
        if (!seen.insert(v).second) { mc::fail(mc::fmt("point %lld repeats a class", i)); return; }
      }
    });
  });
}
MC_PROP(B08) {
  bool t = mc::thorough, as = mc::asan;
  for (int d = 0; d <= (as ? 6 : t ? 14 : 10); d++) mc::unit(mc::fmt("F2 polynomials of degree %d", d), [&] { mc::run("list", {d}, [&] {
    mc::count_states(1ull << d);
    std::vector<ll> w; for (ll k = 1ll << d; k < 2ll << d; k++) w.push_back(k);
    same(f2_poly_list(d), w, [](const f2_poly_t &x) { return pindex(of_f2p(x), 2); }, "list");
  }); });
  for (int p : {2, 3, 5, 7, 11}) for (int d = 0; ipow(p, d) * (p - 1) <= (as ? 100 : t ? 20000 : 3000); d++) mc::unit(mc::fmt("F%d polynomials of degree %d", p, d), [&] { mc::run("list", {d}, [&] {
    FP f(p); std::vector<ll> w; for (ll k = ipow(p, d); k < ipow(p, d + 1); k++) w.push_back(k);
    mc::count_states(w.size());
    same(fp_poly_list(p, d), w, [&](const fp_poly_t &x) { Poly a; return rd(f, x, a) ? pindex(a, p) : -1; }, "list");
  }); });
  for (uint64_t m : {0x2ull, 0x7ull, 0xbull, 0x13ull}) { F2N f(m); ll q = f.R->q; for (int d = 0; ipow(q, d) * (q - 1) <= (as ? 100 : t ? 20000 : 3000); d++) mc::unit(f.name + mc::fmt(": polynomials of degree %d", d), [&] { mc::run("list", {d}, [&] {
    std::vector<ll> w; for (ll k = ipow(q, d); k < ipow(q, d + 1); k++) w.push_back(k);
    mc::count_states(w.size());
    same(f2n_poly_list(f.M, d), w, [&](const f2n_poly_t &x) { Poly a; return rd(f, x, a) ? pindex(a, q) : -1; }, "list");
  }); }); }
  sp_list_type_t ty[] = {SP_LIST_UNITS, SP_LIST_NON_UNITS, SP_LIST_ALL}; const char *tn[] = {"units", "non-units", "all"};
  for (int b = 2; b < (as ? 40 : t ? 1000 : 400); b += 10) mc::unit(mc::fmt("integers: moduli from %d", b), [&] {
    for (int m = b; m < b + 10; m++) {
      std::vector<bool> u(m); for (int a = 0; a < m; a++) u[a] = ref::igcd(a, m) == 1;
      auto ix = [&](const intmod_t &x) { return x.get_modulus() == m ? (ll)x.get_residue() : -1; };
      for (int w = 0; w < 3; w++) mc::run(tn[w], {m}, [&] { mc::count_states(m); same(intmod_list(m, ty[w]), pick(u, w), ix, tn[w]); });
      for (int g = 0; g < m; g += m > 60 ? 7 : 1) mc::run("multiples and relatively prime", {m, g}, [&] {
        ll d = ref::igcd(m, g); std::vector<ll> mu, rp; for (ll r = 0; r < m; r++) { if (r % d == 0) mu.push_back(r); if (ref::igcd(r, d) == 1) rp.push_back(r); }
        mc::count_states();
        same(intmod_glist(intmod_t(g, m), SP_LIST_MULTIPLES), mu, ix, "multiples");
        same(intmod_glist(intmod_t(g, m), SP_LIST_REL_PRIME), rp, ix, "relatively prime");
      });
    }
  });
  for (uint64_t m = 2; m < (as ? 32u : t ? 512u : 128u); m++) mc::unit(mc::fmt("F2[x]/%llx", (unsigned long long)m), [&] {
    RingP R = f2ext(m); ref::Zn F(2); Poly mp = pdigits((ll)m, 2); f2_poly_t M = f2p(m);
    std::vector<bool> u(R->q); for (ll a = 0; a < R->q; a++) u[a] = ref::pgcd(F, pdigits(a, 2), mp).size() == 1;
    auto ix = [&](const f2_polymod_t &x) { return x.get_modulus() == M ? pindex(of_f2p(x.get_residue()), 2) : -1; };
    for (int w = 0; w < 3; w++) mc::run(tn[w], {}, [&] { mc::count_states(R->q); same(f2_polymod_list(M, ty[w]), pick(u, w), ix, tn[w]); });
    for (ll g = 0; g < R->q; g += R->q > 32 ? 5 : 1) mc::run("multiples and relatively prime", {g}, [&] {
      Poly d = ref::pgcd(F, pdigits(g, 2), mp); std::vector<ll> mu, rp;
      for (ll r = 0; r < R->q; r++) { if (ref::pmod(F, pdigits(r, 2), d).empty()) mu.push_back(r); if (ref::pgcd(F, pdigits(r, 2), d).size() == 1) rp.push_back(r); }
      mc::count_states();
      f2_polymod_t G(f2p((uint64_t)g), M);
      same(f2_polymod_glist(G, SP_LIST_MULTIPLES), mu, ix, "multiples");
      same(f2_polymod_glist(G, SP_LIST_REL_PRIME), rp, ix, "relatively prime");
    });
  });
  struct { int p, d, dt; } ps[] = {{2, 6, 7}, {3, 4, 5}, {5, 3, 3}, {7, 2, 3}};
  for (auto &e : ps) { FP f(e.p); ll q = e.p; for (int d = 1; d <= (as ? 2 : t ? e.dt : e.d); d++) for (ll l = 1; l < std::min<ll>(q, 3); l++) for (ll k0 = 0; k0 < ipow(q, d); k0 += 4) mc::unit(f.name + mc::fmt(": residues, degree %d, leader %lld, from %lld", d, l, k0), [&] {
    for (ll k = k0; k < std::min(k0 + 4, ipow(q, d)); k++) {
      Poly mp = topped(k, d, q, l); fp_poly_t M = mk(f, mp); ll N = ipow(q, d);
      std::vector<bool> u(N); for (ll a = 0; a < N; a++) u[a] = ref::pgcd(*f.R, pdigits(a, q), mp).size() == 1;
      auto ix = [&](const fp_polymod_t &x) { Poly a; return x.get_modulus() == M && rd(f, x.get_residue(), a) ? pindex(a, q) : -1; };
      for (int w = 0; w < 3; w++) mc::run(tn[w], {k}, [&] { mc::count_states(N); same(fp_polymod_list(M, ty[w]), pick(u, w), ix, tn[w]); });
    }
  }); }
  struct { uint64_t m; int d, dt; } gs[] = {{2, 4, 5}, {7, 2, 3}, {0xb, 1, 2}};
  for (auto &e : gs) { F2N f(e.m); ll q = f.R->q; for (int d = 1; d <= (as ? 1 : t ? e.dt : e.d); d++) for (ll l = 1; l < std::min<ll>(q, 3); l++) for (ll k0 = 0; k0 < ipow(q, d); k0 += 4) mc::unit(f.name + mc::fmt(": residues, degree %d, leader %lld, from %lld", d, l, k0), [&] {
    for (ll k = k0; k < std::min(k0 + 4, ipow(q, d)); k++) {
      Poly mp = topped(k, d, q, l); f2n_poly_t M = mk(f, mp); ll N = ipow(q, d);
      std::vector<bool> u(N); for (ll a = 0; a < N; a++) u[a] = ref::pgcd(*f.R, pdigits(a, q), mp).size() == 1;
      auto ix = [&](const f2n_polymod_t &x) { Poly a; return x.get_modulus() == M && rd(f, x.get_residue(), a) ? pindex(a, q) : -1; };
      for (int w = 0; w < 3; w++) mc::run(tn[w], {k}, [&] { mc::count_states(N); same(f2n_polymod_list(M, ty[w]), pick(u, w), ix, tn[w]); });
    }
  }); }
  for (uint64_t m : {0x2ull, 0x7ull, 0xbull}) { f2_poly_t M = f2p(m); RingP R = f2ext(m);
    spaces(*R, mc::fmt("F2[x]/%llx", (unsigned long long)m), m == 2 ? (as ? 3 : 7) : m == 7 ? (as ? 2 : 4) : as ? 1 : 3, [&](int n) { return f2_polymod_An_list(M, n); }, [&](int n) { return f2_polymod_Pn_list(M, n); },
      [&](const f2_polymod_t &x) { return x.get_modulus() == M ? pindex(of_f2p(x.get_residue()), 2) : -1; }); }
  struct { int p; Poly m; int n; } ss[] = {{3, {0, 1}, 4}, {3, {1, 0, 1}, 3}, {5, {2, 1}, 3}, {5, {2, 0, 1}, 2}, {2, {1, 1, 1}, 3}};
  for (auto &e : ss) { FPN f(e.p, e.m);
    spaces(*f.R, f.name, as ? 1 : e.n, [&](int n) { return fp_polymod_An_list(f.M, n); }, [&](int n) { return fp_polymod_Pn_list(f.M, n); }, [&](const fp_polymod_t &x) { return f.idx(x); }); }
}
#endif
