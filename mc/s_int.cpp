// A01 modular integers, A02 rationals, A03 integer number theory, B01 integer
// factorization.
#include "mc.h"
#include "spffl/base/spffl_exception.h"
#include "spffl/bits/count_bits.h"
#include "spffl/factorization/int_factor.h"
#include "spffl/intmath/int_gcd.h"
#include "spffl/intmath/int_power.h"
#include "spffl/intmath/int_sqrt.h"
#include "spffl/intmath/int_totient.h"
#include "spffl/intmath/intmod_t.h"
#include "spffl/intmath/intrat_t.h"
#include "spffl/intmath/is_prime.h"
#include "spffl/intmath/log10.h"
#include "spffl/intmath/log2.h"
#include "spffl/intmath/primes_16.h"
#include <algorithm>
#include <climits>
#include <numeric>
#include <set>

using namespace spffl::intmath;
using mc::fmt;
typedef long long ll;
typedef __int128 xl;
static ll md(xl a, ll m) { ll r = (ll)(a % m); return r < 0 ? r + m : r; }
static ll rgcd(ll a, ll b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { ll t = a % b; a = b; b = t; } return a; }
static ll rpow(ll b, ll e, ll m) { // b^e mod m, e >= 0, by repeated squaring on 128-bit
  xl r = 1 % m, x = md(b, m);
  while (e) { if (e & 1) r = r * x % m; x = x * x % m; e >>= 1; }
  return (ll)r;
}
static ll rinv(ll a, ll m) { // -1 if none
  ll r0 = m, r1 = md(a, m), t0 = 0, t1 = 1;
  while (r1) { ll q = r0 / r1, t = r0 - q * r1; r0 = r1; r1 = t; t = t0 - q * t1; t0 = t1; t1 = t; }
  return r0 == 1 ? md(t0, m) : -1;
}
static std::vector<ll> uniq(std::vector<ll> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }

// ---------------------------------------------------------------- A01
#ifdef MC_PROP_A01
static void same(const intmod_t &x, ll r, ll m, const char *what) {
  if (x.get_residue() != r || x.get_modulus() != m)
    mc::fail(fmt("%s gives %d mod %d, expected %lld mod %lld", what, x.get_residue(), x.get_modulus(), r, m));
}
static void pair_ops(ll a, ll b, ll m) {
  intmod_t x((int)a, (int)m), y((int)b, (int)m), z;
  same(x + y, md((xl)a + b, m), m, "a+b");
  same(x - y, md((xl)a - b, m), m, "a-b");
  same(x * y, md((xl)a * b, m), m, "a*b");
  z = x; z += y; same(z, md((xl)a + b, m), m, "a+=b");
  z = x; z -= y; same(z, md((xl)a - b, m), m, "a-=b");
  z = x; z *= y; same(z, md((xl)a * b, m), m, "a*=b");
  MC_EQ(x == y, a == b);
  MC_EQ(x != y, a != b);
  MC_EQ(x < y, a < b);
  MC_EQ(x <= y, a <= b);
  MC_EQ(x > y, a > b);
  MC_EQ(x >= y, a >= b);
  same(x, a, m, "left operand afterwards");
  same(y, b, m, "right operand afterwards");
}
static void div_ops(ll a, ll b, ll m) {
  intmod_t x((int)a, (int)m), y((int)b, (int)m), z;
  ll bi = rinv(b, m);
  if (bi < 0) {
    MC_THROWS(x / y);
    MC_THROWS(x % y);
    z = x; MC_THROWS(z /= y); same(z, a, m, "left operand after failed /=");
    z = x; MC_THROWS(z %= y);
  } else {
    same(x / y, md((xl)a * bi, m), m, "a/b");
    same(x % y, 0, m, "a%b");
    z = x; z /= y; same(z, md((xl)a * bi, m), m, "a/=b");
    z = x; z %= y; same(z, 0, m, "a%=b");
  }
}
static void recip_op(ll a, ll m) {
  intmod_t x((int)a, (int)m), r(1, 2);
  ll ai = rinv(a, m);
  bool ok = x.recip(r);
  MC_EQ(ok, ai >= 0);
  if (ok) { same(r, ai, m, "recip"); MC_EQ((r * x).get_residue(), 1); }
  else same(r, 1, 2, "output argument after failed recip");
  same(x, a, m, "operand after recip");
}
static void exp_op(ll a, ll e, ll m) {
  intmod_t x((int)a, (int)m);
  if (a == 0 && e <= 0) { MC_THROWS(x.exp((int)e)); return; }
  if (e >= 0) { same(x.exp((int)e), rpow(a, e, m), m, "a^e"); return; }
  ll ai = rinv(a, m);
  if (ai < 0) MC_THROWS(x.exp((int)e));
  else same(x.exp((int)e), rpow(ai, -e, m), m, "a^e");
}

MC_PROP(A01) {
  const std::vector<ll> EXT = {INT_MIN, INT_MIN + 1, INT_MIN + 2, -65537, -46341, -1000, -7, -2, -1, 0, 1, 2, 7, 1000, 46340, 46341, 65536, 1 << 30, INT_MAX - 1, INT_MAX};
  // (1) small moduli, complete.
  int M = mc::thorough ? 96 : 40;
  for (int m = 2; m <= M; m++)
    mc::unit(fmt("small m=%d", m), [&] {
      mc::count_states(m);
      for (ll v = -3 * m; v <= 3 * m; v++)
        mc::run("ctor", {v, m}, [&] { same(intmod_t((int)v, m), md(v, m), m, "ctor"); same(intmod_t(1, m).prime_subfield_element((int)v), md(v, m), m, "prime_subfield_element"); });
      for (ll a = 0; a < m; a++) {
        mc::run("neg", {a, m}, [&] { same(-intmod_t((int)a, m), md(-a, m), m, "-a"); intmod_t c(intmod_t((int)a, m)); same(c, a, m, "copy"); });
        for (ll b = 0; b < m; b++) {
          mc::run("pair", {a, b, m}, [&] { pair_ops(a, b, m); });
          mc::run("div", {a, b, m}, [&] { div_ops(a, b, m); });
        }
        for (ll v : EXT) mc::run("int", {a, v, m}, [&] {
          intmod_t x((int)a, m);
          same(x + (int)v, md((xl)a + v, m), m, "a+int");
          same(x - (int)v, md((xl)a - v, m), m, "a-int");
          same(x * (int)v, md((xl)a * v, m), m, "a*int");
        });
        for (ll v = -2 * m - 1; v <= 2 * m + 1; v++) mc::run("int", {a, v, m}, [&] {
          intmod_t x((int)a, m);
          same(x + (int)v, md((xl)a + v, m), m, "a+int");
          same(x - (int)v, md((xl)a - v, m), m, "a-int");
          same(x * (int)v, md((xl)a * v, m), m, "a*int");
        });
        for (ll e = -2 * m - 2; e <= 2 * m + 2; e++) mc::run("exp", {a, e, m}, [&] { exp_op(a, e, m); });
        for (ll e : {(ll)INT_MAX, (ll)INT_MAX - 1, (ll)1 << 30, (ll)65535, (ll)-65536, (ll)-INT_MAX}) mc::run("exp", {a, e, m}, [&] { exp_op(a, e, m); });
      }
      for (ll v : EXT) mc::run("ctor", {v, m}, [&] { same(intmod_t((int)v, m), md(v, m), m, "ctor"); });
    });
  // (2) reciprocals: every residue of every modulus in a longer range.
  int R = mc::thorough ? 700 : 220;
  for (int m = 41; m <= R; m++)
    mc::unit(fmt("recip m=%d", m), [&] { mc::count_states(m); for (int a = 0; a < m; a++) mc::run("recip", {a, m}, [&] { recip_op(a, m); }); });
  // (3) histories of reciprocal queries over alternating moduli (the cache).
  {
    std::vector<std::pair<int, int>> L;
    for (int m : {2, 3, 4, 5, 6, 8, 9, 12}) for (int a : {0, 1, m - 1, 2, 3}) if (a < m) L.push_back({a, m});
    L = std::vector<std::pair<int, int>>(L.begin(), L.end());
    std::sort(L.begin(), L.end()); L.erase(std::unique(L.begin(), L.end()), L.end());
    int n = L.size();
    for (int i = 0; i < n; i++)
      mc::unit(fmt("recip-history first=%d/%d", L[i].first, L[i].second), [&] {
        for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) {
          mc::run("hist", {i, j, k}, [&] {
            for (int t : {i, j, k}) recip_op(L[t].first, L[t].second);
          });
          mc::count_states(1);
        }
      });
  }
  // (4) large moduli: complete products of boundary residues.
  std::vector<ll> BM = {46337, 46339, 46340, 46341, 46349, 65521, 65535, 65536, 65537, 92681, 92682, 92683, 131071, 1000003, (1 << 29) + 11, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, (1 << 30) + 3, 1073741827, 1500000001, INT_MAX - 18, INT_MAX - 1, INT_MAX};
  for (ll m : BM)
    mc::unit(fmt("large m=%lld", m), [&] {
      std::vector<ll> A;
      for (ll c : {(ll)0, m / 2, m / 3, m, (ll)46341, (ll)65536, (ll)32768, (ll)1 << 30, m - 46341, m - 65536, (ll)INT_MAX - m})
        for (ll d = -2; d <= 2; d++) A.push_back(c + d);
      std::vector<ll> B; for (ll a : A) if (a >= 0 && a < m) B.push_back(a);
      B = uniq(B);
      mc::count_states(B.size());
      for (ll a : B) {
        mc::run("neg", {a, m}, [&] { same(-intmod_t((int)a, (int)m), md(-a, m), m, "-a"); });
        for (ll b : B) mc::run("pair", {a, b, m}, [&] { pair_ops(a, b, m); });
        for (ll v : EXT) mc::run("int", {a, v, m}, [&] {
          intmod_t x((int)a, (int)m);
          same(x + (int)v, md((xl)a + v, m), m, "a+int");
          same(x - (int)v, md((xl)a - v, m), m, "a-int");
          same(x * (int)v, md((xl)a * v, m), m, "a*int");
        });
        for (ll e : {1, 2, 3, 4, 5, 7, 16, 31, 255, 65537, INT_MAX - 1, INT_MAX}) mc::run("exp", {a, e, m}, [&] { exp_op(a, e, m); });
        mc::run("exp", {a, m - 1, m}, [&] { exp_op(a, m - 1, m); });
        if (m <= 131071) {
          if (a % 3 == 0 || a < 4 || a > m - 4) mc::run("recip", {a, m}, [&] { recip_op(a, m); });
          mc::run("exp", {a, -3, m}, [&] { exp_op(a, -3, m); });
          mc::run("div", {m - 1, a, m}, [&] { div_ops(m - 1, a, m); });
        }
      }
      for (ll v : EXT) mc::run("ctor", {v, m}, [&] { same(intmod_t((int)v, (int)m), md(v, m), m, "ctor"); });
    });
  // (5) errors: mixed or missing moduli, bad moduli.
  mc::unit("errors", [&] {
    for (int m = 2; m <= 12; m++) for (int n = 2; n <= 12; n++) if (m != n)
      for (int a = 0; a < m; a++) for (int b = 0; b < n; b++) mc::run("mixed", {a, m, b, n}, [&] {
        intmod_t x(a, m), y(b, n), z;
        MC_THROWS(x + y); MC_THROWS(x - y); MC_THROWS(x * y); MC_THROWS(x / y); MC_THROWS(x % y);
        MC_THROWS(x < y); MC_THROWS(x <= y); MC_THROWS(x > y); MC_THROWS(x >= y);
        z = x; MC_THROWS(z += y); same(z, a, m, "left operand after failed +=");
        z = x; MC_THROWS(z -= y); z = x; MC_THROWS(z *= y); z = x; MC_THROWS(z /= y); same(z, a, m, "left operand after failed /=");
        MC_EQ(x == y, false); MC_EQ(x != y, true);
      });
    for (int m = 2; m <= 12; m++) for (int a = 0; a < m; a++) mc::run("unset", {a, m}, [&] {
      intmod_t x(a, m), u, r;
      MC_THROWS(x + u); MC_THROWS(u + x); MC_THROWS(x * u); MC_THROWS(u * x); MC_THROWS(u - x); MC_THROWS(x - u); MC_THROWS(x / u); MC_THROWS(u / x);
      MC_THROWS(-u); MC_THROWS(u + 1); MC_THROWS(u - 1); MC_THROWS(u * 1); MC_THROWS(u.exp(2)); MC_THROWS(u.recip(r)); MC_THROWS(u == x); MC_THROWS(x == u);
    });
    for (int m : {0, -1, -2, -7, INT_MIN, INT_MIN + 1}) for (int a : {-1, 0, 1, 5}) mc::run("bad-modulus", {a, m}, [&] { MC_THROWS(intmod_t(a, m)); });
  });
}
#endif

// ---------------------------------------------------------------- A02
#ifdef MC_PROP_A02
struct Q { ll n, d; };
static bool reduce(xl n, xl d, Q &q) { // false when not representable
  if (d < 0) { n = -n; d = -d; }
  xl a = n < 0 ? -n : n, b = d;
  while (b) { xl t = a % b; a = b; b = t; }
  n /= a; d /= a;
  if (n > INT_MAX || n < -(xl)INT_MAX || d > INT_MAX) return false;
  q = {(ll)n, (ll)d};
  return true;
}
static void sameq(const intrat_t &x, Q q, const char *what) {
  if (x.get_numerator() != q.n || x.get_denominator() != q.d)
    mc::fail(fmt("%s gives %d/%d, expected %lld/%lld", what, x.get_numerator(), x.get_denominator(), q.n, q.d));
}
static void pairq(Q a, Q b) {
  intrat_t x((int)a.n, (int)a.d), y((int)b.n, (int)b.d), z;
  Q r;
  if (reduce((xl)a.n * b.d + (xl)b.n * a.d, (xl)a.d * b.d, r)) { sameq(x + y, r, "a+b"); z = x; z += y; sameq(z, r, "a+=b"); }
  if (reduce((xl)a.n * b.d - (xl)b.n * a.d, (xl)a.d * b.d, r)) { sameq(x - y, r, "a-b"); z = x; z -= y; sameq(z, r, "a-=b"); }
  if (reduce((xl)a.n * b.n, (xl)a.d * b.d, r)) { sameq(x * y, r, "a*b"); z = x; z *= y; sameq(z, r, "a*=b"); }
  if (b.n == 0) { MC_THROWS(x / y); MC_THROWS(x % y); z = x; MC_THROWS(z /= y); }
  else {
    if (reduce((xl)a.n * b.d, (xl)a.d * b.n, r)) { sameq(x / y, r, "a/b"); z = x; z /= y; sameq(z, r, "a/=b"); }
    sameq(x % y, {0, 1}, "a%b");
  }
  xl l = (xl)a.n * b.d, h = (xl)b.n * a.d;
  MC_EQ(x == y, l == h); MC_EQ(x != y, l != h); MC_EQ(x < y, l < h); MC_EQ(x <= y, l <= h); MC_EQ(x > y, l > h); MC_EQ(x >= y, l >= h);
  Q ra, rb; reduce(a.n, a.d, ra); reduce(b.n, b.d, rb);
  sameq(x, ra, "left operand afterwards"); sameq(y, rb, "right operand afterwards");
}
MC_PROP(A02) {
  int N = mc::thorough ? 24 : 12;
  std::vector<Q> all;
  for (int n = -N; n <= N; n++) for (int d = 1; d <= N; d++) if (rgcd(n, d) == 1) all.push_back({n, d});
  for (auto &a : all) mc::unit(fmt("small %lld/%lld", a.n, a.d), [&] {
    mc::count_states();
    for (auto &b : all) mc::run("pair", {a.n, a.d, b.n, b.d}, [&] { pairq(a, b); });
    for (int k = -4; k <= 4; k++) mc::run("ctor", {a.n, a.d, k}, [&] {
      if (k == 0) { MC_THROWS(intrat_t((int)a.n, 0)); }
      else {
        intrat_t x((int)a.n * k, (int)a.d * k); sameq(x, a, "ctor");
        intrat_t y(x), z; z = x; sameq(y, a, "copy"); sameq(z, a, "assign");
        sameq(-x, {-a.n, a.d}, "-a");
        if (a.d == 1) { intrat_t w((int)a.n), v(3, 7); v = (int)a.n; sameq(w, a, "ctor(int)"); sameq(v, a, "=int"); MC_EQ(w == x, true); }
        for (int i = -N; i <= N; i++) { MC_EQ(x == i, a.d == 1 && a.n == i); MC_EQ(x != i, !(a.d == 1 && a.n == i)); }
      }
    });
    for (int e = -9; e <= 9; e++) mc::run("exp", {a.n, a.d, e}, [&] {
      intrat_t x((int)a.n, (int)a.d);
      if (a.n == 0 && e <= 0) { MC_THROWS(x.exp(e)); return; }
      xl n = 1, d = 1; bool rep = true;
      for (int i = 0; i < std::abs(e); i++) { n *= e > 0 ? a.n : a.d; d *= e > 0 ? a.d : a.n; Q t; if (!reduce(n, d, t)) { rep = false; break; } }
      Q r;
      if (rep && reduce(n, d, r)) sameq(x.exp(e), r, "a^e");
    });
  });
  // Values near the representation limits: the result is representable though
  // intermediate products are not.
  std::vector<ll> B = {1, 2, 3, 5, 46339, 46340, 46341, 65535, 65536, 65537, 1000000, 1 << 30, (1 << 30) + 1, INT_MAX - 2, INT_MAX - 1, INT_MAX};
  std::vector<Q> big;
  std::set<std::pair<ll, ll>> seen;
  for (ll n : B) for (ll d : B) for (int s : {1, -1}) { Q r; if (reduce(s * n, d, r) && seen.insert({r.n, r.d}).second) big.push_back(r); }
  big.push_back({0, 1});
  for (auto &a : big) mc::unit(fmt("large %lld/%lld", a.n, a.d), [&] {
    mc::count_states();
    for (auto &b : big) mc::run("pair", {a.n, a.d, b.n, b.d}, [&] { pairq(a, b); });
    mc::run("neg", {a.n, a.d}, [&] { intrat_t x((int)a.n, (int)a.d); sameq(-x, {-a.n, a.d}, "-a"); intrat_t y((int)-a.n, (int)-a.d); sameq(y, a, "ctor with negative denominator"); });
    for (int e : {-3, -2, -1, 0, 1, 2, 3}) mc::run("exp", {a.n, a.d, e}, [&] {
      intrat_t x((int)a.n, (int)a.d);
      if (a.n == 0 && e <= 0) { MC_THROWS(x.exp(e)); return; }
      xl n = 1, d = 1; bool rep = true; Q r{1, 1};
      for (int i = 0; i < std::abs(e) && rep; i++) { n *= e > 0 ? a.n : a.d; d *= e > 0 ? a.d : a.n; rep = reduce(n, d, r); }
      if (rep) sameq(x.exp(e), r, "a^e");
    });
  });
}
#endif

// ---------------------------------------------------------------- A03
#ifdef MC_PROP_A03
static void gcds(ll a, ll b) {
  ll g = rgcd(a, b);
  MC_EQ((ll)int_gcd((int)a, (int)b), g);
  MC_EQ((ll)gcd((int)a, (int)b), g);
  int m = 12345, n = 54321;
  ll d = int_ext_gcd((int)a, (int)b, m, n);
  MC_EQ(d < 0 ? -d : d, g);
  MC_CHECK((xl)m * a + (xl)n * b == (xl)d, "ext_gcd: " << m << "*" << a << " + " << n << "*" << b << " is not the returned " << d);
  xl l = g ? (xl)a / g * b : 0; if (l < 0) l = -l;
  if (l <= INT_MAX) MC_EQ((ll)int_lcm((int)a, (int)b), (ll)l);
}
MC_PROP(A03) {
  int N = mc::thorough ? 700 : 200;
  for (int a = -N; a <= N; a++) mc::unit(fmt("gcd a=%d", a), [&] { mc::count_states(2 * N + 1); for (int b = -N; b <= N; b++) mc::run("gcd", {a, b}, [&] { gcds(a, b); }); });
  std::vector<ll> B;
  for (ll c : {(ll)0, (ll)46341, (ll)65536, (ll)1 << 30, (ll)INT_MAX - 2, (ll)1836311903 /*Fibonacci*/, (ll)1134903170, (ll)2147483629, (ll)6700417, (ll)2 * 3 * 5 * 7 * 11 * 13 * 17 * 19 * 23})
    for (ll d = -2; d <= 2; d++) { B.push_back(c + d); B.push_back(-c - d); }
  B = uniq(B);
  for (ll a : B) mc::unit(fmt("gcd-large a=%lld", a), [&] { mc::count_states(B.size()); for (ll b : B) if (a >= -INT_MAX && b >= -INT_MAX && a <= INT_MAX && b <= INT_MAX) mc::run("gcd", {a, b}, [&] { gcds(a, b); }); });

  int T = mc::thorough ? 20000 : 3000;
  for (int lo = 1; lo <= T; lo += 100) mc::unit(fmt("totient %d..", lo), [&] {
    for (int n = lo + (lo == 1); n < lo + 100; n++) { mc::count_states(); mc::run("totient", {n}, [&] {
      int phi = n, k = n; for (int p = 2; p * p <= k; p++) if (k % p == 0) { while (k % p == 0) k /= p; phi = phi / p * (p - 1); } if (k > 1) phi = phi / k * (k - 1);
      MC_EQ(int_totient(n), phi); }); }
  });
  mc::unit("power", [&] {
    std::vector<ll> bs; for (int b = -1300; b <= 1300; b++) bs.push_back(b);
    for (ll b : {46340, 46341, 65535, 65536, INT_MAX, -46340, -INT_MAX}) bs.push_back(b);
    for (ll b : bs) { xl v = 1; for (int e = 0; e <= 31; e++) { if (v > INT_MAX || v < INT_MIN) break; mc::count_states(); mc::run("power", {b, e}, [&] { MC_EQ((ll)int_power((int)b, e), (ll)v); }); v *= b; if (b == 0 && e > 3) break; } }
  });
  // Square roots: complete small range, and every n within 1 of a square.
  int S = mc::thorough ? 1 << 23 : 1 << 18;
  auto sq = [](ll n) {
    ll r = 0; { ll lo = 0, hi = 46341; while (lo < hi) { ll c = (lo + hi + 1) / 2; if (c * c <= n) lo = c; else hi = c - 1; } r = lo; }
    MC_EQ((ll)int_sqrt_floor((int)n), r);
    MC_EQ((ll)int_sqrt_ceil((int)n), r * r == n ? r : r + 1);
  };
  for (int c = 0; c < 16; c++) mc::unit(fmt("sqrt small chunk %d", c), [&] { for (int n = S / 16 * c; n < S / 16 * (c + 1); n++) { mc::count_states(); mc::run("sqrt", {n}, [&] { sq(n); }); } });
  for (int c = 0; c < 8; c++) mc::unit(fmt("sqrt near squares chunk %d", c), [&] { for (ll k = c * 5793; k <= 46340 && k < (c + 1) * 5793; k++) for (ll n = k * k - 1; n <= k * k + 1; n++) if (n >= 0 && n <= INT_MAX) { mc::count_states(); mc::run("sqrt", {n}, [&] { sq(n); }); } });
  mc::unit("sqrt limits", [&] { for (ll n = INT_MAX - 1000; n <= INT_MAX; n++) mc::run("sqrt", {n}, [&] { sq(n); });
    for (ll n : {-1LL, -2LL, -4LL, (ll)INT_MIN}) mc::run("sqrt-negative", {n}, [&] { MC_THROWS(int_sqrt_floor((int)n)); MC_THROWS(int_sqrt_ceil((int)n)); }); });
  // Logarithms and bit positions.
  auto lg = [](uint64_t n) {
    unsigned f = 0; while (f < 63 && (n >> (f + 1))) f++;
    unsigned l = 0; while (!((n >> l) & 1)) l++;
    unsigned c = (n & (n - 1)) ? f + 1 : f;
    MC_EQ(find_msb_64(n), f); MC_EQ(find_lsb_64(n), l);
    MC_EQ(calc_log2_unsigned_ll_floor(n), (uint64_t)f); MC_EQ(calc_log2_unsigned_ll_ceil(n), (uint64_t)c);
    if (n <= UINT_MAX) {
      MC_EQ(find_msb_32((unsigned)n), f); MC_EQ(find_lsb_32((unsigned)n), l);
      MC_EQ(calc_log2_unsigned_floor((unsigned)n), f); MC_EQ(calc_log2_unsigned_ceil((unsigned)n), c);
      unsigned t = 0; for (uint64_t q = n; q >= 10; q /= 10) t++;
      MC_EQ(calc_log10_unsigned_floor((unsigned)n), t);
    }
    if (n <= 0xffff) MC_EQ(find_msb_16((unsigned short)n), f);
  };
  for (int c = 0; c < 8; c++) mc::unit(fmt("log small chunk %d", c), [&] { for (uint64_t n = c * 16384; n < (c + 1) * 16384ull; n++) if (n) { mc::count_states(); mc::run("log", {(ll)n}, [&] { lg(n); }); } });
  for (int i = 0; i < 64; i++) mc::unit(fmt("log bits top=%d", i), [&] {
    for (int j = 0; j <= i; j++) for (int k = 0; k <= j; k++) for (int d = -1; d <= 1; d++) { uint64_t n = (1ull << i) | (1ull << j) | (1ull << k); n += d; if (n) { mc::count_states(); mc::run("log", {(ll)n}, [&] { lg(n); }); } }
  });
  mc::unit("log10 limits", [&] { uint64_t p = 1; for (int i = 0; i < 10; i++, p *= 10) for (int m = 1; m <= 9; m++) for (int d = -2; d <= 2; d++) { uint64_t n = p * m + d; if (n && n <= UINT_MAX) mc::run("log", {(ll)n}, [&] { lg(n); }); } });
  mc::unit("count bits", [&] {
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { mc::count_states(); mc::run("bits", {a, b}, [&] {
      unsigned char s[11]; int want = 0;
      for (int i = 0; i < 11; i++) s[i] = (i % 3 == 0) ? a : (i % 3 == 1) ? b : (a ^ b);
      for (int n = 0; n <= 11; n++) { if (n) want += __builtin_popcount(s[n - 1]); MC_EQ(spffl::bits::count_one_bits(s, n), want); } }); }
  });
  // Primes.
  static std::vector<char> comp; const int SV = mc::thorough ? 4000000 : 400000;
  comp.assign(SV + 1, 0); for (ll p = 2; p * p <= SV; p++) if (!comp[p]) for (ll q = p * p; q <= SV; q += p) comp[q] = 1;
  for (int c = 0; c < 16; c++) mc::unit(fmt("prime chunk %d", c), [&] { for (int n = SV / 16 * c; n < SV / 16 * (c + 1); n++) { mc::count_states(); mc::run("prime", {n}, [&] { MC_EQ(is_prime(n), n >= 2 && !comp[n]); if (n) MC_EQ(is_prime(-n), n >= 2 && !comp[n]); }); } });
  static std::vector<int> pr; pr.clear(); for (int i = 2; i <= 65536; i++) if (!comp[i]) pr.push_back(i);
  auto isp = [](ll n) { for (int p : pr) { if ((ll)p * p > n) break; if (n % p == 0) return n == p; } return n > 1; };
  mc::unit("prime squares", [&] { for (size_t i = 0; i < pr.size(); i++) for (size_t j = i; j < pr.size() && j < i + 3; j++) { ll n = (ll)pr[i] * pr[j]; if (n > INT_MAX) break; mc::count_states(); mc::run("prime", {n}, [&] { MC_EQ(is_prime((int)n), false); }); } });
  for (int c = 0; c < 8; c++) mc::unit(fmt("prime limits %d", c), [&] { for (ll n = INT_MAX - 300 * (c + 1) + 1; n <= INT_MAX - 300 * c; n++) { mc::count_states(); mc::run("prime", {n}, [&] { MC_EQ(is_prime((int)n), isp(n)); }); } });
  mc::unit("nth prime", [&] { mc::run("count", {(ll)pr.size()}, [&] { MC_EQ((size_t)numprimes16, pr.size()); });
    for (size_t i = 0; i < pr.size(); i++) { mc::count_states(); mc::run("nth", {(ll)i + 1}, [&] { MC_EQ(nth_prime((int)i + 1), pr[i]); }); }
    for (ll n : {0LL, -1LL, -5LL, (ll)INT_MIN, (ll)pr.size() + 1, (ll)pr.size() + 2, (ll)INT_MAX}) mc::run("nth-range", {n}, [&] { MC_THROWS(nth_prime((int)n)); }); });
}
#endif

// ---------------------------------------------------------------- B01
#ifdef MC_PROP_B01
static void fac(ll n) {
  tfacinfo<int> f = spffl::factorization::int_factor((int)n);
  std::vector<std::pair<ll, int>> want;
  ll k = n < 0 ? -n : n;
  if (k > 1) { for (ll p = 2; p * p <= k; p++) { int c = 0; while (k % p == 0) { k /= p; c++; } if (c) want.push_back({p, c}); } if (k > 1) want.push_back({k, 1}); }
  MC_EQ(f.get_num_distinct(), (int)want.size());
  if (f.get_num_distinct() != (int)want.size()) return;
  int tot = 0, nd = 1; ll prod = 1;
  for (size_t i = 0; i < want.size(); i++) { MC_EQ((ll)f.get_ith_factor(i), want[i].first); MC_EQ(f.get_ith_count(i), want[i].second); tot += want[i].second; nd *= want[i].second + 1; }
  MC_EQ(f.get_num_factors(), tot);
  int u = 77; bool hu = f.get_unit(u);
  (void)prod;
  MC_EQ(f.unfactor(1), (int)n);
  if (n >= -1 && n <= 1) { MC_CHECK(hu && u == n, "unit of " << n); }
  else if (n < 0) MC_CHECK(hu && u == -1, "unit of a negative number is " << (hu ? u : 0));
  else if (hu) MC_EQ(u, 1);
  for (int bad : {-1, (int)want.size(), (int)want.size() + 5}) { MC_THROWS(f.get_ith_factor(bad)); MC_THROWS(f.get_ith_count(bad)); }
  if (n == 0) return;
  ll an = n < 0 ? -n : n;
  if (want.empty() && !hu) return;
  std::vector<ll> ds; for (ll d = 1; d * d <= an; d++) if (an % d == 0) { ds.push_back(d); if (d * d != an) ds.push_back(an / d); }
  std::sort(ds.begin(), ds.end());
  MC_EQ(f.get_num_divisors(), (int)ds.size());
  if (ds.size() <= 400) {
    std::vector<ll> ks; for (int i = 0; i < f.get_num_divisors(); i++) ks.push_back(f.get_kth_divisor(i, 1));
    std::sort(ks.begin(), ks.end()); MC_EQ(ks, ds);
    tvector<int> v = f.get_all_divisors(1); std::vector<ll> vs; for (int i = 0; i < v.get_num_elements(); i++) vs.push_back(v[i]);
    MC_EQ(vs, ds);
  }
  if (n > 0) {
    tvector<int> mpd; bool has = f.get_maximal_proper_divisors(mpd, 1);
    std::vector<ll> wm; for (auto &pc : want) wm.push_back(an / pc.first); std::sort(wm.begin(), wm.end());
    MC_EQ(has, !want.empty());
    if (has) { std::vector<ll> vs; for (int i = 0; i < mpd.get_num_elements(); i++) vs.push_back(mpd[i]); MC_EQ(vs, wm); }
  }
  // Powers of the factorization.
  for (int e = 0; e <= 3; e++) { tfacinfo<int> g(f); g.exp_all(e); for (size_t i = 0; i < want.size(); i++) { MC_EQ(g.get_ith_count(i), want[i].second * e); MC_EQ((ll)g.get_ith_factor(i), want[i].first); }
    xl v = 1; bool ok = true; for (int i = 0; i < e; i++) { v *= n; if (v > INT_MAX || v < -(xl)INT_MAX) { ok = false; break; } } if (ok) MC_EQ((ll)g.unfactor(1), (ll)v); }
}
MC_PROP(B01) {
  int N = mc::thorough ? 20000 : 3000, step = 50;
  for (int lo = -N; lo < N; lo += step) mc::unit(fmt("factor %d..", lo), [&] { for (int n = lo; n < lo + step; n++) { mc::count_states(); mc::run("factor", {n}, [&] { fac(n); }); } });
  std::vector<ll> L;
  for (ll p : {2, 3, 5, 7, 11, 13, 46337, 46327, 65521, 65519}) { ll v = 1; while (v * p <= INT_MAX) { v *= p; L.push_back(v); L.push_back(-v); for (ll q : {2, 3, 6, 30, 65521, 32749, 65537}) if (v * q <= INT_MAX) { L.push_back(v * q); L.push_back(-v * q); } } }
  for (ll d = 0; d < 40; d++) { L.push_back(INT_MAX - d); L.push_back(-INT_MAX + d); L.push_back(65536 * 32767LL + d); L.push_back(65521LL * 32771 - d); }
  for (ll n : {2147483629LL, 1073741789LL, 1073741827LL, 2147117569LL /*46337^2*/, 223092870LL, 735134400LL, 1396755360LL, 2095133040LL}) L.push_back(n);
  L = uniq(L);
  for (size_t i = 0; i < L.size(); i += 4) mc::unit(fmt("factor family %zu", i), [&] { for (size_t j = i; j < i + 4 && j < L.size(); j++) { mc::count_states(); mc::run("factor", {L[j]}, [&] { fac(L[j]); }); } });
}
#endif
