// R01: the psdes generator against an independent model; R02: random elements.
#include "fields.h"
#include "spffl/bitrand/psdes.h"
#include "spffl/random/f2_poly_random.h"
#include "spffl/random/f2_polymod_random.h"
#include "spffl/random/f2n_poly_random.h"
#include "spffl/random/f2n_polymod_random.h"
#include "spffl/random/fp_poly_random.h"
#include "spffl/random/fp_polymod_random.h"
#include "spffl/random/int_random.h"
#include "spffl/random/intmod_random.h"
#include <cmath>
#include <set>
using namespace fld;
using namespace spffl::bitrand;
using namespace spffl::random;

#ifdef MC_PROP_R01
// The published function: four Feistel rounds on 16-bit halves.
static const uint32_t C1[4] = {0xbaa96887u, 0x1e17d32cu, 0x03bcdc3cu, 0x0f33d1b2u}, C2[4] = {0x4b0f3b58u, 0xe874f0c3u, 0x6955c5a6u, 0x55a7ca46u};
static uint32_t rnd(uint32_t r, int i) {
  uint64_t v = r ^ C1[i], lo = v & 0xffff, hi = v >> 16;
  uint32_t s = (uint32_t)(lo * lo + (0xffffffffull - hi * hi % 0x100000000ull));
  s = (s << 16) | (s >> 16);
  return (s ^ C2[i]) + (uint32_t)(lo * hi);
}
static uint64_t hash(uint64_t x) {
  uint32_t l = (uint32_t)(x >> 32), r = (uint32_t)x;
  for (int i = 0; i < 4; i++) { uint32_t n = l ^ rnd(r, i); l = r; r = n; }
  return (uint64_t)l << 32 | r;
}
static uint64_t unhash(uint64_t x) {
  uint32_t l = (uint32_t)(x >> 32), r = (uint32_t)x;
  for (int i = 3; i >= 0; i--) { uint32_t p = r ^ rnd(l, i); r = l; l = p; }
  return (uint64_t)l << 32 | r;
}
static float frac(uint32_t w) { return (float)((w & 0x7fffff) / 8388608.0); }
static std::vector<uint64_t> corners() {
  std::vector<uint64_t> v;
  uint32_t h[] = {0, 1, 2, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0x12345678u};
  uint32_t l[] = {0, 1, 0xffffu, 0x10000u, 0x7ffffffeu, 0x7fffffffu, 0x80000000u, 0xfffffffcu, 0xfffffffdu, 0xfffffffeu, 0xffffffffu};
  for (uint32_t a : h) for (uint32_t b : l) v.push_back((uint64_t)a << 32 | b);
  return v;
}
static void step_checks(uint64_t s) {
  uint32_t a = (uint32_t)(s >> 32), b = (uint32_t)s;
  uint32_t x = a, y = b; psdes_hash_64(x, y);
  uint64_t h = (uint64_t)x << 32 | y;
  MC_EQ(h, hash(s)); MC_EQ(unhash(h), s);
  uint32_t s0 = a, s1 = b; MC_EQ(iran32_r(s0, s1), (uint32_t)hash(s)); MC_EQ(((uint64_t)s0 << 32 | s1), s + 1);
  s0 = a; s1 = b; uint32_t o0 = 7, o1 = 9; iran64_r(o0, o1, s0, s1); MC_EQ(((uint64_t)o0 << 32 | o1), hash(s)); MC_EQ(((uint64_t)s0 << 32 | s1), s + 1);
  s0 = a; s1 = b; float f = fran32_r(s0, s1); MC_EQ(f, frac((uint32_t)hash(s))); MC_CHECK(f >= 0.0f && f < 1.0f, "fraction " << f); MC_EQ(((uint64_t)s0 << 32 | s1), s + 1);
}
// The generator as a machine: operations on the shared state and on a caller's
// own state, in every order up to a depth.
struct Model { uint64_t g; uint64_t own; bool known; };
static const int NOPS = 10;
static const char *opn[] = {"iran32", "iran64", "fran32", "sran32(1)", "sran32(ffffffff)", "sran32b(2,fffffffe)", "sran32b(ffffffff,ffffffff)", "iran32_r", "iran64_r", "get_random_uint64"};
static void apply(int op, Model &m) {
  static uint32_t own[2];
  own[0] = (uint32_t)(m.own >> 32); own[1] = (uint32_t)m.own;
  uint32_t o0 = 0, o1 = 0, w;
  switch (op) {
  case 0: w = iran32(); MC_EQ(w, (uint32_t)hash(m.g)); m.g++; break;
  case 1: iran64(o0, o1); MC_EQ(((uint64_t)o0 << 32 | o1), hash(m.g)); m.g++; break;
  case 2: { float f = fran32(); MC_EQ(f, frac((uint32_t)hash(m.g))); m.g++; break; }
  case 3: sran32(1); m.g = 1; break;
  case 4: sran32(0xffffffffu); m.g = 0xffffffffu; break;
  case 5: sran32b(2, 0xfffffffeu); m.g = 0x2fffffffeull; break;
  case 6: sran32b(0xffffffffu, 0xffffffffu); m.g = ~0ull; break;
  case 7: w = iran32_r(own[0], own[1]); MC_EQ(w, (uint32_t)hash(m.own)); m.own++; MC_EQ(((uint64_t)own[0] << 32 | own[1]), m.own); break;
  case 8: iran64_r(o0, o1, own[0], own[1]); MC_EQ(((uint64_t)o0 << 32 | o1), hash(m.own)); m.own++; MC_EQ(((uint64_t)own[0] << 32 | own[1]), m.own); break;
  case 9: { uint64_t v = get_random_uint64(), lo = (uint32_t)hash(m.g), hi = (uint32_t)hash(m.g + 1); MC_EQ(v, hi << 32 | lo); m.g += 2; break; }
  }
}
MC_PROP(R01) {
  bool t = mc::thorough, as = mc::asan;
  mc::unit("documented stream", [&] {
    mc::run("stream", {}, [&] {
      uint64_t w[] = {0x57733ef0998adaeaull, 0xe486359a3e59f158ull, 0x624cb3680dd3090cull, 0x5e920cb5bfc315ceull, 0xadcd49eef6f27d08ull, 0x786f6a22d7df7670ull};
      uint32_t s0 = 2, s1 = 0xfffffffcu, a, b;
      for (uint64_t x : w) { iran64_r(a, b, s0, s1); MC_EQ(((uint64_t)a << 32 | b), x); MC_EQ(hash(((uint64_t)s0 << 32 | s1) - 1), x); }
      MC_EQ(s0, 3u); MC_EQ(s1, 2u);
    });
  });
  mc::unit("corner states", [&] { for (uint64_t s : corners()) mc::run("state", {(ll)s}, [&] { mc::count_states(); step_checks(s); }); });
  // Low word exhaustively in blocks for several high words.
  for (uint32_t h : {0u, 1u, 0xffffffffu}) for (int blk = 0; blk < (as ? 1 : t ? 256 : 16); blk++) mc::unit(mc::fmt("high word %x, low words %d * 4096 on", h, blk), [&] {
    mc::run("states", {(ll)h, blk}, [&] { for (uint32_t k = 0; k < 4096; k++) { mc::count_states(); step_checks((uint64_t)h << 32 | (uint32_t)(blk * 4096 + k)); } });
  });
  // One bit flipped at a time, and two at a time, around several states.
  for (uint64_t base : {0ull, ~0ull, 0x0123456789abcdefull, 0x00000002fffffffcull}) mc::unit(mc::fmt("bit flips around %llx", (unsigned long long)base), [&] {
    for (int i = 0; i < 64; i++) mc::run("flip", {i}, [&] { for (int j = 0; j < 64; j++) { mc::count_states(); step_checks(base ^ (1ull << i) ^ (i == j ? 0 : 1ull << j)); } });
  });
  // The combining function is injective on a whole 16-bit slice of each half.
  for (int half = 0; half < 2; half++) mc::unit(mc::fmt("injectivity on a slice of word %d", half), [&] { mc::run("slice", {half}, [&] {
    std::set<uint64_t> seen;
    for (uint32_t k = 0; k < (as ? 512u : 65536u); k++) { uint32_t a = half ? 5 : k, b = half ? k : 5; psdes_hash_64(a, b); seen.insert((uint64_t)a << 32 | b); mc::count_states(); }
    MC_EQ(seen.size(), (size_t)(as ? 512 : 65536));
  }); });
  int depth = as ? 2 : t ? 6 : 4;
  for (int o0 = 0; o0 < NOPS; o0++) for (int o1 = 0; o1 < NOPS; o1++) mc::unit(mc::fmt("histories starting %s, %s", opn[o0], opn[o1]), [&] {
    ll n = ref::ipow(NOPS, depth - 2);
    for (ll k = 0; k < n; k++) mc::run("history", {k}, [&] {
      mc::count_states();
      sran32b(0, 0xfffffffdu);
      Model m{0xfffffffdull, 0x5fffffffeull, true};
      apply(o0, m); apply(o1, m);
      ll v = k; for (int i = 0; i < depth - 2; i++) { apply((int)(v % NOPS), m); v /= NOPS; }
      // Final observation of both states.
      apply(1, m); apply(8, m);
    });
  });
  mc::unit("time-of-day seeding", [&] { mc::run("seed", {}, [&] {
    uint32_t a = 1, b = 1; sran32b(3, 4); sran32_timeofday_r(a, b);
    Model m{0x300000004ull, (uint64_t)a << 32 | b, true}; apply(0, m); apply(8, m); // leaves the shared state alone
    sran32_timeofday(); float f = fran32(); MC_CHECK(f >= 0.0f && f < 1.0f, "fraction " << f);
    sran32(1); m.g = 1; for (int i = 0; i < 3; i++) apply(i, m);
  }); });
}
#endif

#ifdef MC_PROP_R02
// Calls the generator under every seed of a bounded set; each value must meet
// the contract, repeat under the same seed, and together cover every permitted
// value where there are few.
template <class T, class Gen, class Key> void cover(const std::string &name, int seeds, ll expect, Gen &&gen, Key &&key) {
  mc::unit(name, [&] {
    std::set<T> seen; bool bad = false;
    for (int s = 0; s < seeds && !bad; s++) mc::run("seed", {s}, [&] {
      mc::count_states();
      sran32(s); T a, b; bool ok1 = key(gen(), a);
      sran32(s); bool ok2 = key(gen(), b);
      if (!ok1 || !ok2) { mc::fail("result outside the contract: " + mc::str(gen())); bad = true; return; }
      MC_CHECK(a == b, "the same seed gives two different elements");
      seen.insert(a);
    });
    if (expect >= 0 && !bad) mc::run("coverage", {(ll)seeds, expect}, [&] { MC_EQ((ll)seen.size(), expect); });
  });
}
MC_PROP(R02) {
  bool t = mc::thorough, as = mc::asan;
  int N = as ? 300 : t ? 12000 : 3000;
  auto cov = [&](ll n) { return n * 24 <= N ? n : -1; };
  for (int m : {2, 3, 4, 5, 6, 7, 9, 10, 16, 31, 64, 97, 100, 65536, 65537, 1000003, 2147483647}) cover<ll>(mc::fmt("integers modulo %d", m), N, cov(m), [&] { return intmod_random(m); },
    [&](const intmod_t &x, ll &k) { k = x.get_residue(); return x.get_modulus() == m && k >= 0 && k < m; });
  mc::unit("modulus below two", [&] { for (int m : {1, 0, -1, -7, -2147483647}) mc::run("modulus", {m}, [&] { MC_THROWS(intmod_random(m)); }); });
  for (int d = 0; d <= 140; d += d < 8 ? 1 : 11) cover<Poly>(mc::fmt("F2 polynomials of degree %d", d), d > 12 ? N / 10 : N, d < 8 ? cov(1ll << d) : -1, [&] { return f2_poly_random(d); },
    [&](const f2_poly_t &x, Poly &k) { if (x.find_degree() != d) return false; k = of_f2p(x); return (int)k.size() == d + 1; });
  for (uint64_t m : {0x2ull, 0x3ull, 0x4ull, 0x7ull, 0xbull, 0x13ull, 0x25ull, 0x55ull, 0x11bull}) { f2_poly_t M = f2p(m); int d = M.find_degree(); cover<Poly>(mc::fmt("F2[x]/%llx", (unsigned long long)m), N, cov(1ll << d), [&] { return f2_polymod_random(M); },
    [&](const f2_polymod_t &x, Poly &k) { k = of_f2p(x.get_residue()); return x.get_modulus() == M && (int)k.size() <= d; }); }
  for (int p : {2, 3, 5, 7, 11, 101, 65537}) { FP f(p); for (int d = 0; d <= 6; d++) { double cnt = p - 1; for (int i = 0; i < d; i++) cnt *= p; cover<Poly>(mc::fmt("F%d polynomials of degree %d", p, d), N, cnt * 40 < N ? (ll)cnt : -1, [&] { return fp_poly_random(p, d); },
    [&](const fp_poly_t &x, Poly &k) { return x.find_degree() == d && rd(f, x, k) && (int)k.size() == d + 1; }); } }
  for (int p : {2, 3, 5, 13}) { FP f(p); for (int d = 1; d <= 3; d++) { Poly mp = ref::pdigits(1, p); mp.resize(d + 1, 0); mp[d] = 1; fp_poly_t M = mk(f, mp); cover<Poly>(mc::fmt("F%d residues, degree %d", p, d), N, cov(ref::ipow(p, d)), [&] { return fp_polymod_random(M); },
    [&](const fp_polymod_t &x, Poly &k) { return x.get_modulus() == M && rd(f, x.get_residue(), k) && (int)k.size() <= d; }); } }
  for (uint64_t m : {0x2ull, 0x7ull, 0xbull, 0x13ull, 0x11bull}) { F2N f(m); ll q = f.R->q;
    for (int d = 0; d <= 4; d++) { double cnt = (q - 1) * pow((double)q, d); cover<Poly>(f.name + mc::fmt(": polynomials of degree %d", d), N, cnt * 40 < N ? (ll)cnt : -1, [&] { return f2n_poly_random(f.M, d); },
      [&](const f2n_poly_t &x, Poly &k) { return x.find_degree() == d && rd(f, x, k) && (int)k.size() == d + 1; }); }
    for (int d = 1; d <= 3; d++) { Poly mp = {1}; mp.resize(d + 1, 0); mp[d] = 1; f2n_poly_t M = mk(f, mp); double cnt = pow((double)q, d); cover<Poly>(f.name + mc::fmt(": residues, degree %d", d), N, cnt * 24 < N ? (ll)cnt : -1, [&] { return f2n_polymod_random(f.M, M); },
      [&](const f2n_polymod_t &x, Poly &k) { return x.get_modulus() == M && rd(f, x.get_residue(), k) && (int)k.size() <= d; }); } }
  mc::unit("negative degrees and constant moduli", [&] {
    for (int d : {-1, -2, -100}) mc::run("degree", {d}, [&] { MC_THROWS(f2_poly_random(d)); MC_THROWS(fp_poly_random(5, d)); MC_THROWS(f2n_poly_random(f2p(7ull), d)); });
    mc::run("constant", {}, [&] { MC_THROWS(f2_polymod_random(f2p(1ull))); MC_THROWS(fp_polymod_random(fpp({3}, 5))); });
  });
}
#endif
