// A04: F2[x] bit polynomials.
#include "mc.h"
#include "ref.h"
#include "spffl/polynomials/f2_poly_t.h"
#include <bitset>
using mc::fmt;
using ref::ll;
using spffl::bits::bit_t;
using spffl::polynomials::f2_poly_t;

#ifdef MC_PROP_A04
// Reference: plain bit sets, independent of word size.
static const int N = 1024;
typedef std::bitset<N> B;
static int top(const B &a) { for (int i = N - 1; i >= 0; i--) if (a[i]) return i; return -1; }
static B rmul(const B &a, const B &b) { B r; int d = top(b); for (int i = 0; i <= d; i++) if (b[i]) r ^= a << i; return r; }
static void rdivmod(const B &a, const B &b, B &q, B &r) {
  q.reset(); r = a; int db = top(b);
  for (int i = top(a); i >= db; i--) if (r[i]) { r ^= b << (i - db); q[i - db] = 1; }
}
static B rgcd(B a, B b) { while (b.any()) { B q, r; rdivmod(a, b, q, r); a = b; b = r; } return a; }
static int rcmp(const B &a, const B &b) { for (int i = N - 1; i >= 0; i--) if (a[i] != b[i]) return a[i] ? 1 : -1; return 0; }
static std::string hex(const B &a) {
  std::string s; int d = top(a);
  if (d < 0) return "0";
  for (int n = d / 4; n >= 0; n--) s += "0123456789abcdef"[a[4 * n] + 2 * a[4 * n + 1] + 4 * a[4 * n + 2] + 8 * a[4 * n + 3]];
  return s;
}
static f2_poly_t mk(const B &a) { f2_poly_t r(0); for (int i = top(a); i >= 0; i--) if (a[i]) r.set_bit(i); return r; }
// Observes the polynomial through every public observer.
static void chk(const f2_poly_t &x, const B &w, const char *what) {
  int d = top(w);
  int gd = x.find_degree();
  if (gd != (d < 0 ? 0 : d)) { mc::fail(fmt("%s: degree %d, expected %s", what, gd, hex(w).c_str())); return; }
  for (int i = 0; i <= d + 130; i++) if (x.bit_at(i) != (int)w[i]) { mc::fail(fmt("%s: bit %d is %d, expected value %s", what, i, x.bit_at(i), hex(w).c_str())); return; }
  std::string p = mc::str(x);
  if (p != hex(w)) mc::fail(fmt("%s prints as %s, expected %s", what, p.c_str(), hex(w).c_str()));
  f2_poly_t f = mk(w);
  if (!(x == f) || x != f || !(f == x) || x < f || x > f || !(x <= f) || !(x >= f)) mc::fail(fmt("%s does not compare equal to a fresh %s", what, hex(w).c_str()));
  if ((x == 0) != w.none() || (x != 0) == w.none() || (x == 1) != (d == 0)) mc::fail(fmt("%s: zero/one test wrong for %s", what, hex(w).c_str()));
  if ((int)x.eval(0) != (int)w[0] || x.eval(1) != (int)(w.count() & 1)) mc::fail(fmt("%s: evaluation wrong for %s", what, hex(w).c_str()));
}
static void pair_ops(const B &a, const B &b) {
  f2_poly_t x = mk(a), y = mk(b);
  chk(x + y, a ^ b, "a+b"); chk(x - y, a ^ b, "a-b");
  chk(x * y, rmul(a, b), "a*b");
  { f2_poly_t z(x); z += y; chk(z, a ^ b, "a+=b"); }
  { f2_poly_t z(x); z -= y; chk(z, a ^ b, "a-=b"); }
  { f2_poly_t z(x); z *= y; chk(z, rmul(a, b), "a*=b"); }
  if (b.none()) {
    MC_THROWS(x / y); MC_THROWS(x % y);
    f2_poly_t z(x); MC_THROWS(z /= y); MC_THROWS(z %= y); chk(z, a, "a after a rejected division");
  } else {
    B q, r; rdivmod(a, b, q, r);
    chk(x / y, q, "a/b"); chk(x % y, r, "a%b");
    f2_poly_t lq = y, lr = x; x.quot_and_rem(y, lq, lr); chk(lq, q, "quotient"); chk(lr, r, "remainder");
    { f2_poly_t z(x); z /= y; chk(z, q, "a/=b"); }
    { f2_poly_t z(x); z %= y; chk(z, r, "a%=b"); }
    chk(x % y + (x / y) * y, a, "q*b+r");
  }
  B g = rgcd(a, b);
  chk(x.gcd(y), g, "gcd"); chk(::gcd(x, y), g, "free gcd");
  f2_poly_t u = x, v = y;
  chk(x.ext_gcd(y, u, v), g, "ext_gcd");
  chk(u * x + v * y, g, "multipliers of ext_gcd");
  int c = rcmp(a, b);
  MC_EQ(x == y, c == 0); MC_EQ(x != y, c != 0); MC_EQ(x < y, c < 0); MC_EQ(x <= y, c <= 0); MC_EQ(x > y, c > 0); MC_EQ(x >= y, c >= 0);
  chk(x, a, "left operand afterwards"); chk(y, b, "right operand afterwards");
}
static void unary(const B &a) {
  const f2_poly_t x = mk(a);
  int d = std::max(0, top(a));
  chk(x, a, "set_bit"); chk(-x, a, "-a"); chk(x + x, B(), "a+a"); chk(f2_poly_t(x), a, "copy");
  { f2_poly_t y; y = x; chk(y, a, "assignment"); y = y; chk(y, a, "self-assignment"); y = 0; chk(y, B(), "=0"); y = 1; chk(y, B(1), "=1"); y = mk(B(7) << 200); y = x; chk(y, a, "assignment to a larger object"); }
  B dv; for (int i = 1; i <= d; i++) if ((i & 1) && a[i]) dv[i - 1] = 1;
  chk(x.deriv(), dv, "derivative");
  bool sq = true; B rt; for (int i = 0; i <= d; i++) if (a[i]) { if (i & 1) sq = false; else rt[i / 2] = 1; }
  f2_poly_t r; bool ok = x.square_root(r);
  MC_EQ(ok, sq);
  if (ok && sq) chk(r, rt, "square root");
  { f2_poly_t s = x * x; f2_poly_t q; if (!s.square_root(q)) mc::fail("a*a has no square root"); else chk(q, a, "square root of a*a"); }
  chk(x * 1, a, "a*1"); chk(x * 0, B(), "a*0"); chk(x * 2, B(), "a*2"); chk(x * 3, a, "a*3");
  { f2_poly_t y(x); y *= 0; chk(y, B(), "a*=0"); f2_poly_t z(x); z *= 1; chk(z, a, "a*=1"); }
  MC_EQ((int)x.eval(bit_t(0)).get_residue(), (int)a[0]);
  MC_EQ((int)x.eval(bit_t(1)).get_residue(), (int)(a.count() & 1));
  MC_EQ(x.eval(2), (int)a[0]); MC_EQ(x.eval(-1), (int)(a.count() & 1));
  MC_EQ(x.zcount_one_bits(), (int)(a.count() & 1));
  { f2_poly_t y(x); y.increment(); B w = a; int i = 0; while (w[i]) w[i++] = 0; w[i] = 1; chk(y, w, "increment"); }
  for (int s : {0, 1, 2, 3, 4, 5, 31, 32, 33, 60, 61, 62, 63, 64, 65, 66, 127, 128, 129}) { f2_poly_t y(x); y._promote_n(s); chk(y, a << s, fmt("shift up by %d", s).c_str()); }
  { f2_poly_t y(x); y._promote_1(); chk(y, a << 1, "shift up by one"); y._demote_1(); chk(y, a, "shift back down"); y._promote_4(); chk(y, a << 4, "shift up by four"); y._demote_1(); chk(y, a << 3, "and down by one"); }
  { f2_poly_t y(x); for (int i = 1; i <= d + 2; i++) { y._demote_1(); if (i < 4 || i >= d) chk(y, a >> i, fmt("shift down by %d", i).c_str()); } }
  for (int p : {0, 1, d - 1, d, d + 1, 30, 31, 32, 62, 63, 64, 65, 95, 96, 127, 128, 192, 200}) {
    if (p < 0) continue;
    B w = a; w[p] = 1; { f2_poly_t y(x); y.set_bit(p); chk(y, w, fmt("set_bit(%d)", p).c_str()); }
    { f2_poly_t y(x); y.set_coeff(p, bit_t(1)); chk(y, w, fmt("set_coeff(%d,1)", p).c_str()); chk(y * y, rmul(w, w), "then squared"); }
    w[p] = 0; { f2_poly_t y(x); y.set_coeff(p, bit_t(0)); chk(y, w, fmt("set_coeff(%d,0)", p).c_str()); chk(y * x, rmul(w, a), "then multiplied"); }
  }
  MC_THROWS(x.bit_at(-1)); MC_THROWS(x.bit_at(-64)); MC_THROWS(x.bit_at(-65));
  { f2_poly_t y(x); MC_THROWS(y.set_bit(-1)); MC_THROWS(y.set_coeff(-1, bit_t(1))); MC_THROWS(y.set_coeff(-1, bit_t(0))); chk(y, a, "after rejected writes"); }
  { f2_poly_t y; if (!y.from_string(hex(a))) mc::fail("from_string rejects " + hex(a)); else { chk(y, a, "from_string"); chk(y * y, rmul(a, a), "square of the scanned value"); } }
  { f2_poly_t y("000000000000000000" + hex(a)); chk(y, a, "scan with leading zeros"); chk(y * x, rmul(a, a), "product of a zero-padded scan"); chk(y + x, B(), "sum with a zero-padded scan"); }
  if (a.any()) {
    if (d > 0) { MC_THROWS(x.exp(-1)); MC_THROWS(x.exp(-2)); }
    B w(1); int maxe = d <= 10 ? 12 : d <= 70 ? 5 : 3;
    for (int e = 0; e <= maxe; e++) { if (d == 0 || true) chk(x.exp(e), w, fmt("a^%d", e).c_str()); if ((d + 1) * (e + 2) < 900) w = rmul(w, a); else break; }
    if (d == 0) { chk(x.exp(-1), B(1), "1^-1"); chk(x.exp(-7), B(1), "1^-7"); }
  } else { MC_THROWS(x.exp(0)); MC_THROWS(x.exp(-1)); chk(x.exp(1), B(), "0^1"); chk(x.exp(4), B(), "0^4"); }
  chk(x, a, "operand afterwards");
}
static std::vector<B> shapes(bool big) {
  std::vector<int> pos = {0, 1, 2, 31, 32, 62, 63, 64, 65, 96, 126, 127, 128, 129, 191, 192};
  std::vector<B> r = {B()};
  for (size_t i = 0; i < pos.size(); i++) {
    B a; a[pos[i]] = 1; r.push_back(a);
    for (size_t j = 0; j < i; j++) if (big || j < 3 || i - j < 3) { B b = a; b[pos[j]] = 1; r.push_back(b);
      if (big || (pos[i] == 64 && j < 4)) for (size_t k = 0; k < j; k += big ? 1 : 2) { B c = b; c[pos[k]] = 1; r.push_back(c); } }
  }
  for (int n : {2, 3, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 192}) {
    B a; for (int i = 0; i < n; i++) a[i] = 1;
    r.push_back(a);
    { B b = a; b[0] = 0; r.push_back(b); } { B b = a; b[n / 2] = 0; r.push_back(b); }
    if (big) { B b = a << 64; r.push_back(b); b = a << 63; r.push_back(b); }
  }
  { B a; for (int i = 0; i < 130; i += 2) a[i] = 1; r.push_back(a); r.push_back(a << 1); }
  return r;
}
// Histories: all sequences of `depth` operations on two polynomials around word
// boundaries.
static const int NOPS = 22;
struct Hist {
  f2_poly_t x, y; B a, b;
  void step(int op) {
    switch (op) {
    case 0: x = y; a = b; break;
    case 1: y = x; b = a; break;
    case 2: x = x; break;
    case 3: x += y; a ^= b; break;
    case 4: if (top(a) + top(b) < 400) { x *= y; a = rmul(a, b); } break;
    case 5: if (b.any()) { x %= y; B q, r; rdivmod(a, b, q, r); a = r; } else MC_THROWS(x %= y); break;
    case 6: if (b.any()) { x /= y; B q, r; rdivmod(a, b, q, r); a = q; } else MC_THROWS(x /= y); break;
    case 7: { int p = std::max(0, top(a)); x.set_coeff(p, bit_t(0)); a[p] = 0; break; }
    case 8: x.set_coeff(64, bit_t(1)); a[64] = 1; break;
    case 9: x.set_coeff(63, bit_t(1)); a[63] = 1; break;
    case 10: x.set_bit(129); a[129] = 1; break;
    case 11: x.set_coeff(300, bit_t(0)); a[300] = 0; break;
    case 12: if (top(a) < 400) { x._promote_n(63); a <<= 63; } break;
    case 13: if (top(a) < 400) { x._promote_n(1); a <<= 1; } break;
    case 14: x._demote_1(); a >>= 1; break;
    case 15: { x.increment(); int i = 0; while (a[i]) a[i++] = 0; a[i] = 1; break; }
    case 16: x = x.deriv(); { B d; for (int i = 1; i < N; i += 2) if (a[i]) d[i - 1] = 1; a = d; } break;
    case 17: std::swap(x, y); std::swap(a, b); break;
    case 18: x = x.gcd(y); a = rgcd(a, b); break;
    case 19: x -= x; a.reset(); break;
    case 20: { f2_poly_t t; t.from_string("0000000000000000" + hex(a)); x = t; break; }
    case 21: if (top(a) < 400) { x._promote_4(); a <<= 4; } break;
    }
    chk(x, a, fmt("A after operation %d", op).c_str());
    chk(y, b, fmt("B after operation %d", op).c_str());
  }
};
MC_PROP(A04) {
  bool t = mc::thorough, s = mc::asan;
  int bits = t ? (s ? 6 : 10) : (s ? 4 : 8);
  for (int i = 0; i < (1 << bits); i++) mc::unit(fmt("all pairs of degree < %d, a=%x", bits, i), [&] {
    mc::count_states();
    for (int j = 0; j < (1 << bits); j++) mc::run("a,b as bits", {i, j}, [&] { pair_ops(B(i), B(j)); });
  });
  int ub = t ? 14 : s ? 7 : 11;
  for (int h = 0; h < (1 << ub); h += 64) mc::unit(fmt("all polynomials of degree < %d, from %x", ub, h), [&] {
    for (int i = h; i < h + 64; i++) { mc::count_states(); mc::run("bits", {i}, [&] { unary(B(i)); }); }
  });
  auto sh = shapes(t);
  if (s) { std::vector<B> k; for (size_t i = 0; i < sh.size(); i += 4) k.push_back(sh[i]); sh = k; }
  for (size_t i = 0; i < sh.size(); i++) mc::unit(fmt("word-boundary shape %zu = %s", i, hex(sh[i]).c_str()), [&] {
    mc::count_states();
    mc::run("itself", {(ll)i}, [&] { unary(sh[i]); });
    for (size_t j = 0; j < sh.size(); j++) mc::run("paired with shape", {(ll)j}, [&] { pair_ops(sh[i], sh[j]); });
  });
  mc::unit("increment sequence", [&] {
    for (int p : {0, 32, 60, 64, 124, 128}) {
      B w; for (int i = 0; i < p; i++) w[i] = 1;
      f2_poly_t x = mk(w);
      for (int i = 0; i < 600; i++) { mc::run("start width, step", {p, i}, [&] { x.increment(); int k = 0; while (w[k]) w[k++] = 0; w[k] = 1; chk(x, w, "increment"); }); }
    }
  });
  mc::unit("constructors", [&] {
    for (int c2 = -3; c2 < 4; c2++) for (int c1 = -3; c1 < 4; c1++) for (int c0 = -3; c0 < 4; c0++) mc::run("c2,c1,c0", {c2, c1, c0}, [&] {
      chk(f2_poly_t(c2, c1, c0), B((c2 & 1) * 4 + (c1 & 1) * 2 + (c0 & 1)), "f2_poly_t(c2,c1,c0)");
      chk(f2_poly_t(c1, c0), B((c1 & 1) * 2 + (c0 & 1)), "f2_poly_t(c1,c0)");
      chk(f2_poly_t(c0), B(c0 & 1), "f2_poly_t(c0)");
      chk(mk(B(5)).prime_subfield_element(c0), B(c0 & 1), "prime_subfield_element");
    });
    for (uint64_t v : {0ull, 1ull, 2ull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, ~0ull}) mc::run("base representation", {(ll)v}, [&] {
      B w; for (int i = 0; i < 64; i++) w[i] = (v >> i) & 1;
      chk(f2_poly_t::from_base_rep(v), w, "from_base_rep"); chk(f2_poly_t::from_base_rep(v) * f2_poly_t::from_base_rep(v), rmul(w, w), "its square");
    });
    mc::run("default", {0}, [&] { chk(f2_poly_t(), B(), "default constructor"); });
    MC_EQ(mk(B(5)).get_characteristic(), 2);
    MC_THROWS(f2_poly_t("")); MC_THROWS(f2_poly_t("xyz"));
  });
  int depth = s ? 2 : t ? 4 : 3;
  B w64; for (int i = 0; i < 64; i++) w64[i] = 1;
  std::vector<std::pair<B, B>> init = {{B(), B(1)}, {w64, B(3)}, {(B(1) << 128) | B(1), w64}, {B(0x80000001), (B(1) << 64) | B(2)}};
  for (size_t k = 0; k < init.size(); k++) for (int o1 = 0; o1 < NOPS; o1++) mc::unit(fmt("histories of %d operations from A=%s B=%s first %d", depth, hex(init[k].first).c_str(), hex(init[k].second).c_str(), o1), [&] {
    mc::count_states();
    ll n = ref::ipow(NOPS, depth - 1);
    for (ll i = 0; i < n; i++) {
      std::vector<int> ops = {o1}; ll q = i; for (int j = 1; j < depth; j++) { ops.push_back((int)(q % NOPS)); q /= NOPS; }
      std::string lab; for (int o : ops) lab += fmt("%d,", o);
      mc::run("operations", lab, [&] { Hist h; h.a = init[k].first; h.b = init[k].second; h.x = mk(h.a); h.y = mk(h.b); for (int o : ops) h.step(o); });
    }
  });
}
#endif
