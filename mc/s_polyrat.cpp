// A10: rational functions over F2, Fp and F2^n.
#include "fields.h"
#include "spffl/rationals/f2_polyrat_t.h"
#include "spffl/rationals/f2n_polyrat_t.h"
#include "spffl/rationals/fp_polyrat_t.h"
using namespace fld;
using namespace spffl::rationals;
using ref::ipow;
using ref::pdigits;

struct F2 {
  typedef f2_poly_t P;
  typedef f2_polyrat_t Q;
  RingP R; std::string name;
  F2() : R(new ref::Zn(2)), name("F2") {}
  P poly(const Poly &a) const { return f2p(a); }
  bool rdp(const P &x, Poly &r) const { int d = x.find_degree(); if (d < 0 || d > 100000) return false; r = of_f2p(x); return d == 0 || (int)r.size() == d + 1; }
  Q emb(int v) const { return f2_polyrat_t(v & 1); }
};
struct GP : FP {
  typedef fp_polyrat_t Q;
  using FP::FP;
  P poly(const Poly &a) const { return mk(*(const FP *)this, a); }
  bool rdp(const P &x, Poly &r) const { return rd(*(const FP *)this, x, r); }
  Q emb(int v) const { return fp_polyrat_t::prime_subfield_element(v, p); }
};
struct G2N : F2N {
  typedef f2n_polyrat_t Q;
  using F2N::F2N;
  P poly(const Poly &a) const { return mk(*(const F2N *)this, a); }
  bool rdp(const P &x, Poly &r) const { return rd(*(const F2N *)this, x, r); }
  Q emb(int v) const { return f2n_polyrat_t::prime_subfield_element(v, M); }
};
struct Fr { Poly n, d; bool operator==(const Fr &o) const { return n == o.n && d == o.d; } };
template <class F> struct Field {
  const F &f; const ref::Ring &R;
  typedef typename F::Q Q;
  Field(const F &f_) : f(f_), R(*f_.R) {}
  Fr canon(const Poly &n, const Poly &d) const {
    if (n.empty()) return {{}, {1}};
    Poly g = ref::pgcd(R, n, d); ll l = R.inv(d.back());
    Fr r{ref::pdiv(R, n, g), ref::pdiv(R, d, g)};
    r.n = ref::pscale(R, r.n, l); r.d = ref::pscale(R, r.d, l);
    return r;
  }
  Fr add(const Fr &a, const Fr &b) const { return canon(ref::padd(R, ref::pmul(R, a.n, b.d), ref::pmul(R, a.d, b.n)), ref::pmul(R, a.d, b.d)); }
  Fr neg(const Fr &a) const { return {ref::pneg(R, a.n), a.d}; }
  Fr mul(const Fr &a, const Fr &b) const { return canon(ref::pmul(R, a.n, b.n), ref::pmul(R, a.d, b.d)); }
  Fr inv(const Fr &a) const { return canon(a.d, a.n); }
  Q mkq(const Fr &a) const { return Q(f.poly(a.n), f.poly(a.d)); }
  // The represented fraction must be the expected one, in lowest terms.
  void chk(const Q &x, const Fr &w, const char *what) const {
    Poly n, d;
    if (!f.rdp(x.get_numerator(), n) || !f.rdp(x.get_denominator(), d)) { mc::fail(mc::fmt("%s: stored polynomials are not canonical", what)); return; }
    if (d.empty()) { mc::fail(mc::fmt("%s: stored denominator is zero", what)); return; }
    bool cop = n.empty() ? d.size() == 1 : ref::pgcd(R, n, d).size() == 1;
    if (!cop) mc::fail(mc::fmt("%s: stored as %s/%s, not in lowest terms", what, show(n).c_str(), show(d).c_str()));
    if (ref::pmul(R, n, w.d) != ref::pmul(R, w.n, d)) mc::fail(mc::fmt("%s gives %s/%s, expected %s/%s", what, show(n).c_str(), show(d).c_str(), show(w.n).c_str(), show(w.d).c_str()));
  }
};

template <class F> void construct(const Field<F> &K, const Poly &n, const Poly &d) {
  const F &f = K.f;
  typedef typename F::Q Q;
  if (d.empty()) { MC_THROWS(Q(f.poly(n), f.poly(d))); return; }
  Q x(f.poly(n), f.poly(d));
  Fr w = K.canon(n, d);
  K.chk(x, w, "n/d");
  // the same number built from the canonical and from scaled fractions
  Q c = K.mkq(w);
  MC_CHECK(x == c, "the fraction and its canonical form compare unequal"); MC_CHECK(!(x != c), "!= disagrees with ==");
  for (ll s = 2; s < std::min(K.R.q, 5LL); s++) { Q y(f.poly(ref::pscale(K.R, n, s)), f.poly(ref::pscale(K.R, d, s))); MC_CHECK(x == y, "scaling both parts by a constant changes equality"); }
  { Poly m = {1, 1}; Q y(f.poly(ref::pmul(K.R, n, m)), f.poly(ref::pmul(K.R, d, m))); MC_CHECK(x == y, "scaling both parts by x+1 changes equality"); }
  { Poly m = {0, K.R.q - 1}; Q y(f.poly(ref::pmul(K.R, n, m)), f.poly(ref::pmul(K.R, d, m))); MC_CHECK(x == y, "scaling both parts by -x changes equality"); }
}
template <class F> void unary(const Field<F> &K, const Fr &a) {
  const F &f = K.f;
  typedef typename F::Q Q;
  Q x = K.mkq(a);
  K.chk(-x, K.neg(a), "-a");
  MC_CHECK(-(-x) == x, "-(-a) == a");
  MC_CHECK(-x == K.mkq(K.neg(a)), "-a compares unequal to the fraction built from the negated numerator");
  { Q z(x); z -= x; z -= x; MC_CHECK(-x == z, "-a compares unequal to a-a-a"); }
  { Q y(x); K.chk(y, a, "copy"); y = y; K.chk(y, a, "self-assigned"); y += y; K.chk(y, K.add(a, a), "a+=a"); K.chk(x, a, "source after changing its copy");
    y = x; y -= y; K.chk(y, {{}, {1}}, "a-=a"); y = x; y *= y; K.chk(y, K.mul(a, a), "a*=a");
    if (!a.n.empty()) { y = x; y /= y; K.chk(y, {{1}, {1}}, "a/=a"); } }
  if (a.d == Poly{1}) {
    Q y(f.poly(a.n)); K.chk(y, a, "from polynomial"); MC_CHECK(x == y, "a == from polynomial");
    Q z = K.mkq({{1}, {0, 1}}); z = f.poly(a.n); K.chk(z, a, "assigned a polynomial");
    MC_CHECK(x == f.poly(a.n), "== polynomial"); MC_CHECK(!(x != f.poly(a.n)), "!= polynomial");
    MC_CHECK(!(x == f.poly(ref::padd(K.R, a.n, {1}))), "== another polynomial");
  } else MC_CHECK(!(x == f.poly(a.n)), "a proper fraction equals a polynomial");
  MC_EQ(x.get_characteristic(), K.R.p);
  for (int v : {-3, -2, -1, 0, 1, 2, 3, 5, 2147483647, -2147483647}) { Fr w{{K.R.fromint(v)}, {1}}; ref::norm(w.n); K.chk(x.prime_subfield_element(v), w, "prime_subfield_element"); K.chk(f.emb(v), w, "static prime_subfield_element"); }
  Fr acc{{1}, {1}};
  if (a.n.empty()) { MC_THROWS(x.exp(0)); MC_THROWS(x.exp(-1)); MC_THROWS(x.exp(-2)); K.chk(x.exp(3), a, "0^3"); return; }
  for (int e = 0; e <= 7; e++) {
    if (e) acc = K.mul(acc, a);
    K.chk(x.exp(e), acc, "a^e"); K.chk(x.exp(-e), K.inv(acc), "a^-e");
  }
}
template <class F> void pair(const Field<F> &K, const Fr &a, const Fr &b) {
  typedef typename F::Q Q;
  Q x = K.mkq(a), y = K.mkq(b);
  Fr s = K.add(a, b), d = K.add(a, K.neg(b)), p = K.mul(a, b);
  K.chk(x + y, s, "a+b"); K.chk(x - y, d, "a-b"); K.chk(x * y, p, "a*b");
  { Q z(x); z += y; K.chk(z, s, "a+=b"); MC_CHECK(z == K.mkq(s), "sum compares equal to the exact sum"); z = x; z -= y; K.chk(z, d, "a-=b"); MC_CHECK(z == K.mkq(d), "difference compares equal to the exact one"); z = x; z *= y; K.chk(z, p, "a*=b"); MC_CHECK(z == K.mkq(p), "product compares equal to the exact one"); }
  if (b.n.empty()) {
    if (!mc::asan || a.n.size() < 3) { MC_THROWS(x / y); MC_THROWS(x % y); Q z(x); MC_THROWS(z /= y); MC_THROWS(z %= y); K.chk(z, a, "a after a rejected a/=b"); }
  } else {
    Fr q = K.mul(a, K.inv(b));
    K.chk(x / y, q, "a/b"); K.chk(x % y, {{}, {1}}, "a%b");
    Q z(x); z /= y; K.chk(z, q, "a/=b"); MC_CHECK(z == K.mkq(q), "quotient compares equal to the exact one"); z = x; z %= y; K.chk(z, {{}, {1}}, "a%=b");
  }
  MC_EQ(x == y, a == b); MC_EQ(x != y, !(a == b));
  MC_EQ(x <= y, x < y || a == b); MC_EQ(x >= y, x > y || a == b); MC_EQ(x < y, y > x); MC_EQ((x < y) + (x > y) + (a == b), 1);
  K.chk(x, a, "a afterwards"); K.chk(y, b, "b afterwards");
}
template <class F> std::vector<Fr> fractions(const Field<F> &K, int dn, int dd) {
  std::vector<Fr> v; ll q = K.R.q;
  for (ll i = 0; i < ipow(q, dn + 1); i++) for (int e = 0; e <= dd; e++) for (ll j = 0; j < ipow(q, e); j++) {
    Fr a; a.n = pdigits(i, q); a.d = pdigits(j, q); a.d.resize(e + 1, 0); a.d[e] = 1;
    if (K.canon(a.n, a.d) == a) v.push_back(a);
  }
  return v;
}
template <class F> void field(const F &f, int cn, int cd, int pn, int pd) {
  Field<F> K(f);
  ll q = f.R->q;
  for (ll i = 0; i < ipow(q, cn + 1); i++) mc::unit(f.name + mc::fmt(": fractions with numerator %lld", i), [&] {
    for (ll j = 0; j < ipow(q, cd + 1); j++) mc::run("n,d", {i, j}, [&] { construct(K, pdigits(i, q), pdigits(j, q)); });
  });
  std::vector<Fr> v = fractions(K, pn, pd);
  mc::count_states(v.size());
  for (size_t i = 0; i < v.size(); i++) mc::unit(f.name + ": a = " + show(v[i].n) + "/" + show(v[i].d), [&] {
    mc::run("a", {}, [&] { unary(K, v[i]); });
    for (size_t j = 0; j < v.size(); j++) mc::run("b", show(v[j].n) + "/" + show(v[j].d), [&] { pair(K, v[i], v[j]); });
  });
}
template <class F> void shaped(const F &f, std::initializer_list<int> degs) {
  Field<F> K(f); ll h = f.R->q - 1;
  std::vector<Poly> ps;
  for (int d : degs) { Poly a(d + 1, 0); a[d] = h; ps.push_back(a); a[0] = 1; ps.push_back(a); a.assign(d + 1, 1); ps.push_back(a); a[d] = h; a[d / 2] = 0; ref::norm(a); if (!a.empty()) ps.push_back(a); }
  std::vector<Fr> v;
  for (auto &n : ps) for (auto &d : ps) { Fr a = K.canon(n, d); if (std::find(v.begin(), v.end(), a) == v.end()) v.push_back(a); }
  size_t st = mc::asan ? 7 : 1;
  for (size_t i = 0; i < v.size(); i += st) mc::unit(f.name + ": long a = " + show(v[i].n) + "/" + show(v[i].d), [&] {
    mc::run("a", {}, [&] { construct(K, v[i].n, v[i].d); unary(K, v[i]); });
    for (size_t j = 0; j < v.size(); j += st) mc::run("b", show(v[j].n) + "/" + show(v[j].d), [&] { pair(K, v[i], v[j]); });
  });
}
MC_PROP(A10) {
  bool t = mc::thorough, as = mc::asan;
  field(F2(), as ? 3 : 6, as ? 3 : 6, as ? 1 : t ? 4 : 3, as ? 2 : 3);
  shaped(F2(), {1, 31, 63, 64});
  GP p3(3), p5(5), p7(7), p2(2);
  field(p2, as ? 2 : 4, as ? 2 : 4, as ? 1 : 2, as ? 1 : 2);
  field(p3, as ? 1 : t ? 3 : 2, as ? 1 : 3, as ? 0 : t ? 2 : 1, as ? 1 : t ? 2 : 1);
  field(p5, as ? 1 : 2, as ? 1 : t ? 2 : 1, as ? 0 : 1, 1);
  field(p7, 1, 1, 0, 1);
  shaped(p3, {1, 4, 9}); shaped(p5, {2, 5}); shaped(GP(101), {1, 3}); shaped(GP(46349), {1, 3}); shaped(GP(1000003), {1, 2});
  G2N q4(0x7), q8(0xb), q2(0x2);
  field(q2, as ? 2 : 3, as ? 2 : 3, as ? 1 : 2, 1);
  field(q4, as ? 1 : 2, as ? 0 : 2, as ? 0 : 1, as ? 0 : 1);
  field(q8, as ? 0 : 1, as ? 0 : 1, 0, as ? 0 : 1);
  shaped(q4, {1, 3, 5}); shaped(q8, {2, 4});
}
