// A05, A06, A07: polynomials over Fp, F2^n and Fp^n.
#include "fields.h"
using namespace fld;
using mc::fmt;
using namespace ref;

#if defined(MC_PROP_A05) || defined(MC_PROP_A06) || defined(MC_PROP_A07)
template <class F> static void pair_ops(const F &f, const Poly &a, const Poly &b) {
  typedef typename F::P P;
  const Ring &R = *f.R;
  P x = mk(f, a), y = mk(f, b);
  Poly s = padd(R, a, b), d = psub(R, a, b), m = pmul(R, a, b);
  chk(f, x + y, s, "a+b");
  chk(f, x - y, d, "a-b");
  chk(f, x * y, m, "a*b");
  { P z = x; z += y; chk(f, z, s, "a+=b"); }
  { P z = x; z -= y; chk(f, z, d, "a-=b"); }
  { P z = x; z *= y; chk(f, z, m, "a*=b"); }
  if (b.empty()) {
    P z = x;
    MC_THROWS(x / y);
    MC_THROWS(x % y);
    MC_THROWS(z /= y);
    MC_THROWS(z %= y);
    chk(f, z, a, "a after a rejected division");
  } else {
    Poly q, r;
    pdivmod(R, a, b, q, r);
    chk(f, x / y, q, "a/b");
    chk(f, x % y, r, "a%b");
    P zq = x, zr = y;
    x.quot_and_rem(y, zq, zr);
    chk(f, zq, q, "quotient"); chk(f, zr, r, "remainder");
    { P z = x; z /= y; chk(f, z, q, "a/=b"); }
    { P z = x; z %= y; chk(f, z, r, "a%=b"); }
  }
  Poly g = pgcd(R, a, b), got;
  P lg = x.gcd(y);
  if (!rd(f, lg, got)) mc::fail("gcd is not canonical");
  else if (pmonic(R, got) != g) mc::fail("gcd(a,b) gives " + show(got) + ", expected an associate of " + show(g));
  P lg2 = ::gcd(x, y);
  if (!rd(f, lg2, got) || pmonic(R, got) != g) mc::fail("free gcd(a,b) is wrong");
  if (!(a.empty() && b.empty())) {
    P u = x, v = y;
    P e = x.ext_gcd(y, u, v);
    Poly pe, pu, pv;
    if (!rd(f, e, pe) || !rd(f, u, pu) || !rd(f, v, pv)) mc::fail("ext_gcd results are not canonical");
    else {
      if (pmonic(R, pe) != g) mc::fail("ext_gcd gives " + show(pe) + ", expected an associate of " + show(g));
      Poly c = padd(R, pmul(R, pu, a), pmul(R, pv, b));
      if (c != pe) mc::fail("ext_gcd multipliers " + show(pu) + ", " + show(pv) + " give " + show(c) + ", not the gcd " + show(pe));
    }
  }
  int c = pcmp(a, b);
  MC_EQ(x == y, c == 0);
  MC_EQ(x != y, c != 0);
  MC_EQ(x < y, c < 0);
  MC_EQ(x <= y, c <= 0);
  MC_EQ(x > y, c > 0);
  MC_EQ(x >= y, c >= 0);
  chk(f, x, a, "left operand afterwards");
  chk(f, y, b, "right operand afterwards");
}

template <class F> static void unary_ops(const F &f, const Poly &a) {
  typedef typename F::P P;
  typedef typename F::C C;
  const Ring &R = *f.R;
  const P x = mk(f, a);
  chk(f, x, a, "set_coeff");
  chk(f, -x, pneg(R, a), "-a");
  chk(f, x - x, {}, "a-a");
  chk(f, x + (-x), {}, "a+(-a)");
  chk(f, x.deriv(), pderiv(R, a), "derivative");
  { P r = x; Poly w; bool ok = f.root(x, r), wok = ppth_root(R, a, w);
    MC_EQ(ok, wok);
    if (ok && wok) { chk(f, r, w, "root"); chk(f, r.exp(R.p), a, "root to the p"); } }
  { P y(x); chk(f, y, a, "copy"); y = y; chk(f, y, a, "self-assignment"); y = x; chk(f, y, a, "assignment");
    P z; z = x; chk(f, z, a, "assignment to a default object"); z = mk(f, Poly{1}); z = x; chk(f, z, a, "assignment to a smaller object");
    z = mk(f, Poly{0, 1, 0, 0, 0, 0, 0, 1}); z = x; chk(f, z, a, "assignment to a larger object");
    P v(x), w(x); v += v; chk(f, v, padd(R, a, a), "a+=a"); w *= w; chk(f, w, pmul(R, a, a), "a*=a");
    P u(x); u -= u; chk(f, u, {}, "a-=a");
    if (!a.empty()) { P t(x); t /= t; chk(f, t, {1}, "a/=a"); P s(x); s %= s; chk(f, s, {}, "a%=a"); }
    y.set_coeff(1, f.coeff(R.q - 1)); chk(f, x, a, "original after mutating a copy"); }
  { P y(x); y.promote(); Poly w = a; if (!w.empty()) w.insert(w.begin(), 0); chk(f, y, w, "promote"); }
  for (ll c : {0LL, 1LL, (ll)R.q - 1}) {
    P y(x); y.promote_and_add(f.coeff(c)); Poly w = a; w.insert(w.begin(), c); norm(w); chk(f, y, w, "promote_and_add");
  }
  // coefficient access
  for (int pos : {0, 1, deg(a) - 1, deg(a), deg(a) + 1, deg(a) + 2, deg(a) + 5}) {
    if (pos < 0) continue;
    ll want = pos < (int)a.size() ? a[pos] : 0;
    chkc(f, x.get_coeff(pos), want, "get_coeff");
    for (ll c : {0LL, 1LL, (ll)R.q - 1}) {
      P y(x); y.set_coeff(pos, f.coeff(c));
      Poly w = a; if ((int)w.size() <= pos) w.resize(pos + 1, 0); w[pos] = c; norm(w);
      chk(f, y, w, "set_coeff");
      // and a further operation on the result
      chk(f, y + x, padd(R, w, a), "set_coeff then +");
    }
  }
  MC_THROWS(x.get_coeff(-1));
  { P y(x); MC_THROWS(y.set_coeff(-1, f.coeff(1))); chk(f, y, a, "target after a rejected set_coeff"); }
  // constructors
  if (a.size() <= 1) chk(f, P(f.coeff(a.empty() ? 0 : a[0])), a, "constructor c0");
  if (a.size() <= 2) chk(f, P(f.coeff(a.size() > 1 ? a[1] : 0), f.coeff(a.size() > 0 ? a[0] : 0)), a, "constructor c1,c0");
  if (a.size() <= 3) chk(f, P(f.coeff(a.size() > 2 ? a[2] : 0), f.coeff(a.size() > 1 ? a[1] : 0), f.coeff(a.size() > 0 ? a[0] : 0)), a, "constructor c2,c1,c0");
  MC_EQ(x.get_characteristic(), R.p);
  for (int v : {0, 1, 2, 3, -1, -2, 7}) chk(f, x.prime_subfield_element(v), R.fromint(v) ? Poly{R.fromint(v)} : Poly{}, "prime_subfield_element");
}

template <class F> static void exps(const F &f, const Poly &a, int maxe) {
  typedef typename F::P P;
  const Ring &R = *f.R;
  P x = mk(f, a);
  if (a.empty()) { MC_THROWS(x.exp(0)); MC_THROWS(x.exp(-1)); MC_THROWS(x.exp(-3)); chk(f, x.exp(1), {}, "0^1"); chk(f, x.exp(5), {}, "0^5"); return; }
  Poly w = {1};
  for (int e = 0; e <= maxe; e++) { chk(f, x.exp(e), w, fmt("a^%d", e).c_str()); w = pmul(R, w, a); }
  if (a.size() > 1) { MC_THROWS(x.exp(-1)); MC_THROWS(x.exp(-2)); }
  else {
    ll inv = R.inv(a[0]), v = 1;
    for (int e = 1; e <= 5; e++) { v = R.mul(v, inv); chk(f, x.exp(-e), Poly{v}, fmt("c^-%d", e).c_str()); }
  }
  chk(f, x, a, "base afterwards");
}

template <class F> static void scalars(const F &f, const Poly &a, ll c) {
  typedef typename F::P P;
  const Ring &R = *f.R;
  P x = mk(f, a);
  typename F::C k = f.coeff(c);
  Poly cp = c ? Poly{c} : Poly{};
  chk(f, x + k, padd(R, a, cp), "a+c");
  chk(f, x - k, psub(R, a, cp), "a-c");
  chk(f, x * k, pscale(R, a, c), "a*c");
  { P z(x); z += k; chk(f, z, padd(R, a, cp), "a+=c"); }
  { P z(x); z -= k; chk(f, z, psub(R, a, cp), "a-=c"); }
  { P z(x); z *= k; chk(f, z, pscale(R, a, c), "a*=c"); }
  if (c) {
    Poly w = pscale(R, a, R.inv(c));
    chk(f, x / k, w, "a/c");
    P z(x); z /= k; chk(f, z, w, "a/=c");
  } else {
    MC_THROWS(x / k);
    P z(x); MC_THROWS(z /= k); chk(f, z, a, "a after a rejected a/=0");
  }
  chkc(f, x.eval(k), peval(R, a, c), "a(c)");
  chk(f, x, a, "a afterwards"); chkc(f, k, c, "c afterwards");
}

// Histories: every sequence of `depth` operations on two polynomials, replayed
// from the initial objects, compared with the same sequence on lists.
static const int NOPS = 21;
template <class F> struct Hist {
  const F &f; typename F::P x, y; Poly a, b;
  Hist(const F &f_, const Poly &a_, const Poly &b_) : f(f_), x(mk(f_, a_)), y(mk(f_, b_)), a(a_), b(b_) {}
  void step(int op) {
    typedef typename F::P P;
    const Ring &R = *f.R;
    ll hi = R.q - 1;
    switch (op) {
    case 0: x = y; a = b; break;
    case 1: y = x; b = a; break;
    case 2: x = x; break;
    case 3: x += y; a = padd(R, a, b); break;
    case 4: x -= y; a = psub(R, a, b); break;
    case 5: if (a.size() + b.size() < 16) { x *= y; a = pmul(R, a, b); } break;
    case 6: if (b.empty()) { MC_THROWS(x %= y); } else { x %= y; a = pmod(R, a, b); } break;
    case 7: if (b.empty()) { MC_THROWS(x /= y); } else { x /= y; a = pdiv(R, a, b); } break;
    case 8: x.set_coeff(0, f.coeff(0)); if (a.size() > 0) a[0] = 0; norm(a); break;
    case 9: { int p = deg(a); x.set_coeff(p, f.coeff(0)); if (!a.empty()) a[p] = 0; norm(a); break; }
    case 10: x.set_coeff(3, f.coeff(hi)); if (a.size() < 4) a.resize(4, 0); a[3] = hi; break;
    case 11: x.set_coeff(6, f.coeff(0)); if (a.size() > 6) a[6] = 0; norm(a); break;
    case 12: if (a.size() < 12) { x.promote(); if (!a.empty()) a.insert(a.begin(), 0); } break;
    case 13: if (a.size() < 12) { x.promote_and_add(f.coeff(hi)); a.insert(a.begin(), hi); norm(a); } break;
    case 14: x = -x; a = pneg(R, a); break;
    case 15: { P t(x); x = y; y = t; std::swap(a, b); break; }
    case 16: { P t; t = x; t += y; x = t; a = padd(R, a, b); break; }
    case 17: x = x.deriv(); a = pderiv(R, a); break;
    case 18: x *= f.coeff(0); a.clear(); break;
    case 19: { Poly c = a; c.resize(std::max<size_t>(1, c.size()), 0); c[0] = R.sub(c[0], 1); norm(c); x -= f.coeff(1); a = c; break; }
    case 20: if (!a.empty()) { Poly q, r; pdivmod(R, b, a, q, r); P lq, lr; y.quot_and_rem(x, lq, lr); y = lq; x = lr; b = q; a = r; } break;
    }
    chk(f, x, a, fmt("A after operation %d", op).c_str());
    chk(f, y, b, fmt("B after operation %d", op).c_str());
  }
};
template <class F> static void histories(const F &f, const Poly &a, const Poly &b, int depth) {
  mc::count_states();
  for (int o1 = 0; o1 < NOPS; o1++) mc::unit(fmt("%s histories from A=%s B=%s op %d", f.name.c_str(), show(a).c_str(), show(b).c_str(), o1), [&] {
    ll n = ipow(NOPS, depth - 1);
    for (ll k = 0; k < n; k++) {
      std::vector<int> ops = {o1};
      ll t = k; for (int i = 1; i < depth; i++) { ops.push_back((int)(t % NOPS)); t /= NOPS; }
      std::string lab; for (int o : ops) lab += fmt("%d,", o);
      mc::run("operations", lab, [&] { Hist<F> h(f, a, b); for (int o : ops) h.step(o); });
    }
  });
}

template <class F> static void all_pairs(const F &f, int da, int db) {
  ll q = f.R->q, na = ipow(q, da + 1), nb = ipow(q, db + 1);
  ll chunk = std::max<ll>(1, na / 24);
  for (ll lo = 0; lo < na; lo += chunk) mc::unit(fmt("%s pairs deg<=%d,%d from %lld", f.name.c_str(), da, db, lo), [&] {
    for (ll i = lo; i < std::min(na, lo + chunk); i++) {
      mc::count_states();
      for (ll j = 0; j < nb; j++) mc::run("base-q indices a,b", {i, j}, [&] { pair_ops(f, pdigits(i, q), pdigits(j, q)); });
    }
  });
}
template <class F> static void all_unary(const F &f, int d) {
  ll q = f.R->q, n = ipow(q, d + 1), chunk = std::max<ll>(1, n / 24);
  for (ll lo = 0; lo < n; lo += chunk) mc::unit(fmt("%s single deg<=%d from %lld", f.name.c_str(), d, lo), [&] {
    for (ll i = lo; i < std::min(n, lo + chunk); i++) {
      mc::count_states();
      Poly a = pdigits(i, q);
      mc::run("base-q index", {i}, [&] { unary_ops(f, a); });
      if (deg(a) <= 3) mc::run("powers of index", {i}, [&] { exps(f, a, 6); });
      if (q <= 32) for (ll c = 0; c < q; c++) mc::run("index, scalar", {i, c}, [&] { scalars(f, a, c); });
      else for (ll c : {0LL, 1LL, 2LL, q / 2, q - 2, q - 1}) mc::run("index, scalar", {i, c}, [&] { scalars(f, a, c); });
    }
  });
}
// Polynomials drawn from a set of coefficient values on a set of positions.
template <class F> static std::vector<Poly> shapes(const F &f, const std::vector<int> &pos, const std::vector<ll> &vals) {
  std::vector<Poly> r = {{}};
  for (size_t i = 0; i < pos.size(); i++) for (ll u : vals) {
    if (!u) continue;
    Poly a(pos[i] + 1, 0); a[pos[i]] = u; r.push_back(a);
    for (size_t j = 0; j < i; j++) for (ll v : vals) if (v) { Poly b = a; b[pos[j]] = v; r.push_back(b); }
  }
  for (int p : pos) r.push_back(Poly(p + 1, vals.back()));
  (void)f;
  return r;
}
template <class F> static void shape_pairs(const F &f, std::vector<Poly> sh, const char *nm) {
  if (mc::asan) { std::vector<Poly> k; for (size_t i = 0; i < sh.size(); i += 3) k.push_back(sh[i]); sh = k; }
  for (size_t i = 0; i < sh.size(); i++) mc::unit(fmt("%s %s %zu: %s", f.name.c_str(), nm, i, show(sh[i]).c_str()), [&] {
    mc::count_states();
    mc::run("shape", {(ll)i}, [&] { unary_ops(f, sh[i]); if (deg(sh[i]) < 20) exps(f, sh[i], 4); });
    for (ll c : {0LL, 1LL, f.R->q - 1, f.R->q / 2}) mc::run("shape, scalar", {(ll)i, c}, [&] { scalars(f, sh[i], c); });
    for (size_t j = 0; j < sh.size(); j++) mc::run("shapes a,b", {(ll)i, (ll)j}, [&] { pair_ops(f, sh[i], sh[j]); });
  });
}
template <class F> static void incr(const F &f, ll n) {
  if (mc::asan) n /= 6;
  mc::unit(fmt("%s increment sequence", f.name.c_str()), [&] {
    typename F::P x = mk(f, Poly{});
    for (ll i = 0; i < n; i++) {
      mc::run("after increments", {i}, [&] { chk(f, x, pdigits(i, f.R->q), "increment"); x.increment(); });
    }
  });
}
template <class F> static void mixed(const F &f, const F &g) {
  mc::unit("mixed " + f.name + " and " + g.name, [&] {
    ll cap = mc::asan ? 14 : 1000000;
    for (ll i = 0; i < std::min(cap, f.R->q * f.R->q); i++) for (ll j = 0; j < std::min(cap, g.R->q * g.R->q); j++) mc::run("a over the first, b over the second", {i, j}, [&] {
      typename F::P x = mk(f, pdigits(i, f.R->q)), y = mk(g, pdigits(j, g.R->q));
      MC_THROWS(x + y); MC_THROWS(x - y); MC_THROWS(x * y);
      MC_THROWS(x += y); MC_THROWS(x -= y); MC_THROWS(x *= y);
      typename F::C k = g.coeff(j % g.R->q);
      MC_THROWS(x + k); MC_THROWS(x - k); MC_THROWS(x * k);
      MC_THROWS(x += k); MC_THROWS(x -= k); MC_THROWS(x *= k);
      chk(f, x, pdigits(i, f.R->q), "a afterwards"); chk(g, y, pdigits(j, g.R->q), "b afterwards");
    });
  });
}
template <class F> static void small_field(const F &f, int dpair, int dun, int hdepth) {
  if (mc::asan) { // memory-error pass: one degree less
    while (dpair > 0 && ipow(f.R->q, 2 * (dpair + 1)) > 2000) dpair--;
    while (dun > 0 && ipow(f.R->q, dun + 1) > 300) dun--;
    if (hdepth > 2) hdepth = 2;
  }
  all_pairs(f, dpair, dpair);
  all_pairs(f, std::min(dpair + 2, dun), std::max(0, dpair - 2));
  all_unary(f, dun);
  ll h = f.R->q - 1;
  if (hdepth > 0) {
    histories(f, Poly{}, Poly{1}, hdepth);
    histories(f, Poly{1, 0, h}, Poly{h, 1}, hdepth);
    if (hdepth > 2) histories(f, Poly{0, 1, 0, 0, 0, h}, Poly{1, h, 1}, hdepth);
  }
}
#endif

// ---------------------------------------------------------------- A05
#ifdef MC_PROP_A05
MC_PROP(A05) {
  bool t = mc::thorough;
  small_field(FP(2), t ? 6 : 5, t ? 10 : 8, t ? 4 : 3);
  small_field(FP(3), t ? 4 : 3, t ? 6 : 5, t ? 4 : 3);
  small_field(FP(5), t ? 3 : 2, t ? 4 : 3, 3);
  small_field(FP(7), 2, t ? 4 : 3, 3);
  small_field(FP(11), t ? 2 : 1, 2, t ? 3 : 2);
  small_field(FP(13), 1, 2, 2);
  for (int p : {2, 3, 5, 7, 101, 251, 46349, 65537, 1000003}) {
    FP f(p);
    std::vector<ll> v;
    for (ll x : {1LL, 2LL, (ll)p / 2, (ll)p - 2, (ll)p - 1}) { ll y = x % p; if (y && std::find(v.begin(), v.end(), y) == v.end()) v.push_back(y); }
    if (v.size() > 3 && !t) v = {v[0], v[2], v.back()};
    shape_pairs(f, shapes(f, {0, 1, 2, 5}, v), "boundary coefficients");
    shape_pairs(f, shapes(f, {0, 3, 8, 9, 27, 40}, {(ll)p - 1}), "sparse");
  }
  for (int p : {2, 3, 5, 7, 11}) { incr(FP(p), t ? 4000 : 1500);
    mc::unit(fmt("F%d base representation", p), [&] {
      FP f(p);
      for (ll i = 0; i < 3000; i++) mc::run("base representation", {i}, [&] { chk(f, fp_poly_t::from_base_rep((int)i, p), pdigits(i, p), "from_base_rep"); });
      for (ll i : {2147483647LL, 2147483646LL, 1073741824LL, 65535LL, 65536LL, 1000000007LL}) mc::run("base representation", {i}, [&] { chk(f, fp_poly_t::from_base_rep((int)i, p), pdigits(i, p), "from_base_rep"); });
    });
    mc::unit(fmt("F%d integer constructors", p), [&] {
      FP f(p);
      for (int c = -2 * p - 1; c <= 2 * p + 1; c++) for (int d : {-p, -1, 0, 1, p, p + 1}) for (int e : {-1, 0, 2, p}) mc::run("c2,c1,c0", {c, d, e}, [&] {
        Poly w = {md(e, p), md(d, p), md(c, p)}; norm(w); chk(f, fp_poly_t(c, d, e, p), w, "fp_poly_t(c2,c1,c0,p)");
        w = {md(d, p), md(c, p)}; norm(w); chk(f, fp_poly_t(c, d, p), w, "fp_poly_t(c1,c0,p)");
        w = {md(c, p)}; norm(w); chk(f, fp_poly_t(c, p), w, "fp_poly_t(c0,p)");
      });
    });
  }
  mixed(FP(2), FP(3)); mixed(FP(5), FP(7)); mixed(FP(3), FP(2)); mixed(FP(7), FP(2));
}
#endif
// ---------------------------------------------------------------- A06
#ifdef MC_PROP_A06
MC_PROP(A06) {
  bool t = mc::thorough;
  small_field(F2N(0x7), t ? 3 : 2, t ? 5 : 4, t ? 4 : 3);
  small_field(F2N(0xb), t ? 2 : 1, t ? 3 : 2, 3);
  if (!mc::asan) all_pairs(F2N(0xb), 2, 1);
  small_field(F2N(0xd), t ? 2 : 1, 2, 2);
  small_field(F2N(0x2), t ? 5 : 4, 6, 3);
  small_field(F2N(0x3), 3, 4, 2);
  small_field(F2N(0x13), 1, t ? 2 : 1, t ? 3 : 2);
  small_field(F2N(0x19), 1, 1, 0);
  for (uint64_t m : {0x7ull, 0x13ull, 0x25ull, 0x11bull, 0x1002dull, 0x100400007ull}) {
    F2N f(m);
    std::vector<ll> v = {1, 2, f.R->q - 1};
    shape_pairs(f, shapes(f, {0, 1, 2, 5}, v), "boundary coefficients");
    shape_pairs(f, shapes(f, {0, 3, 8, 9, 27, 40}, {f.R->q - 1}), "sparse");
  }
  for (uint64_t m : {2ull, 3ull, 7ull, 0xbull, 0x13ull, 0x11bull}) incr(F2N(m), t ? 4000 : 1200);
  for (uint64_t m : {7ull, 0xbull, 0x13ull}) mc::unit(fmt("F2[y]/%llx integer constructors", (unsigned long long)m), [&] {
    F2N f(m);
    for (int c : {0, 1}) for (int d : {0, 1}) for (int e : {0, 1}) mc::run("c2,c1,c0", {c, d, e}, [&] {
      Poly w = {e, d, c}; norm(w); chk(f, f2n_poly_t(c, d, e, f.M), w, "f2n_poly_t(c2,c1,c0,m)");
      w = {d, c}; norm(w); chk(f, f2n_poly_t(c, d, f.M), w, "f2n_poly_t(c1,c0,m)");
      w = {c}; norm(w); chk(f, f2n_poly_t(c, f.M), w, "f2n_poly_t(c0,m)");
      chk(f, f2n_poly_t::prime_subfield_element(c, f.M), w, "prime_subfield_element(v,m)");
    });
    MC_THROWS(f2n_poly_t::from_base_rep(3, f.M));
  });
  mixed(F2N(0x7), F2N(0xb)); mixed(F2N(0xb), F2N(0xd)); mixed(F2N(0x7), F2N(0x3)); mixed(F2N(0xd), F2N(0xb));
}
#endif
// ---------------------------------------------------------------- A07
#ifdef MC_PROP_A07
MC_PROP(A07) {
  bool t = mc::thorough;
  FPN f9(3, pol({1, 0, 1})), f4(2, pol({1, 1, 1})), f25(5, pol({1, 1, 1})), f8(2, pol({1, 0, 1, 1})), f27(3, pol({1, 0, 2, 1})), f9b(3, pol({1, 1, 2})), f9c(3, pol({2, 0, 2}));
  small_field(f4, 2, t ? 4 : 3, t ? 4 : 3);
  small_field(f9, t ? 2 : 1, 2, 3);
  small_field(f8, t ? 2 : 1, 2, 2);
  small_field(f25, t ? 1 : 0, 1, 2);
  small_field(f27, t ? 1 : 0, 1, 2);
  small_field(f9b, t ? 1 : 0, 1, 0);
  small_field(f9c, t ? 1 : 0, 1, 0);
  small_field(FPN(3, pol({1, 1})), 2, 3, 2); // degree-one modulus
  for (const FPN &f : {f4, f9, f8, f25, f27, FPN(7, pol({1, 0, 1})), FPN(101, pol({1, 0, 2})), FPN(46349, pol({1, 0, 2}))}) {
    std::vector<ll> v = {1, f.R->q - 1, (ll)f.p};
    shape_pairs(f, shapes(f, t ? std::vector<int>{0, 1, 2, 5} : std::vector<int>{0, 1, 4}, v), "boundary coefficients");
    shape_pairs(f, shapes(f, {0, 3, 8, 9, 27}, {f.R->q - 1}), "sparse");
  }
  mixed(f4, f9); mixed(f4, f8); mixed(f9, f9b); mixed(f9b, f9);
  mc::unit("integer scalars", [&] {
    for (const FPN &f : {f4, f9, f25}) for (ll i = 0; i < ipow(f.R->q, 2); i++) for (int c = 0; c < f.p; c++) mc::run("index, integer mod p", {f.p, i, c}, [&] {
      Poly a = pdigits(i, f.R->q); fpn_poly_t x = mk(f, a);
      chk(f, x * intmod_t(c, f.p), pscale(*f.R, a, c), "a*c");
      chk(f, x, a, "a afterwards");
    });
    for (const FPN &f : {f4, f9, f25}) {
      for (int v = -6; v < 7; v++) mc::run("prime subfield element", {f.p, v}, [&] { ll w = md(v, f.p); chk(f, fpn_poly_t::prime_subfield_element(v, f.M), w ? Poly{w} : Poly{}, "prime_subfield_element(v,m)"); });
      MC_THROWS(fpn_poly_t::from_base_rep(3, f.M));
    }
  });
}
#endif
