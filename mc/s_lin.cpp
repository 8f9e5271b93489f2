// L03: matrices over fields; L04: Euclidean-domain determinants, characteristic
// polynomials, companions; L05: minimal and characteristic polynomials of
// field elements; L06: field conversion and diagonalizability.
#include "kinds.h"
#include <climits>
#include <set>
#include "spffl/linalg/f2_linear_algebra.h"
#include "spffl/linalg/fp_linear_algebra.h"
#include "spffl/linalg/f2_polymod_linear_algebra.h"
#include "spffl/linalg/f2_polymod_convert.h"
#include "spffl/linalg/min_char_polys.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/units/f2_polymod_units.h"
using namespace spffl::linalg;

static M tr(const M &a) { M t(C(a), V(a.size())); for (size_t i = 0; i < a.size(); i++) for (int j = 0; j < C(a); j++) t[j][i] = a[i][j]; return t; }
static V mv(const Ring &R, const M &a, const V &x) { V r(a.size(), 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < x.size(); j++) r[i] = R.add(r[i], R.mul(a[i][j], x[j])); return r; }
static M ident(int n) { return ref::mident(n); }
// k-th r x c matrix over an alphabet of size s.
static M matof(ll k, int r, int c, ll s) { M m(r, V(c)); for (int i = r - 1; i >= 0; i--) for (int j = c - 1; j >= 0; j--) { m[i][j] = k % s; k /= s; } return m; }

#ifdef MC_PROP_L03
// Alphabet letter -> reference index (differs for Q only).
template <class K> ll im(const K &, ll a) { return a; }
template <> ll im<KRat>(const KRat &k, ll a) { return k.im(a); }
template <class K> struct Lin {
  typedef tmatrix<typename K::T> W; typedef tvector<typename K::T> X;
  const K &k; const Ring &R;
  Lin(const K &k_) : k(k_), R(*k_.R) {}
  W lib(const M &a) const { W x((int)a.size(), C(a)); for (size_t i = 0; i < a.size(); i++) for (int j = 0; j < C(a); j++) x[(int)i][j] = k.mk(a[i][j]); return x; }
  X libv(const V &a) const { X x((int)a.size()); for (size_t i = 0; i < a.size(); i++) x[(int)i] = k.mk(a[i]); return x; }
  M img(M a) const { for (auto &r : a) for (auto &e : r) e = im(k, e); return a; }
  V imgv(V a) const { for (auto &e : a) e = im(k, e); return a; }
  void one(const M &letters, ll s, bool solve) const {
    M a = img(letters); W A = lib(letters); int r = (int)a.size(), c = C(a);
    auto zero = k.mk(0), uno = k.mk(1);
    M e = a; int rank = ref::mrref(R, e);
    { W b(A); b.row_echelon_form(); chkm(k, b, e, "reduced row-echelon form"); MC_EQ(b.get_rank_rr(), rank); }
    { W b(A); b.row_reduce_below(); M g = rdm(k, b); int lead = -1, nz = 0; bool ok = (int)g.size() == r, zs = false;
      for (auto &row : g) { int l = 0; while (l < c && !row[l]) l++; if (l == c) zs = true; else { ok = ok && !zs && l > lead && row[l] == 1; lead = l; nz++; } }
      MC_CHECK(ok && nz == rank, "reduced rows are not in echelon form with unit leaders: " << sm(g)); MC_EQ(b.get_rank_rr(), rank);
      ref::mrref(R, g); MC_CHECK(g == e, "reduction changes the row space: " << sm(rdm(k, b))); }
    if (r == c) { W b(A); auto sc = k.mk(1); b.row_reduce_below_with_scalar(sc); ll dd = ref::mdet(R, rdm(k, b)); MC_EQ(R.mul(k.rd(sc), dd), ref::mdet(R, a)); }
    MC_EQ(A.get_rank(), rank);
    { W z, y; bool h = A.get_rr_non_zero_rows(z), g = A.get_rech_non_zero_rows(y); MC_EQ(h, rank > 0); MC_EQ(g, rank > 0);
      if (h) { M m = rdm(k, z); MC_EQ((int)m.size(), rank); ref::mrref(R, m); MC_CHECK(m == M(e.begin(), e.begin() + rank), "non-zero reduced rows span another space"); }
      if (g) chkm(k, y, M(e.begin(), e.begin() + rank), "non-zero echelon rows"); }
    { W b; bool h = A.get_kernel_basis(b, zero, uno); MC_EQ(h, rank < c);
      if (h) { M m = rdm(k, b); MC_EQ((int)m.size(), c - rank); MC_EQ(C(m), c); for (auto &v : m) MC_CHECK(mv(R, a, v) == V(r, 0), "kernel vector " << sv(v) << " is not annihilated"); M q = m; MC_CHECK(ref::mrref(R, q) == c - rank, "kernel basis is dependent: " << sm(m));
        MC_CHECK(!mc::throws([&] { A.check_kernel_basis(b); }), "a correct kernel basis is refused"); } 
      for (int j = 0; j < c; j++) { V u(c, 0); u[j] = 1; W t(1, c); for (int i = 0; i < c; i++) t[0][i] = k.mk(u[i]); bool kern = mv(R, a, u) == V(r, 0); MC_EQ(mc::throws([&] { A.check_kernel_basis(t); }), !kern); } }
    MC_EQ(A.is_zero(), rank == 0); MC_EQ(A.is_square(), r == c);
    if (r == c) {
      ll d = ref::mdet(R, a); MC_EQ(k.rd(A.det()), d);
      M inv; bool hi = rank == r; if (hi) { M w = a; for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) w[i].push_back(i == j); ref::mrref(R, w); for (auto &x : w) inv.push_back(V(x.begin() + r, x.end())); }
      W B; MC_EQ(A.inverse(B), hi); if (hi) { chkm(k, B, inv, "inverse"); MC_CHECK(!mc::throws([&] { A.check_inverse(B); }), "a correct inverse is refused"); W D(B); D[0][0] = D[0][0] + k.mk(1); MC_THROWS(A.check_inverse(D)); }
      for (int p : {-3, -1, 0, 1, 2, 3, 5, 6}) { W P; bool zr = rank == 0;
        if (zr && p <= 0) { MC_THROWS(A.exp(p, P)); continue; }
        int ok = A.exp(p, P); MC_EQ(ok, p > 0 || hi ? 1 : 0); if (!ok) continue;
        M b = p < 0 ? inv : a, w = ident(r); for (int i = 0; i < std::abs(p); i++) w = ref::mmul(R, w, b, r, r); chkm(k, P, w, "power"); }
      if (hi) { W P; MC_THROWS(A.exp(INT_MIN, P)); }
      chkm(k, A.make_I(zero, uno), ident(r), "identity");
    } else { W B; MC_THROWS(A.det()); MC_THROWS(A.inverse(B)); MC_THROWS(A.exp(2, B)); MC_THROWS(A.make_I(zero, uno)); }
    if (solve) { ll n = ref::ipow(s, r); if (n > 81) n = 81; for (ll q = 0; q < n; q++) { V bl = matof(q * (ref::ipow(s, r) / n), 1, r, s)[0], b = imgv(bl); X x; bool h = A.solve_unique(x, libv(bl), zero, uno);
      M w = a; for (int i = 0; i < r; i++) w[i].push_back(b[i]); int rk = ref::mrref(R, w); bool want = rank == c && rk == rank; MC_EQ(h, want); if (h && want) { V sol(c); for (int i = 0; i < c; i++) sol[i] = w[i][c]; chkv(k, x, sol, "solution"); } } }
    { W P = A.transpose() * A; chkm(k, P, ref::mmul(R, tr(a), a, r, c), "product with the transpose"); }
    chkm(k, A, a, "matrix after the queries");
  }
  // All matrices of a shape over the first s letters.
  void shape(int r, int c, ll s, bool solve) const {
    ll n = ref::ipow(s, r * c), chunk = n > 64 ? (n + 63) / 64 : n;
    for (ll lo = 0; lo < n; lo += chunk) mc::unit(k.name + mc::fmt(" %dx%d over %lld letters from %lld", r, c, s, lo), [&] {
      for (ll i = lo; i < n && i < lo + chunk; i++) { mc::run("matrix", {i}, [&] { one(matof(i, r, c, s), s, solve); }); mc::count_states(); if (mc::give_up()) return; } });
  }
  // All pairs: products, matrix-vector products, mismatches.
  void pairs(int r, int m, int c, ll s) const {
    ll n1 = ref::ipow(s, r * m), n2 = ref::ipow(s, m * c), chunk = (n1 + 31) / 32;
    for (ll lo = 0; lo < n1; lo += chunk) mc::unit(k.name + mc::fmt(" %dx%d times %dx%d from %lld", r, m, m, c, lo), [&] {
      for (ll i = lo; i < n1 && i < lo + chunk; i++) { M la = matof(i, r, m, s), a = img(la); W A = lib(la);
        for (ll j = 0; j < n2; j++) mc::run("product", {i, j}, [&] { M lb = matof(j, m, c, s), b = img(lb); W B = lib(lb); chkm(k, A * B, ref::mmul(R, a, b, m, c), "product"); if (c == 1) { chkv(k, A * B.get_column(0), mv(R, a, tr(b)[0]), "matrix-vector product"); }
          if (r != c) MC_THROWS(B * A); }); mc::count_states(n2); if (mc::give_up()) return; } });
  }
  void errors() const { mc::unit(k.name + " mismatched shapes", [&] {
    for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) for (int r2 = 1; r2 <= 3; r2++) for (int c2 = 1; c2 <= 3; c2++) mc::run("shapes", {r, c, r2, c2}, [&] {
      mc::count_states(); M o(r, V(c, 0)), p(r2, V(c2, 0)); for (int i = 0; i < std::min(r, c); i++) o[i][i] = 1; W A = lib(o), B = lib(p), z = A; X x, v = libv(V(r2, 1)), u = libv(V(c2, 1));
      MC_EQ(mc::throws([&] { (void)(A * B); }), c != r2); MC_EQ(mc::throws([&] { z *= B; }), c != r2); MC_EQ(mc::throws([&] { (void)(A + B); }), r != r2 || c != c2); MC_EQ(mc::throws([&] { (void)(A - B); }), r != r2 || c != c2);
      MC_EQ(mc::throws([&] { (void)(A * u); }), c != c2); MC_EQ(mc::throws([&] { (void)A.paste(B); }), r != r2); MC_EQ(mc::throws([&] { (void)A.paste_vector(v); }), r != r2);
      if (c <= r) MC_EQ(mc::throws([&] { (void)A.solve_unique(x, v, k.mk(0), k.mk(1)); }), r != r2);
      if (c != c2) MC_THROWS(A.check_kernel_basis(B));
      chkm(k, A, img(o), "left operand"); chkm(k, B, img(p), "right operand"); }); }); }
};
template <class K> void lin(const K &k, std::vector<std::array<ll, 3>> shapes, std::vector<std::array<ll, 4>> prods) {
  Lin<K> l(k); for (auto &s : shapes) l.shape((int)s[0], (int)s[1], s[2], true); for (auto &p : prods) l.pairs((int)p[0], (int)p[1], (int)p[2], p[3]); l.errors();
}
MC_PROP(L03) {
  bool t = mc::thorough, as = mc::asan; typedef std::vector<std::array<ll, 3>> S; typedef std::vector<std::array<ll, 4>> P;
  S b; for (ll r = 1; r <= 4; r++) for (ll c = 1; c <= 4; c++) if (r * c <= (as ? 6 : t ? 16 : 12)) b.push_back({r, c, 2}); if (!as) { b.push_back({1, 7, 2}); b.push_back({7, 1, 2}); b.push_back({2, 5, 2}); b.push_back({5, 2, 2}); }
  lin(KBit(), b, as ? P{{2, 2, 2, 2}} : P{{2, 2, 2, 2}, {2, 3, 2, 2}, {3, 2, 3, 2}, {3, 3, 1, 2}, {1, 3, 3, 2}});
  S q; for (ll r = 1; r <= 3; r++) for (ll c = 1; c <= 3; c++) if (r * c <= (as ? 4 : 9)) q.push_back({r, c, 3}); if (t && !as) { q.push_back({2, 5, 3}); q.push_back({5, 2, 3}); q.push_back({3, 4, 3}); q.push_back({4, 3, 3}); }
  lin(KMd(3), q, as ? P{{1, 2, 2, 3}} : P{{2, 2, 2, 3}, {2, 3, 1, 3}, {1, 3, 2, 3}});
  S f; f.push_back({1, 1, 5}); f.push_back({1, 3, 5}); f.push_back({3, 1, 5}); f.push_back({2, 2, as ? 3 : 5}); if (!as) { f.push_back({2, 3, t ? 5 : 4}); f.push_back({3, 2, t ? 5 : 4}); } if (t && !as) f.push_back({3, 3, 4});
  lin(KMd(5), f, as ? P{} : P{{2, 2, 1, 5}, {1, 2, 2, 5}});
  lin(KMd(65537), S{{1, 2, 3}, {2, 2, as ? 2 : 4}}, P{{1, 2, 1, 4}});
  S e{{1, 1, 4}, {1, 3, 4}, {3, 1, 4}, {2, 2, as ? 3 : 4}}; if (!as) { e.push_back({2, 3, t ? 4 : 3}); e.push_back({3, 2, t ? 4 : 3}); e.push_back({3, 3, t ? 4 : 2}); }
  lin(KExt(), e, as ? P{} : P{{1, 2, 2, 4}, {2, 2, 1, 4}});
  lin(KF2n(0x11b), S{{1, 2, 4}, {2, 2, as ? 3 : 6}}, P{{1, 2, 1, 4}});
  lin(KFpn(3, {1, 0, 1}), S{{1, 1, 9}, {1, 2, 9}, {2, 1, 9}, {2, 2, as ? 2 : t ? 9 : 6}}, P{{1, 2, 1, 5}});
  S r{{1, 1, 6}, {1, 2, 6}, {2, 1, 6}, {2, 2, as ? 3 : 6}}; if (!as) { r.push_back({2, 3, t ? 5 : 3}); r.push_back({3, 2, t ? 5 : 3}); r.push_back({3, 3, t ? 3 : 2}); }
  lin(KRat(), r, as ? P{} : P{{2, 2, 1, 4}, {1, 2, 2, 4}});
}
#endif

// ---- polynomials over a field as reference values (lists), determinants by Laplace
typedef std::vector<std::vector<Poly>> PM;
static Poly pdet(const Ring &R, const PM &a) {
  int n = (int)a.size(); if (n == 0) return {1}; if (n == 1) return a[0][0];
  Poly d; for (int j = 0; j < n; j++) { if (a[0][j].empty()) continue; PM s; for (int i = 1; i < n; i++) { std::vector<Poly> r; for (int l = 0; l < n; l++) if (l != j) r.push_back(a[i][l]); s.push_back(r); } Poly t = ref::pmul(R, a[0][j], pdet(R, s)); d = j & 1 ? ref::psub(R, d, t) : ref::padd(R, d, t); }
  return d;
}
static Poly charpoly(const Ring &R, const M &a) { PM m(a.size(), std::vector<Poly>(a.size())); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) { m[i][j] = Poly{R.neg(a[i][j])}; ref::norm(m[i][j]); if (i == j) m[i][j] = ref::padd(R, m[i][j], Poly{0, 1}); } return pdet(R, m); }
struct F2 { typedef f2_poly_t P; RingP R{new ref::Zn(2)}; std::string name = "F2"; };
static f2_poly_t mk(const F2 &, const Poly &a) { return f2p(a); }
static void chk(const F2 &, const f2_poly_t &x, const Poly &w, const char *what) { Poly g = of_f2p(x); if (g != w) mc::fail(mc::fmt("%s gives %s, expected %s", what, show(g).c_str(), show(w).c_str())); }
static bool rd(const F2 &, const f2_poly_t &x, Poly &g) { g = of_f2p(x); return true; }

#ifdef MC_PROP_L04
static void peigen(const Ring &R, const M &a, const Poly &c) { // reference self-check: Cayley-Hamilton
  int n = (int)a.size(); M s = ref::mzero(n, n), p = ident(n); for (ll e : c) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s[i][j] = R.add(s[i][j], R.mul(e, p[i][j])); p = ref::mmul(R, p, a, n, n); } MC_CHECK(s == ref::mzero(n, n), "the matrix does not satisfy its characteristic polynomial");
}
// All n x n matrices over the first s letters of a kind: characteristic polynomial.
template <class K, class F, class FN> void chp(const K &k, const F &f, int n, ll s, FN &&fn) {
  ll c = ref::ipow(s, n * n), chunk = c > 32 ? (c + 31) / 32 : c;
  for (ll lo = 0; lo < c; lo += chunk) mc::unit("characteristic polynomials over " + k.name + mc::fmt(", %dx%d over %lld letters from %lld", n, n, s, lo), [&] {
    for (ll i = lo; i < c && i < lo + chunk; i++) { mc::run("matrix", {i}, [&] { mc::count_states(); M a = matof(i, n, n, s); auto A = mkm(k, a); Poly w = charpoly(*k.R, a); chk(f, fn(A), w, "characteristic polynomial"); peigen(*k.R, a, w); chkm(k, A, a, "matrix"); }); if (mc::give_up()) return; } });
  if (n == 2) mc::unit("characteristic polynomials over " + k.name + ", non-square", [&] { for (int r = 1; r <= 3; r++) for (int q = 1; q <= 3; q++) if (r != q) mc::run("shape", {r, q}, [&] { mc::count_states(); auto A = mkm(k, M(r, V(q, 1))); MC_THROWS(fn(A)); }); });
}
template <class K, class F, class FN, class GN> void comp(const K &k, const F &f, int d, ll s, FN &&companion, GN &&cp) {
  mc::unit("companions of degree " + std::to_string(d) + " over " + k.name, [&] { ll n = ref::ipow(s, d);
    for (ll i = 0; i < n; i++) { mc::run("polynomial", {i}, [&] { mc::count_states(); Poly w = ref::pdigits(i, s); w.resize(d + 1, 0); w[d] = 1; auto A = companion(mk(f, w)); M a = rdm(k, A); if ((int)a.size() != d || C(a) != d) { mc::fail("wrong dimensions"); return; }
      for (auto &r : a) for (ll e : r) if (e < 0 || e >= k.R->q) { mc::fail("companion entry outside the field"); return; }
      Poly g = charpoly(*k.R, a); if (g != w) mc::fail("companion of " + show(w) + " has characteristic polynomial " + show(g)); chk(f, cp(A), w, "characteristic polynomial of the companion");
      // minimal polynomial too: 1, A, ..., A^(d-1) are independent
      M p = ident(d), st; for (int e = 0; e < d; e++) { V row; for (auto &r : p) row.insert(row.end(), r.begin(), r.end()); st.push_back(row); p = ref::mmul(*k.R, p, a, d, d); } MC_EQ(ref::mrref(*k.R, st), d); }); if (mc::give_up()) return; } });
}
template <class F> struct ED {
  typedef tmatrix<typename F::P> W;
  const F &f; const Ring &R;
  ED(const F &f_) : f(f_), R(*f_.R) {}
  W lib(const PM &a) const { W x((int)a.size(), (int)a[0].size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) x[(int)i][(int)j] = mk(f, a[i][j]); return x; }
  bool get(W &x, PM &a) const { a.assign(x.get_num_rows(), {}); for (int i = 0; i < x.get_num_rows(); i++) for (int j = 0; j < x.get_num_cols(); j++) { Poly p; if (!rd(f, x[i][j], p)) { mc::fail("an entry is not canonical"); return false; } a[i].push_back(p); } return true; }
  static std::string sp(const PM &a) { std::string s; for (auto &r : a) { for (auto &e : r) s += show(e); s += "/"; } return s; }
  // rank over the fraction field by fraction-free elimination
  int rank(PM a) const { int r = 0, rows = (int)a.size(), cols = (int)a[0].size(); for (int c = 0; c < cols && r < rows; c++) { int q = r; while (q < rows && a[q][c].empty()) q++; if (q == rows) continue; std::swap(a[q], a[r]); for (int i = r + 1; i < rows; i++) { Poly x = a[i][c], y = a[r][c]; for (int j = 0; j < cols; j++) a[i][j] = ref::psub(R, ref::pmul(R, a[i][j], y), ref::pmul(R, a[r][j], x)); } r++; } return r; }
  void echelon(const PM &g, int rk, const char *w, bool reduced) const {
    int lead = -1, nz = 0; bool ok = true, zs = false; int c = (int)g[0].size(), i = 0;
    for (auto &row : g) { int l = 0; while (l < c && row[l].empty()) l++; if (l == c) zs = true; else { ok = ok && !zs && l > lead; lead = l; nz++; if (reduced) for (int q = 0; q < i; q++) ok = ok && g[q][l].empty(); } i++; }
    MC_CHECK(ok && nz == rk, w << " is not in echelon form with " << rk << " non-zero rows: " << sp(g));
  }
  void one(const PM &a) const {
    int r = (int)a.size(), c = (int)a[0].size(); W A = lib(a); int rk = rank(a); PM g;
    auto span = [&](const PM &b, const char *w) { PM s = a; s.insert(s.end(), b.begin(), b.end()); MC_CHECK(rank(b) == rk && rank(s) == rk, w << " changes the row space: " << sp(b)); };
    { W b(A); typename F::P sn = mk(f, {1}), sd = mk(f, {1}); b.ed_row_reduce_below_with_scalar(sn, sd); if (!get(b, g)) return; echelon(g, rk, "fraction-free reduction", false); span(g, "fraction-free reduction");
      if (r == c) { Poly n, d; if (!rd(f, sn, n) || !rd(f, sd, d)) { mc::fail("the reported scale is not canonical"); return; } MC_CHECK(ref::pmul(R, d, pdet(R, a)) == ref::pmul(R, n, pdet(R, g)), "det(A) * " << show(d) << " differs from " << show(n) << " * det(B), B = " << sp(g)); } }
    { W b(A); b.ed_row_reduce_below(); if (!get(b, g)) return; echelon(g, rk, "fraction-free reduction", false); }
    { W b(A); b.ed_row_echelon_form(); if (!get(b, g)) return; echelon(g, rk, "fraction-free echelon form", true); span(g, "fraction-free echelon form"); }
    if (r == c) { Poly d = pdet(R, a); chk(f, A.ed_det(), d, "determinant"); W B; bool h = A.ed_inverse(B); MC_EQ(h, d.size() == 1);
      if (h && d.size() == 1) { if (!get(B, g)) return; bool ok = (int)g.size() == r && (int)g[0].size() == r; if (ok) for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) { Poly s; for (int l = 0; l < r; l++) s = ref::padd(R, s, ref::pmul(R, a[i][l], g[l][j])); ok = ok && s == (i == j ? Poly{1} : Poly{}); } MC_CHECK(ok, "the inverse does not multiply back to the identity: " << sp(g)); } }
    else { W B; MC_THROWS(A.ed_det()); MC_THROWS(A.ed_inverse(B)); }
    if (!get(A, g)) return; MC_CHECK(g == a, "the matrix changed: " << sp(g));
  }
  // All r x c matrices with entries among the first s polynomials (by index).
  void shape(int r, int c, ll s) const { ll n = ref::ipow(s, r * c), chunk = n > 64 ? (n + 63) / 64 : n;
    for (ll lo = 0; lo < n; lo += chunk) mc::unit("polynomial matrices over " + f.name + mc::fmt(", %dx%d with %lld entries from %lld", r, c, s, lo), [&] { for (ll i = lo; i < n && i < lo + chunk; i++) { mc::run("matrix", {i}, [&] { mc::count_states(); M m = matof(i, r, c, s); PM a(r); for (int x = 0; x < r; x++) for (int y = 0; y < c; y++) a[x].push_back(ref::pdigits(m[x][y], R.q)); one(a); }); if (mc::give_up()) return; } }); }
};
// The integers, as a Euclidean domain the templates can be instantiated for.
namespace zz { struct Z { ll v; Z(ll x = 0) : v(x) {} Z &operator+=(Z o) { v += o.v; return *this; } Z &operator-=(Z o) { v -= o.v; return *this; } Z &operator*=(Z o) { v *= o.v; return *this; } Z &operator/=(Z o) { if (!o.v) throw spffl::exception_t("division by zero"); v /= o.v; return *this; } Z &operator%=(Z o) { if (!o.v) throw spffl::exception_t("division by zero"); v %= o.v; return *this; } Z operator+(Z o) const { return o += *this; } Z operator-(Z o) const { Z r = *this; return r -= o; } Z operator-() const { return Z(-v); } Z operator*(Z o) const { return o *= *this; } Z operator/(Z o) const { Z r = *this; return r /= o; } Z operator%(Z o) const { Z r = *this; return r %= o; } bool operator==(Z o) const { return v == o.v; } bool operator!=(Z o) const { return v != o.v; } };
  inline Z gcd(Z a, Z b) { return Z(spffl::intmath::gcd((int)a.v, (int)b.v)); }
  inline std::ostream &operator<<(std::ostream &o, const Z &z) { return o << z.v; } inline std::istream &operator>>(std::istream &i, Z &z) { return i >> z.v; } }
typedef std::vector<std::vector<ll>> ZM;
static ll zdet(const ZM &a) { int n = (int)a.size(); if (n == 1) return a[0][0]; ll d = 0; for (int j = 0; j < n; j++) { ZM b; for (int i = 1; i < n; i++) { std::vector<ll> r; for (int k = 0; k < n; k++) if (k != j) r.push_back(a[i][k]); b.push_back(r); } d += (j & 1 ? -1 : 1) * a[0][j] * zdet(b); } return d; }
static int zrank(ZM a) { int r = 0, rows = (int)a.size(), cols = (int)a[0].size(); for (int c = 0; c < cols && r < rows; c++) { int q = r; while (q < rows && !a[q][c]) q++; if (q == rows) continue; std::swap(a[q], a[r]); for (int i = r + 1; i < rows; i++) { ll x = a[i][c], y = a[r][c], g = 0; for (int j = 0; j < cols; j++) { a[i][j] = a[i][j] * y - a[r][j] * x; g = ref::igcd(g, a[i][j]); } if (g > 1) for (ll &e : a[i]) e /= g; } r++; } return r; }
static void integral(int r, int c, const std::vector<ll> &L) { ll s = (ll)L.size(), n = ref::ipow(s, r * c), chunk = n > 32 ? (n + 31) / 32 : n;
  for (ll lo = 0; lo < n; lo += chunk) mc::unit(mc::fmt("integer matrices, %dx%d with %lld entries from %lld", r, c, s, lo), [&] { for (ll i = lo; i < n && i < lo + chunk; i++) { mc::run("matrix", {i}, [&] { mc::count_states();
    ZM a(r, std::vector<ll>(c)), g; ll k = i; for (auto &row : a) for (ll &e : row) { e = L[k % s]; k /= s; } tmatrix<zz::Z> A(r, c); for (int x = 0; x < r; x++) for (int y = 0; y < c; y++) A[x][y] = zz::Z(a[x][y]);
    auto get = [&](tmatrix<zz::Z> &X) { ZM m(X.get_num_rows()); for (int x = 0; x < X.get_num_rows(); x++) for (int y = 0; y < X.get_num_cols(); y++) m[x].push_back(X[x][y].v); return m; }; auto sh = [](const ZM &m) { std::string t; for (auto &q : m) { for (ll e : q) t += std::to_string(e) + " "; t += "/ "; } return t; }; int rk = zrank(a);
    for (int full = 0; full < 2; full++) { tmatrix<zz::Z> B(A); if (full) B.ed_row_echelon_form(); else B.ed_row_reduce_below(); g = get(B); ZM u = a; u.insert(u.end(), g.begin(), g.end()); int lead = -1, nz = 0, at = 0; bool ok = true, zs = false; for (auto &row : g) { int l = 0; while (l < c && !row[l]) l++; if (l == c) zs = true; else { ok = ok && !zs && l > lead; lead = l; nz++; if (full) for (int q = 0; q < at; q++) ok = ok && !g[q][l]; } at++; } MC_CHECK(ok && nz == rk && zrank(g) == rk && zrank(u) == rk, "reduction of " << sh(a) << "gives " << sh(g)); }
    tmatrix<zz::Z> B; if (r != c) { MC_THROWS(A.ed_det()); MC_THROWS(A.ed_inverse(B)); }
    else { ll d = zdet(a), e = A.ed_det().v; MC_CHECK(d == e, "determinant of " << sh(a) << "is " << e << ", expected " << d); bool h = A.ed_inverse(B); MC_CHECK(h == (d == 1 || d == -1), "inverse of " << sh(a) << (h ? "is returned" : "is refused")); if (h && (d == 1 || d == -1)) { g = get(B); bool ok = (int)g.size() == r && (int)g[0].size() == r; if (ok) for (int x = 0; x < r; x++) for (int y = 0; y < r; y++) { ll t = 0; for (int l = 0; l < r; l++) t += a[x][l] * g[l][y]; ok = ok && t == (x == y); } MC_CHECK(ok, "inverse of " << sh(a) << "is " << sh(g)); } }
    MC_CHECK(get(A) == a, "the matrix changed"); }); if (mc::give_up()) return; } }); }
MC_PROP(L04) {
  bool t = mc::thorough, as = mc::asan;
  F2 f2; KBit kb;
  for (int n = 1; n <= (as ? 2 : 4); n++) if (n < 4 || t) chp(kb, f2, n, 2, [](auto &A) { return f2_char_poly(A); });
  if (as) chp(kb, f2, 3, 2, [](auto &A) { return f2_char_poly(A); });
  for (int d = 1; d <= (as ? 4 : t ? 8 : 6); d++) comp(kb, f2, d, 2, [](f2_poly_t p) { return f2_companion_matrix(p); }, [](auto &A) { return f2_char_poly(A); });
  auto fp = [&](int p, std::vector<std::pair<int, ll>> ns, int dm) { KMd k(p); FP f(p); for (auto &n : ns) chp(k, f, n.first, n.second, [](auto &A) { return fp_char_poly(A); }); for (int d = 1; d <= dm; d++) comp(k, f, d, p, [](fp_poly_t q) { return fp_companion_matrix(q); }, [](auto &A) { return fp_char_poly(A); }); };
  fp(2, {{1, 2}, {2, 2}, {3, 2}}, 3);
  fp(3, as ? std::vector<std::pair<int, ll>>{{1, 3}, {2, 3}} : std::vector<std::pair<int, ll>>{{1, 3}, {2, 3}, {3, 3}}, as ? 3 : 4);
  fp(5, {{1, 5}, {2, as ? 3 : 5}}, as ? 2 : 3);
  if (!as) fp(7, {{1, 7}, {2, 7}}, 3);
  auto fq = [&](uint64_t m, std::vector<std::pair<int, ll>> ns, int dm) { KF2n k(m); F2N f(m); for (auto &n : ns) chp(k, f, n.first, n.second, [](auto &A) { return f2_polymod_characteristic_polynomial(A); }); for (int d = 1; d <= dm; d++) comp(k, f, d, k.R->q, [](f2n_poly_t q) { return f2np_companion_matrix(q); }, [](auto &A) { return f2_polymod_characteristic_polynomial(A); }); };
  fq(7, as ? std::vector<std::pair<int, ll>>{{1, 4}, {2, 3}} : std::vector<std::pair<int, ll>>{{1, 4}, {2, 4}, {3, t ? 3 : 2}}, as ? 2 : 3);
  fq(13, {{1, 8}, {2, as ? 2 : t ? 8 : 5}}, as ? 1 : 2);
  fq(3, {{1, 2}, {2, 2}, {3, 2}}, 3);
  { ED<F2> e(f2); e.shape(1, 1, 32); e.shape(1, 2, 8); e.shape(2, 1, 8); e.shape(2, 2, as ? 3 : t ? 16 : 8); e.shape(2, 3, as ? 2 : t ? 5 : 4); e.shape(3, 2, as ? 2 : t ? 5 : 4); e.shape(3, 3, as ? 2 : t ? 4 : 3); if (t && !as) e.shape(4, 4, 2); }
  { FP f(3); ED<FP> e(f); e.shape(1, 1, 27); e.shape(1, 3, 3); e.shape(3, 1, 3); e.shape(2, 2, as ? 3 : t ? 12 : 9); e.shape(2, 3, as ? 2 : t ? 4 : 3); e.shape(3, 2, as ? 2 : t ? 4 : 3); if (!as) e.shape(3, 3, t ? 3 : 2); }
  { FP f(5); ED<FP> e(f); e.shape(1, 1, 25); e.shape(2, 2, as ? 3 : 7); }
  { F2N f(7); ED<F2N> e(f); e.shape(1, 1, 64); e.shape(2, 2, as ? 3 : t ? 9 : 6); if (!as) e.shape(2, 3, 3); }
  integral(1, 1, {0, 1, -1, 5, -6, 100}); integral(2, 2, {0, 1, -1, 2, -3, 6, 4}); integral(1, 3, {0, 1, -2, 6}); integral(3, 1, {0, 1, -2, 6}); integral(2, 3, {0, 1, -2, 3}); integral(3, 2, {0, 1, -2, 3}); if (!as) { integral(3, 3, t ? std::vector<ll>{0, 1, -1, 2} : std::vector<ll>{0, 1, -2}); if (t) integral(3, 3, {0, -1, 3, 2}); } integral(3, 3, {0, 3});
  // Characteristics whose squares exceed an int: entries at both ends of the field.
  for (int p : {46349, 65537, 1000003}) { KMd k(p); FP f(p); const std::vector<ll> L = {0, 1, p - 1, p - 2, p / 2, 46341}; for (int n = 1; n <= 3; n++) mc::unit(mc::fmt("characteristic polynomials over F%d, %dx%d", p, n, n), [&] { ll c = n < 3 ? ref::ipow((ll)L.size(), n * n) : as ? 12 : 400; for (ll i = 0; i < c; i++) { mc::run("matrix", {i}, [&] { mc::count_states(); ll x = n < 3 ? i : i * 25013 + 7; M a(n, V(n)); for (auto &r : a) for (ll &e : r) { e = L[x % 6]; x /= 6; } auto A = mkm(k, a); Poly w = charpoly(*k.R, a); chk(f, fp_char_poly(A), w, "characteristic polynomial"); peigen(*k.R, a, w); chkm(k, A, a, "matrix"); Poly m(a[0].begin(), a[0].end()); m.push_back(1); auto Cm = fp_companion_matrix(mk(f, m)); chk(f, fp_char_poly(Cm), m, "characteristic polynomial of the companion"); }); if (mc::give_up()) return; } }); }
  mc::unit("vectors and matrices by number", [&] {
    for (int len = 1; len <= 5; len++) for (int v = 0; v < 1 << len; v++) mc::run("f2 vector", {v, len}, [&] { mc::count_states(); chkv(kb, f2_vector_from_base_rep(v, len), matof(v, 1, len, 2)[0], "vector"); });
    for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) for (int v = 0; v < 1 << (r * c); v++) mc::run("f2 matrix", {v, r, c}, [&] { mc::count_states(); chkm(kb, f2_matrix_from_base_rep(v, r, c), matof(v, r, c, 2), "matrix"); });
    for (int p : {2, 3, 5, 7}) for (int len = 1; len <= 3; len++) { KMd k(p); int n = (int)ref::ipow(p, len); for (int v = 0; v < n; v++) mc::run("fp vector", {p, v, len}, [&] { mc::count_states(); chkv(k, fp_vector_from_base_rep(v, p, len), matof(v, 1, len, p)[0], "vector"); }); }
    for (uint64_t m : {2, 3, 7, 13, 0x11b}) for (int len = 1; len <= 2; len++) { KF2n k(m); int n = (int)ref::ipow(k.R->q, len); for (int v = 0; v < n && v < 4096; v++) mc::run("f2n vector", {(ll)m, v, len}, [&] { mc::count_states(); chkv(k, ft_vector_from_base_rep(v, f2p(m), len), matof(v, 1, len, k.R->q)[0], "vector"); }); }
  });
}
#endif

#ifdef MC_PROP_L05
// Elements are polynomials modulo m over a base field; everything by definition.
static Poly pfrob(const Ring &R, const Poly &a, const Poly &m, ll q) { Poly r = {1}; if (q < 1000) { for (ll i = 0; i < q; i++) r = ref::pmod(R, ref::pmul(R, r, a), m); return r; } for (Poly b = a; q; q >>= 1) { if (q & 1) r = ref::pmod(R, ref::pmul(R, r, b), m); b = ref::pmod(R, ref::pmul(R, b, b), m); } return r; }
static int frob(const Ring &R, const Poly &a, const Poly &m, ll q) { Poly x = a; int l = 0; do { x = pfrob(R, x, m, q); l++; } while (x != a); return l; }
// Characteristic polynomial of multiplication by a, by definition.
static Poly mulchar(const Ring &R, const Poly &a, const Poly &m) { int n = (int)m.size() - 1; M t = ref::mzero(n, n); for (int j = 0; j < n; j++) { Poly x(j + 1, 0); x[j] = 1; x = ref::pmod(R, ref::pmul(R, x, a), m); for (size_t i = 0; i < x.size(); i++) t[i][j] = x[i]; } return charpoly(R, t); }
// Least-degree monic annihilator by linear algebra on 1, a, a^2, ...
static Poly minpoly(const Ring &R, const Poly &a, const Poly &m, int from = 0) { // no annihilator has degree below from
  int n = (int)m.size() - 1; std::vector<Poly> pw; Poly x = {1};
  for (int d = 0;; d++) {
    if (d < from) { pw.push_back(x); x = ref::pmod(R, ref::pmul(R, x, a), m); continue; }
    // solve sum_{i<d} c_i a^i = a^d
    M w(n, V(d + 1, 0)); for (int i = 0; i <= d; i++) { const Poly &y = i < d ? pw[i] : x; for (size_t r = 0; r < y.size(); r++) w[r][i] = y[r]; }
    M e = w; ref::mrref(R, e); V sol(d, 0); bool ok = true;
    for (auto &row : e) { int l = 0; while (l <= d && !row[l]) l++; if (l == d) ok = false; if (l < d) sol[l] = row[d]; }
    if (ok) { Poly r; for (ll c : sol) r.push_back(R.neg(c)); r.push_back(1); return r; }
    pw.push_back(x); x = ref::pmod(R, ref::pmul(R, x, a), m);
  }
}
template <class FC, class EL, class MP, class CP, class FL> void elem(const FC &f, const Ring &R, const Poly &a, const Poly &m, const EL &x, ll q, MP &&mp, CP &&cp, FL &&fl) {
  mc::count_states(); int n = (int)m.size() - 1; int l = frob(R, a, m, q); Poly w = minpoly(R, a, m, n > 8 ? l : 0);
  chk(f, mp(x), w, "minimal polynomial"); MC_EQ(fl(x), l); MC_EQ((int)w.size() - 1, l);
  Poly c = n <= 5 ? mulchar(R, a, m) : ref::ppow(R, w, n / l); chk(f, cp(x), c, "characteristic polynomial"); if (n <= 5) MC_CHECK(ref::ppow(R, w, n / l) == c, "reference polynomials disagree");
}
MC_PROP(L05) {
  bool t = mc::thorough, as = mc::asan;
  F2 f2; const Ring &B = *f2.R;
  for (int d = 1; d <= (as ? 4 : t ? 8 : 7); d++) for (ll mm = 1ll << d; mm < 2ll << d; mm++) { Poly m = ref::pdigits(mm, 2); if (!ref::pirr(B, m)) continue;
    mc::unit(mc::fmt("F2 modulo %llx", mm), [&] { f2_poly_t M2 = f2p(m); RingP E(new ref::Ext(f2.R, m)); F2N fn(mm);
      for (ll e = 0; e < 1ll << d; e++) { mc::run("element", {mm, e}, [&] { f2_polymod_t x(f2p((uint64_t)e), M2); elem(f2, B, ref::pdigits(e, 2), m, x, 2, f2_polymod_minimal_polynomial, static_cast<f2_poly_t (*)(f2_polymod_t)>(f2_polymod_characteristic_polynomial), f2_polymod_frobenius_length);
        // The same polynomials over the extension: products over conjugates.
        Poly w = minpoly(B, ref::pdigits(e, 2), m), c = ref::ppow(B, w, d / ((int)w.size() - 1)); chk(fn, f2_polymod_min_poly(x), w, "minimal polynomial over the extension"); chk(fn, f2_polymod_char_poly(x), c, "characteristic polynomial over the extension"); }); if (mc::give_up()) return; } }); }
  // Word boundaries: lowest irreducible of each degree; subfield elements and sparse elements.
  for (int d : {8, 12, 31, 32, 33, 62, 63, 64, 65, 66}) if (!as || d < 40) mc::unit(mc::fmt("F2, degree %d", d), [&] {
    f2_poly_t Mx = spffl::factorization::f2_poly_find_irreducible(d); Poly m = of_f2p(Mx); if (ref::deg(m) != d) { mc::fail("no modulus"); return; }
    std::vector<Poly> el; for (int i = 0; i < d; i += (d > 40 ? 7 : 3)) for (int j = 0; j <= i; j += 5) { Poly a(i + 1, 0); a[i] = 1; a[j] ^= 1; ref::norm(a); el.push_back(a); }
    for (int s = 1; s < d; s++) if (d % s == 0) { Poly tr, x = {0, 1}; for (int i = 0; i < d / s; i++) { tr = ref::padd(B, tr, x); for (int j = 0; j < s; j++) x = ref::pmod(B, ref::pmul(B, x, x), m); } el.push_back(tr); tr = ref::padd(B, tr, Poly{1}); el.push_back(tr); } // relative traces lie in the subfield of degree s
    for (auto &a : el) { mc::run("element", show(a), [&] { elem(f2, B, a, m, f2_polymod_t(f2p(a), Mx), 2, f2_polymod_minimal_polynomial, static_cast<f2_poly_t (*)(f2_polymod_t)>(f2_polymod_characteristic_polynomial), f2_polymod_frobenius_length); }); if (mc::give_up()) return; } });
  for (auto pd : std::vector<std::pair<int, int>>{{2, 1}, {2, 2}, {2, 3}, {2, 4}, {3, 1}, {3, 2}, {3, 3}, {3, 4}, {5, 1}, {5, 2}, {5, 3}, {7, 1}, {7, 2}, {11, 2}, {13, 1}}) { int p = pd.first, d = pd.second; if (as && ref::ipow(p, d) > 30) continue; FP f(p); const Ring &R = *f.R; ll q = ref::ipow(p, d);
    ll nm = 0; for (ll k = 0; k < q; k++) { Poly m = ref::pdigits(k, p); m.resize(d + 1, 0); m[d] = 1; if (!ref::pirr(R, m)) continue; if (++nm > (t ? 40 : 8)) break;
      mc::unit(f.name + " modulo " + show(m), [&] { fp_poly_t Mx = mk(f, m); for (ll e = 0; e < q; e++) { mc::run("element", {e}, [&] { Poly a = ref::pdigits(e, p); elem(f, R, a, m, fp_polymod_t(mk(f, a), Mx), p, fp_polymod_minimal_polynomial, fp_polymod_characteristic_polynomial, fp_polymod_frobenius_length); }); if (mc::give_up()) return; } }); } }
  // Characteristics whose squares exceed an int: x^d = c is irreducible for these.
  for (int p : {46349, 65537, 1000003}) for (int d = 1; d <= 3; d++) { FP f(p); const Ring &R = *f.R; Poly m; for (ll c = 1; m.empty(); c++) { Poly x(d + 1, 0); x[d] = 1; x[0] = p - c; if (d > 1) x[1] = c % 3; Poly y = {0, 1}; bool irr = d == 1; if (d > 1) { Poly xp = pfrob(R, y, x, p); irr = ref::pgcd(R, x, ref::psub(R, xp, y)).size() == 1; } if (irr) m = x; } // no roots, so irreducible at these degrees
    mc::unit(f.name + " modulo " + show(m), [&] { fp_poly_t Mx = mk(f, m); const std::vector<ll> L = {0, 1, p - 1, p / 2, 46341}; for (ll i = 0; i < ref::ipow(5, d); i++) { mc::run("element", {i}, [&] { Poly a; ll x = i; for (int j = 0; j < d; j++) { a.push_back(L[x % 5]); x /= 5; } ref::norm(a); elem(f, R, a, m, fp_polymod_t(mk(f, a), Mx), p, fp_polymod_minimal_polynomial, fp_polymod_characteristic_polynomial, fp_polymod_frobenius_length); }); if (mc::give_up()) return; } }); }
  for (auto md : std::vector<std::pair<uint64_t, int>>{{3, 1}, {3, 2}, {3, 3}, {7, 1}, {7, 2}, {7, 3}, {13, 1}, {13, 2}, {19, 2}, {0x11b, 1}}) { F2N f(md.first); const Ring &R = *f.R; int d = md.second; ll q = ref::ipow(R.q, d); if (as && q > 20) continue;
    ll nm = 0; for (ll k = 0; k < q; k++) { Poly m = ref::pdigits(k, R.q); m.resize(d + 1, 0); m[d] = 1; if (!ref::pirr(R, m)) continue; if (++nm > (t ? 30 : 6)) break;
      mc::unit(f.name + " modulo " + show(m), [&] { f2n_poly_t Mx = mk(f, m); for (ll e = 0; e < q; e++) { mc::run("element", {e}, [&] { Poly a = ref::pdigits(e, R.q); elem(f, R, a, m, f2n_polymod_t(mk(f, a), Mx), R.q, f2npm_min_poly, f2npm_char_poly, f2npm_froblen); }); if (mc::give_up()) return; } }); } }
}
#endif

#ifdef MC_PROP_L06
struct Quiet { std::ostringstream o; std::streambuf *b; Quiet() : b(std::cout.rdbuf(o.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
static bool isgen(const Ring &R, ll g) { ll o = 1, x = g; if (!g) return false; while (x != 1 && o < R.q) { x = R.mul(x, g); o++; } return o == R.q - 1; }
static Poly mmin(const Ring &R, const M &a) { // minimal polynomial of a matrix
  int n = (int)a.size(); std::vector<V> pw; M p = ident(n);
  for (int d = 0;; d++) { V x; for (auto &r : p) x.insert(x.end(), r.begin(), r.end()); M w(n * n, V(d + 1, 0)); for (int i = 0; i <= d; i++) { const V &y = i < d ? pw[i] : x; for (int r = 0; r < n * n; r++) w[r][i] = y[r]; }
    ref::mrref(R, w); V sol(d, 0); bool ok = true; for (auto &row : w) { int l = 0; while (l <= d && !row[l]) l++; if (l == d) ok = false; if (l < d) sol[l] = row[d]; }
    if (ok) { Poly r; for (ll c : sol) r.push_back(R.neg(c)); r.push_back(1); return r; } pw.push_back(x); p = ref::mmul(R, p, a, n, n); }
}
// Degrees of the irreducible factors of a monic polynomial, by distinct-degree splitting.
static std::vector<int> degs(const Ring &R, Poly f) { std::vector<int> r; int d = 1; while (f.size() > 1) { ll n = ref::ipow(R.q, d); for (ll k = 0; k < n && (int)f.size() > d; k++) { Poly b = ref::pdigits(k, R.q); b.resize(d + 1, 0); b[d] = 1; while ((int)f.size() > d && ref::pmod(R, f, b).empty()) { f = ref::pdiv(R, f, b); r.push_back(d); } } d++; } return r; }
static void diag1(uint64_t m, const KF2n &k, const M &a) {
    const Ring &R = *k.R; int bd = 63 - __builtin_clzll(m);
    auto A = mkm(k, a); f2_poly_t xm(1); tvector<f2_polymod_t> ev; bool got; { Quiet q; got = f2_polymod_matrix_is_diagonalizable(A, xm, ev); }
    Poly mp = mmin(R, a), cp = charpoly(R, a); bool want = ref::pgcd(R, mp, ref::pderiv(R, mp)).size() == 1; MC_EQ(got, want);
    int l = 1; for (int d : degs(R, cp)) l = (int)(l * d / ref::igcd(l, d));
    Poly xp = of_f2p(xm); if (ref::deg(xp) != l * bd) { mc::fail(mc::fmt("the splitting field has degree %d, expected %d", ref::deg(xp), l * bd)); return; }
    if (l == 1) MC_EQ(ref::pindex(xp, 2), (ll)m); MC_CHECK(ref::pirr(*F2().R, xp), "the splitting field modulus is reducible");
    KF2n x((uint64_t)ref::pindex(xp, 2)); const Ring &X = *x.R; std::set<ll> es; for (int j = 0; j < ev.get_num_elements(); j++) { ll e = x.rd(ev[j]); MC_CHECK(e >= 0, "an eigenvalue is not in the splitting field"); es.insert(e); } MC_EQ((int)es.size(), ev.get_num_elements());
    // Some embedding of the base field sends the characteristic polynomial's roots exactly to the eigenvalues.
    bool any = false; for (ll y = 0; y < X.q && !any; y++) { if (ref::peval(X, ref::pdigits((ll)m, 2), y)) continue; Poly im; for (ll co : cp) im.push_back(ref::peval(X, ref::pdigits(co, 2), y)); std::set<ll> rt; for (ll v = 0; v < X.q; v++) if (!ref::peval(X, im, v)) rt.insert(v); any = rt == es; if (l == 1 && y == 0 && bd > 1) any = false; if (l == 1) { std::set<ll> r2; for (ll v = 0; v < R.q; v++) if (!ref::peval(R, cp, v)) r2.insert(v); any = r2 == es; } }
    MC_CHECK(any, "the eigenvalues are not the roots of the characteristic polynomial"); chkm(k, A, a, "matrix");
}
static void diag(uint64_t m, int n, ll s) {
  KF2n k(m); ll c = ref::ipow(s, n * n), chunk = c > 64 ? (c + 63) / 64 : c;
  for (ll lo = 0; lo < c; lo += chunk) mc::unit("diagonalizability over " + k.name + mc::fmt(", %dx%d over %lld letters from %lld", n, n, s, lo), [&] { for (ll i = lo; i < c && i < lo + chunk; i++) { mc::run("matrix", {i}, [&] { mc::count_states();
    M a = matof(i, n, n, s); diag1(m, k, a); }); if (mc::give_up()) return; } });
  if (n == 2) mc::unit("diagonalizability over " + k.name + ", non-square", [&] { mc::run("shape", {2, 3}, [&] { Quiet q; auto A = mkm(k, M(2, V(3, 1))); f2_poly_t xm; tvector<f2_polymod_t> ev; mc::count_states(); MC_THROWS(f2_polymod_matrix_is_diagonalizable(A, xm, ev)); }); });
}
// Direct sums of companion matrices (their characteristic polynomials have factors of several degrees), also after a change of basis.
static M companion(const Ring &R, const Poly &f) { int n = (int)f.size() - 1; M a(n, V(n, 0)); for (int i = 1; i < n; i++) a[i][i - 1] = 1; for (int i = 0; i < n; i++) a[0][n - 1 - i] = R.neg(f[i]); return a; }
static M dsum(const M &a, const M &b) { int n = (int)a.size(), r = (int)b.size(); M c(n + r, V(n + r, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c[i][j] = a[i][j]; for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) c[n + i][n + j] = b[i][j]; return c; }
static M shear(const Ring &R, M a) { int n = (int)a.size(); for (int i = 0; i + 1 < n; i++) { for (int j = 0; j < n; j++) a[i][j] = R.add(a[i][j], a[i + 1][j]); for (int j = 0; j < n; j++) a[j][i + 1] = R.sub(a[j][i + 1], a[j][i]); } return a; } // conjugation by 1 + E(i, i+1), for each i
static void diagsums(uint64_t m, int d1, int d2, ll s1, ll s2, bool irr) {
  KF2n k(m); const Ring &R = *k.R; ll n1 = ref::ipow(s1, d1), n2 = d2 ? ref::ipow(s2, d2) : 1;
  for (ll x = 0; x < n1; x++) mc::unit("diagonalizability over " + k.name + mc::fmt(", sums of blocks of degrees %d, %d, first block %lld", d1, d2, x), [&] { Poly f = ref::pdigits(x, s1); f.resize(d1 + 1, 0); f[d1] = 1; if (irr && !ref::pirr(R, f)) return;
    for (ll y = 0; y < n2; y++) { Poly g = ref::pdigits(y, s2); g.resize(d2 + 1, 0); g[d2] = 1; if (d2 == d1 && y < x) continue; if (irr && d2 && !ref::pirr(R, g)) continue; M a = companion(R, f); if (d2) a = dsum(a, companion(R, g));
      mc::run("sum", {x, y}, [&] { mc::count_states(); diag1(m, k, a); }); mc::run("sum in another basis", {x, y}, [&] { mc::count_states(); diag1(m, k, shear(R, a)); }); if (mc::give_up()) return; } });
}
MC_PROP(L06) {
  bool t = mc::thorough, as = mc::asan; F2 f2;
  // Every pair of representations of the same field, and every embedding degree.
  int dm = as ? 3 : t ? 6 : 5;
  std::vector<ll> irr; for (ll m = 2; m < 2ll << dm; m++) if (ref::pirr(*f2.R, ref::pdigits(m, 2))) irr.push_back(m);
  for (ll m1 : irr) for (ll m2 : irr) { int d1 = 63 - __builtin_clzll(m1), d2 = 63 - __builtin_clzll(m2);
    mc::unit(mc::fmt("conversion from F2 modulo %llx to modulo %llx", m1, m2), [&] { KF2n a(m1), b(m2); const Ring &A = *a.R, &B = *b.R;
      for (ll g = 1; g < A.q; g++) if (isgen(A, g)) { f2_polymod_t g2; bool ok = false;
        mc::run("prepare", {m1, m2, g}, [&] { mc::count_states(); ok = f2_polymod_convert_prep(a.mk(g), f2p((uint64_t)m2), g2); MC_EQ(ok, d2 % d1 == 0);
          if (ok) { ll h = b.rd(g2); Poly mp; { Poly x = {1}; ll c = g; for (int i = 0; i < d1; i++) { x = ref::pmul(A, x, Poly{A.neg(c), 1}); c = A.mul(c, c); } mp = x; } MC_CHECK(h >= 0 && ref::peval(B, mp, h) == 0, "the chosen root does not satisfy the generator's minimal polynomial"); for (ll v = 0; v < h; v++) MC_CHECK(ref::peval(B, mp, v) != 0, "a smaller root exists"); } });
        if (!ok || d2 % d1) continue;
        V im(A.q); bool good = true; for (ll e = 0; e < A.q; e++) mc::run("convert", {m1, m2, g, e}, [&] { im[e] = b.rd(f2_polymod_convert_scalar(a.mk(g), g2, a.mk(e))); if (im[e] < 0) { mc::fail("the image is not in the target field"); good = false; } });
        if (!good) return;
        mc::run("homomorphism", {m1, m2, g}, [&] { std::set<ll> s(im.begin(), im.end()); MC_EQ((ll)s.size(), A.q); MC_EQ(im[0], 0ll); MC_EQ(im[1], 1ll);
          for (ll x = 0; x < A.q; x++) for (ll y = 0; y < A.q; y++) { if (im[A.add(x, y)] != B.add(im[x], im[y])) { mc::fail(mc::fmt("the sum of %lld and %lld is not preserved", x, y)); return; } if (im[A.mul(x, y)] != B.mul(im[x], im[y])) { mc::fail(mc::fmt("the product of %lld and %lld is not preserved", x, y)); return; } } });
        if (d1 == d2) for (ll e = 0; e < A.q; e++) mc::run("back", {m1, m2, g, e}, [&] { ll r = a.rd(f2_polymod_convert_scalar(g2, a.mk(g), b.mk(im[e]))); MC_EQ(r, e); });
        // Polynomials and matrices convert coefficient by coefficient.
        F2N fa(m1), fb(m2); ll n = std::min<ll>(A.q, 8); for (ll x = 0; x < n * n * n; x++) mc::run("polynomial", {m1, m2, g, x}, [&] { mc::count_states(); Poly f = ref::pdigits(x, n), w; for (ll c : f) w.push_back(im[c]); ref::norm(w); chk(fb, f2_polymod_convert_poly(a.mk(g), g2, mk(fa, f)), w, "converted polynomial"); });
        ll z = std::min<ll>(A.q, 3); for (int r = 1; r <= 2; r++) for (int c = 1; c <= 2; c++) for (ll x = 0; x < ref::ipow(z, r * c); x++) mc::run("matrix", {m1, m2, g, r, c, x}, [&] { mc::count_states(); M q = matof(x, r, c, z), w = q; for (auto &v : w) for (auto &e : v) e = im[e]; chkm(b, f2_polymod_convert_matrix(a.mk(g), g2, mkm(a, q)), w, "converted matrix"); });
        if (mc::give_up()) return; } }); }
  for (uint64_t m : {2, 3}) { diag(m, 1, 2); diag(m, 2, 2); diag(m, 3, 2); if (t && !as) diag(m, 4, 2); }
  for (int d = as ? 3 : 4; d <= (as ? 3 : t ? 6 : 5); d++) { diagsums(2, d, 0, 2, 1, false); diagsums(3, d, 0, 2, 1, false); }
  for (auto [d, e] : std::vector<std::pair<int, int>>{{2, 2}, {1, 3}, {2, 3}, {1, 4}, {3, 3}, {2, 4}}) if (d + e <= (as ? 4 : t ? 6 : 5)) diagsums(2, d, e, 2, 2, false);
  if (!as) { diagsums(2, 3, 4, 2, 2, true); diagsums(2, 2, 5, 2, 2, true); diagsums(7, 2, 3, t ? 4 : 3, t ? 4 : 2, true); diagsums(7, 2, 2, t ? 4 : 3, t ? 4 : 3, false); diagsums(7, 3, 3, 2, 2, true); }
  diag(7, 1, 4); diag(7, 2, as ? 2 : 4); if (!as) diag(7, 3, t ? 3 : 2); if (!as) diag(13, 2, t ? 8 : 4); diag(13, 1, 8); if (!as) { diag(11, 2, 4); diag(19, 1, 16); diag(19, 2, t ? 8 : 3); }
}
#endif
