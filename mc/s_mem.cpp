// Memory: every operation of every type, on every pair from a small set of
// values, is repeated and must leave the heap as it was.
#include "tkinds.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/containers/tstack.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/f2_poly_totient.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/factorization/f2n_poly_totient.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/factorization/fp_poly_totient.h"
#include "spffl/factorization/int_factor.h"
#include "spffl/intmath/int_totient.h"
#include "spffl/q_cyclotomic/cyclo_poly.h"
#include "spffl/q_cyclotomic/qff.h"
#include "spffl/random/int_random.h"
#include "spffl/linalg/f2_linear_algebra.h"
#include "spffl/linalg/f2_polymod_convert.h"
#include "spffl/linalg/f2_polymod_linear_algebra.h"
#include "spffl/linalg/fp_linear_algebra.h"
#include "spffl/linalg/min_char_polys.h"
#include "spffl/list/list_elements.h"
#include "spffl/random/f2_poly_random.h"
#include "spffl/random/f2_polymod_random.h"
#include "spffl/random/f2n_poly_random.h"
#include "spffl/random/f2n_polymod_random.h"
#include "spffl/random/fp_poly_random.h"
#include "spffl/random/fp_polymod_random.h"
#include "spffl/units/f2_polymod_units.h"
#include "spffl/units/f2n_polymod_units.h"
#include "spffl/units/fp_units.h"
using namespace spffl::factorization; using namespace spffl::units; using namespace spffl::linalg; using namespace spffl::list; using namespace spffl::random;
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
extern "C" long mc_alloc_live __attribute__((weak));
static long live() { return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : mc_alloc_live; }
// f is run often enough for caches to fill, then eight times more.  Reporting
// an error must not leave anything behind either.
static void quietly(const std::function<void()> &f) { try { f(); } catch (spffl::exception_t &) {} }
static void leak(const string &what, const std::function<void()> &f) { mc::run("operation", what, [&] { mc::count_states(); quietly(f); quietly(f); long b = live(); for (int i = 0; i < 8; i++) quietly(f); long a = live() - b; if (a != 0) mc::fail(mc::fmt("eight calls leave %ld bytes behind", a)); }); }
#define DO(what, ...) leak(string(what) + at, [&] { __VA_ARGS__; })
#define IF(what, ...) if constexpr (requires { __VA_ARGS__; }) leak(string(what) + at, [&] { __VA_ARGS__; })
template <class T> string text(const T &x) { std::ostringstream o; o << x; return o.str(); }
template <class T> void pairops(const T &a, const T &b, const string &at) {
  IF("a + b", a + b); IF("a - b", a - b); IF("a * b", a * b); IF("a / b", a / b); IF("a % b", a % b);
  DO("copy", T c(a); T d(c)); DO("assign", T c(a); c = b; c = a; c = *&c); DO("vector of copies", std::vector<T> v(5, a); v.push_back(b); v.erase(v.begin()));
  if constexpr (requires(T c) { c += b; }) DO("a += b", T c(a); c += b); if constexpr (requires(T c) { c -= b; }) DO("a -= b", T c(a); c -= b); if constexpr (requires(T c) { c *= b; }) DO("a *= b", T c(a); c *= b); if constexpr (requires(T c) { c /= b; }) DO("a /= b", T c(a); c /= b); if constexpr (requires(T c) { c %= b; }) DO("a %= b", T c(a); c %= b);
  IF("a == b", a == b); IF("a != b", a != b); IF("a < b", a < b); IF("a >= b", a >= b); IF("gcd", a.gcd(b)); if constexpr (requires(T c, T d) { a.ext_gcd(b, c, d); }) DO("ext_gcd", T c(a); T d(a); a.ext_gcd(b, c, d)); if constexpr (requires(T c, T d) { a.quot_and_rem(b, c, d); }) DO("quot_and_rem", T c(a); T d(a); a.quot_and_rem(b, c, d)); }
template <class T> void oneops(const T &a, const string &at) { T z(a);
  IF("-a", -a); DO("default", T x); DO("print", std::ostringstream o; o << a); if constexpr (requires(std::istream &is) { is >> z; }) { DO("print and read", std::stringstream o; o << a; T x(a); std::istream &is = o; is >> x); DO("read rubbish", std::stringstream o("?!"); T x(a); std::istream &is = o; is >> x); DO("read a prefix", std::stringstream o(text(a).substr(0, 1)); T x(a); std::istream &is = o; is >> x); }
  for (int e : {0, 1, 2, 5}) { if constexpr (requires { z.exp(e); }) DO(mc::fmt("exp %d", e), T x(a); x.exp(e)); } if constexpr (requires { z.exp(-1); }) DO("exp -1", T x(a); x.exp(-1)); if constexpr (requires { z.recip(z); }) DO("recip", T x(a); T y(a); x.recip(y)); if constexpr (requires { z.recip(); }) DO("recip", T x(a); x.recip());
  IF("deriv", a.deriv()); if constexpr (requires { z.increment(); }) DO("increment", T x(a); for (int i = 0; i < 20; i++) x.increment()); if constexpr (requires { z.promote(); }) DO("promote", T x(a); x.promote(); x.promote()); IF("prime_subfield_element", a.prime_subfield_element(1)); IF("residue", a.get_residue()); IF("modulus", a.get_modulus()); IF("numerator", a.get_numerator()); IF("denominator", a.get_denominator()); IF("square root", a.square_root()); if constexpr (requires { a.pth_root(z); }) DO("pth_root", T x(a); a.pth_root(x));
  if constexpr (requires { z.set_coeff(3, z.get_coeff(0)); z.promote(); }) { for (int p : {0, 1, 3, 40}) for (int q : {0, 40, 2}) DO(mc::fmt("set_coeff %d then %d", p, q), T x(a); auto c = x.get_coeff(0); x.set_coeff(p, c); x.set_coeff(q, c - c); x.set_coeff(q, c)); DO("promote_and_add", T x(a); x.promote_and_add(x.get_coeff(0))); DO("by coefficient", T x(a); auto c = x.get_coeff(0); x + c; x - c; x * c; x += c; x -= c; x *= c); DO("eval", a.eval(a.get_coeff(0))); } }
template <class K> std::vector<typename K::T> few(const K &k) { std::vector<typename K::T> r; auto v = k.vals(); size_t n = v.size(); if (mc::thorough && n <= 40) { for (auto &x : v) r.push_back(k.mk(x)); return r; } for (size_t i : {(size_t)0, (size_t)1, n / 3, n / 2 + 1, n - 1}) if (i < n && r.size() < 5) r.push_back(k.mk(v[i])); if (mc::thorough) for (size_t i = 3; i < n && r.size() < 25; i += n / 20) r.push_back(k.mk(v[i])); return r; }
template <class K> void scalars(const K &k) { typedef typename K::T T; mc::unit("scalars: " + k.name, [&] { auto v = few(k); for (size_t i = 0; i < v.size(); i++) { string at = mc::fmt(", operand %zu ", i) + text(v[i]); oneops(v[i], at); DO("from text", T x(v[i]); k.from(x, text(v[i]))); for (string s : {string("?"), text(v[i]) + "?", text(v[i]) + ",1,?", string("")}) DO("from rubbish " + s, T x(v[i]); k.from(x, s)); for (size_t j = 0; j < v.size(); j++) pairops(v[i], v[j], at + ", " + text(v[j])); } }); }
// Element types that the Euclidean-domain algorithms accept.
template <class T> constexpr bool ED = std::is_same<T, f2_poly_t>::value || std::is_same<T, fp_poly_t>::value || std::is_same<T, f2n_poly_t>::value || std::is_same<T, fpn_poly_t>::value;
template <class K> void containers(const K &k, bool field) { typedef typename K::T T; auto v = few(k); if (v.size() > 3) v.resize(3); T z = v[0] - v[0], one = k.mk(k.in("1").m);
  for (int n = 1; n <= 3; n++) mc::unit("vectors: " + k.name + mc::fmt(", %d elements", n), [&] { std::vector<tvector<T>> vs; for (int m = 1; m <= 3; m++) { tvector<T> x(m); for (int i = 0; i < m; i++) x[i] = v[(i + n) % v.size()]; vs.push_back(x); } tvector<T> x = vs[n - 1]; string at; oneops(x, at); for (auto &y : vs) { at = mc::fmt(", with %d elements", y.get_num_elements()); pairops(x, y, at); DO("assign and back", tvector<T> w; w = x; w = y; w = x); IF("dot", x.dot(y)); }
    at = ""; DO("sized", tvector<T> w(7); tvector<T> u(z, 7)); DO("from text", tvector<T> w(1); w[0] = z; std::istringstream is(text(x)); is >> w); DO("from rubbish", tvector<T> w(1); w[0] = z; std::istringstream is(text(x) + " ?"); is >> w); IF("scale", x * one); IF("shift up", x + one); IF("shift down", x - one); DO("resize by reading", tvector<T> w(x); std::istringstream is("1 0 1 0 1"); is >> w; std::istringstream js("1"); js >> w); DO("outer", tmatrix<T>::outer(x, x));
    DO("stack", tstack<T> s; for (int i = 0; i < 40; i++) s.push(one); tstack<T> t(s); t = s; t = t; T q(z); for (int i = 0; i < 30; i++) s.pop(q); s = t);
    DO("factor list", tfacinfo<T> f; for (int i = 0; i < 3; i++) f.insert_factor(v[i % v.size()], i + 1); tfacinfo<T> g(f); g.merge(f); g = f; g = g; std::ostringstream o; o << g); });
  for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) for (int kind = 0; kind < 3; kind++) mc::unit("matrices: " + k.name + mc::fmt(", %dx%d, pattern %d", r, c, kind), [&] { tmatrix<T> A(r, c), B(r, c), W(c, r), S(2, 2); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { A[i][j] = kind == 0 ? v[(i * 2 + j) % v.size()] : kind == 1 ? (i == j ? one : z) : z; B[i][j] = v[(i + j) % v.size()]; W[j][i] = v[i % v.size()]; } for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) S[i][j] = one; tvector<T> x(c), y(r); for (int i = 0; i < c; i++) x[i] = one; for (int i = 0; i < r; i++) y[i] = z; string at;
    DO("copy and assign", tmatrix<T> C(A); C = B; C = W; C = S; C = A; C = C; tmatrix<T> D; D = A); DO("default and assign a scalar", tmatrix<T> C; C = one; C = z; C = A); DO("A + B", A + B); DO("A - B", A - B); DO("-A", -A); DO("A * W", A * W); DO("A * x", A * x); DO("A * s", A * one; A + one; A - one); DO("transpose and flips", A.transpose(); A.flip_horiz(); A.flip_vert(); A.flip_horiz_vert()); DO("column", tmatrix<T> C(A); auto q = C.get_column(0); C.put_column(0, q)); DO("swap", tmatrix<T> C(A); C.swap(0, r - 1)); DO("paste and split", auto C = A.paste(B); tmatrix<T> D, E; C.split(D, E, c)); DO("paste a vector", A.paste_vector(y)); DO("print and read", std::stringstream o; o << A; tmatrix<T> C(1, 1); C[0][0] = z; o >> C); DO("read rubbish", std::stringstream o("1 0\n1\n"); tmatrix<T> C(1, 1); C[0][0] = z; o >> C); DO("read nothing", std::stringstream o("\n"); tmatrix<T> C(1, 1); C[0][0] = z; o >> C);
    DO("bracket text", tmatrix<T> C(1, 1); C[0][0] = z; string s = "[[1 0][0 1]]"; C.bracket_in(&s[0])); DO("bad bracket text", tmatrix<T> C(1, 1); C[0][0] = z; string s = "[[1 0][0 1"; C.bracket_in(&s[0])); DO("ragged bracket text", tmatrix<T> C(1, 1); C[0][0] = z; string s = "[[1 0][0]]"; C.bracket_in(&s[0])); DO("files", string f = "m.txt"; A.store_to_file(&f[0]); tmatrix<T> C; C.load_from_file(&f[0], z)); DO("no file", string f = "nosuch.txt"; tmatrix<T> C; C.load_from_file(&f[0], z)); DO("trim", tmatrix<T> C(A); C.trim_num_rows(1)); DO("find", A.find_row(x, *new (alloca(sizeof(int))) int); T q(z); A.find_one(q));
    if (!field) { if constexpr (ED<T>) { DO("ed_row_echelon_form", tmatrix<T> C(A); C.ed_row_echelon_form()); if (r == c) { DO("ed_det", A.ed_det()); DO("ed_inverse", tmatrix<T> C; A.ed_inverse(C)); } } return; }
    DO("row_reduce_below", tmatrix<T> C(A); C.row_reduce_below()); DO("row_echelon_form", tmatrix<T> C(A); C.row_echelon_form()); DO("nonzero rows", tmatrix<T> C(A), D; C.get_rr_non_zero_rows(D); C.get_rech_non_zero_rows(D)); DO("rank", A.get_rank(); A.get_rank_rr()); DO("kernel", tmatrix<T> C; A.get_kernel_basis(C, z, one)); 
    if (r == c) { DO("det", A.det()); DO("inverse", tmatrix<T> C; A.inverse(C)); for (int e : {-2, -1, 0, 1, 5}) DO(mc::fmt("exp %d", e), tmatrix<T> C; A.exp(e, C)); DO("solve", tvector<T> q(c); A.solve_unique(q, y, z, one)); DO("solve, full rank", tvector<T> q(c); A.solve_unique_full_rank(q, y, z, one)); DO("is_I", A.is_I(); A.is_zero(); A.make_I(z, one)); } }); }
static void bits() { for (int n : {1, 3, 64, 65, 130}) mc::unit(mc::fmt("bit vectors and matrices, %d", n), [&] { bit_vector_t a(n), b(n); for (int i = 0; i < n; i += 3) a.set(i, bit_t(1)); for (int i = 0; i < n; i += 2) b.set(i, bit_t(1)); bit_vector_t s(7); string at; bit_vector_t c0(a); pairops(a, b, at); oneops(a, at); DO("assign other sizes", bit_vector_t x(a); x = s; x = b; x = x; bit_vector_t y; y = a);
    bit_matrix_t A(3, n), Q(3, 3), W(n, 2); for (int i = 0; i < 3; i++) { for (int j = 0; j < n; j++) A[i].set(j, bit_t((i * j + j / 3) % 2)); Q[i].set(i, bit_t(1)); } Q[0].set(1, bit_t(1)); DO("copy and assign", bit_matrix_t C(A); C = Q; C = W; C = A; C = C; bit_matrix_t D; D = A); DO("sum and product", A + A; A - A; A *W; A *a); DO("transpose", A.transpose()); DO("rank", A.get_rank()); DO("echelon form", bit_matrix_t C(A); C.row_echelon_form(); bit_matrix_t D(A); D.row_reduce_below()); DO("kernel", bit_matrix_t C; A.get_kernel_basis(C)); DO("print and read", std::stringstream o; o << A; bit_matrix_t C; o >> C); DO("read ragged", std::stringstream o("1 0\n1\n"); bit_matrix_t C; o >> C); DO("det", Q.det()); DO("inverse", bit_matrix_t C; Q.inverse(C)); for (int e : {-1, 0, 1, 6}) DO(mc::fmt("exp %d", e), bit_matrix_t C; Q.exp(e, C)); bit_matrix_t Z(3, 3); DO("singular inverse", bit_matrix_t C; Z.inverse(C)); DO("singular det", Z.det()); DO("default and scalar", bit_matrix_t C; C = bit_t(1)); }); }
template <class T, class F> void factors(const T &a, F f, const string &at) { DO("factor", f(a)); DO("divisors", auto i = f(a); T one = a / a; tvector<T> d = i.get_all_divisors(one); tvector<T> m; i.get_maximal_proper_divisors(m, one)); DO("factor list operations", auto i = f(a); auto j = i; j = i; j.merge(i); std::ostringstream o; o << j; i.get_num_distinct(); i.unfactor(a / a)); }
static void functions() {
  mc::unit("F2 polynomial functions", [&] { for (uint64_t v : {2ull, 7ull, 21ull, 0x11bull, 0x1000ull, 0xfffffull}) { f2_poly_t p = fld::f2p(v); string at = " of " + text(p); factors(p, f2_poly_factor, at); DO("is_irreducible", f2_poly_is_irreducible(p)); DO("totient", f2_poly_totient(p)); DO("period", f2_poly_period(p)); DO("is_primitive", f2_poly_is_primitive(p)); } for (int d = 1; d < 6; d++) { string at = mc::fmt(" of degree %d", d); DO("find irreducible", f2_poly_find_irreducible(d)); DO("random irreducible", f2_poly_random_irreducible(d)); DO("find primitive", f2_poly_find_prim(d, d & 1)); DO("list", f2_poly_list(d)); DO("random", f2_poly_random(d)); } });
  for (int p : {2, 3, 13}) mc::unit(mc::fmt("F%d polynomial functions", p), [&] { for (int v : {5, 17, 100, 12345}) { fp_poly_t f = fp_poly_t::from_base_rep(v, p); string at = " of " + text(f); if (f.find_degree() < 1) continue; factors(f, fp_poly_factor, at); DO("is_irreducible", fp_poly_is_irreducible(f)); DO("totient", fp_poly_totient(f)); DO("companion", fp_companion_matrix(f)); DO("char poly", auto A = fp_companion_matrix(f); fp_char_poly(A)); } for (int d = 1; d < 4; d++) { string at = mc::fmt(" of degree %d", d); DO("find irreducible", fp_poly_find_irr(p, d)); DO("random irreducible", fp_poly_random_irr(p, d)); DO("list", fp_poly_list(p, d > 2 ? 1 : d)); DO("random", fp_poly_random(p, d)); } string at; for (int a = 1; a < p; a++) { DO("order", fp_order(intmod_t(a, p))); } DO("generator", intmod_t g; fp_find_generator(p, g)); DO("log", intmod_t g(1, p); fp_find_generator(p, g); for (int a = 1; a < p; a++) fp_log(g, intmod_t(a, p))); for (auto t : {SP_LIST_ALL, SP_LIST_UNITS, SP_LIST_NON_UNITS}) DO("residue list", intmod_list(p, t)); DO("integer totient", spffl::intmath::int_totient(360)); });
  for (uint64_t m : {7ull, 11ull}) mc::unit(mc::fmt("F2^n polynomial functions, %llu", (unsigned long long)m), [&] { f2_poly_t M = fld::f2p(m); auto E = f2_polymod_list(M, SP_LIST_ALL); for (int v : {1, 2, 3}) { f2n_poly_t f(E[1], E[v], E[1]); string at = " of " + text(f); factors(f, f2n_poly_factor, at); factors(f * f, f2n_poly_factor, at + " squared"); DO("is_irreducible", f2n_poly_is_irreducible(f)); DO("totient", f2n_poly_totient(f)); DO("roots", tvector<f2_polymod_t> r; f2n_poly_roots(f, r)); DO("companion", f2np_companion_matrix(f)); DO("char poly", auto A = f2np_companion_matrix(f); f2_polymod_characteristic_polynomial(A)); DO("diagonalizable", auto A = f2np_companion_matrix(f); f2_poly_t s; tvector<f2_polymod_t> e; f2_polymod_matrix_is_diagonalizable(A, s, e)); }
    for (int d = 1; d < 3; d++) { string at = mc::fmt(" of degree %d", d); DO("find irreducible", f2n_poly_find_irr(M, d)); DO("random irreducible", f2n_poly_random_irr(M, d)); DO("list", f2n_poly_list(M, d)); DO("random", f2n_poly_random(M, d)); }
    f2n_poly_t O = f2n_poly_find_irr(M, 2); auto L = f2n_polymod_list(O, SP_LIST_UNITS); string at; DO("generator", f2n_polymod_t g; f2n_polymod_find_generator(O, g)); f2n_polymod_t g(L[0]); f2n_polymod_find_generator(O, g); for (int i : {0, 1, 5}) { at = " of " + text(L[i]); DO("order", f2n_polymod_order(L[i])); DO("log", f2n_polymod_log(g, L[i])); DO("minimal polynomial", f2npm_min_poly(L[i])); DO("characteristic polynomial", f2npm_char_poly(L[i])); DO("frobenius length", f2npm_froblen(L[i])); } at = ""; DO("random", f2n_polymod_random(M, O)); });
  mc::unit("F2 residue functions", [&] { for (uint64_t m : {7ull, 0x13ull, 0x11bull}) { f2_poly_t M = fld::f2p(m); f2_polymod_t g; string at = mc::fmt(" mod %llu", (unsigned long long)m); if (!f2_polymod_find_generator(M, g)) return; DO("generator", f2_polymod_t h; f2_polymod_find_generator(M, h)); for (int k : {1, 2, 5}) { f2_polymod_t a = g.exp(k); at = " of " + text(a) + mc::fmt(" mod %llu", (unsigned long long)m); DO("order", f2_polymod_order(a)); DO("log", f2_polymod_log(g, a)); DO("minimal polynomial", f2_polymod_minimal_polynomial(a)); DO("characteristic polynomial", f2_polymod_characteristic_polynomial(a)); DO("frobenius length", f2_polymod_frobenius_length(a)); } at = ""; DO("lists", f2_polymod_list(M, SP_LIST_UNITS); f2_polymod_glist(g, SP_LIST_ALL)); if (m < 100) DO("tuples", f2_polymod_An_list(M, 2); f2_polymod_Pn_list(M, 1)); DO("random", f2_polymod_random(M)); } f2_polymod_t g1, g2; f2_poly_t m1 = fld::f2p(0x13ull), m2 = fld::f2p(0x19ull); string at; if (f2_polymod_find_generator(m1, g1)) { DO("convert", f2_polymod_t h; f2_polymod_convert_prep(g1, m2, h)); if (f2_polymod_convert_prep(g1, m2, g2)) { DO("convert scalar", f2_polymod_convert_scalar(g1, g2, g1)); DO("convert polynomial", f2n_poly_t f(g1, g1); f2_polymod_convert_poly(g1, g2, f)); DO("convert matrix", tmatrix<f2_polymod_t> A(2, 2); for (int i = 0; i < 4; i++) A[i / 2][i % 2] = g1; f2_polymod_convert_matrix(g1, g2, A)); } } });
  mc::unit("Fp residue functions", [&] { for (int p : {3, 5}) { fp_poly_t m = fp_poly_find_irr(p, 2); auto L = fp_polymod_list(m, SP_LIST_UNITS); string at; DO("lists", fp_polymod_list(m, SP_LIST_ALL); fp_polymod_list(m, SP_LIST_NON_UNITS)); DO("tuples", fp_polymod_An_list(m, 1); fp_polymod_Pn_list(m, 1)); DO("random", fp_polymod_random(m)); for (int i : {0, 1, 4}) { at = " of " + text(L[i]); DO("minimal polynomial", fp_polymod_minimal_polynomial(L[i])); DO("characteristic polynomial", fp_polymod_characteristic_polynomial(L[i])); DO("frobenius length", fp_polymod_frobenius_length(L[i])); } } });
}
// Calls that fail, or whose answer is no.
static void refusals() {
  mc::unit("logarithms that do not exist", [&] {
    for (int p : {5, 13, 101}) for (int g : {0, 1, p - 1, 4}) for (int a : {0, 1, 2, 3}) { string at = mc::fmt(" of %d to the base %d modulo %d", a, g, p); DO("log", fp_log(intmod_t(g, p), intmod_t(a, p))); }
    for (uint64_t m : {7ull, 0xfull, 0x13ull, 0x11bull}) { f2_poly_t M = fld::f2p(m); for (uint64_t g : {0, 1, 2, 3}) for (uint64_t a : {0, 1, 2, 3}) { string at = mc::fmt(" of %llu to the base %llu modulo %llu", (unsigned long long)a, (unsigned long long)g, (unsigned long long)m); DO("log", f2_polymod_log(f2_polymod_t(fld::f2p(g), M), f2_polymod_t(fld::f2p(a), M))); } }
    f2_poly_t M = fld::f2p(7ull); f2n_poly_t O = f2n_poly_find_irr(M, 2); auto L = f2n_polymod_list(O, SP_LIST_ALL); for (int g : {0, 1, 2, 3}) for (int a : {0, 1, 2, 5}) { string at = mc::fmt(" of element %d to the base %d", a, g); DO("log over F4", f2n_polymod_log(L[g], L[a])); } });
  mc::unit("orders and generators that do not exist", [&] {
    string at; for (int m : {8, 12, 15}) for (int a : {0, 2, 3, 5}) { at = mc::fmt(" of %d mod %d", a, m); DO("order", fp_order(intmod_t(a, m))); DO("generator", intmod_t g; fp_find_generator(m, g)); }
    for (uint64_t m : {0xfull, 0x15ull, 8ull, 16ull}) for (uint64_t a : {0, 2, 3}) { at = mc::fmt(" of %llu mod %llu", (unsigned long long)a, (unsigned long long)m); f2_poly_t M = fld::f2p(m); DO("order", f2_polymod_order(f2_polymod_t(fld::f2p(a), M))); DO("generator", f2_polymod_t g; f2_polymod_find_generator(M, g)); DO("period", f2_poly_period(M)); DO("primitive", f2_poly_is_primitive(M)); }
    f2_poly_t M = fld::f2p(7ull); auto E = f2_polymod_list(M, SP_LIST_ALL); f2n_poly_t sq(E[1], E[0], E[1]); auto L = f2n_polymod_list(sq, SP_LIST_ALL); at = " modulo a square"; for (int i : {0, 1, 2, 5}) DO("order over F4", f2n_polymod_order(L[i])); DO("generator over F4", f2n_polymod_t g; f2n_polymod_find_generator(sq, g)); });
  mc::unit("searches of bad degrees", [&] { f2_poly_t M = fld::f2p(7ull); for (int d : {0, -1, -5}) { string at = mc::fmt(" of degree %d", d); DO("irreducible", f2_poly_find_irreducible(d)); DO("random irreducible", f2_poly_random_irreducible(d)); DO("primitive", f2_poly_find_prim(d, 1)); DO("random primitive", f2_poly_random_prim(d, 1)); DO("Fp irreducible", fp_poly_find_irr(5, d)); DO("random Fp irreducible", fp_poly_random_irr(5, d)); DO("F4 irreducible", f2n_poly_find_irr(M, d)); DO("random F4 irreducible", f2n_poly_random_irr(M, d)); if (d < 0) { DO("random", f2_poly_random(d)); DO("random over F5", fp_poly_random(5, d)); DO("random over F4", f2n_poly_random(M, d)); } DO("cyclotomic", spffl::q_cyclotomic::get_cyclo_qpoly(d)); } });
  mc::unit("integers", [&] { for (int n : {-12, -1, 0, 1, 2, 360, 46337, 2147483647}) { string at = mc::fmt(" of %d", n); DO("factor", int_factor(n)); DO("divisors", auto f = int_factor(n); f.get_all_divisors(1); tvector<int> m; f.get_maximal_proper_divisors(m, 1)); DO("factors out of range", auto f = int_factor(n); f.get_ith_factor(40)); DO("counts out of range", auto f = int_factor(n); f.get_ith_count(-1)); } string at; for (int n : {0, 2, 6}) { at = mc::fmt(" of 3 modulo %d", n); DO("residue", intmod_t x(3, n); intmod_t r(x.recip(r) ? r : x)); } });
  mc::unit("cyclotomic polynomials", [&] { for (int n : {1, 2, 6, 12, 15}) { string at = mc::fmt(" %d", n); DO("rational", spffl::q_cyclotomic::get_cyclo_qpoly(n)); DO("over F5", spffl::q_cyclotomic::get_cyclo_fp_poly(n, 5)); DO("over F2", spffl::q_cyclotomic::get_cyclo_f2_poly(n)); DO("over F4", spffl::q_cyclotomic::get_cyclo_f2n_poly(n, fld::f2p(7ull))); } });
  mc::unit("matrices that do not fit", [&] { string at; tmatrix<intmod_t> A(2, 3), S(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { A[i][j] = intmod_t(i + j, 5); if (j < 2) S[i][j] = intmod_t(1, 5); } bit_matrix_t B(2, 3), C(2, 2); tmatrix<f2_polymod_t> Q(2, 3); f2_poly_t M = fld::f2p(7ull); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) Q[i][j] = f2_polymod_t(f2_poly_t(1), M);
    DO("char poly over Fp", fp_char_poly(A)); DO("char poly over F2", tmatrix<bit_t> Bt(2, 3); f2_char_poly(Bt)); DO("det", A.det()); DO("bit det", B.det()); DO("inverse", tmatrix<intmod_t> X; A.inverse(X)); DO("singular inverse", tmatrix<intmod_t> X; S.inverse(X)); DO("bit inverse", bit_matrix_t X; B.inverse(X)); DO("singular bit inverse", bit_matrix_t X; C.inverse(X)); DO("power", tmatrix<intmod_t> X; A.exp(2, X)); DO("negative power of singular", tmatrix<intmod_t> X; S.exp(-2, X)); DO("bit power", bit_matrix_t X; B.exp(2, X)); DO("negative bit power", bit_matrix_t X; C.exp(-2, X)); DO("diagonalizable", f2_poly_t s; tvector<f2_polymod_t> e; f2_polymod_matrix_is_diagonalizable(Q, s, e));
    DO("A * A", A * A); DO("B * B", B * B); DO("A + S", A + S); DO("B + C", B + C); DO("rows out of range", A[7]); DO("bit rows out of range", B[7]); DO("elements out of range", A[0][9]); DO("swap out of range", A.swap(0, 9)); DO("bit swap out of range", B.swap(0, 9)); DO("column out of range", A.get_column(9)); DO("negative sizes", tmatrix<intmod_t> X(-1, 2)); DO("negative vectors", tvector<intmod_t> X(-1)); DO("negative bit sizes", bit_matrix_t X(-1, 2)); DO("negative bit vectors", bit_vector_t X(-1)); DO("paste", A.paste(tmatrix<intmod_t>(3, 3)));
    f2_polymod_t g(f2_poly_t(1, 0), fld::f2p(0xbull)), h; DO("conversion into no extension", f2_polymod_convert_prep(g, M, h));
  });
}
template <class K> void both(const K &k, bool field) { scalars(k); containers(k, field); }
#define PARTNAME2(n) part##n
#define PARTNAME(n) PARTNAME2(n)
void PARTNAME(MC_PART)() { // this file is compiled once for each part
#if MC_PART == 0
  bits(); functions(); refusals();
#elif MC_PART == 1
  both(TBit(), true); both(TMod(2), true); both(TMod(13), true); scalars(TMod(6)); both(TRat(), true);
#elif MC_PART == 2
  both(TF2p(), false); both(TF2pm({1, 1, 0, 1}), true); both(TQp(), false);
#elif MC_PART == 3
  both(TFp(3), false); both(TFp(13), false); both(TFpm(3, {1, 0, 1}), true);
#elif MC_PART == 4
  both(TF2n(7), false); both(TF2nm(7, {2, 1, 1}), true);
#elif MC_PART == 5
  both(TFpn(3, {1, 0, 1}), false); both(TFpnm(3, {1, 0, 1}, {3, 1, 1}), true);
#elif MC_PART == 6
  both(TF2r(), true); both(TFpr(3), true);
#else
  both(TF2nr(7), true);
#endif
}
#if MC_PART == 0
void part1(); void part2(); void part3(); void part4(); void part5(); void part6(); void part7();
MC_PROP(M01) { part0(); part1(); part2(); part3(); part4(); part5(); part6(); part7(); }
#endif
