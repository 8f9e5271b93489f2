// Scalar kinds with text: constructors, independent readers and printers.
#pragma once
#include "kinds.h"
#include "spffl/bits/bit_matrix_t.h"
#include "spffl/bits/bit_vector_t.h"
#include "spffl/polynomials/q_poly_t.h"
#include "spffl/rationals/f2_polyrat_t.h"
#include "spffl/rationals/f2n_polyrat_t.h"
#include "spffl/rationals/fp_polyrat_t.h"
#include <climits>
#include <fstream>
#include <unistd.h>
using spffl::bits::bit_matrix_t; using spffl::bits::bit_vector_t;
using spffl::intmath::intrat_t; using spffl::polynomials::q_poly_t;
using spffl::rationals::f2_polyrat_t; using spffl::rationals::f2n_polyrat_t; using spffl::rationals::fp_polyrat_t;
using std::string;

// ---- Reference reader.  OK: denotes the value.  MAYBE: may be refused, but if accepted denotes the value.  ANY: no claim beyond not crashing.
enum Verdict { OK, MAYBE, BAD, ANY };
struct Model { Poly a, b; bool operator==(const Model &o) const { return a == o.a && b == o.b; } bool operator!=(const Model &o) const { return !(*this == o); } };
static string sh(const Model &m) { return fld::show(m.a) + (m.b.empty() ? "" : "/" + fld::show(m.b)); }
struct Parse { Verdict v; Model m; Parse(Verdict v_) : v(v_) {} Parse(Poly a, Poly b = Poly()) : v(OK), m{a, b} {} };
static std::vector<string> split(const string &s, char c) { std::vector<string> r(1); for (char x : s) if (x == c) r.push_back(""); else r.back() += x; return r; }
static bool digits(const string &s) { if (s.empty()) return false; for (char c : s) if (!isdigit((unsigned char)c)) return false; return true; }
static bool rint(const string &s, ll &v) { string t = s.size() && s[0] == '-' ? s.substr(1) : s; if (!digits(t)) return false; { size_t z = t.find_first_not_of('0'); if (z != string::npos && t.size() - z > 12) return false; } v = atoll(s.c_str()); return v >= INT_MIN && v <= INT_MAX; }
static bool rhex(const string &s, Poly &p) { if (s.empty()) return false; p.clear(); for (char c : s) { int d = isdigit((unsigned char)c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return false; for (int i = 3; i >= 0; i--) p.insert(p.begin(), (d >> i) & 1); } ref::norm(p); return true; }
static Verdict rfp(const string &s, int p, Poly &r) { // polynomial over Z/p
  r.clear(); if (s.find(',') == string::npos && p < 10) { if (!digits(s)) { ll v; return rint(s, v) ? ANY : BAD; } for (char c : s) r.insert(r.begin(), (c - '0') % p); ref::norm(r); return OK; }
  for (auto &f : split(s, ',')) { ll v; if (!rint(f, v)) return BAD; r.insert(r.begin(), ref::md(v, p)); } ref::norm(r); return OK; }
static string hexs(const Poly &p) { string s; int n = ((int)p.size() + 3) / 4; for (int i = n - 1; i >= 0; i--) { int d = 0; for (int j = 3; j >= 0; j--) { size_t k = 4 * i + j; d = 2 * d + (k < p.size() ? (int)p[k] : 0); } s += "0123456789abcdef"[d]; } return s.empty() ? "0" : s; }
static string fps(Poly p, int pr, int pad = 1) { while ((int)p.size() < pad) p.push_back(0); string s; for (int i = (int)p.size() - 1; i >= 0; i--) { s += std::to_string(p[i]); if (i && pr > 9) s += ","; } return s; }
static Parse ws(const string &s, const std::function<Parse(const string &)> &f, const string &seps) { // whitespace next to separators and ends is optional
  if (s.find_first_of(" \t\n") == string::npos) return f(s);
  string t; for (size_t i = 0; i < s.size(); i++) { if (!isspace((unsigned char)s[i])) { t += s[i]; continue; } size_t j = i; while (j < s.size() && isspace((unsigned char)s[j])) j++; bool edge = t.empty() || j == s.size() || seps.find(t.back()) != string::npos || seps.find(s[j]) != string::npos; if (!edge) return Parse(BAD); }
  Parse p = f(t); if (p.v == OK) p.v = MAYBE; return p; }

// ---- Scalar kinds: T, name, alphabet, reference reader and printer, contents of a T.
struct TBit { typedef bit_t T; string name = "bit", alpha = "0179-,: x"; std::vector<Model> vals() const { return {{{0}, {}}, {{1}, {}}}; }
  T mk(const Model &m) const { return bit_t((int)m.a[0]); } T any() const { return bit_t(1); } bool from(T &x, const string &s) const { return x.from_string(s); } Model rd(const T &x) const { return {{x.get_residue()}, {}}; }
  string out(const Model &m) const { return std::to_string(m.a[0]); } Parse in(const string &s) const { return ws(s, [](const string &t) { ll v; if (!rint(t, v)) return digits(t) || (t[0] == '-' && digits(t.substr(1))) ? Parse(ANY) : Parse(BAD); return Parse(Poly{ref::md(v, 2)}); }, ""); } bool same(const Model &a, const Model &b) const { return a == b; } };
struct TMod { typedef intmod_t T; int p; string name, alpha = "0179-,: x"; TMod(int p_) : p(p_), name(mc::fmt("residue mod %d", p_)) {} std::vector<Model> vals() const { std::vector<Model> r; for (ll i = 0; i < p; i += p > 2000 ? p / 97 : 1) r.push_back({{i}, {}}); r.push_back({{p - 1}, {}}); return r; }
  T mk(const Model &m) const { return intmod_t((int)m.a[0], p); } T any() const { return intmod_t(p - 1, p); } bool from(T &x, const string &s) const { return x.from_string(s, p); } Model rd(const T &x) const { return {{x.get_modulus() == p ? x.get_residue() : -1}, {}}; }
  string out(const Model &m) const { return std::to_string(m.a[0]); } Parse in(const string &s) const { return ws(s, [this](const string &t) { ll v; if (!rint(t, v)) return Parse(BAD); return Parse(Poly{ref::md(v, p)}); }, ""); } bool same(const Model &a, const Model &b) const { return a == b; } };
static bool rrat(const string &s, ll &n, ll &d, bool &maybe) { auto f = split(s, '/'); d = 1; if (f.size() > 2 || !rint(f[0], n)) return false; if (f.size() == 2 && !rint(f[1], d)) return false; if (!d) return false; if (d < 0) { maybe = true; n = -n; d = -d; } ll g = ref::igcd(n < 0 ? -n : n, d); n /= g; d /= g; return true; }
struct TRat { typedef intrat_t T; string name = "rational", alpha = "0129-/, x"; std::vector<Model> vals() const { std::vector<Model> r; for (int d = 1; d <= 12; d++) for (int n = -30; n <= 30; n++) if (ref::igcd(n < 0 ? -n : n, d) == 1) r.push_back({{n}, {d}}); for (ll n : {2147483647ll, -2147483647ll}) { r.push_back({{n}, {1}}); r.push_back({{n}, {2}}); } r.push_back({{1}, {2147483647}}); return r; }
  T mk(const Model &m) const { return intrat_t((int)m.a[0], (int)m.b[0]); } T any() const { return intrat_t(-7, 3); } bool from(T &x, const string &s) const { return x.from_string(s); } Model rd(const T &x) const { return {{x.get_numerator()}, {x.get_denominator()}}; }
  string out(const Model &m) const { return std::to_string(m.a[0]) + (m.b[0] == 1 ? "" : "/" + std::to_string(m.b[0])); }
  Parse in(const string &s) const { return ws(s, [](const string &t) { ll n, d; bool mb = false; if (!rrat(t, n, d, mb)) return Parse(BAD); Parse p(Poly{n}, Poly{d}); if (mb) p.v = MAYBE; return p; }, "/"); } bool same(const Model &a, const Model &b) const { return a == b; } };
static std::vector<Model> polys(ll q, ll n) { std::vector<Model> r; for (ll k = 0; k < n; k++) r.push_back({ref::pdigits(k, q), {}}); return r; }
struct TF2p { typedef f2_poly_t T; string name = "F2 polynomial", alpha = "019afAg-/: "; std::vector<Model> vals() const { auto r = polys(2, 1500); for (int d = 11; d < 140; d++) for (ll k : {0ll, 1ll, 6ll, 1ll << 10}) { Poly a = ref::pdigits(k, 2); a.resize(d + 1, 0); a[d] = 1; r.push_back({a, {}}); for (int i = 0; i < d; i += 3) a[i] = 1; r.push_back({a, {}}); } return r; }
  T mk(const Model &m) const { return f2p(m.a); } T any() const { return f2p(Poly(70, 1)); } bool from(T &x, const string &s) const { return x.from_string(s); } Model rd(const T &x) const { return {of_f2p(x), {}}; }
  string out(const Model &m) const { return hexs(m.a); } Parse in(const string &s) const { return ws(s, [](const string &t) { Poly p; return rhex(t, p) ? Parse(p) : Parse(BAD); }, ""); } bool same(const Model &a, const Model &b) const { return a == b; } };
struct TF2pm { typedef f2_polymod_t T; Poly m; f2_poly_t Mx; string name, alpha = "019afAg-/: "; const Ring &B = *fld_b(); static RingP &fld_b() { static RingP r(new ref::Zn(2)); return r; } TF2pm(const Poly &m_) : m(m_), Mx(f2p(m_)), name("F2 residue modulo " + fld::show(m_)) {} std::vector<Model> vals() const { int d = (int)m.size() - 1; auto r = polys(2, d < 11 ? 1 << d : 1500); if (d > 11) r.push_back({Poly(d, 1), {}}); return r; }
  T mk(const Model &x) const { return f2_polymod_t(f2p(x.a), Mx); } T any() const { return mk({Poly(m.size() - 1, 1), {}}); } bool from(T &x, const string &s) const { return x.from_string(s, Mx); } Model rd(const T &x) const { if (x.get_modulus() != Mx) return {{-1}, {}}; return {of_f2p(x.get_residue()), {}}; }
  string out(const Model &x) const { string s = hexs(x.a); size_t w = ((int)m.size() - 2 + 4) / 4; while (s.size() < w) s = "0" + s; return s; } Parse in(const string &s) const { return ws(s, [this](const string &t) { Poly p; return rhex(t, p) ? Parse(ref::pmod(B, p, m)) : Parse(BAD); }, ""); } bool same(const Model &a, const Model &b) const { return a == b; } };
struct TFp { typedef fp_poly_t T; FP f; int p; string name, alpha; TFp(int p_) : f(p_), p(p_), name(mc::fmt("F%d polynomial", p_)), alpha(p_ < 10 ? "0129,-/: x" : "0189,-/: x") {} std::vector<Model> vals() const { auto r = polys(p, p < 10 ? 1200 : p < 30 ? 3000 : 400); if (p > 30) for (ll a : {0ll, 1ll, (ll)p - 1}) for (ll b : {0ll, 9ll, (ll)p - 1}) for (ll c : {1ll, 10ll, (ll)p - 1}) r.push_back({{a, b, c}, {}}); Poly l(60, 0); l[59] = 1; l[0] = p - 1; r.push_back({l, {}}); return r; }
  T mk(const Model &m) const { return fpp(m.a, p); } T any() const { return mk({{1, 0, p - 1, 1, 1}, {}}); } bool from(T &x, const string &s) const { return x.from_string(s, p); } Model rd(const T &x) const { int d = x.find_degree(); Poly r; for (int i = 0; i <= d; i++) r.push_back(f.idx(x.get_coeff(i))); if (d > 0 && r[d] == 0) return {{-2}, {}}; ref::norm(r); return {r, {}}; }
  string out(const Model &m) const { return fps(m.a, p); } Parse in(const string &s) const { return ws(s, [this](const string &t) { Poly r; Verdict v = rfp(t, p, r); return v == OK ? Parse(r) : Parse(v); }, ","); } bool same(const Model &a, const Model &b) const { return a == b; } };
struct TFpm { typedef fp_polymod_t T; FP f; int p; Poly m; mutable fp_poly_t Mx; string name, alpha; TFpm(int p_, const Poly &m_) : f(p_), p(p_), m(m_), Mx(fpp(m_, p_)), name(mc::fmt("F%d residue modulo ", p_) + fld::show(m_)), alpha(p_ < 10 ? "0129,-/: x" : "0189,-/: x") {} std::vector<Model> vals() const { ll n = ref::ipow(p, (int)m.size() - 1); return polys(p, n < 2000 ? n : 2000); }
  T mk(const Model &x) const { return fp_polymod_t(fpp(x.a, p), Mx); } T any() const { return mk({Poly(m.size() - 1, 1), {}}); } bool from(T &x, const string &s) const { return x.from_string(s, Mx); } Model rd(const T &x) const { if (x.get_modulus() != Mx) return {{-1}, {}}; TFp k(p); return k.rd(x.get_residue()); }
  string out(const Model &x) const { return fps(x.a, p, (int)m.size() - 1); } Parse in(const string &s) const { return ws(s, [this](const string &t) { Poly r; Verdict v = rfp(t, p, r); return v == OK ? Parse(ref::pmod(*f.R, r, m)) : Parse(v); }, ","); } bool same(const Model &a, const Model &b) const { return a == b; } };
// Polynomials over an extension field: colon-separated coefficients, each reduced into the field.
struct TF2n { typedef f2n_poly_t T; F2N f; string name, alpha = "012b:,-g "; TF2n(uint64_t m) : f(m), name(f.name + " polynomial") {} std::vector<Model> vals() const { auto r = polys(f.R->q, 1500); Poly l(40, 0); l[39] = 1; r.push_back({l, {}}); return r; }
  T mk(const Model &m) const { T r(f.coeff(m.a.empty() ? 0 : m.a[0])); for (int i = (int)m.a.size() - 1; i > 0; i--) if (m.a[i]) r.set_coeff(i, f.coeff(m.a[i])); return r; } T any() const { return mk({{1, 1, 0, 1}, {}}); } bool from(T &x, const string &s) const { return x.from_string(s, f.M); }
  Model rd(const T &x) const { int d = x.find_degree(); Poly r; for (int i = 0; i <= d; i++) r.push_back(f.idx(x.get_coeff(i))); if (d > 0 && r[d] == 0) return {{-2}, {}}; ref::norm(r); return {r, {}}; }
  string one(ll c) const { return hexs(ref::pdigits(c, 2)); } string out(const Model &m, int pad = 1) const { Poly p = m.a; while ((int)p.size() < pad) p.push_back(0); string s; for (int i = (int)p.size() - 1; i >= 0; i--) s += one(p[i]) + (i ? ":" : ""); return s; }
  Parse rdp(const string &t) const { Poly r; for (auto &c : split(t, ':')) { Poly p; if (!rhex(c, p)) return Parse(BAD); r.insert(r.begin(), ref::pindex(ref::pmod(*TF2pm::fld_b(), p, ref::pdigits((ll)f.m, 2)), 2)); } ref::norm(r); return Parse(r); }
  Parse in(const string &s) const { return ws(s, [this](const string &t) { return rdp(t); }, ":"); } bool same(const Model &a, const Model &b) const { return a == b; } };
struct TF2nm { typedef f2n_polymod_t T; TF2n k; Poly m; mutable f2n_poly_t Mx; string name, alpha = "012b:,-g "; TF2nm(uint64_t f, const Poly &m_) : k(f), m(m_), Mx(k.mk({m_, {}})), name(k.f.name + " residue modulo " + fld::show(m_)) {} std::vector<Model> vals() const { ll n = ref::ipow(k.f.R->q, (int)m.size() - 1); return polys(k.f.R->q, n < 2000 ? n : 2000); }
  T mk(const Model &x) const { return T(k.mk(x), Mx); } T any() const { return mk({Poly(m.size() - 1, 1), {}}); } bool from(T &x, const string &s) const { return x.from_string(s, Mx); } Model rd(const T &x) const { if (x.get_modulus() != Mx) return {{-1}, {}}; return k.rd(x.get_residue()); }
  string out(const Model &x) const { return k.out(x, (int)m.size() - 1); } Parse in(const string &s) const { return ws(s, [this](const string &t) { Parse p = k.rdp(t); if (p.v == OK) p.m.a = ref::pmod(*k.f.R, p.m.a, m); return p; }, ":"); } bool same(const Model &a, const Model &b) const { return a == b; } };
struct TFpn { typedef fpn_poly_t T; FPN f; int p; string name, alpha; TFpn(int p_, const Poly &m) : f(p_, m), p(p_), name(f.name + " polynomial"), alpha(p_ < 10 ? "012:,-x " : "018:,-x ") {} std::vector<Model> vals() const { auto r = polys(f.R->q, 1500); Poly l(30, 0); l[29] = 1; r.push_back({l, {}}); return r; }
  T mk(const Model &m) const { T r(f.coeff(m.a.empty() ? 0 : m.a[0])); for (int i = (int)m.a.size() - 1; i > 0; i--) if (m.a[i]) r.set_coeff(i, f.coeff(m.a[i])); return r; } T any() const { return mk({{1, 1, 0, 1}, {}}); } bool from(T &x, const string &s) const { return x.from_string(s, f.M); }
  Model rd(const T &x) const { int d = x.find_degree(); Poly r; for (int i = 0; i <= d; i++) r.push_back(f.idx(x.get_coeff(i))); if (d > 0 && r[d] == 0) return {{-2}, {}}; ref::norm(r); return {r, {}}; }
  string out(const Model &m, int pad = 1) const { Poly c = m.a; while ((int)c.size() < pad) c.push_back(0); string s; for (int i = (int)c.size() - 1; i >= 0; i--) s += fps(ref::pdigits(c[i], p), p) + (i ? ":" : ""); return s; }
  Parse rdp(const string &t) const { Poly r; for (auto &c : split(t, ':')) { Poly q; Verdict v = rfp(c, p, q); if (v != OK || (v == OK && c.find('-') != string::npos)) return Parse(v == BAD ? BAD : ANY); r.insert(r.begin(), ref::pindex(ref::pmod(ref::Zn(p), q, f.m), p)); } ref::norm(r); return Parse(r); }
  Parse in(const string &s) const { return ws(s, [this](const string &t) { return rdp(t); }, ":,"); } bool same(const Model &a, const Model &b) const { return a == b; } };
struct TFpnm { typedef fpn_polymod_t T; TFpn k; Poly m; mutable fpn_poly_t Mx; string name, alpha; TFpnm(int p, const Poly &f, const Poly &m_) : k(p, f), m(m_), Mx(k.mk({m_, {}})), name(k.f.name + " residue modulo " + fld::show(m_)), alpha(k.alpha) {} std::vector<Model> vals() const { ll n = ref::ipow(k.f.R->q, (int)m.size() - 1); return polys(k.f.R->q, n < 2000 ? n : 2000); }
  T mk(const Model &x) const { return T(k.mk(x), Mx); } T any() const { return mk({Poly(m.size() - 1, 1), {}}); } bool from(T &x, const string &s) const { return x.from_string(s, Mx); } Model rd(const T &x) const { if (x.get_modulus() != Mx) return {{-1}, {}}; return k.rd(x.get_residue()); }
  string out(const Model &x) const { return k.out(x, (int)m.size() - 1); } Parse in(const string &s) const { return ws(s, [this](const string &t) { Parse p = k.rdp(t); if (p.v == OK) p.m.a = ref::pmod(*k.f.R, p.m.a, m); return p; }, ":,"); } bool same(const Model &a, const Model &b) const { return a == b; } };
struct TQp { typedef q_poly_t T; string name = "rational polynomial", alpha = "012,-/x "; static const int NC = 9; static ll cn(int i) { static const int t[] = {0, 1, 2, 9, -1, 1, -3, 12, 7}; return t[i]; } static ll cd(int i) { static const int t[] = {1, 1, 1, 1, 1, 2, 4, 1, 12}; return t[i]; }
  std::vector<Model> vals() const { std::vector<Model> r; for (int d = 0; d <= 2; d++) for (ll k = 0; k < ref::ipow(NC, d + 1); k++) { Model m; ll x = k; for (int i = 0; i <= d; i++, x /= NC) { m.a.push_back(cn(x % NC)); m.b.push_back(cd(x % NC)); } if (d && !m.a[d]) continue; r.push_back(m); } return r; }
  T mk(const Model &m) const { T r((intrat_t((int)m.a[0], (int)m.b[0]))); for (int i = (int)m.a.size() - 1; i > 0; i--) if (m.a[i]) r.set_coeff(i, intrat_t((int)m.a[i], (int)m.b[i])); return r; } T any() const { return mk({{1, 0, -3, 5}, {2, 1, 1, 7}}); } bool from(T &x, const string &s) const { return x.from_string(s); }
  Model rd(const T &x) const { int d = x.find_degree(); Model r; for (int i = 0; i <= d; i++) { r.a.push_back(x.get_coeff(i).get_numerator()); r.b.push_back(x.get_coeff(i).get_denominator()); } if (d > 0 && r.a[d] == 0) return {{-2}, {}}; return r; }
  string out(const Model &m) const { string s; TRat k; for (int i = (int)m.a.size() - 1; i >= 0; i--) s += k.out({{m.a[i]}, {m.b[i]}}) + (i ? "," : ""); return s; }
  Parse in(const string &s) const { return ws(s, [](const string &t) { Parse p(OK); if (digits(t)) for (char c : t) { p.m.a.insert(p.m.a.begin(), c - '0'); p.m.b.insert(p.m.b.begin(), 1); } else for (auto &c : split(t, ',')) { ll n, d; bool mb = false; if (!rrat(c, n, d, mb)) return Parse(BAD); if (mb) p.v = MAYBE; p.m.a.insert(p.m.a.begin(), n); p.m.b.insert(p.m.b.begin(), d); } while (p.m.a.size() > 1 && !p.m.a.back()) { p.m.a.pop_back(); p.m.b.pop_back(); } return p; }, ",/"); } bool same(const Model &a, const Model &b) const { return a == b; } };
// Rational functions over polynomial kind K: equal as fractions, in lowest terms.
template <class K, class RT> struct TFrac { typedef RT T; K k; const Ring *R; string name, alpha; ll nv; TFrac(const K &k_, const Ring *R_, const string &al, ll nv_) : k(k_), R(R_), name("rational function over " + k_.name), alpha(al), nv(nv_) {}
  std::vector<Model> vals() const { std::vector<Model> r; for (ll n = 0; n < nv; n++) for (ll d = 1; d < nv; d++) { Poly a = ref::pdigits(n, R->q), b = ref::pdigits(d, R->q); if (ref::pgcd(*R, a, b).size() == 1 && (n || d == 1)) r.push_back({a, b}); } return r; }
  T mk(const Model &m) const { return T(k.mk({m.a, {}}), k.mk({m.b, {}})); } T any() const { return mk({{1, 1, 1, 1}, {0, 1}}); } Model rd(const T &x) const { Model n = k.rd(x.get_numerator()), d = k.rd(x.get_denominator()); return {n.a, d.a}; }
  string out(const Model &m) const { return k.out({m.a, {}}) + (m.b == Poly{1} ? "" : "/" + k.out({m.b, {}})); }
  Parse in(const string &s) const { return ws(s, [this](const string &t) { auto f = split(t, '/'); if (f.size() > 2) return Parse(BAD); Parse n = k.in(f[0]), d(Poly{1}); if (f.size() == 2) d = k.in(f[1]); if (n.v == BAD || d.v == BAD) return Parse(BAD); if (n.v == ANY || d.v == ANY || t.find('-') != string::npos) return Parse(ANY); if (d.m.a.empty()) return Parse(BAD); Parse p(n.m.a, d.m.a); if (n.v == MAYBE || d.v == MAYBE) p.v = MAYBE; return p; }, "/:,"); }
  bool same(const Model &g, const Model &w) const { return !g.b.empty() && ref::pmul(*R, g.a, w.b) == ref::pmul(*R, g.b, w.a) && ref::pgcd(*R, g.a, g.b).size() == 1; } };
struct TF2r : TFrac<TF2p, f2_polyrat_t> { TF2r() : TFrac(TF2p(), TF2pm::fld_b().get(), "01af/-g ", 64) {} bool from(T &x, const string &s) const { return x.from_string(s); } };
struct TFpr : TFrac<TFp, fp_polyrat_t> { RingP r; TFpr(int p) : TFrac(TFp(p), new ref::Zn(p), p < 10 ? "012/,-x " : "018/,-x ", 60) {} bool from(T &x, const string &s) const { return x.from_string(s, k.p); } };
struct TF2nr : TFrac<TF2n, f2n_polyrat_t> { TF2nr(uint64_t m) : TFrac(TF2n(m), TF2n(m).f.R.get(), "01b/:-g ", 64) { hold = k.f.R; R = hold.get(); } RingP hold; bool from(T &x, const string &s) const { return x.from_string(s, k.f.M); } };

