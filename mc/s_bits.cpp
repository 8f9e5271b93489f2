// L01: bit vectors and matrices as values; L02: linear algebra over F2.
#include "mc.h"
#include "ref.h"
#include "spffl/bits/bit_matrix_t.h"
#include "spffl/bits/bit_vector_t.h"
using namespace spffl::bits;
typedef std::vector<int> V;
typedef std::vector<V> M;
using ref::ll;

static std::string vs(const V &v) { std::string s; for (int b : v) s += (char)('0' + b); return s; }
static std::string ms(const M &m) { std::string s; for (auto &r : m) s += vs(r) + "/"; return s; }
static bit_vector_t mkv(const V &v) { if (v.empty()) return bit_vector_t(); bit_vector_t r((int)v.size()); for (size_t i = 0; i < v.size(); i++) r.set((int)i, v[i]); return r; }
static bool same(const bit_vector_t &x, const V &v) {
  if (x.get_num_elements() != (int)v.size()) return false;
  for (size_t i = 0; i < v.size(); i++) if (x.get_int((int)i) != v[i]) return false;
  return true;
}
static V rdv(const bit_vector_t &x) { V v; for (int i = 0; i < x.get_num_elements(); i++) v.push_back(x.get_int(i)); return v; }
static void chkv(const bit_vector_t &x, const V &v, const char *what) { if (!same(x, v)) mc::fail(mc::fmt("%s gives %s, expected %s", what, vs(rdv(x)).c_str(), vs(v).c_str())); }
static bit_matrix_t mkm(const M &m) {
  if (m.empty()) return bit_matrix_t();
  bit_matrix_t r((int)m.size(), (int)m[0].size());
  for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[0].size(); j++) r[(int)i].set((int)j, m[i][j]);
  return r;
}
static M rdm(bit_matrix_t &x) { M m; for (int i = 0; i < x.get_num_rows(); i++) m.push_back(rdv(x[i])); return m; }
static void chkm(bit_matrix_t x, const M &m, const char *what) {
  bool ok = x.get_num_rows() == (int)m.size() && x.get_num_cols() == (m.empty() ? 0 : (int)m[0].size());
  if (ok) for (size_t i = 0; i < m.size(); i++) ok = ok && same(x[(int)i], m[i]);
  if (!ok) mc::fail(mc::fmt("%s gives %s (%dx%d), expected %s", what, ms(rdm(x)).c_str(), x.get_num_rows(), x.get_num_cols(), ms(m).c_str()));
}
static V vxor(V a, const V &b) { for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; return a; }
static V vand(V a, const V &b) { for (size_t i = 0; i < a.size(); i++) a[i] &= b[i]; return a; }
static M mxor(M a, const M &b) { for (size_t i = 0; i < a.size(); i++) a[i] = vxor(a[i], b[i]); return a; }
static M mtr(const M &a) { M t(a[0].size(), V(a.size())); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) t[j][i] = a[i][j]; return t; }
static M mprod(const M &a, const M &b) {
  M r(a.size(), V(b[0].size(), 0));
  for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < b.size(); k++) if (a[i][k]) r[i] = vxor(r[i], b[k]);
  return r;
}
static M ident(int n) { M r(n, V(n, 0)); for (int i = 0; i < n; i++) r[i][i] = 1; return r; }
static V bitsof(ll k, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = k >> (n - 1 - i) & 1; return v; }
static M matof(ll k, int r, int c) { M m; for (int i = 0; i < r; i++) m.push_back(bitsof(k >> ((r - 1 - i) * c) & ((1ll << c) - 1), c)); return m; }

// Every observation of one vector, against the element-wise definition.
static void look(bit_vector_t &x, const V &v) {
  chkv(x, v, "contents");
  if (v.empty()) return;
  int ones = 0, lead = -1;
  for (size_t i = 0; i < v.size(); i++) { ones += v[i]; if (v[i] && lead < 0) lead = (int)i; }
  MC_EQ(x.is_zero(), ones == 0);
  MC_EQ((x == bit_t(0)), ones == 0); MC_EQ((x == bit_t(1)), ones == (int)v.size());
  MC_EQ((x != bit_t(0)), ones != 0); MC_EQ((x != bit_t(1)), ones != (int)v.size());
  int p = -7; bool f = x.find_leader_pos(p);
  MC_EQ(f, lead >= 0); if (f) MC_EQ(p, lead);
  MC_EQ(x.dot(x).get_residue(), ones & 1);
  MC_EQ(mc::str(x).size(), 2 * v.size() - 1);
}
static void look2(bit_vector_t &x, bit_vector_t &y, const V &u, const V &v) {
  MC_EQ((x == y), u == v); MC_EQ((x != y), u != v); MC_EQ((y == x), u == v);
  if (u.empty() || v.empty()) return;
  if (u.size() == v.size()) {
    int d = 0; for (size_t i = 0; i < u.size(); i++) d ^= u[i] & v[i];
    MC_EQ(x.dot(y).get_residue(), d);
    chkv(x + y, vxor(u, v), "sum"); chkv(x - y, vxor(u, v), "difference"); chkv(x * y, vand(u, v), "product");
  } else {
    MC_THROWS(x.dot(y)); MC_THROWS(x + y); MC_THROWS(x - y); MC_THROWS(x * y);
  }
}

#ifdef MC_PROP_L01
static const int LEN[] = {1, 3, 63, 64, 65, 128, 130};
struct S { bit_vector_t x, y; V u, v; };
// Alphabet: operations on the pair; each updates the real objects and the model.
struct Op { std::string n; std::function<void(S &)> f; };
template <class F> static void mism(S &s, F &&f) { if (!mc::throws(f)) mc::fail("a length mismatch is not reported"); }
static std::vector<Op> vops() {
  std::vector<Op> o;
  o.push_back({"x=y", [](S &s) { s.x = s.y; s.u = s.v; }});
  o.push_back({"y=x", [](S &s) { s.y = s.x; s.v = s.u; }});
  o.push_back({"x=x", [](S &s) { bit_vector_t &r = s.x; s.x = r; }});
  o.push_back({"y=copy of x", [](S &s) { bit_vector_t t(s.x); s.y = t; if (!s.u.empty()) t.toggle_element(0); s.v = s.u; }});
  o.push_back({"x=empty", [](S &s) { s.x = bit_vector_t(); s.u.clear(); }});
  for (int n : {1, 64, 65, 130}) o.push_back({mc::fmt("x=zeros(%d)", n), [n](S &s) { s.x = bit_vector_t(n); s.u = V(n, 0); }});
  for (int n : {3, 64, 128}) o.push_back({mc::fmt("x=ones(%d)", n), [n](S &s) { s.x = bit_vector_t(bit_t(1), n); s.u = V(n, 1); }});
  for (int b = 0; b < 2; b++) o.push_back({mc::fmt("x=bit %d", b), [b](S &s) { s.x = bit_t(b); if (s.u.empty()) s.u = V(1); for (int &e : s.u) e = b; }});
  o.push_back({"toggle first of x", [](S &s) { if (s.u.empty()) { mism(s, [&] { s.x.toggle_element(0); }); return; } s.x.toggle_element(0); s.u[0] ^= 1; }});
  o.push_back({"toggle last of x", [](S &s) { if (s.u.empty()) { mism(s, [&] { s.x.toggle_element(-1); }); return; } int i = (int)s.u.size() - 1; s.x.toggle_element(i); s.u[i] ^= 1; mism(s, [&] { s.x.toggle_element(i + 1); }); }});
  o.push_back({"set middle of x", [](S &s) { int i = (int)s.u.size() / 2; if (s.u.empty()) { mism(s, [&] { s.x.set(i, 1); }); return; } s.x.set(i, 3); s.u[i] = 1; mism(s, [&] { s.x.set(-1, 1); }); }});
  o.push_back({"clear last of y", [](S &s) { int i = (int)s.v.size() - 1; if (i < 0) return; s.y.set(i, bit_t(0)); s.v[i] = 0; mism(s, [&] { s.y.set(i + 1, bit_t(1)); }); mism(s, [&] { s.y.get(i + 1); }); mism(s, [&] { s.y.get_int(-1); }); }});
  o.push_back({"swap", [](S &s) { if (s.u.size() != s.v.size()) { mism(s, [&] { s.x.ptrswap(s.y); }); return; } s.x.ptrswap(s.y); std::swap(s.u, s.v); }});
  o.push_back({"x+=y", [](S &s) { if (s.u.size() != s.v.size()) { mism(s, [&] { s.x += s.y; }); return; } s.x += s.y; s.u = vxor(s.u, s.v); }});
  o.push_back({"x-=y", [](S &s) { if (s.u.size() != s.v.size()) { mism(s, [&] { s.x -= s.y; }); return; } s.x -= s.y; s.u = vxor(s.u, s.v); }});
  o.push_back({"x+=x", [](S &s) { s.x += s.x; for (int &e : s.u) e = 0; }});
  o.push_back({"x*=y", [](S &s) { if (s.u.size() != s.v.size()) { mism(s, [&] { s.x *= s.y; }); return; } s.x *= s.y; s.u = vand(s.u, s.v); }});
  o.push_back({"x*=bit 0", [](S &s) { s.x *= bit_t(0); for (int &e : s.u) e = 0; }});
  o.push_back({"x=x*bit 1", [](S &s) { if (s.u.empty()) return; s.x = s.x * bit_t(1); }});
  o.push_back({"y=x*bit 0", [](S &s) { if (s.u.empty()) return; s.y = s.x * bit_t(0); s.v = V(s.u.size(), 0); }});
  o.push_back({"y accumulates x", [](S &s) { if (s.u.size() != s.v.size()) { mism(s, [&] { s.y.accum_row(s.x); }); return; } s.y.accum_row(s.x); s.v = vxor(s.v, s.u); }});
  o.push_back({"y=x+y", [](S &s) { if (s.u.empty() || s.u.size() != s.v.size()) { if (s.u.size() != s.v.size()) mism(s, [&] { s.y = s.x + s.y; }); return; } s.y = s.x + s.y; s.v = vxor(s.u, s.v); }});
  return o;
}
struct T { bit_matrix_t a, b; M p, q; };
struct Mop { std::string n; std::function<void(T &)> f; };
static int C(const M &m) { return m.empty() ? 0 : (int)m[0].size(); }
static bool dims(const M &a, const M &b) { return a.size() == b.size() && C(a) == C(b); }
static std::vector<Mop> mops() {
  std::vector<Mop> o;
  o.push_back({"a=b", [](T &t) { t.a = t.b; t.p = t.q; }});
  o.push_back({"b=a", [](T &t) { t.b = t.a; t.q = t.p; }});
  o.push_back({"a=a", [](T &t) { bit_matrix_t &r = t.a; t.a = r; }});
  o.push_back({"b=copy of a", [](T &t) { bit_matrix_t c(t.a); t.b = c; t.q = t.p; if (!t.p.empty()) c[0].toggle_element(0); }});
  o.push_back({"a=empty", [](T &t) { t.a = bit_matrix_t(); t.p.clear(); }});
  for (auto d : {std::pair<int, int>{1, 1}, {2, 3}, {3, 65}, {65, 2}, {3, 3}}) o.push_back({mc::fmt("a=patterned %dx%d", d.first, d.second), [d](T &t) {
    M m(d.first, V(d.second)); for (int i = 0; i < d.first; i++) for (int j = 0; j < d.second; j++) m[i][j] = (i * i + 3 * j + i * j) % 5 < 2; t.a = mkm(m); t.p = m; }});
  o.push_back({"a=ones 2x65", [](T &t) { t.a = bit_matrix_t(bit_t(1), 2, 65); t.p = M(2, V(65, 1)); }});
  o.push_back({"a=ones 3x3", [](T &t) { t.a = bit_matrix_t(1, 3, 3); t.p = M(3, V(3, 1)); }});
  o.push_back({"a=bit 1", [](T &t) { t.a = bit_t(1); if (t.p.empty()) t.p = M(1, V(1)); for (auto &r : t.p) for (int &e : r) e = 1; }});
  o.push_back({"toggle last of a", [](T &t) { int i = (int)t.p.size() - 1, j = C(t.p) - 1; MC_THROWS(t.a[i + 1]); MC_THROWS(t.a[-1]); if (i < 0) return; t.a[i].toggle_element(j); t.p[i][j] ^= 1; MC_THROWS(t.a[i].set(j + 1, 1)); }});
  o.push_back({"swap end rows of a", [](T &t) { int n = (int)t.p.size(); if (!n) { MC_THROWS(t.a.swap(0, 0)); return; } t.a.swap(0, n - 1); std::swap(t.p[0], t.p[n - 1]); MC_THROWS(t.a.swap(0, n)); MC_THROWS(t.a.swap(-1, 0)); }});
  o.push_back({"row write a0=b0", [](T &t) { if (t.p.empty() || t.q.empty() || C(t.p) != C(t.q)) return; t.a[0] = t.b[0]; t.p[0] = t.q[0]; }});
  o.push_back({"a=transpose a", [](T &t) { if (t.p.empty()) return; t.a = t.a.transpose(); t.p = mtr(t.p); }});
  o.push_back({"a+=b", [](T &t) { if (!dims(t.p, t.q)) { MC_THROWS(t.a += t.b); return; } if (t.p.empty()) return; t.a += t.b; t.p = mxor(t.p, t.q); }});
  o.push_back({"a-=b", [](T &t) { if (!dims(t.p, t.q)) { MC_THROWS(t.a -= t.b); return; } if (t.p.empty()) return; t.a -= t.b; t.p = mxor(t.p, t.q); }});
  o.push_back({"a+=bit 1", [](T &t) { if ((int)t.p.size() != C(t.p)) { MC_THROWS(t.a += bit_t(1)); return; } t.a += bit_t(1); for (size_t i = 0; i < t.p.size(); i++) t.p[i][i] ^= 1; }});
  o.push_back({"a*=b", [](T &t) { if (t.p.empty() || t.q.empty()) return; if (C(t.p) != (int)t.q.size()) { MC_THROWS(t.a *= t.b); return; } t.a *= t.b; t.p = mprod(t.p, t.q); }});
  o.push_back({"b=paste a a", [](T &t) { if (t.p.empty() || C(t.p) > 130) return; t.b = t.a.paste(t.a); t.q = t.p; for (auto &r : t.q) { V c = r; r.insert(r.end(), c.begin(), c.end()); } }});
  o.push_back({"a,b=split b", [](T &t) { int c = C(t.q); if (c < 2) { MC_THROWS(t.b.split(t.a, t.a, c)); return; } int k = c / 2; bit_matrix_t l, r; t.b.split(l, r, k); t.a = l; t.b = r;
    M L, R; for (auto &w : t.q) { L.push_back(V(w.begin(), w.begin() + k)); R.push_back(V(w.begin() + k, w.end())); } t.p = L; t.q = R; }});
  o.push_back({"a=outer(b0,a0)", [](T &t) { if (t.p.empty() || t.q.empty()) return; bit_vector_t u = t.b[0], v = t.a[0]; M m; for (int e : t.q[0]) m.push_back(e ? t.p[0] : V(C(t.p), 0)); t.a = bit_matrix_t::outer(u, v); t.p = m; }});
  return o;
}
static void lookm(T &t) {
  chkm(t.a, t.p, "first matrix"); chkm(t.b, t.q, "second matrix");
  if (dims(t.p, t.q)) { MC_EQ((t.a == t.b), t.p == t.q); MC_EQ((t.a != t.b), t.p != t.q); }
  if (t.p.empty()) return;
  bool z = true, o = true, id = (int)t.p.size() == C(t.p);
  for (size_t i = 0; i < t.p.size(); i++) for (int j = 0; j < C(t.p); j++) { z = z && !t.p[i][j]; o = o && t.p[i][j]; id = id && t.p[i][j] == ((int)i == j); }
  MC_EQ(t.a.is_zero(), z); MC_EQ((t.a == bit_t(0)), z); MC_EQ((t.a == bit_t(1)), o); MC_EQ((t.a != bit_t(1)), !o); MC_EQ(t.a.is_I(), id); MC_EQ(t.a.is_square(), (int)t.p.size() == C(t.p));
  if ((int)t.p.size() == C(t.p)) chkm(t.a.make_I(), ident(C(t.p)), "identity"); else MC_THROWS(t.a.make_I());
}
MC_PROP(L01) {
  bool t = mc::thorough, as = mc::asan;
  auto vo = vops(); int nv = (int)vo.size(), dv = as ? 3 : t ? 5 : 4;
  for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) mc::unit("vector histories starting " + vo[i].n + ", " + vo[j].n, [&] {
    for (int start : {1, 65}) {
      ll n = ref::ipow(nv, dv - 2);
      for (ll k = 0; k < n; k++) {
        auto go = [&] {
          S s; s.x = bit_vector_t(start); s.u = V(start, 0); s.y = bit_vector_t(1, 64); s.v = V(64, 1);
          ll c = k;
          for (int d = 0; d < dv; d++) { int op = d == 0 ? i : d == 1 ? j : (int)(c % nv); if (d >= 2) c /= nv; vo[op].f(s); }
          mc::count_states(); look(s.x, s.u); look(s.y, s.v); look2(s.x, s.y, s.u, s.v);
        };
        mc::run("history", {start, k}, go);
        if (mc::give_up()) return;
      }
    }
  });
  auto mo = mops(); int nm = (int)mo.size(), dm = as ? 3 : t ? 4 : 3;
  for (int i = 0; i < nm; i++) mc::unit("matrix histories starting " + mo[i].n, [&] {
    for (int start = 0; start < 2; start++) {
      ll n = ref::ipow(nm, dm - 1);
      for (ll k = 0; k < n; k++) {
        mc::run("history", {start, k}, [&] {
          T s; if (start) { s.p = {{1, 0, 1}, {0, 1, 1}, {1, 1, 0}}; s.a = mkm(s.p); } s.q = {{0, 1, 1}, {1, 0, 0}, {1, 1, 1}}; s.b = mkm(s.q);
          ll c = k;
          for (int d = 0; d < dm; d++) { int op = d == 0 ? i : (int)(c % nm); if (d) c /= nm; mo[op].f(s); }
          mc::count_states(); lookm(s);
        });
        if (mc::give_up()) return;
      }
    }
  });
  // Every pair of contents at small lengths.
  for (int n = 1; n <= (as ? 4 : t ? 8 : 6); n++) mc::unit(mc::fmt("all pairs of length %d", n), [&] {
    for (ll a = 0; a < 1 << n; a++) for (ll b = 0; b < 1 << n; b++) mc::run("pair", {a, b}, [&] { mc::count_states(); V u = bitsof(a, n), v = bitsof(b, n); bit_vector_t x = mkv(u), y = mkv(v); look(x, u); look2(x, y, u, v);
      chkm(bit_matrix_t::outer(x, y), [&] { M m; for (int e : u) m.push_back(e ? v : V(n, 0)); return m; }(), "outer product"); });
  });
  // Single and double bits, all ones minus one, prefixes, at every length.
  for (int n = 1; n <= (as ? 66 : t ? 260 : 132); n++) mc::unit(mc::fmt("bit positions at length %d", n), [&] {
    for (int i = 0; i < n; i++) mc::run("position", {i}, [&] {
      mc::count_states();
      V z(n, 0), o(n, 1), a = z, b = o, p = z; a[i] = 1; b[i] = 0; for (int j = 0; j <= i; j++) p[j] = 1;
      bit_vector_t Z(n), O(bit_t(1), n), O2(1, n), A = mkv(a), B = mkv(b), P = mkv(p);
      look(A, a); look(B, b); look(P, p); look(Z, z); look(O, o); look(O2, o);
      bit_vector_t *xs[] = {&Z, &O, &A, &B, &P}; V *us[] = {&z, &o, &a, &b, &p};
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) look2(*xs[x], *xs[y], *us[x], *us[y]);
      bit_vector_t E(n); E = bit_t(1); E.set(i, 0); chkv(E, b, "fill then clear"); MC_EQ((E == B), true); E += A; MC_EQ((E == O), true); MC_EQ((E == bit_t(1)), true);
      MC_THROWS(A.get(n)); MC_THROWS(A.set(n, 1)); MC_THROWS(A.set(-1, bit_t(1))); MC_THROWS(A.toggle_element(n)); MC_THROWS(A.get_int(n + 64)); chkv(A, a, "after rejected writes");
    });
    mc::run("sizes", {n}, [&] { MC_THROWS(bit_vector_t(-n)); MC_THROWS(bit_vector_t(bit_t(1), 1 - n)); MC_THROWS(bit_vector_t(1, -n)); MC_THROWS(bit_matrix_t(n, 0)); MC_THROWS(bit_matrix_t(-n, n)); MC_THROWS(bit_matrix_t(bit_t(1), 0, n)); });
    for (int e = -3; e <= 3; e++) mc::run("integer fill", {e}, [&] { chkv(bit_vector_t(e, n), V(n, e & 1), "integer fill"); bit_t b; b = e; MC_EQ(b.get_residue(), e & 1); MC_EQ(bit_t(e).get_residue(), e & 1); });
  });
  // Shapes: transpose, paste, split at every column, products with vectors.
  for (int r : {1, 2, 3, 5, 64, 65}) for (int c : {1, 2, 3, 5, 63, 64, 65, 66}) mc::unit(mc::fmt("shape %dx%d", r, c), [&] {
    for (int pat = 0; pat < 6; pat++) {
      M m(r, V(c)); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m[i][j] = pat == 0 ? 0 : pat == 1 ? 1 : pat == 2 ? i == j : pat == 3 ? (i + j) % 3 == 0 : pat == 4 ? j == c - 1 : (i * 7 + j * j * 5 + i * j) % 4 == 1;
      mc::run("transpose and products", {pat}, [&] { mc::count_states();
        bit_matrix_t A = mkm(m); chkm(A.transpose(), mtr(m), "transpose"); chkm(-A, m, "negative"); chkm(A * A.transpose(), mprod(m, mtr(m)), "A A^T");
        V v(c); for (int j = 0; j < c; j++) v[j] = j % 3 != 1; V w(r, 0); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) w[i] ^= m[i][j] & v[j];
        chkv(A * mkv(v), w, "matrix times vector"); MC_THROWS(A * bit_vector_t(c + 1));
        MC_EQ(mc::str(A).size(), (size_t)r * 2 * c);
        if (r != c) { MC_THROWS(A + bit_t(1)); MC_THROWS(A - bit_t(1)); MC_THROWS(A * A); } else { M e = m; for (int i = 0; i < r; i++) e[i][i] ^= 1; chkm(A + bit_t(1), e, "plus scalar"); chkm(A - bit_t(1), e, "minus scalar"); chkm(A + bit_t(0), m, "plus zero"); }
        bit_matrix_t B(r, c + 1); MC_THROWS(A + B); MC_THROWS(A - B); bit_matrix_t D(r + 1, c); MC_THROWS(A.paste(D)); MC_THROWS(A + D); chkm(A, m, "after rejected operations");
        M h = m; for (auto &row : h) row.push_back(1); bit_matrix_t H = mkm(h); chkm(A.paste(H), [&] { M g = m; for (int i = 0; i < r; i++) g[i].insert(g[i].end(), h[i].begin(), h[i].end()); return g; }(), "paste"); });
      for (int k = 1; k < c; k++) mc::run("split", {pat, k}, [&] { bit_matrix_t A = mkm(m), L(1, 1), R; A.split(L, R, k); M l, q; for (auto &w : m) { l.push_back(V(w.begin(), w.begin() + k)); q.push_back(V(w.begin() + k, w.end())); } chkm(L, l, "left part"); chkm(R, q, "right part"); chkm(L.paste(R), m, "pasted back"); });
      mc::run("bad split", {pat}, [&] { bit_matrix_t A = mkm(m), L, R; MC_THROWS(A.split(L, R, c)); MC_THROWS(A.split(L, R, -1)); MC_THROWS(A[r]); MC_THROWS(A[-1]); });
    }
  });
  // Bits as numbers.
  mc::unit("bits", [&] { for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) mc::run("pair", {a, b}, [&] { mc::count_states(); bit_t x(a), y(b), z;
    MC_EQ((x + y).get_residue(), a ^ b); MC_EQ((x - y).get_residue(), a ^ b); MC_EQ((x * y).get_residue(), a & b); MC_EQ((-x).get_residue(), a);
    z = x; z += y; MC_EQ(z.get_residue(), a ^ b); z = x; z -= y; MC_EQ(z.get_residue(), a ^ b); z = x; z *= y; MC_EQ(z.get_residue(), a & b);
    if (b) { MC_EQ((x / y).get_residue(), a); MC_EQ((x % y).get_residue(), 0); z = x; z /= y; MC_EQ(z.get_residue(), a); z = x; z %= y; MC_EQ(z.get_residue(), 0); }
    else { MC_THROWS(x / y); MC_THROWS(x % y); z = x; MC_THROWS(z /= y); MC_THROWS(z %= y); MC_EQ(z.get_residue(), a); }
    MC_EQ((x == y), a == b); MC_EQ((x != y), a != b); MC_EQ((x < y), a < b); MC_EQ((x <= y), a <= b); MC_EQ((x > y), a > b); MC_EQ((x >= y), a >= b); MC_EQ((x == b), a == b); MC_EQ((x != b), a != b); }); });
}
#endif

#ifdef MC_PROP_L02
static int rref(M &a) {
  int r = 0, n = (int)a.size(), c = (int)a[0].size();
  for (int j = 0; j < c && r < n; j++) {
    int k = r; while (k < n && !a[k][j]) k++;
    if (k == n) continue;
    std::swap(a[k], a[r]);
    for (int i = 0; i < n; i++) if (i != r && a[i][j]) a[i] = vxor(a[i], a[r]);
    r++;
  }
  return r;
}
static void all(const M &m, bool pows) {
  mc::count_states();
  int n = (int)m.size(), c = (int)m[0].size();
  M e = m; int rank = rref(e);
  bit_matrix_t A = mkm(m), B;
  B = A; B.row_echelon_form(); chkm(B, e, "echelon form"); MC_EQ(B.get_rank_rr(), rank);
  B = A; B.row_reduce_below(); M low = rdm(B);
  int last = -1; bool zero = false;
  for (auto &w : low) { int p = 0; while (p < c && !w[p]) p++; if (p == c) zero = true; else { MC_CHECK(!zero && p > last, "reduction below the diagonal leaves " << ms(low) << " from " << ms(m)); last = p; } }
  rref(low); MC_CHECK(low == e, "reduction changes the row space of " << ms(m));
  MC_EQ(B.get_rank_rr(), rank); MC_EQ(A.get_rank(), rank);
  bit_matrix_t K(2, 2); bool k = A.get_kernel_basis(K);
  MC_EQ(k, rank < c);
  if (k && rank < c) {
    M b = rdm(K); MC_EQ((int)b.size(), c - rank); MC_EQ(K.get_num_cols(), c);
    for (auto &v : b) for (auto &w : m) { int d = 0; for (int j = 0; j < c; j++) d ^= v[j] & w[j]; if (d) { mc::fail("kernel vector " + vs(v) + " is not annihilated by " + ms(m)); break; } }
    M bb = b; MC_EQ(rref(bb), c - rank);
    A.check_kernel_basis(K);
    bool inv = false; // a vector outside the kernel is noticed
    for (int j = 0; j < c && !inv; j++) { bool nz = false; for (auto &w : m) nz = nz || w[j]; if (nz) { bit_matrix_t X(1, c); X[0].set(j, 1); MC_THROWS(A.check_kernel_basis(X)); inv = true; } }
  }
  if (n == c) {
    MC_EQ(A.det().get_residue(), rank == n ? 1 : 0);
    bit_matrix_t I; bool iv = A.inverse(I); MC_EQ(iv, rank == n);
    if (iv && rank == n) { M i = rdm(I); MC_CHECK(mprod(m, i) == ident(n) && mprod(i, m) == ident(n), "the inverse of " << ms(m) << " does not multiply to one"); A.check_inverse(I); if (n > 1) { I[0].toggle_element(n - 1); MC_THROWS(A.check_inverse(I)); } }
    if (pows) {
      M p = ident(n);
      for (int x = 1; x <= 9; x++) { p = mprod(p, m); bit_matrix_t r; MC_EQ(A.exp(x, r), 1); chkm(r, p, "power"); }
      for (int x : {0, -1, -2, -3, -2147483647}) { bit_matrix_t r; int ok = A.exp(x, r); MC_EQ(ok, rank == n ? 1 : 0); if (!ok || rank < n) continue;
        M q = ident(n), base = x ? rdm(I) : q; A.inverse(I); base = x ? rdm(I) : q; for (unsigned y = x ? 0u - (unsigned)x : 0u; y; y >>= 1) { if (y & 1) q = mprod(q, base); base = mprod(base, base); } chkm(r, q, "inverse power"); }
      if (rank == n) { bit_matrix_t r; MC_THROWS(A.exp((int)0x80000000, r)); }
    }
  } else { MC_THROWS(A.det()); bit_matrix_t r; MC_THROWS(A.inverse(r)); MC_THROWS(A.exp(2, r)); }
  chkm(A, m, "matrix after const operations");
}
MC_PROP(L02) {
  bool t = mc::thorough, as = mc::asan;
  int cap = as ? 9 : t ? 20 : 16;
  for (int r = 1; r <= 6; r++) for (int c = 1; c <= 6; c++) if (r * c <= cap) {
    int blocks = r * c > 12 ? 1 << (r * c - 12) : 1; ll per = (1ll << r * c) / blocks;
    for (int b = 0; b < blocks; b++) mc::unit(mc::fmt("all %dx%d matrices, block %d", r, c, b), [&] { for (ll k = b * per; k < (b + 1) * per; k++) { mc::run("matrix", {k}, [&] { all(matof(k, r, c), r == c && r * c <= 9); }); if (mc::give_up()) return; } });
  }
  // All pairs and triples of small square matrices: product and associativity.
  for (int n = 1; n <= (as ? 2 : 3); n++) mc::unit(mc::fmt("all products of %dx%d matrices", n, n), [&] {
    for (ll a = 0; a < 1ll << n * n; a++) mc::run("left", {a}, [&] { M m = matof(a, n, n); bit_matrix_t A = mkm(m); for (ll b = 0; b < 1ll << n * n; b++) { mc::count_states(); M w = matof(b, n, n); chkm(A * mkm(w), mprod(m, w), "product"); }
      for (ll b = 0; b < 1 << n; b++) { V v = bitsof(b, n), w(n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w[i] ^= m[i][j] & v[j]; chkv(A * mkv(v), w, "matrix times vector"); } }); });
  // Small matrices spread over columns and rows that straddle word boundaries.
  int pos[] = {0, 1, 62, 63, 64, 65, 127, 128}; int np = 8;
  for (int wide : {65, 66, 128, 130}) for (int i = 0; i < np; i++) for (int j = i + 1; j < np; j++) for (int k = j + 1; k < np; k++) if (pos[k] < wide) mc::unit(mc::fmt("3x%d on columns %d %d %d", wide, pos[i], pos[j], pos[k]), [&] {
    for (ll x = 0; x < (as ? 64 : 512); x++) mc::run("matrix", {x}, [&] { M s = matof(x, 3, 3), m(3, V(wide, 0)); for (int a = 0; a < 3; a++) { m[a][pos[i]] = s[a][0]; m[a][pos[j]] = s[a][1]; m[a][pos[k]] = s[a][2]; } all(m, false); }); });
  // Square matrices of every size up to past two words: unit upper triangles,
  // permutations, their products, and rank-one damage.
  for (int n = 1; n <= (as ? 20 : t ? 140 : 70); n++) mc::unit(mc::fmt("structured %dx%d", n, n), [&] {
    for (int pat = 0; pat < 6; pat++) for (int dmg = 0; dmg < 4; dmg++) mc::run("matrix", {pat, dmg}, [&] {
      M m(n, V(n, 0));
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = pat == 0 ? i == j : pat == 1 ? j == (i + 1) % n : pat == 2 ? j == n - 1 - i : pat == 3 ? j >= i : pat == 4 ? (i == j || (j == n - 1 && i % 3 == 0) || (j == 0 && i % 2 == 1)) : (i * i + j * 3 + i * j) % 3 == 0;
      if (dmg == 1) m[n / 2] = V(n, 0); if (dmg == 2) m[n - 1] = m[0]; if (dmg == 3) for (auto &w : m) w[n / 3] = 0;
      all(m, false);
      if (n % 8 == 1) { bit_matrix_t A = mkm(m), r; M p = ident(n); for (int x = 1; x <= 4; x++) { p = mprod(p, m); A.exp(x, r); chkm(r, p, "power"); } }
    }); });
  // Tall matrices.
  for (int r : {64, 65, 130}) mc::unit(mc::fmt("tall %dx3", r), [&] { for (int a = 0; a < r; a += 7) for (int b = 0; b < 8; b++) mc::run("matrix", {a, b}, [&] { M m(r, V(3, 0)); m[a] = bitsof(b, 3); m[r - 1] = {1, 1, 0}; all(m, false); }); });
}
#endif
