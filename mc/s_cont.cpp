// C01: vectors and matrices of ring elements as values; C02: factor lists and stacks.
#include "kinds.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/containers/tstack.h"
#include <set>

#ifdef MC_PROP_C01
template <class K> struct S { tvector<typename K::T> x, y; V u, v; };
template <class K> struct VOp { std::string n; std::function<void(const K &, S<K> &)> f; };
template <class K> std::vector<VOp<K>> vops() {
  typedef typename K::T T; typedef tvector<T> W;
  std::vector<VOp<K>> o;
  auto add = [&](const std::string &n, std::function<void(const K &, S<K> &)> f) { o.push_back({n, f}); };
  add("x=y", [](const K &, S<K> &s) { s.x = s.y; s.u = s.v; });
  add("y=x", [](const K &, S<K> &s) { s.y = s.x; s.v = s.u; });
  add("x=x", [](const K &, S<K> &s) { W &r = s.x; s.x = r; });
  add("y=copy of x, copy changed", [](const K &k, S<K> &s) { W t(s.x); s.y = t; s.v = s.u; if (!s.u.empty()) t[0] = k.mk(s.u[0] == 0 ? 1 : 0); });
  add("x=empty", [](const K &, S<K> &s) { s.x = W(); s.u.clear(); });
  for (int n : {1, 2, 4}) add(mc::fmt("x=ones(%d)", n), [n](const K &k, S<K> &s) { s.x = W(k.mk(1), n); s.u = V(n, 1); });
  add("x=(1,0,1)", [](const K &k, S<K> &s) { s.u = {1, 0, 1}; s.x = mkv(k, s.u); });
  add("x=scalar", [](const K &k, S<K> &s) { s.x = k.mk(1); if (s.u.empty()) s.u = V(1); for (ll &e : s.u) e = 1; });
  add("x=its last element", [](const K &, S<K> &s) { int n = (int)s.u.size(); if (!n) return; s.x = s.x[n - 1]; ll l = s.u[n - 1]; for (ll &e : s.u) e = l; });
  add("write last of x", [](const K &k, S<K> &s) { int n = (int)s.u.size(); MC_THROWS(s.x[n]); MC_THROWS(s.x[-1]); if (!n) return; s.x[n - 1] = k.mk(0); s.u[n - 1] = 0; });
  add("write first of y", [](const K &k, S<K> &s) { if (s.v.empty()) { MC_THROWS(s.y[0]); return; } s.y[0] = k.mk(1); s.v[0] = 1; });
  add("swap", [](const K &, S<K> &s) { if (s.u.size() != s.v.size()) { MC_THROWS(s.x.ptrswap(s.y)); return; } s.x.ptrswap(s.y); std::swap(s.u, s.v); });
  add("x+=y", [](const K &k, S<K> &s) { if (s.u.size() != s.v.size()) { MC_THROWS(s.x += s.y); return; } if (s.u.empty()) return; s.x += s.y; s.u = vadd(k, s.u, s.v); });
  add("x-=y", [](const K &k, S<K> &s) { if (s.u.size() != s.v.size()) { MC_THROWS(s.x -= s.y); return; } if (s.u.empty()) return; s.x -= s.y; s.u = vsub(k, s.u, s.v); });
  add("x+=x", [](const K &k, S<K> &s) { if (s.u.empty()) return; s.x += s.x; s.u = vadd(k, s.u, s.u); });
  add("x*=y", [](const K &k, S<K> &s) { if (s.u.size() != s.v.size()) { MC_THROWS(s.x *= s.y); return; } s.x *= s.y; s.u = vmul(k, s.u, s.v); });
  add("x*=x[0]", [](const K &k, S<K> &s) { if (s.u.empty()) return; s.x *= s.x[0]; s.u = vsc(k, s.u, s.u[0]); });
  add("x.mult_by(x[last])", [](const K &k, S<K> &s) { if (s.u.empty()) return; s.x.mult_by(s.x[(int)s.u.size() - 1]); s.u = vsc(k, s.u, s.u.back()); });
  add("y=-x", [](const K &k, S<K> &s) { if (s.u.empty()) return; s.y = -s.x; s.v = vneg(k, s.u); });
  add("y=x*y", [](const K &k, S<K> &s) { if (s.u.size() != s.v.size()) { MC_THROWS(s.x * s.y); return; } if (s.u.empty()) return; s.y = s.x * s.y; s.v = vmul(k, s.u, s.v); });
  add("x.accum_row_mul(1, x0, y)", [](const K &k, S<K> &s) { if (s.u.size() != s.v.size()) { if (!s.u.empty()) MC_THROWS(s.x.accum_row_mul(s.x[0], s.x[0], s.y)); return; } if (s.u.empty()) return;
    ll c = s.u[0]; s.x.accum_row_mul(k.mk(1), s.x[0], s.y); s.u = vsub(k, s.u, vsc(k, s.v, c)); });
  add("trim x", [](const K &, S<K> &s) { int n = (int)s.u.size(); MC_THROWS(s.x.trim_num_elements(n + 1)); MC_THROWS(s.x.trim_num_elements(0)); MC_THROWS(s.x.trim_num_elements(-1)); if (n < 2) return; s.x.trim_num_elements(n - 1); s.u.pop_back(); });
  add("sort x", [](const K &, S<K> &s) { if (s.u.empty()) return; s.x.sort(); if (s.u.size()) { V w; for (int i = 0; i < (int)s.u.size(); i++) w.push_back(s.u[i]); if (K().name == "int") std::sort(w.begin(), w.end(), [](ll a, ll b) { auto z = [](ll c) { return c > 1073741823 ? c - 2147483647 : c; }; return z(a) < z(b); }); else std::sort(w.begin(), w.end()); s.u = w; } });
  if constexpr (K::field) {
    add("x/=x[0]", [](const K &k, S<K> &s) { if (s.u.empty() || s.u[0] == 0) return; s.x /= s.x[0]; s.u = vsc(k, s.u, k.R->inv(s.u[0])); });
    add("y=y/x", [](const K &k, S<K> &s) { if (s.u.size() != s.v.size()) { MC_THROWS(s.y / s.x); return; } if (s.u.empty()) return; for (ll e : s.u) if (!e) { MC_THROWS(s.y / s.x); return; } s.y = s.y / s.x; for (size_t i = 0; i < s.u.size(); i++) s.v[i] = k.R->mul(s.v[i], k.R->inv(s.u[i])); });
    add("x=x.exp(2)", [](const K &k, S<K> &s) { if (s.u.empty()) return; s.x = s.x.exp(2); s.u = vmul(k, s.u, s.u); });
  }
  return o;
}
template <class K> void lookv(const K &k, S<K> &s) {
  chkv(k, s.x, s.u, "first vector"); chkv(k, s.y, s.v, "second vector");
  MC_EQ((s.x == s.y), s.u == s.v); MC_EQ((s.x != s.y), s.u != s.v);
  if (s.u.empty()) return;
  bool allz = true; int lead = -1; for (size_t i = 0; i < s.u.size(); i++) { allz = allz && !s.u[i]; if (lead < 0 && s.u[i]) lead = (int)i; }
  MC_EQ((s.x == k.mk(0)), allz); MC_EQ((s.x != k.mk(0)), !allz);
  int p = -3; bool f = s.x.find_leader_pos(k.mk(0), p); MC_EQ(f, lead >= 0); if (f) MC_EQ(p, lead);
  if (s.u.size() == s.v.size()) {
    ll d = 0; for (size_t i = 0; i < s.u.size(); i++) d = k.R->add(d, k.R->mul(s.u[i], s.v[i])); MC_EQ(k.rd(s.x.dot(s.y)), d);
    chkv(k, s.x + s.y, vadd(k, s.u, s.v), "sum"); chkv(k, s.x - s.y, vsub(k, s.u, s.v), "difference");
  } else { MC_THROWS(s.x.dot(s.y)); MC_THROWS(s.x + s.y); MC_THROWS(s.x - s.y); }
  chkv(k, s.x, s.u, "first vector after observation");
}
template <class K> struct MS { tmatrix<typename K::T> a, b; M p, q; };
template <class K> struct MOp { std::string n; std::function<void(const K &, MS<K> &)> f; };
template <class K> std::vector<MOp<K>> mops() {
  typedef typename K::T T; typedef tmatrix<T> W;
  std::vector<MOp<K>> o;
  auto add = [&](const std::string &n, std::function<void(const K &, MS<K> &)> f) { o.push_back({n, f}); };
  add("a=b", [](const K &, MS<K> &t) { t.a = t.b; t.p = t.q; });
  add("b=a", [](const K &, MS<K> &t) { t.b = t.a; t.q = t.p; });
  add("a=a", [](const K &, MS<K> &t) { W &r = t.a; t.a = r; });
  add("b=copy of a, copy changed", [](const K &k, MS<K> &t) { W c(t.a); t.b = c; t.q = t.p; if (!t.p.empty()) c[0][0] = k.mk(t.p[0][0] ? 0 : 1); });
  add("a=empty", [](const K &, MS<K> &t) { t.a = W(); t.p.clear(); });
  for (auto d : {std::pair<int, int>{1, 1}, {1, 3}, {2, 3}, {3, 2}, {3, 3}}) add(mc::fmt("a=patterned %dx%d", d.first, d.second), [d](const K &k, MS<K> &t) { M m(d.first, V(d.second)); for (int i = 0; i < d.first; i++) for (int j = 0; j < d.second; j++) m[i][j] = (i * i + j + i * j) % 2; t.a = mkm(k, m); t.p = m; });
  add("a=ones 2x2", [](const K &k, MS<K> &t) { t.a = W(k.mk(1), 2, 2); t.p = M(2, V(2, 1)); });
  add("a=scalar", [](const K &k, MS<K> &t) { t.a = k.mk(1); if (t.p.empty()) t.p = M(1, V(1)); for (auto &r : t.p) for (ll &e : r) e = 1; });
  add("a=its corner", [](const K &, MS<K> &t) { if (t.p.empty()) return; int i = (int)t.p.size() - 1, j = C(t.p) - 1; t.a = t.a[i][j]; ll c = t.p[i][j]; for (auto &r : t.p) for (ll &e : r) e = c; });
  add("write corner of a", [](const K &k, MS<K> &t) { int i = (int)t.p.size() - 1, j = C(t.p) - 1; MC_THROWS(t.a[i + 1]); MC_THROWS(t.a[-1]); if (i < 0) return; MC_THROWS(t.a[i][j + 1]); t.a[i][j] = k.mk(t.p[i][j] ? 0 : 1); t.p[i][j] = t.p[i][j] ? 0 : 1; });
  add("swap end rows", [](const K &, MS<K> &t) { int n = (int)t.p.size(); MC_THROWS(t.a.swap(0, n)); MC_THROWS(t.a.swap(-1, 0)); if (!n) return; t.a.swap(0, n - 1); std::swap(t.p[0], t.p[n - 1]); });
  add("a[0]=b[last]", [](const K &, MS<K> &t) { if (t.p.empty() || t.q.empty() || C(t.p) != C(t.q)) return; t.a[0] = t.b[(int)t.q.size() - 1]; t.p[0] = t.q.back(); });
  add("transpose", [](const K &, MS<K> &t) { if (t.p.empty()) return; t.a = t.a.transpose(); M m(C(t.p), V(t.p.size())); for (size_t i = 0; i < t.p.size(); i++) for (int j = 0; j < C(t.p); j++) m[j][i] = t.p[i][j]; t.p = m; });
  add("flips", [](const K &k, MS<K> &t) { if (t.p.empty()) return; M h = t.p, v = t.p; for (auto &r : h) std::reverse(r.begin(), r.end()); std::reverse(v.begin(), v.end()); chkm(k, t.a.flip_horiz(), h, "horizontal flip"); chkm(k, t.a.flip_vert(), v, "vertical flip"); std::reverse(h.begin(), h.end()); t.a = t.a.flip_horiz_vert(); t.p = h; });
  add("a+=b", [](const K &k, MS<K> &t) { if (!dims(t.p, t.q)) { MC_THROWS(t.a += t.b); return; } if (t.p.empty()) return; t.a += t.b; t.p = mel(k, t.p, t.q, vadd<K>); });
  add("a-=b", [](const K &k, MS<K> &t) { if (!dims(t.p, t.q)) { MC_THROWS(t.a -= t.b); return; } if (t.p.empty()) return; t.a -= t.b; t.p = mel(k, t.p, t.q, vsub<K>); });
  add("a+=a00", [](const K &k, MS<K> &t) { if (t.p.empty()) return; if ((int)t.p.size() != C(t.p)) { MC_THROWS(t.a += t.a[0][0]); return; } ll c = t.p[0][0]; t.a += t.a[0][0]; for (int i = 0; i < C(t.p); i++) t.p[i][i] = k.R->add(t.p[i][i], c); });
  add("a-=a00", [](const K &k, MS<K> &t) { if (t.p.empty()) return; if ((int)t.p.size() != C(t.p)) { MC_THROWS(t.a -= t.a[0][0]); return; } ll c = t.p[0][0]; t.a -= t.a[0][0]; for (int i = 0; i < C(t.p); i++) t.p[i][i] = k.R->sub(t.p[i][i], c); });
  add("a*=a corner", [](const K &k, MS<K> &t) { if (t.p.empty()) return; ll c = t.p.back().back(); t.a *= t.a[(int)t.p.size() - 1][C(t.p) - 1]; for (auto &r : t.p) r = vsc(k, r, c); });
  add("a*=b", [](const K &k, MS<K> &t) { if (t.p.empty() || t.q.empty()) return; if (C(t.p) != (int)t.q.size()) { MC_THROWS(t.a *= t.b); return; } t.a *= t.b; t.p = ref::mmul(*k.R, t.p, t.q, C(t.p), C(t.q)); });
  add("b=-a", [](const K &k, MS<K> &t) { if (t.p.empty()) return; t.b = -t.a; t.q = t.p; for (auto &r : t.q) r = vneg(k, r); });
  add("b=paste b a", [](const K &, MS<K> &t) { if (t.p.size() != t.q.size()) { MC_THROWS(t.b.paste(t.a)); return; } if (t.p.empty() || C(t.p) + C(t.q) > 8) return; t.b = t.b.paste(t.a); for (size_t i = 0; i < t.p.size(); i++) t.q[i].insert(t.q[i].end(), t.p[i].begin(), t.p[i].end()); });
  add("b=paste column of a", [](const K &, MS<K> &t) { if (t.p.empty() || t.q.empty()) return; auto c = t.a.get_column(C(t.p) - 1); MC_THROWS(t.a.get_column(C(t.p))); MC_THROWS(t.a.get_column(-1)); if (t.p.size() != t.q.size()) { MC_THROWS(t.b.paste_vector(c)); return; } t.b = t.b.paste_vector(c); for (size_t i = 0; i < t.p.size(); i++) t.q[i].push_back(t.p[i].back()); });
  add("put column", [](const K &, MS<K> &t) { if (t.p.empty() || t.q.empty()) return; auto c = t.b.get_column(0); if (t.p.size() != t.q.size()) { MC_THROWS(t.a.put_column(0, c)); return; } MC_THROWS(t.a.put_column(C(t.p), c)); MC_THROWS(t.a.put_column(-1, c)); t.a.put_column(C(t.p) - 1, c); for (size_t i = 0; i < t.p.size(); i++) t.p[i].back() = t.q[i][0]; });
  add("a,b=split b", [](const K &, MS<K> &t) { int c = C(t.q); MC_THROWS(t.b.split(t.a, t.a, c)); MC_THROWS(t.b.split(t.a, t.a, -1)); if (c < 2) return; int s = c / 2; W l, r; t.b.split(l, r, s); t.a = l; t.b = r; M L, R; for (auto &w : t.q) { L.push_back(V(w.begin(), w.begin() + s)); R.push_back(V(w.begin() + s, w.end())); } t.p = L; t.q = R; });
  add("a=outer", [](const K &k, MS<K> &t) { if (t.p.empty() || t.q.empty()) return; auto u = t.b[0], v = t.a[0]; M m; for (ll e : t.q[0]) m.push_back(vsc(k, t.p[0], e)); t.a = W::outer(u, v); t.p = m; });
  add("trim rows", [](const K &, MS<K> &t) { int n = (int)t.p.size(); MC_THROWS(t.a.trim_num_rows(0)); MC_THROWS(t.a.trim_num_rows(n + 1)); if (n < 2) return; t.a.trim_num_rows(n - 1); t.p.pop_back(); });
  return o;
}
template <class K> void lookm(const K &k, MS<K> &t) {
  chkm(k, t.a, t.p, "first matrix"); chkm(k, t.b, t.q, "second matrix");
  if (dims(t.p, t.q)) { MC_EQ((t.a == t.b), t.p == t.q); MC_EQ((t.a != t.b), t.p != t.q); }
  if (t.p.empty()) return;
  bool z = true, o = true, id = (int)t.p.size() == C(t.p);
  for (size_t i = 0; i < t.p.size(); i++) for (int j = 0; j < C(t.p); j++) { z = z && !t.p[i][j]; o = o && t.p[i][j] == 1; id = id && t.p[i][j] == ((int)i == j); }
  MC_EQ((t.a == k.mk(0)), z); MC_EQ((t.a == k.mk(1)), o); MC_EQ((t.a != k.mk(1)), !o); MC_EQ(t.a.is_square(), (int)t.p.size() == C(t.p)); MC_EQ(t.a.is_zero(), z); MC_EQ(t.a.is_I(), id);
  int n = (int)t.p.size(), ri = -1; auto r = t.a[n - 1]; int w = 0; while (t.p[w] != t.p[n - 1]) w++; MC_EQ(t.a.find_row(r, ri), true); MC_EQ(ri, w);
  if (C(t.q) == C(t.p) && !t.q.empty()) { bool h = false; for (auto &x : t.p) h = h || x == t.q[0]; auto g = t.b[0]; int i; MC_EQ(t.a.find_row(g, i), h); }
  V one(C(t.p)); for (int j = 0; j < C(t.p); j++) one[j] = j & 1 ? 0 : 1;
  V prod(n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < C(t.p); j++) prod[i] = k.R->add(prod[i], k.R->mul(t.p[i][j], one[j])); chkv(k, t.a * mkv(k, one), prod, "matrix times vector");
  V lo(n); for (int j = 0; j < n; j++) lo[j] = j == 1 ? 0 : 1; V pr(C(t.p), 0); for (int j = 0; j < C(t.p); j++) for (int i = 0; i < n; i++) pr[j] = k.R->add(pr[j], k.R->mul(lo[i], t.p[i][j])); chkv(k, mkv(k, lo) * t.a, pr, "vector times matrix");
  MC_THROWS(t.a * mkv(k, V(C(t.p) + 1, 1))); MC_THROWS(mkv(k, V(n + 1, 1)) * t.a);
  if (n == C(t.p)) chkm(k, t.a.make_I(k.mk(0), k.mk(1)), ref::mident(n), "identity"); else MC_THROWS(t.a.make_I(k.mk(0), k.mk(1)));
  chkm(k, t.a, t.p, "first matrix after observation");
}
template <class K> void kind(const K &k, int dv, int dm) {
  auto vo = vops<K>(); int nv = (int)vo.size();
  for (int i = 0; i < nv; i++) mc::unit(k.name + " vector histories starting " + vo[i].n, [&] {
    ll n = ref::ipow(nv, dv - 1);
    for (int st = 0; st < 2; st++) for (ll h = 0; h < n; h++) {
      mc::run("history", {st, h}, [&] { S<K> s; if (st) { s.u = {1, 0}; s.x = mkv(k, s.u); } s.v = {0, 1, 1}; s.y = mkv(k, s.v); ll c = h; for (int d = 0; d < dv; d++) { int op = d ? (int)(c % nv) : i; if (d) c /= nv; vo[op].f(k, s); } mc::count_states(); lookv(k, s); });
      if (mc::give_up()) return;
    }
  });
  auto mo = mops<K>(); int nm = (int)mo.size();
  for (int i = 0; i < nm; i++) mc::unit(k.name + " matrix histories starting " + mo[i].n, [&] {
    ll n = ref::ipow(nm, dm - 1);
    for (int st = 0; st < 2; st++) for (ll h = 0; h < n; h++) {
      mc::run("history", {st, h}, [&] { MS<K> s; if (st) { s.p = {{1, 0}, {1, 1}}; s.a = mkm(k, s.p); } s.q = {{0, 1, 1}, {1, 0, 0}}; s.b = mkm(k, s.q); ll c = h; for (int d = 0; d < dm; d++) { int op = d ? (int)(c % nm) : i; if (d) c /= nm; mo[op].f(k, s); } mc::count_states(); lookm(k, s); });
      if (mc::give_up()) return;
    }
  });
  mc::unit(k.name + " sizes", [&] { for (int n = -2; n <= 0; n++) mc::run("size", {n}, [&] { typedef typename K::T T; MC_THROWS(tvector<T>(n)); MC_THROWS(tvector<T>(k.mk(1), n)); MC_THROWS(tmatrix<T>(n, 2)); MC_THROWS(tmatrix<T>(2, n)); MC_THROWS(tmatrix<T>(k.mk(1), 2, n)); MC_THROWS(tmatrix<T>(k.mk(1), n, n)); }); });
}
MC_PROP(C01) {
  bool t = mc::thorough, as = mc::asan;
  kind(KMod(), as ? 3 : t ? 5 : 4, as ? 3 : t ? 4 : 3);
  kind(KPol(), as ? 2 : 3, as ? 2 : 3); // deeper would leave the range of the reference ring
  kind(KExt(), as ? 2 : t ? 4 : 3, as ? 2 : 3);
  kind(KInt(), as ? 2 : 3, as ? 2 : 3);
  kind(KBit(), as ? 2 : t ? 4 : 3, as ? 2 : 3);
}
#endif

#ifdef MC_PROP_C02
// ---- factor lists
template <class K> struct FM { std::map<ll, ll> c; bool hu = false; ll u = 1; };
template <class K> struct FS { tfacinfo<typename K::T> f, g; FM<K> a, b; };
static ll val(const Ring &R, const std::map<ll, ll> &c, ll u) { ll r = u; for (auto &e : c) for (ll i = 0; i < e.second; i++) r = R.mul(r, e.first); return r; }
template <class K> void lookf(const K &k, const tfacinfo<typename K::T> &f, const FM<K> &m, const char *w) {
  std::map<ll, ll> got; ll tot = 0, prev = -1; bool zeros = false;
  for (int i = 0; i < f.get_num_distinct(); i++) { ll e = k.rd(f.get_ith_factor(i)); MC_CHECK(e > prev, w << ": factors out of order"); prev = e; int c = f.get_ith_count(i); if (c) got[e] = c; else zeros = true; tot += c; }
  std::map<ll, ll> want; for (auto &e : m.c) if (e.second) want[e.first] = e.second;
  if (got != want) { std::string s; for (auto &e : got) s += mc::fmt("%lld^%lld ", e.first, e.second); s += "expected "; for (auto &e : want) s += mc::fmt("%lld^%lld ", e.first, e.second); mc::fail(std::string(w) + " holds " + s); return; }
  MC_EQ(f.get_num_factors(), (int)tot);
  MC_THROWS(f.get_ith_factor(-1)); MC_THROWS(f.get_ith_factor(f.get_num_distinct())); MC_THROWS(f.get_ith_count(f.get_num_distinct()));
  typename K::T u = k.mk(0); bool h = f.get_unit(u); MC_EQ(h, m.hu); if (h && m.hu) MC_EQ(k.rd(u), m.u);
  MC_EQ(k.rd(f.unfactor(k.mk(1))), val(*k.R, want, m.hu ? m.u : 1));
  if (!zeros) { std::string s; if (m.hu) s = mc::str(k.mk(m.u)); for (auto &e : want) { if (!s.empty()) s += " "; s += mc::str(k.mk(e.first)); if (e.second != 1) s += mc::fmt("^%lld", e.second); } MC_EQ(mc::str(f), s); }
  if (want.empty() && !m.hu && !zeros) { MC_THROWS(f.get_num_divisors()); MC_THROWS(f.get_all_divisors(k.mk(1))); }
  else { ll nd = 1; for (auto &e : want) nd *= e.second + 1; MC_EQ((ll)f.get_num_divisors(), nd);
    if (nd <= 48) { std::multiset<ll> d{1}; for (auto &e : want) { std::multiset<ll> n; for (ll x : d) { ll y = x; for (ll i = 0; i <= e.second; i++) { n.insert(y); y = k.R->mul(y, e.first); } } d = n; }
      tvector<typename K::T> a = f.get_all_divisors(k.mk(1)); V g = rdv(k, a), x(d.begin(), d.end()); if (g != x) mc::fail(std::string(w) + ": divisors " + sv(g) + ", expected " + sv(x));
      std::multiset<ll> by; for (int i = 0; i < (int)nd; i++) by.insert(k.rd(f.get_kth_divisor(i, k.mk(1)))); MC_CHECK(by == d, w << ": numbered divisors are not all divisors"); }
    if (!zeros) { tvector<typename K::T> a; bool has = f.get_maximal_proper_divisors(a, k.mk(1)); MC_EQ(has, !want.empty()); if (has) { V x; for (auto &e : want) { auto c = want; c[e.first]--; x.push_back(val(*k.R, c, m.hu ? m.u : 1)); } std::sort(x.begin(), x.end()); V g = rdv(k, a); std::sort(g.begin(), g.end()); if (g != x) mc::fail(std::string(w) + ": maximal proper divisors " + sv(g) + ", expected " + sv(x)); } } }
}
template <class K> std::vector<std::pair<std::string, std::function<void(const K &, FS<K> &)>>> fops(const std::vector<ll> &fac, ll unit) {
  std::vector<std::pair<std::string, std::function<void(const K &, FS<K> &)>>> o;
  for (ll e : fac) o.push_back({mc::fmt("insert %lld", e), [e](const K &k, FS<K> &s) { s.f.insert_factor(k.mk(e)); s.a.c[e]++; }});
  o.push_back({"insert middle with count 2", [fac](const K &k, FS<K> &s) { s.f.insert_factor(k.mk(fac[1]), 2); s.a.c[fac[1]] += 2; }});
  o.push_back({"insert into the other", [fac](const K &k, FS<K> &s) { s.g.insert_factor(k.mk(fac[0]), 3); s.b.c[fac[0]] += 3; }});
  o.push_back({"insert unit", [unit](const K &k, FS<K> &s) { s.f.insert_unit(k.mk(unit)); s.a.u = k.R->mul(s.a.hu ? s.a.u : 1, unit); s.a.hu = true; }});
  o.push_back({"merge other", [](const K &k, FS<K> &s) { s.f.merge(s.g); for (auto &e : s.b.c) s.a.c[e.first] += e.second; if (s.b.hu) { s.a.u = s.a.hu ? k.R->mul(s.a.u, s.b.u) : s.b.u; s.a.hu = true; } }});
  o.push_back({"merge self", [](const K &k, FS<K> &s) { s.f.merge(s.f); for (auto &e : s.a.c) e.second *= 2; if (s.a.hu) s.a.u = k.R->mul(s.a.u, s.a.u); }});
  for (int e : {0, 1, 2}) o.push_back({mc::fmt("raise to %d", e), [e](const K &k, FS<K> &s) { s.f.exp_all(e); for (auto &x : s.a.c) x.second *= e; if (s.a.hu) s.a.u = k.R->pow(s.a.u, e); }});
  o.push_back({"other=this", [](const K &, FS<K> &s) { s.g = s.f; s.b = s.a; }});
  o.push_back({"this=other", [](const K &, FS<K> &s) { s.f = s.g; s.a = s.b; }});
  o.push_back({"this=this", [](const K &, FS<K> &s) { auto &r = s.f; s.f = r; }});
  o.push_back({"copy and change the copy", [fac](const K &k, FS<K> &s) { tfacinfo<typename K::T> c(s.f); c.insert_factor(k.mk(fac[2]), 2); FM<K> m = s.a; m.c[fac[2]] += 2; lookf(k, c, m, "copy"); }});
  o.push_back({"swap through copies", [](const K &, FS<K> &s) { tfacinfo<typename K::T> c(s.f); s.f = s.g; s.g = c; std::swap(s.a, s.b); }});
  return o;
}
template <class K> void facs(const K &k, const std::vector<ll> &fac, ll unit, int depth) {
  auto o = fops<K>(fac, unit); int n = (int)o.size();
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) mc::unit(k.name + " factor lists: " + o[i].first + ", " + o[j].first, [&] {
    ll c = ref::ipow(n, depth - 2);
    for (ll h = 0; h < c; h++) { mc::run("history", {h}, [&] { FS<K> s; ll x = h; for (int d = 0; d < depth; d++) { int op = d == 0 ? i : d == 1 ? j : (int)(x % n); if (d >= 2) x /= n; o[op].second(k, s); } mc::count_states(); lookf(k, s.f, s.a, "list"); lookf(k, s.g, s.b, "other list"); }); if (mc::give_up()) return; }
  });
}
struct KBig : KMod { KBig() { R = RingP(new ref::Zn(1000003)); name = "residue"; } T mk(ll v) const { return intmod_t((int)v, 1000003); } ll rd(const T &x) const { return x.get_modulus() == 1000003 ? x.get_residue() : -1; } };
// ---- stacks
template <class K> void stacks(const K &k, int depth) {
  typedef typename K::T T;
  static const char *on[] = {"push 1", "push 2", "pop", "copy to other", "assign from other", "assign itself", "pop other", "push other 3"};
  for (int pre : {0, 1, 8, 9, 10, 18, 19, 20, 21}) for (int first = 0; first < 8; first++) mc::unit(k.name + mc::fmt(" stack of %d, then ", pre) + on[first], [&] {
    ll n = ref::ipow(8, depth - 1);
    for (ll h = 0; h < n; h++) { mc::run("history", {h}, [&] {
      tstack<T> s, r; V a, b; for (int i = 0; i < pre; i++) { s.push(k.mk(i % 2)); a.push_back(i % 2); }
      auto pop = [&](tstack<T> &x, V &m, const char *w) { T e = k.mk(0); bool ok = x.pop(e); MC_EQ(ok, !m.empty()); if (ok && !m.empty()) { if (k.rd(e) != m.back()) mc::fail(mc::fmt("%s gives %lld, expected %lld", w, k.rd(e), m.back())); m.pop_back(); } };
      ll x = h; for (int d = 0; d < depth; d++) { int op = d ? (int)(x % 8) : first; if (d) x /= 8;
        switch (op) { case 0: s.push(k.mk(1)); a.push_back(1); break; case 1: s.push(k.mk(2)); a.push_back(k.rd(k.mk(2))); break; case 2: pop(s, a, "pop"); break; case 3: { tstack<T> c(s); r = c; b = a; break; } case 4: s = r; a = b; break; case 5: { auto &q = s; s = q; break; } case 6: pop(r, b, "pop of the other"); break; case 7: r.push(k.mk(3)); b.push_back(k.rd(k.mk(3))); break; } }
      mc::count_states(); while (!a.empty()) pop(s, a, "final pop"); pop(s, a, "empty pop"); while (!b.empty()) pop(r, b, "final pop of the other"); pop(r, b, "empty pop"); pop(r, b, "empty pop");
    }); if (mc::give_up()) return; }
  });
}
MC_PROP(C02) {
  bool t = mc::thorough, as = mc::asan;
  facs(KBig(), {3, 7, 11, 500}, 2, as ? 3 : t ? 6 : 4);
  { KPol k; k.R = RingP(new ref::Ext(RingP(new ref::Zn(2)), [] { Poly m = ref::pdigits(9, 2); m.resize(61, 0); m[60] = 1; return m; }())); facs(k, {2, 3, 7}, 1, as ? 2 : 3); }
  // Growth past every allocation step, inserted in several orders.
  for (int n : {19, 20, 21, 39, 40, 41, 61, 100}) for (int ord = 0; ord < 4; ord++) mc::unit(mc::fmt("%d distinct factors, order %d", n, ord), [&] { mc::run("grow", {n, ord}, [&] {
    KBig k; FS<KBig> s; for (int i = 0; i < n; i++) { int v = 2 + (ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i * 7) % n : (i % 2 ? i : n - 1 - i)); s.f.insert_factor(k.mk(v), 1 + i % 3); s.a.c[v] += 1 + i % 3; mc::count_states();
      if (i % 10 == 9) { tfacinfo<intmod_t> c(s.f); FM<KBig> m = s.a; c.insert_factor(k.mk(1000)); m.c[1000]++; c.insert_factor(k.mk(1)); m.c[1]++; int tot = 0; for (auto &e : m.c) tot += (int)e.second; MC_EQ(c.get_num_factors(), tot); MC_EQ(c.get_num_distinct(), (int)m.c.size()); } }
    MC_EQ(s.f.get_num_distinct(), (int)s.a.c.size()); int i = 0; for (auto &e : s.a.c) { MC_EQ(k.rd(s.f.get_ith_factor(i)), e.first); MC_EQ(s.f.get_ith_count(i), (int)e.second); i++; }
    MC_EQ(k.rd(s.f.unfactor(k.mk(1))), val(*k.R, s.a.c, 1));
    s.g = s.f; s.f.merge(s.g); i = 0; for (auto &e : s.a.c) { MC_EQ(s.f.get_ith_count(i), (int)e.second * 2); MC_EQ(s.g.get_ith_count(i), (int)e.second); i++; }
  }); });
  // Powers of factorizations carrying a unit: any unit, any exponent; zero has only positive powers.
  mc::unit("powers with units", [&] { KMod k; ll q = k.R->q; for (ll u = 0; u < q; u++) for (int e : {-7, -2, -1, 0, 1, 2, 3, 5, 8, 1000, 2147483647}) mc::run("unit", {u, e}, [&] { mc::count_states(); tfacinfo<typename KMod::T> f; f.insert_unit(k.mk((int)u)); if (e > 0 && e < 9) f.insert_factor(k.mk(2), 3); typename KMod::T g = k.mk(0);
    if (u == 0 && e <= 0) { MC_THROWS(f.exp_all(e)); MC_EQ(f.get_unit(g), true); MC_EQ(k.rd(g), 0ll); return; } ll b = u, w = 1; if (e < 0) { for (b = 1; k.R->mul(b, u) != 1; b++); } for (ll i = 0, n = e < 0 ? -(ll)e : e == 2147483647 ? e % (q - 1) + (q - 1) : e; i < n; i++) w = k.R->mul(w, b);
    f.exp_all(e); MC_EQ(f.get_unit(g), true); MC_EQ(k.rd(g), w); if (e > 0 && e < 9) { MC_EQ(f.get_num_distinct(), 1); MC_EQ(f.get_ith_count(0), 3 * e); } else MC_EQ(f.get_num_distinct(), 0); }); });
  stacks(KMod(), as ? 4 : t ? 7 : 5);
  stacks(KPol(), as ? 3 : t ? 6 : 4);
}
#endif
