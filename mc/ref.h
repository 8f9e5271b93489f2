// Reference models: finite rings by boring arithmetic on indices 0..q-1,
// polynomials over them as coefficient lists (lowest degree first, no trailing
// zeros, zero = empty), brute-force matrices.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ref {
typedef long long ll;
typedef __int128 xl;

inline ll md(xl a, ll m) { ll r = (ll)(a % m); return r < 0 ? r + m : r; }
inline ll igcd(ll a, ll b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { ll t = a % b; a = b; b = t; } return a; }
inline ll iinv(ll a, ll m) {
  ll r0 = m, r1 = md(a, m), t0 = 0, t1 = 1;
  while (r1) { ll q = r0 / r1, t = r0 - q * r1; r0 = r1; r1 = t; t = t0 - q * t1; t0 = t1; t1 = t; }
  return r0 == 1 ? md(t0, m) : -1;
}
inline ll ipow(ll b, ll e) { ll r = 1; while (e-- > 0) r *= b; return r; }

typedef std::vector<ll> Poly;

struct Ring {
  ll q;            // size
  int p;           // characteristic
  virtual ~Ring() {}
  virtual ll add(ll a, ll b) const = 0;
  virtual ll neg(ll a) const = 0;
  virtual ll mul(ll a, ll b) const = 0;
  virtual ll inv(ll a) const = 0; // -1 if not a unit
  virtual ll fromint(ll v) const { // image of an integer
    return md(v, p);
  }
  ll sub(ll a, ll b) const { return add(a, neg(b)); }
  ll pow(ll a, ll e) const { // e >= 0, by plain repeated multiplication for small e
    ll r = 1, x = a;
    while (e) { if (e & 1) r = mul(r, x); x = mul(x, x); e >>= 1; }
    return r;
  }
};
typedef std::shared_ptr<Ring> RingP;

struct Zn : Ring {
  Zn(ll n) { q = n; p = (int)n; }
  ll add(ll a, ll b) const override { return md((xl)a + b, q); }
  ll neg(ll a) const override { return md(-(xl)a, q); }
  ll mul(ll a, ll b) const override { return md((xl)a * b, q); }
  ll inv(ll a) const override { return iinv(a, q); }
};

// ---- polynomials over a ring
inline void norm(Poly &a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
inline Poly pol(std::initializer_list<ll> hi_to_lo) { Poly r(hi_to_lo); std::reverse(r.begin(), r.end()); norm(r); return r; }
inline int deg(const Poly &a) { return a.empty() ? 0 : (int)a.size() - 1; }
inline Poly padd(const Ring &R, const Poly &a, const Poly &b) {
  Poly r(std::max(a.size(), b.size()));
  for (size_t i = 0; i < r.size(); i++) r[i] = R.add(i < a.size() ? a[i] : 0, i < b.size() ? b[i] : 0);
  norm(r); return r;
}
inline Poly pneg(const Ring &R, Poly a) { for (auto &c : a) c = R.neg(c); return a; }
inline Poly psub(const Ring &R, const Poly &a, const Poly &b) { return padd(R, a, pneg(R, b)); }
inline Poly pscale(const Ring &R, Poly a, ll s) { for (auto &c : a) c = R.mul(c, s); norm(a); return a; }
inline Poly pmul(const Ring &R, const Poly &a, const Poly &b) {
  if (a.empty() || b.empty()) return {};
  Poly r(a.size() + b.size() - 1, 0);
  for (size_t i = 0; i < a.size(); i++) if (a[i]) for (size_t j = 0; j < b.size(); j++) if (b[j]) r[i + j] = R.add(r[i + j], R.mul(a[i], b[j]));
  norm(r); return r;
}
// leading coefficient of b must be a unit
inline void pdivmod(const Ring &R, const Poly &a, const Poly &b, Poly &quo, Poly &rem) {
  rem = a; quo.clear();
  ll li = R.inv(b.back());
  if (a.size() >= b.size()) quo.assign(a.size() - b.size() + 1, 0);
  for (int s = (int)a.size() - (int)b.size(); s >= 0; s--) {
    ll c = R.mul(rem[s + b.size() - 1], li);
    quo[s] = c;
    if (c) for (size_t i = 0; i < b.size(); i++) rem[s + i] = R.sub(rem[s + i], R.mul(c, b[i]));
  }
  norm(rem); norm(quo);
}
inline Poly pmod(const Ring &R, const Poly &a, const Poly &b) { Poly q, r; pdivmod(R, a, b, q, r); return r; }
inline Poly pdiv(const Ring &R, const Poly &a, const Poly &b) { Poly q, r; pdivmod(R, a, b, q, r); return q; }
inline Poly pmonic(const Ring &R, const Poly &a) { return a.empty() ? a : pscale(R, a, R.inv(a.back())); }
inline Poly pgcd(const Ring &R, Poly a, Poly b) { while (!b.empty()) { Poly t = pmod(R, a, b); a = b; b = t; } return pmonic(R, a); }
inline Poly ppow(const Ring &R, const Poly &a, ll e) { Poly r = {1}; while (e-- > 0) r = pmul(R, r, a); return r; }
inline Poly pderiv(const Ring &R, const Poly &a) { Poly r; for (size_t i = 1; i < a.size(); i++) r.push_back(R.mul(a[i], R.fromint((ll)i))); norm(r); return r; }
inline ll peval(const Ring &R, const Poly &a, ll x) { ll r = 0, xp = 1; for (auto c : a) { r = R.add(r, R.mul(c, xp)); xp = R.mul(xp, x); } return r; }
// The library's ordering: degree, then coefficients from the top by index.
inline int pcmp(const Poly &a, const Poly &b) {
  if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
  for (int i = (int)a.size() - 1; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
inline Poly pdigits(ll v, ll q) { Poly r; while (v) { r.push_back(v % q); v /= q; } return r; }
inline ll pindex(const Poly &a, ll q) { ll v = 0; for (int i = (int)a.size() - 1; i >= 0; i--) v = v * q + a[i]; return v; }
// k-th root by search on coefficients for perfect p-th powers: a = r^p iff only
// exponents divisible by p occur and each coefficient is a p-th power.
inline bool ppth_root(const Ring &R, const Poly &a, Poly &r) {
  int p = R.p;
  r.assign(a.empty() ? 0 : (a.size() - 1) / p + 1, 0);
  for (size_t i = 0; i < a.size(); i++) {
    if (i % p) { if (a[i]) return false; continue; }
    bool found = false;
    if (a[i] == 0 || R.q == p) { r[i / p] = a[i]; found = true; }
    // In a finite field of size q = p^n the p-th root is the p^(n-1)-th power.
    if (!found) { r[i / p] = R.pow(a[i], R.q / p); found = R.pow(r[i / p], p) == a[i]; }
    if (!found) return false;
  }
  norm(r);
  return true;
}
inline bool pirr(const Ring &R, const Poly &a) { // by trial division over a field
  int d = (int)a.size() - 1;
  if (d < 1) return false;
  for (int e = 1; 2 * e <= d; e++) {
    ll n = ipow(R.q, e);
    for (ll k = 0; k < n; k++) {
      Poly b = pdigits(k, R.q); b.resize(e + 1, 0); b[e] = 1;
      if (pmod(R, a, b).empty()) return false;
    }
  }
  return true;
}

// R[y]/(m): elements are base-q digit strings.  m's leader must be a unit.
struct Ext : Ring {
  RingP B; Poly m; int n;
  std::vector<ll> at, mt; // tables when small
  Ext(RingP base, const Poly &mod) : B(base), m(mod), n((int)mod.size() - 1) {
    q = ipow(B->q, n); p = B->p;
    if (q <= 128) {
      at.resize(q * q); mt.resize(q * q);
      for (ll a = 0; a < q; a++) for (ll b = 0; b < q; b++) { at[a * q + b] = add0(a, b); mt[a * q + b] = mul0(a, b); }
    }
  }
  ll add0(ll a, ll b) const { return pindex(padd(*B, pdigits(a, B->q), pdigits(b, B->q)), B->q); }
  ll mul0(ll a, ll b) const { return pindex(pmod(*B, pmul(*B, pdigits(a, B->q), pdigits(b, B->q)), m), B->q); }
  ll add(ll a, ll b) const override { return at.empty() ? add0(a, b) : at[a * q + b]; }
  ll mul(ll a, ll b) const override { return mt.empty() ? mul0(a, b) : mt[a * q + b]; }
  ll neg(ll a) const override { return pindex(pneg(*B, pdigits(a, B->q)), B->q); }
  ll fromint(ll v) const override { return B->fromint(v); }
  ll inv(ll a) const override {
    // extended Euclid over the base field; requires the base to be a field
    Poly r0 = m, r1 = pdigits(a, B->q), t0 = {}, t1 = {1};
    r1 = pmod(*B, r1, m);
    while (!r1.empty()) { Poly q_, r_; pdivmod(*B, r0, r1, q_, r_); r0 = r1; r1 = r_; Poly t = psub(*B, t0, pmul(*B, q_, t1)); t0 = t1; t1 = t; }
    if (r0.size() != 1) return -1;
    return pindex(pmod(*B, pscale(*B, t0, B->inv(r0[0])), m), B->q);
  }
};

// ---- matrices over a ring
typedef std::vector<std::vector<ll>> Mat;
inline Mat mzero(int r, int c) { return Mat(r, std::vector<ll>(c, 0)); }
inline Mat mident(int n) { Mat m = mzero(n, n); for (int i = 0; i < n; i++) m[i][i] = 1; return m; }
inline Mat mmul(const Ring &R, const Mat &a, const Mat &b, int inner, int cols) {
  Mat r = mzero((int)a.size(), cols);
  for (size_t i = 0; i < a.size(); i++) for (int j = 0; j < cols; j++) for (int k = 0; k < inner; k++) r[i][j] = R.add(r[i][j], R.mul(a[i][k], b[k][j]));
  return r;
}
inline ll mdet(const Ring &R, const Mat &a) { // Laplace along the first row
  int n = (int)a.size();
  if (n == 0) return 1;
  if (n == 1) return a[0][0];
  ll d = 0;
  for (int j = 0; j < n; j++) {
    if (!a[0][j]) continue;
    Mat s;
    for (int i = 1; i < n; i++) { std::vector<ll> r; for (int k = 0; k < n; k++) if (k != j) r.push_back(a[i][k]); s.push_back(r); }
    ll t = R.mul(a[0][j], mdet(R, s));
    d = j & 1 ? R.sub(d, t) : R.add(d, t);
  }
  return d;
}
// Reduced row-echelon form over a field; returns rank.
inline int mrref(const Ring &R, Mat &a) {
  int r = 0, rows = (int)a.size(), cols = rows ? (int)a[0].size() : 0;
  for (int c = 0; c < cols && r < rows; c++) {
    int k = r; while (k < rows && a[k][c] == 0) k++;
    if (k == rows) continue;
    std::swap(a[k], a[r]);
    ll iv = R.inv(a[r][c]);
    for (auto &x : a[r]) x = R.mul(x, iv);
    for (int i = 0; i < rows; i++) if (i != r && a[i][c]) { ll f = a[i][c]; for (int j = 0; j < cols; j++) a[i][j] = R.sub(a[i][j], R.mul(f, a[r][j])); }
    r++;
  }
  return r;
}
} // namespace ref
