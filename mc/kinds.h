// Element kinds for the container templates, and conversions to plain arrays.
#pragma once
#include "fields.h"
#include "spffl/bits/bit_t.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/containers/tvector.h"
#include "spffl/intmath/intrat_t.h"
using namespace fld;
using spffl::bits::bit_t;
typedef std::vector<ll> V;
typedef std::vector<V> M;

// Element kinds: library value <-> index in a reference ring.
struct KInt { typedef int T; RingP R{new ref::Zn(2147483647)}; std::string name = "int"; static const bool field = false;
  T mk(ll k) const { return (int)k; } ll rd(T x) const { return ref::md(x, R->q); } };
struct KBit { typedef bit_t T; RingP R{new ref::Zn(2)}; std::string name = "bit"; static const bool field = true;
  T mk(ll k) const { return bit_t((int)k & 1); } ll rd(const T &x) const { return x.get_residue(); } };
struct KMod { typedef intmod_t T; RingP R{new ref::Zn(5)}; std::string name = "residue mod 5"; static const bool field = true;
  T mk(ll k) const { return intmod_t((int)k, 5); } ll rd(const T &x) const { return x.get_modulus() == 5 ? x.get_residue() : -1; } };
struct KExt { typedef f2_polymod_t T; F2N f{7}; RingP R = f.R; std::string name = "F4"; static const bool field = true;
  T mk(ll k) const { return f.coeff(k & 3); } ll rd(const T &x) const { return f.idx(x); } };
struct KPol { typedef f2_poly_t T; RingP R{new ref::Ext(RingP(new ref::Zn(2)), ref::pdigits((1ll << 31) | 9, 2))}; std::string name = "F2 polynomial"; static const bool field = false;
  T mk(ll k) const { return f2p((uint64_t)k); } ll rd(const T &x) const { return ref::pindex(of_f2p(x), 2); } };

struct KMd { typedef intmod_t T; RingP R; int p; std::string name; static const bool field = true; KMd(int p_) : R(new ref::Zn(p_)), p(p_), name(mc::fmt("F%d", p_)) {}
  T mk(ll k) const { return intmod_t((int)k, p); } ll rd(const T &x) const { return x.get_modulus() == p ? x.get_residue() : -1; } };
struct KF2n { typedef f2_polymod_t T; F2N f; RingP R; std::string name; static const bool field = true; KF2n(uint64_t m) : f(m), R(f.R), name(f.name) {}
  T mk(ll k) const { return f.coeff(k); } ll rd(const T &x) const { return f.idx(x); } };
struct KFpn { typedef fp_polymod_t T; FPN f; RingP R; std::string name; static const bool field = true; KFpn(int p, const Poly &m) : f(p, m), R(f.R), name(f.name) {}
  T mk(ll k) const { return f.coeff(k); } ll rd(const T &x) const { return f.idx(x); } };
// Small rationals, compared through their images modulo a large prime.
struct KRat { typedef spffl::intmath::intrat_t T; RingP R{new ref::Zn(2147483647)}; std::string name = "Q"; static const bool field = true;
  T mk(ll k) const { static const int t[][2] = {{0, 1}, {1, 1}, {-1, 1}, {2, 1}, {1, 2}, {-2, 3}}; return T(t[k][0], t[k][1]); }
  ll im(ll k) const { return rd(mk(k)); }
  ll rd(const T &x) const { ll n = x.get_numerator(), d = x.get_denominator(); if (d <= 0 || ref::igcd(n, d) != 1) return -1; return R->mul(ref::md(n, R->q), R->inv(ref::md(d, R->q))); } };

static std::string sv(const V &v) { return mc::str(v); }
static std::string sm(const M &m) { std::string s; for (auto &r : m) s += sv(r); return s; }
template <class K> V rdv(const K &k, const tvector<typename K::T> &x) { V v; for (int i = 0; i < x.get_num_elements(); i++) v.push_back(k.rd(x[i])); return v; }
template <class K> M rdm(const K &k, const tmatrix<typename K::T> &x) { M m; for (int i = 0; i < x.get_num_rows(); i++) m.push_back(rdv(k, x[i])); return m; }
template <class K> tvector<typename K::T> mkv(const K &k, const V &v) { if (v.empty()) return tvector<typename K::T>(); tvector<typename K::T> x((int)v.size()); for (size_t i = 0; i < v.size(); i++) x[(int)i] = k.mk(v[i]); return x; }
template <class K> tmatrix<typename K::T> mkm(const K &k, const M &m) { if (m.empty()) return tmatrix<typename K::T>(); tmatrix<typename K::T> x((int)m.size(), (int)m[0].size()); for (size_t i = 0; i < m.size(); i++) x[(int)i] = mkv(k, m[i]); return x; }
template <class K> void chkv(const K &k, const tvector<typename K::T> &x, const V &v, const char *w) { V g = rdv(k, x); if (g != v) mc::fail(mc::fmt("%s gives %s, expected %s", w, sv(g).c_str(), sv(v).c_str())); }
template <class K> void chkm(const K &k, const tmatrix<typename K::T> &x, const M &m, const char *w) {
  bool ok = x.get_num_rows() == (int)m.size() && x.get_num_cols() == (m.empty() ? 0 : (int)m[0].size()); M g; if (ok) { g = rdm(k, x); ok = g == m; }
  if (!ok) mc::fail(mc::fmt("%s gives %s (%dx%d), expected %s", w, sm(g).c_str(), x.get_num_rows(), x.get_num_cols(), sm(m).c_str())); }
template <class K> V vadd(const K &k, V a, const V &b) { for (size_t i = 0; i < a.size(); i++) a[i] = k.R->add(a[i], b[i]); return a; }
template <class K> V vsub(const K &k, V a, const V &b) { for (size_t i = 0; i < a.size(); i++) a[i] = k.R->sub(a[i], b[i]); return a; }
template <class K> V vmul(const K &k, V a, const V &b) { for (size_t i = 0; i < a.size(); i++) a[i] = k.R->mul(a[i], b[i]); return a; }
template <class K> V vsc(const K &k, V a, ll s) { for (auto &e : a) e = k.R->mul(e, s); return a; }
template <class K> V vneg(const K &k, V a) { for (auto &e : a) e = k.R->neg(e); return a; }
template <class K> M mel(const K &k, M a, const M &b, V (*f)(const K &, V, const V &)) { for (size_t i = 0; i < a.size(); i++) a[i] = f(k, a[i], b[i]); return a; }
static int C(const M &m) { return m.empty() ? 0 : (int)m[0].size(); }
static bool dims(const M &a, const M &b) { return a.size() == b.size() && C(a) == C(b); }

