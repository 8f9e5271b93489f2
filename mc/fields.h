// Traits binding each library field/polynomial family to the reference ring.
#pragma once
#include "mc.h"
#include "ref.h"
#include "spffl/intmath/intmod_t.h"
#include "spffl/polynomials/f2_poly_t.h"
#include "spffl/polynomials/f2_polymod_t.h"
#include "spffl/polynomials/f2n_poly_t.h"
#include "spffl/polynomials/f2n_polymod_t.h"
#include "spffl/polynomials/fp_poly_t.h"
#include "spffl/polynomials/fp_polymod_t.h"
#include "spffl/polynomials/fpn_poly_t.h"
#include "spffl/polynomials/fpn_polymod_t.h"
#include <type_traits>

namespace fld {
using spffl::intmath::intmod_t;
using spffl::polynomials::f2_poly_t;
using spffl::polynomials::f2_polymod_t;
using spffl::polynomials::f2n_poly_t;
using spffl::polynomials::f2n_polymod_t;
using spffl::polynomials::fp_poly_t;
using spffl::polynomials::fp_polymod_t;
using spffl::polynomials::fpn_poly_t;
using spffl::polynomials::fpn_polymod_t;
using ref::ll;
using ref::Poly;
using ref::Ring;
using ref::RingP;

inline std::string show(const Poly &a) {
  std::string s = "[";
  for (int i = (int)a.size() - 1; i >= 0; i--) s += (s.size() > 1 ? " " : "") + std::to_string(a[i]);
  return s + "]";
}

// F2 bit polynomials of any degree, for moduli.
inline f2_poly_t f2p(uint64_t bits) { f2_poly_t r(0); for (int i = 0; i < 64; i++) if ((bits >> i) & 1) r.set_bit(i); return r; }
inline f2_poly_t f2p(const Poly &a) { f2_poly_t r(0); for (size_t i = 0; i < a.size(); i++) if (a[i]) r.set_bit((int)i); return r; }
inline Poly of_f2p(const f2_poly_t &a) { Poly r; int d = a.find_degree(); for (int i = 0; i <= d; i++) r.push_back(a.bit_at(i)); ref::norm(r); return r; }
inline fp_poly_t fpp(const Poly &a, int p) {
  fp_poly_t r(intmod_t(a.empty() ? 0 : (int)a[0], p));
  for (int i = (int)a.size() - 1; i >= 1; i--) if (a[i]) r.set_coeff(i, intmod_t((int)a[i], p));
  return r;
}

// ---- GF(p), p an int prime
struct FP {
  typedef intmod_t C;
  typedef fp_poly_t P;
  RingP R; int p; std::string name;
  FP(int p_) : R(new ref::Zn(p_)), p(p_), name("F" + std::to_string(p_)) {}
  C coeff(ll i) const { return intmod_t((int)i, p); }
  ll idx(const C &c) const { return c.get_modulus() == p && c.get_residue() >= 0 && c.get_residue() < p ? c.get_residue() : -1; }
  bool root(const P &a, P &r) const { return a.pth_root(r); }
};
// ---- GF(2)[y]/(m)
struct F2N {
  typedef f2_polymod_t C;
  typedef f2n_poly_t P;
  RingP R; uint64_t m; f2_poly_t M; int n; std::string name;
  F2N(uint64_t m_) : m(m_), M(f2p(m_)) {
    n = 63 - __builtin_clzll(m_);
    R = RingP(new ref::Ext(RingP(new ref::Zn(2)), ref::pdigits((ll)m_, 2)));
    name = mc::fmt("F2[y]/%llx", (unsigned long long)m_);
  }
  C coeff(ll i) const { return f2_polymod_t(f2p((uint64_t)i), M); }
  ll idx(const C &c) const {
    f2_poly_t r = c.get_residue();
    if (c.get_modulus() != M || (r.find_degree() >= n && !(n == 0))) return -1;
    ll v = 0; for (int i = n - 1; i >= 0; i--) v = 2 * v + r.bit_at(i);
    return v;
  }
  bool root(const P &a, P &r) const { return a.square_root(r); }
};
// ---- GF(p)[y]/(m), m lowest first
struct FPN {
  typedef fp_polymod_t C;
  typedef fpn_poly_t P;
  RingP R; int p; Poly m; fp_poly_t M; int n; std::string name;
  FPN(int p_, const Poly &m_) : p(p_), m(m_), M(fpp(m_, p_)), n((int)m_.size() - 1) {
    R = RingP(new ref::Ext(RingP(new ref::Zn(p_)), m_));
    name = mc::fmt("F%d[y]/", p_) + show(m_);
  }
  C coeff(ll i) const { return fp_polymod_t(fpp(ref::pdigits(i, p), p), M); }
  ll idx(const C &c) const {
    fp_poly_t r = c.get_residue();
    if (c.get_modulus() != M || r.find_degree() >= n) return -1;
    ll v = 0;
    for (int i = r.find_degree(); i >= 0; i--) {
      intmod_t k = r.get_coeff(i);
      if (k.get_modulus() != p || k.get_residue() < 0 || k.get_residue() >= p) return -1;
      v = p * v + k.get_residue();
    }
    return v;
  }
  bool root(const P &a, P &r) const { return a.pth_root(r); }
};

template <class F> typename F::P mk(const F &f, const Poly &a) {
  typename F::P r(f.coeff(a.empty() ? 0 : a[0]));
  for (int i = (int)a.size() - 1; i >= 1; i--) if (a[i]) r.set_coeff(i, f.coeff(a[i]));
  return r;
}
// Reads a library polynomial through its public interface; false if it is not
// in canonical form over this field.
template <class F> bool rd(const F &f, const typename F::P &x, Poly &r) {
  int d = x.find_degree();
  if (d < 0 || d > 100000) return false;
  r.assign(d + 1, 0);
  for (int i = 0; i <= d; i++) { r[i] = f.idx(x.get_coeff(i)); if (r[i] < 0) return false; }
  if (d > 0 && r[d] == 0) return false;
  if (f.idx(x.get_coeff(d + 1)) != 0) return false;
  ref::norm(r);
  return true;
}
template <class F> void chk(const F &f, const typename F::P &x, const Poly &want, const char *what) {
  Poly g;
  if (!rd(f, x, g)) { mc::fail(mc::fmt("%s is not a canonical polynomial (stored degree %d), expected %s", what, x.find_degree(), show(want).c_str())); return; }
  if (g != want) mc::fail(mc::fmt("%s gives %s, expected %s", what, show(g).c_str(), show(want).c_str()));
}
template <class F> void chkc(const F &f, const typename F::C &x, ll want, const char *what) {
  ll g = f.idx(x);
  if (g != want) mc::fail(mc::fmt("%s gives element %lld, expected %lld", what, g, want));
}
} // namespace fld
