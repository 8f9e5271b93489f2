// The command line: every short token sequence and every small well-formed
// expression is given to the real spiff main() (renamed, in process) and its
// output compared with an independent evaluator.
#include "cli.h"

// ---- Reference evaluator: precedence climbing over the documented grammar, values computed with the scalar type itself (its arithmetic is the A suites' subject).
struct Reject {}; struct Unjudged {};
struct TInt { typedef int T; string name = "integer"; T mk(const Model &m) const { return (int)m.a[0]; } Model rd(const T &x) const { return {{x}, {}}; } string out(const Model &m) const { return std::to_string(m.a[0]); }
  Parse in(const string &s) const { ll v; return rint(s, v) ? Parse(Poly{v}) : Parse(BAD); } };
template <class T> struct Ops { static T add(T a, T b) { return a + b; } static T sub(T a, T b) { return a - b; } static T mul(T a, T b) { return a * b; } static T neg(T a) { return -a; } static T div(T a, T b) { return a / b; } static T mod(T a, T b) { return a % b; } };
template <> struct Ops<int> { static int fit(ll v) { if (v != (int)v) throw Unjudged(); return (int)v; } static int add(int a, int b) { return fit((ll)a + b); } static int sub(int a, int b) { return fit((ll)a - b); } static int mul(int a, int b) { return fit((ll)a * b); } static int neg(int a) { return fit(-(ll)a); }
  static int div(int a, int b) { if (!b) throw Reject(); return fit((ll)a / b); } static int mod(int a, int b) { if (!b) throw Reject(); return fit((ll)a % b); } };
template <class T> struct Val { bool isint = false; ll i = 0; T t; };
template <class K> struct Eval { typedef typename K::T T; typedef Ops<T> O; const K &k; const std::vector<string> &t; T zero, one; size_t p = 0; bool maybe = false;
  static int level(const string &s) { static const std::map<string, int> m = {{"==", 0}, {"!=", 0}, {"/=", 0}, {"<", 1}, {"<=", 1}, {">", 1}, {">=", 1}, {"+", 2}, {"-", 2}, {"*", 3}, {".", 3}, {"/", 3}, {"%", 3}, {"^", 4}}; auto i = m.find(s); return i == m.end() ? -1 : i->second; }
  Eval(const K &k_, const std::vector<string> &t_) : k(k_), t(t_), zero(k.mk(zeroOf())), one(k.mk(oneOf())) {}
  Model zeroOf(); Model oneOf();
  Val<T> primary(bool pw) { if (p >= t.size()) throw Reject(); string s = t[p++]; if (s == "(" || s == "[") { Val<T> v = climb(2, pw); if (p >= t.size() || (t[p] != ")" && t[p] != "]")) throw Reject(); if ((s == "(") != (t[p] == ")")) maybe = true; p++; return v; }
    if (level(s) >= 0 || s == ")" || s == "]") throw Reject(); Val<T> v; if (pw) { v.isint = true; if (!rint(s, v.i)) throw Reject(); return v; } Parse r = k.in(s); if (r.v == BAD) throw Reject(); if (r.v != OK) throw Unjudged(); v.t = k.mk(r.m); return v; }
  Val<T> climb(int lv, bool pw) { if (lv == 4) { bool neg = false, un = false; if (p < t.size() && (t[p] == "-" || t[p] == "+")) { un = true; neg = t[p++] == "-"; } Val<T> v = primary(pw); while (p < t.size() && t[p] == "^") { p++; Val<T> e = primary(true); if (!e.isint) throw Reject(); v = power(v, e.i); } if (un && v.isint) maybe = true; if (neg) { if (v.isint) v.i = -v.i; else v.t = O::neg(v.t); } return v; }
    Val<T> v = climb(lv + 1, pw); while (p < t.size() && level(t[p]) == lv) { string op = t[p++]; Val<T> w = climb(lv + 1, pw); v = apply(op, v, w); } return v; }
  Val<T> power(Val<T> v, ll e) { Val<T> r; if (v.isint) { maybe = true; if (e < 0 || e > 40) throw Unjudged(); r.isint = true; r.i = 1; while (e--) { r.i *= v.i; if (llabs(r.i) > 100000) throw Unjudged(); } return r; }
    if (v.t == zero) { if (e <= 0) throw Reject(); r.t = zero; return r; } T b = v.t; if (e < 0) { b = O::div(one, b); e = -e; } r.t = one; if (e > 200) throw Unjudged(); while (e--) r.t = O::mul(r.t, b); return r; }
  Val<T> apply(const string &op, Val<T> a, Val<T> b) { Val<T> r; if (a.isint && b.isint && maybe_ops(op)) { maybe = true; r.isint = true; r.i = op == "+" ? a.i + b.i : op == "-" ? a.i - b.i : a.i * b.i; return r; } if (a.isint || b.isint) throw Reject();
    if (op == "+") r.t = O::add(a.t, b.t); else if (op == "-") r.t = O::sub(a.t, b.t); else if (op == "*" || op == ".") r.t = O::mul(a.t, b.t); else if (op == "/") r.t = O::div(a.t, b.t); else if (op == "%") r.t = O::mod(a.t, b.t);
    else { r.isint = true; r.i = op == "==" ? a.t == b.t : op == "!=" || op == "/=" ? a.t != b.t : op == "<" ? a.t < b.t : op == "<=" ? a.t <= b.t : op == ">" ? a.t > b.t : a.t >= b.t; } return r; }
  static bool maybe_ops(const string &op) { return op == "+" || op == "-" || op == "*" || op == "."; }
  Verdict eval(string &res) { try { Val<T> v = climb(0, false); if (p != t.size()) throw Reject(); res = (v.isint ? std::to_string(v.i) : k.out(k.rd(v.t))) + "\n"; return maybe ? MAYBE : OK; } catch (Unjudged) { return ANY; } catch (Reject) { return BAD; } catch (std::exception &) { return BAD; } }
};
// One is the model whose every polynomial is the constant one.
template <class K> Model Eval<K>::zeroOf() { return k.in("0").m; }
template <class K> Model Eval<K>::oneOf() { return k.in("1").m; }

static string join(const std::vector<string> &t) { string s; for (auto &x : t) s += (s.empty() ? "" : " ") + x; return s; }
template <class K> struct Lang { K k; std::vector<string> pre, num; // verb and modulus; operand texts, first ones smallest
  Lang(const K &k_, std::vector<string> p, std::vector<string> n) : k(k_), pre(p), num(n) {} };
template <class K> void judge(const Lang<K> &g, const std::vector<string> &t) { mc::run("tokens", join(t), [&] { mc::count_states(); std::vector<string> a = g.pre; a.insert(a.end(), t.begin(), t.end()); string want; Verdict v = t.empty() ? OK : Eval<K>(g.k, t).eval(want); Out o = spiff(a);
  bool refused = o.rc != 0; if (refused && !o.out.empty()) mc::fail("refused, yet prints \"" + o.out + "\""); if (v == ANY) return; if (v == BAD) { if (!refused) mc::fail("malformed or undefined, yet accepted with \"" + o.out + "\""); return; } if (refused) { if (v == OK) mc::fail("refused (" + o.err + "), expected " + want); return; } if (o.out != want) mc::fail("prints \"" + o.out + "\", expected \"" + want + "\""); }); }
template <class K> void language(const Lang<K> &g, int len) {
  std::vector<string> al(g.num.begin(), g.num.begin() + std::min<size_t>(3, g.num.size())); for (auto s : {"@", "+", "-", "*", ".", "/", "%", "^", "==", "!=", "/=", "<", "<=", ">", ">=", "(", ")", "[", "]"}) al.push_back(s); ll b = (ll)al.size();
  for (int n = 0; n <= len; n++) { ll c = ref::ipow(b, n), chunk = c > 4000 ? (c + 47) / 48 : c; for (ll lo = 0; lo < c; lo += chunk) mc::unit("token sequences for " + join(g.pre) + mc::fmt(", length %d from %lld", n, lo), [&] { for (ll i = lo; i < c && i < lo + chunk; i++) { std::vector<string> t; ll x = i; for (int j = 0; j < n; j++, x /= b) t.push_back(al[x % b]); judge(g, t); if (mc::give_up()) return; } }); }
  mc::unit("malformed numbers for " + join(g.pre), [&] { for (auto &u : g.num) for (auto x : {u + "@", u + " " + u, u + ".5", "@" + u, u + "+", "--" + u, u + "^2", string("")}) { judge(g, {x}); judge(g, {u, "+", x}); judge(g, {x, "*", u}); } for (auto &u : g.num) for (auto x : {"2.5", "2x", "x", "--2", "99999999999", "-99999999999", "2-", ""}) { judge(g, {u, "^", x}); judge(g, {u, "^", "(", x, ")"}); judge(g, {u, "^", "2", "*", u, "^", x}); } });
}
// Every expression with n operands: all operators, bracketings, signs and operand choices listed.
static void brackets(int i, int n, std::vector<int> &open, std::vector<int> &close, std::vector<std::pair<std::vector<int>, std::vector<int>>> &out) { // sets of at most two nested or disjoint bracket pairs over operands 0..n-1
  std::vector<std::pair<int, int>> pr; for (int a = 0; a < n; a++) for (int b = a; b < n; b++) pr.push_back({a, b}); auto put = [&](std::vector<std::pair<int, int>> v) { std::vector<int> o(n), c(n); for (auto &q : v) { o[q.first]++; c[q.second]++; } out.push_back({o, c}); };
  put({}); for (size_t x = 0; x < pr.size(); x++) { put({pr[x]}); for (size_t y = x + 1; y < pr.size(); y++) { auto A = pr[x], B = pr[y]; bool disj = A.second < B.first || B.second < A.first, nest = (A.first <= B.first && B.second <= A.second) || (B.first <= A.first && A.second <= B.second); if (disj || nest) put({A, B}); } } }
template <class K> void expressions(const Lang<K> &g, int n, const std::vector<string> &ops, int nv, int signs, const std::vector<string> &exps) {  nv = std::min(nv, (int)g.num.size());
  std::vector<int> a, b; std::vector<std::pair<std::vector<int>, std::vector<int>>> br; brackets(0, n, a, b, br); ll no = ref::ipow((ll)ops.size(), n - 1), nn = ref::ipow(nv, n), total = no; 
  ll chunk = std::max(1ll, total / 64); for (ll lo = 0; lo < total; lo += chunk) mc::unit("expressions for " + join(g.pre) + mc::fmt(" with %d operands from %lld", n, lo), [&] { for (ll o = lo; o < total && o < lo + chunk; o++) for (auto &B : br) for (int s = 0; s < (1 << n); s++) { if (__builtin_popcount(s) > signs) continue; for (ll v = 0; v < nn; v++) { std::vector<string> t; ll x = v, y = o; string op; for (int i = 0; i < n; i++, x /= nv) { if (i) { op = ops[y % ops.size()]; y /= ops.size(); t.push_back(op); } if (s >> i & 1) t.push_back(i % 2 ? "+" : "-"); for (int j = 0; j < B.first[i]; j++) t.push_back(i % 2 ? "(" : "["); t.push_back(op == "^" && i ? exps[x % nv] : g.num[x % nv]); for (int j = 0; j < B.second[i]; j++) t.push_back(")"); } judge(g, t); if (mc::give_up()) return; } } }); }
template <class K> void powers(const Lang<K> &g, int hi) { mc::unit("powers for " + join(g.pre), [&] { for (auto &u : g.num) for (int e = -hi; e <= hi; e++) { judge(g, {u, "^", std::to_string(e)}); judge(g, {u, "^", "(", std::to_string(e), ")"}); judge(g, {u, "*", u, "^", std::to_string(e)}); judge(g, {"-", u, "^", std::to_string(e)}); } for (auto &u : g.num) for (int e = -4; e <= 4; e++) for (int f = -4; f <= 4; f++) judge(g, {u, "^", std::to_string(e), "^", std::to_string(f)}); }); }
// lv: 0 = explored most deeply, 2 = slow arithmetic
template <class K> void all(const K &k, std::vector<string> pre, std::vector<string> num, int lv, int pw) { Lang<K> g(k, pre, num); bool fast = !mc::asan, T = mc::thorough && fast; language(g, T ? (lv ? 4 : 5) : mc::asan ? (lv ? 2 : 3) : lv ? 3 : 4); powers(g, mc::asan ? 4 : pw);
  std::vector<string> big = {"+", "-", "*", "/", "%", "^", "==", "<"}, small = {"+", "-", ".", "/", "^"}, ex = {"2", "-1", "3", "0", "1"}; int nv = (int)std::min<size_t>(num.size(), 5);
  expressions(g, 2, {"+", "-", "*", ".", "/", "%", "^", "==", "!=", "/=", "<", "<=", ">", ">="}, fast ? nv : 2, fast ? 2 : 1, ex); if (fast || !lv) expressions(g, 3, fast ? big : small, T || (fast && !lv) ? 3 : 2, T ? 3 : 1, ex); if (fast && (T || lv < 2)) expressions(g, 4, T && lv < 2 ? big : small, T && lv < 2 ? 3 : 2, T ? 2 - lv / 2 : lv ? 0 : 1, ex); }

#ifdef MC_PROP_X01
MC_PROP(X01) {
  all(TInt(), {"z_op"}, {"2", "3", "0", "-3", "7", "1"}, 0, 30); all(TBit(), {"f2_op"}, {"1", "0"}, 1, 8); all(TMod(5), {"fp_op", "5"}, {"2", "3", "0", "4", "1"}, 0, 40); all(TMod(6), {"fp_op", "6"}, {"5", "2", "0", "3", "4"}, 1, 12);
  all(TRat(), {"q_op"}, {"1/2", "-3", "0", "2/3", "2"}, 1, 30); all(TQp(), {"q_p_op"}, {"1,1", "2", "0", "1/2,0,1", "1,0"}, 2, 6);
  all(TF2p(), {"f2_p_op"}, {"3", "7", "0", "b", "1"}, 1, 60); all(TFp(3), {"fp_p_op", "3"}, {"12", "2", "0", "101", "1"}, 1, 20); all(TFp(13), {"fp_p_op", "13"}, {"1,12", "2", "0", "1,0,10", "1"}, 2, 20);
  all(TF2n(7), {"f2n_p_op", "7"}, {"1:2", "3", "0", "1:0:1", "2:1"}, 2, 12); all(TFpn(3, {1, 0, 1}), {"fpn_p_op", "3", "101"}, {"1:20", "11", "0", "1:0:2", "1"}, 2, 8);
  all(TF2pm({1, 1, 0, 1}), {"f2_pm_op", "b"}, {"2", "3", "0", "7", "1"}, 1, 30); all(TF2pm({1, 0, 1}), {"f2_pm_op", "5"}, {"2", "3", "0", "1"}, 2, 12); all(TFpm(3, {1, 0, 1}), {"fp_pm_op", "3", "101"}, {"12", "02", "00", "11", "01"}, 1, 30);
  all(TF2nm(7, {2, 1, 1}), {"f2n_pm_op", "7", "1:1:2"}, {"1:2", "0:3", "0", "1:0", "1"}, 2, 20); all(TFpnm(3, {1, 0, 1}, {3, 1, 1}), {"fpn_pm_op", "3", "101", "1:1:10"}, {"1:20", "0:11", "0", "1:0"}, 2, 12);
  all(TF2r(), {"f2_pr_op"}, {"3/2", "2", "0", "7/b", "1"}, 2, 12); all(TFpr(3), {"fp_pr_op", "3"}, {"12/10", "2", "0", "10/11", "1"}, 2, 8); all(TF2nr(7), {"f2n_pr_op", "7"}, {"1:2/2", "2", "0", "1:0"}, 2, 6);
}
#endif

#ifdef MC_PROP_X02
// ---- Vectors and matrices.
typedef std::vector<Model> VM; typedef std::vector<VM> MM;
template <class T> struct XV { int kind = 0; std::vector<std::vector<T>> m; T s; ll i = 0; }; // 0 matrix or vector, 1 scalar, 2 integer
template <class K> struct XLang { K k; std::vector<string> pre; bool vec, field; std::vector<std::pair<string, MM>> atoms; string name; };
template <class K> struct XEval { typedef typename K::T T; typedef Ops<T> O; typedef std::vector<std::vector<T>> M; const XLang<K> &g; const std::vector<string> &t; T zero, one; size_t p = 0; bool maybe = false;
  XEval(const XLang<K> &g_, const std::vector<string> &t_) : g(g_), t(t_), zero(g_.k.mk(g_.k.in("0").m)), one(g_.k.mk(g_.k.in("1").m)) {}
  static int level(const string &s) { static const std::map<string, int> m = {{"==", 0}, {"!=", 0}, {"/=", 0}, {"+", 2}, {"-", 2}, {"*", 3}, {".", 3}, {"^", 4}}; auto i = m.find(s); return i == m.end() ? -1 : i->second; }
  bool verb(const string &s) const { static const std::vector<string> v = {"rank", "inv", "det", "kerbas", "rr", "rech", "rechr", "rrnz", "rechnz", "transpose"}; return !g.vec && std::find(v.begin(), v.end(), s) != v.end(); }
  XV<T> primary(bool pw) { if (p >= t.size()) throw Reject(); string s = t[p++]; if (s == "(" || s == "[") { XV<T> v = climb(2, pw); if (p >= t.size() || (t[p] != ")" && t[p] != "]")) throw Reject(); if ((s == "(") != (t[p] == ")")) maybe = true; p++; return v; }
    if (level(s) >= 0 || verb(s) || s == ")" || s == "]") throw Reject(); XV<T> v; if (pw) { v.kind = 2; if (!rint(s, v.i)) throw Reject(); return v; } for (auto &a : g.atoms) if (a.first == s) { for (auto &r : a.second) { v.m.push_back({}); for (auto &x : r) v.m.back().push_back(g.k.mk(x)); } return v; } throw Reject(); }
  XV<T> climb(int lv, bool pw) { if (lv == 4) { string u; if (p < t.size() && (t[p] == "-" || t[p] == "+" || verb(t[p]))) u = t[p++]; XV<T> v = primary(pw); while (p < t.size() && t[p] == "^") { p++; XV<T> e = primary(true); if (e.kind != 2 || v.kind == 1) throw Reject(); if (v.kind == 2) throw Unjudged(); v = power(v, e.i); } if (u.empty()) return v; if (v.kind == 2 && u.size() == 1) { maybe = true; if (u == "-") v.i = -v.i; return v; } if (v.kind == 1 && u == "+") { maybe = true; return v; } if (v.kind) throw Reject(); return u == "+" ? v : unary(u, v); }
    XV<T> v = climb(lv + 1, pw); while (p < t.size() && level(t[p]) == lv) { string op = t[p++]; XV<T> w = climb(lv + 1, pw); if (v.kind && w.kind && lv) throw Unjudged(); if (v.kind || w.kind) throw Reject(); v = apply(op, v, w); } return v; }
  static M tr(const M &a) { M r(a[0].size(), std::vector<T>(a.size(), a[0][0])); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) r[j][i] = a[i][j]; return r; }
  M mul(const M &a, const M &b) { if (a[0].size() != b.size()) throw Reject(); M r(a.size(), std::vector<T>(b[0].size(), zero)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t l = 0; l < b.size(); l++) r[i][j] = O::add(r[i][j], O::mul(a[i][l], b[l][j])); return r; }
  M ident(size_t n) { M r(n, std::vector<T>(n, zero)); for (size_t i = 0; i < n; i++) r[i][i] = one; return r; }
  void inField() { if (!g.field) throw Unjudged(); }
  size_t rref(M &a, size_t cols, T *det = nullptr) { inField(); size_t r = 0; if (det) *det = one; for (size_t c = 0; c < cols && r < a.size(); c++) { size_t q = r; while (q < a.size() && a[q][c] == zero) q++; if (q == a.size()) { if (det) *det = zero; continue; } if (q != r) { std::swap(a[q], a[r]); if (det) *det = O::neg(*det); } T pv = a[r][c]; if (det) *det = O::mul(*det, pv); for (auto &x : a[r]) x = O::div(x, pv); for (size_t i = 0; i < a.size(); i++) if (i != r) { T f = a[i][c]; for (size_t j = 0; j < a[i].size(); j++) a[i][j] = O::sub(a[i][j], O::mul(f, a[r][j])); } r++; } return r; }
  M inverse(const M &a) { size_t n = a.size(); if (a[0].size() != n) throw Reject(); M b = a; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) b[i].push_back(i == j ? one : zero); if (rref(b, n) < n) throw Reject(); for (auto &r : b) r.erase(r.begin(), r.begin() + (long)n); return b; }
  bool nil(const M &a) { for (auto &r : a) for (auto &x : r) if (!(x == zero)) return false; return true; }
  XV<T> power(const XV<T> &v, ll e) { XV<T> r; if (e > 64 || e < -64 || (std::is_same<T, intrat_t>::value && (e > 3 || e < -3))) throw Unjudged(); if (g.vec) { if (!g.field && e <= 0) throw Unjudged(); r = v; for (auto &row : r.m) for (auto &x : row) { T b = x, y = one; if (x == zero && e <= 0) { if (std::is_same<T, bit_t>::value) throw Unjudged(); throw Reject(); } ll f = e; if (f < 0) { b = O::div(one, b); f = -f; } while (f--) y = O::mul(y, b); x = y; } return r; }
    if (v.m.size() != v.m[0].size()) throw Reject(); if (e <= 0 && nil(v.m)) throw Reject(); if (e <= 0) { inField(); r.m = inverse(v.m); } else r.m = v.m; M b = r.m; r.m = ident(b.size()); for (ll i = e < 0 ? -e : e; i; i--) r.m = mul(r.m, b); return r; }
  tmatrix<T> lib(const M &a) { tmatrix<T> r((int)a.size(), (int)a[0].size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) r[(int)i][(int)j] = a[i][j]; return r; }
  M unlib(tmatrix<T> &a) { M r(a.get_num_rows()); for (size_t i = 0; i < r.size(); i++) for (int j = 0; j < a.get_num_cols(); j++) r[i].push_back(a[(int)i][j]); return r; }
  XV<T> unary(const string &u, XV<T> v) { XV<T> r; size_t n = v.m.size(); if (u == "-") { for (auto &row : v.m) for (auto &x : row) x = O::neg(x); return v; } if (u == "transpose") { r.m = tr(v.m); return r; } if (u == "inv") { r.m = inverse(v.m); return r; } if (u == "det") { if (n != v.m[0].size()) throw Reject(); r.kind = 1; rref(v.m, n, &r.s); return r; } if (u == "rank") { r.kind = 2; r.i = (ll)rref(v.m, v.m[0].size()); return r; }
    if (u == "rech") { rref(v.m, v.m[0].size()); return v; } if (u == "rechnz") { v.m.resize(rref(v.m, v.m[0].size())); if (v.m.empty()) throw Reject(); return v; } if (u == "rechr") { for (auto &row : v.m) std::reverse(row.begin(), row.end()); rref(v.m, v.m[0].size()); for (auto &row : v.m) std::reverse(row.begin(), row.end()); std::reverse(v.m.begin(), v.m.end()); return v; }
    inField(); tmatrix<T> A = lib(v.m), B; if (u == "rr") { A.row_reduce_below(); r.m = unlib(A); return r; } if (u == "rrnz") { if (nil(v.m)) throw Reject(); A.row_reduce_below(); r.m = unlib(A); r.m.resize(rref(v.m, v.m[0].size())); return r; }
    M w = v.m; size_t rk = rref(w, w[0].size()); if (rk == w[0].size()) throw Reject(); A.get_kernel_basis(B, zero, one); r.m = unlib(B); return r; }
  XV<T> apply(const string &op, XV<T> a, const XV<T> &b) { if ((op == "*" || op == ".") && !g.vec) { XV<T> r; r.m = mul(a.m, b.m); return r; } bool same = a.m.size() == b.m.size() && a.m[0].size() == b.m[0].size(); if (!same) { if (level(op) == 0) throw Unjudged(); throw Reject(); } if (level(op) == 0) { bool eq = true; for (size_t i = 0; i < a.m.size(); i++) for (size_t j = 0; j < a.m[0].size(); j++) if (!(a.m[i][j] == b.m[i][j])) eq = false; XV<T> r; r.kind = 2; r.i = (op == "==") == eq; return r; }
    for (size_t i = 0; i < a.m.size(); i++) for (size_t j = 0; j < a.m[0].size(); j++) a.m[i][j] = op == "+" ? O::add(a.m[i][j], b.m[i][j]) : op == "-" ? O::sub(a.m[i][j], b.m[i][j]) : O::mul(a.m[i][j], b.m[i][j]); return a; }
  Verdict eval(string &res) { try { XV<T> v = climb(0, false); if (p != t.size()) throw Reject(); if (v.kind == 2) res = std::to_string(v.i) + "\n"; else if (v.kind == 1) res = g.k.out(g.k.rd(v.s)) + "\n"; else { res = ""; for (auto &r : v.m) { for (size_t j = 0; j < r.size(); j++) res += (j ? " " : "") + g.k.out(g.k.rd(r[j])); res += "\n"; } } return maybe ? MAYBE : OK; } catch (Unjudged) { return ANY; } catch (Reject) { return BAD; } catch (std::exception &) { return BAD; } }
};
template <class K> void judgex(const XLang<K> &g, const std::vector<string> &t) { mc::run("tokens", join(t), [&] { mc::count_states(); std::vector<string> a = g.pre; a.insert(a.end(), t.begin(), t.end()); string want; Verdict v = t.empty() ? OK : XEval<K>(g, t).eval(want); if (v == ANY && !g.field) return; Out o = spiff(a);
  bool refused = o.rc != 0; if (refused && !o.out.empty()) mc::fail("refused, yet prints \"" + o.out + "\""); if (v == ANY) return; if (v == BAD) { if (!refused) mc::fail("malformed or undefined, yet accepted with \"" + o.out + "\""); return; } if (refused) { if (v == OK) mc::fail("refused (" + o.err + "), expected " + want); return; } if (o.out != want) mc::fail("prints \"" + o.out + "\", expected \"" + want + "\""); }); }
template <class K> string btext(const K &k, const MM &m, bool vec) { string s; for (auto &r : m) { s += "["; for (size_t j = 0; j < r.size(); j++) s += (j ? " " : "") + k.out(r[j]); s += "]"; } return vec ? s : "[" + s + "]"; }
static const std::vector<string> VERBS = {"transpose", "rank", "det", "inv", "rech", "kerbas", "rr", "rechr", "rrnz", "rechnz"};
template <class K> void xall(const K &k, std::vector<string> pre, bool vec, bool field, const std::vector<string> &e, int lv) { // e: element texts: 0, 1, then others
  XLang<K> g{k, pre, vec, field, {}, ""}; auto E = [&](int i) { return k.in(e[i % e.size()]).m; }; auto put = [&](std::vector<std::vector<int>> ix) { MM m; for (auto &r : ix) { m.push_back({}); for (int i : r) m.back().push_back(E(i)); } g.atoms.push_back({btext(k, m, vec), m}); };
  if (vec) { put({{1, 2}}); put({{2, 0}}); put({{1, 0, 3}}); put({{3}}); put({{0, 0}}); } else { put({{1, 2}, {0, 3}}); put({{2, 2}, {0, 0}}); put({{1, 2, 0}}); put({{0, 1}, {1, 0}}); put({{0, 0}, {0, 0}}); put({{2}}); put({{0, 2, 1}, {3, 0, 1}}); put({{2, 1, 3}, {0, 0, 1}, {1, 3, 2}}); }
  std::vector<string> al; for (size_t i = 0; i < 3; i++) al.push_back(g.atoms[i].first); for (auto s : {"@", "2", "+", "-", "*", ".", "^", "==", "!=", "/=", "(", ")", "[", "]"}) al.push_back(s); if (!vec) al.insert(al.end(), VERBS.begin(), VERBS.end()); ll b = (ll)al.size(); bool fast = !mc::asan, T = mc::thorough && fast;
  int len = vec ? (lv && !T && !mc::asan ? 3 : mc::asan ? 2 : 4) : mc::asan ? 1 : T ? 4 : 3;
  for (int n = 0; n <= len; n++) { ll c = ref::ipow(b, n), chunk = c > 4000 ? (c + 47) / 48 : c; for (ll lo = 0; lo < c; lo += chunk) mc::unit("token sequences for " + join(pre) + mc::fmt(", length %d from %lld", n, lo), [&] { for (ll i = lo; i < c && i < lo + chunk; i++) { std::vector<string> t; ll x = i; for (int j = 0; j < n; j++, x /= b) t.push_back(al[x % b]); judgex(g, t); if (mc::give_up()) return; } }); }
  // One or two operands, each with every verb or sign, plain or bracketed, and every power.
  std::vector<string> un = {"", "-", "+"}; if (!vec) un.insert(un.end(), VERBS.begin(), VERBS.end());
  bool rat = std::is_same<typename K::T, intrat_t>::value, slow = pre[0].find("_pr_") != string::npos || pre[0].find("_p_") != string::npos; bool tower = pre[0].find("n_pm") != string::npos; if (tower) slow = true; size_t na = mc::asan ? tower ? 1 : 2 : tower && !T ? 3 : g.atoms.size(); for (size_t ia = 0; ia < na; ia++) mc::unit("verbs and powers for " + join(pre) + mc::fmt(", operand %zu", ia), [&] { if (ia >= g.atoms.size()) return; auto &a = g.atoms[ia]; for (auto &u : un) { std::vector<string> h; if (!u.empty()) h = {u}; auto ex = [&](std::vector<string> t) { t.insert(t.begin(), h.begin(), h.end()); judgex(g, t); }; ex({a.first}); ex({"(", a.first, ")"}); ex({"[", "(", a.first, ")", "]"}); for (auto &u2 : un) if (!u2.empty()) ex({"(", u2, a.first, ")"}); for (int x = mc::asan && tower ? -1 : -3; x <= (mc::asan && tower ? 2 : rat ? 3 : mc::asan ? 3 : slow ? T ? 6 : 4 : 12); x++) { ex({a.first, "^", std::to_string(x)}); ex({"(", a.first, "^", std::to_string(x), ")"}); ex({a.first, "^", "(", std::to_string(x), ")"}); } for (int x : {-2, -1, 0, 1, 2, 3}) for (int y : {-2, -1, 0, 1, 2, 3}) if (abs(x * y) <= (mc::asan && tower ? 0 : rat ? 3 : slow || mc::asan ? 4 : 9)) ex({a.first, "^", std::to_string(x), "^", std::to_string(y)}); if (!rat && !slow && !mc::asan) { ex({a.first, "^", "30"}); ex({a.first, "^", "-30"}); } if (mc::give_up()) return; for (auto x : {"2x", "2.5", "x", "", "99999999999"}) ex({a.first, "^", x}); } });
  std::vector<string> ops = {"+", "-", "*", ".", "==", "!=", "/="}; 
  for (auto &u : un) for (auto &v : un) if (!mc::asan || u.empty() || v.empty()) mc::unit("two operands for " + join(pre) + ", signs <" + u + "> <" + v + ">", [&] { size_t nb = T || u.empty() || v.empty() ? na : std::min<size_t>(na, 4); for (auto &op : ops) for (size_t i = 0; i < nb; i++) for (size_t j = 0; j < nb; j++) for (int br = 0; br < 4; br++) { if (!T && nb < na && (br == 1 || br == 2)) continue; std::vector<string> t; if (br & 1) t.push_back("("); if (!u.empty()) t.push_back(u); t.push_back(g.atoms[i].first); if (br & 1) t.push_back(")"); t.push_back(op); if (br & 2) t.push_back("["); if (!v.empty()) t.push_back(v); t.push_back(g.atoms[j].first); if (br & 2) t.push_back("]"); judgex(g, t); if (mc::give_up()) return; } });
  if (!mc::asan) for (auto &o1 : ops) for (auto &o2 : {string("+"), string("-"), string("*"), string("=="), string("^")}) mc::unit("three operands for " + join(pre) + ", " + o1 + " " + o2, [&] { size_t nb = T ? na : std::min<size_t>(na, tower ? 3 : 5); for (size_t i = 0; i < nb; i++) for (size_t j = 0; j < nb; j++) for (size_t l = 0; l < (o2 == "^" ? 3 : nb); l++) for (int br = 0; br < 3; br++) for (auto &u : {string(""), string("-"), string("transpose"), string("rank")}) { if (vec && u.size() > 1) continue; if (!T && (u == "rank" || (u == "-" && !vec))) continue; std::vector<string> t; if (!u.empty()) t.push_back(u); if (br == 1) t.push_back("("); t.push_back(g.atoms[i].first); t.push_back(o1); if (br == 2) t.push_back("("); t.push_back(g.atoms[j].first); if (br == 1) t.push_back(")"); t.push_back(o2); t.push_back(o2 == "^" ? (l == 0 ? "2" : l == 1 ? "-1" : "3") : g.atoms[l].first); if (br == 2) t.push_back(")"); judgex(g, t); if (mc::give_up()) return; } });
  mc::unit("malformed operands for " + join(pre), [&] { string a = g.atoms[0].first; for (string x : {a + "x", a + "]", a.substr(1), a.substr(0, a.size() - 1), string("["), string("]]"), string("[@]"), string("[[1][1 1]]"), string("nosuchfile"), string("1"), a + " " + a}) { if (x == "[[1][1 1]]" && vec) continue; judgex(g, {x}); judgex(g, {a, "+", x}); judgex(g, {x, "*", a}); } });
  // A matrix read from a file is that matrix.
  if (!vec) mc::unit("files for " + join(pre), [&] { for (size_t i = 0; i < g.atoms.size(); i++) { string f = mc::fmt("operand%zu", i); std::ofstream o(f); for (auto &r : g.atoms[i].second) { for (size_t j = 0; j < r.size(); j++) o << (j ? " " : "") << k.out(r[j]); o << "\n"; } } auto h = g; for (size_t i = 0; i < g.atoms.size(); i++) h.atoms.push_back({mc::fmt("operand%zu", i), g.atoms[i].second}); for (size_t i = g.atoms.size(); i < h.atoms.size(); i++) { judgex(h, {h.atoms[i].first}); judgex(h, {"transpose", h.atoms[i].first}); for (size_t ic = 0; ic < h.atoms.size(); ic++) for (auto &op : ops) { if ((mc::asan || tower) && ic % g.atoms.size() > 1) continue; auto &c = h.atoms[ic]; judgex(h, {h.atoms[i].first, op, c.first}); judgex(h, {c.first, op, h.atoms[i].first}); } if (mc::give_up()) break; } for (size_t i = 0; i < g.atoms.size(); i++) unlink(mc::fmt("operand%zu", i).c_str()); });
}
MC_PROP(X02) {
  xall(TBit(), {"f2_vec_op"}, true, true, {"0", "1"}, 0); xall(TMod(5), {"fp_vec_op", "5"}, true, true, {"0", "1", "2", "4"}, 0); xall(TRat(), {"q_vec_op"}, true, true, {"0", "1", "1/2", "-3"}, 1); xall(TF2pm({1, 1, 0, 1}), {"f2_pm_vec_op", "b"}, true, true, {"0", "1", "2", "7"}, 1); xall(TFpm(3, {1, 0, 1}), {"fp_pm_vecop", "3", "101"}, true, true, {"00", "01", "12", "20"}, 1); xall(TF2nm(7, {2, 1, 1}), {"f2n_pm_vec_op", "7", "1:1:2"}, true, true, {"0:0", "0:1", "1:2", "3:0"}, 1);
  xall(TBit(), {"f2_mat_op"}, false, true, {"0", "1"}, 1); xall(TMod(5), {"fp_mat_op", "5"}, false, true, {"0", "1", "2", "4"}, 0); xall(TRat(), {"q_mat_op"}, false, true, {"0", "1", "1/2", "-3"}, 1); xall(TF2pm({1, 1, 0, 1}), {"f2_pm_mat_op", "b"}, false, true, {"0", "1", "2", "7"}, 1); xall(TFpm(3, {1, 0, 1}), {"fp_pm_mat_op", "3", "101"}, false, true, {"00", "01", "12", "20"}, 1); xall(TF2nm(7, {2, 1, 1}), {"f2n_pm_mat_op", "7", "1:1:2"}, false, true, {"0:0", "0:1", "1:2", "3:0"}, 1); xall(TFpnm(3, {1, 0, 1}, {3, 1, 1}), {"fpn_pm_mat_op", "3", "101", "1:1:10"}, false, true, {"0:0", "0:1", "1:20", "11:0"}, 1);
  xall(TF2r(), {"f2_pr_mat_op"}, false, true, {"0", "1", "3/2", "7"}, 1);
  xall(TInt(), {"z_mat_op"}, false, false, {"0", "1", "2", "-3"}, 1); xall(TF2p(), {"f2_p_mat_op"}, false, false, {"0", "1", "2", "7"}, 1); xall(TFp(3), {"fp_p_mat_op", "3"}, false, false, {"0", "1", "12", "201"}, 1); xall(TF2n(7), {"f2n_p_mat_op", "7"}, false, false, {"0", "1", "1:2", "3"}, 1); xall(TFpn(3, {1, 0, 1}), {"fpn_p_mat_op", "3", "101"}, false, false, {"0", "1", "1:20", "11"}, 1);
}
#endif
