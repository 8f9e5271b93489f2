// X04: every verb of the command-line tool, run in this process on small
// argument lists, against direct computation with the reference models.
#include "cli.h"
#include <set>
using std::vector; typedef vector<string> Args; typedef std::function<string(const string &)> Judge; // "" or a complaint
static string qt(const string &s) { string r = "\""; for (char c : s) r += c == '\n' ? string("\\n") : string(1, c); return r + "\""; }
static string show(const Args &a) { string s; for (auto &x : a) s += " " + (x.empty() ? string("''") : x); return s; }
static Args operator+(Args a, const Args &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static vector<string> lines(const string &s) { vector<string> r; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == string::npos) { r.push_back(s.substr(p)); break; } r.push_back(s.substr(p, q - p)); p = q + 1; } return r; }
static vector<string> words(const string &s) { vector<string> r; std::istringstream i(s); string w; while (i >> w) r.push_back(w); return r; }
static string file(const string &text) { static int n = 0; string f = mc::fmt("arg%d.txt", n++ % 4); std::ofstream(f) << text; return f; }
// One command: it must succeed, and its output please the judge.
static void cmd(const Args &a, const Judge &j, const string &in = "") { mc::run("spiff", show(a), [&] { mc::count_states(); Out o = spiff(a, in); if (o.rc != 0) { mc::fail(mc::fmt("exits with status %d (", o.rc) + o.err + ")"); return; } if (!o.err.empty()) { mc::fail("complains: " + o.err); return; } string c = j(o.out); if (!c.empty()) mc::fail("prints " + qt(o.out.substr(0, 200)) + ", " + c); }); }
static Judge is(const string &w) { return [w](const string &g) { return g == w ? string() : "expected " + qt(w); }; }
static void cmd(const Args &a, const string &w, const string &in = "") { cmd(a, is(w), in); }
// A command that must be refused, after printing no more than "so_far".
static void refuse(const Args &a, const string &so_far = "", const string &in = "") { mc::run("refused", show(a), [&] { mc::count_states(); Out o = spiff(a, in); if (o.rc == 0) mc::fail("succeeds, printing " + qt(o.out.substr(0, 100))); else if (o.out.compare(0, so_far.size(), so_far) || o.out.find('\n', so_far.size()) != string::npos) mc::fail("is refused, but prints " + qt(o.out.substr(0, 100))); else if (o.err.empty()) mc::fail("fails without a message"); }); }
// A command with arguments missing: refused, or at least no result.
static void lacking(const Args &a) { mc::run("too few arguments", show(a), [&] { mc::count_states(); Out o = spiff(a); if (!o.out.empty()) mc::fail("prints " + qt(o.out.substr(0, 100))); else if (o.rc != 0 && o.err.empty()) mc::fail("fails without a message"); }); }
// Every prefix of the fixed arguments is too few; every fixed argument replaced by rubbish is refused.
static void edges(const string &verb, const Args &fixed, const Args &valid) { Args all = Args{verb} + fixed + valid; for (size_t n = 1; n < all.size(); n++) lacking(Args(all.begin(), all.begin() + n)); for (size_t i = 1; i < all.size(); i++) for (string bad : {"?", "x", "", "zz"}) { if (all[i][0] == '-') break; Args b = all; b[i] = bad; refuse(b); } }
// A verb mapped over its arguments: alone, and in all ordered pairs and some triples, each result labelled.
static void mapped(const Args &head, const vector<string> &args, const vector<string> &res, const string &sep = ": ", bool label = true, bool alone = false) {
  size_t n = args.size(); for (size_t i = 0; i < n; i++) cmd(head + Args{args[i]}, (alone ? args[i] + sep : "") + res[i] + "\n");
  auto l = [&](size_t i) { return (label ? args[i] + sep : "") + res[i] + "\n"; }; size_t m = std::min<size_t>(n, 7);
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) { size_t a = i * (n / m), b = j * (n / m); cmd(head + Args{args[a], args[b]}, l(a) + l(b)); if (i < 3) cmd(head + Args{args[a], args[b], args[(a + b + 1) % n]}, l(a) + l(b) + l((a + b + 1) % n)); } if (n > 1) refuse(head + Args{args[0], args[1], "?"}, l(0) + l(1)); }

// ---- polynomials over a field
struct PF { string fam; Args pre; RingP R; std::function<string(const Poly &)> out; std::function<Parse(const string &)> in; std::function<string(ll)> co; };
static bool read(const PF &f, const string &s, Poly &p) { Parse r = f.in(s); if (r.v != OK) return false; p = r.m.a; ref::norm(p); return true; }
static Poly monicgcd(const Ring &R, const Poly &a, const Poly &b) { return ref::pgcd(R, a, b); }
static ll phi(const Ring &R, const Poly &a) { ll n = ref::ipow(R.q, (int)a.size() - 1), c = 0; for (ll k = 0; k < n; k++) if (ref::pgcd(R, ref::pdigits(k, R.q), a).size() == 1) c++; return c; }
static ll xord(const Ring &R, const Poly &m) { if (m[0] == 0) return 0; Poly x = ref::pmod(R, {0, 1}, m), y = x, one = ref::pmod(R, {1}, m); ll n = 1; while (y != one) { y = ref::pmod(R, ref::pmul(R, y, x), m); n++; } return n; }
static string sigs(std::multiset<string> s) { string r; for (auto &x : s) r += x + " "; return r; }
static Judge factorization(const PF &f, const Poly &a, const string &label) { return [f, a, label](const string &g) -> string { if (g.size() < label.size() + 1 || g.compare(0, label.size(), label) || g.back() != '\n') return "expected one line beginning with " + qt(label); Poly prod = {1}; std::set<Poly> seen; for (auto &w : words(g.substr(label.size()))) { auto t = split(w, '^'); Poly p; ll e = 1; if (t.size() > 2 || !read(f, t[0], p) || (t.size() == 2 && !rint(t[1], e)) || e < 1) return "a factor is illegible"; if (p.size() > 1 && (!ref::pirr(*f.R, p) || !seen.insert(ref::pmonic(*f.R, p)).second)) return "a factor is reducible or repeated"; prod = ref::pmul(*f.R, prod, ref::ppow(*f.R, p, e)); } return prod == a ? "" : "whose product is " + fld::show(prod); }; }
static Judge divisors(const PF &f, const Poly &a, bool mp, const string &label) { return [=](const string &g) -> string { if (g.compare(0, label.size(), label) || g.empty() || g.back() != '\n') return "expected one line beginning with " + qt(label); std::set<Poly> want, got; ll n = 2 * ref::ipow(f.R->q, (int)a.size() - 1); for (int d = 0; d < (int)a.size(); d++) for (ll k = 0; k < ref::ipow(f.R->q, d); k++) { Poly b = ref::pdigits(k, f.R->q); b.resize(d + 1, 0); b[d] = 1; if (!ref::pmod(*f.R, a, b).empty()) continue; if (mp) { Poly c = ref::pmonic(*f.R, ref::pdiv(*f.R, a, b)); if (!ref::pirr(*f.R, c)) continue; } want.insert(b); } (void)n; for (auto &w : words(g.substr(label.size()))) { Poly p; if (!read(f, w, p) || p.empty()) return "a divisor is illegible"; if (!got.insert(ref::pmonic(*f.R, p)).second) return "a divisor is repeated"; } return got == want ? "" : mc::fmt("but there are %zu divisors", want.size()); }; }
static void polyverbs(const PF &f, ll bound, int pairs, int maxdeg) {
  const Ring &R = *f.R; string F = f.fam + "_"; vector<Poly> P; for (ll k = 0; k < bound; k++) P.push_back(ref::pdigits(k, R.q)); vector<string> T; for (auto &p : P) T.push_back(f.out(p)); auto H = [&](const char *v) { return Args{F + v} + f.pre; };
  auto U = [&](const char *n, const std::function<void()> &g) { mc::unit(F + n + show(f.pre), g); };
  vector<Poly> Q(P.begin() + R.q, P.end()); vector<string> TQ(T.begin() + R.q, T.end());
  if (f.fam != "fpn_p") U("deg", [&] { vector<string> r; for (auto &p : P) r.push_back(std::to_string(ref::deg(p))); mapped(H("deg"), T, r); edges(F + "deg", f.pre, {T[1]}); });
  if (f.fam != "fpn_p") { U("totient", [&] { vector<string> r; for (auto &p : Q) r.push_back(std::to_string(phi(R, p))); mapped(H("totient"), TQ, r); edges(F + "totient", f.pre, {TQ[0]}); });
    U("test", [&] { vector<string> r; for (auto &p : Q) r.push_back(ref::pirr(R, p) ? "IRREDUCIBLE" : "reducible"); if (f.fam != "f2_p") { mapped(H("test"), TQ, r); edges(F + "test", f.pre, {TQ[0]}); return; } vector<string> s, b; for (size_t i = 0; i < Q.size(); i++) { ll o = xord(R, Q[i]); s.push_back(o && o == phi(R, Q[i]) ? "PRIMITIVE" : "imprimitive"); b.push_back(r[i] + " " + s[i]); } mapped({F + "test", "-i"}, TQ, r, ": ", true, true); mapped({F + "test", "-p"}, TQ, s, ": ", true, true); mapped({F + "test", "-ip"}, TQ, b, ": ", true, true); edges(F + "test", {"-i"}, {TQ[0]}); refuse({F + "test", "-x", TQ[0]}); refuse({F + "test", TQ[0], TQ[1]}); });
    U("factor", [&] { size_t n = Q.size(); for (size_t i = 0; i < n; i++) { cmd(H("factor") + Args{TQ[i]}, factorization(f, Q[i], "")); size_t j = (i * 7 + 3) % n; cmd(H("factor") + Args{TQ[i], TQ[j]}, [&](const string &g) -> string { auto l = lines(g); if (l.size() != 2) return "expected two lines"; string e = factorization(f, Q[i], TQ[i] + " = ")(l[0] + "\n"); return e.empty() ? factorization(f, Q[j], TQ[j] + " = ")(l[1] + "\n") : e; }); } edges(F + "factor", f.pre, {TQ[0]}); });
    U("divisors", [&] { size_t n = std::min<size_t>(Q.size(), 60); for (size_t i = 0; i < n; i++) for (int mp = 0; mp < 2; mp++) { Args h = mp ? Args{F + "divisors", "-mp"} + f.pre : H("divisors"); cmd(h + Args{TQ[i]}, divisors(f, Q[i], mp, "")); size_t j = (i * 7 + 3) % n; cmd(h + Args{TQ[i], TQ[j]}, [&](const string &g) -> string { auto l = lines(g); if (l.size() != 2) return "expected two lines"; string e = divisors(f, Q[i], mp, TQ[i] + ": ")(l[0] + "\n"); return e.empty() ? divisors(f, Q[j], mp, TQ[j] + ": ")(l[1] + "\n") : e; }); } cmd(Args{F + "divisors", "-mp"} + f.pre + Args{T[1]}, "(none)\n"); edges(F + "divisors", f.pre, {TQ[0]}); edges(F + "divisors", Args{"-mp"} + f.pre, {TQ[0]}); });
    U("list", [&] { for (int lo = 0; lo <= maxdeg; lo++) for (int hi = lo; hi <= maxdeg; hi++) for (int range = lo < hi; range < 2; range++) { Args a = H("list") + Args{range ? mc::fmt("%d-%d", lo, hi) : mc::fmt("%d", lo)}; cmd(a, [&](const string &g) -> string { auto l = lines(g); size_t k = 0; for (int d = lo; d <= hi; d++) { ll n = (R.q - 1) * ref::ipow(R.q, d); std::set<Poly> s; for (ll i = 0; i < n; i++, k++) { Poly p; if (k >= l.size()) return "lines are missing"; if (!read(f, l[k], p) || ref::deg(p) != d || p.empty() || !s.insert(p).second) return "line " + qt(l[k]) + mc::fmt(" is not another polynomial of degree %d", d); } } return k == l.size() ? "" : "there are too many lines"; }); } cmd(H("list") + Args{"2-1"}, ""); edges(F + "list", f.pre, {"1"}); refuse(H("list") + Args{"1", "2"}); });
    U("find", [&] { vector<string> kinds = f.fam == "f2_p" ? vector<string>{"-i", "-p", "-ip"} : vector<string>{""}; for (auto &kd : kinds) for (int rnd = 0; rnd < 2; rnd++) for (int lo = 1; lo <= maxdeg; lo++) for (int hi = lo; hi <= maxdeg; hi++) { Args o = Args{F + "find", rnd ? "-r" : "-1"}; if (!kd.empty()) o.push_back(kd); cmd(o + f.pre + Args{lo == hi ? mc::fmt("%d", lo) : mc::fmt("%d-%d", lo, hi)}, [&](const string &g) -> string { auto l = lines(g); if ((int)l.size() != hi - lo + 1) return "expected one line for each degree"; for (int d = lo; d <= hi; d++) { Poly p; if (!read(f, l[d - lo], p) || p.empty() || ref::deg(p) != d) return "a line is not a polynomial of the degree"; if (kd != "-p" && !ref::pirr(R, p)) return "a polynomial is reducible"; if (kd != "-i" && !kd.empty()) { ll o = xord(R, p); if (!o || o != phi(R, p)) return "a polynomial is not primitive"; } } return ""; }); }
      Args k = f.fam == "f2_p" ? Args{"-i"} : Args{}; refuse(Args{F + "find", "-x"} + k + f.pre + Args{"2"}); edges(F + "find", Args{"-1"} + k + f.pre, {"2"}); refuse(Args{F + "find", "-1"} + k + f.pre + Args{"2", "3"}); if (f.fam == "f2_p") refuse({F + "find", "-1", "-q", "2"}); });
    U("eval", [&] { for (size_t i = 0; i < P.size(); i++) { vector<string> a, r; for (ll x = 0; x < R.q; x++) { a.push_back(f.co(x)); r.push_back(f.co(ref::peval(R, P[i], x))); } if (i % 17 == 5) mapped(H("eval") + Args{T[i]}, a, r, "", false); else { string w; for (auto &x : r) w += x + "\n"; cmd(H("eval") + Args{T[i]} + a, w); } } edges(F + "eval", f.pre, {T[2], f.co(1)}); });
    U("random", [&] { for (int d = 0; d <= 12; d++) for (int c = -1; c <= 4; c++) { Args a = H("random") + Args{std::to_string(d)}; if (c >= 0) a.push_back(std::to_string(c)); cmd(a, [&](const string &g) -> string { auto l = lines(g); if ((int)l.size() != (c < 0 ? 1 : c)) return "wrong number of lines"; for (auto &x : l) { Poly p; if (!read(f, x, p) || ref::deg(p) != d || (d && p.empty())) return mc::fmt("a line is not a polynomial of degree %d", d); } return ""; }); } edges(F + "random", f.pre, {"3"}); refuse(H("random") + Args{"3", "?"}); refuse(H("random") + Args{"3", "2", "1"}); });
    U("comp_mx", [&] { for (size_t i = R.q; i < P.size(); i++) { Poly p = P[i]; if (p.back() != 1) continue; size_t n = p.size() - 1; cmd(H("comp_mx") + Args{T[i]}, [&](const string &g) -> string { auto l = lines(g); while (l.size() && l.back().empty()) l.pop_back(); if (l.size() != n) return mc::fmt("expected %zu rows", n); vector<vector<Poly>> m(n); for (size_t r = 0; r < n; r++) { auto w = words(l[r]); if (w.size() != n) return mc::fmt("expected %zu columns", n); for (size_t c = 0; c < n; c++) { ll e = -1; for (ll x = 0; x < R.q; x++) if (f.co(x) == w[c]) e = x; if (e < 0) return "an entry is illegible"; m[r].push_back(e ? Poly{R.neg(e)} : Poly{}); if (r == c) m[r][c] = ref::padd(R, m[r][c], {0, 1}); } }
        std::function<Poly(vector<vector<Poly>>)> det = [&](vector<vector<Poly>> a) -> Poly { size_t k = a.size(); if (!k) return {1}; Poly d; for (size_t j = 0; j < k; j++) { if (a[0][j].empty()) continue; vector<vector<Poly>> s; for (size_t y = 1; y < k; y++) { vector<Poly> q; for (size_t x = 0; x < k; x++) if (x != j) q.push_back(a[y][x]); s.push_back(q); } Poly t = ref::pmul(R, a[0][j], det(s)); d = j & 1 ? ref::psub(R, d, t) : ref::padd(R, d, t); } return d; }; Poly c = det(m); return c == p ? "" : "whose characteristic polynomial is " + fld::show(c); }); } edges(F + "comp_mx", f.pre, {TQ[0]}); refuse(H("comp_mx") + Args{TQ[0], TQ[1]}); }); }
  U("gcd and lcm", [&] { size_t n = std::min<size_t>(P.size(), pairs); auto assoc = [&](const string &s, const Poly &w) { Poly g; string t = s; if (!t.empty() && t.back() == '\n') t.pop_back(); return read(f, t, g) && ref::pmonic(R, g) == ref::pmonic(R, w); };
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { size_t a = i * (P.size() / n), b = j * (P.size() / n); const Poly &x = P[a], &y = P[b]; if (x.empty() && y.empty()) continue; Poly g = monicgcd(R, x, y);
        cmd(H("gcd") + Args{T[a], T[b]}, [&](const string &s) -> string { return assoc(s, g) ? "" : "expected an associate of " + f.out(g); });
        cmd(Args{F + "gcd", "-e"} + f.pre + Args{T[a], T[b]}, [&](const string &s) -> string { auto w = words(s); if (w.size() != 9 || w[1] != "=" || w[3] != "*" || w[5] != "+" || w[7] != "*") return "expected the form g = r * a + s * b"; Poly p[5]; for (int k = 0; k < 5; k++) if (!read(f, w[k * 2], p[k])) return "a polynomial is illegible"; if (p[2] != x || p[4] != y) return "the operands differ"; if (ref::pmonic(R, p[0]) != g) return "expected an associate of " + f.out(g); return ref::padd(R, ref::pmul(R, p[1], x), ref::pmul(R, p[3], y)) == p[0] ? "" : "which is no identity"; });
        if (f.fam == "fpn_p" || x.empty() || y.empty()) continue; Poly l = ref::pdiv(R, ref::pmul(R, x, y), g); cmd(H("lcm") + Args{T[a], T[b]}, [&](const string &s) -> string { return assoc(s, l) ? "" : "expected an associate of " + f.out(l); });
        size_t c = (a * 5 + b * 3 + 1) % P.size(); if (P[c].empty()) continue; Poly l3 = ref::pdiv(R, ref::pmul(R, l, P[c]), monicgcd(R, l, P[c])); cmd(H("lcm") + Args{T[a], T[b], T[c]}, [&](const string &s) -> string { return assoc(s, l3) ? "" : "expected an associate of " + f.out(l3); }); if (f.fam == "f2_p") cmd(H("gcd") + Args{T[a], T[b], T[c]}, [&](const string &s) -> string { return assoc(s, monicgcd(R, g, P[c])) ? "" : "expected another divisor"; }); }
    if (f.fam != "fpn_p") { for (size_t i = 1; i < n; i++) cmd(H("lcm") + Args{T[i]}, T[i] + "\n"); edges(F + "lcm", f.pre, {T[3]}); refuse(H("lcm") + Args{T[1], "?"}); } edges(F + "gcd", f.pre, {T[3]}); edges(F + "gcd", Args{"-e"} + f.pre, {T[3], T[2]}); refuse(Args{F + "gcd", "-e"} + f.pre + Args{T[1], T[2], T[3]}); });
  U("qp", [&] { vector<string> a, r; TQp k; auto V = k.vals(); for (size_t i = 0; i < V.size(); i += V.size() / 150 + 1) { auto &m = V[i]; Poly p; bool ok = true; for (size_t j = 0; j < m.a.size(); j++) { ll d = ref::md(m.b[j], R.p); if (!d) ok = false; else p.push_back(ref::md((ref::xl)m.a[j] * ref::iinv(d, R.p), R.p)); } ref::norm(p); if (!ok) { refuse(H("qp") + Args{k.out(m)}); continue; } a.push_back(k.out(m)); r.push_back(f.out(p)); } mapped(H("qp"), a, r, "", false); edges(F + "qp", f.pre, {"1"}); });
}

// ---- residue rings
struct RF { string fam; Args pre; RingP Q; RingP B; Poly m; std::function<string(ll)> out; std::function<bool(const string &, ll &)> in; std::function<string(const Poly &)> pout; bool field, glist, tbllog, manyord; };
static ll ordof(const Ring &R, ll a) { if (R.inv(a) < 0) return 0; ll y = a, n = 1; while (y != 1 % R.q) { y = R.mul(y, a); n++; } return n; }
static Poly annihilator(const Ring &B, const Ring &Q, ll a) { for (int d = 1;; d++) for (ll k = 0; k < ref::ipow(B.q, d); k++) { Poly p = ref::pdigits(k, B.q); p.resize(d + 1, 0); p[d] = 1; ll v = 0, x = 1; for (ll c : p) { v = Q.add(v, Q.mul(c, x)); x = Q.mul(x, a); } if (v == 0) return p; } }
static void residueverbs(const RF &f) { const Ring &R = *f.Q; string F = f.fam + "_"; ll q = R.q; auto H = [&](const char *v) { return Args{F + v} + f.pre; }; auto U = [&](const char *n, const std::function<void()> &g) { mc::unit(F + n + show(f.pre), g); };
  vector<string> T; vector<ll> units, non; for (ll i = 0; i < q; i++) { T.push_back(f.out(i)); (R.inv(i) < 0 ? non : units).push_back(i); } ll best = 0; for (ll u : units) best = std::max(best, ordof(R, u)); vector<ll> gens; for (ll u : units) if (ordof(R, u) == (ll)units.size()) gens.push_back(u);
  auto listing = [&](const vector<ll> &w) { return [&f, w](const string &g) -> string { std::multiset<ll> a(w.begin(), w.end()), b; for (auto &l : lines(g)) { ll x; if (!f.in(l, x) || f.out(x) != l) return "line " + qt(l) + " is no residue"; b.insert(x); } return a == b ? "" : mc::fmt("expected %zu others", a.size()); }; };
  vector<ll> all; for (ll i = 0; i < q; i++) all.push_back(i);
  U("list", [&] { Args v{F + "list"}; if (f.glist) { cmd(v + Args{"-a"} + f.pre, listing(all)); } else cmd(v + Args{"-a"} + f.pre, listing(all)); cmd(v + Args{"-u"} + f.pre, listing(units)); cmd(v + Args{"-nu"} + f.pre, listing(non)); refuse(v + Args{"-x"} + f.pre); edges(F + "list", Args{"-u"} + f.pre, {});
    if (f.glist) for (ll g = 0; g < q; g++) { std::set<ll> mul; for (ll x = 0; x < q; x++) mul.insert(R.mul(g, x)); cmd(v + Args{"-m", T[g]} + f.pre, [&](const string &s) -> string { std::set<ll> got; for (auto &l : lines(s)) { ll x; if (!f.in(l, x)) return "a line is no residue"; got.insert(x); } return got == mul ? "" : mc::fmt("expected %zu multiples", mul.size()); }); } });
  U("tbl", [&] { auto tab = [&](const char *op, const vector<ll> &e, const std::function<ll(ll, ll)> &fn) { string w; for (ll a : e) { string l; for (ll b : e) l += (l.empty() ? "" : " ") + f.out(fn(a, b)); w += l + "\n"; } cmd(H("tbl") + Args{op}, w); };
    auto mul = [&](ll a, ll b) { return R.mul(a, b); }; tab("+", all, [&](ll a, ll b) { return R.add(a, b); }); tab("-", all, [&](ll a, ll b) { return R.sub(a, b); }); tab("*", all, mul); tab(".", all, mul); tab("u*", units, mul); tab("u.", units, mul); tab("/", units, [&](ll a, ll b) { return R.mul(a, R.inv(b)); });
    if (f.tbllog && f.fam != "fp_pm") { auto lg = [&](ll g) { string w = "element power\n------- -----\n"; for (ll u : units) { ll e = 0, x = 1 % q; while (x != u) { x = R.mul(x, g); e++; } w += f.out(u) + mc::fmt(" %lld\n", e); } return w; }; auto al = [&](ll g) { string w = "power element\n----- -------\n"; ll x = 1 % q; for (size_t i = 0; i < units.size(); i++) { w += mc::fmt("%zu ", i) + f.out(x) + "\n"; x = R.mul(x, g); } return w; };
      for (ll g : gens) { cmd(H("tbl") + Args{"log:" + T[g]}, lg(g)); } for (ll g : units) cmd(H("tbl") + Args{"alog:" + T[g]}, al(g)); if (gens.empty()) { if (f.field) {} refuse(H("tbl") + Args{"log"}); refuse(H("tbl") + Args{"alog"}); } else { cmd(H("tbl") + Args{"log"}, [&](const string &s) -> string { for (ll g : gens) if (lg(g) == s) return ""; return "which are the logarithms for no generator"; }); cmd(H("tbl") + Args{"alog"}, [&](const string &s) -> string { for (ll g : gens) if (al(g) == s) return ""; return "which are the powers of no generator"; }); } refuse(H("tbl") + Args{"log:?"}); }
    for (string bad : {"", "?", "u", "+-", "**", "lo"}) refuse(H("tbl") + Args{bad}); lacking(H("tbl")); refuse(H("tbl") + Args{"+", "+"}); });
  U("ord", [&] { vector<string> t, r; for (ll i = 0; i < q; i++) { ll o = ordof(R, i); if (!o) mc::run("spiff", show(H("ord") + Args{T[i]}), [&] { mc::count_states(); Out r = spiff(H("ord") + Args{T[i]}); if (r.rc == 0 ? r.out != "0\n" : r.out.find('\n') != string::npos || r.err.empty()) mc::fail("exits with status " + std::to_string(r.rc) + " and prints " + qt(r.out) + " for a zero divisor"); }); else { t.push_back(T[i]); r.push_back(std::to_string(o)); } } if (f.manyord) mapped(H("ord"), t, r); else for (size_t i = 0; i < t.size(); i++) cmd(H("ord") + Args{t[i]}, r[i] + "\n"); edges(F + "ord", f.pre, {T[1]}); });
  U("random", [&] { for (int c = -1; c <= 5; c++) { Args a = H("random"); if (c >= 0) a.push_back(std::to_string(c)); cmd(a, [&](const string &g) -> string { auto l = lines(g); if ((int)l.size() != (c < 0 ? 1 : c)) return "wrong number of lines"; for (auto &x : l) { ll v; if (!f.in(x, v) || f.out(v) != x) return "a line is no residue"; } return ""; }); } edges(F + "random", f.pre, {}); refuse(H("random") + Args{"?"}); refuse(H("random") + Args{"1", "2"}); });
  U("mat_random", [&] { for (int a = 1; a <= 3; a++) for (int b = 1; b <= 3; b++) cmd(H("mat_random") + Args{std::to_string(a), std::to_string(b)}, [&](const string &g) -> string { auto l = lines(g); while (l.size() && l.back().empty()) l.pop_back(); if ((int)l.size() != a) return "wrong number of rows"; for (auto &x : l) { auto w = words(x); if ((int)w.size() != b) return "wrong number of columns"; for (auto &e : w) { ll v; if (!f.in(e, v) || f.out(v) != e) return "an entry is no residue"; } } return ""; }); edges(F + "mat_random", f.pre, {"2", "2"}); refuse(H("mat_random") + Args{"0", "2"}); refuse(H("mat_random") + Args{"2", "-1"}); });
  if (f.tbllog && f.fam != "fp_pm") { U("log", [&] { for (ll g : gens) { vector<string> a, r; for (ll u : units) { ll e = 0, x = 1 % q; while (x != u) { x = R.mul(x, g); e++; } a.push_back(T[u]); r.push_back(std::to_string(e)); } mapped(H("log") + Args{T[g]}, a, r); for (ll z : non) refuse(H("log") + Args{T[g], T[z]}); } if (gens.size()) edges(F + "log", f.pre, {T[gens[0]], T[1]}); }); }
  if (f.B && f.field) { vector<string> mp, cp; int n = (int)f.m.size() - 1; for (ll i = 0; i < q; i++) { Poly a = annihilator(*f.B, R, i); mp.push_back(f.pout(a)); cp.push_back(f.pout(ref::ppow(*f.B, a, n / ((int)a.size() - 1)))); } U("min_pol", [&] { mapped(H("min_pol"), T, mp); edges(F + "min_pol", f.pre, {T[1]}); }); U("ch_pol", [&] { mapped(H("ch_pol"), T, cp); edges(F + "ch_pol", f.pre, {T[1]}); }); }
}

// find_gen over several moduli: gens[i] are the generators for modulus i, if any.
static void findgen(const string &verb, const Args &pre, const vector<string> &mods, const vector<std::set<string>> &gens) { mc::unit(verb + show(pre), [&] { size_t n = mods.size(); auto run = [&](const vector<size_t> &w) { Args a = Args{verb} + pre; bool all = true; for (size_t i : w) { a.push_back(mods[i]); if (gens[i].empty()) all = false; } mc::run("spiff", show(a), [&] { mc::count_states(); Out o = spiff(a); auto l = lines(o.out); if (l.size() != w.size()) { mc::fail("prints " + qt(o.out)); return; } for (size_t k = 0; k < w.size(); k++) { string t = l[k], lab = w.size() > 1 ? mods[w[k]] + ": " : ""; if (t.compare(0, lab.size(), lab)) { mc::fail("prints " + qt(t)); continue; } t = t.substr(lab.size()); if (gens[w[k]].empty() ? t != "Generator not found." : !gens[w[k]].count(t)) mc::fail("prints " + qt(t) + " for " + mods[w[k]]); } if ((o.rc == 0) != all) mc::fail(mc::fmt("exits with status %d", o.rc)); }); };
    for (size_t i = 0; i < n; i++) { run({i}); for (size_t j = 0; j < n; j++) run({i, j}); run({i, (i + 1) % n, (i + 2) % n}); } edges(verb, pre, {mods[0]}); refuse(Args{verb} + pre + Args{"?"}); }); }

// ---- matrices over a field, read from a file or the standard input
typedef vector<vector<ll>> Mx;
static Mx matof(ll i, int r, int c, ll q) { Mx m(r, vector<ll>(c)); for (auto &x : m) for (auto &e : x) { e = i % q; i /= q; } return m; }
static Poly detp(const Ring &R, const vector<vector<Poly>> &a) { size_t k = a.size(); if (!k) return {1}; Poly d; for (size_t j = 0; j < k; j++) { if (a[0][j].empty()) continue; vector<vector<Poly>> s; for (size_t y = 1; y < k; y++) { vector<Poly> q; for (size_t x = 0; x < k; x++) if (x != j) q.push_back(a[y][x]); s.push_back(q); } Poly t = ref::pmul(R, a[0][j], detp(R, s)); d = j & 1 ? ref::psub(R, d, t) : ref::padd(R, d, t); } return d; }
static Poly chp(const Ring &R, const Mx &a) { size_t n = a.size(); vector<vector<Poly>> m(n, vector<Poly>(n)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (a[i][j]) m[i][j] = {R.neg(a[i][j])}; if (i == j) m[i][j] = ref::padd(R, m[i][j], {0, 1}); } return detp(R, m); }
static Mx mm(const Ring &R, const Mx &a, const Mx &b) { Mx c(a.size(), vector<ll>(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t k = 0; k < b.size(); k++) c[i][j] = R.add(c[i][j], R.mul(a[i][k], b[k][j])); return c; }
static void matverbs(const RF &f, const std::function<string(const Poly &)> &chout, const string &ord, const string &ch, const string &solve, ll n1, ll n2, ll n3) { const Ring &R = *f.Q; ll q = R.q; auto text = [&](const Mx &m) { string s; for (auto &r : m) { for (size_t j = 0; j < r.size(); j++) s += (j ? " " : "") + f.out(r[j]); s += "\n"; } return s; };
  for (int n = 1; n <= 3; n++) { ll tot = ref::ipow(q, n * n), cap = n == 1 ? n1 : n == 2 ? n2 : n3, step = std::max<ll>(1, tot / cap); step |= 1; for (int part = 0; part < 4; part++) mc::unit(f.fam + "_mat" + show(f.pre) + mc::fmt(" %dx%d, part %d", n, n, part), [&] {
    for (ll k = part; k * step < tot; k += 4) { Mx a = matof(k * step, n, n, q), I(n, vector<ll>(n, 0)), x = a; for (int i = 0; i < n; i++) I[i][i] = 1; Poly c = chp(R, a); ll o = 0; if (c[0]) { o = 1; while (x != I) { x = mm(R, x, a); o++; } } if (!ord.empty()) cmd(Args{ord} + f.pre, mc::fmt("%lld\n", o), text(a)); if (!ch.empty()) { string fn = file(text(a)); cmd(Args{ch} + f.pre + Args{fn}, chout(c) + "\n"); if (k % 5 == 0) cmd(Args{ch} + f.pre + Args{k & 1 ? "-" : "@"}, chout(c) + "\n", text(a)); }
      if (!solve.empty() && k % 3 == 0) { vector<ll> s(n); for (int i = 0; i < n; i++) s[i] = (k + i * i) % q; Mx sv(n, vector<ll>(1)); for (int i = 0; i < n; i++) sv[i][0] = s[i]; Mx b = mm(R, a, sv); string bt, st; for (int i = 0; i < n; i++) { bt += (i ? " " : "") + f.out(b[i][0]); st += (i ? " " : "") + f.out(s[i]); } string fa = file(text(a)), fb = file(bt + "\n"); Args v = Args{solve} + f.pre + Args{fa, fb}; if (c[0]) cmd(v, [&](const string &g) -> string { return words(g) == words(st) ? "" : "expected " + st; }); else refuse(v); } }
    if (part) return; if (!ord.empty()) { refuse(Args{ord} + f.pre, "", "1 ?\n? 1\n"); refuse(Args{ord} + f.pre, "", "1 1\n"); if (f.pre.size()) edges(ord, f.pre, {}); } if (!ch.empty()) { refuse(Args{ch} + f.pre + Args{"nosuch.txt"}); refuse(Args{ch} + f.pre + Args{file("1 ?\n")}); edges(ch, f.pre, {file("1\n")}); } if (!solve.empty()) { refuse(Args{solve} + f.pre + Args{file("1\n"), "nosuch.txt"}); refuse(Args{solve} + f.pre + Args{"nosuch.txt", file("1\n")}); refuse(Args{solve} + f.pre + Args{file("1 0\n0 1\n"), file("1\n")}); edges(solve, f.pre, {file("1\n"), file("1\n")}); } }); } }

// ---- integers
static string facs(ll n) { string s; if (n >= -1 && n <= 1) return std::to_string(n); if (n < 0) { s = "-1"; n = -n; } for (ll p = 2; n > 1; p++) { if (p * p > n) p = n; int e = 0; while (n % p == 0) { n /= p; e++; } if (e) s += (s.empty() ? "" : " ") + std::to_string(p) + (e > 1 ? mc::fmt("^%d", e) : ""); } return s; }
static bool prime(ll n) { if (n < 2) return false; for (ll d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }
static void integers() {
  vector<ll> V; for (ll i = 0; i <= (mc::thorough ? 1200 : 200); i++) V.push_back(i); for (ll v : {65536ll, 65537ll, 46340ll, 46341ll, 510510ll, 1073741824ll, 2147483647ll, 2147395600ll, 2147117569ll}) V.push_back(v); vector<string> T; for (ll v : V) T.push_back(std::to_string(v)); vector<ll> N = V; for (ll v : V) if (v) N.push_back(-v); vector<string> TN; for (ll v : N) TN.push_back(std::to_string(v));
  mc::unit("z_totient", [&] { vector<string> t, r; for (size_t i = 1; i < V.size(); i++) { ll n = V[i], ph = n; if (n < 2 || n > 70000) continue; t.push_back(T[i]); for (ll p = 2, m = n; m > 1; p++) { if (p * p > m) p = m; if (m % p == 0) { ph = ph / p * (p - 1); while (m % p == 0) m /= p; } } r.push_back(std::to_string(ph)); } mapped({"z_totient"}, t, r); edges("z_totient", {}, {"5"}); });
  mc::unit("z_test_prime", [&] { vector<string> r; for (ll v : V) r.push_back(prime(v) ? "PRIME" : "not prime"); mapped({"z_test_prime"}, T, r); edges("z_test_prime", {}, {"5"}); });
  mc::unit("z_factor", [&] { vector<string> r; for (ll v : N) r.push_back(facs(v)); mapped({"z_factor"}, TN, r, " = "); edges("z_factor", {}, {"5"}); });
  mc::unit("z_divisors", [&] { vector<string> t, r, m; for (ll v : V) { if (v < 2 || v > 2000000) continue; t.push_back(std::to_string(v)); string d, x; vector<ll> mx; for (ll k = 1; k <= v; k++) if (v % k == 0) { d += (d.empty() ? "" : " ") + std::to_string(k); if (prime(v / k)) x += (x.empty() ? "" : " ") + std::to_string(k); } r.push_back(d); m.push_back(x); } mapped({"z_divisors"}, t, r); mapped({"z_divisors", "-mp"}, t, m); refuse({"z_divisors", "-mp"}); cmd({"z_divisors", "1"}, "1\n"); cmd({"z_divisors", "-mp", "1"}, "(none)\n"); edges("z_divisors", {}, {"5"}); edges("z_divisors", {"-mp"}, {"5"}); });
  mc::unit("z_gcd and z_lcm", [&] { vector<ll> S; for (ll i = -14; i <= 14; i++) S.push_back(i); for (ll v : {360ll, 46368ll, 28657ll, 65536ll}) S.push_back(v); for (ll a : S) for (ll b : S) { string ta = std::to_string(a), tb = std::to_string(b); ll g = ref::igcd(a, b); if (a || b) { cmd({"z_gcd", ta, tb}, std::to_string(g) + "\n"); cmd({"z_gcd", "-e", ta, tb}, [&](const string &s) -> string { auto w = words(s); ll v[5]; if (w.size() != 9 || w[1] != "=" || w[3] != "*" || w[5] != "+" || w[7] != "*") return "expected the form g = r * a + s * b"; for (int k = 0; k < 5; k++) if (!rint(w[2 * k], v[k])) return "a number is illegible"; if (v[2] != a || v[4] != b || (v[0] != g && v[0] != -g)) return "expected the divisor " + std::to_string(g); return v[1] * a + v[3] * b == v[0] ? "" : "which is no identity"; }); for (ll c : {6ll, -7ll, 0ll, 12ll}) cmd({"z_gcd", ta, tb, std::to_string(c)}, std::to_string(ref::igcd(g, c)) + "\n"); }
      if (a && b) { ll l = a / g * b; if (l < 0) l = -l; if (l < 2147483647) cmd({"z_lcm", ta, tb}, [&](const string &s) -> string { ll v; string t = s; if (!t.empty()) t.pop_back(); return rint(t, v) && (v < 0 ? -v : v) == l ? "" : mc::fmt("expected %lld", l); }); ll c = 10, l3 = l / ref::igcd(l, c) * c; if (l3 < 2147483647) cmd({"z_lcm", ta, tb, "10"}, [&](const string &s) -> string { ll v; string t = s; if (!t.empty()) t.pop_back(); return rint(t, v) && (v < 0 ? -v : v) == l3 ? "" : mc::fmt("expected %lld", l3); }); } } edges("z_gcd", {}, {"5"}); edges("z_gcd", {"-e"}, {"5", "3"}); refuse({"z_gcd", "-e", "1", "2", "3"}); refuse({"z_gcd", "4", "?"}); refuse({"z_lcm", "4", "?"}); edges("z_lcm", {}, {"5"}); });
  mc::unit("z_list", [&] { for (ll s : {-3ll, 0ll, 1ll, 7ll}) for (ll n = -2; n <= 4; n++) for (ll d = -3; d <= 3; d++) { string w; for (ll i = 0; i < n; i++) w += std::to_string(s + i * d) + "\n"; cmd({"z_list", std::to_string(s), std::to_string(n), std::to_string(d)}, w); if (d == 1) cmd({"z_list", std::to_string(s), std::to_string(n)}, w); if (d == 1 && n == 1) cmd({"z_list", std::to_string(s)}, w); } edges("z_list", {}, {"1"}); refuse({"z_list", "1", "?"}); refuse({"z_list", "1", "2", "?"}); refuse({"z_list", "1", "2", "3", "4"}); });
  mc::unit("nth_prime", [&] { vector<ll> ps; for (ll n = 2; ps.size() < 120; n++) if (prime(n)) ps.push_back(n); string v = "spffl::intmath::nth_prime"; if (spiff({v, "1"}).rc != 0) v = "nth_prime"; ll base = spiff({v, "0"}).rc == 0 && spiff({v, "0"}).out == "2\n" ? 0 : 1; for (ll lo = base; lo < 110; lo++) { cmd({v, std::to_string(lo)}, mc::fmt("%lld\n", ps[lo - base])); for (ll hi : {lo - 1, lo, lo + 1, lo + 7}) if (hi - base < 120) { string w; for (ll n = lo; n <= hi; n++) w += mc::fmt("%lld\n", ps[n - base]); cmd({v, mc::fmt("%lld-%lld", lo, hi)}, w); cmd({v, mc::fmt("%lld-%lld", lo, hi), std::to_string(lo)}, w + mc::fmt("%lld\n", ps[lo - base])); } } edges(v, {}, {"5"}); });
  mc::unit("q_cyclotomic", [&] { int top = mc::thorough ? 104 : 40; vector<vector<ll>> phi(top + 1); vector<string> a, r; for (int n = 1; n <= top; n++) { vector<ll> p(n + 1, 0); p[0] = -1; p[n] = 1; for (int d = 1; d < n; d++) if (n % d == 0) { auto &b = phi[d]; vector<ll> qo(p.size() - b.size() + 1); for (int k = (int)qo.size() - 1; k >= 0; k--) { qo[k] = p[k + b.size() - 1]; for (size_t j = 0; j < b.size(); j++) p[k + j] -= qo[k] * b[j]; } p = qo; } phi[n] = p; string s; for (int k = (int)p.size() - 1; k >= 0; k--) s += std::to_string(p[k]) + (k ? "," : ""); a.push_back(std::to_string(n)); r.push_back(s); } mapped({"q_cyclotomic"}, a, r, "", false); edges("q_cyclotomic", {}, {"5"}); refuse({"q_cyclotomic", "0"}); refuse({"q_cyclotomic", "-3"}); });
}
static void residues() { // verbs of fp only
  for (ll p = 2; p <= 40; p++) mc::unit(mc::fmt("fp_max_ord and fp_orbit %lld", p), [&] { ref::Zn R(p); ll best = 0; string P = std::to_string(p); for (ll a = 0; a < p; a++) best = std::max(best, ordof(R, a)); cmd({"fp_max_ord", P}, mc::fmt("%lld\n", best)); for (ll a = -p - 1; a <= 2 * p; a++) { if (ref::igcd(a, p) != 1) { refuse({"fp_orbit", P, std::to_string(a)}); continue; } for (ll b : {1ll, 0ll, 2ll, p - 1, p + 3, -1ll}) { string w; ll x = 1 % p; do { x = R.mul(x, ref::md(a, p)); w += mc::fmt("%lld\n", R.mul(x, ref::md(b, p))); } while (x != 1 % p); Args v{"fp_orbit", P, std::to_string(a)}; if (b == 1) cmd(v, w); cmd(v + Args{std::to_string(b)}, w); } } edges("fp_orbit", {P}, {"1"}); edges("fp_max_ord", {}, {P}); refuse({"fp_orbit", P, "1", "?"}); refuse({"fp_orbit", P, "1", "1", "1"}); refuse({"fp_max_ord", P, P}); });
  for (ll p : {46337ll, 65537ll, 1000003ll, 2147483647ll}) mc::unit(mc::fmt("fp_orbit %lld", p), [&] { ref::Zn R(p); for (ll a : {p - 1, 1ll, (ll)-1, ref::md(ref::xl(1), p)}) for (ll b : {1ll, p - 1, 46341ll}) { string w; ll x = 1; do { x = R.mul(x, ref::md(a, p)); w += mc::fmt("%lld\n", R.mul(x, b)); } while (x != 1); cmd({"fp_orbit", std::to_string(p), std::to_string(a), std::to_string(b)}, w); } for (ll e : {8ll, 16ll, 4ll, 3ll, 6ll}) if ((p - 1) % e == 0) for (ll g = 2; g < 6; g++) { ll a = R.pow(g, (p - 1) / e); string w; ll x = 1; do { x = R.mul(x, a); w += mc::fmt("%lld\n", x); } while (x != 1); cmd({"fp_orbit", std::to_string(p), std::to_string(a)}, w); } }); }
static void bitverbs() { mc::unit("f2_random", [&] { for (int c = -1; c <= 40; c++) { Args a{"f2_random"}; if (c >= 0) a.push_back(std::to_string(c)); cmd(a, [&](const string &g) -> string { auto l = lines(g); if ((int)l.size() != (c < 0 ? 1 : c)) return "wrong number of lines"; for (auto &x : l) if (x != "0" && x != "1") return "a line is no bit"; return ""; }); } refuse({"f2_random", "?"}); refuse({"f2_random", "1", "2"}); });
  mc::unit("f2_mat_random", [&] { for (int a = 1; a <= 5; a++) for (int b = 1; b <= 5; b++) cmd({"f2_mat_random", std::to_string(a), std::to_string(b)}, [&](const string &g) -> string { auto l = lines(g); while (l.size() && l.back().empty()) l.pop_back(); if ((int)l.size() != a) return "wrong number of rows"; for (auto &x : l) { auto w = words(x); if ((int)w.size() != b) return "wrong number of columns"; for (auto &e : w) if (e != "0" && e != "1") return "an entry is no bit"; } return ""; }); edges("f2_mat_random", {}, {"2", "2"}); });
  // A fraction of two polynomials of one degree, in lowest terms.
  auto frac = [](const string &x, int d) -> string { TF2p k; auto t = split(x, '/'); Parse n = k.in(t[0]), e = t.size() == 2 ? k.in(t[1]) : k.in("1"); if (t.size() > 2 || n.v != OK || e.v != OK) return "an entry is illegible"; Poly a = n.m.a, b = e.m.a; ref::norm(a); ref::norm(b); if (a.size() != b.size() || a.empty() || ref::deg(a) > d) return mc::fmt("an entry has the wrong degrees for %d", d); ref::Zn B(2); return ref::pgcd(B, a, b).size() == 1 ? "" : "an entry is not in lowest terms"; };
  mc::unit("f2_pr_random", [&] { for (int d = 0; d <= 9; d++) for (int c = -1; c <= 6; c++) { Args a{"f2_pr_random", std::to_string(d)}; if (c >= 0) a.push_back(std::to_string(c)); cmd(a, [&](const string &g) -> string { auto l = lines(g); if ((int)l.size() != (c < 0 ? 1 : c)) return "wrong number of lines"; for (auto &x : l) { string e = frac(x, d); if (!e.empty()) return e; } return ""; }); } edges("f2_pr_random", {}, {"3"}); refuse({"f2_pr_random", "3", "?"}); refuse({"f2_pr_random", "3", "1", "1"}); });
  mc::unit("f2_pr_mat_random", [&] { for (int d = 0; d <= 4; d++) for (int a = 1; a <= 4; a++) for (int b = 1; b <= 4; b++) cmd({"f2_pr_mat_random", std::to_string(d), std::to_string(a), std::to_string(b)}, [&](const string &g) -> string { auto l = lines(g); while (l.size() && l.back().empty()) l.pop_back(); if ((int)l.size() != a) return "wrong number of rows"; for (auto &x : l) { auto w = words(x); if ((int)w.size() != b) return "wrong number of columns"; for (auto &y : w) { string e = frac(y, d); if (!e.empty()) return e; } } return ""; }); edges("f2_pr_mat_random", {"2"}, {"2", "2"}); refuse({"f2_pr_mat_random", "2", "2", "2", "2"}); refuse({"f2_pr_mat_random", "2", "0", "2"}); refuse({"f2_pr_mat_random", "2", "2", "-1"}); }); }
static void toplevel() { mc::unit("commands", [&] { for (string c : {"", "x", "f2_p_factors", "f2_p_", "F2_P_DEG", "f2_p_deg ", "--help", "-h", "z"}) { refuse({c}); refuse({c, "3"}); } lacking({}); vector<string> verbs; mc::run("spiff", " -l", [&] { mc::count_states(); Out o = spiff({"-l"}); if (o.rc != 0) mc::fail("is refused"); for (auto &l : lines(o.out)) if (l.compare(0, 2, "  ") == 0) verbs.push_back(l.substr(2)); if (verbs.size() < 120) mc::fail(mc::fmt("lists %zu commands", verbs.size())); std::set<string> s(verbs.begin(), verbs.end()); if (s.size() != verbs.size()) mc::fail("lists a command twice"); for (const char *n : {"z_gcd", "f2_p_qp", "f2n_p_qp", "fp_pm_mat_op", "fpn_pm_op", "q_p_op", "f2n_pr_op", "fp_pr_mat_op", "f2_pm_mat_diagonalizable"}) if (!s.count(n)) mc::fail(string("does not list ") + n); });
    // The verbs that map over their arguments may be given none; the others need theirs.
    const std::set<string> open = {"z_op", "z_test_prime", "z_factor", "z_mat_op", "q_op", "q_vec_op", "q_mat_op", "q_p_op", "f2_op", "f2_random", "f2_vec_op", "f2_mat_op", "f2_p_op", "f2_p_deg", "f2_p_period", "f2_p_factor", "f2_p_divisors", "f2_p_mat_op", "f2_pr_op", "f2_pr_mat_op"}; for (auto &v : verbs) if (!open.count(v)) refuse({v});
    for (auto &v : verbs) { mc::run("no arguments", " " + v, [&] { mc::count_states(); Out o = spiff({v}); if (v.find("random") == string::npos && v.find("_mat_") == string::npos && !o.out.empty()) mc::fail("prints " + qt(o.out)); else if (o.rc != 0 && o.err.empty()) mc::fail("fails without a message"); }); for (string b : {"?", ""}) { Args a{v, b}; if (v != "z_test_prime" || 1) refuse(a); for (string c : {"?", ""}) { refuse(Args{v, b, c}); for (string d : {"?", ""}) refuse(Args{v, b, c, d}); } } } }); }
static void conversions() { // f2_pm_convert: an isomorphism onto the other field
  mc::unit("f2_pm_convert", [&] { vector<vector<ll>> groups = {{0xb, 0xd}, {0x13, 0x19, 0x1f}, {7, 7}, {0x25, 0x29, 0x2f, 0x3d}}; for (auto &g : groups) for (ll m1 : g) for (ll m2 : g) { TF2pm k1(ref::pdigits(m1, 2)), k2(ref::pdigits(m2, 2)); ref::Zn B(2); ll q = ref::ipow(2, (int)k1.m.size() - 1); ref::Ext R1(RingP(new ref::Zn(2)), k1.m), R2(RingP(new ref::Zn(2)), k2.m); Args a{"f2_pm_convert", hexs(k1.m), hexs(k2.m)}; for (ll i = 0; i < q; i++) a.push_back(k1.out({ref::pdigits(i, 2), {}}));
      vector<ll> im(q, -1); cmd(a, [&](const string &s) -> string { auto l = lines(s); if ((ll)l.size() != q) return "expected one line for each residue"; for (ll i = 0; i < q; i++) { string lab = a[3 + i] + ": "; if (l[i].compare(0, lab.size(), lab)) return "line " + qt(l[i]) + " has the wrong label"; Parse p = k2.in(l[i].substr(lab.size())); if (p.v != OK) return "a result is illegible"; im[i] = ref::pindex(p.m.a, 2); } for (ll i = 0; i < q; i++) for (ll j = 0; j < q; j++) { if (im[R1.add(i, j)] != R2.add(im[i], im[j])) return "sums are not kept"; if (im[R1.mul(i, j)] != R2.mul(im[i], im[j])) return "products are not kept"; } return im[1] == 1 ? "" : "one is not kept"; });
      if (im[0] < 0) continue; for (ll i = 0; i < q; i++) cmd({"f2_pm_convert", a[1], a[2], a[3 + i]}, k2.out({ref::pdigits(im[i], 2), {}}) + "\n"); } edges("f2_pm_convert", {"b", "d"}, {"1"}); }); }
static void diagonal() { for (ll m : {3ll, 7ll, 0xbll}) mc::unit(mc::fmt("f2_pm_mat_diagonalizable %llx", m), [&] { TF2pm k(ref::pdigits(m, 2)); ref::Ext R(RingP(new ref::Zn(2)), k.m); ll q = R.q; for (ll i = 0; i < ref::ipow(q, 4); i += m == 0xb ? 37 : 1) { Mx a = matof(i, 2, 2, q); string t; for (auto &r : a) { for (ll e : r) t += k.out({ref::pdigits(e, 2), {}}) + " "; t += "\n"; } Poly c = chp(R, a); bool scalar = a[0][1] == 0 && a[1][0] == 0 && a[0][0] == a[1][1]; Poly g = ref::pgcd(R, c, ref::pderiv(R, c)); bool want = scalar || g.size() == 1; string f = file(t); cmd({"f2_pm_mat_diagonalizable", hexs(k.m), f}, [&](const string &s) -> string { auto l = lines(s); if (std::find(l.begin(), l.end(), want ? "Diagonalizable." : "Non-diagonalizable.") == l.end()) return want ? "expected diagonalizable" : "expected non-diagonalizable"; return ""; }); } edges("f2_pm_mat_diagonalizable", {hexs(k.m)}, {file("1\n")}); }); }
MC_PROP(X04) {
  bool t = mc::thorough; toplevel(); integers(); residues(); bitverbs(); conversions(); diagonal();
  { TF2p k; RingP R(new ref::Zn(2)); polyverbs({"f2_p", {}, R, [k](const Poly &p) { return k.out({p, {}}); }, [k](const string &s) { return k.in(s); }, [](ll c) { return std::to_string(c); }}, t ? 256 : 64, t ? 40 : 16, t ? 7 : 5); }
  for (int p : {2, 3, 5, 13}) { TFp k(p); TMod e(p); RingP R(new ref::Zn(p)); polyverbs({"fp_p", {std::to_string(p)}, R, [k](const Poly &x) { return k.out({x, {}}); }, [k](const string &s) { return k.in(s); }, [](ll c) { return std::to_string(c); }}, p == 13 ? (t ? 400 : 60) : p == 5 ? (t ? 625 : 125) : t ? 243 : 64, t ? 25 : 12, p == 13 ? 1 : p == 5 ? 2 : 3); }
  for (ll m : {7ll, 0xbll}) { TF2n k((uint64_t)m); RingP R = k.f.R; TF2pm e(ref::pdigits(m, 2)); polyverbs({"f2n_p", {hexs(ref::pdigits(m, 2))}, R, [k](const Poly &x) { return k.out({x, {}}); }, [k](const string &s) { return k.in(s); }, [e](ll c) { return e.out({ref::pdigits(c, 2), {}}); }}, m == 7 ? (t ? 256 : 64) : (t ? 512 : 70), t ? 25 : 12, m == 7 ? 3 : 2); }
  { TFpn k(3, {1, 0, 1}); RingP R = k.f.R; polyverbs({"fpn_p", {"3", "101"}, R, [k](const Poly &x) { return k.out({x, {}}); }, [k](const string &s) { return k.in(s); }, nullptr}, t ? 729 : 90, t ? 40 : 16, 1); }
  auto isf = [](const Ring &R) { for (ll i = 1; i < R.q; i++) if (R.inv(i) < 0) return false; return true; };
  vector<string> ms; vector<std::set<string>> gs; auto addg = [&](const RF &f, const string &m) { const Ring &R = *f.Q; std::set<string> g; ll u = 0; for (ll i = 0; i < R.q; i++) if (R.inv(i) >= 0) u++; for (ll i = 0; i < R.q; i++) if (R.inv(i) >= 0 && ordof(R, i) == u) g.insert(f.out(i)); ms.push_back(m); gs.push_back(g); };
  for (int p = 2; p <= (t ? 40 : 17); p++) { TMod k(p); RingP R(new ref::Zn(p)); RF f{"fp", {std::to_string(p)}, R, nullptr, {}, [](ll i) { return std::to_string(i); }, [p](const string &s, ll &v) { return rint(s, v) && v >= 0 && v < p; }, nullptr, isf(*R), true, true, true}; residueverbs(f); addg(f, f.pre[0]); if (p == 2 || p == 3 || p == 5 || p == 7) { TFp kp(p); matverbs(f, [kp](const Poly &c) { return kp.out({c, {}}); }, "fp_mat_ord", "fp_mat_ch_pol", "", 100, p < 4 ? 81 : t ? 1000 : 120, t ? 600 : 60); } }
  findgen("fp_find_gen", {}, ms, gs); ms.clear(); gs.clear();
  for (ll m : {2ll, 3ll, 4ll, 6ll, 7ll, 8ll, 0xbll, 0xcll, 0x13ll, 0x1fll, 0x15ll, 0x18ll, 0x25ll}) { TF2pm k(ref::pdigits(m, 2)); RingP B(new ref::Zn(2)), R(new ref::Ext(B, k.m)); if (R->q > (t ? 32 : 16)) continue; RF f{"f2_pm", {hexs(k.m)}, R, B, k.m, [k](ll i) { return k.out({ref::pdigits(i, 2), {}}); }, [k](const string &s, ll &v) { Parse p = k.in(s); v = ref::pindex(p.m.a, 2); return p.v == OK; }, [](const Poly &p) { return hexs(p); }, isf(*R), true, true, true}; residueverbs(f); addg(f, f.pre[0]); if (m == 3 || m == 7 || m == 0xb) { TF2n kn((uint64_t)m); matverbs(f, [kn](const Poly &c) { return kn.out({c, {}}); }, "f2_pm_mat_ord", "f2_pm_mat_ch_pol", "f2_pm_mat_solve", 100, m == 7 ? 256 : t ? 1000 : 100, t ? 600 : 50); } }
  findgen("f2_pm_find_gen", {}, ms, gs); ms.clear(); gs.clear();
  { RingP R(new ref::Zn(2)); RF f{"f2", {}, R, nullptr, {}, [](ll i) { return std::to_string(i); }, nullptr, nullptr, true, false, false, false}; TF2p k; matverbs(f, [k](const Poly &c) { return k.out({c, {}}); }, "f2_mat_ord", "f2_mat_ch_pol", "", 2, 16, 512); }
  for (auto &w : vector<std::pair<int, Poly>>{{2, {1, 1, 1}}, {3, {1, 0, 1}}, {3, {0, 0, 1}}, {3, {1, 2, 0, 1}}, {5, {2, 0, 1}}, {13, {2, 1}}}) { TFpm k(w.first, w.second); int p = w.first; RingP B(new ref::Zn(p)), R(new ref::Ext(B, k.m)); if (R->q > (t ? 27 : 25)) continue; TFp kp(p); RF f{"fp_pm", {std::to_string(p), fps(k.m, p)}, R, B, k.m, [k, p](ll i) { return k.out({ref::pdigits(i, p), {}}); }, [k, p](const string &s, ll &v) { Parse x = k.in(s); v = ref::pindex(x.m.a, p); return x.v == OK; }, [kp](const Poly &x) { return kp.out({x, {}}); }, isf(*R), false, true, false}; residueverbs(f); if (isf(*R) && R->q < 10) matverbs(f, nullptr, "fp_pm_mat_ord", "", "", 100, t ? 1000 : 90, t ? 300 : 40); }
  for (auto &w : vector<std::pair<ll, Poly>>{{7, {2, 1, 1}}, {7, {0, 0, 1}}, {7, {2, 1}}, {3, {1, 1, 1}}, {7, {3, 1, 1}}, {0xb, {1, 1}}}) { TF2nm k((uint64_t)w.first, w.second); RingP B = k.k.f.R, R(new ref::Ext(B, k.m)); if (R->q > 16) continue; string im = hexs(ref::pdigits(w.first, 2)); RF f{"f2n_pm", {im, k.k.out({k.m, {}})}, R, B, k.m, [k, B](ll i) { return k.out({ref::pdigits(i, B->q), {}}); }, [k, B](const string &s, ll &v) { Parse x = k.in(s); v = ref::pindex(x.m.a, B->q); return x.v == OK; }, [k](const Poly &x) { return k.k.out({x, {}}); }, isf(*R), false, true, true}; residueverbs(f); if (w.first == 7) addg(f, f.pre[1]); }
  findgen("f2n_pm_find_gen", {"7"}, ms, gs);
}
