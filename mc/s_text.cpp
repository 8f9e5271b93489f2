// Text input and output: every small value of every scalar kind round-trips,
// every short string over a hostile alphabet is classified as a reference
// parser classifies it; vectors and matrices of every small shape round-trip.
#include "tkinds.h"

#ifdef MC_PROP_I01
template <class K> bool readable(const K &k, typename K::T &x, Model *m = nullptr) { // contents, and the printed form agrees with them
  Model g = k.rd(x); for (ll c : g.a) if (c < 0 && k.name.find("ration") == string::npos) { mc::fail("the object's contents are not normalised: " + sh(g)); return false; }
  std::ostringstream o; o << x; if (o.str() != k.out(g)) { mc::fail("prints as \"" + o.str() + "\", expected \"" + k.out(g) + "\""); return false; } if (m) *m = g; return true; }
template <class K> void classify(const K &k, const string &s) { // one string, into a fresh object, a used object, and through >>
  typedef typename K::T T; Parse p = k.in(s);
  for (int fresh = 0; fresh < 2; fresh++) { T a = k.any(), b = a; T f = T(); T *x = fresh ? &f : &a; bool ok;
    try { ok = k.from(*x, s); } catch (const spffl::exception_t &) { ok = false; }
    if (ok) { Model g; if (!readable(k, *x, &g)) return; if (p.v == BAD) mc::fail("malformed text was accepted as " + k.out(g)); else if (p.v != ANY && !k.same(g, p.m)) mc::fail("read as " + k.out(g) + ", expected " + k.out(p.m)); }
    else { if (p.v == OK) mc::fail("well-formed text was refused"); if (!fresh) { Model g; if (!readable(k, *x, &g)) return; if (g != k.rd(b)) mc::fail("refused text changed the target to " + k.out(g)); } *x = b; if (!(*x == b)) mc::fail("cannot assign to the target of refused text"); } }
  T a = k.any(); std::istringstream is(s); bool ok; try { is >> a; ok = !is.fail(); } catch (const spffl::exception_t &) { ok = false; }
  if (ok) { if (!readable(k, a)) return; Model g = k.rd(a); if (p.v == OK && !k.same(g, p.m)) mc::fail(">> reads " + k.out(g) + ", expected " + k.out(p.m)); string r; is.clear(); std::getline(is, r, '\0'); // what was consumed must be a well-formed element by itself
      string used = s.substr(0, s.size() - r.size()); Parse q = k.in(used); if (q.v == BAD) mc::fail(">> accepts \"" + used + "\" as " + k.out(g)); else if (q.v != ANY && !k.same(g, q.m)) mc::fail(">> reads \"" + used + "\" as " + k.out(g)); if (p.v == OK && !r.empty()) mc::fail(">> leaves \"" + r + "\" behind"); }
  else { if (p.v == OK && s.find('-') == string::npos) mc::fail(">> refuses well-formed text"); if (!readable(k, a)) return; T b = k.any(); a = b; if (!(a == b)) mc::fail("cannot assign to the target of refused text"); }
}
template <class K> struct HasIs { template <class X> static auto f(int) -> decltype(std::declval<std::istream &>() >> std::declval<X &>(), std::true_type()); template <class X> static std::false_type f(...); static const bool value = decltype(f<typename K::T>(0))::value; };
template <class K, bool B> struct Seq { static bool get(const K &, std::istream &is, typename K::T &x) { is >> x; return !is.fail(); } };
template <class K> struct Seq<K, false> { static bool get(const K &, std::istream &, typename K::T &) { return false; } };
template <class K> void kind(const K &k, int len) {
  typedef typename K::T T; auto vals = k.vals(); std::vector<Model> vv; bool as = mc::asan; for (size_t i = 0; i < vals.size(); i += as ? 1 + vals.size() / 150 : 1) vv.push_back(vals[i]);
  for (size_t lo = 0; lo < vv.size(); lo += 400) mc::unit("round trips of a " + k.name + mc::fmt(" from %zu", lo), [&] { for (size_t i = lo; i < vv.size() && i < lo + 400; i++) { const Model &m = vv[i]; mc::run("value", k.out(m), [&] { mc::count_states(); T x = k.mk(m); if (!k.same(k.rd(x), m)) { mc::fail("constructed as " + sh(k.rd(x))); return; }
    std::ostringstream o; o << std::dec << x; string s = o.str(); Model g; if (!readable(k, x, &g)) return; std::ostringstream o2; o2 << x << "|" << 10 << "|" << x; if (o2.str() != s + "|10|" + s) mc::fail("printing changes the stream: " + o2.str());
    for (int fresh = 0; fresh < 2; fresh++) { T y = fresh ? T() : k.any(); if (!k.from(y, s)) { mc::fail("its text \"" + s + "\" is refused"); return; } if (k.rd(y) != g || !(y == x)) mc::fail("its text \"" + s + "\" is read as " + k.out(k.rd(y))); }
    { T y = k.any(); std::istringstream is(s); is >> y; if (is.fail() || k.rd(y) != g) mc::fail("its text \"" + s + "\" is read from a stream as " + k.out(k.rd(y))); }
    // Three elements one after another, in both kinds of stream.
    for (const char *sep : {" ", "\n", "\t", " \n\t "}) { T n = k.any(); std::ostringstream t; t << x << sep << n << sep << x; std::istringstream is(t.str()); T a = k.any(), b = x, c = k.any(); is >> a; is >> b; is >> c; if (is.fail() || !(a == x) || !(b == n) || !(c == x)) mc::fail("a sequence separated by whitespace is not read back: \"" + t.str() + "\"");
      if (HasIs<K>::value) { std::stringstream ss(t.str()); T d = k.any(), e = x, f = k.any(); std::istream &r = ss; bool ok = Seq<K, HasIs<K>::value>::get(k, r, d) && Seq<K, HasIs<K>::value>::get(k, r, e) && Seq<K, HasIs<K>::value>::get(k, r, f); if (!ok || !(d == x) || !(e == n) || !(f == x)) mc::fail("a sequence is not read back from a stream: \"" + t.str() + "\""); } } }); if (mc::give_up()) return; } });
  for (int n = 0; n <= len; n++) { ll c = ref::ipow((ll)k.alpha.size(), n), chunk = c > 2000 ? (c + 31) / 32 : c; for (ll lo = 0; lo < c; lo += chunk) mc::unit("strings for a " + k.name + mc::fmt(", length %d from %lld", n, lo), [&] { for (ll i = lo; i < c && i < lo + chunk; i++) { string s; ll x = i; for (int j = 0; j < n; j++, x /= (ll)k.alpha.size()) s += k.alpha[x % k.alpha.size()]; mc::run("text", "\"" + s + "\"", [&] { mc::count_states(); classify(k, s); }); if (mc::give_up()) return; } }); }
  mc::unit("extreme text for a " + k.name, [&] { std::vector<string> v = {"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "18446744073709551616", "99999999999999999999999", "1/2147483647", "1/2147483648", "1,2147483648", "2147483647,1", "1:99999999999", "x", "1x", "0x1", "1.5", "1e3", "+1", "\x7f", "\xff", "1\xff", string(300, '1'), string(300, ','), string(300, ':'), string(300, '/'), "1" + string(300, ' '), string(3000, '0') + "1", "1,,1", "1::1", "1//1", "1:1,1", "[1]", "#", "1#"};
    for (auto &s : v) { if (s.find('+') != string::npos) { mc::run("text", s, [&] { mc::count_states(); typename K::T a = k.any(); try { k.from(a, s); } catch (const spffl::exception_t &) {} readable(k, a); }); continue; } mc::run("text", s, [&] { mc::count_states(); classify(k, s); }); } });
}
MC_PROP(I01) {
  bool t = mc::thorough, as = mc::asan; int L = as ? 3 : t ? 6 : 5;
  kind(TBit(), L); for (int p : {2, 3, 7, 11, 12, 97, 65537, 2147483647}) kind(TMod(p), p == 7 || p == 11 ? L : L - 1);
  kind(TRat(), L); kind(TF2p(), L); for (ll m : {2ll, 3ll, 7ll, 11ll, 19ll, 0x11bll, 0x100ll, 1ll << 33 | 9}) kind(TF2pm(ref::pdigits(m, 2)), L - 1);
  for (int p : {2, 3, 7, 11, 13, 101}) kind(TFp(p), p == 3 || p == 11 ? L : L - 1);
  kind(TFpm(2, {1, 1, 1}), L - 1); kind(TFpm(3, {1, 2, 0, 1}), L); kind(TFpm(5, {2, 1}), L - 1); kind(TFpm(7, {3, 0, 1}), L - 1); kind(TFpm(11, {1, 0, 1}), L); kind(TFpm(13, {2, 0, 0, 1}), L - 1);
  kind(TF2n(2), L - 1); kind(TF2n(7), L); kind(TF2n(19), L - 1); kind(TF2n(0x11b), L - 1); kind(TF2nm(7, {2, 1, 1}), L); kind(TF2nm(11, {1, 1, 0, 1}), L - 1);
  kind(TFpn(3, {1, 0, 1}), L); kind(TFpn(5, {2, 1}), L - 1); kind(TFpn(11, {1, 0, 1}), L); kind(TFpnm(3, {1, 0, 1}, {3, 1, 1}), L - 1); kind(TFpnm(11, {1, 0, 1}, {1, 11, 1}), L - 1);
  kind(TQp(), L); kind(TF2r(), L); kind(TFpr(3), L); kind(TFpr(11), L - 1); kind(TF2nr(7), L); kind(TF2nr(11), L - 1);
}
#endif

#ifdef MC_PROP_I02
typedef std::vector<Model> VM; typedef std::vector<VM> MM;
// Containers of elements of kind K: the templates, and the packed bit versions.
template <class K> struct Tmpl { K k; typedef tvector<typename K::T> Vt; typedef tmatrix<typename K::T> Mt; string name; Tmpl(const K &k_) : k(k_), name("of " + k_.name) {}
  Vt mkv(const VM &v) const { Vt x((int)v.size()); for (size_t i = 0; i < v.size(); i++) x[(int)i] = k.mk(v[i]); return x; } VM rdv(const Vt &x) const { VM v; for (int i = 0; i < x.get_num_elements(); i++) v.push_back(k.rd(x[i])); return v; }
  Mt mkm(const MM &m) const { Mt x((int)m.size(), (int)m[0].size()); for (size_t i = 0; i < m.size(); i++) x[(int)i] = mkv(m[i]); return x; } MM rdm(Mt &x) const { MM m; for (int i = 0; i < x.get_num_rows(); i++) m.push_back(rdv(x[i])); return m; }
  bool vb(Vt &x, string s) const { return x.bracket_in(&s[0]); } bool mb(Mt &x, string s) const { return x.bracket_in(&s[0]); }
  bool vload(Vt &x, string f) const { return x.load_from_file(&f[0]); } bool vloadz(Vt &x, string f) const { return x.load_from_file(&f[0], k.any()); } bool mload(Mt &x, string f) const { return x.load_from_file(&f[0]); } bool mloadz(Mt &x, string f) const { return x.load_from_file(&f[0], k.any()); } bool mstore(const Mt &x, string f) const { return x.store_to_file(&f[0]); } static const bool tmpl = true; };
struct Packed { TBit k; typedef bit_vector_t Vt; typedef bit_matrix_t Mt; string name = "packed bits";
  Vt mkv(const VM &v) const { if (v.empty()) return Vt(); Vt x((int)v.size()); for (size_t i = 0; i < v.size(); i++) x.set((int)i, (int)v[i].a[0]); return x; } VM rdv(const Vt &x) const { VM v; for (int i = 0; i < x.get_num_elements(); i++) v.push_back({{x.get_int(i)}, {}}); return v; }
  Mt mkm(const MM &m) const { Mt x((int)m.size(), (int)m[0].size()); for (size_t i = 0; i < m.size(); i++) x[(int)i] = mkv(m[i]); return x; } MM rdm(Mt &x) const { MM m; for (int i = 0; i < x.get_num_rows(); i++) m.push_back(rdv(x[i])); return m; }
  bool vb(Vt &, string) const { return false; } bool mb(Mt &, string) const { return false; } bool vload(Vt &, string) const { return false; } bool vloadz(Vt &, string) const { return false; } bool mload(Mt &x, string f) const { return x.load_from_file(&f[0]); } bool mloadz(Mt &x, string f) const { x = Mt(); return x.load_from_file(&f[0]); } bool mstore(Mt &x, string f) const { std::ofstream o(f); o << x; return !o.fail(); } static const bool tmpl = false; };
template <class C> string outv(const C &c, const VM &v, const char *sep = " ") { string s; for (size_t i = 0; i < v.size(); i++) s += (i ? sep : "") + c.k.out(v[i]); return s; }
template <class C> string outm(const C &c, const MM &m) { string s; for (auto &r : m) s += outv(c, r) + "\n"; return s; }
template <class C> string outb(const C &c, const MM &m) { string s = "["; for (auto &r : m) s += "[" + outv(c, r) + "]"; return s + "]"; }
template <class C> string text(const C &c, const MM &m) { return "{" + outb(c, m) + "}"; }
// Reference readers.
template <class C> Verdict refrow(const C &c, const string &s, VM &v) { v.clear(); for (size_t i = 0; i + 1 < s.size(); i++) if (string(",:/").find(s[i]) != string::npos && isspace((unsigned char)s[i + 1])) return ANY; // an element may or may not extend over whitespace after a separator
  std::vector<string> t(1); for (char x : s) if (isspace((unsigned char)x)) t.push_back(""); else t.back() += x; Verdict r = OK; for (auto &w : t) if (!w.empty()) { Parse p = c.k.in(w); if (p.v == BAD) return BAD; if (p.v == ANY) r = ANY; v.push_back(p.m); } return v.empty() ? BAD : r; }
template <class C> Verdict refbr(const C &c, const string &s, VM &v) { size_t a = s.find_first_not_of(" \t\n"), b = s.find_last_not_of(" \t\n"); if (a == string::npos || a == b || s[a] != '[' || s[b] != ']') return BAD; return refrow(c, s.substr(a + 1, b - a - 1), v); }
template <class C> Verdict refmb(const C &c, const string &s, MM &m) { m.clear(); size_t a = s.find_first_not_of(" \t\n"), b = s.find_last_not_of(" \t\n"); if (a == string::npos || a == b || s[a] != '[' || s[b] != ']') return BAD; string in = s.substr(a + 1, b - a - 1); if (in.find('[') == string::npos) { VM v; Verdict r = refrow(c, in, v); if (r != OK) return r; for (auto &x : v) m.push_back({x}); return OK; }
  size_t i = 0; while (1) { while (i < in.size() && isspace((unsigned char)in[i])) i++; if (i == in.size()) break; if (in[i] != '[') return BAD; size_t j = in.find(']', i); if (j == string::npos) return BAD; VM v; Verdict r = refbr(c, in.substr(i, j - i + 1), v); if (r != OK) return r; m.push_back(v); i = j + 1; } for (auto &r : m) if (r.size() != m[0].size()) return BAD; return m.empty() ? BAD : OK; }
template <class C> struct Look { // Reads the next matrix from lines of text.
  std::vector<string> lines; size_t at = 0; const C &c; Look(const C &c_, const string &s) : c(c_) { lines = split(s, '\n'); if (lines.back().empty()) lines.pop_back(); }
  Verdict next(MM &m) { m.clear(); for (; at < lines.size(); at++) { string l = lines[at]; bool hash = l.find('#') != string::npos; l = l.substr(0, l.find('#')); if (l.find_first_not_of(" \t") == string::npos) { if (m.empty()) continue; if (hash) return ANY; at++; break; } VM v; Verdict r = refrow(c, l, v); if (r != OK) return r; m.push_back(v); } if (m.empty()) return BAD; for (auto &r : m) if (r.size() != m[0].size()) return BAD; return OK; } };
template <class C> void roundv(const C &c, const VM &v, const std::vector<VM> &priors) {
  auto x = c.mkv(v); string want = outv(c, v); std::ostringstream o; o << x; if (o.str() != want) { mc::fail("prints as \"" + o.str() + "\", expected \"" + want + "\""); return; }
  for (auto &p : priors) for (int how = 0; how < 7; how++) { if ((how == 2 || how == 4) && !c.tmpl) continue; auto y = c.mkv(p); bool ok = true; string w;
    switch (how) { case 0: { w = "string"; std::istringstream is(want); is >> y; ok = !is.fail(); break; } case 1: { w = "stream"; std::stringstream ss(want + "\n"); std::istream &is = ss; is >> y; ok = !is.fail(); break; } case 2: w = "brackets"; ok = c.vb(y, "[" + want + "]"); break; case 3: { w = "unterminated line"; std::stringstream ss(want); std::istream &is = ss; is >> y; ok = !is.fail(); break; }
      case 4: w = "spaced brackets"; ok = c.vb(y, " [ " + outv(c, v, "  ") + " ] "); break; case 5: { w = "trailing and inner whitespace"; std::istringstream is(" " + outv(c, v, " \t ") + " \t"); is >> y; ok = !is.fail(); break; } case 6: { w = "second line"; std::stringstream ss(outv(c, p.empty() ? v : p) + "\n" + want + "\n"); std::istream &is = ss; auto z = c.mkv(v); is >> z; is >> y; ok = !is.fail() && c.rdv(z) == (p.empty() ? v : p); break; } }
    if (!ok) { mc::fail("refused (" + w + ") into a vector of " + std::to_string(p.size())); return; } if (c.rdv(y) != v || !(y == x)) { mc::fail("read as " + outv(c, c.rdv(y)) + " (" + w + ") into a vector of " + std::to_string(p.size())); return; } std::ostringstream o2; o2 << y; if (o2.str() != want) mc::fail("does not print the same after being read"); }
  std::ostringstream s, r; x.sqzout(s); x.crout(r); string ws_, wr; for (auto &e : v) { ws_ += c.k.out(e); wr += c.k.out(e) + "\n"; } if (s.str() != ws_) mc::fail("squeezed output is \"" + s.str() + "\""); if (c.tmpl ? r.str() != wr : r.str() != wr && r.str() != wr.substr(0, wr.size() - 1)) mc::fail("column output is \"" + r.str() + "\"");
}
template <class C> void roundm(const C &c, const MM &m, const std::vector<MM> &priors) {
  auto x = c.mkm(m); string want = outm(c, m); std::ostringstream o; o << x; if (o.str() != want) { mc::fail("prints as \"" + o.str() + "\", expected \"" + want + "\""); return; }
  for (auto &p : priors) for (int how = 0; how < 6; how++) { if ((how == 1 || how == 2) && !c.tmpl) continue; auto y = c.mkm(p); bool ok = true; string w;
    switch (how) { case 0: { w = "stream"; std::stringstream is(want); is >> y; ok = !is.fail(); break; } case 1: w = "brackets"; ok = c.mb(y, outb(c, m)); break; case 2: { w = "spaced brackets"; string s = " [ "; for (auto &r : m) s += " [ " + outv(c, r, "  ") + " ] "; ok = c.mb(y, s + " ] "); break; } case 3: { w = "unterminated"; std::stringstream is(want.substr(0, want.size() - 1)); is >> y; ok = !is.fail(); break; }
      case 4: { w = "comments and indentation"; string s = "# c\n\n \t\n"; for (auto &r : m) s += " \t" + outv(c, r, "\t ") + " # 1 2\n"; std::stringstream is(s); is >> y; ok = !is.fail(); break; } case 5: { w = "second matrix"; std::stringstream is(outm(c, p) + "\n" + want + "\n\n" + outm(c, p)); auto a = c.mkm(m), b = c.mkm(m); is >> a; is >> y; is >> b; ok = !is.fail() && c.rdm(a) == p && c.rdm(b) == p; break; } }
    if (!ok) { mc::fail("refused (" + w + ") into " + outb(c, p)); return; } if (y.get_num_rows() != (int)m.size() || y.get_num_cols() != (int)m[0].size() || c.rdm(y) != m || !(y == x)) { mc::fail("read as " + outb(c, c.rdm(y)) + " (" + w + ") into " + outb(c, p)); return; } std::ostringstream o2; o2 << y; if (o2.str() != want) mc::fail("does not print the same after being read"); }
}
template <class C> void cont(const C &c, std::vector<Model> e, int maxv, int maxm, int big = 1 << 30) {
  int b = (int)e.size(); std::vector<VM> pv = {{e[0]}, {e[1], e[0], e[1]}, VM(70, e[1])}; if (!c.tmpl) pv.push_back({}); std::vector<MM> pm = {{{e[0]}}, {{e[1], e[0]}, {e[0], e[1]}, {e[1], e[1]}}, MM(12, VM(5, e[1]))};
  for (int n = 1; n <= maxv; n++) mc::unit("vectors " + c.name + mc::fmt(", length %d", n), [&] { for (ll i = 0; i < ref::ipow(b, n); i++) { VM v; ll x = i; for (int j = 0; j < n; j++, x /= b) v.push_back(e[x % b]); mc::run("vector", outv(c, v), [&] { mc::count_states(); roundv(c, v, pv); }); if (mc::give_up()) return; } });
  mc::unit("long vectors " + c.name, [&] { for (int n : {9, 10, 11, 19, 20, 21, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 577, 1023, 1024, 1025, 1030, 2050, 4097}) { if ((mc::asan && n > std::min(1100, big / 8)) || n > big) continue; mc::run("length", {n}, [&] { mc::count_states(); VM v; for (int i = 0; i < n; i++) v.push_back(e[(i * i + i / 3) % b]); roundv(c, v, pv); }); } });
  for (int r = 1; r <= 3; r++) for (int k = 1; k <= 3; k++) { if (r * k > maxm) continue; mc::unit("matrices " + c.name + mc::fmt(", %dx%d", r, k), [&] { for (ll i = 0; i < ref::ipow(b, r * k); i++) { MM m(r, VM(k)); ll x = i; for (auto &w : m) for (auto &q : w) { q = e[x % b]; x /= b; } mc::run("matrix", outb(c, m), [&] { mc::count_states(); roundm(c, m, pm); }); if (mc::give_up()) return; } }); }
  mc::unit("large matrices " + c.name, [&] { for (auto d : std::vector<std::pair<int, int>>{{1, 1100}, {9, 2}, {10, 2}, {11, 3}, {20, 1}, {21, 1}, {39, 2}, {40, 2}, {41, 2}, {80, 1}, {81, 3}, {2, 4200}, {130, 70}, {1, 33000}}) { if ((mc::asan && d.first * d.second > std::min(3000, big / 8)) || d.first * d.second > big) continue; mc::run("shape", {d.first, d.second}, [&] { mc::count_states(); MM m(d.first, VM(d.second)); int i = 0; for (auto &w : m) for (auto &q : w) { i++; q = e[(i * i + i / 7) % b]; } roundm(c, m, {pm[0]}); }); } });
  // Text files.
  mc::unit("files of matrices " + c.name, [&] { char d[] = "/tmp/mc-i02-XXXXXX"; if (!mkdtemp(d)) { mc::fail("no scratch directory"); return; } string f = string(d) + "/m";
    for (int r = 1; r <= 3; r++) for (int k = 1; k <= 3; k++) mc::run("shape", {r, k}, [&] { mc::count_states(); MM m(r, VM(k)); int i = 0; for (auto &w : m) for (auto &q : w) q = e[(i++) * 2 % b]; auto x = c.mkm(m); if (!c.mstore(x, f)) { mc::fail("cannot store"); return; } auto y = c.mkm(pm[1]); if (!c.mload(y, f) || c.rdm(y) != m) mc::fail("a stored matrix does not load"); auto z = c.mkm(pm[0]); if (!c.mloadz(z, f) || c.rdm(z) != m) mc::fail("a stored matrix does not load into a fresh object");
      if (c.tmpl) { std::ofstream o(f); o << outv(c, m[0]) << "\n"; o.close(); auto v = c.mkv(pv[1]), u = c.mkv(pv[0]); if (!c.vload(v, f) || c.rdv(v) != m[0] || !c.vloadz(u, f) || c.rdv(u) != m[0]) mc::fail("a stored vector does not load"); typename C::Vt e0; if (!c.vloadz(e0, f) || c.rdv(e0) != m[0]) mc::fail("a stored vector does not load into an empty object"); typename C::Mt g0; std::ofstream o2(f); o2 << outm(c, m); o2.close(); if (!c.mloadz(g0, f) || c.rdm(g0) != m) mc::fail("a stored matrix does not load into an empty object"); }
      std::stringstream in(outm(c, m)); std::streambuf *sv = std::cin.rdbuf(in.rdbuf()); std::cin.clear(); auto q = c.mkm(pm[1]); bool ok = c.mload(q, (r + k) % 2 ? "-" : "@"); std::cin.rdbuf(sv); std::cin.clear(); if (!ok || c.rdm(q) != m) mc::fail("a matrix does not load from standard input");
      if (c.tmpl) { std::ostringstream out; std::streambuf *so = std::cout.rdbuf(out.rdbuf()); bool st = c.mstore(x, "-"); std::cout.rdbuf(so); if (!st || out.str() != outm(c, m)) mc::fail("a matrix is not stored to standard output"); } });
    for (const char *bad : {"", "\n", "# only\n", "1 x\n", "0 1\n1\n", "0 1\n1 y\n"}) mc::run("malformed file", bad, [&] { mc::count_states(); std::ofstream o(f); o << bad; o.close(); auto y = c.mkm(pm[1]); if (c.mload(y, f)) mc::fail("loaded"); else if (c.rdm(y) != pm[1]) mc::fail("a failed load changed the target"); });
    mc::run("missing file", "", [&] { mc::count_states(); auto y = c.mkm(pm[1]); if (c.mload(y, f + ".none")) mc::fail("loaded"); if (c.rdm(y) != pm[1]) mc::fail("a failed load changed the target"); if (c.tmpl) { auto v = c.mkv(pv[1]); if (c.vload(v, f + ".none")) mc::fail("loaded a vector"); auto x = c.mkm(pm[1]); if (c.mstore(x, string(d) + "/none/m")) mc::fail("stored into a missing directory"); if (c.mstore(x, "/dev/full")) mc::fail("stored on a full device"); } });
    unlink(f.c_str()); rmdir(d); });
}
template <class C> void strings(const C &c, const char *what, const string &alpha, int len, const std::function<void(const string &)> &f) {
  for (int n = 0; n <= len; n++) { ll t = ref::ipow((ll)alpha.size(), n), chunk = t > 4000 ? (t + 63) / 64 : t; for (ll lo = 0; lo < t; lo += chunk) mc::unit(string(what) + " " + c.name + mc::fmt(", length %d from %lld", n, lo), [&] { for (ll i = lo; i < t && i < lo + chunk; i++) { string s, e; ll x = i; for (int j = 0; j < n; j++, x /= (ll)alpha.size()) s += alpha[x % alpha.size()]; for (char q : s) e += q == '\n' ? "\\n" : string(1, q); mc::run("text", "\"" + e + "\"", [&] { mc::count_states(); f(s); }); if (mc::give_up()) return; } }); }
}
template <class C> void hostile(const C &c, std::vector<Model> e, const string &el, int lv, int lb, int lm, int ls) {
  VM p = {e[1], e[0], e[1]}; MM pm = {{e[1], e[0]}, {e[0], e[1]}, {e[1], e[1]}};
  auto judge = [&](Verdict v, bool ok, const VM &got, const VM &want) { if (ok) { if (v == BAD) mc::fail("malformed text was accepted as [" + outv(c, got) + "]"); else if (v == OK && got != want) mc::fail("read as [" + outv(c, got) + "], expected [" + outv(c, want) + "]"); } else { if (v == OK) mc::fail("well-formed text was refused"); if (got != p) mc::fail("refused text changed the target to [" + outv(c, got) + "]"); } };
  auto judgem = [&](Verdict v, bool ok, const MM &got, const MM &want, const MM &before) { if (ok) { if (v == BAD) mc::fail("malformed text was accepted as " + outb(c, got)); else if (v == OK && got != want) mc::fail("read as " + outb(c, got) + ", expected " + outb(c, want)); } else { if (v == OK) mc::fail("well-formed text was refused"); if (got != before) mc::fail("refused text changed the target to " + outb(c, got)); } };
  strings(c, "text for a vector", el + " x", lv, [&](const string &s) { VM w; Verdict v = refrow(c, s, w); { auto y = c.mkv(p); std::istringstream is(s); is >> y; judge(v, !is.fail(), c.rdv(y), w); } { auto y = c.mkv(p); std::stringstream ss(s); std::istream &is = ss; is >> y; judge(v, !is.fail(), c.rdv(y), w); } });
  if (c.tmpl) strings(c, "bracketed text for a vector", el + " []", lb, [&](const string &s) { VM w; Verdict v = refbr(c, s, w); auto y = c.mkv(p); bool ok = c.vb(y, s); judge(v, ok, c.rdv(y), w); });
  if (c.tmpl) strings(c, "bracketed text for a matrix", el.substr(0, 2) + " []", lm, [&](const string &s) { MM w; Verdict v = refmb(c, s, w); auto y = c.mkm(pm); bool ok = c.mb(y, s); judgem(v, ok, c.rdm(y), w, pm); });
  strings(c, "lines for a matrix", el.substr(0, 2) + " \n#x", ls, [&](const string &s) { Look<C> l(c, s); std::stringstream is(s); auto y = c.mkm(pm); MM before = pm; for (int i = 0; i < 5; i++) { MM w; Verdict v = l.next(w); is >> y; bool ok = !is.fail(); MM g = c.rdm(y); judgem(v, ok, g, w, before); if (!ok || v != OK) break; before = g; } });
}
MC_PROP(I02) {
  bool t = mc::thorough, as = mc::asan; int a = as ? -2 : t ? 1 : 0;
  Model z{{0}, {}}, o{{1}, {}}, w{{2}, {}}, l{{4}, {}};
  Packed pk; cont(pk, {z, o}, as ? 6 : 12, as ? 4 : 9); hostile(pk, {z, o}, "01", 6 + a, 0, 0, 7 + a);
  Tmpl<TBit> tb((TBit())); cont(tb, {z, o}, as ? 5 : 8, as ? 4 : 6); hostile(tb, {z, o}, "01", 6 + a, 7 + a, 8 + a, 7 + a);
  Tmpl<TMod> tm(TMod(5)); cont(tm, {z, o, l}, as ? 3 : 5, as ? 2 : 6); hostile(tm, {z, o}, "0182", 5 + a, 6 + a, 8 + a, 6 + a);
  Tmpl<TMod> tl(TMod(2147483647)); cont(tl, {{{2147483646}, {}}, {{1}, {}}, {{1000000000}, {}}}, as ? 2 : 4, as ? 2 : 4);
  Tmpl<TRat> tr((TRat())); cont(tr, {{{0}, {1}}, {{-3}, {2}}, {{11}, {1}}, {{1}, {7}}}, as ? 2 : 4, as ? 2 : 4); hostile(tr, {{{0}, {1}}, {{1}, {1}}}, "01-/", 5 + a, 6 + a, 7 + a, 6 + a);
  Tmpl<TF2p> tp((TF2p())); cont(tp, {{{}, {}}, {{1}, {}}, {{1, 1, 0, 1, 0, 1}, {}}}, as ? 2 : 4, as ? 2 : 4); hostile(tp, {{{}, {}}, {{1}, {}}}, "0a1", 5 + a, 6 + a, 7 + a, 6 + a);
  Tmpl<TF2pm> tq(TF2pm({1, 1, 0, 0, 1})); cont(tq, {{{}, {}}, {{1}, {}}, {{0, 1, 0, 1}, {}}}, as ? 2 : 4, as ? 2 : 4); hostile(tq, {{{}, {}}, {{1}, {}}}, "0a1", 5 + a, 6 + a, 7 + a, 6 + a);
  Tmpl<TFp> tf(TFp(11)); cont(tf, {{{}, {}}, {{1, 10}, {}}, {{3}, {}}}, as ? 2 : 4, as ? 2 : 4); hostile(tf, {{{}, {}}, {{1}, {}}}, "01,", 5 + a, 6 + a, 7 + a, 6 + a);
  Tmpl<TFpm> tg(TFpm(3, {1, 2, 0, 1})); cont(tg, {{{}, {}}, {{1, 2}, {}}, {{0, 0, 1}, {}}}, as ? 2 : 4, as ? 2 : 4, 4200); hostile(tg, {{{}, {}}, {{1}, {}}}, "01,", 5 + a, 6 + a, 7 + a, 6 + a);
  Tmpl<TF2n> th(TF2n(7)); cont(th, {{{}, {}}, {{1, 3}, {}}, {{0, 0, 2}, {}}}, as ? 2 : 4, as ? 2 : 4, 1200); Tmpl<TF2nm> ti(TF2nm(7, {2, 1, 1})); cont(ti, {{{}, {}}, {{1, 3}, {}}, {{2}, {}}}, as ? 2 : 3, as ? 2 : 4, 1200); hostile(ti, {{{}, {}}, {{1}, {}}}, "01:", 5 + a, 6 + a, 6 + a, 5 + a);
  Tmpl<TFpn> tj(TFpn(3, {1, 0, 1})); cont(tj, {{{}, {}}, {{1, 5}, {}}, {{0, 0, 8}, {}}}, as ? 2 : 3, as ? 2 : 4, 1200); Tmpl<TFpnm> tk(TFpnm(11, {1, 0, 1}, {1, 11, 1})); cont(tk, {{{}, {}}, {{1, 5}, {}}, {{100}, {}}}, as ? 2 : 3, as ? 2 : 4, 1200); hostile(tk, {{{}, {}}, {{1}, {}}}, "01:", 5 + a, 6 + a, 6 + a, 5 + a);
}
#endif
