// Brace interpolation: the real cmd_interpolate() and the real spiff main() are
// given every argument list in a bounded space.  Sub-commands are run, as in
// production, by the shell: the program they start is this executable under the
// name "spiff", which interpolates its own braces and then acts as a small
// command whose output and status are known.
#include "cli.h"
#include "spffl/cli_parser/cmd_interp.h"
#include <csignal>
#include <sys/stat.h>
#include <unistd.h>
typedef std::vector<string> W;
static string show(const W &w) { string s; for (auto &x : w) { string q; for (char c : x.size() > 60 ? x.substr(0, 20) + mc::fmt("..(%zu bytes)", x.size()) : x) q += c == '\n' ? string("\\n") : c == '\t' ? string("\\t") : string(1, c); s += (s.empty() ? "<" : " <") + q + ">"; } return s; }
// ---- The commands: what each prints, and its exit status.
static int command(const W &w, string &out) { out = ""; if (w.empty()) return 1; const string &v = w[0]; W a(w.begin() + 1, w.end());
  if (v == "p") { for (auto &x : a) out += (out.empty() ? "" : " ") + x; out += "\n"; return 0; }
  if (v == "v") { for (auto &x : a) out += x + "\n"; return 0; }                                   // one line each
  if (v == "b") { out = "\n"; for (auto &x : a) out += " \t" + x + " \t \n\n"; return 0; }         // blank lines, leading and trailing blanks
  if (v == "u") { for (size_t i = 0; i < a.size(); i++) out += (i ? "\n" : "") + a[i]; return 0; } // unterminated last line
  if (v == "n") return 0;                                                                          // silent
  if (v == "x") { for (auto &x : a) out += x + "\n"; return 3; }                                   // fails after printing
  if (v == "k") { for (auto &x : a) out += x + "\n"; return -9; }                                  // killed by a signal
  if (v == "l") { for (auto &x : a) out += string((size_t)atoi(x.c_str()), 'w') + " "; out += "e\n"; return 0; } // long words
  if (v == "r") { for (auto &x : a) for (char c : x) out += (c == 'N' ? string("\n") : c == 'T' ? string("\t") : c == 'B' ? string(" ") : string(1, c)); return 0; } // any mixture of blanks
  return 1; }
static bool known(const string &v) { return v.size() == 1 && strchr("pvbunxklr", v[0]); }
int mc_alt_main(int argc, char **argv) { if (getenv("MC_REAL")) return spiff_main(argc, argv); char *exe = argv[0]; argc--; argv++; try { spffl::cli_parser::cmd_interpolate(exe, argc, argv); } catch (spffl::exception_t &e) { return 1; }
  W w(argv, argv + argc); string out; int rc = command(w, out); size_t n = fwrite(out.data(), 1, out.size(), stdout); fflush(stdout); if (rc == -9) raise(SIGKILL); return n == out.size() ? rc : 9; }
// ---- Reference: words after expansion, or failure.
struct Failed {};
static W split(const string &s) { W w; string x; for (char c : s + " ") if (c == ' ' || c == '\t' || c == '\n') { if (!x.empty()) w.push_back(x); x = ""; } else x += c; return w; }
static W expand(const W &in, size_t &i, bool inner) { W o; while (i < in.size()) { if (in[i] == "{") { i++; W c = expand(in, i, true); string out; if (command(c, out)) throw Failed(); for (auto &x : split(out)) o.push_back(x); } else if (in[i] == "}") { if (!inner) throw Failed(); i++; return o; } else o.push_back(in[i++]); } if (inner) throw Failed(); return o; }
static string self; 
static void setup() { if (!self.empty()) return; char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n <= 0) abort(); b[n] = 0; char d[4096]; if (!getcwd(d, sizeof d)) abort(); self = string(d) + "/spiff"; unlink(self.c_str()); if (symlink(b, self.c_str())) abort(); unsetenv("MC_REAL"); }
static void judge(const W &in, const string &exe = "") { setup(); mc::run("arguments", show(in), [&] { mc::count_states(); W want; bool fails = false; try { size_t i = 0; want = expand(in, i, false); } catch (Failed) { fails = true; }
  W hold = in; std::vector<char *> av; for (auto &x : hold) av.push_back(&x[0]); av.push_back(nullptr); int argc = (int)hold.size(); char **argv = av.data(); string e = exe.empty() ? self : exe; bool threw = false; try { spffl::cli_parser::cmd_interpolate(&e[0], argc, argv); } catch (spffl::exception_t &) { threw = true; }
  if (threw != fails) { mc::fail(threw ? "refused" : "not refused, gives " + show(W(argv, argv + argc))); return; } if (threw) return; W got(argv, argv + argc); if (got != want) mc::fail("gives " + show(got) + ", expected " + show(want)); if (hold != in && false) mc::fail("changes its arguments"); }); }
static void all(const W &al, int n, const char *name) { ll b = (ll)al.size(), c = ref::ipow(b, n), chunk = std::max(1ll, c / 24); for (ll lo = 0; lo < c; lo += chunk) mc::unit(mc::fmt("%s, length %d from %lld", name, n, lo), [&] { for (ll i = lo; i < c && i < lo + chunk; i++) { W t; ll x = i; for (int j = 0; j < n; j++, x /= b) t.push_back(al[x % b]); judge(t); if (mc::give_up()) return; } }); }
static const W META = {"*", "?", "[a]", "(", ")", "<", ">", "|", "||", "&", "&&", ";", "$HOME", "$", "$(true)", "`true`", "\\", "\\n", "'", "\"", "'x'", "\"x y\"", "a b", " a", "a  b\tc", "a\nb", "", "#", "~", "!", "=", "a=b", "-x", "--", "{a}", "{}", "a{", "/", "%", "^", "[[1 0][0 1]]", "1:2", "\xff", "\x01"};
MC_PROP(X03) { bool T = mc::thorough && !mc::asan; int len = mc::asan ? 3 : T ? 7 : 6;
  for (int n = 0; n <= (mc::asan ? 4 : T ? 9 : 8); n++) all({"a", "{", "}"}, n, "brackets");
  for (int n = 1; n <= len - 1; n++) all({"p", "v", "{", "}", "n", "x"}, n, "words, brackets, silent and failing commands");
  // Every nesting shape: a sibling list of nested groups, each with words around.
  auto shapes = [&](int groups, auto &&self_, std::vector<string> &out) -> void { if (!groups) { out.push_back(""); return; } for (int in = 0; in < groups; in++) { std::vector<string> A, B; self_(in, self_, A); self_(groups - 1 - in, self_, B); for (auto &x : A) for (auto &y : B) out.push_back("{" + x + "}" + y); } };
  for (int g = 1; g <= (mc::asan ? 2 : T ? 5 : 4); g++) { std::vector<string> sh; shapes(g, shapes, sh); for (auto &s : sh) for (string verb : {"p", "v", "b", "u"}) for (int around = 0; around < 8; around++) mc::unit(s + " of " + verb + mc::fmt(", words %d", around), [&] { int bad = -1; for (bad = -1; bad < g; bad++) for (string bv : {"n", "x", "k", "nonesuch"}) { if (bad < 0 && bv != "n") continue; W t = {"first"}; int no = 0, k = 0; if (around & 1) t.push_back("before"); for (char c : s) { t.push_back(string(1, c)); if (c == '{') { t.push_back(k++ == bad ? bv : verb); if (around & 2) t.push_back(mc::fmt("i%d", no++)); } else if (around & 4) t.push_back(mc::fmt("o%d", no++)); } judge(t); } }); }
  for (auto &m : META) mc::unit("special words: " + show({m}), [&] { for (string v : {"p", "v", "u"}) { judge({v, m, "{", v, m, "}", m}); judge({v, "{", v, m, "{", v, m, "}", m, "}"}); judge({v, "{", "p", "{", "p", "{", v, m, "}", "}", "}"}); } for (auto &k : META) { if (mc::asan && k.size() > 1) continue; judge({"p", "{", "v", m, k, "}"}); if (T) { judge({"p", "{", "v", m, "{", "v", k, m, "}", k, "}"}); judge({m, "{", "u", "a", k, m, "a", "}", k}); } } });
  // Output of any length and layout.
  for (int base : {0, 2046, 4092, 8186, 12280, 65530}) mc::unit(mc::fmt("words of about %d bytes", base), [&] { for (int d = base ? 0 : 1; d < (mc::asan ? 3 : base ? 9 : 3); d++) for (W t : {W{"{", "l", std::to_string(base + d), "}"}, W{"p", "{", "l", "5", std::to_string(base + d), "7", "}", "z"}, W{"{", "p", "{", "l", std::to_string(base + d), "1", "}", "}"}, W{"{", "v", "{", "u", "{", "l", std::to_string(base + d), "}", "}", "}"}}) { if (base > 60000 && t.size() > 5) continue; judge(t); } });
  int rl = mc::asan ? 3 : T ? 6 : 5; for (int n = 0; n <= rl; n++) { ll c = ref::ipow(4, n), chunk = std::max(1ll, c / 16); for (ll lo = 0; lo < c; lo += chunk) mc::unit(mc::fmt("layouts of length %d from %lld", n, lo), [&] { for (ll i = lo; i < c && i < lo + chunk; i++) { string s; ll x = i; for (int j = 0; j < n; j++, x /= 4) s += "aNTB"[x % 4]; judge({"f", "{", "r", s, "}", "g"}); } }); }
  mc::unit("many words and groups", [&] { for (int n : {1, 10, 100, 1000}) { W t = {"p", "{", "v"}; for (int i = 0; i < n; i++) t.push_back(mc::fmt("w%d", i)); t.push_back("}"); judge(t); } for (int n = 1; n <= 12; n++) { W t; for (int i = 0; i < n; i++) { t.push_back("{"); t.push_back("p"); t.push_back(mc::fmt("d%d", i)); } for (int i = 0; i < n; i++) t.push_back("}"); judge(t); W u; for (int i = 0; i < n; i++) { u.push_back("{"); u.push_back("v"); u.push_back(mc::fmt("s%d", i)); u.push_back("t"); u.push_back("}"); } judge(u); } });
  mc::unit("a program that cannot be run", [&] { setup(); for (string exe : {"/nonexistent/spiff", "./no such file", ""}) for (W t : {W{"a"}, W{"{", "p", "a", "}"}, W{"p", "{", "v", "{", "p", "a", "}", "}"}}) mc::run("arguments", exe + " " + show(t), [&] { mc::count_states(); W hold = t; std::vector<char *> av; for (auto &x : hold) av.push_back(&x[0]); av.push_back(nullptr); int argc = (int)hold.size(); char **argv = av.data(); bool threw = false; try { string e = exe; spffl::cli_parser::cmd_interpolate(&e[0], argc, argv); } catch (spffl::exception_t &) { threw = true; } if (threw != (t.size() > 1)) mc::fail(threw ? "refused" : "accepted"); }); });
  // A program whose path needs quoting.
  for (string name : {"spiff two", "spiff'q", "spiff*", "spiff$x", "spiff(1)"}) mc::unit("program named " + name, [&] { setup(); string link = self.substr(0, self.rfind('/') + 1) + name; unlink(link.c_str()); if (symlink(self.c_str(), link.c_str())) abort(); for (W t : {W{"p", "{", "v", "a", "b", "}"}, W{"p", "{", "v", "{", "p", "a", "}", "}"}}) judge(t, link); });
  // The whole tool: arithmetic with parts of the expression computed by sub-commands.
  auto real = [&](const W &in, const char *want) { setup(); mc::run("spiff", show(in), [&] { mc::count_states(); spiff_exe = self; setenv("MC_REAL", "1", 1); Out o = spiff(in); unsetenv("MC_REAL"); if (!want) { if (!o.rc || !o.out.empty()) mc::fail(mc::fmt("status %d, prints \"%s\", should be refused", o.rc, o.out.c_str())); } else if (o.rc || o.out != want) mc::fail(mc::fmt("status %d, prints \"%s\", expected \"%s\"", o.rc, o.out.c_str(), want)); }); };
  const W ops = {"+", "-", "*"}; auto val = [](ll a, const string &o, ll b) { return o == "+" ? a + b : o == "-" ? a - b : a * b; };
  for (auto &o1 : ops) for (auto &o2 : ops) mc::unit("spiff z_op with " + o1 + " " + o2, [&] { ll as = mc::asan ? 1 : 3; for (ll a = 0; a <= as; a++) for (ll b = 1; b <= 2; b++) for (ll c = -1; c <= 1; c++) { string A = std::to_string(a), B = std::to_string(b), C = std::to_string(c);
    real({"z_op", "{", "z_op", A, o1, B, "}", o2, C}, (std::to_string(val(val(a, o1, b), o2, c)) + "\n").c_str()); real({"z_op", A, o1, "{", "z_op", B, o2, C, "}"}, (std::to_string(val(a, o1, val(b, o2, c))) + "\n").c_str());
    real({"z_op", "(", A, o1, "{", "z_op", "(", B, o2, C, ")", "}", ")"}, (std::to_string(val(a, o1, val(b, o2, c))) + "\n").c_str()); real({"{", "p_nonesuch", "}", A, o1, B}, nullptr); real({"z_op", A, o1, "{", "z_op", B, "/", "0", "}"}, nullptr); real({"z_op", A, o1, "{", "z_op", B, o2, "}"}, nullptr); real({"z_op", A, o1, "{", "z_op", "{", "z_op", B, "%", "0", "}", o2, C, "}"}, nullptr); } });
  mc::unit("spiff mapped over sub-command output", [&] { for (int n = 1; n <= (mc::asan ? 3 : 12); n++) { string want, t; for (int i = 0; i < n; i++) { bool pr = i > 1; for (int d = 2; d * d <= i; d++) pr = pr && i % d; want += mc::fmt("%s%d: %s\n", "", i, pr ? "prime" : "composite"); } if (n > 1) { setup(); W in = {"z_test_prime", "{", "z_list", "0", std::to_string(n), "}"}; mc::run("spiff", show(in), [&] { spiff_exe = self; setenv("MC_REAL", "1", 1); Out a = spiff(in); unsetenv("MC_REAL"); W flat = {"z_test_prime"}; for (int i = 0; i < n; i++) flat.push_back(std::to_string(i)); Out b = spiff(flat); if (a.rc || b.rc || a.out != b.out || a.out.empty()) mc::fail("prints " + a.out + ", expected " + b.out); }); } } });
}
