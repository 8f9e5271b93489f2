// Calls spiff's main() with its standard output redirected to memory; a call of
// exit() inside it (linked with --wrap=exit) comes back here.
#include "cli.h"
#include <fcntl.h>
extern "C" { jmp_buf *spiff_exit_jmp = nullptr; int spiff_exit_code = 0; void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (spiff_exit_jmp) { spiff_exit_code = c; longjmp(*spiff_exit_jmp, 1); } __real_exit(c); } }
string spiff_exe = "/nonexistent/spiff";
static int mem = -1;
Out spiff(const std::vector<string> &args, const string &in) {
  if (mem < 0) { mem = memfd_create("spiff-out", 0); }
  Out o; o.rc = 0; std::vector<string> hold = args; hold.insert(hold.begin(), spiff_exe); static std::vector<char *> av; av.clear(); for (auto &s : hold) av.push_back(&s[0]); av.push_back(nullptr);
  std::ostringstream es; fflush(stdout); int save = dup(1); (void)!ftruncate(mem, 0); lseek(mem, 0, SEEK_SET); dup2(mem, 1); std::istringstream is(in); auto *ob = std::cerr.rdbuf(es.rdbuf()); auto *ib = std::cin.rdbuf(is.rdbuf()); std::cin.clear();
  jmp_buf j; volatile int rc = 0; volatile bool thrown = false; spiff_exit_jmp = &j;
  if (!setjmp(j)) { try { rc = spiff_main((int)hold.size(), av.data()); } catch (...) { thrown = true; } } else rc = spiff_exit_code;
  spiff_exit_jmp = nullptr; std::cout.flush(); fflush(stdout); dup2(save, 1); close(save); std::cerr.rdbuf(ob); std::cin.rdbuf(ib); std::cout.clear(); std::cerr.clear();
  off_t n = lseek(mem, 0, SEEK_END); o.out.resize((size_t)n); if (n) (void)!pread(mem, &o.out[0], (size_t)n, 0); o.rc = rc; o.err = es.str(); if (o.err.size() > 120) o.err.resize(120); for (auto &c : o.err) if (c == '\n') c = ' ';
  if (thrown) { o.rc = -1; mc::fail("an exception leaves main()"); } return o; }
