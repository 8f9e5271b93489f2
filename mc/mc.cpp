#include "mc.h"
#include <cstdarg>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>

namespace mc {
bool thorough = false;
bool asan = false;
Cur *cur = nullptr;
static int shard = 0, nshards = 1;
static long long skip = -1;
static std::string only;
static bool have_only = false;
static long long unit_counter = 0;
static uint64_t states = 0, trans = 0, units_run = 0;
static clock_t unit_t0;
static int fails_total = 0, fails_unit = 0;
static int outfd = -1;
static long unit_cpu = 60;
static std::vector<std::string> samples;
static int sample_phase = 0;
static std::map<std::string, void (*)()> &suites() {
  static std::map<std::string, void (*)()> m;
  return m;
}
Reg::Reg(const char *prop, void (*fn)()) { suites()[prop] = fn; }

void count_states(uint64_t n) { states += n; }
void count_trans(uint64_t n) { trans += n; }
bool give_up() { return fails_total >= 60; }

std::string fmt(const char *f, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o;
}
static std::string where() {
  std::string s = cur->label;
  for (int i = 0; i < cur->nargs; i++) s += fmt(" %lld", cur->args[i]);
  if (cur->text[0]) { s += " "; s += cur->text; }
  return s;
}
static void emit(const std::string &line) {
  std::string l = line + "\n";
  (void)!write(outfd, l.data(), l.size());
}
void fail(const std::string &msg0) {
  fails_total++;
  if (++fails_unit > 12) return;
  std::string msg = msg0.substr(0, 600);
  emit(fmt("{\"t\":\"fail\",\"no\":%lld,", cur->unit_no) + "\"unit\":\"" + jesc(cur->unit) +
      "\",\"at\":\"" + jesc(where()) + "\",\"msg\":\"" + jesc(msg) + "\"}");
}
static void arm(long secs) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = t.it_interval.tv_sec = secs;
  setitimer(ITIMER_PROF, &t, nullptr);
}
bool unit_begin(const std::string &name) {
  long long no = unit_counter++;
  if (have_only) {
    if (name != only) return false;
  } else {
    if (no % nshards != shard || no <= skip || give_up()) return false;
  }
  strncpy(cur->unit, name.c_str(), sizeof(cur->unit) - 1);
  cur->unit[sizeof(cur->unit) - 1] = 0;
  cur->unit_no = no;
  cur->label[0] = 0;
  cur->text[0] = 0;
  cur->nargs = 0;
  fails_unit = 0;
  units_run++;
  unit_t0 = clock();
  return true;
}
void unit_end() {
  if (getenv("MC_SLOW") && clock() - unit_t0 > CLOCKS_PER_SEC) fprintf(stderr, "%.1fs %s\n", double(clock() - unit_t0) / CLOCKS_PER_SEC, cur->unit);
  if (samples.size() < 3 || (units_run % 97 == (uint64_t)sample_phase % 97 && samples.size() < 6))
    samples.push_back(std::string(cur->unit) + " :: last transition: " + where());
}
// A transition that is still the current one after four quarters of the CPU
// limit does not terminate.
static void on_prof(int) {
  static uint64_t last = ~0ull;
  static int same = 0;
  if (trans != last || cur->unit_no < 0) { last = trans; same = 0; return; }
  if (++same < 4) return;
  static const char m[] = "{\"t\":\"hang\"}\n";
  (void)!write(outfd, m, sizeof m - 1);
  _exit(97);
}
} // namespace mc

using namespace mc;
// A suite may be started again as the program under test runs itself.
int mc_alt_main(int argc, char **argv) __attribute__((weak));
int main(int argc, char **argv) {
  const char *base = strrchr(argv[0], '/');
  if (mc_alt_main && !strncmp(base ? base + 1 : argv[0], "spiff", 5)) return mc_alt_main(argc, argv);
  std::string prop, out = "/dev/stdout", curf;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") prop = v;
    else if (k == "--tier") thorough = v == "thorough";
    else if (k == "--mode") asan = v == "asan";
    else if (k == "--shard") shard = atoi(v.c_str());
    else if (k == "--nshards") nshards = atoi(v.c_str());
    else if (k == "--out") out = v;
    else if (k == "--cur") curf = v;
    else if (k == "--skip") skip = atoll(v.c_str());
    else if (k == "--only") { only = v; have_only = true; }
    else if (k == "--unitcpu") unit_cpu = atol(v.c_str());
    else { fprintf(stderr, "bad option %s\n", k.c_str()); return 2; }
  }
  sample_phase = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 0;
  outfd = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (outfd < 0) { perror("out"); return 2; }
  if (curf.empty()) {
    cur = (Cur *)calloc(1, sizeof(Cur));
  } else {
    int fd = open(curf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Cur))) { perror("cur"); return 2; }
    cur = (Cur *)mmap(nullptr, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (cur == MAP_FAILED) { perror("mmap"); return 2; }
  }
  cur->unit_no = -1;
  signal(SIGPROF, on_prof);
  arm(unit_cpu / 4 > 0 ? unit_cpu / 4 : 1);
  auto it = suites().find(prop);
  if (it == suites().end()) { fprintf(stderr, "no suite %s\n", prop.c_str()); return 2; }
  try {
    it->second();
  } catch (const std::exception &e) {
    strcpy(cur->label, "(between units)");
    fail(std::string("exception outside units: ") + e.what());
  } catch (...) {
    strcpy(cur->label, "(between units)");
    fail("exception outside units");
  }
  struct rusage ru;
  getrusage(RUSAGE_SELF, &ru);
  std::string s = fmt("{\"t\":\"done\",\"units\":%llu,\"unit_space\":%lld,\"states\":%llu,\"trans\":%llu,\"cpu\":%ld,\"rss_mb\":%ld,\"gave_up\":%s,\"samples\":[",
      (unsigned long long)units_run, unit_counter, (unsigned long long)states,
      (unsigned long long)trans, (long)(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec), ru.ru_maxrss / 1024,
      give_up() ? "true" : "false");
  for (size_t i = 0; i < samples.size(); i++) s += (i ? ",\"" : "\"") + jesc(samples[i]) + "\"";
  emit(s + "]}");
  // Skip destructors of statics: the exploration is over.
  fflush(stdout);
  _exit(0);
}
