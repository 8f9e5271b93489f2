// Explicit-state model-checking harness for the spffl library.
//
// A suite enumerates a bounded space of states/histories completely.  The
// space is cut into *units* (named, deterministic, distributed round-robin over
// shards); each unit runs *transitions* (mc::run) of the real implementation,
// each compared against a reference model written in the harness.
//
// Nothing here samples: VERIF_SEED only rotates which cases are written out as
// samples in the evidence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <exception>

namespace mc {

extern bool thorough; // tier
extern bool asan;     // AddressSanitizer build (slower: suites may choose smaller bounds)

// Current transition, kept in a file-backed mapping so that the driver can
// name it whatever way the process ends.
struct Cur {
  char unit[512];
  char label[128];
  long long args[6];
  int nargs;
  long long unit_no;
  char text[768];
};
extern Cur *cur;

void count_states(uint64_t n = 1);
void count_trans(uint64_t n = 1);
void fail(const std::string &msg); // records a violation at the current transition
bool give_up();                    // too many violations recorded already

bool unit_begin(const std::string &name);
void unit_end();

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

template <class F> void unit(const std::string &name, F &&body) {
  if (!unit_begin(name)) return;
  try {
    body();
  } catch (const std::exception &e) {
    fail(std::string("unexpected exception leaves the unit: ") + e.what());
  } catch (...) {
    fail("unexpected exception leaves the unit");
  }
  unit_end();
}

inline void at(const char *label, std::initializer_list<long long> args) {
  std::strncpy(cur->label, label, sizeof(cur->label) - 1);
  int i = 0;
  for (long long a : args) { if (i < 6) cur->args[i++] = a; }
  cur->nargs = i;
  cur->text[0] = 0;
  count_trans(1);
}
inline void at(const char *label, const std::string &text) {
  std::strncpy(cur->label, label, sizeof(cur->label) - 1);
  cur->nargs = 0;
  std::strncpy(cur->text, text.c_str(), sizeof(cur->text) - 1);
  count_trans(1);
}

// One transition: sets the current case, runs it, and turns any escaping
// exception into a violation.
template <class A, class F> void run1(const char *label, const A &a, F &&body) {
  at(label, a);
  try {
    body();
  } catch (const std::exception &e) {
    fail(std::string("unexpected exception: ") + e.what());
  } catch (...) {
    fail("unexpected exception");
  }
}
template <class F> void run(const char *label, std::initializer_list<long long> a, F &&body) {
  run1(label, a, body);
}
template <class F> void run(const char *label, const std::string &a, F &&body) {
  run1(label, a, body);
}

// True when the call reports an error the library's way: by throwing.
template <class F> bool throws(F &&body) {
  try {
    body();
  } catch (...) {
    return true;
  }
  return false;
}

template <class T> std::string str(const T &x) {
  std::ostringstream o;
  o << x;
  return o.str();
}
template <class T> std::string str(const std::vector<T> &x) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < x.size(); i++) { o << (i ? " " : "") << x[i]; }
  o << "]";
  return o.str();
}

// Suites register themselves.
struct Reg { Reg(const char *prop, void (*fn)()); };

} // namespace mc

#define MC_CHECK(cond, msg) \
  do { if (!(cond)) { std::ostringstream mc_o_; mc_o_ << msg; mc::fail(mc_o_.str()); } } while (0)
#define MC_EQ(got, want) \
  do { auto &&g_ = (got); auto &&w_ = (want); if (!(g_ == w_)) { \
    mc::fail(std::string(#got) + " gives " + mc::str(g_) + ", expected " + mc::str(w_)); } } while (0)
#define MC_THROWS(expr) \
  do { if (!mc::throws([&] { (void)(expr); })) mc::fail(std::string(#expr) + " is not reported as an error"); } while (0)
#define MC_PROP(id) static void mc_suite_##id(); static mc::Reg mc_reg_##id(#id, mc_suite_##id); static void mc_suite_##id()
