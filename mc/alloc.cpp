// Checking allocator for the fast build: canaries around every block, freed
// blocks poisoned and kept in a short quarantine.  Any overwrite, double free or
// write after free ends the process with a message the driver reports.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unistd.h>

namespace {
struct Head { uint64_t magic, size; };
const uint64_t LIVE = 0xA11C0DEDB10C4B1DULL, DEAD = 0xDEADB10CDEADB10CULL;
const size_t TAIL = 32;
const size_t QN = 512;
Head *quar[QN];
size_t qpos;

[[noreturn]] void die(const char *m) {
  fprintf(stderr, "ERROR: AddressSanitizer: %s on address\n", m);
  fflush(stderr);
  _exit(98);
}
void *get(size_t n) {
  Head *h = (Head *)malloc(sizeof(Head) + n + TAIL);
  if (!h) throw std::bad_alloc();
  h->magic = LIVE; h->size = n;
  unsigned char *p = (unsigned char *)(h + 1);
  memset(p, 0xBD, n < 4096 ? n : 4096);
  memset(p + n, 0xA5, TAIL);
  return p;
}
void put(void *v) {
  if (!v) return;
  unsigned char *p = (unsigned char *)v;
  Head *h = (Head *)p - 1;
  if (h->magic == DEAD) die("attempting double-free (checking allocator)");
  if (h->magic != LIVE) die("heap-buffer-overflow or bad free (checking allocator: front canary)");
  for (size_t i = 0; i < TAIL; i++) if (p[h->size + i] != 0xA5) die("heap-buffer-overflow (checking allocator: rear canary)");
  h->magic = DEAD;
  size_t n = h->size < 4096 ? h->size : 4096;
  memset(p, 0xDD, n);
  Head *o = quar[qpos];
  quar[qpos] = h;
  qpos = (qpos + 1) % QN;
  if (o) {
    unsigned char *q = (unsigned char *)(o + 1);
    size_t m = o->size < 4096 ? o->size : 4096;
    if (o->magic != DEAD) die("heap-use-after-free write (checking allocator)");
    for (size_t i = 0; i < m; i++) if (q[i] != 0xDD) die("heap-use-after-free write (checking allocator)");
    free(o);
  }
}
} // namespace
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
