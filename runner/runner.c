// Native replay of a harness entry: loads the shared object built from the same sources as the IR and runs one entry
// with concrete inputs. Every buffer obtained from the harness or from the Rust allocator ends at a guard page
// (mode "e") or starts right after one (mode "s").
//   runner <so> <entry> <cpu hex> <cache offset hex> <mode> <inputs file> <params...>
// inputs file: lines "pick tag v" / "sym tag v v v ...". Prints "OUT tag hex", "FAIL id a b tol", "PANIC ...", "DONE".
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdint.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

typedef struct { char kind; uint32_t tag; long n; int64_t *v; } Rec;
static Rec *recs; static long nrec, cur;
static int64_t params[256]; static int nparams;
static int mode_end = 1; static int panic_ok = 0; static int nfail = 0;

static void die(const char *m) { printf("MISMATCH %s\n", m); fflush(stdout); _exit(3); }
static Rec *next(char k, uint32_t tag, long n) {
  if (cur >= nrec) die("inputs exhausted");
  Rec *r = &recs[cur++];
  if (r->kind != k || r->tag != tag || (n >= 0 && r->n != n)) {
    char b[200]; snprintf(b, sizeof b, "record %ld: want %c tag %u n %ld, have %c tag %u n %ld", cur - 1, k, tag, n, r->kind, r->tag, r->n);
    die(b);
  }
  return r;
}
void *vp_guard(size_t n, size_t align) {
  size_t pg = 4096, body = (n + pg - 1) / pg * pg + pg;
  uint8_t *m = mmap(0, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) die("mmap");
  mprotect(m + pg, body, PROT_READ | PROT_WRITE);
  memset(m + pg, 0xA5, body);
  if (align == 0) align = 1;
  if (align > 4096) die("align");
  uintptr_t p;
  if (mode_end) { p = (uintptr_t)(m + pg + body - n); p -= p % align; if (align < 64 && n % align == 0 && p % (2 * align) == 0) { /* keep: exact end matters most */ } }
  else p = (uintptr_t)(m + pg);
  return (void *)p;
}
void *vp_alloc(size_t n, size_t align) { return vp_guard(n, align); }
void *vp_halloc(size_t n, size_t align) { return vp_guard(n, align); }
void vp_hfree(void *p, size_t n, size_t align) { (void)p; (void)n; (void)align; }
void vp_sym(uint8_t *p, size_t n, uint32_t tag) { Rec *r = next('s', tag, n); for (size_t i = 0; i < n; i++) p[i] = (uint8_t)r->v[i]; }
void vp_sym16(uint16_t *p, size_t n, uint32_t bits, uint32_t tag) { (void)bits; Rec *r = next('s', tag, n); for (size_t i = 0; i < n; i++) p[i] = (uint16_t)r->v[i]; }
uint32_t vp_u32(uint32_t lo, uint32_t hi, uint32_t tag) { (void)lo; (void)hi; return (uint32_t)next('s', tag, 1)->v[0]; }
uint64_t vp_u64(uint32_t tag) { return (uint64_t)next('s', tag, 1)->v[0]; }
int64_t vp_pick(int64_t lo, int64_t hi, uint32_t tag) { (void)lo; (void)hi; return next('p', tag, 1)->v[0]; }
void vp_assume(uint8_t c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(4); } }
void vp_assert(uint8_t c, uint32_t id) { if (!c) { printf("FAIL %u\n", id); nfail++; } }
void vp_near(int64_t a, int64_t b, int64_t tol, uint32_t id) {
  __int128 d = (__int128)a - b; if (d < 0) d = -d;
  if (d > tol) { printf("FAIL %u near %ld %ld tol %ld\n", id, (long)a, (long)b, (long)tol); nfail++; }
}
void vp_between(int64_t a, int64_t lo, int64_t hi, uint32_t id) {
  if (a < lo || a > hi) { printf("FAIL %u value %ld not in %ld..%ld\n", id, (long)a, (long)lo, (long)hi); nfail++; }
}
static volatile uint64_t *cache;
void vp_cpu(uint64_t m) { if (cache) cache[0] = m | (1ull << 63); }
void vp_same(const uint8_t *a, const uint8_t *b, size_t n, uint32_t id) {
  for (size_t i = 0; i < n; i++) if (a[i] != b[i]) { printf("FAIL %u byte %zu: %u %u\n", id, i, a[i], b[i]); nfail++; }
}
int64_t vp_param(uint32_t k) { return k < (uint32_t)nparams ? params[k] : 0; }
void vp_reach(uint32_t id) { printf("REACH %u\n", id); }
void vp_out(const uint8_t *p, size_t n, uint32_t tag) { printf("OUT %u ", tag); for (size_t i = 0; i < n; i++) printf("%02x", p[i]); printf("\n"); }
static double half(uint16_t h) { int e = h >> 10 & 31; int m = h & 1023; double v = e == 0 ? ldexp(m, -24) : e == 31 ? INFINITY : ldexp(1024 + m, e - 25); return h >> 15 ? -v : v; }
int64_t vp_f16int(uint16_t h, uint32_t max, uint32_t ppm, uint32_t id) {
  double x = half(h) * max;
  if (!(x >= -0.5 && x <= max * (1 + ppm / 1e6))) { printf("FAIL %u half float %04x outside 0..1\n", id, h); nfail++; return x < 0 ? -1 : (int64_t)max + 1; }
  int64_t n = (int64_t)(x + 0.5);
  return n > (int64_t)max ? (int64_t)max : n;
}
int64_t vp_f16lin(uint16_t h) { return h >= 0x7c00 ? -1 : (int64_t)ldexp(half(h), 24); }
void vp_panic_ok(uint32_t v) { panic_ok = v; }
void vp_log(int64_t v) { printf("LOG %ld\n", (long)v); }
static void onsig(int s) {
  const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGABRT ? "PANIC" : s == SIGILL ? "SIGILL" : "SIGNAL";
  if (s == SIGABRT && panic_ok) n = "PANIC-OK";
  fflush(stdout);
  write(1, "CRASH ", 6); write(1, n, strlen(n)); write(1, "\n", 1);
  _exit(5);
}
int main(int argc, char **argv) {
  if (argc < 7) return 2;
  mode_end = argv[5][0] == 'e';
  for (int i = 7; i < argc; i++) params[nparams++] = strtoll(argv[i], 0, 10);
  FILE *f = fopen(argv[6], "r"); if (!f) return 2;
  char *line = 0; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    recs = realloc(recs, (nrec + 1) * sizeof(Rec)); Rec *r = &recs[nrec++];
    r->kind = line[0]; char *p = line; while (*p && *p != ' ') p++;
    r->tag = strtoul(p, &p, 10); r->n = 0; r->v = malloc(8 * (strlen(line) / 2 + 2));
    for (;;) { char *e; int64_t v = strtoll(p, &e, 10); if (e == p) break; r->v[r->n++] = v; p = e; }
  }
  fclose(f);
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  void (*fn)(void) = (void (*)(void))dlsym(h, argv[2]);
  if (!fn) { fprintf(stderr, "no entry\n"); return 2; }
  uint64_t off = strtoull(argv[4], 0, 16), cpu = strtoull(argv[3], 0, 16);
  if (off) {
    Dl_info di; if (!dladdr((void *)fn, &di)) return 2;
    volatile uint64_t *c = (volatile uint64_t *)((uint8_t *)di.dli_fbase + off);
    cache = c; c[0] = cpu | (1ull << 63); c[1] = 1ull << 63; c[2] = 1ull << 63;
  }
  static uint8_t stk[65536];
  stack_t ss = {.ss_sp = stk, .ss_size = sizeof stk}; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
  int sg[] = {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE, SIGTRAP}; for (int i = 0; i < 6; i++) sigaction(sg[i], &sa, 0);
  setvbuf(stdout, 0, _IOFBF, 1 << 20);
  fn();
  printf("DONE %d\n", nfail); fflush(stdout);
  return 0;
}
