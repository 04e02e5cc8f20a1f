/* Work whose results must not depend on what memory held before.
   Mode work: argument 1 is the value that output buffers, states and the stack are filled with, or -1 for leaving
   them as they are (under valgrind: undefined). Emits a digest of each result. */
#include "work.h"
#include <alloca.h>
#include <valgrind/memcheck.h>

static int filler, vg;
static char undef_[300];
static int nres; static long nbytes;
static uint8_t dig[2][32];
static struct { const char *what; uint32_t d; } res[40000];
static void __attribute__((noinline)) paint(size_t n, int v) {
  volatile uint8_t *p = alloca(n);
  memset((void*) p, v, n);
  __asm__ volatile("" :: "r"(p) : "memory");
}
static void emit(const char *what, const void *p, size_t n) {
  if(vg && n) {
    uintptr_t bad = VALGRIND_CHECK_MEM_IS_DEFINED(p, n);
    if(bad) {
      if(!undef_[0]) snprintf(undef_, sizeof undef_, "%s: byte %zu of %zu is uninitialised", what, (size_t) (bad - (uintptr_t) p), n);
      VALGRIND_MAKE_MEM_DEFINED(p, n);
    }
  }
  uint8_t h[16];
  crypto_generichash(h, 16, p, n, NULL, 0);
  if(nres == 40000) h_die("too many results");
  res[nres].what = what; memcpy(&res[nres].d, h, 4); nres++;
  nbytes += (long) n;
  if(!vg) paint(60000, filler);
}
static void *ob(size_t n) {
  uint8_t *p = xbuf(n);
  if(filler >= 0) memset(p, filler, n);
  if(vg && n) VALGRIND_MAKE_MEM_UNDEFINED(p, n);
  else paint(60000, filler);
  return p;
}
static void m_work(uint64_t no) {
  filler = h_argc > 0 ? atoi(h_argv[0]) : 0;
  vg = RUNNING_ON_VALGRIND != 0;
  nres = 0; nbytes = 0; undef_[0] = 0;
  S.prefill = filler < 0 ? -2 : filler;
  int k = (int) (no % NKINDS);
  if(!vg) paint(400000, filler);
  long e0 = vg ? VALGRIND_COUNT_ERRORS : 0;
  kinds[k]();
  long e1 = vg ? VALGRIND_COUNT_ERRORS : 0;
  jo(); js("kind", kind_name[k]); ji("results", nres); ji("bytes", nbytes); ji("vg", vg); ji("errors", e1 - e0);
  if(undef_[0]) js("undef", undef_);
  jk("r"); printf("[");
  for(int i = 0; i < nres; i++) printf("%s[\"%s\",%u]", i ? "," : "", res[i].what, res[i].d);
  printf("]"); jc();
}
static const mode_t_ modes[] = { {"work", m_work}, {NULL, NULL} };
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
