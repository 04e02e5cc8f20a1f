/* Shared by all harnesses: deterministic random sources, case protocol, JSON output. */
#ifndef HCOMMON_H
#define HCOMMON_H
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <sodium.h>

/* ---- harness random numbers (choices of the case, never used by the library) ---- */
static __thread uint64_t hr_s[4];
static inline uint64_t hr_rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t hr64(void) {
  const uint64_t r = hr_rotl(hr_s[1] * 5ULL, 7) * 9ULL, t = hr_s[1] << 17;
  hr_s[2] ^= hr_s[0]; hr_s[3] ^= hr_s[1]; hr_s[1] ^= hr_s[2]; hr_s[0] ^= hr_s[3];
  hr_s[2] ^= t; hr_s[3] = hr_rotl(hr_s[3], 45);
  return r;
}
/* uniform in [0,n) */
static uint64_t hrn(uint64_t n) { return n ? hr64() % n : 0; }
static void hrbuf(uint8_t *p, size_t n) { for(size_t i = 0; i < n; i++) p[i] = (uint8_t) (hr64() >> 24); }
static void hrscalar(uint8_t s[32]) {
  uint8_t w[64];
  do { hrbuf(w, sizeof w); crypto_core_ristretto255_scalar_reduce(s, w); } while(sodium_is_zero(s, 32));
}
static void hrpoint(uint8_t p[32]) { uint8_t w[64]; hrbuf(w, sizeof w); crypto_core_ristretto255_from_hash(p, w); }

/* ---- random source handed to libsodium ---- */
static __thread uint8_t lr_key[32];
static __thread uint64_t lr_ctr;
static __thread uint64_t lr_bytes;      /* bytes delivered so far */
static void (*lr_observer)(const uint8_t *p, size_t n);
static const char *lr_name(void) { return "verif"; }
static void lr_buf(void *const buf, const size_t n) {
  uint8_t nonce[8];
  memcpy(nonce, &lr_ctr, 8);
  lr_ctr++;
  if(n) crypto_stream_chacha20((unsigned char*) buf, n, nonce, lr_key);
  lr_bytes += n;
  if(lr_observer) lr_observer(buf, n);
}
static uint32_t lr_u32(void) { uint32_t v; lr_buf(&v, 4); return v; }
static void lr_stir(void) {}
static int lr_close(void) { return 0; }
static struct randombytes_implementation lr_impl = { lr_name, lr_u32, lr_stir, NULL, lr_buf, lr_close };

static void h_seed(const char *mode, uint64_t seed, uint64_t no) {
  uint8_t h[64];
  crypto_generichash_state st;
  crypto_generichash_init(&st, NULL, 0, 64);
  crypto_generichash_update(&st, (const uint8_t*) mode, strlen(mode));
  crypto_generichash_update(&st, (uint8_t*) &seed, 8);
  crypto_generichash_update(&st, (uint8_t*) &no, 8);
  crypto_generichash_final(&st, h, 64);
  memcpy(hr_s, h, 32);
  memcpy(lr_key, h + 32, 32);
  lr_ctr = 0;
}
static void h_init(void) {
  if(randombytes_set_implementation(&lr_impl) != 0 || sodium_init() < 0) { fprintf(stderr, "sodium init failed\n"); exit(3); }
}

/* ---- JSON record output: jo(); jkv..(); jc(); ---- */
static int j_first;
static void jo(void) { printf("R {"); j_first = 1; }
static void jk(const char *k) { if(!j_first) printf(","); j_first = 0; printf("\"%s\":", k); }
static void ji(const char *k, long long v) { jk(k); printf("%lld", v); }
static void js(const char *k, const char *v) {
  jk(k); putchar('"');
  for(; *v; v++) { if(*v == '"' || *v == '\\') putchar('\\'); if((unsigned char) *v >= 32 && (unsigned char) *v < 127) putchar(*v); else putchar('?'); }
  putchar('"');
}
static void j_hex(const uint8_t *p, size_t n) {
  static const char hx[] = "0123456789abcdef";
  putchar('"');
  for(size_t i = 0; i < n; i++) { putchar(hx[p[i] >> 4]); putchar(hx[p[i] & 15]); }
  putchar('"');
}
static void jh(const char *k, const uint8_t *p, size_t n) { jk(k); j_hex(p, n); }
/* list of m hex strings of n bytes each */
static void jhl(const char *k, const uint8_t *p, size_t m, size_t n) {
  jk(k); putchar('[');
  for(size_t i = 0; i < m; i++) { if(i) putchar(','); j_hex(p + i * n, n); }
  putchar(']');
}
static void jil(const char *k, const uint8_t *p, size_t m) {
  jk(k); putchar('[');
  for(size_t i = 0; i < m; i++) printf("%s%d", i ? "," : "", p[i]);
  putchar(']');
}
static void jc(void) { printf("}\n"); }

static void h_die(const char *msg) { fflush(stdout); fprintf(stderr, "harness: %s\n", msg); exit(3); }

/* exact-size heap block; size 0 still gives a valid pointer with no readable byte */
static void *xalloc(size_t n) {
  void *p = malloc(n ? n : 1);
  if(!p) h_die("out of memory");
  return p;
}
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#include <sanitizer/lsan_interface.h>
#define HAVE_ASAN 1
#endif
#endif
static uint8_t *xbuf(size_t n) {
  uint8_t *p = xalloc(n);
#ifdef HAVE_ASAN
  if(n == 0) ASAN_POISON_MEMORY_REGION(p, 1);
#endif
  return p;
}
static void xfree(void *p) {
#ifdef HAVE_ASAN
  ASAN_UNPOISON_MEMORY_REGION(p, 1);
#endif
  free(p);
}
static void shuffle(uint8_t *a, size_t n) {
  for(size_t i = n; i > 1; i--) { size_t j = hrn(i); uint8_t t = a[i-1]; a[i-1] = a[j]; a[j] = t; }
}

typedef void (*case_fn)(uint64_t no);
typedef struct { const char *name; case_fn fn; } mode_t_;

static uint64_t h_seedval;
static int h_argc; static char **h_argv;   /* extra arguments after the count */

/* a case may use this much processor time before it counts as hanging */
static void h_cpu(int sig) { (void) sig; static const char m[] = "harness: case used up its processor time\n"; if(write(2, m, sizeof m - 1)) {} _exit(44); }
static void h_arm(void) {
  const char *e = getenv("H_CPU");
  struct itimerval it = {{0, 0}, {e ? atoi(e) : 40, 0}};
  setitimer(ITIMER_PROF, &it, NULL);
}

static int h_main(int argc, char **argv, const mode_t_ *modes) {
  signal(SIGPROF, h_cpu);
  if(argc < 5) { fprintf(stderr, "usage: %s mode seed first count [args]\n", argv[0]); return 3; }
  h_init();
  h_seedval = strtoull(argv[2], NULL, 10);
  uint64_t first = strtoull(argv[3], NULL, 10), count = strtoull(argv[4], NULL, 10);
  h_argc = argc - 5; h_argv = argv + 5;
  for(const mode_t_ *m = modes; m->name; m++) {
    if(strcmp(m->name, argv[1])) continue;
    for(uint64_t i = first; i < first + count; i++) {
      h_seed(m->name, h_seedval, i);
      printf("B %llu\n", (unsigned long long) i);
      fflush(stdout);
      h_arm();
      m->fn(i);
      printf("E %llu\n", (unsigned long long) i);
    }
    fflush(stdout);
    return 0;
  }
  fprintf(stderr, "unknown mode %s\n", argv[1]);
  return 3;
}
#endif
