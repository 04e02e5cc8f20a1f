/* Threads that use the library at the same time on separate objects (built with ThreadSanitizer). */
#include "work.h"
#include <pthread.h>
#include <sched.h>

#define MAXT 8
typedef struct { uint64_t seed; int kind[6], nk, yields; crypto_generichash_state h; uint8_t res[32]; long emitted; } job_t;
static __thread job_t *cur;
static __thread uint64_t yr;
static void breathe(void) {
  if(!cur || !cur->yields) return;
  yr = yr * 6364136223846793005ULL + 1442695040888963407ULL;
  if((yr >> 33) % 4 == 0) sched_yield();
  else if((yr >> 33) % 64 == 1) usleep((yr >> 40) % 200);
}
void sodium_between(void) { breathe(); }
static void emit(const char *what, const void *p, size_t n) {
  uint64_t l = n;
  crypto_generichash_update(&cur->h, (const uint8_t*) what, strlen(what));
  crypto_generichash_update(&cur->h, (uint8_t*) &l, 8);
  crypto_generichash_update(&cur->h, p, n);
  cur->emitted++;
  breathe();
}
static void *ob(size_t n) { void *p = xbuf(n); memset(p, 0xdd, n); breathe(); return p; }
static void observer(const uint8_t *p, size_t n) { (void) p; (void) n; breathe(); }

static pthread_barrier_t bar;
static void work(job_t *j) {
  cur = j;
  uint64_t s = j->seed;
  for(int i = 0; i < 4; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; hr_s[i] = s; }
  memset(lr_key, 0, 32); memcpy(lr_key, &j->seed, 8); lr_ctr = 0;
  yr = j->seed;
  crypto_generichash_init(&j->h, NULL, 0, 32);
  j->emitted = 0;
  S.prefill = 0xdd;
  for(int i = 0; i < j->nk; i++) kinds[j->kind[i]]();
  crypto_generichash_final(&j->h, j->res, 32);
  cur = NULL;
}
static void *thread(void *a) { pthread_barrier_wait(&bar); work(a); return NULL; }

static void alone(job_t *j, int t, uint8_t out[][32]) {
  for(int i = 0; i < t; i++) { work(&j[i]); memcpy(out[i], j[i].res, 32); }
}
static void together(job_t *j, int t, uint8_t out[][32]) {
  pthread_t th[MAXT];
  pthread_attr_t at;
  pthread_attr_init(&at); pthread_attr_setstacksize(&at, 32 << 20);
  pthread_barrier_init(&bar, NULL, t);
  for(int i = 0; i < t; i++) if(pthread_create(&th[i], &at, thread, &j[i])) h_die("thread");
  for(int i = 0; i < t; i++) { pthread_join(th[i], NULL); memcpy(out[i], j[i].res, 32); }
  pthread_barrier_destroy(&bar);
}
static void m_threads(uint64_t no) {
  static job_t j[MAXT];
  static uint8_t a[MAXT][32], b[MAXT][32];
  uint64_t keep[4]; memcpy(keep, hr_s, sizeof keep);
  int t = 2 + (int) hrn(no % 5 == 0 ? 7 : 3);
  int same = (int) hrn(3);              /* 0: all threads do the same kinds of work */
  int k0 = (int) (no % NKINDS), all = 0;
  for(int i = 0; i < t; i++) {
    j[i].seed = hr64() | 1; j[i].nk = 1 + (int) hrn(4); j[i].yields = hrn(3) != 0;
    for(int k = 0; k < j[i].nk; k++) { j[i].kind[k] = k == 0 && (same == 0 || i < 2) ? k0 : (int) hrn(NKINDS); all |= 1 << j[i].kind[k]; }
  }
  lr_observer = observer;
  if(no % 2) { alone(j, t, a); together(j, t, b); } else { together(j, t, b); alone(j, t, a); }
  long em = 0; int wrong = 0;
  for(int i = 0; i < t; i++) { em += j[i].emitted; if(memcmp(a[i], b[i], 32)) wrong |= 1 << i; }
  jo(); ji("threads", t); ji("kinds", all); ji("emitted", em); ji("wrong", wrong); js("first", kind_name[k0]);
  jk("work"); printf("["); for(int i = 0; i < t; i++) { printf("%s\"", i ? "," : ""); for(int k = 0; k < j[i].nk; k++) printf("%s%s", k ? " " : "", kind_name[j[i].kind[k]]); printf("\""); } printf("]");
  jc();
}
static const mode_t_ modes[] = { {"threads", m_threads}, {NULL, NULL} };
int main(int argc, char **argv) { return h_main(argc, argv, modes); }
