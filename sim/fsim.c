/* fsim - deterministic in-process thread simulator.
 *
 * Replaces the OpenMP runtime and the memory-access hooks the compiler emits under
 * -fsanitize=thread.  Every OpenMP thread is a fiber; exactly one fiber executes at
 * a time on the single OS thread of the process.  Preemption points are the memory
 * accesses of the code under test and all OpenMP constructs.  Which fiber runs next
 * is decided by one seeded PRNG, or read from a replay file.
 *
 * Environment: FSIM_SEED, FSIM_MEAN (mean number of accesses between preemptions),
 * FSIM_SYNC (probability per 1000 of switching at an OpenMP construct), FSIM_BIAS
 * (starve the fibers whose thread number is FSIM_BIAS; -1 none), FSIM_CHUNK
 * (1: work is dealt with chunk size as asked, 2: guided/dynamic loops are dealt one
 * iteration at a time), FSIM_TRACE / FSIM_REPLAY / FSIM_RESULT (files).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef int64_t i64;

#define STACK_SIZE (16u << 20)
#define IDLEN 96

typedef struct team team_t;
typedef struct fiber {
  void *sp;
  int state;                 /* 0 ready, 1 blocked, 2 sleeping, 3 finished */
  char id[IDLEN];
  char key[IDLEN + 16];      /* id and stretch: what scheduling decisions are recorded under */
  team_t *team; int tid;
  void (*fn)(void *); void *data; void *stack;
  int saved_errno;
  i64 n;                     /* local access count within the stretch */
  int regions;               /* stretches: beginnings and ends of parallel regions */
  int nthreads_icv, max_levels, nested, level, active_level;
  i64 wake;
  i64 loop_seq;              /* work-sharing constructs entered in this team */
  struct ws *ws;
  const void *waits;
  int crit_depth;
  /* replay */
  int replay_pos;
} fiber_t;

typedef struct ws {
  i64 seq; struct ws *next; int left; int init;
  i64 cur, end, incr, chunk; int kind; /* 0 static 1 dynamic 2 guided */
  u64 ucur, uend, uincr; int isull; int up;
  i64 single_taken; i64 sections, section_next; i64 ordered_next;
  void *mem; void *copy;
} ws_t;

struct team {
  int n; fiber_t **f; int arrived; i64 barrier_gen; int alive; ws_t *ws; team_t *parent; fiber_t *master;
  i64 single_seq;
};

static fiber_t mainf, *cur = &mainf;
static fiber_t **all; static int nall, capall;  /* every live fiber, in creation order */
static int inited, on, multi;
static u64 acc;                 /* accesses since start, all fibers */
static u64 next_preempt = ~0ULL;
static u64 acc_base;            /* value of acc when cur was switched in */
static i64 nswitch, nfibers, nregions, npreempt, nsync, max_alive;
static u64 hsched = 1469598103934665603ULL;
static u64 rs[4];
static u64 mean_acc = 300; static int sync_p = 100; static int bias = -1; static int chunkmode = 1; static int team_cap = 0;
static int tfd = -1, replaying; static char *tmem; static size_t tlen; /* shared file mapping: survives a crash of the process */
#define TMAX ((size_t)1 << 28)
static char resf[PATH_MAX];
typedef struct { char type; char id[IDLEN + 16]; i64 n; char tgt[IDLEN]; int used; } dec_t;
static dec_t *decs; static int ndecs;

static u64 splitmix(u64 *x) { u64 z = (*x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 rnd(void) { u64 r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17; rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t; rs[3] = rotl(rs[3], 45); return r; }
static u64 rndn(u64 n) { return n ? rnd() % n : 0; }
static void hmix(const void *p, size_t n) { const unsigned char *c = p; for (size_t i = 0; i < n; i++) { hsched ^= c[i]; hsched *= 1099511628211ULL; } }

static void rec(char type, const char *id, i64 n, const char *tgt) {
  if (!tmem || tlen > TMAX - 512) return;
  tlen += snprintf(tmem + tlen, 400, "T %c %s %lld %s\n", type, id, (long long)n, tgt);
}
static void tflush(void) { if (tfd >= 0 && ftruncate(tfd, tlen)) {} }
static void fail(const char *m) { fprintf(stderr, "fsim: %s\n", m); fflush(stderr); tflush(); _exit(97); }

static void finish(void) {
  tflush();
  if (resf[0]) {
    char b[1024]; int fd = open(resf, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    int l = snprintf(b, sizeof b, "{\"accesses\":%llu,\"switches\":%lld,\"preemptions\":%lld,\"sync_points\":%lld,\"fibers\":%lld,\"regions\":%lld,\"max_alive\":%lld,\"sched\":\"%016llx\"}\n",
      (unsigned long long)acc, (long long)nswitch, (long long)npreempt, (long long)nsync, (long long)nfibers, (long long)nregions, (long long)max_alive, (unsigned long long)hsched);
    if (fd >= 0) { if (write(fd, b, l) < 0) {} close(fd); }
  }
}
static int cmpdec(const void *a, const void *b) { const dec_t *x = a, *y = b; int c = strcmp(x->id, y->id); if (c) return c; if (x->n != y->n) return x->n < y->n ? -1 : 1; return x->type - y->type; }
static void init(void) {
  if (inited) return;
  inited = 1;
  const char *s = getenv("FSIM_SEED"); u64 x = s ? strtoull(s, 0, 10) : 1;
  on = s != NULL;
  for (int i = 0; i < 4; i++) rs[i] = splitmix(&x);
  if ((s = getenv("FSIM_MEAN"))) mean_acc = strtoull(s, 0, 10);
  if ((s = getenv("FSIM_SYNC"))) sync_p = atoi(s);
  if ((s = getenv("FSIM_BIAS"))) bias = atoi(s);
  if ((s = getenv("FSIM_CHUNK"))) chunkmode = atoi(s);
  if ((s = getenv("FSIM_TRACE"))) {
    tfd = open(s, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (tfd >= 0 && !ftruncate(tfd, TMAX)) { tmem = mmap(NULL, TMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, tfd, 0); if (tmem == MAP_FAILED) tmem = NULL; }
  }
  if ((s = getenv("FSIM_RESULT"))) snprintf(resf, sizeof resf, "%s", s);
  if ((s = getenv("FSIM_REPLAY"))) {
    FILE *f = fopen(s, "r"); char l[512]; replaying = 1; on = 1; int cap = 0;
    while (f && fgets(l, sizeof l, f)) { dec_t d; memset(&d, 0, sizeof d); long long n;
      if (sscanf(l, "T %c %111s %lld %95s", &d.type, d.id, &n, d.tgt) != 4) continue;
      d.n = n; if (ndecs == cap) { cap = cap ? cap * 2 : 256; decs = realloc(decs, cap * sizeof *decs); } decs[ndecs++] = d; }
    if (f) fclose(f);
    qsort(decs, ndecs, sizeof *decs, cmpdec);
  }
  snprintf(mainf.id, IDLEN, "0"); snprintf(mainf.key, sizeof mainf.key, "0@0"); mainf.nthreads_icv = 0; mainf.max_levels = 1; mainf.nested = 0;
  if ((s = getenv("OMP_NUM_THREADS"))) mainf.nthreads_icv = atoi(s);
  if (mainf.nthreads_icv <= 0) mainf.nthreads_icv = 4;
  if ((s = getenv("OMP_THREAD_LIMIT"))) team_cap = atoi(s);
  all = calloc(64, sizeof *all); capall = 64; all[nall++] = &mainf;
  atexit(finish);
}

/* ---------------------------------------------------------------- context switch */
void fsim_switch(void **save, void *load);
__asm__(
  ".text\n.globl fsim_switch\n.type fsim_switch,@function\nfsim_switch:\n"
  "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
  "subq $8,%rsp\nstmxcsr (%rsp)\nfnstcw 4(%rsp)\n"
  "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
  "ldmxcsr (%rsp)\nfldcw 4(%rsp)\naddq $8,%rsp\n"
  "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n"
  ".size fsim_switch,.-fsim_switch\n");

static i64 vnow(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }

static const dec_t *next_dec(fiber_t *f, char type, i64 from) { /* smallest n >= from */
  int lo = 0, hi = ndecs; dec_t k; memset(&k, 0, sizeof k); memcpy(k.id, f->key, sizeof k.id); k.n = from; k.type = 0;
  while (lo < hi) { int m = (lo + hi) / 2; if (cmpdec(&decs[m], &k) < 0) lo = m + 1; else hi = m; }
  for (; lo < ndecs && !strcmp(decs[lo].id, f->key); lo++) if (decs[lo].type == type) return &decs[lo];
  return NULL;
}
static void arm(void) { /* set next_preempt for cur */
  acc_base = acc;
  if (!on || !multi) { next_preempt = ~0ULL; return; }
  if (replaying) { const dec_t *d = next_dec(cur, 'p', cur->n + 1); next_preempt = d ? acc + (u64)(d->n - cur->n) : ~0ULL; }
  else if (mean_acc) next_preempt = acc + 1 + rndn(2 * mean_acc);
  else next_preempt = ~0ULL;
}
static i64 local_n(void) { return cur->n + (i64)(acc - acc_base); }
static void set_key(fiber_t *f) { snprintf(f->key, sizeof f->key, "%s@%d", f->id, f->regions); }
static void stretch(void) { cur->regions++; set_key(cur); cur->n = 0; acc_base = acc; }
static void switch_to(fiber_t *t) {
  fiber_t *o = cur;
  if (t == o) { arm(); return; }
  o->n = local_n(); o->saved_errno = errno;
  nswitch++; hmix(t->id, strlen(t->id) + 1); hmix(&o->n, 8);
  cur = t; arm();
  fsim_switch(&o->sp, t->sp);
  errno = cur->saved_errno;
}
static int is_runnable(fiber_t *f) {
  if (f->state == 0) return 1;
  if (f->state == 2 && vnow() >= f->wake) { f->state = 0; return 1; }
  return 0;
}
/* choose another fiber.  must: cur cannot continue. type: p preempt, s sync, b blocked, x finished */
static fiber_t *pick(char type, int must, i64 n) {
  fiber_t *list[256]; int k;
  for (;;) {
    k = 0;
    for (int i = 0; i < nall && k < 256; i++) if (all[i] != cur && is_runnable(all[i])) list[k++] = all[i];
    if (k) break;
    if (!must) return cur;
    if (cur->state == 0) return cur;
    /* only sleepers left */
    i64 w = INT64_MAX;
    for (int i = 0; i < nall; i++) if (all[i]->state == 2 && all[i]->wake < w) w = all[i]->wake;
    if (w == INT64_MAX) fail("deadlock: no thread can run");
    i64 d = w - vnow();
    if (d > 0) { struct timespec t = { d / 1000000000, d % 1000000000 }; syscall(SYS_nanosleep, &t, NULL); }
    if (cur->state == 2 && vnow() >= cur->wake) { cur->state = 0; return cur; }
  }
  fiber_t *def = must ? list[0] : cur, *r = def;
  if (replaying) {
    const dec_t *d = next_dec(cur, type, n);
    if (d && d->n == n && !d->used) { ((dec_t *)d)->used = 1; for (int i = 0; i < k; i++) if (!strcmp(list[i]->id, d->tgt)) r = list[i]; }
  } else if (on && (must || type == 'p' || type == 's')) {
    r = list[rndn(k)];
    if (bias >= 0 && r->tid == bias && rndn(16)) r = list[rndn(k)];
  }
  if (r != def) rec(type, cur->key, n, r->id);
  return r;
}
static void preempt(void) {
  i64 n = local_n(); npreempt++;
  if (!replaying && bias >= 0 && cur->tid != bias && rndn(4)) { arm(); cur->n = n; acc_base = acc; return; }
  fiber_t *t = pick('p', 0, n);
  if (t == cur) { cur->n = n; arm(); return; }
  switch_to(t);
}
static void sync_point(void) {
  if (!multi || !on) return;
  acc++; nsync++;
  i64 n = local_n();
  if (replaying) { const dec_t *d = next_dec(cur, 's', n); if (!d || d->n != n || d->used) return; }
  else if ((int)rndn(1000) >= sync_p) return;
  fiber_t *t = pick('s', 0, n);
  if (t != cur) switch_to(t);
}
static void block_here(char type) { acc++; i64 n = local_n(); fiber_t *t = pick(type, 1, n); switch_to(t); }

/* ---------------------------------------------------------------- memory access hooks */
#define ACC() do { if (++acc >= next_preempt) preempt(); } while (0)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define H(n) void __tsan_##n(void *p) { (void)p; ACC(); }
H(read1) H(read2) H(read4) H(read8) H(read16) H(write1) H(write2) H(write4) H(write8) H(write16)
H(unaligned_read1) H(unaligned_read2) H(unaligned_read4) H(unaligned_read8) H(unaligned_read16)
H(unaligned_write1) H(unaligned_write2) H(unaligned_write4) H(unaligned_write8) H(unaligned_write16)
H(volatile_read1) H(volatile_read2) H(volatile_read4) H(volatile_read8) H(volatile_read16)
H(volatile_write1) H(volatile_write2) H(volatile_write4) H(volatile_write8) H(volatile_write16)
H(unaligned_volatile_read1) H(unaligned_volatile_read2) H(unaligned_volatile_read4) H(unaligned_volatile_read8) H(unaligned_volatile_read16)
H(unaligned_volatile_write1) H(unaligned_volatile_write2) H(unaligned_volatile_write4) H(unaligned_volatile_write8) H(unaligned_volatile_write16)
H(vptr_read)
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; ACC(); }
void __tsan_read_range(void *p, unsigned long n) { (void)p; (void)n; ACC(); }
void __tsan_write_range(void *p, unsigned long n) { (void)p; (void)n; ACC(); }
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, int m) { (void)m; ACC(); return *a; } \
void __tsan_atomic##N##_store(volatile T *a, T v, int m) { (void)m; ACC(); *a = v; } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int m) { (void)m; ACC(); T o = *a; *a = v; return o; } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int m) { (void)m; ACC(); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int m) { (void)m; ACC(); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int m) { (void)m; ACC(); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int m) { (void)m; ACC(); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int m) { (void)m; ACC(); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int m) { (void)m; ACC(); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; ACC(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; ACC(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { (void)m; (void)f; ACC(); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; ACC(); }
void __tsan_atomic_signal_fence(int m) { (void)m; }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { ACC(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { ACC(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { ACC(); return memset(d, c, n); }

/* ---------------------------------------------------------------- fibers and teams */
static void *stacks[256]; static int nstacks;
static void *get_stack(void) {
  if (nstacks) return stacks[--nstacks];
  char *p = mmap(NULL, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) fail("no memory for a thread stack");
  mprotect(p, 4096, PROT_NONE);
  return p;
}
static void put_stack(void *s) { if (nstacks < 256) stacks[nstacks++] = s; else munmap(s, STACK_SIZE); }

static void team_barrier(void) {
  team_t *t = cur->team;
  if (!t || t->n == 1) return;
  i64 g = t->barrier_gen;
  if (++t->arrived == t->n) {
    t->arrived = 0; t->barrier_gen++;
    for (int i = 0; i < t->n; i++) if (t->f[i] && t->f[i]->state == 1 && t->f[i]->waits == &t->barrier_gen) { t->f[i]->state = 0; t->f[i]->waits = NULL; }
    sync_point();
  } else {
    cur->state = 1; cur->waits = &t->barrier_gen;
    while (cur->team->barrier_gen == g) { block_here('b'); }
  }
}
static fiber_t *graveyard;
static void fiber_main(void) {
  fiber_t *f = cur;
  errno = 0;
  f->fn(f->data);
  f = cur;
  team_t *t = f->team;
  f->state = 3; t->alive--;
  if (t->alive == 1 && t->master->state == 1 && t->master->waits == t) { t->master->state = 0; t->master->waits = NULL; }
  int j = 0; for (int i = 0; i < nall; i++) if (all[i] != f) all[j++] = all[i];
  nall = j;
  acc++;
  fiber_t *n = pick('x', 1, local_n());
  graveyard = f;
  switch_to(n);
  fail("finished thread resumed");
}
static fiber_t *mkfiber(team_t *t, int tid, void (*fn)(void *), void *data, fiber_t *par) {
  fiber_t *f = calloc(1, sizeof *f);
  snprintf(f->id, IDLEN, "%.80s/%d:%d", par->id, par->regions, tid);
  set_key(f);
  f->team = t; f->tid = tid; f->fn = fn; f->data = data; f->stack = get_stack();
  f->nthreads_icv = par->nthreads_icv; f->max_levels = par->max_levels; f->nested = par->nested;
  f->level = par->level + 1; f->active_level = par->active_level + 1;
  u64 *sp = (u64 *)((char *)f->stack + STACK_SIZE - 64);
  *--sp = 0; *--sp = (u64)fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  --sp; __asm__ volatile("stmxcsr (%0)\nfnstcw 4(%0)" ::"r"(sp) : "memory");
  f->sp = sp;
  if (nall == capall) { capall *= 2; all = realloc(all, capall * sizeof *all); }
  all[nall++] = f; nfibers++;
  if (nall > max_alive) max_alive = nall;
  return f;
}
static ws_t *ws_get(void) {
  team_t *t = cur->team; i64 seq = cur->loop_seq++;
  ws_t *w;
  for (w = t->ws; w; w = w->next) if (w->seq == seq) break;
  if (!w) { w = calloc(1, sizeof *w); w->seq = seq; w->left = t->n; w->next = t->ws; t->ws = w; }
  cur->ws = w;
  return w;
}
static void ws_put(void) {
  ws_t *w = cur->ws; team_t *t = cur->team; cur->ws = NULL;
  if (!w) return;
  if (--w->left == 0) { ws_t **q = &t->ws; while (*q && *q != w) q = &(*q)->next; if (*q) *q = w->next; free(w->mem); free(w); }
}

static void run_parallel(void (*fn)(void *), void *data, unsigned nthreads) {
  init();
  fiber_t *me = cur;
  int n = nthreads ? (int)nthreads : me->nthreads_icv;
  int maxl = me->max_levels;
  if (me->active_level >= maxl) n = 1;
  if (team_cap > 0) { int room = team_cap - (nall - 1); if (room < 1) room = 1; if (n > room) n = room; }
  if (n < 1) n = 1;
  team_t T; memset(&T, 0, sizeof T);
  fiber_t *fs[n]; T.n = n; T.f = fs; T.alive = n; T.parent = me->team; T.master = me;
  nregions++; stretch();
  int otid = me->tid; i64 oseq = me->loop_seq; ws_t *ows = me->ws; int ol = me->level, oal = me->active_level; team_t *ot = me->team;
  /* values inherited by the team members are those of the encountering task */
  fs[0] = me;
  if (n > 1) { multi++; for (int i = 1; i < n; i++) fs[i] = mkfiber(&T, i, fn, data, me); }
  int icv = me->nthreads_icv, onest = me->nested, oml = me->max_levels;
  me->team = &T; me->tid = 0; me->loop_seq = 0; me->ws = NULL; me->level = ol + 1; me->active_level = oal + (n > 1);
  arm();
  sync_point();
  fn(data);
  if (n > 1) {
    while (T.alive > 1) { me->state = 1; me->waits = &T; block_here('b'); }
    for (int i = 1; i < n; i++) { put_stack(fs[i]->stack); if (graveyard == fs[i]) graveyard = NULL; free(fs[i]); }
    multi--;
  }
  stretch(); arm();
  while (T.ws) { ws_t *w = T.ws; T.ws = w->next; free(w->mem); free(w); }
  me->team = ot; me->tid = otid; me->loop_seq = oseq; me->ws = ows; me->level = ol; me->active_level = oal;
  me->nthreads_icv = icv; me->nested = onest; me->max_levels = oml;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { (void)flags; run_parallel(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned flags) { (void)flags; run_parallel(fn, data, n); return n ? n : (unsigned)cur->nthreads_icv; }
void GOMP_barrier(void) { team_barrier(); }
bool GOMP_barrier_cancel(void) { team_barrier(); return false; }

/* ---------------------------------------------------------------- mutual exclusion */
typedef struct lk { const void *key; fiber_t *owner; int depth; struct lk *next; } lk_t;
static lk_t *locks;
static lk_t *lk_get(const void *k) { lk_t *l; for (l = locks; l; l = l->next) if (l->key == k) return l; l = calloc(1, sizeof *l); l->key = k; l->next = locks; locks = l; return l; }
static void lk_acquire(const void *k, int nest) {
  lk_t *l; sync_point(); l = lk_get(k);
  if (nest && l->owner == cur) { l->depth++; return; }
  while (l->owner) { if (l->owner == cur) fail("deadlock: critical section re-entered"); cur->state = 1; cur->waits = l; block_here('b'); }
  l->owner = cur; l->depth = 1;
}
static void lk_release(const void *k) {
  lk_t *l = lk_get(k); if (--l->depth > 0) return; l->owner = NULL;
  for (int i = 0; i < nall; i++) if (all[i]->state == 1 && all[i]->waits == l) { all[i]->state = 0; all[i]->waits = NULL; }
  sync_point();
}
static char K_default, K_atomic;
void GOMP_critical_start(void) { init(); lk_acquire(&K_default, 0); }
void GOMP_critical_end(void) { lk_release(&K_default); }
void GOMP_critical_name_start(void **p) { init(); lk_acquire(p, 0); }
void GOMP_critical_name_end(void **p) { lk_release(p); }
void GOMP_atomic_start(void) { init(); lk_acquire(&K_atomic, 0); }
void GOMP_atomic_end(void) { lk_release(&K_atomic); }
void omp_init_lock(void **l) { *l = NULL; }
void omp_destroy_lock(void **l) { (void)l; }
void omp_set_lock(void **l) { init(); lk_acquire(l, 0); }
void omp_unset_lock(void **l) { lk_release(l); }
int omp_test_lock(void **l) { init(); if (lk_get(l)->owner) return 0; lk_acquire(l, 0); return 1; }
void omp_init_nest_lock(void **l) { *l = NULL; }
void omp_destroy_nest_lock(void **l) { (void)l; }
void omp_set_nest_lock(void **l) { init(); lk_acquire(l, 1); }
void omp_unset_nest_lock(void **l) { lk_release(l); }

/* ---------------------------------------------------------------- loops */
static team_t *serial_team(void) { static team_t s; static fiber_t *sf[1]; init(); if (!cur->team) { s.n = 1; s.f = sf; sf[0] = cur; s.alive = 1; s.master = cur; cur->team = &s; } return cur->team; }
static bool loop_next(i64 *is, i64 *ie) {
  ws_t *w = cur->ws; sync_point();
  if (!w) return false;
  i64 rem = w->incr > 0 ? (w->end - w->cur + w->incr - 1) / w->incr : (w->cur - w->end - w->incr - 1) / -w->incr;
  if (rem <= 0) return false;
  i64 c = w->chunk > 0 ? w->chunk : 1;
  if (w->kind == 2) { i64 g = (rem + cur->team->n - 1) / cur->team->n; if (chunkmode == 2) g = c; if (g < c) g = c; c = g; }
  if (w->kind == 1 && chunkmode == 3) { /* deal what one thread could have taken in a row */ c = c * (1 + (i64)(replaying ? 0 : 0)); }
  if (c > rem) c = rem;
  *is = w->cur; w->cur += c * w->incr; *ie = w->cur;
  if ((w->incr > 0 && *ie > w->end) || (w->incr < 0 && *ie < w->end)) *ie = w->end;
  return true;
}
static bool loop_start(i64 s, i64 e, i64 inc, i64 chunk, int kind, i64 *is, i64 *ie) {
  serial_team(); ws_t *w = ws_get();
  if (!w->init) { w->init = 1; w->cur = s; w->end = e; w->incr = inc; w->chunk = chunk; w->kind = kind; }
  return loop_next(is, ie);
}
#define LOOP(name, kind) \
bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, kind, is, ie); } \
bool GOMP_loop_##name##_next(long *is, long *ie) { return loop_next(is, ie); }
LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
bool GOMP_loop_static_start(long s, long e, long i, long c, long *is, long *ie) { long n = (e - s) / i + 1; if (c <= 0) { c = (n + serial_team()->n - 1) / serial_team()->n; } return loop_start(s, e, i, c, 1, is, ie); }
bool GOMP_loop_static_next(long *is, long *ie) { return loop_next(is, ie); }
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, 1, is, ie); }
bool GOMP_loop_runtime_next(long *is, long *ie) { return loop_next(is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, 1, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long *is, long *ie) { return loop_next(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return loop_next(is, ie); }
bool GOMP_loop_start(long s, long e, long i, long sched, long c, long *is, long *ie, uintptr_t *red, void **mem) {
  (void)red; int k = (int)(sched & 0x7fffffff);
  serial_team(); ws_t *w = ws_get();
  if (!w->init) { w->init = 1; w->cur = s; w->end = e; w->incr = i; w->kind = k == 3 ? 2 : 1; w->chunk = c;
    if (mem) { w->mem = calloc(1, (size_t)*mem); } }
  if (mem) *mem = w->mem;
  if (!is) return true;
  return loop_next(is, ie);
}
/* unsigned long long loops */
typedef unsigned long long ull;
static bool ull_next(ull *is, ull *ie) {
  ws_t *w = cur->ws; sync_point(); if (!w) return false;
  u64 rem = w->up ? (w->ucur < w->uend ? (w->uend - w->ucur + w->uincr - 1) / w->uincr : 0) : (w->ucur > w->uend ? (w->ucur - w->uend + (0 - w->uincr) - 1) / (0 - w->uincr) : 0);
  if (!rem) return false;
  u64 c = w->chunk > 0 ? (u64)w->chunk : 1;
  if (w->kind == 2) { u64 g = (rem + cur->team->n - 1) / cur->team->n; if (chunkmode == 2) g = c; if (g < c) g = c; c = g; }
  if (c > rem) c = rem;
  *is = w->ucur; w->ucur += c * w->uincr; *ie = w->ucur;
  if (w->up ? *ie > w->uend : *ie < w->uend) *ie = w->uend;
  return true;
}
static bool ull_start(bool up, ull s, ull e, ull i, ull c, int kind, ull *is, ull *ie) {
  serial_team(); ws_t *w = ws_get();
  if (!w->init) { w->init = 1; w->isull = 1; w->up = up; w->ucur = s; w->uend = e; w->uincr = i; w->chunk = (i64)c; w->kind = kind; }
  return ull_next(is, ie);
}
#define ULOOP(name, kind) \
bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) { return ull_start(up, s, e, i, c, kind, is, ie); } \
bool GOMP_loop_ull_##name##_next(ull *is, ull *ie) { return ull_next(is, ie); }
ULOOP(dynamic, 1) ULOOP(guided, 2) ULOOP(nonmonotonic_dynamic, 1) ULOOP(nonmonotonic_guided, 2) ULOOP(static, 1)
bool GOMP_loop_ull_runtime_start(bool up, ull s, ull e, ull i, ull *is, ull *ie) { return ull_start(up, s, e, i, 1, 1, is, ie); }
bool GOMP_loop_ull_runtime_next(ull *is, ull *ie) { return ull_next(is, ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, ull s, ull e, ull i, ull *is, ull *ie) { return ull_start(up, s, e, i, 1, 1, is, ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(ull *is, ull *ie) { return ull_next(is, ie); }
void GOMP_loop_end_nowait(void) { ws_put(); sync_point(); }
void GOMP_loop_end(void) { ws_put(); team_barrier(); }
bool GOMP_loop_end_cancel(void) { ws_put(); team_barrier(); return false; }
/* combined parallel loops */
typedef struct { void (*fn)(void *); void *data; long s, e, i, c; int kind; } pl_t;
static void pl_run(void *v) { pl_t *p = v; serial_team(); /* prime the construct, the body then calls _next */
  ws_t *w = ws_get(); if (!w->init) { w->init = 1; w->cur = p->s; w->end = p->e; w->incr = p->i; w->chunk = p->c; w->kind = p->kind; }
  p->fn(p->data); }
#define PLOOP(name, kind) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned fl) { (void)fl; pl_t p = { fn, d, s, e, i, c, kind }; run_parallel(pl_run, &p, n); }
PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { (void)fl; pl_t p = { fn, d, s, e, i, 1, 1 }; run_parallel(pl_run, &p, n); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { (void)fl; pl_t p = { fn, d, s, e, i, 1, 1 }; run_parallel(pl_run, &p, n); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { (void)fl; pl_t p = { fn, d, s, e, i, 1, 1 }; run_parallel(pl_run, &p, n); }
void GOMP_parallel_loop_static(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned fl) { (void)fl; if (c <= 0) c = 1; pl_t p = { fn, d, s, e, i, c, 1 }; run_parallel(pl_run, &p, n); }

/* ---------------------------------------------------------------- single, sections, ordered, tasks */
bool GOMP_single_start(void) { serial_team(); sync_point(); ws_t *w = ws_get(); bool mine = !w->single_taken; w->single_taken = 1; ws_put(); return mine; }
void *GOMP_single_copy_start(void) {
  serial_team(); sync_point(); ws_t *w = ws_get();
  if (!w->single_taken) { w->single_taken = 1; return NULL; }
  team_barrier(); void *c = w->copy; ws_put(); return c;
}
void GOMP_single_copy_end(void *d) { cur->ws->copy = d; team_barrier(); ws_put(); }
unsigned GOMP_sections_next(void) { ws_t *w = cur->ws; sync_point(); if (!w || w->section_next >= w->sections) return 0; return (unsigned)++w->section_next; }
unsigned GOMP_sections_start(unsigned n) { serial_team(); ws_t *w = ws_get(); if (!w->init) { w->init = 1; w->sections = n; } return GOMP_sections_next(); }
void GOMP_sections_end(void) { ws_put(); team_barrier(); }
void GOMP_sections_end_nowait(void) { ws_put(); sync_point(); }
typedef struct { void (*fn)(void *); void *data; unsigned n; } ps_t;
static void ps_run(void *v) { ps_t *p = v; serial_team(); ws_t *w = ws_get(); if (!w->init) { w->init = 1; w->sections = p->n; } p->fn(p->data); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned cnt, unsigned fl) { (void)fl; ps_t p = { fn, d, cnt }; run_parallel(ps_run, &p, nt); }
void GOMP_ordered_start(void) { fail("ordered regions are not modelled"); }
void GOMP_ordered_end(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool ifc, unsigned fl, void **dep, int pri, void *det) {
  (void)ifc; (void)fl; (void)dep; (void)pri; (void)det; init(); sync_point();
  if (cpy) { char *b = calloc(1, sz + al); char *a = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(a, data); fn(a); free(b); }
  else { char *b = malloc(sz + al); char *a = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); memcpy(a, data, sz); fn(a); free(b); }
}
void GOMP_taskwait(void) { init(); sync_point(); }
void GOMP_taskyield(void) { init(); sync_point(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancel(int w, bool d) { (void)w; (void)d; return false; }
bool GOMP_cancellation_point(int w) { (void)w; return false; }
void GOMP_flush(void) {}

/* ---------------------------------------------------------------- omp_* */
int omp_get_thread_num(void) { init(); return cur->tid; }
int omp_get_num_threads(void) { init(); return cur->team ? cur->team->n : 1; }
int omp_get_max_threads(void) { init(); return cur->nthreads_icv; }
void omp_set_num_threads(int n) { init(); if (n > 0) cur->nthreads_icv = n; }
int omp_get_num_procs(void) { return 4; }
int omp_in_parallel(void) { init(); return cur->active_level > 0; }
void omp_set_dynamic(int d) { (void)d; }
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int v) { init(); cur->nested = v; cur->max_levels = v ? 64 : 1; }
int omp_get_nested(void) { init(); return cur->max_levels > 1; }
void omp_set_max_active_levels(int n) { init(); cur->max_levels = n; }
int omp_get_max_active_levels(void) { init(); return cur->max_levels; }
int omp_get_thread_limit(void) { init(); return team_cap > 0 ? team_cap : INT_MAX; }
int omp_get_level(void) { init(); return cur->level; }
int omp_get_active_level(void) { init(); return cur->active_level; }
int omp_get_ancestor_thread_num(int l) { init(); return l == cur->level ? cur->tid : 0; }
int omp_get_team_size(int l) { init(); return l == cur->level && cur->team ? cur->team->n : 1; }
double omp_get_wtime(void) { return vnow() / 1e9; }
double omp_get_wtick(void) { return 1e-9; }
void omp_set_schedule(int k, int c) { (void)k; (void)c; }
void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
int omp_in_final(void) { return 0; }

/* ---------------------------------------------------------------- sleeping threads */
static int vsleep(i64 ns) {
  if (!inited || nall <= 1) { struct timespec t = { ns / 1000000000, ns % 1000000000 }; syscall(SYS_nanosleep, &t, NULL); return 0; }
  cur->state = 2; cur->wake = vnow() + ns;
  while (cur->state == 2) { block_here('b'); if (cur->state == 2 && vnow() >= cur->wake) cur->state = 0; }
  return 0;
}
int usleep(useconds_t us) { return vsleep((i64)us * 1000); }
unsigned sleep(unsigned s) { vsleep((i64)s * 1000000000LL); return 0; }
int nanosleep(const struct timespec *r, struct timespec *m) { (void)m; return vsleep(r->tv_sec * 1000000000LL + r->tv_nsec); }

/* ---------------------------------------------------------------- C++ local statics and mutexes: owned by a fiber, not by the OS thread */
int __cxa_guard_acquire(u64 *g) {
  volatile char *b = (volatile char *)g;
  while (!b[0] && b[1]) { if (nall < 2) fail("recursive initialisation of a static"); vsleep(1000); }
  if (b[0]) return 0;
  b[1] = 1; return 1;
}
void __cxa_guard_release(u64 *g) { volatile char *b = (volatile char *)g; b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(u64 *g) { volatile char *b = (volatile char *)g; b[1] = 0; }
int pthread_mutex_lock(pthread_mutex_t *m) {
  static int (*rl)(pthread_mutex_t *);
  if (nall > 1) { int e; while ((e = pthread_mutex_trylock(m)) == EBUSY) vsleep(1000); return e; }
  if (!rl) rl = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  return rl(m);
}

/* ---------------------------------------------------------------- worker threads of GDAL are switched off */
static const char *one_thread(const char *k, const char *v) { return k && v && (!strcasecmp(k, "NUM_THREADS") || !strcasecmp(k, "GDAL_NUM_THREADS")) ? "1" : v; }
char **CSLSetNameValue(char **l, const char *k, const char *v) {
  static char **(*real)(char **, const char *, const char *);
  if (!real) real = (char **(*)(char **, const char *, const char *))dlsym(RTLD_NEXT, "CSLSetNameValue");
  return real(l, k, one_thread(k, v));
}
void CPLSetConfigOption(const char *k, const char *v) {
  static void (*real)(const char *, const char *);
  if (!real) real = (void (*)(const char *, const char *))dlsym(RTLD_NEXT, "CPLSetConfigOption");
  real(k, one_thread(k, v));
}
