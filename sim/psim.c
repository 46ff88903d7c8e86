/* psim - deterministic process-level simulator.
 *
 * Runs a set of real process trees under ptrace + seccomp.  Exactly one process
 * executes at any time; which one, what the clock says, what random bytes are
 * handed out, in which order directories are enumerated and which system calls
 * fail is decided here, from one seeded PRNG or from a replay file.
 *
 * usage: psim CONFIG
 *
 * CONFIG (line based, '#' comments):
 *   seed N                     PRNG seed
 *   world DIR                  only paths below DIR are simulated objects
 *   quiet SUFFIX               paths below the world ending in SUFFIX are no events
 *   exclude PREFIX             paths below PREFIX are no simulated objects
 *   result FILE                where the result (json) is written
 *   trace FILE                 where the non-default decisions are written
 *   events FILE                full event log (optional)
 *   replay FILE                take decisions from FILE rather than from the PRNG
 *   epoch SEC                  virtual wall clock at start
 *   tick NS                    virtual time per event
 *   maxevents N  maxvtime SEC  livelock bounds
 *   sched pmeta pio pfork      preemption probabilities (per 10000)
 *   hot P                      preemption probability (per 10000) at operations on paths
 *                              another process tree has already operated on
 *   shuffle 0|1                permute directory listings
 *   fault KIND INDEX PARAM [PATHSUBSTR]
 *                              fire KIND at its INDEX-th eligible event (over all
 *                              processes); PARAM is kind specific (eio_read 1: this
 *                              part of the file stays unreadable, 2+N: page N of the
 *                              file is unreadable from the INDEX-th attempt on)
 *   stub/env: env NAME=VALUE   (applies to following procs)
 *   proc NAME CWD STARTNS ARGC followed by ARGC lines, one argument each
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <elf.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifndef PTRACE_EVENT_STOP
#define PTRACE_EVENT_STOP 128
#endif

typedef uint64_t u64;
typedef int64_t i64;

/* ------------------------------------------------------------------ PRNG */
static u64 rs[4];
static u64 splitmix(u64 *x) {
  u64 z = (*x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 rnd(void) {
  u64 r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17;
  rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3];
  rs[2] ^= t; rs[3] = rotl(rs[3], 45);
  return r;
}
static u64 rndn(u64 n) { return n ? rnd() % n : 0; }
/* a separate stream for bytes handed to the processes, so that schedule decisions
   and random data do not perturb each other (replay needs the same data stream) */
static u64 dstate;

/* ------------------------------------------------------------------ hash */
static u64 hsh = 1469598103934665603ULL;   /* event stream */
static u64 hsched = 1469598103934665603ULL;/* interleaving of the processes only */
static void hmix(u64 *h, const void *p, size_t n) {
  const unsigned char *c = p;
  for (size_t i = 0; i < n; i++) { *h ^= c[i]; *h *= 1099511628211ULL; }
}
/* buffer content, with the world's own path left out */
static char world[PATH_MAX];
static void hcontent(const char *b, size_t n) {
  size_t wl = strlen(world), k; const char *q;
  /* the path may be cut by the ends of the buffer */
  for (k = wl - 1; wl && k >= 4; k--) if (n >= k && !memcmp(b, world + wl - k, k)) { b += k; n -= k; break; }
  for (k = wl - 1; wl && k >= 4; k--) if (n >= k && !memcmp(b + n - k, world, k)) { n -= k; break; }
  while (n && wl && (q = memmem(b, n, world, wl))) { hmix(&hsh, b, q - b); n -= (q - b) + wl; b = q + wl; }
  hmix(&hsh, b, n);
}
static void hstr(const char *s) { hmix(&hsh, s, strlen(s) + 1); }
static void hnum(i64 v) { hmix(&hsh, &v, sizeof v); }

/* ------------------------------------------------------------------ config */
#define MAXQ 16
static char resultf[PATH_MAX], tracef[PATH_MAX], eventsf[PATH_MAX], replayf[PATH_MAX];
static char excl[MAXQ][PATH_MAX]; static int nexcl;
static char quiet[MAXQ][64]; static int nquiet;
static u64 seed = 1;
static i64 epoch = 1710000000, tick = 20000;
static i64 maxevents = 400000, maxvtime = 7200;
static int phot = 0;
static int pmeta = 0, pio = 0, pfork = 0, shuffle = 0, traceheap = 0;
static i64 now_ns; /* since epoch start */
static FILE *evf, *trf;

enum { K_ENOSPC, K_EIOW, K_SHORT, K_FULL, K_EIOR, K_EMFILE, K_EACCES, K_ENOMEM, K_KILL, K_KILLMID,
       K_STALL, K_CLOCK, K_EMETA, K_CLOSE, K_KILLALL, K_FORKFAIL, K_SHORTR, K_NKIND };
static const char *kname[K_NKIND] = { "enospc", "eio_write", "short_write", "disk_full", "eio_read", "emfile",
  "eacces", "enomem", "kill", "kill_mid", "stall", "clock_jump", "eio_meta", "eio_close", "kill_all", "fork_fail",
  "short_read" };
typedef struct { int kind; i64 index; i64 param; char sub[256]; i64 seen; int fired; } fault_t;
static fault_t faults[64]; static int nfaults;
static i64 elig[K_NKIND], firedn[K_NKIND];
static i64 disk_full_left = -1; /* >0: number of events the disk stays full */
static struct { char path[PATH_MAX]; i64 a, b; } bad[8]; static int nbad, wantoff; /* unreadable parts of files */
static i64 enomem_left = -1;

/* replay decisions */
typedef struct { char type; char id[64]; i64 n; char tgt[64]; int kind; i64 param; int used; } dec_t;
static dec_t *decs; static int ndecs;
static int replaying;

/* ------------------------------------------------------------------ procs */
enum { P_READY, P_SLEEP, P_CHILD, P_POLL, P_VFORK, P_SIG, P_DEAD, P_FUTURE };
typedef struct proc {
  u64 rstate; pid_t pid; char id[64]; char name[64]; int parent, root, nchild;
  int state; i64 wake; int pending; struct user_regs_struct regs;
  i64 n; int sig; int pollfd; short pollev; i64 waitpid_arg; int isroot;
  int status; int nzomb; pid_t zomb[64]; int vfork_parent; int stalled; int injected;
  i64 nb; i64 nspawn;
  char **argv; char **envp; char cwd[PATH_MAX]; i64 start;
} proc_t;
#define MAXP 4096
static proc_t *P[MAXP]; static int nP; static int cur = -1;
static i64 nevents, nswitch, ndecpoints, maxrunnable, nsleepjump;
static int nroots;
static const char *endreason = "done";
static char errmsg[512];

static void die(const char *fmt, ...) __attribute__((noreturn));
static void killall_tracees(void) {
  for (int i = 0; i < nP; i++) if (P[i]->pid > 0 && P[i]->state != P_DEAD) kill(P[i]->pid, SIGKILL);
}
static void write_result(void);
static void die(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(errmsg, sizeof errmsg, fmt, ap); va_end(ap);
  fprintf(stderr, "psim: %s\n", errmsg);
  endreason = "error"; killall_tracees();
  if (resultf[0]) write_result();
  _exit(3);
}

static void spinning(void) { /* a process computes without end: an outcome, not a failure of the simulator */
  endreason = "spin"; killall_tracees(); if (trf) fclose(trf); write_result(); _exit(0);
}
static void on_alarm(int s) { (void)s; }

/* ------------------------------------------------------------------ memory */
static int rmem(pid_t pid, u64 addr, void *buf, size_t n) {
  struct iovec l = { buf, n }, r = { (void *)addr, n };
  ssize_t k = process_vm_readv(pid, &l, 1, &r, 1, 0);
  return k == (ssize_t)n ? 0 : -1;
}
static int wmem(pid_t pid, u64 addr, const void *buf, size_t n) {
  struct iovec l = { (void *)buf, n }, r = { (void *)addr, n };
  ssize_t k = process_vm_writev(pid, &l, 1, &r, 1, 0);
  return k == (ssize_t)n ? 0 : -1;
}
static int rstr(pid_t pid, u64 addr, char *buf, size_t n) {
  size_t got = 0;
  while (got < n - 1) {
    size_t want = 4096 - ((addr + got) & 4095);
    if (want > n - 1 - got) want = n - 1 - got;
    struct iovec l = { buf + got, want }, r = { (void *)(addr + got), want };
    ssize_t k = process_vm_readv(pid, &l, 1, &r, 1, 0);
    if (k <= 0) return -1;
    char *z = memchr(buf + got, 0, k);
    if (z) return 0;
    got += k;
  }
  buf[n - 1] = 0;
  return 0;
}

/* ------------------------------------------------------------------ paths */
static void fdpath(proc_t *p, int fd, char *out, size_t n) {
  char lnk[64]; ssize_t k;
  snprintf(lnk, sizeof lnk, fd == AT_FDCWD ? "/proc/%d/cwd" : "/proc/%d/fd/%d", p->pid, fd);
  k = readlink(lnk, out, n - 1);
  if (k < 0) k = 0;
  out[k] = 0;
}
static i64 fdpos(proc_t *p, int fd) {
  char f[64], l[256]; long long pos = 0; snprintf(f, sizeof f, "/proc/%d/fdinfo/%d", p->pid, fd);
  FILE *i = fopen(f, "r"); if (!i) return 0;
  while (fgets(l, sizeof l, i)) if (sscanf(l, "pos: %lld", &pos) == 1) break;
  fclose(i); return pos;
}
static void normpath(char *s) { /* lexical, in place */
  char *parts[512]; int np = 0; char *sv = NULL; char tmp[PATH_MAX];
  snprintf(tmp, sizeof tmp, "%s", s);
  for (char *t = strtok_r(tmp, "/", &sv); t; t = strtok_r(NULL, "/", &sv)) {
    if (!strcmp(t, ".")) continue;
    if (!strcmp(t, "..")) { if (np) np--; continue; }
    if (np < 511) parts[np++] = t;
  }
  char *o = s; *o = 0;
  for (int i = 0; i < np; i++) { *o++ = '/'; size_t l = strlen(parts[i]); memmove(o, parts[i], l); o += l; *o = 0; }
  if (!np) strcpy(s, "/");
}
static void atpath(proc_t *p, int dfd, u64 addr, char *out) {
  char raw[PATH_MAX]; raw[0] = 0;
  if (!addr || rstr(p->pid, addr, raw, sizeof raw) < 0) { out[0] = 0; return; }
  if (raw[0] == '/') snprintf(out, PATH_MAX, "%s", raw);
  else { char base[PATH_MAX]; fdpath(p, dfd, base, sizeof base);
    if (raw[0]) snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, raw); else snprintf(out, PATH_MAX, "%s", base); }
  normpath(out);
}
static int in_world(const char *p) {
  size_t l = strlen(world);
  if (!l || strncmp(p, world, l) || (p[l] != '/' && p[l] != 0)) return 0;
  for (int i = 0; i < nexcl; i++) { size_t m = strlen(excl[i]); if (!strncmp(p, excl[i], m)) return 0; }
  return 1;
}
static int is_quiet(const char *p) {
  size_t l = strlen(p);
  for (int i = 0; i < nquiet; i++) { size_t m = strlen(quiet[i]); if (l >= m && !strcmp(p + l - m, quiet[i])) return 1; }
  return 0;
}
/* path as hashed: relative to the world, without the process numbers that lockfile-create uses */
static const char *hpath(const char *p) {
  static char out[PATH_MAX + 256]; char *o = out;
  size_t l = strlen(world);
  if (!strncmp(p, world, l)) p += l;
  while (*p && o < out + PATH_MAX) {
    if (*p == '.' && p[1] == 'l' && p[2] == 'k' && p[3] >= '0' && p[3] <= '9') { /* lockfile-create: process number, time, host */
      o += sprintf(o, ".lk*"); while (*p && *p != '/') p++;
      continue;
    }
    *o++ = *p++;
  }
  *o = 0; return out;
}

/* ------------------------------------------------------------------ launching */
static const int trapped[] = {
  SYS_open, SYS_openat, SYS_creat, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_statx, SYS_access, SYS_faccessat, SYS_faccessat2,
  SYS_read, SYS_pread64, SYS_readv, SYS_preadv, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev,
  SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_mkdir, SYS_mkdirat, SYS_rmdir,
  SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_truncate, SYS_ftruncate, SYS_fallocate,
  SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_close, SYS_getdents64, SYS_fsync, SYS_fdatasync, SYS_sendfile, SYS_copy_file_range,
  SYS_nanosleep, SYS_clock_nanosleep, SYS_time, SYS_gettimeofday, SYS_clock_gettime, SYS_times, SYS_getrandom,
  SYS_wait4, SYS_waitid, SYS_poll, SYS_ppoll, SYS_select, SYS_pselect6, SYS_pause, SYS_rt_sigsuspend, SYS_flock,
  SYS_kill, SYS_tkill, SYS_tgkill, SYS_getrusage, SYS_sysinfo, SYS_futex,
};
static void child_exec(proc_t *p) {
  struct sock_filter f[256]; int n = 0, nt = sizeof trapped / sizeof *trapped;
  int heap = traceheap ? 2 : 0; static const int hs[2] = { SYS_mmap, SYS_brk };
  f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < nt + heap; i++) {
    int nr = i < nt ? trapped[i] : hs[i - nt];
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 1);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
  }
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  struct sock_fprog prog = { n, f };
  personality(ADDR_NO_RANDOMIZE);
  if (chdir(p->cwd)) _exit(120);
  char o[PATH_MAX + 80]; snprintf(o, sizeof o, "%s/_sim", world); mkdir(o, 0755);
  snprintf(o, sizeof o, "%s/_sim/%s.out", world, p->name);
  int in = open("/dev/null", O_RDONLY), fd = open(o, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd < 0) _exit(121);
  dup2(in, 0); dup2(fd, 1); dup2(fd, 2);
  for (int i = 3; i < 64; i++) close(i);
  setsid();
  signal(SIGALRM, SIG_DFL);
  struct rlimit mem = { 8LL << 30, 8LL << 30 }; setrlimit(RLIMIT_DATA, &mem); /* a runaway process must not take the machine with it */
  raise(SIGSTOP);
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) _exit(122);
  execvpe(p->argv[0], p->argv, p->envp);
  _exit(127);
}
static int newproc(void) {
  if (nP >= MAXP) die("too many processes");
  P[nP] = calloc(1, sizeof(proc_t)); P[nP]->vfork_parent = -1; P[nP]->parent = -1; return nP++;
}
static double cpu_of(pid_t pid) {
  char f[64], b[1024]; snprintf(f, sizeof f, "/proc/%d/stat", pid); int fd = open(f, O_RDONLY); if (fd < 0) return 0;
  ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return 0; b[n] = 0;
  char *q = strrchr(b, ')'); long long u = 0, s = 0;
  if (!q || sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lld %lld", &u, &s) != 2) return 0;
  return (double)(u + s) / sysconf(_SC_CLK_TCK);
}
/* the longest computation of any workload between two system calls takes well below a second */
#define SPIN_CPU 8.0
static int wait_stop(pid_t pid, int *st) {
  double c0 = -1; pid_t r; int e;
  for (int k = 0;; k++) {
    alarm(2);
    r = waitpid(pid, st, __WALL);
    e = errno;
    alarm(0);
    if (r >= 0 || e != EINTR) break;
    double c = cpu_of(pid);
    if (c0 < 0) c0 = c;
    if (c - c0 > SPIN_CPU) {
      if (getenv("PSIM_HANGSTOP")) { int x; kill(pid, SIGSTOP); waitpid(pid, &x, __WALL); ptrace(PTRACE_DETACH, pid, 0, SIGSTOP); fprintf(stderr, "stopped %d\n", pid); sleep(60); }
      spinning();
    }
    if (k > 150) die("process %d did not reach a simulation point within 300 s of real time", pid);
  }
  if (r < 0) die("waitpid(%d): %s", pid, strerror(e));
  return 0;
}
#define OPTS (PTRACE_O_TRACESECCOMP | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | \
  PTRACE_O_TRACEEXEC | PTRACE_O_TRACEVFORKDONE | PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)
static void launch(proc_t *p) {
  pid_t pid = fork(); int st;
  if (pid < 0) die("fork: %s", strerror(errno));
  if (!pid) child_exec(p);
  p->pid = pid;
  if (waitpid(pid, &st, WUNTRACED) < 0 || !WIFSTOPPED(st)) die("child did not start (status %x)", st);
  if (ptrace(PTRACE_SEIZE, pid, 0, OPTS)) die("PTRACE_SEIZE: %s", strerror(errno));
  kill(pid, SIGCONT);
  /* run until exec */
  for (;;) {
    wait_stop(pid, &st);
    if (!WIFSTOPPED(st)) die("%s: could not be started (status %x)", p->name, st);
    int ev = st >> 16;
    if (ev == PTRACE_EVENT_EXEC) break;
    if (ptrace(PTRACE_CONT, pid, 0, 0)) die("cont: %s", strerror(errno));
  }
}
static void fix_auxv(proc_t *p) {
  struct user_regs_struct r;
  if (ptrace(PTRACE_GETREGS, p->pid, 0, &r)) return;
  u64 a = r.rsp, v = 0, t[2]; int z = 0; static char blk[1 << 17];
  if (rmem(p->pid, a, &v, 8)) return;
  a += 8 + (v + 1) * 8;
  while (z < 100000) { if (rmem(p->pid, a, &v, 8)) return; a += 8; z++; if (!v) break; }
  for (;; a += 16) {
    if (rmem(p->pid, a, t, 16)) return;
    if (t[0] == AT_NULL) break;
    if (t[0] == AT_SYSINFO_EHDR) { u64 ig = AT_IGNORE; wmem(p->pid, a, &ig, 8); }
    if (t[0] == AT_RANDOM) { u64 b[2] = { 0x0123456789abcd00ULL, 0x1122334455667788ULL }; wmem(p->pid, t[1], b, 16); }
  }
  /* process numbers in the environment (some have four digits, some five) must not move the stack: programs draw file names from its address */
  u64 n = a + 16 - r.rsp, to = (r.rsp - n) & ~0x7fffULL;
  if (n <= sizeof blk / 4 && !rmem(p->pid, r.rsp, blk, n) && !wmem(p->pid, to, blk, n)) { r.rsp = to; ptrace(PTRACE_SETREGS, p->pid, 0, &r); }
}

/* ------------------------------------------------------------------ trace */
static void rec_sched(char type, proc_t *c, i64 n, proc_t *t) {
  if (trf) fprintf(trf, "S %c %s %lld %s\n", type, c ? c->id : "-", (long long)n, t->id);
}
static void rec_fault(proc_t *c, i64 n, int kind, i64 param) {
  if (trf) fprintf(trf, "F %s %lld %s %lld\n", c->id, (long long)n, kname[kind], (long long)param);
}
static dec_t *find_dec(char type, const char *id, i64 n) {
  for (int i = 0; i < ndecs; i++)
    if (decs[i].type == type && decs[i].n == n && !decs[i].used && !strcmp(decs[i].id, id)) return &decs[i];
  return NULL;
}

/* ------------------------------------------------------------------ readiness */
static int poll_fd(proc_t *p, int fd, short ev) {
  int pf = syscall(SYS_pidfd_open, p->pid, 0), r = 1;
  if (pf < 0) return 1;
  int d = syscall(SYS_pidfd_getfd, pf, fd, 0);
  if (d >= 0) { struct pollfd q = { d, ev, 0 }; r = poll(&q, 1, 0) > 0; close(d); }
  close(pf);
  return r;
}
static int child_ready(proc_t *p, i64 arg) {
  int kids = 0, me = -1;
  for (int i = 0; i < nP; i++) if (P[i] == p) me = i;
  for (int i = 0; i < p->nzomb; i++) if (arg <= 0 || p->zomb[i] == arg) return 1;
  for (int i = 0; i < nP; i++)
    if (P[i]->parent == me && P[i]->state != P_DEAD && (arg <= 0 || P[i]->pid == arg)) kids++;
  return kids == 0; /* nothing to wait for: let the kernel answer ECHILD */
}
static int runnable(proc_t *p) {
  switch (p->state) {
    case P_READY: return 1;
    case P_SLEEP: case P_FUTURE: return now_ns >= p->wake;
    case P_CHILD: return child_ready(p, p->waitpid_arg) || (p->wake && now_ns >= p->wake);
    case P_POLL: return poll_fd(p, p->pollfd, p->pollev) || (p->wake && now_ns >= p->wake);
    case P_SIG: return p->nzomb > 0;
  }
  return 0;
}

/* ------------------------------------------------------------------ scheduler */
static int choose(char type, proc_t *c, i64 n, int allow_cur) {
  /* returns the index of the process to run, or -1 if none can run */
  int list[MAXP], k = 0, ci = -1;
  for (;;) {
    k = 0; ci = -1;
    for (int i = 0; i < nP; i++) {
      if (P[i] == c) { ci = i; if (!allow_cur) continue; }
      if (P[i]->state != P_DEAD && P[i]->state != P_VFORK && runnable(P[i])) list[k++] = i;
    }
    if (k) break;
    /* nobody can run: jump to the next wake-up */
    i64 w = INT64_MAX;
    for (int i = 0; i < nP; i++)
      if ((P[i]->state == P_SLEEP || P[i]->state == P_FUTURE || ((P[i]->state == P_POLL || P[i]->state == P_CHILD) && P[i]->wake)) && P[i]->wake < w) w = P[i]->wake;
    if (w == INT64_MAX) return -1;
    if (w > now_ns) { now_ns = w; nsleepjump++; }
    allow_cur = 1;
  }
  if (k > maxrunnable) maxrunnable = k;
  int def = list[0];
  if (allow_cur && ci >= 0 && type == 'p') def = ci;
  int pick = def;
  if (replaying) {
    dec_t *d = find_dec(type, c ? c->id : "-", n);
    if (d) {
      d->used = 1;
      for (int i = 0; i < k; i++) if (!strcmp(P[list[i]]->id, d->tgt)) pick = list[i];
    }
  } else if (type == 'p') {
    int o[MAXP], m = 0;
    for (int i = 0; i < k; i++) if (list[i] != ci) o[m++] = list[i];
    if (m) pick = o[rndn(m)];
  } else pick = (pmeta || pio || pfork) ? list[rndn(k)] : def;
  if (pick != def) { rec_sched(type, c, n, P[pick]); }
  return pick;
}
static int others_runnable(proc_t *c) {
  for (int i = 0; i < nP; i++)
    if (P[i] != c && P[i]->state != P_DEAD && P[i]->state != P_VFORK && runnable(P[i])) return 1;
  return 0;
}

/* ------------------------------------------------------------------ syscall classes */
enum { C_NONE, C_META, C_IO, C_FORK };
typedef struct {
  int cls;           /* C_NONE: not a simulated object */
  int mutate;        /* changes file system state */
  int isopen, iswrite, isread, isclose, iscreate; i64 off; /* of reads, if a fault asks for it */
  u64 len; int fd;
  char path[PATH_MAX], path2[PATH_MAX];
  const char *nm;
} ev_t;

static void classify(proc_t *p, struct user_regs_struct *r, ev_t *e) {
  memset(e, 0, offsetof(ev_t, path)); e->path[0] = e->path2[0] = 0; e->nm = "?"; e->fd = -1;
  long nr = r->orig_rax; int two = 0;
  switch (nr) {
    case SYS_open: e->nm = "open"; e->isopen = 1; atpath(p, AT_FDCWD, r->rdi, e->path); e->cls = C_META;
      e->iscreate = (r->rsi & O_CREAT) != 0; e->mutate = e->iscreate || (r->rsi & O_TRUNC); e->len = r->rsi; break;
    case SYS_openat: e->nm = "open"; e->isopen = 1; atpath(p, (int)r->rdi, r->rsi, e->path); e->cls = C_META;
      e->iscreate = (r->rdx & O_CREAT) != 0; e->mutate = e->iscreate || (r->rdx & O_TRUNC); e->len = r->rdx; break;
    case SYS_creat: e->nm = "open"; e->isopen = 1; atpath(p, AT_FDCWD, r->rdi, e->path); e->cls = C_META; e->mutate = e->iscreate = 1; break;
    case SYS_stat: case SYS_lstat: e->nm = "stat"; atpath(p, AT_FDCWD, r->rdi, e->path); e->cls = C_META; break;
    case SYS_access: e->nm = "access"; atpath(p, AT_FDCWD, r->rdi, e->path); e->cls = C_META; break;
    case SYS_newfstatat: { char c = 1; if (r->rsi) rmem(p->pid, r->rsi, &c, 1); if (!c) { e->cls = C_NONE; return; } }
      e->nm = "stat"; atpath(p, (int)r->rdi, r->rsi, e->path); e->cls = C_META; break;
    case SYS_statx: { char c = 1; if (r->rsi) rmem(p->pid, r->rsi, &c, 1); if (!c) { e->cls = C_NONE; return; } }
      e->nm = "stat"; atpath(p, (int)r->rdi, r->rsi, e->path); e->cls = C_META; break;
    case SYS_faccessat: case SYS_faccessat2: e->nm = "access"; atpath(p, (int)r->rdi, r->rsi, e->path); e->cls = C_META; break;
    case SYS_rename: e->nm = "rename"; atpath(p, AT_FDCWD, r->rdi, e->path); atpath(p, AT_FDCWD, r->rsi, e->path2); two = 1; e->cls = C_META; e->mutate = 1; break;
    case SYS_renameat: case SYS_renameat2: e->nm = "rename"; atpath(p, (int)r->rdi, r->rsi, e->path); atpath(p, (int)r->rdx, r->r10, e->path2); two = 1; e->cls = C_META; e->mutate = 1; break;
    case SYS_unlink: case SYS_rmdir: e->nm = "unlink"; atpath(p, AT_FDCWD, r->rdi, e->path); e->cls = C_META; e->mutate = 1; break;
    case SYS_unlinkat: e->nm = "unlink"; atpath(p, (int)r->rdi, r->rsi, e->path); e->cls = C_META; e->mutate = 1; break;
    case SYS_mkdir: e->nm = "mkdir"; atpath(p, AT_FDCWD, r->rdi, e->path); e->cls = C_META; e->mutate = e->iscreate = 1; break;
    case SYS_mkdirat: e->nm = "mkdir"; atpath(p, (int)r->rdi, r->rsi, e->path); e->cls = C_META; e->mutate = e->iscreate = 1; break;
    case SYS_link: case SYS_symlink: e->nm = "link"; atpath(p, AT_FDCWD, nr == SYS_link ? r->rdi : r->rsi, e->path); if (nr == SYS_link) { atpath(p, AT_FDCWD, r->rsi, e->path2); two = 1; } e->cls = C_META; e->mutate = e->iscreate = 1; break;
    case SYS_linkat: e->nm = "link"; atpath(p, (int)r->rdi, r->rsi, e->path); atpath(p, (int)r->rdx, r->r10, e->path2); two = 1; e->cls = C_META; e->mutate = e->iscreate = 1; break;
    case SYS_symlinkat: e->nm = "link"; atpath(p, (int)r->rsi, r->rdx, e->path); e->cls = C_META; e->mutate = e->iscreate = 1; break;
    case SYS_truncate: case SYS_chmod: e->nm = nr == SYS_chmod ? "chmod" : "truncate"; atpath(p, AT_FDCWD, r->rdi, e->path); e->cls = C_META; e->mutate = 1; break;
    case SYS_fchmodat: e->nm = "chmod"; atpath(p, (int)r->rdi, r->rsi, e->path); e->cls = C_META; e->mutate = 1; break;
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv:
      e->nm = "read"; e->isread = 1; e->fd = r->rdi; fdpath(p, e->fd, e->path, PATH_MAX); e->cls = C_IO;
      e->len = (nr == SYS_read || nr == SYS_pread64) ? r->rdx : 0; break;
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev:
      e->nm = "write"; e->iswrite = 1; e->mutate = 1; e->fd = r->rdi; fdpath(p, e->fd, e->path, PATH_MAX); e->cls = C_IO;
      e->len = (nr == SYS_write || nr == SYS_pwrite64) ? r->rdx : 0; break;
    case SYS_sendfile: e->nm = "write"; e->iswrite = 1; e->mutate = 1; e->fd = r->rdi; fdpath(p, e->fd, e->path, PATH_MAX); e->cls = C_IO; break;
    case SYS_copy_file_range: e->nm = "write"; e->iswrite = 1; e->mutate = 1; e->fd = r->rdx; fdpath(p, e->fd, e->path, PATH_MAX); e->cls = C_IO; break;
    case SYS_ftruncate: case SYS_fallocate: case SYS_fchmod: e->nm = nr == SYS_fchmod ? "chmod" : "truncate"; e->fd = r->rdi; fdpath(p, e->fd, e->path, PATH_MAX); e->cls = C_IO; e->mutate = 1; e->len = r->rsi; break;
    case SYS_fsync: case SYS_fdatasync: e->nm = "fsync"; e->fd = r->rdi; fdpath(p, e->fd, e->path, PATH_MAX); e->cls = C_IO; break;
    case SYS_close: e->nm = "close"; e->isclose = 1; e->fd = r->rdi; fdpath(p, e->fd, e->path, PATH_MAX); e->cls = C_IO; break;
    case SYS_getdents64: e->nm = "readdir"; e->fd = r->rdi; fdpath(p, e->fd, e->path, PATH_MAX); e->cls = C_META; break;
    default: return;
  }
  int w = in_world(e->path) || (two && in_world(e->path2));
  if (!w || is_quiet(e->path)) { e->cls = C_NONE; }
}

/* ------------------------------------------------------------------ faults */
static int fault_eligible(int kind, ev_t *e) {
  switch (kind) {
    case K_ENOSPC: return e->iswrite || e->iscreate || (e->mutate && !strcmp(e->nm, "truncate"));
    case K_FULL: return e->iswrite || e->iscreate || (e->mutate && !strcmp(e->nm, "truncate"));
    case K_EIOW: return e->iswrite;
    case K_SHORT: return e->iswrite && e->len > 1;
    case K_EIOR: return e->isread;
    case K_SHORTR: return e->isread && e->len > 1;
    case K_EMFILE: return e->isopen;
    case K_EACCES: return e->isopen || !strcmp(e->nm, "mkdir");
    case K_KILL: return e->mutate || e->isclose;
    case K_KILLALL: return e->mutate || e->isclose;
    case K_KILLMID: return e->iswrite && e->len > 1;
    case K_STALL: return e->cls != C_NONE;
    case K_CLOCK: return e->cls != C_NONE;
    case K_EMETA: return e->cls == C_META && e->mutate && !e->isopen;
    case K_CLOSE: return e->isclose;
  }
  return 0;
}
/* what faults hit: kind, file, how often the file had been opened, operation of the process that follows */
static struct { int kind, opens, proc, open; char path[PATH_MAX]; char next[24]; } hits[64]; static int nhits;
static struct { u64 h; int n; } opens[8192];
static int *nopens(const char *path) {
  u64 h = 1469598103934665603ULL; for (const char *c = path; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ULL;
  int i = h % 8192, t = 0; while (opens[i].h && opens[i].h != h && t++ < 8192) i = (i + 1) % 8192;
  opens[i].h = h; return &opens[i].n;
}
static void rec_hit(int idx, int k, ev_t *e) {
  if (nhits == 64) return;
  hits[nhits].kind = k; hits[nhits].opens = *nopens(e->path); hits[nhits].proc = idx; hits[nhits].open = 1; hits[nhits].next[0] = 0;
  snprintf(hits[nhits++].path, PATH_MAX, "%s", hpath(e->path));
}
static void after_hit(int idx, ev_t *e) {
  for (int i = 0; i < nhits; i++) if (hits[i].open && hits[i].proc == idx) { hits[i].open = 0; snprintf(hits[i].next, sizeof hits[i].next, "%s%s", e->nm, strcmp(hits[i].path, hpath(e->path)) ? "" : "=") ; }
}

/* returns fault kind to fire at this event or -1 */
static int pick_fault(proc_t *p, ev_t *e, i64 *param) {
  int res = -1;
  for (int k = 0; k < K_NKIND; k++) if (e->cls != C_NONE && fault_eligible(k, e)) elig[k]++;
  if (replaying) {
    for (int i = 0; i < ndecs; i++)
      if (decs[i].type == 'F' && !decs[i].used && decs[i].n == p->n && !strcmp(decs[i].id, p->id)) {
        if (!fault_eligible(decs[i].kind, e)) continue;
        decs[i].used = 1; *param = decs[i].param; return decs[i].kind;
      }
    return -1;
  }
  for (int i = 0; i < nfaults; i++) {
    fault_t *f = &faults[i];
    if (f->kind == K_ENOMEM || f->kind == K_FORKFAIL) continue;
    if (f->fired || !fault_eligible(f->kind, e)) continue;
    if (f->sub[0] == '@') { char want[64]; snprintf(want, sizeof want, "%s", f->sub + 1); char *c = strchr(want, ':'); const char *ps = "";
      if (c) { *c = 0; ps = f->sub + 1 + (c - want) + 1; }
      if (strcmp(P[p->root]->name, want)) continue;
      if (*ps && !strstr(e->path, ps)) continue;
    } else if (f->sub[0] && !strstr(e->path, f->sub)) continue;
    if (f->kind == K_EIOR && f->param > 1 && !(e->off < (f->param - 1) * 4096 && e->off + (i64)e->len > (f->param - 2) * 4096)) continue;
    if (f->seen++ == f->index && res < 0) { f->fired = 1; res = f->kind; *param = f->param; }
  }
  return res;
}

static void setregs(proc_t *p, struct user_regs_struct *r) { if (ptrace(PTRACE_SETREGS, p->pid, 0, r)) die("setregs: %s", strerror(errno)); }
static void skip_syscall(proc_t *p, struct user_regs_struct *r, i64 ret) { r->orig_rax = -1; r->rax = ret; setregs(p, r); }

static void on_death(int idx, int st) {
  proc_t *p = P[idx];
  p->state = P_DEAD; p->status = st; p->pending = 0;
  if (p->parent >= 0 && P[p->parent]->state != P_DEAD) {
    proc_t *q = P[p->parent]; if (q->nzomb < 64) q->zomb[q->nzomb++] = p->pid;
  }
  hstr("exit"); hstr(p->id); hnum(WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st));
  if (evf) fprintf(evf, "%lld %s exit %x\n", (long long)nevents, p->id, st);
  if (p->vfork_parent >= 0) {
    int vp = p->vfork_parent, s; p->vfork_parent = -1;
    wait_stop(P[vp]->pid, &s);
    if (!WIFSTOPPED(s)) { on_death(vp, s); return; }
    P[vp]->state = P_READY; P[vp]->sig = 0; P[vp]->pending = 0;
  }
}
static void kill_tree(int root) {
  for (int i = 0; i < nP; i++)
    if (P[i]->root == root && P[i]->state != P_DEAD && P[i]->state != P_FUTURE) {
      int st = 0; kill(P[i]->pid, SIGKILL);
      for (;;) { if (waitpid(P[i]->pid, &st, __WALL) < 0) break; if (WIFEXITED(st) || WIFSIGNALED(st)) break; }
      P[i]->vfork_parent = -1; on_death(i, st);
    }
}

static void add_child(proc_t *p, int pidx, pid_t cpid, int vf) {
  int st, c = newproc(); proc_t *q = P[c];
  q->pid = cpid; q->parent = pidx; q->root = p->root; q->state = P_READY;
  snprintf(q->id, sizeof q->id, "%.50s.%d", p->id, p->nchild++);
  snprintf(q->name, sizeof q->name, "%s", p->name);
  if (vf) q->vfork_parent = pidx;
  wait_stop(cpid, &st);
  if (!WIFSTOPPED(st)) { on_death(c, st); return; }
  hstr("fork"); hstr(q->id);
}

/* resume p until its next decision point.  returns 0 alive, 1 dead, 2 blocked on vfork child.
   how: PTRACE_CONT or PTRACE_SYSCALL handled by callers */
static int vtime_only(proc_t *p, struct user_regs_struct *r); /* emulations that are no decision points */

static int advance(int idx, int first_sig) {
  proc_t *p = P[idx]; int st, sig = first_sig;
  for (;;) {
    if (ptrace(PTRACE_CONT, p->pid, 0, sig)) {
      if (errno != ESRCH) die("cont: %s", strerror(errno));
    }
    sig = 0;
    wait_stop(p->pid, &st);
    if (WIFEXITED(st) || WIFSIGNALED(st)) { on_death(idx, st); return 1; }
    int ev = st >> 16;
    if (ev == PTRACE_EVENT_SECCOMP) {
      if (ptrace(PTRACE_GETREGS, p->pid, 0, &p->regs)) die("getregs: %s", strerror(errno));
      if (vtime_only(p, &p->regs)) continue;
      p->pending = 1;
      return 0;
    }
    if (ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK || ev == PTRACE_EVENT_CLONE) {
      unsigned long c; ptrace(PTRACE_GETEVENTMSG, p->pid, 0, &c);
      if (ev == PTRACE_EVENT_CLONE) {
        char tg[64]; snprintf(tg, sizeof tg, "/proc/%d/task/%lu", p->pid, c);
        if (!access(tg, F_OK)) die("process %s (%s) started a second thread; threads are not modelled at process level", p->id, p->name);
      }
      add_child(p, idx, (pid_t)c, ev == PTRACE_EVENT_VFORK);
      if (ev == PTRACE_EVENT_VFORK) {
        p->state = P_VFORK; p->pending = 0;
        if (ptrace(PTRACE_CONT, p->pid, 0, 0)) die("cont vfork: %s", strerror(errno));
        return 2;
      }
      p->pending = 2; /* fork decision point */
      return 0;
    }
    if (ev == PTRACE_EVENT_EXEC) {
      fix_auxv(p);
      if (p->vfork_parent >= 0) {
        int vp = p->vfork_parent, s; p->vfork_parent = -1; wait_stop(P[vp]->pid, &s);
        if (!WIFSTOPPED(s)) on_death(vp, s); else { P[vp]->state = P_READY; P[vp]->pending = 0; P[vp]->sig = 0; }
      }
      continue;
    }
    if (ev == PTRACE_EVENT_VFORK_DONE) continue;
    if (ev == PTRACE_EVENT_STOP) continue; /* group stop / initial stop */
    sig = WSTOPSIG(st);
    if (sig == (SIGTRAP | 0x80)) sig = 0;
  }
}
/* execute the pending syscall and stop at its exit; returns 0 ok, 1 dead */
static int step_syscall(int idx, struct user_regs_struct *out) {
  proc_t *p = P[idx]; int st;
  if (ptrace(PTRACE_SYSCALL, p->pid, 0, 0)) die("syscall: %s", strerror(errno));
  for (;;) {
    wait_stop(p->pid, &st);
    if (WIFEXITED(st) || WIFSIGNALED(st)) { on_death(idx, st); return 1; }
    if (WSTOPSIG(st) == (SIGTRAP | 0x80)) break;
    int ev = st >> 16; int s = ev ? 0 : WSTOPSIG(st);
    if (ptrace(PTRACE_SYSCALL, p->pid, 0, s)) die("syscall: %s", strerror(errno));
  }
  if (ptrace(PTRACE_GETREGS, p->pid, 0, out)) die("getregs: %s", strerror(errno));
  return 0;
}

static void put_ts(proc_t *p, u64 addr, i64 ns, int usec) {
  i64 v[2] = { ns / 1000000000, ns % 1000000000 };
  if (usec) v[1] /= 1000;
  if (addr) wmem(p->pid, addr, v, 16);
}
static i64 get_ts(proc_t *p, u64 addr) { i64 v[2] = { 0, 0 }; if (addr) rmem(p->pid, addr, v, 16); return v[0] * 1000000000 + v[1]; }
static void fill_random(proc_t *p, u64 addr, u64 n) {
  unsigned char b[4096];
  /* a stream per process: what one process draws does not shift the others */
  if (!p->rstate) { p->rstate = dstate; for (const char *c = p->id; *c; c++) { u64 x = p->rstate ^ (unsigned char)*c; p->rstate = splitmix(&x); } p->rstate |= 1; }
  while (n) { u64 k = n > sizeof b ? sizeof b : n; for (u64 i = 0; i < k; i++) b[i] = splitmix(&p->rstate) >> 24; wmem(p->pid, addr, b, k); addr += k; n -= k; }
}

/* emulations which never block and are no scheduling points */
static int vtime_only(proc_t *p, struct user_regs_struct *r) {
  i64 wall = epoch * 1000000000LL + now_ns;
  switch (r->orig_rax) {
    case SYS_time: { i64 s = wall / 1000000000; if (r->rdi) wmem(p->pid, r->rdi, &s, 8); skip_syscall(p, r, s); now_ns += 200; return 1; }
    case SYS_gettimeofday: put_ts(p, r->rdi, wall, 1); skip_syscall(p, r, 0); now_ns += 200; return 1;
    case SYS_clock_gettime: { i64 t = wall; int c = (int)r->rdi; if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) t = now_ns + 1000000000LL;
      put_ts(p, r->rsi, t, 0); skip_syscall(p, r, 0); now_ns += 200; return 1; }
    case SYS_times: { i64 z[4] = { 0, 0, 0, 0 }; if (r->rdi) wmem(p->pid, r->rdi, z, 32); skip_syscall(p, r, now_ns / 10000000 + 100); return 1; }
    case SYS_getrusage: { char z[144]; memset(z, 0, sizeof z); wmem(p->pid, r->rsi, z, sizeof z); skip_syscall(p, r, 0); return 1; }
    case SYS_sysinfo: { long z[14] = { 0 }; struct { long up; unsigned long l[3], t, f, s, b, ts, fs; unsigned short pr, pad; unsigned long th, fh; unsigned mu; } *si = (void *)z;
      si->up = 1000 + now_ns / 1000000000; si->t = 8UL << 30; si->f = 6UL << 30; si->pr = 10; si->mu = 1; wmem(p->pid, r->rdi, z, 112); skip_syscall(p, r, 0); return 1; }
    case SYS_getrandom: fill_random(p, r->rdi, r->rsi); skip_syscall(p, r, r->rsi); return 1;
    case SYS_tkill: case SYS_tgkill: { i64 t = r->orig_rax == SYS_tkill ? r->rdi : r->rsi; if (t == p->pid) return 0;
      for (int i = 0; i < nP; i++) if (P[i]->pid == t && P[i]->state != P_DEAD) return 0;
      skip_syscall(p, r, -ESRCH); return 1; }
    case SYS_kill: { i64 t = (int)r->rdi; int ok = 0; if (t < 0) t = -t;
      for (int i = 0; i < nP; i++) if (P[i]->pid == t && P[i]->state != P_DEAD) ok = 1;
      if (t == 0) ok = 1;
      if (!ok) { skip_syscall(p, r, -ESRCH); return 1; }
      if ((int)r->rsi == SIGKILL && t && t != p->pid && ((int)r->rdi > 0 || t != getpgid(p->pid))) { /* takes effect at once */
        for (int i = 0; i < nP; i++) if (P[i]->pid > 0 && P[i]->state != P_DEAD && P[i]->state != P_FUTURE && ((int)r->rdi > 0 ? P[i]->pid == t : getpgid(P[i]->pid) == t)) {
          int st = 0; kill(P[i]->pid, SIGKILL);
          for (;;) { if (waitpid(P[i]->pid, &st, __WALL) < 0) break; if (WIFEXITED(st) || WIFSIGNALED(st)) break; }
          on_death(i, st);
        }
        skip_syscall(p, r, 0); return 1; }
      return 0; }
    case SYS_futex: {
      int op = r->rsi & 0x7f;
      if (op == 0 || op == 9) { /* wait */
        uint32_t v = 0; rmem(p->pid, r->rdi, &v, 4);
        if (v == (uint32_t)r->rdx) die("process %s (%s) blocks on a futex; threads are not modelled at process level", p->id, p->name);
      }
      return 0; }
    case SYS_mmap: case SYS_brk: {
      if (r->orig_rax == SYS_mmap && !(r->r10 & 0x20)) return 0;
      if (r->orig_rax == SYS_brk && r->rdi == 0) return 0;
      if (r->orig_rax == SYS_mmap && (r->r10 & 0x10)) return 0; /* MAP_FIXED: loader */
      int fire = 0; i64 par = 0;
      elig[K_ENOMEM]++;
      p->nspawn++;
      if (enomem_left > 0) { enomem_left--; fire = 1; }
      if (replaying) {
        for (int i = 0; i < ndecs; i++) if (decs[i].type == 'F' && decs[i].kind == K_ENOMEM && !decs[i].used && decs[i].n == p->nspawn && !strcmp(decs[i].id, p->id)) { decs[i].used = 1; fire = 2; par = decs[i].param; }
      } else for (int i = 0; i < nfaults; i++) { fault_t *f = &faults[i];
        if (f->kind != K_ENOMEM || f->fired) continue;
        if (f->sub[0] == '@' && strcmp(P[p->root]->name, f->sub + 1)) continue;
        if (f->seen++ == f->index) { f->fired = 1; fire = 2; par = f->param; } }
      if (fire == 2) { firedn[K_ENOMEM]++; rec_fault(p, p->nspawn, K_ENOMEM, par); enomem_left = par; p->injected++; hstr("enomem"); hstr(p->id);
        if (evf) fprintf(evf, "%lld %s FAULT enomem %lld\n", (long long)nevents, p->id, (long long)par); }
      if (!fire) return 0;
      if (r->orig_rax == SYS_brk) { /* failing brk returns the old break: ask the kernel with 0 */ r->rdi = 0; setregs(p, r); return 0; }
      skip_syscall(p, r, -ENOMEM); return 1; }
  }
  return 0;
}

static void block(proc_t *p, int state, i64 wake) { p->state = state; p->wake = wake; }

static void do_dirents(int idx, struct user_regs_struct *r0) {
  struct user_regs_struct r; proc_t *p = P[idx];
  u64 buf = r0->rsi;
  if (step_syscall(idx, &r)) return;
  i64 n = (i64)r.rax;
  if (n > 0 && shuffle) {
    char *b = malloc(n), *o = malloc(n); int off[4096], k = 0, pos = 0;
    if (!rmem(p->pid, buf, b, n)) {
      while (pos < n && k < 4096) { off[k++] = pos; pos += *(unsigned short *)(b + pos + 16); }
      /* canonical order first so that the result depends on the seed only */
      for (int i = 1; i < k; i++) { int v = off[i], j = i; while (j > 0 && strcmp(b + off[j - 1] + 19, b + v + 19) > 0) { off[j] = off[j - 1]; j--; } off[j] = v; }
      u64 s = seed * 0x9e3779b97f4a7c15ULL ^ (p->n * 7919) ^ 0x55;
      for (int i = k - 1; i > 0; i--) { int j = splitmix(&s) % (i + 1); int t = off[i]; off[i] = off[j]; off[j] = t; }
      int w = 0;
      i64 *offs = malloc(k * 8); int q = 0; pos = 0;
      while (pos < n) { offs[q++] = *(i64 *)(b + pos + 8); pos += *(unsigned short *)(b + pos + 16); }
      for (int i = 0; i < k; i++) { int l = *(unsigned short *)(b + off[i] + 16); memcpy(o + w, b + off[i], l); *(i64 *)(o + w + 8) = offs[i]; w += l; }
      wmem(p->pid, buf, o, n); free(offs);
    }
    free(b); free(o);
  }
}

/* run the pending syscall of process idx, then run on to its next decision point */
static void exec_pending(int idx) {
  proc_t *p = P[idx]; struct user_regs_struct r = p->regs, ro; static ev_t e; i64 param = 0;
  if (p->pending == 2 || p->pending == 0) { p->pending = 0; p->state = P_READY; advance(idx, 0); return; }
  long nr = r.orig_rax;
  int resumed = p->state != P_READY; /* woke from a wait */
  i64 woke_timeout = 0;
  if (p->state == P_SLEEP && p->stalled) { p->stalled = 0; p->state = P_READY; goto do_event_nofault; }
  if (p->state == P_SLEEP) { p->state = P_READY; p->pending = 0; skip_syscall(p, &r, 0); advance(idx, 0); return; }
  if ((p->state == P_POLL || p->state == P_CHILD) && p->wake && now_ns >= p->wake) woke_timeout = 1;
  p->state = P_READY; (void)resumed;
  switch (nr) {
    case SYS_nanosleep: block(p, P_SLEEP, now_ns + get_ts(p, r.rdi)); return;
    case SYS_clock_nanosleep: { i64 t = get_ts(p, r.rdx);
      if (r.rsi & TIMER_ABSTIME) t -= (r.rdi == CLOCK_REALTIME ? epoch * 1000000000LL : -1000000000LL); else t += now_ns;
      block(p, P_SLEEP, t); return; }
    case SYS_wait4: {
      i64 arg = (int)r.rdi;
      if (!(r.rdx & WNOHANG) && !child_ready(p, arg)) { p->waitpid_arg = arg; block(p, P_CHILD, 0); return; }
      p->pending = 0;
      if (step_syscall(idx, &ro)) return;
      if ((i64)ro.rax > 0) for (int i = 0; i < p->nzomb; i++) if (p->zomb[i] == (pid_t)ro.rax) { p->zomb[i] = p->zomb[--p->nzomb]; break; }
      if ((i64)ro.rax > 0 && ro.r10) { char z[144]; memset(z, 0, sizeof z); wmem(p->pid, ro.r10, z, sizeof z); }
      advance(idx, 0); return; }
    case SYS_waitid: {
      i64 arg = r.rdi == P_PID ? (int)r.rsi : -1;
      if (r.rdi == 3) { arg = -1; }
      if (!(r.r10 & WNOHANG) && !child_ready(p, arg)) { p->waitpid_arg = arg; block(p, P_CHILD, 0); return; }
      p->pending = 0; pid_t got = 0;
      if (step_syscall(idx, &ro)) return;
      if ((i64)ro.rax == 0 && ro.rdx) rmem(p->pid, ro.rdx + 12, &got, 4);
      if (got > 0 && !(ro.r10 & WNOWAIT)) for (int i = 0; i < p->nzomb; i++) if (p->zomb[i] == got) { p->zomb[i] = p->zomb[--p->nzomb]; break; }
      advance(idx, 0); return; }
    case SYS_pause: case SYS_rt_sigsuspend:
      if (!p->nzomb) { block(p, P_SIG, 0); return; }
      p->pending = 0; advance(idx, 0); return;
    case SYS_poll: case SYS_ppoll: {
      struct pollfd f[16]; int n = (int)r.rsi; if (n > 16) n = 16;
      i64 to = -1;
      if (nr == SYS_poll) to = (int)r.rdx < 0 ? -1 : (i64)(int)r.rdx * 1000000; else if (r.rdx) to = get_ts(p, r.rdx);
      int rdy = 0;
      if (n && !rmem(p->pid, r.rdi, f, n * sizeof *f)) for (int i = 0; i < n; i++) if (f[i].fd >= 0 && poll_fd(p, f[i].fd, f[i].events)) rdy = 1;
      if (!rdy && to != 0 && !woke_timeout) {
        p->pollfd = n ? f[0].fd : 0; p->pollev = n ? f[0].events : 0;
        if (n == 0) { block(p, P_SLEEP, now_ns + to); return; }
        if (n > 1) die("poll on several descriptors is not modelled (%s)", p->name);
        block(p, P_POLL, to < 0 ? 0 : now_ns + to + 1); return; }
      p->pending = 0;
      if (!rdy) { skip_syscall(p, &r, 0); }
      advance(idx, 0); return; }
    case SYS_select: case SYS_pselect6: {
      /* modelled as: ready if any set bit is ready, else sleep/poll on the first */
      unsigned long s[3][16]; u64 ad[3] = { r.rsi, r.rdx, r.r10 }; int first = -1; short fe = 0, rdy = 0; memset(s, 0, sizeof s);
      int nfd = (int)r.rdi; if (nfd > 1024) nfd = 1024;
      for (int k = 0; k < 2; k++) if (ad[k]) rmem(p->pid, ad[k], s[k], (nfd + 63) / 64 * 8);
      int cnt = 0;
      for (int fd = 0; fd < nfd; fd++) for (int k = 0; k < 2; k++) if (s[k][fd / 64] >> (fd % 64) & 1) { cnt++;
        if (first < 0) { first = fd; fe = k ? POLLOUT : POLLIN; } if (poll_fd(p, fd, k ? POLLOUT : POLLIN)) rdy = 1; }
      i64 to = -1; if (r.r8) { i64 v[2]; rmem(p->pid, r.r8, v, 16); to = v[0] * 1000000000 + v[1] * (nr == SYS_select ? 1000 : 1); }
      if (!rdy && to != 0 && !woke_timeout) {
        if (first < 0) { if (to < 0) die("select without descriptors and timeout"); block(p, P_SLEEP, now_ns + to); return; }
        if (cnt > 1) die("select on several descriptors is not modelled (%s)", p->name);
        p->pollfd = first; p->pollev = fe; block(p, P_POLL, to < 0 ? 0 : now_ns + to + 1); return; }
      p->pending = 0;
      if (!rdy) { i64 z[16] = { 0 }; for (int k = 0; k < 3; k++) if (ad[k]) wmem(p->pid, ad[k], z, (nfd + 63) / 64 * 8); skip_syscall(p, &r, 0); }
      advance(idx, 0); return; }
    case SYS_flock: {
      if (!(r.rsi & LOCK_NB)) { r.rsi |= LOCK_NB; struct user_regs_struct o = p->regs; setregs(p, &r); if (step_syscall(idx, &ro)) return;
        if ((i64)ro.rax == -EWOULDBLOCK) { /* retry later */ ro.rip -= 2; ro.rax = SYS_flock; ro.rsi = o.rsi; setregs(p, &ro); block(p, P_SLEEP, now_ns + 10000000); p->pending = 0; return; }
        p->pending = 0; advance(idx, 0); return; }
      break; }
  }
  /* ordinary file operations */
  if (nr == SYS_read || nr == SYS_write || nr == SYS_readv || nr == SYS_writev) {
    char fp[PATH_MAX]; fdpath(p, (int)r.rdi, fp, sizeof fp);
    if (!strncmp(fp, "pipe:", 5)) {
      short ev = (nr == SYS_read || nr == SYS_readv) ? POLLIN : POLLOUT;
      if (!poll_fd(p, (int)r.rdi, ev)) { p->pollfd = (int)r.rdi; p->pollev = ev; block(p, P_POLL, 0); return; }
      if (nr == SYS_write && r.rdx > 4096) { r.rdx = 4096; setregs(p, &r); } /* a ready pipe takes a page, more could block in the kernel */
      p->pending = 0; advance(idx, 0); return;
    }
    if (nr == SYS_read && (!strcmp(fp, "/dev/urandom") || !strcmp(fp, "/dev/random"))) {
      p->pending = 0; fill_random(p, r.rsi, r.rdx); skip_syscall(p, &r, r.rdx); advance(idx, 0); return;
    }
  }
  classify(p, &r, &e);
  if (e.cls == C_NONE) { p->pending = 0; advance(idx, 0); return; }
  /* faults */
  if (e.isread && (wantoff || replaying)) e.off = nr == SYS_pread64 ? (i64)r.r10 : fdpos(p, e.fd);
  int k = pick_fault(p, &e, &param);
  if (e.isopen) ++*nopens(e.path);
  if (k >= 0) {
    firedn[k]++; p->injected++; rec_fault(p, p->n, k, param); rec_hit(idx, k, &e);
    hstr("fault"); hnum(k); hstr(p->id);
    if (evf) fprintf(evf, "%lld %s FAULT %s %lld %s %s\n", (long long)nevents, p->id, kname[k], (long long)param, e.nm, hpath(e.path));
    if (k == K_STALL) { p->stalled = 1; block(p, P_SLEEP, now_ns + param * 1000000); return; }
    if (k == K_CLOCK) { now_ns += param * 1000000; k = -1; }
    else if (k == K_KILL) { kill_tree(p->root); return; }
    else if (k == K_KILLALL) { for (int i = 0; i < nP; i++) if (P[i]->isroot) { if (P[i]->state == P_FUTURE) { P[i]->state = P_DEAD; P[i]->status = 9; } else kill_tree(i); } return; }
    else if (k == K_KILLMID) {
      u64 h = e.len * (u64)(param > 0 && param < 100 ? param : 50) / 100; if (!h) h = 1;
      r.rdx = h; setregs(p, &r); p->pending = 0; if (!step_syscall(idx, &ro)) kill_tree(p->root); return;
    }
    else if (k == K_EIOR && param && nbad < 8) {
      bad[nbad].a = param == 1 ? e.off : (param - 2) * 4096; bad[nbad].b = param == 1 ? e.off + (i64)(e.len ? e.len : 1) : (param - 1) * 4096;
      snprintf(bad[nbad++].path, PATH_MAX, "%s", e.path);
    }
    else if (k == K_FULL) { disk_full_left = param > 0 ? param : 1000000000; k = K_ENOSPC; }
  }
  if (k < 0 && disk_full_left > 0 && fault_eligible(K_FULL, &e)) {
    /* an overfull disk refuses new blocks: appends and creations */
    disk_full_left--; k = K_ENOSPC;
    if (evf) fprintf(evf, "%lld %s full %s %s\n", (long long)nevents, p->id, e.nm, hpath(e.path));
    if (disk_full_left == 0) disk_full_left = -1;
  }
  if (k < 0 && nbad && e.isread) for (int i = 0; i < nbad; i++) if (!strcmp(bad[i].path, e.path)) {
    if (e.off < bad[i].b && e.off + (i64)e.len > bad[i].a) { k = K_EIOR; if (evf) fprintf(evf, "%lld %s bad %s %s\n", (long long)nevents, p->id, e.nm, hpath(e.path)); break; }
  }
  if (k >= 0) {
    i64 err = 0;
    switch (k) {
      case K_ENOSPC: err = ENOSPC; break;
      case K_EIOW: case K_EIOR: case K_EMETA: err = EIO; break;
      case K_EMFILE: err = EMFILE; break;
      case K_EACCES: err = EACCES; break;
      case K_SHORT: case K_SHORTR: { u64 h = e.len * (u64)(param > 0 && param < 100 ? param : 50) / 100; if (!h) h = 1; r.rdx = h; setregs(p, &r); p->pending = 0; advance(idx, 0); return; }
      case K_CLOSE: p->pending = 0; if (step_syscall(idx, &ro)) return; ro.rax = -(i64)(param ? param : EIO); setregs(p, &ro); advance(idx, 0); return;
    }
    p->pending = 0; skip_syscall(p, &r, -err); advance(idx, 0); return;
  }
do_event_nofault:
  p->pending = 0;
  if (nr == SYS_getdents64) { do_dirents(idx, &r); if (P[idx]->state != P_DEAD) advance(idx, 0); return; }
  advance(idx, 0);
}

/* ------------------------------------------------------------------ result */
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f); if ((unsigned char)*s < 32) { fprintf(f, "\\u%04x", *s); continue; } fputc(*s, f); } fputc('"', f); }
static void write_result(void) {
  FILE *f = fopen(resultf, "w"); if (!f) return;
  fprintf(f, "{\"end\":\"%s\",\"error\":", endreason); jstr(f, errmsg);
  fprintf(f, ",\"events\":%lld,\"switches\":%lld,\"decision_points\":%lld,\"vtime_ns\":%lld,\"time_jumps\":%lld,\"procs\":%d,\"max_runnable\":%lld,\"hash\":\"%016llx\",\"sched\":\"%016llx\",",
    (long long)nevents, (long long)nswitch, (long long)ndecpoints, (long long)now_ns, (long long)nsleepjump, nP, (long long)maxrunnable, (unsigned long long)hsh, (unsigned long long)hsched);
  fprintf(f, "\"eligible\":{"); for (int k = 0; k < K_NKIND; k++) fprintf(f, "%s\"%s\":%lld", k ? "," : "", kname[k], (long long)elig[k]);
  fprintf(f, "},\"fired\":{"); int c = 0; for (int k = 0; k < K_NKIND; k++) if (firedn[k]) fprintf(f, "%s\"%s\":%lld", c++ ? "," : "", kname[k], (long long)firedn[k]);
  fprintf(f, "},\"hits\":[");
  for (int i = 0; i < nhits; i++) { fprintf(f, "%s[\"%s\",", i ? "," : "", kname[hits[i].kind]); jstr(f, hits[i].path); fprintf(f, ",%d,\"%s\"]", hits[i].opens, hits[i].next); }
  fprintf(f, "],\"exits\":{"); c = 0;
  for (int i = 0; i < nP; i++) if (P[i]->isroot) { int st = P[i]->status;
    int v = P[i]->state != P_DEAD ? -1000 : WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    fprintf(f, "%s", c++ ? "," : ""); jstr(f, P[i]->name); fprintf(f, ":%d", v); }
  fprintf(f, "},\"injected\":{"); c = 0;
  for (int i = 0; i < nP; i++) if (P[i]->isroot) { int s = 0; for (int j = 0; j < nP; j++) if (P[j]->root == i) s += P[j]->injected;
    fprintf(f, "%s", c++ ? "," : ""); jstr(f, P[i]->name); fprintf(f, ":%d", s); }
  fprintf(f, "}}\n"); fclose(f);
}

/* ------------------------------------------------------------------ contended paths */
#define HOTN 65536
static struct { u64 h; int root; int shared; } hot[HOTN];
static int contended(proc_t *p, const char *path) {
  if (!path[0]) return 0;
  size_t l = strlen(path); u64 h = 1469598103934665603ULL;
  if (l > 5 && !strcmp(path + l - 5, ".lock")) l -= 5;
  hmix(&h, path, l); if (!h) h = 1;
  u64 i = h % HOTN; int n = 0;
  while (hot[i].h && hot[i].h != h && n++ < 1000) i = (i + 1) % HOTN;
  if (!hot[i].h) { hot[i].h = h; hot[i].root = p->root; return 0; }
  if (hot[i].h != h) return 0;
  if (hot[i].root != p->root) hot[i].shared = 1;
  return hot[i].shared;
}

/* ------------------------------------------------------------------ main */
static char *dupline(FILE *f) { char *l = NULL; size_t c = 0; ssize_t k = getline(&l, &c, f); if (k < 0) { free(l); return NULL; } if (k && l[k - 1] == '\n') l[k - 1] = 0; return l; }
static int kind_of(const char *s) { for (int k = 0; k < K_NKIND; k++) if (!strcmp(s, kname[k])) return k; return -1; }

int main(int argc, char **argv) {
  if (argc < 2) { fprintf(stderr, "usage: psim CONFIG\n"); return 2; }
  FILE *f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 2; }
  char *env[256]; int nenv = 0; char *l;
  while ((l = dupline(f))) {
    char k[64] = "", a[PATH_MAX] = ""; int o = 0;
    if (!*l || *l == '#') continue;
    sscanf(l, "%63s %n", k, &o); snprintf(a, sizeof a, "%s", l + o);
    if (!strcmp(k, "seed")) seed = strtoull(a, 0, 10);
    else if (!strcmp(k, "world")) snprintf(world, sizeof world, "%s", a);
    else if (!strcmp(k, "exclude")) snprintf(excl[nexcl++ % MAXQ], PATH_MAX, "%s", a);
    else if (!strcmp(k, "quiet")) snprintf(quiet[nquiet++ % MAXQ], 64, "%.60s", a);
    else if (!strcmp(k, "result")) snprintf(resultf, sizeof resultf, "%s", a);
    else if (!strcmp(k, "trace")) snprintf(tracef, sizeof tracef, "%s", a);
    else if (!strcmp(k, "events")) snprintf(eventsf, sizeof eventsf, "%s", a);
    else if (!strcmp(k, "replay")) snprintf(replayf, sizeof replayf, "%s", a);
    else if (!strcmp(k, "epoch")) epoch = atoll(a);
    else if (!strcmp(k, "tick")) tick = atoll(a);
    else if (!strcmp(k, "maxevents")) maxevents = atoll(a);
    else if (!strcmp(k, "maxvtime")) maxvtime = atoll(a);
    else if (!strcmp(k, "heap")) traceheap = atoi(a);
    else if (!strcmp(k, "sched")) sscanf(a, "%d %d %d", &pmeta, &pio, &pfork);
    else if (!strcmp(k, "hot")) phot = atoi(a);
    else if (!strcmp(k, "shuffle")) shuffle = atoi(a);
    else if (!strcmp(k, "fault")) { fault_t *q = &faults[nfaults]; char kn[64]; long long i = 0, pa = 0; memset(q, 0, sizeof *q);
      if (sscanf(a, "%63s %lld %lld %255s", kn, &i, &pa, q->sub) < 3 || (q->kind = kind_of(kn)) < 0) { fprintf(stderr, "bad fault: %s\n", a); return 2; }
      q->index = i; q->param = pa; if (q->kind == K_EIOR && pa) wantoff = 1; if (nfaults < 63) nfaults++; }
    else if (!strcmp(k, "envclear")) nenv = 0;
    else if (!strcmp(k, "env")) { if (nenv < 250) env[nenv++] = strdup(a); }
    else if (!strcmp(k, "proc")) {
      char nm[64], cw[PATH_MAX]; long long st; int ac; int pi = newproc(); proc_t *p = P[pi];
      if (sscanf(a, "%63s %4095s %lld %d", nm, cw, &st, &ac) != 4) { fprintf(stderr, "bad proc: %s\n", a); return 2; }
      snprintf(p->name, 64, "%s", nm); snprintf(p->cwd, PATH_MAX, "%s", cw); p->start = st; p->isroot = 1; p->root = pi;
      snprintf(p->id, sizeof p->id, "%d", pi); p->argv = calloc(ac + 1, sizeof(char *));
      for (int i = 0; i < ac; i++) p->argv[i] = dupline(f);
      p->envp = calloc(nenv + 1, sizeof(char *)); for (int i = 0; i < nenv; i++) p->envp[i] = env[i];
      p->state = P_FUTURE; p->wake = st; nroots++;
    } else { fprintf(stderr, "bad config line: %s\n", l); return 2; }
    free(l);
  }
  fclose(f);
  u64 x = seed; for (int i = 0; i < 4; i++) rs[i] = splitmix(&x);
  dstate = seed ^ 0xabcdef12345ULL;
  if (replayf[0]) {
    FILE *g = fopen(replayf, "r"); if (!g) { perror(replayf); return 2; }
    replaying = 1;
    while ((l = dupline(g))) {
      dec_t d; memset(&d, 0, sizeof d); long long n, pa; char kn[64], ty;
      if (sscanf(l, "S %c %63s %lld %63s", &ty, d.id, &n, d.tgt) == 4) { d.type = ty; d.n = n; }
      else if (sscanf(l, "F %63s %lld %63s %lld", d.id, &n, kn, &pa) == 4 && (d.kind = kind_of(kn)) >= 0) { d.type = 'F'; d.n = n; d.param = pa; if (d.kind == K_ENOMEM) traceheap = 1; }
      else { free(l); continue; }
      decs = realloc(decs, (ndecs + 1) * sizeof *decs); decs[ndecs++] = d; free(l);
    }
    fclose(g);
  }
  for (int i = 0; i < nfaults; i++) if (faults[i].kind == K_ENOMEM) traceheap = 1;
  if (eventsf[0]) evf = fopen(eventsf, "w");
  if (tracef[0]) trf = fopen(tracef, "w");
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, NULL);
  signal(SIGPIPE, SIG_IGN);

  cur = choose('b', NULL, 0, 0);
  while (cur >= 0) {
    proc_t *p = P[cur];
    if (p->state == P_FUTURE) { launch(p); fix_auxv(p); p->state = P_READY; p->pending = 0; }
    exec_pending(cur);
    if (nevents > maxevents) { endreason = "livelock"; killall_tracees(); break; }
    if (now_ns > maxvtime * 1000000000LL) { endreason = "vtime"; killall_tracees(); break; }
    if (p->state == P_DEAD) { int nx = choose('x', p, ++p->nb, 0); if (nx >= 0) { nswitch++; hmix(&hsched, P[nx]->id, strlen(P[nx]->id) + 1); } cur = nx; continue; }
    if (p->state != P_READY) { int nx = choose('b', p, ++p->nb, runnable(p)); if (nx >= 0 && nx != cur) { nswitch++; hmix(&hsched, P[nx]->id, strlen(P[nx]->id) + 1); } cur = nx; continue; }
    /* p stands at a new decision point */
    static ev_t e; int pr = 0;
    if (p->pending == 2) { pr = pfork; e.cls = C_FORK; e.nm = "fork"; e.path[0] = e.path2[0] = 0; e.mutate = 0; e.iswrite = 0; e.len = 0; }
    else if (p->pending == 1) { classify(p, &p->regs, &e); pr = e.cls == C_META ? pmeta : e.cls == C_IO ? pio : 0; }
    else { e.cls = C_NONE; }
    if (e.cls == C_NONE) continue;
    if (phot && e.cls != C_FORK && (contended(p, e.path) | contended(p, e.path2)) && phot > pr) pr = phot;
    nevents++; p->n++; now_ns += tick;
    if (nhits) after_hit(cur, &e);
    hstr(p->id); hstr(e.nm); hstr(hpath(e.path)); if (e.path2[0]) hstr(hpath(e.path2)); hnum(strstr(e.path, "/.lk") ? 0 : e.len);
    hmix(&hsched, p->id, strlen(p->id) + 1);
    if (e.iswrite && e.len > 0 && e.len < 1 << 24 && !strstr(e.path, ".lk") && !strstr(e.path, ".lock") && (p->regs.orig_rax == SYS_write || p->regs.orig_rax == SYS_pwrite64)) {
      char *b = malloc(e.len); if (!rmem(p->pid, p->regs.rsi, b, e.len)) hcontent(b, e.len); free(b); }
    if (evf) fprintf(evf, "%lld %s#%lld %s %s %s %llu\n", (long long)nevents, p->id, (long long)p->n, e.nm, hpath(e.path), e.path2[0] ? strrchr(e.path2, '/') : "", (unsigned long long)e.len);
    if (replaying) {
      dec_t *d = find_dec('p', p->id, p->n);
      if (d) { int nx = choose('p', p, p->n, 1); if (nx != cur) { nswitch++; hmix(&hsched, P[nx]->id, strlen(P[nx]->id) + 1); } cur = nx; }
    } else if (pr > 0) {
      ndecpoints++;
      if ((int)rndn(10000) < pr && others_runnable(p)) { int nx = choose('p', p, p->n, 1); if (nx != cur) { nswitch++; hmix(&hsched, P[nx]->id, strlen(P[nx]->id) + 1); } cur = nx; }
    }
  }
  int alive = 0; for (int i = 0; i < nP; i++) if (P[i]->state != P_DEAD) alive++;
  if (alive && !strcmp(endreason, "done")) { endreason = "deadlock"; }
  killall_tracees();
  for (int i = 0; i < nP; i++) if (P[i]->state != P_DEAD && P[i]->pid > 0) waitpid(P[i]->pid, NULL, __WALL);
  if (evf) fclose(evf);
  if (trf) fclose(trf);
  hstr(endreason);
  write_result();
  return 0;
}
