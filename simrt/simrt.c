// simrt: a deterministic run-time for one simulated process.
//
// Loaded into the program under test with LD_PRELOAD.  It owns every source of
// nondeterminism the program can see through libc: thread scheduling, futexes,
// clocks and sleeps, random bytes, directory order, standard input, and the
// outcome of every file-system call.  Exactly one thread runs at a time; the
// running thread changes only at "points" (atomic operations compiled with the
// LLVM tsan pass, futexes, thread creation, system calls), and which thread
// runs next is decided by a seeded generator or by a recorded script.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef int64_t s64;

#define EXPORT __attribute__((visibility("default")))

// ---------------------------------------------------------------- raw calls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
#define raw(n, a, b, c, d) raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)
static long ret(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

// ------------------------------------------------------------------ prng
static u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static u64 hash2(u64 seed, u64 n) { return mix64(mix64(seed) ^ (n * 0xd1342543de82ef95ull)); }
typedef struct { u64 s; } rng;
static u64 rnd(rng *r) {
  r->s += 0x9e3779b97f4a7c15ull;
  u64 z = r->s;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// ------------------------------------------------------------- report layout
enum { MAXDEC = 65536, MAXOPS = 32768, PATHBYTES = 262144, MAXFIRED = 4096 };
typedef struct { u64 step; u32 tid; u32 from; } dec_t;
typedef struct {
  u32 idx;
  u8 cls, fault;
  uint16_t tid;
  u32 path;
  int32_t result;
  u64 step;
  u64 arg;
  u64 aux;
} op_t;
typedef struct { u32 op; u32 kind; s64 arg; } fired_t;
typedef struct {
  u64 magic, steps, switches, nops, nthreads, simtime;
  u64 sched_hash, io_hash;
  u32 deadlock, stepcap, escapes, crashed;
  u32 ndec, decover, nopl, nfired;
  u64 atomics, futexwaits, spurious, maxready, readdirs, randoms, timejumps, exited;
  u64 futexwakes, preempts, stdin_off, done;
  u32 pathlen, pad;
  dec_t dec[MAXDEC];
  op_t op[MAXOPS];
  fired_t fired[MAXFIRED];
  char paths[PATHBYTES];
} report_t;
static report_t *R;

// -------------------------------------------------------------- op classes
enum {
  C_OPENR, C_OPENW, C_READ, C_WRITE, C_CLOSE, C_STAT, C_OPENDIR, C_READDIR, C_MKDIR, C_UNLINK,
  C_RENAME, C_TRUNC, C_SYNC, C_STDIN, C_STDOUT, C_STDERR, C_META, C_SPAWN, C_N
};
static const char *cls_name[C_N] = {"openr", "openw", "read", "write", "close", "stat", "opendir",
  "readdir", "mkdir", "unlink", "rename", "trunc", "sync", "stdin", "stdout", "stderr", "meta",
  "spawn"};
enum { F_NONE, F_ERR, F_STICKY, F_SHORT, F_CRASHB, F_CRASHA, F_CRASHP, F_VANISH, F_DELAY };

// ----------------------------------------------------------------- config
static int active, verbose_fd = -1;
static char root[PATH_MAX];
static size_t rootlen;
static int script_mode, policy, ncpu = 4, tty0 = 1;
static u64 sseed, fseed, hseed, dseed;
static u32 p_atomic, p_sync, p_io, p_spur;
static u64 tick = 200, stepcap = 20000000, tjump;
static rng srng, frng;
typedef struct { u32 op; int kind; s64 arg;   int cls;
  char path[256];
} xf_t;
static xf_t xf[256];
static int nxf;
typedef struct { int cls, kind; s64 arg; u32 ppm; int max, used; char path[256]; } rf_t;
static rf_t rf[64];
static int nrf;
typedef struct { u64 bytes; char how; u64 ns; } in_t;
static in_t *ins;
static int nins, curin;
static u64 in_rel; // time from which the current chunk's delay counts
static u64 in_left;
static dec_t *sdec;
static int nsdec, sdeci;
static int sticky[C_N];
static u64 nrand;

static int cls_of(const char *s) {
  for (int i = 0; i < C_N; i++)
    if (!strcmp(cls_name[i], s)) return i;
  return -1;
}
static int kind_of(const char *s) {
  static const char *k[] = {"none", "err", "sticky", "short", "crashb", "crasha", "crashp", "vanish",
                            "delay"};
  for (int i = 0; i < 9; i++)
    if (!strcmp(k[i], s)) return i;
  return 0;
}

// ---------------------------------------------------------------- scheduler
enum { T_FREE, T_READY, T_FUTEX, T_SLEEP, T_JOIN, T_POLL, T_STDIN, T_DONE };
typedef struct {
  int state;
  u32 *faddr;
  u32 bits;
  u64 deadline; // ~0 = none
  int timedout;
  u64 fseq;
  u32 gate; // real futex word
  pthread_t real;
  int have_real, joined;
  int prio;
  u64 runstart, place1, place2;
} thr_t;
enum { MAXT = 512 };
static thr_t T[MAXT];
static int nthr, cur;
static u64 now_ns, next_deadline = ~0ull, fseq;
static __thread int self_id = -1;
static s64 gap_atomic;
static pthread_key_t exit_key;
static u64 pct_change[8];
static int pct_n;
static u32 p_spot;
static int spot_left = 60;
static u64 spot_key, fair_at = 10000;

static void die(int code) {
  if (R) {
    R->exited = code;
    R->simtime = now_ns;
    R->stdin_off = R->stdin_off;
    R->done = 1;
  }
  raw(SYS_exit_group, code, 0, 0, 0);
  __builtin_unreachable();
}
static void vlog(const char *fmt, ...) {
  if (verbose_fd < 0) return;
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b) n = sizeof b;
  raw(SYS_write, verbose_fd, b, n, 0);
}

static void gate_wait(thr_t *t) {
  while (__atomic_load_n(&t->gate, __ATOMIC_ACQUIRE) == 0)
    raw(SYS_futex, &t->gate, FUTEX_WAIT_PRIVATE, 0, 0);
  __atomic_store_n(&t->gate, 0, __ATOMIC_RELEASE);
}
static void gate_open(thr_t *t) {
  __atomic_store_n(&t->gate, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, &t->gate, FUTEX_WAKE_PRIVATE, 1, 0);
}
static void recompute_deadline(void) {
  next_deadline = ~0ull;
  for (int i = 0; i < nthr; i++)
    if (T[i].state >= T_FUTEX && T[i].state <= T_STDIN && T[i].deadline < next_deadline)
      next_deadline = T[i].deadline;
}
static void fire_timers(void) {
  if (now_ns < next_deadline) return;
  for (int i = 0; i < nthr; i++)
    if (T[i].state >= T_FUTEX && T[i].state <= T_STDIN && T[i].deadline <= now_ns) {
      T[i].timedout = 1;
      T[i].state = T_READY;
    }
  recompute_deadline();
}
static int count_ready(void) {
  int n = 0;
  for (int i = 0; i < nthr; i++) n += T[i].state == T_READY;
  return n;
}
static int next_ready_after(int c) {
  for (int k = 1; k <= nthr; k++) {
    int i = (c + k) % nthr;
    if (T[i].state == T_READY) return i;
  }
  return -1;
}
static void note_decision(int to, int from) {
  if (R->ndec < MAXDEC) {
    R->dec[R->ndec].step = R->steps;
    R->dec[R->ndec].tid = to;
    R->dec[R->ndec].from = from;
    R->ndec++;
  } else
    R->decover = 1;
}
static void hand_over(int to) { // caller currently holds the token
  int from = cur;
  if (to == from) return;
  R->switches++;
  u64 ready = count_ready();
  if (ready > R->maxready) R->maxready = ready;
  R->sched_hash = mix64(R->sched_hash ^ (R->steps * 1024 + to));
  cur = to;
  T[to].runstart = R->steps;
  gate_open(&T[to]);
}
static int script_choice(void) {
  while (sdeci < nsdec && sdec[sdeci].step < R->steps) sdeci++;
  if (sdeci < nsdec && sdec[sdeci].step == R->steps) {
    int t = sdec[sdeci].tid;
    sdeci++;
    if (t < nthr && T[t].state == T_READY) return t;
  }
  return -1;
}
static int pct_pick(void) {
  int best = -1;
  if (p_spot && R->steps >= fair_at) { // threads that wait in short sleeps must not hold up the ones that gave way
    fair_at = R->steps + 10000;
    int least = -1, hi = 0;
    for (int i = 0; i < nthr; i++) {
      if (T[i].state == T_READY && (least < 0 || T[i].prio < T[least].prio)) least = i;
      if (T[i].prio > hi) hi = T[i].prio;
    }
    if (least >= 0) T[least].prio = hi + 1;
  }
  for (int i = 0; i < nthr; i++)
    if (T[i].state == T_READY && (best < 0 || T[i].prio > T[best].prio)) best = i;
  return best;
}
static int random_ready(int exclude) {
  int n = 0, list[MAXT];
  for (int i = 0; i < nthr; i++)
    if (T[i].state == T_READY && i != exclude) list[n++] = i;
  if (!n) return -1;
  return list[rnd(&srng) % n];
}
static void draw_gap(void) {
  if (!p_atomic) {
    gap_atomic = INT64_MAX;
    return;
  }
  u64 mean = 1000000ull / p_atomic;
  gap_atomic = 1 + (s64)(rnd(&srng) % (2 * mean));
}
// Something must become ready: advance time, or release standard input.
static void find_ready(void) {
  for (;;) {
    if (count_ready()) return;
    // Timers within the horizon go first, then idle standard input, then any timer.
    if (next_deadline != ~0ull) {
      u64 d = next_deadline;
      int idle_in = -1;
      for (int i = 0; i < nthr; i++)
        if (T[i].state == T_STDIN && T[i].deadline == ~0ull) idle_in = i;
      if (!(idle_in >= 0 && d > now_ns + 30000000000ull)) {
        if (d > now_ns) {
          now_ns = d;
          R->timejumps++;
        }
        fire_timers();
        continue;
      }
    }
    int woke = 0;
    for (int i = 0; i < nthr; i++)
      if (T[i].state == T_STDIN) {
        T[i].state = T_READY;
        T[i].timedout = 1;
        T[i].deadline = ~0ull;
        woke = 1;
      }
    if (woke) {
      recompute_deadline();
      continue;
    }
    R->deadlock = 1;
    vlog("deadlock at step %llu\n", (unsigned long long)R->steps);
    for (int i = 0; i < nthr; i++)
      if (T[i].state != T_DONE) vlog("  thread %d state %d addr %p\n", i, T[i].state, T[i].faddr);
    die(98);
  }
}
static void bump(void) {
  R->steps++;
  now_ns += tick;
  if (R->steps >= stepcap) {
    R->stepcap = 1;
    vlog("step cap\n");
    die(97);
  }
  if (now_ns >= next_deadline) fire_timers();
}
// The current thread cannot continue: run someone else until it is ready.
static void block_here(void) {
  thr_t *me = &T[self_id];
  find_ready();
  bump();
  find_ready();
  int to, def = next_ready_after(self_id);
  if (script_mode) {
    to = script_choice();
    if (to < 0) to = def;
  } else {
    to = policy == 1 ? pct_pick() : random_ready(-1);
    if (to != def) note_decision(to, self_id);
  }
  if (to == self_id) return;
  hand_over(to);
  gate_wait(me);
}
enum { K_ATOMIC, K_SYNC, K_IO, K_YIELD };
static void switch_to(int to) {
  R->preempts++;
  hand_over(to);
  gate_wait(&T[self_id]);
}
static void point_slow(int kind) {
  if (nthr < 2) return;
  int to = -1;
  if (script_mode) {
    to = script_choice();
    if (to < 0 && (kind == K_YIELD || R->steps - T[cur].runstart > 20000)) {
      to = next_ready_after(self_id);
    }
  } else if (policy == 1) {
    for (int i = 0; i < pct_n; i++)
      if (pct_change[i] && R->steps >= pct_change[i]) {
        pct_change[i] = 0;
        T[self_id].prio = -(int)(R->steps & 0xffffff);
      }
    if (R->steps - T[cur].runstart > 20000 || kind == K_YIELD) {
      int lo = 0;
      for (int i = 0; i < nthr; i++)
        if (T[i].prio < lo) lo = T[i].prio;
      T[self_id].prio = lo - 1;
      T[cur].runstart = R->steps;
    }
    to = pct_pick();
    int def = (kind == K_YIELD || R->steps - T[cur].runstart > 20000) ? next_ready_after(self_id) : self_id;
    if (to >= 0 && to != def) note_decision(to, self_id);
  } else {
    int want = 0, forced = R->steps - T[cur].runstart > 20000;
    if (kind == K_ATOMIC) {
      if (gap_atomic <= 0) {
        want = 1;
        draw_gap();
      }
    } else if (kind == K_YIELD)
      want = 1;
    else
      want = rnd(&srng) % 1000000 < (kind == K_IO ? p_io : p_sync);
    if (want || forced) {
      to = random_ready(self_id);
      int def = (kind == K_YIELD || forced) ? next_ready_after(self_id) : self_id;
      if (to >= 0 && to != def) note_decision(to, self_id);
    } else if (forced || kind == K_YIELD)
      to = next_ready_after(self_id);
  }
  if (to >= 0 && to != self_id) switch_to(to);
}
// Policy 1: threads give way at the places in the program that the seed picks (a place is where an atomic is used, and up
// to two places before).
static void place(void *at) {
  if (!p_spot || script_mode || nthr < 2 || !active || self_id < 0) return;
  thr_t *me = &T[self_id];
  u64 h = mix64((u64)at ^ spot_key);
  u64 c = h ^ (spot_key & 1 ? me->place1 * 3 : 0) ^ (spot_key & 2 ? me->place2 * 5 : 0);
  me->place2 = me->place1;
  me->place1 = h;
  if (!spot_left || mix64(c) % p_spot) return;
  spot_left--;
  int lo = 0;
  for (int i = 0; i < nthr; i++)
    if (T[i].prio < lo) lo = T[i].prio;
  me->prio = lo - 1;
}
static inline void point(int kind) {
  if (!active || self_id < 0) return;
  bump();
  if (kind == K_ATOMIC) {
    R->atomics++;
    if (!script_mode && policy == 0 && --gap_atomic > 0 && R->steps - T[cur].runstart <= 20000) return;
  }
  point_slow(kind);
}

// ------------------------------------------------------------- real symbols
#define REAL(ret, name, args) static ret(*r_##name) args
REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
REAL(int, pthread_join, (pthread_t, void **));
REAL(DIR *, opendir, (const char *));
REAL(DIR *, fdopendir, (int));
REAL(struct dirent64 *, readdir64, (DIR *));
REAL(int, closedir, (DIR *));
REAL(char *, realpath, (const char *, char *));
static void load_real(void) {
#define L(n) r_##n = dlsym(RTLD_NEXT, #n)
  L(pthread_create);
  L(pthread_join);
  L(opendir);
  L(fdopendir);
  L(readdir64);
  L(closedir);
  L(realpath);
}

// ------------------------------------------------------------------ threads
typedef struct { void *(*fn)(void *); void *arg; int id; } start_t;
static void thread_exit_hook(void *v) {
  long n = (long)v;
  if (n < 4) { // let every other destructor run first
    pthread_setspecific(exit_key, (void *)(n + 1));
    return;
  }
  thr_t *me = &T[self_id];
  point(K_SYNC);
  me->state = T_DONE;
  for (int i = 0; i < nthr; i++)
    if (T[i].state == T_JOIN && T[i].faddr == (u32 *)me) T[i].state = T_READY;
  find_ready();
  bump();
  find_ready();
  int to, def = next_ready_after(self_id);
  if (script_mode) {
    to = script_choice();
    if (to < 0) to = def;
  } else {
    to = policy == 1 ? pct_pick() : random_ready(-1);
    if (to != def) note_decision(to, self_id);
  }
  int me_id = self_id;
  self_id = -1;
  (void)me_id;
  hand_over(to);
}
static void *trampoline(void *p) {
  start_t s = *(start_t *)p;
  self_id = s.id;
  gate_wait(&T[s.id]);
  free(p);
  pthread_setspecific(exit_key, (void *)1);
  return s.fn(s.arg);
}
static int op_fault(int cls, u32 path, u64 arg, s64 *farg, int *opi);
static u32 path_id(const char *p);
static int reserve_thread(void) {
  int id = nthr++;
  if (id >= MAXT) die(96);
  memset(&T[id], 0, sizeof T[id]);
  T[id].deadline = ~0ull;
  T[id].state = T_READY;
  T[id].prio = 1 + (int)(hash2(sseed, 7000 + id) % 1000000);
  R->nthreads = nthr;
  return id;
}
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!active || self_id < 0) {
    if (!r_pthread_create) load_real();
    return r_pthread_create(t, a, fn, arg);
  }
  s64 fa;
  int oi;
  if (op_fault(C_SPAWN, path_id("<thread>"), 0, &fa, &oi) == F_ERR) return (int)fa;
  start_t *s = malloc(sizeof *s);
  s->fn = fn;
  s->arg = arg;
  s->id = reserve_thread();
  int rc = r_pthread_create(t, a, trampoline, s);
  if (rc) {
    T[s->id].state = T_DONE;
    free(s);
    return rc;
  }
  T[s->id].real = *t;
  T[s->id].have_real = 1;
  point(K_SYNC);
  return 0;
}
static thr_t *by_real(pthread_t t) {
  for (int i = nthr - 1; i >= 0; i--)
    if (T[i].have_real && !T[i].joined && pthread_equal(T[i].real, t)) return &T[i];
  return 0;
}
EXPORT int pthread_join(pthread_t t, void **v) {
  if (active && self_id >= 0) {
    point(K_SYNC);
    thr_t *x = by_real(t);
    if (x) {
      while (x->state != T_DONE) {
        T[self_id].state = T_JOIN;
        T[self_id].faddr = (u32 *)x;
        T[self_id].deadline = ~0ull;
        block_here();
      }
      x->joined = 1;
    }
  }
  return r_pthread_join(t, v);
}
EXPORT int pthread_detach(pthread_t t) {
  if (active) return 0; // kept joinable: the stack cache must not change behind our back
  (void)t;
  return 0;
}
EXPORT int sched_yield(void) {
  point(K_YIELD);
  return 0;
}
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  (void)p;
  memset(s, 0, n);
  for (int i = 0; i < ncpu; i++) CPU_SET_S(i, n, s);
  return 0;
}
EXPORT long sysconf(int name) {
  static long (*real)(int);
  if (active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return ncpu;
  if (!real) real = dlsym(RTLD_NEXT, "sysconf");
  return real(name);
}

// ------------------------------------------------------------------- futex
static long do_futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 *addr2, u32 val3) {
  int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  switch (cmd) {
  case FUTEX_WAIT:
  case FUTEX_WAIT_BITSET: {
    point(K_SYNC);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
      errno = EAGAIN;
      return -1;
    }
    R->futexwaits++;
    if (p_spur && hash2(fseed ^ 0x5151, R->futexwaits) % 1000000 < p_spur) {
      R->spurious++;
      return 0;
    }
    thr_t *me = &T[self_id];
    me->faddr = addr;
    me->bits = cmd == FUTEX_WAIT ? ~0u : val3;
    me->timedout = 0;
    me->fseq = fseq++;
    me->deadline = ~0ull;
    if (ts) {
      u64 d = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
      if (cmd == FUTEX_WAIT) d += now_ns;
      else if (op & FUTEX_CLOCK_REALTIME) d -= 1700000000ull * 1000000000ull;
      me->deadline = d;
    }
    me->state = T_FUTEX;
    recompute_deadline();
    block_here();
    me->deadline = ~0ull;
    recompute_deadline();
    if (me->timedout) {
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  case FUTEX_WAKE:
  case FUTEX_WAKE_BITSET: {
    u32 bits = cmd == FUTEX_WAKE ? ~0u : val3;
    u32 n = 0;
    R->futexwakes++;
    while (n < val) {
      int best = -1;
      for (int i = 0; i < nthr; i++)
        if (T[i].state == T_FUTEX && T[i].faddr == addr && (T[i].bits & bits) &&
            (best < 0 || T[i].fseq < T[best].fseq))
          best = i;
      if (best < 0) break;
      T[best].state = T_READY;
      T[best].timedout = 0;
      n++;
    }
    recompute_deadline();
    point(K_SYNC);
    return n;
  }
  default:
    return ret(raw6(SYS_futex, (long)addr, op, val, (long)ts, (long)addr2, val3));
  }
}
static void fill_random(void *b, size_t n) {
  u8 *p = b;
  R->randoms++;
  for (size_t i = 0; i < n; i++) p[i] = (u8)(hash2(hseed, nrand++) >> 13);
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!active) return ret(raw(SYS_getrandom, b, n, f, 0));
  fill_random(b, n);
  return n;
}
EXPORT int getentropy(void *b, size_t n) {
  if (!active) return (int)ret(raw(SYS_getrandom, b, n, 0, 0)) < 0 ? -1 : 0;
  fill_random(b, n);
  return 0;
}
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (active && self_id >= 0) {
    if (n == SYS_futex)
      return do_futex((u32 *)a, (int)b, (u32)c, (void *)d, (u32 *)e, (u32)f);
    if (n == SYS_getrandom) {
      fill_random((void *)a, b);
      return b;
    }
    if (n == SYS_gettid) return 4242 + self_id;
    if (n == SYS_statx) return statx((int)a, (char *)b, (int)c, (unsigned)d, (void *)e);
    if (n == SYS_write) return write((int)a, (void *)b, c);
    if (n == SYS_read) return read((int)a, (void *)b, c);
    if (n == SYS_renameat2 || n == SYS_copy_file_range || n == SYS_unlinkat) {
      errno = ENOSYS;
      return -1;
    }
  }
  return ret(raw6(n, a, b, c, d, e, f));
}

// -------------------------------------------------------------------- time
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!active) return (int)ret(raw(SYS_clock_gettime, id, ts, 0, 0));
  u64 t = now_ns + 1000000000ull * 1000;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += 1700000000ull * 1000000000ull + tjump;
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
static void sleep_ns(u64 ns) {
  thr_t *me = &T[self_id];
  me->deadline = now_ns + ns;
  me->timedout = 0;
  me->state = T_SLEEP;
  recompute_deadline();
  block_here();
  me->deadline = ~0ull;
  recompute_deadline();
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!active || self_id < 0) return (int)ret(raw(SYS_nanosleep, a, b, 0, 0));
  sleep_ns((u64)a->tv_sec * 1000000000ull + a->tv_nsec);
  return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (!active || self_id < 0) return (int)-raw(SYS_clock_nanosleep, c, fl, a, b);
  u64 d = (u64)a->tv_sec * 1000000000ull + a->tv_nsec;
  if (fl & TIMER_ABSTIME) {
    u64 n = now_ns + 1000000000ull * 1000;
    if (c == CLOCK_REALTIME) n += 1700000000ull * 1000000000ull + tjump;
    d = d > n ? d - n : 0;
  }
  sleep_ns(d);
  return 0;
}
EXPORT int usleep(useconds_t u) {
  if (active && self_id >= 0) sleep_ns((u64)u * 1000);
  return 0;
}
EXPORT pid_t gettid(void) { return active && self_id >= 0 ? 4242 + self_id : (pid_t)raw(SYS_gettid, 0, 0, 0, 0); }
EXPORT pid_t getpid(void) { return active ? 4242 : (pid_t)raw(SYS_getpid, 0, 0, 0, 0); }

// ------------------------------------------------------------------- paths
static u32 path_id(const char *p) {
  u32 i = 0;
  while (i < R->pathlen) {
    if (!strcmp(R->paths + i, p)) return i;
    i += strlen(R->paths + i) + 1;
  }
  size_t n = strlen(p) + 1;
  if (R->pathlen + n > PATHBYTES) return 0;
  memcpy(R->paths + R->pathlen, p, n);
  R->pathlen += n;
  return i;
}
static int norm(int dirfd, const char *p, char *out) {
  char tmp[2 * PATH_MAX];
  if (!p) return -1;
  if (p[0] == '/')
    snprintf(tmp, sizeof tmp, "%s", p);
  else if (dirfd == AT_FDCWD) {
    char cwd[PATH_MAX];
    if (raw(SYS_getcwd, cwd, sizeof cwd, 0, 0) < 0) return -1;
    snprintf(tmp, sizeof tmp, "%s/%s", cwd, p);
  } else {
    char l[64], base[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
    long n = raw(SYS_readlink, l, base, sizeof base - 1, 0);
    if (n < 0) return -1;
    base[n] = 0;
    snprintf(tmp, sizeof tmp, "%s/%s", base, p);
  }
  char *o = out;
  *o = 0;
  char *s = tmp;
  while (*s) {
    while (*s == '/') s++;
    char *e = s;
    while (*e && *e != '/') e++;
    size_t n = e - s;
    if (n == 0) break;
    if (n == 1 && s[0] == '.') {
    } else if (n == 2 && s[0] == '.' && s[1] == '.') {
      while (o > out && *--o != '/')
        ;
      *o = 0;
    } else {
      if (o - out + n + 2 > PATH_MAX) return -1;
      *o++ = '/';
      memcpy(o, s, n);
      o += n;
      *o = 0;
    }
    s = e;
  }
  if (o == out) strcpy(out, "/");
  return 0;
}
// Path relative to the scratch root, or NULL when outside it.
static const char *inside(const char *n) {
  if (strncmp(n, root, rootlen)) return 0;
  if (n[rootlen] == 0) return ".";
  if (n[rootlen] != '/') return 0;
  return n + rootlen + 1;
}
static int escape(const char *what, const char *n) {
  R->escapes++;
  char b[PATH_MAX + 64];
  snprintf(b, sizeof b, "!escape %s %s", what, n);
  path_id(b);
  vlog("%s\n", b);
  errno = EACCES;
  return -1;
}
static u32 fdpath[1024];
static u8 fdkind[1024]; // 0 = untracked, 1 = scratch file, 2 = eventfd or other

// ------------------------------------------------------------------ faults
static int fire(int kind, s64 arg, u32 op) {
  if (R->nfired < MAXFIRED) {
    R->fired[R->nfired].op = op;
    R->fired[R->nfired].kind = kind;
    R->fired[R->nfired].arg = arg;
    R->nfired++;
  }
  return kind;
}
// Registers an operation and decides its fate.  A crash before the operation happens here.
static int op_fault(int cls, u32 path, u64 arg, s64 *farg, int *opi) {
  point(K_IO);
  u32 idx = (u32)R->nops++;
  op_t *o = 0;
  if (R->nopl < MAXOPS) {
    o = &R->op[R->nopl++];
    o->idx = idx;
    o->cls = cls;
    o->fault = 0;
    o->tid = self_id;
    o->path = path;
    o->result = 0;
    o->step = R->steps;
    o->arg = arg;
    o->aux = R->stdin_off;
  }
  *opi = o ? (int)(o - R->op) : -1;
  R->io_hash = mix64(R->io_hash ^ ((u64)cls << 56) ^ ((u64)self_id << 40) ^ path);
  int k = F_NONE;
  s64 a = 0;
  if (sticky[cls]) {
    k = F_ERR;
    a = sticky[cls];
  }
  const char *ps = R->paths + path;
  for (int i = 0; !k && i < nxf; i++)
    if (xf[i].op == idx && (xf[i].cls < 0 || xf[i].cls == cls) && (!xf[i].path[0] || !strcmp(xf[i].path, ps))) {
      k = xf[i].kind;
      a = xf[i].arg;
    }
  for (int i = 0; !k && i < nrf; i++) {
    rf_t *f = &rf[i];
    if (f->cls != cls) continue;
    size_t pl = strlen(f->path);
    if (pl && f->path[pl - 1] == '*' ? strncmp(f->path, ps, pl - 1) : pl && strcmp(f->path, ps)) continue;
    if (f->max && f->used >= f->max) continue;
    if (f->ppm < 1000000 && rnd(&frng) % 1000000 >= f->ppm) continue;
    f->used++;
    k = f->kind;
    a = f->arg;
    if (k == F_DELAY && a < 0) a = (s64)(rnd(&frng) % (u64)-a);
    if ((k == F_SHORT || k == F_CRASHP) && a < 0) a = arg ? (s64)(rnd(&frng) % arg) : 0;
  }
  if (!k) return F_NONE;
  fire(k, a, idx);
  if (o) o->fault = k;
  vlog("op %u %s %s fault %d %lld\n", idx, cls_name[cls], ps, k, (long long)a);
  if (k == F_CRASHB) {
    R->crashed = 1;
    die(137);
  }
  if (k == F_VANISH) { // somebody else removes the file just before the operation
    char n[2 * PATH_MAX];
    snprintf(n, sizeof n, "%s/%s", root, ps);
    if (ps[0] != '.' && ps[0] != '<' && !strstr(ps, "..")) raw(SYS_unlink, n, 0, 0, 0);
    return F_NONE;
  }
  if (k == F_DELAY) { // a slow device: everybody else goes on meanwhile
    sleep_ns((u64)a);
    return F_NONE;
  }
  if (k == F_STICKY) {
    sticky[cls] = (int)a;
    k = F_ERR;
  }
  *farg = a;
  return k;
}
static long op_done(int opi, int k, long r) {
  if (opi >= 0) R->op[opi].result = (int32_t)(r < 0 ? -errno : r);
  if (k == F_CRASHA) {
    R->crashed = 1;
    die(137);
  }
  return r;
}

// -------------------------------------------------------------------- files
static int is_pseudo(const char *n) {
  return !strncmp(n, "/proc/", 6) || !strncmp(n, "/sys/", 5) || !strncmp(n, "/dev/null", 9) ||
         !strncmp(n, "/dev/tty", 8) || !strncmp(n, "/dev/std", 8) || !strncmp(n, "/dev/fd", 7);
}
static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
  if (!active || self_id < 0) return (int)ret(raw(SYS_openat, dirfd, p, flags, mode));
  char n[PATH_MAX];
  if (norm(dirfd, p, n)) return (int)ret(raw(SYS_openat, dirfd, p, flags, mode));
  const char *in = inside(n);
  int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!in) {
    if (wr && !is_pseudo(n)) return escape("open", n);
    return (int)ret(raw(SYS_openat, dirfd, p, flags, mode));
  }
  s64 fa = 0;
  int oi;
  u32 pid = path_id(in);
  int k = op_fault((flags & O_DIRECTORY) ? C_OPENDIR : wr ? C_OPENW : C_OPENR, pid, flags, &fa, &oi);
  if (k == F_ERR) {
    errno = (int)fa;
    return (int)op_done(oi, k, -1);
  }
  int fd = (int)ret(raw(SYS_openat, dirfd, p, flags | O_CLOEXEC, mode));
  vlog("op open %s flags %x -> %d\n", in, flags, fd);
  if (fd >= 0 && fd < 1024) {
    fdpath[fd] = pid;
    fdkind[fd] = (flags & O_DIRECTORY) ? 3 : 1;
  }
  return (int)op_done(oi, k, fd);
}
#define OPENMODE                        \
  mode_t m = 0;                         \
  if (fl & (O_CREAT | O_TMPFILE)) {     \
    va_list ap;                         \
    va_start(ap, fl);                   \
    m = va_arg(ap, mode_t);             \
    va_end(ap);                         \
  }
EXPORT int open(const char *p, int fl, ...) { OPENMODE return do_open(AT_FDCWD, p, fl, m); }
EXPORT int open64(const char *p, int fl, ...) { OPENMODE return do_open(AT_FDCWD, p, fl, m); }
EXPORT int openat(int d, const char *p, int fl, ...) { OPENMODE return do_open(d, p, fl, m); }
EXPORT int openat64(int d, const char *p, int fl, ...) { OPENMODE return do_open(d, p, fl, m); }
EXPORT int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return creat(p, m); }
EXPORT int close(int fd) {
  if (active && self_id >= 0 && fd >= 0 && fd < 1024 && fdkind[fd] == 1) {
    s64 fa;
    int oi;
    int k = op_fault(C_CLOSE, fdpath[fd], fd, &fa, &oi);
    fdkind[fd] = 0;
    long r = ret(raw(SYS_close, fd, 0, 0, 0));
    if (k == F_ERR) {
      errno = (int)fa;
      r = -1;
    }
    return (int)op_done(oi, k, r);
  }
  if (fd >= 0 && fd < 1024) fdkind[fd] = 0;
  return (int)ret(raw(SYS_close, fd, 0, 0, 0));
}
static ssize_t read_stdin(void *b, size_t n) {
  s64 fa;
  int oi;
  int k = op_fault(C_STDIN, path_id("<stdin>"), n, &fa, &oi);
  if (k == F_ERR) {
    errno = (int)fa;
    return op_done(oi, k, -1);
  }
  if (n == 0) return op_done(oi, k, 0);
  while (curin < nins && in_left == 0) {
    in_t *c = &ins[curin];
    if (c->how == 'd') {
      u64 at = in_rel + c->ns;
      if (now_ns < at) {
        thr_t *me = &T[self_id];
        me->state = T_STDIN;
        me->deadline = at;
        me->timedout = 0;
        recompute_deadline();
        block_here();
        me->deadline = ~0ull;
        recompute_deadline();
        continue;
      }
    } else if (c->how == 'i') {
      thr_t *me = &T[self_id];
      me->state = T_STDIN;
      me->deadline = ~0ull;
      me->timedout = 0;
      block_here();
      if (!me->timedout) continue;
    }
    if (c->bytes == 0) return op_done(oi, k, 0); // end of input
    in_left = c->bytes;
  }
  if (curin >= nins) return op_done(oi, k, 0);
  if (n > in_left) n = in_left;
  if (k == F_SHORT && fa > 0 && (u64)fa < n) n = fa;
  long r = ret(raw(SYS_read, 0, b, n, 0));
  if (r > 0) {
    in_left -= r;
    R->stdin_off += r;
    if (in_left == 0) {
      curin++;
      in_rel = now_ns;
    }
  }
  return op_done(oi, k, r);
}
static int wake_pollers(void) {
  int n = 0;
  for (int i = 0; i < nthr; i++)
    if (T[i].state == T_POLL) {
      T[i].state = T_READY;
      n++;
    }
  return n;
}
static int rwclass(int fd, int wr, u32 *pid) {
  if (fd == 1) {
    *pid = path_id("<stdout>");
    return C_STDOUT;
  }
  if (fd == 2) {
    *pid = path_id("<stderr>");
    return C_STDERR;
  }
  if (fd >= 3 && fd < 1024 && fdkind[fd] == 1) {
    *pid = fdpath[fd];
    return wr ? C_WRITE : C_READ;
  }
  return -1;
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (!active || self_id < 0) return ret(raw(SYS_read, fd, b, n, 0));
  if (fd == 0 && nins) return read_stdin(b, n);
  u32 pid = 0;
  int cls = fd > 2 ? rwclass(fd, 0, &pid) : -1;
  if (cls < 0) return ret(raw(SYS_read, fd, b, n, 0));
  s64 fa;
  int oi;
  int k = op_fault(cls, pid, n, &fa, &oi);
  if (k == F_ERR) {
    errno = (int)fa;
    return op_done(oi, k, -1);
  }
  if (k == F_SHORT) n = (size_t)fa < n ? ((size_t)fa ? (size_t)fa : (n ? 1 : 0)) : n;
  return op_done(oi, k, ret(raw(SYS_read, fd, b, n, 0)));
}
static ssize_t full_raw_write(int fd, const char *b, size_t n) {
  size_t o = 0;
  while (o < n) {
    long r = raw(SYS_write, fd, b + o, n - o, 0);
    if (r == -EINTR || r == -EAGAIN) continue;
    if (r < 0) return o ? (ssize_t)o : ret(r);
    o += r;
  }
  return o;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (!active || self_id < 0) return ret(raw(SYS_write, fd, b, n, 0));
  u32 pid = 0;
  int cls = rwclass(fd, 1, &pid);
  if (cls < 0) {
    long r = ret(raw(SYS_write, fd, b, n, 0));
    wake_pollers();
    point(K_SYNC);
    return r;
  }
  s64 fa;
  int oi;
  int k = op_fault(cls, pid, n, &fa, &oi);
  if (k == F_ERR) {
    errno = (int)fa;
    return op_done(oi, k, -1);
  }
  if (k == F_SHORT && n) n = fa > 0 ? ((size_t)fa < n ? (size_t)fa : n) : 1;
  if (k == F_CRASHP) {
    size_t m = (size_t)fa < n ? (size_t)fa : n;
    if (m) full_raw_write(fd, b, m);
    R->crashed = 1;
    die(137);
  }
  vlog("op write %s %zu\n", R->paths + pid, n);
  return op_done(oi, k, full_raw_write(fd, b, n));
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!active || self_id < 0) return ret(raw(SYS_writev, fd, v, c, 0));
  size_t t = 0;
  for (int i = 0; i < c; i++) t += v[i].iov_len;
  if (t == 0) return 0;
  char *buf = malloc(t);
  size_t o = 0;
  for (int i = 0; i < c; i++) {
    memcpy(buf + o, v[i].iov_base, v[i].iov_len);
    o += v[i].iov_len;
  }
  ssize_t r = write(fd, buf, t);
  int e = errno;
  free(buf);
  errno = e;
  return r;
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!active || self_id < 0) return ret(raw(SYS_readv, fd, v, c, 0));
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (active && self_id >= 0 && fd > 2 && fd < 1024 && fdkind[fd] == 1) {
    s64 fa;
    int oi;
    int k = op_fault(C_WRITE, fdpath[fd], n, &fa, &oi);
    if (k == F_ERR) {
      errno = (int)fa;
      return op_done(oi, k, -1);
    }
    if (k == F_SHORT && n) n = fa > 0 ? ((size_t)fa < n ? (size_t)fa : n) : 1;
    return op_done(oi, k, ret(raw(SYS_pwrite64, fd, b, n, o)));
  }
  return ret(raw(SYS_pwrite64, fd, b, n, o));
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  if (active) {
    errno = ENOSYS;
    return -1;
  }
  return ret(raw6(SYS_copy_file_range, a, (long)x, b, (long)y, n, f));
}
EXPORT ssize_t sendfile64(int o, int i, off64_t *x, size_t n) {
  if (active) {
    errno = ENOSYS;
    return -1;
  }
  return ret(raw(SYS_sendfile, o, i, x, n));
}
EXPORT ssize_t sendfile(int o, int i, off_t *x, size_t n) { return sendfile64(o, i, x, n); }
EXPORT ssize_t splice(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  if (active) {
    errno = EINVAL;
    return -1;
  }
  return ret(raw6(SYS_splice, a, (long)x, b, (long)y, n, f));
}

// -------------------------------------------------------------------- stat
static int pre_path(int cls, int dirfd, const char *p, int *oi, int *k) {
  *oi = -1;
  *k = F_NONE;
  if (!active || self_id < 0) return 0;
  char n[PATH_MAX];
  if (norm(dirfd, p, n)) return 0;
  const char *in = inside(n);
  if (!in) return 0;
  s64 fa = 0;
  *k = op_fault(cls, path_id(in), 0, &fa, oi);
  if (*k == F_ERR) {
    errno = (int)fa;
    op_done(*oi, *k, -1);
    return -1;
  }
  return 0;
}
static int pre_fd(int cls, int fd, int *oi, int *k) {
  *oi = -1;
  *k = F_NONE;
  if (!active || self_id < 0 || fd < 3 || fd >= 1024 || fdkind[fd] != 1) return 0;
  s64 fa = 0;
  *k = op_fault(cls, fdpath[fd], 0, &fa, oi);
  if (*k == F_ERR) {
    errno = (int)fa;
    op_done(*oi, *k, -1);
    return -1;
  }
  return 0;
}
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *s) {
  int oi, k;
  __asm__("" : "+r"(p), "+r"(s)); // declared nonnull, but std probes with null
  if (!p || !s) return (int)ret(raw6(SYS_statx, d, (long)p, fl, mask, (long)s, 0)); // a probe
  if (p[0]) {
    if (pre_path(C_STAT, d, p, &oi, &k)) return -1;
  } else if (pre_fd(C_STAT, d, &oi, &k))
    return -1;
  return (int)op_done(oi, k, ret(raw6(SYS_statx, d, (long)p, fl, mask, (long)s, 0)));
}
EXPORT int stat64(const char *p, struct stat64 *s) {
  int oi, k;
  if (pre_path(C_STAT, AT_FDCWD, p, &oi, &k)) return -1;
  return (int)op_done(oi, k, ret(raw(SYS_newfstatat, AT_FDCWD, p, s, 0)));
}
EXPORT int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
EXPORT int lstat64(const char *p, struct stat64 *s) {
  int oi, k;
  if (pre_path(C_STAT, AT_FDCWD, p, &oi, &k)) return -1;
  return (int)op_done(oi, k, ret(raw(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW)));
}
EXPORT int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
EXPORT int fstat64(int fd, struct stat64 *s) {
  int oi, k;
  if (pre_fd(C_STAT, fd, &oi, &k)) return -1;
  return (int)op_done(oi, k, ret(raw(SYS_fstat, fd, s, 0, 0)));
}
EXPORT int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int fl) {
  int oi, k;
  if (pre_path(C_STAT, d, p, &oi, &k)) return -1;
  return (int)op_done(oi, k, ret(raw(SYS_newfstatat, d, p, s, fl)));
}
EXPORT int fstatat(int d, const char *p, struct stat *s, int fl) { return fstatat64(d, p, (struct stat64 *)s, fl); }

// -------------------------------------------------------------- directories
typedef struct { DIR *d; struct dirent64 *e; int n, i, err; u32 pid; } dstate;
static dstate D[256];
static dstate *dfind(DIR *d) {
  for (int i = 0; i < 256; i++)
    if (D[i].d == d) return &D[i];
  return 0;
}
static int dcmp(const void *a, const void *b) {
  return strcmp(((struct dirent64 *)a)->d_name, ((struct dirent64 *)b)->d_name);
}
EXPORT DIR *opendir(const char *p) {
  if (!r_opendir) load_real();
  if (!active || self_id < 0) return r_opendir(p);
  int oi, k;
  if (pre_path(C_OPENDIR, AT_FDCWD, p, &oi, &k)) return 0;
  DIR *d = r_opendir(p);
  char n[PATH_MAX];
  const char *in = norm(AT_FDCWD, p, n) ? 0 : inside(n);
  if (d && in) {
    dstate *s = dfind(0);
    if (!s) die(95);
    memset(s, 0, sizeof *s);
    s->d = d;
    s->i = -1;
    s->pid = path_id(in);
  }
  op_done(oi, k, d ? 0 : -1);
  return d;
}
EXPORT DIR *fdopendir(int fd) {
  if (!r_fdopendir) load_real();
  DIR *d = r_fdopendir(fd);
  if (active && self_id >= 0 && d && fd < 1024 && fdkind[fd] == 3) {
    dstate *s = dfind(0);
    if (!s) die(95);
    memset(s, 0, sizeof *s);
    s->d = d;
    s->i = -1;
    s->pid = fdpath[fd];
  }
  return d;
}
EXPORT struct dirent64 *readdir64(DIR *d) {
  if (!r_readdir64) load_real();
  dstate *s = active && self_id >= 0 ? dfind(d) : 0;
  if (!s) return r_readdir64(d);
  s64 fa = 0;
  int oi;
  int k = op_fault(C_READDIR, s->pid, s->i, &fa, &oi);
  if (k == F_ERR) {
    errno = (int)fa;
    op_done(oi, k, -1);
    return 0;
  }
  if (s->i < 0) {
    int cap = 64;
    s->e = malloc(cap * sizeof *s->e);
    struct dirent64 *e;
    int esave = errno;
    while ((e = r_readdir64(d))) {
      if (s->n == cap) s->e = realloc(s->e, (cap *= 2) * sizeof *s->e);
      memcpy(&s->e[s->n], e, offsetof(struct dirent64, d_name) + strlen(e->d_name) + 1);
      s->n++;
    }
    errno = esave;
    qsort(s->e, s->n, sizeof *s->e, dcmp);
    for (int i = 0; i < s->n; i++) {
      s->e[i].d_off = i + 1;
    }
    u64 h = hash2(dseed, R->readdirs++);
    if (dseed)
      for (int i = s->n - 1; i > 0; i--) {
        h = mix64(h);
        int j = h % (i + 1);
        struct dirent64 t = s->e[i];
        s->e[i] = s->e[j];
        s->e[j] = t;
      }
    s->i = 0;
  }
  struct dirent64 *r = s->i < s->n ? &s->e[s->i++] : 0;
  op_done(oi, k, r ? 1 : 0);
  return r;
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int closedir(DIR *d) {
  if (!r_closedir) load_real();
  dstate *s = active ? dfind(d) : 0;
  if (s) {
    free(s->e);
    s->e = 0;
    s->d = 0;
  }
  return r_closedir(d);
}

// --------------------------------------------------------------- mutations
static int mutate(int cls, const char *what, int dirfd, const char *p, int *oi, int *k) {
  *oi = -1;
  *k = F_NONE;
  if (!active || self_id < 0) return 0;
  char n[PATH_MAX];
  if (norm(dirfd, p, n)) return 0;
  const char *in = inside(n);
  if (!in) {
    if (cls == C_MKDIR) { // creating an existing ancestor is harmless; report how it would end
      struct stat64 st;
      if (raw(SYS_newfstatat, AT_FDCWD, n, &st, 0) == 0) {
        errno = EEXIST;
        return -1;
      }
    }
    return escape(what, n);
  }
  s64 fa = 0;
  *k = op_fault(cls, path_id(in), 0, &fa, oi);
  if (*k == F_ERR) {
    errno = (int)fa;
    op_done(*oi, *k, -1);
    return -1;
  }
  vlog("op %s %s\n", what, in);
  return 0;
}
#define MUT1(name, cls, d, p, call)                  \
  int oi, k;                                         \
  if (mutate(cls, name, d, p, &oi, &k)) return -1;   \
  return (int)op_done(oi, k, ret(call));
EXPORT int mkdir(const char *p, mode_t m) { MUT1("mkdir", C_MKDIR, AT_FDCWD, p, raw(SYS_mkdir, p, m, 0, 0)) }
EXPORT int mkdirat(int d, const char *p, mode_t m) { MUT1("mkdir", C_MKDIR, d, p, raw(SYS_mkdirat, d, p, m, 0)) }
EXPORT int unlink(const char *p) { MUT1("unlink", C_UNLINK, AT_FDCWD, p, raw(SYS_unlink, p, 0, 0, 0)) }
EXPORT int unlinkat(int d, const char *p, int f) { MUT1("unlink", C_UNLINK, d, p, raw(SYS_unlinkat, d, p, f, 0)) }
EXPORT int rmdir(const char *p) { MUT1("rmdir", C_UNLINK, AT_FDCWD, p, raw(SYS_rmdir, p, 0, 0, 0)) }
EXPORT int symlink(const char *t, const char *p) { MUT1("symlink", C_META, AT_FDCWD, p, raw(SYS_symlink, t, p, 0, 0)) }
EXPORT int truncate64(const char *p, off64_t n) { MUT1("truncate", C_TRUNC, AT_FDCWD, p, raw(SYS_truncate, p, n, 0, 0)) }
EXPORT int truncate(const char *p, off_t n) { return truncate64(p, n); }
EXPORT int chmod(const char *p, mode_t m) { MUT1("chmod", C_META, AT_FDCWD, p, raw(SYS_chmod, p, m, 0, 0)) }
EXPORT int fchmodat(int d, const char *p, mode_t m, int f) { MUT1("chmod", C_META, d, p, raw(SYS_fchmodat, d, p, m, f)) }
EXPORT int chown(const char *p, uid_t u, gid_t g) { MUT1("chown", C_META, AT_FDCWD, p, raw(SYS_chown, p, u, g, 0)) }
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int f) {
  if (!p) return (int)ret(raw(SYS_utimensat, d, p, t, f));
  MUT1("utimens", C_META, d, p, raw(SYS_utimensat, d, p, t, f))
}
static int do_rename(int d1, const char *a, int d2, const char *b) {
  int oi, k;
  if (active && self_id >= 0) {
    char n[PATH_MAX];
    if (!norm(d2, b, n) && !inside(n)) return escape("rename-to", n);
  }
  if (mutate(C_RENAME, "rename", d1, a, &oi, &k)) return -1;
  return (int)op_done(oi, k, ret(raw(SYS_renameat, d1, a, d2, b)));
}
EXPORT int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b); }
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b); }
EXPORT int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) {
  (void)f;
  return do_rename(d1, a, d2, b);
}
EXPORT int linkat(int d1, const char *a, int d2, const char *b, int f) {
  int oi, k;
  if (mutate(C_META, "link", d2, b, &oi, &k)) return -1;
  return (int)op_done(oi, k, ret(raw6(SYS_linkat, d1, (long)a, d2, (long)b, f, 0)));
}
EXPORT int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int ftruncate64(int fd, off64_t n) {
  int oi, k;
  if (pre_fd(C_TRUNC, fd, &oi, &k)) return -1;
  return (int)op_done(oi, k, ret(raw(SYS_ftruncate, fd, n, 0, 0)));
}
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT int fsync(int fd) {
  int oi, k;
  if (pre_fd(C_SYNC, fd, &oi, &k)) return -1;
  return (int)op_done(oi, k, 0);
}
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT int fchmod(int fd, mode_t m) {
  int oi, k;
  if (pre_fd(C_META, fd, &oi, &k)) return -1;
  return (int)op_done(oi, k, ret(raw(SYS_fchmod, fd, m, 0, 0)));
}
EXPORT int execve(const char *p, char *const a[], char *const e[]) {
  (void)a;
  (void)e;
  if (!active) return (int)ret(raw(SYS_execve, p, a, e, 0));
  return escape("execve", p);
}
EXPORT pid_t fork(void) {
  if (active) return escape("fork", "");
  static pid_t (*real)(void);
  if (!real) real = dlsym(RTLD_NEXT, "fork");
  return real();
}
EXPORT int isatty(int fd) {
  if (active && fd == 0) {
    if (tty0) return 1;
    errno = ENOTTY;
    return 0;
  }
  if (active) {
    errno = ENOTTY;
    return 0;
  }
  char b[64];
  return raw(SYS_ioctl, fd, 0x5401, b, 0) == 0;
}

// -------------------------------------------------------------------- polling
EXPORT int epoll_wait(int ep, struct epoll_event *ev, int n, int timeout) {
  if (!active || self_id < 0) return (int)ret(raw(SYS_epoll_wait, ep, ev, n, timeout));
  u64 until = timeout < 0 ? ~0ull : now_ns + (u64)timeout * 1000000ull;
  for (;;) {
    point(K_SYNC);
    long r = raw(SYS_epoll_wait, ep, ev, n, 0);
    if (r != 0) return (int)ret(r);
    if (timeout == 0 || now_ns >= until) return 0;
    thr_t *me = &T[self_id];
    me->state = T_POLL;
    me->deadline = until;
    me->timedout = 0;
    recompute_deadline();
    block_here();
    me->deadline = ~0ull;
    recompute_deadline();
  }
}
EXPORT int epoll_pwait(int ep, struct epoll_event *ev, int n, int timeout, const sigset_t *s) {
  (void)s;
  return epoll_wait(ep, ev, n, timeout);
}

// ------------------------------------------------------------ tsan atomics
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
typedef unsigned __int128 a128;
#define AT(N, TY)                                                                                     \
  EXPORT TY __tsan_atomic##N##_load(const volatile TY *a, int mo) {                                  \
    place(__builtin_return_address(0)), point(K_ATOMIC);                                                                                  \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                   \
  EXPORT void __tsan_atomic##N##_store(volatile TY *a, TY v, int mo) {                               \
    place(__builtin_return_address(0)), point(K_ATOMIC);                                                                                  \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                   \
  EXPORT TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int mo) {                              \
    place(__builtin_return_address(0)), point(K_ATOMIC);                                                                                  \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                               \
  }                                                                                                   \
  EXPORT TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int mo) {                             \
    place(__builtin_return_address(0)), point(K_ATOMIC);                                                                                  \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                \
  }                                                                                                   \
  EXPORT TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int mo) {                             \
    place(__builtin_return_address(0)), point(K_ATOMIC);                                                                                  \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                \
  }                                                                                                   \
  EXPORT TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int mo) {                             \
    place(__builtin_return_address(0)), point(K_ATOMIC);                                                                                  \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                \
  }                                                                                                   \
  EXPORT TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int mo) {                              \
    place(__builtin_return_address(0)), point(K_ATOMIC);                                                                                  \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                 \
  }                                                                                                   \
  EXPORT TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int mo) {                             \
    place(__builtin_return_address(0)), point(K_ATOMIC);                                                                                  \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                \
  }                                                                                                   \
  EXPORT TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, int mo) {                            \
    place(__builtin_return_address(0)), point(K_ATOMIC);                                                                                  \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                               \
  }                                                                                                   \
  EXPORT TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) {   \
    place(__builtin_return_address(0)), point(K_ATOMIC);                                                                                  \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                    \
    return c;                                                                                         \
  }                                                                                                   \
  EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int f) { \
    place(__builtin_return_address(0)), point(K_ATOMIC);                                                                                  \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);              \
  }                                                                                                   \
  EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int f) {  \
    place(__builtin_return_address(0)), point(K_ATOMIC);                                                                                  \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);              \
  }
#pragma GCC diagnostic ignored "-Wunused-parameter"
AT(8, a8)
AT(16, a16)
AT(32, a32)
AT(64, a64)
EXPORT a128 __tsan_atomic128_load(volatile a128 *a, int mo) {
  point(K_ATOMIC);
  return __sync_val_compare_and_swap(a, 0, 0);
}
EXPORT void __tsan_atomic128_store(volatile a128 *a, a128 v, int mo) {
  point(K_ATOMIC);
  a128 o = *a, p;
  while ((p = __sync_val_compare_and_swap(a, o, v)) != o) o = p;
}
EXPORT a128 __tsan_atomic128_compare_exchange_val(volatile a128 *a, a128 c, a128 v, int mo, int f) {
  point(K_ATOMIC);
  return __sync_val_compare_and_swap(a, c, v);
}
EXPORT void __tsan_atomic_thread_fence(int mo) { __sync_synchronize(); }
EXPORT void __tsan_atomic_signal_fence(int mo) {}
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *p) {}
EXPORT void __tsan_func_exit(void) {}

// --------------------------------------------------- hooks for in-process harnesses
EXPORT int simrt_present(void) { return active; }
EXPORT u64 simrt_rand(void) { return active ? rnd(&frng) : 0; }
EXPORT void simrt_point(void) { point(K_SYNC); }
EXPORT u64 simrt_steps(void) { return R ? R->steps : 0; }

// -------------------------------------------------------------------- set-up
static char *slurp(const char *p, size_t *len) {
  long fd = raw(SYS_openat, AT_FDCWD, p, O_RDONLY, 0);
  if (fd < 0) return 0;
  size_t cap = 65536, n = 0;
  char *b = malloc(cap);
  for (;;) {
    if (cap - n < 32768) b = realloc(b, cap *= 2);
    long r = raw(SYS_read, fd, b + n, cap - n - 1, 0);
    if (r <= 0) break;
    n += r;
  }
  raw(SYS_close, fd, 0, 0, 0);
  b[n] = 0;
  *len = n;
  return b;
}
static void finish(void) {
  if (R && active) {
    R->simtime = now_ns;
    R->done = 1;
  }
}
__attribute__((constructor(101))) static void init(void) {
  const char *cfg = getenv("SIMRT");
  load_real();
  if (!cfg) return;
  size_t n;
  char *b = slurp(cfg, &n);
  if (!b) return;
  char report[PATH_MAX] = "";
  int capdec = 0, capin = 0;
  char *save = 0;
  for (char *l = strtok_r(b, "\n", &save); l; l = strtok_r(0, "\n", &save)) {
    char k[32] = "", v[PATH_MAX] = "";
    if (l[0] == 'd' && l[1] == ' ') {
      unsigned long long s;
      unsigned t;
      if (sscanf(l + 2, "%llu %u", &s, &t) == 2) {
        if (nsdec == capdec) sdec = realloc(sdec, (capdec = capdec ? capdec * 2 : 256) * sizeof *sdec);
        sdec[nsdec].step = s;
        sdec[nsdec].tid = t;
        nsdec++;
      }
      continue;
    }
    if (!strncmp(l, "f ", 2)) { // f op kind arg [class [path]]
      unsigned o;
      char cn[16] = "", kn[16], pp[256] = "";
      long long a = 0;
      if (sscanf(l + 2, "%u %15s %lld %15s %255[^\n]", &o, kn, &a, cn, pp) >= 2 && nxf < 256) {
        xf[nxf].cls = cn[0] ? cls_of(cn) : -1;
        strcpy(xf[nxf].path, pp);
        xf[nxf].op = o;
        xf[nxf].kind = kind_of(kn);
        xf[nxf].arg = a;
        nxf++;
      }
      continue;
    }
    if (!strncmp(l, "fr ", 3)) { // fr class kind arg ppm max [path]
      char cn[16], kn[16], pp[256] = "";
      long long a;
      unsigned ppm;
      int mx;
      if (sscanf(l + 3, "%15s %15s %lld %u %d %255[^\n]", cn, kn, &a, &ppm, &mx, pp) >= 5 && nrf < 64) {
        rf_t *f = &rf[nrf++];
        f->cls = cls_of(cn);
        f->kind = kind_of(kn);
        f->arg = a;
        f->ppm = ppm;
        f->max = mx;
        f->used = 0;
        strcpy(f->path, pp);
      }
      continue;
    }
    if (!strncmp(l, "in ", 3)) {
      unsigned long long by, ns;
      char h;
      if (sscanf(l + 3, "%llu %c %llu", &by, &h, &ns) == 3) {
        if (nins == capin) ins = realloc(ins, (capin = capin ? capin * 2 : 64) * sizeof *ins);
        ins[nins].bytes = by;
        ins[nins].how = h;
        ins[nins].ns = ns;
        nins++;
      }
      continue;
    }
    char *eq = strchr(l, '=');
    if (!eq) continue;
    *eq = 0;
    snprintf(k, sizeof k, "%s", l);
    snprintf(v, sizeof v, "%s", eq + 1);
    u64 num = strtoull(v, 0, 10);
    if (!strcmp(k, "root")) strcpy(root, v);
    else if (!strcmp(k, "report")) strcpy(report, v);
    else if (!strcmp(k, "script")) script_mode = (int)num;
    else if (!strcmp(k, "policy")) policy = (int)num;
    else if (!strcmp(k, "ncpu")) ncpu = (int)num;
    else if (!strcmp(k, "tty")) tty0 = (int)num;
    else if (!strcmp(k, "sseed")) sseed = num;
    else if (!strcmp(k, "fseed")) fseed = num;
    else if (!strcmp(k, "hseed")) hseed = num;
    else if (!strcmp(k, "dseed")) dseed = num;
    else if (!strcmp(k, "patomic")) p_atomic = (u32)num;
    else if (!strcmp(k, "psync")) p_sync = (u32)num;
    else if (!strcmp(k, "pio")) p_io = (u32)num;
    else if (!strcmp(k, "pspot")) p_spot = (u32)num;
    else if (!strcmp(k, "pspur")) p_spur = (u32)num;
    else if (!strcmp(k, "tick")) tick = num;
    else if (!strcmp(k, "tjump")) tjump = num;
    else if (!strcmp(k, "stepcap")) stepcap = num;
    else if (!strcmp(k, "pct")) {
      pct_n = (int)(num > 8 ? 8 : num);
    } else if (!strcmp(k, "pctlen")) {
      for (int i = 0; i < pct_n; i++) pct_change[i] = 1 + hash2(sseed, 900 + i) % (num ? num : 1);
    } else if (!strcmp(k, "verbose"))
      verbose_fd = (int)raw(SYS_openat, AT_FDCWD, v, O_WRONLY | O_CREAT | O_APPEND, 0644);
  }
  free(b);
  long fd = raw(SYS_openat, AT_FDCWD, report, O_RDWR | O_CREAT, 0644);
  if (fd < 0) raw(SYS_exit_group, 94, 0, 0, 0);
  if (raw(SYS_ftruncate, fd, sizeof(report_t), 0, 0) < 0) raw(SYS_exit_group, 94, 0, 0, 0);
  R = mmap(0, sizeof(report_t), PROT_READ | PROT_WRITE, MAP_SHARED, (int)fd, 0);
  if (R == MAP_FAILED) raw(SYS_exit_group, 94, 0, 0, 0);
  raw(SYS_close, fd, 0, 0, 0);
  R->magic = 0x53494d5254303031ull;
  rootlen = strlen(root);
  R->pathlen = 0;
  path_id("<none>");
  srng.s = mix64(sseed ^ 0x1111);
  spot_key = mix64(sseed ^ 0x3333);
  frng.s = mix64(fseed ^ 0x2222);
  if (verbose_fd > 2) { // keep it away from the low descriptors
    long h = raw(SYS_fcntl, verbose_fd, F_DUPFD_CLOEXEC, 900, 0);
    raw(SYS_close, verbose_fd, 0, 0, 0);
    verbose_fd = (int)h;
  }
  pthread_key_create(&exit_key, thread_exit_hook);
  self_id = reserve_thread();
  cur = 0;
  draw_gap();
  atexit(finish);
  active = 1;
}
