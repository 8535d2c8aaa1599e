/* simrt: the simulated kernel the real rawloader / rayon / std code runs on.
 *
 * It is linked into every simulated binary and takes over, while a simulation is active,
 *   - thread scheduling: real OS threads, exactly one of which runs at any time; who runs is decided here, at every
 *     instrumented basic-block edge / load / store (SanitizerCoverage callbacks), at every futex call, yield,
 *     sleep, thread creation, join and exit;
 *   - clocks, sleeping, randomness;
 *   - file and stdio system calls (with fault injection below a path prefix and on fd 1/2);
 *   - the C allocator (accounting, simulated memory limit).
 * With no simulation active every entry point is a plain pass-through. This file is not instrumented. */
#define _GNU_SOURCE
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <malloc.h>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define MAXT 2048

/* ------------------------------------------------------------------ raw system calls */
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static inline long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

/* ------------------------------------------------------------------ state */
enum { T_FREE = 0, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
typedef struct {
  volatile int go;
  int state;
  const uint32_t *faddr;
  uint32_t fbits;
  uint64_t fseq;       /* order of arrival on the futex */
  uint64_t deadline;   /* simulated ns, 0 = none */
  int woke;            /* 0 woken, 1 timed out */
  int join_target;
  int prio;
  uint64_t stalled_until;
  pthread_t handle;
} thr_t;

static thr_t T[MAXT];
static int nT;
static int cur;                    /* index of the thread that holds the baton */
static int active;
static sim_ctl *ctl;
static uint64_t steps, next_event = ~0ull;
static uint64_t ev_preempt = ~0ull, ev_deadline = ~0ull, ev_limit = ~0ull, ev_stall = ~0ull;
static uint64_t clock_off;         /* ns added by jumps and waits */
static uint64_t futex_seq;
static uint64_t rng_sched, rng_fault, rng_hash, rng_clock;
static uint64_t dec_last_step; static uint32_t dec_sub[D_TYPES];
static uint32_t script_sched_pos;  /* next schedule decision (PREEMPT/PICK/WAKE), script is sorted by key */
static uint32_t script_sched_end;
static uint32_t ord_wait, ord_rd, ord_open, ord_wr, ord_out, ord_thr, ord_clk, ord_errw;
static int prio_low;
static uint64_t pct_points[16]; static int pct_n, pct_i;
static __thread int my_id = -1;
static pthread_key_t exit_key; static int key_made;
static unsigned char fdflag[4096];

/* instrumentation tables */
static uint32_t n_guards;
#define MAXG (1u << 19)
static uint32_t edge_static[MAXG];
static uint32_t *edge_hits = edge_static;     /* shared with the parent process once sim_share_edges was called */
static uint64_t parent_seed; static int parent_seeded;
static unsigned char edge_flag[MAXG];
static uintptr_t dat_lo, dat_len;
extern char __data_start, _end;

static inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline uint64_t rnd(uint64_t *s) { *s += 0x9e3779b97f4a7c15ull; return mix64(*s); }
static inline uint32_t rnd_n(uint64_t *s, uint32_t n) { return n ? (uint32_t)((rnd(s) >> 32) * (uint64_t)n >> 32) : 0; }
static inline void trace(uint64_t a, uint64_t b) { ctl->trace_hash = mix64(ctl->trace_hash ^ mix64(a * 0x1000193 + b)); }

static void die(int verdict, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vsnprintf(ctl->msg, sizeof ctl->msg, fmt, ap);
  va_end(ap);
  ctl->verdict = verdict; ctl->steps = steps;
  RAW(SYS_exit_group, 70 + verdict);
  __builtin_unreachable();
}

static uint64_t now_ns(void) { return 1000000000000ull + steps * ctl->ns_per_step + clock_off; }

static void recompute(void) {
  uint64_t e = ev_limit;
  if (ev_preempt < e) e = ev_preempt;
  if (ev_deadline < e) e = ev_deadline;
  if (ev_stall < e) e = ev_stall;
  next_event = active ? e : ~0ull;
}

/* ------------------------------------------------------------------ decisions */
/* a schedule decision is named by (type, step, how many decisions of that type were already taken at that step) */
static uint64_t dec_peek(int type) {
  if (dec_last_step != steps) { dec_last_step = steps; memset(dec_sub, 0, sizeof dec_sub); }
  return steps << 12 | (dec_sub[type] & 0xfff);
}
static uint64_t dec_key(int type) { uint64_t k = dec_peek(type); dec_sub[type]++; return k; }
static void log_dec(uint32_t type, uint64_t key, uint32_t val) {
  trace(type * 0x10001ull + val, key);
  if (ctl->ndec < MAX_DEC) { sim_dec d = { type, val, key }; ctl->dec[ctl->ndec++] = d; }
  else ctl->dec_overflow = 1;
}
/* schedule decisions: script[0..script_sched_end) sorted by key */
static int script_sched(uint32_t type, uint64_t key, uint32_t *val) {
  while (script_sched_pos < script_sched_end && ctl->script[script_sched_pos].key >> 12 < steps) script_sched_pos++;
  for (uint32_t i = script_sched_pos; i < script_sched_end && ctl->script[i].key >> 12 == steps; i++)
    if (ctl->script[i].type == type && ctl->script[i].key == key) { *val = ctl->script[i].val; return 1; }
  return 0;
}
static int script_fault(uint32_t type, uint64_t ord, uint32_t *val) {
  for (uint32_t i = script_sched_end; i < ctl->nscript; i++)
    if (ctl->script[i].type == type && ctl->script[i].key == ord) { *val = ctl->script[i].val; return 1; }
  return 0;
}
static void arm_preempt(void) {
  if (ctl->mode == 1) {
    ev_preempt = ~0ull;
    for (uint32_t i = script_sched_pos; i < script_sched_end; i++)
      if (ctl->script[i].type == D_PREEMPT && (ctl->script[i].key >> 12) > steps) { ev_preempt = ctl->script[i].key >> 12; break; }
  } else if (ctl->strat == ST_PCT) {
    while (pct_i < pct_n && pct_points[pct_i] <= steps) pct_i++;
    ev_preempt = pct_i < pct_n ? pct_points[pct_i] : ~0ull;
    /* a thread that spins for very long without blocking loses its priority */
    if (ev_preempt > steps + 4000000) ev_preempt = steps + 4000000;
  } else if (ctl->mean_gap) {
    /* roughly geometric: mixture of scales around the mean */
    uint64_t g = 1 + rnd_n(&rng_sched, 2 * ctl->mean_gap);
    if (rnd_n(&rng_sched, 8) == 0) g = 1 + g / 64;
    ev_preempt = steps + g;
  } else {
    /* still preempt eventually: a spinning thread must not starve the others forever */
    ev_preempt = steps + 20000000;
  }
  recompute();
}

/* ------------------------------------------------------------------ baton */
static void baton_wait(thr_t *t) {
  while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) RAW(SYS_futex, &t->go, 128 /*WAIT|PRIVATE*/, 0, 0, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void baton_give(int id) {
  cur = id;
  __atomic_store_n(&T[id].go, 1, __ATOMIC_RELEASE);
  RAW(SYS_futex, &T[id].go, 129 /*WAKE|PRIVATE*/, 1, 0, 0, 0);
}
static void switch_to(int id) {
  int me = cur;
  if (id == me) return;
  ctl->switches++;
  ctl->sched_hash = mix64(ctl->sched_hash ^ ((uint64_t)me << 48 ^ (uint64_t)id << 32 ^ (steps & 0xffffffff)));
  trace(0x5357ull << 32 | me << 16 | id, steps);
  baton_give(id);
  baton_wait(&T[me]);
}
static void rescan_deadlines(void) {
  uint64_t best = ~0ull;
  for (int i = 0; i < nT; i++)
    if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline && T[i].deadline < best) best = T[i].deadline;
  if (best == ~0ull) ev_deadline = ~0ull;
  else {
    uint64_t n = now_ns();
    ev_deadline = best <= n ? steps + 1 : steps + (best - n) / (ctl->ns_per_step ? ctl->ns_per_step : 1) + 1;
  }
  recompute();
}
static void fire_deadlines(void) {
  uint64_t n = now_ns();
  for (int i = 0; i < nT; i++)
    if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline && T[i].deadline <= n) {
      T[i].state = T_RUN; T[i].woke = 1; T[i].deadline = 0; T[i].faddr = 0; ctl->counters[C_TIMEOUTS]++;
    }
  rescan_deadlines();
}
static int count_runnable(void) { int n = 0; for (int i = 0; i < nT; i++) n += T[i].state == T_RUN; return n; }
static int rr_next(int from, int include_self) {
  for (int k = 1; k <= nT; k++) {
    int i = (from + k) % nT;
    if (i == from && !include_self) continue;
    if (T[i].state == T_RUN) return i;
  }
  return -1;
}
static int strat_pick(int from, int allow_self) {
  /* choose among runnable according to the strategy; -1 if none */
  int cand[MAXT], n = 0;
  for (int pass = 0; pass < 2 && !n; pass++)
    for (int i = 0; i < nT; i++)
      if (T[i].state == T_RUN && (allow_self || i != from) && (pass || T[i].stalled_until <= steps)) cand[n++] = i;
  if (!n) return -1;
  if (ctl->strat == ST_NONE) return rr_next(from, allow_self);
  if (ctl->strat == ST_PCT) {
    int b = cand[0];
    for (int i = 1; i < n; i++) if (T[cand[i]].prio > T[b].prio) b = cand[i];
    return b;
  }
  return cand[rnd_n(&rng_sched, n)];
}
/* the current thread cannot or does not want to continue; returns the thread to run (never -1) */
static int pick(int from, int allow_self) {
  for (;;) {
    if (count_runnable() - (!allow_self && T[from].state == T_RUN) > 0) break;
    if (!allow_self && T[from].state == T_RUN) return from;   /* a yield with nobody else */
    uint64_t best = ~0ull; 
    for (int i = 0; i < nT; i++)
      if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline && T[i].deadline < best) best = T[i].deadline;
    if (best == ~0ull) {
      char b[700]; int o = 0;
      for (int i = 0; i < nT && o < 600; i++) if (T[i].state != T_DONE && T[i].state != T_FREE)
        o += snprintf(b + o, sizeof b - o, " t%d:%s", i, T[i].state == T_JOIN ? "join" : "futex");
      die(V_DEADLOCK, "deadlock: every thread is blocked with no pending timer:%s", b);
    }
    uint64_t n = now_ns();
    if (best > n) clock_off += best - n;
    fire_deadlines();
  }
  int def = rr_next(from, allow_self);
  uint64_t key = dec_key(D_PICK);
  int id = def; uint32_t v;
  if (ctl->mode == 1) { if (script_sched(D_PICK, key, &v) && v < (uint32_t)nT && T[v].state == T_RUN) id = v; }
  else id = strat_pick(from, allow_self);
  if (id < 0) id = def;
  if (id != def) { log_dec(D_PICK, key, id); ctl->counters[C_PICK]++; }
  return id;
}
static void block_current(void) {
  int me = cur;
  int id = pick(me, 0);
  if (id != me) switch_to(id);
}
/* ask the strategy (or the script) whether somebody else should run now.  want = 0: the strategy passes on this
 * opportunity; it is counted all the same, so that opportunities have the same names in every run.  Returns 1 after a switch. */
static int do_preempt(int type, int reason, int want) {
  if (!active || my_id != cur) return 0;
  int me = cur, id = me; uint32_t v;
  uint64_t key = dec_key(type);
  if (ctl->mode == 1) {
    if (script_sched(type, key, &v) && v < (uint32_t)nT && T[v].state == T_RUN) id = v;
  } else if (want && count_runnable() > 1) {
    if (ctl->strat == ST_PCT) { if (type == D_PREEMPT) T[me].prio = --prio_low; id = strat_pick(me, 1); }
    else if (ctl->strat != ST_NONE || type == D_PREEMPT) id = strat_pick(me, 0);
    if (id < 0) id = me;
  }
  if (id == me) { if (type == D_PREEMPT) arm_preempt(); return 0; }
  log_dec(type, key, id);
  ctl->counters[reason]++;
  arm_preempt();
  switch_to(id);
  arm_preempt();
  return 1;
}
/* at most one preemption per instrumented event: the step number names it.  Returns 1 if this event had its chance. */
static __attribute__((noinline)) int slow(void) {
  if (!active) { next_event = ~0ull; return 1; }
  if (my_id != cur) return 1;
  if (steps >= ev_limit) {
    die(V_STEPLIMIT, "step limit: %llu simulated steps without completing", (unsigned long long)steps);
  }
  if (steps >= ev_deadline) fire_deadlines();
  if (steps >= ev_stall) {
    /* start stalling a random thread for a while */
    int v = rnd_n(&rng_sched, nT);
    uint64_t len = 1000 + rnd_n(&rng_sched, (uint32_t)(ctl->est_steps / 2 > 4000000000u ? 4000000000u : ctl->est_steps / 2 + 1));
    T[v].stalled_until = steps + len;
    ctl->counters[C_STALL]++;
    ev_stall = steps + len + 1 + rnd_n(&rng_sched, 1 + (uint32_t)len);
    recompute();
    if (v == cur && ctl->mode == 0) { do_preempt(D_PREEMPT, C_PREEMPT, 1); return 1; }
  }
  if (steps >= ev_preempt) { do_preempt(D_PREEMPT, C_PREEMPT, 1); return 1; }
  recompute();
  return 0;
}

/* ------------------------------------------------------------------ instrumentation callbacks */
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  for (uint32_t *p = a; p < b; p++) if (!*p) { *p = ++n_guards < MAXG ? n_guards : MAXG - 1; }
}
static __attribute__((noinline)) void flagged(int reason) {
  if (!active || my_id != cur || ctl->mode == 1) return;
  if (rnd_n(&rng_sched, 1024) < ctl->p_edge) do_preempt(D_PREEMPT, reason, 1);
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  uint32_t i = *g;
  edge_hits[i]++;
  if (unlikely(++steps >= next_event) && slow()) return;
  if (unlikely(edge_flag[i])) flagged(C_RARE_PREEMPT);
}
static inline void mem_cb(uintptr_t a) {
  if (unlikely(++steps >= next_event) && slow()) return;
  if (unlikely(a - dat_lo < dat_len)) flagged(C_STATIC_PREEMPT);
}
#define CB(n) \
  void __sanitizer_cov_load##n(void *p) { mem_cb((uintptr_t)p); } \
  void __sanitizer_cov_store##n(void *p) { mem_cb((uintptr_t)p); }
CB(1) CB(2) CB(4) CB(8) CB(16)
void sim_share_edges(void) {
  edge_hits = mmap(0, sizeof edge_static, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (edge_hits == MAP_FAILED) abort();
}
/* randomness outside a simulation (hash keys of maps built before the fork) */
void sim_parent_seed(uint64_t s) { parent_seed = mix64(s ^ 77); parent_seeded = 1; }
uint32_t sim_n_guards(void) { return n_guards; }
uint32_t *sim_edge_hits(void) { return edge_hits; }
unsigned char *sim_edge_flags(void) { return edge_flag; }
static uintptr_t guard_pc_tab_lo, guard_pc_tab_hi;
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) { guard_pc_tab_lo = (uintptr_t)a; guard_pc_tab_hi = (uintptr_t)b; }
const uintptr_t *sim_pcs(uint64_t *n) { *n = (guard_pc_tab_hi - guard_pc_tab_lo) / 16; return (const uintptr_t *)guard_pc_tab_lo; }
uint64_t sim_steps(void) { return steps; }

/* ------------------------------------------------------------------ threads */
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
typedef struct { void *(*fn)(void *); void *arg; int id; } boot_t;
static boot_t boots[MAXT];

static void thread_finish(void) {
  int me = my_id;
  my_id = -1;
  T[me].state = T_DONE;
  ctl->live_threads--;
  for (int i = 0; i < nT; i++) if (T[i].state == T_JOIN && T[i].join_target == me) T[i].state = T_RUN;
  int id = pick(me, 0);
  ctl->switches++;
  ctl->sched_hash = mix64(ctl->sched_hash ^ ((uint64_t)me << 48 ^ (uint64_t)id << 32 ^ (steps & 0xffffffff)));
  trace(0x4558ull << 32 | me << 16 | id, steps);
  baton_give(id);
}
static void exit_dtor(void *v) {
  uintptr_t n = (uintptr_t)v;
  if (n < 3) { pthread_setspecific(exit_key, (void *)(n + 1)); return; }
  if (my_id >= 0) thread_finish();
}
static void *boot_main(void *p) {
  boot_t *b = p;
  baton_wait(&T[b->id]);
  my_id = b->id;
  pthread_setspecific(exit_key, (void *)1);
  return b->fn(b->arg);
}
int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!active || my_id < 0) return real_pthread_create(th, attr, fn, arg);
  uint32_t o = ord_thr++; uint32_t v = 0;
  if (ctl->mode == 1) script_fault(D_THR, o, &v);
  else if (o == ctl->thr_fail_ord || (ctl->thr_fail_sticky && ctl->thr_fail_ord != ~0u && o > ctl->thr_fail_ord)) v = EAGAIN;
  if (v) { log_dec(D_THR, o, v); ctl->counters[C_THR_FAIL]++; return (int)v; }
  if (nT >= MAXT) die(V_INTERNAL, "too many simulated threads");
  int id = nT;
  memset(&T[id], 0, sizeof T[id]);
  boots[id].fn = fn; boots[id].arg = arg; boots[id].id = id;
  int r = real_pthread_create(&T[id].handle, attr, boot_main, &boots[id]);
  if (r) return r;
  *th = T[id].handle;
  /* a handle is used again once the detached thread that had it is gone */
  for (int i = 0; i < id; i++) if (pthread_equal(T[i].handle, *th)) T[i].handle = 0;
  T[id].state = T_RUN;
  T[id].prio = 1000 + (int)rnd_n(&rng_sched, 1000000);
  nT++;
  ctl->nthreads = nT; ctl->live_threads++; ctl->counters[C_THREADS]++;
  do_preempt(D_CPRE, C_PREEMPT, 1);
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  if (active && my_id >= 0) {
    for (int i = 0; i < nT; i++)
      if (pthread_equal(T[i].handle, th) && T[i].handle) {
        while (T[i].state != T_DONE) {
          T[my_id].state = T_JOIN; T[my_id].join_target = i;
          block_current();
        }
        T[i].handle = 0;
        return real_pthread_join(th, ret);
      }
    { char b[900]; int o = 0; for (int i = 0; i < nT && o < 800; i++) o += snprintf(b + o, sizeof b - o, " %d:%lx:%d", i, (long)T[i].handle, T[i].state); die(V_INTERNAL, "join of an unknown thread %lx:%s", (long)th, b); }
  }
  return real_pthread_join(th, ret);
}

/* ------------------------------------------------------------------ futex, yield, sleep */
static uint64_t to_ns(const struct timespec *ts) { return (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec; }

static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t val3) {
  int cmd = op & 0x7f;
  if (cmd == 0 || cmd == 9) {           /* WAIT, WAIT_BITSET */
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    ctl->counters[C_FUTEX_WAIT]++;
    uint32_t o = ord_wait++, v = 0;
    if (ctl->mode == 1) script_fault(D_SPUR, o, &v);
    else if (ctl->p_spurious && rnd_n(&rng_fault, 65536) < ctl->p_spurious) v = 1 + rnd_n(&rng_fault, 2);
    thr_t *t = &T[cur];
    if (v) {
      log_dec(D_SPUR, o, v); ctl->counters[C_SPURIOUS]++;
      int id = pick(cur, 0);
      if (id != cur) switch_to(id);
      if (v == 2) { errno = EINTR; return -1; }
      return 0;
    }
    t->deadline = 0;
    if (to) t->deadline = cmd == 9 ? to_ns(to) : now_ns() + to_ns(to);
    if (to && t->deadline == 0) t->deadline = 1;
    t->state = T_FUTEX; t->faddr = addr; t->fbits = cmd == 9 ? val3 : ~0u; t->fseq = futex_seq++; t->woke = 0;
    if (to) rescan_deadlines();
    block_current();
    if (t->woke) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == 1 || cmd == 10) {          /* WAKE, WAKE_BITSET */
    ctl->counters[C_FUTEX_WAKE]++;
    uint32_t bits = cmd == 10 ? val3 : ~0u; long woken = 0;
    while ((uint32_t)woken < val) {
      int cand[MAXT], n = 0;
      for (int i = 0; i < nT; i++) if (T[i].state == T_FUTEX && T[i].faddr == addr && (T[i].fbits & bits)) cand[n++] = i;
      if (!n) break;
      int b = 0;
      for (int i = 1; i < n; i++) if (T[cand[i]].fseq < T[cand[b]].fseq) b = i;
      if (n > 1 && val < (uint32_t)n) {
        uint64_t key = dec_key(D_WAKE); uint32_t v; int c = b;
        if (ctl->mode == 1) { if (script_sched(D_WAKE, key, &v) && v < (uint32_t)n) c = v; }
        else if (ctl->strat != ST_NONE) c = rnd_n(&rng_sched, n);
        if (c != b) { log_dec(D_WAKE, key, c); ctl->counters[C_WAKE_REORDER]++; b = c; }
      }
      thr_t *t = &T[cand[b]];
      t->state = T_RUN; t->faddr = 0; t->woke = 0;
      if (t->deadline) { t->deadline = 0; rescan_deadlines(); }
      woken++;
    }
    if (woken) do_preempt(D_WPRE, C_PREEMPT, ctl->strat == ST_PCT || (ctl->strat != ST_NONE && rnd_n(&rng_sched, 4) == 0));
    return woken;
  }
  errno = ENOSYS; return -1;
}

static void sim_getrandom(void *buf, size_t n) {
  unsigned char *p = buf;
  while (n) { uint64_t r = rnd(active ? &rng_hash : &parent_seed); size_t k = n < 8 ? n : 8; memcpy(p, &r, k); p += k; n -= k; }
}
static int managed(void) { return active && my_id >= 0 && my_id == cur; }

long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (managed()) {
    if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
    if (n == SYS_getrandom) { sim_getrandom((void *)a, (size_t)b); return b; }
  } else if (n == SYS_getrandom && parent_seeded) { sim_getrandom((void *)a, (size_t)b); return b; }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}
int sched_yield(void) {
  if (!managed()) return (int)RAW(SYS_sched_yield);
  ctl->counters[C_YIELD]++;
  if (ctl->strat == ST_PCT && ctl->mode == 0) T[cur].prio = --prio_low;
  int id = pick(cur, 0);
  if (id != cur) switch_to(id);
  return 0;
}
static int sim_sleep(uint64_t deadline) {
  thr_t *t = &T[cur];
  t->deadline = deadline ? deadline : 1; t->state = T_SLEEP; t->woke = 0;
  rescan_deadlines();
  block_current();
  return 0;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!managed()) return (int)ret_errno(RAW(SYS_nanosleep, r, rem));
  return sim_sleep(now_ns() + to_ns(r));
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  if (!managed()) return (int)-RAW(SYS_clock_nanosleep, c, fl, r, rem);
  return sim_sleep((fl & TIMER_ABSTIME) ? to_ns(r) : now_ns() + to_ns(r));
}
int usleep(useconds_t us) {
  struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
  return nanosleep(&ts, 0);
}

/* ------------------------------------------------------------------ clocks, randomness */
/* the wall clock: people and daemons set it, forwards and backwards */
static int64_t rt_off; static uint32_t ord_rt;
static uint64_t sim_rt_read(void) {
  uint64_t n = now_ns() + 1700000000000000000ull;
  if (ctl->rt_jump) {
    uint64_t h = mix64(ctl->seed_clock ^ 0x7274ull ^ ((uint64_t)ord_rt++ << 20));
    if ((h & 3) == 0) { rt_off = (int64_t)((h >> 2) % (2ull * ctl->rt_jump * 1000000000ull)) - (int64_t)(ctl->rt_jump * 1000000000ull); ctl->counters[C_RT_SET]++; }
  }
  return n + (uint64_t)rt_off;
}
static uint64_t sim_clock_read(void) {
  uint32_t o = ord_clk++, v = 0;
  ctl->counters[C_CLK_READS]++;
  if (ctl->mode == 1) script_fault(D_CLK, o, &v);
  else if (ctl->p_clk_jump && rnd_n(&rng_clock, 65536) < ctl->p_clk_jump) v = 1 + rnd_n(&rng_clock, ctl->clk_jump_max_us);
  if (v) { log_dec(D_CLK, o, v); ctl->counters[C_CLK_JUMP]++; clock_off += (uint64_t)v * 1000; fire_deadlines(); }
  clock_off += ctl->clk_read_ns;
  uint64_t n = now_ns();
  if (ctl->clk_grain) n -= n % ctl->clk_grain;      /* a clock that ticks */
  if (!ctl->clk_first) { ctl->clk_first = n; ctl->clk_first_steps = steps; }
  ctl->clk_prev = ctl->clk_last; ctl->clk_prev_steps = ctl->clk_last_steps;
  ctl->clk_last = n; ctl->clk_last_steps = steps;
  return n;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (managed() && (c == CLOCK_MONOTONIC || c == CLOCK_REALTIME || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_RAW ||
      c == CLOCK_MONOTONIC_COARSE || c == CLOCK_REALTIME_COARSE)) {
    uint64_t n = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? sim_rt_read() : sim_clock_read();
    ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull;
    return 0;
  }
  return (int)ret_errno(RAW(SYS_clock_gettime, c, ts));
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  (void)tz; tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (managed() || parent_seeded) { sim_getrandom(b, n); return n; }
  return ret_errno(RAW(SYS_getrandom, b, n, fl));
}

/* ------------------------------------------------------------------ files */
static int under_prefix(const char *p) {
  size_t l = strlen(ctl->prefix);
  return l && strncmp(p, ctl->prefix, l) == 0;
}
static long sim_openat(int dfd, const char *path, int flags, mode_t mode) {
  if (managed() && under_prefix(path)) {
    uint32_t o = ord_open++, v = 0;
    if (ctl->mode == 1) script_fault(D_OPEN, o, &v);
    else if (o == ctl->op_err_ord) v = ctl->op_errno;
    if (v) { log_dec(D_OPEN, o, v); ctl->counters[C_OPEN_ERR]++; errno = (int)v; return -1; }
    long fd = ret_errno(RAW(SYS_openat, dfd, path, flags, mode));
    if (fd >= 0 && fd < (long)sizeof fdflag) { fdflag[fd] = 1; ctl->counters[C_OPENS]++; ctl->open_fds++; }
    return fd;
  }
  return ret_errno(RAW(SYS_openat, dfd, path, flags, mode));
}
#define OPENMODE mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { OPENMODE return (int)sim_openat(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { OPENMODE return (int)sim_openat(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { OPENMODE return (int)sim_openat(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { OPENMODE return (int)sim_openat(d, p, fl, m); }
int close(int fd) {
  if (active && fd >= 0 && fd < (int)sizeof fdflag && fdflag[fd]) { fdflag[fd] = 0; ctl->counters[C_CLOSES]++; ctl->open_fds--; }
  return (int)ret_errno(RAW(SYS_close, fd));
}
static int is_sim_fd(int fd) { return managed() && fd >= 0 && fd < (int)sizeof fdflag && fdflag[fd]; }

/* decides what happens to one read of n bytes: returns 0 to proceed with *n, -1 with errno set to fail */
static int read_fault(size_t *n) {
  uint32_t o = ord_rd++, v = 0;
  ctl->counters[C_READS]++;
  if (ctl->mode == 1) script_fault(D_RD, o, &v);
  else if (o == ctl->rd_err_ord || (ctl->rd_err_sticky && ctl->rd_err_ord != ~0u && o > ctl->rd_err_ord)) v = F_ERRNO << 24 | ctl->rd_errno;
  else if (ctl->p_rd_eintr && rnd_n(&rng_fault, 65536) < ctl->p_rd_eintr) v = F_ERRNO << 24 | EINTR;
  else if (ctl->p_rd_short && rnd_n(&rng_fault, 65536) < ctl->p_rd_short && *n > 1) {
    uint32_t lim = *n > 0xfffff ? 0xfffff : (uint32_t)*n - 1;
    uint32_t k = rnd_n(&rng_fault, 3) ? 1 + rnd_n(&rng_fault, lim < 64 ? lim : 64) : 1 + rnd_n(&rng_fault, lim);
    v = F_SHORT << 24 | (k & 0xffffff);
  }
  if (v) {
    log_dec(D_RD, o, v);
    if (v >> 24 == F_SHORT) { ctl->counters[C_RD_SHORT]++; if ((v & 0xffffff) < *n) *n = v & 0xffffff; return 0; }
    ctl->counters[(v & 0xffffff) == EINTR ? C_RD_EINTR : C_RD_ERR]++;
    errno = v & 0xffffff; return -1;
  }
  return 0;
}
ssize_t read(int fd, void *b, size_t n) {
  if (is_sim_fd(fd) && read_fault(&n)) return -1;
  return ret_errno(RAW(SYS_read, fd, b, n));
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off) {
  if (is_sim_fd(fd) && read_fault(&n)) return -1;
  return ret_errno(RAW(SYS_pread64, fd, b, n, off));
}
ssize_t pread(int fd, void *b, size_t n, off_t off) { return pread64(fd, b, n, off); }
ssize_t readv(int fd, const struct iovec *iov, int cnt) {
  if (is_sim_fd(fd)) {
    /* one buffer is always a legal short readv */
    for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
  }
  return ret_errno(RAW(SYS_readv, fd, iov, cnt));
}
static ssize_t sim_write(int fd, const void *b, size_t n) {
  uint32_t o = ord_wr++, v = 0;
  ctl->counters[C_WRITES]++;
  if (ctl->mode == 1) script_fault(D_WR, o, &v);
  else if (o == ctl->wr_err_ord) v = F_ERRNO << 24 | ctl->wr_errno;
  else if (ctl->p_wr_eintr && rnd_n(&rng_fault, 65536) < ctl->p_wr_eintr) v = F_ERRNO << 24 | EINTR;
  else if (ctl->p_wr_short && n > 1 && rnd_n(&rng_fault, 65536) < ctl->p_wr_short) v = F_SHORT << 24 | (1 + rnd_n(&rng_fault, n > 0xfffff ? 0xfffff : (uint32_t)n - 1));
  if (v) {
    log_dec(D_WR, o, v);
    if (v >> 24 == F_SHORT) { ctl->counters[C_WR_SHORT]++; if ((v & 0xffffff) < n) n = v & 0xffffff; }
    else { ctl->counters[(v & 0xffffff) == EINTR ? C_WR_EINTR : C_WR_ERR]++; errno = v & 0xffffff; return -1; }
  }
  if (ctl->disk_cap != ~0ull) {
    uint64_t left = ctl->disk_cap > ctl->disk_used ? ctl->disk_cap - ctl->disk_used : 0;
    if (n && !left) { ctl->counters[C_ENOSPC]++; trace(0xd15c, o); errno = ENOSPC; return -1; }
    if (n > left) n = left;
  }
  long r = ret_errno(RAW(SYS_write, fd, b, n));
  if (r > 0) ctl->disk_used += r;
  return r;
}
static ssize_t sim_stdio(int fd, const char *b, size_t n) {
  if (fd == 2) {
    uint32_t o = ord_errw++; (void)o;
    if (ctl->err_errno) { ctl->counters[C_ERRW_ERR]++; errno = ctl->err_errno; return -1; }
    for (size_t i = 0; i < n && ctl->err_len < OUT_CAP; i++) ctl->err_buf[ctl->err_len++] = b[i];
    return n;
  }
  uint32_t o = ord_out++, v = 0;
  if (ctl->mode == 1) script_fault(D_OUT, o, &v);
  else if (ctl->p_out_eintr && rnd_n(&rng_fault, 65536) < ctl->p_out_eintr) v = F_ERRNO << 24 | EINTR;
  else if (ctl->p_out_short && n > 1 && rnd_n(&rng_fault, 65536) < ctl->p_out_short) v = F_SHORT << 24 | (1 + rnd_n(&rng_fault, (uint32_t)n - 1));
  if (v) {
    log_dec(D_OUT, o, v);
    if (v >> 24 == F_SHORT) { ctl->counters[C_OUT_SHORT]++; if ((v & 0xffffff) < n) n = v & 0xffffff; }
    else { ctl->counters[C_OUT_EINTR]++; errno = v & 0xffffff; return -1; }
  }
  if (ctl->out_cap != ~0ull) {
    uint64_t left = ctl->out_cap > ctl->out_len ? ctl->out_cap - ctl->out_len : 0;
    if (n && !left) { ctl->counters[C_OUT_ERR]++; trace(0x007, o); errno = ctl->out_errno; return -1; }
    if (n > left) n = left;
  }
  for (size_t i = 0; i < n; i++) { if (ctl->out_len < OUT_CAP) ctl->out_buf[ctl->out_len] = b[i]; ctl->out_len++; }
  return n;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (managed()) {
    if (fd == 1 || fd == 2) return sim_stdio(fd, b, n);
    if (is_sim_fd(fd)) return sim_write(fd, b, n);
  }
  return ret_errno(RAW(SYS_write, fd, b, n));
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  if (managed() && (fd == 1 || fd == 2 || is_sim_fd(fd))) {
    for (int i = 0; i < cnt; i++) if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
  }
  return ret_errno(RAW(SYS_writev, fd, iov, cnt));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) { return ret_errno(RAW(SYS_pwrite64, fd, b, n, off)); }

/* ------------------------------------------------------------------ allocator */
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *); extern void *__libc_memalign(size_t, size_t);
static int64_t live;
/* Allocations made while the parent warms up live in an arena that is afterwards mapped privately from a memfd: fork() then has no page
 * tables to copy for it, and a child that writes there (a cache inside the loader, say) writes to its own copy. */
#define ARENA_BASE ((char *)0x600000000000ull)
#define ARENA_SIZE (1ull << 30)
static char *arena_top; static __thread int arena_on; static int arena_fd = -1; static void *arena_free[4097];
static inline int in_arena(const void *p) { return (uintptr_t)p - (uintptr_t)ARENA_BASE < ARENA_SIZE; }
static inline size_t arena_len(const void *p) { return ((const size_t *)p)[-2]; }
static void *arena_alloc(size_t n) {
  n = (n + 15) & ~(size_t)15; if (!n) n = 16;
  if (n <= 65536 && arena_free[n / 16]) { void *p = arena_free[n / 16]; arena_free[n / 16] = *(void **)p; return p; }
  if (arena_top + n + 16 > ARENA_BASE + ARENA_SIZE) return 0;
  char *p = arena_top + 16; arena_top = p + n; ((size_t *)p)[-2] = n;
  return p;
}
void sim_arena_begin(void) {
  arena_fd = memfd_create("simarena", 0);
  if (arena_fd < 0 || ftruncate(arena_fd, ARENA_SIZE)) abort();
  if (mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, arena_fd, 0) != ARENA_BASE) abort();
  arena_top = ARENA_BASE; arena_on = 1;
}
void sim_arena_end(void) {
  arena_on = 0;
  if (mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, arena_fd, 0) != ARENA_BASE) abort();
  RAW(SYS_close, arena_fd);
}
static inline size_t usable(void *p) { return in_arena(p) ? arena_len(p) : malloc_usable_size(p); }
static int refuse(size_t n) {
  if (!active || my_id < 0) return 0;
  if (n > ctl->max_request) ctl->max_request = n;
  if (n == ctl->watch_size) ctl->counters[C_WATCHED]++;
  if (n > ctl->mem_single || (uint64_t)(live > 0 ? live : 0) + n > ctl->mem_total) {
    ctl->counters[C_ALLOC_REFUSED]++; ctl->refused_request = n; return 1;
  }
  return 0;
}
/* memory comes with whatever was in it before */
static inline void dirty(void *p, size_t from, size_t n) {
  if (active && my_id >= 0 && ctl->mem_fill && p && n > from) { memset((char *)p + from, (int)ctl->mem_fill, n - from); ctl->counters[C_FILLED]++; }
}
static void account(void *p) {
  if (!p) return;
  live += usable(p);
  if (active) { if (live > 0 && (uint64_t)live > ctl->peak_bytes) ctl->peak_bytes = live; }
}
void *malloc(size_t n) {
  if (refuse(n)) { errno = ENOMEM; return 0; }
  void *p = arena_on ? arena_alloc(n) : __libc_malloc(n); account(p); dirty(p, 0, n); return p;
}
void *calloc(size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n) || refuse(n)) { errno = ENOMEM; return 0; }
  void *p;
  if (arena_on) { p = arena_alloc(n); if (p) memset(p, 0, n); } else p = __libc_calloc(a, b);
  account(p); return p;
}
void free(void *p) {
  if (!p) return;
  live -= usable(p);
  if (in_arena(p)) { size_t n = arena_len(p); if (arena_on && n <= 65536) { *(void **)p = arena_free[n / 16]; arena_free[n / 16] = p; } return; }
  __libc_free(p);
}
void *realloc(void *o, size_t n) {
  size_t old = o ? usable(o) : 0;
  if (n > old && refuse(n)) { errno = ENOMEM; return 0; }
  if (arena_on || (o && in_arena(o))) {
    void *p = malloc(n); if (!p) return 0;
    if (o) { memcpy(p, o, old < n ? old : n); free(o); }
    return p;
  }
  void *p = __libc_realloc(o, n);
  if (p || !n) { live -= old; account(p); }
  dirty(p, old, n);
  return p;
}
void *memalign(size_t a, size_t n) {
  if (refuse(n)) { errno = ENOMEM; return 0; }
  void *p = arena_on && a <= 16 ? arena_alloc(n) : __libc_memalign(a, n); account(p); dirty(p, 0, n); return p;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
int64_t sim_live_bytes(void) { return live; }

/* ------------------------------------------------------------------ begin / end */
void sim_begin(sim_ctl *c) {
  ctl = c;
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  if (!key_made) { pthread_key_create(&exit_key, exit_dtor); key_made = 1; }
  memset(T, 0, sizeof T);
  nT = 1; cur = 0; my_id = 0; T[0].state = T_RUN; T[0].handle = 0;
  steps = 0; clock_off = 0; futex_seq = 0; dec_last_step = 0; memset(dec_sub, 0, sizeof dec_sub);
  rng_sched = mix64(c->seed_sched ^ 1); rng_fault = mix64(c->seed_fault ^ 2);
  rng_hash = mix64(c->seed_hash ^ 3); rng_clock = mix64(c->seed_clock ^ 4);
  ord_wait = ord_rd = ord_open = ord_wr = ord_out = ord_thr = ord_clk = ord_errw = 0; ord_rt = 0; rt_off = 0;
  prio_low = 0;
  T[0].prio = 1000 + (int)rnd_n(&rng_sched, 1000000);
  c->ndec = 0; c->dec_overflow = 0; c->verdict = V_NONE; c->switches = 0; c->trace_hash = 0; c->sched_hash = 0;
  c->nthreads = 1; c->live_threads = 1; c->open_fds = 0; c->disk_used = 0; c->out_len = c->err_len = 0; c->clk_first = c->clk_last = c->clk_prev = c->clk_last_steps = c->clk_prev_steps = c->clk_first_steps = 0; c->res_len = 0;
  c->peak_bytes = 0; c->max_request = 0; c->refused_request = 0; c->msg[0] = 0;
  memset(c->counters, 0, sizeof c->counters);
  script_sched_pos = 0; script_sched_end = 0;
  while (script_sched_end < c->nscript && c->script[script_sched_end].type <= D_WAKE) script_sched_end++;
  ev_limit = c->step_limit ? c->step_limit : ~0ull;
  ev_deadline = ~0ull; ev_stall = ~0ull;
  live = 0;
  dat_len = 0;
  if (c->mode == 0 && c->strat == ST_STATIC) { dat_lo = (uintptr_t)&__data_start; dat_len = (uintptr_t)&_end - dat_lo; }
  if (c->mode == 0 && c->strat == ST_STALL) ev_stall = 1 + rnd_n(&rng_sched, (uint32_t)(c->est_steps > 4000000000u ? 4000000000u : c->est_steps + 1));
  pct_n = pct_i = 0;
  if (c->mode == 0 && c->strat == ST_PCT) {
    pct_n = c->pct_depth < 16 ? c->pct_depth : 16;
    for (int i = 0; i < pct_n; i++) pct_points[i] = 1 + rnd(&rng_sched) % (c->est_steps + 1);
    for (int i = 0; i < pct_n; i++) for (int j = i + 1; j < pct_n; j++) if (pct_points[j] < pct_points[i]) { uint64_t x = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = x; }
  }
  active = 1;
  arm_preempt();
}
void sim_end(void) {
  ctl->steps = steps; ctl->now_ns = now_ns(); ctl->live_bytes = live;
  ctl->verdict = V_FINISHED;
  active = 0; next_event = ~0ull; dat_len = 0;
}
uint64_t sim_now(void) { return now_ns(); }

/* exec mode: the control block comes in on an inherited descriptor named by SIMRT_FD */
static void exec_exit(void) { if (active) sim_end(); }
__attribute__((constructor)) static void sim_ctor(void) {
  const char *e = getenv("SIMRT_FD");
  if (!e) return;
  int fd = atoi(e);
  sim_ctl *c = mmap(0, sizeof(sim_ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (c == MAP_FAILED || c->magic != SIM_MAGIC) _exit(99);
  RAW(SYS_close, fd);
  unsetenv("SIMRT_FD");
  atexit(exec_exit);
  sim_begin(c);
}

/* ------------------------------------------------------------------ helpers for the harness (uninstrumented) */
uint64_t sim_ctl_size(void) { return sizeof(sim_ctl); }
uint64_t sim_hash(const unsigned char *p, uint64_t n, uint64_t seed) {
  uint64_t h = mix64(seed ^ n);
  while (n >= 8) { uint64_t v; memcpy(&v, p, 8); h = (h ^ v) * 0x9fb21c651e98df25ull; h ^= h >> 32; p += 8; n -= 8; }
  uint64_t v = 0; memcpy(&v, p, n); h = mix64(h ^ v);
  return h;
}
void sim_fill(unsigned char *p, uint64_t n, uint64_t seed) {
  uint64_t s = mix64(seed);
  while (n) { uint64_t r = rnd(&s); uint64_t k = n < 8 ? n : 8; memcpy(p, &r, k); p += k; n -= k; }
}
int sim_thread_count(void) { return nT; }
void sim_res(const char *s, uint64_t n) {
  for (uint64_t i = 0; i < n && ctl->res_len < OUT_CAP; i++) ctl->res_buf[ctl->res_len++] = s[i];
}
