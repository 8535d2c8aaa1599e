/* Shared control block between the simulator parent and one simulated run.
 * Mirrored by #[repr(C)] struct Ctl in src/rt.rs - keep both in step. */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>

#define SIM_MAGIC 0x52414c5353494d31ull
#define MAX_SCRIPT (1u << 20)
#define MAX_DEC    (1u << 20)
#define OUT_CAP    (1u << 18)

enum { D_PREEMPT = 1, D_CPRE, D_WPRE, D_PICK, D_WAKE, D_SPUR, D_RD, D_OPEN, D_WR, D_OUT, D_THR, D_CLK, D_ERRW, D_TYPES };
enum { V_NONE = 0, V_FINISHED = 1, V_DEADLOCK = 2, V_STEPLIMIT = 3, V_INTERNAL = 4 };
enum { ST_NONE = 0, ST_RANDOM, ST_PCT, ST_RARE, ST_STATIC, ST_STALL };
/* fault value encoding for D_RD / D_WR / D_OUT / D_ERRW: high byte = kind */
enum { F_SHORT = 1, F_ERRNO = 2 };
/* counters */
enum {
  C_PREEMPT = 0, C_PICK, C_WAKE_REORDER, C_SPURIOUS, C_RD_SHORT, C_RD_EINTR, C_RD_ERR, C_OPEN_ERR,
  C_WR_SHORT, C_WR_EINTR, C_WR_ERR, C_ENOSPC, C_OUT_SHORT, C_OUT_EINTR, C_OUT_ERR, C_THR_FAIL,
  C_CLK_JUMP, C_ALLOC_REFUSED, C_STALL, C_RARE_PREEMPT, C_STATIC_PREEMPT, C_THREADS, C_FUTEX_WAIT,
  C_FUTEX_WAKE, C_YIELD, C_OPENS, C_CLOSES, C_READS, C_WRITES, C_CLK_READS, C_TIMEOUTS, C_ERRW_ERR, C_WATCHED, C_FILLED, C_RT_SET,
  C_N = 40
};

typedef struct { uint32_t type; uint32_t val; uint64_t key; } sim_dec;

typedef struct {
  uint64_t magic;
  /* ---- configuration ---- */
  uint64_t seed_sched, seed_fault, seed_hash, seed_clock;
  uint32_t mode;            /* 0: decisions from the PRNG, 1: decisions from the script */
  uint32_t strat;
  uint32_t mean_gap;        /* mean steps between preemptions (0: none) */
  uint32_t pct_depth;
  uint32_t p_edge;          /* /1024 preempt when a flagged edge / static access is met */
  uint32_t exec_mode;
  uint64_t est_steps;
  uint64_t step_limit;
  uint32_t p_spurious;      /* /65536 */
  uint32_t p_rd_short, p_rd_eintr;   /* /65536 */
  uint32_t rd_err_ord, rd_errno;     /* ordinal of the read that fails, ~0: none */
  uint32_t rd_err_sticky;
  uint32_t op_err_ord, op_errno;
  uint32_t p_wr_short, p_wr_eintr;
  uint32_t wr_err_ord, wr_errno;
  uint64_t disk_cap;        /* bytes the simulated output disk takes; ~0: unlimited */
  uint64_t out_cap;         /* bytes stdout takes before failing; ~0: unlimited */
  uint32_t out_errno;
  uint32_t p_out_short, p_out_eintr;
  uint32_t err_errno;       /* every stderr write fails with this errno when nonzero */
  uint32_t thr_fail_ord;    /* ordinal of the pthread_create that fails; ~0: none */
  uint32_t thr_fail_sticky;
  uint64_t mem_single, mem_total;    /* allocation limits, ~0: none */
  uint64_t ns_per_step;
  uint32_t p_clk_jump;      /* /65536 per clock read */
  uint32_t clk_jump_max_us;
  uint64_t clk_read_ns;     /* time that passes per clock read */
  char prefix[64];          /* paths below this are simulated files */
  uint64_t watch_size;      /* allocations of this many bytes are counted */
  uint32_t nscript;
  uint32_t mem_fill;        /* nonzero: fresh memory is filled with this byte */
  /* ---- results ---- */
  uint32_t ndec, dec_overflow;
  uint32_t verdict;
  uint32_t rt_jump;         /* configuration: the wall clock is set anew, by up to this many seconds either way, before one read in four */
  uint64_t steps, switches;
  uint64_t trace_hash, sched_hash;
  uint64_t now_ns;
  uint64_t live_bytes, peak_bytes, max_request;
  uint64_t refused_request;
  uint32_t nthreads, live_threads;
  uint32_t open_fds, pad2;
  uint64_t disk_used;
  uint64_t counters[C_N];
  uint64_t clk_first, clk_last, clk_prev, clk_last_steps, clk_prev_steps, clk_first_steps;
  uint64_t clk_grain;       /* configuration: the clock only shows multiples of this */
  uint64_t out_len, err_len, res_len;
  char msg[1024];
  char out_buf[OUT_CAP];
  char err_buf[OUT_CAP];
  char res_buf[OUT_CAP];
  sim_dec script[MAX_SCRIPT];
  sim_dec dec[MAX_DEC];
} sim_ctl;
#endif
