//! Rust mirror of rt/simrt.h and the few libc calls the harness needs.
#![allow(dead_code)]
use std::ffi::CString;

pub const MAGIC: u64 = 0x52414c5353494d31;
pub const MAX_SCRIPT: usize = 1 << 20;
pub const MAX_DEC: usize = 1 << 20;
pub const OUT_CAP: usize = 1 << 18;
pub const C_N: usize = 40;

pub const D_PREEMPT: u32 = 1;
pub const D_CPRE: u32 = 2;
pub const D_WPRE: u32 = 3;
pub const D_PICK: u32 = 4;
pub const D_WAKE: u32 = 5;
pub const D_SPUR: u32 = 6;
pub const D_RD: u32 = 7;
pub const D_OPEN: u32 = 8;
pub const D_WR: u32 = 9;
pub const D_OUT: u32 = 10;
pub const D_THR: u32 = 11;
pub const D_CLK: u32 = 12;
pub const D_ERRW: u32 = 13;
pub const D_NAMES: [&str; 14] = ["?", "preempt", "create-preempt", "wake-preempt", "pick", "wake", "spurious-wakeup", "read",
  "open", "write", "stdout", "thread-create", "clock", "stderr"];

pub const V_NONE: u32 = 0;
pub const V_FINISHED: u32 = 1;
pub const V_DEADLOCK: u32 = 2;
pub const V_STEPLIMIT: u32 = 3;
pub const V_INTERNAL: u32 = 4;

pub const ST_NONE: u32 = 0;
pub const ST_RANDOM: u32 = 1;
pub const ST_PCT: u32 = 2;
pub const ST_RARE: u32 = 3;
pub const ST_STATIC: u32 = 4;
pub const ST_STALL: u32 = 5;

pub const COUNTERS: [&str; C_N] = ["preemptions", "picks_nondefault", "wake_reorders", "spurious_wakeups", "short_reads", "read_eintr",
  "read_errors", "open_errors", "short_writes", "write_eintr", "write_errors", "disk_full", "stdout_short", "stdout_eintr",
  "stdout_errors", "thread_create_failures", "clock_jumps", "allocations_refused", "thread_stalls", "preempt_at_rare_edge",
  "preempt_at_static_access", "threads_created", "futex_waits", "futex_wakes", "yields", "files_opened", "files_closed", "reads",
  "writes", "clock_reads", "timeouts", "stderr_errors", "watched", "memory_filled", "wall_clock_set", "", "", "", "", ""];
pub fn counter(name: &str) -> usize { COUNTERS.iter().position(|c| *c == name).unwrap() }

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dec { pub typ: u32, pub val: u32, pub key: u64 }

#[repr(C)]
pub struct Ctl {
  pub magic: u64,
  pub seed_sched: u64, pub seed_fault: u64, pub seed_hash: u64, pub seed_clock: u64,
  pub mode: u32, pub strat: u32, pub mean_gap: u32, pub pct_depth: u32, pub p_edge: u32, pub exec_mode: u32,
  pub est_steps: u64, pub step_limit: u64,
  pub p_spurious: u32, pub p_rd_short: u32, pub p_rd_eintr: u32, pub rd_err_ord: u32, pub rd_errno: u32, pub rd_err_sticky: u32,
  pub op_err_ord: u32, pub op_errno: u32,
  pub p_wr_short: u32, pub p_wr_eintr: u32, pub wr_err_ord: u32, pub wr_errno: u32,
  pub disk_cap: u64, pub out_cap: u64,
  pub out_errno: u32, pub p_out_short: u32, pub p_out_eintr: u32, pub err_errno: u32,
  pub thr_fail_ord: u32, pub thr_fail_sticky: u32,
  pub mem_single: u64, pub mem_total: u64, pub ns_per_step: u64,
  pub p_clk_jump: u32, pub clk_jump_max_us: u32,
  pub clk_read_ns: u64,
  pub prefix: [u8; 64],
  pub watch_size: u64, pub nscript: u32, pub mem_fill: u32,
  pub ndec: u32, pub dec_overflow: u32, pub verdict: u32, pub rt_jump: u32,
  pub steps: u64, pub switches: u64, pub trace_hash: u64, pub sched_hash: u64, pub now_ns: u64,
  pub live_bytes: u64, pub peak_bytes: u64, pub max_request: u64, pub refused_request: u64,
  pub nthreads: u32, pub live_threads: u32, pub open_fds: u32, pub pad2: u32,
  pub disk_used: u64,
  pub counters: [u64; C_N],
  pub clk_first: u64, pub clk_last: u64, pub clk_prev: u64, pub clk_last_steps: u64, pub clk_prev_steps: u64, pub clk_first_steps: u64, pub clk_grain: u64,
  pub out_len: u64, pub err_len: u64, pub res_len: u64,
  pub msg: [u8; 1024],
  pub out_buf: [u8; OUT_CAP],
  pub err_buf: [u8; OUT_CAP],
  pub res_buf: [u8; OUT_CAP],
  pub script: [Dec; MAX_SCRIPT],
  pub dec: [Dec; MAX_DEC],
}

extern "C" {
  pub fn sim_begin(c: *mut Ctl);
  pub fn sim_end();
  pub fn sim_ctl_size() -> u64;
  pub fn sim_hash(p: *const u8, n: u64, seed: u64) -> u64;
  pub fn sim_fill(p: *mut u8, n: u64, seed: u64);
  pub fn sim_steps() -> u64;
  pub fn sim_n_guards() -> u32;
  pub fn sim_share_edges();
  pub fn sim_arena_begin();
  pub fn sim_arena_end();
  pub fn sim_parent_seed(s: u64);
  pub fn sim_edge_hits() -> *mut u32;
  pub fn sim_edge_flags() -> *mut u8;
  pub fn sim_live_bytes() -> i64;
  pub fn sim_thread_count() -> i32;
  pub fn sim_pcs(n: *mut u64) -> *const usize;
  pub fn sim_res(p: *const u8, n: u64);

  pub fn fork() -> i32;
  pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
  pub fn _exit(c: i32) -> !;
  pub fn kill(pid: i32, sig: i32) -> i32;
  pub fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
  pub fn memfd_create(name: *const i8, fl: u32) -> i32;
  pub fn ftruncate(fd: i32, n: i64) -> i32;
  pub fn close(fd: i32) -> i32;
  pub fn dup2(a: i32, b: i32) -> i32;
  pub fn pipe(fds: *mut i32) -> i32;
  pub fn poll(p: *mut PollFd, n: u64, t: i32) -> i32;
  pub fn alarm(s: u32) -> u32;
  pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
  pub fn sched_setaffinity(pid: i32, n: usize, m: *const u64) -> i32;
  pub fn sched_getaffinity(pid: i32, n: usize, m: *mut u64) -> i32;
  pub fn getpid() -> i32;
  pub fn setenv(k: *const i8, v: *const i8, o: i32) -> i32;
  pub fn execv(p: *const i8, argv: *const *const i8) -> i32;
  pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
#[repr(C)]
pub struct PollFd { pub fd: i32, pub events: i16, pub revents: i16 }

pub fn set_env(k: &str, v: &str) {
  let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
  unsafe { setenv(k.as_ptr() as *const i8, v.as_ptr() as *const i8, 1); }
}
pub fn hash(b: &[u8], seed: u64) -> u64 { unsafe { sim_hash(b.as_ptr(), b.len() as u64, seed) } }
pub fn hash16(b: &[u16], seed: u64) -> u64 { unsafe { sim_hash(b.as_ptr() as *const u8, b.len() as u64 * 2, seed) } }
pub fn hash32(b: &[f32], seed: u64) -> u64 { unsafe { sim_hash(b.as_ptr() as *const u8, b.len() as u64 * 4, seed) } }
pub fn fill(n: usize, seed: u64) -> Vec<u8> {
  let mut v = vec![0u8; n];
  unsafe { sim_fill(v.as_mut_ptr(), n as u64, seed); }
  v
}

/// A control block in shared memory, backed by a memfd so that an exec'ed binary can map it as well.
pub struct Shared { pub ctl: *mut Ctl, pub fd: i32 }
impl Shared {
  pub fn new() -> Shared {
    unsafe {
      assert_eq!(sim_ctl_size() as usize, std::mem::size_of::<Ctl>(), "simrt.h and rt.rs disagree");
      let name = CString::new("simctl").unwrap();
      let fd = memfd_create(name.as_ptr() as *const i8, 0);
      assert!(fd >= 0);
      assert_eq!(ftruncate(fd, std::mem::size_of::<Ctl>() as i64), 0);
      let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Ctl>(), 3, 1, fd, 0);
      assert!(p as isize != -1);
      Shared { ctl: p as *mut Ctl, fd }
    }
  }
  #[allow(clippy::mut_from_ref)]
  pub fn get(&self) -> &mut Ctl { unsafe { &mut *self.ctl } }
}

#[derive(Clone, Copy, Debug)]
pub struct Rng(pub u64);
impl Rng {
  pub fn new(seed: u64) -> Rng { Rng(mix(seed)) }
  pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0) }
  pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { (((self.next() >> 32) as u128 * n as u128) >> 32) as u64 } }
  pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
  pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
}
pub fn mix(z: u64) -> u64 {
  let mut z = z.wrapping_add(0x9e3779b97f4a7c15);
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
  z ^ (z >> 31)
}
