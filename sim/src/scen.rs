//! A scenario: everything one simulated run depends on, as text. A scenario plus a list of decisions is a replay file.
use crate::files::FileSpec;
use crate::rt::*;
use std::collections::BTreeMap;

/// name, unset value
pub const CFG: &[(&str, u64)] = &[
  ("seed_sched", 0), ("seed_fault", 0), ("seed_hash", 0), ("seed_clock", 0), ("strat", 0), ("mean_gap", 0), ("pct_depth", 0), ("p_edge", 0),
  ("est_steps", 0), ("step_limit", 0), ("p_spurious", 0), ("p_rd_short", 0), ("p_rd_eintr", 0), ("rd_err_ord", 0xffff_ffff), ("rd_errno", 0),
  ("rd_err_sticky", 0), ("op_err_ord", 0xffff_ffff), ("op_errno", 0), ("p_wr_short", 0), ("p_wr_eintr", 0), ("wr_err_ord", 0xffff_ffff),
  ("wr_errno", 0), ("disk_cap", !0), ("out_cap", !0), ("out_errno", 0), ("p_out_short", 0), ("p_out_eintr", 0), ("err_errno", 0),
  ("thr_fail_ord", 0xffff_ffff), ("thr_fail_sticky", 0), ("mem_single", !0), ("mem_total", !0), ("ns_per_step", 1), ("p_clk_jump", 0),
  ("clk_jump_max_us", 0), ("clk_read_ns", 0), ("clk_grain", 0), ("rare_max", 0), ("watch_size", !0), ("mem_fill", 0), ("rt_jump", 0),
];

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Cfg(pub BTreeMap<String, u64>);
impl Cfg {
  pub fn get(&self, k: &str) -> u64 {
    let d = CFG.iter().find(|c| c.0 == k).unwrap_or_else(|| panic!("cfg {}", k)).1;
    *self.0.get(k).unwrap_or(&d)
  }
  pub fn set(&mut self, k: &str, v: u64) -> &mut Cfg {
    assert!(CFG.iter().any(|c| c.0 == k), "cfg {}", k);
    self.0.insert(k.to_string(), v); self
  }
  pub fn apply(&self, c: &mut Ctl) {
    let g = |k: &str| self.get(k);
    c.magic = MAGIC; c.mode = 0; c.exec_mode = 0; c.nscript = 0;
    c.seed_sched = g("seed_sched"); c.seed_fault = g("seed_fault"); c.seed_hash = g("seed_hash"); c.seed_clock = g("seed_clock");
    c.strat = g("strat") as u32; c.mean_gap = g("mean_gap") as u32; c.pct_depth = g("pct_depth") as u32; c.p_edge = g("p_edge") as u32;
    c.est_steps = g("est_steps"); c.step_limit = g("step_limit"); c.p_spurious = g("p_spurious") as u32;
    c.p_rd_short = g("p_rd_short") as u32; c.p_rd_eintr = g("p_rd_eintr") as u32; c.rd_err_ord = g("rd_err_ord") as u32; c.rd_errno = g("rd_errno") as u32;
    c.rd_err_sticky = g("rd_err_sticky") as u32; c.op_err_ord = g("op_err_ord") as u32; c.op_errno = g("op_errno") as u32;
    c.p_wr_short = g("p_wr_short") as u32; c.p_wr_eintr = g("p_wr_eintr") as u32; c.wr_err_ord = g("wr_err_ord") as u32; c.wr_errno = g("wr_errno") as u32;
    c.disk_cap = g("disk_cap"); c.out_cap = g("out_cap"); c.out_errno = g("out_errno") as u32; c.p_out_short = g("p_out_short") as u32;
    c.p_out_eintr = g("p_out_eintr") as u32; c.err_errno = g("err_errno") as u32; c.thr_fail_ord = g("thr_fail_ord") as u32;
    c.thr_fail_sticky = g("thr_fail_sticky") as u32; c.mem_single = g("mem_single"); c.mem_total = g("mem_total"); c.ns_per_step = g("ns_per_step");
    c.p_clk_jump = g("p_clk_jump") as u32; c.clk_jump_max_us = g("clk_jump_max_us") as u32; c.clk_read_ns = g("clk_read_ns"); c.clk_grain = g("clk_grain"); c.watch_size = g("watch_size"); c.mem_fill = g("mem_fill") as u32; c.rt_jump = g("rt_jump") as u32;
  }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
  pub prop: String,
  /// "lib": API calls made by the harness; "cli" and "bench": the shipped programs
  pub bin: String,
  pub dev: bool,
  /// the process-wide loader is not built yet when the run starts
  pub cold: bool,
  pub pseed: u64,
  pub workers: u64,
  pub cfg: Cfg,
  pub files: Vec<FileSpec>,
  /// index of a file decoded before the callers start; the image is shared by all of them
  pub shared: Option<usize>,
  /// each caller is a thread performing its operations in order
  pub callers: Vec<Vec<String>>,
  /// performed by the main thread after all callers are done
  pub post: Vec<String>,
}
impl Scenario {
  pub fn new(prop: &str) -> Scenario {
    Scenario { prop: prop.into(), bin: "lib".into(), dev: false, cold: false, pseed: 0, workers: 1, cfg: Cfg::default(), files: vec![], shared: None, callers: vec![], post: vec![] }
  }
  pub fn text(&self) -> String {
    let mut o = format!("prop {}\nbin {}\nflavour {}\ncold {}\npseed {}\nworkers {}\n", self.prop, self.bin, if self.dev { "dev" } else { "rel" }, self.cold as u32, self.pseed, self.workers);
    o += "cfg";
    for (k, v) in &self.cfg.0 { o += &format!(" {}={}", k, v) }
    o += "\n";
    for f in &self.files { o += &format!("file {}\n", f.text()) }
    if let Some(s) = self.shared { o += &format!("shared {}\n", s) }
    for c in &self.callers { o += &format!("caller {}\n", c.join(" ")) }
    if !self.post.is_empty() { o += &format!("post {}\n", self.post.join(" ")) }
    o
  }
  pub fn parse(t: &str) -> Scenario {
    let mut s = Scenario::new("");
    for line in t.lines() {
      let (k, v) = line.split_once(' ').unwrap_or((line, ""));
      match k {
        "prop" => s.prop = v.into(), "bin" => s.bin = v.into(), "flavour" => s.dev = v == "dev", "cold" => s.cold = v == "1",
        "pseed" => s.pseed = v.parse().unwrap(), "workers" => s.workers = v.parse().unwrap(),
        "cfg" => for kv in v.split_whitespace() { let (a, b) = kv.split_once('=').unwrap(); s.cfg.set(a, b.parse().unwrap()); },
        "file" => s.files.push(FileSpec::parse(v)),
        "shared" => s.shared = Some(v.parse().unwrap()),
        "caller" => s.callers.push(v.split_whitespace().map(|x| x.to_string()).collect()),
        "post" => s.post = v.split_whitespace().map(|x| x.to_string()).collect(),
        _ => {}
      }
    }
    s
  }
  /// the same operation alone: one caller, one worker, default schedule, no faults
  pub fn solo(&self, op: &str) -> Scenario {
    let mut s = Scenario::new("REF");
    s.dev = self.dev; s.cold = self.cold; s.pseed = self.pseed;
    s.cfg.set("step_limit", if self.cold { 20_000_000_000 } else { 800_000_000 });
    let mut op = op.to_string();
    if op.starts_with("sh") { s.shared = Some(0); s.files = vec![self.files[self.shared.unwrap()].clone()]; }
    else if let Some(fi) = op_file(&op) { s.files = vec![self.files[fi].clone()]; op = op_with_file(&op, 0); }
    s.callers = vec![vec![op]];
    s
  }
}
/// an operation on the file system, not on the library
pub fn env_op(op: &str) -> bool { op.starts_with("put:") || op.starts_with("rm:") }
/// the file an operation works on: the second ':'-separated field
pub fn op_file(op: &str) -> Option<usize> { if op.starts_with("sh") { None } else { op.split(':').nth(1).and_then(|x| x.parse().ok()) } }
pub fn op_with_file(op: &str, f: usize) -> String {
  let mut v: Vec<String> = op.split(':').map(|x| x.to_string()).collect();
  v[1] = f.to_string();
  v.join(":")
}
