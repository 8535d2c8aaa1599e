//! One worker process: makes cases from a seed, runs them, judges them.
use crate::engine::*;
use crate::files::*;
use crate::minim::*;
use crate::props::*;
use crate::rt::*;
use crate::scen::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::Instant;

pub fn pin(index: u64) {
  unsafe {
    let mut m = [0u64; 16];
    if sched_getaffinity(0, 128, m.as_mut_ptr()) <= 0 { return }
    let cpus: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
    if cpus.is_empty() { return }
    let c = cpus[index as usize % cpus.len()];
    let mut s = [0u64; 16];
    s[c / 64] = 1 << (c % 64);
    sched_setaffinity(0, 128, s.as_ptr());
  }
}
fn bindir() -> String { std::env::current_exe().unwrap().parent().unwrap().to_str().unwrap().to_string() }

#[derive(Default)]
struct Stats { n: BTreeMap<String, u64>, sched: HashSet<u64>, cases: HashSet<u64>, samples: Vec<String> }
impl Stats {
  fn add(&mut self, k: &str, v: u64) { *self.n.entry(k.to_string()).or_insert(0) += v }
  fn max(&mut self, k: &str, v: u64) { let e = self.n.entry(format!("max:{}", k)).or_insert(0); *e = (*e).max(v) }
}

pub fn main(id: &str, tier: &str, seed: u64, index: u64, secs: f64, dir: &str, dev: bool) -> i32 {
  let t0 = Instant::now();
  pin(index);
  let p = prop(id);
  let pseed = mix(seed ^ mix(index ^ 0x77 ^ (dev as u64) << 32)) >> 16;
  let mut eng = Engine::new(dir, &bindir(), pseed);
  let mut st = Stats::default();
  let mut case: u64 = 0;
  let stream = mix(seed) ^ mix(hash(id.as_bytes(), 3)) ^ mix(index * 2 + dev as u64 + 1000);
  let cold_until = secs * p.cold;
  let mut corpus: Vec<FileSpec> = vec![];
  let known = crate::orch::known_findings();
  let mut bad: Option<(Scenario, Viol)> = None;
  let slow_runs = std::env::var_os("RLSIM_SLOW").is_some();
  let stop = format!("{}/../stop", dir);
  if cold_until == 0.0 { eng.make_warm() }
  'search: while t0.elapsed().as_secs_f64() < secs && !std::path::Path::new(&stop).exists() {
    if !eng.warm && t0.elapsed().as_secs_f64() > cold_until { eng.make_warm() }
    case += 1;
    let mut r = Rng::new(stream ^ mix(case));
    let mut b = base(id, &mut r, &eng, &corpus);
    b.dev = dev;
    // now and then a case is too long to be worth its time
    if b.bin == "lib" && !b.cold && !p.guided && est(&eng, &b) > if tier == "quick" { 250_000_000 } else { 2_500_000_000 } { st.add("too_long", 1); continue }
    let reps = if p.guided || !eng.warm { 1 } else { r.range(2, 5) };
    st.cases.insert(hash(b.text().as_bytes(), 0));
    for k in 0..reps {
      if k > 0 && t0.elapsed().as_secs_f64() > secs { break }
      let sc = vary(&b, &mut r, &eng);
      flag(&eng, &sc);
      let rt = Instant::now();
      let o = eng.run(&sc, None);
      if slow_runs && rt.elapsed().as_secs_f64() > 2.0 { eprintln!("SLOW {:.1} s, {} steps, {} switches\n{}", rt.elapsed().as_secs_f64(), o.steps, o.switches, sc.text()) }
      st.add("runs", 1);
      if o.timeout { st.add("runs_out_of_time", 1) }
      if sc.bin == "lib" { st.add(if sc.cold { "runs_cold" } else { "runs_warm" }, 1) } else { st.add(&format!("runs_{}", sc.bin), 1) }
      st.add("steps", o.steps); st.add("switches", o.switches); st.add("sim_ns", o.sim_ns); st.add("decisions", o.ndec as u64);
      st.add(&format!("strategy:{}", ["none", "random", "pct", "rare_edge", "static_access", "stall"][sc.cfg.get("strat") as usize]), 1);
      st.add(&format!("workers:{}", sc.workers), 1);
      for f in &sc.files { st.add(&format!("format:{}", f.fmt), 1) }
      for d in sc.files.iter().flat_map(|f| f.dmg.iter()) { st.add(&format!("fault:damage_{}", d.text().split(':').next().unwrap()), 1) }
      for op in sc.callers.iter().flatten() { let f: Vec<&str> = op.split(':').collect(); if f[0] == "reader" && f.len() > 2 { st.add(&format!("fault:reader_{}", f[2]), 1) } if ["missing", "dirpath", "nulpath"].contains(&f[0]) { st.add(&format!("fault:path_{}", f[0]), 1) } }
      for (i, c) in COUNTERS.iter().enumerate() { if !c.is_empty() { st.add(&format!("fault:{}", c), o.counters[i]) } }
      for x in &o.ops { st.add(&format!("result:{}", x.class), 1) }
      st.max("steps", o.steps); st.max("peak_bytes", o.peak); st.max("threads", o.nthreads as u64);
      st.sched.insert(mix(o.sched ^ o.trace));
      if o.verdict == V_INTERNAL { eprintln!("worker {}: internal: {} in\n{}", index, o.msg, sc.text()); return 3 }
      if p.guided && eng.fresh.get() > 0 && k == 0 { if sc.files[0].dmg.len() <= 8 { corpus.push(sc.files[0].clone()); if corpus.len() > 400 { let i = r.below(300) as usize; corpus.swap_remove(i); } } }
      if st.samples.len() < 2 && case % 7 == 3 { st.samples.push(format!("{} => {}", sc.text().replace('\n', "; "), o.ops.iter().map(|x| format!("{}/{}:{}", x.caller, x.idx, x.class)).collect::<Vec<_>>().join(" "))) }
      if let Some(v) = judge(&sc, &o, &eng) {
        if let Some(kf) = known.iter().find(|k| k.matches(id, &sc, &v)) { st.add(&format!("known:{}", kf.name), 1); continue }
        // seen twice or not at all: a run is a function of its scenario
        flag(&eng, &sc);
        let o2 = eng.run(&sc, None);
        let again = judge(&sc, &o2, &eng);
        if again.as_ref().map(|x| &x.kind) == Some(&v.kind) { bad = Some((sc, v)); let _ = std::fs::write(&stop, ""); break 'search }
        st.add("unconfirmed", 1);
        eprintln!("worker {}: not reproduced: {} {} trace {:016x} {:016x}\n{}", index, v.kind, v.what, o.trace, o2.trace, sc.text());
      }
    }
    // now and then the same run again, from the seed and from its recorded decisions
    if case % 40 == 0 && eng.warm && (id != "C08" && id != "C09") {
      let sc = vary(&b, &mut r, &eng);
      flag(&eng, &sc); let o1 = eng.run(&sc, None); let d = eng.decisions();
      flag(&eng, &sc); let o2 = eng.run(&sc, None);
      st.add("repeat_checks", 1);
      if !o1.timeout && !o2.timeout && (o1.trace != o2.trace || o1.ops.iter().map(|x| x.obs()).ne(o2.ops.iter().map(|x| x.obs()))) { st.add("repeat_mismatches", 1); eprintln!("worker {}: run not repeatable: {:016x} {:016x}\n{}", index, o1.trace, o2.trace, sc.text()) }
      if !o1.dec_overflow { let o3 = eng.run(&sc, Some(&d)); if !o1.timeout && !o3.timeout && o1.trace != o3.trace { st.add("script_mismatches", 1); eprintln!("worker {}: script differs: {:016x} {:016x}\n{}", index, o1.trace, o3.trace, sc.text()) } }
    }
  }
  st.add("cases", case);
  let edges = eng.cov.borrow().iter().filter(|x| **x != 0).count() as u64;
  st.max("edges_covered", edges);
  let mut out = std::io::stdout(); // not locked: a simulated run started from here would inherit the lock
  for (k, v) in &st.n { writeln!(out, "STAT {} {}", k, v).unwrap() }
  for s in &st.samples { writeln!(out, "SAMPLE {}", s).unwrap() }
  let hs = |s: &HashSet<u64>| s.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
  std::fs::write(format!("{}/../sched.{}.{}", dir, dev as u32, index), hs(&st.sched)).unwrap();
  std::fs::write(format!("{}/../cases.{}.{}", dir, dev as u32, index), hs(&st.cases)).unwrap();
  std::fs::write(format!("{}/../cov.{}.{}", dir, dev as u32, index), &eng.cov.borrow()[..]).unwrap();
  if let Some((sc, v)) = bad {
    let secs = if tier == "quick" { 25 } else { 90 };
    let f = minimise(&eng, &sc, &v.kind, secs).unwrap_or(Found { sc: sc.clone(), script: None, v: v.clone(), trace: 0, steps: 0, note: "not minimised".into() });
    let path = format!("{}/../viol.{}.{}", dir, dev as u32, index);
    write_replay(&path, &f);
    writeln!(out, "VIOL {}", path).unwrap();
  }
  0
}

/// the proof that a run is a function of its scenario: many scenarios, each run several times and once from its decision log
pub fn determinism(only: &str, seed: u64, n: u64) -> i32 {
  pin(0);
  let dir = crate::orch::scratch();
  let mut eng = Engine::new(&dir, &bindir(), mix(seed) >> 16);
  eng.make_warm();
  let mut bad = 0;
  let mut total = 0;
  for p in PROPS {
    if !only.is_empty() && p.id != only { continue }
    let n = if p.id == "C08" || p.id == "C09" { n / 10 + 1 } else { n };
    let (mut steps, mut sw) = (0, 0);
    for k in 0..n {
      let mut r = Rng::new(mix(seed) ^ mix(k) ^ hash(p.id.as_bytes(), 9));
      let b = base(p.id, &mut r, &eng, &[]);
      let sc = Scenario::parse(&vary(&b, &mut r, &eng).text());
      flag(&eng, &sc); let o1 = eng.run(&sc, None); let d = eng.decisions();
      flag(&eng, &sc); let o2 = eng.run(&sc, None);
      let o3 = if o1.dec_overflow { o1.clone() } else { eng.run(&sc, Some(&d)) };
      total += 1; steps += o1.steps; sw += o1.switches;
      if o1.timeout || o1.verdict == V_INTERNAL { println!("{}", o1.msg); println!("TIMEOUT {} case {}: {}", p.id, k, sc.text()) }
      let key = |o: &Outcome| (o.trace, o.steps, o.switches, o.exit, o.signal, o.verdict, o.ops.iter().map(|x| (x.obs(), x.steps)).collect::<Vec<_>>());
      if key(&o1) != key(&o2) || key(&o1) != key(&o3) {
        bad += 1;
        println!("{} case {}: traces {:016x} {:016x} {:016x} steps {} {} {} {} | {}\n{}", p.id, k, o1.trace, o2.trace, o3.trace, o1.steps, o2.steps, o3.steps, o1.brief(), o2.brief(), sc.text());
      }
    }
    println!("{}: {} scenarios, {} steps, {} switches", p.id, n, steps, sw);
  }
  std::fs::remove_dir_all(&dir).ok();
  println!("{} scenarios run three times each, {} differ", total, bad);
  (bad > 0) as i32
}

pub fn formats(prefix: &str) -> i32 {
  pin(0);
  let dir = crate::orch::scratch();
  let mut e = Engine::new(&dir, &bindir(), 1);
  e.make_warm();
  for f in FORMATS {
    if !f.starts_with(prefix) { continue }
    let mut tally = BTreeMap::new(); let mut ex = String::new(); let mut steps = 0;
    let n = if BIG.contains(f) { 3 } else { 20 };
    for k in 0..n {
      let mut r = Rng::new(k);
      let mut spec = FileSpec::gen(&mut r, &[*f], false); spec.fmt = f.to_string();
      let mut sc = Scenario::new("X"); sc.files = vec![spec.clone()]; sc.callers = vec![vec!["reader:0".into()]]; sc.workers = 2;
      let o = e.run(&sc, None); steps += o.steps;
      let c = if !o.finished() { "CRASH".to_string() } else { o.ops[0].class.clone() };
      if c != "ok" { ex = format!("{} {} {}", spec.text(), o.brief(), o.ops.get(0).map(|x| x.info.clone()).unwrap_or_default()) }
      *tally.entry(c).or_insert(0) += 1;
    }
    println!("{:10} {:?} steps/run {} {}", f, tally, steps / n, ex);
  }
  std::fs::remove_dir_all(&dir).ok();
  0
}

/// how each format behaves when its tail is missing, compared with a tail of zeros
pub fn trunc() -> i32 {
  pin(0);
  let dir = crate::orch::scratch();
  let mut e = Engine::new(&dir, &bindir(), 1);
  e.make_warm();
  for f in FORMATS {
    if BIG.contains(f) { continue }
    let mut tally = BTreeMap::new(); let mut ex = String::new();
    for k in 0..150 {
      let mut r = Rng::new(k);
      let mut spec = FileSpec::gen(&mut r, &[*f], true); spec.fmt = f.to_string(); spec.w &= !7;
      let mut sc = Scenario::new("X"); sc.files = vec![spec.clone()];
      let n = e.file_bytes(&spec).len();
      let cut = match k % 3 { 0 => r.below(n as u64), 1 => n as u64 - 1 - r.below(40.min(n as u64)), _ => n as u64 / 2 + r.below(n as u64 / 2) };
      sc.callers = vec![vec![format!("truncz:0:{}", cut)]]; sc.workers = 2;
      sc.cfg.set("step_limit", 300_000_000);
      let o = e.run(&sc, None);
      let c = if !o.finished() { "CRASH".to_string() } else { o.ops[0].class.clone() };
      if c == "invented" || c == "CRASH" { ex = format!("{} len {} cut {} {} {}", spec.text(), n, cut, o.brief(), o.ops.get(0).map(|x| x.info.clone()).unwrap_or_default()) }
      *tally.entry(c).or_insert(0) += 1;
    }
    println!("{:10} {:?} {}", f, tally, ex);
  }
  std::fs::remove_dir_all(&dir).ok();
  0
}

/// what the files of each format say about themselves, and how many cameras they come from
pub fn meta() -> i32 {
  for f in FORMATS {
    let (mut cams, mut n, mut wb, mut wb4, mut black, mut oris) = (std::collections::BTreeSet::new(), 0, 0, 0, 0, std::collections::BTreeSet::new());
    for k in 0..300u64 {
      let s = FileSpec::gen(&mut Rng::new(k * 7919 + 3), &[f], true);
      if let Some(Some(m)) = crate::model::expect_meta(&s) { n += 1; cams.insert((m.make.clone(), m.model.clone())); if m.wb[0].is_normal() { wb += 1 } if m.wb[3].is_normal() { wb4 += 1 } if m.black.is_some() { black += 1 } oris.insert(m.ori); }
    }
    println!("{:10} known {:3} cameras {:3} wb {:3} wb4 {:3} black {:3} orientations {}", f, n, cams.len(), wb, wb4, black, oris.len());
  }
  0
}
