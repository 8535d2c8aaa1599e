//! Confirmation, minimisation and replay of violations.
use crate::engine::*;
use crate::files::FileSpec;
use crate::props::*;
use crate::rt::*;
use crate::scen::*;
use std::time::{Duration, Instant};

pub struct Found { pub sc: Scenario, pub script: Option<Vec<Dec>>, pub v: Viol, pub trace: u64, pub steps: u64, pub note: String }

fn attempt(eng: &Engine, sc: &Scenario, script: Option<&[Dec]>, kind: &str) -> Option<(Viol, Outcome, Vec<Dec>)> {
  flag(eng, sc);
  let o = eng.run(sc, script);
  let d = eng.decisions();
  let v = judge(sc, &o, eng)?;
  if v.kind == kind { Some((v, o, d)) } else { None }
}

/// the run that was seen to break the property, made smaller as far as time allows
pub fn minimise(eng: &Engine, sc: &Scenario, kind: &str, secs: u64) -> Option<Found> {
  let t0 = Instant::now();
  let lim = Duration::from_secs(secs);
  let half = lim / 2;
  let (mut v, mut o, mut decs) = attempt(eng, sc, None, kind)?;
  let mut best = sc.clone();
  let start = format!("{} callers, {} operations, {} files, {} decisions", sc.callers.len(), sc.callers.iter().map(|c| c.len()).sum::<usize>(), sc.files.len(), decs.len());
  // 1. a smaller workload; the schedule seed is varied a little because the same seed means another schedule then
  let mut r = Rng::new(7);
  let mut progress = true;
  while progress && t0.elapsed() < half {
    progress = false;
    for cand in smaller(&best) {
      if t0.elapsed() > half { break }
      let mut tries = vec![cand.clone()];
      if cand.cfg.0.contains_key("seed_sched") { for _ in 0..2 { let mut c = cand.clone(); c.cfg.set("seed_sched", r.next() >> 16); tries.push(c) } }
      for c in tries { if let Some((v2, o2, d2)) = attempt(eng, &c, None, kind) { best = c; v = v2; o = o2; decs = d2; progress = true; break } }
      if progress { break }
    }
  }
  // 2. the decisions that matter: replaying a subset of them leaves everything else at its default
  let mut script: Option<Vec<Dec>> = None;
  if !o.dec_overflow && decs.len() <= MAX_SCRIPT {
    if let Some((v2, o2, _)) = attempt(eng, &best, Some(&decs), kind) {
      let mut cur = decs.clone();
      v = v2; o = o2;
      let mut n = 2usize;
      while !cur.is_empty() && t0.elapsed() < lim {
        if let (true, Some((v2, o2, _))) = (n == 2, attempt(eng, &best, Some(&[]), kind)) { cur.clear(); v = v2; o = o2; break }
        let size = (cur.len() + n - 1) / n;
        let mut reduced = false;
        let mut i = 0;
        while i < cur.len() && t0.elapsed() < lim {
          let mut c = cur[..i].to_vec();
          c.extend_from_slice(&cur[(i + size).min(cur.len())..]);
          if let Some((v2, o2, _)) = attempt(eng, &best, Some(&c), kind) { cur = c; v = v2; o = o2; reduced = true } else { i += size }
        }
        if !reduced { if size <= 1 { break } n = (n * 2).min(cur.len().max(2)) } else { n = n.max(3) - 1 }
        if n < 2 { n = 2 }
      }
      script = Some(cur);
    }
  }
  let note = format!("from {}; to {} callers, {} operations, {} files, {} decisions; {} attempts", start, best.callers.len(), best.callers.iter().map(|c| c.len()).sum::<usize>(), best.files.len(),
    script.as_ref().map(|s| s.len().to_string()).unwrap_or_else(|| format!("seeded ({} logged)", decs.len())), eng.nruns.get());
  Some(Found { sc: best, script, v, trace: o.trace, steps: o.steps, note })
}

fn smaller(s: &Scenario) -> Vec<Scenario> {
  let mut out = vec![];
  if s.bin == "lib" {
    if s.callers.len() > 1 { for i in 0..s.callers.len() { let mut c = s.clone(); c.callers.remove(i); out.push(c) } }
    for i in 0..s.callers.len() {
      let n = s.callers[i].len();
      if n > 8 && s.prop != "C12" { for k in 0..4 { let mut c = s.clone(); let a = k * n / 4; let b = (k + 1) * n / 4; c.callers[i].drain(a..b); out.push(c) } }
      else if n > 1 && s.prop != "C12" { for k in 0..n { let mut c = s.clone(); c.callers[i].remove(k); out.push(c) } }
    }
    if s.shared.is_some() && !s.callers.iter().flatten().any(|o| o.starts_with("sh") || o.starts_with("nestsh")) { let mut c = s.clone(); c.shared = None; out.push(c) }
    // files nobody uses
    for i in (0..s.files.len()).rev() {
      if s.callers.iter().flatten().any(|o| o.starts_with("put:")) { break }
      let used = s.shared == Some(i) || s.callers.iter().flatten().chain(s.post.iter()).any(|o| op_file(o) == Some(i));
      if !used && s.files.len() > 1 {
        let mut c = s.clone(); c.files.remove(i);
        let fix = |o: &mut String| if let Some(f) = op_file(o) { if f > i { *o = op_with_file(o, f - 1) } };
        for l in c.callers.iter_mut() { for o in l.iter_mut() { fix(o) } }
        if let Some(x) = c.shared { if x > i { c.shared = Some(x - 1) } }
        out.push(c);
      }
    }
  }
  for (i, f) in s.files.iter().enumerate() {
    for k in 0..f.dmg.len() { let mut c = s.clone(); c.files[i].dmg.remove(k); out.push(c) }
    if f.dmg.is_empty() {
      if f.h > 8 { let mut c = s.clone(); c.files[i].h = (f.h / 4 * 2).max(8); out.push(c); }
      if f.w > 64 && !["dcs", "nrw", "nrw32", "nrwsplit", "orf32", "nefd100"].contains(&&f.fmt[..]) { let mut c = s.clone(); c.files[i].w = (f.w / 2 + 31) & !31; if c.files[i].w < f.w { out.push(c) } }
    }
  }
  if s.workers > 1 { for w in [1, 2, s.workers / 2] { if w < s.workers && w > 0 { let mut c = s.clone(); c.workers = w; out.push(c) } } }
  for k in s.cfg.0.keys() {
    if ["seed_sched", "seed_fault", "seed_hash", "seed_clock", "step_limit", "est_steps", "mem_single", "mem_total", "ns_per_step", "mean_gap", "out_errno", "rd_errno", "op_errno", "wr_errno", "rare_max", "p_edge", "pct_depth", "clk_jump_max_us"].contains(&&k[..]) { continue }
    let mut c = s.clone(); c.cfg.0.remove(k); out.push(c);
  }
  out
}

pub fn write_replay(path: &str, f: &Found) {
  let mut t = String::from("# rlsim replay file: a scenario and the schedule and fault decisions that break the property\n");
  t += &f.sc.text();
  t += &format!("kind {}\nwhat {}\ntrace {:016x}\nsteps {}\nminimised {}\n", f.v.kind, f.v.what.replace('\n', " "), f.trace, f.steps, f.note);
  match &f.script {
    None => t += "mode seeds\n",
    Some(s) => {
      t += &format!("mode script {}\n", s.len());
      for d in s {
        let k = if d.typ <= D_WAKE { format!("at step {}", d.key >> 12) } else { format!("call {}", d.key) };
        t += &format!("d {} {} {} # {} {} {}\n", d.typ, d.key, d.val, D_NAMES[d.typ as usize], k, match d.typ { D_PREEMPT | D_CPRE | D_WPRE | D_PICK => format!("run thread {}", d.val), D_RD | D_WR | D_OUT => format!("{} {}", if d.val >> 24 == 1 { "short, bytes" } else { "errno" }, d.val & 0xffffff), _ => format!("{}", d.val) })
      }
    }
  }
  std::fs::write(path, t).expect("replay file");
}

/// exit 1 and the violation if the file reproduces, 0 if the property holds on it, 4 if it fails differently
pub fn replay(path: &str) -> i32 {
  let t = std::fs::read_to_string(path).expect("replay file");
  let sc = Scenario::parse(&t);
  let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).and_then(|x| x.strip_prefix(' '))).unwrap_or("").to_string();
  let exe = std::env::current_exe().unwrap();
  let bindir = exe.parent().unwrap().to_str().unwrap().to_string();
  if sc.dev != bindir.ends_with("/debug") {
    let other = if sc.dev { bindir.replace("/rel/", "/dev/").replace("/release", "/debug") } else { bindir.replace("/dev/", "/rel/").replace("/debug", "/release") };
    let st = std::process::Command::new(format!("{}/rlsim", other)).args(["replay", path]).status().expect("other flavour not built");
    return st.code().unwrap_or(4);
  }
  let dir = crate::orch::scratch();
  let mut eng = Engine::new(&dir, &bindir, sc.pseed);
  if !sc.cold { eng.make_warm() }
  let script: Option<Vec<Dec>> = if get("mode").starts_with("script") {
    Some(t.lines().filter(|l| l.starts_with("d ")).map(|l| { let f: Vec<u64> = l.split_whitespace().skip(1).take(3).map(|x| x.parse().unwrap()).collect(); Dec { typ: f[0] as u32, key: f[1], val: f[2] as u32 } }).collect())
  } else { None };
  flag(&eng, &sc);
  let o = eng.run(&sc, script.as_deref());
  let v = judge(&sc, &o, &eng);
  std::fs::remove_dir_all(&dir).ok();
  match v {
    None => { println!("replay: the property holds on this run (trace {:016x}, recorded {})", o.trace, get("trace")); 0 }
    Some(v) => {
      let exact = format!("{:016x}", o.trace) == get("trace") && v.kind == get("kind");
      println!("replay: {} [{}] {}; trace {:016x} {}", v.kind, sc.prop, v.what, o.trace, if exact { "as recorded" } else { "DIFFERS from the recorded one" });
      println!("VIOLATION property={} replay={}", sc.prop, path);
      if v.kind == get("kind") { 1 } else { 4 }
    }
  }
}
#[allow(dead_code)]
fn _unused(_: &FileSpec) {}
