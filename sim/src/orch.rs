//! check: spawns the workers, gathers what they did, writes the evidence and gives the verdict.
use crate::props::*;
use crate::rt::*;
use crate::scen::Scenario;
use std::collections::{BTreeMap, HashSet};
use std::process::{Command, Stdio};
use std::time::Instant;

pub fn scratch() -> String {
  let root = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) { "/dev/shm" } else { "/tmp" };
  let d = format!("{}/rlsim.{}", root, unsafe { getpid() });
  std::fs::create_dir_all(&d).expect("scratch directory");
  d
}

/// a genuine defect that is recorded rather than repaired; see known-findings.txt
pub struct Known { pub prop: String, pub name: String, pub kind: String, pub needle: String, pub text: String }
impl Known {
  pub fn matches(&self, id: &str, _sc: &Scenario, v: &Viol) -> bool { self.prop == id && self.kind == v.kind && v.what.contains(&self.needle) }
}
pub fn known_findings() -> Vec<Known> {
  let p = std::env::var("RLSIM_KNOWN").unwrap_or_else(|_| "/verif/known-findings.txt".into());
  let t = std::fs::read_to_string(p).unwrap_or_default();
  // known: property=<id> name=<name> kind=<kind> needle=<text up to ' :: '> :: description
  t.lines().filter_map(|l| {
    let l = l.strip_prefix("known: ")?;
    let (head, text) = l.split_once(" :: ")?;
    let g = |k: &str| head.split(&format!("{}=", k)[..]).nth(1).map(|x| x.to_string());
    let (prop, name, kind) = (g("property")?, g("name")?, g("kind")?);
    let w = |x: String| x.split(' ').next().unwrap().to_string();
    Some(Known { prop: w(prop), name: w(name), kind: w(kind), needle: g("needle")?, text: text.into() })
  }).collect()
}
fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
  o.push('"'); o
}

pub fn check(id: &str, tier: &str, seed: u64, secs: f64, verif: &str) -> i32 {
  let t0 = Instant::now();
  let p = prop(id);
  let secs = if secs > 0.0 { secs } else if tier == "quick" { 55.0 } else { 2400.0 };
  let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) as u64;
  let dir = scratch();
  let exe = std::env::current_exe().unwrap();
  let exe = exe.to_str().unwrap();
  let dev_exe = exe.replace("/rel/", "/dev/").replace("/release/", "/debug/");
  set_env("RLSIM_KNOWN", &format!("{}/known-findings.txt", verif));
  let mut kids = vec![];
  for i in 0..ncpu {
    let dev = p.dev && i % 4 == 3;
    let wd = format!("{}/w{}", dir, i);
    std::fs::create_dir_all(&wd).unwrap();
    let mut c = Command::new(if dev { &dev_exe } else { exe });
    c.args(["worker", id, "--tier", tier, "--seed", &seed.to_string(), "--index", &i.to_string(), "--secs", &secs.to_string(), "--dir", &wd, "--dev", if dev { "1" } else { "0" }]);
    c.stdout(Stdio::piped()).stderr(Stdio::inherit()).stdin(Stdio::null());
    kids.push((dev, c.spawn().expect("cannot start a worker")));
  }
  let mut st: BTreeMap<String, u64> = BTreeMap::new();
  let mut samples = vec![];
  let mut viols = vec![];
  let mut broken = 0;
  for (_, k) in kids {
    let o = k.wait_with_output().expect("worker");
    if !o.status.success() { broken += 1; eprintln!("worker ended with {:?}", o.status) }
    for l in String::from_utf8_lossy(&o.stdout).lines() {
      if let Some(x) = l.strip_prefix("STAT ") {
        let (k, v) = x.rsplit_once(' ').unwrap();
        let v: u64 = v.parse().unwrap();
        let e = st.entry(k.to_string()).or_insert(0);
        if k.starts_with("max:") { *e = (*e).max(v) } else { *e += v }
      } else if let Some(x) = l.strip_prefix("SAMPLE ") { if samples.len() < 6 { samples.push(x.to_string()) } }
      else if let Some(x) = l.strip_prefix("VIOL ") { viols.push(x.to_string()) }
    }
  }
  let union = |pre: &str| -> u64 {
    let mut s = HashSet::new();
    for e in std::fs::read_dir(&dir).unwrap().flatten() { if e.file_name().to_str().unwrap().starts_with(pre) { let b = std::fs::read(e.path()).unwrap(); for c in b.chunks_exact(8) { s.insert(u64::from_le_bytes(c.try_into().unwrap())); } } }
    s.len() as u64
  };
  let (distinct, cases) = (union("sched."), union("cases."));
  let mut cov: Vec<u8> = vec![];
  for e in std::fs::read_dir(&dir).unwrap().flatten() { if e.file_name().to_str().unwrap().starts_with("cov.0.") { let b = std::fs::read(e.path()).unwrap(); if cov.len() < b.len() { cov.resize(b.len(), 0) } for (i, x) in b.iter().enumerate() { cov[i] |= x } } }
  let edges = cov.iter().filter(|x| **x != 0).count();
  // keep the replay files
  let mut reports = vec![];
  std::fs::create_dir_all(format!("{}/replays", verif)).ok();
  for (i, v) in viols.iter().enumerate() {
    let dst = format!("{}/replays/{}-{}-{}.replay", verif, id, seed, i);
    if std::fs::copy(v, &dst).is_ok() {
      // once more in a fresh process
      let rep = Command::new(exe).args(["replay", &dst]).output();
      let (code, text) = rep.map(|o| (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).to_string())).unwrap_or((-1, String::new()));
      reports.push((dst, code, text));
    }
  }
  let wall = t0.elapsed().as_secs_f64();
  let g = |k: &str| *st.get(k).unwrap_or(&0);
  let group = |pre: &str| -> String { let v: Vec<String> = st.iter().filter(|(k, v)| k.starts_with(pre) && **v > 0).map(|(k, v)| format!("{}: {}", js(&k[pre.len()..]), v)).collect(); format!("{{{}}}", v.join(", ")) };
  let runs = g("runs");
  let per_hour = |n: u64| (n as f64 * 3600.0 / wall.max(0.001)) as u64;
  let real = match id { "C08" => "the shipped command line program, rawloader, rayon, std", "C09" => "the shipped benchmark program, rawloader, rayon, std", _ => "rawloader (all decoders and image operations), rayon and its work stealing, std" };
  let mut ev = String::new();
  ev += &format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n", js(id), js(tier), seed);
  ev += &format!("  \"evaluations\": {}, \"distinct_nontrivial\": {},\n", runs, distinct);
  ev += &format!("  \"rule\": {},\n", js("one evaluation is one simulated run of a seeded scenario (files, callers, worker count, schedule, faults) judged against the property; distinct by the hash of the complete trace: every context switch with its step number, every scheduling, wakeup, fault and clock decision; runs with equal traces count once"));
  ev += &format!("  \"distinct_scenarios\": {}, \"runs_per_hour\": {}, \"seeds_per_hour\": {}, \"simulated_seconds\": {:.3}, \"simulated_steps\": {}, \"context_switches\": {}, \"decisions\": {},\n", cases, per_hour(runs), per_hour(g("cases")), g("sim_ns") as f64 / 1e9, g("steps"), g("switches"), g("decisions"));
  ev += &format!("  \"edges_reached\": {}, \"edges_instrumented\": {}, \"max_steps_in_one_run\": {}, \"max_live_bytes\": {}, \"max_threads\": {},\n", edges, unsafe { sim_n_guards() }, g("max:steps"), g("max:peak_bytes"), g("max:threads"));
  ev += &format!("  \"faults_injected\": {},\n  \"strategies\": {},\n  \"worker_counts\": {},\n  \"formats\": {},\n  \"results\": {},\n", group("fault:"), group("strategy:"), group("workers:"), group("format:"), group("result:"));
  ev += &format!("  \"runs_first_use\": {}, \"runs_loader_ready\": {}, \"runs_cli\": {}, \"runs_benchmark\": {},\n", g("runs_cold"), g("runs_warm"), g("runs_cli"), g("runs_bench"));
  ev += &format!("  \"repeat_checks\": {}, \"repeat_mismatches\": {}, \"script_mismatches\": {}, \"unconfirmed\": {}, \"runs_out_of_time\": {},\n", g("repeat_checks"), g("repeat_mismatches"), g("script_mismatches"), g("unconfirmed"), g("runs_out_of_time"));
  ev += &format!("  \"real_code\": {}, \"stubbed\": {},\n", js(real), js("thread scheduler, futex, clocks, sleep, randomness, file and stdio system calls (real files on a scratch tmpfs underneath), allocator limits"));
  ev += &format!("  \"known_findings_met\": {},\n", group("known:"));
  ev += &format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
  ev += &format!(" \"wall_s\": {:.1}, \"violations\": {}\n}}\n", wall, reports.len());
  std::fs::create_dir_all(format!("{}/evidence", verif)).ok();
  std::fs::write(format!("{}/evidence/{}.json", verif, id), ev).expect("evidence");
  std::fs::remove_dir_all(&dir).ok();
  println!("{} {}: {} runs of {} scenarios in {:.1} s, {} distinct traces, {} edges, {} unconfirmed, {} not repeatable", id, tier, runs, cases, wall, distinct, edges, g("unconfirmed"), g("repeat_mismatches") + g("script_mismatches"));
  for k in known_findings() { if k.prop == id { println!("KNOWN-FINDING: property={} {}", id, k.text) } }
  for (f, code, text) in &reports {
    print!("{}", text.lines().filter(|l| !l.starts_with("VIOLATION")).map(|l| format!("{}\n", l)).collect::<String>());
    println!("VIOLATION property={} replay={}{}", id, f, if *code == 1 { "" } else { " (does not reproduce in a fresh process)" });
  }
  if !reports.is_empty() { return 1 }
  if broken > 0 || runs == 0 { return 3 }
  0
}
