//! The properties: how scenarios are made for each, and how a run is judged.
use crate::engine::*;
use crate::files::*;
use crate::rt::*;
use crate::scen::*;

pub struct Prop {
  pub id: &'static str,
  /// share of the time spent on runs in which the process-wide loader has not been built yet
  pub cold: f64,
  pub dev: bool,
  pub guided: bool,
}
pub const PROPS: &[Prop] = &[
  Prop { id: "C01", cold: 0.08, dev: true, guided: false },
  Prop { id: "C02", cold: 0.0, dev: true, guided: false },
  Prop { id: "C03", cold: 0.2, dev: true, guided: false },
  Prop { id: "C04", cold: 0.0, dev: true, guided: false },
  Prop { id: "C05", cold: 0.0, dev: true, guided: true },
  Prop { id: "C06", cold: 0.0, dev: true, guided: false },
  Prop { id: "C07", cold: 0.0, dev: true, guided: true },
  Prop { id: "C08", cold: 0.0, dev: true, guided: false },
  Prop { id: "C09", cold: 0.0, dev: true, guided: false },
  Prop { id: "C10", cold: 0.0, dev: true, guided: false },
  Prop { id: "C11", cold: 0.05, dev: true, guided: false },
  Prop { id: "C12", cold: 0.0, dev: true, guided: false },
  Prop { id: "C13", cold: 0.0, dev: true, guided: false },
  Prop { id: "C14", cold: 0.0, dev: true, guided: false },
  Prop { id: "C15", cold: 0.0, dev: true, guided: false },
  Prop { id: "C16", cold: 0.0, dev: true, guided: true },
];
pub fn prop(id: &str) -> &'static Prop { PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {}", id)) }

#[derive(Clone, Debug)]
pub struct Viol { pub kind: String, pub what: String }
fn viol(kind: &str, what: String) -> Option<Viol> { Some(Viol { kind: kind.into(), what }) }

// ---------------------------------------------------------------- generators

fn workers(r: &mut Rng) -> u64 { if r.chance(1, 40) { *r.pick(&[24, 32, 61]) } else { *r.pick(&[1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8, 12, 16]) } }

/// how the run is scheduled; `est` is the number of steps the operations need on their own
pub fn schedule(r: &mut Rng, c: &mut Cfg, est: u64) {
  let est = est.max(200);
  c.set("seed_sched", r.next() >> 16);
  c.set("est_steps", est + est / 4);
  match r.below(20) {
    0 | 1 => { c.set("strat", ST_NONE as u64); }
    2..=8 => { c.set("strat", ST_RANDOM as u64).set("mean_gap", gap(r, est)); }
    9..=12 => { c.set("strat", ST_PCT as u64).set("pct_depth", r.range(1, 5)); }
    13..=15 => { c.set("strat", ST_RARE as u64).set("rare_max", *r.pick(&[1, 2, 4, 8, 32])).set("p_edge", *r.pick(&[64, 200, 512])).set("mean_gap", if r.chance(1, 3) { gap(r, est) } else { 0 }); }
    16 | 17 => { c.set("strat", ST_STATIC as u64).set("p_edge", *r.pick(&[4, 32, 200])).set("mean_gap", if r.chance(1, 3) { gap(r, est) } else { 0 }); }
    _ => { c.set("strat", ST_STALL as u64).set("mean_gap", gap(r, est)); }
  }
  if r.chance(1, 4) { c.set("p_spurious", *r.pick(&[300, 3000, 20000])).set("seed_fault", r.next() >> 16); }
  if r.chance(1, 6) { c.set("seed_clock", r.next() >> 16).set("p_clk_jump", 20000).set("clk_jump_max_us", *r.pick(&[10, 100000, 50000000])); }
  if r.chance(1, 3) { let s = c.get("seed_sched"); c.set("rt_jump", *r.pick(&[1, 100, 100_000_000])).set("seed_clock", s); }
  c.set("step_limit", 600_000_000 + 60 * est);
}
fn gap(r: &mut Rng, est: u64) -> u64 {
  let lo = (est / 8000).max(15) as f64;
  let hi = (est as f64).max(lo * 2.0);
  let u = r.below(1 << 20) as f64 / (1u64 << 20) as f64;
  (lo * (hi / lo).powf(u)) as u64
}
/// a file that shares much, but not all, with another one
fn sibling(r: &mut Rng, f: &FileSpec) -> FileSpec {
  let mut g = f.clone();
  match r.below(6) {
    // the same kind of camera, another way of storing the samples
    5 => { let fam: &[&[&str]] = &[&["nef12", "nef14", "nefc"], &["rw2", "rw2u", "rw2wc", "rw2split"], &["dng16", "dng12", "dng10", "dng8", "dngrgb", "dngljs", "dngljt"], &["arw16", "arw12", "arw2", "arw1"], &["orfle", "orfbe", "orfwc", "orfil", "orfc"], &["pef16", "pef12", "pefc"], &["srw12u", "srw12le", "srw1", "srw2", "srw3"], &["raf16", "raf14", "raf12"], &["mos16", "moslj", "moscmp"], &["nrw", "nrw32", "nrwsplit"], &["mrw", "mrwp"]];
      if let Some(f) = fam.iter().find(|f| f.contains(&&g.fmt[..])) { let n = *r.pick(f); let o = FileSpec::gen(r, &[n], true); g.fmt = o.fmt; g.w = o.w; g.h = o.h; } g.seed = r.next() >> 16; }
    0 => g.seed = r.next() >> 16,
    1 => { g.seed = r.next() >> 16; g.var = r.next() >> 32; }
    2 => { g.var = r.next() >> 32; }
    3 => { if !["dcs", "nrw", "nrw32", "nrwsplit", "orf32", "nefd100"].contains(&&g.fmt[..]) { g.h = (g.h + 2 * r.range(1, 9) as usize).max(8); } g.seed = r.next() >> 16; }
    _ => { g.seed = r.next() >> 16; if r.chance(1, 2) { g.damage(r, 2) } else { g.break_data(r) } }
  }
  g
}
fn op_on(r: &mut Rng, f: usize) -> String {
  match r.below(12) {
    0..=3 => format!("path:{}", f), 4 | 5 => format!("reader:{}", f), 6 => format!("dec:{}:2", f), 7 => format!("safe:{}", f), 8 => format!("nest:{}:{}", f, r.range(2, 5)),
    9 => format!("pool:{}:{}:path", f, r.range(1, 6)), 10 => format!("srgb:{}:{}:{}", f, dim(r), dim(r)), _ => format!("rgb:{}:{}:{}", f, dim(r), dim(r)),
  }
}
fn dim(r: &mut Rng) -> u64 { if r.chance(1, 3) { 0 } else if r.chance(1, 2) { r.range(1, 12) } else { r.range(8, 200) } }
fn sh_op(r: &mut Rng) -> String {
  match r.below(6) { 0 | 1 => format!("shsrgb:{}:{}", dim(r), dim(r)), 2 => format!("shrgb:{}:{}", dim(r), dim(r)), 3 => format!("shlin:{}:{}", dim(r), dim(r)), 4 => "shclone".to_string(), _ => format!("nestsh:{}:{}:{}", dim(r), dim(r), r.range(2, 5)) }
}
const PIPE: &[&str] = &["dng16", "dng12", "dng10", "dng8", "dngrgb", "dngljs", "mrw", "arw16", "arw2", "orfle", "erf", "raf16", "raf14", "rafrot", "rafrotalt", "rafdw", "nrwsplit", "snef", "nefc", "sraw", "cr2", "pef12", "srw2", "ari", "crw", "rw2u", "iiq"];

/// uncompressed formats whose layout does not depend on the length of the file
const PLAIN: &[&str] = &["dng16", "dng12", "dng10", "dngrgb", "mrw", "mrwp", "arw16", "arw12", "r1", "orfle", "orfbe", "orfwc", "orfil", "orf32", "mef", "erf", "raf16", "raf14", "raf12", "rafjpeg32", "rafdw", "rafrot", "rafrotalt", "kdc",
  "nrwsplit", "nrw32", "nrw", "mos16", "nef12", "nef14", "pef16", "pef12", "srw12u", "srw12le", "srw12be", "ari"];

/// an intact file of which the model knows what it holds
fn known(r: &mut Rng, eng: &Engine, small: bool) -> FileSpec {
  loop {
    let f = *r.pick(FORMATS);
    if BIG.contains(&f) && !r.chance(1, 10) { continue }
    let f = FileSpec::gen(r, &[f], small);
    if eng.expected(&f).is_some() { return f }
  }
}
pub fn est(eng: &Engine, s: &Scenario) -> u64 {
  let mut n = 0;
  for op in s.callers.iter().flatten().chain(s.post.iter()) { if !env_op(op) { n += eng.reference(s, op).steps } }
  n
}
pub fn flag(eng: &Engine, s: &Scenario) {
  if s.cfg.get("strat") as u32 != ST_RARE || s.bin != "lib" { return }
  eng.clear_flags();
  for op in s.callers.iter().flatten().filter(|o| !env_op(o)) { let r = eng.reference(s, op); eng.flag_rare(&r, s.cfg.get("rare_max")); }
}

/// the workload of a case; scheduling and faults are added by `vary`
pub fn base(id: &str, r: &mut Rng, eng: &Engine, corpus: &[FileSpec]) -> Scenario {
  let mut s = Scenario::new(id);
  s.cold = !eng.warm; s.pseed = eng.pseed; s.workers = workers(r);
  match id {
    "C01" => {
      let f = if r.chance(1, 8) { FileSpec::gen(r, FORMATS, s.cold) } else { FileSpec::gen(r, PAR, s.cold) };
      s.files = vec![f];
      // a way of storing that the camera is not known for: the answer must not hang on the order of a hash map
      if r.chance(1, 12) && !s.cold { s.files[0] = loop { let f = FileSpec::gen(r, &["nefc", "nef14", "nef12"], true); if mix(f.var.wrapping_mul(31).wrapping_add(8)) % 7 == 0 { break f } }; s.callers = vec![vec![format!("ldr:0:{}", r.below(LOADERS as u64))]]; return s }
      // the same outcome means the same error, too
      if r.chance(1, 6) && !s.cold { s.files[0].damage(r, 2) }
      s.callers = vec![vec![match r.below(10) { 0 | 1 => "reader:0".into(), 2 | 3 => format!("ldr:0:{}", r.below(LOADERS as u64)), 4..=6 => "path:0".into(), 7 => "dec:0:2".into(), 8 => format!("nest:0:{}", r.range(2, 4)), _ => format!("pool:0:{}:path", r.range(1, 8)) }]];
    }
    "C02" => {
      s.files = vec![FileSpec::gen(r, PIPE, false)]; s.shared = Some(0);
      let n = r.range(1, 2);
      s.callers = vec![(0..n).map(|_| loop { let o = sh_op(r); if o != "shclone" { break o } }).collect()];
    }
    "C03" | "C11" => {
      let small = s.cold || r.chance(2, 3);
      let fm = if r.chance(1, 6) { FORMATS } else { PAR };
      let f = FileSpec::gen(r, fm, small);
      let mut files = vec![f];
      for _ in 0..r.below(4) { let b = r.pick(&files).clone(); files.push(if r.chance(1, 2) { sibling(r, &b) } else { FileSpec::gen(r, FORMATS, small) }) }
      for f in files.iter_mut() { if BIG.contains(&&f.fmt[..]) && !r.chance(1, 12) { *f = FileSpec::gen(r, PAR, true) } }
      s.files = files;
      if r.chance(1, 3) && !s.cold { s.shared = Some(0) }
      let nc = r.range(2, 5);
      s.workers = s.workers.min(8);
      for _ in 0..nc {
        let mut ops = vec![];
        for _ in 0..r.range(1, if s.cold { 1 } else { 3 }) {
          let f = r.below(s.files.len() as u64) as usize;
          ops.push(if s.shared.is_some() && r.chance(1, 2) { sh_op(r) } else if s.cold { format!("path:{}", f) } else { op_on(r, f) });
        }
        s.callers.push(ops);
      }
    }
    "C04" => {
      let sm = r.chance(2, 3);
      let f = FileSpec::gen(r, FORMATS, sm);
      s.files = vec![f];
      if r.chance(1, 3) { let g = sibling(r, &s.files[0]); s.files.push(g) }
      s.workers = s.workers.min(4);
      let mut ops = vec![];
      for _ in 0..r.range(1, 4) {
        let f = r.below(s.files.len() as u64) as usize;
        let len = eng.file_bytes(&s.files[f]).len() as u64;
        let at = |r: &mut Rng| if r.chance(1, 3) { r.below(300.min(len + 1)) } else if r.chance(1, 4) { len - r.below(20.min(len + 1)) } else { r.below(len + 1) };
        ops.push(match r.below(16) {
          0..=4 => format!("path:{}", f), 5 => format!("safe:{}", f), 6 | 7 => format!("reader:{}:short:{}", f, r.below(1000)), 8 => format!("reader:{}:one:{}", f, r.below(3)),
          9 => format!("reader:{}:err:{}", f, at(r)), 10 => format!("reader:{}:{}:{}", f, r.pick(&["denied", "wouldblock"]), at(r)), 11 => format!("reader:{}:eof:{}", f, at(r)),
          12 => r.pick(&["missing", "dirpath", "nulpath"]).to_string(), 13 => format!("dec:{}:2", f), 14 => format!("newloader:{}", f), _ => format!("reader:{}:{}:{}", f, r.pick(&["err", "eof"]), len),
        });
        if ops.last().unwrap().starts_with("newloader") && !r.chance(1, 8) { let l = ops.len(); ops[l - 1] = format!("path:{}", f) }
      }
      s.callers = vec![ops];
    }
    "C05" | "C07" => {
      let mut f = if !corpus.is_empty() && r.chance(2, 3) { let f = r.pick(corpus).clone(); if r.chance(1, 5) { let mut g = f.clone(); if !g.dmg.is_empty() { let k = r.below(g.dmg.len() as u64) as usize; g.dmg.remove(k); } g } else { f } }
        else { let f = *r.pick(FORMATS); if BIG.contains(&f) && !r.chance(1, 6) { FileSpec::gen(r, FORMATS, true) } else { FileSpec::gen(r, &[f], true) } };
      let n = *r.pick(&[1u64, 1, 2, 3, 6]);
      f.damage(r, n);
      if f.dmg.len() > 12 { f.dmg.truncate(12) }
      s.workers = *r.pick(&[1, 1, 2, 3]);
      let mut op = if id == "C05" { "path:0".to_string() } else if r.chance(1, 8) { "dec:0:2".to_string() } else { "reader:0".to_string() };
      if id == "C07" && r.chance(1, 6) {
        // a lost tail, against the same file with that tail read as zeros
        f = FileSpec::gen(r, PLAIN, true);
        f.w &= !7;
        let n = eng.file_bytes(&f).len() as u64;
        op = format!("truncz:0:{}", match r.below(4) { 0 => r.below(n), 1 => n - 1 - r.below(40.min(n)), _ => n / 2 + r.below(n / 2) });
      }
      s.files = vec![f];
      let mut ops = vec![op];
      // whatever an earlier image may have left behind
      if id == "C07" && r.chance(1, 4) { for _ in 0..r.range(1, 2) { let g = if r.chance(1, 2) { FileSpec::gen(r, &["rafrot", "rafrotalt", "rafdw", "nrwsplit", "arw2", "cr2", "sraw", "moslj"], true) } else { FileSpec::gen(r, PAR, true) }; s.files.push(g); ops.insert(0, format!("reader:{}", s.files.len() - 1)) } }
      s.callers = vec![ops];
    }
    "C06" => {
      let small = r.chance(4, 5);
      let mut files = vec![FileSpec::gen(r, FORMATS, small)];
      for _ in 0..r.range(1, 4) { let b = r.pick(&files).clone(); files.push(if r.chance(2, 3) { sibling(r, &b) } else { FileSpec::gen(r, FORMATS, small) }) }
      for _ in 0..r.range(0, 2) { let mut b = r.pick(&files).clone(); b.damage(r, 3); files.push(b) }
      if r.chance(1, 5) { let mut b = r.pick(&files).clone(); b.unsupported(); files.push(b) }
      s.workers = s.workers.min(4);
      // files that break off in the middle of the samples, between intact ones of the same kind
      if r.chance(2, 5) {
        let mut files = vec![];
        for _ in 0..r.range(1, 3) {
          let f = FileSpec::gen(r, FORMATS, true);
          for k in 0..3 { let mut g = f.clone(); if k > 0 { g.seed = r.next() >> 16; if r.chance(1, 2) { g.var = r.next() >> 32 } if r.chance(1, 3) { g.h = FileSpec::gen(r, &[&f.fmt], true).h } } if k == 1 { g.break_data(r) } files.push(g) }
        }
        let n = r.range(4, 14);
        let mut ops = vec![];
        for _ in 0..n { let f = r.below(files.len() as u64); ops.push(match r.below(10) { 0 | 1 => format!("reader:{}", f), 2 => format!("pool:{}:1:path", f), 3 => format!("reader:{}:panic:{}", f, r.below(2000)), 4 => format!("dec:{}:2", f), _ => format!("path:{}", f) }) }
        s.files = files; s.callers = vec![ops];
        return s;
      }
      let long = r.chance(1, 25);
      let n = if long { r.range(150, 500) } else { r.range(3, 14) };
      if long { for f in files.iter_mut() { if BIG.contains(&&f.fmt[..]) || f.h > 40 || f.w > 400 { *f = FileSpec::gen(r, &["dng16", "dng12", "orfle", "mrw", "nef14"], true) } } }
      s.files = files;
      let mut ops = vec![];
      for _ in 0..n {
        let f = r.below(s.files.len() as u64) as usize;
        ops.push(match r.below(14) { 0 => r.pick(&["missing", "dirpath", "nulpath"]).to_string(), 1 => format!("reader:{}:err:{}", f, r.below(2000)), 2 => format!("reader:{}:panic:{}", f, r.below(2000)),
          3 => if long { format!("path:{}", f) } else { format!("nest:{}:2", f) }, 4 => if long { format!("srgb:{}:8:8", f) } else { op_on(r, f) }, 5 => format!("dec:{}:2", f), 6 | 7 => format!("reader:{}", f), _ => format!("path:{}", f) });
        // the file changes, disappears or comes back between two calls
        if r.chance(1, 8) { ops.push(if r.chance(1, 3) { format!("rm:{}", f) } else { format!("put:{}:{}", f, r.below(s.files.len() as u64)) }); ops.push(format!("path:{}", f)) }
      }
      s.callers = vec![ops];
    }
    "C08" => {
      s.bin = "cli".into(); s.cold = false; s.workers = *r.pick(&[1, 2, 3, 4]);
      let f = if r.chance(1, 8) { let mut f = FileSpec::gen(r, PIPE, true); f.damage(r, 3); f } else { let sm = r.chance(3, 4); FileSpec::gen(r, PIPE, sm) };
      s.files = vec![f];
      s.callers = vec![match r.below(12) { 0 => vec!["in:0".to_string()], 1 => vec!["in:0".into(), "badout".into()], 2 => vec!["missing".into(), "out".into()], _ => vec!["in:0".into(), "out".into()] }];
      if !s.callers[0].iter().any(|a| a == "badout" || a == "missing") && r.chance(1, 3) {
        // an output file from an earlier conversion is already there
        let mut l = s.clone(); l.bin = "lib".into(); l.cold = !eng.warm;
        let n: u64 = eng.reference(&l, "ppm:0:0:0").res.and_then(|x| x.info.split(' ').next().and_then(|x| x.parse().ok())).unwrap_or(100);
        let n = match r.below(5) { 0 => n + r.range(1, 5000), 1 => n + 1, 2 => n, 3 => r.below(n + 1), _ => n * 2 };
        s.callers[0].push(format!("pre:{}:{}", n, r.below(1 << 30)));
      }
    }
    "C09" => {
      s.bin = "bench".into(); s.cold = false; s.workers = *r.pick(&[1, 2, 4]);
      let mut f = FileSpec::gen(r, &["dng16", "dng12", "mrw", "orfle", "nef14", "arw16", "pef12"], true);
      f.h = f.h.min(16);
      if r.chance(1, 10) { f.damage(r, 3) }
      s.files = vec![f];
      s.callers = vec![if r.chance(1, 15) { vec!["missing".into()] } else { vec!["in:0".into()] }];
    }
    "C10" => {
      let f = if r.chance(1, 2) { FileSpec::gen(r, PIPE, true) } else { FileSpec::gen(r, FORMATS, true) };
      s.files = vec![f];
      if r.chance(1, 4) { s.files[0].damage(r, 2) }
      s.workers = s.workers.min(4);
      let mut ops = vec![];
      for _ in 0..r.range(1, 3) { ops.push(match r.below(6) { 0 | 1 => "path:0".to_string(), 2 => "reader:0".into(), 3 => format!("srgb:0:{}:{}", dim(r), dim(r)), 4 => format!("rgb:0:{}:{}", dim(r), dim(r)), _ => format!("lin:0:{}:{}", dim(r), dim(r)) }) }
      s.callers = vec![ops];
    }
    "C13" => {
      let small = r.chance(1, 2);
      for _ in 0..(if r.chance(1, 4) { r.range(2, 3) } else { 1 }) { s.files.push(known(r, eng, small)) }
      let n = s.files.len() as u64;
      for _ in 0..(if r.chance(1, 4) { r.range(2, 4) } else { 1 }) {
        let ops = (0..r.range(1, 2)).map(|_| { let f = r.below(n); match r.below(12) { 0..=4 => format!("raw:{}:path", f), 5..=7 => format!("raw:{}:reader", f), 8 => format!("raw:{}:safe", f), 9 => format!("raw:{}:short:{}", f, r.below(1000)), 10 => format!("raw:{}:one:{}", f, 500 + r.below(9000)), _ => format!("raw:{}:nest", f) } }).collect();
        s.callers.push(ops);
      }
      if s.callers.len() > 1 { s.workers = s.workers.min(8) }
    }
    "C14" => {
      for _ in 0..(if r.chance(1, 4) { r.range(2, 3) } else { 1 }) {
        s.files.push(loop {
          let f = *r.pick(FORMATS);
          if BIG.contains(&f) && !r.chance(1, 20) { continue }
          let sm = r.chance(2, 3);
          let mut f = FileSpec::gen(r, &[f], sm);
          // large enough for the black areas and crops of most cameras, once in a while
          if r.chance(1, 3) && !BIG.contains(&&f.fmt[..]) && f.w < 1000 { f.w = 8 * r.range(20, 60) as usize; f.h = 2 * r.range(20, 60) as usize; if f.fmt == "arw2" || f.fmt == "srw1" || f.fmt == "srw3" { f.w = (f.w + 31) & !31 } if f.fmt.starts_with("rw2") { f.w = (f.w + 13) / 14 * 14; f.h = (f.h + 4) / 5 * 5 } if f.fmt == "crw" { f.w = (f.w + 63) & !63; f.h = (f.h + 7) & !7 } }
          // as tall as real ones: means over many samples
          if f.fmt == "cr2" && r.chance(1, 6) { f.w = 8 * r.range(18, 40) as usize; f.h = r.range(2000, 4000) as usize }
          if r.chance(1, 12) { f.unsupported() }
          if eng.meta(&f).is_some() { break f }
        });
      }
      let n = s.files.len() as u64;
      for _ in 0..(if r.chance(1, 4) { r.range(2, 4) } else { 1 }) {
        let ops = (0..r.range(1, 2)).map(|_| { let f = r.below(n); match r.below(10) { 0..=3 => format!("meta:{}:path", f), 4 | 5 => format!("meta:{}:reader", f), 6 => format!("meta:{}:safe", f), 7 => format!("meta:{}:short:{}", f, r.below(1000)), _ => format!("meta:{}:ldr:{}", f, r.below(LOADERS as u64)) } }).collect();
        s.callers.push(ops);
      }
      if s.callers.len() > 1 { s.workers = s.workers.min(8) }
    }
    "C15" => {
      for _ in 0..(if r.chance(1, 4) { 2 } else { 1 }) {
        let sm = r.chance(2, 3);
        let mut f = FileSpec::gen(r, PIPE, sm);
        if f.w * f.h > 60000 { f = FileSpec::gen(r, &["dng16", "dngrgb", "arw16", "orfle"], true) }
        s.files.push(f);
      }
      let n = s.files.len() as u64;
      for _ in 0..(if r.chance(1, 4) { r.range(2, 3) } else { 1 }) {
        let ops = (0..r.range(1, 2)).map(|_| {
          let f = r.below(n);
          let (w, h) = (s.files[f as usize].w as u64, s.files[f as usize].h as u64);
          let side = |r: &mut Rng, w: u64| match r.below(8) { 0 => 0, 1 => 1 + r.below(6), 2 => (w / 2).max(1), 3 => (w / 3).max(1), 4 => w - r.below(w.min(3)), 5 => w + r.below(w), _ => 1 + r.below(w) };
          let (a, b) = (side(r, w), side(r, h));
          let (a, b) = match r.below(4) { 0 => (a, a), 1 => (b, b), _ => (a, b) };
          format!("dev:{}:{}:{}:{}:{}", f, r.pick(&["rgb", "lin", "lin", "srgb"]), a, b, if r.chance(1, 3) { 0 } else { r.next() >> 24 })
        }).collect();
        s.callers.push(ops);
      }
      if s.callers.len() > 1 { s.workers = s.workers.min(8) }
    }
    "C16" => {
      let mut f = if !corpus.is_empty() && r.chance(1, 2) { r.pick(corpus).clone() } else { let sm = r.chance(3, 4); let f = *r.pick(FORMATS); if BIG.contains(&f) && !r.chance(1, 20) { FileSpec::gen(r, PIPE, sm) } else { FileSpec::gen(r, &[f], sm) } };
      if r.chance(3, 4) { let n = *r.pick(&[1u64, 1, 1, 2, 3]); f.damage(r, n) }
      if f.dmg.len() > 10 { f.dmg.truncate(10) }
      let (w, h) = (f.w as u64, f.h as u64);
      s.files = vec![f];
      s.workers = *r.pick(&[1, 1, 2, 3]);
      let side = |r: &mut Rng, w: u64| match r.below(6) { 0 | 1 => 0, 2 => 1 + r.below(6), 3 => *r.pick(&[1, 65535, 1 << 31, 1 << 40]), 4 => w + r.below(3), _ => 1 + r.below(w) };
      let (a, b) = (side(r, w), side(r, h));
      s.callers = vec![vec![format!("usable:0:{}:{}:{}", r.pick(&["rgb", "lin", "srgb"]), a, b)]];
    }
    "C12" => {
      let fm = if r.chance(1, 3) { FORMATS } else { PIPE };
      let mut f = FileSpec::gen(r, fm, true);
      if BIG.contains(&&f.fmt[..]) { f = FileSpec::gen(r, &["dng16"], true) }
      s.files = vec![f];
      if r.chance(1, 2) { let mut g = s.files[0].clone(); g.damage(r, 3); s.files.push(g) }
      if r.chance(1, 4) { let mut g = s.files[0].clone(); g.unsupported(); s.files.push(g) }
      s.workers = s.workers.min(4);
      let n = s.files.len() as u64;
      let unit: Vec<String> = (0..r.range(1, 3)).map(|_| { let f = r.below(n); match r.below(8) { 0..=2 => format!("path:{}", f), 3 => format!("reader:{}", f), 4 => format!("srgb:{}:{}:{}", f, dim(r), dim(r)), 5 => format!("rgb:{}:{}:{}", f, dim(r), dim(r)), 6 => format!("reader:{}:err:{}", f, r.below(1000)), _ => r.pick(&["missing", "dirpath"]).to_string() } }).collect();
      let reps = C12_REPS;
      s.callers = vec![(0..reps).flat_map(|_| unit.clone()).collect()];
    }
    _ => panic!("{}", id),
  }
  s
}
const RD_ERRNO: &[u64] = &[5, 5, 13, 21, 11, 116, 121, 110]; // EIO, EACCES, EISDIR, EAGAIN, ESTALE, EREMOTEIO, ETIMEDOUT
const OP_ERRNO: &[u64] = &[2, 13, 24, 23, 5, 40, 12];
const WR_ERRNO: &[u64] = &[28, 5, 122, 27, 32, 11];

/// add a schedule and faults
pub fn vary(b: &Scenario, r: &mut Rng, eng: &Engine) -> Scenario {
  let mut s = b.clone();
  s.cfg = Cfg::default();
  let c = &mut s.cfg;
  match &b.prop[..] {
    "C08" | "C09" => {
      if r.chance(1, 2) { schedule(r, c, if b.prop == "C08" { 2_000_000 } else { 6_000_000 }); c.0.remove("p_spurious"); if c.get("strat") as u32 == ST_RARE || c.get("strat") as u32 == ST_STATIC { c.set("strat", ST_RANDOM as u64); } c.set("mean_gap", 200 + gap(r, 1_000_000)); }
      c.0.remove("p_clk_jump");
      c.set("step_limit", 30_000_000_000);
      if r.chance(1, 4) { c.set("mem_fill", r.range(1, 255)); }
      c.set("seed_fault", r.next() >> 16);
      if b.prop == "C08" {
        for _ in 0..r.below(3) { match r.below(12) {
          0 => { c.set("p_rd_short", 20000); } 1 => { c.set("p_rd_eintr", 10000); } 2 => { c.set("rd_err_ord", r.below(4)).set("rd_errno", *r.pick(RD_ERRNO)); }
          3 => { c.set("op_err_ord", r.below(3)).set("op_errno", *r.pick(OP_ERRNO)); }
          4 => { c.set("p_wr_short", *r.pick(&[3000, 30000])); } 5 => { c.set("p_wr_eintr", *r.pick(&[3000, 20000])); } 6 | 7 => { c.set("wr_err_ord", r.below(4)).set("wr_errno", *r.pick(WR_ERRNO)); }
          8 | 9 => { let p = b.files[0].w * b.files[0].h * 3; c.set("disk_cap", if r.chance(1, 4) { r.below(20) } else if r.chance(1, 2) { p as u64 + 20 - r.below(60.min(p as u64)) } else { r.below(p as u64 + 40) }); }
          10 => { c.set("out_cap", r.below(1500)).set("out_errno", *r.pick(&[32, 28, 5])); } _ => { c.set("thr_fail_ord", r.below(4)).set("thr_fail_sticky", r.below(2)); } } }
        if r.chance(1, 6) { c.set("p_out_short", 9000).set("p_out_eintr", 9000); }
        if r.chance(1, 6) { c.set("seed_clock", r.next() >> 16).set("p_clk_jump", 20000).set("clk_jump_max_us", 50_000_000); }
      } else {
        c.set("seed_clock", r.next() >> 16);
        if r.chance(1, 2) { c.set("rt_jump", *r.pick(&[1, 100, 100_000_000])); }
        match r.below(5) {
          1 if r.chance(1, 2) => { c.set("ns_per_step", 0).set("clk_read_ns", *r.pick(&[1_250_000_000, 1_000_000_000, 500_000_000, 1_666_666_666, 1_666_666_667, 5_000_000_000 / 3, 4_999_999_999, 625_000_000, 312_500_000])); }
          0 => { c.set("ns_per_step", *r.pick(&[1_000_000, 200_000, 50_000, 2_000])); }
          1 => { c.set("clk_read_ns", *r.pick(&[1_250_000_000, 2_500_000_000, 1_666_666_667, 5_000_000_000, 624_999_999, 4_999_999_999, 2_499_999_999, 20_000_000_000])); }
          2 => { c.set("ns_per_step", r.range(1_000, 100_000)).set("p_clk_jump", 20000).set("clk_jump_max_us", *r.pick(&[1000, 1_000_000, 4_000_000_000])); }
          3 => { c.set("clk_read_ns", r.range(300_000_000, 6_000_000_000)); }
          _ => { c.set("p_clk_jump", 60000).set("clk_jump_max_us", *r.pick(&[300_000, 3_000_000, 30_000_000])).set("ns_per_step", 2000); }
        }
        if r.chance(1, 4) { c.set("clk_grain", *r.pick(&[5_000_000_000, 2_500_000_000, 1_000_000_000, 500_000_000, 10_000_000, 15_625_000, 1000])); }
        if b.files[0].dmg.is_empty() { c.set("watch_size", (b.files[0].w * b.files[0].h * 2) as u64); }
        if r.chance(1, 6) { c.set("p_rd_short", 20000).set("p_rd_eintr", 10000); }
        if r.chance(1, 10) { c.set("rd_err_ord", r.below(3)).set("rd_errno", *r.pick(RD_ERRNO)); }
        if r.chance(1, 15) { c.set("op_err_ord", 0).set("op_errno", *r.pick(OP_ERRNO)); }
        if r.chance(1, 6) { c.set("p_out_short", 9000).set("p_out_eintr", 9000); }
      }
      return s;
    }
    _ => {}
  }
  let e = est(eng, b);
  schedule(r, c, e);
  if r.chance(1, 3) { c.set("mem_fill", r.range(1, 255)); }
  c.set("seed_hash", r.next() >> 16);
  if b.cold { c.set("step_limit", 20_000_000_000); if c.get("strat") as u32 == ST_RANDOM || c.get("strat") as u32 == ST_STALL { let g = c.get("mean_gap").max(3000); c.set("mean_gap", g); } if c.get("strat") as u32 == ST_STATIC { c.set("p_edge", 4); } }
  if ["C04", "C05", "C06", "C07", "C10", "C12", "C16"].contains(&&b.prop[..]) && r.chance(1, 2) { for k in ["strat", "mean_gap", "p_edge", "rare_max", "pct_depth", "p_spurious", "p_clk_jump"] { c.0.remove(k); } }
  match &b.prop[..] {
    // what a caller must not notice
    "C13" | "C14" | "C15" => if r.chance(1, 4) { c.set("seed_fault", r.next() >> 16).set("p_rd_short", *r.pick(&[2000, 20000, 60000])); if r.chance(1, 2) { c.set("p_rd_eintr", *r.pick(&[2000, 20000])); } }
    "C04" | "C06" | "C12" => {
      c.set("seed_fault", r.next() >> 16);
      let sel = if b.prop == "C04" { r.below(8) } else { r.below(24) };
      match sel { 0 => { c.set("p_rd_short", *r.pick(&[2000, 20000, 60000])); } 1 => { c.set("p_rd_eintr", *r.pick(&[2000, 20000])); } 2 | 3 => { c.set("p_rd_short", 30000).set("p_rd_eintr", 9000).set("rd_err_ord", r.below(40)).set("rd_errno", *r.pick(RD_ERRNO)).set("rd_err_sticky", r.below(2)); }
        4 => { c.set("rd_err_ord", r.below(6)).set("rd_errno", *r.pick(RD_ERRNO)); } 5 => { c.set("op_err_ord", r.below(3)).set("op_errno", *r.pick(OP_ERRNO)); } _ => {} }
    }
    // the first thread is the caller itself
    "C05" => if r.chance(1, 12) { c.set("thr_fail_ord", 1 + r.below(3)).set("thr_fail_sticky", r.below(2)); }
    "C10" => {
      match r.below(4) { 0 => { c.set("out_cap", 0); } 1 => { c.set("out_cap", r.below(400)); } _ => { c.set("out_cap", r.below(60)); } }
      c.set("out_errno", *r.pick(&[32, 28, 5, 9]));
      if r.chance(1, 3) { c.set("err_errno", *r.pick(&[32, 5, 28, 9])); }
      if r.chance(1, 5) { c.set("p_out_short", 9000).set("p_out_eintr", 9000); }
      if r.chance(1, 5) { c.0.remove("out_cap"); c.set("err_errno", 32); }
    }
    _ => {}
  }
  if b.prop == "C05" || b.prop == "C07" || b.prop == "C16" { c.set("mem_single", MEM_LIMIT).set("mem_total", 2 * MEM_LIMIT).set("step_limit", STEP_LIMIT); }
  s
}
pub const MEM_LIMIT: u64 = 2 << 30;
pub const STEP_LIMIT: u64 = 1_500_000_000;
/// a run that asked for one large piece of memory may take time in proportion to it
pub const LARGE: u64 = 4 << 20;

// ---------------------------------------------------------------- oracles

fn each(o: &Outcome, sc: &Scenario) -> Vec<(OpRes, String)> {
  o.ops.iter().map(|r| (r.clone(), if r.caller == "post" { sc.post[r.idx].clone() } else { sc.callers[r.caller.parse::<usize>().unwrap()][r.idx].clone() })).collect()
}
fn same(eng: &Engine, sc: &Scenario, res: &OpRes, op: &str) -> Option<Viol> {
  let rf = eng.reference(sc, op);
  match &rf.res {
    None => None, // the operation does not complete on its own either: a matter for other properties
    Some(x) => if x.obs() == res.obs() { None } else {
      viol("differs", format!("operation {} of caller {} ({}) gave [{} {:016x}] {} where the same operation on its own gives [{} {:016x}] {}", res.idx, res.caller, op, res.class, res.digest, res.info, x.class, x.digest, x.info)) },
  }
}
fn complete(o: &Outcome, sc: &Scenario) -> Option<Viol> {
  if !o.finished() { return viol(if o.verdict == V_DEADLOCK { "deadlock" } else if o.verdict == V_STEPLIMIT { "hang" } else { "crash" }, o.brief()) }
  let want = sc.callers.iter().map(|c| c.len()).sum::<usize>() + sc.post.len();
  if o.ops.len() != want { return viol("lost", format!("{} of {} operations reported a result", o.ops.len(), want)) }
  None
}
/// true if every operation completes when it is alone
fn alone_ok(eng: &Engine, sc: &Scenario) -> bool {
  sc.callers.iter().flatten().chain(sc.post.iter()).all(|op| env_op(op) || eng.reference(sc, op).res.is_some())
}

/// true if the decode that a development begins with completes: otherwise it is C05's business
fn alone_decodes(eng: &Engine, sc: &Scenario) -> bool { eng.reference(sc, "reader:0").res.is_some() }

pub fn judge(sc: &Scenario, o: &Outcome, eng: &Engine) -> Option<Viol> {
  // how long something takes is counted in steps; a slow machine is no answer
  if o.verdict == V_INTERNAL || o.timeout { return None }
  match &sc.prop[..] {
    "C01" | "C02" | "C03" | "C06" | "C10" | "C11" => {
      if let Some(v) = complete(o, sc) { return if alone_ok(eng, sc) { Some(v) } else { None } }
      let single = sc.callers.len() == 1;
      // what is stored under each name at that point (only where there is one caller)
      let mut stored: Vec<Option<usize>> = (0..sc.files.len()).map(Some).collect();
      for (res, op) in each(o, sc) {
        if env_op(&op) && res.class != "env" { continue }
        if env_op(&op) { let f: Vec<usize> = op.split(':').skip(1).map(|x| x.parse().unwrap()).collect(); stored[f[0]] = f.get(1).cloned(); continue }
        let op = if op.starts_with("path:") || op.starts_with("safe:") || op.starts_with("nest:") || op.starts_with("pool:") {
          match stored[op_file(&op).unwrap()] { Some(k) => op_with_file(&op, k), None => { if res.class != "err" { return viol("masked", format!("{}: {} {} for a file that is gone", op, res.class, res.info)) } continue } }
        } else { op };
        if op.contains(":panic:") { continue }
        if op.contains(":err:") { if res.class == "ok" { let n: u64 = op.split(':').nth(3).unwrap().parse().unwrap(); if n <= eng.file_bytes(&sc.files[op_file(&op).unwrap()]).len() as u64 { return viol("masked", format!("{}: the reader failed but an image came back", op)) } } continue }
        if single && (res.rderr > 0 || res.operr > 0) { continue }
        if sc.prop == "C11" { let rf = eng.reference(sc, &op); if let Some(x) = rf.res { if x.class != res.class { return viol("class", format!("{}: {} instead of {} ({})", op, res.class, x.class, res.info)) } } continue }
        if let Some(v) = same(eng, sc, &res, &op) { return Some(v) }
      }
      None
    }
    "C04" => {
      if let Some(v) = complete(o, sc) { return if alone_ok(eng, sc) { Some(v) } else { None } }
      for (res, op) in each(o, sc) {
        let f: Vec<&str> = op.split(':').collect();
        let arg = || f[3].parse::<u64>().unwrap();
        if res.rderr > 0 || res.operr > 0 {
          if res.class != "err" { return viol("masked", format!("{}: the operating system reported {} read and {} open errors but the call gave {} {}", op, res.rderr, res.operr, res.class, res.info)) }
          continue;
        }
        if ["missing", "dirpath", "nulpath"].contains(&f[0]) { if res.class != "err" { return viol("masked", format!("{} gave {} {}", op, res.class, res.info)) } continue }
        if f[0] == "reader" && f.len() > 2 {
          let fi: usize = f[1].parse().unwrap();
          let len = eng.file_bytes(&sc.files[fi]).len() as u64;
          match f[2] {
            "err" | "denied" | "wouldblock" => { if arg() <= len { if res.class != "err" { return viol("masked", format!("{}: the reader failed after {} of {} bytes but the call gave {} {}", op, arg(), len, res.class, res.info)) } continue } }
            "eof" => {
              let mut t = sc.clone();
              t.files[fi].dmg.push(Damage::Trunc(arg() as usize));
              let rf = eng.reference(&t, &format!("reader:{}", fi));
              if let Some(x) = rf.res { if x.obs() != res.obs() { return viol("differs", format!("{}: {} {} instead of {} {}", op, res.class, res.info, x.class, x.info)) } }
              continue;
            }
            _ => {}
          }
        }
        if let Some(v) = same(eng, sc, &res, &op) { return Some(v) }
        // the interfaces agree with each other
        if let Some(fi) = op_file(&op) {
          let (a, b) = (eng.reference(sc, &format!("reader:{}", fi)), eng.reference(sc, &format!("path:{}", fi)));
          if let (Some(x), Some(y)) = (a.res, b.res) {
            let agree = match (&x.class[..], &y.class[..]) { ("ok", "ok") => x.digest == y.digest, ("err", "err") => x.digest == y.digest, ("panic", "err") => true, _ => false };
            if !agree { return viol("interfaces", format!("file {}: reader gives {} {}, path gives {} {}", fi, x.class, x.info, y.class, y.info)) }
          }
        }
      }
      None
    }
    "C05" => {
      if o.verdict == V_STEPLIMIT && o.max_req > LARGE { return None }
      if let Some(v) = complete(o, sc) { return Some(v) }
      for (res, op) in each(o, sc) {
        if res.class != "ok" && res.class != "err" { return viol("escaped", format!("{}: {} {}", op, res.class, res.info)) }
      }
      None
    }
    "C07" => {
      if !o.finished() { return None } // C05's business
      for (res, op) in each(o, sc) {
        if res.class == "ok" && res.info.contains("MALFORMED") { return viol("malformed", format!("{}: {}", op, res.info)) }
        if res.class == "invented" { return viol("invented", format!("{}: {}", op, res.info)) }
        if res.class == "unstable" { return viol("unstable", format!("{}: {}", op, res.info)) }
      }
      None
    }
    "C13" => {
      if let Some(v) = complete(o, sc) { return Some(v) }
      for (res, op) in each(o, sc) {
        if res.class == "unknown" { continue }
        if res.class != "same" { return viol(if res.class == "wrong" { "wrong" } else { "lost" }, format!("{} ({}): {} {}", op, sc.files[op_file(&op).unwrap()].text(), res.class, res.info)) }
      }
      None
    }
    "C14" => {
      if let Some(v) = complete(o, sc) { return if alone_ok(eng, sc) { Some(v) } else { None } }
      for (res, op) in each(o, sc) {
        let f = &sc.files[op_file(&op).unwrap()];
        if ["unknown", "same", "refused"].contains(&&res.class[..]) { continue }
        // data nothing is known about may be beyond decoding
        if res.class != "wrong" && eng.expected(f).is_none() { continue }
        return viol(if res.class == "wrong" { "wrong" } else { "lost" }, format!("{} ({}): {} {}", op, f.text(), res.class, res.info));
      }
      None
    }
    "C15" => {
      if let Some(v) = complete(o, sc) { return if alone_ok(eng, sc) { Some(v) } else { None } }
      for (res, op) in each(o, sc) {
        let f = &sc.files[op_file(&op).unwrap()];
        if ["unknown", "same"].contains(&&res.class[..]) { continue }
        // data that does not decode is not C15's business
        if res.class == "err" { continue }
        return viol(&res.class, format!("{} ({}): {} {}", op, f.text(), res.class, res.info));
      }
      None
    }
    "C16" => {
      if o.verdict == V_STEPLIMIT && o.max_req > LARGE { return None }
      if let Some(v) = complete(o, sc) { return if alone_decodes(eng, sc) { Some(v) } else { None } }
      for (res, op) in each(o, sc) {
        if ["ok", "err", "refused", "large"].contains(&&res.class[..]) { continue }
        return viol(&res.class, format!("{}: {} {}", op, res.class, res.info));
      }
      None
    }
    "C08" => judge_cli(sc, o, eng),
    "C09" => judge_bench(sc, o, eng),
    "C12" => {
      if let Some(v) = complete(o, sc) { return if alone_ok(eng, sc) { Some(v) } else { None } }
      let n = o.ops.len();
      if n == 0 { return None }
      let last = &o.ops[n - 1];
      for r in &o.ops { if r.fds != 0 { return viol("fd", format!("{} file descriptors still open after operation {} ({})", r.fds, r.idx, sc.callers[0][r.idx])) } }
      // the same point of the repeated unit, after every eighth repetition
      let unit = n / C12_REPS;
      let at: Vec<&OpRes> = (1..=C12_REPS / 8).map(|k| &o.ops[8 * k * unit - 1]).collect();
      if last.threads > at[0].threads { return viol("threads", format!("threads grew from {} to {} over repetitions", at[0].threads, last.threads)) }
      let grow = last.live - at[0].live;
      // what a worker thread allocates once, on its first task, is no growth
      let steady = at.windows(2).map(|w| w[1].live - w[0].live).min().unwrap_or(0);
      if steady >= 128 || grow > 8_000 + 4_500 * sc.workers as i64 { return viol("memory", format!("live memory grew by {} bytes over {} repetitions ({} -> {}), by at least {} in any eight", grow, C12_REPS - 8, at[0].live, last.live, steady)) }
      None
    }
    _ => None,
  }
}
pub const C12_REPS: usize = 72;

fn faults(o: &Outcome) -> u64 { ["read_errors", "open_errors", "write_errors", "disk_full", "stdout_errors", "thread_create_failures"].iter().map(|n| o.c(n)).sum() }

fn judge_cli(sc: &Scenario, o: &Outcome, eng: &Engine) -> Option<Viol> {
  if o.verdict == V_DEADLOCK || o.verdict == V_STEPLIMIT { return viol("hang", o.brief()) }
  let mut l = sc.clone();
  l.bin = "lib".into(); l.cold = !eng.warm;
  let has_in = sc.callers[0][0].starts_with("in");
  let rf = if has_in { eng.reference(&l, "ppm:0:0:0").res } else { None };
  let good = rf.as_ref().map(|x| x.class == "ok").unwrap_or(false);
  let clean_exit = o.signal == 0 && o.exit == 0;
  if has_in && std::fs::read(format!("{}/f00.raw", eng.dir)).ok().as_deref() != Some(&eng.file_bytes(&sc.files[0])[..]) { return viol("input", "the input file was changed".into()) }
  let bad_out = sc.callers[0].iter().any(|a| a == "badout");
  if clean_exit {
    if !good || bad_out { return viol("success", format!("exit status 0 although {}", if bad_out { "the output cannot be created" } else { "the input does not decode" })) }
    let path = eng.outfile(sc);
    match std::fs::read(&path) {
      Err(_) => return viol("success", "exit status 0 but there is no output file".into()),
      Ok(b) => if hash(&b, 0) != rf.as_ref().unwrap().digest { return viol("output", format!("exit status 0 but the output ({} bytes) is not the complete picture ({})", b.len(), rf.unwrap().info)) },
    }
    let left: Vec<String> = std::fs::read_dir(&eng.dir).map(|d| d.flatten().map(|e| e.path().to_string_lossy().to_string()).filter(|p| *p != path && !p.ends_with("/f00.raw")).collect()).unwrap_or_default();
    if !left.is_empty() { return viol("stray", format!("left behind: {:?}", left)) }
    return None;
  }
  if good && !bad_out && faults(o) == 0 { return viol("failure", format!("{} although nothing went wrong; stdout ends {:?}, stderr {:?}", o.brief(), o.out.chars().rev().take(80).collect::<String>().chars().rev().collect::<String>(), o.err.lines().next().unwrap_or(""))) }
  None
}

fn judge_bench(sc: &Scenario, o: &Outcome, eng: &Engine) -> Option<Viol> {
  if o.verdict == V_DEADLOCK || o.verdict == V_STEPLIMIT { return viol("hang", o.brief()) }
  let mut l = sc.clone();
  l.bin = "lib".into(); l.cold = !eng.warm;
  let good = sc.callers[0][0].starts_with("in") && eng.reference(&l, "reader:0").res.map(|x| x.class == "ok").unwrap_or(false);
  let line = o.out.lines().find(|l| l.starts_with("Average decode time"));
  let clean = o.signal == 0 && o.exit == 0;
  if !good || faults(o) > 0 {
    if clean || line.is_some() { return viol("success", format!("exit {} and {:?} although the file could not be decoded", o.exit, line)) }
    return None;
  }
  if !clean { return viol("failure", format!("{} although nothing went wrong", o.brief())) }
  let Some(line) = line else { return viol("silent", "no average reported".into()) };
  let nums: Vec<u64> = line.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(0)).collect();
  if nums.len() != 2 { return viol("format", line.to_string()) }
  let (avg, iters) = (nums[0], nums[1]);
  let (first, prev, last) = o.clk;
  let el = last - first;
  if iters < 25 || el < 5_000_000_000 { return viol("early", format!("stopped after {} iterations and {} ns", iters, el)) }
  if avg != el / iters / 1_000_000 && (prev - first < 5_000_000_000 || avg != (prev - first) / iters / 1_000_000) { return viol("average", format!("reported {} ms over {} iterations, measured {} ns in total", avg, iters, el)) }
  // every decode brings an image of its own
  if sc.cfg.get("watch_size") != !0 && o.c("watched") < iters { return viol("uncounted", format!("reported {} iterations but only {} images were made", iters, o.c("watched"))) }
  // one clock reading before the first decode and one after each batch: between the last two there was work
  let batches = o.c("clock_reads").saturating_sub(1);
  if batches == 0 || iters % batches != 0 || o.clk_steps < o.clk_work / (3 * batches) { return None }
  let batch = iters / batches;
  if iters - batch >= 25 && batches > 1 && prev - first >= 5_000_000_000 { return viol("late", format!("went on for another batch after {} iterations and {} ns", iters - batch, prev - first)) }
  None
}
