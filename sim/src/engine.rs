//! Runs one scenario in a forked child under the simulated kernel and collects what happened.
use crate::files::FileSpec;
use crate::model::{self, Exp, Meta};
use crate::rt::*;
use crate::scen::*;
use rawloader::decoders::{Buffer, RawLoader};
use rawloader::RawImage;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::CString;
use std::io::{self, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct OpRes { pub caller: String, pub idx: usize, pub class: String, pub digest: u64, pub steps: u64, pub rderr: u64, pub operr: u64, pub live: i64, pub fds: u64, pub threads: u64, pub info: String }
impl OpRes {
  fn text(&self) -> String {
    format!("R {} {} {} {:016x} {} {} {} {} {} {} {}\n", self.caller, self.idx, self.class, self.digest, self.steps, self.rderr, self.operr, self.live, self.fds, self.threads, self.info.replace('\n', " "))
  }
  fn parse(t: &str) -> Option<OpRes> {
    let f: Vec<&str> = t.splitn(12, ' ').collect();
    if f.len() < 11 || f[0] != "R" { return None }
    Some(OpRes { caller: f[1].into(), idx: f[2].parse().ok()?, class: f[3].into(), digest: u64::from_str_radix(f[4], 16).ok()?, steps: f[5].parse().ok()?,
      rderr: f[6].parse().ok()?, operr: f[7].parse().ok()?, live: f[8].parse().ok()?, fds: f[9].parse().ok()?, threads: f[10].parse().ok()?, info: f.get(11).unwrap_or(&"").to_string() })
  }
  /// what a caller can observe
  pub fn obs(&self) -> (String, u64) { (self.class.clone(), self.digest) }
}

#[derive(Clone, Debug)]
pub struct Outcome {
  pub exit: i32, pub signal: i32, pub timeout: bool,
  pub verdict: u32, pub msg: String, pub ops: Vec<OpRes>,
  pub steps: u64, pub switches: u64, pub trace: u64, pub sched: u64, pub sim_ns: u64, pub nthreads: u32,
  pub counters: [u64; C_N], pub ndec: u32, pub dec_overflow: bool,
  pub out: String, pub err: String, pub out_len: u64, pub clk: (u64, u64, u64), pub clk_steps: u64, pub clk_work: u64, pub peak: u64, pub refused: u64, pub max_req: u64, pub open_fds: u32, pub live_threads: u32,
}
impl Outcome {
  /// the run came to its regular end under the simulator
  pub fn finished(&self) -> bool { self.verdict == V_FINISHED && self.signal == 0 && !self.timeout }
  pub fn c(&self, name: &str) -> u64 { self.counters[counter(name)] }
  pub fn brief(&self) -> String {
    if self.timeout { return "wall-clock timeout".into() }
    if self.verdict == V_DEADLOCK || self.verdict == V_STEPLIMIT || self.verdict == V_INTERNAL { return self.msg.clone() }
    if self.signal != 0 { return format!("killed by signal {} ({})", self.signal, self.err.lines().next().unwrap_or("").chars().take(160).collect::<String>()) }
    format!("exit {}", self.exit)
  }
}

/// A reader that delivers a file the way pipes, sockets and network file systems do
struct SimReader { d: Arc<Vec<u8>>, pos: usize, r: Rng, mode: String, arg: usize, hit: bool }
impl Read for SimReader {
  fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    let left = self.d.len() - self.pos;
    let mut n = b.len().min(left);
    match self.mode.as_str() {
      "short" => { if self.r.chance(1, 6) { return Err(io::Error::from(io::ErrorKind::Interrupted)) } let k = if self.r.chance(1, 2) { 64 } else { 65536 }; n = n.min(1 + self.r.below(k) as usize) }
      "one" => n = n.min(1 + self.arg),
      "err" | "wouldblock" | "eof" | "panic" | "denied" => if self.pos >= self.arg && (!self.hit || self.mode != "err1") {
        self.hit = true;
        match self.mode.as_str() {
          "err" => return Err(io::Error::from_raw_os_error(5)),
          "denied" => return Err(io::Error::new(io::ErrorKind::PermissionDenied, "denied")),
          "wouldblock" => return Err(io::Error::from(io::ErrorKind::WouldBlock)),
          "panic" => panic!("reader panics"),
          _ => return Ok(0),
        }
      } else { n = n.min(self.arg - self.pos) },
      _ => {}
    }
    b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

pub struct Env { pub meta: Vec<Option<Option<Meta>>>, pub exp: Vec<Option<Arc<Exp>>>, pub bytes: Vec<Arc<Vec<u8>>>, pub paths: Vec<String>, pub dir: String, pub shared: Option<RawImage>, pub loader: Option<&'static RawLoader>, pub more: Vec<&'static RawLoader> }

pub fn digest(i: &RawImage) -> u64 {
  let mut h = hash(format!("{}|{}|{}|{}|{}|{}|{}|{:?}|{:?}|{:?}|{:?}|{:?}", i.make, i.model, i.clean_make, i.clean_model, i.width, i.height, i.cpp,
    i.whitelevels, i.blacklevels, i.crops, i.orientation, i.cfa.name).as_bytes(), 1);
  h = hash(format!("{}x{}", i.cfa.width, i.cfa.height).as_bytes(), h);
  if i.cfa.is_valid() { for y in 0..i.cfa.height { for x in 0..i.cfa.width { h = mix(h ^ i.cfa.color_at(y, x) as u64) } } }
  for w in i.wb_coeffs.iter() { h = mix(h ^ w.to_bits() as u64) }
  for r in i.xyz_to_cam.iter() { for w in r.iter() { h = mix(h ^ w.to_bits() as u64) } }
  hash16(&i.data, h)
}
fn well_formed(i: &RawImage) -> Result<(), String> {
  match i.width.checked_mul(i.height).and_then(|p| p.checked_mul(i.cpp)) {
    Some(n) if n == i.data.len() => Ok(()),
    _ => Err(format!("data.len()={} but {}x{}x{}", i.data.len(), i.width, i.height, i.cpp)),
  }
}
fn show(r: Result<RawImage, String>) -> (String, u64, String) {
  match r {
    Ok(i) => {
      let wf = match well_formed(&i) { Ok(()) => "wf".to_string(), Err(e) => format!("MALFORMED {}", e) };
      ("ok".into(), digest(&i), format!("{} {}x{}x{} {} {} {}", wf, i.width, i.height, i.cpp, i.make, i.model, i.cfa.name))
    }
    Err(e) => ("err".into(), hash(e.as_bytes(), 7), e),
  }
}
fn rgb_digest(w: usize, h: usize, d: &[f32]) -> u64 { hash32(d, mix(w as u64) ^ h as u64) }
fn pipeline(i: &RawImage, kind: &str, mw: usize, mh: usize) -> (String, u64, String) {
  match kind {
    "rgb" => { let o = match i.to_rgb(mw, mh) { Ok(o) => o, Err(e) => return ("err".into(), hash(e.as_bytes(), 7), e) }; ("ok".into(), rgb_digest(o.width, o.height, &o.data), format!("{}x{} len {}{}", o.width, o.height, o.data.len(), if o.data.len() == o.width * o.height * 3 { "" } else { " MALFORMED" })) }
    "lin" => { let o = match i.to_linear_rgb(mw, mh) { Ok(o) => o, Err(e) => return ("err".into(), hash(e.as_bytes(), 7), e) }; ("ok".into(), rgb_digest(o.width, o.height, &o.data), format!("{}x{} len {}{}", o.width, o.height, o.data.len(), if o.data.len() == o.width * o.height * 3 { "" } else { " MALFORMED" })) }
    "srgb" => { let o = match i.to_srgb(mw, mh) { Ok(o) => o, Err(e) => return ("err".into(), hash(e.as_bytes(), 7), e) }; ("ok".into(), hash(&o.data, mix(o.width as u64) ^ o.height as u64), format!("{}x{} len {}{}", o.width, o.height, o.data.len(), if o.data.len() == o.width * o.height * 3 { "" } else { " MALFORMED" })) }
    "ppm" => {
      // what the command line tool has to write
      if i.width * i.height == 0 { return ("empty".into(), 0, "".into()) }
      let o = match i.to_rgb(mw, mh) { Ok(o) => o, Err(e) => return ("err".into(), hash(e.as_bytes(), 7), e) };
      let mut b = format!("P6 {} {} {}\n", o.width, o.height, 255).into_bytes();
      for p in o.data.iter() { b.push(((p.max(0.0) * 255.0).min(255.0)) as u8) }
      ("ok".into(), hash(&b, 0), format!("{} bytes", b.len()))
    }
    _ => panic!("pipeline {}", kind),
  }
}
fn differ(i: &RawImage, m: &Meta) -> Option<String> {
  let names = [("make", &i.make, &m.make), ("model", &i.model, &m.model), ("clean make", &i.clean_make, &m.clean.0), ("clean model", &i.clean_model, &m.clean.1)];
  for (k, a, b) in names { if a != b { return Some(format!("{} is {:?} and should be {:?}", k, a, b)) } }
  let near = |a: f32, b: f32| a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-4 * b.abs();
  if (0..4).any(|k| !near(i.wb_coeffs[k], m.wb[k])) { return Some(format!("white balance is {:?} and should be {:?}", i.wb_coeffs, m.wb)) }
  if i.whitelevels[..3] != m.white || (m.white == [m.white[0]; 3] && i.whitelevels[3] != m.white[0]) { return Some(format!("white levels are {:?} and should be {:?}", i.whitelevels, m.white)) }
  if let Some((lo, hi)) = m.black { for k in 0..4 { let b = i.blacklevels[k] as f64; if b < lo[k] - 1.01 || b > hi[k] + 1.01 { return Some(format!("black levels are {:?} and should be {:?}..{:?}", i.blacklevels, lo, hi)) } } }
  if i.xyz_to_cam.iter().flatten().zip(m.matrix.iter().flatten()).any(|(a, b)| !near(*a, *b)) { return Some(format!("colour matrix is {:?} and should be {:?}", i.xyz_to_cam, m.matrix)) }
  if i.cfa.is_valid() == m.pattern.is_empty() { return Some(format!("colour pattern is {:?} and should be {:?}", i.cfa, m.pattern)) }
  if !m.pattern.is_empty() { for y in 0..24 { for x in 0..24 { if i.cfa.color_at(y, x) != crate::db::color(&m.pattern, y + 144 - m.at.0, x + 144 - m.at.1) { return Some(format!("the colour at row {} column {} is {} in {:?} starting at {:?}", y, x, i.cfa.color_at(y, x), m.pattern, m.at)) } } } }
  if i.crops != m.crops { return Some(format!("crops are {:?} and should be {:?}", i.crops, m.crops)) }
  if format!("{:?}", i.orientation) != m.ori { return Some(format!("orientation is {:?} and should be {}", i.orientation, m.ori)) }
  None
}
fn ctl_counter(c: *mut Ctl, name: &str) -> u64 { unsafe { (*c).counters[counter(name)] } }

fn exec_op(env: &Env, op: &str) -> (String, u64, String) {
  let f: Vec<&str> = op.split(':').collect();
  let n = |i: usize| f.get(i).map(|x| x.parse::<usize>().unwrap()).unwrap_or(0);
  let reader = |fi: usize, mode: &str, arg: usize| SimReader { d: env.bytes[fi].clone(), pos: 0, r: Rng::new(arg as u64), mode: mode.into(), arg, hit: false };
  let own = || -> RawLoader { RawLoader::new() };
  let with = |g: &mut dyn FnMut(&RawLoader) -> Result<RawImage, String>| -> Result<RawImage, String> { match env.loader { Some(l) => g(l), None => g(&own()) } };
  match f[0] {
    "path" => show(rawloader::decode(&env.paths[n(1)])),
    "safe" => show(with(&mut |l| l.decode_safe(&env.paths[n(1)]))),
    "missing" => show(rawloader::decode(&format!("{}/nosuchfile", env.dir))),
    // what other programs do to the files meanwhile: new content under the same name, or gone
    "put" => (if std::fs::write(&env.paths[n(1)], &env.bytes[n(2)][..]).is_ok() { "env" } else { "failed" }.into(), 0, "".into()),
    "rm" => { std::fs::remove_file(&env.paths[n(1)]).ok(); ("env".into(), 0, "".into()) }
    "dirpath" => show(rawloader::decode(&env.dir)),
    "nulpath" => show(rawloader::decode(&format!("{}/nul\0file", env.dir))),
    // fault-free in the reference run: the mode is dropped there by the oracle
    "reader" => show(with(&mut |l| l.decode(&mut reader(n(1), f.get(2).unwrap_or(&"full"), n(3))))),
    "dec" => {
      // one buffer, one decoder, asked several times
      match env.loader {
        Some(l) => {
          let b = Buffer::new(&mut reader(n(1), "full", 0));
          match b {
            Err(e) => ("err".into(), hash(e.as_bytes(), 7), e),
            Ok(b) => match l.get_decoder(&b) {
              Err(e) => ("err".into(), hash(e.as_bytes(), 7), e),
              Ok(d) => {
                let first = show(d.image());
                for _ in 1..n(2).max(1) { let again = show(d.image()); if again != first { return ("unstable".into(), 0, format!("{} then {}", first.2, again.2)) } }
                let d2 = l.get_decoder(&b).map(|d| show(d.image()));
                if d2.as_ref().ok() != Some(&first) { return ("unstable".into(), 1, format!("{} then {:?}", first.2, d2)) }
                first
              }
            },
          }
        }
        None => show(with(&mut |l| l.decode(&mut reader(n(1), "full", 0)))),
      }
    }
    "ldr" => { let d = env.bytes[n(1)].clone(); match env.more.get(n(2)) { Some(l) => show(l.decode(&mut &d[..])), None => show(own().decode(&mut &d[..])) } }
    "newloader" => show(own().decode(&mut reader(n(1), "full", 0))),
    "rgb" | "srgb" | "lin" | "ppm" => match with(&mut |l| l.decode(&mut reader(n(1), "full", 0))) {
      Ok(i) => pipeline(&i, f[0], n(2), n(3)),
      Err(e) => ("err".into(), hash(e.as_bytes(), 7), e),
    },
    "shrgb" | "shsrgb" | "shlin" => match &env.shared { Some(i) => pipeline(i, &f[0][2..], n(1), n(2)), None => ("err".into(), 0, "shared image does not decode".into()) },
    "shclone" => match &env.shared { Some(i) => show(Ok(i.clone())), None => ("err".into(), 0, "no shared".into()) },
    // from inside the worker pool: k decodes of the same file as pool tasks
    "nest" => {
      fn go(env: &Env, fi: usize, k: usize) -> Vec<(String, u64, String)> {
        if k <= 1 { return vec![exec_op(env, &format!("path:{}", fi))] }
        let (mut a, b) = rayon::join(|| go(env, fi, k / 2), || go(env, fi, k - k / 2));
        a.extend(b); a
      }
      let v = go(env, n(1), n(2).max(1));
      for x in &v { if *x != v[0] { return ("unstable".into(), 0, format!("{} vs {}", v[0].2, x.2)) } }
      v[0].clone()
    }
    "nestsh" => {
      let Some(i) = &env.shared else { return ("err".into(), 0, "shared image does not decode".into()) };
      fn go(i: &RawImage, w: usize, h: usize, k: usize) -> Vec<(String, u64, String)> {
        if k <= 1 { return vec![pipeline(i, "srgb", w, h)] }
        let (mut a, b) = rayon::join(|| go(i, w, h, k / 2), || go(i, w, h, k - k / 2));
        a.extend(b); a
      }
      let v = go(i, n(1), n(2), n(3).max(2));
      for x in &v { if *x != v[0] { return ("unstable".into(), 0, format!("{} vs {}", v[0].2, x.2)) } }
      v[0].clone()
    }
    "pool" => {
      let p = rayon::ThreadPool::new(rayon::Configuration::new().num_threads(n(2).max(1))).unwrap();
      let o = format!("{}:{}", f[3], n(1));
      let r = p.install(|| exec_op(env, &o));
      drop(p);
      r
    }
    // the samples that come out against the samples that are stored
    "raw" => {
      let Some(e) = &env.exp[n(1)] else { return ("unknown".into(), 0, "".into()) };
      let how = f.get(2).cloned().unwrap_or("path");
      if how == "nest" {
        let (a, b) = rayon::join(|| exec_op(env, &format!("raw:{}:path", n(1))), || exec_op(env, &format!("raw:{}:reader", n(1))));
        return if a.0 != "same" { a } else { b };
      }
      let img = match how { "path" => rawloader::decode(&env.paths[n(1)]), "safe" => with(&mut |l| l.decode_safe(&env.paths[n(1)])), "short" | "one" => with(&mut |l| l.decode(&mut reader(n(1), how, n(3)))), _ => with(&mut |l| l.decode(&mut reader(n(1), "full", 0))) };
      match img {
        Err(e) => ("err".into(), 0, e),
        Ok(i) => {
          if (i.width, i.height, i.cpp) != (e.w, e.h, e.cpp) || i.data.len() != e.lo.len() { return ("wrong".into(), 0, format!("{}x{}x{} with {} samples, stored are {}x{}x{}", i.width, i.height, i.cpp, i.data.len(), e.w, e.h, e.cpp)) }
          let bad = |k: usize| i.data[k] < e.lo[k] || i.data[k] > e.hi[k];
          match (0..e.lo.len()).find(|k| bad(*k)) {
            None => ("same".into(), 0, "".into()),
            Some(k) => { let all = (0..e.lo.len()).filter(|k| bad(*k)).count(); ("wrong".into(), 1, format!("row {} column {} component {}: {} came out, {}..{} is stored ({} of {} samples are wrong)", k / (e.w * e.cpp), k / e.cpp % e.w, k % e.cpp, i.data[k], e.lo[k], e.hi[k], all, e.lo.len())) }
          }
        }
      }
    }
    // what the picture says about itself against what the file and the camera database say
    "meta" => {
      let Some(m) = &env.meta[n(1)] else { return ("unknown".into(), 0, "".into()) };
      let how = f.get(2).cloned().unwrap_or("path");
      let img = match how { "path" => rawloader::decode(&env.paths[n(1)]), "safe" => with(&mut |l| l.decode_safe(&env.paths[n(1)])), "ldr" => env.more[n(3)].decode(&mut reader(n(1), "full", 0)), "short" | "one" => with(&mut |l| l.decode(&mut reader(n(1), how, n(3)))), _ => with(&mut |l| l.decode(&mut reader(n(1), "full", 0))) };
      match (img, m) {
        (Err(e), None) => ("refused".into(), 0, e),
        (Err(e), _) => ("err".into(), 0, e),
        (Ok(i), None) => ("wrong".into(), 0, format!("{} {} is not known, but there is a picture of {}x{} from a {} {}", "the camera", "or its mode", i.width, i.height, i.clean_make, i.clean_model)),
        (Ok(i), Some(m)) => match differ(&i, m) { None => ("same".into(), 0, "".into()), Some(d) => ("wrong".into(), 1, d) },
      }
    }
    // the developed picture against the model of the development
    "dev" => match catch_unwind(AssertUnwindSafe(|| if n(5) % 2 == 0 { rawloader::decode(&env.paths[n(1)]) } else { with(&mut |l| l.decode(&mut reader(n(1), "full", 0))) })).unwrap_or_else(|_| Err("panic".into())) {
      Err(e) => ("err".into(), 0, e),
      Ok(mut i) => {
        crate::look::tweak(&mut i, n(5) as u64);
        if i.width <= i.crops[1] + i.crops[3] || i.height <= i.crops[0] + i.crops[2] { return ("unknown".into(), 0, "".into()) }
        let one = |kind: &str, mw: usize, mh: usize| -> (String, u64, String) {
          let (size, data): ((usize, usize), Vec<f64>) = match kind {
            "rgb" => { let o = i.to_rgb(mw, mh).unwrap(); ((o.width, o.height), o.data.iter().map(|x| *x as f64).collect()) }
            "lin" => { let o = i.to_linear_rgb(mw, mh).unwrap(); ((o.width, o.height), o.data.iter().map(|x| *x as f64).collect()) }
            _ => { let o = i.to_srgb(mw, mh).unwrap(); ((o.width, o.height), o.data.iter().map(|x| *x as f64).collect()) }
          };
          match crate::look::compare(&i, kind, mw, mh, size, &data) { Ok(true) => ("same".into(), 0, "".into()), Ok(false) => ("unknown".into(), 0, "".into()), Err(d) => ("wrong".into(), 0, format!("{}x{}x{} crops {:?} {:?} {:?}: {}", i.width, i.height, i.cpp, i.crops, i.orientation, i.cfa, d)) }
        };
        // one picture, developed twice at once
        if n(5) % 8 == 3 { let (a, b) = rayon::join(|| one(f[2], n(3), n(4)), || one("srgb", n(4), n(3))); return if a.0 == "wrong" { a } else { b } }
        one(f[2], n(3), n(4))
      }
    },
    // whatever image a decode gives has to go through: a whole picture within the maximum, or an error
    "usable" => match catch_unwind(AssertUnwindSafe(|| with(&mut |l| l.decode(&mut reader(n(1), "full", 0))))).unwrap_or_else(|_| Err("panic".into())) {
      Err(e) => ("err".into(), 0, e),
      Ok(i) => {
        if i.data.len() > 3_000_000 { return ("large".into(), 0, format!("{}x{}x{}", i.width, i.height, i.cpp)) }
        let (mw, mh) = (n(3), n(4));
        let about = format!("{} {} {}x{}x{} crops {:?} {:?} {:?} within {}x{}", i.make, i.model, i.width, i.height, i.cpp, i.crops, i.orientation, i.cfa, mw, mh);
        let done: Result<Result<(usize, usize, usize), String>, _> = catch_unwind(AssertUnwindSafe(|| match f[2] {
          "rgb" => i.to_rgb(mw, mh).map(|o| (o.width, o.height, o.data.len())),
          "lin" => i.to_linear_rgb(mw, mh).map(|o| (o.width, o.height, o.data.len())),
          _ => i.to_srgb(mw, mh).map(|o| (o.width, o.height, o.data.len())),
        }));
        match done {
          Err(_) => ("panic".into(), 0, about),
          Ok(Err(e)) => ("refused".into(), 0, format!("{}: {}", about, e)),
          Ok(Ok((w, h, len))) => {
            if w == 0 || h == 0 || len != w * h * 3 { return ("incomplete".into(), 0, format!("{}x{} with {} values: {}", w, h, len, about)) }
            if mw > 0 && mh > 0 && (w > mw || h > mh) { return ("oversize".into(), 0, format!("{}x{}: {}", w, h, about)) }
            ("ok".into(), 0, format!("{}x{}: {}", w, h, about))
          }
        }
      }
    },
    // image of a file whose tail was lost against the image of the same file with the tail read as zeros
    "truncz" => {
      let full = env.bytes[n(1)].clone();
      let cut = n(2).min(full.len());
      let a: Vec<u8> = full[..cut].to_vec();
      let mut z = a.clone(); z.resize(full.len(), 0);
      let l = env.loader.expect("truncz needs the warm loader");
      let ra = catch_unwind(AssertUnwindSafe(|| l.decode(&mut &a[..])));
      let rz = catch_unwind(AssertUnwindSafe(|| l.decode(&mut &z[..])));
      match (ra, rz) {
        (Ok(Ok(x)), Ok(Ok(y))) => if digest(&x) == digest(&y) { ("same".into(), 0, "".into()) } else {
          let diff = x.data.iter().zip(y.data.iter()).position(|(p, q)| p != q);
          ("invented".into(), 0, format!("{}x{} vs {}x{}, first differing sample {:?}", x.width, x.height, y.width, y.height, diff)) },
        (Ok(Ok(x)), _) => ("invented".into(), 1, format!("decodes to {}x{} although the zero-filled file does not decode", x.width, x.height)),
        (_, Ok(Ok(_))) => ("err".into(), 0, "".into()),
        _ => ("err".into(), 1, "".into()),
      }
    }
    x => panic!("unknown operation {}", x),
  }
}

fn run_ops(env: &Env, who: &str, ops: &[String], ctl: usize) {
  let ctl = ctl as *mut Ctl;
  for (i, op) in ops.iter().enumerate() {
    let (s0, r0, o0) = (unsafe { sim_steps() }, ctl_counter(ctl, "read_errors"), ctl_counter(ctl, "open_errors"));
    let r = catch_unwind(AssertUnwindSafe(|| exec_op(env, op)));
    let (class, dg, info) = match r {
      Ok(x) => x,
      Err(p) => { let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); ("panic".into(), 0, m) }
    };
    let c = unsafe { &*ctl };
    // written down outside the simulated memory
    let line = OpRes { caller: who.into(), idx: i, class, digest: dg, steps: unsafe { sim_steps() } - s0, rderr: ctl_counter(ctl, "read_errors") - r0,
      operr: ctl_counter(ctl, "open_errors") - o0, live: unsafe { sim_live_bytes() }, fds: c.open_fds as u64, threads: c.live_threads as u64, info }.text();
    emit(&line);
  }
}
fn emit(s: &str) { unsafe { sim_res(s.as_ptr(), s.len() as u64) } }

#[derive(Clone)]
pub struct RefRes { pub res: Option<OpRes>, pub why: String, pub steps: u64, pub rare: Arc<Vec<(u32, u32)>> }

pub const LOADERS: usize = 4;
pub struct Engine {
  pub sh: Shared,
  pub dir: String,
  pub bindir: String,
  pub warm: bool,
  pub loader: Option<&'static RawLoader>,
  pub more: Vec<&'static RawLoader>,
  pub pseed: u64,
  refs: RefCell<HashMap<String, RefRes>>,
  bytes: RefCell<HashMap<String, Arc<Vec<u8>>>>,
  exps: RefCell<HashMap<String, Option<Arc<Exp>>>>,
  pub cov: RefCell<Vec<u8>>,
  pub nruns: std::cell::Cell<u64>, pub fresh: std::cell::Cell<u32>,
  pub wall_limit: u32,
}

impl Engine {
  pub fn new(dir: &str, bindir: &str, pseed: u64) -> Engine {
    unsafe { sim_share_edges(); sim_parent_seed(pseed); }
    let n = unsafe { sim_n_guards() } as usize + 1;
    Engine { sh: Shared::new(), dir: dir.into(), bindir: bindir.into(), warm: false, loader: None, more: vec![], pseed, refs: Default::default(), bytes: Default::default(), exps: Default::default(), cov: RefCell::new(vec![0; n]), nruns: Default::default(), fresh: Default::default(), wall_limit: 60 }
  }
  /// build the process-wide loader (and a second one of our own) before forking
  pub fn make_warm(&mut self) {
    self.refs.borrow_mut().clear();
    let p = format!("{}/nosuchfile", self.dir);
    // in a thread of its own and with the randomness rewound, so that the hash keys do not depend on what this process did before
    unsafe { sim_parent_seed(self.pseed) }
    let l = std::thread::spawn(move || {
      unsafe { sim_arena_begin() }
      let _ = rawloader::decode(&p);
      // each with hash keys of its own
      let l: Vec<&'static RawLoader> = (0..LOADERS).map(|_| &*Box::leak(Box::new(RawLoader::new()))).collect();
      unsafe { sim_arena_end() }
      l
    }).join().expect("loader");
    self.loader = Some(l[0]);
    self.more = l;
    self.warm = true;
  }
  pub fn file_bytes(&self, f: &FileSpec) -> Arc<Vec<u8>> {
    let k = f.text();
    if let Some(b) = self.bytes.borrow().get(&k) { return b.clone() }
    let b = Arc::new(f.bytes());
    let mut m = self.bytes.borrow_mut();
    if m.len() > 400 { m.clear() }
    m.insert(k, b.clone());
    b
  }
  pub fn expected(&self, f: &FileSpec) -> Option<Arc<Exp>> {
    let k = f.text();
    if let Some(b) = self.exps.borrow().get(&k) { return b.clone() }
    let b = model::expect(f).map(Arc::new);
    let mut m = self.exps.borrow_mut();
    if m.len() > 60 { m.clear() }
    m.insert(k, b.clone());
    b
  }
  pub fn meta(&self, f: &FileSpec) -> Option<Option<Meta>> { model::expect_meta(f) }
  pub fn reference(&self, sc: &Scenario, op: &str) -> RefRes {
    // the delivery mode of a reader is a fault, not part of the operation
    let op = if op.starts_with("ldr:") { format!("reader:{}", op.split(':').nth(1).unwrap()) } else if op.starts_with("reader:") { op.split(':').take(2).collect::<Vec<_>>().join(":") } else if op.starts_with("pool:") { let f: Vec<&str> = op.split(':').collect(); format!("{}:{}", f[3], f[1]) }
      else if op.starts_with("meta:") { format!("meta:{}:reader", op.split(':').nth(1).unwrap()) } else if op.starts_with("raw:") { format!("raw:{}:reader", op.split(':').nth(1).unwrap()) } else if op.starts_with("nest:") { format!("path:{}", op.split(':').nth(1).unwrap()) } else if op.starts_with("nestsh:") { { let f: Vec<&str> = op.split(':').collect(); format!("shsrgb:{}:{}", f[1], f[2]) } } else { op.to_string() };
    let s = sc.solo(&op);
    let key = s.text();
    if let Some(r) = self.refs.borrow().get(&key) { return r.clone() }
    unsafe { std::ptr::write_bytes(sim_edge_hits(), 0, sim_n_guards() as usize + 1) }
    let o = self.run(&s, None);
    let mut rare = vec![];
    unsafe { let h = sim_edge_hits(); for i in 1..=sim_n_guards() { let v = *h.add(i as usize); if v > 0 && v <= 64 { rare.push((i, v)) } } }
    let res = if o.finished() { o.ops.first().cloned() } else { None };
    let r = RefRes { res, why: o.brief(), steps: o.steps, rare: Arc::new(rare) };
    let mut m = self.refs.borrow_mut();
    if m.len() > 600 { m.clear() }
    m.insert(key, r.clone());
    r
  }
  pub fn clear_flags(&self) { unsafe { std::ptr::write_bytes(sim_edge_flags(), 0, sim_n_guards() as usize + 1) } }
  pub fn flag_rare(&self, r: &RefRes, max: u64) {
    unsafe {
      let f = sim_edge_flags();
      for (e, n) in r.rare.iter() { if *n as u64 <= max { *f.add(*e as usize) = 1 } }
    }
  }
  pub fn decisions(&self) -> Vec<Dec> { let c = self.sh.get(); c.dec[..c.ndec as usize].to_vec() }

  pub fn run(&self, sc: &Scenario, script: Option<&[Dec]>) -> Outcome {
    self.nruns.set(self.nruns.get() + 1);
    assert!(sc.bin != "lib" || sc.cold != self.warm, "scenario wants cold={} in a warm={} process", sc.cold, self.warm);
    let rec = sc.prop != "REF";
    if rec { unsafe { std::ptr::write_bytes(sim_edge_hits(), 0, sim_n_guards() as usize + 1) } }
    let c = self.sh.get();
    sc.cfg.apply(c);
    c.res_len = 0; c.out_len = 0; c.err_len = 0; c.verdict = 0; c.msg[0] = 0; c.ndec = 0; c.steps = 0; c.counters = [0; C_N]; c.dec_overflow = 0;
    c.prefix = [0; 64];
    let p = format!("{}/", self.dir);
    c.prefix[..p.len()].copy_from_slice(p.as_bytes());
    if let Some(s) = script {
      c.mode = 1;
      // schedule decisions first, each group ordered by key
      let mut v = s.to_vec();
      v.sort_by_key(|d| (d.typ > D_WAKE, d.key, d.typ));
      c.nscript = v.len() as u32;
      c.script[..v.len()].copy_from_slice(&v);
    }
    if !(script.is_none() && sc.cfg.get("strat") as u32 == ST_RARE) { unsafe { std::ptr::write_bytes(sim_edge_flags(), 0, sim_n_guards() as usize + 1) } }
    let bytes: Vec<Arc<Vec<u8>>> = sc.files.iter().map(|f| self.file_bytes(f)).collect();
    let mut paths = vec![];
    if sc.bin != "lib" { for e in std::fs::read_dir(&self.dir).expect("scratch").flatten() { let _ = std::fs::remove_file(e.path()); } }
    let need_paths = sc.bin != "lib" || sc.callers.iter().flatten().chain(sc.post.iter()).any(|o| o.starts_with("path") || o.starts_with("safe") || o.starts_with("nest:") || o.starts_with("pool") || o.starts_with("raw") || o.starts_with("meta") || o.starts_with("dev"));
    for (i, b) in bytes.iter().enumerate() {
      let p = format!("{}/f{:02}.raw", self.dir, i);
      if need_paths { std::fs::write(&p, &b[..]).expect("scratch file"); }
      paths.push(p);
    }
    if sc.bin != "lib" {
      // nothing of an earlier run; an output file only where the scenario has one
      if let Some(p) = sc.callers[0].iter().find(|a| a.starts_with("pre:")) {
        let f: Vec<u64> = p.split(':').skip(1).map(|x| x.parse().unwrap()).collect();
        std::fs::write(self.outfile(sc), &fill(f[0] as usize, f[1])[..]).expect("scratch file");
      }
    }
    let meta = if sc.callers.iter().flatten().chain(sc.post.iter()).any(|o| o.starts_with("meta:")) { sc.files.iter().map(|f| self.meta(f)).collect() } else { vec![] };
    let exp = if sc.callers.iter().flatten().chain(sc.post.iter()).any(|o| o.starts_with("raw:")) { sc.files.iter().map(|f| self.expected(f)).collect() } else { vec![] };
    let mut env = Env { meta, exp, bytes, paths, dir: self.dir.clone(), shared: None, loader: self.loader, more: self.more.clone() };
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
      unsafe {
        alarm(self.wall_limit);
        setrlimit(4, &[0, 0]);
        prctl(1, 9, 0, 0, 0);
      }
      set_env("RAYON_NUM_THREADS", &sc.workers.to_string());
      if sc.bin != "lib" { self.exec_bin(sc, &env); }
      // the simulation proper
      let ctl = self.sh.ctl as usize;
      unsafe { sim_begin(ctl as *mut Ctl) }
      // every caller has a thread of its own: its hash keys then come from the simulated randomness
      if let Some(f) = sc.shared {
        let (l, b) = (env.loader, &env.bytes[f]);
        env.shared = std::thread::scope(|s| s.spawn(move || catch_unwind(AssertUnwindSafe(|| match l { Some(l) => l.decode(&mut &b[..]), None => RawLoader::new().decode(&mut &b[..]) })).ok().and_then(|x| x.ok())).join().unwrap());
      }
      let env = &env;
      std::thread::scope(|s| {
        let hs: Vec<_> = sc.callers.iter().enumerate().map(|(i, ops)| s.spawn(move || run_ops(env, &i.to_string(), ops, ctl))).collect();
        for h in hs { h.join().unwrap() }
        if !sc.post.is_empty() { s.spawn(move || run_ops(env, "post", &sc.post, ctl)).join().unwrap() }
      });
      unsafe { sim_end(); _exit(0) }
    }
    let mut st = 0;
    loop { let r = unsafe { waitpid(pid, &mut st, 0) }; if r == pid { break } }
    self.fresh.set(0);
    if rec {
      // hit counts in powers of two, as a measure of what is new about this run
      let mut cov = self.cov.borrow_mut();
      let mut fresh = 0;
      unsafe { let h = sim_edge_hits(); for i in 0..cov.len() { let n = *h.add(i); if n != 0 { let b = 1u8 << (31 - n.leading_zeros()).min(7); if cov[i] & b == 0 { cov[i] |= b; fresh += 1 } } } }
      self.fresh.set(fresh);
    }
    let (exit, signal) = if st & 0x7f == 0 { (st >> 8 & 0xff, 0) } else { (-1, st & 0x7f) };
    let s = |b: &[u8], n: u64| String::from_utf8_lossy(&b[..(n as usize).min(b.len())]).to_string();
    let msg = { let n = c.msg.iter().position(|x| *x == 0).unwrap_or(0); s(&c.msg, n as u64) };
    let res = s(&c.res_buf, c.res_len);
    Outcome { exit, signal, timeout: signal == 14, verdict: c.verdict, msg, ops: res.lines().filter_map(OpRes::parse).collect(), steps: c.steps, switches: c.switches,
      trace: c.trace_hash, sched: c.sched_hash, sim_ns: c.now_ns.saturating_sub(1_000_000_000_000), nthreads: c.nthreads, counters: c.counters, ndec: c.ndec, dec_overflow: c.dec_overflow != 0,
      out: s(&c.out_buf, c.out_len), err: s(&c.err_buf, c.err_len), out_len: c.out_len, clk: (c.clk_first, c.clk_prev, c.clk_last), clk_steps: c.clk_last_steps.saturating_sub(c.clk_prev_steps), clk_work: c.clk_last_steps.saturating_sub(c.clk_first_steps), peak: c.peak_bytes, refused: c.refused_request,
      max_req: c.max_request, open_fds: c.open_fds, live_threads: c.live_threads }
  }
  /// where the converter is to write
  pub fn outfile(&self, sc: &Scenario) -> String { if sc.callers[0].iter().any(|a| a == "out") { format!("{}/out.ppm", self.dir) } else { format!("{}/f00.raw.ppm", self.dir) } }
  /// in the child: become one of the shipped programs
  fn exec_bin(&self, sc: &Scenario, env: &Env) -> ! {
    let prog = format!("{}/{}", self.bindir, if sc.bin == "cli" { "rl_cli" } else { "rl_bench" });
    let mut args = vec![prog.clone()];
    for a in &sc.callers[0] {
      let f: Vec<&str> = a.split(':').collect();
      match f[0] { "in" => args.push(env.paths[f[1].parse::<usize>().unwrap()].clone()), "out" => args.push(format!("{}/out.ppm", self.dir)), "badout" => args.push(format!("{}/nodir/out.ppm", self.dir)),
        "missing" => args.push(format!("{}/nosuchfile", self.dir)), _ => {} }
    }
    set_env("SIMRT_FD", &self.sh.fd.to_string());
    let cs: Vec<CString> = args.iter().map(|a| CString::new(a.as_str()).unwrap()).collect();
    let mut ps: Vec<*const i8> = cs.iter().map(|a| a.as_ptr() as *const i8).collect();
    ps.push(std::ptr::null());
    unsafe { execv(ps[0], ps.as_ptr()); _exit(98) }
  }
}
