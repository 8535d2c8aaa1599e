//! Builders for synthetic raw files in every container and packing rawloader reads, and the damage that storage does to them.
use crate::enc;
use crate::rt::*;

pub const FORMATS: &[&str] = &[
  "dng16", "dng12", "dng10", "dng8", "dngrgb", "dngljs", "dngljt", "mrw", "mrwp", "arw16", "arw12", "arw2", "arw1", "r1",
  "orfle", "orfbe", "orfwc", "orfil", "orf32", "orfc", "mef", "erf", "rw2split", "rw2", "rw2u", "rw2wc", "raf16", "raf14", "raf12",
  "rafjpeg32", "rafdw", "rafrot", "rafrotalt", "kdc", "dcs", "dcr", "nrwsplit", "nrw32", "nrw", "tfr", "iiq", "moscmp", "mos16", "moslj",
  "nef12", "nef14", "nefd100", "snef", "nefc", "cr2", "cr2stripe", "sraw", "sraw420", "cr2lin", "pef16", "pef12", "pefc", "srw12u", "srw12le", "srw12be",
  "srw1", "srw2", "srw3", "ari", "crw", "nkd10", "nkdal", "nkd12", "crw70", "srf", "x3f", "junk", "a100",
];
/// formats whose size is fixed and large: picked rarely
pub const BIG: &[&str] = &["nkd10", "nkd12", "nkdal", "crw70", "srf", "a100"];
/// formats whose rows (or strips, tiles) are decoded by the worker pool
pub const PAR: &[&str] = &[
  "dng16", "dng12", "dng10", "dng8", "dngrgb", "dngljt", "mrw", "mrwp", "arw16", "arw12", "arw2", "r1", "orfle", "orfbe", "orfwc", "orfil",
  "orf32", "mef", "erf", "rw2split", "rw2", "rw2u", "rw2wc", "raf16", "raf14", "raf12", "rafjpeg32", "rafdw", "rafrot", "rafrotalt", "kdc", "dcs", "nrwsplit",
  "nrw32", "nrw", "iiq", "mos16", "moslj", "moscmp", "nef12", "nef14", "nefd100", "snef", "pef16", "pef12", "srw12u", "srw12le", "srw12be", "ari",
];

const NOTES: &[&[u8]] = &[b"PENTAX \0II", b"PENTAX \0MM", b"AOC\0II", b"AOC\0MM", b"AOC\0", b"Nikon\0\x02\0\0\0II", b"Nikon\0\x02\0\0\0MM", b"OLYMP\0\x01\0", b"OLYMPUS\0II\x03\0", b"EPSON\0\x01\0", b"II", b"MM"];
#[derive(Clone, Debug, PartialEq)]
pub enum Damage {
  Trunc(usize),               // lost tail
  Flip(usize, u32),           // one flipped bit
  Zero(usize, usize),         // lost (zeroed) block
  Copy(usize, usize, usize),  // misdirected write: dst, src, len
  Rand(usize, usize, u64),    // block of garbage
  Set16(usize, u32, u32),     // value, big-endian flag
  Set32(usize, u32, u32),
  Extend(usize, u64),         // trailing garbage
  Ins(usize, u32, usize),     // bytes that do not belong there: position, value, how many
  Text(usize, usize),         // a makernote header
}
impl Damage {
  pub fn text(&self) -> String {
    match self {
      Damage::Trunc(n) => format!("trunc:{}", n),
      Damage::Flip(p, b) => format!("flip:{}:{}", p, b),
      Damage::Zero(p, n) => format!("zero:{}:{}", p, n),
      Damage::Copy(d, s, n) => format!("copy:{}:{}:{}", d, s, n),
      Damage::Rand(p, n, s) => format!("rand:{}:{}:{}", p, n, s),
      Damage::Set16(p, v, b) => format!("set16:{}:{}:{}", p, v, b),
      Damage::Set32(p, v, b) => format!("set32:{}:{}:{}", p, v, b),
      Damage::Extend(n, s) => format!("extend:{}:{}", n, s),
      Damage::Ins(p, v, n) => format!("ins:{}:{}:{}", p, v, n),
      Damage::Text(p, k) => format!("text:{}:{}", p, k),
    }
  }
  pub fn parse(t: &str) -> Damage {
    let f: Vec<&str> = t.split(':').collect();
    let n = |i: usize| f[i].parse::<u64>().unwrap();
    match f[0] {
      "trunc" => Damage::Trunc(n(1) as usize),
      "flip" => Damage::Flip(n(1) as usize, n(2) as u32),
      "zero" => Damage::Zero(n(1) as usize, n(2) as usize),
      "copy" => Damage::Copy(n(1) as usize, n(2) as usize, n(3) as usize),
      "rand" => Damage::Rand(n(1) as usize, n(2) as usize, n(3)),
      "set16" => Damage::Set16(n(1) as usize, n(2) as u32, n(3) as u32),
      "set32" => Damage::Set32(n(1) as usize, n(2) as u32, n(3) as u32),
      "extend" => Damage::Extend(n(1) as usize, n(2)),
      "ins" => Damage::Ins(n(1) as usize, n(2) as u32, n(3) as usize),
      "text" => Damage::Text(n(1) as usize, n(2) as usize),
      x => panic!("damage {}", x),
    }
  }
  fn apply(&self, b: &mut Vec<u8>) {
    let l = b.len();
    match *self {
      Damage::Trunc(n) => b.truncate(n),
      Damage::Flip(p, k) => if p < l { b[p] ^= 1 << (k & 7) },
      Damage::Zero(p, n) => for i in p..(p + n).min(l) { b[i] = 0 },
      Damage::Copy(d, s, n) => { if s < l { let t: Vec<u8> = b[s..(s + n).min(l)].to_vec(); for (i, v) in t.iter().enumerate() { if d + i < l { b[d + i] = *v } } } }
      Damage::Rand(p, n, s) => { let r = fill(n, s); for i in 0..n { if p + i < l { b[p + i] = r[i] } } }
      Damage::Set16(p, v, be) => if p + 2 <= l { let x = if be != 0 { (v as u16).to_be_bytes() } else { (v as u16).to_le_bytes() }; b[p..p + 2].copy_from_slice(&x) },
      Damage::Set32(p, v, be) => if p + 4 <= l { let x = if be != 0 { v.to_be_bytes() } else { v.to_le_bytes() }; b[p..p + 4].copy_from_slice(&x) },
      Damage::Extend(n, s) => b.extend(fill(n, s)),
      Damage::Ins(p, v, n) => { let p = p.min(l); let t = b.split_off(p); b.resize(p + n, v as u8); b.extend(t) }
      Damage::Text(p, k) => { let t = NOTES[k % NOTES.len()]; if p + t.len() <= l { b[p..p + t.len()].copy_from_slice(t) } }
    }
  }
}

#[derive(Clone, Debug, PartialEq)]
pub struct FileSpec { pub fmt: String, pub w: usize, pub h: usize, pub var: u64, pub seed: u64, pub dmg: Vec<Damage> }
impl FileSpec {
  pub fn text(&self) -> String {
    let d: Vec<String> = self.dmg.iter().map(|d| d.text()).collect();
    format!("{} {} {} {} {} {}", self.fmt, self.w, self.h, self.var, self.seed, if d.is_empty() { "-".to_string() } else { d.join(";") })
  }
  pub fn parse(t: &str) -> FileSpec {
    let f: Vec<&str> = t.split_whitespace().collect();
    FileSpec {
      fmt: f[0].to_string(), w: f[1].parse().unwrap(), h: f[2].parse().unwrap(), var: f[3].parse().unwrap(), seed: f[4].parse().unwrap(),
      dmg: if f[5] == "-" { vec![] } else { f[5].split(';').map(Damage::parse).collect() },
    }
  }
  pub fn pristine(&self) -> Built { build(&self.fmt, self.w, self.h, self.var, self.seed) }
  pub fn bytes(&self) -> Vec<u8> {
    let mut b = self.pristine().b;
    for d in &self.dmg { d.apply(&mut b) }
    b
  }
  /// a spec for a well-formed file; `small` keeps the decoding cost low
  pub fn gen(r: &mut Rng, fmts: &[&str], small: bool) -> FileSpec {
    let mut fmt = *r.pick(fmts);
    if BIG.contains(&fmt) && !r.chance(1, 12) { fmt = *r.pick(&PAR[..]); if !fmts.contains(&fmt) { fmt = fmts[0]; } }
    let unit = 8;
    let (mw, mh) = if small { (8, 24) } else { *r.pick(&[(4u64, 8u64), (8, 24), (16, 48), (16, 160), (40, 40), (6, 400)]) };
    let mut w = (unit * r.range(1, mw)) as usize;
    let mut h = r.range(1, mh) as usize;
    if r.chance(3, 4) { h = (h + 1) & !1 }
    // sizes at which fields, strips and blocks end on round offsets
    if r.chance(1, 6) { let e = r.range(4, 9); w = 1 << e; h = 1 << (*r.pick(&[11, 12, 13, 13, 13, 14]) - e).min(8) }
    match fmt {
      "dcs" | "nrw" | "nrw32" | "nrwsplit" => { w = (1008 + 16 * r.below(4)) as usize; h = h.min(24) }
      "orf32" => { w = (3504 + 8 * r.below(4)) as usize; h = h.min(12) }
      "nefd100" => { w = 3040; h = h.min(12) }
      "arw2" | "srw1" | "srw3" => w = (w + 31) & !31,
      "rw2" | "rw2split" => { w = (w + 13) / 14 * 14; h = (h + 4) / 5 * 5; if r.chance(1, 3) { w = 14 * r.range(20, 60) as usize; h = h.max(40) } else if r.chance(1, 10) { w = 14 << r.range(4, 6); h = 5 * (1024 * 14 / w) + 5 * r.range(1, 2) as usize } }
      "rafrot" | "rafrotalt" => { w = w.max(72); h = h.max(72) }
      "rafdw" => { w = w.max(32); h = h.max(16) & !1 }
      "kdc" => {}
      "dcr" => if r.chance(1, 4) { w += 4; if r.chance(1, 2) { w += 256 } }
      "crw" => { w = if r.chance(1, 2) { (w + 63) & !63 } else { w.max(48) }; h = (h + 7) & !7; if r.chance(1, 8) { w = *r.pick(&[2432, 2672]); h = 8 } }
      _ => {}
    }
    if r.chance(1, 12) { w += r.below(8) as usize; }
    FileSpec { fmt: fmt.to_string(), w, h, var: r.next() >> 32, seed: r.next() >> 16, dmg: vec![] }
  }
  /// the same file from a camera nobody knows
  pub fn unsupported(&mut self) { let m = self.pristine().model; if m > 0 { self.dmg.push(Damage::Set16(m, 0x5a5a, 0)) } }
  /// the directories stay intact, but the samples break off or turn into something else midway
  pub fn break_data(&mut self, r: &mut Rng) {
    let built = self.pristine();
    let len = built.b.len();
    let from = built.data.min(len.saturating_sub(1));
    let at = from + r.below((len - from).max(1) as u64) as usize;
    self.dmg.push(match r.below(4) {
      0 | 1 => Damage::Trunc(at),
      2 => Damage::Rand(at, *r.pick(&[4usize, 64, 512, 1 << 16]), r.next() >> 20),
      _ => Damage::Zero(at, *r.pick(&[4usize, 64, 512, 1 << 16])),
    });
  }
  /// add 1..n damage operations, most of them at metadata the decoder acts on
  pub fn damage(&mut self, r: &mut Rng, max: u64) {
    let built = self.pristine();
    let len = built.b.len().max(1);
    let n = r.range(1, max);
    for _ in 0..n {
      let pos = |r: &mut Rng| -> usize {
        if r.chance(4, 5) && !built.hot.is_empty() { let (a, b) = *r.pick(&built.hot); a + r.below((b - a).max(1) as u64) as usize } else { r.below(len as u64) as usize }
      };
      let field = |r: &mut Rng| -> usize { if r.chance(3, 4) && !built.fields.is_empty() { *r.pick(&built.fields) } else { pos(r) & !1 } };
      const VALS: &[u32] = &[0, 1, 2, 3, 4, 5, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 255, 256, 999, 1001, 4095, 4096, 32767, 32768, 65535, 65536, 1 << 20, 1 << 24, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0xfffffff0];
      let be = if built.be { 1 } else { 0 };
      let be = if r.chance(1, 10) { 1 - be } else { be };
      // directories that lead to themselves or to each other
      if r.chance(1, 7) && (!built.dirs.is_empty() || self.fmt == "crw") {
        let n = *r.pick(&[1u64, 1, 2, 3, 6]);
        for _ in 0..n {
          if self.fmt == "crw" {
            let e = *r.pick(&built.entries) as usize;
            self.dmg.push(Damage::Set16(e, *r.pick(&[0x2807, 0x300a, 0x2804]), 0));
            self.dmg.push(Damage::Set32(e + 2, (len - 26) as u32, 0)); self.dmg.push(Damage::Set32(e + 6, *r.pick(&[0, 0, 0, 10]), 0));
            continue;
          }
          let (base, to) = *r.pick(&built.dirs);
          let to = (to - base) as u32;
          if r.chance(1, 4) { let mine: Vec<usize> = built.ptrs.iter().filter(|p| p.0 == base).map(|p| p.1).collect(); if !mine.is_empty() { self.dmg.push(Damage::Set32(*r.pick(&mine), to, be)) } continue }
          let mine: Vec<usize> = built.entries.iter().cloned().filter(|e| *e >= base).collect();
          if mine.is_empty() { continue }
          let e = *r.pick(&mine);
          let tag = *r.pick(&[0x14a, 0x14a, 0x8769, 0x927c, 0xf000, 0x8290, 0xfe00, 0xc634]);
          self.dmg.push(Damage::Set16(e, tag, be)); self.dmg.push(Damage::Set16(e + 2, if tag == 0x927c { 7 } else { 4 }, be));
          if tag == 0x927c {
            self.dmg.push(Damage::Set32(e + 4, *r.pick(&[5, 8, 60]), be));
            if r.chance(1, 2) { self.dmg.push(Damage::Set32(e + 8, to, be)) } else { let q = pos(r); self.dmg.push(Damage::Text(q, r.below(12) as usize)); self.dmg.push(Damage::Set32(e + 8, (q - base.min(q)) as u32, be)) }
          } else if r.chance(3, 4) { self.dmg.push(Damage::Set32(e + 4, 1, be)); self.dmg.push(Damage::Set32(e + 8, to, be)) }
          // many pointers: the entry's own value field and what follows it
          else { let k = r.range(2, 64) as u32; self.dmg.push(Damage::Set32(e + 4, k, be)); let q = if r.chance(1, 2) { e + 8 } else { pos(r) }; self.dmg.push(Damage::Set32(e + 8, (q - base.min(q)) as u32, be)); if q != e + 8 { for i in 0..k.min(4) as usize { self.dmg.push(Damage::Set32(q + 4 * i, to, be)) } } }
        }
        continue;
      }
      // the size of the picture, or where its samples are, a little or a lot other than it is
      if r.chance(1, 8) && (!built.entries.is_empty() || !built.marks.is_empty()) {
        let b = &built.b;
        let g16 = |p: usize| -> u32 { if p + 2 > b.len() { 0 } else if built.be { (b[p] as u32) << 8 | b[p + 1] as u32 } else { (b[p + 1] as u32) << 8 | b[p] as u32 } };
        let g32 = |p: usize| -> u32 { if built.be { g16(p) << 16 | g16(p + 2) } else { g16(p + 2) << 16 | g16(p) } };
        let other = |r: &mut Rng, v: u32| -> u32 { match r.below(10) { 0 => v.wrapping_sub(1), 1 => v.wrapping_add(1), 2 => v / 2, 3 => v.wrapping_mul(2), 4 => v.wrapping_sub(2), 5 => v.wrapping_add(2), 6 => r.below(v as u64 + 2) as u32, 7 => v.wrapping_add(r.below(300) as u32), 8 => r.below(40) as u32, _ => v.wrapping_sub(r.below(20) as u32) } };
        let sof: Vec<usize> = built.marks.iter().cloned().filter(|m| m + 20 < b.len() && b[*m] == 0xff && b[m + 1] == 0xc3).collect();
        if !sof.is_empty() && r.chance(1, 3) {
          let m = *r.pick(&sof);
          match r.below(5) {
            0 => self.dmg.push(Damage::Set16(m + 4, (r.range(1, 20) as u32) << 8 | b[m + 5] as u32, 1)),
            1 => { let v = other(r, (b[m + 5] as u32) << 8 | b[m + 6] as u32); self.dmg.push(Damage::Set16(m + 5, v & 0xffff, 1)) }
            2 => { let v = other(r, (b[m + 7] as u32) << 8 | b[m + 8] as u32); self.dmg.push(Damage::Set16(m + 7, v & 0xffff, 1)) }
            3 => self.dmg.push(Damage::Set16(m + 9, (r.range(0, 6) as u32) << 8 | b[m + 10] as u32, 1)),
            _ => { let k = m + 10 + 3 * r.below(3) as usize; self.dmg.push(Damage::Set16(k, (b[k] as u32) << 8 | *r.pick(&[0x11u32, 0x12, 0x21, 0x22, 0x31, 0x41, 0x00, 0x13]), 1)) }
          }
          continue;
        }
        let mine: Vec<usize> = built.entries.iter().cloned().filter(|e| e + 12 <= b.len() && [0x100u32, 0x101, 0x102, 0x111, 0x115, 0x117, 0x142, 0x143, 0x144, 0x145, 0xc640, 0xc68d, 2, 3, 6, 7].contains(&g16(*e)) && g32(e + 4) <= 4).collect();
        if !mine.is_empty() {
          let e = *r.pick(&mine);
          let size = if g16(e + 2) == 3 { 2 } else { 4 };
          let at = if g32(e + 4) as usize * size <= 4 { e + 8 } else { g32(e + 8) as usize + size * r.below(g32(e + 4) as u64) as usize };
          let v = if size == 2 { g16(at) } else { g32(at) };
          let v = other(r, v);
          self.dmg.push(if size == 2 { Damage::Set16(at, v & 0xffff, built.be as u32) } else { Damage::Set32(at, v, built.be as u32) });
          continue;
        }
      }
      // lossless jpeg streams: markers
      if r.chance(1, 9) && !built.marks.is_empty() {
        let m = *r.pick(&built.marks);
        self.dmg.push(match r.below(5) { 0 => Damage::Ins(m, 0xff, r.range(1, 3) as usize), 1 => Damage::Ins(m, r.below(256) as u32, r.range(1, 40) as usize), 2 => Damage::Set16(m, 0xff00 | r.below(256) as u32, 1),
          3 => Damage::Set16(m + 2, *r.pick(&[0, 1, 2, 3, 8, 17, 19, 40, 65535]), 1), _ => Damage::Rand(m + 2, r.range(1, 24) as usize, r.next() >> 20) });
        continue;
      }
      let d = match r.below(17) {
        0 | 1 => Damage::Trunc(if r.chance(1, 4) { r.below(len.min(64) as u64) as usize } else if r.chance(1, 2) { pos(r) } else { r.below(len as u64) as usize }),
        2 | 3 | 4 => Damage::Flip(pos(r), r.below(8) as u32),
        5 => Damage::Zero(pos(r), *r.pick(&[1usize, 2, 4, 12, 64, 512, 4096])),
        6 => Damage::Copy(pos(r), pos(r), *r.pick(&[2usize, 4, 12, 24, 64, 512])),
        7 => Damage::Rand(pos(r), *r.pick(&[1usize, 2, 4, 12, 64, 512, 4096]), r.next() >> 20),
        8 | 9 => Damage::Set16(field(r), *r.pick(VALS), be),
        10 | 11 => Damage::Set32(field(r), *r.pick(VALS), be),
        12 | 13 => {
          let p = field(r);
          let near = match r.below(4) { 0 => len as u64, 1 => r.below(len as u64), 2 => pos(r) as u64, _ => len as u64 - 1 - r.below(len.min(40) as u64) };
          Damage::Set32(p, near as u32, be)
        }
        14 => { let p = field(r); Damage::Set16(p, r.below(200) as u32, be) }
        15 => { let p = field(r); Damage::Set16(p, (r.below(1 << 16)) as u32, be) }
        _ => Damage::Extend(r.range(1, 600) as usize, r.next() >> 20),
      };
      self.dmg.push(d);
    }
  }
}

#[derive(Default)]
pub struct Built { pub b: Vec<u8>, pub hot: Vec<(usize, usize)>, pub fields: Vec<usize>, pub be: bool, pub data: usize,
  /// directories and pointers to directories (with what their offsets count from), directory entries, jpeg markers
  pub dirs: Vec<(usize, usize)>, pub ptrs: Vec<(usize, usize)>, pub entries: Vec<usize>, pub marks: Vec<usize>,
  /// where the camera's name is
  pub model: usize,
  /// what an encoder put into the file: the frame's samples, row by row
  pub samples: Option<Vec<u16>>,
  /// the table the samples go through
  pub table: Vec<u32>,
  /// what the file says about the picture
  pub about: Option<About> }
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
  /// described by the camera database
  Db,
  /// already developed into three colours; the crops of the camera still apply or do not
  Rgb(bool),
  /// turned by 45 degrees
  Turned,
  /// described by the file itself
  Dng { black: Vec<u16>, white: [u16; 3], matrix: [[f32; 3]; 4], pattern: String, crops: [usize; 4] },
}
#[derive(Clone, Debug)]
pub struct About { pub make: String, pub model: String, pub mode: String, pub wb: [f32; 4], pub ori: u32, pub black: Option<[u16; 4]>, pub kind: Kind }

enum V { S(Vec<u32>), L(Vec<u32>), A(String), B(Vec<u8>), U(Vec<u8>), R(Vec<(u32, u32)>), SR(Vec<(i32, i32)>), Raw(u16, u32, u32) }
struct TB { b: Vec<u8>, be: bool, hot: Vec<(usize, usize)>, fields: Vec<usize>, dirs: Vec<(usize, usize)>, ptrs: Vec<(usize, usize)>, entries: Vec<usize>, model: usize }
impl Built {
  fn about(mut self, make: &str, model: &str, wb: [f32; 3], ori: u32) -> Built { self.about = Some(About { make: make.into(), model: model.into(), mode: "".into(), wb: [wb[0], wb[1], wb[2], f32::NAN], ori, black: None, kind: Kind::Db }); self }
  /// nothing but samples: the length of the file tells the camera
  fn naked(self, n: usize) -> Built { let c = crate::db::all().iter().rev().find(|c| c.filesize == n).expect("size"); let (a, b, m) = (c.make.clone(), c.model.clone(), c.mode.clone()); self.about(&a, &b, [f32::NAN; 3], 0).mode(&m) }
  fn mode(mut self, m: &str) -> Built { if let Some(a) = &mut self.about { a.mode = m.into() } self }
  fn kind(mut self, k: Kind) -> Built { if let Some(a) = &mut self.about { a.kind = k } self }
  fn black(mut self, b: Option<[u16; 4]>) -> Built { if let Some(a) = &mut self.about { a.black = b } self }
  fn holding(mut self, s: Option<Vec<u16>>) -> Built { self.samples = s; self }
  fn through(mut self, t: &[u32]) -> Built { self.table = t.to_vec(); self }
}
impl TB {
  fn new(be: bool) -> TB {
    let mut t = TB { b: vec![], be, hot: vec![(0, 8)], fields: vec![4], dirs: vec![], ptrs: vec![(0, 4)], entries: vec![], model: 0 };
    t.b.extend(if be { b"MM" } else { b"II" });
    t.p16(42); t.p32(8);
    t
  }
  fn p16(&mut self, v: u32) { if self.be { self.b.extend((v as u16).to_be_bytes()) } else { self.b.extend((v as u16).to_le_bytes()) } }
  fn p32(&mut self, v: u32) { if self.be { self.b.extend(v.to_be_bytes()) } else { self.b.extend(v.to_le_bytes()) } }
  fn set32(&mut self, at: usize, v: u32) { let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() }; self.b[at..at + 4].copy_from_slice(&x); }
  fn blob(&mut self, d: &[u8]) -> u32 {
    while self.b.len() & 3 != 0 { self.b.push(0) }
    let o = self.b.len(); self.b.extend(d); o as u32
  }
  fn enc(&self, v: &V) -> (u16, u32, Vec<u8>) {
    let s16 = |x: u32| if self.be { (x as u16).to_be_bytes() } else { (x as u16).to_le_bytes() };
    let s32 = |x: u32| if self.be { x.to_be_bytes() } else { x.to_le_bytes() };
    match v {
      V::S(a) => (3, a.len() as u32, a.iter().flat_map(|x| s16(*x)).collect()),
      V::L(a) => (4, a.len() as u32, a.iter().flat_map(|x| s32(*x)).collect()),
      V::A(a) => { let mut d = a.as_bytes().to_vec(); d.push(0); (2, d.len() as u32, d) }
      V::B(a) => (1, a.len() as u32, a.clone()),
      V::U(a) => (7, a.len() as u32, a.clone()),
      V::R(a) => (5, a.len() as u32, a.iter().flat_map(|x| { let mut v = s32(x.0).to_vec(); v.extend(s32(x.1)); v }).collect()),
      V::SR(a) => (10, a.len() as u32, a.iter().flat_map(|x| { let mut v = s32(x.0 as u32).to_vec(); v.extend(s32(x.1 as u32)); v }).collect()),
      V::Raw(..) => unreachable!(),
    }
  }
  /// appends the payloads and then the directory; returns the offset of the directory
  fn ifd(&mut self, entries: &[(u16, V)], next: u32) -> u32 {
    let mut recs: Vec<(u16, u16, u32, Vec<u8>)> = vec![];
    for (tag, v) in entries {
      if *tag == 0x112 && self.b.len() % 3 != 0 { if let V::S(x) = v { if x[0] == 0 { continue } } }
      if let V::Raw(t, c, x) = v { let d = if self.be { x.to_be_bytes() } else { x.to_le_bytes() }; recs.push((*tag, *t, *c, d.to_vec())); continue; }
      let (t, c, mut d) = self.enc(v);
      if d.len() > 4 { let n = d.len(); let o = self.blob(&d); if n <= 512 { self.hot.push((o as usize, o as usize + n)) } if *tag == 0x110 { self.model = o as usize } d = if self.be { o.to_be_bytes() } else { o.to_le_bytes() }.to_vec(); }
      while d.len() < 4 { d.push(0) }
      recs.push((*tag, t, c, d));
    }
    while self.b.len() & 1 != 0 { self.b.push(0) }
    let at = self.b.len();
    self.dirs.push((0, at));
    self.p16(recs.len() as u32);
    for (tag, t, c, d) in recs {
      let e = self.b.len();
      self.entries.push(e);
      if [0x14a, 0x8769, 0x927c, 0xf000, 0x8290, 0xfe00, 0xc634].contains(&tag) { self.ptrs.push((0, e + 8)) }
      self.fields.push(e + 4); self.fields.push(e + 8); self.fields.push(e + 8); self.fields.push(e + 2);
      self.p16(tag as u32); self.p16(t as u32); self.p32(c); self.b.extend(d);
    }
    self.fields.push(at);
    self.fields.push(self.b.len());
    self.ptrs.push((0, self.b.len()));
    self.p32(next);
    self.hot.push((at, self.b.len()));
    at as u32
  }
  /// a maker's note: its name, the directory and then the payloads; offsets count from the start of the file or from `rel` bytes into the note
  fn maker(&mut self, head: &[u8], rel: Option<usize>, be: bool, entries: &[(u16, V)]) -> V {
    let sub = TB::new(be);
    let n16 = |x: u32| if be { (x as u16).to_be_bytes() } else { (x as u16).to_le_bytes() };
    let n32 = |x: u32| if be { x.to_be_bytes() } else { x.to_le_bytes() };
    while self.b.len() & 3 != 0 { self.b.push(0) }
    let at = self.b.len();
    let dir = at + head.len();
    let base = rel.map(|r| at + r).unwrap_or(0);
    let mut d = n16(entries.len() as u32).to_vec();
    let mut pay: Vec<u8> = vec![];
    let start = dir + 2 + 12 * entries.len() + 4;
    for (tag, v) in entries {
      let e = dir + d.len();
      self.entries.push(e); self.fields.extend([e + 4, e + 8, e + 8, e + 2]);
      let (t, c, x) = match v { V::Raw(t, c, x) => (*t, *c, n32(*x).to_vec()), _ => sub.enc(v) };
      d.extend(n16(*tag as u32)); d.extend(n16(t as u32)); d.extend(n32(c));
      if x.len() > 4 { while pay.len() & 3 != 0 { pay.push(0) } let o = start + pay.len(); if x.len() <= 512 { self.hot.push((o, o + x.len())) } d.extend(n32((o - base) as u32)); pay.extend(x) }
      else { let mut x = x; x.resize(4, 0); d.extend(x) }
    }
    d.extend([0; 4]);
    self.dirs.push((base, dir)); self.fields.push(dir); self.hot.push((at, start));
    self.b.extend(head); self.b.extend(d); self.b.extend(pay);
    V::Raw(7, (self.b.len() - at) as u32, at as u32)
  }
  fn root(&mut self, off: u32) { self.set32(4, off) }
  fn done(self, data: usize) -> Built {
    // the headers of lossless jpeg data
    let marks: Vec<usize> = if self.b.get(data..data + 2) == Some(&[0xff, 0xd8][..]) { (data..(data + 260).min(self.b.len() - 1)).filter(|i| self.b[*i] == 0xff && self.b[i + 1] >= 0xc0).collect() } else { vec![] };
    let mut hot = self.hot;
    if let (Some(a), Some(z)) = (marks.first(), marks.last()) { hot.push((*a, z + 20)) }
    Built { b: self.b, hot, fields: self.fields, be: self.be, data, dirs: self.dirs, ptrs: self.ptrs, entries: self.entries, marks, model: self.model, samples: None, table: vec![], about: None }
  }
}
fn s(v: u32) -> V { V::S(vec![v]) }
fn l(v: u32) -> V { V::L(vec![v]) }
fn a(v: &str) -> V { V::A(v.to_string()) }

/// metadata first, pixel data behind it: the metadata is laid out twice to learn where the data starts
fn with_data(be: bool, data: &[u8], f: &dyn Fn(&mut TB, u32)) -> Built {
  let mut off = 0;
  for _ in 0..2 {
    let mut t = TB::new(be);
    f(&mut t, off);
    while t.b.len() & 15 != 0 { t.b.push(0) }
    if off == t.b.len() as u32 {
      let at = t.b.len();
      t.b.extend(data);
      return t.done(at);
    }
    off = t.b.len() as u32;
  }
  panic!("layout does not settle");
}
fn noff(mut v: Vec<u8>) -> Vec<u8> { for b in v.iter_mut() { if *b == 0xff { *b = 0x7f } } v }

/// A lossless jpeg with a complete huffman code (every bit string decodes)
fn ljpeg(w: usize, h: usize, cps: usize, prec: usize, pred: u8, sh: u8, sv: u8, first_id: u8, data: &[u8], r: &mut Rng) -> Vec<u8> {
  let mut o = vec![0xff, 0xd8];
  let hdr = (8 + 3 * cps) as u16;
  o.extend([0xff, 0xc3]); o.extend(hdr.to_be_bytes()); o.push(prec as u8);
  o.extend((h as u16).to_be_bytes()); o.extend((w as u16).to_be_bytes()); o.push(cps as u8);
  for c in 0..cps { o.push(first_id + c as u8); o.push(if c == 0 { sh << 4 | sv } else { 0x11 }); o.push(0); }
  for t in 0..2u8 {
    // code lengths: 2,2,3,3,4,4,5,... complete
    let mut bits = [0u8; 16];
    let mut vals: Vec<u8> = vec![];
    let maxlen = r.range(4, 9) as usize;
    // lengths 1..maxlen-1 one code each starting from 2: use 00,01 (len2) then 100,101(3)? keep it simple: unary-like complete code
    bits[1] = 2; // two codes of length 2
    for i in 2..maxlen { bits[i] = 1; }
    bits[maxlen] = 2;
    let n: usize = bits.iter().map(|x| *x as usize).sum();
    // 2/4 + 1/8 + ... + 2/2^(maxlen+1) = 1/2 + (1/4 - 2^-maxlen) + 2^-maxlen < 1: add one more of length 2
    bits[1] = 2; bits[2] += 2;
    for i in 0..n + 2 { vals.push(((i * 5 + t as usize + 3) % (if prec == 12 { 4 } else { prec.min(12) + 1 })) as u8); }
    o.extend([0xff, 0xc4]); o.extend(((2 + 17 + vals.len()) as u16).to_be_bytes()); o.push(t);
    o.extend(bits); o.extend(vals);
  }
  o.extend([0xff, 0xda]); o.extend(((6 + 2 * cps) as u16).to_be_bytes()); o.push(cps as u8);
  for c in 0..cps { o.push(first_id + c as u8); o.push(if c & 1 == 1 { 0x10 } else { 0 }); }
  o.push(pred); o.push(0); o.push(0);
  o.extend(data);
  o
}

/// a prefix code for the numbers 0..n, as lossless jpeg files carry it
pub struct Code { bits: [u8; 16], vals: Vec<u8>, of: Vec<(u32, u32)> }
impl Code {
  /// no code is longer than `max`: rawloader takes codes longer than the samples for damage
  fn random(r: &mut Rng, n: usize, max: u32) -> Code {
    // split leaves until there is one more than needed: the code of ones only is never used
    let mut leaves = vec![0u32];
    let deep = r.below(4);
    while leaves.len() < n + 1 {
      let k = if deep == 0 { leaves.len() - 1 } else { r.below(leaves.len() as u64) as usize };
      let k = if leaves[k] >= max { (0..leaves.len()).min_by_key(|i| leaves[*i]).unwrap() } else { k };
      leaves[k] += 1; let d = leaves[k]; leaves.push(d);
    }
    leaves.sort(); leaves.pop();
    let mut vals: Vec<u8> = (0..n as u8).collect();
    for i in (1..n).rev() { vals.swap(i, r.below(i as u64 + 1) as usize) }
    let mut bits = [0u8; 16];
    let mut of = vec![(0, 0); n];
    let (mut code, mut len) = (0u32, 0u32);
    for (i, l) in leaves.iter().enumerate() {
      code <<= l - len; len = *l;
      bits[len as usize - 1] += 1; of[vals[i] as usize] = (code, len);
      code += 1;
    }
    Code { bits, vals, of }
  }
  pub fn len_of(d: i32) -> u32 { 32 - d.unsigned_abs().leading_zeros() }
  pub fn put_diff(bw: &mut BitW, d: i32) { let n = Code::len_of(d); bw.put(if d < 0 { (d + (1 << n) - 1) as u32 } else { d as u32 }, n) }
  fn put(&self, bw: &mut BitW, d: i32) { let (c, l) = self.of[Code::len_of(d) as usize]; bw.put(c, l); Code::put_diff(bw, d) }
}
pub fn stuff(b: &[u8]) -> Vec<u8> { let mut o = vec![]; for x in b { o.push(*x); if *x == 0xff { o.push(0) } } o }
/// samples that use the whole range but are often close to their neighbours
pub fn walk(r: &mut Rng, n: usize, dist: usize, lo: u32, hi: u32) -> Vec<u16> {
  let mut o: Vec<u16> = Vec::with_capacity(n);
  for i in 0..n {
    let x = if r.chance(1, 5) || i < dist { lo + r.below((hi - lo + 1) as u64) as u32 } else { let k = 1u64 << r.below(12); (o[i - dist] as i64 + r.below(2 * k) as i64 - k as i64).max(lo as i64).min(hi as i64) as u32 };
    o.push(x as u16);
  }
  o
}
fn ljpeg_head(w: usize, h: usize, cps: usize, prec: usize, pred: u8, sh: u8, sv: u8, first_id: u8, codes: &[Code]) -> Vec<u8> {
  let mut o = vec![0xff, 0xd8];
  o.extend([0xff, 0xc3]); o.extend(((8 + 3 * cps) as u16).to_be_bytes()); o.push(prec as u8);
  o.extend((h as u16).to_be_bytes()); o.extend((w as u16).to_be_bytes()); o.push(cps as u8);
  for c in 0..cps { o.push(first_id + c as u8); o.push(if c == 0 { sh << 4 | sv } else { 0x11 }); o.push(0); }
  for (t, c) in codes.iter().enumerate() {
    o.extend([0xff, 0xc4]); o.extend(((2 + 17 + c.vals.len()) as u16).to_be_bytes()); o.push(t as u8);
    o.extend(c.bits); o.extend(&c.vals);
  }
  o.extend([0xff, 0xda]); o.extend(((6 + 2 * cps) as u16).to_be_bytes()); o.push(cps as u8);
  for c in 0..cps { o.push(first_id + c as u8); o.push(((c % codes.len()) as u8) << 4); }
  o.push(pred); o.push(0); o.push(0);
  o
}
fn diff16(a: u16, b: i32) -> i32 { (a as i32).wrapping_sub(b) as i16 as i32 }
/// the one difference that is only half a code: nothing follows, or (`extra`) sixteen bits that mean nothing
fn put16(code: &Code, bw: &mut BitW, d: i32, extra: bool) {
  if d == -32768 { let (c, l) = code.of[16]; bw.put(c, l); if extra { bw.put(0, 16) } } else { code.put(bw, d) }
}
/// samples of 16 bits: now and then as far away as can be
fn far(px: &mut [u16], w: usize, h: usize, cps: usize, first: i32, r: &mut Rng) {
  let n = 1 + r.below(200);
  for y in 0..h { for x in 0..w {
    let p = if x >= cps { px[y * w + x - cps] as i32 } else if y > 0 { px[(y - 1) * w + x] as i32 } else { first };
    if r.chance(1, n) { px[y * w + x] = (p as u16).wrapping_add(0x8000) }
  } }
}
/// the frame (w samples wide in all, `cps` interleaved components) as a lossless jpeg with predictor 1
fn ljpeg_enc(px: &mut [u16], w: usize, h: usize, cps: usize, prec: usize, r: &mut Rng) -> Vec<u8> {
  if prec == 16 && r.chance(1, 2) { far(px, w, h, cps, 1 << 15, r) }
  let codes: Vec<Code> = (0..if r.chance(1, 3) { 1 } else { cps.min(4) }).map(|_| Code::random(r, if prec == 16 { 17 } else { 16 }, prec as u32)).collect();
  let mut o = ljpeg_head(w / cps, h, cps, prec, 1, 1, 1, 1, &codes);
  let mut bw = BitW::msb();
  for y in 0..h { for x in 0..w {
    let p = if x >= cps { px[y * w + x - cps] as i32 } else if y > 0 { px[(y - 1) * w + x] as i32 } else { 1 << (prec - 1) };
    put16(&codes[(x % cps) % codes.len()], &mut bw, diff16(px[y * w + x], p), false);
  } }
  while bw.bits % 8 != 0 { bw.put(1, 1) }
  o.extend(stuff(&bw.b)); o.extend([0xff, 0xd9]);
  o
}

pub fn sony_crypt(data: &[u8], key: u32) -> Vec<u8> {
  let mut pad = [0u32; 128];
  let mut k = key;
  for p in 0..4 { k = k.wrapping_mul(48828125).wrapping_add(1); pad[p] = k; }
  pad[3] = pad[3] << 1 | (pad[0] ^ pad[2]) >> 31;
  for p in 4..127 { pad[p] = (pad[p - 4] ^ pad[p - 2]) << 1 | (pad[p - 3] ^ pad[p - 1]) >> 31; }
  for p in 0..127 { pad[p] = u32::from_be(pad[p]); }
  let mut out = vec![];
  for (i, c) in data.chunks(4).enumerate() {
    let p = i + 127;
    pad[p & 127] = pad[(p + 1) & 127] ^ pad[(p + 1 + 64) & 127];
    let mut w = [0u8; 4]; w[..c.len()].copy_from_slice(c);
    out.extend((u32::from_le_bytes(w) ^ pad[p & 127]).to_le_bytes());
  }
  out
}
/// writes bits most significant first; units are bytes or little-endian 32-bit words
pub struct BitW { pub b: Vec<u8>, acc: u64, n: u32, w32: bool, pub bits: usize }
impl BitW {
  pub fn msb() -> BitW { BitW { b: vec![], acc: 0, n: 0, w32: false, bits: 0 } }
  pub fn msb32() -> BitW { BitW { b: vec![], acc: 0, n: 0, w32: true, bits: 0 } }
  pub fn put(&mut self, v: u32, n: u32) {
    if n == 0 { return }
    self.acc = self.acc << n | (v as u64 & ((1u64 << n) - 1)); self.n += n; self.bits += n as usize;
    if self.w32 { while self.n >= 32 { let w = (self.acc >> (self.n - 32)) as u32; self.b.extend(w.to_le_bytes()); self.n -= 32 } }
    else { while self.n >= 8 { self.b.push((self.acc >> (self.n - 8)) as u8); self.n -= 8 } }
    self.acc &= (1u64 << self.n) - 1;
  }
  pub fn align(&mut self, unit: usize) { while self.bits % unit != 0 { let k = (unit - self.bits % unit).min(16) as u32; self.put(0, k) } }
}
const NIKON_TREE: [[u8; 32]; 6] = [
  [0,1,5,1,1,1,1,1,1,2,0,0,0,0,0,0,5,4,3,6,2,7,1,0,8,9,11,10,12,0,0,0],
  [0,1,5,1,1,1,1,1,1,2,0,0,0,0,0,0,0x39,0x5a,0x38,0x27,0x16,5,4,3,2,1,0,11,12,12,0,0],
  [0,1,4,2,3,1,2,0,0,0,0,0,0,0,0,0,5,4,6,3,7,2,8,1,9,0,10,11,12,0,0,0],
  [0,1,4,3,1,1,1,1,1,2,0,0,0,0,0,0,5,6,4,7,8,3,9,2,1,0,10,11,12,13,14,0],
  [0,1,5,1,1,1,1,1,1,1,2,0,0,0,0,0,8,0x5c,0x4b,0x3a,0x29,7,6,5,4,3,2,1,0,13,14,0],
  [0,1,4,2,2,3,1,2,0,0,0,0,0,0,0,0,7,6,8,5,9,4,10,3,11,12,2,0,1,13,14,0],
];
const PENTAX_TREE: [u8; 32] = [0,2,3,1,1,1,1,1,1,2,0,0,0,0,0,0,3,4,2,5,1,6,0,7,8,9,10,11,12,0,0,0];
/// difference as canonical huffman code of its length followed by its bits
fn huff_put(bw: &mut BitW, tree: &[u8; 32], d: i32) {
  let n = 32 - d.unsigned_abs().leading_zeros();
  let (mut code, mut k) = (0u32, 16);
  for len in 1..=16u32 {
    for _ in 0..tree[len as usize - 1] {
      if tree[k] as u32 == n { bw.put(code, len); bw.put(if d < 0 { (d + (1 << n) - 1) as u32 } else { d as u32 }, n); return }
      code += 1; k += 1;
    }
    code <<= 1;
  }
  panic!("no code for {}", d);
}
fn curve(n: usize, r: &mut Rng, step: u64) -> Vec<u32> {
  let mut v = 0u64; let mut o = vec![];
  match r.below(4) {
    // up to the largest value there is, early or late, and steep or flat at the ends
    0 => { let top = n as u64 - r.below(1 + n as u64 / 3); return (0..n as u64).map(|i| (i * 65535 / (top - 1)).min(65535) as u32).collect() }
    1 => { let k = 1 + r.below(4) as u32; return (0..n).map(|i| { let x = i as f64 / (n - 1) as f64; (x.powi(k as i32) * 65535.0) as u32 }).collect() }
    2 => { let k = r.range(1, n as u64) as usize; return (0..n).map(|i| if i < k { i as u32 / 3 } else { (65535 - (n - 1 - i) * 2) as u32 }).collect() }
    _ => {}
  }
  for _ in 0..n { o.push((v.min(60000)) as u32); v += r.below(step + 1); }
  o
}

pub fn build(fmt: &str, w: usize, h: usize, var: u64, seed: u64) -> Built {
  let r = &mut Rng::new(seed ^ 0xf11e);
  let v = |k: u64, n: u64| -> u64 { mix(var.wrapping_mul(31).wrapping_add(k)) % n };
  let px = w * h;
  let (wu, hu) = (w as u32, h as u32);
  // numbers the file says something with
  let num = |k: u64| 100 + v(50 + k, 3000) as u32;
  let ori = if v(40, 3) == 0 { 1 } else { v(41, 10) as u32 };
  let none = [f32::NAN; 3];
  let cam = |makes: &[&str], make: &str, model: &str, mode: &str| crate::db::other(makes, (make, model), mode, (w, h), v(42, 1 << 30));
  let basic = |make: &str, model: &str, off: u32, bytes: u32| -> Vec<(u16, V)> {
    vec![(0x100, l(wu)), (0x101, l(hu)), (0x10f, a(make)), (0x110, a(model)), (0x111, l(off)), (0x112, s(ori)), (0x117, l(bytes))]
  };
  let tiff = |be: bool, data: &[u8], f: &dyn Fn(&mut TB, u32) -> Vec<(u16, V)>| -> Built {
    with_data(be, data, &|t: &mut TB, off| { let e = f(t, off); let o = t.ifd(&e, 0); t.root(o); })
  };
  match fmt {
    "dng16" | "dng12" | "dng10" | "dng8" | "dngrgb" | "dngljs" | "dngljt" => {
      let exact = v(17, 4) != 0;
      let cpp = if fmt == "dngrgb" || (fmt == "dngljs" || fmt == "dngljt") && exact && v(16, 5) == 0 { 3 } else { 1 };
      let mut samples: Option<Vec<u16>> = None;
      let bps: u32 = match fmt { "dng12" => 12, "dng10" => 10, "dng8" => 8, _ => 16 };
      let lj = fmt == "dngljs" || fmt == "dngljt";
      let (tw, tl) = ((8 * (1 + v(1, 6))) as usize, (1 + v(2, 12)) as usize);
      let mut tiles: Vec<(usize, usize)> = vec![];
      let data: Vec<u8> = if fmt == "dngljs" && exact {
        // the frame may be wider than the picture
        let cps = if cpp == 3 { 3 } else if v(3, 3) == 0 && w % 4 == 0 { 4 } else { 2 };
        let ww = w * cpp;
        let fw = (ww + cps - 1) / cps * cps + cps * v(18, 3) as usize;
        let prec = if cpp == 3 { 16 } else { [12, 14, 16][v(19, 3) as usize] };
        let mut f = walk(r, fw * h, cps, 0, (1 << prec) - 1);
        let j = ljpeg_enc(&mut f, fw, h, cps, prec, r);
        samples = Some((0..h).flat_map(|y| f[y * fw..y * fw + ww].to_vec()).collect());
        j
      } else if fmt == "dngljt" && exact {
        let (ww, cps) = (w * cpp, if cpp == 3 { 3 } else { 2 });
        let tww = tw * cpp;
        let mut o = vec![];
        let mut all = vec![0u16; ww * h];
        for ty in 0..(h - 1) / tl + 1 { for tx in 0..(ww - 1) / tww + 1 {
          let mut f = walk(r, tww * tl, cps, 0, 65535);
          let j = ljpeg_enc(&mut f, tww, tl, cps, 16, r);
          for y in 0..tl { for x in 0..tww { let (yy, xx) = (ty * tl + y, tx * tww + x); if yy < h && xx < ww { all[yy * ww + xx] = f[y * tww + x] } } }
          tiles.push((o.len(), j.len())); o.extend(j);
          while o.len() & 3 != 0 { o.push(0) }
        } }
        samples = Some(all);
        o
      } else if fmt == "dngljs" {
        let cps = if v(3, 3) == 0 && w % 4 == 0 { 4 } else { 2 };
        let d = noff(fill(px * 3 + 64, seed));
        ljpeg((w + cps - 1) / cps, h, cps, 16, 1, 1, 1, 1, &d, r)
      } else if fmt == "dngljt" {
        let mut o = vec![];
        for _ in 0..((h - 1) / tl + 1) * ((w - 1) / tw + 1) {
          let d = noff(fill(tw * tl * 3 + 64, r.next()));
          let j = ljpeg(tw / 2, tl, 2, 16, 1, 1, 1, 1, &d, r);
          tiles.push((o.len(), j.len())); o.extend(j);
          while o.len() & 3 != 0 { o.push(0) }
        }
        o
      } else { fill((px * cpp * bps as usize + 7) / 8 + if v(9, 2) == 0 { 16 } else { 0 }, seed) };
      let be = v(4, 2) == 1;
      let lin = curve(256, r, 230);
      let crop = v(5, 3) == 0 && w > 16 && h > 8;
      let known = v(6, 4) == 0;
      let (make, model) = if known { cam(&["Canon", "PENTAX", "SONY", "LEICA"], "Canon", "Canon EOS 450D", "") } else { ("ACME".to_string(), "Sim 1".to_string()) };
      let pats: [&[u8]; 5] = [&[0, 1, 1, 2], &[2, 1, 1, 0], &[1, 0, 2, 1], &[1, 2, 0, 1], &[0, 1, 1, 2]];
      let xt: Vec<u8> = b"GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG".iter().map(|c| match c { b'R' => 0, b'G' => 1, _ => 2 }).collect();
      let pat = if v(7, 6) == 0 { xt } else { pats[v(7, 5) as usize].to_vec() };
      let linear = cpp == 3 || v(10, 5) == 0;
      // one level for all, one for each place of the pattern, one for each component
      let black: Vec<u16> = if v(8, 2) == 0 { match v(11, 4) { 0 => vec![64; 4], 1 if pat.len() == 4 && !linear => [0; 4].map(|_| 40 + r.below(400) as u16).to_vec(), 1 | 2 if cpp == 3 => [0; 3].map(|_| 40 + r.below(400) as u16).to_vec(), _ => vec![num(0) as u16] } } else { vec![] };
      let white: u32 = if bps == 16 || bps == 8 { 65535 - v(22, 2) as u32 * num(1) } else { (1 << bps) - 1 };
      let white: Vec<u32> = if cpp == 3 && v(22, 3) != 0 { [0; 3].map(|_| white - r.below(900) as u32).to_vec() } else { vec![white] };
      // the active area: top, left, bottom, right
      let act = if crop { [v(23, 5) as u32, v(24, 7) as u32, hu - v(25, 4) as u32, wu - v(26, 6) as u32] } else { [0, 0, hu, wu] };
      let mats: [[i32; 9]; 2] = [[7034, -804, -1014, -4420, 12564, 2058, -851, 1994 - v(28, 900) as i32, 5758], [6771, -1139, -977, -7818, 15123, 2928, -1244, 1437, 7533 + v(29, 500) as i32]];
      let mat = match v(15, 4) { 0 => vec![(0xc621u16, 0usize)], 1 => vec![(0xc621, 1), (0xc622, 0)], 2 => vec![(0xc622, 1)], _ => vec![] };
      let mut matrix = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227], [0.0; 3]];
      if let Some(m) = mat.last() { for i in 0..9 { matrix[i / 3][i % 3] = mats[m.1][i] as f32 / 10000.0 } }
      let wb = if v(14, 3) != 0 { [1000.0 / (500 + v(20, 400)) as f32, 1.0, 1000.0 / (600 + v(21, 300)) as f32] } else { none };
      let says = Kind::Dng { black: black.clone(), white: [white[0] as u16, white[white.len() / 2] as u16, white[white.len() - 1] as u16], matrix, pattern: if linear { "".into() } else { pat.iter().map(|x| ['R', 'G', 'B'][*x as usize]).collect() },
        crops: [act[0] as usize, w - act[3] as usize, h - act[2] as usize, act[1] as usize] };
      tiff(be, &data, &|t, off| {
        let mut e = vec![(0xfe, l(if v(56, 3) == 0 { 4 } else { 0 })), (0x100, l(wu)), (0x101, l(hu)), (0x102, s(bps)), (0x103, s(if lj { 7 } else { 1 })),
          (0x106, s(if linear { 34892 } else { 32803 })), (0x115, s(cpp as u32))];
        if fmt == "dngljt" {
          e.push((0x142, l(tw as u32))); e.push((0x143, l(tl as u32)));
          e.push((0x144, V::L(tiles.iter().map(|x| off + x.0 as u32).collect())));
        } else { e.push((0x111, l(off))); e.push((0x117, l(data.len() as u32))); }
        e.push((0x828e, V::B(pat.clone())));
        if bps == 8 { e.push((0xc618, V::S(lin.clone()))) }
        if !black.is_empty() { let n = black.iter().map(|x| *x as u32); e.push((0xc61a, match v(27, 3) { 0 => V::S(n.collect()), 1 => V::L(n.collect()), _ => V::R(n.map(|x| (x * 3, 3)).collect()) })) }
        if black.len() == 4 && v(50, 2) == 0 { e.insert(e.iter().position(|x| x.0 > 0xc619).unwrap_or(0), (0xc619, V::S(vec![2, 2]))) }
        e.push((0xc61d, if v(51, 3) == 0 { V::S(white.clone()) } else { V::L(white.clone()) }));
        if crop { e.push((0xc68d, if v(27, 3) == 0 { V::S(act.to_vec()) } else { V::L(act.to_vec()) })) }
        let raw_in_sub = v(12, 2) == 0;
        let mut main = vec![(0x10f, a(&make)), (0x110, a(&model)), (0x112, s(ori)), (0xc612, V::B(vec![1, 4, 0, 0]))];
        if v(14, 3) != 0 { main.push((0xc628, V::R(vec![(500 + v(20, 400) as u32, 1000), (1000, 1000), (600 + v(21, 300) as u32, 1000)]))) }
        for (tag, m) in &mat { main.push((*tag, V::SR(mats[*m].iter().map(|x| (*x, 10000)).collect()))) }
        if v(57, 3) == 0 { e.remove(0); }
        if raw_in_sub {
          // a small picture besides the raw one, which comes before it or after it
          let small = vec![(0xfe, l(1)), (0x100, l(8)), (0x101, l(8)), (0x102, s(8)), (0x103, s([1, 7][v(58, 2) as usize])), (0x106, s(2)), (0x111, l(8)), (0x115, s(3)), (0x117, l(192))];
          match v(59, 4) { 0 => { main.extend(small); main.sort_by_key(|x| x.0); let o = t.ifd(&e, 0); main.push((0x14a, l(o))); main.sort_by_key(|x| x.0) }
            1 => { let p = t.ifd(&small, 0); let o = t.ifd(&e, 0); main.push((0x14a, V::L(vec![p, o]))) }
            2 => { let p = t.ifd(&small, 0); let o = t.ifd(&e, 0); main.push((0x14a, V::L(vec![o, p]))) }
            _ => { let o = t.ifd(&e, 0); main.push((0x14a, l(o))) } }
          main
        } else { main.extend(e); main.sort_by_key(|x| x.0); main }
      }).holding(samples).through(&lin).about(&make, &model, wb, ori).kind(says)
    }
    "mrw" | "mrwp" => {
      let packed = fmt == "mrwp";
      let data = fill(if packed { px * 3 / 2 } else { px * 2 }, seed);
      let (make, model) = *[("KONICA MINOLTA", "DYNAX 5D"), ("Minolta Co., Ltd.", "DiMAGE 7"), ("KONICA MINOLTA", "DiMAGE A200")].get(v(1, 3) as usize).unwrap();
      let (make, model) = cam(&["KONICA MINOLTA", "Minolta Co., Ltd."], make, model, "");
      let (make, model) = (&make[..], &model[..]);
      let g = [num(0), num(1), num(2), num(3)];
      let wb = if crate::db::find(make, model, "").map(|c| c.hints.iter().any(|x| x == "swapped_wb")).unwrap_or(false) { [g[2], g[0], g[1]] } else { [g[0], g[1], g[3]] };
      let mut t = TB::new(true);
      let o = t.ifd(&[(0x10f, a(make)), (0x110, a(model)), (0x112, s(ori))], 0);
      // the directory has to be at offset 8: move it there by building it first in a second pass
      let _ = o;
      let mut tt: Vec<u8> = vec![]; // hand-made: header, ifd at 8, strings after
      tt.extend(b"MM\0*"); tt.extend(8u32.to_be_bytes()); tt.extend(3u16.to_be_bytes());
      let so = 8 + 2 + 36 + 4;
      let mut m1 = make.as_bytes().to_vec(); m1.push(0); let mut m2 = model.as_bytes().to_vec(); m2.push(0);
      for (tag, typ, cnt, val) in [(0x10fu16, 2u16, m1.len() as u32, so as u32), (0x110, 2, m2.len() as u32, (so + m1.len()) as u32), (0x112, 3, 1, ori << 16)] {
        tt.extend(tag.to_be_bytes()); tt.extend(typ.to_be_bytes()); tt.extend(cnt.to_be_bytes()); tt.extend(val.to_be_bytes());
      }
      tt.extend(0u32.to_be_bytes()); tt.extend(&m1); tt.extend(&m2);
      while tt.len() & 3 != 0 { tt.push(0) }
      let mut b: Vec<u8> = vec![0, b'M', b'R', b'M', 0, 0, 0, 0];
      let mut prd = vec![0u8; 24];
      prd[8..10].copy_from_slice(&(h as u16).to_be_bytes()); prd[10..12].copy_from_slice(&(w as u16).to_be_bytes());
      prd[16] = if packed { 12 } else { 16 };
      let mut wbg = vec![0u8; 12]; for i in 0..4 { wbg[4 + 2 * i..6 + 2 * i].copy_from_slice(&((g[i] as u16).to_be_bytes())) }
      let mut fields = vec![4usize]; let mut blocks = vec![(0x505244u32, prd), (0x574247, wbg), (0x545457, tt), (0x504144, vec![0u8; 32])];
      if v(2, 2) == 0 { blocks.swap(0, 2) }
      for (tag, d) in blocks { fields.push(b.len()); fields.push(b.len() + 4); fields.push(b.len() + 4); fields.push(b.len() + 16); fields.push(b.len() + 18);
        b.extend(tag.to_be_bytes()); b.extend((d.len() as u32).to_be_bytes()); b.extend(d); }
      let dl = (b.len() - 8) as u32; b[4..8].copy_from_slice(&dl.to_be_bytes());
      let at = b.len();
      b.extend(data);
      Built { b, hot: vec![(0, at)], fields, be: true, data: at, ..Default::default() }.about(make, model, wb.map(|x| x as f32), ori)
    }
    "arw16" | "arw12" | "arw2" | "arw1" | "r1" => {
      let exact = v(17, 4) != 0;
      let mut samples = None;
      let data = match fmt { "arw16" | "r1" => fill(px * 2, seed), "arw12" => fill(px * 3 / 2, seed), "arw2" => {
          // keep max >= min in every block of 16
          let mut d = fill(px, seed);
          for c in d.chunks_mut(16) { if c.len() == 16 {
            let (max, min) = match r.below(3) { 0 => (1024 + r.below(1023) as u32, r.below(1024) as u32), 1 => { let a = r.below(2048) as u32; (a.max(16), a.min(r.below(2048) as u32)) }, _ => { let a = r.below(1900) as u32; let k = 1 + (1 << r.below(8)); (a + r.below(k).min(147) as u32, a) } };
            let imax = r.below(16) as u32;
            let imin = if exact { (imax + 1 + r.below(15) as u32) % 16 } else { r.below(16) as u32 };
            let hdr = max | min << 11 | imax << 22 | imin << 26 | ((c[3] as u32 & 0xc0) << 24); c[0..4].copy_from_slice(&hdr.to_le_bytes()) } }
          d },
        _ if exact && h % 2 == 0 => { let f = walk(r, w * (h + 8), 1, 0, 4095); let mut d = enc::arw1(&f, w, h + 8); if d.len() == px { d.push(0) } samples = Some(f); d }
        _ => fill(w * (h + 8) * 3 + 64, seed) };
      let mut points = [8000u32, 10400, 12900, 14100];
      if v(2, 2) == 0 { points = [0; 4].map(|_| r.below(16380) as u32); points.sort() }
      // steps of 1, 2, 4, 8, 16 between the points
      let mut table = vec![0u32; 4096];
      for j in 1..4096 { table[j] = table[j - 1] + (1 << points.iter().filter(|p| j > (**p >> 2) as usize).count()) }
      let model = match fmt { "arw12" => "DSLR-A300", "arw2" => "DSLR-A200", "r1" => "DSC-R1", "arw1" => "DSLR-A200", _ => "DSLR-A300" };
      let (_, model) = if fmt == "r1" { ("".into(), model.to_string()) } else { cam(&["SONY"], "SONY", model, "") };
      let key = (seed as u32) | 1;
      let wb = if v(1, 2) == 0 { [num(1), num(0), num(2)] } else { [num(0), num(1), num(3)] };
      tiff(false, &data, &|t, off| {
        let mut sony: Vec<u8> = vec![1, 0];
        let tag: u16 = if v(1, 2) == 0 { 0x7303 } else { 0x7313 };
        let so = t.b.len() as u32;
        sony.extend(tag.to_le_bytes()); sony.extend(3u16.to_le_bytes()); sony.extend(4u32.to_le_bytes()); sony.extend((so + 18).to_le_bytes()); sony.extend([0; 4]);
        for k in 0..4 { sony.extend((num(k) as u16).to_le_bytes()) }
        let sl = sony.len() as u32;
        while sony.len() < 32 { sony.push(0) }
        t.b.extend(sony_crypt(&sony, key));
        let po = t.ifd(&[(0x7200, l(so)), (0x7201, l(sl)), (0x7221, l(key))], 0);
        let cnt = match fmt { "arw2" => px, "arw12" => px * 3 / 2, _ => data.len() } as u32;
        let raw = vec![(0x100, l(wu)), (0x101, l(hu)), (0x102, s(if fmt == "arw12" { 12 } else { 8 })), (0x103, s(if fmt == "arw16" || fmt == "r1" { 1 } else { 32767 })),
          (0x111, l(off)), (0x117, l(cnt)), (0x7010, V::S(points.to_vec()))];
        let ro = t.ifd(&raw, 0);
        vec![(0x10f, a("SONY")), (0x110, a(&model)), (0x112, s(ori)), (0x14a, l(ro)), (0xc634, l(po))]
      }).holding(samples).through(&table).about("SONY", &model, wb.map(|x| x as f32), ori)
    }
    "a100" => {
      let (w, h) = (3881usize, 2608usize);
      // a few columns that are all different, and then the same again
      let f = walk(r, 97 * h, 1, 0, 4095);
      let mut f: Vec<u16> = (0..w * h).map(|i| { let (y, x) = (i / w, i % w); f[((x * 31 + y / 7) % 97) * h + y] }).collect();
      // what stands where the directory would be must not be taken for one
      let mut d = enc::arw1(&f, w, h);
      let mut k = 0; while d[1] < 17 { k += 1; f[(h - 1) * w + w - 1] = k; f[w - 1] = k; f[(h - 2) * w + w - 1] = 4000 - k; d = enc::arw1(&f, w, h) }
      let before = v(1, 3) as usize;
      let mut notes = b"\0MRI\0\0\0\0".to_vec();
      let way = v(2, 5);
      for k in 0..before { notes.extend(*b"\0PRD"); let n = v(3 + k as u64, 60) as u32; notes.extend(n.to_le_bytes()); notes.extend(fill(n as usize, seed ^ k as u64)) }
      notes.extend(if way == 0 { *b"\0WBX" } else { *b"\0WBG" }); notes.extend(16u32.to_le_bytes()); notes.extend([2; 4]);
      for k in 0..4 { notes.extend((num(k) as u16).to_le_bytes()) } notes.extend([0; 4]);
      let wb = if way == 0 { [0.0; 3] } else { [num(0), num(1), num(3)].map(|x| x as f32) };
      // nothing that could be mistaken for it further on
      notes.extend(b"\0END"); notes.extend(0x7ffffff0u32.to_le_bytes()); notes.extend([0; 24]);
      let mut b = tiff(false, &d, &|t, off| { let po = t.blob(&notes); vec![(0x10f, a("SONY")), (0x110, a("DSLR-A100")), (0x112, s(ori)), (0x14a, l(off)), (0xc634, l(po))] });
      b.samples = Some(f);
      b.about("SONY", "DSLR-A100", wb, ori)
    }
    "srf" => {
      let (w, h) = (64usize, 32usize + (w % 32));
      let mut b = with_data(false, &[], &|t, _| { let o = t.ifd(&[(0x100, l(w as u32)), (0x101, l(h as u32)), (0x10f, a("SONY")), (0x110, a("DSC-F828")), (0x112, s(ori))], 0); t.root(o); });
      let n = 862144 + w * h * 2 + 8;
      let mut d = fill(n, seed);
      d[..b.b.len()].copy_from_slice(&b.b); d[200896] = 3;
      b.b = d; b.data = 862144; b.about("SONY", "DSC-F828", none, ori)
    }
    "orfle" | "orfbe" | "orfwc" | "orfil" | "orf32" | "orfc" => {
      let n = match fmt { "orfle" | "orfbe" => px * 2, "orfwc" => px / 10 * 16 + 32, "orfil" => (px * 12 / 8).max(2048 * (1 + px / 2048)), "orf32" => px * 12 / 8, _ => px * 3 + 64 };
      let cnt = match fmt { "orfc" => px as u32, "orfil" | "orf32" => (px * 12 / 8) as u32, _ => n as u32 };
      let n = if fmt == "orfil" { ((px * 3 / 4 + 2047) & !2047) * 2 + 4096 } else { n };
      let mut samples = None;
      let data = if fmt == "orfc" && v(17, 4) != 0 { let f = walk(r, px, 2, 0, 4095); let d = enc::orf(&f, w, h); samples = Some(f); d } else { fill(n, seed) };
      let be = fmt == "orfbe" || (fmt == "orfc" && v(1, 2) == 0);
      let model = ["E-3", "C7070WZ", "E-520"][v(2, 3) as usize];
      let (make, model) = cam(&["OLYMPUS IMAGING CORP.", "OLYMPUS CORPORATION", "OLYMPUS OPTICAL CO.,LTD"], "OLYMPUS IMAGING CORP.", model, "");
      tiff(be, &data, &|t, off| {
        let mut e = basic(&make, &model, off, cnt);
        let order: &[u8] = if be { b"MM" } else { b"II" };
        let mul = [(0x1017, V::S(vec![num(0), 2])), (0x1018, V::S(vec![num(1), 2]))];
        if v(3, 4) == 0 { let mk = t.ifd(&mul, 0); e.push((0x8769, l(mk))) }
        else if v(3, 4) == 1 { let m = t.maker(&[&b"OLYMP\0\x01\0"[..], if v(44, 2) == 0 { order } else { b"" }].concat(), None, be, &mul); let x = t.ifd(&[(0x927c, m)], 0); e.push((0x8769, l(x))) }
        else if v(3, 4) == 2 {
          // a directory of its own, whose place counts from the start of the note; so do its payloads
          let dir = 12 + 2 + 12 + 4;
          let m = t.maker(&[&b"OLYMPUS\0"[..], order, &b"\x03\0"[..]].concat(), Some(0), be, &[(0x2040, V::Raw(if v(44, 2) == 0 { 4 } else { 13 }, 1, dir))]);
          let V::Raw(_, n, at) = m else { unreachable!() };
          assert!(n == dir);
          let four = v(46, 2) == 0;
          t.p16(1); t.p16(0x100); t.p16(3); t.p32(if four { 4 } else { 2 });
          if four { t.p32(dir + 18); t.p32(0); for k in 0..4 { t.p16(num(k)) } } else { t.p16(num(0)); t.p16(num(1)); t.p32(0) }
          t.hot.push(((at + dir) as usize, t.b.len()));
          let n = t.b.len() as u32 - at;
          let x = t.ifd(&[(0x927c, V::Raw(7, n, at))], 0); e.push((0x8769, l(x)))
        } else { e.push((0x1017, V::S(vec![num(0)]))); e.push((0x1018, V::S(vec![num(1)]))) }
        e
      }).holding(samples).about(&make, &model, [num(0) as f32, 256.0, num(1) as f32], ori)
    }
    "mef" => {
      let data = fill(px * 3 / 2, seed);
      tiff(true, &data, &|_t, off| { let mut e = basic("Mamiya-OP Co.,Ltd.", "MAMIYA ZD", off, data.len() as u32); e.push((0x828e, V::B(vec![0, 1, 1, 2]))); e }).about("Mamiya-OP Co.,Ltd.", "MAMIYA ZD", none, ori)
    }
    "erf" => {
      let data = fill(px / 10 * 16 + 64, seed);
      let notes = fill(256, seed);
      let at = |k: usize| u16::from_be_bytes([notes[k], notes[k + 1]]) as f64;
      let wb = [(at(48) * 508.0 * 1.078 / 65536.0) as f32, 1.0, (at(50) * 382.0 * 1.173 / 65536.0) as f32];
      let be = v(1, 2) == 0;
      tiff(be, &data, &|t, off| { let mut e = basic("SEIKO EPSON CORP.", "R-D1", off, data.len() as u32);
        if v(44, 2) == 0 { let m = t.maker(b"EPSON\0\x01\0", None, be, &[(0xe80, V::U(notes.clone()))]); let x = t.ifd(&[(0x927c, m)], 0); e.push((0x8769, l(x))) } else { e.push((0xe80, V::U(notes.clone()))) } e.push((0x828e, V::B(vec![0, 1, 1, 2]))); e }).about("SEIKO EPSON CORP.", "R-D1", wb, ori)
    }
    "rw2split" | "rw2" | "rw2u" | "rw2wc" => {
      let need = ((px * 9 + w / 14 * 2 * h) / 8 / 0x4000 + 2) * 0x4000;
      let data = match fmt { "rw2u" => fill(px * 2, seed), "rw2wc" => fill((px * 8 / 5).max(px * 3 / 2 + 16).min(px * 2 - 16), seed), "rw2" => fill(need.min(px * 3 / 2 - 64), seed), _ => fill(need, seed) };
      let model = if fmt == "rw2split" || v(3, 2) == 0 { "DMC-FZ1000" } else { "DMC-G3" };
      let mode = match w * 100 / h { 0..=124 => "1:1", 125..=144 => "4:3", 145..=164 => "3:2", _ => "16:9" };
      let (make, model) = cam(&["Panasonic", "LEICA"], "Panasonic", model, mode);
      let wb = if v(1, 2) == 0 { [num(0), 256, num(2)] } else { [num(0), num(1), num(2)] };
      tiff(false, &data, &|_t, off| {
        let mut e = vec![(0x2, s(wu)), (0x3, s(hu)), (0x10f, a(&make)), (0x110, a(&model)), (0x112, s(ori))];
        e.push((if fmt == "rw2split" { 0x118 } else { 0x111 }, l(off)));
        if v(1, 2) == 0 { e.push((0x11, s(wb[0]))); e.push((0x12, s(wb[2]))) } else { e.push((0x24, s(wb[0]))); e.push((0x25, s(wb[1]))); e.push((0x26, s(wb[2]))) }
        e.sort_by_key(|x| x.0); e
      }).about(&make, &model, wb.map(|x| x as f32), ori).mode(mode)
    }
    "raf16" | "raf14" | "raf12" | "rafjpeg32" | "rafdw" | "rafrot" | "rafrotalt" => {
      let (bps, n) = match fmt { "raf12" => (12, px * 3 / 2), "raf14" => (14, px * 2), "rafjpeg32" => (12, px * 3 / 2), "rafdw" => (16, px * 4), _ => (16, px * 2) };
      let data = fill(n + 32, seed);
      let model = match fmt { "rafjpeg32" => "FinePix HS10 HS11", "rafdw" => "FinePix F700", "rafrot" => "FinePix E550", "rafrotalt" => "FinePixS2Pro", "raf14" => "X-T1", _ => "FinePix F600EXR" };
      let (_, model) = if fmt == "raf16" || fmt == "raf14" || fmt == "raf12" { cam(&["FUJIFILM"], "FUJIFILM", model, "") } else { ("".into(), model.to_string()) };
      let be = v(1, 2) == 0;
      let turned = fmt == "rafdw" || fmt == "rafrot" || fmt == "rafrotalt";
      // file header, an Exif-like tiff at 12+x, a raw tiff at ioffset, fuji table
      let mut b = vec![0u8; 160];
      b[0..8].copy_from_slice(b"FUJIFILM");
      let mut t1 = TB::new(be);
      let o = t1.ifd(&[(0x10f, a("FUJIFILM")), (0x110, a(&model)), (0x112, s(ori))], 0); t1.root(o);
      let p1 = b.len(); b.extend(&t1.b);
      while b.len() & 15 != 0 { b.push(0) }
      let mut hot = vec![(80, 108), (p1, b.len())]; let mut fields: Vec<usize> = vec![84, 92, 100, 104]; fields.extend(t1.fields.iter().map(|f| f + p1));
      let (mut dirs, mut ptrs, mut entries): (Vec<(usize, usize)>, Vec<(usize, usize)>, Vec<usize>) = (t1.dirs.iter().map(|d| (p1, d.1 + p1)).collect(), t1.ptrs.iter().map(|d| (p1, d.1 + p1)).collect(), t1.entries.iter().map(|e| e + p1).collect());
      b[84..88].copy_from_slice(&((p1 - 12) as u32).to_be_bytes());
      let p2 = b.len();
      let old = v(2, 3) == 0 && fmt != "raf14" && fmt != "raf12";
      let mut at = 0;
      if old {
        // the raw data itself at BE u32 @100, sizes in the fuji table
        let mut tb: Vec<u8> = vec![]; tb.extend(2u32.to_be_bytes());
        tb.extend(0x100u16.to_be_bytes()); tb.extend(4u16.to_be_bytes()); tb.extend((h as u16).to_be_bytes()); tb.extend((w as u16).to_be_bytes());
        tb.extend(0x2ff0u16.to_be_bytes()); tb.extend(8u16.to_be_bytes()); for k in 0..4 { tb.extend((num(k) as u16).to_be_bytes()) }
        b[92..96].copy_from_slice(&(p2 as u32).to_be_bytes());
        fields.push(p2); fields.push(p2 + 4); fields.push(p2 + 6); fields.push(p2 + 8); fields.push(p2 + 10);
        b.extend(tb); while b.len() & 15 != 0 { b.push(0) }
        hot.push((p2, b.len()));
        let o = b.len() as u32; b[100..104].copy_from_slice(&o.to_be_bytes());
        // keep the first bytes from looking like a tiff marker
        at = b.len();
        b.extend(&data); b[at] = 1;
      } else {
        let mut doff = 0;
        for _ in 0..2 {
          let mut t2 = TB::new(be);
          let sub = t2.ifd(&[(0xf001, l(wu)), (0xf002, l(hu)), (0xf003, l(bps)), (0xf007, l(doff)), (0xf00e, V::L(vec![num(0), num(1), num(2)]))], 0);
          let o = t2.ifd(&[(0xf000, l(sub))], 0); t2.root(o);
          while t2.b.len() & 15 != 0 { t2.b.push(0) }
          if t2.b.len() as u32 == doff { hot.push((p2, p2 + t2.b.len())); fields.extend(t2.fields.iter().map(|f| f + p2)); dirs.extend(t2.dirs.iter().map(|d| (p2, d.1 + p2))); ptrs.extend(t2.ptrs.iter().map(|d| (p2, d.1 + p2))); entries.extend(t2.entries.iter().map(|e| e + p2)); b.extend(&t2.b); at = b.len(); b.extend(&data); break }
          doff = t2.b.len() as u32;
        }
        b[100..104].copy_from_slice(&(p2 as u32).to_be_bytes());
        b[92..96].copy_from_slice(&(40u32).to_be_bytes());
      }
      let wb = if old { [num(1), num(0), num(3)] } else { [num(1), num(0), num(2)] };
      Built { b, hot, fields, be, data: at, dirs, ptrs, entries, ..Default::default() }.about("FUJIFILM", &model, wb.map(|x| x as f32), ori).kind(if turned { Kind::Turned } else { Kind::Db })
    }
    "kdc" => {
      let data = fill((w + 80) * (h + 70) * 3 / 2, seed);
      let way = v(44, 2);
      let hack = if v(47, 4) == 0 { 1 + v(49, 2) } else { 0 };
      let model = if hack > 0 { "KODAK EASYSHARE Z1015 IS DIGITAL CAMERA" } else { "KODAK P880 ZOOM DIGITAL CAMERA" };
      let notes = fill(if v(46, 2) == 0 { 734 } else { 1502 }, seed);
      let wb = if way == 0 { [u16::from_be_bytes([notes[148], notes[149]]) as f32 / 256.0, 1.0, u16::from_be_bytes([notes[150], notes[151]]) as f32 / 256.0] } else { [num(0), num(1), num(2)].map(|x| x as f32) };
      let mut done = tiff(true, &data, &|t, off| {
        // one camera means something else by its offset
        let given = if hack == 0 { off } else if hack == 1 { 0x100 + v(48, 0x14f00) as u32 } else { 0x15000 + v(48, 0x9000) as u32 };
        let k = t.ifd(&[(0xfd00, l(wu)), (0xfd01, l(hu)), (0xfd04, V::L((0..14).map(|i| if i == 4 { given - 16.min(given) } else if i == 12 { 16 } else { i }).collect())), (if way == 0 { 0xf00 } else { 0xfa2a }, if way == 0 { V::U(notes.clone()) } else { V::L(vec![num(0), num(1), num(2)]) })], 0);
        vec![(0x10f, a("EASTMAN KODAK COMPANY")), (0x110, a(model)), (0x112, s(ori)), (0xfe00, l(k))]
      }).about("EASTMAN KODAK COMPANY", model, wb, ori);
      // its samples are where they always are
      if hack > 0 { let at = [0x15000, 0x17000][hack as usize - 1]; let gap = at - done.data; let d = done.b.split_off(done.data); done.b.extend(fill(gap, seed ^ 1)); done.b.extend(d); done.data = at }
      done
    }
    "dcs" => {
      let data = fill(px, seed);
      let lin = curve(256, r, 60);
      tiff(true, &data, &|_t, off| { let mut e = basic("KODAK", "DCS460D         FILE VERSION 3", off, px as u32); e.push((0x123, V::S(lin.clone()))); e }).through(&lin).about("KODAK", "DCS460D         FILE VERSION 3", none, ori)
    }
    "dcr" => {
      // lengths (a nibble per pixel) of at most 6 bits so that predictors stay small; data after each segment header
      let mut data = vec![];
      let mut samples = None;
      if v(17, 4) != 0 { let f = walk(r, px, 2, 0, 4095); data = enc::dcr(&f, w); samples = Some(f) } else { for _ in 0..h { let mut c = 0; while c < w { let n = (w - c).min(256);
        for k in 0..(n + 1) / 2 { let x = if k == 0 { 0xbb } else { (r.below(4) | r.below(4) << 4) as u8 }; data.push(x) }
        let mut bits = 0usize; { let hdr = &data[data.len() - (n + 1) / 2..]; for b in hdr { bits += (b & 15) as usize + (b >> 4) as usize } }
        let mut extra = 0; if n & 7 == 4 { extra = 2; bits = bits.saturating_sub(16) }
        let words = (bits + 31) / 32;
        let mut d = fill(extra + words * 4, r.next()); for x in d.iter_mut().take(8) { *x = 0xff } data.extend(d); c += 256 } } }
      data.extend(fill(64, seed));
      let lin = curve(4096, r, 15);
      let notes = fill(if v(44, 4) == 0 { 45 } else { 46 + v(45, 20) as usize }, seed);
      let wb = if notes.len() < 46 { none } else { [40, 42, 44].map(|k: usize| 2048.0 / u16::from_be_bytes([notes[k], notes[k + 1]]) as f32) };
      tiff(true, &data, &|t, off| {
        let k = t.ifd(&[(0x3fd, V::U(notes.clone())), (0x90d, V::S(lin.clone()))], 0);
        let mut e = basic("Kodak", "DCS760C", off, data.len() as u32); e.push((0x8290, l(k))); e.push((0x828e, V::B(vec![0, 1, 1, 2]))); e.sort_by_key(|x| x.0); e
      }).holding(samples).through(&lin).about("Kodak", "DCS760C", wb, ori)
    }
    "nrwsplit" | "nrw32" | "nrw" => {
      let data = fill(px * 3 / 2 + 16, seed);
      let model = match fmt { "nrwsplit" => "E5700", "nrw32" => ["COOLPIX P6000", "COOLPIX P7000"][v(2, 2) as usize], _ => ["COOLPIX P330", "COOLPIX P340"][v(2, 2) as usize] };
      let (_, model) = cam(&["NIKON"], "NIKON", model, "");
      // the white balance in one of three places
      let way = v(43, 4);
      let mut notes = fill(1600, seed);
      let (at, wb) = match way {
        0 => { notes[..8].copy_from_slice(b"NRW 0100"); (1556, [0.0; 3]) }
        1 => { notes[..8].copy_from_slice(b"NRW 0200"); (56, [0.0; 3]) }
        2 => { notes[0] = 0; (0, [u16::from_be_bytes([notes[1248], notes[1249]]) as f32, 256.0, u16::from_be_bytes([notes[1250], notes[1251]]) as f32]) }
        _ => (0, [num(0) as f32 / 256.0, 1.0, num(1) as f32 / 256.0]),
      };
      let wb = if at > 0 { for k in 0..4 { notes[at + 4 * k..at + 4 * k + 4].copy_from_slice(&num(k as u64).to_le_bytes()) } [(num(0) * 4) as f32, (num(1) + num(2)) as f32, (num(3) * 4) as f32] } else { wb };
      let wb = if crate::db::find("NIKON", &model, "").map(|c| c.hints.iter().any(|x| x == "nowb")).unwrap_or(false) { none } else { wb };
      tiff(v(1, 2) == 0, &data, &|_t, off| { let mut e = basic("NIKON", &model, off, data.len() as u32); e.push(if way == 3 { (0xc, V::R(vec![(num(0), 256), (num(1), 256), (1, 1), (1, 1)])) } else { (0x14, V::U(notes.clone())) }); e.push((0x828e, V::B(vec![0, 1, 1, 2]))); e.sort_by_key(|x| x.0); e }).about("NIKON", &model, wb, ori)
    }
    "tfr" => {
      let mut samples = None;
      let data = if v(17, 4) != 0 {
        let mut f = walk(r, px, 2, 0, 65535);
        if v(49, 2) == 0 { let n = 1 + v(50, 200); for y in 0..h { for x in 0..w { let p = if x >= 2 { f[y * w + x - 2] } else { 0x8000 }; if r.chance(1, n) { f[y * w + x] = p.wrapping_add(0x8000) } } } }
        let code = Code::random(r, 17, 16);
        let mut bw = BitW::msb32();
        for y in 0..h { let mut p = [0x8000i32; 2]; for x in (0..w).step_by(2) {
          let mut d = [0i32; 2];
          for k in 0..2 { if x + k < w { d[k] = diff16(f[y * w + x + k], p[k]); p[k] = f[y * w + x + k] as i32 } }
          for k in 0..2 { let (c, n) = code.of[Code::len_of(d[k]) as usize]; bw.put(c, n) }
          for k in 0..2 { if d[k] == -32768 { bw.put(r.below(65536) as u32, 16) } else { Code::put_diff(&mut bw, d[k]) } }
        } }
        bw.align(32);
        let mut o = ljpeg_head(w, h, 1, 16, 8, 1, 1, 1, &[code]);
        o.extend(&bw.b); o.extend([0; 16]);
        samples = Some(f);
        o
      } else {
        let d = noff(fill(px * 4 + 64, seed));
        ljpeg(w, h, 1, 16, 8, 1, 1, 1, &d, r)
      };
      tiff(true, &data, &|_t, off| { let mut e = basic("Hasselblad", "Hasselblad H3D", off, data.len() as u32); e.push((0xc61d, l(65535))); e.push((0xc628, V::R(vec![(num(0), 3000), (1, 1), (num(1), 3000)]))); e }).holding(samples).about("Hasselblad", "Hasselblad H3D", [3000.0 / num(0) as f32, 1.0, 3000.0 / num(1) as f32], ori)
    }
    "iiq" => {
      let mut data: Vec<u8> = vec![]; let mut offs = vec![];
      let samples = if v(17, 4) != 0 { Some(walk(r, px, 2, 0, 65535)) } else { None };
      for y in 0..h { offs.push(data.len() as u32); data.extend(match &samples { Some(f) => enc::iiq(&f[y * w..(y + 1) * w], r), None => fill(w * 2 + 32, r.next()) }); while data.len() & 3 != 0 { data.push(0) } }
      let (make, model) = [("Phase One A/S", "IQ250"), ("Phase One A/S", "P30"), ("Leaf", "Credo 40")][v(1, 3) as usize];
      let (make, model) = cam(&["Phase One A/S", "Leaf"], make, model, "");
      let mul = [num(0), num(1), num(2)].map(|x| x as f32 / 512.0);
      let black = 4 * v(44, 500) as u32;
      with_data(false, &data, &|t, off| {
        t.b.extend([0; 8]); t.p32(0); t.b.extend([0; 4]); // u32 at 16 patched below
        let strip = t.blob(&offs.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
        let wb = t.blob(&mul.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
        while t.b.len() & 3 != 0 { t.b.push(0) }
        let tab = t.b.len();
        let mut ents = vec![(0x107u32, wb - 8), (0x108, wu), (0x109, hu), (0x10f, off - off.min(8)), (0x21c, strip - 8), (0x21d, black)];
        // other entries, in any order
        for k in 0..v(45, 4) { ents.insert(v(46 + k, ents.len() as u64 + 1) as usize, ([0x100, 0x110, 0x20c, 0x21e][v(50 + k, 4) as usize], num(60 + k))) }
        if v(54, 2) == 0 { ents.reverse() }
        t.p32(ents.len() as u32); t.p32(0);
        t.fields.push(16); t.fields.push(tab);
        for (tag, d) in ents { let p = t.b.len(); t.fields.push(p + 12); t.fields.push(p + 12); t.p32(tag); t.p32(1); t.p32(4); t.p32(d) }
        t.hot.push((16, 20)); t.hot.push((tab, t.b.len())); t.hot.push((strip as usize, strip as usize + offs.len() * 4));
        t.set32(16, tab as u32 - 8);
        let o = t.ifd(&[(0x10f, a(&make)), (0x110, a(&model)), (0x112, s(ori))], 0); t.root(o);
      }).holding(samples).about(&make, &model, mul, ori).black(Some([black as u16 / 4; 4]))
    }
    "mos16" | "moslj" | "moscmp" => {
      let mut samples = None;
      let data = if fmt == "mos16" { fill(px * 2, seed) } else if v(17, 4) != 0 && w % 2 == 0 {
        // strips of eight lines between restart markers
        let prec = if v(49, 3) == 0 { 16 } else { 14 };
        let mut f = walk(r, px, 2, 0, (1 << prec) - 1);
        let codes = [(); 2].map(|_| Code::random(r, if prec == 16 { 17 } else { 16 }, prec as u32));
        let mut o = ljpeg_head(w / 2, h, 2, prec, 1, 1, 1, 0, &codes);
        let n = (h - 1) / 8 + 1;
        for k in 0..n {
          let rows = (h - 8 * k).min(8);
          let p = &mut f[8 * k * w..(8 * k + rows) * w];
          if prec == 16 && v(50, 2) == 0 { far(p, w, rows, 2, 1 << 15, r) }
          let mut bw = BitW::msb();
          for y in 0..rows { for x in 0..w {
            let q = if x >= 2 { p[y * w + x - 2] as i32 } else if y > 0 { p[(y - 1) * w + x] as i32 } else { 1 << (prec - 1) };
            put16(&codes[x % 2], &mut bw, diff16(p[y * w + x], q), true);
          } }
          while bw.bits % 8 != 0 { bw.put(1, 1) }
          o.extend(stuff(&bw.b));
          if k + 1 < n { o.extend([0xff, 0xd0 + (k % 8) as u8]) }
        }
        o.extend([0xff, 0xd9]);
        samples = Some(f);
        o
      } else {
        let mut d: Vec<u8> = vec![];
        let n = (h - 1) / 8 + 1;
        for k in 0..n { d.extend(noff(fill(w * 8 * 3 + 32, r.next()))); if k + 1 < n { d.extend([0xff, 0xd0 + (k % 8) as u8]) } }
        d.extend([0xff, 0xd9]);
        ljpeg(w / 2, h, 2, 14, 1, 1, 1, 0, &d, r)
      };
      let be = v(1, 2) == 0;
      let model = if fmt == "moscmp" { "Leaf Aptus-II 12" } else { "Leaf Aptus 75" };
      let xmp = format!("<x><tiff:Make>Leaf</tiff:Make><tiff:Model>{}(LF1234)/Some</tiff:Model></x>", model);
      let mut meta = vec![0u8; 30]; meta.extend(b"NeutObj_neutrals"); meta.extend([1; 28]); meta.extend(format!("{}\n{}\n{}\n{}\n\0", num(0), num(1), num(2), num(3)).bytes()); meta.extend([0; 40]);
      // without a white balance, or with half of one
      let lost = v(44, 6);
      if lost == 0 { meta[31] = b'X' } else if lost == 1 { meta.truncate(30 + 16 + 28); meta.extend(format!("{}\n{}\n\0", num(0), num(1)).bytes()); meta.extend([0; 60]) }
      tiff(be, &data, &|_t, off| vec![(0x100, l(wu)), (0x101, l(hu)), (0x103, s(match fmt { "mos16" => 1, "moslj" => 99, _ => 7 })), (0x131, a("Camera Library")), (0x144, l(off)), (0x2bc, V::B(xmp.as_bytes().to_vec())), (0x8606, V::U(meta.clone()))]).holding(samples).about("Leaf", model, if lost < 2 { none } else { [1, 2, 3].map(|k| num(0) as f32 / num(k) as f32) }, 0)
    }
    "nef12" | "nef14" | "nefd100" | "snef" | "nefc" => {
      let bps: u32 = if fmt == "nef14" || (fmt == "nefc" && v(1, 2) == 0) { 14 } else { 12 };
      let kind = v(3, 3);
      let mut samples = None;
      let data = match fmt { "nef12" => fill(px * 3 / 2, seed), "nef14" => fill(px * 2, seed), "nefd100" => fill(w * h / 10 * 16 + 64, seed),
        "snef" => { let mut d = vec![];
          for _ in 0..px / 2 { let (y1, y2, cb, cr) = if v(17, 4) != 0 && r.chance(1, 4) { (r.below(4096) as u32, r.below(4096) as u32, r.below(4096) as u32, r.below(4096) as u32) } else { (600 + r.below(2200) as u32, 600 + r.below(2200) as u32, 1800 + r.below(500) as u32, 1800 + r.below(500) as u32) };
            for (p, q) in [(y1, y2), (cb, cr)] { d.extend([p as u8, (p >> 8 | (q & 15) << 4) as u8, (q >> 4) as u8]) } }
          d.resize(px * 3, 0); d }
        _ => {
          let sel = if kind == 0 { 2 } else { 0 } + if bps == 14 { 3 } else { 0 };
          let mut bw = BitW::msb(); let mut walk = [[2000i32; 2]; 2]; let mut all = vec![];
          for row in 0..h {
            let tree = &NIKON_TREE[if kind == 1 && h / 2 > 0 && row >= h / 2 { sel + 1 } else { sel }];
            let mut left = [0i32; 2];
            for col in 0..w {
              let base = if col < 2 { walk[col & 1][row & 1] } else { left[col & 1] };
              let n = r.below(5) as u32;
              let mut d = r.below(1 << n) as i32; if n > 0 && d < 1 << (n - 1) { d -= (1 << n) - 1 }
              if base + d < 1200 || base + d > 3000 { d = -d }
              huff_put(&mut bw, tree, d);
              if col < 2 { walk[col & 1][row & 1] = base + d }
              left[col & 1] = base + d;
              all.push((base + d) as u16);
            }
          }
          samples = Some(all);
          bw.put(0, 16); bw.align(64); bw.b.extend([0; 32]); bw.b } };
      let be = v(2, 2) == 0;
      let cnt = if fmt == "nefc" { (px * bps as usize / 8) as u32 + 1 } else { data.len() as u32 };
      let cnt = if fmt == "nefc" && cnt as usize == px * 3 { cnt + 1 } else { cnt };
      // the table in full: given for every value, every 16th or 64th, or not at all
      let mut table: Vec<u32> = (0..1 << bps).collect();
      if kind == 1 { let step = (1usize << bps) / 256; table = (0..1usize << bps).map(|i| { let (a, b) = ((i / step * 14) as u32, ((i / step + 1) * 14) as u32); (a * (step - i % step) as u32 + b * (i % step) as u32) / step as u32 }).collect() }
      let mut meta: Vec<u8> = vec![];
      // the maker's note may be a file of its own, in an order of its own
      let note = v(44, 4);
      let mbe = if note < 2 { note == 0 } else { be };
      let p16 = |m: &mut Vec<u8>, x: u16| if mbe { m.extend(x.to_be_bytes()) } else { m.extend(x.to_le_bytes()) };
      meta.extend(match kind { 0 => [70u8, 48], 1 => [68, 32], _ => [[68, 48], [73, 48], [68, 88]][v(50, 3) as usize] });
      if meta[0] == 73 || meta[1] == 88 { meta.extend(fill(2110, seed ^ 2)) }
      for _ in 0..4 { p16(&mut meta, 2000) }
      match kind { 0 => p16(&mut meta, 0), 1 => { let n = 257u16; p16(&mut meta, n); for i in 0..n { p16(&mut meta, i * 14) } while meta.len() < 562 { meta.push(0) } p16(&mut meta, (h / 2) as u16) }
        _ => { let n = 0x4000u16; p16(&mut meta, n); for i in 0..n { p16(&mut meta, i) } } }
      meta.extend([0; 16]);
      let model = match fmt { "nefd100" => "NIKON D100", "snef" => "NIKON D4S", _ => if v(6, 2) == 0 { "NIKON D600" } else if bps == 12 { "NIKON D80" } else { "NIKON D3" } };
      let tag = if v(8, 7) == 0 && fmt != "snef" && fmt != "nefd100" { 10 + v(9, 4) as u32 } else { bps };
      let (_, model) = if fmt == "nefd100" || fmt == "snef" { ("".into(), model.to_string()) } else { cam(&["NIKON CORPORATION"], "NIKON CORPORATION", model, &format!("{}bit", bps)) };
      // the older places of the white balance
      let wb3 = [num(0), num(1), num(2)];
      let old: Option<(Vec<u8>, String, [u8; 4])> = if fmt == "snef" || v(46, 2) == 0 { None } else {
        let mut d = fill(700, seed);
        let put = |d: &mut Vec<u8>, at: usize, x: u32| { let b = if mbe { (x as u16).to_be_bytes() } else { (x as u16).to_le_bytes() }; d[at..at + 2].copy_from_slice(&b) };
        match v(47, 4) {
          0 => { d[..4].copy_from_slice(b"0100"); put(&mut d, 72, wb3[0]); put(&mut d, 74, wb3[2]); put(&mut d, 76, wb3[1]); Some((d, "".into(), [0; 4])) }
          1 => { d[..4].copy_from_slice(b"0103"); for k in 0..3 { put(&mut d, 20 + 2 * k, wb3[k]) } Some((d, "".into(), [0; 4])) }
          x => {
            d[..4].copy_from_slice(if x == 2 { b"0204" } else { b"0205" });
            let (from, at) = if x == 2 { (284, 6) } else { (4, 14) };
            let serial = match v(48, 3) { 0 => format!("{}", 1000000 + num(5)), 1 => format!("No={:08x}", num(6)), _ => "D70s ?".to_string() };
            let key = [num(7) as u8, num(8) as u8, num(9) as u8, num(10) as u8];
            let key = if key == [0; 4] { [0, 0, 0, 1] } else { key };
            let plain = [wb3[0], wb3[1], 77, wb3[2]];
            for (k, p) in plain.iter().enumerate() { d[from + at + 2 * k..from + at + 2 * k + 2].copy_from_slice(&(*p as u16).to_be_bytes()) }
            enc::nikon_crypt(&mut d[from..from + 280], &serial, key);
            Some((d, serial, key))
          }
        }
      };
      let wbr = if fmt == "snef" { [(3, 2), (5, 4)] } else { [(num(0), 256), (num(1), 256)] };
      let wb = if old.is_some() { wb3.map(|x| x as f32) } else { [wbr[0].0 as f32 / wbr[0].1 as f32, 1.0, wbr[1].0 as f32 / wbr[1].1 as f32] };
      tiff(be, &data, &|t, off| {
        let raw = vec![(0x100, l(wu)), (0x101, l(hu)), (0x102, s(tag)), (0x103, s(if (fmt == "nef12" && v(4, 2) == 0) || fmt == "nef14" { 1 } else { 34713 })), (0x111, l(off)), (0x117, l(cnt)), (0x828e, V::B(vec![0, 1, 1, 2]))];
        let ro = t.ifd(&raw, 0);
        let mut mk = vec![];
        match &old { None => mk.push((0xc, V::R(vec![wbr[0], wbr[1], (1, 1), (1, 1)]))), Some((d, serial, key)) => { if *key != [0; 4] { mk.push((0x1d, a(serial))); mk.push((0xa7, V::U(key.to_vec()))) } mk.push((0x97, V::U(d.clone()))) } }
        if fmt == "nefc" { mk.push((0x8c, V::U(meta.clone()))); if v(5, 2) == 0 { mk.push((0x96, V::U(meta.clone()))) } }
        mk.sort_by_key(|x| x.0);
        let mo = match note {
          0 | 1 => { let m = t.maker(&[&b"Nikon\0\x02\x10\0\0"[..], if mbe { &b"MM\0*\0\0\0\x08"[..] } else { &b"II*\0\x08\0\0\0"[..] }].concat(), Some(10), mbe, &mk); t.ifd(&[(0x927c, m)], 0) }
          2 => t.ifd(&mk, 0),
          _ => { let m = t.maker(b"", None, be, &mk); t.ifd(&[(0x927c, m)], 0) }
        };
        vec![(0x10f, a("NIKON CORPORATION")), (0x110, a(&model)), (0x112, s(ori)), (0x14a, l(ro)), (0x8769, l(mo))]
      }).holding(samples).through(&table).about("NIKON CORPORATION", &model, wb, ori).mode(&format!("{}bit", tag)).kind(if fmt == "snef" { Kind::Rgb(true) } else { Kind::Db })
    }
    "cr2" | "cr2stripe" | "sraw" | "sraw420" | "cr2lin" => {
      let (cps, prec, sh, sv) = match fmt { "sraw" => (3, 15, 2, 1), "sraw420" => (3, 15, 2, 2), _ => (if v(1, 2) == 0 { 4 } else { 2 }, if fmt == "cr2lin" { 12 } else { 14 }, 1, 1) };
      let (sw, sh_) = match fmt { "sraw" | "sraw420" => ((w + 3) & !3, (h + 1) & !1), _ => (((w + 7) & !7) / cps, h) };
      let mut samples = None;
      let data = if v(17, 4) == 0 {
        let d = noff(fill(px * 8 + 256, seed));
        ljpeg(sw, sh_, cps, prec, 1, sh, sv, 1, &d, r)
      } else if cps != 3 {
        let (lo, hi) = if h > 1000 || v(46, 8) == 0 { let b = 200 + v(47, 3000); (b, b + 1 + v(48, 40)) } else { (0, (1 << prec) - 1) };
        let mut f = walk(r, sw * cps * sh_, cps, lo as u32, hi as u32);
        let j = ljpeg_enc(&mut f, sw * cps, sh_, cps, prec, r);
        samples = Some(f);
        j
      } else {
        // luminance for every pixel, colour for every two or four: each block once
        let codes = [Code::random(r, 16, 15), Code::random(r, 16, 15), Code::random(r, 16, 15)];
        let mut o = ljpeg_head(sw, sh_, 3, prec, 1, sh, sv, 1, &codes);
        let mut bw = BitW::msb();
        let mut f = vec![0u16; sw * 3 * sh_];
        let rows = sv as usize;
        let mut start = [1i32 << (prec - 1); 3];
        for y in (0..sh_).step_by(rows) {
          let mut p = start;
          for x in (0..sw).step_by(2) {
            let mut put = |c: usize, bw: &mut BitW, p: &mut [i32; 3], lo: i32, hi: i32| -> u16 {
              let x = if r.chance(1, 5) { lo + r.below((hi - lo) as u64) as i32 } else { (p[c] + r.below(257) as i32 - 128).max(lo).min(hi) };
              codes[c].put(bw, x - p[c]); p[c] = x; x as u16 };
            let mut ys = vec![];
            for k in 0..2 * rows { let q = put(0, &mut bw, &mut p, 1000, 20000); if x == 0 && k == 0 { start[0] = q as i32 } ys.push(q) }
            let (cb, cr) = (put(1, &mut bw, &mut p, 12000, 20000), put(2, &mut bw, &mut p, 12000, 20000));
            if x == 0 { start[1] = cb as i32; start[2] = cr as i32 }
            for (k, q) in ys.iter().enumerate() { let at = ((y + k / 2) * sw + x + k % 2) * 3; f[at] = *q; f[at + 1] = cb; f[at + 2] = cr }
          }
        }
        while bw.bits % 8 != 0 { bw.put(1, 1) }
        o.extend(stuff(&bw.b)); o.extend([0xff, 0xd9]);
        samples = Some(f);
        o
      };
      let model = match fmt { "sraw" | "sraw420" => if v(50, 2) == 0 { "Canon EOS 40D" } else { "Canon EOS 450D" }, "cr2lin" => "DCS560C", _ => ["Canon EOS 10D", "Canon EOS 450D", "Canon EOS-1D"][v(2, 3) as usize] };
      let double = model == "Canon EOS-1D";
      let make = if fmt == "cr2lin" { "Kodak" } else { "Canon" };
      let (_, model) = if model == "Canon EOS 40D" || fmt == "cr2lin" { ("".into(), model.to_string()) } else if double { crate::db::other(&["Canon"], ("Canon", model), "", (((w + 7) & !7) / 2, h * 2), v(42, 1 << 30)) } else if cps == 3 { crate::db::other(&["Canon"], ("Canon", model), "", (sw.min(sh_), sw.min(sh_)), v(42, 1 << 30)) } else { crate::db::other(&["Canon"], ("Canon", model), "", ((w + 7) & !7, h), v(42, 1 << 30)) };
      // the colour data, of which each camera has the white balance somewhere else
      let cd: Vec<u32> = if cps == 3 { (0..800).map(|i| 300 + num(1000 + i) % 2700).collect() } else { (0..800).map(|i| num(1000 + i)).collect() };
      let way = if fmt.starts_with("sraw") { 0 } else { v(45, 5) };
      let at = crate::db::find(make, &model, "").map(|c| c.wb_offset).filter(|o| *o > 0).unwrap_or(63);
      let wb = match way { 1 => [3, 2, 4].map(|k| num(k) as f32), 2 => [num(0) as f32 / 512.0, num(1) as f32 / 512.0, num(2) as f32 / 512.0], 3 => none, _ => [cd[at], cd[at + 1], cd[at + 3]].map(|x| x as f32) };
      let lin = curve(4096, r, 15);
      let full = if double && fmt != "cr2lin" { sw * cps / 2 } else { sw * cps };
      // where the samples are said to be
      let route = v(52, 6);
      tiff(v(3, 3) == 0, &data, &|t, off| {
        let mut raw = match route { 0 => vec![(0x111, l(off)), (0x117, l(data.len() as u32)), (0x828e, V::B(vec![0, 1, 1, 2]))], 1 => vec![(0x81, l(off))], _ => vec![(0x111, l(off)), (0x117, l(data.len() as u32)), (0xc5d8, l(1))] };
        if fmt == "cr2stripe" { let n = 1 + v(4, 3) as usize; let fw = full / (n + 1) / 4 * 4; raw.push((0xc640, V::S(vec![n as u32, fw as u32, (full - n * fw) as u32]))) }
        if cps == 3 {
          if let Some((x, y)) = sraw_shape(var, sw, sh_).1 { raw.push((0x100, l(x as u32))); raw.push((0x101, l(y as u32))) }
          // what is counted are the values stored for two rows or for one
          if let Some((n, cols, last)) = sraw_stripes(var, sw, sh_, sv == 2) { let k = if sv == 2 { 3 } else { 2 }; raw.push((0xc640, V::S(vec![n as u32, (cols * k) as u32, (last * k) as u32]))) }
          else if v(5, 2) == 0 { raw.push((0xc640, V::S(vec![0, 0, (sw * 3) as u32]))) }
        }
        let mut e = vec![(0x10f, a(make)), (0x110, a(&model)), (0x112, s(ori))];
        if route == 1 { e.extend(raw) } else { let ro = t.ifd(&raw, 0); e.push((0x14a, l(ro))) }
        match way { 1 => e.push((0x29, V::L((0..8).map(|k| num(k)).collect()))), 2 => e.push((0xa4, V::R((0..3).map(|k| (num(k), 512)).collect()))), 3 => {} _ => e.push((0x4001, V::S(cd.clone()))) }
        if fmt == "cr2lin" { e.insert(3, (0x123, V::S(lin.clone()))) }
        e
      }).holding(samples).through(&lin).about(make, &model, wb, ori).kind(if cps == 3 { Kind::Rgb(false) } else { Kind::Db })
    }
    "pef16" | "pef12" | "pefc" => {
      let be = v(1, 2) == 0;
      let mut samples = None;
      let mut own: Vec<u8> = vec![];
      let data = match fmt { "pef16" => fill(px * 2, seed), "pef12" => fill(px * 3 / 2, seed), _ if v(17, 4) != 0 => {
          let f = walk(r, px, 2, 0, 4095);
          // the code is given in the file, or it is the old one; lengths above 12 do not occur
          let d = if v(3, 2) == 0 {
            let code = Code::random(r, 13, 12);
            let p16 = |m: &mut Vec<u8>, x: u32| if be { m.extend((x as u16).to_be_bytes()) } else { m.extend((x as u16).to_le_bytes()) };
            p16(&mut own, 1); own.extend([0; 12]);
            for (c, n) in &code.of { p16(&mut own, c << (12 - n)) }
            for (_, n) in &code.of { own.push(*n as u8) }
            enc::pef(&f, w, h, &|bw, d| code.put(bw, d))
          } else { enc::pef(&f, w, h, &|bw, d| huff_put(bw, &PENTAX_TREE, d)) };
          samples = Some(f); d }
        _ => fill(px * 4 + 64, seed) };
      let (make, model) = cam(&["PENTAX Corporation", "RICOH IMAGING COMPANY, LTD.", "PENTAX"], "PENTAX", "PENTAX K-5", "");
      let black = v(2, 2) == 0;
      let blacks = if v(49, 2) == 0 { [num(4); 4] } else { [0; 4].map(|_| 30 + r.below(300) as u32) };
      tiff(be, &data, &|t, off| {
        let mut e = basic(&make, &model, off, data.len() as u32);
        e.push((0x103, s(match fmt { "pef16" => 1, "pef12" => 32773, _ => 65535 })));
        let mut mk = vec![(0x201, V::S(vec![num(0), num(1), num(2), num(3)]))];
        if black { mk.insert(0, (0x200, V::S(blacks.to_vec()))) }
        if !own.is_empty() { mk.push((0x220, V::U(own.clone()))) }
        let order: &[u8] = if be { b"MM" } else { b"II" };
        let mo = match v(44, 4) {
          0 => t.ifd(&mk, 0),
          1 => { let m = t.maker(&[&b"AOC\0"[..], if v(46, 2) == 0 { order } else { b"" }].concat(), None, be, &mk); t.ifd(&[(0x927c, m)], 0) }
          2 => { let m = t.maker(&[&b"PENTAX \0"[..], order].concat(), Some(0), be, &mk); t.ifd(&[(0x927c, m)], 0) }
          _ => { let m = t.maker(b"", None, be, &mk); t.ifd(&[(0x927c, m)], 0) }
        };
        e.push((0x8769, l(mo))); e
      }).holding(samples).about(&make, &model, [num(0) as f32, num(1) as f32, num(3) as f32], ori).black(if black { Some(blacks.map(|x| x as u16)) } else { Some([crate::db::find(&make, &model, "").map(|c| c.black).unwrap_or(0); 4]) })
    }
    "srw12u" | "srw12le" | "srw12be" | "srw1" | "srw2" | "srw3" => {
      let mut offs: Vec<u32> = vec![];
      let mut data: Vec<u8> = match fmt { "srw12u" => fill(px * 2, seed), "srw12le" | "srw12be" => fill(px * 3 / 2, seed), _ => vec![] };
      let pat = |r: &mut Rng, n: usize| -> Vec<u8> { let mut d = fill(n, r.next()); if r.chance(1, 2) { for b in d.iter_mut() { *b &= 0x1f } } d };
      let mut samples = None;
      let exact = v(17, 4) != 0;
      match fmt {
        "srw1" if exact && w % 16 == 0 && h % 2 == 0 => { let f = walk(r, px, 2, 0, 4095); let (d, o) = enc::srw1(&f, w, h, r); data = d; offs = o; samples = Some(f) }
        "srw2" if exact => { let f = walk(r, px, 2, 0, 4095); data = enc::srw2(&f, w, h); samples = Some(f) }
        "srw3" if exact && w % 16 == 0 => {
          let depth = if v(4, 3) == 0 { 12 } else { 14 };
          let mut f = walk(r, px, 2, 0, (1 << depth) - 1);
          // repeat some blocks, for there is a way to say so
          for k in 1..px / 16 { if k * 16 % w != 0 && r.chance(1, 12) { for i in 0..16 { f[k * 16 + i] = f[k * 16 - 2 + i % 2] } } }
          data = enc::srw3(&mut f, w, h, depth, r.below(1 << depth) as u16, v(5, 8) as u32, r); samples = Some(f) }
        // op bits zero: keep lengths; 32-bit words with mostly zero content
        "srw1" => for _ in 0..h { offs.push(data.len() as u32); let mut d = pat(r, w * 2 + 32); for c in d.chunks_mut(4) { if c.len() == 4 { c[3] &= 0x00; } } data.extend(d) },
        "srw2" => data = fill(px * 4 + 64, seed),
        "srw3" => {
          let mut bw = BitW::msb32();
          bw.put(0, 16); bw.put(0, 4); bw.put(13, 4); bw.put(0, 8); bw.put(wu, 16); bw.put(hu, 16); bw.put(wu, 16); bw.put(0, 4); bw.put(7, 4); bw.put(0, 26); bw.put(4096 + (seed & 0xfff) as u32, 14);
          for row in 0..h {
            bw.align(128);
            let mut modes = [[if row < 2 { 7u32 } else { 4 }; 2]; 3];
            for _ in (0..w).step_by(16) {
              bw.put(if row < 2 { 0 } else { r.below(2) as u32 }, 1);
              let mut len = [0u32; 4];
              let mut fl = [0u32; 4];
              for i in 0..4 {
                let c = if row % 2 != 0 { i >> 1 } else { ((i >> 1) + 2) % 3 };
                let m = modes[c][0];
                fl[i] = r.below(4) as u32;
                if fl[i] == 1 && m >= 9 { fl[i] = 3 }
                if fl[i] == 2 && m == 0 { fl[i] = 0 }
                len[i] = match fl[i] { 0 => m, 1 => m + 1, 2 => m - 1, _ => r.below(9) as u32 };
                modes[c][0] = modes[c][1]; modes[c][1] = len[i];
              }
              for i in 0..4 { bw.put(fl[i], 2) }
              for i in 0..4 { if fl[i] == 3 { bw.put(len[i], 4) } }
              for i in 0..16 { bw.put(r.next() as u32, len[i >> 2]) }
            }
          }
          bw.align(128); bw.b.extend([0; 64]); data = bw.b }
        _ => {}
      }
      let deep = matches!(fmt, "srw12u" | "srw12le" | "srw12be") && v(6, 4) == 0;
      if deep { data = fill(px * 2, seed) }
      let model = if fmt == "srw12be" { "EX1" } else { "NX1000" };
      let (_, model) = cam(&["SAMSUNG"], "SAMSUNG", model, "");
      tiff(false, &data, &|t, off| {
        let lo = t.blob(&offs.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
        let mut e = basic("SAMSUNG", &model, off, data.len() as u32);
        e.push((0x102, s(if deep { 14 } else { 12 })));
        e.push((0x103, s(match fmt { "srw12u" => 32769, "srw12le" | "srw12be" | "srw1" => 32770, "srw2" => 32772, _ => 32773 })));
        if fmt == "srw1" { e.push((0xa010, l(lo))) }
        // offsets that count from the start of the directory they are in
        let (at, n) = (t.b.len() + (t.b.len() & 1), 2 + 2 * 12 + 4);
        let mo = t.ifd(&[(0xa021, V::Raw(4, 4, n as u32)), (0xa028, V::Raw(4, 4, n as u32 + 16))], 0);
        assert!(mo as usize == at);
        for k in 0..8 { t.p32(num(k)) }
        e.push((0x8769, l(mo))); e.sort_by_key(|x| x.0); e
      }).holding(samples).about("SAMSUNG", &model, [0, 1, 3].map(|k| num(k) as f32 - num(k + 4) as f32), ori)
    }
    "ari" => {
      let mut b = vec![0u8; 4096];
      b[0..4].copy_from_slice(b"ARRI"); b[8..12].copy_from_slice(&4096u32.to_le_bytes());
      b[20..24].copy_from_slice(&wu.to_le_bytes()); b[24..28].copy_from_slice(&hu.to_le_bytes());
      for k in 0..3 { b[100 + 4 * k..104 + 4 * k].copy_from_slice(&(num(k as u64) as f32 / 256.0).to_le_bytes()) }
      b[668..673].copy_from_slice(b"ALEXA");
      b.extend(fill(px * 3 / 2 + 32, seed));
      Built { b, hot: vec![(0, 4), (8, 12), (20, 28), (100, 112), (668, 676)], fields: vec![8, 20, 24, 100], be: false, data: 4096, ..Default::default() }.about("ARRI", "ALEXA", [0, 1, 2].map(|k| num(k) as f32 / 256.0), 0)
    }
    "crw" | "crw70" => {
      // header, low bits, compressed data, value data, directory
      let mut b: Vec<u8> = vec![];
      b.extend(b"II"); b.extend(26u32.to_le_bytes()); b.extend(b"HEAPCCDR"); b.extend([0; 12]);
      let big = fmt == "crw70";
      let body = if big { 1552 * 1024 * 10 / 8 } else { 540 + px / 4 + px * 4 + 256 };
      let low = !(w >= 2400 && w != 2672);
      let mut samples = None;
      if !big && v(17, 4) != 0 && px % 64 == 0 {
        let f = enc::crw_samples(r, px, w);
        let l = fill(514 + if low { px / 4 } else { 0 }, seed);
        samples = Some(if low { f.iter().enumerate().map(|(i, x)| { let y = x << 2 | (l[i / 4] >> (i % 4 * 2) & 3) as u16; if w == 2672 && y < 512 { y + 2 } else { y } }).collect() } else { f.clone() });
        b.extend(l); b.extend(enc::crw(&f, w, (seed % 3) as usize));
      } else { b.extend(noff(fill(body, seed))) }
      let model = if big { "Canon PowerShot Pro70" } else if !low { ["Canon PowerShot G2", "Canon PowerShot G1", "Canon PowerShot S30", "Canon PowerShot S40"][v(44, 4) as usize] } else { ["Canon EOS 10D", "Canon EOS D30", "Canon EOS 10D", "Canon EOS 300D DIGITAL", "Canon PowerShot G6", "Canon PowerShot S60", "Canon PowerShot Pro1", "Canon PowerShot G3"][v(1, 8) as usize] };
      let model = if big || crate::db::fits(crate::db::find("Canon", model, "").expect("camera"), (w, h)) { model } else if low { "Canon EOS 10D" } else { "Canon PowerShot G2" };
      let cam = crate::db::find("Canon", model, "").expect("camera");
      let hint = |h: &str| cam.hints.iter().any(|x| x == h);
      let mk = [&b"Canon\0"[..], model.as_bytes(), &b"\0"[..]].concat();
      // the white balance in one of three places, or nowhere
      let q = |k: usize| num(1000 + k as u64);
      let at = cam.wb_offset;
      let way = v(45, 5);
      let d30 = v(46, 2) == 0;
      let mut first = q(0);
      let wb: [f32; 4] = match way {
        0 | 1 => [q(at) as f32, q(at + 1) as f32, q(at + 3) as f32, f32::NAN],
        2 if !hint("nocinfo2") => { first = if v(47, 2) == 0 { 512 } else { 513 }; if first > 512 { [q(62), q(63), q(60), q(61)].map(|x| x as f32) } else { [q(51) as f32, (q(50) as f32 + q(53) as f32) / 2.0, q(52) as f32, f32::NAN] } }
        3 if d30 => [1024.0 / q(36) as f32, 1024.0 / q(37) as f32, 1024.0 / q(39) as f32, f32::NAN],
        3 => { let k = if hint("wb_mangle") { [0x410, 0x45f3] } else { [0, 0] }; [(q(at + 1) ^ k[1]) as f32, (q(at) ^ k[0]) as f32, (q(at + 2) ^ k[0]) as f32, f32::NAN] }
        _ => [f32::NAN; 4],
      };
      let colour: Vec<u8> = (0..384).flat_map(|k| (if k == 0 { first } else { q(k) } as u16).to_le_bytes()).collect();
      let shape: Vec<u8> = [34u16, w as u16, h as u16, 1, 1, 0, 0, 0].iter().flat_map(|x| x.to_le_bytes()).collect();
      let mut ents: Vec<(u16, Vec<u8>)> = vec![(0x080a, mk.clone()), (0x1031, shape)];
      let (tag, n) = match way { 0 | 1 => (0x10a9, 400), 2 => (0x102c, 400), 3 => (0x0032, if d30 { 768 } else { 700 }), _ => (0x102a, 40) };
      ents.push((tag, colour[..n].to_vec()));
      // some of the values in heaps inside of the heap
      let inner: Vec<(u16, Vec<u8>)> = match v(49, 4) { 0 => ents.drain(1..).collect(), 1 => ents.drain(2..).collect(), _ => vec![] };
      let mut hot = vec![(0, 26)]; let mut fields = vec![2usize]; let mut entries: Vec<usize> = vec![];
      let mut heap = |b: &mut Vec<u8>, start: usize, ents: &[(u16, Vec<u8>)], table: bool, hot: &mut Vec<(usize, usize)>| {
        let mut recs = vec![];
        for (t, d) in ents { let o = b.len(); b.extend(d); if *t == 0x1031 { fields.extend([o, o + 2, o + 4]) } if *t != 0x300a { hot.push((o, o + d.len().min(64))) } recs.push((*t, d.len(), o)); while b.len() & 1 != 0 { b.push(0) } }
        let dir = b.len();
        b.extend(((recs.len() + table as usize) as u16).to_le_bytes());
        for (t, n, o) in recs { let p = b.len(); entries.push(p); fields.extend([p, p + 2, p + 6]); b.extend(t.to_le_bytes()); b.extend((n as u32).to_le_bytes()); b.extend(((o - start) as u32).to_le_bytes()) }
        if table { let p = b.len(); entries.push(p); fields.extend([p, p + 2]); b.extend(0x5835u16.to_le_bytes()); b.extend(((seed % 3) as u32).to_le_bytes()); b.extend(0u32.to_le_bytes()) }
        fields.push(b.len());
        b.extend(((dir - start) as u32).to_le_bytes());
        hot.push((dir, b.len()));
      };
      if !inner.is_empty() {
        let start = b.len();
        let mut x = b.clone();
        heap(&mut x, start, &inner, false, &mut hot);
        ents.push((0x300a, x[start..].to_vec()));
        // it is the first value of the outer heap, so that it lies where it was built
        let last = ents.len() - 1; ents.swap(0, last);
      }
      heap(&mut b, 26, &ents, true, &mut hot);
      let mut done = Built { b, hot, fields, be: false, data: 26, entries, ..Default::default() }.holding(samples).about("Canon", model, [wb[0], wb[1], wb[2]], 0);
      if let Some(x) = &mut done.about { x.wb[3] = wb[3] }
      done
    }
    "nkd10" => Built { b: bare(6573120, seed, v(1, 4)), hot: vec![], fields: vec![], be: false, data: 0, ..Default::default() }.naked(6573120),
    "nkdal" => Built { b: bare(6114240, seed, v(1, 4)), hot: vec![], fields: vec![], be: false, data: 0, ..Default::default() }.naked(6114240),
    "nkd12" => Built { b: bare(18763488, seed, v(1, 4)), hot: vec![], fields: vec![], be: false, data: 0, ..Default::default() }.naked(18763488),
    "x3f" => {
      let mut b: Vec<u8> = vec![]; b.extend(b"FOVb"); b.extend(fill(60, seed));
      let img = b.len(); b.extend(b"SECi"); b.extend(0x20000u32.to_le_bytes()); for x in [3u32, 30, wu, hu, wu * 2] { b.extend(x.to_le_bytes()) } b.extend(fill(px.min(4096), seed));
      let camf = b.len(); b.extend(b"SECc"); b.extend(fill(64, seed));
      let dir = b.len(); b.extend(b"SECd"); b.extend(0x20000u32.to_le_bytes()); b.extend(2u32.to_le_bytes());
      for (o, n, id) in [(img, camf - img, b"IMA2"), (camf, dir - camf, b"CAMF")] { b.extend((o as u32).to_le_bytes()); b.extend((n as u32).to_le_bytes()); b.extend(id) }
      b.extend((dir as u32).to_le_bytes());
      let n = b.len();
      Built { b, hot: vec![(0, 8), (img, img + 28), (dir, n)], fields: vec![img + 4, img + 8, img + 16, dir + 4, dir + 8, dir + 12, dir + 16, n - 4], be: false, data: img, ..Default::default() }
    }
    _ => { // junk: nothing recognisable, or an empty file, or only a magic
      let n = (var % 5000) as usize;
      let mut b = if var % 7 == 0 { vec![] } else { fill(n, seed) };
      let mag: &[&[u8]] = &[b"II*\0\x08\0\0\0", b"MM\0*\0\0\0\x08", b"\0MRM", b"FUJIFILM", b"ARRI", b"FOVb", b"II\x1a\0\0\0HEAPCCDR", b""];
      let m = mag[(seed % mag.len() as u64) as usize];
      for (i, c) in m.iter().enumerate() { if i < b.len() { b[i] = *c } }
      let n = b.len();
      Built { b, hot: vec![(0, n.min(128))], fields: vec![], be: false, data: 0, ..Default::default() }
    }
  }
}

/// samples and nothing else, told by their number. They may begin with anything, with the first bytes of a TIFF as well,
/// though not with all of its header: what would then be right is anyone's guess.
fn bare(n: usize, seed: u64, how: u64) -> Vec<u8> {
  let mut b = fill(n, seed);
  if how == 0 { let m: &[u8] = if seed & 1 == 0 { b"II" } else { b"MM" }; b[..2].copy_from_slice(m) }
  if &b[..2] == b"II" { b[7] |= 0x80 } else if &b[..2] == b"MM" { b[4] |= 0x80 }
  b
}

/// the size of an sRAW picture, and what the file says of it: a frame may be wider and lower than its picture
pub fn sraw_shape(var: u64, sw: usize, sh: usize) -> ((usize, usize), Option<(usize, usize)>) {
  match mix(var.wrapping_mul(31).wrapping_add(53)) % 4 {
    0 => ((sw, sh), Some((sw, sh))),
    1 if sw % 8 == 0 && sw >= 64 => ((sw / 2, sh * 2), Some((sw / 2, sh * 2))),
    _ if sw < sh => ((sh, sw), None),
    _ => ((sw, sh), None),
  }
}
/// stripes of the picture: how many besides the last one, their columns, the columns of the last one
pub fn sraw_stripes(var: u64, sw: usize, sh: usize, two: bool) -> Option<(usize, usize, usize)> {
  let w = sraw_shape(var, sw, sh).0 .0;
  let n = 1 + (mix(var.wrapping_mul(31).wrapping_add(55)) % 3) as usize;
  if mix(var.wrapping_mul(31).wrapping_add(54)) % 2 == 0 { return None }
  // two rows at a time: all of the same width
  if two { return if w % (n + 1) == 0 && sraw_shape(var, sw, sh).0 .1 % 2 == 0 { Some((n, w / (n + 1), w / (n + 1))) } else { None } }
  let f = w / (n + 1) / 2 * 2;
  if f == 0 { None } else { Some((n, f, w - n * f)) }
}
