//! The camera database, read by a parser of our own from the text the crate carries.
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, Default)]
pub struct Cam {
  pub make: String, pub model: String, pub mode: String, pub clean_make: String, pub clean_model: String,
  pub white: u16, pub black: u16, pub blackh: (usize, usize), pub blackv: (usize, usize),
  pub matrix: [[f32; 3]; 4], pub pattern: String, pub crops: [usize; 4],
  pub bps: usize, pub wb_offset: usize, pub filesize: usize, pub raw: (usize, usize), pub hints: Vec<String>,
}

#[derive(Clone, Debug)]
enum T { N(i64), S(String), L(Vec<T>) }
impl T {
  fn n(&self) -> i64 { if let T::N(n) = self { *n } else { panic!("number expected: {:?}", self) } }
  fn s(&self) -> String { if let T::S(s) = self { s.clone() } else { panic!("text expected: {:?}", self) } }
  fn l(&self) -> &[T] { if let T::L(l) = self { l } else { panic!("list expected: {:?}", self) } }
}
fn value(b: &[u8], p: &mut usize) -> T {
  let skip = |p: &mut usize| loop { if *p < b.len() && (b[*p].is_ascii_whitespace() || b[*p] == b',') { *p += 1 } else if *p < b.len() && b[*p] == b'#' { while *p < b.len() && b[*p] != b'\n' { *p += 1 } } else { break } };
  while b[*p] == b' ' || b[*p] == b'\t' { *p += 1 }
  match b[*p] {
    b'"' => { let a = *p + 1; *p = a; while b[*p] != b'"' { *p += 1 } *p += 1; T::S(String::from_utf8_lossy(&b[a..*p - 1]).into()) }
    b'[' => { *p += 1; let mut l = vec![]; loop { skip(p); if b[*p] == b']' { *p += 1; return T::L(l) } l.push(value(b, p)) } }
    _ => { let a = *p; while *p < b.len() && (b[*p] == b'-' || b[*p] == b'+' || b[*p].is_ascii_digit()) { *p += 1 } T::N(std::str::from_utf8(&b[a..*p]).unwrap().parse().unwrap_or_else(|_| panic!("number at {}", a))) }
  }
}
fn apply(c: &mut Cam, t: &BTreeMap<String, T>) {
  for (k, v) in t {
    match &k[..] {
      "make" => c.make = v.s(), "model" => c.model = v.s(), "mode" => c.mode = v.s(), "clean_make" => c.clean_make = v.s(), "clean_model" => c.clean_model = v.s(),
      "whitepoint" => c.white = v.n() as u16, "blackpoint" => c.black = v.n() as u16,
      "blackareah" => c.blackh = (v.l()[0].n() as usize, v.l()[1].n() as usize), "blackareav" => c.blackv = (v.l()[0].n() as usize, v.l()[1].n() as usize),
      "color_matrix" => for (i, x) in v.l().iter().enumerate() { c.matrix[i / 3][i % 3] = x.n() as f32 },
      "crops" => for (i, x) in v.l().iter().enumerate() { c.crops[i] = x.n() as usize },
      "color_pattern" => c.pattern = v.s(), "bps" => c.bps = v.n() as usize, "wb_offset" => c.wb_offset = v.n() as usize, "filesize" => c.filesize = v.n() as usize,
      "raw_width" => c.raw.0 = v.n() as usize, "raw_height" => c.raw.1 = v.n() as usize, "hints" => c.hints = v.l().iter().map(|x| x.s()).collect(),
      _ => {}
    }
  }
}
fn parse(text: &str) -> Vec<Cam> {
  let b = text.as_bytes();
  // per camera: its own table and those of its modes
  let mut all: Vec<Vec<BTreeMap<String, T>>> = vec![];
  let mut p = 0;
  while p < b.len() {
    match b[p] {
      b'#' => while p < b.len() && b[p] != b'\n' { p += 1 },
      b'[' => {
        let a = p; while b[p] != b'\n' { p += 1 }
        match text[a..p].trim() { "[[cameras]]" => all.push(vec![BTreeMap::new()]), "[[cameras.modes]]" => all.last_mut().unwrap().push(BTreeMap::new()), x => panic!("table {}", x) }
      }
      c if c.is_ascii_alphabetic() => {
        let a = p; while b[p] != b'=' { p += 1 }
        let k = text[a..p].trim().to_string(); p += 1;
        let v = value(b, &mut p);
        all.last_mut().unwrap().last_mut().unwrap().insert(k, v);
      }
      _ => p += 1,
    }
  }
  let mut out = vec![];
  for c in &all {
    let mut basic = Cam::default();
    apply(&mut basic, &c[0]);
    let mut names = vec![(basic.model.clone(), basic.clean_model.clone())];
    if let Some(l) = c[0].get("model_aliases") { for x in l.l() { names.push((x.l()[0].s(), x.l()[1].s())) } }
    for (m, n) in names { for (i, t) in c.iter().enumerate() { let mut x = basic.clone(); if i > 0 { apply(&mut x, t) } x.model = m.clone(); x.clean_model = n.clone(); out.push(x) } }
  }
  out
}
pub fn all() -> &'static [Cam] {
  static DB: OnceLock<Vec<Cam>> = OnceLock::new();
  DB.get_or_init(|| parse(rawloader::decoders::CAMERAS_TOML))
}
/// an entry that comes twice counts as it is given last
pub fn find(make: &str, model: &str, mode: &str) -> Option<&'static Cam> { all().iter().rev().find(|c| c.make == make && c.model == model && c.mode == mode) }

pub fn color(pattern: &str, row: usize, col: usize) -> usize {
  let (w, h) = match pattern.len() { 0 => return 0, 4 => (2, 2), 36 => (6, 6), 16 => (2, 8), 144 => (12, 12), n => panic!("pattern of {}", n) };
  match pattern.as_bytes()[row % h * w + col % w] { b'R' => 0, b'G' | b'M' => 1, b'B' => 2, _ => 3 }
}

/// room for the camera's black areas and crops
pub fn fits(c: &Cam, size: (usize, usize)) -> bool { c.blackv.0 + c.blackv.1 <= size.0 && c.blackh.0 + c.blackh.1 <= size.1 && c.crops[1] + c.crops[3] + 4 < size.0 && c.crops[0] + c.crops[2] + 4 < size.1 }

/// another camera that stores its pictures the same way, with room for its black areas and crops in a picture of this size
pub fn other(makes: &[&str], def: (&str, &str), mode: &str, size: (usize, usize), pick: u64) -> (String, String) {
  let d = (def.0.to_string(), def.1.to_string());
  let Some(m) = find(def.0, def.1, mode).or_else(|| find(def.0, def.1, "")) else { return d };
  if pick % 3 == 0 { return d }
  const NAMED: &[&str] = &["DSLR-A100", "DSC-R1", "NIKON D100", "Canon PowerShot Pro70", "DCS560C", "DSC-F828"];
  let some: Vec<&Cam> = all().iter().filter(|c| makes.contains(&&c.make[..]) && c.mode == mode && c.hints == m.hints && c.bps == m.bps && c.filesize == 0 && !NAMED.contains(&&c.model[..]) && fits(c, size)).collect();
  if some.is_empty() { return d }
  let c = some[(pick / 3) as usize % some.len()];
  (c.make.clone(), c.model.clone())
}
