//! What a file stores, read off its bytes by a small model: the samples an intact file has to come out as.
use crate::files::*;
use crate::rt::*;

/// the picture a file holds; every sample lies between `lo` and `hi` (the same value unless the format spreads table values)
pub struct Exp { pub w: usize, pub h: usize, pub cpp: usize, pub lo: Vec<u16>, pub hi: Vec<u16> }

fn msb(d: &[u8], unit: usize, at: usize, bits: usize, i: usize) -> Option<u16> {
  // bit by bit, most significant first, in little-endian units of `unit` bytes
  let mut v = 0u16;
  for b in i * bits..(i + 1) * bits { let k = (b / 8) ^ (unit - 1); v = v << 1 | (*d.get(at + k)? >> (7 - b % 8) & 1) as u16 }
  Some(v)
}
fn lsb(d: &[u8], at: usize, bits: usize, i: usize) -> Option<u16> {
  let mut v = 0u16;
  for (n, b) in (i * bits..(i + 1) * bits).enumerate() { v |= ((*d.get(at + b / 8)? >> (b % 8) & 1) as u16) << n }
  Some(v)
}
fn w16(d: &[u8], at: usize, be: bool) -> Option<u16> { let b = d.get(at..at + 2)?; Some(if be { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) }) }

/// the values a table entry may come out as when it is spread towards its neighbours
fn spread(t: &[u32], i: usize) -> (u16, u16) {
  let c = t[i] as i64;
  let lower = if i > 0 { t[i - 1] } else { t[i] } as i64;
  let upper = if i + 1 < t.len() { t[i + 1] } else { t[i] } as i64;
  let d = upper - lower;
  let base = if c == 0 { 0 } else { (c - (d + 2) / 4).max(0) };
  (base as u16, (base + ((d * 2047 + 1024) >> 12)).min(65535) as u16)
}
fn grid(w: usize, h: usize, cpp: usize, f: &dyn Fn(usize, usize) -> Option<u16>) -> Option<Exp> {
  let mut o = Vec::with_capacity(w * h * cpp);
  for y in 0..h { for x in 0..w * cpp { o.push(f(y, x)?) } }
  Some(Exp { w, h, cpp, hi: o.clone(), lo: o })
}
fn exact(w: usize, h: usize, cpp: usize, v: Vec<u16>) -> Option<Exp> { if v.len() == w * h * cpp { Some(Exp { w, h, cpp, hi: v.clone(), lo: v }) } else { None } }
fn tabled(w: usize, h: usize, t: &[u32], idx: &dyn Fn(usize) -> usize) -> Option<Exp> {
  let (mut lo, mut hi) = (vec![], vec![]);
  for i in 0..w * h { let k = idx(i); if k >= t.len() { return None } let (a, b) = spread(t, k); lo.push(a); hi.push(b) }
  Some(Exp { w, h, cpp: 1, lo, hi })
}

pub fn expect(s: &FileSpec) -> Option<Exp> {
  if !s.dmg.is_empty() { return None }
  let b = s.pristine();
  let (w, h) = (s.w, s.h);
  let v = |k: u64, n: u64| -> u64 { mix(s.var.wrapping_mul(31).wrapping_add(k)) % n };
  let px = w * h;
  // files that claim another sample size than they have
  if s.fmt.starts_with("nef") && s.fmt != "nefd100" && v(8, 7) == 0 { return None }
  let d = &b.b[b.data.min(b.b.len())..];
  let be = b.be;
  let odd12 = w % 2 != 0;
  let msb12 = |unit: usize| grid(w, h, 1, &|y, x| msb(d, unit, 0, 12, y * w + x));
  let lsb12 = || grid(w, h, 1, &|y, x| lsb(d, 0, 12, y * w + x));
  // ten samples in fifteen bytes, then one byte that is no sample
  let line = w * 12 / 8 + (w + 2) / 10;
  match &s.fmt[..] {
    "dng16" => grid(w, h, 1, &|y, x| w16(d, 2 * (y * w + x), be)),
    "dngrgb" => grid(w, h, 3, &|y, x| w16(d, 2 * (y * w * 3 + x), be)),
    "srw12u" | "srw12le" | "srw12be" if v(6, 4) == 0 => grid(w, h, 1, &|y, x| Some(w16(d, 2 * (y * w + x), false)? & 0x3fff)),
    "dng12" | "mef" | "nrw" | "mrwp" | "pef12" | "srw12be" if !odd12 => msb12(1),
    "kdc" if !odd12 => grid(w + 80, h + 70, 1, &|y, x| msb(d, 1, 0, 12, y * (w + 80) + x)),
    "dng10" if w % 4 == 0 => grid(w, h, 1, &|y, x| msb(d, 1, 0, 10, y * w + x)),
    "dng8" => tabled(w, h, &b.table, &|i| d[i] as usize),
    "dcs" => tabled(w, h, &b.table, &|i| d[i] as usize),
    "arw12" | "raf12" | "srw12le" if !odd12 => lsb12(),
    "nef12" if !odd12 => if be { msb12(1) } else { lsb12() },
    "mrw" => grid(w, h, 1, &|y, x| Some(w16(d, 2 * (y * w + x), true)? & 0xfff)),
    "arw16" => grid(w, h, 1, &|y, x| w16(d, 2 * (y * w + x), false)),
    "r1" => grid(w, h, 1, &|y, x| Some(w16(d, 2 * (y * w + x), true)? & 0x3fff)),
    "orfle" | "rw2u" => grid(w, h, 1, &|y, x| Some(w16(d, 2 * (y * w + x), false)? >> 4)),
    "orfbe" => grid(w, h, 1, &|y, x| Some(w16(d, 2 * (y * w + x), true)? >> 4)),
    // the choice between these goes by the amount of data
    "orfwc" if !odd12 && d.len() < 2 * px => grid(w, h, 1, &|y, x| lsb(d, y * line + x / 10 * 16, 12, x % 10)),
    "rw2wc" if !odd12 && d.len() + 32 < 2 * px => grid(w, h, 1, &|y, x| lsb(d, y * line + x / 10 * 16, 12, x % 10)),
    "erf" if !odd12 => grid(w, h, 1, &|y, x| msb(d, 1, y * line + x / 10 * 16, 12, x % 10)),
    "nefd100" if w == 3040 => grid(w, h, 1, &|y, x| msb(d, 1, y * line + x / 10 * 16, 12, x % 10)),
    "orfil" if !odd12 && px * 12 / 8 < px / 10 * 16 && w < 3500 => {
      let second = (((h + 1) / 2 * w * 3 / 2) / 2048 + 1) * 2048;
      grid(w, h, 1, &|y, x| msb(d, 1, if y % 2 == 1 { second } else { 0 }, 12, y / 2 * w + x))
    }
    "nrwsplit" if !odd12 => { let second = (h + 1) / 2 * w * 12 / 8; grid(w, h, 1, &|y, x| msb(d, 1, if y % 2 == 1 { second } else { 0 }, 12, y / 2 * w + x)) }
    "orf32" | "nrw32" | "rafjpeg32" | "ari" if px % 8 == 0 => if s.fmt == "orf32" && (px * 12 / 8 >= px / 10 * 16 || w < 3500) { None } else { msb12(4) },
    "raf16" | "mos16" => grid(w, h, 1, &|y, x| w16(d, 2 * (y * w + x), be)),
    "raf14" => grid(w, h, 1, &|y, x| Some(w16(d, 2 * (y * w + x), false)? & 0x3fff)),
    "nef14" => grid(w, h, 1, &|y, x| Some(w16(d, 2 * (y * w + x), be)? & 0x3fff)),
    "pef16" => grid(w, h, 1, &|y, x| w16(d, 2 * (y * w + x), true)),
    "a100" => exact(3881, 2608, 1, b.samples?),
    "srw12u" => grid(w, h, 1, &|y, x| Some(w16(d, 2 * (y * w + x), false)? & 0xfff)),
    "nkd10" => grid(2672, 1968, 1, &|y, x| msb(d, 2, 0, 10, y * 2672 + x)),
    "crw70" => grid(1552, 1024, 1, &|y, x| msb(d, 2, 0, 10, y * 1552 + x)),
    "nkd12" => grid(4104, 3048, 1, &|y, x| msb(d, 2, 0, 12, y * 4104 + x)),
    "nkdal" => grid(2346, 1737, 1, &|y, x| msb(d, 1, y * ((2346 * 12 / 8 + 1) / 2 * 2), 12, x)),
    "rafrot" | "rafrotalt" | "rafdw" => {
      let alt = s.fmt == "rafrotalt";
      // what the camera description cuts off at the sides, and above and below
      let (mx, my) = match &s.fmt[..] { "rafrotalt" => (32, 32), "rafdw" => (16, 0), _ => (0, 0) };
      if w <= 2 * mx || h <= 2 * my { return None }
      let (cw, ch) = (w - 2 * mx, h - 2 * my);
      let side = if alt { ch + cw / 2 } else { cw + ch / 2 };
      if side < 2 { return None }
      let mut o = vec![0u16; side * (side - 1)];
      for y in 0..ch { for x in 0..cw {
        let (ty, tx) = if alt { ((side + y).checked_sub(ch + 1 + x / 2)?, (x + 1) / 2 + y) } else { (cw - 1 - x + y / 2, (y + 1) / 2 + x) };
        // double width: each line is followed by one of a second, darker picture
        *o.get_mut(ty * side + tx)? = if s.fmt == "rafdw" { w16(d, 4 * (y + my) * w + 2 * (x + mx), false)? } else { w16(d, 2 * ((y + my) * w + x + mx), be)? };
      } }
      exact(side, side - 1, 1, o)
    }
    "dngljs" | "dngljt" => { let v = b.samples?; let cpp = v.len() / px; if cpp == 1 && w % 2 != 0 { return None } exact(w, h, cpp, v) }
    "tfr" if w % 2 == 0 => exact(w, h, 1, b.samples?),
    // eight more lines than the file says
    "arw1" => exact(w, h + 8, 1, b.samples?),
    "moslj" | "iiq" | "srw1" | "srw2" | "srw3" | "crw" => exact(w, h, 1, b.samples?),
    "moscmp" => {
      // the odd lines of the stream come from the bottom up
      let v = b.samples?;
      let mut o = vec![0; px];
      for y in 0..h { let t = if y % 2 == 1 { h - 1 - y / 2 } else { y / 2 }; o[t * w..(t + 1) * w].copy_from_slice(&v[y * w..(y + 1) * w]) }
      exact(w, h, 1, o)
    }
    "orfc" if px >= px / 10 * 16 => None,
    "orfc" | "pefc" if w % 2 == 0 => exact(w, h, 1, b.samples?),
    "dcr" => { let p = b.samples?; tabled(w, h, &b.table, &|i| p[i] as usize) }
    "arw2" if w % 32 == 0 && v(17, 4) != 0 => {
      // sixteen samples of one colour in sixteen bytes, lowest bit first
      let val = |i: usize| -> usize {
        let (blk, k) = (i / 32 * 2 + i % 2, i % 32 / 2);
        let g = u128::from_le_bytes(d[blk * 16..blk * 16 + 16].try_into().unwrap());
        let f = |at: usize, n: usize| (g >> at) as usize & ((1 << n) - 1);
        let (max, min, imax, imin) = (f(0, 11), f(11, 11), f(22, 4), f(26, 4));
        let mut sh = 0; while sh < 4 && (0x80 << sh) <= max - min { sh += 1 }
        2 * if k == imax { max } else if k == imin { min } else { let n = (0..k).filter(|j| *j != imax && *j != imin).count(); ((f(30 + 7 * n, 7) << sh) + min).min(0x7ff) }
      };
      tabled(w, h, &b.table, &val)
    }
    "rw2" | "rw2split" if w % 14 == 0 => {
      if s.fmt == "rw2" && (d.len() < px / 14 * 16 || d.len() >= px * 3 / 2) { return None }
      let mut o = vec![];
      for g in 0..px / 14 {
        // fourteen samples in sixteen bytes, read from the highest bit down; blocks of 16 KiB, which may be stored turned around
        let (blk, off) = (g * 16 / 0x4000 * 0x4000, g * 16 % 0x4000);
        let mut all = 0u128;
        for k in (0..16).rev() { let p = if s.fmt == "rw2" { off + k } else { (off + k + 0x4000 - 0x2008) % 0x4000 }; all = all << 8 | *d.get(blk + p)? as u128 }
        let mut left = 128;
        let mut get = |n: usize| { left -= n; (all >> left) as i32 & ((1 << n) - 1) };
        let (mut p, mut seen, mut sh) = ([0i32; 2], [false; 2], 0);
        for i in 0..14 {
          if i % 3 == 2 { sh = [0, 1, 2, 4][get(2) as usize] }
          let x = get(8);
          let q = &mut p[i % 2];
          if seen[i % 2] { if x != 0 { *q -= 0x80 << sh; if *q < 0 || sh == 4 { *q &= (1 << sh) - 1 } *q += x << sh } }
          else { seen[i % 2] = x != 0; if x != 0 || i > 11 { *q = x << 4 | get(4) } }
          o.push(*q as u16);
        }
      }
      exact(w, h, 1, o)
    }
    "srf" => {
      let (w, h) = (64, 32 + w % 32);
      let f = &b.b;
      let k = 200896 + f[200896] as usize * 4;
      let head = sony_crypt(&f[164600..164640], u32::from_be_bytes(f[k..k + 4].try_into().unwrap()));
      let body = sony_crypt(&f[862144..862144 + w * h * 2], u32::from_le_bytes(head[22..26].try_into().unwrap()));
      grid(w, h, 1, &|y, x| w16(&body, 2 * (y * w + x), true))
    }
    "snef" if w % 2 == 0 => {
      // the sRGB curve undone, four times as bright
      let table: Vec<u32> = (0..4096).map(|i| { let v = i as f32 / 4095.0; let l = if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) }; ((l * 65535.0 * 4.0) as u32).min(65535) }).collect();
      // the white balance of the file is 3/2, 1, 5/4
      let (r, g) = ((1024.0f32 / 1.5) as i64, (1024.0f32 / 1.25) as i64);
      let (mut lo, mut hi) = (vec![], vec![]);
      for y in 0..h { for x in 0..w {
        let at = (y * w + x / 2 * 2) * 3;
        let luma = lsb(d, at, 12, x % 2)? as f32;
        let (cb, cr) = (lsb(d, at + 3, 12, 0)? as f32 - 2048.0, lsb(d, at + 3, 12, 1)? as f32 - 2048.0);
        for (k, v) in [luma + 1.370705 * cr, luma - 0.337633 * cb - 0.698001 * cr, luma + 1.732446 * cb].iter().enumerate() {
          let (a, z) = spread(&table, (*v as i32).max(0).min(4095) as usize);
          let back = |x: u16| match k { 0 => ((r * x as i64 + 512) >> 10).min(65535) as u16, 2 => ((g * x as i64 + 512) >> 10).min(65535) as u16, _ => x };
          lo.push(back(a)); hi.push(back(z));
        }
      } }
      Some(Exp { w, h, cpp: 3, lo, hi })
    }
    "nefc" if w % 2 == 0 => { let p = b.samples?; tabled(w, h, &b.table, &|i| p[i] as usize) }
    "cr2lin" => { let p = b.samples?; let fw = p.len() / h; tabled(fw, h, &b.table, &|i| p[i] as usize) }
    "cr2" | "cr2stripe" => {
      let p = b.samples?;
      let fw = p.len() / h;
      let (fw, h) = if v(2, 3) == 2 { (fw / 2, h * 2) } else { (fw, h) }; // two lines in one
      if s.fmt == "cr2" { return exact(fw, h, 1, p) }
      let n = 1 + v(4, 3) as usize;
      let f = fw / (n + 1) / 4 * 4;
      let mut o = vec![0; fw * h];
      let mut from = 0;
      for k in 0..n + 1 { let (x0, cw) = (k * f, if k < n { f } else { fw - n * f }); for y in 0..h { for x in 0..cw { o[y * fw + x0 + x] = p[from]; from += 1 } } }
      exact(fw, h, 1, o)
    }
    "sraw" | "sraw420" => {
      let p = b.samples?;
      let (sw, sh) = ((w + 3) & !3, (h + 1) & !1);
      let ((pw, ph), _) = crate::files::sraw_shape(s.var, sw, sh);
      let about = b.about.as_ref()?;
      let cam = crate::db::find(&about.make, &about.model, "")?;
      if !crate::db::fits(cam, (pw, ph)) { return None }
      let dark = if cam.hints.iter().any(|x| x == "40d_yuv") { 512 } else { 0 };
      let cut = |x: i64| (x >> 8).max(0).min(65535) as u16;
      // the camera's white balance, as the file has it
      let (c1, c2, c3) = ((1024.0 * 1024.0 / about.wb[0]) as i64, about.wb[1] as i64, (1024.0 * 1024.0 / about.wb[2]) as i64);
      let mut o = Vec::with_capacity(p.len());
      for q in p.chunks(3) {
        let (y, cb, cr) = (q[0] as i64 - dark, q[1] as i64 - 16383, q[2] as i64 - 16383);
        o.push(cut(c1 * (y + cr))); o.push(cut(c2 * (y + ((-778 * cb - (cr << 11)) >> 12)))); o.push(cut(c3 * (y + cb)));
      }
      let (Some((n, cols, last)), (w, h)) = (crate::files::sraw_stripes(s.var, sw, sh, s.fmt == "sraw420"), (pw, ph)) else { return exact(pw, ph, 3, o) };
      let mut out = vec![0; o.len()];
      let mut from = 0;
      // the pixels come stripe by stripe; where two rows are stored together, two rows at a time
      let tall = if s.fmt == "sraw420" { 2 } else { 1 };
      for k in 0..n + 1 { for y in (0..h).step_by(tall) { for x in k * cols..k * cols + if k < n { cols } else { last } { for t in 0..tall {
        let src = if tall == 2 { from / sw * 2 * sw + t * sw + from % sw } else { from };
        for c in 0..3 { out[((y + t) * w + x) * 3 + c] = o[src * 3 + c] }
      } from += 1 } } }
      exact(w, h, 3, out)
    }
    _ => None,
  }
}

/// what a picture has to say about itself
pub struct Meta { pub make: String, pub model: String, pub clean: (String, String), pub wb: [f32; 4], pub white: [u16; 3], pub black: Option<([f64; 4], [f64; 4])>, pub matrix: [[f32; 3]; 4], pub pattern: String, /* row and column the pattern starts at */ pub at: (usize, usize), pub crops: [usize; 4], pub ori: &'static str }

pub const ORIENT: [&str; 9] = ["Unknown", "Normal", "HorizontalFlip", "Rotate180", "VerticalFlip", "Transpose", "Rotate90", "Transverse", "Rotate270"];

/// `Some(None)`: there is no such camera, so there must be no picture
pub fn expect_meta(s: &FileSpec) -> Option<Option<Meta>> {
  let b = s.pristine();
  let a = b.about?;
  if !s.dmg.is_empty() {
    let mut u = s.clone(); u.dmg.clear(); u.unsupported();
    return if u.dmg == s.dmg && !s.fmt.starts_with("dng") { Some(None) } else { None };
  }
  let ori = ORIENT[if a.ori > 8 { 0 } else { a.ori as usize }];
  let cam = crate::db::find(&a.make, &a.model, &a.mode);
  let same = |x: f64| Some(([x; 4], [x; 4]));
  // red, the two greens, blue: a green may be either or their mean, and there is no fourth colour
  let rgb = |x: [u16; 4]| { let x = x.map(|v| v as f64); Some(([x[0], x[1].min(x[2]), x[3], f64::NEG_INFINITY], [x[0], x[1].max(x[2]), x[3], f64::INFINITY])) };
  if let Kind::Dng { black, white, matrix, pattern, crops } = a.kind {
    let clean = match cam { Some(c) => (c.clean_make.clone(), c.clean_model.clone()), None => (a.make.clone(), a.model.clone()) };
    let black = match black.len() { 0 => same(0.0), 1 => same(black[0] as f64), 3 => rgb([black[0], black[1], black[1], black[2]]),
      // one for each place of the pattern
      _ => if pattern.len() == 4 { let of = |c: char| (0..4).filter(|i| pattern.chars().nth(*i) == Some(c)).map(|i| black[i]).collect::<Vec<_>>(); let (red, green, blue) = (of('R'), of('G'), of('B')); rgb([red[0], green[0], green[1], blue[0]]) } else { same(black[0] as f64) } };
    return Some(Some(Meta { make: a.make, model: a.model, clean, wb: a.wb, white, black, matrix, at: (crops[0], crops[3]), pattern, crops, ori }));
  }
  let Some(c) = cam else { return Some(None) };
  let e = expect(s);
  let black = match (&a.kind, a.black) {
    (Kind::Rgb(_), _) => same(0.0),
    (_, Some(x)) => rgb(x),
    (Kind::Turned, _) => same(c.black as f64),
    _ if c.blackh.1 == 0 && c.blackv.1 == 0 => same(c.black as f64),
    // the mean of what lies in the dark
    _ => match &e { None => None, Some(e) => {
      if c.blackv.0 + c.blackv.1 > e.w || c.blackh.0 + c.blackh.1 > e.h { return None }
      let (mut lo, mut hi, mut n) = ([0f64; 4], [0f64; 4], [0f64; 4]);
      let mut add = |y: usize, x: usize| { let k = crate::db::color(&c.pattern, y, x); n[k] += 1.0; lo[k] += e.lo[y * e.w + x] as f64; hi[k] += e.hi[y * e.w + x] as f64 };
      for y in c.blackh.0..c.blackh.0 + c.blackh.1 { for x in 0..e.w { add(y, x) } }
      for y in 0..e.h { for x in c.blackv.0..c.blackv.0 + c.blackv.1 { add(y, x) } }
      for k in 0..4 { if n[k] > 0.0 { lo[k] /= n[k]; hi[k] /= n[k] } }
      Some((lo, hi))
    } },
  };
  // the area in the dark does not fit
  if e.is_none() && black.is_none() && (c.blackv.0 + c.blackv.1 > s.w || c.blackh.0 + c.blackh.1 > s.h) { return None }
  let (white, crops) = match a.kind { Kind::Rgb(keep) => ([65535; 3], if keep { c.crops } else { [0; 4] }), Kind::Turned => ([c.white; 3], [0; 4]), _ => ([c.white; 3], c.crops) };
  Some(Some(Meta { make: a.make, model: a.model, clean: (c.clean_make.clone(), c.clean_model.clone()), wb: a.wb, white, black, matrix: c.matrix, pattern: c.pattern.clone(), at: (0, 0), crops, ori }))
}
