//! What a developed picture has to look like: the whole way from samples to colours, written down once more in double precision.
use crate::rt::*;
use rawloader::decoders::Orientation;
use rawloader::{RawImage, CFA};

const SRGB: [[f64; 3]; 3] = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227]];
const ORI: [Orientation; 9] = [Orientation::Unknown, Orientation::Normal, Orientation::HorizontalFlip, Orientation::Rotate180, Orientation::VerticalFlip, Orientation::Transpose, Orientation::Rotate90, Orientation::Transverse, Orientation::Rotate270];
const TWELVE: &str = "GBREGGGRRRGGBRGGGBBGRBGREBBGGBBEEBRGBEGGGGGGBRGBRBGEBGGGGGBGGGGBBRRRGEBGGEGEBGEGRGGEEGBGBGEGBEGGBRREGBGGGRBGBGRRBERBEEBRBBBGEGGERBGGGBGBGGGBGRBR";
const XTRANS: &str = "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG";

/// pictures as files do not have them, but as callers may make them: all fields are public
pub fn tweak(i: &mut RawImage, seed: u64) {
  if seed == 0 { return }
  let r = &mut Rng::new(seed);
  if r.chance(1, 4) && i.cpp == 1 && i.width % 3 == 0 && i.width >= 9 { i.width /= 3; i.cpp = 3 }
  if r.chance(1, 2) { i.orientation = ORI[r.below(9) as usize] }
  if r.chance(1, 2) { let (w, h) = (i.width as u64, i.height as u64); i.crops = [r.below(h.min(12) / 3 + 1), r.below(w.min(20) / 3 + 1), r.below(h.min(12) / 3 + 1), r.below(w.min(20) / 3 + 1)].map(|x| x as usize) }
  if r.chance(1, 2) { let b = [0; 4].map(|_| r.below(400) as u16); i.blacklevels = b; let n = if r.chance(1, 2) { 4000 } else { 64000 }; i.whitelevels = b.map(|b| b + 200 + r.below(n) as u16) }
  if r.chance(1, 2) { let k = r.below(4); i.wb_coeffs = [0; 4].map(|_| 0.3 + r.below(1000) as f32 / 400.0); if k < 2 { i.wb_coeffs[3] = f32::NAN } if k == 0 { i.wb_coeffs[r.below(3) as usize] = if r.chance(1, 2) { f32::NAN } else { 0.0 } } }
  if i.cpp == 1 && r.chance(1, 2) { i.cfa = CFA::new(*r.pick(&["RGGB", "BGGR", "GRBG", "GBRG", "RGEB", "ERBG", XTRANS, "", "RGGBRGBGRGGBRBGG", TWELVE])) }
  if r.chance(1, 3) { for k in 0..4 { for j in 0..3 { let x = i.xyz_to_cam[k.min(2)][j]; if k == 3 { i.xyz_to_cam[3][j] = i.xyz_to_cam[1][j] * 0.9 + 0.05 * j as f32 } else { i.xyz_to_cam[k][j] = x * (1.0 + r.below(100) as f32 / 1000.0) } } } }
  match r.below(6) {
    0 => { let v = r.below(65536) as u16; for x in i.data.iter_mut() { *x = v } }
    1 => { let w = i.width * i.cpp; for (k, x) in i.data.iter_mut().enumerate() { *x = (k % w * 37 + k / w * 101) as u16 } }
    2 => { let (lo, hi) = (i.blacklevels[0] as u64, i.whitelevels[0] as u64); let n = if hi > lo { hi - lo + 1 } else { 4000 }; for x in i.data.iter_mut() { *x = (lo + r.below(n)).min(65535) as u16 } }
    3 => { let n = i.data.len() as u64; if n > 0 { for x in i.data.iter_mut() { *x = i.blacklevels[1] } for _ in 0..4 { i.data[r.below(n) as usize] = 65535 } } }
    _ => {}
  }
}

pub struct Look { pub w: usize, pub h: usize, pub lin: Vec<[f64; 2]>, pub known: bool }

/// where the sides of the blocks lie, counted as the code does and counted exactly
fn block(k: usize, n: usize, to: usize, exact: bool) -> (usize, usize, f64) {
  let (a, z) = if exact { let s = n as f64 / to as f64; (k as f64 * s, (k + 1) as f64 * s) } else { let s = n as f32 / to as f32; ((k as f32 * s) as f64, ((k + 1) as f32 * s) as f64) };
  (a.floor() as usize, (z.ceil() as usize).min(n), 1.0 - a.fract())
}
fn labf(v: f64) -> f64 { let d: f64 = 6.0 / 29.0; if v > d * d * d { v.cbrt() } else { v / (3.0 * d * d) + 4.0 / 29.0 } }
fn labinv(v: f64) -> f64 { let d: f64 = 6.0 / 29.0; if v > d { v * v * v } else { 3.0 * d * d * (v - 4.0 / 29.0) } }
/// a monotone cubic through five points
fn curve(v: f64) -> f64 {
  let (xs, ys) = ([0.0, 0.3, 0.5, 0.7, 1.0], [0.0, 0.25, 0.5, 0.75, 1.0f64]);
  if v >= 1.0 { return 1.0 }
  let dx = |k: usize| xs[k + 1] - xs[k];
  let m = |k: usize| (ys[k + 1] - ys[k]) / dx(k);
  let c1 = |k: usize| if k == 0 { m(0) } else if k == 4 { m(3) } else { let c = dx(k - 1) + dx(k); 3.0 * c / ((c + dx(k)) / m(k - 1) + (c + dx(k - 1)) / m(k)) };
  let i = (1..4).filter(|k| xs[*k] <= v).max().unwrap_or(0);
  let (d, common) = (v - xs[i], c1(i) + c1(i + 1) - 2.0 * m(i));
  ys[i] + c1(i) * d + (m(i) - c1(i) - common) / dx(i) * d * d + common / dx(i) / dx(i) * d * d * d
}
fn inv3(m: [[f64; 3]; 3]) -> [[f64; 3]; 3] {
  let c = |i: usize, j: usize| { let (a, b, d, e) = ((i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3); m[a][d] * m[b][e] - m[a][e] * m[b][d] };
  let det = m[0][0] * c(0, 0) + m[0][1] * c(0, 1) + m[0][2] * c(0, 2);
  let mut o = [[0.0; 3]; 3];
  for i in 0..3 { for j in 0..3 { o[i][j] = c(j, i) / det } }
  o
}
pub fn gamma(v: f64) -> f64 { let v = v.max(0.0).min(1.0); if v <= 0.018 { 4.5 * v } else { 1.099 * v.powf(0.45) - 0.099 } }

/// as large as it goes within the maximum, never larger than it is
pub fn size(w: usize, h: usize, mw: usize, mh: usize) -> (usize, usize) {
  if mw == 0 || mh == 0 || w <= mw && h <= mh { return (w, h) }
  if h * mw > w * mh { ((w * mh / h).max(1), mh) } else { (mw, (h * mw / w).max(1)) }
}
pub fn turns(o: &Orientation) -> usize { ORI.iter().position(|x| x == o).unwrap_or(0) }

/// `got` is the size of the picture as it came out: where the ratio is not a whole number of pixels one of the sides may be a pixel smaller
pub fn develop(i: &RawImage, mw: usize, mh: usize, got: (usize, usize)) -> Result<Look, String> {
  let (w, h) = (i.width - i.crops[1] - i.crops[3], i.height - i.crops[0] - i.crops[2]);
  let t = turns(&i.orientation);
  let (mw, mh, sw, sh) = if t >= 5 { (mh, mw, got.1, got.0) } else { (mw, mh, got.0, got.1) };
  let (nw, nh) = size(w, h, mw, mh);
  let fits = (sw, sh) == (nw, nh) || nw != w && nw == mw && sw == nw && sh + 1 == nh || nh != h && nh == mh && sh == nh && sw + 1 == nw;
  if !fits { return Err(format!("{}x{} (before turning) although {}x{} within {}x{} is {}x{}", sw, sh, w, h, mw, mh, nw, nh)) }
  let at = |y: usize, x: usize, c: usize| i.data[((y + i.crops[0]) * i.width + x + i.crops[3]) * i.cpp + c] as f64;
  let mono = i.cpp == 1 && !i.cfa.is_valid();
  let color = |y: usize, x: usize| i.cfa.color_at((y + i.crops[0]) % 48, (x + i.crops[3]) % 48);
  let small = (sw, sh) != (w, h);
  let scale = if small { (w as f64 / mw as f64).max(h as f64 / mh as f64) } else { 0.0 };
  let least = match i.cfa.width { 6 => 3.0, 12 => 12.0, _ => 2.0 };
  let near = (scale - least).abs() < 1e-4;
  // each sample of a mosaic keeps its place, the other colours are the mean of those next to it
  let full = |y: usize, x: usize| -> [f64; 4] {
    if mono { let v = at(y, x, 0); return [v, v, v, 0.0] }
    if i.cpp == 3 { return [at(y, x, 0), at(y, x, 1), at(y, x, 2), 0.0] }
    let (mut s, mut n) = ([0.0; 4], [0.0; 4]);
    for b in y.saturating_sub(1)..(y + 2).min(h) { for a in x.saturating_sub(1)..(x + 2).min(w) { let c = color(b, a); s[c] += at(b, a, 0); n[c] += 1.0 } }
    for c in 0..4 { if n[c] > 0.0 { s[c] /= n[c] } }
    s[color(y, x)] = at(y, x, 0);
    s
  };
  let mosaic = i.cpp == 1 && !mono && scale >= least;
  let whole: Vec<[f64; 4]> = if mosaic { vec![] } else { (0..w * h).map(|k| full(k / w, k % w)).collect() };
  let pixel = |y: usize, x: usize, exact: bool| -> [f64; 4] {
    if !small { return whole[y * w + x] }
    let ((y0, y1, fy), (x0, x1, fx)) = (block(y, h, sh, exact), block(x, w, sw, exact));
    let (mut s, mut n) = ([0.0; 4], [0.0; 4]);
    for b in y0..y1 { for a in x0..x1 {
      let f = if b == y0 { fy } else { 1.0 } * if a == x0 { fx } else { 1.0 };
      if mosaic { let c = color(b, a); s[c] += at(b, a, 0) * f; n[c] += f } else { let p = whole[b * w + a]; for c in 0..4 { s[c] += p[c] * f; n[c] += f } }
    } }
    for c in 0..4 { if n[c] > 0.0 { s[c] /= n[c] } }
    s
  };
  // colours
  let mut cam = [[0.0; 3]; 4]; // of white light each of them sees one
  let mut neutral = [0.0f64; 4];
  for a in 0..4 {
    let mut row = [0.0; 3];
    for j in 0..3 { for k in 0..3 { row[j] += i.xyz_to_cam[a][k] as f64 * SRGB[k][j] } }
    let n: f64 = row.iter().sum();
    neutral[a] = 1.0 / n;
    if n != 0.0 { for j in 0..3 { cam[a][j] = row[j] / n } }
  }
  let mut sq = [[0.0; 3]; 3];
  for a in 0..3 { for b in 0..3 { for k in 0..4 { sq[a][b] += cam[k][a] * cam[k][b] } } }
  let sq = inv3(sq);
  let white = [0.9547, 1.0, 1.08883];
  let mut xyz = [[0.0; 4]; 3];
  for a in 0..3 { for j in 0..4 { for k in 0..3 { let rgb: f64 = (0..3).map(|l| sq[k][l] * cam[j][l]).sum(); xyz[a][j] += rgb * SRGB[a][k] / white[a] } } }
  let normal = |x: f64| (x as f32).is_normal();
  let wb = i.wb_coeffs.map(|x| x as f64);
  let wb = if mono { [1.0; 4] } else if (0..3).all(|k| normal(wb[k])) { wb } else { neutral.map(|x| x / neutral[1]) };
  let mul = wb.map(|x| if normal(x) { x / wb[1] } else { 1.0 });
  let back = inv3(SRGB);
  let known = (0..4).all(|k| i.whitelevels[k] != i.blacklevels[k]) && xyz.iter().flatten().all(|x| x.is_finite() && x.abs() < 100.0) && !near;
  let one = |p: [f64; 4]| -> [f64; 3] {
    let mut q = [0.0; 4];
    for c in 0..4 { q[c] = ((p[c] - i.blacklevels[c] as f64) / (i.whitelevels[c] as f64 - i.blacklevels[c] as f64) * mul[c]).min(1.0) }
    let x = xyz.map(|m| (0..4).map(|c| m[c] * q[c]).sum::<f64>());
    let f = [labf(x[0] / 0.9642), labf(x[1]), labf(x[2] / 0.8249)];
    let l = curve((116.0 * f[1] - 16.0) / 100.0) * 100.0;
    let fy = (l + 16.0) / 116.0;
    let z = [0.9642 * labinv(fy + f[0] - f[1]), labinv(fy), 0.8249 * labinv(fy - f[1] + f[2])];
    back.map(|m| m[0] * z[0] + m[1] * z[1] + m[2] * z[2])
  };
  let (ow, oh) = if t >= 5 { (sh, sw) } else { (sw, sh) };
  let mut lin = vec![[0.0; 2]; ow * oh * 3];
  for y in 0..oh { for x in 0..ow {
    let (b, a) = match t { 2 => (y, sw - 1 - x), 3 => (sh - 1 - y, sw - 1 - x), 4 => (sh - 1 - y, x), 5 => (x, y), 6 => (sh - 1 - x, y), 7 => (sh - 1 - x, sw - 1 - y), 8 => (x, sw - 1 - y), _ => (y, x) };
    let (p, q) = (one(pixel(b, a, false)), if small { one(pixel(b, a, true)) } else { [f64::NAN; 3] });
    for c in 0..3 { lin[(y * ow + x) * 3 + c] = if small { [p[c].min(q[c]), p[c].max(q[c])] } else { [p[c]; 2] } }
  } }
  Ok(Look { w: ow, h: oh, lin, known })
}

/// `kind`: lin, rgb or srgb; the picture as numbers
pub fn compare(i: &RawImage, kind: &str, mw: usize, mh: usize, got: (usize, usize), data: &[f64]) -> Result<bool, String> {
  if data.len() != got.0 * got.1 * 3 { return Err(format!("{} values for {}x{}", data.len(), got.0, got.1)) }
  let l = develop(i, mw, mh, got)?;
  if !l.known { return Ok(false) }
  for (k, v) in data.iter().enumerate() {
    let [lo, hi] = l.lin[k];
    if !lo.is_finite() || !hi.is_finite() { continue }
    let e = 6e-4 * (1.0 + lo.abs().max(hi.abs()));
    let (lo, hi) = match kind {
      "lin" => (lo - e, hi + e),
      "rgb" => (gamma(lo - e) - 3e-4, gamma(hi + e) + 3e-4),
      _ => (((gamma(lo - e) - 3e-4) * 255.0).max(0.0).floor(), ((gamma(hi + e) + 3e-4) * 255.0).min(255.0).floor()),
    };
    if !(*v >= lo && *v <= hi) { return Err(format!("row {} column {} component {}: {} came out, {}..{} is right", k / 3 / l.w, k / 3 % l.w, k % 3, v, lo, hi)) }
  }
  Ok(true)
}
