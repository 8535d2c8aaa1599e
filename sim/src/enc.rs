//! Encoders for the compressions of single makers: they write given samples, in the way the cameras do.
use crate::files::{BitW, Code};
use crate::rt::*;

fn need(d: i32) -> u32 { if d == 0 { 0 } else if d > 0 { 33 - (d as u32).leading_zeros() } else { 33 - (!d as u32).leading_zeros() } } // two's complement

/// columns from the right, first the even lines and then the odd ones
pub fn arw1(f: &[u16], w: usize, h: usize) -> Vec<u8> {
  let mut bw = BitW::msb();
  let mut sum = 0i32;
  for x in (0..w).rev() { for first in 0..2 { for y in (first..h).step_by(2) {
    let v = f[y * w + x] as i32;
    let d = v - sum; sum = v;
    let n = Code::len_of(d);
    match n { 0 => bw.put(0b011, 3), 1 => bw.put(3, 2), 2 => bw.put(2, 2), 3 => bw.put(0b010, 3), _ => { bw.put(0, 2); bw.put(1, n - 4 + 1) } }
    Code::put_diff(&mut bw, d);
  } } }
  bw.align(64); bw.b.extend([0; 16]);
  bw.b
}

/// the adaptive code of Olympus
pub fn orf(f: &[u16], w: usize, h: usize) -> Vec<u8> {
  let mut bw = BitW::msb();
  let at = |y: usize, x: usize| f[y * w + x] as i32;
  for y in 0..h {
    let mut carry = [[0i32; 3]; 2];
    for x in 0..w {
      let c = &mut carry[x % 2];
      let i = if c[2] < 3 { 2 } else { 0 };
      let mut nb = 2 + i;
      while c[0] >> (nb + i) > 0 { nb += 1 }
      nb = nb.min(16);
      let pred = if y < 2 && x < 2 { 0 } else if y < 2 { at(y, x - 2) } else if x < 2 { at(y - 2, x) } else {
        let (l, u, nw) = (at(y, x - 2), at(y - 2, x), at(y - 2, x - 2));
        let (dl, du) = (l - nw, u - nw);
        if dl.signum() * du.signum() < 0 { if dl.abs() > 32 || du.abs() > 32 { l + du } else { (l + u) >> 1 } } else if dl.abs() > du.abs() { l } else { u }
      };
      let delta = at(y, x) - pred;
      let (low, diff) = (delta & 3, delta >> 2);
      let t = diff - c[1];
      let (sign, mag) = if t < 0 { (1, !t) } else { (0, t) };
      bw.put(sign, 1); bw.put(low as u32, 2);
      let high = mag >> nb;
      if high < 12 { bw.put(1, high as u32 + 1) } else { bw.put(0, 12); bw.put((high << 1) as u32, 16 - nb as u32) }
      bw.put(mag as u32 & ((1 << nb) - 1), nb as u32);
      c[0] = mag;
      c[1] = (diff * 3 + c[1]) >> 5;
      c[2] = if mag > 16 { 0 } else { c[2] + 1 };
    }
  }
  bw.align(64);
  let mut o = vec![0u8; 7]; o.extend(bw.b); o.extend([0; 32]);
  o
}

/// one line of a Phase One back
pub fn iiq(f: &[u16], r: &mut Rng) -> Vec<u8> {
  const LENS: [u32; 10] = [8, 7, 6, 9, 11, 10, 5, 12, 14, 13];
  let mut bw = BitW::msb32();
  let (mut pred, mut len) = ([0i32; 2], [0u32; 2]);
  let full = f.len() / 8 * 8;
  for x in 0..f.len() {
    if x >= full { bw.put(f[x] as u32, 16); continue }
    if x % 8 == 0 {
      for p in 0..2 {
        // a length that holds the four differences to come
        let last = pred[p];
        let fits = |n: u32| -> bool { let mut l = last; for k in 0..4 { let v = f[x + p + 2 * k] as i32; let d = v - l; l = v; if n != 14 && (d < 1 - (1 << (n - 1)) || d > 1 << (n - 1)) { return false } } true };
        let ok: Vec<u32> = LENS.iter().cloned().filter(|n| fits(*n)).collect();
        let best = *ok.iter().min().unwrap();
        let n = if r.chance(1, 4) { *r.pick(&ok) } else { best };
        if len[p] == n && r.chance(3, 4) { bw.put(1, 1) } else {
          let k = LENS.iter().position(|q| *q == n).unwrap() as u32;
          let j = k / 2 + 1;
          bw.put(0, j); if j < 5 { bw.put(1, 1) }
          bw.put(k & 1, 1);
          len[p] = n;
        }
      }
    }
    let (p, v) = (x % 2, f[x] as i32);
    if len[p] == 14 { bw.put(f[x] as u32, 16) } else { bw.put((v - pred[p] - 1 + (1 << (len[p] - 1))) as u32, len[p]) }
    pred[p] = v;
  }
  bw.align(32); bw.b.extend([0; 16]);
  bw.b
}

/// lines in segments of 256: four bits of length each, then the differences from the lowest bit up in 16-bit units
pub fn dcr(f: &[u16], w: usize) -> Vec<u8> {
  let mut o = vec![];
  for line in f.chunks(w) { for seg in line.chunks(256) {
    let mut pred = [0i32; 2];
    let d: Vec<i32> = seg.iter().enumerate().map(|(i, v)| { let d = *v as i32 - pred[i % 2]; pred[i % 2] = *v as i32; d }).collect();
    for p in d.chunks(2) { o.push((Code::len_of(p[0]) | if p.len() > 1 { Code::len_of(p[1]) << 4 } else { 0 }) as u8) }
    let mut bits: Vec<bool> = vec![];
    for x in &d { let n = Code::len_of(*x); let v = if *x < 0 { *x + (1 << n) - 1 } else { *x }; for k in 0..n { bits.push(v >> k & 1 == 1) } }
    let first = if seg.len() & 7 == 4 { 16 } else { 0 };
    let total = first + if bits.len() > first { (bits.len() - first + 31) / 32 * 32 } else { 0 };
    bits.resize(total, false);
    for u in bits.chunks(16) { let mut v = 0u16; for (k, b) in u.iter().enumerate() { v |= (*b as u16) << k } o.extend(v.to_be_bytes()) }
  } }
  o.extend([0; 16]);
  o
}

/// two predictors per line, started from the line before the previous one
pub fn pef(f: &[u16], w: usize, h: usize, put: &dyn Fn(&mut BitW, i32)) -> Vec<u8> {
  let mut bw = BitW::msb();
  for y in 0..h { for x in 0..w {
    let p = if x >= 2 { f[y * w + x - 2] } else if y >= 2 { f[(y - 2) * w + x] } else { 0 };
    put(&mut bw, f[y * w + x] as i32 - p as i32);
  } }
  bw.align(64); bw.b.extend([0; 32]);
  bw.b
}

/// Samsung, first kind: returns the data and where each line starts; `f` is the picture with red and blue in the right places
pub fn srw1(f: &[u16], w: usize, h: usize, r: &mut Rng) -> (Vec<u8>, Vec<u32>) {
  let mut g = f.to_vec();
  for y in (0..h).step_by(2) { for x in (0..w).step_by(2) { g.swap(y * w + x + 1, (y + 1) * w + x) } }
  let (mut data, mut offs) = (vec![], vec![]);
  for y in 0..h {
    offs.push(data.len() as u32);
    let mut bw = BitW::msb32();
    let mut len = [if y < 2 { 7u32 } else { 4 }; 4];
    for x in (0..w).step_by(16) {
      let up = y >= 2 && r.chance(1, 2);
      let order: Vec<usize> = (0..16).step_by(2).chain((1..16).step_by(2)).collect();
      let mut d = [0i32; 16];
      for c in 0..16 {
        let p = if up { g[(y - 1 - c % 2) * w + x + c] } else if x == 0 { 128 } else { g[y * w + x - 2 + c % 2] };
        d[c] = g[y * w + x + c] as i32 - p as i32;
      }
      bw.put(up as u32, 1);
      let mut how = [(0u32, 0u32); 4];
      for k in 0..4 {
        let least = order[k * 4..k * 4 + 4].iter().map(|c| need(d[*c])).max().unwrap();
        how[k] = lengths(len[k], least, r); len[k] = how[k].1;
      }
      for k in 0..4 { bw.put(how[k].0, 2) }
      for k in 0..4 { if how[k].0 == 3 { bw.put(how[k].1, 4) } }
      for (i, c) in order.iter().enumerate() { bw.put(d[*c] as u32, len[i / 4]) }
    }
    bw.align(32); data.extend(bw.b);
    if r.chance(1, 3) { data.extend([0x5a; 4]) }
  }
  data.extend([0; 32]);
  (data, offs)
}
/// how to get from one length to one that is enough: the operation and the length
fn lengths(old: u32, least: u32, r: &mut Rng) -> (u32, u32) {
  let mut ok = vec![(3, least), (3, (least + r.below(3) as u32).min(15))];
  for (op, n) in [(0, old), (1, old + 1), (2, old.wrapping_sub(1))] { if n >= least && n <= 15 { ok.push((op, n)); if n < least + 3 { ok.push((op, n)) } } }
  *r.pick(&ok)
}

/// Samsung, second kind
pub fn srw2(f: &[u16], w: usize, h: usize) -> Vec<u8> {
  const TAB: [(u32, u32); 14] = [(3, 4), (3, 7), (2, 6), (2, 5), (4, 3), (6, 0), (7, 9), (8, 10), (9, 11), (10, 12), (10, 13), (5, 1), (4, 8), (4, 2)];
  pef(f, w, h, &|bw, d| {
    let n = Code::len_of(d);
    let mut at = 0;
    for (bits, len) in TAB { if len == n { bw.put(at >> (10 - bits), bits); break } at += 1024 >> bits }
    Code::put_diff(bw, d);
  })
}

/// Samsung, third kind
pub fn srw3(f: &mut [u16], w: usize, h: usize, depth: u32, start: u16, flags: u32, r: &mut Rng) -> Vec<u8> {
  let mut bw = BitW::msb32();
  bw.put(r.next() as u32, 16); bw.put(r.next() as u32, 4); bw.put(depth - 1, 4); bw.put(0, 8); bw.put(w as u32, 16); bw.put(h as u32, 16); bw.put(w as u32, 16); bw.put(0, 4);
  bw.put(flags, 4); bw.put(0, 26); bw.put(start as u32, 14);
  for y in 0..h {
    bw.align(128);
    let mut modes = [[if y < 2 { 7u32 } else { 4 }; 2]; 3];
    let mut motion = 7;
    // differences may be given in larger steps, which are changed every four blocks and stay as they are in between
    let mut scale = 0i32;
    for x in (0..w).step_by(16) {
      if flags & 4 == 0 && x % 64 == 0 {
        let want = match r.below(6) { 0 => 0, 1 | 2 => scale, 3 => scale + 2, 4 => (scale - 2).max(0), _ => r.below(12) as i32 };
        match want - scale { 0 => bw.put(0, 2), -2 => bw.put(1, 2), 2 => bw.put(2, 2), _ => { bw.put(3, 2); bw.put(want as u32, 12) } }
        scale = want;
      }
      let edge = x == 0 || x + 32 > w;
      let want = if y < 2 || r.chance(1, 2) { 7 } else if flags & 2 != 0 { 3 } else { *r.pick(if edge { &[3, 3, 7] } else { &[0, 1, 2, 3, 4, 5, 6] }) };
      if flags & 2 != 0 { bw.put((want != 7) as u32, 1) } else if want == motion && r.chance(3, 4) { bw.put(1, 1) } else { bw.put(0, 1); bw.put(want, 3) }
      motion = want;
      let mut d = [0i32; 16];
      for i in 0..16 {
        let p = if motion == 7 { if x == 0 { start } else { f[y * w + x - 2 + i % 2] } } else {
          let (slide, avg) = ([-4i64, -2, -2, 0, 0, 2, 4][motion as usize], motion == 2 || motion == 4);
          // colours from two lines up, green from its neighbour on the line above
          let k = if (y + i) % 2 != 0 { (y - 2) * w + x + i } else { (y - 1) * w + x + (i ^ 1) } as i64 + slide;
          if avg { ((f[k as usize] as u32 + f[k as usize + 2] as u32 + 1) >> 1) as u16 } else { f[k as usize] }
        };
        let k = scale * 2 + 1;
        let at = y * w + x + i;
        // the nearest value that can be had
        d[i] = (f[at] as i32 - p as i32 - scale).div_euclid(k);
        f[at] = (p as i32 + d[i] * k + scale).max(0).min((1 << depth) - 1) as u16;
      }
      // eight samples of one colour, then eight of the other
      let pos = |k: usize| (k % 8) * 2 + if y % 2 != 0 { 1 - k / 8 } else { k / 8 };
      let mut len = [0u32; 4];
      if flags & 1 == 0 && d.iter().all(|x| *x == 0) { bw.put(1, 1) } else {
        if flags & 1 == 0 { bw.put(0, 1) }
        let mut op = [0u32; 4];
        for k in 0..4 {
          let least = (0..4).map(|i| need(d[pos(k * 4 + i)])).max().unwrap();
          let c = if y % 2 != 0 { k / 2 } else { (k / 2 + 2) % 3 };
          let (o, n) = lengths(modes[c][0], least, r);
          let (o, n) = if n > depth + 1 { (3, least) } else { (o, n) };
          op[k] = o; len[k] = n;
          modes[c] = [modes[c][1], n];
        }
        for k in 0..4 { bw.put(op[k], 2) }
        for k in 0..4 { if op[k] == 3 { bw.put(len[k], 4) } }
      }
      for k in 0..16 { bw.put(d[pos(k)] as u32, len[k / 4]) }
    }
  }
  bw.align(128); bw.b.extend([0; 64]);
  bw.b
}

/// blocks of 64 differences with runs of zeros, as old Canons write them; the samples without their low bits
pub fn crw(f: &[u16], w: usize, table: usize) -> Vec<u8> {
  let codes = |t: &[u8]| -> Vec<Option<(u32, u32)>> {
    let mut o = vec![None; 256];
    let (mut code, mut k) = (0u32, 16);
    for len in 1..=16u32 { for _ in 0..t[len as usize - 1] { o[t[k] as usize] = Some((code, len)); code += 1; k += 1 } code <<= 1 }
    o
  };
  let (first, rest) = (codes(&CRW1[table]), codes(&CRW2[table]));
  let mut bw = BitW::msb();
  let mut base = [512i32; 2];
  let mut carry = 0;
  for (b, block) in f.chunks(64).enumerate() {
    let mut d = [0i32; 64];
    for (i, v) in block.iter().enumerate() {
      if (b * 64 + i) % w == 0 { base = [512; 2] }
      d[i] = *v as i32 - base[i % 2]; base[i % 2] = *v as i32;
    }
    let c = d[0]; d[0] -= carry; carry = c;
    // one zero can also be written with a code of its own, which seldom occurs
    let odd = b % 5 == 3;
    if odd && d[0] == 0 { let (code, len) = first[0xff].unwrap(); bw.put(code, len) } else {
      let (code, len) = first[Code::len_of(d[0]) as usize].unwrap();
      bw.put(code, len); Code::put_diff(&mut bw, d[0]);
    }
    let mut i = 1;
    while i < 64 {
      let run = d[i..].iter().take_while(|x| **x == 0).count();
      if odd && run > 0 && (i + run == 64 || run % 3 == 1) { if let Some((code, len)) = rest[0xff] { bw.put(code, len); i += 1; continue } }
      if i + run == 64 { let (code, len) = rest[0].unwrap(); bw.put(code, len); break }
      if run > 15 { let (code, len) = rest[0xf0].unwrap(); bw.put(code, len); i += 16; continue }
      i += run;
      let (code, len) = rest[run << 4 | Code::len_of(d[i]) as usize].unwrap();
      bw.put(code, len); Code::put_diff(&mut bw, d[i]);
      i += 1;
    }
  }
  while bw.bits % 8 != 0 { bw.put(1, 1) }
  let mut o = crate::files::stuff(&bw.b); o.extend([0; 32]);
  o
}
/// smooth enough for the differences to fit ten bits, with stretches that do not change
pub fn crw_samples(r: &mut Rng, n: usize, w: usize) -> Vec<u16> {
  let mut o: Vec<u16> = vec![];
  let mut last = [512i32; 2];
  let mut still = 0;
  for i in 0..n {
    if i % w == 0 { last = [512; 2] }
    if still > 0 { still -= 1 } else if r.chance(1, 12) { still = r.below(40) } else { let k = 1i64 << r.below(11); last[i % 2] = (last[i % 2] as i64 + r.below(2 * k as u64) as i64 - k).max(0).min(1023) as i32 }
    o.push(last[i % 2] as u16);
  }
  o
}
const CRW1: [[u8; 29]; 3] = [
      [ 0,1,4,2,3,1,2,0,0,0,0,0,0,0,0,0,
        0x04,0x03,0x05,0x06,0x02,0x07,0x01,0x08,0x09,0x00,0x0a,0x0b,0xff ],
      [ 0,2,2,3,1,1,1,1,2,0,0,0,0,0,0,0,
        0x03,0x02,0x04,0x01,0x05,0x00,0x06,0x07,0x09,0x08,0x0a,0x0b,0xff ],
      [ 0,0,6,3,1,1,2,0,0,0,0,0,0,0,0,0,
        0x06,0x05,0x07,0x04,0x08,0x03,0x09,0x02,0x00,0x0a,0x01,0x0b,0xff ],
    ];
const CRW2: [[u8; 180]; 3] = [
      [ 0,2,2,2,1,4,2,1,2,5,1,1,0,0,0,139,
        0x03,0x04,0x02,0x05,0x01,0x06,0x07,0x08,
        0x12,0x13,0x11,0x14,0x09,0x15,0x22,0x00,0x21,0x16,0x0a,0xf0,
        0x23,0x17,0x24,0x31,0x32,0x18,0x19,0x33,0x25,0x41,0x34,0x42,
        0x35,0x51,0x36,0x37,0x38,0x29,0x79,0x26,0x1a,0x39,0x56,0x57,
        0x28,0x27,0x52,0x55,0x58,0x43,0x76,0x59,0x77,0x54,0x61,0xf9,
        0x71,0x78,0x75,0x96,0x97,0x49,0xb7,0x53,0xd7,0x74,0xb6,0x98,
        0x47,0x48,0x95,0x69,0x99,0x91,0xfa,0xb8,0x68,0xb5,0xb9,0xd6,
        0xf7,0xd8,0x67,0x46,0x45,0x94,0x89,0xf8,0x81,0xd5,0xf6,0xb4,
        0x88,0xb1,0x2a,0x44,0x72,0xd9,0x87,0x66,0xd4,0xf5,0x3a,0xa7,
        0x73,0xa9,0xa8,0x86,0x62,0xc7,0x65,0xc8,0xc9,0xa1,0xf4,0xd1,
        0xe9,0x5a,0x92,0x85,0xa6,0xe7,0x93,0xe8,0xc1,0xc6,0x7a,0x64,
        0xe1,0x4a,0x6a,0xe6,0xb3,0xf1,0xd3,0xa5,0x8a,0xb2,0x9a,0xba,
        0x84,0xa4,0x63,0xe5,0xc5,0xf3,0xd2,0xc4,0x82,0xaa,0xda,0xe4,
        0xf2,0xca,0x83,0xa3,0xa2,0xc3,0xea,0xc2,0xe2,0xe3,0xff,0xff ],
      [ 0,2,2,1,4,1,4,1,3,3,1,0,0,0,0,140,
        0x02,0x03,0x01,0x04,0x05,0x12,0x11,0x06,
        0x13,0x07,0x08,0x14,0x22,0x09,0x21,0x00,0x23,0x15,0x31,0x32,
        0x0a,0x16,0xf0,0x24,0x33,0x41,0x42,0x19,0x17,0x25,0x18,0x51,
        0x34,0x43,0x52,0x29,0x35,0x61,0x39,0x71,0x62,0x36,0x53,0x26,
        0x38,0x1a,0x37,0x81,0x27,0x91,0x79,0x55,0x45,0x28,0x72,0x59,
        0xa1,0xb1,0x44,0x69,0x54,0x58,0xd1,0xfa,0x57,0xe1,0xf1,0xb9,
        0x49,0x47,0x63,0x6a,0xf9,0x56,0x46,0xa8,0x2a,0x4a,0x78,0x99,
        0x3a,0x75,0x74,0x86,0x65,0xc1,0x76,0xb6,0x96,0xd6,0x89,0x85,
        0xc9,0xf5,0x95,0xb4,0xc7,0xf7,0x8a,0x97,0xb8,0x73,0xb7,0xd8,
        0xd9,0x87,0xa7,0x7a,0x48,0x82,0x84,0xea,0xf4,0xa6,0xc5,0x5a,
        0x94,0xa4,0xc6,0x92,0xc3,0x68,0xb5,0xc8,0xe4,0xe5,0xe6,0xe9,
        0xa2,0xa3,0xe3,0xc2,0x66,0x67,0x93,0xaa,0xd4,0xd5,0xe7,0xf8,
        0x88,0x9a,0xd7,0x77,0xc4,0x64,0xe2,0x98,0xa5,0xca,0xda,0xe8,
        0xf3,0xf6,0xa9,0xb2,0xb3,0xf2,0xd2,0x83,0xba,0xd3,0xff,0xff ],
      [ 0,0,6,2,1,3,3,2,5,1,2,2,8,10,0,117,
        0x04,0x05,0x03,0x06,0x02,0x07,0x01,0x08,
        0x09,0x12,0x13,0x14,0x11,0x15,0x0a,0x16,0x17,0xf0,0x00,0x22,
        0x21,0x18,0x23,0x19,0x24,0x32,0x31,0x25,0x33,0x38,0x37,0x34,
        0x35,0x36,0x39,0x79,0x57,0x58,0x59,0x28,0x56,0x78,0x27,0x41,
        0x29,0x77,0x26,0x42,0x76,0x99,0x1a,0x55,0x98,0x97,0xf9,0x48,
        0x54,0x96,0x89,0x47,0xb7,0x49,0xfa,0x75,0x68,0xb6,0x67,0x69,
        0xb9,0xb8,0xd8,0x52,0xd7,0x88,0xb5,0x74,0x51,0x46,0xd9,0xf8,
        0x3a,0xd6,0x87,0x45,0x7a,0x95,0xd5,0xf6,0x86,0xb4,0xa9,0x94,
        0x53,0x2a,0xa8,0x43,0xf5,0xf7,0xd4,0x66,0xa7,0x5a,0x44,0x8a,
        0xc9,0xe8,0xc8,0xe7,0x9a,0x6a,0x73,0x4a,0x61,0xc7,0xf4,0xc6,
        0x65,0xe9,0x72,0xe6,0x71,0x91,0x93,0xa6,0xda,0x92,0x85,0x62,
        0xf3,0xc5,0xb2,0xa4,0x84,0xba,0x64,0xa5,0xb3,0xd2,0x81,0xe5,
        0xd3,0xaa,0xc4,0xca,0xf2,0xb1,0xe4,0xd1,0x83,0x63,0xea,0xc3,
        0xe2,0x82,0xf1,0xa3,0xc2,0xa1,0xc1,0xe3,0xa2,0xe1,0xff,0xff ]
    ];

/// the white balance of Nikon's cameras, hidden behind the serial number and a key
pub fn nikon_crypt(d: &mut [u8], serial: &str, key: [u8; 4]) {
  let no = serial.bytes().fold(0usize, |n, c| n.wrapping_mul(10).wrapping_add(if c.is_ascii_digit() { c as usize - 48 } else { c as usize % 10 }));
  let mul = SERIALS[no & 255] as u32;
  let mut x = KEYS[(key[0] ^ key[1] ^ key[2] ^ key[3]) as usize] as u32;
  for (i, b) in d.iter_mut().enumerate() { x += mul * (0x60 + i as u32); *b ^= x as u8 }
}
const SERIALS: [u8; 256] = [
  0xc1,0xbf,0x6d,0x0d,0x59,0xc5,0x13,0x9d,0x83,0x61,0x6b,0x4f,0xc7,0x7f,0x3d,0x3d,
  0x53,0x59,0xe3,0xc7,0xe9,0x2f,0x95,0xa7,0x95,0x1f,0xdf,0x7f,0x2b,0x29,0xc7,0x0d,
  0xdf,0x07,0xef,0x71,0x89,0x3d,0x13,0x3d,0x3b,0x13,0xfb,0x0d,0x89,0xc1,0x65,0x1f,
  0xb3,0x0d,0x6b,0x29,0xe3,0xfb,0xef,0xa3,0x6b,0x47,0x7f,0x95,0x35,0xa7,0x47,0x4f,
  0xc7,0xf1,0x59,0x95,0x35,0x11,0x29,0x61,0xf1,0x3d,0xb3,0x2b,0x0d,0x43,0x89,0xc1,
  0x9d,0x9d,0x89,0x65,0xf1,0xe9,0xdf,0xbf,0x3d,0x7f,0x53,0x97,0xe5,0xe9,0x95,0x17,
  0x1d,0x3d,0x8b,0xfb,0xc7,0xe3,0x67,0xa7,0x07,0xf1,0x71,0xa7,0x53,0xb5,0x29,0x89,
  0xe5,0x2b,0xa7,0x17,0x29,0xe9,0x4f,0xc5,0x65,0x6d,0x6b,0xef,0x0d,0x89,0x49,0x2f,
  0xb3,0x43,0x53,0x65,0x1d,0x49,0xa3,0x13,0x89,0x59,0xef,0x6b,0xef,0x65,0x1d,0x0b,
  0x59,0x13,0xe3,0x4f,0x9d,0xb3,0x29,0x43,0x2b,0x07,0x1d,0x95,0x59,0x59,0x47,0xfb,
  0xe5,0xe9,0x61,0x47,0x2f,0x35,0x7f,0x17,0x7f,0xef,0x7f,0x95,0x95,0x71,0xd3,0xa3,
  0x0b,0x71,0xa3,0xad,0x0b,0x3b,0xb5,0xfb,0xa3,0xbf,0x4f,0x83,0x1d,0xad,0xe9,0x2f,
  0x71,0x65,0xa3,0xe5,0x07,0x35,0x3d,0x0d,0xb5,0xe9,0xe5,0x47,0x3b,0x9d,0xef,0x35,
  0xa3,0xbf,0xb3,0xdf,0x53,0xd3,0x97,0x53,0x49,0x71,0x07,0x35,0x61,0x71,0x2f,0x43,
  0x2f,0x11,0xdf,0x17,0x97,0xfb,0x95,0x3b,0x7f,0x6b,0xd3,0x25,0xbf,0xad,0xc7,0xc5,
  0xc5,0xb5,0x8b,0xef,0x2f,0xd3,0x07,0x6b,0x25,0x49,0x95,0x25,0x49,0x6d,0x71,0xc7
];
const KEYS: [u8; 256] = [
  0xa7,0xbc,0xc9,0xad,0x91,0xdf,0x85,0xe5,0xd4,0x78,0xd5,0x17,0x46,0x7c,0x29,0x4c,
  0x4d,0x03,0xe9,0x25,0x68,0x11,0x86,0xb3,0xbd,0xf7,0x6f,0x61,0x22,0xa2,0x26,0x34,
  0x2a,0xbe,0x1e,0x46,0x14,0x68,0x9d,0x44,0x18,0xc2,0x40,0xf4,0x7e,0x5f,0x1b,0xad,
  0x0b,0x94,0xb6,0x67,0xb4,0x0b,0xe1,0xea,0x95,0x9c,0x66,0xdc,0xe7,0x5d,0x6c,0x05,
  0xda,0xd5,0xdf,0x7a,0xef,0xf6,0xdb,0x1f,0x82,0x4c,0xc0,0x68,0x47,0xa1,0xbd,0xee,
  0x39,0x50,0x56,0x4a,0xdd,0xdf,0xa5,0xf8,0xc6,0xda,0xca,0x90,0xca,0x01,0x42,0x9d,
  0x8b,0x0c,0x73,0x43,0x75,0x05,0x94,0xde,0x24,0xb3,0x80,0x34,0xe5,0x2c,0xdc,0x9b,
  0x3f,0xca,0x33,0x45,0xd0,0xdb,0x5f,0xf5,0x52,0xc3,0x21,0xda,0xe2,0x22,0x72,0x6b,
  0x3e,0xd0,0x5b,0xa8,0x87,0x8c,0x06,0x5d,0x0f,0xdd,0x09,0x19,0x93,0xd0,0xb9,0xfc,
  0x8b,0x0f,0x84,0x60,0x33,0x1c,0x9b,0x45,0xf1,0xf0,0xa3,0x94,0x3a,0x12,0x77,0x33,
  0x4d,0x44,0x78,0x28,0x3c,0x9e,0xfd,0x65,0x57,0x16,0x94,0x6b,0xfb,0x59,0xd0,0xc8,
  0x22,0x36,0xdb,0xd2,0x63,0x98,0x43,0xa1,0x04,0x87,0x86,0xf7,0xa6,0x26,0xbb,0xd6,
  0x59,0x4d,0xbf,0x6a,0x2e,0xaa,0x2b,0xef,0xe6,0x78,0xb6,0x4e,0xe0,0x2f,0xdc,0x7c,
  0xbe,0x57,0x19,0x32,0x7e,0x2a,0xd0,0xb8,0xba,0x29,0x00,0x3c,0x52,0x7d,0xa8,0x49,
  0x3b,0x2d,0xeb,0x25,0x49,0xfa,0xa3,0xaa,0x39,0xa7,0xc5,0xa7,0x50,0x11,0x36,0xfb,
  0xc6,0x67,0x4a,0xf5,0xa5,0x12,0x65,0x7e,0xb0,0xdf,0xaf,0x4e,0xb3,0x61,0x7f,0x2f
];
