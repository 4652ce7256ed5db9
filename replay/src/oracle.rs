//! Independent implementations of the format's building blocks (written from the format, not
//! from the code under test).
use crate::model::V;

pub fn uvar(mut x: u32) -> Vec<u8> {
    let mut r = vec![];
    loop {
        let g = (x % 128) as u8;
        x /= 128;
        if x == 0 {
            r.push(g);
            return r;
        }
        r.push(g + 128);
    }
}

pub fn zigzag(x: i32) -> u32 {
    let y = x as i64;
    (if y >= 0 { 2 * y } else { -2 * y - 1 }) as u32
}

pub fn unzigzag(u: u32) -> i32 {
    let y = u as i64;
    (if y % 2 == 0 { y / 2 } else { -(y + 1) / 2 }) as i32
}

pub fn svar(x: i32) -> Vec<u8> {
    uvar(zigzag(x))
}

pub fn vstr(s: &str) -> Vec<u8> {
    let mut r = svar(s.len() as i32);
    r.extend_from_slice(s.as_bytes());
    r
}

#[derive(Clone)]
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub i: usize,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8], i: usize) -> Cur<'a> {
        Cur { b, i }
    }
    pub fn left(&self) -> usize {
        self.b.len().saturating_sub(self.i)
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if n > self.left() {
            return Err(format!("{} bytes wanted at {}, {} there", n, self.i, self.left()));
        }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    pub fn be(&mut self, n: usize) -> Result<u64, String> {
        Ok(self.take(n)?.iter().fold(0, |a, b| a * 256 + *b as u64))
    }
    pub fn i64(&mut self) -> Result<i64, String> {
        let b = self.take(8)?;
        Ok(b.iter().fold(0_u64, |a, b| (a << 8) | *b as u64) as i64)
    }
    pub fn uvar(&mut self) -> Result<u32, String> {
        let start = self.i;
        let mut v: u64 = 0;
        let mut f: u64 = 1;
        loop {
            let b = self.u8()?;
            v += (b % 128) as u64 * f;
            if v > u32::MAX as u64 {
                return Err(format!("varint at {} exceeds 32 bits", start));
            }
            if b < 128 {
                if b == 0 && self.i - start > 1 {
                    return Err(format!("varint at {} is not canonical", start));
                }
                return Ok(v as u32);
            }
            f *= 128;
            if f > 1 << 35 {
                return Err(format!("varint at {} too long", start));
            }
        }
    }
    pub fn svar(&mut self) -> Result<i32, String> {
        Ok(unzigzag(self.uvar()?))
    }
    pub fn vstr(&mut self) -> Result<String, String> {
        let n = self.svar()?;
        if n < 0 {
            return Err(format!("string of length {} before {}", n, self.i));
        }
        String::from_utf8(self.take(n as usize)?.to_vec()).map_err(|e| e.to_string())
    }
}

/// Decodes TS2DIFF blocks until the end; `bits` is 64 or 32.
pub fn ts2diff(b: &[u8], bits: u32) -> Result<Vec<i64>, String> {
    let mut out = vec![];
    let mut c = Cur::new(b, 0);
    let n = (bits / 8) as usize;
    let sext = |x: u64| -> i64 {
        if bits == 32 {
            x as u32 as i32 as i64
        } else {
            x as i64
        }
    };
    let wrap = |a: i64, b: i64| -> i64 {
        if bits == 32 {
            (a as i32).wrapping_add(b as i32) as i64
        } else {
            a.wrapping_add(b)
        }
    };
    let be = |c: &mut Cur| -> Result<u64, String> {
        Ok(c.take(n)?.iter().fold(0_u64, |a, b| (a << 8) | *b as u64))
    };
    while c.left() > 0 {
        let count = c.be(4)? as usize;
        let width = c.be(4)? as usize;
        if width > bits as usize {
            return Err(format!("width {} in a delta block", width));
        }
        let min = sext(be(&mut c)?);
        let first = sext(be(&mut c)?);
        out.push(first);
        let body = c.take((count * width + 7) / 8)?;
        let mut prev = first;
        for k in 0..count {
            let mut x: u64 = 0;
            for j in k * width..(k + 1) * width {
                x = (x << 1) | ((body[j / 8] >> (7 - j % 8)) & 1) as u64;
            }
            prev = wrap(wrap(prev, min), sext(x));
            out.push(prev);
        }
        // unused bits of the last byte are zero
        for j in count * width..body.len() * 8 {
            if (body[j / 8] >> (7 - j % 8)) & 1 == 1 {
                return Err("padding bits set in a delta block".to_string());
            }
        }
    }
    Ok(out)
}

pub fn plain(b: &[u8], ty: u8) -> Result<Vec<V>, String> {
    let mut c = Cur::new(b, 0);
    let mut out = vec![];
    while c.left() > 0 {
        out.push(match ty {
            1 => V::I(c.svar()?),
            2 => V::L(c.i64()?),
            3 => V::F(c.be(4)? as u32),
            _ => return Err(format!("type code {}", ty)),
        });
    }
    Ok(out)
}

pub fn plain_bytes(v: &V) -> Vec<u8> {
    match v {
        V::I(x) => svar(*x),
        V::L(x) => be_bytes(*x as u64, 8),
        V::F(x) => be_bytes(*x as u64, 4),
        V::D(x) => be_bytes(*x, 8),
    }
}

pub fn be_bytes(x: u64, n: usize) -> Vec<u8> {
    (0..n).rev().map(|i| (x >> (8 * i)) as u8).collect()
}

/// MurmurHash3 x64 128, both lanes seeded, sum of both halves.
pub fn murmur(data: &[u8], seed: i32) -> u64 {
    const C1: u64 = 0x87c3_7b91_1142_53d5;
    const C2: u64 = 0x4cf5_ad43_2745_937f;
    let mix1 = |k: u64| k.wrapping_mul(C1).rotate_left(31).wrapping_mul(C2);
    let mix2 = |k: u64| k.wrapping_mul(C2).rotate_left(33).wrapping_mul(C1);
    let (mut h1, mut h2) = (seed as i64 as u64, seed as i64 as u64);
    let word = |b: &[u8]| b.iter().rev().fold(0_u64, |a, x| (a << 8) | *x as u64);
    let mut chunks = data.chunks_exact(16);
    for c in &mut chunks {
        h1 = (h1 ^ mix1(word(&c[..8]))).rotate_left(27).wrapping_add(h2);
        h1 = h1.wrapping_mul(5).wrapping_add(0x52dce729);
        h2 = (h2 ^ mix2(word(&c[8..]))).rotate_left(31).wrapping_add(h1);
        h2 = h2.wrapping_mul(5).wrapping_add(0x38495ab5);
    }
    let t = chunks.remainder();
    if t.len() > 8 {
        h2 ^= mix2(word(&t[8..]));
    }
    if !t.is_empty() {
        h1 ^= mix1(word(&t[..t.len().min(8)]));
    }
    h1 ^= data.len() as u64;
    h2 ^= data.len() as u64;
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    let fmix = |mut k: u64| {
        k ^= k >> 33;
        k = k.wrapping_mul(0xff51afd7ed558ccd);
        k ^= k >> 33;
        k = k.wrapping_mul(0xc4ceb9fe1a85ec53);
        k ^ (k >> 33)
    };
    h1 = fmix(h1);
    h2 = fmix(h2);
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1.wrapping_add(h2)
}

pub const SEEDS: [i32; 8] = [5, 7, 11, 19, 31, 37, 43, 59];

pub fn bloom_position(path: &str, seed: i32, size: i32) -> usize {
    let h = murmur(path.as_bytes(), seed) as i32;
    let h = if h == i32::MIN { 0 } else { h.abs() };
    (h % size) as usize
}

pub fn bloom_has(bits: &[u8], size: i32, k: i32, path: &str) -> Result<bool, String> {
    if size <= 0 || !(1..=8).contains(&k) {
        return Err(format!("bloom filter of size {} with {} functions", size, k));
    }
    Ok((0..k as usize).all(|i| {
        let p = bloom_position(path, SEEDS[i], size);
        bits.get(p / 8).map_or(false, |b| (b >> (p % 8)) & 1 == 1)
    }))
}

/// CRC-32 (IEEE), bit by bit.
pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0_u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    !c
}

/// Statistics of some points, or merged ones.
#[derive(Clone, Debug)]
pub struct Stat {
    pub count: u64,
    pub start: i64,
    pub end: i64,
    pub min: V,
    pub max: V,
    pub first: V,
    pub last: V,
    pub sum: Sum,
}

#[derive(Clone, Copy, Debug)]
pub enum Sum {
    I(i64),
    F(f64),
}

fn lt(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::I(a), V::I(b)) => a < b,
        (V::L(a), V::L(b)) => a < b,
        (V::F(a), V::F(b)) => f32::from_bits(*a) < f32::from_bits(*b),
        _ => false,
    }
}

fn as_sum(v: &V) -> Sum {
    match v {
        V::I(x) => Sum::I(*x as i64),
        V::L(x) => Sum::F(*x as f64),
        V::F(x) => Sum::F(f32::from_bits(*x) as f64),
        V::D(x) => Sum::F(f64::from_bits(*x)),
    }
}

fn add(a: Sum, b: Sum) -> Sum {
    match (a, b) {
        (Sum::I(a), Sum::I(b)) => Sum::I(a.wrapping_add(b)),
        (Sum::F(a), Sum::F(b)) => Sum::F(a + b),
        _ => a,
    }
}

pub fn stat_of(points: &[(i64, V)]) -> Option<Stat> {
    let (t, v) = points.first()?;
    let zero = match v {
        V::I(_) => Sum::I(0),
        _ => Sum::F(0.0),
    };
    let mut s = Stat { count: 1, start: *t, end: *t, min: *v, max: *v, first: *v, last: *v, sum: add(zero, as_sum(v)) };
    for (t, v) in &points[1..] {
        s.count += 1;
        if *t < s.start {
            s.start = *t;
            s.first = *v;
        }
        if *t > s.end {
            s.end = *t;
            s.last = *v;
        }
        if lt(v, &s.min) {
            s.min = *v;
        }
        if lt(&s.max, v) {
            s.max = *v;
        }
        s.sum = add(s.sum, as_sum(v));
    }
    Some(s)
}

pub fn stat_merge(parts: &[Stat]) -> Option<Stat> {
    let mut s = parts.first()?.clone();
    for o in &parts[1..] {
        s.count += o.count;
        if o.start < s.start {
            s.start = o.start;
            s.first = o.first;
        }
        if o.end > s.end {
            s.end = o.end;
            s.last = o.last;
        }
        if lt(&o.min, &s.min) {
            s.min = o.min;
        }
        if lt(&s.max, &o.max) {
            s.max = o.max;
        }
        s.sum = add(s.sum, o.sum);
    }
    Some(s)
}

pub fn stat_read(c: &mut Cur, ty: u8) -> Result<Stat, String> {
    let count = c.uvar()? as u64;
    let start = c.i64()?;
    let end = c.i64()?;
    let mut v = || -> Result<V, String> {
        Ok(match ty {
            1 => V::I(c.be(4)? as u32 as i32),
            2 => V::L(c.i64()?),
            3 => V::F(c.be(4)? as u32),
            _ => return Err(format!("type code {}", ty)),
        })
    };
    let (min, max, first, last) = (v()?, v()?, v()?, v()?);
    let sum = if ty == 1 {
        Sum::I(c.i64()?)
    } else {
        Sum::F(f64::from_bits(c.i64()? as u64))
    };
    Ok(Stat { count, start, end, min, max, first, last, sum })
}

/// What is wrong with statistics `got`, given `want` (equal floats with different signs of zero
/// are both a minimum; NaN payloads of a sum are not specified).
pub fn stat_diff(got: &Stat, want: &Stat) -> Option<String> {
    let eq = |a: &V, b: &V| {
        a.same(b)
            || match (a, b) {
                (V::F(a), V::F(b)) => f32::from_bits(*a) == f32::from_bits(*b),
                _ => false,
            }
    };
    let sums = match (got.sum, want.sum) {
        (Sum::I(a), Sum::I(b)) => a == b,
        (Sum::F(a), Sum::F(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        _ => false,
    };
    let ok = got.count == want.count
        && got.start == want.start
        && got.end == want.end
        && eq(&got.min, &want.min)
        && eq(&got.max, &want.max)
        && got.first.same(&want.first)
        && got.last.same(&want.last)
        && sums;
    if ok {
        None
    } else {
        Some(format!("statistics are {:?}, recomputed {:?}", got, want))
    }
}
