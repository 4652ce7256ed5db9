//! Random histories.
use crate::model::*;

const NAMES: [&str; 16] = [
    "d1", "s1", "root.sg.d1", "a", "a.b", "a-b", "b.c", "c", "Zürich", "температура", "x y", "s10", "s2", "ab", "日本.語", "root.sg_1.a_device_with_a_rather_long_name.to_get_beyond_63_bytes_of_path",
];

pub fn name(r: &mut Rng) -> String {
    match r.below(12) {
        0 => format!("s{}", r.below(1000)),
        1 => {
            let n = r.range(0, 80);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
        2 => {
            let n = r.range(1, 6);
            (0..n).map(|_| *r.pick(&['.', 'a', '-', 'é', '0', '/'])).collect()
        }
        _ => r.pick(&NAMES).to_string(),
    }
}

pub fn value(r: &mut Rng, ty: u8, style: u64) -> V {
    match ty {
        1 => V::I(match style % 5 {
            0 => r.below(100) as i32,
            1 => r.next() as i32,
            2 => *r.pick(&[i32::MIN, i32::MAX, 0, -1, 1, i32::MIN + 1, i32::MAX - 1]),
            3 => 7,
            _ => (r.next() as i32) >> r.below(32),
        }),
        2 => V::L(match style % 5 {
            0 => r.below(100) as i64,
            1 => r.next() as i64,
            2 => *r.pick(&[i64::MIN, i64::MAX, 0, -1, 1, i64::MIN + 1, i64::MAX - 1]),
            3 => -7,
            _ => (r.next() as i64) >> r.below(64),
        }),
        3 => V::F(match style % 5 {
            0 => (r.below(1000) as f32 - 500.0).to_bits(),
            1 => r.next() as u32,
            2 => *r.pick(&[0x7fc00000, 0x7f800000, 0xff800000, 0x80000000, 0, 1, 0x7f7fffff, 0xff7fffff, 0xffc00001]),
            3 => 1.5_f32.to_bits(),
            _ => (r.next() as i32 as f32 / 7.0).to_bits(),
        }),
        _ => V::D(r.next()),
    }
}

pub fn decls(r: &mut Rng, devices: u64, per: u64) -> Vec<Decl> {
    let mut v: Vec<Decl> = vec![];
    for _ in 0..r.range(1, devices) {
        let dev = name(r);
        if v.iter().any(|d| d.dev == dev) {
            continue;
        }
        for _ in 0..r.range(1, per) {
            let meas = name(r);
            if v.iter().any(|d| d.dev == dev && d.meas == meas) {
                continue;
            }
            let ty = r.range(1, 3) as u8;
            let enc = if (ty != 3 && r.chance(1, 2)) || r.chance(1, 20) { 4 } else { 0 };
            v.push(Decl { dev: dev.clone(), meas, ty, enc, comp: r.below(2) as u8 });
        }
    }
    v
}

fn step(r: &mut Rng, style: u64) -> i64 {
    match style % 4 {
        0 => 1,
        1 => r.range(1, 1000) as i64,
        2 => r.range(1, 1 << 40) as i64,
        _ => 1 << r.below(20),
    }
}

/// Mixed calls on a few series; `bad` out of 100 calls are wrong somehow.
pub fn mixed(r: &mut Rng, ops: u64, bad: u64, flush: u64) -> Hist {
    let decls = decls(r, 4, 5);
    let style = r.below(25);
    let mut last: std::collections::BTreeMap<(String, String), i64> = Default::default();
    let mut out = vec![];
    let n = r.range(0, ops);
    let mut start = match r.below(6) {
        0 => 0,
        1 => i64::MAX - r.below(1 << 50) as i64,
        2 => r.below(1 << 60) as i64,
        _ => r.below(100) as i64,
    };
    if r.chance(1, 30) {
        start = i64::MAX - r.below(3) as i64;
    }
    for _ in 0..n {
        if r.chance(flush, 100) {
            out.push(Op::Flush);
            continue;
        }
        let d = r.pick(&decls).clone();
        let key = (d.dev.clone(), d.meas.clone());
        let prev = last.get(&key).copied();
        let mut ts = match prev {
            None => start,
            Some(p) => p.saturating_add(step(r, style)),
        };
        let mut v = value(r, d.ty, style / 4);
        let (mut dev, mut meas) = (d.dev.clone(), d.meas.clone());
        let wrong = r.chance(bad, 100);
        if wrong {
            match r.below(6) {
                0 => ts = prev.unwrap_or(-1),
                1 => ts = prev.unwrap_or(0).wrapping_sub(r.range(1, 5) as i64),
                2 => {
                    let t = r.range(1, 4) as u8;
                    v = value(r, t, style);
                    ts = ts.saturating_add(r.below(1000) as i64);
                }
                3 => dev = name(r),
                4 => meas = name(r),
                _ => ts = *r.pick(&[-1, i64::MIN, 0, -5]),
            }
        }
        if r.chance(1, 5) {
            let sib: Vec<&Decl> = decls.iter().filter(|x| x.dev == d.dev).collect();
            let mut vs = vec![];
            for s in &sib {
                if r.chance(1, 2) {
                    vs.push((s.meas.clone(), value(r, s.ty, style / 4)));
                }
            }
            if r.chance(bad, 100) {
                let t = r.range(1, 4) as u8;
                vs.push((meas.clone(), value(r, t, style)));
            }
            for (m, _) in &vs {
                let k = (d.dev.clone(), m.clone());
                let p = *last.get(&k).unwrap_or(&-1);
                if !wrong && ts <= p {
                    ts = p.saturating_add(1);
                }
            }
            let at = r.below(vs.len() as u64 + 1) as usize;
            vs.insert(at, (meas.clone(), v));
            for (m, _) in &vs {
                let k = (dev.clone(), m.clone());
                let p = *last.get(&k).unwrap_or(&-1);
                last.insert(k, p.max(ts));
            }
            out.push(Op::Many(dev, ts, vs));
        } else {
            let k = (dev.clone(), meas.clone());
            if !wrong {
                last.insert(k, ts.max(prev.unwrap_or(-1)));
            }
            out.push(Op::Write(dev, meas, ts, v));
        }
    }
    Hist { degree: 256, base: 0, decls, ops: out, label: "mixed".to_string() }
}

/// Few series with many points each: block and page boundaries.
pub fn long(r: &mut Rng, max: u64, flush: bool) -> Hist {
    let nd = r.range(1, 3);
    let decls = loop {
        let d = decls(r, 2, nd);
        if d.iter().any(|d| !(d.ty == 3 && d.enc == 4)) {
            break d;
        }
    };
    let mut out = vec![];
    let style = r.below(25);
    let start = r.below(1 << 30) as i64;
    let flush = flush && r.chance(1, 2);
    for d in &decls {
        if d.ty == 3 && d.enc == 4 {
            continue;
        }
        let n = match r.below(5) {
            0 => r.range(126, 132),
            1 => r.range(255, 262),
            2 => r.range(7985, 8000).min(max),
            3 => r.range(1, max),
            _ => 129 * r.range(1, 5) + r.below(3),
        };
        let mut ts = start;
        let mut st = style;
        for i in 0..n {
            if i % 3000 == 2999 {
                st = r.below(25);
            }
            out.push(Op::Write(d.dev.clone(), d.meas.clone(), ts, value(r, d.ty, st)));
            ts += step(r, style);
            if flush && r.chance(1, 2000) {
                out.push(Op::Flush);
            }
        }
        if flush && r.chance(1, 2) {
            out.push(Op::Flush);
        }
    }
    Hist { degree: 256, base: 0, decls, ops: out, label: "long".to_string() }
}

/// Many series: index trees.
pub fn many(r: &mut Rng, devices: u64, per: u64, degree: usize) -> Hist {
    let mut decls = vec![];
    let dotted = r.chance(1, 3);
    let plainname = r.chance(1, 2);
    let nd = r.range(1, devices);
    for i in 0..nd {
        let dev = if plainname { format!("d{}", i) } else if dotted && i % 3 == 0 { format!("d{}.x", i / 3) } else { format!("{}{}", name(r), i) };
        for j in 0..r.range(1, per) {
            let meas = if dotted && j % 3 == 1 { format!("x.s{}", j) } else if plainname { format!("s{}", j) } else { format!("{}{}", name(r), j) };
            let ty = r.range(1, 3) as u8;
            decls.push(Decl { dev: dev.clone(), meas, ty, enc: 0, comp: 0 });
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    decls.retain(|d: &Decl| seen.insert((d.dev.clone(), d.meas.clone())));
    let mut out = vec![];
    for d in &decls {
        if r.chance(1, 25) {
            continue; // declared but never written
        }
        out.push(Op::Write(d.dev.clone(), d.meas.clone(), 1, value(r, d.ty, 0)));
    }
    if r.chance(1, 2) {
        out.push(Op::Flush);
        for d in decls.iter().take(20) {
            out.push(Op::Write(d.dev.clone(), d.meas.clone(), 2, value(r, d.ty, 0)));
        }
    }
    Hist { degree, base: 0, decls, ops: out, label: "many".to_string() }
}

/// The same history without the calls and points the model rejects.
pub fn strip(h: &Hist) -> Hist {
    let mut m = Model::new(h);
    let mut ops = vec![];
    for op in &h.ops {
        match op {
            Op::Flush => ops.push(Op::Flush),
            Op::Write(d, s, ts, v) => {
                if m.errors(d, s, *ts, v).is_empty() {
                    m.accept(d, s, *ts, v);
                    ops.push(op.clone());
                }
            }
            Op::Many(d, ts, vs) => {
                let mut good = vec![];
                for (s, v) in vs {
                    if m.errors(d, s, *ts, v).is_empty() {
                        m.accept(d, s, *ts, v);
                        good.push((s.clone(), *v));
                    } else {
                        break;
                    }
                }
                if !good.is_empty() {
                    ops.push(Op::Many(d.clone(), *ts, good));
                }
            }
        }
    }
    Hist { degree: h.degree, base: h.base, decls: h.decls.clone(), ops, label: format!("{} without rejected calls", h.label) }
}
