//! Checks of single parts against independent implementations.
use crate::gen;
use crate::model::*;
use crate::oracle::*;
use crate::reader::Finding;
use crate::Case;
use std::collections::BTreeMap;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::{Schema, TSDataType};
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use crate::api::{comp, enc, guarded, ty};

fn case(sample: String, nontrivial: bool, findings: Vec<Finding>) -> Case {
    Case { sig: crate::fnv(sample.as_bytes()), nontrivial, sample, findings, hist: None }
}

fn short(s: &str) -> String {
    s.chars().take(400).collect()
}

// ---- C14, C17: public API -------------------------------------------------------------------

/// All values and all 256 bytes (exhaustive; the index selects nothing).
pub fn codes(_: &mut Rng) -> Case {
    let mut f: Vec<Finding> = vec![];
    let mut t = |c: bool, m: String| {
        if !c {
            f.push((vec!["C14"], m));
        }
    };
    for (d, c) in [(TSDataType::INT32, 1), (TSDataType::INT64, 2), (TSDataType::FLOAT, 3)] {
        t(d.serialize() == c, format!("{:?} has code {}", d, d.serialize()));
    }
    for (d, c) in [(TSEncoding::PLAIN, 0), (TSEncoding::TS2DIFF, 4)] {
        t(d.serialize() == c, format!("{:?} has code {}", d, d.serialize()));
    }
    for (d, c) in [(CompressionType::UNCOMPRESSED, 0), (CompressionType::SNAPPY, 1)] {
        t(d.serialize() == c, format!("{:?} has code {}", d, d.serialize()));
    }
    for b in 0..=255_u8 {
        let want = match b {
            1 => Some(TSDataType::INT32),
            2 => Some(TSDataType::INT64),
            3 => Some(TSDataType::FLOAT),
            _ => None,
        };
        let got = guarded(|| TSDataType::try_from(b).ok());
        t(got == Ok(want), format!("data type of code {}: {:?}", b, got));
        let want = match b {
            0 => Some(TSEncoding::PLAIN),
            4 => Some(TSEncoding::TS2DIFF),
            _ => None,
        };
        let got = guarded(|| TSEncoding::try_from(b).ok());
        t(got == Ok(want), format!("encoding of code {}: {:?}", b, got));
        let want = match b {
            0 => Some(CompressionType::UNCOMPRESSED),
            1 => Some(CompressionType::SNAPPY),
            _ => None,
        };
        let got = guarded(|| CompressionType::try_from(b).ok());
        t(got == Ok(want), format!("compression of code {}: {:?}", b, got));
    }
    case("all 7 values and all 256 bytes for each of the three kinds of codes".into(), true, f)
}

type SchemaModel = BTreeMap<String, BTreeMap<String, (u8, u8, u8)>>;

fn read_schema(s: &Schema) -> (SchemaModel, usize, usize) {
    let mut m = SchemaModel::new();
    let (mut nd, mut nm) = (0, 0);
    for (d, g) in s.get_devices() {
        nd += 1;
        let mut e = BTreeMap::new();
        for (n, ms) in g.get_timeseries() {
            nm += 1;
            e.insert(n.to_string(), (ms.data_type.serialize(), ms.encoding.serialize(), ms.compression.serialize()));
        }
        m.insert(d.to_string(), e);
    }
    (m, nd, nm)
}

pub fn schema(r: &mut Rng) -> Case {
    let mut f: Vec<Finding> = vec![];
    let names: Vec<String> = (0..12).map(|_| gen::name(r)).collect();
    let n = r.range(1, 30);
    let plan: Vec<(u64, usize, usize, (u8, u8, u8))> = (0..n)
        .map(|_| (r.below(10), r.below(12) as usize, r.below(5) as usize, (r.range(1, 3) as u8, *r.pick(&[0, 4]), r.below(2) as u8)))
        .collect();
    let text = short(&format!("names {:?}, declarations {:?}", names, plan));
    let res = guarded(|| {
        let mut sb = TsFileSchemaBuilder::new();
        let mut sm = SchemaModel::new();
        let mut db = DeviceBuilder::new();
        let mut dm: BTreeMap<String, (u8, u8, u8)> = BTreeMap::new();
        for (what, d, m, t) in &plan {
            match what {
                0..=5 => {
                    db.add(&names[*m], ty(t.0), enc(t.1), comp(t.2));
                    dm.insert(names[*m].clone(), *t);
                }
                6..=7 => {
                    if !dm.is_empty() {
                        sb.add(&names[*d], db.build());
                        sm.insert(names[*d].clone(), dm.clone());
                    }
                }
                8 => {
                    if !dm.is_empty() {
                        sb.add(&names[*d], db.build());
                        sm.insert(names[*d].clone(), dm.clone());
                        db = DeviceBuilder::new();
                        dm.clear();
                    }
                }
                _ => {
                    let (got, nd, nm) = read_schema(&sb.build());
                    if got != sm || nd != sm.len() || nm != sm.values().map(|x| x.len()).sum::<usize>() {
                        f.push((vec!["C17"], format!("schema is {:?} with {} devices, {} measurements; declared {:?}", got, nd, nm, sm)));
                    }
                }
            }
        }
        for _ in 0..2 {
            let got = read_schema(&sb.build()).0;
            if got != sm {
                f.push((vec!["C17"], format!("schema is {:?}, declared {:?}", got, sm)));
            }
        }
        let t = plan[0].3;
        let got = read_schema(&Schema::simple(&names[0], &names[1], ty(t.0), enc(t.1), comp(t.2))).0;
        let mut want = SchemaModel::new();
        want.entry(names[0].clone()).or_default().insert(names[1].clone(), t);
        if got != want {
            f.push((vec!["C17"], format!("Schema::simple is {:?}, asked for {:?}", got, want)));
        }
    });
    if let Err(m) = res {
        f.push((vec!["C17"], m));
    }
    case(text, true, f)
}

// ---- internals ------------------------------------------------------------------------------

#[cfg(feature = "hooks")]
pub use with_hooks::*;

#[cfg(feature = "hooks")]
mod with_hooks {
    use super::*;
    use crate::api::{val, Sink};
    use tsfile_writer::writer::verif_hooks as vh;

    fn runs(r: &mut Rng, t: u8, max: u64) -> Vec<Vec<V>> {
        let n = r.range(1, 3);
        (0..n)
            .map(|_| {
                let len = match r.below(6) {
                    0 => r.below(4),
                    1 => r.range(126, 132),
                    2 => r.range(256, 262),
                    3 => 129 * r.range(1, 4),
                    _ => r.below(max),
                };
                let style = r.below(5);
                let mut st = style;
                let shift = r.below(32);
                let mut walk = r.next();
                let mode = r.below(3);
                (0..len)
                    .map(|i| {
                        if i % 100 == 99 && r.chance(1, 3) {
                            st = r.below(5);
                        }
                        if mode == 0 {
                            // differences of a chosen magnitude
                            walk = walk.wrapping_add(((r.next() as u32) >> shift) as u64);
                            match t {
                                1 => V::I(walk as i32),
                                2 => V::L(walk as i64),
                                _ => V::F(walk as u32),
                            }
                        } else {
                            gen::value(r, t, st)
                        }
                    })
                    .collect()
            })
            .collect()
    }

    fn encoded(r: &mut Rng, t: u8, e: u8, p: &'static str, max: u64) -> Case {
        let rs = runs(r, t, max);
        let text = short(&format!("type {} encoding {} runs of {:?} values: {:?}", t, e, rs.iter().map(|x| x.len()).collect::<Vec<_>>(), rs));
        let vals: Vec<Vec<_>> = rs.iter().map(|x| x.iter().map(val).collect()).collect();
        let mut f: Vec<Finding> = vec![];
        match guarded(|| vh::encode(ty(t), enc(e), &vals)) {
            Err(m) => f.push((vec![p], m)),
            Ok(Err(x)) => f.push((vec![p], format!("{:?}", x))),
            Ok(Ok(bs)) => {
                for (b, want) in bs.iter().zip(&rs) {
                    let got: Result<Vec<V>, String> = if e == 4 {
                        let bits = if t == 1 { 32 } else { 64 };
                        ts2diff(b, bits).map(|x| x.into_iter().map(|x| if t == 1 { V::I(x as i32) } else { V::L(x) }).collect())
                    } else {
                        plain(b, t)
                    };
                    match got {
                        Err(m) => f.push((vec![p], m)),
                        Ok(g) => {
                            let bad = (0..g.len().max(want.len())).find(|i| match (g.get(*i), want.get(*i)) {
                                (Some(a), Some(b)) => !a.same(b),
                                _ => true,
                            });
                            if let Some(i) = bad {
                                f.push((vec![p], format!("{} values in, {} out; value {} is {:?} instead of {:?}", want.len(), g.len(), i, g.get(i), want.get(i))));
                            }
                        }
                    }
                    if e == 0 {
                        let all: Vec<u8> = want.iter().flat_map(plain_bytes).collect();
                        if &all != b {
                            f.push((vec![p], "bytes are not the concatenation of the single values".to_string()));
                        }
                    }
                }
            }
        }
        case(text, rs.iter().any(|x| x.len() > 1), f)
    }

    pub fn ts2diff_long(r: &mut Rng) -> Case {
        encoded(r, 2, 4, "C02", 700)
    }
    pub fn ts2diff_int(r: &mut Rng) -> Case {
        encoded(r, 1, 4, "C02", 700)
    }
    pub fn plain_values(r: &mut Rng) -> Case {
        let t = r.range(1, 3) as u8;
        encoded(r, t, 0, "C03", 300)
    }

    fn var_one(x: u32, f: &mut Vec<Finding>) {
        let res = guarded(|| {
            let mut b: Vec<u8> = vec![];
            let n = vh::write_var_u32(x, &mut b).map_err(|e| format!("{:?}", e));
            let mut c: Vec<u8> = vec![];
            let m = vh::write_var_i32(x as i32, &mut c).map_err(|e| format!("{:?}", e));
            let mut rd: &[u8] = &b;
            let back = vh::read_var_u32(&mut rd).map_err(|e| format!("{:?}", e));
            let left = rd.len();
            (b, n, vh::size_var_u32(x), c, m, vh::size_var_i32(x as i32), back, left)
        });
        match res {
            Err(m) => f.push((vec!["C04"], format!("{}: {}", x, m))),
            Ok((b, n, s, c, m, t, back, left)) => {
                let (wb, wc) = (uvar(x), svar(x as i32));
                if b != wb || n != Ok(wb.len() as u8) || s as usize != wb.len() {
                    f.push((vec!["C04"], format!("unsigned {}: wrote {:?} (returned {:?}, predicted {}), right is {:?}", x, b, n, s, wb)));
                }
                if c != wc || m != Ok(wc.len() as u8) || t as usize != wc.len() {
                    f.push((vec!["C04"], format!("signed {}: wrote {:?} (returned {:?}, predicted {}), right is {:?}", x as i32, c, m, t, wc)));
                }
                if back != Ok(x) || left != 0 {
                    f.push((vec!["C04"], format!("unsigned {}: {:?} reads back as {:?}", x, b, back)));
                }
            }
        }
    }

    pub fn varint(r: &mut Rng) -> Case {
        let mut f = vec![];
        let base = match r.below(4) {
            0 => (1_u64 << r.below(33)) as u32,
            1 => 0,
            2 => u32::MAX,
            _ => (r.next() as u32) >> r.below(32),
        };
        let from = base.wrapping_sub(64);
        for i in 0..128 {
            var_one(from.wrapping_add(i), &mut f);
            if f.len() > 3 {
                break;
            }
        }
        case(format!("128 numbers from {}", from), true, f)
    }

    /// one of 4096 equal parts of all 32-bit numbers
    pub fn varint_all(r: &mut Rng, index: u64) -> Case {
        let _ = r;
        let mut f = vec![];
        let from = (index as u32) << 20;
        for i in 0..(1 << 20) {
            var_one(from + i, &mut f);
            if f.len() > 3 {
                break;
            }
        }
        case(format!("all numbers from {} to {}", from, from + ((1 << 20) - 1)), true, f)
    }

    pub fn stats(r: &mut Rng) -> Case {
        let t = r.range(1, 3) as u8;
        let mut ts = match r.below(3) {
            0 => 0,
            1 => r.next() as i64 >> 2,
            _ => i64::MIN,
        };
        let style = r.below(5);
        let runs: Vec<Vec<(i64, V)>> = (0..r.range(1, 4))
            .map(|_| {
                (0..r.range(1, 12))
                    .map(|_| {
                        let st = if style == 4 { r.below(5) } else { style };
                        let p = (ts, gen::value(r, t, st));
                        ts += r.range(1, 1 << 30) as i64;
                        p
                    })
                    .collect()
            })
            .collect();
        let text = short(&format!("type {}: {:?}", t, runs));
        let vals: Vec<Vec<_>> = runs.iter().map(|x| x.iter().map(|(t, v)| (*t, val(v))).collect()).collect();
        let mut f: Vec<Finding> = vec![];
        match guarded(|| vh::statistics_bytes(ty(t), &vals)) {
            Err(m) => f.push((vec!["C05"], m)),
            Ok(Err(e)) => f.push((vec!["C05"], format!("{:?}", e))),
            Ok(Ok((b, n))) => {
                if b.len() != n as usize {
                    f.push((vec!["C05"], format!("{} bytes predicted, {} written", n, b.len())));
                }
                let mut c = Cur::new(&b, 0);
                match stat_read(&mut c, t) {
                    Err(m) => f.push((vec!["C05"], m)),
                    Ok(s) => {
                        let parts: Vec<Stat> = runs.iter().filter_map(|x| stat_of(x)).collect();
                        let want = stat_merge(&parts).unwrap();
                        if let Some(d) = stat_diff(&s, &want) {
                            f.push((vec!["C05"], d));
                        }
                        if c.left() > 0 {
                            f.push((vec!["C05"], "bytes after the statistics".to_string()));
                        }
                    }
                }
            }
        }
        case(text, true, f)
    }

    fn judge_bloom(b: &[u8], want: Option<(i32, i32)>, paths: &[String], f: &mut Vec<Finding>) {
        let mut c = Cur::new(b, 0);
        let r: Result<(), String> = (|| {
            let n = c.uvar()?;
            let bits = c.take(n as usize)?;
            let (size, k) = (c.uvar()? as i32, c.uvar()? as i32);
            if let Some((s, h)) = want {
                if (s, h) != (size, k) {
                    return Err(format!("recorded {} bits and {} functions instead of {} and {}", size, k, s, h));
                }
            }
            if c.left() > 0 {
                return Err("bytes after the filter".to_string());
            }
            for p in paths {
                if !bloom_has(bits, size, k, p)? {
                    return Err(format!("filter of {} bits and {} functions denies {:?}", size, k, p));
                }
            }
            Ok(())
        })();
        if let Err(m) = r {
            f.push((vec!["C11"], m));
        }
    }

    pub fn bloom_sized(r: &mut Rng, index: u64) -> Case {
        let size = (index % 700 + 1) as i32;
        let k = r.range(1, 8) as i32;
        let n = r.range(1, 40);
        let paths: Vec<String> = (0..n).map(|_| format!("{}.{}", gen::name(r), gen::name(r))).collect();
        let refs: Vec<&str> = paths.iter().map(|x| x.as_str()).collect();
        let mut f = vec![];
        match guarded(|| vh::bloom_bytes_sized(&refs, size, k)) {
            Err(m) => f.push((vec!["C11"], m)),
            Ok(Err(e)) => f.push((vec!["C11"], format!("{:?}", e))),
            Ok(Ok(b)) => judge_bloom(&b, Some((size, k)), &paths, &mut f),
        }
        case(short(&format!("size {}, {} functions, {:?}", size, k, paths)), true, f)
    }

    pub fn bloom(r: &mut Rng) -> Case {
        let n = { let m = *r.pick(&[3, 60, 60, 400, 3000]); r.below(m) };
        let mut paths: Vec<String> = (0..n).map(|i| if r.chance(1, 2) { format!("d{}.s{}", i / 7, i) } else { format!("{}.{}", gen::name(r), gen::name(r)) }).collect();
        if r.chance(1, 20) && !paths.is_empty() {
            paths[0] = min_hash_path();
        }
        let refs: Vec<&str> = paths.iter().map(|x| x.as_str()).collect();
        let mut f = vec![];
        match guarded(|| vh::bloom_bytes(&refs)) {
            Err(m) => f.push((vec!["C11"], m)),
            Ok(Err(e)) => f.push((vec!["C11"], format!("{:?}", e))),
            Ok(Ok(b)) => judge_bloom(&b, None, &paths, &mut f),
        }
        case(short(&format!("{} paths: {:?}", n, paths)), n > 0, f)
    }

    /// A path whose hash for the first seed is i32::MIN (found with --find-min-hash).
    pub fn min_hash_path() -> String {
        "d.s10249708395".to_string()
    }

    pub fn murmur_strings(r: &mut Rng) -> Case {
        let len = match r.below(4) {
            0 => r.below(40),
            1 => 16 * r.below(6),
            _ => r.below(200),
        };
        let ascii = r.chance(1, 2);
        let mut s: String = (0..len)
            .map(|_| if ascii { (32 + r.below(95) as u8) as char } else { char::from_u32(r.below(0xd7ff) as u32).unwrap() })
            .collect();
        if r.chance(1, 100) {
            s = min_hash_path();
        }
        let seed = match r.below(4) {
            0 => r.next() as i32,
            1 => *r.pick(&[0, -1, i32::MIN, i32::MAX]),
            _ => *r.pick(&SEEDS),
        };
        let mut f: Vec<Finding> = vec![];
        match guarded(|| vh::murmur128(&s, seed)) {
            Err(m) => f.push((vec!["C12"], m)),
            Ok(h) => {
                let want = murmur(s.as_bytes(), seed) as i32;
                if h != want {
                    f.push((vec!["C12"], format!("hash {}, right is {}", h, want)));
                }
            }
        }
        let cap = r.range(1, 5000) as i32;
        match guarded(|| vh::bloom_position(&s, cap, seed)) {
            Err(m) => f.push((vec!["C11"], m)),
            Ok(p) => {
                if p != bloom_position(&s, seed, cap) {
                    f.push((vec!["C11"], format!("bit {} of {}, right is {}", p, cap, bloom_position(&s, seed, cap))));
                }
            }
        }
        case(short(&format!("seed {} string of {} bytes {:?}", seed, s.len(), s)), len > 0, f)
    }

    /// Writes through the wrapper: position is what the sink took.
    pub fn wrapper(r: &mut Rng) -> Case {
        use std::io::Write;
        use tsfile_writer::writer::PositionedWrite;
        let sink = Sink::default();
        if r.chance(1, 2) {
            sink.0.borrow_mut().short = Some((r.range(1, 20), Rng(r.next())));
        }
        if r.chance(1, 2) {
            sink.0.borrow_mut().fail_at = Some(r.range(1, 30));
            sink.0.borrow_mut().fail_mode = r.below(2) as u8;
        }
        let mut f: Vec<Finding> = vec![];
        let mut text = String::new();
        let mut w = vh::wrap(sink.clone());
        for _ in 0..r.range(1, 20) {
            let n = r.below(50);
            let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            let before = sink.0.borrow().bytes.clone();
            let all = r.chance(1, 2);
            text += &format!("{}({}) ", if all { "write_all" } else { "write" }, n);
            let res = guarded(|| if all { w.write_all(&b).map(|_| b.len()) } else { w.write(&b) });
            let s = sink.0.borrow();
            match res {
                Err(m) => f.push((vec!["C13"], m)),
                Ok(Ok(k)) => {
                    let mut want = before.clone();
                    want.extend_from_slice(&b[..k.min(b.len())]);
                    if s.bytes != want {
                        f.push((vec!["C13"], format!("{}: result {}, but the sink took {} bytes", text, k, s.bytes.len() - before.len())));
                    }
                }
                Ok(Err(_)) => {}
            }
            if w.get_position() != s.bytes.len() as u64 {
                f.push((vec!["C13"], format!("{}: position {}, the sink has {} bytes", text, w.get_position(), s.bytes.len())));
                break;
            }
        }
        case(text, true, f)
    }
}

#[cfg(feature = "mlog")]
pub fn mlog(r: &mut Rng) -> Case {
    use crate::api::Sink;
    use tsfile_writer::sync::verif_hooks::{mlog_bytes, Plan};
    let frames: Vec<Vec<(String, Option<(u8, u8, u8)>)>> = (0..r.range(1, 4))
        .map(|_| {
            (0..r.below(6))
                .map(|_| {
                    let mut p = gen::name(r);
                    if r.chance(1, 10) {
                        p = p.repeat(r.range(1, 50) as usize);
                    }
                    (p, if r.chance(1, 3) { None } else { Some((r.range(1, 3) as u8, *r.pick(&[0, 4]), r.below(2) as u8)) })
                })
                .collect()
        })
        .collect();
    let mut want: Vec<u8> = vec![];
    for fr in &frames {
        let mut c: Vec<u8> = vec![];
        for (p, t) in fr {
            match t {
                None => {
                    c.push(3);
                    c.extend(be_bytes(p.len() as u64, 4));
                    c.extend(p.as_bytes());
                    c.extend([0; 8]);
                }
                Some((t, e, k)) => {
                    c.push(4);
                    c.extend(be_bytes(p.len() as u64, 4));
                    c.extend(p.as_bytes());
                    c.extend([*t, *e, *k]);
                    c.extend([255; 8]);
                    c.extend([0; 12]);
                }
            }
        }
        want.extend(be_bytes(c.len() as u64, 4));
        want.extend(&c);
        want.extend(be_bytes(crc32(&c) as u64, 8));
    }
    let sink = Sink::default();
    let fail = r.chance(1, 3);
    if fail {
        sink.0.borrow_mut().fail_at = Some(r.range(1, 8));
    } else if r.chance(1, 2) {
        sink.0.borrow_mut().short = Some((r.range(1, 30), Rng(r.next())));
    }
    let plans: Vec<Vec<Plan>> = frames
        .iter()
        .map(|fr| {
            fr.iter()
                .map(|(p, t)| match t {
                    None => Plan::StorageGroup(p),
                    Some((t, e, k)) => Plan::Timeseries(p, ty(*t), enc(*e), comp(*k)),
                })
                .collect()
        })
        .collect();
    let mut f: Vec<Finding> = vec![];
    let mut w = sink.clone();
    let res = guarded(|| mlog_bytes(&plans, &mut w).map_err(|e| format!("{:?}", e)));
    let s = sink.0.borrow();
    match res {
        Err(m) => f.push((vec!["C15"], m)),
        Ok(Ok(())) => {
            if s.failed {
                f.push((vec!["C15"], "the sink failed, but the log was written".to_string()));
            } else if s.bytes != want {
                let i = (0..).find(|i| s.bytes.get(*i) != want.get(*i)).unwrap();
                f.push((vec!["C15"], format!("{} bytes written, {} wanted, different from byte {} on", s.bytes.len(), want.len(), i)));
            }
        }
        Ok(Err(e)) => {
            if !s.failed {
                f.push((vec!["C15"], format!("error on a healthy sink: {}", e)));
            }
        }
    }
    case(short(&format!("frames {:?}, failing sink: {}", frames, fail)), frames.iter().any(|x| !x.is_empty()), f)
}
