//! Runs the real crate on generated inputs and histories and judges what it does. Every case is
//! determined by property, kind, seed and index.
mod api;
#[cfg(feature = "capi")]
mod cabi;
mod gen;
mod model;
mod oracle;
mod reader;
#[cfg(feature = "mlog")]
mod sync;
mod text;
mod units;

use api::{run, Sink};
use model::*;
use reader::Finding;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// How a history is run.
#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Plain,
    /// accept at most so many bytes at once
    Short(u64, u64),
    /// fail the n-th write to the sink (mode 0: error, 1: Ok(0))
    Fail(u64, u8),
    FlushFails,
    /// compare with the history without rejected calls
    Strip,
}

pub struct Case {
    pub sig: u64,
    pub nontrivial: bool,
    pub sample: String,
    pub findings: Vec<Finding>,
    pub hist: Option<(Hist, Mode)>,
}

pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

/// Everything that is wrong about one run.
fn findings(h: &Hist, mode: &Mode) -> Vec<Finding> {
    let sink = Sink::default();
    #[cfg(feature = "hooks")]
    {
        let mut s = sink.0.borrow_mut();
        match mode {
            Mode::Short(max, seed) => s.short = Some((*max, Rng(*seed))),
            Mode::Fail(n, k) => {
                s.fail_at = Some(*n);
                s.fail_mode = *k;
            }
            Mode::FlushFails => s.fail_flush = true,
            _ => {}
        }
    }
    let r = run(h, sink);
    let mut f = r.findings;
    if r.closed && !matches!(mode, Mode::Fail(..) | Mode::FlushFails) {
        let (more, _) = reader::check_from(&r.bytes, &r.model, h.degree, h.base);
        f.extend(more);
        match mode {
            Mode::Short(..) => {
                let p = run(h, Sink::default());
                if p.closed && p.bytes != r.bytes {
                    f.push((vec!["C13"], format!("{} bytes with a sink that writes short, {} otherwise, or different ones", r.bytes.len(), p.bytes.len())));
                }
            }
            Mode::Strip => {
                let p = run(&gen::strip(h), Sink::default());
                if p.closed && p.bytes != r.bytes {
                    f.push((vec!["C07"], format!("the file has {} bytes, without the rejected calls it has {}, or different ones", r.bytes.len(), p.bytes.len())));
                }
            }
            _ => {}
        }
    }
    f
}

fn hist_case(mut h: Hist, mode: Mode) -> Case {
    if cfg!(feature = "hooks") {
        // far into a file, now and then
        let n = h.ops.len() as u64 * 31 + h.decls.len() as u64;
        h.base = [0, 0, 0, (1 << 31) - 40, u32::MAX as u64 - n % 300, (1 << 40) + n][n as usize % 6];
    }
    let f = findings(&h, &mode);
    let t = text::write(&h, &mode);
    let writes = h.ops.iter().filter(|o| !matches!(o, Op::Flush)).count();
    let sample = format!("{} series, {} calls, {:?}, first calls: {:?}", h.decls.len(), h.ops.len(), mode, h.ops.iter().take(3).collect::<Vec<_>>()).chars().take(500).collect();
    Case { sig: fnv(t.as_bytes()), nontrivial: writes > 0, sample, findings: f, hist: Some((h, mode)) }
}

fn degree(r: &mut Rng) -> usize {
    if cfg!(feature = "hooks") {
        *r.pick(&[2, 2, 3, 3, 4, 5, 7, 16, 256])
    } else {
        256
    }
}

fn k_mixed(r: &mut Rng) -> Case {
    let mut h = gen::mixed(r, 60, 10, 6);
    h.degree = degree(r);
    hist_case(h, Mode::Plain)
}
fn k_mixed_long(r: &mut Rng) -> Case {
    hist_case(gen::mixed(r, 900, 4, 1), Mode::Plain)
}
fn k_bad(r: &mut Rng) -> Case {
    hist_case(gen::mixed(r, 80, 45, 8), Mode::Strip)
}
fn k_bad_long(r: &mut Rng) -> Case {
    hist_case(gen::mixed(r, 1500, 30, 1), Mode::Strip)
}
fn k_long(r: &mut Rng) -> Case {
    hist_case(gen::long(r, 3000, true), Mode::Plain)
}
fn k_very_long(r: &mut Rng) -> Case {
    hist_case(gen::long(r, 40000, true), Mode::Plain)
}
fn k_many(r: &mut Rng) -> Case {
    let d = degree(r);
    let (nd, nm) = *r.pick(&[(1, 60), (40, 3), (12, 12), (60, 2)]);
    hist_case(gen::many(r, nd, nm, d), Mode::Plain)
}
fn k_many_default(r: &mut Rng) -> Case {
    let (nd, nm) = *r.pick(&[(1, 1200), (700, 2), (300, 8), (20, 600)]);
    hist_case(gen::many(r, nd, nm, 256), Mode::Plain)
}
fn k_flush(r: &mut Rng) -> Case {
    hist_case(gen::mixed(r, 80, 5, 30), Mode::Plain)
}
fn k_short(r: &mut Rng) -> Case {
    let mut h = match r.below(4) {
        0 => gen::mixed(r, 60, 5, 10),
        1 => {
            let d = degree(r);
            gen::many(r, 20, 5, d)
        }
        2 => gen::long(r, 1500, true),
        _ => gen::mixed(r, 300, 5, 2),
    };
    if r.chance(1, 2) {
        h.degree = degree(r);
    }
    let m = Mode::Short(*r.pick(&[1, 1, 3, 17, 200]), r.next());
    hist_case(h, m)
}
fn k_fail(r: &mut Rng) -> Case {
    let mut h = match r.below(3) {
        0 => gen::mixed(r, 25, 0, 10),
        1 => {
            let d = degree(r);
            gen::many(r, 6, 4, d)
        }
        _ => gen::mixed(r, 10, 0, 30),
    };
    if r.chance(1, 2) {
        h.degree = degree(r);
    }
    // how many writes to the sink there are
    let sink = Sink::default();
    let _ = run(&h, sink.clone());
    let n = sink.0.borrow().calls;
    let tries: Vec<u64> = if n <= 60 { (1..=n).collect() } else { (0..60).map(|_| r.range(1, n)).chain(n - 12..=n).collect() };
    let mut worst: Option<(Mode, Vec<Finding>)> = None;
    for t in tries {
        let m = Mode::Fail(t, (r.below(3) == 0) as u8);
        let f = findings(&h, &m);
        if f.iter().any(|x| x.0.contains(&"C13")) {
            worst = Some((m, f));
            break;
        }
    }
    let m = worst.as_ref().map_or(Mode::Fail(1, 0), |x| x.0.clone());
    let mut c = hist_case(h, m);
    c.sample = format!("sink fails at each of {} writes: {}", n, c.sample);
    c
}
fn k_flush_fails(r: &mut Rng) -> Case {
    hist_case(gen::mixed(r, 10, 0, 10), Mode::FlushFails)
}

/// Fills the writer until it flushes by itself, and goes on.
fn k_stream(r: &mut Rng) -> Case {
    use tsfile_writer::writer::tsfile_writer::DataPoint;
    let decls: Vec<Decl> = [("d.1", "s1", 2, 0), ("d.1", "s2", 1, 4), ("d", "1.s1", 3, 0), ("d", "idle", 2, 4), ("e", "s1", 2, 4)]
        .iter()
        .map(|(d, s, t, e)| Decl { dev: d.to_string(), meas: s.to_string(), ty: *t, enc: *e, comp: 0 })
        .collect();
    let h = Hist { degree: 256, base: 0, decls: decls.clone(), ops: vec![], label: "stream".into() };
    let mut m = Model::new(&h);
    let mut f: Vec<Finding> = vec![];
    let mut points: Vec<Vec<(i64, V)>> = vec![vec![]; 5];
    let sink = Sink::default();
    #[cfg(not(feature = "hooks"))]
    let path = api::scratch();
    let mut total = 0_u64;
    let mut phase = String::new();
    let res = api::guarded(|| {
        #[cfg(feature = "hooks")]
        let made = tsfile_writer::writer::verif_hooks::writer_on(api::schema(&decls), sink.clone(), Default::default());
        #[cfg(not(feature = "hooks"))]
        let made = tsfile_writer::writer::tsfile_writer::TsFileWriter::new(&path, api::schema(&decls), Default::default());
        let mut w = match made {
            Ok(w) => w,
            Err(e) => {
                f.push((vec!["C01"], format!("creating the writer: {:?}", e)));
                return;
            }
        };
        let written = || -> u64 {
            #[cfg(feature = "hooks")]
            return sink.0.borrow().bytes.len() as u64;
            #[cfg(not(feature = "hooks"))]
            return std::fs::metadata(&path).map_or(0, |m| m.len());
        };
        let mut flushes = 0;
        let mut at = written();
        let mut ts = r.below(1000) as i64;
        let mut left = 3000;
        let target = 2;
        'outer: while total < 30_000_000 {
            ts += 1 + (r.next() % 100_000) as i64;
            let x = r.next();
            phase = format!("call with timestamp {} after {} points and {} flushes", ts, total, flushes);
            let vs = [V::L(x as i64), V::I((x >> 20) as i32), V::F(x as u32)];
            for (i, v) in vs.iter().enumerate() {
                if i == 1 && x % 5 == 0 {
                    continue;
                }
                let d = &decls[i];
                let res = if x % 7 == 0 {
                    w.write_many(&d.dev, ts, vec![DataPoint::new(&d.meas, api::val(v))])
                } else {
                    w.write(&d.dev, &d.meas, ts, api::val(v))
                };
                if let Err(e) = res {
                    let tag = match api::kind(&e) {
                        E::Order => vec!["C06", "C01"],
                        E::Io => vec!["C13"],
                        _ => vec!["C16", "C01", "C07"],
                    };
                    f.push((tag, format!("{}: {:?}", phase, e)));
                    break 'outer;
                }
                points[i].push((ts, *v));
                total += 1;
            }
            let now = written();
            if now > at {
                at = now;
                flushes += 1;
                // data older than what has just been flushed
                for (i, v) in vs.iter().enumerate() {
                    let last = match points[i].last() {
                        Some(p) => p.0,
                        None => continue,
                    };
                    for old in [last, last - 1, 0] {
                        let d = &decls[i];
                        match w.write(&d.dev, &d.meas, old, api::val(v)) {
                            Err(e) if api::kind(&e) == E::Order => {}
                            x => {
                                f.push((vec!["C06", "C07"], format!("{}: timestamp {} after {} gave {:?}", phase, old, last, x)));
                                break 'outer;
                            }
                        }
                    }
                }
            }
            if flushes >= target {
                left -= 1;
                if left == 0 {
                    break;
                }
            }
        }
        if flushes == 0 && f.is_empty() {
            // not a property: memory is not bounded then
        }
        phase = "close".to_string();
        if let Some(e) = api::closing(w.close()) {
            if f.is_empty() {
                f.push((vec!["C16", "C01", "C09"], format!("close: {}", e)));
            }
        }
    });
    if let Err(e) = res {
        f.push((api::panic_tags(&e), format!("panic in {}: {}", phase, e)));
    }
    for (d, p) in decls.iter().zip(points) {
        m.accepted.insert((d.dev.clone(), d.meas.clone()), p);
    }
    if f.is_empty() {
        #[cfg(feature = "hooks")]
        let bytes = std::mem::take(&mut sink.0.borrow_mut().bytes);
        #[cfg(not(feature = "hooks"))]
        let bytes = std::fs::read(&path).unwrap_or_default();
        f = reader::check(&bytes, &m, 256).0;
    }
    #[cfg(not(feature = "hooks"))]
    let _ = std::fs::remove_file(&path);
    Case { sig: fnv(format!("{}", total).as_bytes()), nontrivial: true, sample: format!("{} random points on three of five series until the writer flushed twice by itself, out-of-order data after each flush", total), findings: f, hist: None }
}

pub type Gen = Box<dyn Fn(&mut Rng, u64) -> Case + Sync>;

fn g(f: fn(&mut Rng) -> Case) -> Gen {
    Box::new(move |r, _| f(r))
}

fn kinds(p: &str, thorough: bool) -> Vec<(&'static str, Gen, u64)> {
    let n = |q: u64, t: u64| if thorough { t } else { q };
    let mut v: Vec<(&'static str, Gen, u64)> = vec![];
    macro_rules! k {
        ($name:expr, $f:expr, $q:expr, $t:expr) => {
            v.push(($name, g($f), n($q, $t)))
        };
    }
    match p {
        "C01" => {
            k!("stream", k_stream, 1, 2);
            k!("mixed", k_mixed, 30000, 120000);
            k!("mixed-long", k_mixed_long, 3000, 12000);
            k!("long", k_long, 3000, 12000);
            k!("very-long", k_very_long, 240, 1200);
            k!("many", k_many, 2000, 8000);
            k!("many-default", k_many_default, 40, 160);
        }
        "C02" => {
            k!("long", k_long, 2000, 8000);
            k!("very-long", k_very_long, 120, 600);
        }
        "C03" => {
            k!("mixed", k_mixed, 10000, 40000);
            k!("long", k_long, 600, 2400);
        }
        "C04" => {
            k!("mixed", k_mixed, 2000, 8000);
        }
        "C05" => {
            k!("mixed", k_mixed, 20000, 80000);
            k!("flush", k_flush, 10000, 40000);
            k!("long", k_long, 2000, 8000);
            k!("very-long", k_very_long, 180, 900);
        }
        "C06" => {
            k!("stream", k_stream, 1, 2);
            k!("mixed", k_mixed, 30000, 120000);
            k!("bad", k_bad, 12000, 48000);
            k!("flush", k_flush, 12000, 48000);
            k!("long", k_long, 800, 3200);
        }
        "C07" => {
            k!("bad", k_bad, 40000, 160000);
            k!("bad-long", k_bad_long, 1200, 4800);
            k!("mixed", k_mixed, 10000, 40000);
        }
        "C08" => {
            k!("mixed", k_mixed, 20000, 80000);
            k!("mixed-long", k_mixed_long, 2000, 8000);
            k!("long", k_long, 3000, 12000);
            k!("very-long", k_very_long, 240, 1200);
        }
        "C09" => {
            k!("mixed", k_mixed, 20000, 80000);
            k!("flush", k_flush, 12000, 48000);
            k!("many", k_many, 4000, 16000);
            k!("many-default", k_many_default, 40, 160);
            k!("long", k_long, 1200, 4800);
        }
        "C10" => {
            k!("many", k_many, 20000, 80000);
            k!("many-default", k_many_default, 100, 400);
            k!("mixed", k_mixed, 10000, 40000);
        }
        "C11" => {
            k!("many", k_many, 2000, 8000);
            k!("many-default", k_many_default, 60, 240);
        }
        "C12" => {
            k!("many", k_many, 2000, 8000);
        }
        "C13" => {
            #[cfg(feature = "hooks")]
            {
                k!("short", k_short, 10000, 40000);
                k!("fail", k_fail, 5000, 20000);
                k!("flush-fails", k_flush_fails, 1000, 4000);
            }
        }
        "C14" => {
            k!("codes", units::codes, 1, 1);
            k!("mixed", k_mixed, 6000, 24000);
        }
        "C15" => {
            #[cfg(feature = "mlog")]
            k!("mlog", units::mlog, 60000, 240000);
        }
        "C16" => {
            k!("stream", k_stream, 1, 2);
            k!("flush", k_flush, 30000, 120000);
            k!("mixed", k_mixed, 10000, 40000);
            k!("long", k_long, 2000, 8000);
            k!("very-long", k_very_long, 240, 1200);
        }
        "C17" => {
            k!("schema", units::schema, 100000, 400000);
            k!("mixed", k_mixed, 16000, 64000);
            k!("flush", k_flush, 8000, 32000);
        }
        "C18" => {
            #[cfg(feature = "capi")]
            k!("c", cabi::case, 4000, 40000);
        }
        "C19" => {
            #[cfg(feature = "mlog")]
            k!("sync", sync::case, 8000, 14000);
        }
        _ => {}
    }
    #[cfg(feature = "hooks")]
    match p {
        "C02" => {
            k!("ts2diff-int64", units::ts2diff_long, 60000, 240000);
            k!("ts2diff-int32", units::ts2diff_int, 60000, 240000);
        }
        "C03" => k!("plain", units::plain_values, 60000, 240000),
        "C04" => {
            k!("varint", units::varint, 60000, 240000);
            if thorough {
                v.push(("varint-all", Box::new(units::varint_all), 4096));
            }
        }
        "C05" => k!("statistics", units::stats, 80000, 320000),
        "C11" => {
            v.push(("bloom-sized", Box::new(units::bloom_sized), n(14000, 140000)));
            k!("bloom", units::bloom, 6000, 24000);
            k!("hash-position", units::murmur_strings, 40000, 160000);
        }
        "C12" => k!("hash", units::murmur_strings, 160000, 640000),
        "C13" => k!("wrapper", units::wrapper, 60000, 240000),
        _ => {}
    }
    v
}

fn rng_for(seed: u64, kind: &str, index: u64) -> Rng {
    let mut r = Rng(seed ^ fnv(kind.as_bytes()) ^ index.wrapping_mul(0x2545F4914F6CDD1D));
    r.next();
    r
}

fn relevant<'a>(f: &'a [Finding], p: &str) -> Vec<&'a Finding> {
    f.iter().filter(|x| x.0.contains(&p)).collect()
}

/// Removes calls and series while the finding stays.
fn shrink(h: Hist, mode: Mode, p: &str) -> (Hist, Mode) {
    let end = Instant::now() + Duration::from_secs(15);
    let still = |h: &Hist, m: &Mode| !relevant(&findings(h, m), p).is_empty();
    let mut best = h;
    let mut mode = mode;
    if mode == Mode::Strip && still(&best, &Mode::Plain) {
        mode = Mode::Plain;
    }
    let mut size = (best.ops.len() / 2).max(1);
    while Instant::now() < end {
        let mut i = 0;
        let mut any = false;
        while i < best.ops.len() && Instant::now() < end {
            let mut t = best.clone();
            let to = (i + size).min(t.ops.len());
            t.ops.drain(i..to);
            if still(&t, &mode) {
                best = t;
                any = true;
            } else {
                i += size;
            }
        }
        if size > 1 {
            size /= 2;
        } else if !any {
            break;
        }
    }
    let mut size = (best.decls.len() / 2).max(1);
    while Instant::now() < end {
        let mut i = 0;
        while i < best.decls.len() && best.decls.len() > size && Instant::now() < end {
            let mut t = best.clone();
            let to = (i + size).min(t.decls.len());
            t.decls.drain(i..to);
            if !t.decls.is_empty() && still(&t, &mode) {
                best = t;
            } else {
                i += size;
            }
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    (best, mode)
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 32 || c as u32 == 127 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r + "\""
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let line = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string()));
    let p = line("property:").expect("property line");
    let f = if let Some((h, m)) = text::read(&t) {
        print!("{}", h.describe(60));
        println!("mode: {:?}", m);
        findings(&h, &m)
    } else {
        let (kind, seed, index) = match (line("kind:"), line("seed:"), line("index:")) {
            (Some(k), Some(s), Some(i)) => (k, s.parse().unwrap(), i.parse().unwrap()),
            _ => {
                println!("nothing to run in this replay file");
                return 2;
            }
        };
        let thorough = line("tier:").as_deref() == Some("thorough");
        let k = kinds(&p, thorough).into_iter().find(|k| k.0 == kind).expect("kind");
        let c = (k.1)(&mut rng_for(seed, k.0, index), index);
        println!("{}", c.sample);
        c.findings
    };
    let r = relevant(&f, &p);
    for x in &r {
        println!("{}: {}", p, x.1);
    }
    if r.is_empty() {
        println!("{} holds on this input", p);
        0
    } else {
        1
    }
}

fn main() {
    #[cfg(feature = "capi")]
    if let (Some(s), Some(d)) = (arg("--c-case"), arg("--c-dir")) {
        std::process::exit(cabi::child(&mut Rng(s.parse().expect("state")), &d));
    }
    api::install_panic_hook();
    if let Some(r) = arg("--replay") {
        std::process::exit(replay(&r));
    }
    if arg("--find-min-hash").is_some() {
        // a path whose hash is i32::MIN, for units::min_hash_path
        std::thread::scope(|s| {
            for t in 0..8_u64 {
                s.spawn(move || {
                    for i in 0.. {
                        let x = format!("d.s{}", i * 8 + t);
                        if oracle::murmur(x.as_bytes(), 5) as i32 == i32::MIN {
                            println!("{}", x);
                            std::process::exit(0);
                        }
                    }
                });
            }
        });
    }
    let p = arg("--property").expect("--property");
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg("--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let limit = Duration::from_secs(arg("--seconds").and_then(|s| s.parse().ok()).unwrap_or(60));
    let threads: usize = arg("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let start = Instant::now();
    let ks = kinds(&p, thorough);
    // one list of cases, kinds interleaved
    let mut jobs: Vec<(f64, usize, u64)> = vec![];
    for (i, k) in ks.iter().enumerate() {
        for j in 0..k.2 {
            jobs.push((j as f64 / k.2 as f64, i, j));
        }
    }
    jobs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let counts: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let fail: Mutex<Option<(usize, Case)>> = Mutex::new(None);
    let others: Mutex<Vec<String>> = Mutex::new(vec![]);
    // a case that does not end
    let busy: Vec<Mutex<Option<(Instant, usize)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let over = AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            while !over.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                for b in &busy {
                    let late = match *b.lock().unwrap() {
                        Some((t, n)) if t.elapsed() > Duration::from_secs(100) => n,
                        _ => continue,
                    };
                    let (_, k, i) = jobs[late];
                    let m = format!("property: {}\nkind: {}\nseed: {}\nindex: {}\ntier: {}\nfinding: the case does not end (100 s)\n", p, ks[k].0, seed, i, tier);
                    if let Some(path) = arg("--replay-out") {
                        std::fs::write(path, m).expect("replay file");
                    }
                    std::process::exit(3);
                }
            }
        });
        let workers: Vec<_> = (0..threads).map(|me| { let (next, jobs, stop, busy, ks, done, seen, counts, samples, fail, others, p, start) = (&next, &jobs, &stop, &busy, &ks, &done, &seen, &counts, &samples, &fail, &others, &p, &start);
            s.spawn(move || loop {
                let n = next.fetch_add(1, Ordering::SeqCst) as usize;
                if n >= jobs.len() || stop.load(Ordering::SeqCst) || start.elapsed() > limit {
                    return;
                }
                let (_, k, i) = jobs[n];
                *busy[me].lock().unwrap() = Some((Instant::now(), n));
                let c = (ks[k].1)(&mut rng_for(seed, ks[k].0, i), i);
                *busy[me].lock().unwrap() = None;
                done.fetch_add(1, Ordering::SeqCst);
                if c.nontrivial {
                    seen.lock().unwrap().insert(c.sig);
                }
                *counts.lock().unwrap().entry(ks[k].0).or_default() += 1;
                if i == 0 {
                    samples.lock().unwrap().push(format!("{}: {}", ks[k].0, c.sample));
                }
                if !relevant(&c.findings, p).is_empty() {
                    stop.store(true, Ordering::SeqCst);
                    let mut f = fail.lock().unwrap();
                    if f.as_ref().map_or(true, |x| x.0 > n) {
                        *f = Some((n, c));
                    }
                } else if let Some(x) = c.findings.first() {
                    let mut o = others.lock().unwrap();
                    if o.len() < 3 {
                        o.push(format!("{:?}: {}", x.0, x.1));
                    }
                }
            })
        }).collect();
        for w in workers {
            let _ = w.join();
        }
        over.store(true, Ordering::SeqCst);
    });
    let complete = done.load(Ordering::SeqCst) as usize == jobs.len();
    let fail = fail.into_inner().unwrap();
    let mut out = String::from("{\n");
    out += &format!("  \"evaluations\": {},\n", done.load(Ordering::SeqCst));
    out += &format!("  \"distinct_nontrivial\": {},\n", seen.lock().unwrap().len());
    out += &format!("  \"complete\": {},\n", complete);
    let c: Vec<String> = counts.lock().unwrap().iter().map(|(k, n)| format!("{}: {}", js(k), n)).collect();
    out += &format!("  \"kinds\": {{{}}},\n", c.join(", "));
    let sm: Vec<String> = samples.lock().unwrap().iter().map(|x| js(x)).collect();
    out += &format!("  \"samples\": [{}],\n", sm.join(", "));
    let ot: Vec<String> = others.lock().unwrap().iter().map(|x| js(x)).collect();
    out += &format!("  \"other_findings\": [{}],\n", ot.join(", "));
    let mut code = 0;
    if let Some((n, c)) = fail {
        code = 1;
        let (_, k, i) = jobs[n];
        let mut rp = format!("property: {}\nkind: {}\nseed: {}\nindex: {}\ntier: {}\n", p, ks[k].0, seed, i, tier);
        let mut f: Vec<String> = relevant(&c.findings, &p).iter().map(|x| x.1.clone()).collect();
        if let Some((h, m)) = c.hist {
            let (h, m) = shrink(h, m, &p);
            let ff = findings(&h, &m);
            let g: Vec<String> = relevant(&ff, &p).iter().map(|x| x.1.clone()).collect();
            if !g.is_empty() {
                f = g;
                rp += &h.describe(60);
                rp += &format!("mode: {:?}\n", m);
                rp += &text::write(&h, &m);
            }
        } else {
            rp += &format!("input: {}\n", c.sample);
        }
        for x in &f {
            rp += &format!("finding: {}\n", x);
        }
        if let Some(path) = arg("--replay-out") {
            std::fs::write(path, rp).expect("replay file");
        }
        out += &format!("  \"failure\": {},\n", js(&f.join("; ")));
    } else {
        out += "  \"failure\": null,\n";
    }
    out += &format!("  \"wall_s\": {:.2}\n}}\n", start.elapsed().as_secs_f64());
    match arg("--out") {
        Some(o) => std::fs::write(o, out).expect("output"),
        None => print!("{}", out),
    }
    std::process::exit(code);
}
