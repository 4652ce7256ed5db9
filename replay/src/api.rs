//! Runs histories on the real crate.
use crate::model::*;
use crate::reader::Finding;
use std::cell::RefCell;
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::errors::TsFileError;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::tsfile_writer::DataPoint;
#[cfg(feature = "hooks")]
use tsfile_writer::writer::verif_hooks as vh;
#[cfg(feature = "hooks")]
use tsfile_writer::writer::PositionedWrite;
use tsfile_writer::writer::{IoTDBValue, Schema, TSDataType};

pub fn ty(c: u8) -> TSDataType {
    match c {
        1 => TSDataType::INT32,
        2 => TSDataType::INT64,
        _ => TSDataType::FLOAT,
    }
}
pub fn enc(c: u8) -> TSEncoding {
    if c == 4 {
        TSEncoding::TS2DIFF
    } else {
        TSEncoding::PLAIN
    }
}
pub fn comp(c: u8) -> CompressionType {
    if c == 1 {
        CompressionType::SNAPPY
    } else {
        CompressionType::UNCOMPRESSED
    }
}
pub fn val(v: &V) -> IoTDBValue {
    match v {
        V::I(x) => IoTDBValue::INT(*x),
        V::L(x) => IoTDBValue::LONG(*x),
        V::F(x) => IoTDBValue::FLOAT(f32::from_bits(*x)),
        V::D(x) => IoTDBValue::DOUBLE(f64::from_bits(*x)),
    }
}

pub fn kind(e: &TsFileError) -> E {
    match e {
        TsFileError::OutOfOrderData => E::Order,
        TsFileError::IllegalState { .. } => E::Unknown,
        TsFileError::WrongTypeForSeries => E::Type,
        TsFileError::Encoding => E::Encoding,
        TsFileError::IoError { .. } | TsFileError::WriteError => E::Io,
        _ => E::Other,
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static GUARDED: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string().replace('\n', " ");
        if !GUARDED.with(|g| g.get()) {
            eprintln!("the harness itself failed: {}", m);
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = m);
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(before));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

/// Properties a panic speaks against, by where it happened.
pub fn panic_tags(msg: &str) -> Vec<&'static str> {
    let mut t = vec!["C01"];
    let map: &[(&str, &[&'static str])] = &[
        ("time_encoder", &["C02"]),
        ("plain.rs", &["C03"]),
        ("utils.rs", &["C04"]),
        ("statistics", &["C05"]),
        ("murmur", &["C12", "C11"]),
        ("chunk_writer", &["C08", "C16"]),
        ("group_writer", &["C16", "C06"]),
        ("tsfile_io_writer", &["C09", "C10"]),
        ("schema.rs", &["C17"]),
        ("tsfile_writer.rs", &["C16", "C17"]),
        ("writer/mod.rs", &["C10", "C11", "C09"]),
    ];
    for (k, v) in map {
        if msg.contains(k) {
            t.extend_from_slice(v);
        }
    }
    t
}

#[derive(Default)]
pub struct SinkState {
    pub bytes: Vec<u8>,
    pub calls: u64,
    /// fail the n-th write (1-based) and all later ones
    pub fail_at: Option<u64>,
    /// 0: error, 1: Ok(0)
    pub fail_mode: u8,
    pub fail_flush: bool,
    /// accept at most so many bytes per call (pseudo-random up to that), now and then Interrupted
    pub short: Option<(u64, Rng)>,
    pub failed: bool,
}

#[derive(Clone, Default)]
pub struct Sink(pub Rc<RefCell<SinkState>>);

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        s.calls += 1;
        if let Some(n) = s.fail_at {
            if s.calls >= n {
                s.failed = true;
                if s.fail_mode == 1 {
                    return Ok(0);
                }
                return Err(io::Error::new(io::ErrorKind::Other, "disk full"));
            }
        }
        let mut n = buf.len();
        if let Some((max, rng)) = &mut s.short {
            if rng.chance(1, 7) {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "try again"));
            }
            n = n.min(rng.range(1, *max) as usize);
        }
        s.bytes.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        if s.fail_flush {
            s.failed = true;
            return Err(io::Error::new(io::ErrorKind::Other, "flush failed"));
        }
        Ok(())
    }
}

pub fn schema(decls: &[Decl]) -> Schema<'_> {
    let mut by: std::collections::BTreeMap<&str, Vec<&Decl>> = Default::default();
    for d in decls {
        by.entry(&d.dev).or_default().push(d);
    }
    let mut b = TsFileSchemaBuilder::new();
    for (dev, ds) in by {
        let mut db = DeviceBuilder::new();
        for d in ds {
            db.add(&d.meas, ty(d.ty), enc(d.enc), comp(d.comp));
        }
        b.add(dev, db.build());
    }
    b.build()
}

pub struct Run {
    pub findings: Vec<Finding>,
    pub bytes: Vec<u8>,
    pub model: Model,
    pub closed: bool,
    pub results: Vec<Option<E>>,
    pub rejected: usize,
}

/// Runs a history against the model. With an injected fault, the first error ends the run.
pub fn run(h: &Hist, sink: Sink) -> Run {
    let mut out = Run {
        findings: vec![],
        bytes: vec![],
        model: Model::new(h),
        closed: false,
        results: vec![],
        rejected: 0,
    };
    #[cfg(feature = "hooks")]
    let faulty = {
        let s = sink.0.borrow();
        s.fail_at.is_some() || s.fail_flush
    };
    #[cfg(not(feature = "hooks"))]
    let faulty = false;
    let mut phase = String::from("creating the writer");
    let mut expect_reject = false;
    #[cfg(not(feature = "hooks"))]
    let path = scratch();
    let r = guarded(|| {
        let failed = || sink.0.borrow().failed;
        #[cfg(feature = "hooks")]
        let made = vh::writer_from(schema(&h.decls), sink.clone(), vh::config_with_degree(h.degree), h.base);
        #[cfg(not(feature = "hooks"))]
        let made = tsfile_writer::writer::tsfile_writer::TsFileWriter::new(&path, schema(&h.decls), Default::default());
        let mut w = match made {
            Ok(w) => {
                if failed() {
                    out.findings.push((vec!["C13"], "the sink failed, but creating the writer succeeded".to_string()));
                    return;
                }
                w
            }
            Err(e) => {
                if !failed() {
                    out.findings.push((vec!["C13", "C01"], format!("creating the writer on a healthy sink: {:?}", e)));
                }
                return;
            }
        };
        for (i, op) in h.ops.iter().enumerate() {
            phase = format!("call {}: {:?}", i, op);
            expect_reject = false;
            let res = match op {
                Op::Write(d, m, ts, v) => {
                    let errs = out.model.errors(d, m, *ts, v);
                    expect_reject = !errs.is_empty();
                    let res = w.write(d, m, *ts, val(v)).err().map(|e| (kind(&e), format!("{:?}", e)));
                    judge(&mut out, i, op, &res, &errs, failed());
                    if errs.is_empty() {
                        out.model.accept(d, m, *ts, v);
                    }
                    res
                }
                Op::Many(d, ts, vs) => {
                    // the points before the first bad one are accepted
                    let mut errs = vec![];
                    let mut m2 = vec![];
                    let known = out.model.devices.contains(d);
                    if !known {
                        errs = vec![E::Unknown];
                    } else {
                        let mut seen = std::collections::BTreeSet::new();
                        for (m, v) in vs {
                            let mut e = out.model.errors(d, m, *ts, v);
                            if e.is_empty() && seen.contains(m) {
                                e = vec![E::Order];
                            } else if seen.contains(m) {
                                e.push(E::Order);
                            }
                            if e.is_empty() {
                                seen.insert(m.clone());
                                m2.push((m, v));
                            } else {
                                errs = e;
                                break;
                            }
                        }
                    }
                    expect_reject = !errs.is_empty();
                    let points: Vec<DataPoint> = vs.iter().map(|(m, v)| DataPoint::new(m, val(v))).collect();
                    let res = w.write_many(d, *ts, points).err().map(|e| (kind(&e), format!("{:?}", e)));
                    judge(&mut out, i, op, &res, &errs, failed());
                    for (m, v) in m2 {
                        out.model.accept(d, m, *ts, v);
                    }
                    res
                }
                Op::Flush => {
                    #[cfg(feature = "hooks")]
                    {
                        let res = w.verif_flush().err().map(|e| (kind(&e), format!("{:?}", e)));
                        if failed() != res.is_some() {
                            out.findings.push((vec![if failed() { "C13" } else { "C16" }], format!("call {}: flush gave {:?}, sink failed: {}", i, res, failed())));
                        }
                        res
                    }
                    #[cfg(not(feature = "hooks"))]
                    {
                        None
                    }
                }
            };
            out.results.push(res.as_ref().map(|r| r.0));
            if res.is_some() {
                out.rejected += 1;
            }
            #[cfg(feature = "hooks")]
            if !faulty {
                let (p, n) = (w.verif_sink().get_position().wrapping_sub(h.base), sink.0.borrow().bytes.len() as u64);
                if p != n {
                    out.findings.push((vec!["C13"], format!("after call {} the position is {}, the sink has {} bytes", i, p, n)));
                    return;
                }
            }
            if failed() || out.findings.len() > 3 {
                return;
            }
        }
        phase = "close".to_string();
        expect_reject = false;
        let res = closing(w.close());
        if let Some(e) = &res {
            if !failed() {
                out.findings.push((vec!["C16", "C01", "C09"], format!("close on a healthy sink: {}", e)));
            }
            return;
        }
        if failed() {
            out.findings.push((vec!["C13"], "the sink failed, but close succeeded".to_string()));
            return;
        }
        out.closed = true;
        #[cfg(feature = "hooks")]
        {
            let (p, n) = (w.verif_sink().get_position().wrapping_sub(h.base), sink.0.borrow().bytes.len() as u64);
            if p != n {
                out.findings.push((vec!["C13"], format!("after close the position is {}, the sink has {} bytes", p, n)));
            }
        }
    });
    if let Err(m) = r {
        let mut tags = panic_tags(&m);
        if expect_reject {
            tags.push("C07");
        }
        if sink.0.borrow().failed {
            tags.push("C13");
        }
        if phase.starts_with("call") && tags.len() == 1 {
            tags.push("C07");
        }
        out.findings.push((tags, format!("panic in {}: {}", phase, m)));
    }
    #[cfg(feature = "hooks")]
    {
        out.bytes = sink.0.borrow().bytes.clone();
    }
    #[cfg(not(feature = "hooks"))]
    {
        out.bytes = std::fs::read(&path).unwrap_or_default();
        let _ = std::fs::remove_file(&path);
    }
    let _ = faulty;
    out
}

/// close() may or may not return a result
pub trait Closed {
    fn err(self) -> Option<String>;
}
impl Closed for () {
    fn err(self) -> Option<String> {
        None
    }
}
impl Closed for Result<(), TsFileError> {
    fn err(self) -> Option<String> {
        Result::err(self).map(|e| format!("{:?}", e))
    }
}
pub fn closing(c: impl Closed) -> Option<String> {
    c.err()
}

#[cfg(feature = "capi")]
pub fn scratch_dir() -> String {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var("REPLAY_SCRATCH").unwrap_or_else(|_| "/tmp".to_string());
    format!("{}/replay-{}-{}.d", base, std::process::id(), N.fetch_add(1, Ordering::SeqCst))
}

#[cfg(not(feature = "hooks"))]
pub fn scratch() -> String {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var("REPLAY_SCRATCH").unwrap_or_else(|_| "/tmp".to_string());
    format!("{}/replay-{}-{}.tsfile", base, std::process::id(), N.fetch_add(1, Ordering::SeqCst))
}

fn judge(out: &mut Run, i: usize, op: &Op, res: &Option<(E, String)>, errs: &[E], sink_failed: bool) {
    let what = |x: &str| {
        let mut o = format!("{:?}", op);
        o.truncate(300);
        format!("call {} {}: {}", i, o, x)
    };
    match res {
        None => {
            if sink_failed {
                out.findings.push((vec!["C13"], what("the sink failed, but the call succeeded")));
            } else if !errs.is_empty() {
                let mut tags = vec!["C07"];
                if errs.contains(&E::Order) {
                    tags = vec!["C06", "C07"];
                }
                if errs.contains(&E::Unknown) {
                    tags.push("C17");
                }
                out.findings.push((tags, what(&format!("accepted, has to be rejected ({:?})", errs))));
            }
        }
        Some((k, text)) => {
            if sink_failed {
                return;
            }
            if errs.is_empty() {
                let tags: &[&'static str] = match k {
                    E::Order => &["C06"],
                    E::Unknown => &["C16", "C17"],
                    E::Type => &["C07", "C17"],
                    E::Encoding => &["C07", "C17"],
                    E::Io => &["C13"],
                    E::Other => &["C07", "C16"],
                };
                out.findings.push((tags.to_vec(), what(&format!("a valid call was rejected: {}", text))));
            } else if !errs.contains(k) {
                let mut tags = vec!["C07"];
                if errs == [E::Order] {
                    tags.push("C06");
                }
                out.findings.push((tags, what(&format!("rejected with {}, right is one of {:?}", text, errs))));
            }
        }
    }
}
