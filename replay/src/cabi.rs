//! The functions of the C interface, called as C calls them. A panic in them ends the process, so each case runs in
//! a child process of its own, whose allocator knows what is live: freed memory is overwritten and (in all but the
//! longest cases) not given out again.
use crate::model::*;
use crate::{api, gen, Case};
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::CString;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use tsfile_writer::writer::tsfile_writer::TsFileWriter;
use tsfile_writer::writer::{IoTDBValue, Schema};

#[path = "../../../repo/tsfile-writer-c/src/lib.rs"]
mod c;

static CHILD: AtomicBool = AtomicBool::new(false);
static KEEP: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static TWICE: AtomicBool = AtomicBool::new(false);
const ALIVE: u64 = 0x5afe_5afe_0b1e_c7ed;
const DEAD: u64 = 0xdead_dead_0b1e_c7ed;

pub struct Counting;
fn outer(l: Layout) -> (Layout, usize) {
    let a = l.align().max(16);
    (Layout::from_size_align(l.size() + a, a).unwrap(), a)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (o, a) = outer(l);
        let p = System.alloc(o);
        if p.is_null() {
            return p;
        }
        let p = p.add(a);
        *(p.sub(8) as *mut u64) = ALIVE;
        LIVE.fetch_add(1, SeqCst);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (o, a) = outer(l);
        let head = p.sub(8) as *mut u64;
        if *head != ALIVE {
            TWICE.store(true, SeqCst);
            return;
        }
        *head = DEAD;
        LIVE.fetch_sub(1, SeqCst);
        if CHILD.load(SeqCst) {
            std::ptr::write_bytes(p, 0xdd, l.size());
            if KEEP.load(SeqCst) {
                return;
            }
        }
        System.dealloc(p.sub(a), o)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

#[derive(Debug)]
struct Prog {
    dev: String,
    meas: String,
    ty: u8,
    enc: u8,
    comp: u8,
    /// names of the files, one writer each
    files: Vec<String>,
    /// writer, timestamp, value
    points: Vec<(usize, i64, i32)>,
    /// the schema is freed before the writers are used
    schema_first: bool,
    nulls: bool,
    /// go on with the pointer that was given, not with the one that was returned
    ignore_returned: bool,
    older: bool,
    /// no file may grow beyond so many bytes
    limit: Option<u64>,
}

fn name(r: &mut Rng) -> String {
    gen::name(r).replace('\0', "")
}

fn prog(r: &mut Rng) -> Prog {
    let writers = r.range(1, 2) as usize;
    let n = match r.below(40) {
        0 => r.range(10_000, 60_000),
        1..=9 => r.range(100, 3000),
        10..=12 => 0,
        _ => r.range(1, 40),
    };
    let ty = if n == 0 { r.range(1, 3) as u8 } else { 1 };
    let mut last = vec![-1_i64; writers];
    let style = r.next();
    let points = (0..n)
        .filter_map(|_| {
            let w = r.below(writers as u64) as usize;
            let t = match r.below(30) {
                0 => last[w].max(i64::MAX - 5000),
                1 => last[w].checked_add((1 << 31) + r.below(1 << 33) as i64)?,
                2..=9 => last[w].checked_add(r.range(1, 100_000) as i64)?,
                _ => last[w].checked_add(1)?,
            };
            if t <= last[w] {
                return None;
            }
            last[w] = t;
            let s = if r.chance(1, 20) { r.next() } else { style };
            match gen::value(r, 1, s) {
                V::I(x) => Some((w, t, x)),
                _ => None,
            }
        })
        .collect();
    let files = (0..writers)
        .map(|i| {
            let f = r.pick(&["a", "dir/sub/a", "Zürich", "x y.tsfile", "日本/語"]).to_string();
            format!("{}{}", f, i)
        })
        .collect();
    Prog { dev: name(r), meas: name(r), ty, enc: *r.pick(&[0, 4]), comp: r.below(2) as u8, files, points, schema_first: r.chance(1, 3), nulls: r.chance(1, 4), ignore_returned: r.chance(1, 2), older: r.chance(1, 4), limit: if r.chance(1, 10) { Some(r.below(4000)) } else { None } }
}

fn with_c(p: &Prog, dir: &str) {
    let dev = CString::new(p.dev.as_str()).unwrap();
    let meas = CString::new(p.meas.as_str()).unwrap();
    let mut freed = false;
    let s = c::schema_simple(dev.as_ptr(), meas.as_ptr(), p.ty, p.enc, p.comp);
    let mut ws: Vec<_> = p
        .files
        .iter()
        .map(|f| {
            let f = CString::new(format!("{}/c/{}", dir, f)).unwrap();
            c::file_writer_new(f.as_ptr(), s)
        })
        .collect();
    if p.schema_first {
        c::schema_free(s);
        freed = true;
    }
    for (w, t, x) in &p.points {
        // the names of a call need not outlive it
        let (d, m) = if p.ignore_returned { (dev.clone(), meas.clone()) } else { (CString::new(p.dev.as_str()).unwrap(), CString::new(p.meas.as_str()).unwrap()) };
        let q = c::file_writer_write_int32(ws[*w], d.as_ptr(), m.as_ptr(), *t, *x);
        if !p.ignore_returned {
            ws[*w] = q;
        }
    }
    if p.nulls {
        c::file_writer_close(std::ptr::null_mut());
        c::schema_free(std::ptr::null_mut());
    }
    for w in ws {
        c::file_writer_close(w);
    }
    if !freed {
        c::schema_free(s);
    }
}

fn with_rust(p: &Prog, dir: &str) -> Result<(), String> {
    let s: Schema = Schema::simple(&p.dev, &p.meas, p.ty.try_into().unwrap(), p.enc.try_into().unwrap(), p.comp.try_into().unwrap());
    let files: Vec<String> = p.files.iter().map(|f| format!("{}/rust/{}", dir, f)).collect();
    let mut ws = vec![];
    for f in &files {
        ws.push(TsFileWriter::new(f, s.clone(), Default::default()).map_err(|e| format!("{:?}", e))?);
    }
    for (w, t, x) in &p.points {
        ws[*w].write(&p.dev, &p.meas, *t, IoTDBValue::INT(*x)).map_err(|e| format!("{:?}", e))?;
    }
    for mut w in ws {
        w.close().map_err(|e| format!("{:?}", e))?;
    }
    Ok(())
}

fn limit(n: Option<u64>) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
        l.rlim_cur = n.map_or(l.rlim_max, |n| n.min(l.rlim_max));
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
}

fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

const MUST_END: &str = "the C functions must end the process";

/// in the child
pub fn child(r: &mut Rng, dir: &str) -> i32 {
    let p = prog(r);
    for d in ["c", "rust"] {
        std::fs::create_dir_all(format!("{}/{}", dir, d)).expect("scratch directory");
    }
    if p.older {
        // a longer file of that name
        for f in &p.files {
            for d in ["c", "rust"] {
                let f = format!("{}/{}/{}", dir, d, f);
                std::fs::create_dir_all(std::path::Path::new(&f).parent().unwrap()).expect("scratch directory");
                std::fs::write(f, vec![7; 3_000_000]).expect("scratch file");
            }
        }
    }
    limit(p.limit);
    match std::panic::catch_unwind(|| with_rust(&p, dir)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) if p.limit.is_some() => {
            println!("{}", MUST_END);
            with_c(&p, dir);
            println!("no file can have more than {:?} bytes: the Rust functions report {}, the C functions nothing", p.limit, e);
            return 1;
        }
        // nothing to compare with
        _ => return 0,
    }
    CHILD.store(true, SeqCst);
    KEEP.store(p.points.len() < 5000, SeqCst);
    let (open, live) = (fds(), LIVE.load(SeqCst));
    with_c(&p, dir);
    let (open2, live2) = (fds(), LIVE.load(SeqCst));
    if TWICE.load(SeqCst) {
        println!("an object was released twice");
        return 1;
    }
    if live2 != live {
        println!("{} allocations remain after everything has been released", live2 - live);
        return 1;
    }
    if open2 != open {
        println!("{} files remain open after their writers have been closed", open2 as i64 - open as i64);
        return 1;
    }
    for f in &p.files {
        let a = std::fs::read(format!("{}/c/{}", dir, f));
        let b = std::fs::read(format!("{}/rust/{}", dir, f)).expect("file of the Rust writer");
        match a {
            Err(e) => {
                println!("the file {}: {}", f, e);
                return 1;
            }
            Ok(a) if a != b => {
                println!("the C functions wrote {} bytes to {}, the Rust functions {} bytes, or different ones", a.len(), f, b.len());
                return 1;
            }
            _ => {}
        }
    }
    0
}

/// in the parent
pub fn case(r: &mut Rng) -> Case {
    let state = r.0;
    let p = prog(r);
    let dir = api::scratch_dir();
    let mut sample = format!("{} points, schema {:?} {:?}, {:?}", p.points.len(), p.dev, p.meas, p);
    sample = sample.chars().take(500).collect();
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let out = std::process::Command::new(std::env::current_exe().expect("own path")).args(["--c-case", &state.to_string(), "--c-dir", &dir]).output().expect("child process");
    let mut findings = vec![];
    if !out.status.success() {
        let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
        let must = text.starts_with(MUST_END);
        let text = text.replace(MUST_END, "").trim().to_string();
        let text = if must && out.status.code().is_none() {
            String::new()
        } else if out.status.code() == Some(1) && !text.is_empty() {
            text
        } else {
            let err = String::from_utf8_lossy(&out.stderr).to_string();
            format!("the process ends ({}): {}", out.status, err.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join(" "))
        };
        if !text.is_empty() {
            findings.push((vec!["C18"], text));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Case { sig: state, nontrivial: true, sample, findings, hist: None }
}
