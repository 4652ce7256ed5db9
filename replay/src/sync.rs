//! The sync sender against a receiver on the loopback interface.
use crate::api::guarded;
use crate::model::*;
use crate::{api, gen, Case};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::Duration;

/// What the receiver does with one call.
#[derive(Debug, Clone, PartialEq)]
enum Answer {
    Honest,
    Code(i32),
    /// takes the call and goes away
    Close,
    /// goes away in the middle of the answer
    Cut,
    /// an answer that is none
    Garbage,
    /// an exception of the protocol
    Exception,
    /// the answer to another call
    Other,
}

#[derive(Debug, Clone)]
struct Call {
    name: String,
    arg: Vec<u8>,
    code: i32,
    answered: bool,
}

fn sha256(data: &[u8]) -> [u8; 32] {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74,
        0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d,
        0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e,
        0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5,
        0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
    ];
    let mut h: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend((data.len() as u64 * 8).to_be_bytes());
    for block in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(block[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let a = w[i - 15];
            let b = w[i - 2];
            let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
            let s1 = b.rotate_right(17) ^ b.rotate_right(19) ^ (b >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut r = [0; 32];
    for i in 0..8 {
        r[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    r
}

/// As IoTDB's receiver prints it: a number in base 16.
fn digest(b: &[u8]) -> String {
    let s: String = sha256(b).iter().map(|x| format!("{:02x}", x)).collect();
    s.trim_start_matches('0').to_string()
}

fn text(b: &[u8], at: usize) -> Option<(Vec<u8>, usize)> {
    let n = u32::from_be_bytes(b.get(at..at + 4)?.try_into().unwrap()) as usize;
    Some((b.get(at + 4..at + 4 + n)?.to_vec(), at + 4 + n))
}

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const i32, len: u32) -> i32;
}

/// The sender writes the length of a message by itself; without this it waits 40 ms for the acknowledgement.
fn no_delay(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let on = 1i32;
    unsafe { setsockopt(s.as_raw_fd(), 6, 12, &on, 4) };
}

/// One message: name, sequence number, first string of the arguments.
fn read_call(s: &mut TcpStream) -> Option<(String, i32, Vec<u8>)> {
    let mut n = [0; 4];
    no_delay(s);
    s.read_exact(&mut n).ok()?;
    no_delay(s);
    let mut b = vec![0; u32::from_be_bytes(n) as usize];
    s.read_exact(&mut b).ok()?;
    // strict messages begin with a version
    let (name, at) = if b.first()? & 0x80 != 0 { text(&b, 4)? } else { let (x, a) = text(&b, 0)?; (x, a + 1) };
    let seq = i32::from_be_bytes(b.get(at..at + 4)?.try_into().unwrap());
    let arg = if b.get(at + 4)? == &11 { text(&b, at + 7)?.0 } else { vec![] };
    Some((String::from_utf8(name).ok()?, seq, arg))
}

fn answer(name: &str, seq: i32, kind: u8, code: i32) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    b.extend((name.len() as i32).to_be_bytes());
    b.extend(name.as_bytes());
    b.push(kind);
    b.extend(seq.to_be_bytes());
    let msg = "m";
    if kind == 2 {
        b.extend([12, 0, 0]);
        b.extend([8, 0, 1]);
        b.extend(code.to_be_bytes());
        b.extend([11, 0, 2]);
        b.extend((msg.len() as i32).to_be_bytes());
        b.extend(msg.as_bytes());
        b.push(0);
    } else {
        b.extend([11, 0, 1]);
        b.extend((msg.len() as i32).to_be_bytes());
        b.extend(msg.as_bytes());
        b.extend([8, 0, 2]);
        b.extend(6i32.to_be_bytes());
    }
    b.push(0);
    b
}

fn receiver(l: TcpListener, plan: Vec<Answer>) -> Vec<Call> {
    let mut calls: Vec<Call> = vec![];
    let mut s = match l.accept() {
        Ok((s, _)) => s,
        Err(_) => return calls,
    };
    let _ = s.set_read_timeout(Some(Duration::from_secs(120)));
    let _ = s.set_nodelay(true);
    let mut data: Vec<u8> = vec![];
    while let Some((name, seq, arg)) = read_call(&mut s) {
        if name == "initSyncData" {
            data.clear();
        }
        if name == "syncData" {
            data.extend(&arg);
        }
        let a = plan.get(calls.len()).cloned().unwrap_or(Answer::Honest);
        let honest = if name == "checkDataDigest" && arg != digest(&data).into_bytes() { -1 } else { 1 };
        let code = match a {
            Answer::Code(c) => c,
            _ => honest,
        };
        let answered = matches!(a, Answer::Honest | Answer::Code(_));
        calls.push(Call { name: name.clone(), arg, code, answered });
        let b = match a {
            Answer::Close => break,
            Answer::Garbage => vec![0x7f, 0xff, 0, 0, 1, 2, 3],
            Answer::Exception => answer(&name, seq, 3, 0),
            Answer::Other => answer("initSyncDatum", seq, 2, 1),
            _ => answer(&name, seq, 2, code),
        };
        let mut f = (b.len() as i32).to_be_bytes().to_vec();
        f.extend(b);
        if a == Answer::Cut {
            f.truncate(f.len() - 3);
        }
        if s.write_all(&f).is_err() || a == Answer::Cut || a == Answer::Garbage {
            break;
        }
    }
    calls
}

/// the two frames of the log: one storage group, each series once
fn log_wrong(b: &[u8], group: &str, decls: &[Decl]) -> Option<String> {
    let be = |n: usize, k: usize| -> Vec<u8> { (n as u64).to_be_bytes()[8 - k..].to_vec() };
    let mut frames = vec![];
    let mut at = 0;
    while at < b.len() {
        let (c, e) = match text(b, at) {
            Some(x) => x,
            None => return Some("the log ends inside a frame".to_string()),
        };
        if b.get(e..e + 8) != Some(&be(crate::oracle::crc32(&c) as usize, 8)) {
            return Some("a frame of the log has the wrong checksum".to_string());
        }
        frames.push(c);
        at = e + 8;
    }
    let mut first = vec![3];
    first.extend(be(group.len(), 4));
    first.extend(group.as_bytes());
    first.extend([0; 8]);
    if frames.len() != 2 || frames[0] != first {
        return Some(format!("{} frames in the log, or another storage group than {:?}", frames.len(), group));
    }
    let mut want: Vec<Vec<u8>> = decls
        .iter()
        .map(|d| {
            let p = format!("{}.{}.{}", group, d.dev, d.meas);
            let mut v = vec![4];
            v.extend(be(p.len(), 4));
            v.extend(p.as_bytes());
            v.extend([d.ty, d.enc, d.comp]);
            v.extend([255; 8]);
            v.extend([0; 12]);
            v
        })
        .collect();
    let mut got = vec![];
    let mut at = 0;
    while at < frames[1].len() {
        match text(&frames[1], at + 1) {
            Some((_, e)) if e + 23 <= frames[1].len() => {
                got.push(frames[1][at..e + 23].to_vec());
                at = e + 23;
            }
            _ => return Some("the log ends inside a plan".to_string()),
        }
    }
    want.sort();
    got.sort();
    if want != got {
        return Some(format!("{} plans in the log, {} series in the schema, or different ones", got.len(), want.len()));
    }
    None
}

pub fn case(r: &mut Rng) -> Case {
    use std::sync::Once;
    static HOME: Once = Once::new();
    HOME.call_once(|| {
        if let Ok(d) = std::env::var("REPLAY_SCRATCH") {
            let _ = std::env::set_current_dir(d);
        }
    });
    let group = if r.chance(1, 8) { gen::name(r) } else { "root.sg".to_string() };
    let decls = if r.chance(1, 12) { vec![] } else { gen::decls(r, 5, 6) };
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let tail = *r.pick(&["", "-é", " x", "_0_"]);
    let name = format!("{}-{}{}.tsfile", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst), tail);
    let n = *r.pick(&[0, 1, 7, 100, 4000, 4096, 5000, 70000, 200000]);
    let n = n + r.below(3) as usize;
    let mut content: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    if r.chance(1, 3) {
        // a digest that begins with zeros
        content.extend([0; 8]);
        let at = content.len() - 8;
        let few = content.len() < 200;
        for k in 0..(if few { 3000u64 } else { 1 }) {
            content[at..].copy_from_slice(&k.to_be_bytes());
            let d = sha256(&content);
            if d[0] == 0 || (d[0] < 16 && k > 100) {
                break;
            }
        }
    }
    let there = !r.chance(1, 15);
    let mut plan = vec![Answer::Honest; 12];
    let what = r.below(10);
    if what >= 4 {
        let at = r.below(11) as usize;
        plan[at] = r.pick(&[Answer::Close, Answer::Cut, Answer::Garbage, Answer::Exception, Answer::Other]).clone();
    } else if what >= 1 {
        // the check of a digest fails: call 5 or 8, behind the handshake
        let at = *r.pick(&[5, 8]);
        plan[at] = Answer::Code(-1);
    }
    let sample: String = format!("group {:?}, {} series, file of {} bytes (there: {}), answers {:?}", group, decls.len(), content.len(), there, plan).chars().take(400).collect();
    let announced = format!("0_0_{}", name);
    if there {
        std::fs::write(&announced, &content).unwrap();
    }
    let l = loop {
        match TcpListener::bind("127.0.0.1:0") {
            Ok(l) => break l,
            // all ports in use
            Err(_) => std::thread::sleep(Duration::from_millis(200)),
        }
    };
    // the port stays ours until the end
    let _ours = l.try_clone().unwrap();
    let addr = l.local_addr().unwrap().to_string();
    let p = plan.clone();
    let t = std::thread::spawn(move || receiver(l, p));
    let res = guarded(|| tsfile_writer::sync::sync_sender::verif_hooks::send(&addr, &name, &group, api::schema(&decls)).map_err(|e| format!("{:?}", e)));
    // ends a receiver that nobody called
    let _ = TcpStream::connect(&addr);
    let calls = t.join().unwrap();
    let _ = std::fs::remove_file(&announced);
    let fault = calls.iter().any(|c| !c.answered);
    let denied = calls.iter().any(|c| c.name == "checkDataDigest" && c.code == -1);
    let mut wrong: Option<String> = None;
    match res {
        Err(m) => wrong = Some(format!("no answer but a panic: {}", m)),
        Ok(Err(e)) => {
            if there && !fault && !denied && !calls.is_empty() {
                wrong = Some(format!("{} although the receiver took everything", e));
            }
            if denied && plan.iter().all(|a| *a == Answer::Honest) {
                wrong = Some("the receiver got other data than its digest says".to_string());
            }
        }
        Ok(Ok(())) => {
            let mut logs: Option<Vec<u8>> = None;
            let mut file: Option<Vec<u8>> = None;
            let mut at: Option<(String, Vec<u8>)> = None;
            let mut confirmed = (false, false);
            for c in &calls {
                match c.name.as_str() {
                    "initSyncData" => at = Some((String::from_utf8_lossy(&c.arg).to_string(), vec![])),
                    "syncData" => {
                        if let Some(a) = &mut at {
                            a.1.extend(&c.arg);
                        }
                    }
                    "checkDataDigest" => {
                        if let Some((n, d)) = &at {
                            let good = c.answered && c.code != -1 && c.arg == digest(d).into_bytes();
                            if n == "mlog.bin" {
                                logs = Some(d.clone());
                                confirmed.0 = good;
                            } else if *n == announced {
                                file = Some(d.clone());
                                confirmed.1 = good;
                            }
                        }
                    }
                    _ => {}
                }
            }
            if fault {
                wrong = Some("success although a call failed".to_string());
            } else if denied || !confirmed.0 || !confirmed.1 {
                wrong = Some(format!("success although the receiver did not confirm: log {}, file {}, {} calls", confirmed.0, confirmed.1, calls.len()));
            } else if file.as_ref() != Some(&content) {
                wrong = Some(format!("a file of {} bytes was received as {:?} bytes, or other ones", content.len(), file.map(|f| f.len())));
            } else if let Some(m) = log_wrong(&logs.unwrap(), &group, &decls) {
                wrong = Some(m);
            } else if !calls.iter().any(|c| c.name == "init" && c.arg == group.as_bytes()) || calls.last().map_or(true, |c| c.name != "endSync") {
                wrong = Some("the storage group was not given, or the transfer was not ended".to_string());
            }
        }
    }
    let findings = wrong.into_iter().map(|m| (vec!["C19"], m)).collect();
    Case { sig: crate::fnv(sample.as_bytes()), nontrivial: calls.len() > 2, sample, findings, hist: None }
}
