//! Histories as text, for replay files.
use crate::model::*;
use crate::Mode;
use std::fmt::Write;

fn hx(s: &str) -> String {
    if s.is_empty() {
        return "-".into();
    }
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
fn un(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
fn v(x: &V) -> String {
    match x {
        V::I(x) => format!("1 {}", *x as u32),
        V::L(x) => format!("2 {}", *x as u64),
        V::F(x) => format!("3 {}", x),
        V::D(x) => format!("4 {}", x),
    }
}
fn rv(t: &str, b: &str) -> V {
    let b: u64 = b.parse().unwrap();
    match t {
        "1" => V::I(b as u32 as i32),
        "2" => V::L(b as i64),
        "3" => V::F(b as u32),
        _ => V::D(b),
    }
}

pub fn write(h: &Hist, m: &Mode) -> String {
    let mut s = String::from("begin history\n");
    let _ = writeln!(s, "degree {}", h.degree);
    let _ = writeln!(s, "base {}", h.base);
    let _ = match m {
        Mode::Plain => writeln!(s, "plain"),
        Mode::Short(a, b) => writeln!(s, "short {} {}", a, b),
        Mode::Fail(a, b) => writeln!(s, "fail {} {}", a, b),
        Mode::FlushFails => writeln!(s, "flushfails"),
        Mode::Strip => writeln!(s, "strip"),
    };
    for d in &h.decls {
        let _ = writeln!(s, "decl {} {} {} {} {}", hx(&d.dev), hx(&d.meas), d.ty, d.enc, d.comp);
    }
    for o in &h.ops {
        let _ = match o {
            Op::Flush => writeln!(s, "flush"),
            Op::Write(d, n, t, x) => writeln!(s, "write {} {} {} {}", hx(d), hx(n), t, v(x)),
            Op::Many(d, t, vs) => {
                let l: Vec<String> = vs.iter().map(|(n, x)| format!(" {} {}", hx(n), v(x))).collect();
                writeln!(s, "many {} {}{}", hx(d), t, l.concat())
            }
        };
    }
    s += "end history\n";
    s
}

pub fn read(t: &str) -> Option<(Hist, Mode)> {
    let mut it = t.lines().skip_while(|l| *l != "begin history");
    it.next()?;
    let mut h = Hist { degree: 256, base: 0, decls: vec![], ops: vec![], label: "replayed".into() };
    let mut m = Mode::Plain;
    for l in it {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w[0] {
            "end" => return Some((h, m)),
            "degree" => h.degree = w[1].parse().ok()?,
            "base" => h.base = w[1].parse().ok()?,
            "short" => m = Mode::Short(w[1].parse().ok()?, w[2].parse().ok()?),
            "fail" => m = Mode::Fail(w[1].parse().ok()?, w[2].parse().ok()?),
            "flushfails" => m = Mode::FlushFails,
            "strip" => m = Mode::Strip,
            "decl" => h.decls.push(Decl { dev: un(w[1]), meas: un(w[2]), ty: w[3].parse().ok()?, enc: w[4].parse().ok()?, comp: w[5].parse().ok()? }),
            "flush" => h.ops.push(Op::Flush),
            "write" => h.ops.push(Op::Write(un(w[1]), un(w[2]), w[3].parse().ok()?, rv(w[4], w[5]))),
            "many" => h.ops.push(Op::Many(un(w[1]), w[2].parse().ok()?, w[3..].chunks(3).map(|c| (un(c[0]), rv(c[1], c[2]))).collect())),
            _ => {}
        }
    }
    None
}
