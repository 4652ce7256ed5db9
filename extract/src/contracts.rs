//! The contract files.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;

#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub ret: Option<String>,
    pub spec: String,
    pub attr: String,
    /// loop number: (iterator name, invariants, body start, body end, before, after)
    pub loops: BTreeMap<usize, LoopC>,
    pub entry: String,
    pub exit: String,
    /// (before?, occurrence, text of the statement, what to insert)
    pub stmts: Vec<(bool, usize, String, String)>,
    pub external: bool,
    pub opts: BTreeSet<String>,
    pub used: bool,
}

#[derive(Default, Clone, Debug)]
pub struct LoopC {
    pub name: Option<String>,
    /// what the iterated expression is passed through
    pub wrap: Option<String>,
    /// type of the elements that are collected
    pub elem: Option<String>,
    pub spec: String,
    pub body_start: String,
    pub body_end: String,
    pub before: String,
    pub after: String,
}

#[derive(Default)]
pub struct Contracts {
    pub header: String,
    pub roots: Vec<String>,
    pub raw: Vec<String>,
    pub fns: BTreeMap<String, FnC>,
    /// items put into a module, struct fields, trait or impl items
    pub modules: BTreeMap<String, String>,
    pub fields: BTreeMap<String, String>,
    pub inits: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub attrs: BTreeMap<String, String>,
    pub drops: BTreeMap<String, bool>,
    pub replace: Vec<(String, String, String, bool)>,
    /// functions without a contract are not looked into
    pub default_external: bool,
    /// std methods that are called through a trusted wrapper
    pub methods: BTreeMap<String, String>,
    /// parts of paths in use declarations
    pub uses: BTreeMap<String, String>,
}

fn subst(t: &str, vars: &[(String, String)]) -> String {
    let mut t = t.to_string();
    for (k, v) in vars {
        t = t.replace(&format!("${}", k), v);
    }
    t
}

/// `@@each A=x|y B=1|2` ... `@@end` repeats a block.
fn expand(text: &str) -> String {
    let mut out = String::new();
    let mut it = text.lines();
    while let Some(l) = it.next() {
        if let Some(h) = l.strip_prefix("@@each ") {
            let mut block = String::new();
            for b in it.by_ref() {
                if b.trim() == "@@end" {
                    break;
                }
                block += b;
                block += "\n";
            }
            let cols: Vec<(String, Vec<String>)> = h
                .split_whitespace()
                .map(|x| {
                    let (k, v) = x.split_once('=').expect("A=x|y");
                    (k.to_string(), v.split('|').map(|y| y.to_string()).collect())
                })
                .collect();
            for i in 0..cols[0].1.len() {
                let vars: Vec<(String, String)> = cols.iter().map(|(k, v)| (k.clone(), v[i].clone())).collect();
                out += &subst(&block, &vars);
            }
        } else {
            out += l;
            out += "\n";
        }
    }
    out
}

pub fn load(dir: &str) -> Contracts {
    let mut c = Contracts::default();
    let mut files: Vec<_> = fs::read_dir(dir).expect("contract directory").map(|x| x.unwrap().path()).collect();
    files.sort();
    for f in files {
        if f.extension().map_or(true, |e| e != "vc") {
            continue;
        }
        let text = expand(&fs::read_to_string(&f).expect("contract file"));
        parse(&text, &mut c, f.to_str().unwrap());
    }
    c
}

fn parse(text: &str, c: &mut Contracts, file: &str) {
    let mut cur: Option<String> = None;
    let mut head = String::new();
    let mut body = String::new();
    let mut flush = |cur: &mut Option<String>, head: &str, body: &str, c: &mut Contracts| {
        let mut w = head.split_whitespace();
        let cmd = match w.next() {
            Some(x) => x,
            None => return,
        };
        let rest = head[head.find(cmd).unwrap() + cmd.len()..].trim().to_string();
        macro_rules! f {
            () => {
                c.fns.get_mut(cur.as_ref().unwrap_or_else(|| panic!("{}: {} outside of @@fn", file, head))).unwrap()
            };
        }
        macro_rules! lp {
            ($x:expr) => {
                f!().loops.entry($x.parse().unwrap_or_else(|_| panic!("{}: {}", file, head))).or_default()
            };
        }
        match cmd {
            "#" => {}
            "header" => c.header += body,
            "method" => {
                let (a, b) = rest.split_once('=').expect("A=B");
                c.methods.insert(a.to_string(), b.to_string());
            }
            "use" => {
                let (a, b) = rest.split_once('=').expect("A=B");
                c.uses.insert(a.to_string(), b.to_string());
            }
            "default_external" => c.default_external = true,
            "root" => c.roots.push(rest),
            "raw" => c.raw.push(body.to_string()),
            "module" => *c.modules.entry(rest).or_default() += body,
            "fields" => *c.fields.entry(rest).or_default() += body,
            "init" => *c.inits.entry(rest).or_default() += body,
            "impl" => *c.impls.entry(rest).or_default() += body,
            "attrs" => *c.attrs.entry(rest).or_default() += body,
            "drop" => {
                c.drops.insert(rest, false);
            }
            "replace" | "replace?" => {
                // @@replace PATH, then a line with the old text, a line `=>`, the new text
                let (a, b) = body.split_once("\n=>\n").unwrap_or_else(|| panic!("{}: {}", file, head));
                c.replace.push((rest, a.trim().to_string(), b.trim().to_string(), cmd == "replace"));
            }
            "fn" => {
                let e = c.fns.entry(rest.clone()).or_default();
                e.spec += body;
                *cur = Some(rest);
            }
            "external" => f!().external = true,
            "opt" => {
                f!().opts.insert(rest);
            }
            "ret" => {
                f!().ret = Some(rest);
                f!().spec += body;
            }
            "spec" => f!().spec += body,
            "attr" => f!().attr += body,
            "entry" => f!().entry += body,
            "exit" => f!().exit += body,
            "loop" => lp!(rest).spec += body,
            "iter" => {
                let (n, x) = rest.split_once(' ').unwrap();
                lp!(n).name = Some(x.to_string());
            }
            "elem" => {
                let (n, x) = rest.split_once(' ').unwrap();
                lp!(n).elem = Some(x.to_string());
            }
            "wrap" => {
                let (n, x) = rest.split_once(' ').unwrap();
                lp!(n).wrap = Some(x.to_string());
            }
            "in" => lp!(rest).body_start += body,
            "inend" => lp!(rest).body_end += body,
            "before" => lp!(rest).before += body,
            "after" => lp!(rest).after += body,
            "pre" | "post" => {
                let (n, x) = rest.split_once(' ').unwrap_or_else(|| panic!("{}: {}", file, head));
                f!().stmts.push((cmd == "pre", n.parse().expect("occurrence"), crate::edit::squash(x), body.to_string()));
            }
            x => panic!("{}: unknown directive {}", file, x),
        }
    };
    for l in text.lines() {
        if let Some(h) = l.strip_prefix("@@") {
            flush(&mut cur, &head, &body, c);
            head = h.to_string();
            body.clear();
        } else {
            body += l;
            body += "\n";
        }
    }
    flush(&mut cur, &head, &body, c);
}
