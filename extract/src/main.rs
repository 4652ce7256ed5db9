//! Extracts the code under contract from /repo and puts the contracts of /verif/contracts around
//! it. Nothing of a function body is written by hand: the text is the text of /repo, apart from
//! the desugarings listed in DESIGN.md, which are applied by rule.
//!
//! usage: extract REPO_SRC CONTRACT_DIR OUT.rs REPORT.json [--external PATH]...
mod contracts;
mod edit;
mod item;

use std::collections::BTreeSet;
use std::fs;

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r + "\""
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().map(|x| js(&x)).collect();
    format!("[{}]", v.join(", "))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (repo, dir, out, report) = (&args[1], &args[2], &args[3], &args[4]);
    let mut external = BTreeSet::new();
    let mut i = 5;
    while i < args.len() {
        if args[i] == "--external" {
            external.insert(args[i + 1].clone());
            i += 1;
        }
        i += 1;
    }
    let c = contracts::load(dir);
    let mut x = item::Extract::new(repo, c, external);
    let mut body = String::new();
    let roots: Vec<String> = x.c.roots.clone();
    for root in roots {
        body += &x.root(&root);
    }
    for t in x.c.raw.clone() {
        body += &t;
    }
    let text = format!(
        "{}\nuse vstd::prelude::*;\nverus! {{\n{}\n}} // verus!\nfn main() {{}}\n",
        x.c.header, body
    );
    fs::write(out, text).expect("write output");
    let lost = x.lost();
    let mut r = String::from("{\n");
    r += &format!("\"lost\": {},\n", list(lost));
    r += &format!("\"new\": {},\n", list(x.fresh.clone()));
    r += &format!("\"desugared\": {},\n", list(x.desugared.clone()));
    r += &format!("\"dropped\": {},\n", list(x.dropped.clone()));
    r += &format!("\"external\": {},\n", list(x.external_used.clone()));
    let f: Vec<String> = x
        .functions
        .iter()
        .map(|f| {
            format!(
                "{{\"path\": {}, \"file\": {}, \"line\": {}, \"contract\": {}, \"external\": {}}}",
                js(&f.path),
                js(&f.file),
                f.line,
                f.contract,
                f.external
            )
        })
        .collect();
    r += &format!("\"functions\": [{}]\n}}\n", f.join(",\n"));
    fs::write(report, r).expect("write report");
}
