//! Walks the sources.
use crate::contracts::*;
use crate::edit::*;
use quote::ToTokens;
use std::collections::BTreeSet;
use std::fs;
use syn::spanned::Spanned;
use syn::visit::Visit;
use syn::*;

pub struct Func {
    pub path: String,
    pub file: String,
    pub line: usize,
    pub contract: bool,
    pub external: bool,
}

pub struct Extract {
    repo: String,
    pub c: Contracts,
    external: BTreeSet<String>,
    pub functions: Vec<Func>,
    pub fresh: BTreeSet<String>,
    pub desugared: BTreeSet<String>,
    pub dropped: BTreeSet<String>,
    pub external_used: BTreeSet<String>,
    lost: Vec<String>,
    file: String,
    strs: Vec<String>,
}

fn toks(t: &impl ToTokens) -> String {
    squash(&t.to_token_stream().to_string())
}

fn rng(t: &impl Spanned) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

fn has_cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = toks(a);
        t.starts_with("#[cfg(") && (t.contains("test") || t.contains("verif_hooks"))
    })
}

/// A derived Clone of a type that is not Copy returns an equal value (trusted).
fn clone_impl(attrs: &[Attribute], name: &Ident, g: &Generics, at: usize, ed: &mut Edits) {
    let d: Vec<String> = attrs
        .iter()
        .map(toks)
        .filter(|t| t.starts_with("#[derive("))
        .flat_map(|t| t["#[derive(".len()..t.len() - 2].split(',').map(|x| x.to_string()).collect::<Vec<_>>())
        .collect();
    if d.iter().any(|x| x == "Clone") && !d.iter().any(|x| x == "Copy") {
        let (a, b, c) = g.split_for_impl();
        ed.insert(
            at,
            &format!(
                "\nimpl{} Clone for {}{} {} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n",
                a.to_token_stream(),
                name,
                b.to_token_stream(),
                c.to_token_stream()
            ),
        );
    }
}

impl Extract {
    pub fn new(repo: &str, c: Contracts, external: BTreeSet<String>) -> Extract {
        Extract {
            repo: repo.to_string(),
            c,
            external,
            functions: vec![],
            fresh: BTreeSet::new(),
            desugared: BTreeSet::new(),
            dropped: BTreeSet::new(),
            external_used: BTreeSet::new(),
            lost: vec![],
            file: String::new(),
            strs: vec![],
        }
    }

    pub fn lost(&self) -> Vec<String> {
        let mut l = self.lost.clone();
        for (p, f) in &self.c.fns {
            if !f.used {
                l.push(format!("{}: function", p));
            }
        }
        l
    }

    /// `writer=writer/mod.rs`
    pub fn root(&mut self, spec: &str) -> String {
        let (name, file) = spec.split_once('=').expect("root NAME=FILE");
        self.module(name, file)
    }

    fn module(&mut self, path: &str, file: &str) -> String {
        let full = format!("{}/{}", self.repo, file);
        let text = match fs::read_to_string(&full) {
            Ok(t) => t,
            Err(_) => {
                self.lost.push(format!("{}: file {}", path, file));
                return String::new();
            }
        };
        let before = std::mem::replace(&mut self.file, file.to_string());
        let text = instantiate(&text, &mut self.desugared);
        let name = path.rsplit("::").next().unwrap();
        let inner = self.items(path, &text, file);
        self.file = before;
        format!(
            "pub mod {} {{\nuse vstd::prelude::*; use crate::vspec::*;\n{}\n{}}}\n",
            name,
            inner,
            self.c.modules.get(path).cloned().unwrap_or_default()
        )
    }

    fn items(&mut self, path: &str, text: &str, file: &str) -> String {
        let ast = match parse_file(text) {
            Ok(a) => a,
            Err(e) => {
                self.lost.push(format!("{}: does not parse: {}", path, e));
                return String::new();
            }
        };
        let mut ed = Edits::new();
        for a in &ast.attrs {
            let (x, y) = rng(a);
            ed.replace(x, y, "");
        }
        for it in &ast.items {
            self.item(path, it, text, file, &mut ed);
        }
        ed.apply(text)
    }

    fn drop_item(&mut self, what: String, r: (usize, usize), ed: &mut Edits) {
        self.dropped.insert(what);
        ed.replace(r.0, r.1, "");
    }

    fn wanted_drop(&mut self, p: &str) -> bool {
        match self.c.drops.get_mut(p) {
            Some(u) => {
                *u = true;
                true
            }
            None => false,
        }
    }

    fn vis(&self, v: &Visibility, at: usize, ed: &mut Edits) {
        match v {
            Visibility::Inherited => ed.insert(at, "pub "),
            v => {
                let (a, b) = rng(v);
                ed.replace(a, b, "pub");
            }
        }
    }

    /// Attributes: derives and verifier attributes only.
    fn attrs(&mut self, path: &str, attrs: &[Attribute], start: usize, ed: &mut Edits) {
        for a in attrs {
            let t = toks(a);
            let (x, y) = rng(a);
            if t.starts_with("#[derive(") {
                let keep: Vec<&str> = t["#[derive(".len()..t.len() - 2]
                    .split(',')
                    .filter(|d| ["Copy"].contains(d))
                    .collect();
                let has = |d: &str| t["#[derive(".len()..t.len() - 2].split(',').any(|x| x == d);
                if has("Copy") {
                    // Clone of a Copy type is a copy
                    ed.replace(x, y, "#[derive(Clone, Copy)]");
                } else {
                    ed.replace(x, y, "");
                    if has("Clone") {
                        self.desugared.insert(format!("{}: derived Clone replaced by a trusted structural one", path));
                    }
                }
                let _ = keep;
            } else {
                ed.replace(x, y, "");
            }
        }
        if let Some(a) = self.c.attrs.get(path) {
            ed.insert(start, &format!("{}\n", a));
        }
    }

    fn item(&mut self, path: &str, it: &Item, text: &str, file: &str, ed: &mut Edits) {
        let r = rng(it);
        match it {
            Item::Mod(m) => {
                let p = format!("{}::{}", path, m.ident);
                if has_cfg_off(&m.attrs) || self.wanted_drop(&p) {
                    return self.drop_item(p, r, ed);
                }
                match &m.content {
                    None => {
                        let stem = file.strip_suffix("mod.rs").unwrap_or("");
                        let f1 = format!("{}{}.rs", stem, m.ident);
                        let f2 = format!("{}{}/mod.rs", stem, m.ident);
                        let f = if std::path::Path::new(&format!("{}/{}", self.repo, f1)).exists() { f1 } else { f2 };
                        let t = self.module(&p, &f);
                        ed.replace(r.0, r.1, &t);
                    }
                    Some((_, items)) => {
                        let (a, b) = rng(&m.vis);
                        let _ = (a, b);
                        for i in items {
                            self.item(&p, i, text, file, ed);
                        }
                    }
                }
            }
            Item::Use(u) => {
                let t = toks(u);
                if has_cfg_off(&u.attrs) || self.wanted_drop(&format!("{} {}", path, t)) {
                    return self.drop_item(format!("{} {}", path, t), r, ed);
                }
                ed.insert(r.0, "#[allow(unused_imports)] ");
                let src = text[r.0..r.1].to_string();
                for (a, b) in self.c.uses.clone() {
                    if let Some(i) = src.find(&a) {
                        ed.replace(r.0 + i, r.0 + i + a.len(), &b);
                        self.desugared.insert(format!("{} through its trusted stand-in {}", a, b));
                    }
                }
            }
            Item::ExternCrate(_) => ed.replace(r.0, r.1, ""),
            Item::Struct(s) => {
                let p = format!("{}::{}", path, s.ident);
                if has_cfg_off(&s.attrs) || self.wanted_drop(&p) {
                    return self.drop_item(p, r, ed);
                }
                self.attrs(&p, &s.attrs, r.0, ed);
                clone_impl(&s.attrs, &s.ident, &s.generics, r.1, ed);
                self.vis(&s.vis, rng(&s.struct_token).0, ed);
                for f in &s.fields {
                    let at = match &f.ident {
                        Some(i) => rng(i).0,
                        None => rng(&f.ty).0,
                    };
                    for a in &f.attrs {
                        let (x, y) = rng(a);
                        ed.replace(x, y, "");
                    }
                    self.vis(&f.vis, at, ed);
                    self.types(&f.ty, ed);
                }
                if let (Some(t), Fields::Named(n)) = (self.c.fields.get(&p), &s.fields) {
                    ed.insert(rng(&n.brace_token.span.close()).0, t);
                }
            }
            Item::Enum(s) => {
                let p = format!("{}::{}", path, s.ident);
                if has_cfg_off(&s.attrs) || self.wanted_drop(&p) {
                    return self.drop_item(p, r, ed);
                }
                self.attrs(&p, &s.attrs, r.0, ed);
                clone_impl(&s.attrs, &s.ident, &s.generics, r.1, ed);
                self.vis(&s.vis, rng(&s.enum_token).0, ed);
            }
            Item::Const(s) => {
                let p = format!("{}::{}", path, s.ident);
                if has_cfg_off(&s.attrs) || self.wanted_drop(&p) {
                    return self.drop_item(p, r, ed);
                }
                self.vis(&s.vis, rng(&s.const_token).0, ed);
            }
            Item::Trait(t) => {
                let p = format!("{}::{}", path, t.ident);
                if has_cfg_off(&t.attrs) || self.wanted_drop(&p) {
                    return self.drop_item(p, r, ed);
                }
                self.attrs(&p, &t.attrs, r.0, ed);
                self.vis(&t.vis, rng(&t.trait_token).0, ed);
                if let Some(x) = self.c.impls.get(&p) {
                    let x = x.clone();
                    ed.insert(rng(&t.brace_token.span.open()).1, &format!("\n{}", x));
                }
                for i in &t.items {
                    if let TraitItem::Fn(f) = i {
                        let fp = format!("{}::{}", p, f.sig.ident);
                        let r = rng(f);
                        self.func(&fp, None, &f.attrs, &f.sig, f.default.as_ref(), r, text, file, ed);
                    }
                }
            }
            Item::Impl(m) => {
                let ty = toks(&m.self_ty);
                let p = match &m.trait_ {
                    Some((_, t, _)) => format!("{}::{} as {}", path, ty, toks(t)),
                    None => format!("{}::{}", path, ty),
                };
                if has_cfg_off(&m.attrs) || self.wanted_drop(&p) {
                    return self.drop_item(p, r, ed);
                }
                for a in &m.attrs {
                    let (x, y) = rng(a);
                    ed.replace(x, y, "");
                }
                if let Some(x) = self.c.impls.remove(&p) {
                    ed.insert(rng(&m.brace_token.span.open()).1, &format!("\n{}", x));
                }
                for i in &m.items {
                    if let ImplItem::Fn(f) = i {
                        let fp = format!("{}::{}", p, f.sig.ident);
                        let r = rng(f);
                        if has_cfg_off(&f.attrs) || self.wanted_drop(&fp) {
                            self.drop_item(fp, r, ed);
                            continue;
                        }
                        let vis = if m.trait_.is_some() { None } else { Some(&f.vis) };
                        self.func(&fp, vis, &f.attrs, &f.sig, Some(&f.block), r, text, file, ed);
                    }
                }
            }
            Item::Fn(f) => {
                let p = format!("{}::{}", path, f.sig.ident);
                if has_cfg_off(&f.attrs) || self.wanted_drop(&p) {
                    return self.drop_item(p, r, ed);
                }
                self.func(&p, Some(&f.vis), &f.attrs, &f.sig, Some(&f.block), r, text, file, ed);
            }
            _ => {
                let t = toks(it);
                self.drop_item(format!("{} {}", path, t.chars().take(60).collect::<String>()), r, ed);
            }
        }
    }

    /// Box<dyn TimeSeriesMetadatable>: the only implementation
    fn types(&mut self, t: &Type, ed: &mut Edits) {
        struct V<'a>(&'a mut Edits, bool);
        impl<'ast> Visit<'ast> for V<'_> {
            fn visit_type_trait_object(&mut self, t: &'ast TypeTraitObject) {
                if toks(t) == "dynTimeSeriesMetadatable" {
                    let (a, b) = rng(t);
                    self.0.replace(a, b, "crate::writer::TimeSeriesMetadata");
                    self.1 = true;
                }
            }
        }
        let mut v = V(ed, false);
        v.visit_type(t);
        if v.1 {
            self.desugared.insert("dyn TimeSeriesMetadatable: its only implementation".to_string());
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn func(&mut self, path: &str, vis: Option<&Visibility>, attrs: &[Attribute], sig: &Signature, block: Option<&Block>, r: (usize, usize), text: &str, file: &str, ed: &mut Edits) {
        let line = sig.ident.span().start().line;
        let forced = self.external.contains(path);
        let contract = match self.c.fns.get_mut(path) {
            Some(c) => {
                c.used = true;
                Some(c.clone())
            }
            None => None,
        };
        if contract.is_none() {
            self.fresh.insert(path.to_string());
        }
        let c = contract.clone().unwrap_or_default();
        let ext = c.external || forced || (contract.is_none() && self.c.default_external);
        self.functions.push(Func {
            path: path.to_string(),
            file: file.to_string(),
            line,
            contract: contract.is_some(),
            external: ext,
        });
        if ext {
            self.external_used.insert(path.to_string());
        }
        for a in attrs {
            let (x, y) = rng(a);
            ed.replace(x, y, "");
        }
        let ffi = c.opts.contains("ffi");
        if let (true, Some(a)) = (ffi, &sig.abi) {
            let (x, y) = rng(a);
            ed.replace(x, y, "");
            self.desugared.insert(format!("{}: extern \"C\" left out, pointers into a ghost heap, a panic ends the process", path));
        }
        let start = match vis {
            Some(v) => match v {
                Visibility::Inherited => rng(&sig.fn_token).0,
                v => rng(v).0,
            },
            None => rng(&sig.fn_token).0,
        };
        ed.insert(start, &format!("/*@F:{}*/ ", path));
        if ext && block.is_some() {
            ed.insert(start, "#[verifier::external_body] ");
        }
        if !c.attr.is_empty() {
            ed.insert(start, &format!("{} ", c.attr.trim()));
        }
        if let Some(v) = vis {
            self.vis(v, rng(&sig.fn_token).0, ed);
        }
        // dyn sinks
        let mut gens: Vec<String> = vec![];
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                if let Type::Reference(rf) = &*t.ty {
                    if let Type::TraitObject(o) = &*rf.elem {
                        let name = toks(o);
                        let tr = name.trim_start_matches("dyn");
                        if ["PositionedWrite", "Write", "Read"].contains(&tr) {
                            let g = format!("VW{}", gens.len());
                            let (x, y) = rng(o);
                            ed.replace(x, y, &g);
                            gens.push(format!("{}: {}", g, tr));
                            self.desugared.insert(format!("{}: &mut dyn {} as a generic parameter", path, tr));
                        }
                    }
                }
                if let Pat::Wild(w) = &*t.pat {
                    let (x, y) = rng(w);
                    ed.replace(x, y, &format!("verif_unused{}", x));
                }
                self.types(&t.ty, ed);
            }
        }
        if !gens.is_empty() {
            if sig.generics.params.is_empty() {
                ed.insert(rng(&sig.ident).1, &format!("<{}>", gens.join(", ")));
            } else {
                let (_, y) = rng(sig.generics.params.last().unwrap());
                ed.insert(y, &format!(", {}", gens.join(", ")));
            }
        }
        if ffi {
            let mut v = Static(ed);
            v.visit_signature(sig);
            let paren = rng(&sig.paren_token.span.close()).0;
            let comma = if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { "," };
            ed.insert(paren, &format!("{} Tracked(verif_heap): Tracked<&mut crate::capi::Heap>, Ghost(verif_excuse): Ghost<bool>", comma));
        }
        // parameters of type &str
        self.strs = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) if toks(&t.ty).ends_with("str") && toks(&t.ty).starts_with('&') => Some(toks(&t.pat)),
                _ => None,
            })
            .collect();
        // named result
        if let (Some(n), ReturnType::Type(_, t)) = (&c.ret, &sig.output) {
            let (x, y) = rng(t);
            ed.insert(x, &format!("({}: ", n));
            ed.insert(y, ")");
        }
        if let Some(b) = block {
            let (o, _) = rng(&b.brace_token.span.open());
            ed.insert(o, &format!("\n{}", c.spec));
            if ext {
                let (_, e) = rng(&b.brace_token.span.close());
                ed.replace(o, e, "{ unimplemented!() }");
            } else {
                self.body(path, &c, b, text, ed);
            }
        } else {
            // trait method without a body: before the semicolon
            ed.insert(r.1 - 1, &format!("\n{}", c.spec));
        }
        ed.insert(r.1, " /*@E*/");
    }

    fn body(&mut self, path: &str, c: &FnC, b: &Block, text: &str, ed: &mut Edits) {
        let (_, o) = rng(&b.brace_token.span.open());
        if !c.entry.is_empty() {
            ed.insert(o, &format!("\n{}", c.entry));
        }
        if !c.exit.is_empty() {
            let at = match b.stmts.last() {
                Some(Stmt::Expr(e, None)) => rng(e).0,
                _ => rng(&b.brace_token.span.close()).0,
            };
            ed.insert(at, &format!("\n{}", c.exit));
        }
        let mut w = Walk {
            x: self,
            ed,
            text,
            path,
            c,
            loops: 0,
            stmts: vec![],
        };
        w.visit_block(b);
        let (loops, stmts) = (w.loops, w.stmts);
        for (n, _) in &c.loops {
            if *n >= loops {
                self.lost.push(format!("{}: loop {}", path, n));
            }
        }
        for (before, n, what, ins) in &c.stmts {
            // innermost statements with that text
            let all: Vec<&(usize, usize, String)> = stmts.iter().filter(|s| s.2.contains(what.as_str())).collect();
            let inner: Vec<&&(usize, usize, String)> = all
                .iter()
                .filter(|s| !all.iter().any(|t| (t.0, t.1) != (s.0, s.1) && t.0 >= s.0 && t.1 <= s.1))
                .collect();
            match inner.get(*n) {
                Some(s) => {
                    if *before {
                        ed.insert(s.0, &format!("\n{}", ins));
                    } else {
                        ed.insert(s.1, &format!("\n{}", ins));
                    }
                }
                None => self.lost.push(format!("{}: statement {} {}", path, n, what)),
            }
        }
        for (p, old, new, must) in self.c.replace.clone() {
            if p == path {
                let (s, e) = rng(b);
                let mut found = false;
                let mut at = s;
                while let Some(i) = text[at..e].find(&old) {
                    ed.replace(at + i, at + i + old.len(), &new);
                    at += i + old.len();
                    found = true;
                }
                if found {
                    self.desugared.insert(format!("{}: `{}` written as `{}`", path, old, new));
                } else if must {
                    self.lost.push(format!("{}: text `{}`", path, old));
                }
            }
        }
    }
}

/// lifetimes left out of the types in a signature are 'static
struct Static<'a>(&'a mut Edits);
impl<'ast> Visit<'ast> for Static<'_> {
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if let Some(l) = p.segments.last() {
            if l.ident == "Schema" || l.ident == "TsFileWriter" {
                match &l.arguments {
                    PathArguments::None => self.0.insert(rng(&l.ident).1, "<'static>"),
                    PathArguments::AngleBracketed(a) if !a.args.iter().any(|x| matches!(x, GenericArgument::Lifetime(_))) => {
                        self.0.insert(rng(&a.lt_token).1, "'static, ")
                    }
                    _ => {}
                }
            }
        }
        syn::visit::visit_path(self, p);
    }
}

struct Walk<'a, 'b> {
    x: &'a mut Extract,
    ed: &'a mut Edits,
    text: &'b str,
    path: &'b str,
    c: &'b FnC,
    loops: usize,
    stmts: Vec<(usize, usize, String)>,
}

impl Walk<'_, '_> {
    /// a macro that panics, where that ends the process
    fn abort(&mut self, m: &Macro) -> Option<String> {
        match toks(&m.path).as_str() {
            "panic" => Some("crate::capi::verif_abort(Ghost(verif_excuse))".to_string()),
            "assert" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut t = self.src(args.first()?);
                t = t.replace(".is_null()", ".verif_is_null()");
                Some(format!("if !({}) {{ crate::capi::verif_abort(Ghost(verif_excuse)) }}", t))
            }
            _ => None,
        }
    }
    fn src(&self, t: &impl Spanned) -> String {
        let (a, b) = rng(t);
        self.text[a..b].to_string()
    }
    fn begin(&mut self, whole: (usize, usize), body: &Block, label_at: Option<usize>) -> usize {
        let n = self.loops;
        self.loops += 1;
        if let Some(l) = self.c.loops.get(&n).cloned() {
            if !l.before.is_empty() {
                self.ed.insert(whole.0, &format!("{}\n", l.before));
            }
            if !l.after.is_empty() {
                self.ed.insert(whole.1, &format!("\n{}", l.after));
            }
            let (o, o2) = rng(&body.brace_token.span.open());
            self.ed.insert(o, &format!("\n{}", l.spec));
            if !l.body_start.is_empty() {
                self.ed.insert(o2, &format!("\n{}", l.body_start));
            }
            if !l.body_end.is_empty() {
                let at = rng(&body.brace_token.span.close()).0;
                let tail = matches!(body.stmts.last(), Some(Stmt::Expr(_, None)));
                self.ed.insert(at, &format!("{}\n{}", if tail { ";" } else { "" }, l.body_end));
            }
            if let (Some(name), Some(at)) = (&l.name, label_at) {
                self.ed.insert(at, &format!("{}: ", name));
            }
        }
        n
    }
    fn named(&self, n: usize) -> Option<String> {
        self.c.loops.get(&n).and_then(|l| l.name.clone())
    }
}

impl<'ast> Visit<'ast> for Walk<'_, '_> {
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        let (a, b) = rng(s);
        self.stmts.push((a, b, squash(&self.text[a..b])));
        if let Stmt::Macro(m) = s {
            let p = toks(&m.mac.path);
            if p.starts_with("log::") || p == "println" || p == "print" {
                self.ed.replace(a, b, "");
                self.x.desugared.insert("logging left out".to_string());
                return;
            }
        }
        if let (true, Stmt::Macro(m)) = (self.c.opts.contains("ffi"), s) {
            if let Some(t) = self.abort(&m.mac) {
                self.ed.replace(a, b, &format!("{};", t));
                return;
            }
        }
        if let Stmt::Local(l) = s {
            for a in &l.attrs {
                let (x, y) = rng(a);
                self.ed.replace(x, y, "");
            }
        }
        syn::visit::visit_stmt(self, s);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        for p in &c.inputs {
            let p = match p {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let Pat::Wild(w) = p {
                let (x, y) = rng(w);
                self.ed.replace(x, y, &format!("verif_unused{}", x));
            }
        }
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_macro(&mut self, m: &'ast ExprMacro) {
        let p = toks(&m.mac.path);
        if p.starts_with("log::") || p == "println" {
            let (a, b) = rng(m);
            self.ed.replace(a, b, "()");
        }
        if self.c.opts.contains("ffi") {
            if let Some(t) = self.abort(&m.mac) {
                let (a, b) = rng(m);
                self.ed.replace(a, b, &t);
            }
        }
        if p == "format" {
            if let Some(t) = formatted(&m.mac, self.text) {
                let (a, b) = rng(m);
                self.ed.replace(a, b, &t);
                self.x.desugared.insert(format!("{}: format! as concatenation", self.path));
            }
        }
    }
    fn visit_expr_struct(&mut self, s: &'ast ExprStruct) {
        let name = toks(&s.path);
        let key = if name == "Self" { self.path.rsplitn(2, "::").nth(1).unwrap_or("").to_string() } else { name };
        if let Some(t) = self.x.c.inits.get(&key) {
            let at = rng(&s.brace_token.span.close()).0;
            let comma = if s.fields.trailing_punct() || s.fields.is_empty() { "" } else { "," };
            let t = format!("{} {}", comma, t);
            self.ed.insert(at, &t);
        }
        syn::visit::visit_expr_struct(self, s);
    }
    fn visit_type(&mut self, t: &'ast Type) {
        self.x.types(t, self.ed);
    }
    fn visit_expr_match(&mut self, e: &'ast ExprMatch) {
        // `match &mut f()`: the value of a call need not be borrowed
        if let Expr::Reference(r) = &*e.expr {
            if r.mutability.is_some() && matches!(&*r.expr, Expr::MethodCall(_)) {
                let (a, _) = rng(r);
                let (b, _) = rng(&*r.expr);
                self.ed.replace(a, b, "");
                self.x.desugared.insert(format!("{}: match on a call's value instead of on a borrow of it", self.path));
            }
        }
        syn::visit::visit_expr_match(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast ExprMethodCall) {
        // `x.map(|p| body).collect()` as a loop
        if let (true, Expr::MethodCall(m)) = (e.method == "collect" && e.args.is_empty(), &*e.receiver) {
            if let (true, Some(Expr::Closure(c))) = (m.method == "map" && m.args.len() == 1, m.args.first()) {
                if let (1, Some(pat)) = (c.inputs.len(), c.inputs.first()) {
                    let n = self.loops;
                    self.loops += 1;
                    let l = self.c.loops.get(&n).cloned().unwrap_or_default();
                    let id = n;
                    let (a, b) = rng(e);
                    let (ra, rb) = rng(&*m.receiver);
                    let (ba, bb) = rng(&*c.body);
                    let lab = l.name.as_ref().map_or(String::new(), |x| format!("{}: ", x));
                    let p = self.plain_pattern(pat);
                    let acc = format!("verif_acc{}", id);
                    let src = format!("verif_src{}", id);
                    self.ed.replace(a, ra, &format!("{{ let mut {}{} = Vec::new(); let {} = verif_vec(", acc, l.elem.as_ref().map_or(String::new(), |t| format!(": Vec<{}>", t)), src));
                    self.ed.replace(rb, ba, &format!("); {} for verif_x{} in {}{}\n{} {{ let {} = verif_x{}; {}{}\n {}.push(", l.before, id, lab, src, l.spec, p.0, id, p.1, l.body_start, acc));
                    self.ed.replace(bb, b, &format!("); {} }} {}\n verif_collect({}) }}", l.body_end, l.after, acc));
                    self.x.desugared.insert(format!("{}: map with a closure and collect as a loop", self.path));
                    syn::visit::visit_expr(self, &m.receiver);
                    syn::visit::visit_expr(self, &c.body);
                    return;
                }
            }
        }
        if self.c.opts.contains("ffi") {
            let (a, _) = rng(&e.method);
            let (_, b) = rng(e);
            match e.method.to_string().as_str() {
                "unwrap" | "expect" => {
                    self.ed.replace(a, b, "verif_or_abort(Ghost(verif_excuse))");
                    syn::visit::visit_expr(self, &e.receiver);
                    return;
                }
                "try_into" => self.ed.replace(a, b, "verif_try_into()"),
                "is_null" => self.ed.replace(a, b, "verif_is_null()"),
                "close" => self.ed.replace(a, b, "verif_close(Tracked(&mut *verif_heap))"),
                _ => {}
            }
        }
        if e.method == "len" && self.x.strs.contains(&toks(&e.receiver)) {
            let (a, b) = rng(&e.method);
            self.ed.replace(a, b, "verif_str_len");
            self.x.desugared.insert("str::len through the trusted wrapper verif_str_len".to_string());
        }
        if let Some(n) = self.x.c.methods.get(&e.method.to_string()).cloned() {
            let (a, b) = rng(&e.method);
            self.ed.replace(a, b, &n);
            self.x.desugared.insert(format!("method {} through the trusted wrapper {}", e.method, n));
        }
        syn::visit::visit_expr_method_call(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast ExprCall) {
        if self.c.opts.contains("ffi") {
            let f = toks(&e.func);
            let heap = match f.as_str() {
                "Box::from_raw" | "Box::into_raw" | "Box::leak" => Some(f[5..].to_string()),
                "std::mem::forget" | "mem::forget" => Some("leak".to_string()),
                _ => None,
            };
            if let Some(h) = heap {
                let (a, b) = rng(&e.func);
                self.ed.replace(a, b, &format!("crate::capi::verif_{}", h));
                // last: an argument may use the heap as well
                let comma = if e.args.trailing_punct() { "" } else { "," };
                self.ed.insert(rng(&e.paren_token.span.close()).0, &format!("{} Tracked(&mut *verif_heap)", comma));
            }
        }
        if ["String::from", "std::string::String::from"].contains(&toks(&e.func).as_str()) {
            let (a, b) = rng(&e.func);
            self.ed.replace(a, b, "crate::vspec::verif_string");
            self.x.desugared.insert("String::from through the trusted wrapper verif_string".to_string());
            for x in &e.args {
                self.visit_expr(x);
            }
            return;
        }
        syn::visit::visit_expr_call(self, e);
    }
    fn visit_expr_binary(&mut self, e: &'ast ExprBinary) {
        if let BinOp::AddAssign(op) = &e.op {
            if self.c.opts.contains("plus_assign") {
                let lhs = self.src(&e.left);
                let (a, b) = rng(op);
                self.ed.replace(a, b, &format!("= {} +", lhs));
                self.x.desugared.insert(format!("{}: `a += b` on floats as `a = a + b`", self.path));
            }
        }
        syn::visit::visit_expr_binary(self, e);
    }
    fn visit_expr_lit(&mut self, e: &'ast ExprLit) {
        if let Lit::Int(i) = &e.lit {
            if let (true, Ok(v)) = (self.c.opts.contains("wrap_i64_literals"), i.base10_parse::<u64>()) {
                if v > i64::MAX as u64 {
                    let (a, b) = rng(i);
                    self.ed.replace(a, b, &format!("({}i64)", v as i64));
                    self.x.desugared.insert(format!("{}: literals above i64::MAX as the i64 they overflow to", self.path));
                }
            }
        }
    }
    fn visit_expr_while(&mut self, e: &'ast ExprWhile) {
        self.begin(rng(e), &e.body, None);
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast ExprLoop) {
        self.begin(rng(e), &e.body, None);
        syn::visit::visit_expr_loop(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) {
        let expr = squash(&self.src(&*e.expr));
        let (pa, pb) = rng(&*e.pat);
        let (ea, eb) = rng(&*e.expr);
        let (_, open) = rng(&e.body.brace_token.span.open());
        let pat = self.src(&*e.pat);
        // `if c { ..; continue; } rest` as `if c { .. } else { rest }`
        let mut closers = 0;
        for (i, st) in e.body.stmts.iter().enumerate() {
            if let Stmt::Expr(Expr::If(f), _) = st {
                if let (None, Some(Stmt::Expr(Expr::Continue(c), _))) = (&f.else_branch, f.then_branch.stmts.last()) {
                    if c.label.is_none() && i + 1 < e.body.stmts.len() {
                        let (ca, cb) = rng(f.then_branch.stmts.last().unwrap());
                        self.ed.replace(ca, cb, "");
                        self.ed.insert(rng(f).1, " else {");
                        closers += 1;
                    }
                }
            }
        }
        if closers > 0 {
            let at = rng(&e.body.brace_token.span.close()).0;
            let tail = matches!(e.body.stmts.last(), Some(Stmt::Expr(x, None)) if !matches!(x, Expr::If(_) | Expr::Match(_) | Expr::Block(_)));
            self.ed.insert(at, &format!("{}{}", if tail { ";" } else { "" }, "}".repeat(closers)));
            self.x.desugared.insert(format!("{}: if .. continue as if .. else", self.path));
        }
        let n = self.loops;
        let name = self.named(n);
        let lab = |x: &str| name.as_ref().map_or(x.to_string(), |n| format!("{}: {}", n, x));
        let two = match &*e.pat {
            Pat::Tuple(t) if t.elems.len() == 2 => Some((self.src(&t.elems[0]), self.src(&t.elems[1]))),
            _ => None,
        };
        let strip = |s: &str| -> String {
            // source text of the expression without the trailing calls
            let full = &self.text[ea..eb];
            full[..full.rfind(s).unwrap()].to_string()
        };
        if let (true, Some((i, v))) = (expr.ends_with(".iter().enumerate()"), &two) {
            let base = strip(".iter()");
            self.ed.replace(pa, pb, i);
            self.ed.replace(ea, eb, &lab(&format!("0..{}.len()", base)));
            self.ed.insert(open, &format!(" let {} = &{}[{}]; ", v, base, i));
            self.x.desugared.insert(format!("{}: iter().enumerate() as a loop over the indices", self.path));
            self.begin(rng(e), &e.body, None);
        } else if let (Some(call), Some((k, v))) = (over_map(&expr, two.is_some()), two.clone().or(Some(("_".to_string(), pat.clone())))) {
            let (k, v) = (&k, &v);
            let base = strip(call);
            let get = if call.contains("mut") { "verif_get_mut(&mut " } else { "verif_get(&" };
            let id = n;
            let keys = format!("verif_keys{}", id);
            let at = rng(e).0;
            let key = k.trim_start_matches('&');
            let l = self.c.loops.get(&n).cloned().unwrap_or_default();
            let _ = l;
            self.ed.insert(at, &format!("let {} = verif_sorted_keys(&{}); ", keys, base));
            self.begin(rng(e), &e.body, None);
            self.ed.replace(pa, pb, &format!("verif_i{}", id));
            self.ed.replace(ea, eb, &lab(&format!("0..{}.len()", keys)));
            let bind = if key == "_" { String::new() } else { format!("let {} = {}[verif_i{}];", key, keys, id) };
            let body_start = open;
            // the element has to be bound before the proof text of the body
            self.ed.replace(body_start - 1, body_start, &format!("{{ let verif_key{0} = {1}[verif_i{0}]; {2}", id, keys, bind));
            self.ed.insert(body_start, &format!(" let {} = {}{}, &verif_key{}); ", v, get, base, id));
            self.x.desugared.insert(format!("{}: {} of a map as get of its keys in order", self.path, call));
        } else {
            let l = if name.is_some() { Some(ea) } else { None };
            let _ = pat;
            if let Some(w) = self.c.loops.get(&n).and_then(|l| l.wrap.clone()) {
                self.ed.insert(eb, ")");
                self.begin(rng(e), &e.body, l);
                self.ed.insert(ea, &format!("{}(", w));
                self.x.desugared.insert(format!("{}: a loop over the items as a Vec ({})", self.path, w));
            } else {
                self.begin(rng(e), &e.body, l);
            }
        }
        syn::visit::visit_block(self, &e.body);
        syn::visit::visit_expr(self, &e.expr);
    }
    fn visit_item(&mut self, _: &'ast Item) {}
}

/// Replaces invocations of macro_rules macros with one arm of plain parameters by their body.
fn instantiate(text: &str, log: &mut BTreeSet<String>) -> String {
    let ast = match parse_file(text) {
        Ok(a) => a,
        Err(_) => return text.to_string(),
    };
    struct M {
        name: String,
        params: Vec<String>,
        body: String,
    }
    let mut ms: Vec<M> = vec![];
    let mut ed = Edits::new();
    for it in &ast.items {
        if let Item::Macro(m) = it {
            let (a, b) = rng(it);
            if let Some(id) = &m.ident {
                let (ta, tb) = {
                    let r = m.mac.tokens.span().byte_range();
                    (r.start, r.end)
                };
                let src = &text[ta..tb];
                let arrow = match src.find("=>") {
                    Some(i) => i,
                    None => continue,
                };
                let params = src[..arrow]
                    .split('$')
                    .skip(1)
                    .map(|p| p.split(':').next().unwrap().trim().to_string())
                    .collect();
                let open = arrow + src[arrow..].find('{').unwrap();
                let close = src.rfind('}').unwrap();
                ms.push(M { name: id.to_string(), params, body: src[open + 1..close].to_string() });
                ed.replace(a, b, "");
            } else if let Some(x) = ms.iter().find(|x| m.mac.path.is_ident(&x.name)) {
                let t = m.mac.tokens.to_string();
                let args: Vec<&str> = t.split(',').map(|x| x.trim()).collect();
                let mut body = x.body.clone();
                let mut pairs: Vec<(&String, &&str)> = x.params.iter().zip(args.iter()).collect();
                pairs.sort_by_key(|p| std::cmp::Reverse(p.0.len()));
                for (p, v) in pairs {
                    body = body.replace(&format!("${}", p), v);
                }
                log.insert(format!("macro {} instantiated for {}", x.name, t));
                ed.replace(a, b, &body);
            }
        }
    }
    ed.apply(text)
}

impl Walk<'_, '_> {
    /// a pattern without `&x`, and the statements that do the rest
    fn plain_pattern(&self, p: &Pat) -> (String, String) {
        match p {
            Pat::Reference(r) if matches!(&*r.pat, Pat::Ident(_)) => {
                let x = self.src(&*r.pat);
                (x.clone(), format!("let {0} = *{0}; ", x))
            }
            Pat::Tuple(t) => {
                let v: Vec<(String, String)> = t.elems.iter().map(|e| self.plain_pattern(e)).collect();
                (
                    format!("({})", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")),
                    v.iter().map(|x| x.1.clone()).collect::<String>(),
                )
            }
            _ => (self.src(p), String::new()),
        }
    }
}

/// a loop over a map
fn over_map(e: &str, pair: bool) -> Option<&'static str> {
    if pair && e.ends_with(".iter_mut()") {
        Some(".iter_mut()")
    } else if !pair && e.ends_with(".values_mut()") {
        Some(".values_mut()")
    } else if !pair && e.ends_with(".values()") {
        Some(".values()")
    } else {
        None
    }
}

/// `format!` of strings, without options, as concatenation.
fn formatted(m: &Macro, text: &str) -> Option<String> {
    let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let mut it = args.iter();
    let lit = match it.next() {
        Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) => l.value(),
        _ => return None,
    };
    let rest: Vec<String> = it.map(|e| { let (a, b) = rng(e); text[a..b].to_string() }).collect();
    let mut parts: Vec<String> = vec![];
    let text_part = |t: &str, parts: &mut Vec<String>| if !t.is_empty() { parts.push(format!("crate::vspec::verif_text({:?})", t)); };
    let (mut left, mut used) = (lit.as_str(), 0);
    while let Some(i) = left.find(['{', '}']) {
        if !left[i..].starts_with('{') || left[i..].starts_with("{{") {
            return None;
        }
        text_part(&left[..i], &mut parts);
        let j = i + left[i..].find('}')?;
        let name = &left[i + 1..j];
        let arg = if name.is_empty() {
            used += 1;
            rest.get(used - 1)?.clone()
        } else if let Ok(n) = name.parse::<usize>() {
            rest.get(n)?.clone()
        } else if parse_str::<Ident>(name).is_ok() {
            name.to_string()
        } else {
            return None;
        };
        parts.push(format!("({}).verif_show()", arg));
        left = &left[j + 1..];
    }
    text_part(left, &mut parts);
    let mut r = parts.first().cloned().unwrap_or_else(|| "String::new()".to_string());
    for p in parts.iter().skip(1) {
        r = format!("crate::vspec::verif_cat({}, {})", r, p);
    }
    Some(r)
}
