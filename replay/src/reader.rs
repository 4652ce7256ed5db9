//! Reads a closed file completely and compares it with what the model says is in it.
use crate::model::*;
use crate::oracle::*;
use std::collections::{BTreeMap, BTreeSet};

/// The properties a finding speaks against, and the finding.
pub type Finding = (Vec<&'static str>, String);

struct Page {
    stat_in_header: Option<Stat>,
    points: Vec<(i64, V)>,
}

pub struct Chunk {
    pub dev: String,
    pub meas: String,
    pub offset: usize,
    pub end: usize,
    pub ty: u8,
    pub enc: u8,
    pub comp: u8,
    stat: Option<Stat>,
    points: Vec<(i64, V)>,
    pub pages: usize,
}

struct Node {
    entries: Vec<(String, usize)>,
    end: usize,
    kind: u8,
}

fn read_node(b: &[u8], from: usize, to: Option<usize>) -> Result<(Node, usize), String> {
    let mut c = Cur::new(b, from);
    let n = c.uvar()?;
    let mut entries = vec![];
    for _ in 0..n {
        let name = c.vstr()?;
        entries.push((name, offset(&mut c)?));
    }
    let end = offset(&mut c)?;
    let kind = c.u8()?;
    if let Some(to) = to {
        if c.i != to {
            return Err(format!("index node at {} ends at {} instead of {}", from, c.i, to));
        }
    }
    Ok((Node { entries, end, kind }, c.i))
}

struct Meta {
    name: String,
    kind: u8,
    ty: u8,
    stat: Stat,
    chunks: Vec<(usize, Option<Stat>)>,
}

fn read_meta(c: &mut Cur) -> Result<Meta, String> {
    let kind = c.u8()?;
    let name = c.vstr()?;
    let ty = c.u8()?;
    let size = c.uvar()? as usize;
    let stat = stat_read(c, ty)?;
    let list = c.take(size)?;
    let mut l = Cur::new(list, 0);
    let mut chunks = vec![];
    while l.left() > 0 {
        let off = offset(&mut l)?;
        let s = if kind & 1 == 1 { Some(stat_read(&mut l, ty)?) } else { None };
        chunks.push((off, s));
        if kind & 1 == 0 && l.left() > 0 {
            return Err(format!("series metadata {} of a single chunk has more", name));
        }
    }
    Ok(Meta { name, kind, ty, stat, chunks })
}

fn page_body(body: &[u8], ty: u8, enc: u8, f: &mut Vec<Finding>, at: usize) -> Result<Vec<(i64, V)>, ()> {
    let fail = |f: &mut Vec<Finding>, tags: &[&'static str], m: String| {
        f.push((tags.to_vec(), format!("page at {}: {}", at, m)));
        Err(())
    };
    let mut c = Cur::new(body, 0);
    let tl = match c.uvar() {
        Ok(x) => x,
        Err(e) => return fail(f, &["C08", "C01"], e),
    };
    let tb = match c.take(tl as usize) {
        Ok(x) => x,
        Err(e) => return fail(f, &["C08", "C01"], e),
    };
    let times = match ts2diff(tb, 64) {
        Ok(x) => x,
        Err(e) => return fail(f, &["C08", "C02", "C01"], e),
    };
    let vb = &body[c.i..];
    let values = if enc == 4 {
        let bits = if ty == 1 { 32 } else { 64 };
        match ts2diff(vb, bits) {
            Ok(x) => x.into_iter().map(|x| if ty == 1 { V::I(x as i32) } else { V::L(x) }).collect(),
            Err(e) => return fail(f, &["C08", "C02", "C01"], e),
        }
    } else {
        match plain(vb, ty) {
            Ok(x) => x,
            Err(e) => return fail(f, &["C08", "C03", "C01"], e),
        }
    };
    if times.len() != values.len() {
        return fail(f, &["C08", "C01"], format!("{} times, {} values", times.len(), values.len()));
    }
    if times.is_empty() {
        return fail(f, &["C08", "C16"], "no points".to_string());
    }
    Ok(times.into_iter().zip(values).collect())
}

fn read_pages(data: &[u8], base: usize, single: bool, ty: u8, enc: u8, comp: u8, f: &mut Vec<Finding>) -> Option<Vec<Page>> {
    let mut c = Cur::new(data, 0);
    let mut pages = vec![];
    while c.left() > 0 {
        let at = base + c.i;
        let r: Result<(usize, &[u8], Option<Stat>), String> = (|| {
            let un = c.uvar()? as usize;
            let co = c.uvar()? as usize;
            let stat = if single { None } else { Some(stat_read(&mut c, ty)?) };
            Ok((un, c.take(co)?, stat))
        })();
        let (un, body, stat) = match r {
            Ok(x) => x,
            Err(e) => {
                f.push((vec!["C08", "C01"], format!("page header at {}: {}", at, e)));
                return None;
            }
        };
        let plainbody = if comp == 1 {
            match snap::raw::Decoder::new().decompress_vec(body) {
                Ok(x) => x,
                Err(e) => {
                    f.push((vec!["C08", "C01"], format!("page at {}: {}", at, e)));
                    return None;
                }
            }
        } else {
            body.to_vec()
        };
        if plainbody.len() != un {
            f.push((vec!["C08"], format!("page at {}: uncompressed size {} recorded, is {}", at, un, plainbody.len())));
        }
        let points = match page_body(&plainbody, ty, enc, f, at) {
            Ok(p) => p,
            Err(()) => return None,
        };
        if let Some(s) = &stat {
            if let Some(d) = stat_of(&points).and_then(|w| stat_diff(s, &w)) {
                f.push((vec!["C05"], format!("page at {}: {}", at, d)));
            }
        }
        pages.push(Page { stat_in_header: stat, points });
    }
    Some(pages)
}

thread_local! {
    static BASE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// An offset in the file: positions are counted from the base.
fn offset(c: &mut Cur) -> Result<usize, String> {
    let x = c.i64()?;
    Ok((x as u64).wrapping_sub(BASE.with(|b| b.get())) as usize)
}

pub fn check_from(bytes: &[u8], m: &Model, degree: usize, base: u64) -> (Vec<Finding>, Vec<Chunk>) {
    BASE.with(|b| b.set(base));
    let r = check(bytes, m, degree);
    BASE.with(|b| b.set(0));
    r
}

pub fn check(bytes: &[u8], m: &Model, degree: usize) -> (Vec<Finding>, Vec<Chunk>) {
    let mut f: Vec<Finding> = vec![];
    let mut chunks: Vec<Chunk> = vec![];
    scan(bytes, m, degree, &mut f, &mut chunks);
    (f, chunks)
}

fn scan(b: &[u8], m: &Model, degree: usize, f: &mut Vec<Finding>, chunks: &mut Vec<Chunk>) {
    macro_rules! bail {
        ($tags:expr, $($a:tt)*) => {{ f.push(($tags.to_vec(), format!($($a)*))); return; }};
    }
    if b.len() < 7 || &b[..6] != b"TsFile" || b[6] != 3 {
        bail!(["C09", "C01"], "file does not start with the magic string and version 3");
    }
    // body
    let mut c = Cur::new(b, 7);
    let mut dev: Option<String> = None;
    let sep;
    let mut broken = false;
    loop {
        let at = c.i;
        let marker = match c.u8() {
            Ok(x) => x,
            Err(e) => bail!(["C09", "C01"], "no separator: {}", e),
        };
        match marker {
            0 => match c.vstr() {
                Ok(d) => {
                    if !m.devices.contains(&d) {
                        f.push((vec!["C09", "C17"], format!("chunk group of unknown device {:?} at {}", d, at)));
                    }
                    dev = Some(d)
                }
                Err(e) => bail!(["C09", "C01"], "chunk group header at {}: {}", at, e),
            },
            1 | 5 => {
                let d = match &dev {
                    Some(d) => d.clone(),
                    None => bail!(["C09"], "chunk at {} outside of a chunk group", at),
                };
                let h: Result<_, String> = (|| Ok((c.vstr()?, c.uvar()?, c.u8()?, c.u8()?, c.u8()?)))();
                let (meas, size, ty, comp, enc) = match h {
                    Ok(h) => h,
                    Err(e) => bail!(["C08", "C09", "C01"], "chunk header at {}: {}", at, e),
                };
                let data_at = c.i;
                let data = match c.take(size as usize) {
                    Ok(x) => x,
                    Err(e) => bail!(["C08", "C09", "C01"], "chunk at {}: {}", at, e),
                };
                match m.series.get(&(d.clone(), meas.clone())) {
                    None => bail!(["C09", "C17", "C01"], "chunk at {} of unknown series {:?} {:?}", at, d, meas),
                    Some(s) => {
                        if (s.ty, s.enc, s.comp) != (ty, enc, comp) {
                            f.push((
                                vec!["C08", "C17", "C14"],
                                format!("chunk at {} of {:?} {:?}: type/encoding/compression {:?}, declared {:?}", at, d, meas, (ty, enc, comp), (s.ty, s.enc, s.comp)),
                            ));
                        }
                        if !(1..=3).contains(&ty) || ![0, 4].contains(&enc) || comp > 1 {
                            return;
                        }
                    }
                }
                if size == 0 {
                    f.push((vec!["C08", "C16"], format!("chunk at {} without data", at)));
                }
                let n = f.len();
                match read_pages(data, data_at, marker == 5, ty, enc, comp, f) {
                    Some(pages) => {
                        if (pages.len() == 1) != (marker == 5) {
                            f.push((vec!["C08"], format!("chunk at {} has marker {} and {} pages", at, marker, pages.len())));
                        }
                        let stats: Vec<Stat> = pages.iter().filter_map(|p| stat_of(&p.points)).collect();
                        let _ = pages.iter().filter(|p| p.stat_in_header.is_some()).count();
                        let np = pages.len();
                        chunks.push(Chunk {
                            dev: d,
                            meas,
                            offset: at,
                            end: c.i,
                            ty,
                            enc,
                            comp,
                            stat: stat_merge(&stats),
                            points: pages.into_iter().flat_map(|p| p.points).collect(),
                            pages: np,
                        });
                    }
                    None => broken = true,
                }
                if f.len() > n + 20 {
                    return;
                }
            }
            2 => {
                sep = at;
                break;
            }
            x => bail!(["C09", "C08", "C01"], "marker {} at {}", x, at),
        }
    }
    if !broken {
        // every accepted point, once, in order
        let mut got: BTreeMap<Key, Vec<&(i64, V)>> = BTreeMap::new();
        for ch in chunks.iter() {
            got.entry((ch.dev.clone(), ch.meas.clone())).or_default().extend(ch.points.iter());
        }
        for (k, s) in &m.series {
            let want: &[(i64, V)] = m.accepted.get(k).map_or(&[], |v| v);
            let none = vec![];
            let have = got.get(k).unwrap_or(&none);
            let bad = (0..want.len().max(have.len())).find(|i| match (want.get(*i), have.get(*i)) {
                (Some(a), Some(b)) => a.0 != b.0 || !a.1.same(&b.1),
                _ => true,
            });
            if let Some(i) = bad {
                let mut tags = vec!["C01"];
                if want.len() == have.len() {
                    let (a, b) = (want[i], have[i]);
                    if a.0 != b.0 {
                        tags.push("C02");
                    }
                    if !a.1.same(&b.1) {
                        tags.push(if s.enc == 4 { "C02" } else { "C03" });
                    }
                } else if have.len() > want.len() {
                    tags.push("C07");
                }
                f.push((
                    tags,
                    format!("series {:?}: {} points accepted, {} in the file; point {} is {:?} instead of {:?}", k, want.len(), have.len(), i, have.get(i), want.get(i)),
                ));
            }
            for w in have.windows(2) {
                if w[0].0 >= w[1].0 {
                    f.push((vec!["C06"], format!("series {:?}: timestamp {} after {} in the file", k, w[1].0, w[0].0)));
                    break;
                }
            }
        }
    }
    // footer, from the end
    if b.len() < 10 || &b[b.len() - 6..] != b"TsFile" {
        bail!(["C09", "C01"], "file does not end with the magic string");
    }
    let flen = Cur::new(b, b.len() - 10).be(4).unwrap() as usize;
    if flen + 10 > b.len() || b.len() - 10 - flen <= sep {
        bail!(["C09"], "footer length {} is impossible", flen);
    }
    let foot = b.len() - 10 - flen;
    let (root, i) = match read_node(b, foot, None) {
        Ok(x) => x,
        Err(e) => bail!(["C09", "C10"], "index root at {}: {}", foot, e),
    };
    let mut c = Cur::new(&b[..b.len() - 10], i);
    let t: Result<_, String> = (|| {
        let off = offset(&mut c)?;
        let n = c.uvar()?;
        Ok((off, c.take(n as usize)?, c.uvar()?, c.uvar()?))
    })();
    let (off, bits, size, k) = match t {
        Ok(x) => x,
        Err(e) => bail!(["C09", "C11"], "footer: {}", e),
    };
    if c.left() != 0 {
        f.push((vec!["C09"], format!("{} bytes left over in the footer", c.left())));
    }
    if off != sep {
        f.push((vec!["C09"], format!("metadata offset {} recorded, the separator is at {}", off, sep)));
    }
    // bloom filter
    let written: BTreeSet<Key> = m.accepted.iter().filter(|(_, p)| !p.is_empty()).map(|(k, _)| k.clone()).collect();
    for (d, s) in &written {
        let path = format!("{}.{}", d, s);
        match bloom_has(bits, size as i32, k as i32, &path) {
            Ok(true) => {}
            Ok(false) => {
                f.push((vec!["C11"], format!("bloom filter (size {}, {} functions) denies {:?}", size, k, path)));
                break;
            }
            Err(e) => {
                f.push((vec!["C11"], e));
                break;
            }
        }
    }
    // index: walk
    let mut ranges: Vec<(usize, usize)> = vec![];
    let mut metas: BTreeMap<Key, Meta> = BTreeMap::new();
    let mut w = Walk { b, degree, f, ranges: &mut ranges, metas: &mut metas, last_dev: None };
    if let Err(e) = w.device_node(&root, None, 0, foot) {
        f.push((vec!["C10"], e));
        return;
    }
    if root.end != foot {
        f.push((vec!["C10", "C09"], format!("index root ends at {}, the footer starts at {}", root.end, foot)));
    }
    ranges.sort();
    let mut at = sep + 1;
    for (x, y) in &ranges {
        if *x != at {
            f.push((vec!["C09", "C10"], format!("metadata section: {} expected at {}, found {}", "next part", at, x)));
            break;
        }
        at = *y;
    }
    if at != foot && !ranges.is_empty() {
        f.push((vec!["C09", "C10"], format!("metadata section ends at {}, the footer starts at {}", at, foot)));
    }
    // lookups as readers do them
    let mut budget = 200_000_usize;
    for (d, s) in &written {
        match lookup(b, &root, d, s) {
            Ok(true) => {}
            Ok(false) => {
                f.push((vec!["C10"], format!("series {:?} {:?} is not found through the index", d, s)));
                break;
            }
            Err(e) => {
                f.push((vec!["C10"], format!("lookup of {:?} {:?}: {}", d, s, e)));
                break;
            }
        }
        budget -= 1;
        if budget == 0 {
            break;
        }
    }
    for (d, s) in written.iter().take(300) {
        for (d2, s2) in [
            (format!("{}x", d), s.clone()),
            (d.clone(), format!("{}x", s)),
            (d.clone(), format!("!{}", s)),
            (format!("{}.{}", d, s), s.clone()),
            (d.clone(), String::new()),
        ] {
            if written.contains(&(d2.clone(), s2.clone())) {
                continue;
            }
            if let Ok(true) = lookup(b, &root, &d2, &s2) {
                f.push((vec!["C10"], format!("series {:?} {:?} is found but was never written", d2, s2)));
            }
        }
    }
    // the set of series in the index
    let have: BTreeSet<Key> = metas.keys().cloned().collect();
    if have != written {
        let a = written.difference(&have).next();
        let e = have.difference(&written).next();
        f.push((vec!["C10", "C09"], format!("index: missing {:?}, extra {:?}", a, e)));
    }
    if broken {
        return;
    }
    let mut by: BTreeMap<Key, Vec<&Chunk>> = BTreeMap::new();
    for ch in chunks.iter() {
        by.entry((ch.dev.clone(), ch.meas.clone())).or_default().push(ch);
    }
    for (k, meta) in &metas {
        let none = vec![];
        let cs = by.get(k).unwrap_or(&none);
        let decl = m.series.get(k);
        if let Some(d) = decl {
            if d.ty != meta.ty {
                f.push((vec!["C09", "C14"], format!("metadata of {:?} has type {}", k, meta.ty)));
            }
        }
        let offs: Vec<usize> = meta.chunks.iter().map(|x| x.0).collect();
        let want: Vec<usize> = cs.iter().map(|c| c.offset).collect();
        if offs != want {
            f.push((vec!["C09"], format!("metadata of {:?}: chunk offsets {:?}, chunks are at {:?}", k, offs, want)));
            continue;
        }
        if meta.kind != (cs.len() > 1) as u8 {
            f.push((vec!["C09"], format!("metadata of {:?} with {} chunks has kind {}", k, cs.len(), meta.kind)));
        }
        let mut parts = vec![];
        for (ch, (_, s)) in cs.iter().zip(&meta.chunks) {
            if let Some(st) = &ch.stat {
                parts.push(st.clone());
                if let Some(s) = s {
                    if let Some(d) = stat_diff(s, st) {
                        f.push((vec!["C05"], format!("chunk at {} of {:?}: {}", ch.offset, k, d)));
                    }
                }
            }
        }
        if let Some(d) = stat_merge(&parts).and_then(|w| stat_diff(&meta.stat, &w)) {
            f.push((vec!["C05"], format!("series {:?}: {}", k, d)));
        }
    }
}

struct Walk<'a, 'b> {
    b: &'a [u8],
    degree: usize,
    f: &'b mut Vec<Finding>,
    ranges: &'b mut Vec<(usize, usize)>,
    metas: &'b mut BTreeMap<Key, Meta>,
    last_dev: Option<String>,
}

impl Walk<'_, '_> {
    fn sorted(&mut self, n: &Node, what: &str) {
        if n.entries.len() > self.degree {
            self.f.push((vec!["C10"], format!("{} index node with {} children, allowed {}", what, n.entries.len(), self.degree)));
        }
        for w in n.entries.windows(2) {
            if w[0].0 >= w[1].0 {
                self.f.push((vec!["C10"], format!("{} index node: {:?} before {:?}", what, w[0].0, w[1].0)));
                return;
            }
        }
    }
    fn bounds(n: &Node) -> Vec<(usize, usize)> {
        (0..n.entries.len())
            .map(|i| (n.entries[i].1, n.entries.get(i + 1).map_or(n.end, |e| e.1)))
            .collect()
    }
    fn device_node(&mut self, n: &Node, first: Option<&str>, depth: usize, limit: usize) -> Result<(), String> {
        if depth > 40 {
            return Err("index too deep".to_string());
        }
        if let (Some(x), Some(e)) = (first, n.entries.first()) {
            if x != e.0 {
                return Err(format!("device index entry {:?} leads to a node starting with {:?}", x, e.0));
            }
        }
        if n.entries.is_empty() && depth > 0 {
            return Err("empty device index node".to_string());
        }
        self.sorted(n, "device");
        for ((name, _), (from, to)) in n.entries.iter().zip(Self::bounds(n)) {
            if from >= to || to > limit {
                return Err(format!("device index entry {:?} covers {}..{}", name, from, to));
            }
            let (child, _) = read_node(self.b, from, Some(to))?;
            self.ranges.push((from, to));
            match n.kind {
                0 => {
                    if child.kind > 1 {
                        return Err(format!("inner device node with a child of kind {}", child.kind));
                    }
                    self.device_node(&child, Some(name), depth + 1, from)?
                }
                1 => {
                    if let Some(l) = &self.last_dev {
                        if l >= name {
                            self.f.push((vec!["C10"], format!("device {:?} after {:?} in the index", name, l)));
                        }
                    }
                    self.last_dev = Some(name.clone());
                    let mut last = None;
                    self.measurement_node(&child, name, None, 0, from, &mut last)?
                }
                k => return Err(format!("device index node of kind {}", k)),
            }
        }
        Ok(())
    }
    fn measurement_node(&mut self, n: &Node, dev: &str, first: Option<&str>, depth: usize, limit: usize, last: &mut Option<String>) -> Result<(), String> {
        if depth > 40 {
            return Err("index too deep".to_string());
        }
        if n.entries.is_empty() {
            return Err(format!("empty measurement index node of {:?}", dev));
        }
        if let Some(x) = first {
            if x != n.entries[0].0 {
                return Err(format!("measurement index entry {:?} leads to a node starting with {:?}", x, n.entries[0].0));
            }
        }
        self.sorted(n, "measurement");
        for ((name, _), (from, to)) in n.entries.iter().zip(Self::bounds(n)) {
            if from >= to || to > limit {
                return Err(format!("measurement index entry {:?} {:?} covers {}..{}", dev, name, from, to));
            }
            self.ranges.push((from, to));
            match n.kind {
                2 => {
                    let (child, _) = read_node(self.b, from, Some(to))?;
                    self.measurement_node(&child, dev, Some(name), depth + 1, from, last)?
                }
                3 => {
                    let mut c = Cur::new(&self.b[..to], from);
                    let mut count = 0;
                    while c.left() > 0 {
                        let meta = read_meta(&mut c)?;
                        if count == 0 && &meta.name != name {
                            return Err(format!("index entry {:?} {:?} leads to series {:?}", dev, name, meta.name));
                        }
                        if let Some(l) = last {
                            if *l >= meta.name {
                                self.f.push((vec!["C10"], format!("measurement {:?} after {:?}", meta.name, l)));
                            }
                        }
                        *last = Some(meta.name.clone());
                        count += 1;
                        let key = (dev.to_string(), meta.name.clone());
                        if self.metas.insert(key, meta).is_some() {
                            self.f.push((vec!["C10", "C09"], format!("series twice in the metadata of {:?}", dev)));
                        }
                    }
                    if count > self.degree {
                        self.f.push((vec!["C10"], format!("{} series under one index entry, allowed {}", count, self.degree)));
                    }
                }
                k => return Err(format!("measurement index node of kind {}", k)),
            }
        }
        Ok(())
    }
}

fn child<'a>(n: &'a Node, key: &str, exact: bool) -> Option<(usize, usize, &'a str)> {
    // binary search, as readers do it
    let (mut lo, mut hi) = (0_i64, n.entries.len() as i64 - 1);
    let mut found = -1;
    while lo <= hi {
        let mid = (lo + hi) / 2;
        match n.entries[mid as usize].0.as_str().cmp(key) {
            std::cmp::Ordering::Less => lo = mid + 1,
            std::cmp::Ordering::Greater => hi = mid - 1,
            std::cmp::Ordering::Equal => {
                found = mid;
                break;
            }
        }
    }
    if found < 0 {
        if exact || lo == 0 {
            return None;
        }
        found = lo - 1;
    }
    let i = found as usize;
    Some((n.entries[i].1, n.entries.get(i + 1).map_or(n.end, |e| e.1), &n.entries[i].0))
}

fn lookup(b: &[u8], root: &Node, dev: &str, meas: &str) -> Result<bool, String> {
    let mut node = Node { entries: root.entries.clone(), end: root.end, kind: root.kind };
    for _ in 0..80 {
        let (key, exact) = match node.kind {
            0 => (dev, false),
            1 => (dev, true),
            _ => (meas, false),
        };
        let (from, to) = match child(&node, key, exact) {
            None => return Ok(false),
            Some((a, z, _)) => (a, z),
        };
        if from > to || to > b.len() {
            return Err(format!("index leads to {}..{}", from, to));
        }
        if node.kind == 3 {
            let mut c = Cur::new(&b[..to], from);
            while c.left() > 0 {
                if read_meta(&mut c)?.name == meas {
                    return Ok(true);
                }
            }
            return Ok(false);
        }
        node = read_node(b, from, None)?.0;
    }
    Err("index too deep".to_string())
}
