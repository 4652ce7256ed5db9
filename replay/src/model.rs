//! Histories, values, and the model of which calls are accepted.
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Copy, Debug)]
pub enum V {
    I(i32),
    L(i64),
    F(u32),
    D(u64),
}

impl V {
    pub fn code(&self) -> u8 {
        match self {
            V::I(_) => 1,
            V::L(_) => 2,
            V::F(_) => 3,
            V::D(_) => 4,
        }
    }
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::I(a), V::I(b)) => a == b,
            (V::L(a), V::L(b)) => a == b,
            (V::F(a), V::F(b)) => a == b,
            (V::D(a), V::D(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Decl {
    pub dev: String,
    pub meas: String,
    pub ty: u8,
    pub enc: u8,
    pub comp: u8,
}

#[derive(Clone, Debug)]
pub enum Op {
    Write(String, String, i64, V),
    Many(String, i64, Vec<(String, V)>),
    Flush,
}

#[derive(Clone, Debug)]
pub struct Hist {
    pub degree: usize,
    /// the position of the first byte
    pub base: u64,
    pub decls: Vec<Decl>,
    pub ops: Vec<Op>,
    pub label: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E {
    Order,
    Unknown,
    Type,
    Encoding,
    Io,
    Other,
}

pub type Key = (String, String);

/// What the API promises.
#[derive(Default, Clone)]
pub struct Model {
    pub series: BTreeMap<Key, Decl>,
    pub devices: std::collections::BTreeSet<String>,
    pub last: BTreeMap<Key, i64>,
    pub accepted: BTreeMap<Key, Vec<(i64, V)>>,
}

impl Model {
    pub fn new(h: &Hist) -> Model {
        let mut m = Model::default();
        // a later declaration of a device replaces the earlier one only in the builder; here
        // declarations are grouped by device before they reach the builder
        for d in &h.decls {
            m.series.insert((d.dev.clone(), d.meas.clone()), d.clone());
            m.devices.insert(d.dev.clone());
        }
        m
    }
    /// All errors that are right for this point; none if it has to be accepted.
    pub fn errors(&self, dev: &str, meas: &str, ts: i64, v: &V) -> Vec<E> {
        let key = (dev.to_string(), meas.to_string());
        let mut e = vec![];
        if !self.devices.contains(dev) {
            return vec![E::Unknown];
        }
        if ts <= *self.last.get(&key).unwrap_or(&-1) {
            e.push(E::Order);
        }
        match self.series.get(&key) {
            None => e.push(E::Unknown),
            Some(d) => {
                if d.ty != v.code() {
                    e.push(E::Type);
                }
                if d.ty == 3 && d.enc == 4 {
                    e.push(E::Encoding);
                }
            }
        }
        e
    }
    pub fn accept(&mut self, dev: &str, meas: &str, ts: i64, v: &V) {
        let key = (dev.to_string(), meas.to_string());
        self.last.insert(key.clone(), ts);
        self.accepted.entry(key).or_default().push((ts, *v));
    }
}

impl Hist {
    pub fn describe(&self, limit: usize) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "history: {}", self.label);
        let _ = writeln!(s, "max children per index node: {}", self.degree);
        for (i, d) in self.decls.iter().enumerate() {
            if i == limit {
                let _ = writeln!(s, "... {} declarations", self.decls.len());
                break;
            }
            let _ = writeln!(s, "declare {:?}", d);
        }
        for (i, o) in self.ops.iter().enumerate() {
            if i == limit {
                let _ = writeln!(s, "... {} calls in total", self.ops.len());
                break;
            }
            let _ = writeln!(s, "call {:?}", o);
        }
        s
    }
}

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
