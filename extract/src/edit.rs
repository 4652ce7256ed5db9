//! Edits of a text by byte ranges.
pub struct Edits {
    e: Vec<(usize, usize, usize, String)>,
}

impl Edits {
    pub fn new() -> Edits {
        Edits { e: vec![] }
    }
    pub fn insert(&mut self, at: usize, t: &str) {
        if !t.is_empty() {
            self.e.push((at, at, self.e.len(), t.to_string()));
        }
    }
    pub fn replace(&mut self, from: usize, to: usize, t: &str) {
        self.e.push((from, to, self.e.len(), t.to_string()));
    }
    /// Edits inside of a replaced range are dropped.
    pub fn apply(mut self, s: &str) -> String {
        self.e.sort_by_key(|e| (e.0, e.1 != e.0, e.2));
        let mut out = String::new();
        let mut at = 0;
        for (a, b, _, t) in self.e {
            if a < at {
                continue;
            }
            out += &s[at..a];
            out += &t;
            at = b;
        }
        out += &s[at..];
        out
    }
}

/// Without any whitespace.
pub fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
