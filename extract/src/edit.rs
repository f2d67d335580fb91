//! Text edits by byte range. Nested replacements: the outer one wins; insertions compose.
pub struct Edits<'a> { text: &'a str, list: Vec<(usize, usize, String, i64)> }

impl<'a> Edits<'a> {
    pub fn new(text: &'a str) -> Self { Edits { text, list: vec![] } }
    pub fn replace(&mut self, from: usize, to: usize, with: impl Into<String>) {
        let n = self.list.len() as i64;
        self.list.push((from, to, with.into(), n));
    }
    pub fn insert(&mut self, at: usize, what: impl Into<String>) { self.replace(at, at, what); }
    /// before everything else at that place
    pub fn insert_first(&mut self, at: usize, what: impl Into<String>) { let n = self.list.len() as i64; self.list.push((at, at, what.into(), -1 - n)); }
    pub fn render(&self, from: usize, to: usize) -> Result<String, String> {
        let mut l: Vec<_> = self.list.iter().filter(|e| e.0 >= from && e.1 <= to && !(e.0 == to && e.1 == to)).collect();
        // outer replacements first
        l.sort_by(|a, b| a.0.cmp(&b.0).then_with(|| {
            let (ia, ib) = (a.0 == a.1, b.0 == b.1);
            match (ia, ib) { (true, false) => std::cmp::Ordering::Less, (false, true) => std::cmp::Ordering::Greater, (true, true) => a.3.cmp(&b.3), (false, false) => b.1.cmp(&a.1).then(a.3.cmp(&b.3)) }
        }));
        let mut o = String::new();
        let mut pos = from;
        for e in l {
            if e.0 < pos {
                if e.1 <= pos { continue; } // inside of a replaced region
                return Err(format!("overlapping rewrites at {:?}", &self.text[e.0..e.1]));
            }
            o.push_str(&self.text[pos..e.0]);
            o.push_str(&e.2);
            pos = e.1;
        }
        o.push_str(&self.text[pos..to]);
        Ok(o)
    }
}
