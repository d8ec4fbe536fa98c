//! Test cases: named lists of integers, readable and replayable.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub f: BTreeMap<String, Vec<usize>>,
}

impl Case {
    pub fn new(prop: &str) -> Self { Case { prop: prop.to_string(), f: BTreeMap::new() } }
    pub fn set(&mut self, k: &str, v: Vec<usize>) -> &mut Self { self.f.insert(k.to_string(), v); self }
    pub fn get(&self, k: &str) -> &[usize] { self.f.get(k).map(|v| &v[..]).unwrap_or(&[]) }
    pub fn one(&self, k: &str) -> usize { self.get(k).first().copied().unwrap_or(0) }
    pub fn pairs(&self, k: &str) -> Vec<(usize, usize)> { self.get(k).chunks(2).filter(|c| c.len() == 2).map(|c| (c[0], c[1])).collect() }
    pub fn set_pairs(&mut self, k: &str, v: &[(usize, usize)]) -> &mut Self { self.set(k, v.iter().flat_map(|e| [e.0, e.1]).collect()) }
    pub fn text(&self) -> String {
        let mut s = format!("property {}\n", self.prop);
        for (k, v) in &self.f {
            s.push_str(k);
            for x in v { s.push(' '); s.push_str(&x.to_string()); }
            s.push('\n');
        }
        s
    }
    pub fn parse(t: &str) -> Option<Case> {
        let mut c = Case::new("");
        for l in t.lines() {
            if l.starts_with('#') || l.trim().is_empty() { continue }
            let mut w = l.split_whitespace();
            let k = w.next()?;
            if k == "property" { c.prop = w.next()?.to_string(); continue }
            let mut v = vec![];
            for x in w { v.push(x.parse().ok()?); }
            c.f.insert(k.to_string(), v);
        }
        if c.prop.is_empty() { None } else { Some(c) }
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, a: usize, b: usize) -> bool { self.below(b) < a }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
}
