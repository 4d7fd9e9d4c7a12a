//! Source of choices. Every random decision of a generator is drawn from here, is recorded, and can
//! be replayed or mutated: a failing case shrinks by shrinking its recorded choice sequence.

pub struct Src {
    state: u64,
    replay: Option<Vec<u32>>,
    pub rec: Vec<u32>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Src {
    pub fn seeded(seed: u64, prop: &str, case: u64) -> Src {
        let mut s = seed ^ hash_str(prop).rotate_left(17);
        splitmix(&mut s);
        s ^= case.wrapping_mul(0xD1B54A32D192ED03);
        splitmix(&mut s);
        Src { state: s, replay: None, rec: vec![] }
    }
    pub fn replay(choices: Vec<u32>) -> Src {
        Src { state: 0, replay: Some(choices), rec: vec![] }
    }
    /// uniform in 0..n; 0 is by convention the simplest choice
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1);
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).map(|v| *v as usize % n).unwrap_or(0),
            None => (splitmix(&mut self.state) % n as u64) as usize,
        };
        self.rec.push(v as u32);
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; false is the simplest
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let v = self.below(den);
        v >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn s(&mut self, xs: &[&str]) -> String {
        self.pick(xs).to_string()
    }
    /// weighted index
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
    pub fn shuffle<T>(&mut self, xs: &mut Vec<T>) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            // choice 0 leaves order unchanged
            xs.swap(i, i - j);
        }
    }
}
