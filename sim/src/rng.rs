//! One PRNG (splitmix64-seeded xoshiro256**), and the choice tapes on which every decision of a run is recorded.
use serde::{Deserialize, Serialize};

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut s = seed ^ stream.wrapping_mul(0xd1342543de82ef95).rotate_left(17);
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 { ((self.next() as u128 * n as u128) >> 64) as u64 }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn chance(&mut self, p: f64) -> bool { p > 0.0 && self.f() < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    /// Weighted index.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.below(total);
        for (i, v) in w.iter().enumerate() {
            if x < *v as u64 { return i }
            x -= *v as u64;
        }
        w.len() - 1
    }
    /// Geometric-like with the given mean, at least 1.
    pub fn geo(&mut self, mean: u64) -> u64 {
        let u = self.f().max(1e-12);
        (1.0 + (-u.ln()) * mean as f64) as u64
    }
}

/// The recorded, non-zero choices of one decision stream: (index of the decision, value). Zero is always the
/// benign choice (no pre-emption, no fault, least delay), so shrinking a tape means dropping entries.
#[derive(Clone, Default, Serialize, Deserialize, Debug)]
pub struct TapeData(pub Vec<(u64, u64)>);

pub struct Tape {
    idx: u64,
    rng: Rng,
    replay: Option<(Vec<(u64, u64)>, usize)>,
    pub rec: Vec<(u64, u64)>,
    pub hash: u64,
}

impl Tape {
    pub fn new(seed: u64, stream: u64, replay: Option<&TapeData>) -> Tape {
        Tape { idx: 0, rng: Rng::new(seed, stream), replay: replay.map(|t| (t.0.clone(), 0)), rec: vec![], hash: 0 }
    }
    pub fn draw(&mut self, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let i = self.idx;
        self.idx += 1;
        let v = match &mut self.replay {
            None => f(&mut self.rng),
            Some((d, p)) => {
                while *p < d.len() && d[*p].0 < i { *p += 1 }
                if *p < d.len() && d[*p].0 == i { d[*p].1 } else { 0 }
            }
        };
        if v != 0 { self.rec.push((i, v)); }
        self.hash = (self.hash.rotate_left(5) ^ v).wrapping_mul(0x9e3779b97f4a7c15);
        v
    }
    /// Choice below n; 0 is the default.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { return 0 }
        self.draw(|r| r.below(n)) % n
    }
    pub fn chance(&mut self, p: f64) -> bool {
        if p <= 0.0 { return false }
        self.draw(|r| r.chance(p) as u64) != 0
    }
}
