//! Deterministic random source (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: usize) -> usize { (self.next() % k.max(1) as u64) as usize }
    /// true with probability pct/100
    pub fn p(&mut self, pct: usize) -> bool { self.n(100) < pct }
    pub fn of<T: Clone>(&mut self, v: &[T]) -> T { v[self.n(v.len())].clone() }
}
