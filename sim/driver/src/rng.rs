//! Seeded random choices. Every choice the driver makes comes from one of these.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed ^ 0x5851F42D4C957F2D) }
    /// the generator of case number `i` of a property
    pub fn of(seed: u64, prop: &str, i: u64) -> Self {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in prop.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001B3); }
        h = (h ^ i).wrapping_mul(0xD6E8FEB86659FD93); h ^= h >> 32;
        let mut r = Rng(h); r.next(); r.next(); r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.us(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
    /// small numbers more often than large ones
    pub fn skew(&mut self, max: usize) -> usize { let m = self.range(0, max); self.range(0, m) }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j) } }
}
