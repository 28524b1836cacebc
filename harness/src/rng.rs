//! Deterministic generator (splitmix64).
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, case: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5851F42D4C957F2D);
        r.next(); r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// inclusive range
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn byte(&mut self) -> u8 { self.next() as u8 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
    /// integers near interesting boundaries
    pub fn edgy(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(4),
            1 => 1u64 << self.below(64),
            2 => (1u64 << self.below(64)).wrapping_sub(1),
            3 => u64::MAX - self.below(3),
            4 => self.next() >> self.below(64),
            _ => self.below(300),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j); }
    }
}
