//! Small deterministic random number generator (splitmix64).
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 { z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
pub fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) } mix(h) }
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed ^ 0x9e3779b97f4a7c15)) }
    pub fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0) }
    /// uniform in 0..n
    pub fn n(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    /// uniform in a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.u64() % ((b - a) as u64 + 1)) as i64 }
    /// true with probability p percent
    pub fn p(&mut self, p: u32) -> bool { self.u64() % 100 < p as u64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.n(v.len()); &v[i] }
    /// index chosen by weight
    pub fn w(&mut self, ws: &[u32]) -> usize {
        let t: u32 = ws.iter().sum();
        if t == 0 { return 0 }
        let mut x = (self.u64() % t as u64) as u32;
        for (i, w) in ws.iter().enumerate() { if x < *w { return i } x -= w }
        unreachable!()
    }
}
