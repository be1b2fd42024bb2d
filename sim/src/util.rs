use std::hash::Hasher;
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x6a09e667f3bcc909); r.next(); r }
    /// An independent stream for (seed, a, b).
    pub fn derive(seed: u64, a: &str, b: u64) -> Rng {
        let mut h = Fnv::default();
        h.write(a.as_bytes());
        h.write_u64(b);
        h.write_u64(seed);
        Rng::new(h.finish())
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, a: usize, b: usize) -> bool { self.below(b) < a }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

pub struct Fnv(u64);
impl Default for Fnv { fn default() -> Self { Fnv(0xcbf29ce484222325) } }
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3) } }
}
pub fn hash(f: impl FnOnce(&mut Fnv)) -> u64 { let mut h = Fnv::default(); f(&mut h); h.finish() }

/// Byte strings in replay files: text if it is UTF-8, otherwise hex.
pub mod bytes {
    use serde::{Deserialize, Deserializer, Serializer, de::Error};
    pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(b) {
            Ok(t) => s.serialize_str(&format!("t:{t}")),
            Err(_) => s.serialize_str(&format!("x:{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>())),
        }
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        match s.split_at_checked(2) {
            Some(("t:", t)) => Ok(t.as_bytes().to_vec()),
            Some(("x:", t)) => (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).map_err(D::Error::custom)).collect(),
            _ => Err(D::Error::custom("bad byte string")),
        }
    }
}
