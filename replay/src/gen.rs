//! Deterministic pseudo-random generation
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9abc_def1) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn chance(&mut self, n: u64) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len() as u64) as usize] }
    /// An int of the 63-bit range, of any magnitude
    pub fn int(&mut self) -> i64 {
        let bits = self.below(63);
        let x = (self.next() & ((1u64 << bits) - 1).max(1)) as i64;
        wrap(if self.bool() { -x } else { x } as i128)
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) { for i in (1..xs.len()).rev() { xs.swap(i, self.below(i as u64 + 1) as usize) } }
}

pub const MAX: i64 = (1 << 62) - 1;
pub const MIN: i64 = -(1 << 62);

/// Reduction of a mathematical integer to 63 bits
pub fn wrap(x: i128) -> i64 { (((x as i64) << 1) >> 1) as i64 }

/// Source text of an int
pub fn lit(x: i64) -> String {
    if x == MIN { format!("(-{} - 1)", MAX) } else if x < 0 { format!("(-{})", -x) } else { x.to_string() }
}

/// Interesting ints
pub fn edges() -> Vec<i64> {
    let mut v = vec![0, 1, 2, 3, 5, 7, 10, 31, 32, 33, 61, 62, 63, 64, 65, 100, 255, 256, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, (1 << 53) + 1, 1 << 61, MAX - 1, MAX];
    for i in 0..v.len() { v.push(-v[i]); }
    v.push(MIN); v.push(MIN + 1);
    v.sort(); v.dedup();
    v
}
