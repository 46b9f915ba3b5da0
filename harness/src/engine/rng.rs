//! Small deterministic PRNG (splitmix64) and the content function every source serves.

#[derive(Clone, Debug)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(mix(seed ^ 0xA5A5_5A5A_0F0F_F0F0))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo { lo } else { lo + self.below(hi - lo + 1) }
    }
    /// Often one of the ends.
    pub fn edgy(&mut self, lo: u64, hi: u64) -> u64 {
        match self.below(8) {
            0 => lo,
            1 => hi,
            2 => (lo + 1).min(hi),
            _ => self.range(lo, hi),
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

/// The byte served at `pos`. Never zero, so that zero-filled storage can not pass for content,
/// and position dependent with period far above any stream length used here.
pub fn byte_at(seed: u64, pos: u64) -> u8 {
    let h = mix(seed ^ (pos >> 3).wrapping_mul(0xD6E8_FEB8_6659_FD93));
    let b = (h >> ((pos & 7) * 8)) as u8;
    if b == 0 { 0x5B } else { b }
}

pub fn fill(seed: u64, start: u64, len: usize) -> Vec<u8> {
    (0..len as u64).map(|i| byte_at(seed, start + i)).collect()
}

/// First index at which `data` differs from the content at `start`.
pub fn first_diff(seed: u64, start: u64, data: &[u8]) -> Option<usize> {
    data.iter()
        .enumerate()
        .find(|(i, b)| **b != byte_at(seed, start + *i as u64))
        .map(|(i, _)| i)
}
