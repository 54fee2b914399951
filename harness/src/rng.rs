//! Small deterministic PRNG (splitmix64 seeded xoshiro256**), used for every
//! random choice so that a case is reproduced from its 64-bit seed alone.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut x)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in s {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h, s.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)],
        }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// A 128-bit pattern biased to boundaries: small numbers, powers of two
    /// and their neighbours, 7-bit boundaries, all ones, random bits.
    pub fn edge_bits(&mut self) -> u128 {
        match self.below(8) {
            0 => self.below(4) as u128,
            1 => {
                let s = self.below(128);
                let base = 1u128 << s;
                match self.below(3) {
                    0 => base,
                    1 => base.wrapping_sub(1),
                    _ => base.wrapping_add(1),
                }
            }
            2 => {
                let s = 7 * self.range(1, 18);
                let base = 1u128 << s;
                match self.below(3) {
                    0 => base,
                    1 => base.wrapping_sub(1),
                    _ => base.wrapping_add(1),
                }
            }
            3 => u128::MAX.wrapping_sub(self.below(3) as u128),
            4 => {
                let bits = self.range(1, 128);
                self.u128() >> (128 - bits)
            }
            5 => {
                // sign boundaries of each width
                let w = *self.pick(&[8usize, 16, 32, 64, 128]);
                let base = 1u128 << (w - 1);
                base.wrapping_add(self.below(5) as u128).wrapping_sub(2)
            }
            6 => self.below(300) as u128,
            _ => self.u128(),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// Small collection length, mostly 0..=4, sometimes up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(10) {
            0 => 0,
            1..=6 => self.below(max.min(4) + 1),
            _ => self.below(max + 1),
        }
    }
}
