//! The only source of randomness: splitmix64 / xoshiro256**, seeded per run.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9e3779b97f4a7c15);
            *v = mix(x);
        }
        Rng { s }
    }
    /// The seed of run `idx` of a batch.
    pub fn for_run(seed: u64, salt: u64, idx: u64) -> Self {
        Rng::new(mix(mix(seed) ^ mix(salt.wrapping_mul(0x51_7cc1b727220a95)) ^ mix(idx + 0x1234)))
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// An immediate biased towards the boundaries of the encodings.
    pub fn imm(&mut self, bits: u32) -> i64 {
        let max = if bits >= 64 { i64::MAX } else { (1i64 << (bits - 1)) - 1 };
        let min = -max - 1;
        let v = match self.below(8) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => *self.pick(&[127, 128, -128, -129, 255, 256]),
            4 => *self.pick(&[32767, 32768, -32768, -32769, 65535]),
            5 => *self.pick(&[i32::MAX as i64, i32::MIN as i64]),
            6 => self.range(-200, 200),
            _ => self.next() as i64,
        };
        if v < min || v > max {
            if bits == 64 {
                v
            } else {
                // fold into the range
                ((v << (64 - bits)) >> (64 - bits)) as i64
            }
        } else {
            v
        }
    }
}
