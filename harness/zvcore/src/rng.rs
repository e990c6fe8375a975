//! Deterministic generator: splitmix64-seeded xoshiro256**.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4]
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(v)).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h ^ (b.len() as u64).wrapping_mul(0x94D049BB133111EB)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn f32(&mut self) -> f32 {
        (self.u64() >> 40) as f32 / (1u64 << 24) as f32
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// A size biased to small values and to block/vector boundaries.
    pub fn dim(&mut self, max: usize) -> usize {
        let max = max.max(1);
        let v = match self.below(10) {
            0 => 1,
            1 => self.range(1, 4),
            2 | 3 => self.range(1, 20),
            4 | 5 => {
                let base = *self.pick(&[8usize, 16, 24, 32, 48, 64, 96, 128, 256]);
                let d = self.irange(-2, 2);
                (base as i64 + d) as usize
            }
            6 | 7 => self.range(1, 70.min(max)),
            _ => self.range(1, max)
        };
        v.clamp(1, max)
    }
    /// Data with a chosen texture: constant, noise, gradient, runs, repeats, extremes...
    pub fn texture(&mut self, n: usize) -> Vec<u8> {
        match self.below(9) {
            0 => vec![self.u8(); n],
            1 => self.bytes(n),
            2 => {
                let a = self.u8();
                let s = self.range(1, 7) as u8;
                (0..n).map(|i| a.wrapping_add((i as u8).wrapping_mul(s))).collect()
            }
            3 => {
                let mut v = Vec::with_capacity(n);
                while v.len() < n {
                    let b = self.u8();
                    let l = self.range(1, 300);
                    for _ in 0..l.min(n - v.len()) {
                        v.push(b)
                    }
                }
                v
            }
            4 => {
                let pl = self.range(1, 40);
                let p = self.bytes(pl);
                (0..n).map(|i| p[i % pl]).collect()
            }
            5 => {
                let k = self.range(2, 5);
                let p = self.bytes(k);
                (0..n).map(|_| p[self.below(k)]).collect()
            }
            6 => (0..n).map(|_| *self.pick(&[0u8, 0, 255, 255, 1, 254, 128, 127])).collect(),
            7 => {
                let mut cur = self.u8() as i32;
                (0..n)
                    .map(|_| {
                        cur += self.irange(-3, 3) as i32;
                        cur = cur.clamp(0, 255);
                        cur as u8
                    })
                    .collect()
            }
            _ => {
                // mixture of segments
                let mut v: Vec<u8> = Vec::with_capacity(n);
                while v.len() < n {
                    let l = self.range(1, 200).min(n - v.len());
                    match self.below(3) {
                        0 => {
                            let b = self.bytes(l);
                            v.extend(b)
                        }
                        1 => {
                            let b = self.u8();
                            v.extend(std::iter::repeat(b).take(l))
                        }
                        _ => {
                            if v.is_empty() {
                                v.push(self.u8());
                                continue;
                            }
                            let d = self.range(1, v.len());
                            for _ in 0..l {
                                let b = v[v.len() - d];
                                v.push(b)
                            }
                        }
                    }
                }
                v.truncate(n);
                v
            }
        }
    }
}
