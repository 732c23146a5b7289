//! The one source of randomness: a seeded PRNG, and the recorded choice stream
//! through which the scheduler draws from it.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// 0..n (0 if n is 0)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi + 1 - lo)
    }
    /// true in `num` out of `den` cases
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        if total == 0 {
            return 0;
        }
        let mut v = self.next() % total;
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        0
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93));
    r.next()
}

/// Order-sensitive 64-bit hash (FNV-1a with a finaliser).
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
pub struct Hash(pub u64);
impl Default for Hash {
    fn default() -> Self {
        Hash(0xcbf2_9ce4_8422_2325)
    }
}
impl Hash {
    pub fn add(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x0100_0000_01b3);
        }
        self.0 ^= self.0 >> 29;
    }
    pub fn add_u64(&mut self, v: u64) {
        self.add(&v.to_le_bytes())
    }
    pub fn of(bytes: &[u8]) -> u64 {
        let mut h = Hash::default();
        h.add(bytes);
        h.0
    }
}

/// Every decision of the scheduler. Either drawn (and recorded), or replayed;
/// a replay which runs out of recorded choices takes the first option, which
/// is always the most sequential one.
pub struct Choices {
    rng: Option<Rng>,
    list: Vec<u32>,
    pos: usize,
    pub rec: Vec<u32>,
}

impl Choices {
    pub fn seeded(seed: u64) -> Self {
        Choices {
            rng: Some(Rng::new(seed)),
            list: vec![],
            pos: 0,
            rec: vec![],
        }
    }
    pub fn replay(list: Vec<u32>) -> Self {
        Choices {
            rng: None,
            list,
            pos: 0,
            rec: vec![],
        }
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        if w.len() <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => r.weighted(w),
            None => (self.list.get(self.pos).copied().unwrap_or(0) as usize).min(w.len() - 1),
        };
        self.pos += 1;
        self.rec.push(v as u32);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => r.below(n),
            None => (self.list.get(self.pos).copied().unwrap_or(0) as usize).min(n - 1),
        };
        self.pos += 1;
        self.rec.push(v as u32);
        v
    }
}
