//! Deterministic random numbers (splitmix64-seeded xoshiro256**). Every case
//! of every check draws from `Rng::for_case(seed, property, index)`.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }

    pub fn for_case(seed: u64, prop: &str, idx: u64) -> Rng {
        let mut h = Hash::new();
        h.bytes(prop.as_bytes());
        h.u64(seed);
        h.u64(idx);
        Rng::new(h.get())
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }

    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// uniform in [0,1)
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }

    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }

    /// log-uniform in [lo, hi)
    pub fn log(&mut self, lo: f64, hi: f64) -> f64 {
        (self.uni(lo.ln(), hi.ln())).exp()
    }

    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }

    pub fn sign(&mut self) -> f64 {
        if self.chance(0.5) { 1.0 } else { -1.0 }
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }

    /// a unit vector, uniform on the sphere
    pub fn dir(&mut self) -> [f64; 3] {
        let z = self.uni(-1.0, 1.0);
        let a = self.uni(0.0, 2.0 * std::f64::consts::PI);
        let r = (1.0 - z * z).sqrt();
        [r * a.cos(), r * a.sin(), z]
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.usize(i + 1);
            xs.swap(i, j);
        }
    }
}

/// FNV-style 64-bit hash with a final mix; used to count distinct cases.
pub struct Hash(u64);

impl Hash {
    pub fn new() -> Hash {
        Hash(0xcbf29ce484222325)
    }
    pub fn u64(&mut self, x: u64) {
        let mut y = self.0 ^ x;
        self.0 = splitmix(&mut y);
    }
    pub fn f64(&mut self, x: f64) {
        self.u64(x.to_bits())
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.u64(u64::from_le_bytes(w) ^ (c.len() as u64).rotate_left(56));
        }
        self.u64(b.len() as u64);
    }
    pub fn get(&self) -> u64 {
        self.0
    }
}
