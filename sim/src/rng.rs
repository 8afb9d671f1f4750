//! The one PRNG every choice of a run is drawn from (splitmix64 / xoshiro256**).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash2(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b).rotate_left(17))
}

thread_local! {
    /// clients with the same program still work on different values
    pub static SALT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

impl Rng {
    pub fn salted(&mut self) -> Rng {
        let s = SALT.with(|s| s.get());
        if s == 0 { let n = Rng { s: self.s }; self.next(); n } else { Rng::new(hash2(self.next(), s)) }
    }
    pub fn new(seed: u64) -> Rng {
        let a = mix(seed);
        let b = mix(a);
        let c = mix(b);
        Rng { s: [a, b, c, mix(c) | 1] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (((self.next() >> 32) * n as u64) >> 32) as usize }
    }
    pub fn range(&mut self, lo: i64, hi_incl: i64) -> i64 {
        lo + self.below((hi_incl - lo + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|&x| x as u64).sum();
        if tot == 0 { return 0; }
        let mut r = self.next() % tot;
        for (i, &x) in w.iter().enumerate() {
            if r < x as u64 { return i; }
            r -= x as u64;
        }
        0
    }
}

/// The arguments of one schedule step, consumed in order; a missing argument reads as 0, so
/// that dropping or zeroing arguments always leaves a valid (simpler) step.
pub struct Args<'a> {
    a: &'a [u32],
    i: usize,
}

impl<'a> Args<'a> {
    pub fn new(a: &'a [u32]) -> Args<'a> {
        Args { a, i: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.a.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        let r = self.raw() as usize;
        if n == 0 { 0 } else { r % n }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        // 0 (the shrunk value) means "no"
        (self.raw() as usize) % den >= den - num
    }
    /// a sub-stream for steps that need many choices: 0 stays the simplest stream
    pub fn stream(&mut self) -> Rng {
        Rng::new(self.raw() as u64)
    }
}
