//! The one source of choice: SplitMix64-seeded xoshiro256**.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in &mut s {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *v = mix(x);
        }
        Rng { s }
    }
    /// Stream for case `i` of property `tag` under `seed`.
    pub fn derive(seed: u64, tag: &str, i: u64) -> Self {
        let mut h = seed;
        for b in tag.bytes() { h = mix(h ^ u64::from(b)); }
        Rng::new(mix(h ^ mix(i)))
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| (self.u64() >> 24) as u8).collect() }
    /// Small numbers favoured: a log-uniform value in 0..=max
    pub fn logu(&mut self, max: u64) -> u64 {
        if max == 0 { return 0; }
        let bits = 64 - max.leading_zeros();
        let b = self.below(u64::from(bits) + 1);
        if b == 0 { 0 } else { ((1u64 << (b - 1)) + self.below(1 << (b - 1))).min(max) }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j); } }
}
