//! Deterministic generator and input shapes.
pub struct Rng(u64);
/// Integer literals that are new in /repo's sources (VERIF_LITS; none on the committed tree).
pub fn lits() -> &'static [u128] {
    static L: std::sync::OnceLock<Vec<u128>> = std::sync::OnceLock::new();
    L.get_or_init(|| std::env::var("VERIF_LITS").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect())
}
impl Rng {
    /// Now and then a value near one of those literals.
    pub fn lit(&mut self, one_in: u64) -> Option<u128> {
        let l = lits();
        if l.is_empty() || self.below(one_in) != 0 { return None }
        let v = l[self.below(l.len() as u64) as usize];
        Some(match self.below(10) { 8 => v.wrapping_add(2 + self.below(40) as u128), 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), 2 if v < 128 => 1u128 << v, 3 if v < 128 => (1u128 << v).wrapping_sub(1), 4 if v < 1 << 40 => v * [2u128, 8, 16, 32, 64, 128][self.below(6) as usize], _ => v })
    }
    /// As a length of at most `max`.
    pub fn lit_len(&mut self, one_in: u64, max: usize) -> Option<usize> { self.lit(one_in).and_then(|v| if v <= max as u128 { Some(v as usize) } else { None }) }
    pub fn new(s: u64) -> Rng { Rng(s) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 { ((self.u64() as u128) << 64) | self.u64() as u128 }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    /// A pattern biased to the ends of every width and to single bits.
    pub fn word(&mut self, bits: u32) -> u128 {
        let m = if bits == 128 { !0u128 } else { (1u128 << bits) - 1 };
        if let Some(v) = self.lit(4) { return v & m }
        let v = match self.below(10) {
            0 => 0,
            1 => m,
            2 => 1u128 << self.below(bits as u64),
            3 => (1u128 << self.below(bits as u64)).wrapping_sub(1),
            4 => !(1u128 << self.below(bits as u64)),
            5 => self.below(4) as u128,
            6 => m.wrapping_sub(self.below(4) as u128),
            7 => (m >> 1).wrapping_add(self.below(4) as u128).wrapping_sub(1),
            _ => self.u128(),
        };
        v & m
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if let Some(v) = self.lit(4) {
            let b = self.below(4) == 0;
            let mut o: Vec<u8> = (0..n).map(|_| if b { 0 } else { self.u64() as u8 }).collect();
            let w = if v < 256 { 1 } else if v < 65536 { 2 } else if v < 1 << 32 { 4 } else { 16 };
            for _ in 0..1 + self.below(3) {
                if n < w { break }
                let at = match self.below(3) { 0 => 0, 1 => n - w, _ => self.below((n - w) as u64 + 1) as usize };
                let by = v.to_le_bytes(); let be = self.bool();
                for i in 0..w { o[at + i] = by[if be { w - 1 - i } else { i }] }
            }
            return o
        }
        match self.below(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => { let b = self.u64() as u8; vec![b; n] }
            3 => { let mut v = vec![0u8; n]; if n > 0 { let i = self.below(n as u64) as usize; v[i] = 1 << self.below(8); } v }
            _ => (0..n).map(|_| self.u64() as u8).collect(),
        }
    }
    pub fn rbytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
    /// A length near a multiple of `block`, or small, or arbitrary up to `max`.
    pub fn len(&mut self, block: usize, max: usize) -> usize {
        if let Some(l) = self.lit_len(4, max.max(20_000)) { return l }
        if self.below(64) == 0 { return [100, 127, 128, 129, 254, 255, 256, 257, 258, 300, 512, 1000, 1024, 4097][self.below(14) as usize] }
        let l = match self.below(6) {
            0 => self.below(3) as usize,
            1 | 2 => { let k = self.below((max / block) as u64 + 1) as usize; (k * block + self.below(5) as usize).saturating_sub(2) }
            3 => { let k = self.below((max / block) as u64 + 1) as usize; k * block }
            _ => self.below(max as u64 + 1) as usize,
        };
        l.min(max)
    }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
