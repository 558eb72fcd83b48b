//! Choice source: every random decision of a case goes through here, so that a case is a pure
//! function of its choice sequence; failures are shrunk on that sequence and replayed from it.

pub struct Src {
    mode: Mode,
    /// Choices actually made (value, bound).
    pub out: Vec<u32>,
    mirror: Option<*mut u32>,
    mirror_cap: usize,
    /// Start positions of operations in `out`, for structure-aware shrinking.
    pub spans: Vec<u32>,
}

enum Mode {
    Rng(u64),
    Replay(Vec<u32>, usize),
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Rng(seed), out: Vec::new(), mirror: None, mirror_cap: 0, spans: Vec::new() }
    }
    pub fn replay(v: Vec<u32>) -> Src {
        Src { mode: Mode::Replay(v, 0), out: Vec::new(), mirror: None, mirror_cap: 0, spans: Vec::new() }
    }
    /// Copy every choice to shared memory as it is made: [count, c0, c1, ..].
    pub fn mirror_to(&mut self, p: *mut u32, cap: usize) {
        unsafe { p.write_volatile(0) };
        self.mirror = Some(p);
        self.mirror_cap = cap;
    }
    fn record(&mut self, v: u32) {
        crate::alloc::untracked(|| self.out.push(v));
        if let Some(p) = self.mirror {
            let n = self.out.len();
            if n < self.mirror_cap {
                unsafe {
                    p.add(n).write_volatile(v);
                    p.write_volatile(n as u32);
                }
            }
        }
    }
    fn raw(&mut self) -> u32 {
        match &mut self.mode {
            Mode::Rng(s) => {
                *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                (mix(*s) >> 32) as u32
            }
            Mode::Replay(v, i) => {
                let r = v.get(*i).copied().unwrap_or(0);
                *i += 1;
                r
            }
        }
    }
    /// Uniform in `0..n`; smaller is simpler.
    pub fn below(&mut self, n: u32) -> u32 {
        let r = self.raw();
        let v = match self.mode {
            Mode::Rng(_) => ((r as u64 * n as u64) >> 32) as u32,
            Mode::Replay(..) => {
                if r < n {
                    r
                } else {
                    r % n
                }
            }
        };
        self.record(v);
        v
    }
    /// `lo..=hi`
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self, num: u32, den: u32) -> bool {
        // "true" is the larger choice, so shrinking moves towards false
        let v = self.below(den);
        v >= den - num
    }
    /// Index into `weights`, by weight; the recorded choice is the index itself.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let r = self.raw();
        let v = match self.mode {
            Mode::Rng(_) => {
                let mut x = ((r as u64 * total as u64) >> 32) as u32;
                let mut i = 0;
                while x >= weights[i] {
                    x -= weights[i];
                    i += 1;
                }
                i as u32
            }
            Mode::Replay(..) => {
                let mut i = r as usize % weights.len();
                // a weight of zero means the choice does not exist
                let mut guard = 0;
                while weights[i] == 0 && guard < weights.len() {
                    i = (i + 1) % weights.len();
                    guard += 1;
                }
                i as u32
            }
        };
        self.record(v);
        v as usize
    }
    pub fn span(&mut self) {
        let n = self.out.len() as u32;
        crate::alloc::untracked(|| self.spans.push(n));
    }
    pub fn u32(&mut self) -> u32 {
        let r = self.raw();
        self.record(r);
        r
    }
    pub fn exhausted(&self) -> bool {
        match &self.mode {
            Mode::Rng(_) => false,
            Mode::Replay(v, i) => *i >= v.len(),
        }
    }
}
