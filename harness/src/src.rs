//! Choice source: every random decision of every generator goes through here, is recorded, and can be
//! replayed and shrunk (integrated shrinking on the recorded sequence).
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u32>,
    pos: usize,
    pub rec: Vec<u32>,
    /// soft size budget: generators stop growing when it is used up
    pub budget: i64,
}

impl Src {
    pub fn random(seed: u64, budget: i64) -> Self {
        Src { rng: Some(Rng::new(seed)), replay: vec![], pos: 0, rec: vec![], budget }
    }
    pub fn replay(choices: &[u32], budget: i64) -> Self {
        Src { rng: None, replay: choices.to_vec(), pos: 0, rec: vec![], budget }
    }
    /// uniform in 0..n (n >= 1); 0 is the simplest choice
    pub fn below(&mut self, n: u32) -> u32 {
        debug_assert!(n >= 1);
        let v = match &mut self.rng {
            Some(r) => (r.next() >> 33) as u32 % n,
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.rec.push(v);
        assert!(self.rec.len() < 5_000_000, "a generator does not stop");
        v
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability pct/100; false is the simplest choice
    pub fn chance(&mut self, pct: u32) -> bool {
        // the choice is stored inverted so that 0 means false
        self.below(100) >= 100 - pct.min(100)
    }
    /// index by weight; index 0 should be the simplest
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u32) as usize]
    }
    pub fn spend(&mut self, n: i64) -> bool {
        self.budget -= n;
        self.budget > 0
    }
    pub fn small(&self) -> bool {
        self.budget <= 0
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x1000_0000_01B3).wrapping_add(b));
    r.next()
}

/// Candidate reductions of a choice sequence, coarse to fine.
pub fn reductions(c: &[u32]) -> Vec<Vec<u32>> {
    let n = c.len();
    let mut out: Vec<Vec<u32>> = vec![];
    let mut sz = n / 2;
    while sz >= 1 {
        let mut i = 0;
        while i + sz <= n {
            let mut d = c.to_vec();
            d.drain(i..i + sz);
            out.push(d);
            i += sz.max(1);
        }
        sz /= 2;
        if out.len() > 400 {
            break;
        }
    }
    let mut sz = n / 2;
    while sz >= 2 {
        let mut i = 0;
        while i + sz <= n {
            if c[i..i + sz].iter().any(|x| *x != 0) {
                let mut d = c.to_vec();
                d[i..i + sz].iter_mut().for_each(|x| *x = 0);
                out.push(d);
            }
            i += sz;
        }
        sz /= 2;
        if out.len() > 800 {
            break;
        }
    }
    for i in 0..n {
        if c[i] != 0 {
            let mut d = c.to_vec();
            d[i] = 0;
            out.push(d);
            if c[i] > 1 {
                let mut d = c.to_vec();
                d[i] = c[i] / 2;
                out.push(d);
                let mut d = c.to_vec();
                d[i] -= 1;
                out.push(d);
            }
        }
    }
    out
}
