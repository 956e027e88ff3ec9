//! Choice tapes: every random decision of a case is one entry of a tape, so a case can be
//! replayed and shrunk by editing the tape (the way Hypothesis does it).

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(32) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next() ^ r.next().rotate_left(17)
}

/// Source of choices. In random mode choices are drawn and recorded, in replay mode they are
/// read back from the tape; a tape that is exhausted yields zeros, the simplest choice.
pub struct Src {
    pub tape: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    /// tape positions at which a repetition (operation) starts
    pub marks: Vec<usize>,
    /// every choice is also appended to this file, for cases that crash the process
    file: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::with_capacity(256), pos: 0, rng: Some(Rng::new(seed)), marks: Vec::new(), file: None }
    }
    pub fn replay(tape: Vec<u32>) -> Self {
        Src { tape, pos: 0, rng: None, marks: Vec::new(), file: None }
    }
    pub fn exhausted(&self) -> bool {
        self.rng.is_none() && self.pos >= self.tape.len()
    }
    pub fn used(&self) -> &[u32] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    fn raw(&mut self, draw: impl FnOnce(&mut Rng) -> u32, n: u32) -> u32 {
        let v = match &mut self.rng {
            Some(rng) => {
                let v = draw(rng) % n;
                self.tape.push(v);
                v
            }
            None => self.tape.get(self.pos).copied().unwrap_or(0) % n,
        };
        self.pos += 1;
        if let Some(f) = &mut self.file {
            use std::io::Write;
            let _ = writeln!(f, "{v}");
        }
        v
    }
    pub fn journal(&mut self, path: &str) {
        self.file = Some(std::fs::File::create(path).expect("journal"));
    }
    /// in 0..n, drawn by `f` when generating
    pub fn decide(&mut self, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        self.raw(f, n)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        self.raw(|r| (((r.next() >> 32) * n as u64) >> 32) as u32, n)
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; the simplest choice is false
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.raw(|r| (((((r.next() >> 32) * den as u64) >> 32) as u32) < num) as u32, 2) == 1
    }
    /// index into `w` with probability proportional to the weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let n = w.len() as u32;
        let pick = self.raw(
            |r| {
                let total: u64 = w.iter().map(|&x| x as u64).sum();
                let mut t = ((r.next() >> 32) * total) >> 32;
                for (i, &x) in w.iter().enumerate() {
                    if t < x as u64 {
                        return i as u32;
                    }
                    t -= x as u64;
                }
                0
            },
            n,
        ) as usize;
        // an edited tape may select a forbidden alternative: use the first allowed one
        if w[pick] == 0 {
            return w.iter().position(|&x| x != 0).unwrap_or(0);
        }
        pick
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u32) as usize]
    }
    /// a plan for the number of repetitions, not recorded on the tape
    pub fn plan(&mut self, lo: u32, hi: u32) -> u32 {
        match &mut self.rng {
            Some(r) => lo + (((r.next() >> 32) * (hi - lo + 1) as u64) >> 32) as u32,
            None => u32::MAX,
        }
    }
    /// one more repetition? `done` of `plan` are done
    pub fn more(&mut self, done: u32, plan: u32) -> bool {
        if self.exhausted() {
            return false;
        }
        self.marks.push(self.pos);
        let want = (done < plan) as u32;
        self.raw(|_| want, 2) == 1
    }
}
