//! Coverage guidance: the choices a strategy made for a case (the bytes it drew) are kept if the case took branches, or
//! took them in other magnitudes, that no case before did. New cases come from changed choices. The same strategies and
//! the same checks as in random generation, so every case is one that random generation could give as well.

/// xorshift*, seeded per case.
pub struct Rnd(pub u64);

impl Rnd {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 32) * n as u64 >> 32) as usize
    }
}

/// Choices longer than this are neither kept nor made.
pub const MAX_CHOICES: usize = 1 << 18;

#[derive(Default)]
pub struct Corpus {
    pub seen: Option<cov::Seen>,
    /// choices, and the counter they hit that is hit by fewest cases
    entries: Vec<(Vec<u8>, usize)>,
    cases: u64,
    /// CPU time of all cases so far, in ns.
    pub spent: u64,
}

/// Of this thread, in ns.
pub fn cpu_time() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

impl Corpus {
    pub fn len(&self) -> usize {
        self.entries.len()
    }
    pub fn add(&mut self, choices: Vec<u8>, rare: usize) {
        if choices.len() <= MAX_CHOICES && !choices.is_empty() {
            self.entries.push((choices, rare));
        }
    }
    /// The case that began at CPU time t0 took not much longer than cases do on average.
    pub fn cheap(&self, t0: u64) -> bool {
        self.cases < 50 || cpu_time() - t0 < 4 * self.spent / self.cases
    }
    pub fn spend(&mut self, t0: u64) {
        self.cases += 1;
        self.spent += cpu_time() - t0;
    }
    fn pick(&self, r: &mut Rnd) -> &Vec<u8> {
        let n = self.entries.len();
        let hits = |i: usize| self.seen.as_ref().map_or(0, |s| s.hits[self.entries[i].1]);
        let mut best = r.below(n);
        // what few cases reach is worth more tries; trying raises the number
        let tries = [1, 8, 32][r.below(3)];
        for _ in 1..tries {
            let i = r.below(n);
            if hits(i) < hits(best) {
                best = i;
            }
        }
        &self.entries[best].0
    }
    /// Changed choices. Draws are words of four bytes (eight for 64-bit numbers).
    pub fn mutate(&self, r: &mut Rnd) -> Vec<u8> {
        if self.entries.is_empty() {
            return vec![];
        }
        let mut v = self.pick(r).clone();
        let few = [1, 1, 3, 8][r.below(4)];
        for _ in 0..1 + r.below(few) {
            let words = v.len() / 4;
            if words == 0 {
                return v;
            }
            let at = 4 * r.below(words);
            let run = |r: &mut Rnd| {
                let most = if r.below(3) == 0 { 64 } else { 8 };
                4 * (1 + r.below(most))
            };
            match r.below(11) {
                0 | 1 => v[at..at + 4].copy_from_slice(&(r.next() as u32).to_le_bytes()),
                2 => {
                    let i = at + r.below(4);
                    v[i] = r.next() as u8;
                }
                3 => {
                    let i = at + 3 * r.below(2);
                    v[i] = v[i].wrapping_add([1, 255, 2, 254, 16, 240, 128][r.below(7)]);
                }
                4 => {
                    let x = [0u32, u32::MAX, 1, 0x8000_0000, 0x7fff_ffff, 0x4000_0000, 0xffff][r.below(7)];
                    v[at..at + 4].copy_from_slice(&x.to_le_bytes());
                }
                5 => {
                    let n = run(r).min(v.len() - at);
                    v.drain(at..at + n);
                }
                6 => {
                    let n = run(r).min(v.len() - at);
                    let c = v[at..at + n].to_vec();
                    let to = 4 * r.below(words + 1);
                    v.splice(to..to, c);
                }
                7 => {
                    let n = run(r);
                    let c: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
                    v.splice(at..at, c);
                }
                8 => {
                    let n = run(r).min(v.len() - at);
                    let c = v[at..at + n].to_vec();
                    let to = 4 * r.below(words);
                    let n = n.min(v.len() - to);
                    v[to..to + n].copy_from_slice(&c[..n]);
                }
                9 => {
                    // the rest is drawn anew
                    v.truncate(at);
                }
                _ => {
                    let o = self.pick(r);
                    let words = o.len() / 4;
                    if words > 0 {
                        let from = 4 * r.below(words);
                        let n = if r.below(2) == 0 { o.len() - from } else { run(r).min(o.len() - from) };
                        let cut = if r.below(2) == 0 { v.len() } else { (at + n).min(v.len()) };
                        v.splice(at..cut, o[from..from + n].iter().copied());
                    }
                }
            }
        }
        v.truncate(MAX_CHOICES);
        v
    }
}
