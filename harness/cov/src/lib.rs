//! Receives the coverage counters of instrumented code (LLVM's sancov pass, see ../rustc-wrap.sh). A crate of its own,
//! so that it is not instrumented itself. Without instrumentation nothing registers and `on()` is false.
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering::Relaxed};

static START: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static LEN: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    START.store(start, Relaxed);
    LEN.store(stop as usize - start as usize, Relaxed);
}

pub fn on() -> bool {
    LEN.load(Relaxed) > 0
}

fn counters() -> &'static mut [u8] {
    if !on() {
        return &mut [];
    }
    // other threads may count at the same time: a lost count does no harm
    unsafe { std::slice::from_raw_parts_mut(START.load(Relaxed), LEN.load(Relaxed)) }
}

/// Counters are looked at in blocks of this size.
const BLOCK: usize = 64;

/// What was covered so far: per counter, which magnitudes of its value. Most blocks belong to code that the present
/// check never runs: only every eighth case looks at all of them, the others at those that were seen to change.
pub struct Seen {
    seen: Vec<u8>,
    /// in how many cases a counter was not 0
    pub hits: Vec<u32>,
    live: Vec<u32>,
    is_live: Vec<bool>,
    turn: u64,
}

impl Default for Seen {
    fn default() -> Self {
        let n = LEN.load(Relaxed);
        Seen { seen: vec![0; n], hits: vec![0; n], live: vec![], is_live: vec![false; n.div_ceil(BLOCK)], turn: 0 }
    }
}

impl Seen {
    fn all(&self) -> bool {
        self.turn < 300 || self.turn % 8 == 0
    }
    /// Before a case.
    pub fn reset(&mut self) {
        self.turn += 1;
        let c = counters();
        if self.all() {
            c.fill(0);
        } else {
            for b in &self.live {
                let at = *b as usize * BLOCK;
                let end = (at + BLOCK).min(c.len());
                c[at..end].fill(0);
            }
        }
    }
    /// Adds the counters' present values; the number of new (counter, magnitude) pairs, and the counter that was hit by
    /// fewest cases.
    pub fn add(&mut self) -> (usize, usize) {
        let c = counters();
        if self.all() {
            for (b, x) in c.chunks(BLOCK).enumerate() {
                if !self.is_live[b] && x.iter().fold(0, |a, b| a | b) != 0 {
                    self.is_live[b] = true;
                    self.live.push(b as u32);
                }
            }
        }
        let mut new = 0;
        let mut rare = (u32::MAX, 0);
        for b in &self.live {
            let at = *b as usize * BLOCK;
            let end = (at + BLOCK).min(c.len());
            for (i, (c, s)) in c[at..end].iter().zip(&mut self.seen[at..end]).enumerate() {
                if *c == 0 {
                    continue;
                }
                let h = &mut self.hits[at + i];
                *h += 1;
                rare = rare.min((*h, at + i));
                let m = match *c {
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                if m & !*s != 0 {
                    *s |= m;
                    new += 1;
                }
            }
        }
        (new, rare.1)
    }
}
