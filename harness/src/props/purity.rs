//! C24: answers are functions of the bytes and arguments given, and of nothing else.

use super::grep::{go10, go11};
use super::pipes::{pipe_case, PipeCase};
use super::reading::*;
use super::util::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use matchit::fromgenerator::FromAdaptFnCall;
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::{partition_from, ContainedBySearch, FromBytesReadableTrait, TIterator};
use proptest::collection::vec;
use proptest::prelude::*;
use rapiddlt::dlt_v1::{dltit, DltStorageEntry};
use serde::{Deserialize, Serialize};

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C24",
        rule: "surroundings: the slice holds a record and has bytes of a record cut off at one of its ends; at the same time: at least two tasks with results, taking turns at least three times (threads: running in different threads)",
        assumptions: &["threads are scheduled by the system: schedules of threads are sampled, not chosen"],
        parts: vec![part(Around(Kind::Dlt)), part(Around(Kind::Rec)), part(Around(Kind::Rec1)), part(Around(Kind::RecL)), part(Turns { threads: false }), part(Turns { threads: true })],
    }]
}

// ---------------------------------------------------------------- what lies around the slice

struct Around(Kind);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AroundCase {
    whole: B,
    /// what was in the same memory before
    earlier: B,
    from: Off,
    len: Off,
    start: Off,
    place: u8,
    num: u16,
    pat: Pat,
}

/// Memory with inaccessible pages in front and behind.
struct Guarded(*mut u8);
const ROOM: usize = 1 << 18;
const PAGE: usize = 4096;

impl Guarded {
    fn new() -> Guarded {
        use libc::*;
        unsafe {
            let p = mmap(std::ptr::null_mut(), ROOM + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            assert!(p != MAP_FAILED && mprotect(p.add(PAGE), ROOM, PROT_READ | PROT_WRITE) == 0, "HARNESS: no guarded memory");
            Guarded(p.add(PAGE) as *mut u8)
        }
    }
    /// A copy that ends, or begins, at an inaccessible page.
    fn put(&self, b: &[u8], at_end: bool) -> &'static [u8] {
        let at = if at_end { ROOM - b.len() } else { 0 };
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(at), b.len());
            // stays mapped as long as the process lives, and is used by one case at a time
            std::slice::from_raw_parts(self.0.add(at), b.len())
        }
    }
}

thread_local! {
    static GUARDED: Guarded = Guarded::new();
}

impl Part for Around {
    type Case = AroundCase;
    fn name(&self) -> &'static str {
        match self.0 {
            Kind::Dlt => "surroundings",
            Kind::Rec => "surroundings-other-record-type",
            Kind::Rec1 => "surroundings-one-byte-marker",
            Kind::RecL => "surroundings-long-marker",
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<AroundCase> {
        let kind = self.0;
        let whole = if kind == Kind::Dlt { soup(Style::SMALL) } else { rec_soup().prop_map(move |b| kind.convert(b)).boxed() };
        let cut = || prop_oneof![1 => Just(Off::Frac(0)), 3 => off(), 3 => (any::<u8>(), any::<u8>()).prop_map(|(i, d)| Off::Marker(i, d % 30)), 1 => Just(Off::Past(0))];
        (whole.clone(), whole, cut(), cut(), off(), 0u8..5, 1u16..40, pat(true)).prop_map(|(whole, earlier, from, len, start, place, num, pat)| AroundCase { whole, earlier: if place == 4 && num % 2 == 0 { earlier } else { B(vec![]) }, from, len, start, place, num, pat: Pat::Group(Box::new(pat)) }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        self.0.share(if tier == Tier::Quick { 60_000 } else { 2_000_000 })
    }
    fn check(&self, c: &AroundCase, cx: &mut Cx) -> Outcome {
        by_kind!(self.0, F => around::<F>(c, cx))
    }
}

fn around<F: Format + for<'x> Form<'x>>(c: &AroundCase, cx: &mut Cx) -> Outcome {
    let w = &c.whole.0;
    let (x, y) = (c.from.of::<F>(w).min(w.len()), c.len.of::<F>(w).min(w.len()));
    let part = &w[x.min(y)..x.max(y)];
    let place = if part.len() > ROOM { 0 } else { c.place };
    let b: &[u8] = match place {
        0 => part,
        1 => GUARDED.with(|g| g.put(part, true)),
        2 => GUARDED.with(|g| g.put(part, false)),
        3 => &part.to_vec(),
        _ => {
            let mut before = c.earlier.0.clone();
            if before.is_empty() {
                // the same bytes without one of the patterns
                before = part.to_vec();
                let marks = markers::<F>(part);
                if !marks.is_empty() {
                    before[marks[c.num as usize % marks.len()]] = b'.';
                }
                cx.label("in memory used before for nearly the same bytes");
            }
            before.resize(part.len(), b'.');
            let mut memory = before.clone();
            entries::<F>(&memory, c, &mut None).map_err(|e| format!("{e} (first use of the memory)"))?;
            // each question to the one and to the other, and the other way round
            for turn in 0..2 {
                let mut at = Some(0);
                while let Some(i) = at {
                    for b in if turn == 0 { [&before[..], part] } else { [part, &before[..]] } {
                        memory.copy_from_slice(b);
                        at = Some(i);
                        entries::<F>(&memory, c, &mut at).map_err(|e| format!("{e} (in memory that held other bytes before)"))?;
                    }
                }
            }
            memory.copy_from_slice(part);
            &{ memory }
        }
    };
    cx.label(["in place, inside a larger buffer", "in front of an inaccessible page", "behind an inaccessible page", "by itself", "in memory used before"][place as usize]);
    let all = scan::<F>(w, 0);
    let cut = |p: usize| all.iter().any(|m| m.0 < p && p < m.0 + m.1);
    cx.nontrivial_if(place != 3 && !scan::<F>(b, 0).is_empty() && (cut(x) || cut(y)));
    entries::<F>(b, c, &mut None)
}

/// Every entry point on the buffer, or only one of them, followed by the next one's number.
fn entries<F: Format + for<'x> Form<'x>>(b: &[u8], c: &AroundCase, only: &mut Option<usize>) -> Outcome {
    let start = c.start.of::<F>(b);
    let mut sub = Cx::default();
    let msgs = scan::<F>(b, 0);
    let re = c.pat.re();
    let ranges: Vec<(usize, usize)> = msgs.iter().flat_map(|m| [(m.0 + 1, m.0 + m.1), (m.0 + m.1 - 1, m.0 + m.1 + 1), (m.0, m.0 + m.1)]).chain([(start, start.saturating_add(1)), (b.len().saturating_sub(1), b.len())]).collect();
    if let Some(i) = *only {
        *only = Some(i + 1);
        return match i {
            0 => check_reading::<F>(b, start),
            1 => check_forward::<F>(b, start),
            2 => check_backward::<F>(b, start),
            3 => c09::<F>(b, start, &mut sub),
            4 => go10::<F, _>(b, &re, start, &mut sub, || GrepIterator::<<F as Form>::T>::new(&re, b, start)),
            5 => go11::<F, _>(b, &re, start, &mut sub, || RegExMatcherIterator::<<F as Form>::T>::new(&re, b, start)),
            6 => super::containers::c05::<F>(b, partition_from::<<F as Form>::T>(b, c.num as usize), c.num as usize, &mut sub),
            // the same ranges for both, as they come from the length
            7..=14 if !b.is_empty() => {
                let x = (c.num as usize * 7 + (i - 7) * b.len() / 8) % b.len();
                super::containers::check_ranges::<F>(b, &msgs, vec![(x, x + 1 + i % 3)], &mut sub)
            }
            _ => {
                *only = None;
                Ok(())
            }
        };
    }
    check_reading::<F>(b, start)?;
    check_forward::<F>(b, start)?;
    check_backward::<F>(b, start)?;
    c09::<F>(b, start, &mut sub)?;
    super::containers::c05::<F>(b, partition_from::<<F as Form>::T>(b, c.num as usize), c.num as usize, &mut sub)?;
    super::containers::check_ranges::<F>(b, &msgs, ranges, &mut sub)?;
    go10::<F, _>(b, &re, start, &mut sub, || GrepIterator::<<F as Form>::T>::new(&re, b, start))?;
    go11::<F, _>(b, &re, start, &mut sub, || RegExMatcherIterator::<<F as Form>::T>::new(&re, b, start))?;
    if F::MARKER == MARK {
        for (o, e) in ReadFallbackIterator::<DltStorageEntry>::new(b, 0) {
            super::fields::fields_of(&e, b, o, e.len())?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- what else goes on

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Read,
    Strict,
    Forward,
    Backward,
    Grep,
    Capture,
    Contained,
    Partition,
    Fields,
    Groups,
    Pipe,
}

const OPS: [Op; 11] = [Op::Read, Op::Strict, Op::Forward, Op::Backward, Op::Grep, Op::Capture, Op::Contained, Op::Partition, Op::Fields, Op::Groups, Op::Pipe];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Task {
    /// 0 DLT, 1.. the other record types
    kind: u8,
    buf: u8,
    op: Op,
    start: Off,
    pat: Pat,
    pipe: Option<PipeCase>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TurnCase {
    bufs: Vec<B>,
    tasks: Vec<Task>,
    turns: Vec<u8>,
}

/// Container searches that all tasks of a kind have in common.
struct Common<'a> {
    dlt: ContainedBySearch<DltStorageEntry<'a>>,
    rec: ContainedBySearch<Rec<'a>>,
    rec1: ContainedBySearch<Rec1<'a>>,
    recl: ContainedBySearch<RecL<'a>>,
}

impl Common<'_> {
    fn new() -> Self {
        Common { dlt: ContainedBySearch::new(), rec: ContainedBySearch::new(), rec1: ContainedBySearch::new(), recl: ContainedBySearch::new() }
    }
}

type Stream<'a> = Box<dyn Iterator<Item = String> + 'a>;

fn kind_of(t: &Task) -> Kind {
    [Kind::Dlt, Kind::Rec, Kind::Rec1, Kind::RecL][t.kind as usize % 4]
}

/// The bytes a task works on.
fn buffer(t: &Task, bufs: &[B]) -> Vec<u8> {
    let b = bufs[t.buf as usize % bufs.len()].clone();
    if t.kind % 4 == 0 {
        b.0
    } else {
        kind_of(t).convert(b).0
    }
}

/// A task as results one by one.
fn stream<'a>(t: &'a Task, b: &'a [u8], common: &'a Common<'a>) -> Stream<'a> {
    match (t.op, &t.pipe) {
        (Op::Pipe, Some(p)) => return Box::new(super::pipes::pipe_stream(p)),
        (Op::Fields, _) => return Box::new(dltit(b).map(|e| format!("{:?} {:?} {:?} {:?}", e.dlt.ecu_id(), e.dlt.timestamp(), e.dlt.payload(), e.dlt.extended_header()))),
        (Op::Groups, _) => {
            let at = b.as_ptr() as usize;
            return Box::new(dltit(b).groupby(|a: &DltStorageEntry, b: &DltStorageEntry| b.storage_header.secs.get() >= a.storage_header.secs.get()).map(move |(x, y)| format!("{}..{}", x.storage_header as *const _ as usize - at, y.storage_header as *const _ as usize - at)));
        }
        _ => (),
    }
    match kind_of(t) {
        Kind::Dlt => records::<Dlt>(t, b, &common.dlt),
        Kind::Rec => records::<RecF>(t, b, &common.rec),
        Kind::Rec1 => records::<Rec1F>(t, b, &common.rec1),
        Kind::RecL => records::<RecLF>(t, b, &common.recl),
    }
}

fn records<'a, F: Form<'a>>(t: &'a Task, b: &'a [u8], search: &'a ContainedBySearch<F::T>) -> Stream<'a> {
    let s = t.start.of::<F>(b);
    let show = |x: (usize, F::T)| format!("{}+{}", x.0, x.1.len());
    match t.op {
        Op::Strict => Box::new(ReadIterator::<F::T>::new(b, s).map(show)),
        Op::Forward => Box::new(<SearchIterator<F::T> as TIterator>::new(b, s).map(show)),
        Op::Backward => Box::new(<RevSearchIterator<F::T> as TIterator>::new(b, b.len() - s.min(b.len())).map(show)),
        Op::Grep => Box::new(GrepIterator::<F::T>::new(&t.pat.re(), b, s).map(show)),
        Op::Capture => Box::new(RegExMatcherIterator::<F::T>::new(&t.pat.re(), b, s).map(|x| format!("{x:?}"))),
        Op::Contained => Box::new((0..16).map(move |i| {
            let at = (s.min(b.len()) + i * b.len() / 16).min(b.len());
            search.contained_by(b, (at, at + 1 + i % 5)).map_or("none".into(), show)
        })),
        Op::Partition => {
            let mut at = 0;
            Box::new((1..6).flat_map(move |n| partition_from::<F::T>(b, n * n)).map(move |p| {
                at += p.len();
                format!("..{at} {}", p.as_ptr() as usize - b.as_ptr() as usize)
            }))
        }
        _ => Box::new(ReadFallbackIterator::<F::T>::new(b, s).map(show)),
    }
}

/// What the reference model says about a task, where it says all.
fn expected(t: &Task, b: &[u8]) -> Option<Vec<String>> {
    by_kind!(kind_of(t), F => {
        let s = t.start.of::<F>(b);
        let list = match t.op {
            Op::Read | Op::Forward => scan::<F>(b, s),
            Op::Strict => strict::<F>(b, s),
            Op::Backward => images::<F>(b).into_iter().filter(|m| m.0 + F::MARKER.len() <= b.len() - s.min(b.len())).rev().collect(),
            _ => return None,
        };
        Some(list.into_iter().map(|m| format!("{}+{}", m.0, m.1)).collect())
    })
}

fn task(bufs: u8) -> BoxedStrategy<Task> {
    let p = prop_oneof![3 => pat(true), 2 => prop::sample::select(vec!["H", "Hello World", "o", "World", "l"]).prop_map(|s| Pat::Lit(s.into()))];
    let start = prop_oneof![3 => Just(Off::Frac(0)), 1 => off()];
    (prop_oneof![2 => Just(0u8), 3 => 0u8..4], 0..bufs, prop::sample::select(OPS.to_vec()), start, p)
        .prop_flat_map(|(kind, buf, op, start, pat)| {
            let pipe = if op == Op::Pipe { pipe_case(3, 10).prop_map(Some).boxed() } else { Just(None).boxed() };
            // the buffers of these are DLT buffers
            let kind = if matches!(op, Op::Fields | Op::Groups) { 0 } else { kind };
            pipe.prop_map(move |pipe| Task { kind, buf, op, start: start.clone(), pat: Pat::Group(Box::new(pat.clone())), pipe })
        })
        .boxed()
}

struct Turns {
    threads: bool,
}

impl Part for Turns {
    type Case = TurnCase;
    fn name(&self) -> &'static str {
        if self.threads {
            "threads"
        } else {
            "taking-turns"
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<TurnCase> {
        let mixed = prop_oneof![
            3 => log(Style::SMALL, 7).prop_map(|l| lay_out(&l).bytes),
            2 => soup(Style::SMALL).prop_map(|b| b.0),
            3 => rec_soup().prop_map(|b| b.0),
        ];
        // logs with records of the other types in them, as either of them
        let buf = vec(mixed, 1..3).prop_map(|v| B(v.concat()));
        let n = if self.threads { 0 } else { 60 };
        vec(buf, 1..4)
            .prop_flat_map(move |bufs| {
                let k = bufs.len() as u8;
                (Just(bufs), vec(task(k), 2..6), vec(any::<u8>(), 0..=n)).prop_map(|(bufs, tasks, turns)| TurnCase { bufs, tasks, turns })
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match (self.threads, tier) {
            (false, Tier::Quick) => 60_000,
            (true, Tier::Quick) => 8_000,
            (false, _) => 1_500_000,
            (true, _) => 200_000,
        }
    }
    fn check(&self, c: &TurnCase, cx: &mut Cx) -> Outcome {
        let bufs: Vec<Vec<u8>> = c.tasks.iter().map(|t| buffer(t, &c.bufs)).collect();
        let usable: Vec<usize> = (0..c.tasks.len()).filter(|i| !matches!(c.tasks[*i].op, Op::Grep | Op::Capture) || regex::bytes::Regex::new(&c.tasks[*i].pat.re()).is_ok()).collect();
        let alone = |i: usize| -> Result<Vec<String>, String> {
            let common = Common::new();
            drive(stream(&c.tasks[i], &bufs[i], &common), 20 * bufs[i].len() + 9999, "task alone")
        };
        let want: Vec<Vec<String>> = usable.iter().map(|i| alone(*i)).collect::<Result<_, _>>()?;
        for (k, i) in usable.iter().enumerate() {
            if let Some(w) = expected(&c.tasks[*i], &bufs[*i]) {
                ensure(w == want[k], || format!("{:?} of {:?} gives {:?}, expected {w:?}", c.tasks[*i].op, kind_of(&c.tasks[*i]), want[k]))?;
            }
        }
        let busy = want.iter().filter(|w| w.len() >= 2).count();
        if self.threads {
            cx.nontrivial_if(busy >= 2);
            let barrier = std::sync::Barrier::new(usable.len());
            let got: Vec<Result<Vec<Vec<String>>, String>> = std::thread::scope(|s| {
                let hs: Vec<_> = usable
                    .iter()
                    .map(|i| {
                        let (barrier, alone) = (&barrier, &alone);
                        s.spawn(move || {
                            barrier.wait();
                            (0..4).map(|_| alone(*i)).collect()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked in its thread".into()))).collect()
            });
            for (k, i) in usable.iter().enumerate() {
                let t = &c.tasks[*i];
                for g in got[k].as_ref().map_err(|e| format!("{:?} of {:?}: {e}", t.op, kind_of(t)))? {
                    ensure(*g == want[k], || format!("{:?} of {:?} gives {:?} with other threads at work, {:?} alone", t.op, kind_of(t), g, want[k]))?;
                }
            }
            return Ok(());
        }
        let mut ends = vec![];
        let got = {
            let common = Common::new();
            let mut streams: Vec<Stream> = usable.iter().map(|i| stream(&c.tasks[*i], &bufs[*i], &common)).collect();
            let mut got: Vec<Vec<String>> = vec![vec![]; streams.len()];
            let mut last = usize::MAX;
            let mut switches = 0;
            // by turns as given, then round and round
            let mut order = c.turns.iter().map(|x| *x as usize).chain(0..);
            let mut open: Vec<usize> = (0..streams.len()).collect();
            while !open.is_empty() {
                let j = order.next().unwrap() % open.len();
                let k = open[j];
                switches += (k != last) as usize;
                last = k;
                match streams[k].next() {
                    Some(x) => got[k].push(x),
                    None => {
                        open.remove(j);
                        ends.push(k);
                    }
                }
                let many = got[k].len() > want[k].len() + 9;
                ensure(!many, || format!("{:?} does not come to its end while others are at work", c.tasks[usable[k]].op))?;
            }
            cx.nontrivial_if(busy >= 2 && switches >= 4);
            got
        };
        for (k, i) in usable.iter().enumerate() {
            let t = &c.tasks[*i];
            ensure(got[k] == want[k], || format!("{:?} of {:?} gives {:?} while others are at work, {:?} alone", t.op, kind_of(t), got[k], want[k]))?;
            cx.label(match t.op {
                Op::Pipe => "pipeline",
                Op::Grep | Op::Capture => "search for a pattern",
                Op::Contained | Op::Partition => "container, partitions",
                _ => "reading",
            });
        }
        // and once more, in another order
        for k in ends {
            let again = alone(usable[k])?;
            ensure(again == want[k], || format!("{:?} gives {again:?} the second time, {:?} the first", c.tasks[usable[k]].op, want[k]))?;
        }
        Ok(())
    }
}
