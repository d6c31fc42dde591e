//! C23: large repetitive buffers through every entry point.

use super::reading::*;
use super::util::*;
use crate::core::*;
use crate::dict;
use crate::gen::{bytes, junk, lay_out, msg, Item, Style};
use crate::model::*;
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::{partition_from, ContainedBySearch, TIterator};
use proptest::prelude::*;
use rapiddlt::dlt_v1::{dltit, dltit_offset, DltStorageEntry};
use regex::bytes::Regex;
use serde::{Deserialize, Serialize};

pub fn all() -> Vec<Property> {
    vec![Property {
        id: "C23",
        rule: "the bytes given to the entry point are at least 200000; over 4 GiB: messages on both sides of the 4 GiB border",
        assumptions: &["every call has to end within 30 s of CPU time (100 s beyond 4 GiB) and an 8 MiB stack; patterns for the search entry points are literals or 'H.* World'"],
        parts: vec![part(C23), part(Over4G(None))],
    }]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Unit {
    /// any bytes
    Bytes(B),
    Mark,
    /// pattern and some bytes behind it
    MarkAnd(B),
    /// complete header announcing a length
    Head(u16),
    /// smallest message
    Minimal,
    /// message with a text body
    Text(String),
    /// nested message images: the k-th announces a length reaching behind the next ones
    Overlap(u16),
    /// text outside any message
    Loose(String),
    Rec(u8, B),
}

impl Unit {
    fn put(&self, v: &mut Vec<u8>) {
        match self {
            Unit::Bytes(b) => v.extend(if b.0.is_empty() { &[0][..] } else { &b.0[..] }),
            Unit::Mark => v.extend(MARK),
            Unit::MarkAnd(b) => {
                v.extend(MARK);
                v.extend(&b.0)
            }
            Unit::Head(n) | Unit::Overlap(n) => Chunk::Fake(*n).put(v),
            Unit::Minimal => Chunk::Fake(4).put(v),
            Unit::Text(t) => {
                Chunk::Fake(4 + t.len() as u16).put(v);
                v.extend(t.as_bytes())
            }
            Unit::Loose(t) => v.extend(if t.is_empty() { b"." } else { t.as_bytes() }),
            Unit::Rec(n, b) => {
                v.extend([b'#', b'>', *n]);
                v.extend(&b.0)
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BigCase {
    front: B,
    units: Vec<Unit>,
    /// total size in KiB the units are repeated up to
    kib: u16,
    back: B,
    pattern: u8,
    op: Op,
    num: u16,
    at: u16,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Read,
    Strict,
    Forward,
    Backward,
    Grep,
    Capture,
    Contained,
    Partition,
    Fields,
    RecRead,
    RecForward,
    RecBackward,
    RecContained,
    RecPartition,
}

const OPS: [Op; 14] = [
    Op::Read,
    Op::Strict,
    Op::Forward,
    Op::Backward,
    Op::Grep,
    Op::Capture,
    Op::Contained,
    Op::Partition,
    Op::Fields,
    Op::RecRead,
    Op::RecForward,
    Op::RecBackward,
    Op::RecContained,
    Op::RecPartition,
];

const PATTERNS: [&str; 6] = ["Hello World", "H.* World", "o", "", "Hello", "[A-Z]"];

fn unit() -> BoxedStrategy<Unit> {
    let t = prop::sample::select(vec!["Hello World", "Hello World\n", "H\n", "o", "H World ", "\u{1}", "DLT", "Hello"]);
    prop_oneof![
        2 => bytes(6).prop_map(Unit::Bytes),
        2 => Just(Unit::Mark),
        1 => bytes(20).prop_map(Unit::MarkAnd),
        2 => prop_oneof![0u16..8, any::<u16>(), Just(0xffff)].prop_map(Unit::Head),
        3 => Just(Unit::Minimal),
        2 => t.clone().prop_map(|t| Unit::Text(t.into())),
        3 => dict::mixed(prop_oneof![24u16..2000, 20000u16..=65535, Just(24), Just(44), Just(0xffff)].boxed(), 8, 24, 65535, |n| n as u16).prop_map(Unit::Overlap),
        2 => t.prop_map(|t| Unit::Loose(t.into())),
        1 => (0u8..30, bytes(6)).prop_map(|(n, b)| Unit::Rec(n, b)),
    ]
    .boxed()
}

impl Part for C23 {
    type Case = BigCase;
    fn name(&self) -> &'static str {
        "large"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<BigCase> {
        let max = if tier == Tier::Quick { 3000u16 } else { 12000 };
        let kib = prop_oneof![1 => 1u16..300, 3 => 800u16..max];
        (bytes(20), proptest::collection::vec(unit(), 1..4), kib, prop_oneof![bytes(20), Just(B(b"Hello World".to_vec()))], 0u8..6, prop::sample::select(OPS.to_vec()), dict::mixed(prop_oneof![2 => 1u16..40, 1 => 1u16..400].boxed(), 8, 1, 2000, |n| n as u16), any::<u16>())
            .prop_map(|(front, mut units, kib, back, pattern, op, num, at)| {
                if matches!(op, Op::RecRead | Op::RecForward | Op::RecBackward | Op::RecContained | Op::RecPartition) {
                    // let the other record type meet its own markers
                    units.push(match at % 4 {
                        0 => Unit::Loose("#>".into()),
                        1 => Unit::Rec(3, B(b"abc".to_vec())),
                        2 => Unit::Rec(18, B(vec![])),
                        _ => Unit::Rec(0, B(vec![])),
                    });
                }
                BigCase { front, units, kib, back, pattern, op, num, at }
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 4_000 } else { 60_000 }
    }
    fn check(&self, c: &BigCase, cx: &mut Cx) -> Outcome {
        let mut u = vec![];
        for x in &c.units {
            x.put(&mut u);
        }
        let total = c.kib as usize * 1024;
        let mut b = c.front.0.clone();
        while b.len() < total {
            b.extend_from_slice(&u);
        }
        b.extend_from_slice(&c.back.0);
        let b = &b[..];
        cx.nontrivial_if(b.len() >= 200_000 && !(matches!(c.op, Op::Grep | Op::Capture) && PATTERNS[c.pattern as usize].contains('*')));
        cx.label(match c.op {
            Op::Read => "sequential",
            Op::Strict => "strict",
            Op::Forward => "forward",
            Op::Backward => "backward",
            Op::Grep => "grep",
            Op::Capture => "capture",
            Op::Contained => "container",
            Op::Partition => "partition",
            Op::Fields => "fields",
            _ => "other record type",
        });
        let at = b.len() * c.at as usize / 65536;
        match c.op {
            Op::Read => check_reading::<Dlt>(b, 0),
            Op::RecRead => check_reading::<RecF>(b, 0),
            Op::Strict => {
                let w = strict::<Dlt>(b, c.front.0.len());
                let it = ReadIterator::<DltStorageEntry>::new(b, c.front.0.len());
                same_list::<Dlt>(&drive(it, b.len() + 9, "strict reading")?, &w, b, "strict reading")
            }
            Op::Forward => check_forward::<Dlt>(b, 0),
            Op::RecForward => check_forward::<RecF>(b, 0),
            Op::Backward => check_backward::<Dlt>(b, b.len()),
            Op::RecBackward => check_backward::<RecF>(b, b.len()),
            Op::Fields => {
                for e in dltit(b) {
                    let f = fields(b[e.storage_header as *const _ as usize - b.as_ptr() as usize + 16], e.dlt.tail);
                    let same = e.dlt.ecu_id() == f.ecu && e.dlt.timestamp() == f.tmsp && e.dlt.payload() == f.payload && e.dlt.extended_header().is_some() == f.ext.is_some();
                    ensure(same, || "a field is decoded differently".to_string())?;
                }
                Ok(())
            }
            Op::Grep => {
                let re = PATTERNS[c.pattern as usize];
                // a pattern that can run on makes the regex crate scan the rest of the line for every message
                let b = if re.contains('*') { &b[..b.len().min(24_000)] } else { b };
                let rx = Regex::new(re).unwrap();
                let msgs = scan::<Dlt>(b, 0);
                let complete = !embeds::<Dlt>(b, &msgs);
                let got = drive(GrepIterator::<DltStorageEntry>::new(re, b, 0), b.len() + 9, "grep")?;
                let mut last = None;
                for (o, t) in &got {
                    let n = Dlt::frame(&b[*o..]).ok_or("grep: a result is not a complete message")?;
                    <Dlt as Form>::same(t, b, *o, n)?;
                    ensure(rx.is_match(&b[o + 4..o + n]) && last.is_none_or(|l| l < *o), || format!("grep for {re:?}: result at byte {o} has no match or is out of order"))?;
                    last = Some(*o);
                }
                if complete {
                    let want: Vec<_> = msgs.into_iter().filter(|m| rx.is_match(&b[m.0 + 4..m.0 + m.1])).collect();
                    same_list::<Dlt>(&got, &want, b, &format!("grep for {re:?}"))?;
                }
                Ok(())
            }
            Op::Capture => {
                let re = format!("({})", PATTERNS[c.pattern as usize]);
                let b = if re.contains('*') { &b[..b.len().min(24_000)] } else { b };
                let rx = Regex::new(&re).unwrap();
                let msgs = scan::<Dlt>(b, 0);
                let complete = !embeds::<Dlt>(b, &msgs);
                let got = drive(RegExMatcherIterator::<DltStorageEntry>::new(&re, b, 0), b.len() + 9, "capture search")?;
                for (o, r) in &got {
                    let n = Dlt::frame(&b[*o..]).ok_or("capture search: a result is not a complete message")?;
                    ensure(o + 4 <= r.0 && r.0 <= r.1 && r.1 <= o + n, || format!("capture search: range {r:?} is not inside the message at byte {o}"))?;
                }
                if complete {
                    let want: Vec<_> = msgs.into_iter().filter_map(|m| rx.find(&b[m.0 + 4..m.0 + m.1]).map(|x| (m.0, (m.0 + 4 + x.start(), m.0 + 4 + x.end())))).collect();
                    ensure(got == want, || format!("captures of {re:?}: {} results, expected {}", got.len(), want.len()))?;
                }
                Ok(())
            }
            Op::Contained => contained::<Dlt>(b, at),
            Op::RecContained => contained::<RecF>(b, at),
            Op::Partition => super::containers::c05::<Dlt>(b, partition_from::<DltStorageEntry>(b, c.num as usize), c.num as usize, cx),
            Op::RecPartition => super::containers::c05::<RecF>(b, partition_from::<Rec>(b, c.num as usize), c.num as usize, cx),
        }
    }
}

fn contained<'a, F: Form<'a>>(b: &'a [u8], at: usize) -> Outcome {
    let msgs = scan::<F>(b, 0);
    let s = ContainedBySearch::<F::T>::new();
    for r in [(at, at + 1), (at, at + 4), (at.saturating_sub(30), at + 1), (b.len() - 1, b.len()), (b.len() / 2, b.len() / 2 + 1)] {
        let want: Vec<_> = if r.0 < r.1 && r.1 <= b.len() { msgs.iter().find(|m| m.0 < r.0 && r.1 <= m.0 + m.1).copied().into_iter().collect() } else { vec![] };
        let got: Vec<_> = s.contained_by(b, r).into_iter().collect();
        same_list::<F>(&got, &want, b, &format!("container of bytes {}..{}", r.0, r.1))?;
    }
    Ok(())
}

struct C23;

// ---------------------------------------------------------------- more than 4 GiB

/// Zeros, with messages in front and around and behind the 4 GiB border; for one operation or all.
pub struct Over4G(pub Option<u8>);
pub mod far {
    pub const SEQUENTIAL: u8 = 0;
    pub const FORWARD: u8 = 1;
    pub const BACKWARD: u8 = 2;
    pub const GREP: u8 = 3;
    pub const CAPTURE: u8 = 4;
    pub const CONTAINER: u8 = 5;
    pub const PARTITION: u8 = 6;
    pub const STRICT: u8 = 7;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FarCase {
    front: Vec<Item>,
    /// first byte of the second log, relative to 4 GiB
    at: i32,
    log: Vec<Item>,
    back: u16,
    op: u8,
    /// start in front of everything, or shortly before the second log
    whole: bool,
    num: u8,
}

/// `n` bytes of zeros: 64 MiB of memory mapped again and again, with own pages at `own`.
struct Zeros(*mut u8, usize);
impl Zeros {
    const CHUNK: usize = 64 << 20;
    fn new(n: usize, own: &[(usize, &[u8])]) -> Zeros {
        use libc::*;
        unsafe {
            let p = mmap(std::ptr::null_mut(), n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            assert!(p != MAP_FAILED, "HARNESS: no address space");
            let z = Zeros(p as *mut u8, n);
            let fd = memfd_create(c"zeros".as_ptr(), MFD_CLOEXEC);
            assert!(fd >= 0 && ftruncate(fd, Self::CHUNK as i64) == 0, "HARNESS: no memory file");
            let mut at = 0;
            while at < n {
                let q = mmap(z.0.add(at) as *mut c_void, Self::CHUNK.min(n - at), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0);
                assert!(q != MAP_FAILED, "HARNESS: no address space");
                at += Self::CHUNK;
            }
            close(fd);
            for (at, bytes) in own {
                std::ptr::copy_nonoverlapping(bytes.as_ptr(), z.0.add(*at), bytes.len());
            }
            z
        }
    }
    fn all(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0, self.1) }
    }
}
impl Drop for Zeros {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0 as *mut libc::c_void, self.1) };
    }
}

const G4: usize = 1 << 32;

impl Part for Over4G {
    type Case = FarCase;
    fn name(&self) -> &'static str {
        "over-4-GiB"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<FarCase> {
        use proptest::collection::vec;
        let plain = Style { embedded: false, ..Style::SMALL };
        let item = || prop_oneof![5 => msg(plain).prop_map(Item::Msg), 1 => junk().prop_map(Item::Gap)];
        (vec(item(), 0..4), -3000i32..200, vec(item(), 1..9), any::<u16>(), self.0.map_or(0..8, |op| op..op + 1), prop::bool::weighted(if self.0 == Some(far::PARTITION) { 1.0 } else { 0.4 }), 1u8..9)
            .prop_map(|(front, at, log, back, op, whole, num)| FarCase { front, at, log, back, op, whole, num })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match (tier, self.0) {
            (Tier::Quick, None) => 48,
            (Tier::Quick, _) => 12,
            (_, None) => 1_000,
            _ => 200,
        }
    }
    /// 4 GiB byte by byte, several times
    fn cpu_limit_s(&self) -> u64 {
        100
    }
    fn check(&self, c: &FarCase, cx: &mut Cx) -> Outcome {
        let (f, l) = (lay_out(&c.front), lay_out(&c.log));
        let second = (G4 as i64 + c.at as i64) as usize;
        let n = (second + l.bytes.len()).max(G4) + 1 + c.back as usize;
        // the search for a container goes back to the next pattern: leave one in reach
        let guard = second - 200_000;
        let minimal = [&MARK[..], &[0; 12], b"\x20\0\0\x04"].concat();
        let z = Zeros::new(n, &[(0, &f.bytes), (guard, &minimal), (second, &l.bytes)]);
        let b: &[u8] = z.all();
        let mut all: Vec<(usize, usize)> = scan::<Dlt>(&b[..f.bytes.len() + 8], 0);
        all.push((guard, minimal.len()));
        all.extend(scan::<Dlt>(&b[second - 8..], 0).into_iter().map(|m| (m.0 + second - 8, m.1)));
        // the whole buffer only now and then: it takes a second
        let op = if c.op == far::PARTITION && !c.whole { 5 } else { c.op };
        let start = if c.whole { 0 } else { second - 7 };
        let want: Vec<_> = all.iter().copied().filter(|m| m.0 >= start).collect();
        if all.iter().any(|m| find(&b[m.0 + 1..m.0 + m.1], MARK, 0).is_some()) {
            cx.label("left out: embedded pattern");
            return Ok(());
        }
        cx.nontrivial_if(all.iter().any(|m| m.0 + m.1 <= G4) && all.iter().any(|m| m.0 >= G4));
        cx.label(["sequential", "forward", "backward", "grep", "capture", "container", "partition", "strict"][op as usize]);
        let what = format!("from byte {start} of {n}");
        match op {
            0 if c.whole => same_list::<Dlt>(&drive(dltit_offset(b), 99, "sequential reading")?, &want, b, "sequential reading"),
            0 => same_list::<Dlt>(&drive(ReadFallbackIterator::<DltStorageEntry>::new(b, start), 99, "sequential reading")?, &want, b, &format!("sequential reading {what}")),
            1 => same_list::<Dlt>(&drive(<SearchIterator<DltStorageEntry> as TIterator>::new(b, start), 99, "forward search")?, &want, b, &format!("forward search {what}")),
            2 => {
                let mut want: Vec<_> = all.into_iter().rev().collect();
                let mut it = <RevSearchIterator<DltStorageEntry> as TIterator>::new(b, n);
                if c.whole {
                    return same_list::<Dlt>(&drive(it, 99, "backward search")?, &want, b, "backward search");
                }
                want.retain(|m| m.0 >= second);
                let got: Vec<_> = it.by_ref().take(want.len()).collect();
                same_list::<Dlt>(&got, &want, b, "backward search")
            }
            3 => same_list::<Dlt>(&drive(GrepIterator::<DltStorageEntry>::new("E|o", b, start), 99, "grep")?, &hits(b, &want), b, &format!("grep {what}")),
            4 => {
                let rx = Regex::new("E|o").unwrap();
                let want: Vec<_> = hits(b, &want).into_iter().map(|m| { let x = rx.find(&b[m.0 + 4..m.0 + m.1]).unwrap(); (m.0, (m.0 + 4 + x.start(), m.0 + 4 + x.end())) }).collect();
                let got = drive(RegExMatcherIterator::<DltStorageEntry>::new("(E|o)", b, start), 99, "capture search")?;
                ensure(got == want, || format!("capture search {what}: {got:?}, expected {want:?}"))
            }
            5 => {
                let s = ContainedBySearch::<DltStorageEntry>::new();
                for m in &all {
                    for (a, z) in [(m.0 + 1, m.0 + m.1), (m.0 + m.1 - 1, m.0 + m.1), (m.0 + 1, m.0 + 2)] {
                        let got: Vec<_> = s.contained_by(b, (a, z)).into_iter().collect();
                        same_list::<Dlt>(&got, &[*m], b, &format!("container of bytes {a}..{z}"))?;
                    }
                    for (a, z) in [(m.0 + 1, m.0 + m.1 + 1), (m.0 + m.1, n), (m.0, m.0 + 1)] {
                        ensure(a == z || s.contained_by(b, (a, z)).is_none(), || format!("bytes {a}..{z} are in no message"))?;
                    }
                }
                Ok(())
            }
            6 => {
                let parts = partition_from::<DltStorageEntry>(b, c.num as usize);
                let (mut pos, mut got) = (0, vec![]);
                for p in &parts {
                    ensure(!p.is_empty() && p.as_ptr() as usize == b.as_ptr() as usize + pos && p.len() <= n / c.num as usize * 5 / 4 + 70_000, || format!("{} partitions of {n} bytes: the one at byte {pos} has {} bytes at another place or size", c.num, p.len()))?;
                    // only the parts with something in them are read
                    if pos < 1 << 20 || pos + p.len() > second {
                        got.extend(drive(dltit_offset(p), 99, "reading a partition")?.into_iter().map(|(o, t)| (pos + o, t)));
                    }
                    pos += p.len();
                }
                ensure(pos == n, || format!("{} partitions cover {pos} of {n} bytes", c.num))?;
                same_list::<Dlt>(&got, &all, b, "reading the partitions")
            }
            _ => {
                for (i, m) in all.iter().enumerate() {
                    let mut want = vec![*m];
                    for k in &all[i + 1..] {
                        let w = want.last().unwrap();
                        if w.0 + w.1 == k.0 {
                            want.push(*k);
                        } else {
                            break;
                        }
                    }
                    let got = drive(ReadIterator::<DltStorageEntry>::new(b, m.0), 99, "strict reading")?;
                    same_list::<Dlt>(&got, &want, b, &format!("strict reading from byte {}", m.0))?;
                }
                Ok(())
            }
        }
    }
}

fn hits(b: &[u8], msgs: &[(usize, usize)]) -> Vec<(usize, usize)> {
    msgs.iter().copied().filter(|m| b[m.0 + 4..m.0 + m.1].iter().any(|x| *x == b'E' || *x == b'o')).collect()
}
