//! C01, C02, C07, C08, C09, C22: reading and searching against the reference scan.

use super::degenerate::{far, Over4G};
use super::util::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use matchit::readit::ReadIterator;
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::searchable::{search_last_marker, search_marker};
use matchit::{partition_from, FromBytesReadableTrait, NoOffsetIterator, TIterator};
use proptest::prelude::*;
use rapiddlt::dlt_v1::{dltit, dltit_offset, DltEntry, DltStorageEntry};
use serde::{Deserialize, Serialize};

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "the log holds at least two messages and at least one of: a gap, a message embedding a further pattern, a body over 60000 bytes, a start offset inside a gap",
            assumptions: &["the reference encoder (harness/src/model.rs) lays messages out as DLT v1 does"],
            parts: vec![part(C01), part(LongC01), part(Over4G(Some(far::SEQUENTIAL)))],
        },
        Property {
            id: "C02",
            rule: "the buffer holds at least one pattern at which no complete message starts, and at least one readable message",
            assumptions: &[],
            parts: vec![part(C02(Kind::Dlt)), part(C02(Kind::Rec)), part(C02(Kind::Rec1)), part(C02(Kind::RecL)), part(LongBuf { op: 2, rec: false }), part(LongBuf { op: 2, rec: true }), part(Over4G(Some(far::SEQUENTIAL)))],
        },
        Property {
            id: "C07",
            rule: "the buffer holds at least two readable records and one further pattern that is unreadable or embedded",
            assumptions: &[],
            parts: vec![part(C07(Kind::Dlt)), part(C07(Kind::Rec)), part(C07(Kind::Rec1)), part(C07(Kind::RecL)), part(LongBuf { op: 7, rec: false }), part(LongBuf { op: 7, rec: true }), part(Over4G(Some(far::FORWARD)))],
        },
        Property {
            id: "C08",
            rule: "the buffer holds at least two readable images and, behind the first one, an unreadable pattern or an image overlapping another",
            assumptions: &[],
            parts: vec![part(C08(Kind::Dlt)), part(C08(Kind::Rec)), part(C08(Kind::Rec1)), part(C08(Kind::RecL)), part(LongBuf { op: 8, rec: false }), part(LongBuf { op: 8, rec: true }), part(Over4G(Some(far::BACKWARD)))],
        },
        Property {
            id: "C09",
            rule: "the gapless run has at least two records and ends before the end of the buffer",
            assumptions: &[],
            parts: vec![part(C09(Kind::Dlt)), part(C09(Kind::Rec)), part(C09(Kind::Rec1)), part(C09(Kind::RecL)), part(Bare), part(LongBuf { op: 9, rec: false }), part(LongBuf { op: 9, rec: true }), part(Over4G(Some(far::STRICT)))],
        },
        Property {
            id: "C22",
            rule: "the cut lies strictly inside a message of a buffer with at least two messages, or both concatenated logs hold messages",
            assumptions: &[],
            parts: vec![part(C22Cut), part(C22Cat), part(LongC22)],
        },
    ]
}

// ---------------------------------------------------------------- C01

struct C01;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LogCase {
    log: Vec<Item>,
    start: u16,
    inside: u16,
}

/// A boundary of the layout: a message start, or a position in the gap in front of it, or behind the last message.
fn boundary(l: &Laid, start: u16, inside: u16) -> (usize, usize) {
    let k = start as usize % (l.msgs.len() + 1);
    let from = if k == 0 { 0 } else { l.msgs[k - 1].0 + l.msgs[k - 1].1 };
    let to = if k == l.msgs.len() { l.bytes.len() } else { l.msgs[k].0 };
    (k, from + inside as usize % (to - from + 1))
}

impl Part for C01 {
    type Case = LogCase;
    fn name(&self) -> &'static str {
        "log"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<LogCase> {
        let n = if tier == Tier::Quick { 9 } else { 24 };
        (prop_oneof![5 => log(Style::SMALL, n), 1 => log(Style::ANY, 4)], any::<u16>(), any::<u16>()).prop_map(|(log, start, inside)| LogCase { log, start, inside }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 1_000_000 } else { 20_000_000 }
    }
    fn check(&self, c: &LogCase, cx: &mut Cx) -> Outcome {
        let l = lay_out(&c.log);
        let b = &l.bytes;
        let (k, start) = boundary(&l, c.start, c.inside);
        let emb = embeds::<Dlt>(b, &l.msgs);
        let gap = l.msgs.iter().map(|m| m.1).sum::<usize>() != b.len();
        let huge = l.msgs.iter().any(|m| m.1 > 60000);
        let in_gap = start != if k < l.msgs.len() { l.msgs[k].0 } else { b.len() };
        cx.label_if(emb, "embedded pattern");
        cx.label_if(gap, "gaps");
        cx.label_if(huge, "huge message");
        cx.label_if(l.msgs.iter().any(|m| m.1 == 65551), "longest legal message");
        cx.label_if(in_gap, "start in gap");
        cx.label_if(l.msgs.is_empty(), "no message");
        cx.nontrivial_if(l.msgs.len() >= 2 && (emb || gap || huge || in_gap));

        c01(b, &l.msgs, k, start)?;
        // field values against what went into the log, not only against the bytes
        for (i, e) in dltit(b).enumerate() {
            let Item::Msg(m) = &c.log[l.item[i]] else { unreachable!() };
            let s = e.storage_header;
            let h = &e.dlt.header.header_type;
            let ok = s.pattern == *MARK && s.secs.get() == m.secs && s.msecs.get() == m.us && s.ecu[..] == m.secu.0[..] && e.dlt.tail == &m.tail_bytes()[..];
            let flags = (h.is_extended_header() as u8) | (h.is_msb_first() as u8) << 1 | (h.is_with_ecu_id() as u8) << 2 | (h.is_with_session_id() as u8) << 3 | (h.is_with_timestamp() as u8) << 4 | h.version() << 5;
            ensure(ok && flags == m.htyp, || format!("message {i} is read as {s:?} {h:?} with {} body bytes, written as {m:?}", e.dlt.tail.len()))?;
        }
        Ok(())
    }
}

/// The messages are `msgs`; reading from `start` yields those from the k-th on.
fn c01(b: &[u8], msgs: &[(usize, usize)], k: usize, start: usize) -> Outcome {
    same_list::<Dlt>(&drive_ways(|| dltit_offset(b), |x| x.0, b.len() + 9, "dltit_offset")?, msgs, b, "dltit_offset")?;
    let plain = drive_ways(|| dltit(b), |x| x.storage_header as *const _ as usize, b.len() + 9, "dltit")?;
    let with: Vec<_> = plain.into_iter().enumerate().map(|(i, e)| (msgs.get(i).map_or(0, |m| m.0), e)).collect();
    same_list::<Dlt>(&with, msgs, b, "dltit")?;
    let it = ReadFallbackIterator::<DltStorageEntry>::new(b, start);
    same_list::<Dlt>(&drive(it, b.len() + 9, "reading from a boundary")?, &msgs[k..], b, &format!("reading from byte {start}"))?;
    let it = <ReadFallbackIterator<DltStorageEntry> as TIterator>::new(b, start);
    let n = drive(NoOffsetIterator::new(it), b.len() + 9, "reading without offsets")?.len();
    ensure(n == msgs.len() - k, || format!("reading without offsets from byte {start} yields {n} messages, expected {}", msgs.len() - k))?;
    Ok(())
}

/// Logs of up to 2.5 MB, with more than 65536 messages.
struct LongC01;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongLogCase {
    log: Long<Vec<Item>>,
    start: u32,
    inside: u16,
}

impl Part for LongC01 {
    type Case = LongLogCase;
    fn name(&self) -> &'static str {
        "long-log"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<LongLogCase> {
        (prop_oneof![4 => long_log(Style::SMALL), 1 => long_log(Style::ANY)], any::<u32>(), any::<u16>()).prop_map(|(log, start, inside)| LongLogCase { log, start, inside }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 600 } else { 20_000 }
    }
    fn check(&self, c: &LongLogCase, cx: &mut Cx) -> Outcome {
        let (b, msgs) = c.log.lay_out();
        let k = c.start as usize % (msgs.len() + 1);
        let from = if k == 0 { 0 } else { msgs[k - 1].0 + msgs[k - 1].1 };
        let start = from + c.inside as usize % (msgs.get(k).map_or(b.len(), |m| m.0) - from + 1);
        cx.nontrivial_if(msgs.len() >= 2 && b.len() > 65551);
        cx.label_if(msgs.len() > 65536, "over 65536 messages");
        cx.sample = Some(format!("{} messages in {} bytes, from byte {start}", msgs.len(), b.len()));
        c01(&b, &msgs, k, start)
    }
}

// ---------------------------------------------------------------- byte buffers with a start offset

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BufCase {
    pub buf: B,
    pub off: Off,
}

fn dlt_bufs(tier: Tier) -> BoxedStrategy<BufCase> {
    let big = if tier == Tier::Quick { 1 } else { 2 };
    (prop_oneof![30 => soup(Style::SMALL), big => soup(Style::ANY)], off()).prop_map(|(buf, off)| BufCase { buf, off }).boxed()
}

fn rec_bufs(_: Tier) -> BoxedStrategy<BufCase> {
    (rec_soup(), off()).prop_map(|(buf, off)| BufCase { buf, off }).boxed()
}

fn classes<F: Format>(b: &[u8], cx: &mut Cx) -> (usize, usize, usize) {
    let (m, i, s) = (markers::<F>(b).len(), images::<F>(b).len(), scan::<F>(b, 0).len());
    cx.label_if(m > i, "unreadable pattern");
    cx.label_if(i > s, "embedded image");
    cx.label_if(s >= 2, "several records");
    cx.label_if(s == 0, "no record");
    cx.label_if(b.len() > 65000, "huge");
    (m, i, s)
}

/// Runs of records with something else in front and behind; the start mostly at a record.
fn runs_of(run: BoxedStrategy<Vec<B>>, other: BoxedStrategy<B>) -> BoxedStrategy<BufCase> {
    let off = prop_oneof![2 => Just(Off::Frac(0)), 8 => any::<u8>().prop_map(|i| Off::Marker(i, 4)), 2 => off()];
    (prop_oneof![1 => Just(B(vec![])), 1 => other.clone()], run, other, off)
        .prop_map(|(front, run, behind, off)| {
            let mut v = front.0;
            run.iter().for_each(|r| v.extend_from_slice(&r.0));
            v.extend(behind.0);
            BufCase { buf: B(v), off }
        })
        .boxed()
}

fn dlt_runs(tier: Tier) -> BoxedStrategy<BufCase> {
    let m = |s: Style| msg(s).prop_map(|m| B(m.bytes()));
    let runs = prop_oneof![20 => proptest::collection::vec(m(Style::SMALL), 0..9), 1 => proptest::collection::vec(m(Style::ANY), 0..4)].boxed();
    let other = prop_oneof![3 => soup(Style::SMALL), 1 => junk(), 1 => Just(B(vec![]))].boxed();
    prop_oneof![3 => runs_of(runs, other), 1 => dlt_bufs(tier)].boxed()
}

fn rec_runs(tier: Tier) -> BoxedStrategy<BufCase> {
    let rec = proptest::collection::vec(any::<u8>(), 0..=REC_MAX_BODY).prop_map(|b| {
        let mut v = vec![b'#', b'>', b.len() as u8];
        v.extend(b);
        B(v)
    });
    prop_oneof![3 => runs_of(proptest::collection::vec(rec, 0..12).boxed(), rec_soup()), 1 => rec_bufs(tier)].boxed()
}

macro_rules! buf_part {
    ($t:ident, $dlts:expr, $recs:expr, $check:ident, $quick:expr, $thorough:expr) => {
        struct $t(Kind);
        impl Part for $t {
            type Case = BufCase;
            fn name(&self) -> &'static str {
                self.0.name()
            }
            fn strategy(&self, tier: Tier) -> BoxedStrategy<BufCase> {
                let kind = self.0;
                if kind == Kind::Dlt {
                    return $dlts(tier);
                }
                $recs(tier).prop_map(move |c: BufCase| BufCase { buf: kind.convert(c.buf), off: c.off }).boxed()
            }
            fn cases(&self, tier: Tier) -> u64 {
                self.0.share(if tier == Tier::Quick { $quick } else { $thorough })
            }
            fn check(&self, c: &BufCase, cx: &mut Cx) -> Outcome {
                by_kind!(self.0, F => $check::<F>(&c.buf.0, c.off.of::<F>(&c.buf.0), cx))
            }
        }
    };
}

buf_part!(C02, dlt_bufs, rec_bufs, c02, 1_200_000, 20_000_000);
buf_part!(C07, dlt_bufs, rec_bufs, c07, 1_200_000, 20_000_000);
buf_part!(C08, dlt_bufs, rec_bufs, c08, 1_200_000, 20_000_000);
buf_part!(C09, dlt_runs, rec_runs, c09, 800_000, 20_000_000);

fn c02<'a, F: Form<'a>>(b: &'a [u8], start: usize, cx: &mut Cx) -> Outcome {
    let (m, i, s) = classes::<F>(b, cx);
    cx.label_if(start > b.len(), "start behind the end");
    cx.nontrivial_if(m > i && s >= 1);
    check_reading::<F>(b, start)
}

pub fn check_reading<'a, F: Form<'a>>(b: &'a [u8], start: usize) -> Outcome {
    let want = scan::<F>(b, start);
    let got = drive_ways(|| ReadFallbackIterator::<F::T>::new(b, start), |x| x.0, b.len() + 9, "sequential reading")?;
    same_list::<F>(&got, &want, b, &format!("sequential reading from byte {start}"))
}

fn c07<'a, F: Form<'a>>(b: &'a [u8], start: usize, cx: &mut Cx) -> Outcome {
    let (m, i, s) = classes::<F>(b, cx);
    cx.label_if(start > b.len(), "start behind the end");
    cx.nontrivial_if(s >= 2 && (m > i || i > s));
    check_forward::<F>(b, start)?;
    let from = start.min(b.len());
    let got = search_marker::<F::T>(&b[from..]);
    ensure(got == find(&b[from..], F::MARKER, 0), || format!("search_marker from byte {from} gives {got:?}"))
}

pub fn check_forward<'a, F: Form<'a>>(b: &'a [u8], start: usize) -> Outcome {
    let want = scan::<F>(b, start);
    let it = || <SearchIterator<F::T> as TIterator>::new(b, start);
    same_list::<F>(&drive_ways(it, |x| x.0, b.len() + 9, "forward search")?, &want, b, &format!("forward search from byte {start}"))
}

fn c08<'a, F: Form<'a>>(b: &'a [u8], start: usize, cx: &mut Cx) -> Outcome {
    let (m, i, s) = classes::<F>(b, cx);
    cx.nontrivial_if(i >= 2 && (m > i || i > s));
    check_backward::<F>(b, start)?;
    let got = search_last_marker::<F::T>(&b[..start.min(b.len())]);
    let want = markers::<F>(&b[..start.min(b.len())]).last().copied();
    ensure(got == want, || format!("search_last_marker before byte {start} gives {got:?}, expected {want:?}"))?;
    Ok(())
}

pub fn check_backward<'a, F: Form<'a>>(b: &'a [u8], start: usize) -> Outcome {
    let mut want = images::<F>(b);
    want.retain(|w| w.0 + F::MARKER.len() <= start);
    want.reverse();
    let it = || <RevSearchIterator<F::T> as TIterator>::new(b, start);
    same_list::<F>(&drive_ways(it, |x| x.0, b.len() + 9, "backward search")?, &want, b, &format!("backward search from byte {start}"))
}

pub fn c09<'a, F: Form<'a>>(b: &'a [u8], start: usize, cx: &mut Cx) -> Outcome {
    let want = strict::<F>(b, start);
    let end = want.last().map_or(start, |w| w.0 + w.1);
    cx.label_if(want.is_empty(), "no record at the start");
    cx.label_if(end == b.len() && !want.is_empty(), "run up to the end");
    cx.label_if(scan::<F>(b, start).len() > want.len(), "records behind the run");
    cx.nontrivial_if(want.len() >= 2 && end < b.len());
    let it = || ReadIterator::<F::T>::new(b, start);
    same_list::<F>(&drive_ways(it, |x| x.0, b.len() + 9, "strict reading")?, &want, b, &format!("strict reading from byte {start}"))?;
    let it = <ReadIterator<F::T> as TIterator>::new(b, start);
    ensure(drive(it, b.len() + 9, "strict reading")?.len() == want.len(), || "the two constructors differ".into())
}

/// Buffers of up to 2.5 MB for the four readers.
struct LongBuf {
    op: u8,
    rec: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    pub buf: Long<B>,
    pub at: u32,
}

/// In front of, in or behind the buffer.
pub fn place_in(n: usize, at: u32) -> usize {
    match at % 8 {
        0..=2 => 0,
        3 => n.saturating_sub((at >> 3) as usize % 70000),
        4 => n + (at >> 3) as usize % 3,
        _ => ((at >> 3) as u64 * n as u64 >> 29) as usize,
    }
}

impl Part for LongBuf {
    type Case = LongCase;
    fn name(&self) -> &'static str {
        if self.rec {
            "long-other-record-type"
        } else {
            "long-dlt"
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<LongCase> {
        let whole = |s: Style| long_log(s).prop_map(|l| Long { units: l.units.iter().map(|u| B(lay_out(u).bytes)).collect(), order: l.order, kib: l.kib });
        let strict_recs = long(proptest::collection::vec(any::<u8>(), 0..=REC_MAX_BODY).prop_map(|v| B([&[b'#', b'>', v.len() as u8][..], &v].concat())).boxed());
        let b = match (self.op, self.rec) {
            (9, false) => prop_oneof![3 => long(prop_oneof![3 => text().prop_map(|t| { let mut v = vec![]; Chunk::Fake(4 + t.len() as u16).put(&mut v); v.extend(t.bytes()); B(v) }), 1 => msg(Style::SMALL).prop_map(|m| B(m.bytes()))].boxed()), 1 => long_soup()].boxed(),
            (9, true) => prop_oneof![3 => strict_recs, 1 => long_recs()].boxed(),
            (_, true) => long_recs(),
            _ => prop_oneof![3 => long_soup(), 1 => whole(Style::SMALL)].boxed(),
        };
        (b, any::<u32>()).prop_map(|(buf, at)| LongCase { buf, at }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 300 } else { 10_000 }
    }
    fn check(&self, c: &LongCase, cx: &mut Cx) -> Outcome {
        let b = c.buf.bytes();
        let n = if self.rec { images::<RecF>(&b).len() } else { images::<Dlt>(&b).len() };
        let at = place_in(b.len(), c.at);
        cx.label_if(n > 65536, "over 65536 images");
        cx.nontrivial_if(n >= 2 && b.len() > 65551);
        cx.sample = Some(format!("{n} images in {} bytes, from byte {at}", b.len()));
        match (self.op, self.rec) {
            (2, false) => check_reading::<Dlt>(&b, at),
            (2, true) => check_reading::<RecF>(&b, at),
            (7, false) => check_forward::<Dlt>(&b, at),
            (7, true) => check_forward::<RecF>(&b, at),
            (8, false) => check_backward::<Dlt>(&b, b.len() - at.min(b.len())),
            (8, true) => check_backward::<RecF>(&b, b.len() - at.min(b.len())),
            (_, false) => c09::<Dlt>(&b, at, cx),
            (_, true) => c09::<RecF>(&b, at, cx),
        }
    }
}

/// Messages without storage headers, as they are sent over a network.
struct Bare;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BareCase {
    front: B,
    msgs: Vec<Msg>,
    behind: B,
    at: u16,
}

impl Part for Bare {
    type Case = BareCase;
    fn name(&self) -> &'static str {
        "without-storage-headers"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<BareCase> {
        use proptest::collection::vec;
        let m = prop_oneof![20 => vec(msg(Style::SMALL), 0..9), 1 => vec(msg(Style::ANY), 0..4)];
        let other = || prop_oneof![2 => Just(B(vec![])), 1 => bytes(30), 1 => (0u8..5).prop_map(|n| B(vec![0x35, 0, 0, n])), 1 => (0u16..60).prop_map(|n| B([&[0x20, 7][..], &n.to_be_bytes()].concat()))];
        (other(), m, other(), any::<u16>()).prop_map(|(front, msgs, behind, at)| BareCase { front, msgs, behind, at }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 500_000 } else { 10_000_000 }
    }
    fn check(&self, c: &BareCase, cx: &mut Cx) -> Outcome {
        let mut b = c.front.0.clone();
        let mut starts = vec![];
        for m in &c.msgs {
            starts.push(b.len());
            b.extend_from_slice(&m.bytes()[16..]);
        }
        starts.push(b.len());
        b.extend_from_slice(&c.behind.0);
        let b = &b[..];
        let start = match c.at % 8 {
            0 => c.at as usize % (b.len() + 3),
            1 => usize::MAX - (c.at / 8 % 4) as usize,
            _ => starts[c.at as usize % starts.len()],
        };
        let mut want = vec![];
        let mut p = start;
        while p < b.len() && b.len() - p >= 4 {
            let n = b[p + 2] as usize * 256 + b[p + 3] as usize;
            if n < 4 || n > b.len() - p {
                break;
            }
            want.push((p, n));
            p += n;
        }
        cx.nontrivial_if(want.len() >= 2 && p < b.len());
        let got = drive_ways(|| ReadIterator::<DltEntry>::new(b, start), |x| x.0, b.len() + 9, "strict reading without storage headers")?;
        let offs: Vec<usize> = got.iter().map(|x| x.0).collect();
        ensure(offs == want.iter().map(|w| w.0).collect::<Vec<_>>(), || format!("strict reading without storage headers from byte {start}: messages at {offs:?}, expected {want:?}"))?;
        for ((o, e), (_, n)) in got.iter().zip(&want) {
            use zerocopy::AsBytes;
            view_of(e.header.as_bytes(), b, *o, 4, "standard header")?;
            view_of(e.tail, b, o + 4, n - 4, "body")?;
            ensure(e.len() == *n, || format!("length {}, expected {n}", e.len()))?;
            let f = fields(b[*o], &b[o + 4..o + n]);
            let ext = e.extended_header().map(|x| x.as_bytes());
            ensure(e.ecu_id() == f.ecu && e.timestamp() == f.tmsp && e.payload() == f.payload && ext == f.ext, || format!("a field of the message at byte {o} is decoded differently from {f:?}"))?;
        }
        Ok(())
    }
}

pub fn strict<F: Format>(b: &[u8], start: usize) -> Vec<(usize, usize)> {
    let mut want = vec![];
    let mut p = start;
    while p < b.len() {
        let Some(n) = F::frame(&b[p..]) else { break };
        want.push((p, n));
        p += n;
    }
    want
}

// ---------------------------------------------------------------- C22

struct C22Cut;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CutCase {
    buf: B,
    cut: Off,
    num: u8,
}

impl Part for C22Cut {
    type Case = CutCase;
    fn name(&self) -> &'static str {
        "cut"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<CutCase> {
        let logs = log(Style::SMALL, 8).prop_map(|l| B(lay_out(&l).bytes));
        (prop_oneof![3 => logs, 3 => soup(Style::SMALL), 1 => soup(Style::ANY)], off(), 1u8..9).prop_map(|(buf, cut, num)| CutCase { buf, cut, num }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 700_000 } else { 12_000_000 }
    }
    fn check(&self, c: &CutCase, cx: &mut Cx) -> Outcome {
        let b = &c.buf.0;
        cut_at(b, c.cut.of::<Dlt>(b).min(b.len()), c.num, cx)
    }
}

fn cut_at(b: &[u8], cut: usize, num: u8, cx: &mut Cx) -> Outcome {
    let key = |b: &[u8]| -> Result<Vec<(usize, Vec<u8>)>, String> { Ok(drive(dltit_offset(b), b.len() + 9, "sequential reading")?.into_iter().map(|(o, e)| (o, record(&e))).collect()) };
    let (whole, rest) = (key(b)?, key(&b[..cut])?);
    let mut keep: Vec<_> = whole.iter().filter(|(o, r)| o + r.len() <= cut).cloned().collect();
    let inside = whole.iter().any(|(o, r)| *o < cut && cut < o + r.len());
    cx.label_if(inside, "cut inside a message");
    cx.nontrivial_if(inside && whole.len() >= 2);
    if let Some(i) = (0..keep.len()).find(|i| rest.get(*i) != Some(&keep[*i])) {
        return Err(format!("cut at byte {cut}: message {i} at byte {} (length {}) ended before the cut and is read as {:?}", keep[i].0, keep[i].1.len(), rest.get(i).map(|r| (r.0, r.1.len()))));
    }
    // the same from searching and partitioned reading
    let fwd: Vec<_> = drive(<SearchIterator<DltStorageEntry> as TIterator>::new(&b[..cut], 0), cut + 9, "forward search")?.into_iter().map(|(o, e)| (o, record(&e))).collect();
    ensure(fwd.starts_with(&keep), || format!("cut at byte {cut}: forward search loses or changes a message that ended before the cut"))?;
    let mut parts = vec![];
    for p in partition_from::<DltStorageEntry>(&b[..cut], num as usize) {
        let base = p.as_ptr() as usize - b.as_ptr() as usize;
        parts.extend(drive(dltit_offset(p), p.len() + 9, "sequential reading of a partition")?.into_iter().map(|(o, e)| (base + o, record(&e))));
    }
    parts.truncate(keep.len());
    keep.truncate(keep.len());
    ensure(parts == keep, || format!("cut at byte {cut}: reading in {} partitions loses or changes a message that ended before the cut", num))
}

pub fn record(e: &DltStorageEntry) -> Vec<u8> {
    use zerocopy::AsBytes;
    let mut v = e.storage_header.as_bytes().to_vec();
    v.extend_from_slice(e.dlt.header.as_bytes());
    v.extend_from_slice(e.dlt.tail);
    v
}

struct C22Cat;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CatCase {
    a: Vec<Item>,
    b: Vec<Item>,
    num: u8,
}

impl Part for C22Cat {
    type Case = CatCase;
    fn name(&self) -> &'static str {
        "concatenation"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<CatCase> {
        (log(Style::SMALL, 6), log(Style::SMALL, 6), 1u8..9).prop_map(|(a, b, num)| CatCase { a, b, num }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 400_000 } else { 8_000_000 }
    }
    fn check(&self, c: &CatCase, cx: &mut Cx) -> Outcome {
        // both logs end with a message
        let trim = |l: &[Item]| -> Vec<u8> {
            let l = lay_out(l);
            let end = l.msgs.last().map_or(0, |m| m.0 + m.1);
            l.bytes[..end].to_vec()
        };
        cat(trim(&c.a), trim(&c.b), c.num, cx)
    }
}

fn cat(a: Vec<u8>, b: Vec<u8>, num: u8, cx: &mut Cx) -> Outcome {
    let mut ab = a.clone();
    ab.extend_from_slice(&b);
    let key = |b: &[u8], shift: usize| -> Result<Vec<(usize, Vec<u8>)>, String> { Ok(drive(dltit_offset(b), b.len() + 9, "sequential reading")?.into_iter().map(|(o, e)| (o + shift, record(&e))).collect()) };
    let mut want = key(&a, 0)?;
    let na = want.len();
    want.extend(key(&b, a.len())?);
    cx.nontrivial_if(na > 0 && want.len() > na);
    let got = key(&ab, 0)?;
    ensure(got == want, || format!("sequential reading of the concatenation yields {} messages at {:?}, expected {} at {:?}", got.len(), offs(&got), want.len(), offs(&want)))?;
    let fwd: Vec<_> = drive(<SearchIterator<DltStorageEntry> as TIterator>::new(&ab, 0), ab.len() + 9, "forward search")?.into_iter().map(|(o, e)| (o, record(&e))).collect();
    ensure(fwd == want, || format!("forward search on the concatenation yields messages at {:?}, expected {:?}", offs(&fwd), offs(&want)))?;
    let mut parts = vec![];
    for p in partition_from::<DltStorageEntry>(&ab, num as usize) {
        let base = p.as_ptr() as usize - ab.as_ptr() as usize;
        parts.extend(drive(dltit_offset(p), p.len() + 9, "sequential reading of a partition")?.into_iter().map(|(o, e)| (base + o, record(&e))));
    }
    ensure(parts == want, || format!("reading the concatenation in {} partitions yields messages at {:?}, expected {:?}", num, offs(&parts), offs(&want)))
}

/// Long logs cut or put together.
struct LongC22;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongCutCase {
    a: Long<Vec<Item>>,
    b: Option<Long<Vec<Item>>>,
    at: u32,
    num: u8,
}

impl Part for LongC22 {
    type Case = LongCutCase;
    fn name(&self) -> &'static str {
        "long-logs"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<LongCutCase> {
        (long_log(Style::SMALL), proptest::option::of(long_log(Style::SMALL)), any::<u32>(), 1u8..30).prop_map(|(a, b, at, num)| LongCutCase { a, b, at, num }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 250 } else { 8_000 }
    }
    fn check(&self, c: &LongCutCase, cx: &mut Cx) -> Outcome {
        let (a, msgs) = c.a.lay_out();
        cx.sample = Some(format!("{} messages in {} bytes", msgs.len(), a.len()));
        cx.label_if(msgs.len() > 65536, "over 65536 messages");
        match &c.b {
            Some(b) => cat(a, b.lay_out().0, c.num, cx),
            None => {
                // cut near to a message's end, or anywhere
                let n = a.len();
                let cut = match msgs.get(place_in(msgs.len(), c.at / 4).min(msgs.len().saturating_sub(1))) {
                    Some(m) if c.at % 4 < 3 => (m.0 + m.1 + 3).saturating_sub(c.at as usize / 4 % 12).min(n),
                    _ => place_in(n, c.at / 4).min(n),
                };
                cut_at(&a, cut, c.num, cx)
            }
        }
    }
}

fn offs(v: &[(usize, Vec<u8>)]) -> Vec<usize> {
    v.iter().map(|x| x.0).collect()
}
