//! C05, C06: partitioning and container search.

use super::degenerate::{far, Over4G};
use super::util::*;
use crate::core::*;
use crate::dict;
use crate::gen::*;
use crate::model::*;
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::{partition_from, ContainedBySearch};
use proptest::prelude::*;
use rapiddlt::dlt_v1::DltStorageEntry;
use rapiddlt::dltbuffer::DltBuffer;
use serde::{Deserialize, Serialize};

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C05",
            rule: "at least two partitions of a buffer with at least two messages, and a border position at k*len/num lies strictly inside a message",
            assumptions: &[],
            parts: vec![part(C05(Kind::Dlt)), part(C05(Kind::Rec)), part(C05(Kind::Rec1)), part(C05(Kind::RecL)), part(ManyParts), part(LongParts), part(Over4G(Some(far::PARTITION)))],
        },
        Property {
            id: "C06",
            rule: "the range begins inside a message, and a pattern other than that message's own lies within the longest record length in front of it",
            assumptions: &[],
            parts: vec![part(C06(Kind::Dlt)), part(C06(Kind::Rec)), part(C06(Kind::Rec1)), part(C06(Kind::RecL)), part(LongRanges), part(Over4G(Some(far::CONTAINER)))],
        },
    ]
}

struct C05(Kind);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PartCase {
    buf: B,
    num: Num,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Num {
    N(u16),
    /// buffer length plus/minus, at least 1
    Len(i8),
    /// partitions of about this many bytes
    Size(u16),
    Max,
}

fn bufs(kind: Kind) -> BoxedStrategy<B> {
    if kind != Kind::Dlt {
        let recs = prop_oneof![3 => rec_soup(), 1 => proptest::collection::vec(rec_soup(), 0..12).prop_map(|v| B(v.into_iter().flat_map(|b| b.0).collect()))];
        return recs.prop_map(move |b| kind.convert(b)).boxed();
    }
    prop_oneof![
        12 => soup(Style::SMALL),
        6 => log(Style::SMALL, 12).prop_map(|l| B(lay_out(&l).bytes)),
        1 => soup(Style::ANY),
        1 => log(Style::ANY, 4).prop_map(|l| B(lay_out(&l).bytes)),
    ]
    .boxed()
}

impl Part for C05 {
    type Case = PartCase;
    fn name(&self) -> &'static str {
        self.0.name()
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<PartCase> {
        let num = prop_oneof![10 => (1u16..40).prop_map(Num::N), 2 => (1u16..2000).prop_map(Num::N), 1 => any::<i8>().prop_map(Num::Len), 3 => (1u16..200).prop_map(Num::Size), 1 => Just(Num::Max)].boxed();
        let num = dict::mixed(num, 40, 1, 10_000, |n| Num::N(n as u16));
        let num = dict::mixed(num, 40, 1, 10_000, |n| Num::Size(n as u16));
        (bufs(self.0), num).prop_map(|(buf, num)| PartCase { buf, num }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        self.0.share(if tier == Tier::Quick { 500_000 } else { 8_000_000 })
    }
    fn check(&self, c: &PartCase, cx: &mut Cx) -> Outcome {
        let b = &c.buf.0;
        // very many partitions of a big buffer only cost time
        let big = b.len() > 20_000;
        let num = match c.num {
            Num::N(n) => n as usize,
            Num::Len(d) => (b.len() as i64 + d as i64).max(1) as usize,
            Num::Size(s) => (b.len() / s as usize).max(1),
            Num::Max => usize::MAX,
        };
        let num = if big { num.min(500) } else { num };
        by_kind!(self.0, F => c05::<F>(b, partition_from::<<F as Form>::T>(b, num), num, cx))?;
        if self.0 == Kind::Dlt && !big {
            let d = DltBuffer::Read(b.clone());
            let p: Vec<Vec<u8>> = d.partition::<DltStorageEntry>(num).into_iter().map(|s| s.to_vec()).collect();
            let q: Vec<Vec<u8>> = partition_from::<DltStorageEntry>(b, num).into_iter().map(|s| s.to_vec()).collect();
            ensure(p == q, || "DltBuffer::partition differs from partition_from".into())?;
        }
        Ok(())
    }
}

/// Thousands of partitions, and more.
struct ManyParts;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ManyCase {
    unit: Vec<Item>,
    kib: u8,
    num: u16,
}

impl Part for ManyParts {
    type Case = ManyCase;
    fn name(&self) -> &'static str {
        "thousands-of-partitions"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<ManyCase> {
        (log(Style::SMALL, 6), 4u8..60, dict::mixed(prop_oneof![1 => 200u16..2000, 3 => 2000u16..9000, 1 => any::<u16>()].boxed(), 5, 100, 65535, |n| n as u16)).prop_map(|(unit, kib, num)| ManyCase { unit, kib, num }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 1_500 } else { 40_000 }
    }
    fn check(&self, c: &ManyCase, cx: &mut Cx) -> Outcome {
        let u = lay_out(&c.unit).bytes;
        let mut b = vec![];
        while !u.is_empty() && b.len() < c.kib as usize * 1024 {
            b.extend_from_slice(&u);
        }
        let num = c.num as usize + 1;
        cx.label_if(num > 4096, "over 4096 partitions asked for");
        c05::<Dlt>(&b, partition_from::<DltStorageEntry>(&b, num), num, cx)?;
        let d = DltBuffer::Read(b);
        let s = d.as_slice();
        c05::<Dlt>(s, d.partition::<DltStorageEntry>(num), num, cx)
    }
}

/// Long buffers, few to hundreds of partitions.
struct LongParts;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongPartCase {
    log: Option<Long<Vec<Item>>>,
    soup: Option<Long<B>>,
    num: u16,
}

impl Part for LongParts {
    type Case = LongPartCase;
    fn name(&self) -> &'static str {
        "long"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<LongPartCase> {
        let num = dict::mixed(prop_oneof![3 => 1u16..70, 1 => 1u16..600].boxed(), 8, 1, 3000, |n| n as u16);
        let b = prop_oneof![2 => long_log(Style::SMALL).prop_map(|l| (Some(l), None)), 1 => long_log(Style::ANY).prop_map(|l| (Some(l), None)), 2 => long_soup().prop_map(|s| (None, Some(s)))];
        (b, num).prop_map(|((log, soup), num)| LongPartCase { log, soup, num }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 300 } else { 10_000 }
    }
    fn check(&self, c: &LongPartCase, cx: &mut Cx) -> Outcome {
        let b = long_bytes(&c.log, &c.soup);
        let num = c.num as usize;
        cx.sample = Some(format!("{num} partitions of {} bytes", b.len()));
        c05::<Dlt>(&b, partition_from::<DltStorageEntry>(&b, num), num, cx)
    }
}

fn long_bytes(log: &Option<Long<Vec<Item>>>, soup: &Option<Long<B>>) -> Vec<u8> {
    match (log, soup) {
        (Some(l), _) => l.lay_out().0,
        (_, Some(s)) => s.bytes(),
        _ => vec![],
    }
}

pub fn c05<'a, F: Form<'a>>(b: &'a [u8], parts: Vec<&'a [u8]>, num: usize, cx: &mut Cx) -> Outcome {
    let msgs = scan::<F>(b, 0);
    let longest = msgs.iter().map(|m| m.1).max().unwrap_or(0);
    let unit = b.len() / num;
    // the message that a border at `pos` would cut
    let over = |pos: usize| msgs[..msgs.partition_point(|m| m.0 < pos)].last().filter(|m| pos < m.0 + m.1);
    let inside = num <= b.len() && (1..num).any(|k| over(k * unit).is_some());
    cx.label_if(parts.len() >= 2, "several partitions");
    cx.label_if(inside, "border inside a message");
    cx.label_if(num > b.len(), "more partitions than bytes");
    cx.label_if(longest > unit, "message longer than a partition");
    cx.nontrivial_if(parts.len() >= 2 && msgs.len() >= 2 && inside);
    let mut pos = 0;
    let mut read = vec![];
    for (i, p) in parts.iter().enumerate() {
        ensure(!p.is_empty(), || format!("{num} partitions of {} bytes: partition {i} is empty", b.len()))?;
        let at = (p.as_ptr() as usize).wrapping_sub(b.as_ptr() as usize);
        ensure(at == pos && at + p.len() <= b.len(), || format!("{num} partitions of {} bytes: partition {i} covers bytes {at}..{}, expected to begin at {pos}", b.len(), at.wrapping_add(p.len())))?;
        // 1.25 * len / num + longest, with a margin of a few bytes for rounding
        let bound = b.len() as f64 / num as f64 * 1.25 + longest as f64 + 8.0;
        ensure(p.len() as f64 <= bound, || format!("{num} partitions of {} bytes: partition {i} has {} bytes, more than 1.25 shares and the longest message ({longest})", b.len(), p.len()))?;
        for (o, t) in drive(ReadFallbackIterator::<F::T>::new(p, 0), p.len() + 9, "reading a partition")? {
            read.push((pos + o, t));
        }
        pos += p.len();
        if let Some(m) = over(pos) {
            return Err(format!("{num} partitions of {} bytes: the border at {pos} cuts the message at bytes {}..{}", b.len(), m.0, m.0 + m.1));
        }
    }
    ensure(pos == b.len(), || format!("{num} partitions of {} bytes cover only {pos} bytes", b.len()))?;
    same_list::<F>(&read, &msgs, b, &format!("reading the {} partitions one after the other", parts.len()))
}

// ---------------------------------------------------------------- C06

struct C06(Kind);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RangeCase {
    buf: B,
    ranges: Vec<(Off, Off, i8)>,
}

impl Part for C06 {
    type Case = RangeCase;
    fn name(&self) -> &'static str {
        self.0.name()
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<RangeCase> {
        (bufs(self.0), proptest::collection::vec((off(), off(), any::<i8>()), 1..12)).prop_map(|(buf, ranges)| RangeCase { buf, ranges }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        self.0.share(if tier == Tier::Quick { 500_000 } else { 8_000_000 })
    }
    fn check(&self, c: &RangeCase, cx: &mut Cx) -> Outcome {
        by_kind!(self.0, F => self.go::<F>(c, cx))
    }
}

impl C06 {
    fn go<'a, F: Form<'a>>(&self, c: &'a RangeCase, cx: &mut Cx) -> Outcome {
        let b = &c.buf.0;
        let msgs = scan::<F>(b, 0);
        let mut ranges = vec![];
        for (s, e, d) in &c.ranges {
            let s = s.of::<F>(b);
            ranges.push((s, e.of::<F>(b)));
            ranges.push((s, if *d < 0 { s.saturating_sub(d.unsigned_abs() as usize) } else { s.saturating_add(*d as usize) }));
            ranges.push((s, s.saturating_add(1)));
            ranges.push((s, s.saturating_add(F::MARKER.len())));
            // up to and around the end of the message the range begins in
            if let Some(m) = msgs.iter().find(|m| m.0 <= s && s < m.0 + m.1) {
                ranges.extend([(s, m.0 + m.1 - 1), (s, m.0 + m.1), (s, m.0 + m.1 + 1), (m.0 + 1, m.0 + m.1), (m.0, m.0 + m.1)]);
            }
        }
        ranges.extend([(usize::MAX, usize::MAX), (0, usize::MAX), (usize::MAX, 0)]);
        check_ranges::<F>(b, &msgs, ranges, cx)
    }
}

pub fn check_ranges<'a, F: Form<'a>>(b: &'a [u8], msgs: &[(usize, usize)], ranges: Vec<(usize, usize)>, cx: &mut Cx) -> Outcome {
    let marks = markers::<F>(b);
    let search = ContainedBySearch::<F::T>::new();
    for r in ranges {
        let legal = r.0 < r.1 && r.1 <= b.len();
        let want = if legal { msgs[..msgs.partition_point(|m| m.0 < r.0)].last().filter(|m| r.1 <= m.0 + m.1).copied() } else { None };
        cx.label_if(!legal, "illegal range");
        cx.label_if(legal && want.is_none(), "not contained");
        if let Some(m) = want {
            cx.label("contained");
            let before = &marks[..marks.partition_point(|k| *k < r.0)];
            let near = before.iter().rev().take_while(|k| **k + F::MAX > r.0).any(|k| *k != m.0);
            cx.label_if(near && before.last().is_some_and(|k| *k > m.0), "contained, with a pattern in between");
            cx.nontrivial_if(near);
        }
        let got: Vec<_> = search.contained_by(b, r).into_iter().collect();
        same_list::<F>(&got, &want.into_iter().collect::<Vec<_>>(), b, &format!("container of bytes {}..{}", r.0, r.1))?;
    }
    Ok(())
}

/// Many ranges in long buffers.
struct LongRanges;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongRangeCase {
    log: Option<Long<Vec<Item>>>,
    soup: Option<Long<B>>,
    at: Vec<(u32, u16)>,
}

impl Part for LongRanges {
    type Case = LongRangeCase;
    fn name(&self) -> &'static str {
        "long"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<LongRangeCase> {
        let b = prop_oneof![2 => long_log(Style::SMALL).prop_map(|l| (Some(l), None)), 1 => long_log(Style::ANY).prop_map(|l| (Some(l), None)), 2 => long_soup().prop_map(|s| (None, Some(s)))];
        (b, proptest::collection::vec((any::<u32>(), prop_oneof![3 => 0u16..40, 1 => any::<u16>()]), 1..30)).prop_map(|((log, soup), at)| LongRangeCase { log, soup, at }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 300 } else { 10_000 }
    }
    fn check(&self, c: &LongRangeCase, cx: &mut Cx) -> Outcome {
        let b = long_bytes(&c.log, &c.soup);
        let msgs = scan::<Dlt>(&b, 0);
        cx.sample = Some(format!("{} ranges in {} messages, {} bytes", c.at.len(), msgs.len(), b.len()));
        let mut ranges = vec![];
        for (at, n) in &c.at {
            let p = super::reading::place_in(b.len(), *at);
            ranges.push((p, p + *n as usize));
            if let Some(m) = msgs[..msgs.partition_point(|m| m.0 < p)].last() {
                ranges.extend([(m.0 + 1, m.0 + m.1), (m.0 + 1, m.0 + m.1 + 1), (m.0 + m.1 - 1, m.0 + m.1), (m.0 + m.1, m.0 + m.1 + 1)]);
            }
        }
        check_ranges::<Dlt>(&b, &msgs, ranges, cx)
    }
}
