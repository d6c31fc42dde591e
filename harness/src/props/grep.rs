//! C10, C11: pattern search inside messages.

use super::degenerate::{far, Over4G};
use super::util::*;
use crate::core::*;
use crate::dict;
use crate::gen::*;
use crate::model::*;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use proptest::prelude::*;
use rapiddlt::dlt_v1::DltStorageEntry;
use rapiddlt::DltGrepIterator;
use regex::bytes::Regex;
use serde::{Deserialize, Serialize};

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            rule: "some message contains a match and some does not, or the leftmost match in the raw data begins outside a message or runs over a message's end",
            assumptions: &["the regex crate decides whether a pattern matches an isolated byte string"],
            parts: vec![part(C10 { kind: Kind::Dlt, plain: true }), part(C10 { kind: Kind::Dlt, plain: false }), part(C10 { kind: Kind::Rec, plain: false }), part(C10 { kind: Kind::Rec1, plain: false }), part(C10 { kind: Kind::RecL, plain: false }), part(Huge { capture: false }), part(Many { capture: false }), part(LargePatterns { capture: false }), part(Over4G(Some(far::GREP)))],
        },
        Property {
            id: "C11",
            rule: "some message contains a match and some does not, or the leftmost match in the raw data begins outside a message or runs over a message's end",
            assumptions: &["the regex crate decides what a pattern captures in an isolated byte string"],
            parts: vec![part(C11(Kind::Dlt)), part(C11(Kind::Rec)), part(C11(Kind::Rec1)), part(C11(Kind::RecL)), part(Huge { capture: true }), part(Many { capture: true }), part(LargePatterns { capture: true }), part(Over4G(Some(far::CAPTURE)))],
        },
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GrepCase {
    buf: B,
    pat: Pat,
    off: Off,
}

fn plain_bufs() -> BoxedStrategy<B> {
    let textual = (proptest::collection::vec((text(), text(), 0u8..3), 0..10)).prop_map(|v| {
        // minimal framing around texts, with text between the messages
        let mut b = vec![];
        for (a, t, gap) in v {
            let mut m = storage(5, 6, b"ECU1");
            m.extend_from_slice(&[0x20, 0, 0, (t.len() + 4) as u8]);
            m.extend_from_slice(t.as_bytes());
            if gap == 1 {
                b.extend_from_slice(a.as_bytes());
            }
            b.extend(m);
            if gap == 2 {
                b.extend_from_slice(a.as_bytes());
            }
        }
        B(b)
    });
    prop_oneof![
        4 => textual,
        4 => log(Style::PLAIN, 9).prop_map(|l| B(lay_out(&l).bytes)),
        2 => proptest::collection::vec(piece(Style::PLAIN), 0..9).prop_map(|ps| { let mut v = vec![]; for p in ps { p.put(&mut v) } B(v) }),
    ]
    .boxed()
}

fn rec_bufs(kind: Kind) -> BoxedStrategy<B> {
    let textual = (proptest::collection::vec((text(), text(), any::<bool>()), 0..10)).prop_map(|v| {
        let mut b = vec![];
        for (a, t, gap) in v {
            let t = &t.as_bytes()[..t.len().min(REC_MAX_BODY)];
            if gap {
                b.extend_from_slice(a.as_bytes());
            }
            b.extend_from_slice(&[b'#', b'>', t.len() as u8]);
            b.extend_from_slice(t);
        }
        B(b)
    });
    prop_oneof![3 => textual, 1 => rec_soup()].prop_map(move |b| kind.convert(b)).boxed()
}

fn offs() -> BoxedStrategy<Off> {
    prop_oneof![6 => Just(Off::Frac(0)), 3 => off()].boxed()
}

struct C10 {
    kind: Kind,
    plain: bool,
}

impl Part for C10 {
    type Case = GrepCase;
    fn name(&self) -> &'static str {
        match (self.kind, self.plain) {
            (Kind::Dlt, true) => "plain-messages",
            (Kind::Dlt, _) => "any-buffer",
            (k, _) => k.name(),
        }
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<GrepCase> {
        let b = match (self.kind, self.plain) {
            (Kind::Dlt, true) => plain_bufs(),
            (Kind::Dlt, _) => soup(Style::SMALL),
            (k, _) => rec_bufs(k),
        };
        let p = prop_oneof![
            5 => pat(true),
            1 => prop::sample::select(vec!["H", "Hello World", "o", "", "World"]).prop_map(|s| Pat::Lit(s.into())),
            1 => Just(Pat::Cat(vec![Pat::Lit("H".into()), Pat::Star(Box::new(Pat::Dot), false), Pat::Lit(" World".into())])),
        ];
        (b, p, offs()).prop_map(|(buf, pat, off)| GrepCase { buf, pat, off }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        self.kind.share(if tier == Tier::Quick { 200_000 } else { 4_000_000 })
    }
    fn check(&self, c: &GrepCase, cx: &mut Cx) -> Outcome {
        let b = &c.buf.0;
        if self.kind == Kind::Dlt {
            let start = c.off.of::<Dlt>(b);
            return go10::<Dlt, _>(b, &c.pat.re(), start, cx, || DltGrepIterator::new(&c.pat.re(), b, start));
        }
        by_kind!(self.kind, F => {
            let start = c.off.of::<F>(b);
            go10::<F, _>(b, &c.pat.re(), start, cx, || GrepIterator::<<F as Form>::T>::new(&c.pat.re(), b, start))
        })
    }
}

/// (comparable with sequential reading from `start`, messages from there)
fn frame_of<F: Format>(b: &[u8], start: usize, cx: &mut Cx) -> (bool, Vec<(usize, usize)>) {
    let all = scan::<F>(b, 0);
    let emb = embeds::<F>(b, &all);
    let within = all.iter().any(|m| m.0 < start && start < m.0 + m.1);
    cx.label_if(emb, "embedded patterns (soundness only)");
    cx.label_if(within, "start inside a message (soundness only)");
    cx.label_if(!emb && !within, "compared with sequential reading");
    (!emb && !within, all.into_iter().filter(|m| m.0 >= start).collect())
}

fn interesting<F: Format>(re: &Regex, b: &[u8], msgs: &[(usize, usize)], hits: usize, cx: &mut Cx) {
    let odd = re.find(b).is_some_and(|m| !msgs.iter().any(|x| x.0 + F::MARKER.len() <= m.start() && m.end() <= x.0 + x.1));
    cx.label_if(odd, "leftmost match not inside one message");
    cx.label_if(hits > 0, "matching message");
    cx.label_if(re.find(b).is_some_and(|m| m.is_empty()), "empty match");
    cx.nontrivial_if(odd || (hits > 0 && hits < msgs.len()));
}

pub fn go10<'a, F: Form<'a>, I: Iterator<Item = (usize, F::T)>>(b: &'a [u8], re: &str, start: usize, cx: &mut Cx, it: impl Fn() -> I) -> Outcome {
    let Ok(rx) = Regex::new(re) else {
        cx.label("pattern not accepted by the regex crate");
        return Ok(());
    };
    let (complete, msgs) = frame_of::<F>(b, start, cx);
    let k = F::MARKER.len();
    let want: Vec<_> = msgs.iter().copied().filter(|m| rx.is_match(&b[m.0 + k..m.0 + m.1])).collect();
    interesting::<F>(&rx, b, &msgs, want.len(), cx);
    let what = format!("grep for {re:?} from byte {start}");
    let got = drive_ways(it, |x| x.0, b.len() + 9, &what)?;
    let mut last = None;
    for (o, t) in &got {
        ensure(*o + k <= b.len() && find(b, F::MARKER, *o) == Some(*o), || format!("{what}: result at byte {o} is not at a storage pattern"))?;
        let Some(n) = F::frame(&b[*o..]) else { return Err(format!("{what}: result at byte {o} is not a complete message")) };
        F::same(t, b, *o, n).map_err(|e| format!("{what}: result at byte {o}: {e}"))?;
        ensure(rx.is_match(&b[o + k..o + n]), || format!("{what}: the message at byte {o} (length {n}) contains no match"))?;
        ensure(last.is_none_or(|l| l < *o), || format!("{what}: result at byte {o} follows one at byte {last:?}"))?;
        last = Some(*o);
    }
    if complete {
        same_list::<F>(&got, &want, b, &what)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

struct C11(Kind);

impl Part for C11 {
    type Case = GrepCase;
    fn name(&self) -> &'static str {
        self.0.name()
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<GrepCase> {
        // the first group stands unconditionally in the pattern, so it takes part in every match
        let p = (prop::option::of(pat(false)), pat(true), prop::option::of(pat(true))).prop_map(|(a, g, z)| {
            let mut v: Vec<Pat> = a.into_iter().collect();
            v.push(Pat::Group(Box::new(g)));
            v.extend(z);
            Pat::Cat(v)
        });
        let simple = prop::sample::select(vec![("", "H"), ("", "World"), ("H", "ello"), ("key=", "value"), ("", "o"), ("l", "d?"), ("", "")])
            .prop_map(|(a, g)| Pat::Cat(vec![Pat::Lit(a.into()), Pat::Group(Box::new(Pat::Lit(g.into())))]));
        let b = if self.0 == Kind::Dlt { plain_bufs() } else { rec_bufs(self.0) };
        (b, prop_oneof![5 => p, 1 => simple], offs()).prop_map(|(buf, pat, off)| GrepCase { buf, pat, off }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        self.0.share(if tier == Tier::Quick { 250_000 } else { 5_000_000 })
    }
    fn check(&self, c: &GrepCase, cx: &mut Cx) -> Outcome {
        let b = &c.buf.0;
        by_kind!(self.0, F => {
            let start = c.off.of::<F>(b);
            go11::<F, _>(b, &c.pat.re(), start, cx, || RegExMatcherIterator::<<F as Form>::T>::new(&c.pat.re(), b, start))
        })
    }
}

pub fn go11<F: Format, I: Iterator<Item = (usize, (usize, usize))>>(b: &[u8], re: &str, start: usize, cx: &mut Cx, it: impl Fn() -> I) -> Outcome {
    let Ok(rx) = Regex::new(re) else {
        cx.label("pattern not accepted by the regex crate");
        return Ok(());
    };
    let (complete, msgs) = frame_of::<F>(b, start, cx);
    let k = F::MARKER.len();
    let want: Vec<(usize, (usize, usize))> = msgs
        .iter()
        .filter_map(|m| {
            let s = m.0 + k;
            let g = rx.captures(&b[s..m.0 + m.1])?.get(1).expect("HARNESS: group 1 has to take part");
            Some((m.0, (s + g.start(), s + g.end())))
        })
        .collect();
    interesting::<F>(&rx, b, &msgs, want.len(), cx);
    let what = format!("captures of {re:?} from byte {start}");
    let got = drive_ways(it, |x| x.0, b.len() + 9, &what)?;
    for (o, r) in &got {
        let n = if find(b, F::MARKER, *o) == Some(*o) { F::frame(&b[*o..]) } else { None };
        let Some(n) = n else { return Err(format!("{what}: result at byte {o} is not a complete message")) };
        ensure(r.0 <= r.1 && o + k <= r.0 && r.1 <= o + n, || format!("{what}: range {r:?} is not inside the message at bytes {o}..{}", o + n))?;
    }
    if complete {
        ensure(got == want, || {
            let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
            format!("{what}: result {i} is {:?}, expected {:?} ({} results, {} expected)", got.get(i), want.get(i), got.len(), want.len())
        })?;
    }
    Ok(())
}


/// Messages and gaps of up to and beyond the longest legal message, with matches anywhere in them.
struct Huge {
    capture: bool,
}

impl Part for Huge {
    type Case = GrepCase;
    fn name(&self) -> &'static str {
        "huge"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<GrepCase> {
        use proptest::collection::vec;
        let fill = dict::mixed(prop_oneof![2 => 0u32..300, 2 => 30_000u32..36_000, 1 => 60_000u32..66_000].boxed(), 5, 17, 65_531, |n| n as u32);
        let piece = (prop_oneof![Just(b".".to_vec()), Just(b"\n".to_vec()), Just(vec![0]), Just(b"H ".to_vec())], fill, text()).prop_map(|(f, n, t)| {
            let mut v = f.repeat(n as usize / f.len());
            v.extend_from_slice(t.as_bytes());
            v
        });
        let m = (any::<bool>(), vec(piece, 0..4), prop::option::weighted(0.1, 0usize..30)).prop_map(|(gap, ps, below)| {
            let mut body = ps.concat();
            if let Some(d) = below {
                // (almost) the longest message, its end as it is
                let n = 65531 - d;
                body.drain(..body.len().saturating_sub(n));
                body.splice(0..0, std::iter::repeat_n(b'.', n.saturating_sub(body.len())));
            }
            no_pattern(&mut body);
            if gap {
                return body;
            }
            body.truncate(65531);
            let mut m = storage(5, 6, b"ECU1");
            m.extend_from_slice(&[0x20, 0]);
            m.extend_from_slice(&(body.len() as u16 + 4).to_be_bytes());
            m.extend(body);
            m
        });
        // nothing that runs on without bound: searching takes time quadratic in the length of a line then
        let (a, b) = (Pat::Lit("H".into()), Pat::Lit(" World".into()));
        let some = Pat::Rep(Box::new(Pat::Dot), 0, Some(9), false);
        let lits = prop::sample::select(vec!["Hello World", "o", "", "World", "again", "key=value;", "DLT", "\u{1}", "ECU1", "12:34"]).prop_map(|s| Pat::Group(Box::new(Pat::Lit(s.into()))));
        let p = prop_oneof![6 => lits, 1 => Just(Pat::Group(Box::new(Pat::Cat(vec![a.clone(), some.clone(), b.clone()])))), 1 => Just(Pat::Cat(vec![Pat::Group(Box::new(a)), some, b]))];
        (vec(m, 0..6).prop_map(|v| B(v.concat())), p, offs()).prop_map(|(buf, pat, off)| GrepCase { buf, pat, off }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 4_000 } else { 100_000 }
    }
    fn check(&self, c: &GrepCase, cx: &mut Cx) -> Outcome {
        let (b, re) = (&c.buf.0, c.pat.re());
        let start = c.off.of::<Dlt>(b);
        cx.sample = Some(format!("{re:?} from byte {start} of {} bytes, messages {:?}", b.len(), scan::<Dlt>(b, 0)));
        if self.capture {
            go11::<Dlt, _>(b, &re, start, cx, || RegExMatcherIterator::<DltStorageEntry>::new(&re, b, start))
        } else {
            go10::<Dlt, _>(b, &re, start, cx, || DltGrepIterator::new(&re, b, start))
        }
    }
}

/// Tens of thousands of messages, matches in many or few of them.
struct Many {
    capture: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ManyCase {
    log: Long<Vec<Item>>,
    pat: Pat,
    at: u32,
}

impl Part for Many {
    type Case = ManyCase;
    fn name(&self) -> &'static str {
        "many-messages"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<ManyCase> {
        let lits = prop::sample::select(vec!["Hello World", "o", "", "World", "again", "key=value;", "DLT", "\u{1}", "ECU1", "12:34", "H World", "aab", "D", "T"]).prop_map(|s| Pat::Group(Box::new(Pat::Lit(s.into()))));
        let some = Pat::Rep(Box::new(Pat::Dot), 0, Some(9), false);
        let (a, b) = (Pat::Lit("H".into()), Pat::Lit(" World".into()));
        let p = prop_oneof![4 => lits, 1 => Just(Pat::Group(Box::new(Pat::Cat(vec![a.clone(), some.clone(), b])))), 1 => Just(Pat::Cat(vec![Pat::Group(Box::new(a)), some])), 1 => Just(Pat::Group(Box::new(Pat::Any)))];
        (long_log(Style::PLAIN), p, any::<u32>()).prop_map(|(mut log, pat, at)| {
            log.kib = log.kib % 700 + 1;
            ManyCase { log, pat, at }
        }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 300 } else { 10_000 }
    }
    fn check(&self, c: &ManyCase, cx: &mut Cx) -> Outcome {
        let (b, msgs) = c.log.lay_out();
        let re = c.pat.re();
        let start = if c.at % 3 > 0 { 0 } else { msgs.get(c.at as usize % (msgs.len() + 1)).map_or(b.len(), |m| m.0) };
        cx.sample = Some(format!("{re:?} from byte {start} of {} bytes, {} messages", b.len(), msgs.len()));
        cx.label_if(msgs.len() > 1000, "over 1000 messages");
        if self.capture {
            go11::<Dlt, _>(&b, &re, start, cx, || RegExMatcherIterator::<DltStorageEntry>::new(&re, &b, start))
        } else {
            go10::<Dlt, _>(&b, &re, start, cx, || DltGrepIterator::new(&re, &b, start))
        }
    }
}

/// Patterns that take up much room once compiled.
struct LargePatterns {
    capture: bool,
}

impl Part for LargePatterns {
    type Case = GrepCase;
    fn name(&self) -> &'static str {
        "large-patterns"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<GrepCase> {
        (plain_bufs(), prop::option::of(large_pat()), large_pat(), offs())
            .prop_map(|(buf, a, g, off)| GrepCase { buf, pat: Pat::Cat(a.into_iter().chain([Pat::Group(Box::new(g))]).collect()), off })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 3_000 } else { 60_000 }
    }
    fn check(&self, c: &GrepCase, cx: &mut Cx) -> Outcome {
        let (b, re) = (&c.buf.0, c.pat.re());
        let start = c.off.of::<Dlt>(b);
        if self.capture {
            go11::<Dlt, _>(b, &re, start, cx, || RegExMatcherIterator::<DltStorageEntry>::new(&re, b, start))
        } else {
            go10::<Dlt, _>(b, &re, start, cx, || DltGrepIterator::new(&re, b, start))
        }
    }
}
