//! Strategies.

use crate::dict;
use crate::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::Union;

pub fn id4() -> BoxedStrategy<B> {
    let base = prop_oneof![
        4 => prop::sample::select(vec!["ECU1", "ECU2", "E001", "HMI\0", "abcd"]).prop_map(|s| B(s.as_bytes().to_vec())),
        2 => any::<[u8; 4]>().prop_map(|a| B(a.to_vec())),
    ]
    .boxed();
    let named = dict::mixed_str(base, 25, |s| s.len() <= 4, |mut s| { s.resize(4, 0); B(s) });
    dict::mixed(named, 40, 0, u32::MAX as u64, |n| B((n as u32).to_be_bytes().to_vec()))
}

/// ids of printable ASCII, for the command line tools
pub fn id4_ascii() -> BoxedStrategy<B> {
    let base = prop_oneof![
        6 => prop::sample::select(vec!["ECU1", "ECU2", "E001", "abcd"]).prop_map(|s| B(s.as_bytes().to_vec())),
        1 => vec(0x20u8..0x7f, 4).prop_map(B),
    ]
    .boxed();
    dict::mixed_str(base, 25, |s| s.len() <= 4 && s.iter().all(|c| (0x20..0x7f).contains(c)), |mut s| { s.resize(4, b' '); B(s) })
}

pub fn u32s() -> BoxedStrategy<u32> {
    let base = prop_oneof![
        4 => 0u32..20,
        1 => prop::sample::select(vec![0u32, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x0154_4c44, 0x444c_5401]),
        2 => any::<u32>(),
    ]
    .boxed();
    dict::mixed(base, 15, 0, u32::MAX as u64, |n| n as u32)
}

pub fn i32s() -> BoxedStrategy<i32> {
    let base = prop_oneof![3 => 0i32..1_000_000, 1 => prop::sample::select(vec![0, -1, i32::MIN, i32::MAX, 999_999]), 1 => any::<i32>()].boxed();
    dict::mixed(base, 15, 0, u32::MAX as u64, |n| n as i32)
}

pub fn bytes(max: usize) -> BoxedStrategy<B> {
    prop_oneof![
        3 => vec(any::<u8>(), 0..=max),
        2 => vec(prop::sample::select(b"DLT\x01\x00\x04#>A".to_vec()), 0..=max),
    ]
    .prop_map(B)
    .boxed()
}

pub fn text() -> BoxedStrategy<String> {
    let base = prop::sample::select(vec![
        "Hello World", "Hello World, again", "xHello World", "H World", "Hello", "World", " World", "H", "Hello\nWorld", "H\n World", "DLT", "\u{1}", "abc", "aab", "12:34",
        "hello world", "Hello  World H World", "key=value;", "ö\u{20ac}", "",
    ])
    .prop_map(String::from)
    .boxed();
    dict::mixed_str(base, 20, |s| std::str::from_utf8(s).is_ok(), |s| String::from_utf8(s).unwrap())
}

/// How messages are made.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Style {
    /// tails hold at least the headers the flags announce
    pub whole_headers: bool,
    /// messages and patterns inside messages
    pub embedded: bool,
    /// tails up to the longest legal one
    pub huge: bool,
    /// ids are printable ASCII
    pub ascii: bool,
}

impl Style {
    pub const ANY: Style = Style { whole_headers: false, embedded: true, huge: true, ascii: false };
    pub const SMALL: Style = Style { whole_headers: false, embedded: true, huge: false, ascii: false };
    pub const PLAIN: Style = Style { whole_headers: false, embedded: false, huge: false, ascii: false };
    pub const CLI: Style = Style { whole_headers: true, embedded: true, huge: false, ascii: true };
}

fn leaf_chunk(huge: bool) -> BoxedStrategy<Chunk> {
    let mut v: Vec<(u32, BoxedStrategy<Chunk>)> = vec![
        (6, bytes(24).prop_map(Chunk::Bytes).boxed()),
        (4, text().prop_map(Chunk::Text).boxed()),
        (1, (bytes(6), dict::mixed((0u32..400).boxed(), 8, 0, if huge { 65531 } else { 8192 }, |n| n as u32)).prop_map(|(b, n)| Chunk::Rep(b, n)).boxed()),
    ];
    if huge {
        v.push((
            1,
            (bytes(6), prop_oneof![2 => 65480u32..=65531, 1 => 200u32..65531, 1 => 65510u32..=65531, 1 => prop::sample::select(vec![65531u32, 65530, 65515, 65517, 65519, 32763, 32764, 32765, 32768, 252, 251, 255, 256])])
                .prop_map(|(b, n)| Chunk::Rep(b, n))
                .boxed(),
        ));
    }
    Union::new_weighted(v).boxed()
}

fn chunk(style: Style, depth: u32) -> BoxedStrategy<Chunk> {
    if !style.embedded || depth == 0 {
        return leaf_chunk(style.huge && depth > 0 || style.huge);
    }
    let inner = Style { huge: false, ..style };
    prop_oneof![
        10 => leaf_chunk(style.huge),
        4 => msg_d(inner, depth - 1).prop_map(|m| Chunk::Msg(Box::new(m))),
        2 => (msg_d(inner, depth - 1), 0u16..80).prop_map(|(m, n)| Chunk::Cut(Box::new(m), n)),
        2 => dict::mixed(prop_oneof![0u16..8, 0u16..200, any::<u16>()].boxed(), 20, 0, 65535, |n| n as u16).prop_map(Chunk::Fake),
        1 => Just(Chunk::Bytes(B(MARK.to_vec()))),
    ]
    .boxed()
}

fn msg_d(style: Style, depth: u32) -> BoxedStrategy<Msg> {
    let ids = if style.ascii { id4_ascii() } else { id4() };
    let fixed = if style.embedded && !style.ascii {
        prop_oneof![12 => vec(any::<u8>(), 22), 1 => Just(b"DLT\x01DLT\x01DLT\x01DLT\x01DLT\x01DL".to_vec())].boxed()
    } else {
        vec(any::<u8>(), 22).boxed()
    };
    let fixed = dict::mixed_str(fixed, 30, |s| s.len() <= 4, |mut s| { s.resize(4, 0); s.repeat(6)[..22].to_vec() });
    let fixed = dict::mixed(fixed, 30, 0, u32::MAX as u64, |n| (n as u32).to_be_bytes().repeat(6)[..22].to_vec());
    let htyp = prop_oneof![2 => prop::sample::select(vec![0x20u8, 0x21, 0x31, 0x35, 0x3d, 0x34]), 1 => any::<u8>(), 1 => (0u8..32).prop_map(|x| x | 0x20)];
    let short = if style.whole_headers { Just(false).boxed() } else { prop::bool::weighted(0.15).boxed() };
    (u32s(), i32s(), ids, htyp, any::<u8>(), (fixed, u32s(), short, 0usize..22, prop::option::weighted(0.06, 1usize..11)), vec(chunk(style, depth), 0..4))
        .prop_map(|(secs, us, secu, htyp, mcnt, (mut fixed, tmsp, short, keep, spill), mut tail)| {
            let n = fixed_len(htyp);
            // small timestamps most of the time
            if htyp & 0x10 != 0 && fixed[0] != b'D' {
                let o = (if htyp & 4 != 0 { 4 } else { 0 }) + (if htyp & 8 != 0 { 4 } else { 0 });
                fixed[o..o + 4].copy_from_slice(&tmsp.to_be_bytes());
            }
            if short {
                fixed.truncate(keep);
                tail = vec![Chunk::Bytes(B(fixed))];
            } else {
                fixed.truncate(n);
                if let Some(k) = spill {
                    // text that begins in the header fields and goes on in the payload
                    let t = "Hello World";
                    let m = k.min(n);
                    fixed[n - m..].copy_from_slice(&t.as_bytes()[k - m..k]);
                    tail.insert(0, Chunk::Text(t[k..].into()));
                }
                tail.insert(0, Chunk::Bytes(B(fixed)));
            }
            Msg { secs, us, secu, htyp, mcnt, tail }
        })
        .boxed()
}

pub fn msg(style: Style) -> BoxedStrategy<Msg> {
    msg_d(style, if style.embedded { 3 } else { 0 })
}

/// Bytes without a storage pattern (but with beginnings of one).
pub fn junk() -> BoxedStrategy<B> {
    prop_oneof![
        3 => bytes(30),
        2 => vec(prop::sample::select(vec!["D", "DL", "DLT", "DLT\u{2}", "\u{1}", "LT\u{1}", "Hello World", "H", " World", "DLT\u{0}\u{1}"]), 0..5).prop_map(|v| B(v.concat().into_bytes())),
        1 => (bytes(5), dict::mixed((0u32..3000).boxed(), 10, 0, 30_000, |n| n as u32)).prop_map(|(b, n)| { let mut v = vec![]; Chunk::Rep(b, n).put(&mut v); B(v) }),
    ]
    .prop_map(|mut b| {
        no_pattern(&mut b.0);
        b
    })
    .boxed()
}

/// More bytes without a storage pattern than the longest message has.
pub fn long_junk() -> BoxedStrategy<B> {
    let n = prop_oneof![2 => 65400u32..66000, 1 => 60000u32..80000, 1 => 120_000u32..140_000].boxed();
    let n = dict::mixed(n, 10, 3000, 1_500_000, |n| n as u32);
    (prop_oneof![bytes(5), text().prop_map(|t| B(t.into_bytes()))], n)
        .prop_map(|(b, n)| {
            let mut v = vec![];
            Chunk::Rep(b, n).put(&mut v);
            no_pattern(&mut v);
            B(v)
        })
        .boxed()
}

/// A piece of a buffer.
#[derive(Clone, Debug)]
pub enum Piece {
    Msg(Msg),
    Junk(B),
    Raw(B),
    Fake(u16, B),
    Trunc(Msg, u16),
    /// message with its length field changed
    Relen(Msg, u16),
    Mark(u8),
}

impl Piece {
    pub fn put(&self, v: &mut Vec<u8>) {
        match self {
            Piece::Msg(m) => v.extend(m.bytes()),
            Piece::Junk(b) | Piece::Raw(b) => v.extend_from_slice(&b.0),
            Piece::Fake(n, b) => {
                Chunk::Fake(*n).put(v);
                v.extend_from_slice(&b.0);
            }
            Piece::Trunc(m, n) => {
                let b = m.bytes();
                let k = if *n < 300 { *n as usize } else { b.len() - ((*n - 300) as usize).min(b.len()) };
                v.extend_from_slice(&b[..k.min(b.len())]);
            }
            Piece::Relen(m, n) => {
                let mut b = m.bytes();
                b[18..20].copy_from_slice(&n.to_be_bytes());
                v.extend(b);
            }
            Piece::Mark(n) => v.extend_from_slice(&MARK[..(*n as usize).min(4)]),
        }
    }
}

pub fn piece(style: Style) -> BoxedStrategy<Piece> {
    let m = msg(style);
    prop_oneof![
        10 => m.clone().prop_map(Piece::Msg),
        3 => junk().prop_map(Piece::Junk),
        2 => bytes(40).prop_map(Piece::Raw),
        2 => (dict::mixed(prop_oneof![0u16..8, 0u16..300, any::<u16>()].boxed(), 20, 0, 65535, |n| n as u16), bytes(40)).prop_map(|(n, b)| Piece::Fake(n, b)),
        2 => (m.clone(), prop_oneof![0u16..60, 300u16..330]).prop_map(|(m, n)| Piece::Trunc(m, n)),
        2 => (m, dict::mixed(prop_oneof![2 => 0u16..5, 2 => 0u16..120, 1 => any::<u16>()].boxed(), 20, 0, 65535, |n| n as u16)).prop_map(|(m, n)| Piece::Relen(m, n)),
        2 => (1u8..=4).prop_map(Piece::Mark),
        (if style.huge { 1 } else { 0 }) => long_junk().prop_map(Piece::Junk),
    ]
    .boxed()
}

#[derive(Clone, Debug)]
enum Edit {
    Set(u16, u8),
    Del(u16, u8),
    Dup(u16, u8),
    Ins(u16, B),
}

fn edits(b: &mut Vec<u8>, es: &[Edit]) {
    let at = |p: u16, n: usize| if n == 0 { 0 } else { p as usize % n };
    for e in es {
        let n = b.len();
        match e {
            Edit::Set(p, x) => {
                if n > 0 {
                    let i = at(*p, n);
                    b[i] = *x
                }
            }
            Edit::Del(p, k) => {
                let i = at(*p, n);
                b.drain(i..(i + *k as usize).min(n));
            }
            Edit::Dup(p, k) => {
                let i = at(*p, n);
                let part = b[i..(i + *k as usize).min(n)].to_vec();
                for (j, x) in part.into_iter().enumerate() {
                    b.insert(i + j, x);
                }
            }
            Edit::Ins(p, s) => {
                let i = at(*p, n);
                for (j, x) in s.0.iter().enumerate() {
                    b.insert(i + j, *x);
                }
            }
        }
    }
}

/// Arbitrary buffers that look like logs to different degrees: message soups, mutated logs, raw bytes, tilings.
pub fn soup(style: Style) -> BoxedStrategy<B> {
    let join = |ps: Vec<Piece>| {
        let mut v = vec![];
        for p in &ps {
            p.put(&mut v);
        }
        v
    };
    let edit = prop_oneof![
        4 => (any::<u16>(), any::<u8>()).prop_map(|(p, x)| Edit::Set(p, x)),
        2 => (any::<u16>(), 0u8..30).prop_map(|(p, x)| Edit::Del(p, x)),
        2 => (any::<u16>(), 0u8..60).prop_map(|(p, x)| Edit::Dup(p, x)),
        2 => (any::<u16>(), prop_oneof![Just(B(MARK.to_vec())), bytes(8)]).prop_map(|(p, x)| Edit::Ins(p, x)),
    ];
    prop_oneof![
        6 => vec(piece(style), 0..10).prop_map(join),
        3 => (vec(piece(Style { huge: false, ..style }), 0..8).prop_map(join), vec(edit, 0..6)).prop_map(|(mut b, e)| { edits(&mut b, &e); b }),
        1 => vec(any::<u8>(), 0..60),
        2 => tiny_soup(),
        1 => nest(),
        (if style.huge { 3 } else { 1 }) => bordered(style),
    ]
    .prop_map(B)
    .boxed()
}

/// Dense little buffers out of atoms of the format: many markers, small lengths, overlapping images.
fn tiny_soup() -> BoxedStrategy<Vec<u8>> {
    vec(
        prop_oneof![
            4 => Just(MARK.to_vec()),
            3 => Just(storage(7, 8, b"ECU1")),
            2 => (0u8..90).prop_map(|n| { let mut v = storage(1, 1, b"ECU2"); v.extend_from_slice(&[0x20, 1, 0, n]); v }),
            2 => (0u8..90).prop_map(|n| vec![0x20, 0, 0, n]),
            1 => (0usize..20).prop_map(|n| vec![b'.'; n]),
            1 => prop::sample::select(vec![&b"D"[..], b"DL", b"DLT", b"\x01"]).prop_map(|s| s.to_vec()),
        ],
        0..24,
    )
    .prop_map(|v| v.concat())
    .boxed()
}

/// Messages nested exactly or shifted by a few bytes: the k-th payload is message k+1 after some filler, and the
/// declared lengths end before, at or behind the inner message's end.
fn nest() -> BoxedStrategy<Vec<u8>> {
    (vec((0usize..9, -6i32..7, any::<bool>()), 1..14), bytes(12))
        .prop_map(|(levels, core)| {
            let mut v = core.0;
            for (fill, d, behind) in levels {
                let mut inner = vec![b'f'; fill];
                inner.extend(&v);
                if behind {
                    inner.extend(vec![b'b'; fill]);
                }
                let n = (inner.len() as i32 + 4 + d).clamp(0, 65535) as u16;
                let mut m = storage(1, 2, b"NEST");
                m.extend_from_slice(&[0x20, 0]);
                m.extend_from_slice(&n.to_be_bytes());
                m.extend(inner);
                v = m;
            }
            v
        })
        .boxed()
}

/// A place at or around a multiple of a power of two (or of a number the code knows), counted from the buffer's start or from the end of what is there.
#[derive(Clone, Debug)]
pub struct Spot {
    step: u32,
    times: u8,
    delta: i8,
    start: bool,
    fill: B,
}

impl Spot {
    /// How many bytes are missing up to the place.
    fn gap(&self, len: usize) -> usize {
        let step = self.step as usize;
        let t = if self.start { (len / step + self.times as usize) * step } else { len + self.times as usize * step };
        (t as i64 + self.delta as i64 - len as i64).max(0) as usize
    }
    fn put(&self, v: &mut Vec<u8>) {
        let mut g = vec![];
        Chunk::Rep(self.fill.clone(), self.gap(v.len()) as u32).put(&mut g);
        no_pattern(&mut g);
        v.extend(g);
    }
}

fn spot(huge: bool) -> BoxedStrategy<Spot> {
    let step = if huge { prop_oneof![3 => 6u8..=13, 1 => 14u8..=17].boxed() } else { (4u8..=9).boxed() }.prop_map(|n| 1u32 << n).boxed();
    let step = dict::mixed(step, 8, 16, if huge { 300_000 } else { 2000 }, |n| n as u32);
    let fill = prop_oneof![3 => Just(B(b".".to_vec())), 1 => bytes(5), 1 => text().prop_map(|t| B(t.into_bytes())), 1 => Just(B(b"DLT".to_vec()))];
    (step, prop_oneof![4 => Just(1u8), 1 => 0u8..4], prop_oneof![3 => -4i8..=1, 1 => -24i8..=4], any::<bool>(), fill)
        .prop_map(|(step, times, delta, start, fill)| Spot { step, times: if step > 1 << 14 { 1 } else { times }, delta, start, fill })
        .boxed()
}

/// Pieces at block borders.
fn bordered(style: Style) -> BoxedStrategy<Vec<u8>> {
    let small = Style { huge: false, ..style };
    vec((prop_oneof![4 => spot(style.huge).prop_map(Some), 1 => Just(None)], piece(small)), 1..5)
        .prop_map(|ps| {
            let mut v = vec![];
            for (s, p) in &ps {
                if let Some(s) = s {
                    s.put(&mut v);
                }
                p.put(&mut v);
            }
            v
        })
        .boxed()
}

/// Messages at block borders.
fn bordered_log(style: Style, max: usize) -> BoxedStrategy<Vec<Item>> {
    let small = Style { huge: false, ..style };
    vec((prop_oneof![4 => spot(style.huge).prop_map(Some), 1 => Just(None)], msg(small)), 0..max)
        .prop_map(|ms| {
            let (mut out, mut len) = (vec![], 0);
            for (s, m) in ms {
                if let Some(s) = s {
                    let mut g = vec![];
                    Chunk::Rep(s.fill.clone(), s.gap(len) as u32).put(&mut g);
                    no_pattern(&mut g);
                    len += g.len();
                    out.push(Item::Gap(B(g)));
                }
                len += m.bytes().len();
                out.push(Item::Msg(m));
            }
            out
        })
        .boxed()
}

/// The same idea for the other record type.
pub fn rec_soup() -> BoxedStrategy<B> {
    let atom = prop_oneof![
        4 => (vec(any::<u8>(), 0..=REC_MAX_BODY)).prop_map(|b| { let mut v = vec![b'#', b'>', b.len() as u8]; v.extend(b); v }),
        3 => (0u8..30).prop_map(|n| vec![b'#', b'>', n]),
        2 => vec(prop::sample::select(b"#>\x00\x01\x05\x14\x15".to_vec()), 0..8),
        1 => Just(b"#>".to_vec()),
        1 => Just(b"#".to_vec()),
        1 => (0usize..30).prop_map(|n| vec![b'.'; n]),
        1 => vec(any::<u8>(), 0..10),
    ];
    let placed = vec((prop_oneof![2 => spot(false).prop_map(Some), 1 => spot(true).prop_map(Some), 1 => Just(None)], vec(atom.clone(), 1..3)), 1..4).prop_map(|ps| {
        let mut v = vec![];
        for (s, a) in ps {
            if let Some(s) = s {
                s.put(&mut v);
            }
            v.extend(a.concat());
        }
        v
    });
    prop_oneof![40 => vec(atom, 0..16).prop_map(|v| v.concat()), 1 => placed].prop_map(B).boxed()
}

/// A start offset: mostly inside the buffer (as a fraction), sometimes behind its end.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Off {
    Frac(u16),
    /// the n-th marker position plus a little
    Marker(u8, u8),
    Past(u16),
    Max,
    At(u32),
}

impl Off {
    pub fn of<F: Format>(&self, b: &[u8]) -> usize {
        match self {
            Off::Frac(f) => (b.len() * *f as usize + 32767) / 65535,
            Off::Marker(i, d) => {
                let m = markers::<F>(b);
                if m.is_empty() {
                    0
                } else {
                    (m[*i as usize % m.len()] + *d as usize).saturating_sub(4)
                }
            }
            Off::Past(n) => b.len() + *n as usize,
            Off::Max => usize::MAX,
            Off::At(n) => *n as usize,
        }
    }
}

pub fn off() -> BoxedStrategy<Off> {
    let base = prop_oneof![
        4 => Just(Off::Frac(0)),
        1 => Just(Off::Frac(65535)),
        3 => any::<u16>().prop_map(Off::Frac),
        4 => (any::<u8>(), 0u8..9).prop_map(|(a, b)| Off::Marker(a, b)),
        1 => prop_oneof![9 => (0u16..40).prop_map(Off::Past), 1 => Just(Off::Max)],
    ]
    .boxed();
    dict::mixed(base, 40, 0, 70_000, |n| Off::At(n as u32))
}

// ---------------------------------------------------------------- well-formed logs

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Item {
    Msg(Msg),
    Gap(B),
}

/// Messages with pattern-free bytes in between. Neighbouring gaps are joined by `lay_out` and cleaned together.
pub fn log(style: Style, max: usize) -> BoxedStrategy<Vec<Item>> {
    let gap = prop_oneof![9 => junk(), (if style.huge { 1 } else { 0 }) => long_junk()];
    let it = prop_oneof![5 => msg(style).prop_map(Item::Msg), 1 => gap.prop_map(Item::Gap)];
    prop_oneof![5 => vec(msg(style).prop_map(Item::Msg), 0..max), 10 => vec(it, 0..max), (if style.huge { 4 } else { 1 }) => bordered_log(style, max.min(6))].boxed()
}

pub struct Laid {
    pub bytes: Vec<u8>,
    /// offset and length, by construction
    pub msgs: Vec<(usize, usize)>,
    /// which item each message came from
    pub item: Vec<usize>,
}

pub fn lay_out(items: &[Item]) -> Laid {
    let mut l = Laid { bytes: vec![], msgs: vec![], item: vec![] };
    let mut gap: Vec<u8> = vec![];
    for (i, it) in items.iter().enumerate() {
        match it {
            Item::Gap(b) => gap.extend_from_slice(&b.0),
            Item::Msg(m) => {
                no_pattern(&mut gap);
                l.bytes.append(&mut gap);
                let b = m.bytes();
                l.msgs.push((l.bytes.len(), b.len()));
                l.item.push(i);
                l.bytes.extend(b);
            }
        }
    }
    no_pattern(&mut gap);
    l.bytes.append(&mut gap);
    l
}

// ---------------------------------------------------------------- long ones

/// A few units in irregular order, again and again.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Long<U> {
    pub units: Vec<U>,
    pub order: u32,
    pub kib: u16,
}

impl<U> Long<U> {
    /// Which units follow each other; `len` says how long each of them is.
    fn pick(&self, len: &[usize]) -> Vec<usize> {
        let mut out = vec![];
        let (mut x, mut total, end) = (self.order as u64, 0, self.kib as usize * 1024);
        if len.iter().all(|n| *n == 0) {
            return out;
        }
        while total < end {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let i = (x >> 33) as usize % len.len();
            // often the same one some times in a row
            for _ in 0..=((x >> 60) as usize % 8).saturating_sub(3) {
                out.push(i);
                total += len[i].max(1);
            }
        }
        out
    }
}

impl Long<B> {
    pub fn bytes(&self) -> Vec<u8> {
        let len: Vec<usize> = self.units.iter().map(|u| u.0.len()).collect();
        self.pick(&len).into_iter().flat_map(|i| self.units[i].0.iter().copied()).collect()
    }
}

impl Long<Vec<Item>> {
    /// The log and, by construction, its messages; it ends with a message.
    pub fn lay_out(&self) -> (Vec<u8>, Vec<(usize, usize)>) {
        let us: Vec<Laid> = self
            .units
            .iter()
            .map(|u| {
                let mut l = lay_out(u);
                // no gap at the end: it could form a pattern with the next unit's gap
                l.bytes.truncate(l.msgs.last().map_or(0, |m| m.0 + m.1));
                l
            })
            .collect();
        let len: Vec<usize> = us.iter().map(|u| u.bytes.len()).collect();
        let (mut b, mut m) = (vec![], vec![]);
        for i in self.pick(&len) {
            m.extend(us[i].msgs.iter().map(|(o, n)| (o + b.len(), *n)));
            b.extend_from_slice(&us[i].bytes);
        }
        (b, m)
    }
}

pub fn long<U: Clone + std::fmt::Debug + 'static>(unit: BoxedStrategy<U>) -> BoxedStrategy<Long<U>> {
    (vec(unit, 1..5), any::<u32>(), prop_oneof![1 => 20u16..400, 2 => 400u16..2000, 1 => 1500u16..2600]).prop_map(|(units, order, kib)| Long { units, order, kib }).boxed()
}

/// Units of small messages, so that there are many of them, and of any other ones.
pub fn long_log(style: Style) -> BoxedStrategy<Long<Vec<Item>>> {
    let small = prop_oneof![1 => Just(String::new()), 2 => text()].prop_map(|t| Msg { secs: 1, us: 0, secu: B(b"ECU1".to_vec()), htyp: 0x20, mcnt: 0, tail: vec![Chunk::Text(t)] });
    let one = prop_oneof![3 => small.clone().prop_map(Item::Msg), 1 => msg(style).prop_map(Item::Msg)];
    prop_oneof![2 => long(prop_oneof![3 => vec(small.prop_map(Item::Msg), 1..3), 1 => vec(one.clone(), 1..3)].boxed()), 2 => long(prop_oneof![1 => vec(one, 1..4).boxed(), 1 => log(style, 5)].boxed())].boxed()
}

pub fn long_soup() -> BoxedStrategy<Long<B>> {
    let small = prop_oneof![3 => (0u16..30).prop_map(|n| { let mut v = vec![]; Chunk::Fake(n).put(&mut v); v }), 3 => text().prop_map(|t| { let mut v = vec![]; Chunk::Fake(4 + t.len() as u16).put(&mut v); v.extend(t.bytes()); v }), 1 => tiny_soup()].prop_map(B);
    prop_oneof![2 => long(small.clone().boxed()), 3 => long(prop_oneof![1 => small.boxed(), 2 => soup(Style::SMALL)].boxed()), 1 => long(soup(Style::ANY))].boxed()
}

pub fn long_recs() -> BoxedStrategy<Long<B>> {
    prop_oneof![1 => long(rec_soup()), 1 => long(prop_oneof![Just(B(b"#>\x00".to_vec())), Just(B(b"#>\x05abcde".to_vec())), Just(B(b"#>\x15".to_vec())), Just(B(b"#>\x14".to_vec())), Just(B(b"#".to_vec()))].boxed())].boxed()
}

// ---------------------------------------------------------------- regular expressions

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Pat {
    Lit(String),
    Byte(u8),
    Class(u8, u8, bool),
    Dot,
    Any,
    Cat(Vec<Pat>),
    Alt(Vec<Pat>),
    Rep(Box<Pat>, u8, Option<u8>, bool),
    Star(Box<Pat>, bool),
    Plus(Box<Pat>, bool),
    Group(Box<Pat>),
    Icase(Box<Pat>),
    Bytes(Box<Pat>),
    /// A class by its Unicode name, one of `UNI`.
    Uni(u8),
    /// This many up to this many more.
    Many(Box<Pat>, u16, u16),
}

const UNI: [&str; 10] = [r"\w", r"\d", r"\s", r"\W", r"\p{L}", r"\p{Lu}", r"[^\s;=]", r"[a-zA-Z0-9_]", r"[[:alpha:]]", r"\p{Greek}"];

impl Pat {
    pub fn re(&self) -> String {
        match self {
            Pat::Lit(s) => regex::escape(s),
            Pat::Byte(b) => format!("(?-u:\\x{b:02x})"),
            Pat::Class(a, b, neg) => format!("(?-u:[{}\\x{:02x}-\\x{:02x}])", if *neg { "^" } else { "" }, a.min(b), a.max(b)),
            Pat::Dot => ".".into(),
            Pat::Any => "(?s-u:.)".into(),
            Pat::Cat(v) => v.iter().map(|p| p.re()).collect(),
            Pat::Alt(v) => format!("(?:{})", v.iter().map(|p| p.re()).collect::<Vec<_>>().join("|")),
            Pat::Rep(p, a, b, lazy) => {
                let hi = b.map(|b| (*a + b).to_string()).unwrap_or_default();
                format!("(?:{}){{{},{}}}{}", p.re(), a, hi, if *lazy { "?" } else { "" })
            }
            Pat::Star(p, lazy) => format!("(?:{})*{}", p.re(), if *lazy { "?" } else { "" }),
            Pat::Plus(p, lazy) => format!("(?:{})+{}", p.re(), if *lazy { "?" } else { "" }),
            Pat::Group(p) => format!("({})", p.re()),
            Pat::Icase(p) => format!("(?i:{})", p.re()),
            Pat::Bytes(p) => format!("(?s-u:{})", p.re()),
            Pat::Uni(i) => UNI[*i as usize % UNI.len()].into(),
            Pat::Many(p, a, b) => format!("(?:{}){{{},{}}}", p.re(), a, a + b),
        }
    }
}

/// Anchor-free, look-around-free patterns. `group`: whether capture groups may occur.
pub fn pat(group: bool) -> BoxedStrategy<Pat> {
    let lit = prop::sample::select(vec!["H", "Hello", " World", "World", "o", "l", "DLT", "a", "ab", "\u{1}", "T\u{1}", "ECU1", "ö", ":", "\0", "  ", "E", "DLT\u{1}"]);
    let leaf = prop_oneof![
        8 => lit.prop_map(|s| Pat::Lit(s.to_string())),
        1 => any::<u8>().prop_map(Pat::Byte),
        1 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(a, b, c)| Pat::Class(a, b, c)),
        2 => Just(Pat::Dot),
        2 => Just(Pat::Any),
        1 => any::<u8>().prop_map(Pat::Uni),
        1 => Just(Pat::Lit(String::new())),
    ];
    leaf.prop_recursive(4, 14, 4, move |inner| {
        let mut v: Vec<(u32, BoxedStrategy<Pat>)> = vec![
            (6, vec(inner.clone(), 1..5).prop_map(Pat::Cat).boxed()),
            (2, vec(inner.clone(), 1..4).prop_map(Pat::Alt).boxed()),
            (2, (inner.clone(), any::<bool>()).prop_map(|(p, l)| Pat::Star(Box::new(p), l)).boxed()),
            (2, (inner.clone(), any::<bool>()).prop_map(|(p, l)| Pat::Plus(Box::new(p), l)).boxed()),
            (2, (inner.clone(), 0u8..3, prop::option::of(0u8..4), any::<bool>()).prop_map(|(p, a, b, l)| Pat::Rep(Box::new(p), a, b, l)).boxed()),
            (1, inner.clone().prop_map(|p| Pat::Icase(Box::new(p))).boxed()),
            (1, inner.clone().prop_map(|p| Pat::Bytes(Box::new(p))).boxed()),
        ];
        if group {
            v.push((1, inner.prop_map(|p| Pat::Group(Box::new(p))).boxed()));
        }
        Union::new_weighted(v)
    })
    .boxed()
}

/// Patterns that are large once compiled: Unicode classes, repetitions counted in tens and hundreds, long lists of words.
/// They match what `text()` puts into messages now and then.
pub fn large_pat() -> BoxedStrategy<Pat> {
    let uni = || any::<u8>().prop_map(Pat::Uni);
    let many = || (prop_oneof![3 => uni(), 1 => Just(Pat::Dot), 1 => Just(Pat::Lit("o".into()))], prop_oneof![4 => Just(0u16), 1 => 1u16..12], prop_oneof![3 => 1u16..60, 1 => 60u16..400]).prop_map(|(p, a, b)| Pat::Many(Box::new(p), a, b));
    let plus = uni().prop_map(|p| Pat::Plus(Box::new(p), false));
    let words = vec(prop_oneof![1 => "[A-Za-z]{1,9}", 1 => prop::sample::select(vec!["Hello", "World", "ECU1", "key", "value", "again"]).prop_map(String::from)], 1..300)
        .prop_map(|w| Pat::Alt(w.into_iter().map(Pat::Lit).collect()));
    let lit = prop::sample::select(vec!["H", "Hello", "World", "o", "key=", "ECU1", " ", ":"]).prop_map(|s| Pat::Lit(s.into()));
    let atom = prop_oneof![3 => many(), 2 => plus, 2 => words, 2 => uni(), 2 => lit];
    (vec(atom, 1..4), any::<bool>()).prop_map(|(v, icase)| if icase { Pat::Icase(Box::new(Pat::Cat(v))) } else { Pat::Cat(v) }).boxed()
}
