//! Reference model, written from the DLT v1 wire layout and the property statements, sharing no code with /repo.

use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

/// Bytes: hex in JSON, escaped text in Debug.
#[derive(Clone, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct B(pub Vec<u8>);

impl fmt::Debug for B {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "b\"{}\"", show(&self.0, 400))
    }
}

pub fn show(b: &[u8], max: usize) -> String {
    let mut s: String = b.iter().take(max).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if b.len() > max {
        s.push_str(&format!("…[{} bytes]", b.len()));
    }
    s
}

impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut o = String::with_capacity(self.0.len() * 2);
        for b in &self.0 {
            o.push(char::from_digit((b >> 4) as u32, 16).unwrap());
            o.push(char::from_digit((b & 15) as u32, 16).unwrap());
        }
        s.serialize_str(&o)
    }
}

impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<B, D::Error> {
        let s = String::deserialize(d)?;
        let h: Option<Vec<u8>> = s
            .as_bytes()
            .chunks(2)
            .map(|c| {
                let a = (c[0] as char).to_digit(16)?;
                let b = (*c.get(1)? as char).to_digit(16)?;
                Some((a * 16 + b) as u8)
            })
            .collect();
        h.map(B).ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}

pub const MARK: &[u8; 4] = b"DLT\x01";

/// A record format: a marker, and the length of the record that starts at the beginning of some bytes (which begin
/// with the marker).
pub trait Format {
    const MARKER: &'static [u8];
    const MAX: usize;
    fn frame(b: &[u8]) -> Option<usize>;
}

pub struct Dlt;
impl Format for Dlt {
    const MARKER: &'static [u8] = MARK;
    const MAX: usize = 65535 + 16;
    fn frame(b: &[u8]) -> Option<usize> {
        if b.len() < 20 || &b[..4] != MARK {
            return None;
        }
        let n = b[18] as usize * 256 + b[19] as usize;
        if n < 4 || 16 + n > b.len() {
            return None;
        }
        Some(16 + n)
    }
}

/// First position >= from where `pat` starts in `b`.
pub fn find(b: &[u8], pat: &[u8], from: usize) -> Option<usize> {
    if pat.len() > b.len() {
        return None;
    }
    let last = b.len() - pat.len();
    let mut i = from;
    while i <= last {
        if b[i] == pat[0] && &b[i..i + pat.len()] == pat {
            return Some(i);
        }
        i += 1;
    }
    None
}

pub fn count_nonoverlapping(b: &[u8], pat: &[u8]) -> usize {
    let mut n = 0;
    let mut p = 0;
    while let Some(i) = find(b, pat, p) {
        n += 1;
        p = i + pat.len();
    }
    n
}

/// The sequential-reading rule: (offset, length) of every message from `start` on.
pub fn scan<F: Format>(b: &[u8], start: usize) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut pos = start;
    while let Some(m) = find(b, F::MARKER, pos) {
        match F::frame(&b[m..]) {
            Some(n) => {
                out.push((m, n));
                pos = m + n;
            }
            None => pos = m + F::MARKER.len(),
        }
    }
    out
}

/// All pattern positions.
pub fn markers<F: Format>(b: &[u8]) -> Vec<usize> {
    let mut out = vec![];
    let mut p = 0;
    while let Some(i) = find(b, F::MARKER, p) {
        out.push(i);
        p = i + 1;
    }
    out
}

/// All positions at which a complete record can be read.
pub fn images<F: Format>(b: &[u8]) -> Vec<(usize, usize)> {
    markers::<F>(b).into_iter().filter_map(|i| F::frame(&b[i..]).map(|n| (i, n))).collect()
}

/// Does any of `msgs` have a marker that begins inside it behind its own first byte?
pub fn embeds<F: Format>(b: &[u8], msgs: &[(usize, usize)]) -> bool {
    msgs.iter().any(|&(o, n)| find(&b[..(o + n + F::MARKER.len() - 1).min(b.len())], F::MARKER, o + 1).is_some())
}

// ---------------------------------------------------------------- DLT fields

#[derive(Debug, PartialEq, Clone)]
pub struct Fields<'a> {
    pub ecu: Option<u32>,
    pub tmsp: Option<u32>,
    pub ext: Option<&'a [u8]>,
    pub payload: Option<&'a [u8]>,
}

pub fn be32(b: &[u8]) -> u32 {
    (b[0] as u32) << 24 | (b[1] as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32
}
pub fn le32(b: &[u8]) -> u32 {
    (b[3] as u32) << 24 | (b[2] as u32) << 16 | (b[1] as u32) << 8 | b[0] as u32
}

/// Decodes the bytes behind the standard header.
pub fn fields(htyp: u8, tail: &[u8]) -> Fields<'_> {
    let mut pos = 0;
    let mut take = |on: bool, n: usize| -> Option<(usize, usize)> {
        if !on {
            return None;
        }
        let s = pos;
        pos += n;
        Some((s, pos))
    };
    let ecu = take(htyp & 0x04 != 0, 4);
    let _seid = take(htyp & 0x08 != 0, 4);
    let tmsp = take(htyp & 0x10 != 0, 4);
    let ext = take(htyp & 0x01 != 0, 10);
    let cut = |r: Option<(usize, usize)>| r.and_then(|(a, b)| if b <= tail.len() { Some(&tail[a..b]) } else { None });
    Fields {
        ecu: cut(ecu).map(be32),
        tmsp: cut(tmsp).map(be32),
        ext: cut(ext),
        payload: if pos <= tail.len() { Some(&tail[pos..]) } else { None },
    }
}

pub fn fixed_len(htyp: u8) -> usize {
    (if htyp & 4 != 0 { 4 } else { 0 }) + (if htyp & 8 != 0 { 4 } else { 0 }) + (if htyp & 0x10 != 0 { 4 } else { 0 }) + (if htyp & 1 != 0 { 10 } else { 0 })
}

/// A message as seen by the model: all of it taken from the raw bytes.
pub struct View<'a> {
    pub secs: u32,
    pub secu: [u8; 4],
    pub htyp: u8,
    pub total: usize,
    pub tail: &'a [u8],
}

pub fn view(b: &[u8], (o, n): (usize, usize)) -> View<'_> {
    View { secs: le32(&b[o + 4..]), secu: b[o + 12..o + 16].try_into().unwrap(), htyp: b[o + 16], total: n, tail: &b[o + 20..o + n] }
}

// ---------------------------------------------------------------- message construction

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Chunk {
    Bytes(B),
    /// bytes repeated until `1` bytes are there
    Rep(B, u32),
    Text(String),
    Msg(Box<Msg>),
    /// the first bytes of a message
    Cut(Box<Msg>, u16),
    /// storage header and standard header announcing an arbitrary length
    Fake(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Msg {
    pub secs: u32,
    pub us: i32,
    pub secu: B,
    pub htyp: u8,
    pub mcnt: u8,
    pub tail: Vec<Chunk>,
}

pub fn storage(secs: u32, us: i32, ecu: &[u8]) -> Vec<u8> {
    let mut v = MARK.to_vec();
    v.extend_from_slice(&secs.to_le_bytes());
    v.extend_from_slice(&us.to_le_bytes());
    v.extend_from_slice(ecu);
    v
}

impl Chunk {
    pub fn put(&self, v: &mut Vec<u8>) {
        match self {
            Chunk::Bytes(b) => v.extend_from_slice(&b.0),
            Chunk::Rep(b, n) => {
                for i in 0..*n as usize {
                    v.push(if b.0.is_empty() { 0 } else { b.0[i % b.0.len()] });
                }
            }
            Chunk::Text(t) => v.extend_from_slice(t.as_bytes()),
            Chunk::Msg(m) => v.extend(m.bytes()),
            Chunk::Cut(m, n) => {
                let b = m.bytes();
                let k = (*n as usize).min(b.len());
                v.extend_from_slice(&b[..k])
            }
            Chunk::Fake(n) => {
                v.extend(storage(1, 2, b"FAKE"));
                v.extend_from_slice(&[0x20, 0]);
                v.extend_from_slice(&n.to_be_bytes());
            }
        }
    }
}

impl Msg {
    pub fn tail_bytes(&self) -> Vec<u8> {
        let mut t = vec![];
        for c in &self.tail {
            c.put(&mut t);
        }
        t.truncate(65531);
        t
    }
    pub fn bytes(&self) -> Vec<u8> {
        let t = self.tail_bytes();
        let mut v = storage(self.secs, self.us, &self.secu.0);
        v.push(self.htyp);
        v.push(self.mcnt);
        v.extend_from_slice(&((t.len() + 4) as u16).to_be_bytes());
        v.extend(t);
        v
    }
}

/// Breaks every storage pattern in `v` by changing its last byte.
pub fn no_pattern(v: &mut [u8]) {
    let mut p = 0;
    while let Some(i) = find(v, MARK, p) {
        v[i + 3] = 0x02;
        p = i + 1;
    }
}

// ---------------------------------------------------------------- another record type

use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;

/// Marker, a length byte n, and n bytes: everything that is generic over the record type has to work for such records
/// too, with their other markers and small maximum lengths.
macro_rules! record_type {
    ($rec:ident, $form:ident, $marker:expr, $min:expr, $max:expr) => {
        #[derive(Debug, Clone, Copy, PartialEq)]
        pub struct $rec<'a>(pub &'a [u8]);

        pub struct $form;
        impl Format for $form {
            const MARKER: &'static [u8] = $marker;
            const MAX: usize = $marker.len() + 1 + $max;
            fn frame(b: &[u8]) -> Option<usize> {
                let k = $marker.len();
                if b.len() <= k || &b[..k] != $marker {
                    return None;
                }
                let n = b[k] as usize;
                if n < $min || n > $max || k + 1 + n > b.len() {
                    return None;
                }
                Some(k + 1 + n)
            }
        }

        impl<'a> FromBytesReadableTrait<'a> for $rec<'a> {
            fn try_read(bytes: &'a [u8]) -> Option<(usize, Self)> {
                let n = $form::frame(bytes)?;
                Some((n, $rec(&bytes[..n])))
            }
            fn len(&self) -> usize {
                self.0.len()
            }
            fn max_len() -> usize {
                $form::MAX
            }
        }

        impl<'a> SearchableMarkerTrait<'a> for $rec<'a> {
            fn marker() -> &'static [u8] {
                $marker
            }
            fn try_read_valid_marker(bytes: &'a [u8]) -> Option<(usize, Self)> {
                // as the name says, the marker itself is not looked at again
                let k = $marker.len();
                let n = *bytes.get(k)? as usize;
                if n < $min || n > $max {
                    return None;
                }
                Some((k + 1 + n, $rec(bytes.get(..k + 1 + n)?)))
            }
        }
    };
}

pub const REC_MAX_BODY: usize = 20;

record_type!(Rec, RecF, b"#>", 0, REC_MAX_BODY);
// a marker of a single byte
record_type!(Rec1, Rec1F, b"~", 0, REC_MAX_BODY);
// a marker of ten bytes, every record of the same length
record_type!(RecL, RecLF, b"#=RECORD=>", 5, 5);

/// Which record type a part is about.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Dlt,
    Rec,
    Rec1,
    RecL,
}

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Dlt => "dlt",
            Kind::Rec => "other-record-type",
            Kind::Rec1 => "one-byte-marker",
            Kind::RecL => "long-marker",
        }
    }
    /// Out of `n` cases for the first other record type.
    pub fn share(self, n: u64) -> u64 {
        if matches!(self, Kind::Rec1 | Kind::RecL) { n / 4 } else { n }
    }
    /// A buffer of `Rec` records as one of records of this type.
    pub fn convert(self, b: B) -> B {
        let (marker, fixed): (&[u8], bool) = match self {
            Kind::Rec1 => (Rec1F::MARKER, false),
            Kind::RecL => (RecLF::MARKER, true),
            _ => return b,
        };
        let b = b.0;
        let mut v = vec![];
        let mut i = 0;
        while i < b.len() {
            match RecF::frame(&b[i..]) {
                Some(n) if fixed => {
                    v.extend_from_slice(marker);
                    v.push(5);
                    let body = &b[i + 3..i + n];
                    v.extend((0..5).map(|k| body.get(k).copied().unwrap_or(b'_')));
                    i += n;
                }
                _ if b[i..].starts_with(RecF::MARKER) => {
                    v.extend_from_slice(marker);
                    i += 2;
                }
                _ => {
                    v.push(b[i]);
                    i += 1;
                }
            }
        }
        B(v)
    }
}
