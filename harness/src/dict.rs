//! Constants of the code under test as generator input: sizes, values and texts that the code names are worth trying.
//!
//! The literals (and products, shifts and sums of literals) of the repository's non-test sources are read once per run.
//! They only ever choose inputs; no verdict depends on them. A case stays a pure function of the seed, its index and
//! the source tree, and what is recorded in a replay file is the case itself.

use proptest::prelude::*;
use proptest::strategy::Union;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}

/// Numbers up to this one are common in all generators anyway.
const SMALL: u64 = 16;

#[derive(PartialEq, Debug, Clone)]
enum Tok {
    Num(u64),
    Op(&'static str),
    Other,
}

fn number(s: &[u8]) -> Option<u64> {
    let t: String = s.iter().filter(|c| **c != b'_').map(|c| *c as char).collect();
    let (digits, radix) = match t.get(..2) {
        Some("0x") => (&t[2..], 16),
        Some("0b") => (&t[2..], 2),
        Some("0o") => (&t[2..], 8),
        _ => (&t[..], 10),
    };
    let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
    // a type suffix or nothing
    match &digits[end..] {
        "" | "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "u128" | "i128" => u64::from_str_radix(&digits[..end], radix).ok(),
        _ => None,
    }
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] != b'\\' || i + 1 >= s.len() {
            out.push(s[i]);
            i += 1;
            continue;
        }
        i += 2;
        match s[i - 1] {
            b'n' => out.push(b'\n'),
            b'r' => out.push(b'\r'),
            b't' => out.push(b'\t'),
            b'0' => out.push(0),
            b'x' if i + 2 <= s.len() => {
                if let Some(x) = std::str::from_utf8(&s[i..i + 2]).ok().and_then(|h| u8::from_str_radix(h, 16).ok()) {
                    out.push(x);
                }
                i += 2;
            }
            b'u' => {
                let e = s[i..].iter().position(|c| *c == b'}').map_or(s.len(), |e| i + e);
                if let Some(c) = s.get(i + 1..e).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32) {
                    out.extend(c.to_string().bytes());
                }
                i = (e + 1).min(s.len());
            }
            b'\n' => {
                while i < s.len() && s[i].is_ascii_whitespace() {
                    i += 1;
                }
            }
            c => out.push(c),
        }
    }
    out
}

/// The literals of one source file, up to its unit tests.
pub fn scan(src: &[u8], nums: &mut BTreeSet<u64>, strs: &mut BTreeSet<Vec<u8>>) {
    let mut toks = vec![];
    let mut i = 0;
    let at = |i: usize| src.get(i).copied().unwrap_or(0);
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < src.len() {
        let c = src[i];
        if src[i..].starts_with(b"#[cfg(test)]") {
            break;
        } else if src[i..].starts_with(b"//") {
            while i < src.len() && src[i] != b'\n' {
                i += 1;
            }
        } else if src[i..].starts_with(b"/*") {
            i = src[i..].windows(2).position(|w| w == b"*/").map_or(src.len(), |e| i + e + 2);
        } else if c == b'"' {
            let mut e = i + 1;
            while e < src.len() && src[e] != b'"' {
                e += if src[e] == b'\\' { 2 } else { 1 };
            }
            let e = e.min(src.len());
            strs.insert(unescape(&src[i + 1..e]));
            i = e + 1;
            toks.push(Tok::Other);
        } else if c == b'\'' && (at(i + 1) == b'\\' || at(i + 2) == b'\'') {
            let e = src[i + 2..].iter().position(|c| *c == b'\'').map_or(src.len(), |e| i + 2 + e);
            i = e + 1;
            toks.push(Tok::Other);
        } else if c.is_ascii_digit() {
            let e = (i..src.len()).find(|e| !word(src[*e])).unwrap_or(src.len());
            // neither fractions nor tuple fields
            let frac = i > 0 && src[i - 1] == b'.' && (i < 2 || src[i - 2] != b'.') || at(e) == b'.' && at(e + 1).is_ascii_digit();
            toks.push(if frac { Tok::Other } else { number(&src[i..e]).map_or(Tok::Other, Tok::Num) });
            i = e;
        } else if word(c) {
            i = (i..src.len()).find(|e| !word(src[*e])).unwrap_or(src.len());
            toks.push(Tok::Other);
        } else if src[i..].starts_with(b"<<") {
            toks.push(Tok::Op("<<"));
            i += 2;
        } else if matches!(c, b'*' | b'+' | b'-') {
            toks.push(Tok::Op(match c {
                b'*' => "*",
                b'+' => "+",
                _ => "-",
            }));
            i += 1;
        } else {
            if !c.is_ascii_whitespace() {
                toks.push(Tok::Other);
            }
            i += 1;
        }
    }
    // literals, and what neighbouring ones amount to
    for (i, t) in toks.iter().enumerate() {
        let Tok::Num(mut x) = *t else { continue };
        nums.insert(x);
        let mut j = i + 1;
        while let (Some(Tok::Op(op)), Some(Tok::Num(y))) = (toks.get(j), toks.get(j + 1)) {
            let r = match *op {
                "*" => x.checked_mul(*y),
                "+" => x.checked_add(*y),
                "-" => x.checked_sub(*y),
                _ => u32::try_from(*y).ok().and_then(|y| x.checked_shl(y)),
            };
            let Some(r) = r else { break };
            nums.insert(r);
            x = r;
            j += 2;
        }
    }
}

fn read(dir: &Path, depth: u32, nums: &mut BTreeSet<u64>, strs: &mut BTreeSet<Vec<u8>>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    es.sort();
    for p in es {
        if p.is_dir() {
            let skip = p.file_name().is_some_and(|n| n == "target" || n == "tests" || n == "benches" || n == ".git");
            if !skip && depth > 0 {
                read(&p, depth - 1, nums, strs);
            }
        } else if p.extension().is_some_and(|e| e == "rs") {
            scan(&std::fs::read(&p).unwrap_or_default(), nums, strs);
        }
    }
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (mut nums, mut strs) = (BTreeSet::new(), BTreeSet::new());
        let root = std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into());
        for krate in ["matchit", "rapiddlt", "ripdlt", "dd_dlt"] {
            read(&Path::new(&root).join(krate).join("src"), 6, &mut nums, &mut strs);
        }
        Dict {
            nums: nums.into_iter().filter(|n| *n > SMALL).collect(),
            strs: strs.into_iter().filter(|s| !s.is_empty() && s.len() <= 80 && !s.contains(&b'{')).collect(),
        }
    })
}

/// A number of the code or one close to it, in the given range; None if there is none.
pub fn num(lo: u64, hi: u64) -> Option<BoxedStrategy<u64>> {
    let base: Vec<u64> = get().nums.iter().copied().filter(|n| (lo..=hi).contains(n)).collect();
    if base.is_empty() {
        return None;
    }
    let s = prop_oneof![
        6 => (-1i64..=1).boxed(),
        2 => (-3i64..=3).boxed(),
        // less a header, or more
        2 => prop::sample::select(vec![-4i64, -16, -20, -34, 4, 16, 20, 34]).boxed(),
        1 => (0i64..64).boxed(),
    ];
    Some((prop::sample::select(base), s, prop_oneof![5 => Just(1u64), 1 => 2u64..4]).prop_map(move |(b, d, t)| b.saturating_mul(t).saturating_add_signed(d).clamp(lo, hi)).boxed())
}

/// `base`, and once in `of` times a number of the code.
pub fn mixed<T: Clone + std::fmt::Debug + 'static>(base: BoxedStrategy<T>, of: u32, lo: u64, hi: u64, conv: fn(u64) -> T) -> BoxedStrategy<T> {
    match num(lo, hi) {
        None => base,
        Some(n) => Union::new_weighted(vec![(of - 1, base), (1, n.prop_map(conv).boxed())]).boxed(),
    }
}

/// A string of the code; None if there is none that fits.
pub fn string(fits: fn(&[u8]) -> bool) -> Option<BoxedStrategy<Vec<u8>>> {
    let v: Vec<Vec<u8>> = get().strs.iter().filter(|s| fits(s)).cloned().collect();
    if v.is_empty() {
        None
    } else {
        Some(prop::sample::select(v).boxed())
    }
}

pub fn mixed_str<T: Clone + std::fmt::Debug + 'static>(base: BoxedStrategy<T>, of: u32, fits: fn(&[u8]) -> bool, conv: fn(Vec<u8>) -> T) -> BoxedStrategy<T> {
    match string(fits) {
        None => base,
        Some(s) => Union::new_weighted(vec![(of - 1, base), (1, s.prop_map(conv).boxed())]).boxed(),
    }
}
