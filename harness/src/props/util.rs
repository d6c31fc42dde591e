use crate::model::*;
use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;
use rapiddlt::dlt_v1::DltStorageEntry;
use zerocopy::AsBytes;

pub type Res = Result<(), String>;

/// Runs an iterator to its end: it may not yield more than `cap` items, and has to stay at its end.
pub fn drive<I: Iterator>(mut it: I, cap: usize, what: &str) -> Result<Vec<I::Item>, String> {
    let mut out = vec![];
    // what size_hint() says on the way has to hold as well
    let (mut least, mut most) = (0, usize::MAX);
    let mut hints = |it: &I, n: usize| {
        let h = it.size_hint();
        least = least.max(n.saturating_add(h.0));
        most = most.min(h.1.map_or(usize::MAX, |m| n.saturating_add(m)));
    };
    hints(&it, 0);
    while let Some(x) = it.next() {
        out.push(x);
        hints(&it, out.len());
        if out.len() > cap {
            return Err(format!("{what}: yields more than {cap} items (does not come to an end)"));
        }
    }
    hints(&it, out.len());
    if out.len() < least || out.len() > most {
        return Err(format!("{what}: by size_hint() there are {least} to {most} items, it yields {}", out.len()));
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return Err(format!("{what}: yields again after it had reported the end (after {} items)", out.len()));
        }
    }
    Ok(out)
}

/// `drive`, and now and then one of the other ways to use up an iterator, which have to agree.
pub fn drive_ways<I: Iterator>(mk: impl Fn() -> I, key: impl Fn(&I::Item) -> usize, cap: usize, what: &str) -> Result<Vec<I::Item>, String> {
    let out = drive(mk(), cap, what)?;
    let n = out.len();
    let k = |i: usize| out.get(i).map(&key);
    let (way, ok) = match (cap + 3 * n) % 9 {
        0 => ("count()", mk().count() == n),
        1 => ("last()", mk().last().as_ref().map(&key) == k(n.wrapping_sub(1))),
        2 => {
            let mut it = mk();
            ("nth(n / 2) and next()", it.nth(n / 2).as_ref().map(&key) == k(n / 2) && it.next().as_ref().map(&key) == k(n / 2 + 1))
        }
        3 => ("fold()", mk().fold(0, |i, x| if Some(key(&x)) == k(i) { i + 1 } else { n + 1 }) == n),
        4 => ("skip(1) and step_by(2)", mk().skip(1).step_by(2).map(|x| Some(key(&x))).eq((0..n).skip(1).step_by(2).map(k))),
        5 => {
            let mut it = mk();
            let (a, mut same) = (cap % (n + 1), true);
            for i in 0..a {
                same &= it.next().as_ref().map(&key) == k(i);
            }
            ("count() behind some items", same && it.count() == n - a)
        }
        _ => ("", true),
    };
    if !ok {
        return Err(format!("{what}: {way} does not agree with the {n} items taken one by one"));
    }
    Ok(out)
}

/// A record type under test together with its model format.
pub trait Form<'a>: Format {
    type T: SearchableMarkerTrait<'a> + 'a;
    /// The record is exactly the bytes [off, off+len) of the buffer, by content and by place.
    fn same(t: &Self::T, buf: &'a [u8], off: usize, len: usize) -> Res;
}

fn place(part: &[u8], buf: &[u8], off: usize, len: usize, what: &str) -> Res {
    if part.len() != len {
        return Err(format!("{what} has {} bytes, expected {len}", part.len()));
    }
    if part != &buf[off..off + len] {
        return Err(format!("{what} has wrong content"));
    }
    if len > 0 && part.as_ptr() as usize != buf.as_ptr() as usize + off {
        return Err(format!("{what} is not the view of the input at byte {off}"));
    }
    Ok(())
}

pub fn view_of(part: &[u8], buf: &[u8], off: usize, len: usize, what: &str) -> Res {
    place(part, buf, off, len, what)
}

impl<'a> Form<'a> for Dlt {
    type T = DltStorageEntry<'a>;
    fn same(t: &Self::T, buf: &'a [u8], off: usize, len: usize) -> Res {
        place(t.storage_header.as_bytes(), buf, off, 16, "storage header")?;
        place(t.dlt.header.as_bytes(), buf, off + 16, 4, "standard header")?;
        place(t.dlt.tail, buf, off + 20, len - 20, "body")?;
        if t.len() != len || t.dlt.len() != len - 16 || t.dlt.header.length() != len - 16 {
            return Err(format!("length {} / {} / {}, expected {len} with and {} without storage header", t.len(), t.dlt.len(), t.dlt.header.length(), len - 16));
        }
        Ok(())
    }
}

macro_rules! record_form {
    ($($form:ident $rec:ident),*) => {$(
        impl<'a> Form<'a> for $form {
            type T = $rec<'a>;
            fn same(t: &Self::T, buf: &'a [u8], off: usize, len: usize) -> Res {
                place(t.0, buf, off, len, "record")
            }
        }
    )*};
}
record_form!(RecF Rec, Rec1F Rec1, RecLF RecL);

/// Calls a function generic over the record format.
macro_rules! by_kind {
    ($kind:expr, $F:ident => $e:expr) => {
        match $kind {
            Kind::Dlt => { type $F = Dlt; $e }
            Kind::Rec => { type $F = RecF; $e }
            Kind::Rec1 => { type $F = Rec1F; $e }
            Kind::RecL => { type $F = RecLF; $e }
        }
    };
}
pub(crate) use by_kind;

/// Compares (offset, record) results with the expected (offset, length) list.
pub fn same_list<'a, F: Form<'a>>(got: &[(usize, F::T)], want: &[(usize, usize)], buf: &'a [u8], what: &str) -> Res {
    for (i, (o, t)) in got.iter().enumerate() {
        match want.get(i) {
            None => return Err(format!("{what}: item {i} at byte {o} (length {}) should not be there; expected {} items", t.len(), want.len())),
            Some(w) if w.0 != *o => return Err(format!("{what}: item {i} is at byte {o} (length {}), expected byte {} (length {})", t.len(), w.0, w.1)),
            Some(w) => F::same(t, buf, w.0, w.1).map_err(|e| format!("{what}: item {i} at byte {o}: {e}"))?,
        }
    }
    if got.len() < want.len() {
        return Err(format!("{what}: ends after {} of {} items; next expected at byte {} (length {})", got.len(), want.len(), want[got.len()].0, want[got.len()].1));
    }
    Ok(())
}

pub fn ensure(c: bool, m: impl FnOnce() -> String) -> Res {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}
