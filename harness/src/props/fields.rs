//! C03, C04: field access and header construction.

use super::util::*;
use crate::core::*;
use crate::dict;
use crate::gen::*;
use crate::model::*;
use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;
use proptest::collection::vec;
use proptest::prelude::*;
use rapiddlt::dlt_v1::*;
use serde::{Deserialize, Serialize};
use zerocopy::{AsBytes, FromBytes};

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C03",
            rule: "the flags announce at least one optional field and the body holds some but not all bytes of what is announced, or all of it and a payload",
            assumptions: &[],
            parts: vec![part(C03Fields), part(C03Log)],
        },
        Property {
            id: "C04",
            rule: "an enumeration case covers all header types, message infos and info bytes; a message case has a payload or ids other than the default",
            assumptions: &["the wire layout in harness/src/model.rs and fields.rs is that of DLT v1"],
            parts: vec![part(C04Enum), part(C04Msg)],
        },
    ]
}

struct C03Fields;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FieldCase {
    before: B,
    htyp: u8,
    mcnt: u8,
    /// body
    tail: B,
    after: B,
}

impl Part for C03Fields {
    type Case = FieldCase;
    fn name(&self) -> &'static str {
        "fields"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<FieldCase> {
        let htyp = prop_oneof![any::<u8>(), (0u8..32).prop_map(|x| x | 0x20)];
        let len = prop_oneof![3 => 0usize..30, 3 => (0usize..27).prop_map(|x| x + 1000), 1 => 30usize..90];
        let body = dict::mixed(vec(any::<u8>(), 100).boxed(), 30, 0, u32::MAX as u64, |n| (n as u32).to_be_bytes().repeat(25));
        let body = dict::mixed_str(body, 30, |s| s.len() <= 4, |mut s| { s.resize(4, 0); s.repeat(25) });
        (htyp, any::<u8>(), len, body, bytes(7), prop_oneof![2 => bytes(40), 1 => Just(B(vec![]))])
            .prop_map(|(htyp, mcnt, len, mut t, before, after)| {
                // lengths from 1000 on are relative to what the flags announce
                let n = if len >= 1000 { (fixed_len(htyp) + len - 1000).saturating_sub(5) } else { len };
                t.truncate(n);
                FieldCase { before, htyp, mcnt, tail: B(t), after }
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 3_000_000 } else { 80_000_000 }
    }
    fn check(&self, c: &FieldCase, cx: &mut Cx) -> Outcome {
        let mut b = c.before.0.clone();
        let o = b.len();
        b.extend(storage(0x01020304, -2, b"STOR"));
        b.extend_from_slice(&[c.htyp, c.mcnt]);
        b.extend_from_slice(&((c.tail.0.len() + 4) as u16).to_be_bytes());
        b.extend_from_slice(&c.tail.0);
        let n = b.len() - o;
        b.extend_from_slice(&c.after.0);
        let fix = fixed_len(c.htyp);
        cx.label_if(c.tail.0.len() < fix, "body too short");
        cx.label_if(c.tail.0.len() == fix, "empty payload");
        cx.label_if(fix == 22, "all optional fields");
        cx.nontrivial_if(fix > 0 && ((!c.tail.0.is_empty() && c.tail.0.len() < fix) || c.tail.0.len() > fix));
        let reads = [
            ("try_read", DltStorageEntry::try_read(&b[o..])),
            ("try_read_valid_marker", DltStorageEntry::try_read_valid_marker(&b[o..])),
        ];
        for (what, r) in reads {
            let Some((len, e)) = r else { return Err(format!("{what} does not read the message")) };
            ensure(len == n, || format!("{what} reads {len} bytes of {n}"))?;
            <Dlt as Form>::same(&e, &b, o, n).map_err(|m| format!("{what}: {m}"))?;
            fields_of(&e, &b, o, n)?;
        }
        let Some((len, e)) = DltEntry::try_read(&b[o + 16..]) else { return Err("DltEntry::try_read does not read the message".into()) };
        ensure(len == n - 16 && e.len() == n - 16 && e.tail == &c.tail.0[..], || format!("DltEntry::try_read reads {len} bytes of {}", n - 16))?;
        entry_fields(&e, &b, o + 20, c.htyp)
    }
}

pub fn fields_of(e: &DltStorageEntry, b: &[u8], o: usize, n: usize) -> Res {
    let s = e.storage_header;
    let raw = &b[o..];
    ensure(
        s.pattern[..] == raw[..4] && s.secs.get() == le32(&raw[4..]) && s.msecs.get() == le32(&raw[8..]) as i32 && s.ecu[..] == raw[12..16],
        || format!("storage header is decoded as {s:?}"),
    )?;
    let h = e.dlt.header;
    ensure(h.length() == n - 16, || format!("length {} decoded, {} stored", h.length(), n - 16))?;
    let t = &h.header_type;
    let x = raw[16];
    ensure(
        t.is_extended_header() == (x & 1 != 0) && t.is_msb_first() == (x & 2 != 0) && t.is_with_ecu_id() == (x & 4 != 0) && t.is_with_session_id() == (x & 8 != 0) && t.is_with_timestamp() == (x & 16 != 0) && t.version() == x >> 5,
        || format!("header type {x:#04x} is decoded as {t:?}"),
    )?;
    entry_fields(&e.dlt, b, o + 20, x)
}

fn entry_fields(e: &DltEntry, b: &[u8], body: usize, htyp: u8) -> Res {
    let want = fields(htyp, e.tail);
    ensure(e.ecu_id() == want.ecu, || format!("ecu_id() is {:x?}, expected {:x?}", e.ecu_id(), want.ecu))?;
    ensure(e.timestamp() == want.tmsp, || format!("timestamp() is {:x?}, expected {:x?}", e.timestamp(), want.tmsp))?;
    match (e.extended_header(), want.ext) {
        (None, None) => (),
        (Some(g), Some(w)) => {
            view_of(g.as_bytes(), b, body + fixed_len(htyp) - 10, 10, "extended_header()")?;
            ensure(g.msin.as_bytes()[0] == w[0] && g.noar == w[1] && g.apid[..] == w[2..6] && g.ctid[..] == w[6..10], || format!("extended_header() is {g:?} for {w:?}"))?;
        }
        (g, w) => return Err(format!("extended_header() is {g:?}, expected {w:?}")),
    }
    match (e.payload(), want.payload) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => view_of(g, b, body + fixed_len(htyp), w.len(), "payload()"),
        (g, w) => Err(format!("payload() has length {:?}, expected {:?}", g.map(|x| x.len()), w.map(|x| x.len()))),
    }
}

struct C03Log;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BufOnly {
    buf: B,
}

impl Part for C03Log {
    type Case = BufOnly;
    fn name(&self) -> &'static str {
        "every-framed-message"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<BufOnly> {
        prop_oneof![20 => soup(Style::SMALL), 1 => soup(Style::ANY)].prop_map(|buf| BufOnly { buf }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 1_000_000 } else { 20_000_000 }
    }
    fn check(&self, c: &BufOnly, cx: &mut Cx) -> Outcome {
        let b = &c.buf.0;
        let mut some = false;
        for (o, e) in dltit_offset(b) {
            let n = e.len();
            ensure(o + n <= b.len(), || format!("message at {o} extends past the buffer"))?;
            fields_of(&e, b, o, n).map_err(|m| format!("message at byte {o}: {m}"))?;
            let fix = fixed_len(b[o + 16]);
            some |= fix > 0 && n != 20 && n - 20 != fix;
        }
        cx.nontrivial_if(some);
        Ok(())
    }
}

// ---------------------------------------------------------------- C04

pub fn defined_types() -> Vec<(u8, u8, DltMessageType)> {
    use DltControlMessageTypeInfo::*;
    use DltLogMessageTypeInfo::*;
    use DltMessageType::*;
    use DltNetworkMessageTypeInfo::*;
    use DltTraceMessageTypeInfo::*;
    vec![
        (0, 1, DltTypeLog(DltLogFatal)),
        (0, 2, DltTypeLog(DltLogDltError)),
        (0, 3, DltTypeLog(DltLogWarn)),
        (0, 4, DltTypeLog(DltLogInfo)),
        (0, 5, DltTypeLog(DltLogDebug)),
        (0, 6, DltTypeLog(DltLogVerbose)),
        (1, 1, DltTypeAppTrace(DltTraceVariable)),
        (1, 2, DltTypeAppTrace(DltTraceFunctionIn)),
        (1, 3, DltTypeAppTrace(DltTraceFunctionOut)),
        (1, 4, DltTypeAppTrace(DltTraceState)),
        (1, 5, DltTypeAppTrace(DltTraceVfb)),
        (2, 1, DltTypeNwTrace(DltNwTraceIpc)),
        (2, 2, DltTypeNwTrace(DltNwTraceCan)),
        (2, 3, DltTypeNwTrace(DltNwTraceFlexray)),
        (2, 4, DltTypeNwTrace(DltNwTraceMost)),
        (2, 5, DltTypeNwTrace(DltNwTraceEthernet)),
        (2, 6, DltTypeNwTrace(DltNwTraceSomeip)),
        (3, 1, DltTypeControl(DltControlRequest)),
        (3, 2, DltTypeControl(DltControlResponse)),
    ]
}

struct C04Enum;

/// One byte value, checked as header type and as message info; plus the constructors for everything.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ByteCase {
    byte: u8,
    typ: u8,
    verbose: bool,
}

impl Part for C04Enum {
    type Case = ByteCase;
    fn name(&self) -> &'static str {
        "bytes"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<ByteCase> {
        (any::<u8>(), 0u8..19, any::<bool>()).prop_map(|(byte, typ, verbose)| ByteCase { byte, typ, verbose }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 2_000_000 } else { 20_000_000 }
    }
    fn check(&self, c: &ByteCase, cx: &mut Cx) -> Outcome {
        cx.nontrivial_if(true);
        let types = defined_types();
        let b = c.byte;
        // message info byte -> (verbose, type)
        let m = MessageType::read_from(&[b][..]).unwrap();
        let want = types.iter().find(|t| t.0 == (b >> 1) & 7 && t.1 == b >> 4).map(|t| t.2);
        cx.label_if(want.is_none(), "undefined message info");
        cx.label_if(want.is_some(), "defined message info");
        ensure(m.is_verbose() == (b & 1 == 1), || format!("info byte {b:#04x}: verbose is {}", m.is_verbose()))?;
        ensure(m.message_type() == want && m.info() == (b & 1 == 1, want), || format!("info byte {b:#04x} is decoded as {:?} / {:?}, expected {want:?}", m.message_type(), m.info()))?;
        // (verbose, type) -> message info byte
        let (mstp, mtin, typ) = types[c.typ as usize];
        let m = MessageType::create_message_type(c.verbose, typ);
        let want = c.verbose as u8 | mstp << 1 | mtin << 4;
        ensure(m.as_bytes() == [want], || format!("create_message_type({}, {typ:?}) gives {:#04x}, expected {want:#04x}", c.verbose, m.as_bytes()[0]))?;
        ensure(m.info() == (c.verbose, Some(typ)), || format!("create_message_type({}, {typ:?}) reads back as {:?}", c.verbose, m.info()))?;
        // header type
        let f = |i: u8| b >> i & 1 == 1;
        let h = DltHTyp::new(f(0), f(1), f(2), f(3), f(4), b >> 5);
        ensure(h.as_bytes() == [b], || format!("header type for {b:#010b} is {:#010b}", h.as_bytes()[0]))?;
        let r = DltHTyp::read_from(&[b][..]).unwrap();
        for x in [&h, &r] {
            ensure(
                x.is_extended_header() == f(0) && x.is_msb_first() == f(1) && x.is_with_ecu_id() == f(2) && x.is_with_session_id() == f(3) && x.is_with_timestamp() == f(4) && x.version() == b >> 5,
                || format!("header type {b:#010b} reads back as {x:?}"),
            )?;
        }
        Ok(())
    }
}

struct C04Msg;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BuildCase {
    secs: u32,
    us: i32,
    secu: B,
    htyp: u8,
    mcnt: u8,
    ecu: B,
    seid: u32,
    tmsp: u32,
    typ: u8,
    verbose: bool,
    noar: u8,
    apid: B,
    ctid: B,
    payload: B,
    fill: u16,
}

impl Part for C04Msg {
    type Case = BuildCase;
    fn name(&self) -> &'static str {
        "message"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<BuildCase> {
        let a = (u32s(), i32s(), id4(), any::<u8>(), any::<u8>(), id4(), u32s(), u32s());
        let f = dict::mixed(prop_oneof![20 => 0u16..50, 2 => any::<u16>(), 1 => 65480u16..=65535].boxed(), 20, 0, 65535, |n| n as u16);
        let b = (0u8..19, any::<bool>(), any::<u8>(), id4(), id4(), bytes(20), f);
        (a, b)
            .prop_map(|((secs, us, secu, htyp, mcnt, ecu, seid, tmsp), (typ, verbose, noar, apid, ctid, payload, fill))| BuildCase { secs, us, secu, htyp, mcnt, ecu, seid, tmsp, typ, verbose, noar, apid, ctid, payload, fill })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 3_000_000 } else { 50_000_000 }
    }
    fn check(&self, c: &BuildCase, cx: &mut Cx) -> Outcome {
        cx.nontrivial_if(!c.payload.0.is_empty() || c.secu.0 != c.ecu.0);
        let arr = |b: &B| -> [u8; 4] { b.0[..].try_into().unwrap() };
        let f = |i: u8| c.htyp >> i & 1 == 1;
        let (_, _, typ) = defined_types()[c.typ as usize];
        let mut pay = c.payload.0.clone();
        pay.resize(pay.len().max(c.fill as usize).min(65535 - 4 - fixed_len(c.htyp)), b'.');
        let len = 4 + fixed_len(c.htyp) + pay.len();
        cx.label_if(len == 65535, "longest message");

        let sh = DltStorageHeader::new(*MARK, c.secs, c.us, arr(&c.secu));
        let h = DltStandardHeader::new(DltHTyp::new(f(0), f(1), f(2), f(3), f(4), c.htyp >> 5), c.mcnt, len as u16);
        let eh = DltExtendedHeader::new(MessageType::create_message_type(c.verbose, typ), c.noar, arr(&c.apid), arr(&c.ctid));

        let want = storage(c.secs, c.us, &c.secu.0);
        ensure(sh.as_bytes() == &want[..], || format!("storage header serialises to {}", show(sh.as_bytes(), 40)))?;
        let want = [c.htyp, c.mcnt, (len >> 8) as u8, len as u8];
        ensure(h.as_bytes() == want, || format!("standard header serialises to {:02x?}, expected {want:02x?}", h.as_bytes()))?;
        ensure(h.length() == len, || format!("standard header length {len} reads back as {}", h.length()))?;
        ensure(eh.as_bytes()[1] == c.noar && eh.as_bytes()[2..6] == c.apid.0[..] && eh.as_bytes()[6..] == c.ctid.0[..] && eh.as_bytes().len() == 10, || format!("extended header serialises to {:02x?}", eh.as_bytes()))?;

        let mut b = sh.as_bytes().to_vec();
        b.extend_from_slice(h.as_bytes());
        if f(2) {
            b.extend_from_slice(&c.ecu.0);
        }
        if f(3) {
            b.extend_from_slice(&c.seid.to_be_bytes());
        }
        if f(4) {
            b.extend_from_slice(&c.tmsp.to_be_bytes());
        }
        if f(0) {
            b.extend_from_slice(eh.as_bytes());
        }
        b.extend_from_slice(&pay);
        let got = drive(dltit_offset(&b), 9, "reading the built message")?;
        same_list::<Dlt>(&got, &[(0, b.len())], &b, "reading the built message")?;
        let e = &got[0].1;
        let s = e.storage_header;
        ensure(s.secs.get() == c.secs && s.msecs.get() == c.us && s.ecu[..] == c.secu.0[..], || format!("storage header reads back as {s:?}"))?;
        let t = &e.dlt.header.header_type;
        ensure(t.is_extended_header() == f(0) && t.is_msb_first() == f(1) && t.is_with_ecu_id() == f(2) && t.is_with_session_id() == f(3) && t.is_with_timestamp() == f(4) && t.version() == c.htyp >> 5, || format!("header type reads back as {t:?}"))?;
        ensure(e.dlt.ecu_id() == f(2).then(|| be32(&c.ecu.0)), || format!("ECU id reads back as {:x?}", e.dlt.ecu_id()))?;
        ensure(e.dlt.timestamp() == f(4).then_some(c.tmsp), || format!("timestamp reads back as {:?}", e.dlt.timestamp()))?;
        match e.dlt.extended_header() {
            None => ensure(!f(0), || "extended header is not read back".into())?,
            Some(x) => ensure(f(0) && x.msin.info() == (c.verbose, Some(typ)) && x.noar == c.noar && x.apid[..] == c.apid.0[..] && x.ctid[..] == c.ctid.0[..], || format!("extended header reads back as {x:?}"))?,
        }
        ensure(e.dlt.payload() == Some(&pay[..]), || "payload reads back differently".into())
    }
}
