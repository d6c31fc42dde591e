//! C17–C21: file access and the command line tools, run as processes on generated logs.

use super::fields::defined_types;
use super::util::*;
use crate::cli::{self, Faults, In, Out, Ran};
use crate::core::*;
use crate::dict;
use crate::gen::*;
use crate::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use rapiddlt::dlt_v1::DltStorageEntry;
use rapiddlt::dltbuffer::DltBuffer;
use regex::bytes::Regex;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "C17",
            rule: "a non-empty file, a special path, or injected read faults",
            assumptions: &["reads are made short, interrupted or failing by a preloaded read()"],
            parts: vec![part(Files), part(Large), part(BadPaths), part(FaultyReads)],
        },
        Property {
            id: "C18",
            rule: "at least two messages, and a result with at least two lines or a count above 0",
            assumptions: &["expected numbers come from the reference scan of the same bytes", "the names of message types are taken from the library's Debug output, their assignment to codes is not"],
            parts: vec![part(Stats18 { any: false }), part(Stats18 { any: true }), part(FarApart), part(LongStats), part(BigSums), part(Millions18)],
        },
        Property {
            id: "C19",
            rule: "at least three messages that form at least two runs",
            assumptions: &["expected numbers come from the reference scan of the same bytes"],
            parts: vec![part(Runs19), part(LongRuns19)],
        },
        Property {
            id: "C20",
            rule: "at least two partitions and at least two messages",
            assumptions: &["the partitions for the printed degree of parallelism are those the library's partition function gives (which C05 decides)", "CPU counts above the machine's are pretended by a preloaded sched_getaffinity()"],
            parts: vec![part(Par20), part(LongPar20)],
        },
        Property {
            id: "C21",
            rule: "at least two messages are written, or the payload size is out of range",
            assumptions: &["reads and writes are made short, interrupted or failing by preloaded read() and write()"],
            parts: vec![part(Wrap21), part(Fail21), part(Many21)],
        },
        Property {
            id: "C25",
            rule: "reading or writing is at fault, or the invocation is not a valid one",
            assumptions: &["writes are made short, interrupted or failing by a preloaded write(); a pipe without reader and /dev/full are real"],
            parts: vec![part(Output25), part(Fail21), part(Invalid25)],
        },
    ]
}

const MSG: &str = " of ripdlt";

/// The lines behind the echoed command line, in any order.
fn lines(r: &Ran) -> Vec<String> {
    let t = r.text();
    let mut v: Vec<String> = t.lines().skip(1).map(String::from).collect();
    v.sort();
    v
}

fn expect_lines(what: &str, got: Vec<String>, want: Vec<String>) -> Res {
    let mut want = want;
    want.sort();
    if got == want {
        return Ok(());
    }
    let extra: Vec<_> = got.iter().filter(|l| !want.contains(l)).take(6).collect();
    let lost: Vec<_> = want.iter().filter(|l| !got.contains(l)).take(6).collect();
    Err(format!("{what}: printed but not expected {extra:?}, expected but not printed {lost:?} ({} lines, {} expected)", got.len(), want.len()))
}

// ---------------------------------------------------------------- C17

struct Files;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Size {
    Small(B),
    /// about a boundary
    Near(u32, i8),
    Long(u32, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    size: Size,
    name: u8,
}

fn content(s: &Size) -> Vec<u8> {
    let fill = |n: usize, k: u8| (0..n).map(|i| ((i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32) as u8 ^ k).collect::<Vec<u8>>();
    match s {
        Size::Small(b) => b.0.clone(),
        Size::Near(n, d) => fill((*n as i64 + *d as i64).max(0) as usize, 1),
        Size::Long(n, k) => fill(*n as usize, *k),
    }
}

impl Part for Files {
    type Case = FileCase;
    fn name(&self) -> &'static str {
        "files"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<FileCase> {
        let big: u32 = if tier == Tier::Quick { 3_000_000 } else { 40_000_000 };
        let s = prop_oneof![
            6 => soup(Style::SMALL).prop_map(Size::Small),
            1 => Just(Size::Small(B(vec![]))),
            4 => (dict::mixed(prop::sample::select(vec![0u32, 16, 32, 4096, 8192, 16384, 65536, 131072, 1 << 20]).boxed(), 5, 17, big as u64, |n| n as u32), -2i8..=2).prop_map(|(n, d)| Size::Near(n, d)),
            1 => (0..big, any::<u8>()).prop_map(|(n, k)| Size::Long(n, k)),
        ];
        (s, 0u8..6).prop_map(|(size, name)| FileCase { size, name }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 40_000 } else { 300_000 }
    }
    fn check(&self, c: &FileCase, cx: &mut Cx) -> Outcome {
        let b = content(&c.size);
        cx.nontrivial_if(!b.is_empty());
        cx.label_if(b.is_empty(), "empty file");
        cx.label_if(b.len() > 1 << 16, "over 64 kB");
        cx.sample = Some(format!("{} bytes, name {}", b.len(), c.name));
        let names = ["a.dlt", "with space", "ü€.dlt", "-", "x\ny", "link"];
        let p = cli::put(names[c.name as usize], &b);
        let mut open = p.clone();
        if c.name == 5 {
            open = cli::path("symlink");
            let _ = std::fs::remove_file(&open);
            std::os::unix::fs::symlink(&p, &open).expect("HARNESS: symlink");
            cx.label("through a symbolic link");
        }
        let r = same_both(open.to_str().unwrap(), &b);
        let _ = std::fs::remove_file(&open);
        let _ = std::fs::remove_file(&p);
        r
    }
}

fn same_both(path: &str, b: &[u8]) -> Res {
    for (what, r) in [("mmap_file", DltBuffer::mmap_file(path)), ("read_file", DltBuffer::read_file(path))] {
        let buf = r.map_err(|e| format!("{what} fails on a readable regular file of {} bytes: {e}", b.len()))?;
        ensure(buf.len() == b.len(), || format!("{what}: length {}, the file has {} bytes", buf.len(), b.len()))?;
        ensure(buf.as_slice() == b, || format!("{what}: other bytes than in the file of {} bytes", b.len()))?;
        let parts: Vec<u8> = buf.partition::<DltStorageEntry>(3).concat();
        ensure(parts == b, || format!("{what}: its partitions are {} bytes, the file has {}", parts.len(), b.len()))?;
    }
    Ok(())
}

/// Sparse files around 2 and 4 GB: lengths and offsets that need more than 32 bits.
struct Large;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeCase {
    gib: u8,
    tail: i32,
    /// (GB range, bytes from its start)
    at: Vec<(u8, i32)>,
    scan: bool,
}

impl Part for Large {
    type Case = LargeCase;
    fn name(&self) -> &'static str {
        "over-4-GB"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<LargeCase> {
        let d = || prop_oneof![2 => -40i32..40, 1 => -70000i32..70000, 1 => any::<i32>().prop_map(|x| x / 4)];
        (prop::sample::select(vec![2u8, 4, 4, 5, 8]), d(), vec((0u8..9, d()), 1..6), prop::bool::weighted(0.04)).prop_map(|(gib, tail, at, scan)| LargeCase { gib, tail, at, scan }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 60 } else { 400 }
    }
    /// includes the tool's time
    fn cpu_limit_s(&self) -> u64 {
        100
    }
    fn check(&self, c: &LargeCase, cx: &mut Cx) -> Outcome {
        use std::os::unix::fs::FileExt;
        let len = ((c.gib as i64) << 30) + c.tail as i64;
        let p = cli::path("large");
        let m = Msg { secs: 1, us: 2, secu: B(b"ECU1".to_vec()), htyp: 0x20, mcnt: 0, tail: vec![Chunk::Text("here".into())] }.bytes();
        let mut pos: Vec<usize> = vec![];
        {
            let f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&p).expect("HARNESS: create");
            f.set_len(len as u64).expect("HARNESS: set_len");
            let mut at: Vec<i64> = c.at.iter().map(|(g, d)| (((*g as i64) << 30) + *d as i64).clamp(0, len - m.len() as i64)).collect();
            at.push(len - m.len() as i64);
            at.sort();
            for o in at {
                if pos.last().map_or(0, |x| x + m.len()) <= o as usize {
                    f.write_all_at(&m, o as u64).expect("HARNESS: write");
                    pos.push(o as usize);
                }
            }
        }
        cx.nontrivial_if(len > 1 << 31);
        cx.label_if(len >= 1 << 32, "4 GB and more");
        cx.sample = Some(format!("{len} bytes, messages at {pos:?}"));
        let r = (|| {
            let buf = DltBuffer::mmap_file(p.to_str().unwrap()).map_err(|e| format!("mmap_file fails on a regular file of {len} bytes: {e}"))?;
            let s = buf.as_slice();
            ensure(buf.len() == len as usize && s.len() == buf.len(), || format!("mmap_file: length {} and {} bytes, the file has {len}", buf.len(), s.len()))?;
            for o in &pos {
                ensure(s[*o..].starts_with(&m), || format!("mmap_file: other bytes at {o} than in the file"))?;
            }
            if c.scan {
                cx.label("read to the end");
                let got: Vec<usize> = drive(rapiddlt::dlt_v1::dltit_offset(s), pos.len() + 9, "sequential reading")?.iter().map(|x| x.0).collect();
                ensure(got == pos, || format!("sequential reading of {len} bytes yields messages at {got:?}, expected {pos:?}"))?;
                let parts: usize = buf.partition::<DltStorageEntry>(3).iter().map(|p| p.len()).sum();
                ensure(parts == len as usize, || format!("the partitions are {parts} bytes, the file has {len}"))?;
            }
            Ok(())
        })();
        let _ = std::fs::remove_file(&p);
        r
    }
}

struct BadPaths;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PathCase {
    kind: u8,
    cmd: u8,
    log: Vec<Item>,
}

const C17_CMDS: [&str; 19] = [
    "count", "histogram_message_size", "histogram_payload_size", "histogram_timestamp", "histogram_message_type", "histogram_lifecycles", "split_lifecycles", "split_timestamp", "iter", "count_hello_world",
    "count_hello_world_raw", "count_hello_world_grepit", "histogram_hello_world", "par_count", "par_histogram_timestamp", "par_split_timestamp", "par_count_hello_world", "par_count_hello_world_raw", "par_count_hello_world_grepit",
];

impl Part for BadPaths {
    type Case = PathCase;
    fn name(&self) -> &'static str {
        "paths-and-tools"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<PathCase> {
        (0u8..12, 0u8..19, log(Style::CLI, 6)).prop_map(|(kind, cmd, log)| PathCase { kind, cmd, log }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 5_000 } else { 50_000 }
    }
    fn check(&self, c: &PathCase, cx: &mut Cx) -> Outcome {
        let cmd = C17_CMDS[c.cmd as usize];
        cx.nontrivial_if(true);
        // paths that are not readable files
        let link = cli::path("lnk");
        let _ = std::fs::remove_file(&link);
        let dir = std::env::var("VH_SCRATCH").unwrap();
        let file = cli::put("f", b"x");
        let bad: Option<String> = match c.kind {
            0 => Some(cli::path("does-not-exist").display().to_string()),
            1 => Some(dir.clone()),
            2 => Some(String::new()),
            3 => Some(format!("{}/below", file.display())),
            4 => {
                std::os::unix::fs::symlink(cli::path("nothing"), &link).expect("HARNESS: symlink");
                Some(link.display().to_string())
            }
            5 => {
                std::os::unix::fs::symlink(&dir, &link).expect("HARNESS: symlink");
                Some(link.display().to_string())
            }
            6 => Some("n".repeat(5000)),
            _ => None,
        };
        if let Some(p) = bad {
            cx.label("path that is no readable file");
            for (what, r) in [("mmap_file", DltBuffer::mmap_file(&p)), ("read_file", DltBuffer::read_file(&p))] {
                ensure(r.is_err(), || format!("{what} takes {:?} for a file of {} bytes", clip(&p, 80), r.map_or(0, |b| b.len())))?;
            }
            for m in ["mmap", "read"] {
                let r = cli::run("ripdlt", &[m, cmd, &p], In::Null, Out::Pipe, &Faults::default(), None);
                ensure(r.code.is_some() && r.code != Some(0) && lines(&r).is_empty(), || format!("'ripdlt {m} {cmd}' on {:?} (no readable file) exits with {:?} and prints {:?}", clip(&p, 80), r.code, lines(&r)))?;
            }
            return Ok(());
        }
        if c.kind == 7 {
            // a regular file whose size is not known in advance
            let p = "/proc/version";
            let b = std::fs::read(p).unwrap_or_default();
            return same_both(p, &b);
        }
        // the same answer with both methods; nothing but the command line may differ
        let b = if c.kind == 8 { vec![] } else { lay_out(&c.log).bytes };
        cx.label_if(b.is_empty(), "tools on an empty file");
        let f = cli::put("f", &b);
        let go = |m: &str| cli::run("ripdlt", &[m, cmd, f.to_str().unwrap()], In::Null, Out::Pipe, &Faults::default(), None);
        let (a, z) = (go("mmap"), go("read"));
        a.ok(&format!("'ripdlt mmap {cmd}' on {} bytes", b.len()))?;
        z.ok(&format!("'ripdlt read {cmd}' on {} bytes", b.len()))?;
        ensure(lines(&a) == lines(&z), || format!("{cmd}: prints {:?} with mmap and {:?} with read", lines(&a), lines(&z)))
    }
}

struct FaultyReads;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FaultCase {
    log: Vec<Item>,
    rd_max: Option<u32>,
    rd_eintr: Option<u32>,
    rd_fail: Option<u16>,
}

impl Part for FaultyReads {
    type Case = FaultCase;
    fn name(&self) -> &'static str {
        "faulty-reads"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<FaultCase> {
        let max = prop::option::of(prop_oneof![1u32..20, 20u32..5000]);
        (log(Style::CLI, 9), max, prop::option::of(2u32..5), prop::option::weighted(0.4, any::<u16>())).prop_map(|(log, rd_max, rd_eintr, rd_fail)| FaultCase { log, rd_max, rd_eintr, rd_fail }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 10_000 } else { 100_000 }
    }
    fn check(&self, c: &FaultCase, cx: &mut Cx) -> Outcome {
        let l = lay_out(&c.log);
        let f = cli::put("f", &l.bytes);
        let fail = c.rd_fail.map(|x| x as u64 * l.bytes.len() as u64 / 65535);
        let faults = Faults { rd_max: c.rd_max, rd_eintr: c.rd_eintr, rd_fail: fail, ..Faults::default() };
        cx.nontrivial_if(c.rd_max.is_some() || c.rd_eintr.is_some() || c.rd_fail.is_some());
        cx.label_if(fail.is_some(), "failing read");
        cx.label_if(fail.is_none() && c.rd_max.is_some(), "short reads");
        cx.label_if(fail.is_none() && c.rd_eintr.is_some(), "interrupted reads");
        let r = cli::run("ripdlt", &["read", "count", f.to_str().unwrap()], In::Null, Out::Pipe, &faults, Some(&f));
        let what = format!("'ripdlt read count' of {} bytes with {:?} / {:?} / {:?}", l.bytes.len(), c.rd_max, c.rd_eintr, fail);
        if fail.is_some() {
            // the read after the last byte fails as well, so an answer is only right if the end was not read to
            return ensure(r.code.is_some() && r.code != Some(0) && lines(&r).is_empty(), || format!("{what}: the read error is not reported, it exits with {:?} and prints {:?}", r.code, lines(&r)));
        }
        r.ok(&what)?;
        expect_lines(&what, lines(&r), vec![format!("{} messages", l.msgs.len())])
    }
}

// ---------------------------------------------------------------- C18

struct Stats18 {
    /// any buffer, with the commands that need no field
    any: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StatCase {
    log: Vec<Item>,
    raw: Option<B>,
    cmd: u8,
    read: bool,
}

const STAT_CMDS: [&str; 8] = [
    "count", "histogram_message_size", "histogram_payload_size", "count_hello_world_raw", "histogram_message_type", "count_hello_world", "count_hello_world_grepit", "histogram_hello_world",
];

fn counts<K: Ord>(it: impl Iterator<Item = K>) -> BTreeMap<K, usize> {
    let mut m = BTreeMap::new();
    for k in it {
        *m.entry(k).or_insert(0) += 1;
    }
    m
}

fn sizes(title: &str, total: &str, m: &BTreeMap<usize, usize>) -> Vec<String> {
    let mut v = vec![title.to_string()];
    for (k, n) in m {
        v.push(format!("{k}b: {n}, overall: {} kB", k * n / 1024));
    }
    v.push(format!("{total} in total: {} kB", m.iter().map(|(k, n)| k * n).sum::<usize>() / 1024));
    v
}

fn grep_hits(b: &[u8], msgs: &[(usize, usize)]) -> Vec<usize> {
    let rx = Regex::new("H.* World").unwrap();
    msgs.iter().filter(|m| rx.is_match(&b[m.0 + 4..m.0 + m.1])).map(|m| m.0).collect()
}

fn hello_buckets(hits: &[usize]) -> Vec<String> {
    let mut v = vec!["Distribution of 'Hello World' matches:".to_string()];
    for (k, n) in counts(hits.iter().map(|o| o / 100_000_000)) {
        v.push(format!("Offset {}M-{}M: {n}", k * 100, (k + 1) * 100));
    }
    v
}

fn hello_payloads(b: &[u8], msgs: &[(usize, usize)]) -> usize {
    msgs.iter().filter(|m| { let v = view(b, **m); fields(v.htyp, v.tail).payload.is_some_and(|p| find(p, b"Hello World", 0).is_some()) }).count()
}

/// What a command prints for these bytes (without the echoed command line).
fn stat_expect(cmd: &str, b: &[u8], msgs: &[(usize, usize)]) -> Vec<String> {
    match cmd {
        "count" => vec![format!("{} messages", msgs.len())],
        "histogram_message_size" => sizes("Distribution of DLT message length:", "DLT messages", &counts(msgs.iter().map(|m| m.1))),
        "histogram_payload_size" => sizes(
            "Distribution of payload length:",
            "Payload",
            &counts(msgs.iter().map(|m| { let v = view(b, *m); fields(v.htyp, v.tail).payload.map_or(0, |p| p.len()) })),
        ),
        "count_hello_world_raw" => vec![format!("{} raw hello world matches", count_nonoverlapping(b, b"Hello World"))],
        "histogram_message_type" => {
            let types = defined_types();
            let m = counts(msgs.iter().filter_map(|m| {
                let v = view(b, *m);
                let x = fields(v.htyp, v.tail).ext?[0];
                Some((x & 1 == 1, types.iter().find(|t| t.0 == (x >> 1) & 7 && t.1 == x >> 4).map(|t| (t.0, t.1))))
            }));
            let mut v = vec!["(verbose, message type): # dlt messages".to_string()];
            for ((verbose, t), n) in m {
                let t = t.map(|t| types.iter().find(|x| (x.0, x.1) == t).unwrap().2);
                v.push(format!("{:?}: {n}", (verbose, t)));
            }
            v
        }
        "count_hello_world" => vec![format!("{} hello world messages", hello_payloads(b, msgs))],
        "count_hello_world_grepit" => vec![format!("{} hello world messages", grep_hits(b, msgs).len())],
        "histogram_hello_world" => hello_buckets(&grep_hits(b, msgs)),
        _ => panic!("HARNESS: unknown command {cmd}"),
    }
}

/// Messages around the greeting, and message infos that are mostly defined ones.
fn stat_msg(style: Style) -> BoxedStrategy<Msg> {
    let hello = prop::sample::select(vec!["Hello World", "Hello  World", "H World", "Hello Worl", "HelloHello World", "Hello WorldHello World", "Hello\n World", "Hi\nHello World", "hello world", ""]);
    (msg(style), prop::option::weighted(0.7, any::<u8>()), prop::option::weighted(0.5, hello), any::<bool>())
        .prop_map(|(mut m, info, hello, repeat)| {
            if m.htyp & 1 == 1 {
                if let (Some(i), Some(Chunk::Bytes(b))) = (info, m.tail.first_mut()) {
                    let n = fixed_len(m.htyp);
                    // low bits choose a defined type most of the time
                    let t = defined_types();
                    let (mstp, mtin, _) = t[i as usize % t.len()];
                    b.0[n - 10] = if i < 200 { (i & 1) | mstp << 1 | mtin << 4 } else { i };
                }
            }
            if let Some(h) = hello {
                m.tail.push(Chunk::Text(h.into()));
            }
            if repeat {
                m.tail.push(Chunk::Rep(B(b"z".to_vec()), 700));
            }
            m
        })
        .boxed()
}

impl Part for Stats18 {
    type Case = StatCase;
    fn name(&self) -> &'static str {
        if self.any {
            "any-buffer"
        } else {
            "logs"
        }
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<StatCase> {
        if self.any {
            return (prop_oneof![20 => soup(Style::SMALL), 1 => soup(Style::ANY)], 0u8..4, any::<bool>()).prop_map(|(raw, cmd, read)| StatCase { log: vec![], raw: Some(raw), cmd, read }).boxed();
        }
        let n = if tier == Tier::Quick { 16 } else { 60 };
        let plain = Style { embedded: false, ..Style::CLI };
        (4u8..12, any::<bool>())
            .prop_flat_map(move |(cmd, read)| {
                let cmd = cmd % 8;
                // searching is compared on messages without further patterns only (see C10)
                let s = if cmd >= 6 { plain } else { Style::CLI };
                let it = prop_oneof![6 => stat_msg(s).prop_map(Item::Msg), 1 => junk().prop_map(Item::Gap)];
                vec(it, 0..n).prop_map(move |log| StatCase { log, raw: None, cmd, read })
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        match (tier, self.any) {
            (Tier::Quick, true) => 10_000,
            (Tier::Quick, false) => 24_000,
            (_, true) => 200_000,
            _ => 500_000,
        }
    }
    fn check(&self, c: &StatCase, cx: &mut Cx) -> Outcome {
        let b = match &c.raw {
            Some(r) => r.0.clone(),
            None => lay_out(&c.log).bytes,
        };
        let msgs = scan::<Dlt>(&b, 0);
        let cmd = STAT_CMDS[c.cmd as usize];
        cx.label(cmd);
        if c.cmd >= 6 && embeds::<Dlt>(&b, &msgs) {
            // a chance pattern in generated field bytes
            cx.label("left out: embedded pattern");
            return Ok(());
        }
        let want = stat_expect(cmd, &b, &msgs);
        cx.nontrivial_if(msgs.len() >= 2 && (want.len() >= 3 || !want[0].starts_with("0 ")));
        compare(if c.read { "read" } else { "mmap" }, cmd, &b, want)
    }
}

fn compare(method: &str, cmd: &str, b: &[u8], want: Vec<String>) -> Res {
    let f = cli::put("f.dlt", b);
    compare_file(method, cmd, &f, want)
}

fn compare_file(method: &str, cmd: &str, f: &Path, want: Vec<String>) -> Res {
    let what = format!("'{method} {cmd}'{MSG}");
    let r = cli::run("ripdlt", &[method, cmd, f.to_str().unwrap()], In::Null, Out::Pipe, &Faults::default(), None);
    r.ok(&what)?;
    expect_lines(&what, lines(&r), want)
}

/// Logs of up to some hundred thousand messages.
struct LongStats;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongStatCase {
    unit: Vec<Item>,
    reps: u32,
    cmd: u8,
    read: bool,
}

/// The unit again and again, about 6 MB at most.
fn repeated(unit: &[Item], reps: u32) -> Vec<u8> {
    let mut u = lay_out(unit).bytes;
    // no match of a line runs over the next unit: searching a long line takes time quadratic in its length
    u.push(b'\n');
    u.repeat((reps as usize).min(6_000_000 / u.len()))
}

fn reps() -> BoxedStrategy<u32> {
    dict::mixed(prop_oneof![3 => 2u32..400, 3 => 200u32..5000, 2 => 20_000u32..150_000].boxed(), 6, 17, 150_000, |n| n as u32)
}

impl Part for LongStats {
    type Case = LongStatCase;
    fn name(&self) -> &'static str {
        "long-logs"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<LongStatCase> {
        (0u8..8, any::<bool>(), reps())
            .prop_flat_map(move |(cmd, read, reps)| {
                let s = if cmd >= 6 { Style { embedded: false, ..Style::CLI } } else { Style::CLI };
                // small messages let the numbers grow
                let small = text().prop_map(|t| Msg { secs: 1, us: 0, secu: B(b"ECU1".to_vec()), htyp: 0x20, mcnt: 0, tail: vec![Chunk::Text(t)] });
                let it = prop_oneof![2 => stat_msg(s).prop_map(Item::Msg), 3 => small.prop_map(Item::Msg)];
                vec(it, 1..6).prop_map(move |unit| LongStatCase { unit, reps, cmd, read })
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 400 } else { 8_000 }
    }
    fn check(&self, c: &LongStatCase, cx: &mut Cx) -> Outcome {
        let b = repeated(&c.unit, c.reps);
        let msgs = scan::<Dlt>(&b, 0);
        let cmd = STAT_CMDS[c.cmd as usize];
        cx.label(cmd);
        if c.cmd >= 6 && embeds::<Dlt>(&b, &msgs) {
            cx.label("left out: embedded pattern");
            return Ok(());
        }
        cx.label_if(msgs.len() > 65536, "over 65536 messages");
        let want = stat_expect(cmd, &b, &msgs);
        cx.nontrivial_if(msgs.len() >= 2 && (want.len() >= 3 || !want[0].starts_with("0 ")));
        compare(if c.read { "read" } else { "mmap" }, cmd, &b, want)
    }
}

/// Tens of MB of messages of one or two lengths, the sums at and around whole kB.
struct BigSums;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SumCase {
    /// (bytes of payload, about how many kB in all, bytes from a whole kB)
    sizes: Vec<(u16, u16, i8)>,
    payload: bool,
    read: bool,
}

impl Part for BigSums {
    type Case = SumCase;
    fn name(&self) -> &'static str {
        "sums-of-many-MB"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<SumCase> {
        let size = dict::mixed(prop_oneof![2 => 21u16..300, 2 => 21u16..9000, 1 => 21u16..65000].boxed(), 6, 21, 65000, |n| n as u16);
        let d = prop_oneof![6 => -3i8..4, 1 => any::<i8>()];
        // beyond 2^24 bytes, and around it
        let kb = prop_oneof![3 => 16_300u16..40_000, 1 => 1u16..16_300];
        (vec((size, kb, d), 1..3), any::<bool>(), any::<bool>()).prop_map(|(sizes, payload, read)| SumCase { sizes, payload, read }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 120 } else { 2_000 }
    }
    fn check(&self, c: &SumCase, cx: &mut Cx) -> Outcome {
        let mut b = vec![];
        let mut m: BTreeMap<usize, usize> = BTreeMap::new();
        for (len, kb, d) in &c.sizes {
            // an odd length meets every remainder
            let len = *len as usize | 1;
            let k = if c.payload { len } else { len + 20 };
            let n = (*kb as usize * 1024 / k..).take(1024).find(|n| (*n as i64 * k as i64 - *d as i64) % 1024 == 0).expect("HARNESS: a count").max(1);
            let mut u = storage(5, 6, b"ECU1");
            u.extend_from_slice(&[0x20, 0]);
            u.extend_from_slice(&(len as u16 + 4).to_be_bytes());
            u.resize(20 + len, b'.');
            b.extend(u.repeat(n));
            *m.entry(k).or_insert(0) += n;
        }
        let sum: usize = m.iter().map(|(k, n)| k * n).sum();
        cx.sample = Some(format!("{m:?}, {sum} bytes in all"));
        cx.nontrivial_if(sum > 1 << 24);
        let (cmd, want) = if c.payload {
            ("histogram_payload_size", sizes("Distribution of payload length:", "Payload", &m))
        } else {
            ("histogram_message_size", sizes("Distribution of DLT message length:", "DLT messages", &m))
        };
        cx.label(cmd);
        compare(if c.read { "read" } else { "mmap" }, cmd, &b, want)
    }
}

/// More than 2^24 messages.
struct Millions18;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MillionsCase {
    n: u32,
    /// payload, and message info if there is an extended header
    hello: bool,
    info: Option<u8>,
    cmd: u8,
    read: bool,
}

impl Part for Millions18 {
    type Case = MillionsCase;
    fn name(&self) -> &'static str {
        "millions"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<MillionsCase> {
        ((1u32 << 24) - 5..(1 << 24) + 60_000, any::<bool>(), prop::option::of(prop::sample::select(vec![0x41u8, 0x40, 0x27])), 0u8..6, any::<bool>())
            .prop_map(|(n, hello, info, cmd, read)| MillionsCase { n, hello, info, cmd, read })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 6 } else { 100 }
    }
    /// includes the tool's time
    fn cpu_limit_s(&self) -> u64 {
        300
    }
    fn check(&self, c: &MillionsCase, cx: &mut Cx) -> Outcome {
        let n = c.n as usize;
        let text: &[u8] = if c.hello { b"Hello World" } else { b"" };
        let mut u = storage(5, 6, b"ECU1");
        let len = 4 + c.info.map_or(0, |_| 10) + text.len();
        u.extend([0x20 | c.info.is_some() as u8, 0]);
        u.extend((len as u16).to_be_bytes());
        if let Some(i) = c.info {
            u.extend([i, 0]);
            u.extend(b"APP1CTX1");
        }
        u.extend(text);
        let p = cli::path("many");
        {
            use std::io::Write;
            let mut f = std::fs::File::create(&p).expect("HARNESS: create");
            let piece = u.repeat(1 << 14);
            for i in 0..n.div_ceil(1 << 14) {
                let k = (n - (i << 14)).min(1 << 14);
                f.write_all(&piece[..k * u.len()]).expect("HARNESS: write");
            }
        }
        let cmd = STAT_CMDS[c.cmd as usize];
        let one = |k: usize| BTreeMap::from([(k, n)]);
        let hellos = if c.hello { n } else { 0 };
        let want = match cmd {
            "count" => vec![format!("{n} messages")],
            "histogram_message_size" => sizes("Distribution of DLT message length:", "DLT messages", &one(u.len())),
            "histogram_payload_size" => sizes("Distribution of payload length:", "Payload", &one(text.len())),
            "count_hello_world_raw" => vec![format!("{hellos} raw hello world matches")],
            "histogram_message_type" => {
                // what it prints for one message, with another number
                let mut v = stat_expect(cmd, &u, &[(0, u.len())]);
                if let Some(l) = v.get_mut(1) {
                    *l = format!("{}: {n}", l.strip_suffix(": 1").expect("HARNESS: type line"));
                }
                v
            }
            _ => vec![format!("{hellos} hello world messages")],
        };
        cx.label(cmd);
        cx.nontrivial_if(n > 1 << 24);
        cx.sample = Some(format!("{n} messages of {} bytes", u.len()));
        let r = compare_file(if c.read { "read" } else { "mmap" }, cmd, &p, want);
        let _ = std::fs::remove_file(&p);
        r
    }
}

/// Logs of some hundred MB, with messages at the borders of the 100 MB ranges; the space between is a hole in the file.
struct FarApart;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FarCase {
    /// (100 MB range, bytes from its start, text)
    at: Vec<(u8, i16, String)>,
    cmd: u8,
    read: bool,
}

impl Part for FarApart {
    type Case = FarCase;
    fn name(&self) -> &'static str {
        "over-100-MB"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<FarCase> {
        let t = prop_oneof![8 => Just("Hello World".to_string()), 2 => text(), 1 => (0usize..60_000).prop_map(|n| "_".repeat(n) + "Hello World"), 1 => (0usize..60_000).prop_map(|n| "Hello World".to_string() + &"_".repeat(n))];
        let d = prop_oneof![2 => -200i16..200, 3 => -35i16..3, 1 => any::<i16>()];
        (vec((0u8..4, d, t), 1..5), prop::sample::select(vec![7u8, 7, 7, 7, 6, 0, 3]), any::<bool>()).prop_map(|(at, cmd, read)| FarCase { at, cmd, read }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 48 } else { 600 }
    }
    fn check(&self, c: &FarCase, cx: &mut Cx) -> Outcome {
        let mut pos: Vec<(u64, &str)> = c.at.iter().map(|(r, d, t)| ((*r as i64 * 100_000_000 + *d as i64).max(0) as u64, t.as_str())).collect();
        pos.sort();
        let mut end = 0;
        let mut msgs = vec![];
        let p = cli::path("far");
        {
            use std::os::unix::fs::FileExt;
            let f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&p).expect("HARNESS: create");
            for (o, t) in pos {
                let o = o.max(end);
                let m = Msg { secs: 1, us: 2, secu: B(b"ECU1".to_vec()), htyp: 0x20, mcnt: 0, tail: vec![Chunk::Text(t.into())] }.bytes();
                f.write_all_at(&m, o).expect("HARNESS: write");
                end = o + m.len() as u64;
                msgs.push((o, t));
            }
        }
        let rx = Regex::new("H.* World").unwrap();
        let hits: Vec<usize> = msgs.iter().filter(|m| rx.is_match(m.1.as_bytes())).map(|m| m.0 as usize).collect();
        let cmd = STAT_CMDS[c.cmd as usize];
        let raw: usize = msgs.iter().map(|m| count_nonoverlapping(m.1.as_bytes(), b"Hello World")).sum();
        let want = match c.cmd {
            0 => vec![format!("{} messages", msgs.len())],
            3 => vec![format!("{raw} raw hello world matches")],
            6 => vec![format!("{} hello world messages", hits.len())],
            _ => hello_buckets(&hits),
        };
        cx.nontrivial_if(msgs.len() >= 2 && !hits.is_empty());
        cx.label_if(hits.iter().any(|h| *h >= 100_000_000), "matches behind the first 100 MB");
        let r = compare_file(if c.read { "read" } else { "mmap" }, cmd, &p, want);
        let _ = std::fs::remove_file(&p);
        r
    }
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    /// storage ECU, message ECU
    ecu: (u16, u8),
    htyp: u8,
    secs: (u8, u32),
    tmsp: (u8, u32),
    tail: B,
    gap: bool,
}

/// Logs whose times mostly go on per ECU, sometimes jump by an amount around the limits the tool knows, or restart.
fn steps(max: usize) -> BoxedStrategy<Vec<Step>> {
    let htyp = prop::sample::select(vec![0x35u8, 0x35, 0x31, 0x30, 0x34, 0x3d, 0x21, 0x25, 0x3f]);
    let s = dict::mixed((0u8..12, any::<u32>()).boxed(), 15, 1, u32::MAX as u64, |n| (12, n as u32));
    let t = dict::mixed((0u8..14, any::<u32>()).boxed(), 15, 1, u32::MAX as u64, |n| (14, n as u32));
    vec(
        ((prop_oneof![4 => 0u16..3, 1 => 0u16..6], 0u8..3), htyp, s, t, prop_oneof![8 => bytes(6), 1 => Just(B(MARK.to_vec()))], prop::bool::weighted(0.1)).prop_map(|(ecu, htyp, secs, tmsp, tail, gap)| Step { ecu, htyp, secs, tmsp, tail, gap }),
        0..max,
    )
    .boxed()
}

fn step_log(steps: &[Step], gaps: bool) -> Laid {
    let ecus = ["ECU1", "ECU2", "HMI\0", "    ", "üa1", "zzzz"];
    let ecu = |i: u16| if (i as usize) < ecus.len() { ecus[i as usize].to_string() } else { format!("{:04X}", i) };
    let mut items = vec![];
    let (mut secs, mut tmsp) = (100u32, 1000u32);
    for s in steps {
        secs = match s.secs.0 {
            0..=3 => secs,
            4..=6 => secs.saturating_add(1),
            7 => secs.saturating_add(s.secs.1 % 20),
            8 => secs.saturating_sub(s.secs.1 % 20),
            9 => 100,
            10 => secs.saturating_sub(1),
            12 => secs.saturating_add(s.secs.1),
            _ => [0, 1, u32::MAX, u32::MAX - 1, s.secs.1][s.secs.1 as usize % 5],
        };
        let near = |x: u32, d: u32| x.wrapping_add(d % 3).wrapping_sub(1);
        tmsp = match s.tmsp.0 {
            0..=2 => tmsp,
            3 | 4 => tmsp.saturating_add(s.tmsp.1 % 100),
            5 => tmsp.saturating_add(near(10000, s.tmsp.1)),
            6 => tmsp.saturating_add(s.tmsp.1 % 60000),
            7 | 8 => tmsp.saturating_add(near(18_000_000, s.tmsp.1)),
            9 => tmsp.saturating_add(9_000_000),
            10 => tmsp.saturating_sub(1),
            11 => 1000,
            12 => 0,
            14 => tmsp.saturating_add(s.tmsp.1),
            _ => [0, 1, u32::MAX, u32::MAX - 1, s.tmsp.1][s.tmsp.1 as usize % 5],
        };
        let mut fixed = vec![];
        if s.htyp & 4 != 0 {
            fixed.extend_from_slice(["EC_A", "EC_B", "EC_\u{1}"][s.ecu.1 as usize].as_bytes());
        }
        if s.htyp & 8 != 0 {
            fixed.extend_from_slice(&s.tmsp.1.to_be_bytes());
        }
        if s.htyp & 16 != 0 {
            fixed.extend_from_slice(&tmsp.to_be_bytes());
        }
        if s.htyp & 1 != 0 {
            fixed.extend_from_slice(b"\x41\x00APP1CTX1");
        }
        items.push(Item::Msg(Msg { secs, us: 0, secu: B(ecu(s.ecu.0).into_bytes()), htyp: s.htyp, mcnt: 0, tail: vec![Chunk::Bytes(B(fixed)), Chunk::Bytes(s.tail.clone())] }));
        if s.gap && gaps {
            items.push(Item::Gap(B(b"....".to_vec())));
        }
    }
    lay_out(&items)
}

/// Repeats steps, with the times going on and, for `spread` above 0, on that many ECUs.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongSteps {
    steps: Vec<Step>,
    reps: u32,
    spread: u16,
}

fn long_steps() -> BoxedStrategy<LongSteps> {
    let spread = dict::mixed(prop_oneof![2 => Just(0u16), 1 => 2u16..20, 1 => 200u16..3000].boxed(), 8, 2, 5000, |n| n as u16);
    (steps(20), reps(), spread).prop_map(|(steps, reps, spread)| LongSteps { steps, reps, spread }).boxed()
}

impl LongSteps {
    fn log(&self) -> Laid {
        let mut v = vec![];
        let n = if self.steps.is_empty() { 0 } else { self.reps.min(150_000 / self.steps.len() as u32) };
        for r in 0..n {
            for s in &self.steps {
                let mut s = s.clone();
                // restarts and jumps to a fixed time only now and then, or no run would get long
                if r % 37 != 0 {
                    if matches!(s.secs.0, 9 | 11) {
                        s.secs.0 = 5;
                    }
                    if matches!(s.tmsp.0, 11..=13) {
                        s.tmsp.0 = 3;
                    }
                }
                if self.spread > 0 {
                    s.ecu.0 = (s.ecu.0 * 71 + (r % 65536) as u16 % self.spread) % self.spread;
                }
                v.push(s);
            }
        }
        step_log(&v, true)
    }
}

struct Ev {
    secs: u32,
    secu: String,
    ecu: Option<u32>,
    tmsp: Option<u32>,
}

fn events(b: &[u8]) -> Vec<Ev> {
    scan::<Dlt>(b, 0)
        .into_iter()
        .map(|m| {
            let v = view(b, m);
            let f = fields(v.htyp, v.tail);
            Ev { secs: v.secs, secu: String::from_utf8_lossy(&v.secu).into_owned(), ecu: f.ecu, tmsp: f.tmsp }
        })
        .collect()
}

/// First and last element of every maximal run.
fn runs<T: Copy>(v: &[T], rel: impl Fn(T, T) -> bool) -> Vec<(T, T)> {
    let mut out: Vec<(T, T)> = vec![];
    for (i, x) in v.iter().enumerate() {
        if i > 0 && rel(v[i - 1], *x) {
            out.last_mut().unwrap().1 = *x;
        } else {
            out.push((*x, *x));
        }
    }
    out
}

fn by_ecu(ev: &[Ev]) -> BTreeMap<&str, Vec<&Ev>> {
    let mut m: BTreeMap<&str, Vec<&Ev>> = BTreeMap::new();
    for e in ev {
        m.entry(&e.secu).or_default().push(e);
    }
    m
}

type Hist = BTreeMap<u32, usize>;

fn secs_hist(ev: &[Ev]) -> Hist {
    let s: Vec<u32> = ev.iter().map(|e| e.secs).collect();
    counts(runs(&s, |a, b| b >= a).into_iter().map(|r| r.1 - r.0))
}

fn split_secs(ev: &[Ev]) -> BTreeMap<String, (Hist, usize)> {
    by_ecu(ev)
        .into_iter()
        .map(|(k, v)| {
            let s: Vec<u32> = v.iter().map(|e| e.secs).collect();
            let mut r = runs(&s, |a, b| b >= a);
            // union of closed intervals
            r.sort();
            let mut u: Vec<(u32, u32)> = vec![];
            for (a, z) in r {
                match u.last_mut() {
                    Some(l) if a <= l.1 => l.1 = l.1.max(z),
                    _ => u.push((a, z)),
                }
            }
            (k.to_string(), (counts(u.into_iter().map(|r| r.1 - r.0)), v.len()))
        })
        .collect()
}

fn ticks<'a>(ev: impl Iterator<Item = &'a Ev>) -> Vec<(Option<u32>, u32)> {
    ev.filter_map(|e| Some((e.ecu, e.tmsp?))).collect()
}

const LONG: u32 = 18_000_000;

fn long_runs(ev: &[Ev]) -> usize {
    runs(&ticks(ev.iter()), |a, b| b.1 >= a.1).into_iter().filter(|r| r.1 .1 - r.0 .1 >= LONG).count()
}

const SECS_TITLE: &str = "Durations of periods where DLT storage header timestamps are continuous:";

fn secs_lines(h: &Hist) -> Vec<String> {
    let mut v = vec![SECS_TITLE.to_string()];
    v.extend(h.iter().map(|(k, n)| format!("{k}-{} secs: {n}", *k as u64 + 1)));
    v
}

fn ecu_lines(title: &str, m: &BTreeMap<String, (Hist, usize)>) -> Vec<String> {
    let mut v = vec![title.to_string()];
    v.extend(m.iter().map(|(k, x)| format!("{k} #lifecycles: {x:?}")));
    v
}

fn run_expect(cmd: &str, ev: &[Ev]) -> Vec<String> {
    match cmd {
        "histogram_timestamp" => secs_lines(&secs_hist(ev)),
        "histogram_lifecycles" => {
            let h = counts(runs(&ticks(ev.iter()), |a, b| a.0 == b.0 && b.1 >= a.1).into_iter().map(|r| (r.1 .1 - r.0 .1) / 10000));
            let mut v = vec!["Distribution of lifecycle durations:".to_string()];
            v.extend(h.iter().map(|(k, n)| format!("{k}-{} secs: {n}", k + 1)));
            v
        }
        "iter" => vec![format!("{} lifecycles >= 1800s", long_runs(ev))],
        "itertools" => {
            let t = ticks(ev.iter());
            vec![format!("{} lifecycles >= 1800s", t.windows(2).filter(|w| w[1].1 >= w[0].1 && w[1].1 - w[0].1 >= LONG).count())]
        }
        "split_lifecycles" => {
            let m = by_ecu(ev)
                .into_iter()
                .filter_map(|(k, v)| {
                    let t = ticks(v.into_iter());
                    let h = counts(runs(&t, |a, b| b.1 >= a.1).into_iter().map(|r| (r.1 .1 - r.0 .1) / 10000));
                    (!t.is_empty()).then(|| (k.to_string(), (h, t.len())))
                })
                .collect();
            ecu_lines("Distribution of lifecycle durations:", &m)
        }
        "split_timestamp" => ecu_lines(SECS_TITLE, &split_secs(ev)),
        _ => panic!("HARNESS: unknown command {cmd}"),
    }
}

struct Runs19;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RunCase {
    steps: Vec<Step>,
    cmd: u8,
    read: bool,
}

const RUN_CMDS: [&str; 6] = ["histogram_timestamp", "histogram_lifecycles", "iter", "split_lifecycles", "split_timestamp", "itertools"];

impl Part for Runs19 {
    type Case = RunCase;
    fn name(&self) -> &'static str {
        "logs"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<RunCase> {
        let n = if tier == Tier::Quick { 40 } else { 200 };
        (prop_oneof![2 => steps(12), 2 => steps(n)], 0u8..6, any::<bool>()).prop_map(|(steps, cmd, read)| RunCase { steps, cmd, read }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 45_000 } else { 700_000 }
    }
    fn check(&self, c: &RunCase, cx: &mut Cx) -> Outcome {
        let l = step_log(&c.steps, true);
        let ev = events(&l.bytes);
        assert!(ev.len() == l.msgs.len(), "HARNESS: log is not read as laid out");
        let cmd = RUN_CMDS[c.cmd as usize];
        cx.label(cmd);
        let s: Vec<u32> = ev.iter().map(|e| e.secs).collect();
        cx.nontrivial_if(ev.len() >= 3 && runs(&s, |a, b| b >= a).len() >= 2);
        cx.label_if(long_runs(&ev) > 0, "long lifecycle");
        let want = run_expect(cmd, &ev);
        compare(if c.read { "read" } else { "mmap" }, cmd, &l.bytes, want)
    }
}

struct LongRuns19;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongRunCase {
    log: LongSteps,
    cmd: u8,
    read: bool,
}

impl Part for LongRuns19 {
    type Case = LongRunCase;
    fn name(&self) -> &'static str {
        "long-logs"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<LongRunCase> {
        (long_steps(), 0u8..6, any::<bool>()).prop_map(|(log, cmd, read)| LongRunCase { log, cmd, read }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 500 } else { 10_000 }
    }
    fn check(&self, c: &LongRunCase, cx: &mut Cx) -> Outcome {
        let l = c.log.log();
        let ev = events(&l.bytes);
        assert!(ev.len() == l.msgs.len(), "HARNESS: log is not read as laid out");
        let cmd = RUN_CMDS[c.cmd as usize];
        cx.label(cmd);
        let s: Vec<u32> = ev.iter().map(|e| e.secs).collect();
        cx.nontrivial_if(ev.len() >= 3 && runs(&s, |a, b| b >= a).len() >= 2);
        cx.label_if(ev.len() > 65536, "over 65536 messages");
        cx.label_if(by_ecu(&ev).len() > 256, "over 256 ECUs");
        let want = run_expect(cmd, &ev);
        compare(if c.read { "read" } else { "mmap" }, cmd, &l.bytes, want)
    }
}

// ---------------------------------------------------------------- C20

struct Par20;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ParCase {
    steps: Vec<Step>,
    log: Vec<Item>,
    #[serde(flatten)]
    run: ParRun,
}

const PAR_CMDS: [&str; 7] = ["par_count", "par_histogram_timestamp", "par_split_timestamp", "par_iter", "par_count_hello_world", "par_count_hello_world_grepit", "par_count_hello_world_raw"];

impl Part for Par20 {
    type Case = ParCase;
    fn name(&self) -> &'static str {
        "logs"
    }
    fn strategy(&self, tier: Tier) -> BoxedStrategy<ParCase> {
        let n = if tier == Tier::Quick { 40 } else { 200 };
        let plain = Style { embedded: false, ..Style::CLI };
        par_run().prop_flat_map(move |run| {
            let cmd = run.cmd;
            let st = if cmd < 4 { prop_oneof![1 => steps(12), 1 => steps(n)].boxed() } else { Just(vec![]).boxed() };
            let item = |s: Style| prop_oneof![6 => stat_msg(s).prop_map(Item::Msg), 1 => junk().prop_map(Item::Gap)];
            let lg = match cmd {
                0 => vec(item(Style::CLI), 0..20).boxed(),
                4 => vec(item(Style::CLI), 0..20).boxed(),
                5 => vec(item(plain), 0..20).boxed(),
                6 => vec(stat_msg(Style::CLI).prop_map(Item::Msg), 0..20).boxed(),
                _ => Just(vec![]).boxed(),
            };
            (st, lg).prop_map(move |(steps, log)| ParCase { steps, log, run: run.clone() })
        })
        .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 20_000 } else { 400_000 }
    }
    fn check(&self, c: &ParCase, cx: &mut Cx) -> Outcome {
        let mut b = lay_out(&c.log).bytes;
        b.extend(step_log(&c.steps, true).bytes);
        par(&b, &c.run, cx)
    }
}

struct LongPar20;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongParCase {
    steps: Option<LongSteps>,
    unit: Vec<Item>,
    reps: u32,
    run: ParRun,
}

impl Part for LongPar20 {
    type Case = LongParCase;
    fn name(&self) -> &'static str {
        "long-logs"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<LongParCase> {
        let plain = Style { embedded: false, ..Style::CLI };
        (par_run(), reps())
            .prop_flat_map(move |(run, reps)| {
                let item = |s: Style| prop_oneof![3 => stat_msg(s).prop_map(Item::Msg), 1 => junk().prop_map(Item::Gap)];
                let lg = match run.cmd {
                    0 | 4 => vec(item(Style::CLI), 1..6).boxed(),
                    5 => vec(item(plain), 1..6).boxed(),
                    6 => vec(stat_msg(Style::CLI).prop_map(Item::Msg), 1..6).boxed(),
                    _ => Just(vec![]).boxed(),
                };
                let st = if (1..4).contains(&run.cmd) { long_steps().prop_map(Some).boxed() } else { Just(None).boxed() };
                (st, lg).prop_map(move |(steps, unit)| LongParCase { steps, unit, reps, run: run.clone() })
            })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 500 } else { 10_000 }
    }
    fn check(&self, c: &LongParCase, cx: &mut Cx) -> Outcome {
        let b = match &c.steps {
            Some(s) => s.log().bytes,
            // no filler for the raw search
            None if c.run.cmd == 6 => {
                let u = lay_out(&c.unit).bytes;
                u.repeat((c.reps as usize).min(6_000_000 / u.len()))
            }
            None => repeated(&c.unit, c.reps),
        };
        par(&b, &c.run, cx)
    }
}

/// Which command, and at what degree of parallelism.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ParRun {
    cmd: u8,
    read: bool,
    cpus: u8,
    threads: Option<u8>,
    pin: Option<u8>,
}

fn par_run() -> BoxedStrategy<ParRun> {
    (0u8..7, any::<bool>(), prop_oneof![6 => 1u8..10, 2 => 10u8..40, 1 => 100u8..=200], prop::option::of(1u8..9), prop::option::weighted(0.3, 1u8..9))
        .prop_map(|(cmd, read, cpus, threads, pin)| ParRun { cmd, read, cpus, threads, pin })
        .boxed()
}

fn par(b: &[u8], c: &ParRun, cx: &mut Cx) -> Outcome {
        let msgs = scan::<Dlt>(b, 0);
        let cmd = PAR_CMDS[c.cmd as usize];
        cx.label(cmd);
        if c.cmd == 5 && embeds::<Dlt>(b, &msgs) {
            cx.label("left out: embedded pattern");
            return Ok(());
        }
        let f = cli::put("f.dlt", b);
        // every degree of parallelism, by pretending CPUs or by really running on few of them
        let faults = match c.pin {
            Some(p) => Faults { pin: Some(p as u32), ..Faults::default() },
            None => Faults { cpus: Some(c.cpus as u32), threads: c.threads.map(|x| x as u32), ..Faults::default() },
        };
        let method = if c.read { "read" } else { "mmap" };
        let what = format!("'{method} {cmd}'{MSG} with {:?} CPUs", faults.pin.or(faults.cpus));
        let r = cli::run("ripdlt", &[method, cmd, f.to_str().unwrap()], In::Null, Out::Pipe, &faults, None);
        r.ok(&what)?;
        let mut got = lines(&r);
        let mut num = faults.pin.or(faults.cpus).unwrap() as usize;
        if let Some(i) = got.iter().position(|l| l.starts_with("available parallelism = ")) {
            let l = got.remove(i);
            num = l["available parallelism = ".len()..].split(',').next().and_then(|x| x.trim().parse().ok()).unwrap_or(num);
        }
        let parts = matchit::partition_from::<DltStorageEntry>(b, num);
        cx.nontrivial_if(parts.len() >= 2 && msgs.len() >= 2);
        cx.label_if(parts.len() >= 2, "really divided");
        cx.label_if(num > 64, "over 64 partitions asked for");
        let evs: Vec<Vec<Ev>> = parts.iter().map(|p| events(p)).collect();
        match cmd {
            "par_count" => expect_lines(&what, got, vec![format!("{} messages", msgs.len())]),
            "par_count_hello_world" => expect_lines(&what, got, vec![format!("{} hello world messages", hello_payloads(b, &msgs))]),
            "par_count_hello_world_grepit" => expect_lines(&what, got, vec![format!("{} hello world messages", grep_hits(b, &msgs).len())]),
            "par_count_hello_world_raw" => expect_lines(&what, got, vec![format!("{} hello world messages", count_nonoverlapping(b, b"Hello World"))]),
            "par_iter" => expect_lines(&what, got, evs.iter().map(|e| format!("{} lifecycles >= 1800s", long_runs(e))).collect()),
            "par_histogram_timestamp" => {
                let mut h = Hist::new();
                for e in &evs {
                    for (k, n) in secs_hist(e) {
                        *h.entry(k).or_default() += n;
                    }
                }
                expect_lines(&what, got, secs_lines(&h))
            }
            _ => {
                let mut m: BTreeMap<String, (Hist, usize)> = BTreeMap::new();
                for e in &evs {
                    for (k, (h, n)) in split_secs(e) {
                        let x = m.entry(k).or_default();
                        x.1 += n;
                        for (k, n) in h {
                            *x.0.entry(k).or_default() += n;
                        }
                    }
                }
                // the totals do not depend on how the log is divided
                let total: BTreeMap<String, usize> = split_secs(&events(b)).into_iter().map(|(k, x)| (k, x.1)).collect();
                let sum: BTreeMap<String, usize> = m.iter().map(|(k, x)| (k.clone(), x.1)).collect();
                ensure(total == sum, || format!("{what}: per ECU the partitions hold {sum:?} messages, the log {total:?}"))?;
                expect_lines(&what, got, ecu_lines(SECS_TITLE, &m))
            }
        }
}

// ---------------------------------------------------------------- C21

struct Wrap21;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WrapCase {
    data: WrapIn,
    size: u32,
    ecu: B,
    app: B,
    pipe: Option<Vec<u16>>,
    to_file: bool,
    rd: (Option<u16>, Option<u8>),
    wr: (Option<u16>, Option<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum WrapIn {
    Bytes(B),
    Log(Vec<Item>),
    Rep(B, u32),
}

fn input(d: &WrapIn) -> Vec<u8> {
    match d {
        WrapIn::Bytes(b) => b.0.clone(),
        WrapIn::Log(l) => lay_out(l).bytes,
        WrapIn::Rep(b, n) => {
            let mut v = vec![];
            Chunk::Rep(b.clone(), *n).put(&mut v);
            v
        }
    }
}

impl Part for Wrap21 {
    type Case = WrapCase;
    fn name(&self) -> &'static str {
        "wrap"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<WrapCase> {
        let size = prop_oneof![
            6 => 1u32..60,
            3 => 60u32..3000,
            2 => prop_oneof![Just(65517u32), Just(65516), 65000u32..65518, 3000u32..65518],
            2 => prop_oneof![Just(0u32), Just(65518), Just(65535), 65518u32..65536],
        ];
        let size = dict::mixed(size.boxed(), 15, 1, 65535, |n| n as u32);
        let nl = prop_oneof![2 => Just(B(b"Hello\nWorld\n".to_vec())), 1 => Just(B(b"line of text\n----------------".to_vec())), 1 => Just(B(vec![b'\n'])), 2 => bytes(40), 1 => Just(B(MARK.to_vec()))];
        let data = prop_oneof![
            3 => bytes(300).prop_map(WrapIn::Bytes),
            3 => log(Style::CLI, 8).prop_map(WrapIn::Log),
            4 => (nl, dict::mixed(prop_oneof![3 => 0u32..4000, 2 => 4000u32..30000, 1 => 60000u32..200_000].boxed(), 8, 1, 250_000, |n| n as u32)).prop_map(|(b, n)| WrapIn::Rep(b, n)),
        ];
        let id = || prop_oneof![4 => id4_ascii().prop_filter("argument", |b| !b.0.contains(&0)), 1 => Just(B("ü12".as_bytes().to_vec()))];
        let pipe = prop::option::of(vec(dict::mixed(prop_oneof![1u16..40, 1000u16..9000].boxed(), 8, 1, 65535, |n| n as u16), 1..5));
        let io = || (prop::option::weighted(0.3, prop_oneof![1u16..50, 50u16..3000]), prop::option::weighted(0.3, 2u8..5));
        (size, data, id(), id(), pipe, any::<bool>(), io(), io())
            .prop_map(|(size, data, ecu, app, pipe, to_file, rd, wr)| WrapCase { size, data, ecu, app, pipe, to_file, rd, wr })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 25_000 } else { 300_000 }
    }
    fn check(&self, c: &WrapCase, cx: &mut Cx) -> Outcome {
        let data = input(&c.data);
        let faults = Faults { rd_max: c.rd.0.map(u32::from), rd_eintr: c.rd.1.map(u32::from), wr_max: c.wr.0.map(u32::from), wr_eintr: c.wr.1.map(u32::from), ..Faults::default() };
        let (r, what) = wrap(c.size, &c.ecu, &c.app, &data, &c.pipe, c.to_file, &faults);
        let valid = (1..=65517).contains(&c.size);
        cx.label_if(!valid, "payload size without a valid message");
        cx.label_if(c.size == 65517, "largest payload");
        cx.label_if(c.pipe.is_some(), "input through a pipe");
        cx.label_if(c.wr.0.is_some(), "short writes");
        if !valid {
            cx.nontrivial_if(true);
            ensure(r.signal.is_none(), || r.died(&what))?;
            return ensure(r.out.is_empty() && r.code != Some(0), || format!("{what}: there is no valid message with {} payload bytes, but it exits with {:?} and writes {} bytes", c.size, r.code, r.out.len()));
        }
        r.ok(&what)?;
        let size = c.size as usize;
        let n = data.len() / size;
        cx.nontrivial_if(n >= 2);
        cx.label_if(n > 256, "counter wraps");
        cx.label_if(n * size < data.len(), "remainder");
        let b = &r.out;
        ensure(b.len() == n * (size + 34), || format!("{what}: writes {} bytes for {} input bytes, expected {n} messages of {} bytes", b.len(), data.len(), size + 34))?;
        // a payload holding patterns must not matter
        let msgs = scan::<Dlt>(b, 0);
        ensure(msgs.len() == n && msgs.iter().enumerate().all(|(i, m)| *m == (i * (size + 34), size + 34)), || format!("{what}: reading its output gives {} messages, expected {n} of {} bytes each", msgs.len(), size + 34))?;
        let got = drive(rapiddlt::dlt_v1::dltit_offset(b), n + 9, "reading the output")?;
        same_list::<Dlt>(&got, &msgs, b, "reading the output")?;
        for (i, m) in msgs.iter().enumerate() {
            let v = view(b, *m);
            let f = fields(v.htyp, v.tail);
            let us = le32(&b[m.0 + 8..]);
            let ctx = || format!("{what}: message {i} is {}", show(&b[m.0..m.0 + 34], 40));
            ensure(v.secu[..] == c.ecu.0[..], || format!("{} with another ECU than {:?}", ctx(), c.ecu))?;
            ensure(v.secs as u64 * 1_000_000 + us as u64 == i as u64 * 10_000 && us < 1_000_000, || format!("{} stored at {} s {us} us, expected {} ms", ctx(), v.secs, i * 10))?;
            ensure(v.htyp >> 5 == 1, || format!("{} of version {}", ctx(), v.htyp >> 5))?;
            ensure(b[m.0 + 17] == i as u8, || format!("{} with counter {}", ctx(), b[m.0 + 17]))?;
            ensure(f.tmsp == Some((i as u32).wrapping_mul(100)), || format!("{} with timestamp {:?}, expected {}", ctx(), f.tmsp, i * 100))?;
            let Some(x) = f.ext else { return Err(format!("{} without extended header", ctx())) };
            ensure(x[0] == 0x41, || format!("{} with message info {:#04x}, expected verbose log info 0x41", ctx(), x[0]))?;
            ensure(x[2..6] == c.app.0[..] && x[6..10] == c.app.0[..], || format!("{} with other ids than {:?}", ctx(), c.app))?;
            ensure(f.payload == Some(&data[i * size..(i + 1) * size]), || format!("{} with another payload than input bytes {}..{}", ctx(), i * size, (i + 1) * size))?;
        }
        let said: Option<usize> = r.err.split(|ch: char| !ch.is_ascii_digit()).find(|s| !s.is_empty()).and_then(|s| s.parse().ok());
        ensure(said == Some(n), || format!("{what}: {n} messages are written, it reports {:?}", r.err.trim()))
    }
}

fn wrap(size: u32, ecu: &B, app: &B, data: &[u8], pipe: &Option<Vec<u16>>, to_file: bool, faults: &Faults) -> (Ran, String) {
    let f = cli::path("in");
    let input = match pipe {
        Some(s) => In::Pipe(data, s.iter().map(|x| *x as usize).collect()),
        None => {
            cli::put("in", data);
            In::File(&f)
        }
    };
    let o = cli::path("out");
    let out = if to_file { Out::File(&o) } else { Out::Pipe };
    let (e, a) = (String::from_utf8(ecu.0.clone()).unwrap(), String::from_utf8(app.0.clone()).unwrap());
    let r = cli::run("dd_dlt", &[&e, &a, &size.to_string()], input, out, faults, None);
    (r, format!("'dd_dlt {e:?} {a:?} {size}' on {} bytes", data.len()))
}

/// So many messages that counters and clocks overflow.
struct Many21;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ManyCase {
    n: u32,
    size: u8,
    rest: u8,
    salt: u8,
}

impl Part for Many21 {
    type Case = ManyCase;
    fn name(&self) -> &'static str {
        "many-messages"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<ManyCase> {
        // the timestamp overflows at 42949673 messages, the seconds leave 16 bits at 6553600
        let n = prop_oneof![3 => 42_949_670u32..42_960_000, 2 => (1u32 << 24)..(1 << 24) + 9_000, 2 => 6_553_590u32..6_600_000, 1 => 1_000_000u32..12_000_000];
        (n, 1u8..5, any::<u8>(), any::<u8>()).prop_map(|(n, size, rest, salt)| ManyCase { n, size, rest: rest % size, salt }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 8 } else { 80 }
    }
    /// includes the tool's time
    fn cpu_limit_s(&self) -> u64 {
        300
    }
    fn check(&self, c: &ManyCase, cx: &mut Cx) -> Outcome {
        let (n, size) = (c.n as u64, c.size as usize);
        let what = format!("'dd_dlt ECU1 APP1 {size}' on {} bytes", n * size as u64 + c.rest as u64);
        cx.nontrivial_if(n > 65536);
        cx.label_if(n > 42_949_672, "timestamp overflows");
        cx.label_if(n > 1 << 24, "more than 2^24 messages");
        // the input's i-th byte; without line feeds, which would be sent one by one
        let byte = |i: u64| ((i ^ i >> 7 ^ i >> 15) as u8).wrapping_add(c.salt) | 0x40;
        let feed = |w: &mut dyn std::io::Write| {
            let mut b = [0; 4096];
            let total = n * size as u64 + c.rest as u64;
            let mut at = 0;
            while at < total {
                let k = (total - at).min(4096) as usize;
                for (j, x) in b[..k].iter_mut().enumerate() {
                    *x = byte(at + j as u64);
                }
                w.write_all(&b[..k])?;
                at += k as u64;
            }
            Ok(())
        };
        let mut i = 0u64;
        let mut left: Vec<u8> = vec![];
        let one = |i: u64, m: &[u8]| {
            let mut want = [0; 38];
            want[..4].copy_from_slice(MARK);
            want[4..8].copy_from_slice(&((i / 100) as u32).to_le_bytes());
            want[8..12].copy_from_slice(&((i % 100) as u32 * 10_000).to_le_bytes());
            want[12..16].copy_from_slice(b"ECU1");
            want[17] = i as u8;
            want[19] = 18 + size as u8;
            want[20..24].copy_from_slice(&((i as u32).wrapping_mul(100)).to_be_bytes());
            want[24] = 0x41;
            want[26..34].copy_from_slice(b"APP1APP1");
            for (j, x) in want[34..34 + size].iter_mut().enumerate() {
                *x = byte(i * size as u64 + j as u64);
            }
            // flags and number of arguments are the tool's choice, except for what the statement says
            want[16] = m[16];
            want[25] = m[25];
            let f = m[16] >> 5 == 1 && m[16] & 0x1d == 0x11;
            ensure(i < n && f && m[..] == want[..34 + size], || format!("{what}: message {i} is {}, expected {}", show(m, 40), show(&want[..34 + size], 40)))
        };
        let eat = |b: &[u8]| {
            let len = 34 + size;
            let mut b = b;
            if !left.is_empty() {
                let k = (len - left.len()).min(b.len());
                left.extend_from_slice(&b[..k]);
                b = &b[k..];
                if left.len() == len {
                    one(i, &left)?;
                    i += 1;
                    left.clear();
                }
            }
            while b.len() >= len {
                one(i, &b[..len])?;
                i += 1;
                b = &b[len..];
            }
            left.extend_from_slice(b);
            Ok(())
        };
        let Some((r, verdict)) = cli::stream("dd_dlt", &["ECU1", "APP1", &size.to_string()], feed, eat) else {
            cx.label("not within the time");
            return Ok(());
        };
        verdict?;
        r.ok(&what)?;
        ensure(i == n && left.is_empty(), || format!("{what}: writes {i} messages and {} bytes, expected {n} messages", left.len()))?;
        let said: Option<u64> = r.err.split(|ch: char| !ch.is_ascii_digit()).find(|s| !s.is_empty()).and_then(|s| s.parse().ok());
        ensure(said == Some(n), || format!("{what}: {n} messages are written, it reports {:?}", r.err.trim()))
    }
}

/// Failing reads and writes are reported.
struct Fail21;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fail21Case {
    data: B,
    rep: u8,
    size: u16,
    at: u16,
    write: bool,
    to_file: bool,
    /// reading and writing work again after the error
    #[serde(default)]
    once: bool,
}

impl Part for Fail21 {
    type Case = Fail21Case;
    fn name(&self) -> &'static str {
        "failing-io"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Fail21Case> {
        let text = prop_oneof![1 => bytes(60), 1 => Just(B(b"some text\nand more\n".to_vec())), 1 => Just(B(b"no line end ".to_vec()))];
        (text, any::<u8>(), prop_oneof![1u16..40, 40u16..2500], any::<u16>(), any::<bool>(), any::<bool>(), any::<bool>()).prop_map(|(data, rep, size, at, write, to_file, once)| Fail21Case { data, rep, size, at, write, to_file, once }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 10_000 } else { 100_000 }
    }
    fn check(&self, c: &Fail21Case, cx: &mut Cx) -> Outcome {
        let data = c.data.0.repeat(c.rep as usize);
        let n = data.len() / c.size as usize;
        let total = if c.write { n * (c.size as usize + 34) } else { data.len() };
        // strictly before the last byte: the fault always happens
        let at = total as u64 * c.at as u64 / 65536;
        let f = Faults { once: c.once, ..Faults::default() };
        let f = if c.write { Faults { wr_fail: Some(at), ..f } } else { Faults { rd_fail: Some(at), ..f } };
        if total == 0 {
            cx.label("nothing to transfer");
            return Ok(());
        }
        cx.nontrivial_if(n >= 1);
        cx.label(if c.write { "failing write" } else { "failing read" });
        cx.label_if(c.once, "one error only");
        let (r, what) = wrap(c.size as u32, &B(b"ECU1".to_vec()), &B(b"APP1".to_vec()), &data, &None, c.to_file, &f);
        ensure(r.signal.is_none(), || r.died(&what))?;
        if c.once && r.code == Some(0) {
            // tried again with success, then
            let (want, _) = wrap(c.size as u32, &B(b"ECU1".to_vec()), &B(b"APP1".to_vec()), &data, &None, c.to_file, &Faults::default());
            return ensure(r.out == want.out, || format!("{what}: after a {} error at byte {at}, later attempts working, ends successfully with {} of {} bytes written, or others", if c.write { "write" } else { "read" }, r.out.len(), want.out.len()));
        }
        ensure(r.code != Some(0), || format!("{what}: a {} error at byte {at} is not reported ({:?})", if c.write { "write" } else { "read" }, r.err.trim()))
    }
}

// ---------------------------------------------------------------- C25

struct Output25;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OutputCase {
    log: Vec<Item>,
    steps: Vec<Step>,
    cmd: u8,
    read: bool,
    cpus: u8,
    /// 0 short and interrupted writes, 1 failing, 2 pipe without reader, 3 full device, 4 one failing write, later
    /// ones work, 5 failing read of the log, 6 one failing read
    fault: u8,
    wr_max: u32,
    wr_eintr: Option<u32>,
    at: u16,
}

const ALL_CMDS: [&str; 21] = [
    "count", "histogram_message_size", "histogram_payload_size", "histogram_timestamp", "histogram_message_type", "histogram_lifecycles", "split_lifecycles", "split_timestamp", "iter", "itertools", "count_hello_world",
    "count_hello_world_raw", "count_hello_world_grepit", "histogram_hello_world", "par_count", "par_histogram_timestamp", "par_split_timestamp", "par_iter", "par_count_hello_world", "par_count_hello_world_raw", "par_count_hello_world_grepit",
];

impl Part for Output25 {
    type Case = OutputCase;
    fn name(&self) -> &'static str {
        "output-faults"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<OutputCase> {
        let max = prop_oneof![3 => 1u32..20, 2 => 20u32..2000];
        let at = prop_oneof![1 => Just(0), 1 => Just(65535), 4 => any::<u16>()];
        (vec(stat_msg(Style::CLI).prop_map(Item::Msg), 0..12), prop_oneof![1 => Just(vec![]), 3 => steps(30)], 0u8..21, any::<bool>(), 1u8..9, prop_oneof![3 => Just(0u8), 5 => Just(1), 1 => Just(2), 1 => Just(3), 4 => Just(4), 2 => Just(5), 1 => Just(6)], max, prop::option::of(2u32..5), at)
            .prop_map(|(log, steps, cmd, read, cpus, fault, wr_max, wr_eintr, at)| OutputCase { log, steps, cmd, read, cpus, fault, wr_max, wr_eintr, at })
            .boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 16_000 } else { 300_000 }
    }
    fn check(&self, c: &OutputCase, cx: &mut Cx) -> Outcome {
        let mut b = lay_out(&c.log).bytes;
        b.extend(step_log(&c.steps, true).bytes);
        let f = cli::put("f", &b);
        let (cmd, method) = (ALL_CMDS[c.cmd as usize % ALL_CMDS.len()], if c.read { "read" } else { "mmap" });
        let good = Faults { cpus: Some(c.cpus as u32), ..Faults::default() };
        let go = |out: Out, f2: &Faults| cli::run("ripdlt", &[method, cmd, f.to_str().unwrap()], In::Null, out, f2, Some(&f));
        let a = go(Out::Pipe, &good);
        a.ok(&format!("'{method} {cmd}'{MSG} on {} bytes", b.len()))?;
        let total = a.out.len() as u64;
        ensure(total > 0, || format!("'{method} {cmd}'{MSG} prints nothing"))?;
        // strictly before the last byte: the fault always happens
        let at = (total - 1) * c.at as u64 / 65535;
        // mapped files are not read
        let len = b.len() as u64;
        let rat = len.saturating_sub(1) * c.at as u64 / 65535;
        let fault = if c.fault >= 5 && (!c.read || len == 0) { 4 } else { c.fault };
        let (out, faults, what) = match fault {
            4 => (Out::Pipe, Faults { wr_fail: Some(at), once: true, ..good }, format!("one write fails behind byte {at} of {total}, later ones work")),
            5 => (Out::Pipe, Faults { rd_fail: Some(rat), ..good }, format!("reading fails behind byte {rat} of {len}")),
            6 => (Out::Pipe, Faults { rd_fail: Some(rat), once: true, ..good }, format!("one read fails behind byte {rat} of {len}, later ones work")),
            0 => (Out::Pipe, Faults { wr_max: Some(c.wr_max), wr_eintr: c.wr_eintr, ..good }, format!("writes of at most {} bytes", c.wr_max)),
            1 => (Out::Pipe, Faults { wr_fail: Some(at), ..good }, format!("writing fails behind byte {at} of {total}")),
            2 => (Out::Broken, good, "nobody reads".to_string()),
            _ => (Out::Full, good, "full device".to_string()),
        };
        cx.label(["short and interrupted writes", "failing write", "pipe without reader", "full device", "one failing write", "failing read", "one failing read"][fault as usize % 7]);
        cx.nontrivial_if(true);
        let what = format!("'{method} {cmd}'{MSG}, {what}");
        let r = go(out, &faults);
        ensure(r.signal != Some(libc::SIGXCPU) && r.signal != Some(libc::SIGSEGV), || r.died(&what))?;
        if fault == 0 {
            r.ok(&what)?;
            return expect_lines(&what, lines(&r), lines(&a));
        }
        if fault >= 4 && r.code == Some(0) {
            // tried again with success, then
            return expect_lines(&what, lines(&r), lines(&a));
        }
        ensure(r.code != Some(0), || format!("{what}: ends as if the result had been printed ({:?})", r.err.trim()))
    }
}

struct Invalid25;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct InvalidCase {
    log: Vec<Item>,
    kind: u8,
    cmd: u8,
    word: String,
    at: u8,
}

impl Part for Invalid25 {
    type Case = InvalidCase;
    fn name(&self) -> &'static str {
        "invalid-invocations"
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<InvalidCase> {
        let word = prop_oneof![2 => "[a-z_]{0,12}", 1 => Just("count ".to_string()), 1 => Just("-".to_string()), 1 => "\\PC{0,6}"];
        (vec(stat_msg(Style::CLI).prop_map(Item::Msg), 1..6), 0u8..9, any::<u8>(), word, any::<u8>()).prop_map(|(log, kind, cmd, word, at)| InvalidCase { log, kind, cmd, word, at }).boxed()
    }
    fn cases(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick { 9_000 } else { 100_000 }
    }
    fn check(&self, c: &InvalidCase, cx: &mut Cx) -> Outcome {
        let b = lay_out(&c.log).bytes;
        let f = cli::put("f", &b);
        let f = f.to_str().unwrap();
        let cmd = ALL_CMDS[c.cmd as usize % ALL_CMDS.len()];
        let method = if c.at % 2 == 0 { "mmap" } else { "read" };
        // a valid word, changed: other letters, shorter, longer
        let near = |w: &str| match c.at % 5 {
            0 => w.to_uppercase(),
            1 => w[..c.at as usize % w.len()].to_string(),
            2 => format!("{w}{}", if c.word.is_empty() { "_" } else { &c.word }),
            3 => format!(" {w}"),
            _ => w.chars().rev().collect(),
        };
        let none = Faults::default();
        let failing = |args: &[&str]| {
            let r = cli::run("ripdlt", args, In::Null, Out::Pipe, &none, None);
            ensure(r.signal.is_none() && r.code != Some(0) && lines(&r).is_empty(), || format!("ripdlt {:?}: exits with {:?} and prints {:?}", &args[..2], r.code.or(r.signal), lines(&r)))
        };
        cx.nontrivial_if(true);
        match c.kind {
            0 | 1 => {
                let w = if c.kind == 0 { near(cmd) } else { c.word.clone() };
                if ALL_CMDS.contains(&w.as_str()) || w.contains('\0') {
                    return Ok(());
                }
                cx.label("unknown command");
                failing(&[method, &w, f])
            }
            2 | 3 => {
                let w = if c.kind == 2 { near(method) } else { c.word.clone() };
                if w == "mmap" || w == "read" || w.contains('\0') {
                    return Ok(());
                }
                cx.label("unknown access method");
                failing(&[&w, cmd, f])
            }
            4 => {
                cx.label("too few arguments");
                let args = [method, cmd, f];
                let r = cli::run("ripdlt", &args[..c.at as usize % 3], In::Null, Out::Pipe, &none, None);
                ensure(r.signal.is_none() && (r.text() + &r.err).to_lowercase().contains("usage"), || format!("ripdlt with {} arguments: exits with {:?}, no usage: {:?}", c.at % 3, r.code.or(r.signal), r.text()))
            }
            5 => {
                cx.label("dd_dlt with too few arguments");
                let args = ["ECU1", "APP1", "9"];
                let r = cli::run("dd_dlt", &args[..c.at as usize % 3], In::Pipe(&b, vec![99]), Out::Pipe, &none, None);
                ensure(r.signal.is_none() && r.out.is_empty() && r.err.to_lowercase().contains("usage"), || format!("dd_dlt with {} arguments: exits with {:?}, writes {} bytes: {:?}", c.at % 3, r.code.or(r.signal), r.out.len(), r.err.trim()))
            }
            6 => {
                // not a number
                let w = [c.word.clone(), "-1".into(), "0x10".into(), "1e3".into(), "12.5".into(), " 7".into(), "".into(), "99999999999999999999".into(), "65518".into()][c.at as usize % 9].clone();
                if w.parse::<u16>().is_ok_and(|n| n > 0 && n < 65518) || w.contains('\0') {
                    return Ok(());
                }
                cx.label("dd_dlt with a size that is none");
                let r = cli::run("dd_dlt", &["ECU1", "APP1", &w], In::Pipe(&b, vec![99]), Out::Pipe, &none, None);
                ensure(r.signal.is_none() && r.code != Some(0) && r.out.is_empty(), || format!("dd_dlt with payload size {w:?}: exits with {:?}, writes {} bytes", r.code.or(r.signal), r.out.len()))
            }
            _ => {
                // an id that is not four bytes long
                let w = c.word.as_str();
                if w.len() == 4 || w.contains('\0') {
                    return Ok(());
                }
                cx.label("dd_dlt with an id of another length");
                let args = if c.kind == 7 { [w, "APP1", "7"] } else { ["ECU1", w, "7"] };
                let r = cli::run("dd_dlt", &args, In::Pipe(&b, vec![99]), Out::Pipe, &none, None);
                ensure(r.signal.is_none() && r.code != Some(0) && r.out.is_empty(), || format!("dd_dlt with ids {:?}: exits with {:?}, writes {} bytes", &args[..2], r.code.or(r.signal), r.out.len()))
            }
        }
    }
}
