mod cli;
mod dict;
mod core;
mod gen;
mod guide;
mod model;
mod props;

use crate::core::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Without progress for this long in wall-clock time, and without using CPU time: inconclusive, an error exit.
const STALL_WALL_S: u64 = 240;

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = loc);
    }));
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("worker") => worker(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), Path::new(&a[5])),
        Some("choices") => choices_case(&a[2], &a[3], Path::new(&a[4])),
        Some("replay") => replay(Path::new(&a[2])),
        Some("dict") => {
            let d = dict::get();
            println!("{:?}", d.nums);
            for s in &d.strs {
                println!("{:?}", String::from_utf8_lossy(s));
            }
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

pub fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn find(id: &str) -> Property {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

/// Scales the number of cases (for quick experiments and for deep runs); 1000 = 1.0.
fn scaled(cases: u64) -> u64 {
    let permille: u64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1000);
    (cases * permille / 1000).max(1)
}

// ---------------------------------------------------------------- worker

/// Part, index, shrinking?, length of choices; from byte 64 the choices.
struct Status(*mut u64);
const STATUS_LEN: usize = 64 + 32 + guide::MAX_CHOICES;
/// Indices from here on are guided cases.
const GUIDED: u64 = 1 << 40;

impl Status {
    fn open(path: &Path, create: bool) -> Status {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).expect("status file");
        if create {
            f.set_len(STATUS_LEN as u64).unwrap();
        }
        let p = unsafe { libc::mmap(std::ptr::null_mut(), STATUS_LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED, "mmap status");
        Status(p as *mut u64)
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { AtomicU64::from_ptr(self.0.add(i)) }
    }
    /// The seed and choices of the case that is run, if it is a guided one.
    fn set_choices(&self, c: &[u8]) {
        unsafe {
            self.at(3).store(c.len() as u64, Ordering::SeqCst);
            std::ptr::copy_nonoverlapping(c.as_ptr(), (self.0 as *mut u8).add(64), c.len());
        }
    }
    fn choices(&self) -> Vec<u8> {
        let n = self.at(3).load(Ordering::SeqCst) as usize;
        unsafe { std::slice::from_raw_parts((self.0 as *const u8).add(64), n.min(STATUS_LEN - 64)).to_vec() }
    }
}

fn limit_memory(id: &str) {
    // C17 maps files of up to 8 GB
    let n: u64 = if id == "C17" { 20 << 30 } else { 6 << 30 };
    let r = libc::rlimit { rlim_cur: n, rlim_max: n };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &r) };
    let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &r) };
}

fn worker(id: &str, shard: u64, nshards: u64, dir: &Path) -> i32 {
    limit_memory(id);
    let (seed, tier) = (env_seed(), env_tier());
    let prop = find(id);
    let st = Status::open(&dir.join(format!("status{shard}")), false);
    let mut stats = Stats::default();
    let mut seen = HashSet::new();
    // VH_SLOW=seconds: note in target/slow.log which cases take longer
    let slow = std::env::var("VH_SLOW").ok().and_then(|s| s.parse().ok()).map(Duration::from_secs_f64);
    for (pi, part) in prop.parts.iter().enumerate() {
        let n = scaled(part.cases(tier));
        let mut corpus = guide::Corpus::default();
        corpus.seen = (guided(id) > 0 && cov::on()).then(cov::Seen::default);
        // random cases, then guided ones
        let g = if corpus.seen.is_some() && n >= 1000 { GUIDED + n * guided(id) / 100 } else { 0 };
        let mut i = shard;
        let mut samples = 0;
        let mut limit = u64::MAX;
        while i < n || i < g {
            if i >= n && i < GUIDED {
                i = GUIDED + shard;
                // they end when their number is reached or this time is used up
                limit = corpus.spent + corpus.spent * guided(id) / 100;
            }
            if corpus.spent > limit {
                break;
            }
            st.at(0).store(pi as u64, Ordering::SeqCst);
            st.at(1).store(i, Ordering::SeqCst);
            let before = stats.samples.len();
            let want = shard == 0 && samples < 2;
            let note = |f: &Failure| {
                let v = json!({"property": id, "part": part.name(), "case": f.case_json, "message": f.message,
                    "found": {"seed": seed, "tier": tier.name(), "index": i, "shrink_steps": f.shrink_steps}});
                let tmp = dir.join(format!("failure{shard}.tmp"));
                std::fs::write(&tmp, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
                std::fs::rename(&tmp, dir.join(format!("failure{shard}.json"))).unwrap();
            };
            let t0 = Instant::now();
            let mut start = case_seed(seed, id, part.name(), i).to_vec();
            if i >= GUIDED {
                let mut r = guide::Rnd(u64::from_le_bytes(start[..8].try_into().unwrap()) | 1);
                start.extend(corpus.mutate(&mut r));
                st.set_choices(&start);
                stats.guided += 1;
            }
            let fail = part.run_one(tier, choice_rng(&start), &mut corpus, &mut stats, &mut seen, want, &mut |f| {
                note(f);
                st.at(2).store(1, Ordering::SeqCst);
            });
            let t = t0.elapsed();
            if slow.is_some_and(|s| t > s) {
                use std::io::Write;
                let mut f = std::fs::OpenOptions::new().append(true).create(true).open(verif_dir().join("target/slow.log")).unwrap();
                let _ = writeln!(f, "{id} {} #{i}: {:.2} s", part.name(), t.as_secs_f64());
            }
            samples += stats.samples.len() - before;
            if let Some(f) = fail {
                note(&f);
                return 1;
            }
            i += nshards;
        }
        stats.kept += corpus.len() as u64;
    }
    std::fs::write(dir.join(format!("stats{shard}.json")), serde_json::to_vec(&stats).unwrap()).unwrap();
    0
}

/// Runs one generated case, given by seed and choices, in a process of its own (to confirm a crash or hang).
fn choices_case(id: &str, part: &str, file: &Path) -> i32 {
    limit_memory(id);
    let prop = find(id);
    let p = prop.parts.iter().find(|p| p.name() == part).unwrap();
    let v = p.dump(env_tier(), choice_rng(&std::fs::read(file).expect("HARNESS: choices")));
    finish_replay(p.replay(&v))
}

/// How many guided cases there are for a hundred random ones. The tools run as processes of their own, which are not
/// instrumented.
fn guided(id: &str) -> u64 {
    match id {
        "C17" | "C18" | "C19" | "C20" | "C21" | "C25" => 0,
        _ => std::env::var("VH_GUIDED").ok().and_then(|s| s.parse().ok()).unwrap_or(if env_tier() == Tier::Quick { 60 } else { 200 }),
    }
}

fn finish_replay(r: Result<(), String>) -> i32 {
    match r {
        Ok(()) => 0,
        Err(m) => {
            println!("{}", clip(&m, 4000));
            1
        }
    }
}

fn replay(file: &Path) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay json");
    limit_memory(v["property"].as_str().unwrap());
    let prop = find(v["property"].as_str().unwrap());
    let p = prop.parts.iter().find(|p| p.name() == v["part"].as_str().unwrap()).expect("unknown part in replay file");
    if std::env::var_os("VH_SCRATCH").is_some() {
        return finish_replay(p.replay(&v["case"]));
    }
    let dir = scratch("replay");
    std::env::set_var("VH_SCRATCH", &dir);
    let r = finish_replay(p.replay(&v["case"]));
    let _ = std::fs::remove_dir_all(&dir);
    r
}

// ---------------------------------------------------------------- supervisor

fn cpu_seconds(pid: u32) -> u64 {
    // only ever asked about processes this program started
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = s.rsplit(") ").next().unwrap_or("");
    let f: Vec<&str> = rest.split(' ').collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12) + t(13) + t(14)) / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64
}

fn isolated(mut c: Command, cpu_s: u64) -> Command {
    unsafe {
        c.pre_exec(move || {
            let r = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

#[derive(Debug, PartialEq)]
enum Verdict {
    Ok,
    Failed(String),
    Crashed(i32),
    Hung,
    Error(String),
}

fn run_isolated(args: &[String], wall_s: u64, cpu_s: u64) -> Verdict {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args(args).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut child = isolated(c, cpu_s).spawn().expect("spawn");
    let t0 = Instant::now();
    // outputs are small (one clipped message), they fit in the pipe
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed().as_secs() > wall_s {
            let _ = child.kill();
            let _ = child.wait();
            return Verdict::Error("no verdict in time".into());
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let mut out = String::new();
    use std::io::Read;
    let _ = child.stdout.take().unwrap().read_to_string(&mut out);
    let mut err = String::new();
    let _ = child.stderr.take().unwrap().read_to_string(&mut err);
    match (status.code(), status.signal()) {
        (Some(0), _) => Verdict::Ok,
        (Some(1), _) => Verdict::Failed(out.trim().to_string()),
        (_, Some(s)) if s == libc::SIGXCPU || s == libc::SIGKILL => Verdict::Hung,
        (_, Some(s)) => Verdict::Crashed(s),
        (c, _) => Verdict::Error(format!("exit {c:?}: {}", err.trim())),
    }
}

fn signame(s: i32) -> String {
    match s {
        libc::SIGABRT => "SIGABRT (stack overflow, allocation failure or abort)".into(),
        libc::SIGSEGV => "SIGSEGV (stack overflow or invalid access)".into(),
        libc::SIGBUS => "SIGBUS".into(),
        libc::SIGILL => "SIGILL".into(),
        s => format!("signal {s}"),
    }
}

/// A finding must be reproducible from its replay file alone before it is reported.
fn report(id: &str, v: &Value) -> i32 {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{}.json", v["part"].as_str().unwrap_or("x")));
    std::fs::write(&path, serde_json::to_vec_pretty(v).unwrap()).unwrap();
    println!("{id}/{}: {}", v["part"].as_str().unwrap_or(""), clip(v["message"].as_str().unwrap_or(""), 3000));
    println!("case: {}", clip(&v["case"].to_string(), 1500));
    println!("replay with: bash /verif/check.sh --replay {}", path.display());
    println!("VIOLATION property={id} replay={}", path.display());
    1
}

struct Work {
    shard: u64,
    child: Child,
    status: Status,
    last: (u64, u64),
    since: Instant,
    cpu0: u64,
    done: Option<std::process::ExitStatus>,
    suspect: Option<(u64, u64)>,
    shrinking: Option<Instant>,
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let (seed, tier) = (env_seed(), env_tier());
    let prop = find(id);
    let vdir = verif_dir();
    let dir = scratch(id);
    std::env::set_var("VH_SCRATCH", &dir);
    let code = check_in(&prop, id, seed, tier, &vdir, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

pub fn scratch(tag: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("vh-{tag}-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

fn check_in(prop: &Property, id: &str, seed: u64, tier: Tier, vdir: &Path, dir: &Path, t0: Instant) -> i32 {
    let mut violations = 0;
    let mut rc = 0;

    // 1. committed regressions: shrunk inputs of defects found (and repaired) earlier
    let mut regress = 0u64;
    let mut files: Vec<PathBuf> = std::fs::read_dir(vdir.join("regress").join(id)).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files.iter().filter(|f| f.extension().is_some_and(|e| e == "json")) {
        let v: Value = serde_json::from_slice(&std::fs::read(f).unwrap()).unwrap();
        regress += 1;
        let cpu_s = prop.parts.iter().find(|p| Some(p.name()) == v["part"].as_str()).map_or(30, |p| p.cpu_limit_s());
        let verdict = run_isolated(&["replay".into(), f.display().to_string()], 300, cpu_s);
        let msg = match verdict {
            Verdict::Ok => continue,
            Verdict::Failed(m) => m,
            Verdict::Crashed(s) => format!("the process died with {}", signame(s)),
            Verdict::Hung => format!("did not terminate within {cpu_s} s of CPU time"),
            Verdict::Error(e) => {
                eprintln!("error replaying {}: {e}", f.display());
                return 2;
            }
        };
        let mut v = v.clone();
        v["message"] = json!(format!("regression {}: {msg}", f.file_name().unwrap().to_string_lossy()));
        rc = report(id, &v);
        violations += 1;
        break;
    }

    // 2. generated cases, sharded over worker processes
    let mut total = Stats::default();
    let mut distinct = HashSet::new();
    if rc == 0 {
        let nshards: u64 = std::env::var("VH_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        let exe = std::env::current_exe().unwrap();
        let mut works: Vec<Work> = vec![];
        for shard in 0..nshards {
            let status = Status::open(&dir.join(format!("status{shard}")), true);
            let mut c = Command::new(&exe);
            c.args(["worker", id, &shard.to_string(), &nshards.to_string(), &dir.display().to_string()]);
            c.stdout(Stdio::null());
            c.stderr(std::fs::File::create(dir.join(format!("stderr{shard}"))).unwrap());
            unsafe {
                c.pre_exec(|| {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    Ok(())
                });
            }
            let child = c.spawn().expect("spawn worker");
            works.push(Work { shard, child, status, last: (u64::MAX, 0), since: Instant::now(), cpu0: 0, done: None, suspect: None, shrinking: None });
        }
        let mut tick = 0u64;
        loop {
            tick += 1;
            let mut alive = false;
            let mut stop = false;
            for w in works.iter_mut() {
                if w.done.is_some() {
                    continue;
                }
                if let Some(s) = w.child.try_wait().unwrap() {
                    w.done = Some(s);
                    if s.code() != Some(0) {
                        stop = true;
                    }
                    continue;
                }
                alive = true;
                if tick % 50 != 0 {
                    continue;
                }
                let cur = (w.status.at(0).load(Ordering::SeqCst), w.status.at(1).load(Ordering::SeqCst));
                if w.status.at(2).load(Ordering::SeqCst) == 1 {
                    // shrinking is bounded by itself unless a candidate hangs; the failure so far is on record
                    let t = w.shrinking.get_or_insert_with(Instant::now);
                    if t.elapsed().as_secs() > 60 {
                        let _ = w.child.kill();
                        w.done = Some(w.child.wait().unwrap());
                        stop = true;
                    }
                    continue;
                }
                let cpu = cpu_seconds(w.child.id());
                if cur != w.last {
                    w.last = cur;
                    w.since = Instant::now();
                    w.cpu0 = cpu;
                } else if cpu.saturating_sub(w.cpu0) > prop.parts[cur.0 as usize].cpu_limit_s() || w.since.elapsed().as_secs() > STALL_WALL_S.max(2 * prop.parts[cur.0 as usize].cpu_limit_s()) {
                    let _ = w.child.kill();
                    w.done = Some(w.child.wait().unwrap());
                    w.suspect = Some(cur);
                    stop = true;
                }
            }
            if stop {
                // let the others reach their verdict for a moment, so that the lowest failing index is likely reported;
                // if this was a crash or a hang, an ordinary failure that is being shrunk is the better report
                let t = Instant::now();
                loop {
                    for w in works.iter_mut().filter(|w| w.done.is_none()) {
                        w.done = w.child.try_wait().unwrap();
                    }
                    let s = t.elapsed().as_secs();
                    let finished = works.iter().any(|w| w.done.is_some_and(|d| d.code() == Some(1)));
                    let shrinking = works.iter().any(|w| w.done.is_none() && w.status.at(2).load(Ordering::SeqCst) == 1);
                    if works.iter().all(|w| w.done.is_some()) || s >= 45 || (s >= 2 && (finished || !shrinking)) {
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
                for w in works.iter_mut() {
                    if w.done.is_none() {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                    }
                }
                break;
            }
            if !alive {
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }

        // verdicts: ordinary failures first (already shrunk), then crashes and hangs
        let mut fails: Vec<Value> = vec![];
        for w in works.iter() {
            if let Ok(b) = std::fs::read(dir.join(format!("failure{}.json", w.shard))) {
                fails.push(serde_json::from_slice(&b).unwrap());
            }
        }
        fails.sort_by_key(|v| (prop.parts.iter().position(|p| p.name() == v["part"].as_str().unwrap()), v["found"]["index"].as_u64()));
        if let Some(v) = fails.into_iter().next() {
            rc = report(id, &v);
            violations += 1;
        } else {
            let mut errors = vec![];
            for w in works.iter() {
                let died = matches!(w.done, Some(s) if s.code() != Some(0));
                if !died {
                    continue;
                }
                let s = w.done.unwrap();
                let err = std::fs::read_to_string(dir.join(format!("stderr{}", w.shard))).unwrap_or_default();
                if s.code().is_some() {
                    errors.push(format!("worker {} exited with {:?}: {}", w.shard, s.code(), clip(&err, 500)));
                    continue;
                }
                let (pi, ix) = (w.status.at(0).load(Ordering::SeqCst), w.status.at(1).load(Ordering::SeqCst));
                let part = &prop.parts[pi as usize];
                if w.suspect.is_none() && s.signal() == Some(libc::SIGKILL) {
                    // we stopped it, or memory ran low: no verdict about the code
                    errors.push(format!("worker {} was killed at {} #{ix}", w.shard, part.name()));
                    continue;
                }
                let cpu_s = part.cpu_limit_s();
                let start = if ix >= GUIDED { w.status.choices() } else { case_seed(seed, id, part.name(), ix).to_vec() };
                let sf = dir.join("choices");
                std::fs::write(&sf, &start).unwrap();
                match run_isolated(&["choices".into(), id.into(), part.name().into(), sf.display().to_string()], 600, cpu_s) {
                    Verdict::Ok => errors.push(format!("{} #{ix} died once ({s:?}) but passes alone", part.name())),
                    Verdict::Error(e) => errors.push(format!("{} #{ix}: {e}", part.name())),
                    v => {
                        let message = match &v {
                            Verdict::Failed(m) => m.clone(),
                            Verdict::Crashed(s) => format!("the process died with {}", signame(*s)),
                            _ => format!("did not terminate within {cpu_s} s of CPU time"),
                        };
                        // shrink in child processes; a hang with a short limit, its result confirmed with the long one
                        let cf = dir.join("candidate.json");
                        let hung = matches!(v, Verdict::Hung);
                        let t = Instant::now();
                        let run = |c: &Value, cpu: u64| {
                            std::fs::write(&cf, serde_json::to_vec(&json!({"property": id, "part": part.name(), "case": c})).unwrap()).unwrap();
                            run_isolated(&["replay".into(), cf.display().to_string()], 120, cpu)
                        };
                        let mut judge = |c: &Value| {
                            if t.elapsed().as_secs() > 60 {
                                return false;
                            }
                            match run(c, if hung { 3 } else { 20 }) {
                                Verdict::Hung => hung,
                                Verdict::Crashed(_) | Verdict::Failed(_) => !hung,
                                _ => false,
                            }
                        };
                        let rng = || choice_rng(&start);
                        let mut case = part.shrink_with(tier, rng(), 300, &mut judge);
                        if hung && run(&case, cpu_s) != Verdict::Hung {
                            case = part.dump(tier, rng());
                        }
                        rc = report(id, &json!({"property": id, "part": part.name(), "case": case, "message": message,
                            "found": {"seed": seed, "tier": tier.name(), "index": ix}}));
                        violations += 1;
                        break;
                    }
                }
            }
            if rc == 0 && !errors.is_empty() {
                for e in errors {
                    eprintln!("error: {e}");
                }
                rc = 2;
            }
        }
        for w in works.iter() {
            if let Ok(b) = std::fs::read(dir.join(format!("stats{}.json", w.shard))) {
                let s: Stats = serde_json::from_slice(&b).unwrap();
                total.evaluations += s.evaluations;
                total.guided += s.guided;
                total.kept += s.kept;
                distinct.extend(s.nontrivial_hashes);
                total.samples.extend(s.samples);
                for (k, v) in s.labels {
                    *total.labels.entry(k).or_insert(0) += v;
                }
            }
        }
    }

    let mut per_part = BTreeMap::new();
    for p in prop.parts.iter() {
        per_part.insert(p.name().to_string(), scaled(p.cases(tier)));
    }
    let ev = json!({
        "property": id, "tier": tier.name(), "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations, "distinct_nontrivial": distinct.len(), "rule": prop.rule,
            "samples": total.samples, "planned_cases_per_part": per_part, "classes": total.labels,
            "regressions_replayed": regress, "coverage_guided": total.guided, "kept_for_new_coverage": total.kept,
        },
        "assumptions": prop.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    let edir = vdir.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap()).expect("write evidence");
    if rc == 0 {
        println!("{id}: held on {} cases ({} distinct non-trivial), {} regressions, seed {seed}, {:.1} s", total.evaluations, distinct.len(), regress, t0.elapsed().as_secs_f64());
    }
    rc
}
