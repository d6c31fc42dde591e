//! Running the command line tools: in a scratch directory, with limits, and with injected CPU counts and I/O faults.

use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::fs::MetadataExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const CPU_S: u64 = 20;
pub const OUT_MAX: u64 = 256 << 20;

pub fn bin(name: &str) -> PathBuf {
    let d = std::env::var("VH_BIN").expect("HARNESS: VH_BIN is not set");
    let p = Path::new(&d).join(name);
    assert!(p.exists(), "HARNESS: {} is not built", p.display());
    p
}

fn shim() -> PathBuf {
    let p = PathBuf::from(std::env::var("VH_SHIM").expect("HARNESS: VH_SHIM is not set"));
    assert!(p.exists(), "HARNESS: {} is not built", p.display());
    p
}

/// A file of this process in the scratch directory.
pub fn path(name: &str) -> PathBuf {
    let d = std::env::var("VH_SCRATCH").expect("HARNESS: VH_SCRATCH is not set");
    Path::new(&d).join(format!("{}-{name}", std::process::id()))
}

pub fn put(name: &str, b: &[u8]) -> PathBuf {
    let p = path(name);
    std::fs::write(&p, b).expect("HARNESS: write scratch file");
    p
}

#[derive(Default, Clone, Debug)]
pub struct Faults {
    pub cpus: Option<u32>,
    pub threads: Option<u32>,
    /// run on the first n CPUs only
    pub pin: Option<u32>,
    pub rd_max: Option<u32>,
    pub rd_eintr: Option<u32>,
    pub rd_fail: Option<u64>,
    pub wr_max: Option<u32>,
    pub wr_eintr: Option<u32>,
    pub wr_fail: Option<u64>,
    /// only the first attempt fails, later ones work again
    pub once: bool,
}

pub enum In<'a> {
    Null,
    File(&'a Path),
    /// through a pipe, in pieces of these sizes (cyclically)
    Pipe(&'a [u8], Vec<usize>),
}

pub enum Out<'a> {
    Pipe,
    File(&'a Path),
    /// a pipe that nobody reads any more
    Broken,
    /// a device that takes nothing
    Full,
}

pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
}

impl Ran {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    /// Ended regularly, or why not.
    pub fn ok(&self, what: &str) -> Result<(), String> {
        match (self.code, self.signal) {
            (Some(0), _) => Ok(()),
            _ => Err(self.died(what)),
        }
    }
    pub fn died(&self, what: &str) -> String {
        let how = match (self.code, self.signal) {
            (_, Some(s)) if s == libc::SIGXCPU => format!("does not end within {CPU_S} s of CPU time"),
            (_, Some(s)) if s == libc::SIGXFSZ || self.out.len() as u64 > OUT_MAX => format!("writes more than {OUT_MAX} bytes (signal {s})"),
            (_, Some(s)) => format!("is killed by signal {s}"),
            (Some(101), _) => "panics".to_string(),
            (c, _) => format!("exits with {c:?}"),
        };
        format!("{what} {how}: {}", crate::core::clip(self.err.trim(), 600))
    }
}

pub fn ident(p: &Path) -> String {
    let m = std::fs::metadata(p).expect("HARNESS: stat scratch file");
    format!("{}:{}", m.dev(), m.ino())
}

/// Runs a tool on a stream that is made and read piece by piece, without faults. None if it takes more than 150 s of CPU time.
pub fn stream(tool: &str, args: &[&str], feed: impl FnOnce(&mut dyn Write) -> std::io::Result<()> + Send, mut eat: impl FnMut(&[u8]) -> Result<(), String>) -> Option<(Ran, Result<(), String>)> {
    let mut c = Command::new(bin(tool));
    c.args(args).env_clear().stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            let r = libc::rlimit { rlim_cur: 150, rlim_max: 155 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = c.spawn().expect("HARNESS: start tool");
    let stdin = child.stdin.take().unwrap();
    let mut stdout = child.stdout.take().unwrap();
    let mut stderr = child.stderr.take().unwrap();
    let mut e = vec![];
    let mut verdict = Ok(());
    for p in [stdin.as_raw_fd(), stdout.as_raw_fd()] {
        unsafe { libc::fcntl(p, libc::F_SETPIPE_SZ, 1 << 20) };
    }
    std::thread::scope(|s| {
        s.spawn(move || {
            let mut w = std::io::BufWriter::with_capacity(1 << 18, stdin);
            // the tool may end early
            let _ = feed(&mut w).and_then(|_| w.flush());
        });
        s.spawn(|| {
            let _ = (&mut stderr).take(1 << 20).read_to_end(&mut e);
        });
        let mut b = vec![0; 1 << 18];
        loop {
            match stdout.read(&mut b) {
                Ok(0) => break,
                Ok(n) => {
                    verdict = eat(&b[..n]);
                    if verdict.is_err() {
                        let _ = child.kill();
                        break;
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => panic!("HARNESS: read from tool: {e}"),
            }
        }
        drop(stdout);
    });
    let st = child.wait().expect("HARNESS: wait");
    if st.signal() == Some(libc::SIGXCPU) {
        return None;
    }
    Some((Ran { code: st.code(), signal: st.signal(), out: vec![], err: String::from_utf8_lossy(&e).into_owned() }, verdict))
}

/// Runs a tool. `faulty` is the file whose reads the read faults are for (none: standard input).
pub fn run(tool: &str, args: &[&str], input: In, out: Out, f: &Faults, faulty: Option<&Path>) -> Ran {
    let mut c = Command::new(bin(tool));
    c.args(args);
    c.env_clear();
    let set = |c: &mut Command, k: &str, v: Option<String>| {
        if let Some(v) = v {
            c.env(k, v);
        }
    };
    c.env("LD_PRELOAD", shim());
    set(&mut c, "VH_CPUS", f.cpus.map(|x| x.to_string()));
    set(&mut c, "RAYON_NUM_THREADS", f.threads.map(|x| x.to_string()));
    if f.rd_max.is_some() || f.rd_eintr.is_some() || f.rd_fail.is_some() {
        c.env("VH_RD_FILE", faulty.map_or("stdin".into(), ident));
    }
    set(&mut c, "VH_RD_MAX", f.rd_max.map(|x| x.to_string()));
    set(&mut c, "VH_RD_EINTR", f.rd_eintr.map(|x| x.to_string()));
    set(&mut c, "VH_RD_FAIL", f.rd_fail.map(|x| x.to_string()));
    set(&mut c, "VH_WR_MAX", f.wr_max.map(|x| x.to_string()));
    set(&mut c, "VH_WR_EINTR", f.wr_eintr.map(|x| x.to_string()));
    set(&mut c, "VH_WR_FAIL", f.wr_fail.map(|x| x.to_string()));
    set(&mut c, "VH_ONCE", f.once.then(|| "1".into()));
    match &input {
        In::Null => c.stdin(Stdio::null()),
        In::File(p) => c.stdin(std::fs::File::open(p).expect("HARNESS: open input")),
        In::Pipe(..) => c.stdin(Stdio::piped()),
    };
    match &out {
        Out::Pipe => c.stdout(Stdio::piped()),
        Out::Broken => {
            use std::os::fd::FromRawFd;
            let mut fd = [0; 2];
            assert!(unsafe { libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "HARNESS: pipe");
            // the reading end is closed here
            let (_, w) = unsafe { (std::fs::File::from_raw_fd(fd[0]), std::fs::File::from_raw_fd(fd[1])) };
            c.stdout(w)
        }
        Out::Full => c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("HARNESS: open /dev/full")),
        Out::File(p) => c.stdout(std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).expect("HARNESS: open output")),
    };
    c.stderr(Stdio::piped());
    let pin = f.pin;
    unsafe {
        c.pre_exec(move || {
            let r = libc::rlimit { rlim_cur: CPU_S, rlim_max: CPU_S + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let r = libc::rlimit { rlim_cur: OUT_MAX, rlim_max: OUT_MAX };
            libc::setrlimit(libc::RLIMIT_FSIZE, &r);
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if let Some(n) = pin {
                let mut all: libc::cpu_set_t = std::mem::zeroed();
                if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut all) == 0 {
                    let mut some: libc::cpu_set_t = std::mem::zeroed();
                    let mut k = 0;
                    for i in 0..libc::CPU_SETSIZE as usize {
                        if libc::CPU_ISSET(i, &all) && k < n {
                            libc::CPU_SET(i, &mut some);
                            k += 1;
                        }
                    }
                    if k > 0 {
                        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &some);
                    }
                }
            }
            Ok(())
        });
    }
    let mut child = c.spawn().expect("HARNESS: start tool");
    let mut stdin = child.stdin.take();
    let mut stdout = child.stdout.take();
    let mut stderr = child.stderr.take().unwrap();
    let mut o = vec![];
    let mut e = vec![];
    std::thread::scope(|s| {
        if let In::Pipe(data, sizes) = &input {
            let mut w = stdin.take().unwrap();
            s.spawn(move || {
                let mut p = 0;
                for n in sizes.iter().cycle() {
                    if p >= data.len() {
                        break;
                    }
                    let q = (p + (*n).max(1)).min(data.len());
                    // the tool may end early
                    if w.write_all(&data[p..q]).is_err() {
                        break;
                    }
                    p = q;
                }
            });
        }
        s.spawn(|| {
            let _ = (&mut stderr).take(1 << 20).read_to_end(&mut e);
        });
        if let Some(so) = stdout.as_mut() {
            let _ = so.take(OUT_MAX + 1).read_to_end(&mut o);
            if o.len() as u64 > OUT_MAX {
                let _ = child.kill();
            }
        }
    });
    let st = child.wait().expect("HARNESS: wait");
    if let Out::File(p) = out {
        o = std::fs::read(p).expect("HARNESS: read output");
    }
    Ran { code: st.code(), signal: st.signal(), out: o, err: String::from_utf8_lossy(&e).into_owned() }
}
