//! Runs one program under the simulated OS.
use crate::simfmt::*;
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd, RawFd};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Cli,
    CliSync,
    Fsd,
    Desk,
    Web,
    Devs,
    StdFs,
    Pages,
    DeskPages,
    Probe,
}

pub struct Env {
    pub cli: String,
    pub cli_sync: String,
    pub fsd: String,
    pub desk: String,
    pub web: String,
    pub devs: String,
    pub stdfs: String,
    pub pages: String,
    pub dpages: String,
    pub simos: String,
    pub probe: String,
}

pub struct ProcOut {
    pub code: i32,   // exit code, or -signal
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub out: Option<Output>,
    pub out2: Option<Output>,
    pub wall_timeout: bool,
    /// ended because it took more and more memory
    pub memory: bool,
    /// every thread of every process of the run was blocked for good
    pub stuck: bool,
}

fn memfd() -> File {
    unsafe {
        let fd = libc::memfd_create(b"xsim\0".as_ptr() as *const _, libc::MFD_CLOEXEC);
        assert!(fd >= 0, "memfd_create failed");
        File::from_raw_fd(fd)
    }
}
fn slurp(mut f: &File) -> Vec<u8> {
    f.seek(SeekFrom::Start(0)).unwrap();
    let mut v = vec![];
    f.read_to_end(&mut v).unwrap();
    v
}
pub fn encode_input(cfg: &Config, nodes: &[FsNode]) -> Vec<u8> {
    let mut w = W::default();
    w.config(cfg);
    w.u32(nodes.len() as u32);
    for n in nodes {
        w.node(n);
    }
    w.0
}
fn parse(v: Vec<u8>) -> Option<Output> {
    if v.is_empty() {
        return None;
    }
    std::panic::catch_unwind(|| R(&v, 0).output()).ok()
}

pub const FD_IN: RawFd = 200;
pub const FD_OUT: RawFd = 201;
pub const FD_OUT2: RawFd = 202;
pub const FD_FUSE: RawFd = 203;
pub const FD_LIFE: RawFd = 204;

pub struct Child {
    pub child: std::process::Child,
    out: File,
    out2: File,
    so: File,
    se: File,
    life_r: File,
    pub fuse: Option<File>,
    pgid: i32,
}

impl Env {
    fn path(&self, b: Bin) -> &str {
        match b {
            Bin::Cli => &self.cli,
            Bin::CliSync => &self.cli_sync,
            Bin::Fsd => &self.fsd,
            Bin::Desk => &self.desk,
            Bin::Web => &self.web,
            Bin::Devs => &self.devs,
            Bin::StdFs => &self.stdfs,
            Bin::Pages => &self.pages,
            Bin::DeskPages => &self.dpages,
            Bin::Probe => &self.probe,
        }
    }
    pub fn spawn(&self, bin: Bin, argv: &[Vec<u8>], input: &[u8], fuse: bool) -> Child {
        let mut fin = memfd();
        fin.write_all(input).unwrap();
        let (out, out2, so, se) = (memfd(), memfd(), memfd(), memfd());
        let mut life = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe2(life.as_mut_ptr(), libc::O_CLOEXEC), 0);
        }
        let (life_r, life_w) = unsafe { (File::from_raw_fd(life[0]), File::from_raw_fd(life[1])) };
        let mut sp = [-1i32; 2];
        let mut mine = None;
        let mut theirs = None;
        if fuse {
            unsafe {
                assert_eq!(
                    libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, sp.as_mut_ptr()),
                    0
                );
                for s in sp {
                    let sz: libc::c_int = 4 << 20;
                    for o in [libc::SO_SNDBUFFORCE, libc::SO_SNDBUF] {
                        libc::setsockopt(s, libc::SOL_SOCKET, o, &sz as *const _ as *const _, 4);
                    }
                }
                mine = Some(File::from_raw_fd(sp[0]));
                theirs = Some(File::from_raw_fd(sp[1]));
            }
        }
        let mut map = vec![
            (fin.as_raw_fd(), FD_IN),
            (out.as_raw_fd(), FD_OUT),
            (out2.as_raw_fd(), FD_OUT2),
            (life_w.as_raw_fd(), FD_LIFE),
        ];
        if let Some(t) = &theirs {
            map.push((t.as_raw_fd(), FD_FUSE));
        }
        let mut c = Command::new(self.path(bin));
        c.arg0(std::ffi::OsStr::from_bytes(&argv[0]));
        for a in &argv[1..] {
            c.arg(std::ffi::OsStr::from_bytes(a));
        }
        c.env_clear();
        if !matches!(bin, Bin::Web | Bin::Pages) {
            // the web app has a simulated browser below it instead
            c.env("LD_PRELOAD", &self.simos);
        }
        c.env("XSIM_IN", FD_IN.to_string())
            .env("XSIM_OUT", FD_OUT.to_string())
            .env("XSIM_OUT2", FD_OUT2.to_string())
            .env("PATH", "/nonexistent")
            .env("TOKIO_WORKER_THREADS", "1")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .stdout(Stdio::from(so.try_clone().unwrap()))
            .stderr(Stdio::from(se.try_clone().unwrap()))
            .current_dir("/");
        let mem = crate::proc::mem_limit();
        unsafe {
            c.pre_exec(move || {
                libc::setsid();
                let lim = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let lim = libc::rlimit { rlim_cur: mem, rlim_max: mem };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                for (a, b) in &map {
                    if libc::dup2(*a, *b) < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                Ok(())
            });
        }
        let mut tries = 0;
        let child = loop {
            match c.spawn() {
                Ok(c) => break c,
                Err(e) if tries == 100 => {
                    eprintln!("cannot start the program under test: {}", e);
                    unsafe { libc::_exit(crate::proc::HARNESS) }
                }
                Err(_) => std::thread::sleep(std::time::Duration::from_millis(50)),
            }
            tries += 1;
        };
        let pgid = child.id() as i32;
        drop(life_w);
        drop(theirs);
        Child { child, out, out2, so, se, life_r, fuse: mine, pgid }
    }
    pub fn run(&self, bin: Bin, argv: &[Vec<u8>], cfg: &Config, nodes: &[FsNode]) -> ProcOut {
        let input = encode_input(cfg, nodes);
        self.spawn(bin, argv, &input, false).finish(100_000)
    }
}

/// Notices that no thread of a run can make progress any more: all of them sleep, and neither
/// processor time nor context switches have advanced for several seconds. Independent of load,
/// because a thread that waits for a processor is runnable, not asleep.
#[derive(Default)]
pub struct Quiet {
    last: Option<u64>,
    same: u32,
}
impl Quiet {
    pub fn stuck(&mut self, c: &Child) -> bool {
        let f = c.fingerprint();
        self.same = if f.is_some() && f == self.last { self.same + 1 } else { 0 };
        self.last = f;
        self.same >= 8
    }
}

impl Child {
    fn fingerprint(&self) -> Option<u64> {
        let me = std::fs::read_link(format!("/proc/self/fd/{}", self.life_r.as_raw_fd())).ok()?;
        let (mut h, mut n) = (1u64, 0);
        for e in std::fs::read_dir("/proc").ok()?.flatten() {
            let p = e.path();
            if !e.file_name().to_string_lossy().bytes().all(|b| b.is_ascii_digit()) {
                continue;
            }
            if std::fs::read_link(p.join(format!("fd/{}", FD_LIFE))).ok().as_ref() != Some(&me) {
                continue;
            }
            for t in std::fs::read_dir(p.join("task")).ok()?.flatten() {
                let st = std::fs::read_to_string(t.path().join("stat")).ok()?;
                let rest = st.rsplit_once(") ")?.1.to_string();
                let f: Vec<&str> = rest.split(' ').collect();
                if f[0] != "S" {
                    return None;
                }
                let status = std::fs::read_to_string(t.path().join("status")).ok()?;
                h = fnv(h, f[11].as_bytes());
                h = fnv(h, f[12].as_bytes());
                for l in status.lines().filter(|l| l.contains("ctxt_switches")) {
                    h = fnv(h, l.as_bytes());
                }
                h = fnv(h, t.file_name().as_encoded_bytes());
                n += 1;
            }
        }
        if n == 0 {
            None
        } else {
            Some(h)
        }
    }
    /// Waits until every process of the run is gone.
    pub fn finish(mut self, timeout_ms: i32) -> ProcOut {
        self.fuse = None;
        let (mut wall_timeout, mut stuck) = (false, false);
        let mut q = Quiet::default();
        let t = std::time::Instant::now();
        let mut k = 0;
        let mut memory = false;
        loop {
            let mut p = libc::pollfd { fd: self.life_r.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 50) } != 0 {
                break;
            }
            memory = crate::proc::rss(self.pgid) > crate::proc::MAX_RSS;
            if memory {
                self.kill_all();
                unsafe { libc::poll(&mut p, 1, 5000) };
                break;
            }
            k += 1;
            if k % 10 != 0 {
                continue;
            }
            stuck = q.stuck(&self);
            wall_timeout = !stuck && t.elapsed().as_millis() as i32 > timeout_ms;
            if stuck || wall_timeout {
                self.kill_all();
                unsafe { libc::poll(&mut p, 1, 5000) };
                break;
            }
        }
        let st = self.child.wait().unwrap();
        let code = match st.code() {
            Some(c) => c,
            None => -st.signal().unwrap_or(99),
        };
        ProcOut {
            code,
            stdout: slurp(&self.so),
            stderr: slurp(&self.se),
            out: parse(slurp(&self.out)),
            out2: parse(slurp(&self.out2)),
            wall_timeout,
            stuck,
            memory,
        }
    }
    /// Ends every process that holds the write end of this run's pipe.
    fn kill_all(&self) {
        unsafe {
            libc::kill(-self.pgid, libc::SIGKILL);
        }
        let Ok(me) = std::fs::read_link(format!("/proc/self/fd/{}", self.life_r.as_raw_fd())) else { return };
        let Ok(d) = std::fs::read_dir("/proc") else { return };
        for e in d.flatten() {
            let Some(pid) = e.file_name().to_str().and_then(|x| x.parse::<i32>().ok()) else { continue };
            if std::fs::read_link(e.path().join(format!("fd/{}", FD_LIFE))).ok().as_ref() == Some(&me) {
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                }
            }
        }
    }

    /// Whether the launched process itself (not a daemon it forked) has ended.
    pub fn launcher_exit(&mut self, timeout_ms: u64) -> Option<i32> {
        let t = std::time::Instant::now();
        let mut q = Quiet::default();
        loop {
            if let Ok(Some(st)) = self.child.try_wait() {
                return Some(st.code().unwrap_or(-st.signal().unwrap_or(99)));
            }
            if t.elapsed().as_millis() as u64 > timeout_ms {
                return None;
            }
            if t.elapsed().as_millis() as u64 > 1000 {
                if q.stuck(self) {
                    return None;
                }
                std::thread::sleep(std::time::Duration::from_millis(500));
            }
            std::thread::sleep(std::time::Duration::from_micros(300));
        }
    }
}
