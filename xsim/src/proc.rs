//! Runs pieces of the search in processes of their own: workers do not contend for one address
//! space, and library code that kills or hangs its process is noticed instead of ending the search.
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::AtomicU64;

/// Zeroed memory shared with the children.
pub fn shared(n: usize) -> &'static [AtomicU64] {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const AtomicU64, n)
    }
}

pub struct Kid {
    pub pid: i32,
    out: File,
    pub done: bool,
}
pub enum End {
    Running,
    Result(Vec<u8>),
    /// ended without a result: exit code or -signal
    Died(i32),
}

/// Forks; the child computes `f` on a thread with a large stack. The caller has only one thread.
pub fn fork(mem: u64, cpu: u64, f: impl FnOnce() -> Vec<u8> + Send) -> Kid {
    let mut out = unsafe {
        let fd = libc::memfd_create(b"xsim-result\0".as_ptr() as *const _, libc::MFD_CLOEXEC);
        assert!(fd >= 0);
        File::from_raw_fd(fd)
    };
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            for (k, l) in [(libc::RLIMIT_AS, mem), (libc::RLIMIT_CPU, cpu)] {
                let mut lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::getrlimit(k, &mut lim);
                if l > 0 {
                    lim.rlim_cur = l.min(lim.rlim_max);
                    libc::setrlimit(k, &lim);
                }
            }
        }
        let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join());
        let code = match r {
            Ok(v) => {
                let mut b = b"done".to_vec();
                b.extend(v);
                out.write_all(&b).is_err() as i32
            }
            Err(_) => 101,
        };
        unsafe { libc::_exit(code) }
    }
    Kid { pid, out, done: false }
}
impl Kid {
    pub fn poll(&mut self, wait: bool) -> End {
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(self.pid, &mut st, if wait { 0 } else { libc::WNOHANG }) };
            if r == 0 {
                return End::Running;
            }
            if r == self.pid {
                break;
            }
            if std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
                break;
            }
        }
        self.done = true;
        let mut v = vec![];
        self.out.seek(SeekFrom::Start(0)).unwrap();
        self.out.read_to_end(&mut v).unwrap();
        if v.starts_with(b"done") && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            return End::Result(v.split_off(4));
        }
        End::Died(if libc::WIFSIGNALED(st) { -libc::WTERMSIG(st) } else { libc::WEXITSTATUS(st) })
    }
    /// Waits for the end, and ends it when it takes more and more memory.
    pub fn wait(&mut self) -> End {
        loop {
            let over = rss(self.pid) > MAX_RSS;
            if over {
                self.kill();
            }
            match self.poll(over) {
                End::Running => std::thread::sleep(std::time::Duration::from_millis(1)),
                e => return e,
            }
        }
    }
    pub fn kill(&self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
        }
    }
}
pub fn ending(c: i32) -> String {
    match -c {
        libc::SIGKILL => "it takes more and more memory, or does not end".into(),
        libc::SIGXCPU => "it does not end (processor time limit reached)".into(),
        n if n > 0 => format!("its process dies from signal {}", n),
        _ => format!("its process ends with status {}", c),
    }
}

static BIG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Damaged images announce sizes of up to 4 GiB, for which the reader asks (but which it does not
/// touch), so their runs need the address space; what they really use is limited all the same.
pub fn damaged_images(prop: &str) {
    BIG.store(prop == "C09", std::sync::atomic::Ordering::SeqCst);
}
/// Address space (bytes) of a program under test, and of a worker, which runs the library in process.
pub fn mem_limit() -> u64 {
    if BIG.load(std::sync::atomic::Ordering::SeqCst) {
        10 << 30
    } else {
        2 << 30
    }
}
/// Exit status of a worker that could not do its work.
pub const HARNESS: i32 = 99;
/// Memory in use that no run of the unchanged code comes near.
pub const MAX_RSS: u64 = 2 << 30;
pub fn rss(pid: i32) -> u64 {
    std::fs::read_to_string(format!("/proc/{}/statm", pid)).ok().and_then(|t| t.split(' ').nth(1)?.parse::<u64>().ok()).unwrap_or(0) * 4096
}
