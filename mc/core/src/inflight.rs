//! What every worker executes right now, in a file shared with the supervising process, so that the
//! execution that brought the process down is known.
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

const SLOTS: usize = 64;
const WORDS: usize = 4096; // per slot

pub struct Inflight {
    ptr: *mut u32,
    scenario: AtomicU32,
}
unsafe impl Sync for Inflight {}
unsafe impl Send for Inflight {}

pub struct Slot {
    pub scenario: u32,
    pub started_ms: u64,
    pub choices: Vec<(u32, u32)>,
}

fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC_COARSE, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

impl Inflight {
    /// Maps the file (created with the right size by the supervisor); anonymous memory without one.
    pub fn open(path: Option<&str>) -> Inflight {
        let len = SLOTS * WORDS * 4;
        let ptr = unsafe {
            match path {
                Some(p) => {
                    let c = std::ffi::CString::new(p).unwrap();
                    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o600) as i32;
                    assert!(fd >= 0, "cannot open {}", p);
                    assert!(libc::syscall(libc::SYS_ftruncate, fd, len) == 0);
                    let m = libc::syscall(libc::SYS_mmap, 0usize, len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0usize);
                    libc::syscall(libc::SYS_close, fd);
                    m as *mut u32
                }
                None => libc::syscall(libc::SYS_mmap, 0usize, len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1i64, 0usize) as *mut u32,
            }
        };
        assert!(ptr as isize > 0, "mmap failed");
        Inflight { ptr, scenario: AtomicU32::new(0) }
    }
    pub fn set_scenario(&self, s: u32) {
        self.scenario.store(s, SeqCst);
    }
    fn slot(&self, w: usize) -> *mut u32 {
        assert!(w < SLOTS);
        unsafe { self.ptr.add(w * WORDS) }
    }
    pub fn begin(&self, w: usize, choices: &[(u32, u32)]) {
        let p = self.slot(w);
        let n = choices.len().min((WORDS - 8) / 2);
        unsafe {
            p.write_volatile(0);
            p.add(1).write_volatile(self.scenario.load(SeqCst));
            p.add(2).write_volatile(n as u32);
            let t = now_ms();
            p.add(3).write_volatile(t as u32);
            p.add(4).write_volatile((t >> 32) as u32);
            for (i, c) in choices[..n].iter().enumerate() {
                p.add(8 + 2 * i).write(c.0);
                p.add(9 + 2 * i).write(c.1);
            }
            std::sync::atomic::fence(SeqCst);
            p.write_volatile(1);
        }
    }
    pub fn end(&self, w: usize) {
        unsafe { self.slot(w).write_volatile(0) }
    }
    pub fn active(&self) -> Vec<Slot> {
        let mut r = Vec::new();
        for w in 0..SLOTS {
            let p = self.slot(w);
            unsafe {
                if p.read_volatile() != 1 {
                    continue;
                }
                let n = p.add(2).read_volatile() as usize;
                r.push(Slot {
                    scenario: p.add(1).read_volatile(),
                    started_ms: p.add(3).read_volatile() as u64 | ((p.add(4).read_volatile() as u64) << 32),
                    choices: (0..n.min((WORDS - 8) / 2)).map(|i| (p.add(8 + 2 * i).read(), p.add(9 + 2 * i).read())).collect(),
                });
            }
        }
        r
    }
    pub fn oldest_age_ms(&self) -> u64 {
        let now = now_ms();
        self.active().iter().filter(|s| s.started_ms != 0).map(|s| now.saturating_sub(s.started_ms)).max().unwrap_or(0)
    }
}
