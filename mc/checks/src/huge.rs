//! More than 4 GiB of data, of which only what is touched takes memory.
use crate::*;
use mccore::interpose::{suspended, with_plan, Action, Call, Kind};
use std::slice;

/// Address space that reads as zeros and takes memory where it is written to.
pub struct Huge {
    ptr: *mut u8,
    len: usize,
}

impl Huge {
    pub fn new(len: usize) -> Huge {
        let ptr = unsafe { libc::syscall(libc::SYS_mmap, 0usize, len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1i64, 0usize) };
        assert!(ptr > 0, "mmap failed");
        unsafe { libc::syscall(libc::SYS_madvise, ptr as usize, len, libc::MADV_NOHUGEPAGE as usize) };
        Huge { ptr: ptr as *mut u8, len }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { slice::from_raw_parts(self.ptr, self.len) }
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { slice::from_raw_parts_mut(self.ptr, self.len) }
    }
    pub fn put(&mut self, at: usize, b: &[u8]) {
        self.bytes_mut()[at..at + b.len()].copy_from_slice(b);
    }
}

impl Drop for Huge {
    fn drop(&mut self) {
        unsafe { libc::syscall(libc::SYS_munmap, self.ptr as usize, self.len) };
    }
}

/// Runs f; large writes leave holes where there are zeros. As on Linux, no write takes more than about
/// 2 GiB.
pub fn sparse_writes<R>(f: impl FnOnce() -> R) -> R {
    const MOST: usize = 0x7fff_f000;
    const STEP: usize = 1 << 12;
    static ZEROS: [u8; STEP] = [0; STEP];
    with_plan(
        Box::new(|c: &Call| {
            if c.kind != Kind::Write || c.len < 64 * STEP {
                return Action::Pass;
            }
            let d = c.data.expect("data");
            let n = c.len.min(MOST);
            suspended(|| unsafe {
                let at = libc::lseek64(c.fd, 0, libc::SEEK_CUR);
                assert!(at >= 0);
                let mut k = 0;
                while k < n {
                    let m = STEP.min(n - k);
                    if k + m == n || d[k..k + m] != ZEROS[..m] {
                        assert!(libc::pwrite64(c.fd, d[k..].as_ptr() as *const libc::c_void, m, at + k as i64) == m as isize);
                    }
                    k += m;
                }
                assert!(libc::lseek64(c.fd, n as i64, libc::SEEK_CUR) == at + n as i64);
            });
            Action::Skip(n as i64)
        }),
        f,
    )
}

/// Elements of several megabytes, of which only some bytes are not zero.
pub struct Fat {
    pub size: usize,
    pub pieces: Vec<(usize, Vec<u8>)>,
}
impl Fat {
    pub fn new(b: &[u8]) -> Fat {
        let zeros = [0; 256];
        let mut k = 0;
        let mut pieces = vec![];
        while k < b.len() {
            let n = (b.len() - k).min(256);
            if b[k..k + n] != zeros[..n] {
                pieces.push((k, b[k..k + n].to_vec()));
            }
            k += n;
        }
        Fat { size: b.len(), pieces }
    }
}

/// Numbers around which sizes change their representation.
pub fn edges(limit: usize, size: usize) -> Vec<usize> {
    let mut r = vec![0, 1, 2, limit - 1, limit - 2];
    for b in &[8, 16, 24, 31, 32, 33] {
        for x in &[(1usize << b) / size, 1usize << b] {
            for d in 0..3 {
                r.push(x.wrapping_sub(1).wrapping_add(d));
            }
        }
    }
    r.retain(|x| *x < limit);
    r.sort();
    r.dedup();
    r
}
