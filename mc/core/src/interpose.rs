//! Interposition of the file system calls the library makes (through std and memmap). Every call of
//! the current thread is given to the thread's plan, if it has one, which lets it pass, fails it or
//! shortens it. Threads without a plan are not affected.
use libc::{c_char, c_int, c_uint, c_void, iovec, mode_t, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::ffi::CStr;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Open,
    Write,
    Seek,
    Truncate,
    Mkdir,
    Rename,
    Unlink,
    Rmdir,
    Link,
    Chmod,
    Sync,
    Mmap,
    Munmap,
    Copy,
    Time,
    Read,
    /// asked about within `with_stat` only
    Stat,
}

#[derive(Debug)]
pub struct Call<'a> {
    pub kind: Kind,
    pub path: Option<&'a str>,
    pub path2: Option<&'a str>,
    pub fd: i32,
    pub len: usize,
    pub flags: i32,
    pub addr: usize,
    /// data of a write
    pub data: Option<&'a [u8]>,
    /// whether the call changes files or directories
    pub mutating: bool,
}

pub enum Action {
    Pass,
    /// fail with this errno, without effect
    Fail(i32),
    /// reads and writes only: this many bytes
    Short(usize),
    /// skip the call, which reports success with this value
    Skip(i64),
    /// writes only: write this many bytes, then fail with this errno
    WriteThenFail(usize, i32),
}

type Plan = dyn FnMut(&Call) -> Action;

thread_local! {
    static PLAN: Cell<*mut Box<Plan>> = const { Cell::new(std::ptr::null_mut()) };
}

/// Runs `f` with the given plan for the calling thread.
pub fn with_plan<R>(plan: Box<dyn FnMut(&Call) -> Action + '_>, f: impl FnOnce() -> R) -> R {
    struct Reset(*mut Box<Plan>, *mut Box<Plan>);
    impl Drop for Reset {
        fn drop(&mut self) {
            PLAN.with(|p| p.set(self.0));
            drop(unsafe { Box::from_raw(self.1) });
        }
    }
    let plan: Box<Plan> = unsafe { std::mem::transmute(plan) };
    WRITES.with(|w| w.set(0));
    let boxed = Box::into_raw(Box::new(plan));
    let old = PLAN.with(|p| p.replace(boxed));
    let _r = Reset(old, boxed);
    f()
}

/// Runs `f` without a plan.
pub fn suspended<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(*mut Box<Plan>);
    impl Drop for Reset {
        fn drop(&mut self) {
            let _ = PLAN.try_with(|p| p.set(self.0));
        }
    }
    let old = PLAN.try_with(|p| p.replace(std::ptr::null_mut())).unwrap_or(std::ptr::null_mut());
    let _r = Reset(old);
    f()
}

thread_local! {
    static WRITES: Cell<usize> = const { Cell::new(0) };
}

/// Whether this is a write behind the first `limit` ones of the plan, and not the 2^k-th: code that writes in
/// many pieces is not interrupted at each of them.
pub fn far(c: &Call, limit: usize) -> bool {
    let n = WRITES.with(|w| w.get());
    c.kind == Kind::Write && n > limit && !n.is_power_of_two()
}

fn ask(call: &Call) -> Action {
    if call.kind == Kind::Write && call.len > 0 {
        let _ = WRITES.try_with(|w| w.set(w.get() + 1));
    }
    let plan = PLAN.try_with(|p| p.replace(std::ptr::null_mut())).unwrap_or(std::ptr::null_mut());
    if plan.is_null() {
        return Action::Pass;
    }
    // memory of the plan and of what it allocates is never guarded
    let a = crate::falloc::unguarded(|| unsafe { (*plan)(call) });
    PLAN.with(|p| p.set(plan));
    a
}

thread_local! {
    static STAT: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f` with the plan asked about stat calls, too.
pub fn with_stat<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            STAT.with(|s| s.set(self.0));
        }
    }
    let _r = Reset(STAT.with(|s| s.replace(true)));
    f()
}

fn stat_active() -> bool {
    active() && STAT.try_with(|s| s.get()).unwrap_or(false)
}

fn active() -> bool {
    PLAN.try_with(|p| !p.get().is_null()).unwrap_or(false)
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

unsafe fn path<'a>(p: *const c_char) -> Option<&'a str> {
    if p.is_null() {
        None
    } else {
        CStr::from_ptr(p).to_str().ok()
    }
}

fn blank<'a>(kind: Kind, mutating: bool) -> Call<'a> {
    Call { kind, path: None, path2: None, fd: -1, len: 0, flags: 0, addr: 0, data: None, mutating }
}

macro_rules! decide {
    ($call:expr, $pass:expr) => {{
        if !active() {
            $pass
        } else {
            match ask(&$call) {
                Action::Fail(e) | Action::WriteThenFail(_, e) => {
                    set_errno(e);
                    -1
                }
                Action::Skip(v) => v as _,
                _ => $pass,
            }
        }
    }};
}

unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let mut c = blank(
        Kind::Open,
        flags & (libc::O_CREAT | libc::O_TRUNC) != 0 || (flags & libc::O_ACCMODE) != libc::O_RDONLY,
    );
    c.path = path(p);
    c.flags = flags;
    decide!(c, libc::syscall(libc::SYS_openat, dir as i64, p, flags as i64, mode as i64) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}

unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, off: Option<off64_t>) -> ssize_t {
    let raw = |k: usize| -> ssize_t {
        match off {
            None => libc::syscall(libc::SYS_write, fd as i64, buf, k) as ssize_t,
            Some(o) => libc::syscall(libc::SYS_pwrite64, fd as i64, buf, k, o) as ssize_t,
        }
    };
    if !active() {
        return raw(n);
    }
    let mut c = blank(Kind::Write, true);
    c.fd = fd;
    c.len = n;
    c.data = Some(if n == 0 { &[] } else { std::slice::from_raw_parts(buf as *const u8, n) });
    match ask(&c) {
        Action::Fail(e) => {
            set_errno(e);
            -1
        }
        Action::Short(k) => {
            if k == 0 {
                0
            } else {
                raw(k.min(n))
            }
        }
        Action::WriteThenFail(k, e) => {
            let mut done = 0;
            while done < k.min(n) {
                let r = match off {
                    None => libc::syscall(libc::SYS_write, fd as i64, (buf as *const u8).add(done), k.min(n) - done),
                    Some(o) => libc::syscall(libc::SYS_pwrite64, fd as i64, (buf as *const u8).add(done), k.min(n) - done, o + done as i64),
                };
                if r <= 0 {
                    break;
                }
                done += r as usize;
            }
            set_errno(e);
            -1
        }
        Action::Skip(v) => v as ssize_t,
        Action::Pass => raw(n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    do_write(fd, buf, n, Some(o))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    do_write(fd, buf, n, Some(o))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if !active() || n <= 0 {
        return libc::syscall(libc::SYS_writev, fd as i64, iov, n as i64) as ssize_t;
    }
    // gather, so that a plan can cut anywhere
    let mut all: Vec<u8> = Vec::new();
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
    }
    do_write(fd, all.as_ptr() as *const c_void, all.len(), None)
}
unsafe fn do_read(fd: c_int, buf: *mut c_void, n: size_t, off: Option<off64_t>) -> ssize_t {
    let raw = |k: usize| -> ssize_t {
        match off {
            None => libc::syscall(libc::SYS_read, fd as i64, buf, k) as ssize_t,
            Some(o) => libc::syscall(libc::SYS_pread64, fd as i64, buf, k, o) as ssize_t,
        }
    };
    if !active() {
        return raw(n);
    }
    let mut c = blank(Kind::Read, false);
    c.fd = fd;
    c.len = n;
    match ask(&c) {
        Action::Fail(e) | Action::WriteThenFail(_, e) => {
            set_errno(e);
            -1
        }
        // never nothing: this would be the end of the file
        Action::Short(k) => raw(k.max(1).min(n)),
        Action::Skip(v) => v as ssize_t,
        Action::Pass => raw(n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    do_read(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    do_read(fd, buf, n, Some(o))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    do_read(fd, buf, n, Some(o))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    let mut c = blank(Kind::Seek, false);
    c.fd = fd;
    decide!(c, libc::syscall(libc::SYS_lseek, fd as i64, off, whence as i64) as off64_t)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    let mut c = blank(Kind::Truncate, true);
    c.fd = fd;
    c.len = len as usize;
    decide!(c, libc::syscall(libc::SYS_ftruncate, fd as i64, len) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn truncate(p: *const c_char, len: off64_t) -> c_int {
    let mut c = blank(Kind::Truncate, true);
    c.path = path(p);
    c.len = len as usize;
    decide!(c, libc::syscall(libc::SYS_truncate, p, len) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, len: off64_t) -> c_int {
    truncate(p, len)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    let mut c = blank(Kind::Truncate, true);
    c.fd = fd;
    c.len = len as usize;
    decide!(c, libc::syscall(libc::SYS_fallocate, fd as i64, mode as i64, off, len) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    fallocate64(fd, mode, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(fd: c_int, off: off64_t, len: off64_t) -> c_int {
    if fallocate64(fd, 0, off, len) == 0 {
        0
    } else {
        *libc::__errno_location()
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off64_t, len: off64_t) -> c_int {
    posix_fallocate(fd, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    let mut c = blank(Kind::Mkdir, true);
    c.path = path(p);
    decide!(c, libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD as i64, p, mode as i64) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, mode: mode_t) -> c_int {
    let mut c = blank(Kind::Mkdir, true);
    c.path = path(p);
    decide!(c, libc::syscall(libc::SYS_mkdirat, d as i64, p, mode as i64) as c_int)
}
unsafe fn do_rename(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: c_uint) -> c_int {
    let mut c = blank(Kind::Rename, true);
    c.path = path(a);
    c.path2 = path(b);
    decide!(c, libc::syscall(libc::SYS_renameat2, d1 as i64, a, d2 as i64, b, flags as i64) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    do_rename(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    do_rename(d1, a, d2, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_uint) -> c_int {
    do_rename(d1, a, d2, b, f)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    let mut c = blank(if flags & libc::AT_REMOVEDIR != 0 { Kind::Rmdir } else { Kind::Unlink }, true);
    c.path = path(p);
    decide!(c, libc::syscall(libc::SYS_unlinkat, d as i64, p, flags as i64) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, p, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_int) -> c_int {
    let mut c = blank(Kind::Link, true);
    c.path = path(a);
    c.path2 = path(b);
    decide!(c, libc::syscall(libc::SYS_linkat, d1 as i64, a, d2 as i64, b, f as i64) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn symlinkat(a: *const c_char, d: c_int, b: *const c_char) -> c_int {
    let mut c = blank(Kind::Link, true);
    c.path = path(a);
    c.path2 = path(b);
    decide!(c, libc::syscall(libc::SYS_symlinkat, a, d as i64, b) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    symlinkat(a, libc::AT_FDCWD, b)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    let mut c = blank(Kind::Chmod, true);
    c.fd = fd;
    decide!(c, libc::syscall(libc::SYS_fchmod, fd as i64, mode as i64) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    let mut c = blank(Kind::Chmod, true);
    c.path = path(p);
    decide!(c, libc::syscall(libc::SYS_fchmodat, libc::AT_FDCWD as i64, p, mode as i64) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let mut c = blank(Kind::Sync, false);
    c.fd = fd;
    decide!(c, libc::syscall(libc::SYS_fsync, fd as i64) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let mut c = blank(Kind::Sync, false);
    c.fd = fd;
    decide!(c, libc::syscall(libc::SYS_fdatasync, fd as i64) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    let mut c = blank(Kind::Time, true);
    c.fd = fd;
    decide!(c, libc::syscall(libc::SYS_utimensat, fd as i64, 0usize, t, 0i64) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, f: c_uint,
) -> ssize_t {
    let mut c = blank(Kind::Copy, true);
    c.fd = b;
    c.len = n;
    decide!(c, libc::syscall(libc::SYS_copy_file_range, a as i64, ao, b as i64, bo, n, f as i64) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(b: c_int, a: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    let mut c = blank(Kind::Copy, true);
    c.fd = b;
    c.len = n;
    decide!(c, libc::syscall(libc::SYS_sendfile, b as i64, a as i64, o, n) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    let pass = || libc::syscall(libc::SYS_statx, d as i64, p, flags as i64, mask as i64, buf) as c_int;
    if !stat_active() {
        return pass();
    }
    let mut c = blank(Kind::Stat, false);
    c.path = path(p);
    c.fd = d;
    decide!(c, pass())
}
unsafe fn do_stat(d: c_int, p: *const c_char, buf: *mut libc::stat64, flags: c_int) -> c_int {
    let pass = || libc::syscall(libc::SYS_newfstatat, d as i64, p, buf, flags as i64) as c_int;
    if !stat_active() {
        return pass();
    }
    let mut c = blank(Kind::Stat, false);
    c.path = path(p);
    c.fd = d;
    decide!(c, pass())
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, buf: *mut libc::stat64) -> c_int {
    do_stat(libc::AT_FDCWD, p, buf, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, buf: *mut libc::stat64) -> c_int {
    do_stat(libc::AT_FDCWD, p, buf, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat64) -> c_int {
    do_stat(fd, b"\0".as_ptr() as *const c_char, buf, libc::AT_EMPTY_PATH)
}
unsafe fn do_mmap(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    let pass = || libc::syscall(libc::SYS_mmap, a, n, prot as i64, flags as i64, fd as i64, o) as isize as *mut c_void;
    if fd < 0 || !active() {
        return pass();
    }
    let mut c = blank(Kind::Mmap, prot & libc::PROT_WRITE != 0 && flags & libc::MAP_SHARED != 0);
    c.fd = fd;
    c.len = n;
    c.flags = flags;
    match ask(&c) {
        Action::Fail(e) => {
            set_errno(e);
            libc::MAP_FAILED
        }
        _ => pass(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    do_mmap(a, n, prot, flags, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    do_mmap(a, n, prot, flags, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, n: size_t) -> c_int {
    let mut c = blank(Kind::Munmap, false);
    c.addr = a as usize;
    c.len = n;
    decide!(c, libc::syscall(libc::SYS_munmap, a, n) as c_int)
}

/// Makes sure that the functions above are linked.
pub fn force_link() {
    let f: [usize; 18] = [
        statx as *const () as usize,
        stat64 as *const () as usize,
        lstat64 as *const () as usize,
        fstat64 as *const () as usize,
        read as *const () as usize,
        pread64 as *const () as usize,
        open64 as *const () as usize,
        openat64 as *const () as usize,
        write as *const () as usize,
        writev as *const () as usize,
        lseek64 as *const () as usize,
        ftruncate64 as *const () as usize,
        mkdir as *const () as usize,
        rename as *const () as usize,
        unlink as *const () as usize,
        mmap as *const () as usize,
        munmap as *const () as usize,
        pwrite64 as *const () as usize,
    ];
    std::hint::black_box(f);
}

/// Whether a library call of std really arrives at the plan.
pub fn self_test() -> Result<(), String> {
    use std::io::{Read, Seek, Write};
    let dir = crate::scratch::root().join("selftest");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let seen = std::cell::RefCell::new(std::collections::BTreeSet::new());
    with_plan(
        Box::new(|c| {
            seen.borrow_mut().insert(c.kind);
            Action::Pass
        }),
        || {
            let p = dir.join("x");
            let _ = std::fs::create_dir(dir.join("sub"));
            let mut f = std::fs::File::create(&p).unwrap();
            f.write_all(b"abc").unwrap();
            let _ = f.seek(std::io::SeekFrom::Start(0));
            let _ = f.read(&mut [0; 2]);
            let _ = f.set_len(2);
            let _ = with_stat(|| std::fs::metadata(&p));
            let _ = std::fs::rename(&p, dir.join("y"));
            let _ = std::fs::remove_file(dir.join("y"));
        },
    );
    let _ = std::fs::remove_dir_all(&dir);
    let s = seen.into_inner();
    for k in [Kind::Open, Kind::Write, Kind::Read, Kind::Stat, Kind::Seek, Kind::Truncate, Kind::Mkdir, Kind::Rename, Kind::Unlink] {
        if !s.contains(&k) {
            return Err(format!("calls of kind {:?} are not intercepted", k));
        }
    }
    Ok(())
}
