//! Global allocator with a guarded mode per thread: every allocation ends right before an
//! inaccessible page, so that reads or writes behind it bring the process down. Freed memory is
//! overwritten and stays unused for long; in strict mode (and for large allocations) it becomes
//! inaccessible for good.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

pub struct FAlloc;

const PAGE: usize = 4096;
const ARENA: usize = 8 << 30;
const ARENAS: usize = 48;

static BASE: AtomicUsize = AtomicUsize::new(0);
static READY: [AtomicBool; ARENAS] = [const { AtomicBool::new(false) }; ARENAS];
/// bytes that were allocated in guarded mode, to prove that it is in use
pub static GUARDED: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static STRICT: Cell<bool> = const { Cell::new(false) };
    static WORKER: Cell<usize> = const { Cell::new(0) };
    static ARENA_START: Cell<usize> = const { Cell::new(0) };
}

fn region() -> usize {
    let b = BASE.load(SeqCst);
    if b != 0 {
        return b;
    }
    let p = unsafe {
        libc::syscall(
            libc::SYS_mmap,
            0usize,
            ARENA * ARENAS,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1i64,
            0usize,
        ) as isize
    };
    if p <= 0 {
        return 0;
    }
    match BASE.compare_exchange(0, p as usize, SeqCst, SeqCst) {
        Ok(_) => p as usize,
        Err(b) => {
            unsafe { libc::syscall(libc::SYS_munmap, p, ARENA * ARENAS) };
            b
        }
    }
}

/// Runs `f` with guarded allocations.
pub fn guarded<R>(f: impl FnOnce() -> R) -> R {
    switch(true, f)
}
/// As `guarded`; memory becomes inaccessible when it is freed.
pub fn guarded_strict<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            STRICT.with(|a| a.set(self.0));
        }
    }
    let _r = Reset(STRICT.with(|a| a.replace(true)));
    switch(true, f)
}
/// Runs `f` with ordinary allocations.
pub fn unguarded<R>(f: impl FnOnce() -> R) -> R {
    switch(false, f)
}
fn switch<R>(on: bool, f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            let _ = ACTIVE.try_with(|a| a.set(self.0));
        }
    }
    if on && ARENA_START.with(|a| a.get()) == 0 {
        let r = region();
        assert!(r != 0, "cannot reserve address space for guarded allocations");
        let n = WORKER.with(|w| w.get());
        assert!(n < ARENAS, "out of arenas for guarded allocations");
        ARENA_START.with(|a| a.set(r + n * ARENA));
        if !READY[n].swap(true, SeqCst) {
            unsafe { Slots::init(r + n * ARENA) };
        }
    }
    let old = ACTIVE.with(|a| a.replace(on));
    let _r = Reset(old);
    f()
}

/// Says which worker the calling thread is; no two threads are the same one at the same time.
pub fn set_worker(w: usize) {
    WORKER.with(|x| x.set(w));
    ARENA_START.with(|a| a.set(0));
}

/// Starts from the beginning of the arena again if nothing of it is in use.
pub fn recycle() {
    let a = ARENA_START.with(|a| a.get());
    if a != 0 {
        let s = unsafe { &mut *(a as *mut Slots) };
        if s.live == 0 {
            s.bump = BUMP_START;
        }
    }
}

/// Slots of one accessible page each, for small allocations; at the start of an arena.
const SLOTS: usize = 1024;
const META: usize = 16 * PAGE;
const BUMP_START: usize = META + SLOTS * 2 * PAGE + PAGE;

/// A queue of the free slots.
struct Slots {
    bump: usize,
    live: usize,
    head: usize,
    count: usize,
    ring: [u16; SLOTS],
}
impl Slots {
    unsafe fn init(arena: usize) {
        assert!(std::mem::size_of::<Slots>() <= META);
        let rw = (libc::PROT_READ | libc::PROT_WRITE) as i64;
        assert!(libc::syscall(libc::SYS_mprotect, arena, META, rw) == 0);
        for i in 0..SLOTS {
            assert!(libc::syscall(libc::SYS_mprotect, Slots::page(arena, i), PAGE, rw) == 0);
        }
        let s = &mut *(arena as *mut Slots);
        s.head = 0;
        s.bump = BUMP_START;
        s.live = 0;
        s.count = SLOTS;
        for i in 0..SLOTS {
            s.ring[i] = i as u16;
        }
    }
    fn page(arena: usize, i: usize) -> usize {
        arena + META + (2 * i + 1) * PAGE
    }
    unsafe fn take(arena: usize) -> Option<usize> {
        let s = &mut *(arena as *mut Slots);
        if s.count == 0 {
            return None;
        }
        let i = s.ring[s.head] as usize;
        s.head = (s.head + 1) % SLOTS;
        s.count -= 1;
        Some(Slots::page(arena, i))
    }
    unsafe fn give(arena: usize, page: usize) {
        let s = &mut *(arena as *mut Slots);
        let i = (page - arena - META) / PAGE / 2;
        s.ring[(s.head + s.count) % SLOTS] = i as u16;
        s.count += 1;
    }
}

/// Makes what is read from memory that was never written the same every time.
unsafe fn poison(p: *mut u8, from: usize, to: usize) {
    const MUCH: usize = 256 << 10;
    if to - from <= MUCH {
        return std::ptr::write_bytes(p.add(from), 0xA5, to - from);
    }
    std::ptr::write_bytes(p.add(from), 0xA5, MUCH / 2);
    std::ptr::write_bytes(p.add(to - MUCH / 2), 0xA5, MUCH / 2);
}

unsafe impl GlobalAlloc for FAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
            let p = System.alloc(l);
            if !p.is_null() {
                poison(p, 0, l.size());
            }
            return p;
        }
        let p = self.guarded_alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0xA5, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
            return System.alloc_zeroed(l);
        }
        let p = self.guarded_alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let b = BASE.load(SeqCst);
        let a = p as usize;
        if b == 0 || a < b || a >= b + ARENA * ARENAS {
            return System.dealloc(p, l);
        }
        let arena = b + (a - b) / ARENA * ARENA;
        if a < arena + BUMP_START {
            std::ptr::write_bytes(p, 0xDD, l.size());
            // slots freed by other threads are not used again
            if ARENA_START.try_with(|s| s.get() == arena).unwrap_or(false) {
                Slots::give(arena, a & !(PAGE - 1));
            }
            return;
        }
        let start = a & !(PAGE - 1);
        let pages = (a + l.size() - start + PAGE - 1) / PAGE;
        libc::syscall(libc::SYS_madvise, start, pages * PAGE, libc::MADV_DONTNEED as i64);
        libc::syscall(libc::SYS_mprotect, start, pages * PAGE, libc::PROT_NONE as i64);
        if ARENA_START.try_with(|s| s.get() == arena).unwrap_or(false) {
            let s = &mut *(arena as *mut Slots);
            s.live = s.live.saturating_sub(1);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let b = BASE.load(SeqCst);
        let a = p as usize;
        let inside = b != 0 && a >= b && a < b + ARENA * ARENAS;
        if !inside && !ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
            let p = System.realloc(p, l, new);
            if !p.is_null() && new > l.size() {
                poison(p, l.size(), new);
            }
            return p;
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

impl FAlloc {
    unsafe fn guarded_alloc(&self, l: Layout) -> *mut u8 {
        let size = l.size().max(1);
        if size <= PAGE && l.align() <= PAGE && !STRICT.with(|s| s.get()) {
            if let Some(page) = Slots::take(ARENA_START.with(|a| a.get())) {
                GUARDED.fetch_add(size, SeqCst);
                return ((page + PAGE - size) & !(l.align() - 1)) as *mut u8;
            }
        }
        let pages = (size + PAGE - 1) / PAGE;
        let arena = ARENA_START.with(|a| a.get());
        let s = &mut *(arena as *mut Slots);
        let start = s.bump;
        if start + (pages + 1) * PAGE > ARENA {
            return std::ptr::null_mut();
        }
        s.bump += (pages + 1) * PAGE;
        let start = arena + start;
        if libc::syscall(libc::SYS_mprotect, start, pages * PAGE, (libc::PROT_READ | libc::PROT_WRITE) as i64) != 0 {
            return std::ptr::null_mut();
        }
        s.live += 1;
        GUARDED.fetch_add(size, SeqCst);
        let addr = (start + pages * PAGE - size) & !(l.align() - 1);
        addr as *mut u8
    }
}
