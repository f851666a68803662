//! A buffer between two inaccessible pages.
pub struct GuardBuf {
    base: usize,
    pages: usize,
}
const PAGE: usize = 4096;
unsafe impl Send for GuardBuf {}
unsafe impl Sync for GuardBuf {}

impl GuardBuf {
    pub fn new(pages: usize) -> GuardBuf {
        unsafe {
            let p = libc::syscall(
                libc::SYS_mmap, 0usize, (pages + 2) * PAGE, libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1i64, 0usize,
            ) as isize;
            assert!(p > 0);
            let base = p as usize + PAGE;
            assert!(libc::syscall(libc::SYS_mprotect, base, pages * PAGE, (libc::PROT_READ | libc::PROT_WRITE) as i64) == 0);
            GuardBuf { base, pages }
        }
    }
    /// `len` bytes directly before the inaccessible page at the end.
    pub fn at_end(&mut self, len: usize) -> &mut [u8] {
        assert!(len <= self.pages * PAGE);
        unsafe { std::slice::from_raw_parts_mut((self.base + self.pages * PAGE - len) as *mut u8, len) }
    }
    /// `len` bytes directly after the inaccessible page at the start.
    pub fn at_start(&mut self, len: usize) -> &mut [u8] {
        assert!(len <= self.pages * PAGE);
        unsafe { std::slice::from_raw_parts_mut(self.base as *mut u8, len) }
    }
}
impl Drop for GuardBuf {
    fn drop(&mut self) {
        unsafe {
            libc::syscall(libc::SYS_munmap, self.base - PAGE, (self.pages + 2) * PAGE);
        }
    }
}
