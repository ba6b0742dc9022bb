//! Interposition of the file-writing system calls of this process.
//!
//! `write`, `pwrite`, `writev`, `pwritev` defined here take precedence over libc's (the Rust
//! standard library calls them by symbol).  Only descriptors whose path lies under the tracked
//! scratch prefix are observed; everything else passes straight through.
use std::os::raw::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::Mutex;

pub static TRACK: AtomicBool = AtomicBool::new(false);
pub static SPARSE: AtomicBool = AtomicBool::new(false);
/// number of tracked write calls so far
pub static COUNT: AtomicI64 = AtomicI64::new(0);
/// -1: never; otherwise die at this (0-based) tracked write ...
pub static CRASH_AT: AtomicI64 = AtomicI64::new(-1);
/// ... after having performed this many permille of it
pub static CRASH_PART: AtomicI64 = AtomicI64::new(0);
/// -1: never; otherwise this tracked write (and `FAIL_MORE` after it) returns an error
pub static FAIL_AT: AtomicI64 = AtomicI64::new(-1);
pub static FAIL_MORE: AtomicI64 = AtomicI64::new(0);
pub static FAIL_ERRNO: AtomicI64 = AtomicI64::new(28);
/// writes longer than this are cut short (0: never)
pub static SHORT: AtomicI64 = AtomicI64::new(0);
pub static FAILED: AtomicI64 = AtomicI64::new(0);
static PREFIX: Mutex<String> = Mutex::new(String::new());
pub static LOG: Mutex<Vec<(i64, i64)>> = Mutex::new(Vec::new());

pub fn set_prefix(p: &str) {
    *PREFIX.lock().unwrap() = p.to_string();
}

fn tracked(fd: c_int) -> bool {
    if !TRACK.load(SeqCst) || fd <= 2 {
        return false;
    }
    match std::fs::read_link(format!("/proc/self/fd/{fd}")) {
        Ok(p) => p.to_string_lossy().starts_with(PREFIX.lock().unwrap().as_str()),
        Err(_) => false,
    }
}

unsafe fn raw_pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> c_long {
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off)
}
unsafe fn raw_write(fd: c_int, buf: *const c_void, n: usize) -> c_long {
    libc::syscall(libc::SYS_write, fd, buf, n)
}
unsafe fn raw_lseek(fd: c_int, off: i64, wh: c_int) -> c_long {
    libc::syscall(libc::SYS_lseek, fd, off, wh)
}

/// pos < 0: use and advance the descriptor's offset
unsafe fn tracked_write(fd: c_int, buf: *const c_void, n: usize, pos: i64) -> isize {
    let k = COUNT.fetch_add(1, SeqCst);
    let off = if pos < 0 { raw_lseek(fd, 0, libc::SEEK_CUR) } else { pos };
    if k == CRASH_AT.load(SeqCst) {
        let part = (n as i64 * CRASH_PART.load(SeqCst) / 1000) as usize;
        if part > 0 {
            raw_pwrite(fd, buf, part, off);
        }
        crate::flush_events();
        libc::syscall(libc::SYS_exit_group, 137);
    }
    let fa = FAIL_AT.load(SeqCst);
    if fa >= 0 && k >= fa && k <= fa.saturating_add(FAIL_MORE.load(SeqCst)) {
        FAILED.fetch_add(1, SeqCst);
        *libc::__errno_location() = FAIL_ERRNO.load(SeqCst) as c_int;
        return -1;
    }
    let sh = SHORT.load(SeqCst);
    let n = if sh > 0 && n as i64 > sh { sh as usize } else { n };
    LOG.lock().unwrap().push((off, n as i64));
    if SPARSE.load(SeqCst) && n >= 4096 {
        // pages of zeros become holes
        const ZERO: [u8; 65536] = [0; 65536];
        let bytes = std::slice::from_raw_parts(buf as *const u8, n);
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(fd, &mut st);
        let mut at = off;
        for c in bytes.chunks(ZERO.len()) {
            if c != &ZERO[..c.len()] || at < st.st_size {
                let r = raw_pwrite(fd, c.as_ptr() as *const c_void, c.len(), at);
                if r != c.len() as c_long {
                    return -1;
                }
            }
            at += c.len() as i64;
        }
        libc::fstat(fd, &mut st);
        if st.st_size < at {
            libc::syscall(libc::SYS_ftruncate, fd, at);
        }
        if pos < 0 {
            raw_lseek(fd, at, libc::SEEK_SET);
        }
        return n as isize;
    }
    if pos < 0 {
        raw_write(fd, buf, n) as isize
    } else {
        raw_pwrite(fd, buf, n, pos) as isize
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if n > 0 && tracked(fd) {
        return tracked_write(fd, buf, n, -1);
    }
    raw_write(fd, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    if n > 0 && tracked(fd) {
        return tracked_write(fd, buf, n, off);
    }
    raw_pwrite(fd, buf, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if tracked(fd) {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                // a short write of the first non-empty piece is always allowed
                return tracked_write(fd, v.iov_base, v.iov_len, -1);
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_writev, fd, iov, cnt) as isize
}

/// seconds added to the time of day
pub static CLOCK: AtomicI64 = AtomicI64::new(0);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, id, t) as c_int;
    if r == 0 && id == libc::CLOCK_REALTIME {
        (*t).tv_sec += CLOCK.load(SeqCst);
    }
    r
}

/// how many files the process may have open at once (u64::MAX: as many as allowed)
pub fn limit(files: u64) {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = files.min(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
}
