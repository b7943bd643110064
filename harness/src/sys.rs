//! The few libc entry points the monitor needs, declared directly (no libc crate).
use std::os::raw::{c_int, c_long, c_void};

#[repr(C)]
pub struct RLimit {
    pub cur: u64,
    pub max: u64,
}
#[repr(C)]
pub struct TimeSpec {
    pub sec: c_long,
    pub nsec: c_long,
}

pub const RLIMIT_CPU: c_int = 0;
pub const RLIMIT_FSIZE: c_int = 1;
pub const RLIMIT_CORE: c_int = 4;
pub const RLIMIT_AS: c_int = 9;
pub const SIGXFSZ: c_int = 25;
pub const SIG_IGN: usize = 1;
const CLOCK_PROCESS_CPUTIME_ID: c_int = 2;

extern "C" {
    fn setrlimit(resource: c_int, rlim: *const RLimit) -> c_int;
    fn getrlimit(resource: c_int, rlim: *mut RLimit) -> c_int;
    fn signal(signum: c_int, handler: usize) -> usize;
    fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    fn clock_gettime(clk: c_int, ts: *mut TimeSpec) -> c_int;
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
}

pub fn limit(resource: c_int, value: u64) {
    unsafe {
        let mut old = RLimit { cur: 0, max: 0 };
        getrlimit(resource, &mut old);
        let new = RLimit { cur: value.min(old.max), max: old.max };
        setrlimit(resource, &new);
    }
}

pub fn ignore_sigxfsz() {
    unsafe {
        signal(SIGXFSZ, SIG_IGN);
    }
}

pub fn cpu_seconds() -> f64 {
    let mut ts = TimeSpec { sec: 0, nsec: 0 };
    unsafe {
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &mut ts);
    }
    ts.sec as f64 + ts.nsec as f64 * 1e-9
}

/// Map `len` bytes of a file shared, so that what was written survives the death of this process.
pub fn map_shared(file: &std::fs::File, len: usize) -> *mut u8 {
    use std::os::unix::io::AsRawFd;
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, file.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u8
}

/// Memory shared with processes forked later.
pub fn anonymous_shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u8
}
