//! Interposed file-system entry points of libc. Rust's std binds to these symbols when they are defined in
//! the executable, so every metadata / open / read / realpath call of the code under test passes here:
//! they count work, inject faults and run a callback before a chosen call.
use libc::{c_char, c_int, c_uint, c_void, off64_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAIL_AT: Cell<i64> = const { Cell::new(-1) };
    static FAIL_ERRNO: Cell<i32> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static JITTER: Cell<u64> = const { Cell::new(0) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static TRACE: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
    static ACTION: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
/// how many calls of the code under test have begun
pub static BEGUN: AtomicU64 = AtomicU64::new(0);

pub const SHORT_READ: i32 = -1001;
pub const ACTION_ERRNO: i32 = -1002;
pub const WORK_LIMIT_EXIT: i32 = 97;

/// start counting on this thread; the process exits with WORK_LIMIT_EXIT after `limit` calls
pub fn arm(limit: u64) {
    BEGUN.fetch_add(1, Ordering::Relaxed);
    COUNT.with(|c| c.set(0));
    LIMIT.with(|c| c.set(limit));
    FAIL_AT.with(|c| c.set(-1));
    FIRED.with(|c| c.set(false));
    ARMED.with(|c| c.set(true));
}
pub fn arm_fault(limit: u64, at: u64, errno: i32) {
    arm(limit);
    FAIL_AT.with(|c| c.set(at as i64));
    FAIL_ERRNO.with(|c| c.set(errno));
}
pub fn arm_action(limit: u64, at: u64, f: Box<dyn FnOnce()>) {
    arm(limit);
    FAIL_AT.with(|c| c.set(at as i64));
    FAIL_ERRNO.with(|c| c.set(ACTION_ERRNO));
    ACTION.with(|a| *a.borrow_mut() = Some(f));
}
/// random delays before this thread's calls (0 = none)
pub fn jitter(seed: u64) {
    JITTER.with(|c| c.set(seed));
}
fn maybe_delay() {
    let s = JITTER.with(|c| c.get());
    if s == 0 {
        return;
    }
    let mut x = s ^ (s << 13);
    x ^= x >> 7;
    x ^= x << 17;
    JITTER.with(|c| c.set(x.max(1)));
    match x % 16 {
        0 | 1 | 2 => unsafe {
            libc::sched_yield();
        },
        3 => unsafe {
            let t = libc::timespec { tv_sec: 0, tv_nsec: ((x >> 8) % 60_000) as i64 };
            libc::nanosleep(&t, std::ptr::null_mut());
        },
        4 | 5 => {
            for _ in 0..(x >> 8) % 400 {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}
pub fn trace_on() {
    TRACE.with(|t| *t.borrow_mut() = Some(vec![]));
}
pub fn trace_take() -> Vec<String> {
    TRACE.with(|t| t.borrow_mut().take()).unwrap_or_default()
}
/// returns (calls made, fault fired)
pub fn disarm() -> (u64, bool) {
    ARMED.with(|c| c.set(false));
    let n = COUNT.with(|c| c.get());
    TOTAL.fetch_add(n, Ordering::Relaxed);
    ACTION.with(|a| a.borrow_mut().take());
    (n, FIRED.with(|c| c.get()))
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

/// Some(errno) when this call must fail
fn gate(name: &str, path: *const c_char) -> Option<i32> {
    if !ARMED.try_with(|a| a.get()).unwrap_or(false) || INSIDE.with(|c| c.get()) {
        return None;
    }
    maybe_delay();
    let n = COUNT.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        n
    });
    if n > LIMIT.with(|c| c.get()) {
        unsafe { libc::_exit(WORK_LIMIT_EXIT) }
    }
    TRACE.with(|t| {
        if let Some(v) = t.borrow_mut().as_mut() {
            let p = if path.is_null() {
                String::new()
            } else {
                unsafe { std::ffi::CStr::from_ptr(path) }.to_string_lossy().into_owned()
            };
            v.push(format!("{name} {p}"));
        }
    });
    if n as i64 == FAIL_AT.with(|c| c.get()) + 1 {
        FIRED.with(|c| c.set(true));
        let e = FAIL_ERRNO.with(|c| c.get());
        if e == ACTION_ERRNO {
            let f = ACTION.with(|a| a.borrow_mut().take());
            if let Some(f) = f {
                INSIDE.with(|c| c.set(true));
                f();
                INSIDE.with(|c| c.set(false));
            }
            return None;
        }
        return Some(e);
    }
    None
}

#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    match gate("statx", path) {
        Some(e) if e > 0 => {
            set_errno(e);
            return -1;
        }
        _ => {}
    }
    libc::syscall(libc::SYS_statx, dirfd, path, flags, mask, buf) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match gate("open", path) {
        Some(e) if e > 0 => {
            set_errno(e);
            return -1;
        }
        _ => {}
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, count: size_t) -> ssize_t {
    match gate("read", std::ptr::null()) {
        Some(e) if e > 0 => {
            set_errno(e);
            return -1;
        }
        Some(SHORT_READ) => {
            return libc::syscall(libc::SYS_read, fd, buf, if count > 1 { 1 } else { count }) as ssize_t;
        }
        _ => {}
    }
    libc::syscall(libc::SYS_read, fd, buf, count) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    match gate("readlink", path) {
        Some(e) if e > 0 => {
            set_errno(e);
            return -1;
        }
        _ => {}
    }
    libc::syscall(libc::SYS_readlink, path, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, resolved: *mut c_char) -> *mut c_char {
    match gate("realpath", path) {
        Some(e) if e > 0 => {
            set_errno(e);
            return std::ptr::null_mut();
        }
        _ => {}
    }
    type F = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;
    static mut REAL: Option<F> = None;
    if REAL.is_none() {
        let p = libc::dlsym(libc::RTLD_NEXT, b"realpath\0".as_ptr() as *const c_char);
        if p.is_null() {
            libc::abort();
        }
        REAL = Some(std::mem::transmute::<*mut c_void, F>(p));
    }
    let was = INSIDE.with(|c| c.replace(true));
    let r = (REAL.unwrap())(path, resolved);
    INSIDE.with(|c| c.set(was));
    r
}
