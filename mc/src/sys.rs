//! Stand-ins for the C library's functions by which files are read, so that a check can make the n-th call of its
//! own thread fail or fall short. Included by the checks that need it, as the names replace the library's for the program.
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    /// count the calls only
    None,
    /// the n-th call fails
    Once(usize, i32),
    /// the n-th call and all after it fail
    From(usize, i32),
    /// every read returns at most so many bytes
    Short(usize),
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static FAULT: Cell<Fault> = const { Cell::new(Fault::None) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
    static HIT: Cell<&'static str> = const { Cell::new("") };
}

/// Run f with the fault; the number of calls made and the name of the (first) call that failed.
pub fn with<T>(fault: Fault, f: impl FnOnce() -> T) -> (T, usize, &'static str) {
    FAULT.set(fault);
    CALLS.set(0);
    HIT.set("");
    ON.set(true);
    let r = f();
    ON.set(false);
    (r, CALLS.get(), HIT.get())
}

/// Whether this call is to fail, and how.
fn call(name: &'static str) -> Option<i32> {
    if !ON.get() {
        return None;
    }
    let n = CALLS.get();
    CALLS.set(n + 1);
    let e = match FAULT.get() {
        Fault::Once(k, e) if k == n => e,
        Fault::From(k, e) if k <= n => e,
        _ => return None,
    };
    if HIT.get().is_empty() {
        HIT.set(name);
    }
    unsafe { *libc::__errno_location() = e };
    Some(e)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if call("read").is_some() {
        return -1;
    }
    let n = match FAULT.get() {
        Fault::Short(k) if ON.get() => n.min(k),
        _ => n,
    };
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if call("open").is_some() {
        return -1;
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as i32
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, at: i64, whence: i32) -> i64 {
    if call("lseek").is_some() {
        return -1;
    }
    libc::syscall(libc::SYS_lseek, fd, at, whence)
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const libc::c_char, flags: i32, mask: u32, out: *mut u8) -> i32 {
    if call("stat").is_some() {
        return -1;
    }
    libc::syscall(libc::SYS_statx, dir, path, flags, mask, out) as i32
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if call("readdir").is_some() {
        return std::ptr::null_mut();
    }
    type F = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;
    static REAL: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let p = *REAL.get_or_init(|| libc::dlsym(libc::RTLD_NEXT, c"readdir64".as_ptr()) as usize);
    assert!(p != 0, "ENGINE: no readdir64");
    std::mem::transmute::<usize, F>(p)(d)
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const libc::c_char) -> *mut libc::DIR {
    if call("opendir").is_some() {
        return std::ptr::null_mut();
    }
    type F = unsafe extern "C" fn(*const libc::c_char) -> *mut libc::DIR;
    static REAL: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let p = *REAL.get_or_init(|| libc::dlsym(libc::RTLD_NEXT, c"opendir".as_ptr()) as usize);
    assert!(p != 0, "ENGINE: no opendir");
    std::mem::transmute::<usize, F>(p)(path)
}
