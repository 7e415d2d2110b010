//! This process's own open, read and write: they log what is done to files below a watched
//! directory and, when told to, split, interrupt or fail the calls as the system may.
//!
//! With the feature `interpose` off (sanitizer and interpreter builds) nothing is replaced and
//! the logs stay empty.

use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering};

/// What the system does to the successive reads or writes.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// For each call in turn: how many bytes at most, or an error number.
    pub steps: Vec<Step>,
    /// Applies once the steps are used up.
    pub rest: Option<usize>,
    /// After this many bytes in all, every further call fails with the error number.
    pub limit: Option<(usize, i32)>,
    /// Only the first of them does.
    pub once: bool,
}

#[derive(Clone, Copy, Debug)]
pub enum Step {
    Max(usize),
    Err(i32),
}

#[derive(Clone, Debug)]
pub struct Open {
    pub path: String,
    pub flags: i32,
    pub fd: i32,
    /// Whether the number still means this file.
    pub open: bool,
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub errors: Vec<i32>,
}

/// Reading this file fails once so many bytes were read.
#[derive(Clone, Debug)]
pub struct Fail {
    pub path: String,
    pub after: u64,
    pub errno: i32,
    /// Only the first read at that place fails.
    pub once: bool,
}

#[derive(Default)]
pub struct State {
    pub dir: String,
    pub fail: Option<Fail>,
    pub opens: Vec<Open>,
    pub reads: Plan,
    pub writes: Plan,
    /// Fail the next opens (below the directory) with this error.
    pub open_errors: Vec<i32>,
    pub read_calls: usize,
    pub write_calls: usize,
    pub total_read: usize,
    pub total_written: usize,
    pub injected: u64,
}

static ON: AtomicBool = AtomicBool::new(false);

thread_local! {
    static STATE: RefCell<Option<State>> = const { RefCell::new(None) };
}

pub const ACTIVE: bool = cfg!(feature = "interpose");

/// Watches what `f` does, on this thread, to files below `dir`.
pub fn watch<T>(mut st: State, dir: &str, f: impl FnOnce() -> T) -> (T, State) {
    st.dir = dir.to_string();
    STATE.with(|s| *s.borrow_mut() = Some(st));
    ON.store(true, Ordering::SeqCst);
    let r = f();
    ON.store(false, Ordering::SeqCst);
    let st = STATE.with(|s| s.borrow_mut().take()).unwrap_or_default();
    (r, st)
}

#[allow(dead_code)]
fn with<T>(f: impl FnOnce(&mut State) -> T) -> Option<T> {
    if !ON.load(Ordering::Relaxed) {
        return None;
    }
    STATE
        .try_with(|s| match s.try_borrow_mut() {
            Ok(mut s) => s.as_mut().map(f),
            Err(_) => None,
        })
        .ok()
        .flatten()
}

#[cfg(feature = "interpose")]
mod hooks {
    use super::*;
    use libc::{c_char, c_int, c_void, iovec, mode_t, off64_t, size_t, ssize_t};
    use std::ffi::CStr;
    use std::path::Path;

    fn set_errno(e: c_int) {
        unsafe { *libc::__errno_location() = e };
    }

    /// The parts of a path, however it is spelled; edited documents double slashes.
    fn plain(path: &str) -> std::path::PathBuf {
        Path::new(path).components().collect()
    }

    unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        let name = CStr::from_ptr(path).to_string_lossy().into_owned();
        // Relative paths are below the directory, which is where watched code runs.
        let ours = with(|s| {
            let ours = !name.starts_with('/') || plain(&name).starts_with(plain(&s.dir));
            let e = if ours && !s.open_errors.is_empty() { Some(s.open_errors.remove(0)) } else { None };
            (ours, e)
        });
        if let Some((true, Some(e))) = ours {
            if e != 0 {
                with(|s| s.injected += 1);
                set_errno(e);
                return -1;
            }
        }
        let fd = libc::syscall(libc::SYS_openat, dirfd, path, flags, mode as c_int) as c_int;
        if let (Some(_), true) = (&ours, fd >= 0) {
            // Whoever had this number has closed it.
            with(|s| s.opens.iter_mut().filter(|o| o.fd == fd).for_each(|o| o.open = false));
        }
        if let Some((true, _)) = ours {
            let saved = *libc::__errno_location();
            with(|s| {
                s.opens.push(Open { path: name, flags, fd, open: fd >= 0, bytes_read: 0, bytes_written: 0, errors: vec![] });
            });
            set_errno(saved);
        }
        fd
    }

    #[allow(unknown_lints, invalid_runtime_symbol_definitions)]
    #[no_mangle]
    pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(libc::AT_FDCWD, path, flags, mode)
    }
    #[allow(unknown_lints, invalid_runtime_symbol_definitions)]
    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(libc::AT_FDCWD, path, flags, mode)
    }
    #[allow(unknown_lints, invalid_runtime_symbol_definitions)]
    #[no_mangle]
    pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(dirfd, path, flags, mode)
    }
    #[allow(unknown_lints, invalid_runtime_symbol_definitions)]
    #[no_mangle]
    pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
        do_open(dirfd, path, flags, mode)
    }

    /// How many bytes this call may transfer.
    fn step(plan: &mut Plan, calls: &mut usize, total: usize, want: usize) -> Result<usize, i32> {
        let k = *calls;
        *calls += 1;
        let mut n = want;
        if let Some(s) = plan.steps.get(k) {
            match s {
                Step::Max(m) => n = n.min((*m).max(1)),
                Step::Err(e) => return Err(*e),
            }
        } else if let Some(m) = plan.rest {
            n = n.min(m.max(1));
        }
        if let Some((lim, e)) = plan.limit {
            if total >= lim && want > 0 {
                if plan.once {
                    plan.limit = None;
                }
                return Err(e);
            }
            n = n.min(lim - total);
        }
        Ok(n)
    }

    fn before(fd: c_int, write: bool, want: usize) -> Option<Result<usize, i32>> {
        with(|s| {
            let at = s.opens.iter().rposition(|o| o.fd == fd && o.open)?;
            let mut r = if write {
                let t = s.total_written;
                step(&mut s.writes, &mut s.write_calls, t, want)
            } else {
                let t = s.total_read;
                step(&mut s.reads, &mut s.read_calls, t, want)
            };
            if let (false, Some(f)) = (write, &s.fail) {
                if f.path == s.opens[at].path {
                    let left = f.after.saturating_sub(s.opens[at].bytes_read) as usize;
                    r = if left == 0 { Err(f.errno) } else { r.map(|n| n.min(left)) };
                    if left == 0 && f.once {
                        s.fail = None;
                    }
                }
            }
            match r {
                Err(e) => {
                    s.opens[at].errors.push(e);
                    s.injected += 1;
                }
                Ok(n) if n < want => s.injected += 1,
                _ => (),
            }
            Some(r)
        })
        .flatten()
    }

    fn after(fd: c_int, write: bool, n: ssize_t) {
        if n <= 0 {
            return;
        }
        with(|s| {
            if let Some(o) = s.opens.iter_mut().rev().find(|o| o.fd == fd && o.open) {
                if write {
                    o.bytes_written += n as u64;
                    s.total_written += n as usize;
                } else {
                    o.bytes_read += n as u64;
                    s.total_read += n as usize;
                }
            }
        });
    }

    #[allow(unknown_lints, invalid_runtime_symbol_definitions)]
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
        let m = match before(fd, false, n) {
            Some(Err(e)) => {
                set_errno(e);
                return -1;
            }
            Some(Ok(m)) => m,
            None => n,
        };
        let r = libc::syscall(libc::SYS_read, fd, buf, m) as ssize_t;
        after(fd, false, r);
        r
    }

    #[allow(unknown_lints, invalid_runtime_symbol_definitions)]
    #[no_mangle]
    pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
        let total: usize = (0..n as usize).map(|i| (*v.add(i)).iov_len).sum();
        match before(fd, false, total) {
            Some(Err(e)) => {
                set_errno(e);
                -1
            }
            Some(Ok(m)) if m < total => {
                // Only what fits into the first buffer.
                let r = libc::syscall(libc::SYS_read, fd, (*v).iov_base, m.min((*v).iov_len)) as ssize_t;
                after(fd, false, r);
                r
            }
            _ => {
                let r = libc::syscall(libc::SYS_readv, fd, v, n) as ssize_t;
                after(fd, false, r);
                r
            }
        }
    }

    #[allow(unknown_lints, invalid_runtime_symbol_definitions)]
    #[no_mangle]
    pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
        let m = match before(fd, false, n) {
            Some(Err(e)) => {
                set_errno(e);
                return -1;
            }
            Some(Ok(m)) => m,
            None => n,
        };
        let r = libc::syscall(libc::SYS_pread64, fd, buf, m, off) as ssize_t;
        after(fd, false, r);
        r
    }

    #[allow(unknown_lints, invalid_runtime_symbol_definitions)]
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
        let m = match before(fd, true, n) {
            Some(Err(e)) => {
                set_errno(e);
                return -1;
            }
            Some(Ok(m)) => m,
            None => n,
        };
        let r = libc::syscall(libc::SYS_write, fd, buf, m) as ssize_t;
        after(fd, true, r);
        r
    }

    #[allow(unknown_lints, invalid_runtime_symbol_definitions)]
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
        let total: usize = (0..n as usize).map(|i| (*v.add(i)).iov_len).sum();
        match before(fd, true, total) {
            Some(Err(e)) => {
                set_errno(e);
                -1
            }
            Some(Ok(m)) if m < total => {
                let r = libc::syscall(libc::SYS_write, fd, (*v).iov_base, m.min((*v).iov_len)) as ssize_t;
                after(fd, true, r);
                r
            }
            _ => {
                let r = libc::syscall(libc::SYS_writev, fd, v, n) as ssize_t;
                after(fd, true, r);
                r
            }
        }
    }

    #[allow(unknown_lints, invalid_runtime_symbol_definitions)]
    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
        let m = match before(fd, true, n) {
            Some(Err(e)) => {
                set_errno(e);
                return -1;
            }
            Some(Ok(m)) => m,
            None => n,
        };
        let r = libc::syscall(libc::SYS_pwrite64, fd, buf, m, off) as ssize_t;
        after(fd, true, r);
        r
    }
}
