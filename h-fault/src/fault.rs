//! Faults in the file-system calls one thread makes on one directory: the C library
//! functions the standard library uses are defined here, and end in the system call.
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off_t, size_t, ssize_t};
use std::cell::RefCell;
use std::ffi::CStr;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// the call fails without effect
    Fail(c_int),
    /// this call and all later ones of the same sort (writing) fail
    FailFrom(c_int),
    /// a write takes only half of the data, later calls are fine
    Short,
    /// a write takes only half of the data, later writes fail
    ShortThenFail(c_int),
    /// nothing has an effect from this call on
    Dead,
    /// a write takes only half of the data and nothing has an effect afterwards
    DeadHalf,
}

pub struct Plan {
    pub dir: String,
    pub at: usize,
    pub kind: Option<Kind>,
    pub calls: Vec<String>,
    pub hit: bool,
    dead: bool,
    failing: Option<c_int>,
    fds: Vec<c_int>,
}

thread_local! {
    static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
}

pub fn start(dir: &str, at: usize, kind: Option<Kind>) {
    PLAN.with(|p| *p.borrow_mut() = Some(Plan { dir: dir.into(), at, kind, calls: vec![], hit: false, dead: false, failing: None, fds: vec![] }))
}
pub fn stop() -> Plan {
    PLAN.with(|p| p.borrow_mut().take().unwrap())
}

enum Verdict {
    Go,
    Err(c_int),
    /// half of the data
    Half,
}

#[derive(Clone, Copy, PartialEq)]
enum Sort {
    Read,
    Write,
    Meta,
}

fn judge(name: &str, path: Option<&str>, fd: Option<c_int>, sort: Sort) -> Verdict {
    PLAN.try_with(|cell| {
        let mut b = match cell.try_borrow_mut() {
            Ok(b) => b,
            Err(_) => return Verdict::Go,
        };
        let p = match b.as_mut() {
            Some(p) => p,
            None => return Verdict::Go,
        };
        let ours = match (path, fd) {
            (Some(s), _) => s.starts_with(&p.dir),
            (None, Some(fd)) => p.fds.contains(&fd),
            _ => false,
        };
        if !ours {
            return Verdict::Go;
        }
        let n = p.calls.len();
        let what = path.map(|s| s[p.dir.len()..].to_string()).unwrap_or_default();
        p.calls.push(format!("{} {}", name, what));
        if p.dead {
            return Verdict::Err(libc::EIO);
        }
        if let Some(e) = p.failing {
            if sort == Sort::Write {
                return Verdict::Err(e);
            }
        }
        if n != p.at {
            return Verdict::Go;
        }
        let kind = match p.kind {
            Some(k) => k,
            None => return Verdict::Go,
        };
        p.hit = true;
        match kind {
            Kind::Fail(e) => Verdict::Err(e),
            Kind::FailFrom(e) => {
                p.failing = Some(e);
                Verdict::Err(e)
            }
            Kind::Short => Verdict::Half,
            Kind::ShortThenFail(e) => {
                p.failing = Some(e);
                Verdict::Half
            }
            Kind::Dead => {
                p.dead = true;
                Verdict::Err(libc::EIO)
            }
            Kind::DeadHalf => {
                p.dead = true;
                Verdict::Half
            }
        }
    })
    .unwrap_or(Verdict::Go)
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

unsafe fn name<'a>(p: *const c_char) -> &'a str {
    if p.is_null() {
        return "";
    }
    CStr::from_ptr(p).to_str().unwrap_or("")
}

macro_rules! pass {
    ($v:expr, $call:expr) => {
        match $v {
            Verdict::Err(e) => {
                set_errno(e);
                return -1;
            }
            _ => $call,
        }
    };
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let writing = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT) != 0;
    let n = name(path);
    let v = judge(if writing { "open for writing" } else { "open" }, Some(n), None, if writing { Sort::Write } else { Sort::Read });
    let fd = pass!(v, libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode)) as c_int;
    if fd >= 0 {
        let _ = PLAN.try_with(|c| {
            if let Ok(mut b) = c.try_borrow_mut() {
                if let Some(p) = b.as_mut() {
                    if n.starts_with(&p.dir) {
                        p.fds.push(fd)
                    }
                }
            }
        });
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    do_open(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _ = PLAN.try_with(|c| {
        if let Ok(mut b) = c.try_borrow_mut() {
            if let Some(p) = b.as_mut() {
                p.fds.retain(|f| *f != fd)
            }
        }
    });
    libc::syscall(libc::SYS_close, fd) as c_int
}
unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, off: Option<off_t>) -> ssize_t {
    let v = judge("write", None, Some(fd), Sort::Write);
    let n = if let Verdict::Half = v { n / 2 } else { n };
    pass!(
        v,
        match off {
            None => libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t,
            Some(o) => libc::syscall(libc::SYS_pwrite64, fd, buf, n, o) as ssize_t,
        }
    )
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    do_write(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let v = judge("writev", None, Some(fd), Sort::Write);
    let n = if let Verdict::Half = v { n / 2 } else { n };
    pass!(v, libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    pass!(judge("read", None, Some(fd), Sort::Read), libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off_t, b: c_int, bo: *mut off_t, n: size_t, f: c_uint) -> ssize_t {
    let v = judge("copy_file_range", None, Some(b), Sort::Write);
    let n = if let Verdict::Half = v { n.min(64) / 2 } else { n };
    pass!(v, libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, f) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off_t, n: size_t) -> ssize_t {
    let v = judge("sendfile", None, Some(a), Sort::Write);
    let n = if let Verdict::Half = v { n.min(64) / 2 } else { n };
    pass!(v, libc::syscall(libc::SYS_sendfile, a, b, o, n) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off_t) -> c_int {
    pass!(judge("ftruncate", None, Some(fd), Sort::Write), libc::syscall(libc::SYS_ftruncate, fd, n) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, m: c_int, o: off_t, n: off_t) -> c_int {
    pass!(judge("fallocate", None, Some(fd), Sort::Write), libc::syscall(libc::SYS_fallocate, fd, m, o, n) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    pass!(judge("fsync", None, Some(fd), Sort::Write), libc::syscall(libc::SYS_fsync, fd) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    pass!(judge("fdatasync", None, Some(fd), Sort::Write), libc::syscall(libc::SYS_fdatasync, fd) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    pass!(judge("rename", Some(name(b)), None, Sort::Write), libc::syscall(libc::SYS_rename, a, b) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    pass!(judge("unlink", Some(name(a)), None, Sort::Meta), libc::syscall(libc::SYS_unlink, a) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, m: mode_t) -> c_int {
    pass!(judge("chmod", Some(name(a)), None, Sort::Meta), libc::syscall(libc::SYS_chmod, a, m) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    pass!(judge("fchmod", None, Some(fd), Sort::Meta), libc::syscall(libc::SYS_fchmod, fd, m) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    pass!(judge("link", Some(name(b)), None, Sort::Write), libc::syscall(libc::SYS_link, a, b) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    pass!(judge("linkat", Some(name(b)), None, Sort::Write), libc::syscall(libc::SYS_linkat, d, a, e, b, f) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    pass!(judge("symlink", Some(name(b)), None, Sort::Write), libc::syscall(libc::SYS_symlink, a, b) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    pass!(judge("mkdir", Some(name(a)), None, Sort::Write), libc::syscall(libc::SYS_mkdir, a, m) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: c_uint, out: *mut c_void) -> c_int {
    let n = name(path);
    let v = if n.is_empty() { judge("fstat", None, Some(d), Sort::Read) } else { judge("stat", Some(n), None, Sort::Read) };
    pass!(v, libc::syscall(libc::SYS_statx, d as c_long, path, flags as c_long, mask as c_long, out) as c_int)
}
