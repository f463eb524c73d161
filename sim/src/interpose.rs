//! The seam: definitions of libc symbols that take precedence over libc's own in this executable.
//! Calls from threads that are not simulated go straight to the kernel or to libc.
#![allow(clippy::missing_safety_doc, non_upper_case_globals)]
#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
use crate::rt::*;
use crate::sys::*;
use libc::*;
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

/// Which simulated file a descriptor refers to; 0 is none.
static mut FDK: [u8; 4096] = [0; 4096];

pub const C_NONE: u8 = 0;
pub const C_DB: u8 = 1;
pub const C_WAL: u8 = 2;
pub const C_SHM: u8 = 3;
pub const C_JOURNAL: u8 = 4;
pub const C_PREFS: u8 = 5;
pub const C_MANIFEST: u8 = 6;
pub const C_SAVED: u8 = 7;
pub const C_OTHER: u8 = 8;
pub const CLASS_NAMES: [&str; 9] = ["none", "db", "wal", "shm", "journal", "preferences", "manifest", "saved", "other"];

static mut ROOT_ABS: [u8; 256] = [0; 256];
static mut ROOT_ABS_LEN: usize = 0;
/// The path under which the code under test sees its world, whatever real directory holds it. Paths
/// below it are translated here, so that no run depends on where the scratch directory happens to be.
pub const VROOT: &str = "/simw";
/// The real directory behind `VROOT`.
pub fn set_root(abs: &str) {
    unsafe {
        let b = abs.as_bytes();
        assert!(b.len() < 200);
        for (i, c) in b.iter().enumerate() {
            ROOT_ABS[i] = *c;
        }
        ROOT_ABS_LEN = b.len();
    }
}
static KEEP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Whether temporary directories survive their removal.
pub fn keep(on: bool) {
    KEEP.store(on, std::sync::atomic::Ordering::SeqCst);
}
fn kept() -> bool {
    KEEP.load(std::sync::atomic::Ordering::SeqCst)
}
type PBuf = [u8; 1024];
const PB: PBuf = [0; 1024];
/// The current directory of the simulated process, below `VROOT`; none unless set.
static mut CWD: [u8; 128] = [0; 128];
static mut CWD_LEN: usize = 0;
pub fn set_cwd(abs: &str) {
    let b = abs.as_bytes();
    assert!(b.len() < 128);
    unsafe {
        for (i, c) in b.iter().enumerate() {
            CWD[i] = *c;
        }
        CWD_LEN = b.len();
    }
}
unsafe fn cwd() -> &'static [u8] {
    std::slice::from_raw_parts(&raw const CWD as *const u8, CWD_LEN)
}
/// Paths of the simulated world: below `VROOT`, or relative in a process with a simulated current directory.
unsafe fn virt(p: &[u8]) -> bool {
    p.starts_with(b"/simw") && (p.len() == 5 || p[5] == b'/') || CWD_LEN > 0 && !p.is_empty() && p[0] != b'/'
}
/// The absolute path without `.`, `..` and repeated slashes.
unsafe fn plain(p: &[u8], out: &mut PBuf) -> usize {
    let mut n = 0;
    for part in [if p[0] == b'/' { &b""[..] } else { cwd() }, p] {
        for c in part.split(|c| *c == b'/') {
            match c {
                b"" | b"." => {}
                b".." => {
                    while n > 0 && out[n - 1] != b'/' {
                        n -= 1;
                    }
                    n = n.saturating_sub(1);
                }
                c => {
                    if n + 1 + c.len() >= out.len() {
                        return n;
                    }
                    out[n] = b'/';
                    out[n + 1..n + 1 + c.len()].copy_from_slice(c);
                    n += 1 + c.len();
                }
            }
        }
    }
    n
}
/// Translates a path of the simulated world to the real one. What leads out of it leads nowhere.
unsafe fn xl(path: *const c_char, buf: &mut PBuf) -> *const c_char {
    if !simulated() || path.is_null() {
        return path;
    }
    let mut p = CStr::from_ptr(path).to_bytes();
    if !virt(p) || p.len() + 400 > buf.len() {
        return path;
    }
    let mut flat = PB;
    if p[0] != b'/' || p.windows(3).any(|w| w == b"/..") {
        let k = plain(p, &mut flat);
        p = &flat[..k];
    }
    let (mid, p): (&[u8], &[u8]) = if p.starts_with(b"/simw") && (p.len() == 5 || p[5] == b'/') { (b"", &p[5..]) } else { (b"/.outside", p) };
    let n = ROOT_ABS_LEN;
    std::ptr::copy_nonoverlapping(&raw const ROOT_ABS as *const u8, buf.as_mut_ptr(), n);
    let mut at = n;
    for x in [mid, p] {
        buf[at..at + x.len()].copy_from_slice(x);
        at += x.len();
    }
    buf[at] = 0;
    buf.as_ptr() as *const c_char
}
/// The same for a path relative to an open directory.
unsafe fn xl_at(d: c_int, path: *const c_char, buf: &mut PBuf) -> *const c_char {
    if d != AT_FDCWD && !path.is_null() && *path as u8 != b'/' { path } else { xl(path, buf) }
}
unsafe fn classify(path: *const c_char) -> u8 {
    if path.is_null() {
        return C_NONE;
    }
    let p = CStr::from_ptr(path).to_bytes();
    if !virt(p) {
        return C_NONE;
    }
    if p.ends_with(b"-wal") {
        C_WAL
    } else if p.ends_with(b"-shm") {
        C_SHM
    } else if p.ends_with(b"-journal") {
        C_JOURNAL
    } else if p.ends_with(b".db") {
        C_DB
    } else if p.windows(17).any(|w| w == b"user_preferences.") {
        C_PREFS
    } else if p.ends_with(b".json") && p.windows(7).any(|w| w == b".trane/") {
        C_SAVED
    } else if p.ends_with(b".json") {
        C_MANIFEST
    } else {
        C_OTHER
    }
}
unsafe fn fd_class(fd: c_int) -> u8 {
    if fd >= 0 && fd < 4096 { FDK[fd as usize] } else { 0 }
}
unsafe fn seterr(e: c_int) {
    *__errno_location() = e;
}
fn sim() -> bool {
    simulated()
}

macro_rules! real {
    ($name:expr, $t:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = dlsym(RTLD_NEXT, $name.as_ptr()) as usize;
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $t>(p)
    }};
}

// ---------------------------------------------------------------- files

macro_rules! fail {
    ($e:expr, $v:expr) => {{
        seterr($e);
        return $v;
    }};
}
/// Runs the body under the disk's decision; the crash kinds other than short ones take effect after it.
macro_rules! guarded {
    ($io:expr, $class:expr, $errval:expr, $body:expr) => {{
        if !sim() || $class == C_NONE {
            return $body;
        }
        match io_point($io, $class) {
            Act::Err(e) => fail!(e, $errval),
            Act::CrashAfter | Act::Torn => {
                let _ = $body;
                die(X_CRASH)
            }
            _ => $body,
        }
    }};
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(out: *mut c_char, n: size_t) -> *mut c_char {
    if !sim() || CWD_LEN == 0 {
        let f = real!(c"getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char);
        return f(out, n);
    }
    if out.is_null() || n <= CWD_LEN {
        fail!(ERANGE, std::ptr::null_mut());
    }
    std::ptr::copy_nonoverlapping(&raw const CWD as *const u8, out as *mut u8, CWD_LEN);
    *out.add(CWD_LEN) = 0;
    out
}
unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if sim() && !path.is_null() && CStr::from_ptr(path).to_bytes() == b"/dev/urandom" {
        fail!(ENOENT, -1);
    }
    let mut b = PB;
    let rp = xl_at(dirfd, path, &mut b);
    let raw = || ret(sc6(SYS_openat, dirfd as usize, rp as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    let class = if sim() { classify(path) } else { C_NONE };
    if class == C_NONE {
        return raw();
    }
    let io = if flags & O_CREAT != 0 { Io::Create } else { Io::Open };
    let act = io_point(io, class);
    if let Act::Err(e) = act {
        fail!(e, -1);
    }
    let fd = raw();
    if let Act::CrashAfter = act {
        die(X_CRASH);
    }
    if fd >= 0 && fd < 4096 {
        FDK[fd as usize] = class;
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 0 && fd < 4096 {
        FDK[fd as usize] = 0;
    }
    ret(sc3(SYS_close, fd as usize, 0, 0)) as c_int
}
macro_rules! reader {
    ($name:ident, $nr:expr, ($($a:ident : $t:ty),*)) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, buf: *mut c_void, n: size_t $(, $a: $t)*) -> ssize_t {
            let class = if sim() { fd_class(fd) } else { 0 };
            let mut len = n;
            if class != C_NONE {
                match io_point(Io::Read, class) {
                    Act::Err(e) => fail!(e, -1),
                    Act::Short if n > 1 => len = 1 + n / 3,
                    _ => {}
                }
            }
            let extra: [usize; 1] = [0 $(+ $a as usize)*];
            ret(sc6($nr, fd as usize, buf as usize, len, extra[0], 0, 0))
        }
    };
}
reader!(read, SYS_read, ());
reader!(pread, SYS_pread64, (off: off_t));
reader!(pread64, SYS_pread64, (off: off64_t));
macro_rules! writer {
    ($name:ident, $nr:expr, ($($a:ident : $t:ty),*)) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(fd: c_int, buf: *const c_void, n: size_t $(, $a: $t)*) -> ssize_t {
            let class = if sim() { fd_class(fd) } else { 0 };
            let mut len = n;
            let mut crash = false;
            if class != C_NONE {
                match io_point(Io::Write, class) {
                    Act::Err(e) => {
                        // A full disk takes what still fits.
                        fail!(e, -1)
                    }
                    Act::Short if n > 1 => len = 1 + n / 3,
                    Act::Torn => { len = n / 2; crash = true; }
                    Act::CrashAfter => crash = true,
                    _ => {}
                }
            }
            let extra: [usize; 1] = [0 $(+ $a as usize)*];
            let r = if len == 0 && n > 0 { 0 } else { ret(sc6($nr, fd as usize, buf as usize, len, extra[0], 0, 0)) };
            if crash { die(X_CRASH) }
            r
        }
    };
}
writer!(write, SYS_write, ());
writer!(pwrite, SYS_pwrite64, (off: off_t));
writer!(pwrite64, SYS_pwrite64, (off: off64_t));

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    let class = fd_class(fd);
    guarded!(Io::Trunc, class, -1, ret(sc3(SYS_ftruncate, fd as usize, len as usize, 0)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let class = fd_class(fd);
    guarded!(Io::Sync, class, -1, if class != 0 { 0 } else { ret(sc3(SYS_fsync, fd as usize, 0, 0)) as c_int })
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let class = fd_class(fd);
    guarded!(Io::Sync, class, -1, if class != 0 { 0 } else { ret(sc3(SYS_fdatasync, fd as usize, 0, 0)) as c_int })
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (mut pa, mut pb) = (PB, PB);
    let (ra, rb) = (xl(a, &mut pa), xl(b, &mut pb));
    let class = if sim() { classify(b) } else { 0 };
    guarded!(Io::Rename, class, -1, ret(sc3(SYS_rename, ra as usize, rb as usize, 0)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    let (mut pa, mut pb) = (PB, PB);
    let (ra, rb) = (xl(a, &mut pa), xl(b, &mut pb));
    let class = if sim() { classify(b) } else { 0 };
    guarded!(Io::Rename, class, -1, ret(sc3(SYS_link, ra as usize, rb as usize, 0)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let mut pb = PB;
    let ra = xl(a, &mut pb);
    let class = if sim() { classify(a) } else { 0 };
    guarded!(Io::Unlink, class, -1, ret(sc3(SYS_unlink, ra as usize, 0, 0)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int {
    let mut pb = PB;
    let ra = xl_at(d, a, &mut pb);
    let class = if sim() { fd_class(d).max(classify(a)) } else { 0 };
    guarded!(Io::Unlink, class, -1, if kept() { 0 } else { ret(sc3(SYS_unlinkat, d as usize, ra as usize, f as usize)) as c_int })
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    let mut pb = PB;
    let ra = xl(a, &mut pb);
    let class = if sim() { classify(a) } else { 0 };
    guarded!(Io::Unlink, class, -1, if kept() { 0 } else { ret(sc3(SYS_rmdir, ra as usize, 0, 0)) as c_int })
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    let mut pb = PB;
    let ra = xl(a, &mut pb);
    let class = if sim() { classify(a) } else { 0 };
    guarded!(Io::Mkdir, class, -1, ret(sc3(SYS_mkdir, ra as usize, m as usize, 0)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, a: *const c_char, m: mode_t) -> c_int {
    let mut pb = PB;
    let ra = xl(a, &mut pb);
    let class = if sim() { fd_class(d).max(classify(a)) } else { 0 };
    guarded!(Io::Mkdir, class, -1, ret(sc3(SYS_mkdirat, d as usize, ra as usize, m as usize)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(da: c_int, a: *const c_char, db: c_int, b: *const c_char) -> c_int {
    let (mut pa, mut pb) = (PB, PB);
    let (ra, rb) = (xl(a, &mut pa), xl(b, &mut pb));
    let class = if sim() { fd_class(db).max(classify(b)) } else { 0 };
    guarded!(Io::Rename, class, -1, ret(sc6(SYS_renameat, da as usize, ra as usize, db as usize, rb as usize, 0, 0)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(da: c_int, a: *const c_char, db: c_int, b: *const c_char, f: c_uint) -> c_int {
    let (mut pa, mut pb) = (PB, PB);
    let (ra, rb) = (xl(a, &mut pa), xl(b, &mut pb));
    let class = if sim() { fd_class(db).max(classify(b)) } else { 0 };
    guarded!(Io::Rename, class, -1, ret(sc6(SYS_renameat2, da as usize, ra as usize, db as usize, rb as usize, f as usize, 0)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(da: c_int, a: *const c_char, db: c_int, b: *const c_char, f: c_int) -> c_int {
    let (mut pa, mut pb) = (PB, PB);
    let (ra, rb) = (xl(a, &mut pa), xl(b, &mut pb));
    let class = if sim() { fd_class(db).max(classify(b)) } else { 0 };
    guarded!(Io::Rename, class, -1, ret(sc6(SYS_linkat, da as usize, ra as usize, db as usize, rb as usize, f as usize, 0)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, m: mode_t) -> c_int {
    let mut pb = PB;
    let ra = xl(a, &mut pb);
    ret(sc3(SYS_chmod, ra as usize, m as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate(a: *const c_char, n: off_t) -> c_int {
    let mut pb = PB;
    let ra = xl(a, &mut pb);
    let class = if sim() { classify(a) } else { 0 };
    guarded!(Io::Trunc, class, -1, ret(sc3(SYS_truncate, ra as usize, n as usize, 0)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(a: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    let mut pb = PB;
    let ra = xl(a, &mut pb);
    ret(sc3(SYS_readlink, ra as usize, b as usize, n)) as ssize_t
}
/// Lexical for paths of the simulated world (which has no links), libc's otherwise.
#[no_mangle]
pub unsafe extern "C" fn realpath(a: *const c_char, out: *mut c_char) -> *mut c_char {
    let f = real!(c"realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
    if !sim() || classify(a) == C_NONE {
        return f(a, out);
    }
    if access(a, 0) != 0 {
        return std::ptr::null_mut();
    }
    let mut flat = PB;
    let n = plain(CStr::from_ptr(a).to_bytes(), &mut flat);
    let mut v = flat[..n].to_vec();
    v.push(0);
    let o = if out.is_null() { malloc(v.len().max(8)) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(v.as_ptr(), o as *mut u8, v.len());
    o
}
unsafe fn do_stat(d: c_int, p: *const c_char, st: *mut c_void, flags: c_int, class: u8) -> c_int {
    let mut pb = PB;
    let rp = xl_at(d, p, &mut pb);
    guarded!(Io::Stat, class, -1, ret(sc6(SYS_newfstatat, d as usize, rp as usize, st as usize, flags as usize, 0, 0)) as c_int)
}
macro_rules! stats {
    ($($name:ident, $flags:expr);*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *const c_char, st: *mut c_void) -> c_int {
            let class = if sim() { classify(p) } else { 0 };
            do_stat(AT_FDCWD, p, st, $flags, class)
        }
    )*};
}
stats!(stat, 0; stat64, 0; lstat, AT_SYMLINK_NOFOLLOW; lstat64, AT_SYMLINK_NOFOLLOW);
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut c_void) -> c_int {
    let class = if sim() { fd_class(fd) } else { 0 };
    do_stat(fd, c"".as_ptr(), st, AT_EMPTY_PATH, class)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut c_void) -> c_int {
    fstat(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, st: *mut c_void, f: c_int) -> c_int {
    let class = if sim() { classify(p).max(fd_class(d)) } else { 0 };
    do_stat(d, p, st, f, class)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut c_void, f: c_int) -> c_int {
    fstatat(d, p, st, f)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, mask: c_uint, st: *mut c_void) -> c_int {
    let class = if sim() { classify(p).max(fd_class(d)) } else { 0 };
    let mut pb = PB;
    let rp = xl_at(d, p, &mut pb);
    guarded!(Io::Stat, class, -1, ret(sc6(SYS_statx, d as usize, rp as usize, f as usize, mask as usize, st as usize, 0)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    let class = if sim() { classify(p) } else { 0 };
    let mut pb = PB;
    let rp = xl(p, &mut pb);
    guarded!(Io::Stat, class, -1, ret(sc3(SYS_access, rp as usize, m as usize, 0)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, _f: c_int) -> c_int {
    let class = if sim() { classify(p).max(fd_class(d)) } else { 0 };
    let mut pb = PB;
    let rp = xl_at(d, p, &mut pb);
    guarded!(Io::Stat, class, -1, ret(sc3(SYS_faccessat, d as usize, rp as usize, m as usize)) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> *mut c_void {
    let class = if sim() { fd_class(fd) } else { 0 };
    guarded!(Io::Mmap, class, MAP_FAILED, ret(sc6(SYS_mmap, a as usize, n, prot as usize, flags as usize, fd as usize, off as usize)) as *mut c_void)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, off: off_t) -> *mut c_void {
    mmap(a, n, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let class = if sim() && matches!(cmd, F_SETLK | F_SETLKW | F_GETLK) { fd_class(fd) } else { 0 };
    guarded!(Io::Lock, class, -1, {
        let r = ret(sc3(SYS_fcntl, fd as usize, cmd as usize, arg)) as c_int;
        if r >= 0 && r < 4096 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
            FDK[r as usize] = fd_class(fd);
        }
        r
    })
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}

// ---------------------------------------------------------------- directories

struct Listing {
    dir: usize,
    entries: Vec<Box<dirent64>>,
    next: usize,
}
static mut LISTS: Vec<Listing> = Vec::new();
/// Resolves the libc functions used underneath, before any simulation starts.
pub fn init() {
    unsafe {
        let mut m: pthread_mutex_t = PTHREAD_MUTEX_INITIALIZER;
        pthread_mutex_lock(&mut m);
        pthread_mutex_unlock(&mut m);
        pthread_mutex_trylock(&mut m);
        pthread_mutex_unlock(&mut m);
        let d = opendir(c"/dev/shm".as_ptr());
        if !d.is_null() {
            readdir64(d);
            closedir(d);
        }
        let d = sc6(SYS_openat, AT_FDCWD as usize, c"/".as_ptr() as usize, O_DIRECTORY as usize, 0, 0, 0) as c_int;
        let d = fdopendir(d);
        closedir(d);
    }
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    let f = real!(c"opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR);
    let class = if sim() { classify(p) } else { 0 };
    if class == 0 {
        return f(p);
    }
    if let Act::Err(e) = io_point(Io::Opendir, class) {
        fail!(e, std::ptr::null_mut());
    }
    let mut pb = PB;
    let d = f(xl(p, &mut pb));
    if !d.is_null() {
        slurp(d, crate::rng::hash_bytes(CStr::from_ptr(p).to_bytes()));
    }
    d
}
unsafe fn slurp(d: *mut DIR, key: u64) {
    let rd = real!(c"readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64);
    let mut v: Vec<Box<dirent64>> = vec![];
    loop {
        let e = rd(d);
        if e.is_null() {
            break;
        }
        let mut b: Box<dirent64> = Box::new(std::mem::zeroed());
        let n = (*e).d_reclen as usize;
        std::ptr::copy_nonoverlapping(e as *const u8, &mut *b as *mut dirent64 as *mut u8, n.min(std::mem::size_of::<dirent64>()));
        v.push(b);
    }
    v.sort_by(|a, b| CStr::from_ptr(a.d_name.as_ptr()).cmp(CStr::from_ptr(b.d_name.as_ptr())));
    let mut g = crate::rng::Rng::derive(rt().dir_seed, 9, key, 0);
    if rt().dir_seed != 0 {
        g.shuffle(&mut v);
    }
    #[allow(static_mut_refs)]
    LISTS.push(Listing { dir: d as usize, entries: v, next: 0 });
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    let f = real!(c"fdopendir", unsafe extern "C" fn(c_int) -> *mut DIR);
    let class = if sim() { fd_class(fd) } else { 0 };
    if class == 0 {
        return f(fd);
    }
    if let Act::Err(e) = io_point(Io::Opendir, class) {
        fail!(e, std::ptr::null_mut());
    }
    let d = f(fd);
    if !d.is_null() {
        slurp(d, 1);
    }
    d
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if sim() {
        if LISTS.iter().any(|l| l.dir == d as usize) {
            // Another thread may run here: look the listing up again afterwards.
            if let Act::Err(e) = io_point(Io::Readdir, C_OTHER) {
                fail!(e, std::ptr::null_mut());
            }
            let l = LISTS.iter_mut().find(|l| l.dir == d as usize).unwrap();
            if l.next >= l.entries.len() {
                return std::ptr::null_mut();
            }
            l.next += 1;
            return &mut *l.entries[l.next - 1] as *mut dirent64;
        }
    }
    let f = real!(c"readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64);
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut DIR) -> *mut dirent64 {
    readdir64(d)
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if sim() {
        LISTS.retain(|l| l.dir != d as usize);
    }
    let f = real!(c"closedir", unsafe extern "C" fn(*mut DIR) -> c_int);
    f(d)
}

// ---------------------------------------------------------------- time, identity and entropy

unsafe fn put(ts: *mut timespec, ns: u64) {
    (*ts).tv_sec = (ns / 1_000_000_000) as time_t;
    (*ts).tv_nsec = (ns % 1_000_000_000) as c_long;
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if !sim() {
        return ret(sc3(SYS_clock_gettime, clk as usize, ts as usize, 0)) as c_int;
    }
    let r = rt();
    r.mono += 100;
    if clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE {
        (*ts).tv_sec = r.real.max(0);
        (*ts).tv_nsec = 0;
    } else {
        put(ts, r.mono);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, tz: *mut c_void) -> c_int {
    if !sim() {
        return ret(sc3(SYS_gettimeofday, tv as usize, tz as usize, 0)) as c_int;
    }
    (*tv).tv_sec = rt().real.max(0);
    (*tv).tv_usec = 0;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let v = if sim() { rt().real.max(0) } else { sc3(SYS_time, 0, 0, 0) as time_t };
    if !t.is_null() {
        *t = v;
    }
    v
}
unsafe fn nap(ns: u64) {
    let r = rt();
    let d = r.mono + ns.max(1);
    block(St::Sleep, d);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if !sim() {
        return ret(sc3(SYS_nanosleep, a as usize, b as usize, 0)) as c_int;
    }
    nap((*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, f: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    if !sim() {
        return -(sc6(SYS_clock_nanosleep, c as usize, f as usize, a as usize, b as usize, 0, 0)) as c_int;
    }
    let t = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
    nap(if f == TIMER_ABSTIME { t.saturating_sub(rt().mono) } else { t });
    0
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    if !sim() {
        let ts = timespec { tv_sec: (us / 1_000_000) as time_t, tv_nsec: (us % 1_000_000) as c_long * 1000 };
        return ret(sc3(SYS_nanosleep, &ts as *const _ as usize, 0, 0)) as c_int;
    }
    nap(us as u64 * 1000);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sim() {
        yield_point(Y::Yield);
        return 0;
    }
    sc3(SYS_sched_yield, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if sim() { 4242 } else { sc3(SYS_getpid, 0, 0, 0) as pid_t }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if !sim() {
        return ret(sc3(SYS_getrandom, buf as usize, n, flags as usize));
    }
    entropy(std::slice::from_raw_parts_mut(buf as *mut u8, n));
    n as ssize_t
}

// ---------------------------------------------------------------- synchronisation

unsafe fn futex_sim(addr: usize, op: i32, val: u32, timeout: *const timespec, bitset: u32) -> isize {
    let cmd = op & 127;
    let dl = |abs: bool| -> u64 {
        if timeout.is_null() {
            return u64::MAX;
        }
        let t = (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64;
        if !abs {
            rt().mono + t
        } else if op & FUTEX_CLOCK_REALTIME != 0 {
            rt().mono + t.saturating_sub(rt().real.max(0) as u64 * 1_000_000_000)
        } else {
            t
        }
    };
    let e = match cmd {
        FUTEX_WAIT => futex_wait_sim(addr, val, u32::MAX, dl(false)),
        FUTEX_WAIT_BITSET => futex_wait_sim(addr, val, bitset, dl(true)),
        FUTEX_WAKE => return futex_wake_sim(addr, val, u32::MAX) as isize,
        FUTEX_WAKE_BITSET => return futex_wake_sim(addr, val, bitset) as isize,
        _ => die(92),
    };
    if e != 0 {
        seterr(e);
        return -1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if sim() {
        match n {
            SYS_futex => return futex_sim(a, b as i32, c as u32, d as *const timespec, f as u32) as c_long,
            SYS_getrandom => return getrandom(a as *mut c_void, b, c as c_uint) as c_long,
            SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut c_void) as c_long,
            SYS_sched_yield => return sched_yield() as c_long,
            SYS_getpid => return 4242,
            _ => {}
        }
    }
    ret(sc6(n, a, b, c, d, e, f)) as c_long
}
type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot {
    f: StartFn,
    arg: *mut c_void,
    slot: usize,
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Boot) };
    thread_begin(b.slot);
    (b.f)(b.arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const pthread_attr_t, f: StartFn, arg: *mut c_void) -> c_int {
    let real = real!(c"pthread_create", unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, StartFn, *mut c_void) -> c_int);
    if !sim() {
        return real(t, attr, f, arg);
    }
    let slot = new_thread();
    let b = Box::into_raw(Box::new(Boot { f, arg, slot }));
    let r = real(t, attr, trampoline, b as *mut c_void);
    if r != 0 {
        die(93);
    }
    rt().thr[slot].pth = *t;
    yield_point(Y::Lock);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, v: *mut *mut c_void) -> c_int {
    let real = real!(c"pthread_join", unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int);
    if sim() {
        let r = rt();
        if let Some(i) = (0..r.nthr).rev().find(|i| r.thr[*i].pth == t) {
            while r.thr[i].st != St::Done {
                block(St::Join(i), u64::MAX);
            }
            r.thr[i].pth = 0;
        }
    }
    real(t, v)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut pthread_mutex_t) -> c_int {
    if !sim() {
        let real = real!(c"pthread_mutex_lock", unsafe extern "C" fn(*mut pthread_mutex_t) -> c_int);
        return real(m);
    }
    yield_point(Y::Lock);
    let tr = real!(c"pthread_mutex_trylock", unsafe extern "C" fn(*mut pthread_mutex_t) -> c_int);
    loop {
        let r = tr(m);
        if r != EBUSY {
            return r;
        }
        block(St::Mutex(m as usize), u64::MAX);
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_trylock(m: *mut pthread_mutex_t) -> c_int {
    let real = real!(c"pthread_mutex_trylock", unsafe extern "C" fn(*mut pthread_mutex_t) -> c_int);
    yield_point(Y::Lock);
    real(m)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut pthread_mutex_t) -> c_int {
    let real = real!(c"pthread_mutex_unlock", unsafe extern "C" fn(*mut pthread_mutex_t) -> c_int);
    let r = real(m);
    if sim() {
        mutex_wake_sim(m as usize);
        yield_point(Y::Lock);
    }
    r
}
