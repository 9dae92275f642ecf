//! libc entry points the code under test (through std) goes through. In the simulator binary and in the
//! LD_PRELOAD library these definitions win over libc's. Outside a simulated call they pass straight through.

use crate::host;
use crate::world::{Stat, FD_BASE};
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off_t, size_t, ssize_t};
use std::ffi::CStr;

pub unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

unsafe fn fail(e: i32) -> c_int {
    *libc::__errno_location() = e;
    -1
}

macro_rules! real {
    ($name:literal, $t:ty) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            P.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $t>(p)
    }};
}

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

unsafe fn sim_path(p: *const c_char) -> Option<u32> {
    if p.is_null() {
        return None;
    }
    let t = host::simulated()?;
    if host::path_is_sim(bytes(p)) {
        Some(t)
    } else {
        None
    }
}

fn sim_fd(fd: c_int) -> Option<u32> {
    if fd < FD_BASE {
        return None;
    }
    host::simulated()
}

/// run `f` on the world with the simulator's own allocations not counted as steps
fn on<R>(f: impl FnOnce(&mut crate::world::World) -> R) -> R {
    let r = {
        let _g = host::Guard::new();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(host::world()))) {
            Ok(r) => {
                host::record();
                r
            }
            Err(_) => host::broken(),
        }
    };
    host::yield_point("io");
    r
}

// ---- open / close / read ----

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(t) = sim_path(path) {
        return match on(|w| w.open(t, bytes(path), flags)) {
            Ok(fd) => fd,
            Err(e) => fail(e),
        };
    }
    ret(raw(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if dfd == libc::AT_FDCWD || *path == b'/' as c_char {
        return open(path, flags, mode);
    }
    if let Some(t) = sim_fd(dfd) {
        let p = at_path(dfd, path);
        return match on(|w| w.open(t, &p, flags)) {
            Ok(fd) => fd,
            Err(e) => fail(e),
        };
    }
    ret(raw(libc::SYS_openat, dfd as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
unsafe fn at_path(dfd: c_int, path: *const c_char) -> Vec<u8> {
    let _g = host::Guard::new();
    let mut p = host::world().fds.get(&dfd).map(|f| f.path.clone()).unwrap_or_default();
    p.push(b'/');
    p.extend_from_slice(bytes(path));
    p
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(dfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    open(path, libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: mode_t) -> c_int {
    creat(path, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(t) = sim_fd(fd) {
        return match on(|w| w.close(t, fd)) {
            Ok(()) => 0,
            Err(e) => fail(e),
        };
    }
    if fd >= FD_BASE {
        // a handle of the simulated world dropped by the harness itself
        return 0;
    }
    ret(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
unsafe fn do_read(t: u32, fd: c_int, buf: *mut c_void, n: size_t, at: Option<u64>) -> ssize_t {
    match on(|w| if fd == 0 { w.stdin_read(t, n) } else { w.read(t, fd, n, at) }) {
        Ok(v) => {
            std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, v.len());
            let n = v.len() as ssize_t;
            let _g = host::Guard::new();
            drop(v);
            n
        }
        Err(e) => fail(e) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd == 0 && host::stdio_is_sim() {
        if let Some(t) = host::simulated() {
            return do_read(t, fd, buf, n, None);
        }
    }
    if let Some(t) = sim_fd(fd) {
        return do_read(t, fd, buf, n, None);
    }
    ret(raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if (fd == 0 && host::stdio_is_sim() && host::simulated().is_some()) || sim_fd(fd).is_some() {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(raw(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    if let Some(t) = sim_fd(fd) {
        return do_read(t, fd, buf, n, Some(off as u64));
    }
    ret(raw(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, whence: c_int) -> off_t {
    if sim_fd(fd).is_some() {
        return match on(|w| w.lseek(fd, off, whence)) {
            Ok(n) => n,
            Err(e) => fail(e) as off_t,
        };
    }
    ret(raw(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0)) as off_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if sim_fd(fd).is_some() {
        return 0;
    }
    ret(raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, off: off_t, len: off_t, advice: c_int) -> c_int {
    if sim_fd(fd).is_some() {
        return 0;
    }
    raw(libc::SYS_fadvise64, fd as usize, off as usize, len as usize, advice as usize, 0, 0) as c_int
}

// ---- writes ----

fn out_class(fd: c_int) -> Option<(usize, &'static str)> {
    match fd {
        1 => Some((1, "stdout")),
        2 => Some((2, "stderr")),
        _ => None,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if let Some((i, class)) = out_class(fd) {
        if host::stdio_is_sim() {
            if let Some(t) = host::simulated() {
                let data = std::slice::from_raw_parts(buf as *const u8, n);
                return match on(|w| w.out_write(t, i, class, data)) {
                    Ok(n) => n as ssize_t,
                    Err(e) => fail(e) as ssize_t,
                };
            }
        }
    }
    if let Some(_t) = sim_fd(fd) {
        return fail(libc::EBADF) as ssize_t;
    }
    ret(raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if (out_class(fd).is_some() && host::stdio_is_sim() && host::simulated().is_some()) || sim_fd(fd).is_some() {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(raw(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}

unsafe fn ro(t: u32, what: &str, p: &[u8]) -> c_int {
    on(|w| {
        let op = *w.cur_op.get(&t).unwrap_or(&0);
        let s = format!("{} {}", what, String::from_utf8_lossy(p));
        w.log(&s);
        w.writes.push((op, s));
    });
    fail(libc::EROFS)
}

macro_rules! one_path {
    ($name:ident, $nr:expr, $($a:ident : $t:ty),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(path: *const c_char $(, $a: $t)*) -> c_int {
            if let Some(t) = sim_path(path) {
                return ro(t, stringify!($name), bytes(path));
            }
            let v: [usize; 3] = { let a: &[usize] = &[$($a as usize),*]; let mut v = [0; 3]; v[..a.len()].copy_from_slice(a); v };
            ret(raw($nr, path as usize, v[0], v[1], v[2], 0, 0)) as c_int
        }
    };
}
one_path!(unlink, libc::SYS_unlink,);
one_path!(mkdir, libc::SYS_mkdir, mode: mode_t);
one_path!(rmdir, libc::SYS_rmdir,);
one_path!(truncate, libc::SYS_truncate, len: off_t);
one_path!(truncate64, libc::SYS_truncate, len: off_t);
one_path!(chmod, libc::SYS_chmod, mode: mode_t);
one_path!(rename, libc::SYS_rename, to: *const c_char);
one_path!(link, libc::SYS_link, to: *const c_char);
one_path!(symlink, libc::SYS_symlink, to: *const c_char);

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    if let Some(t) = sim_path(path) {
        return ro(t, "unlinkat", bytes(path));
    }
    ret(raw(libc::SYS_unlinkat, dfd as usize, path as usize, flags as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    if let Some(t) = host::simulated() {
        let p = bytes(path).to_vec();
        ro(t, "chdir", &p);
        return 0;
    }
    ret(raw(libc::SYS_chdir, path as usize, 0, 0, 0, 0, 0)) as c_int
}

// ---- stat ----

unsafe fn fill_statx(s: &Stat, b: *mut libc::statx) {
    std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::statx>());
    let b = &mut *b;
    b.stx_mask = libc::STATX_BASIC_STATS;
    b.stx_mode = s.mode as u16;
    b.stx_size = s.size;
    b.stx_ino = s.ino;
    b.stx_nlink = 1;
    b.stx_blksize = 4096;
    let (ts, tn) = ((s.mtime_ns / 1_000_000_000) as i64, (s.mtime_ns % 1_000_000_000) as u32);
    for t in [&mut b.stx_mtime, &mut b.stx_ctime, &mut b.stx_atime] {
        t.tv_sec = ts;
        t.tv_nsec = tn;
    }
}
unsafe fn fill_stat(s: &Stat, b: *mut libc::stat) {
    std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::stat>());
    let b = &mut *b;
    b.st_mode = s.mode;
    b.st_size = s.size as off_t;
    b.st_ino = s.ino;
    b.st_nlink = 1;
    b.st_blksize = 4096;
    b.st_mtime = (s.mtime_ns / 1_000_000_000) as i64;
    b.st_mtime_nsec = (s.mtime_ns % 1_000_000_000) as i64;
    b.st_ctime = b.st_mtime;
    b.st_ctime_nsec = b.st_mtime_nsec;
    b.st_atime = b.st_mtime;
    b.st_atime_nsec = b.st_mtime_nsec;
}

#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut libc::statx) -> c_int {
    if host::simulated().is_some() {
        if path.is_null() || buf.is_null() {
            return fail(libc::EFAULT); // std's availability probe
        }
        let p = bytes(path);
        let r = if p.is_empty() && flags & libc::AT_EMPTY_PATH != 0 {
            match sim_fd(dfd) {
                Some(t) => Some(on(|w| w.fstat(t, dfd))),
                None => None,
            }
        } else if p.first() != Some(&b'/') && dfd != libc::AT_FDCWD && sim_fd(dfd).is_some() {
            let t = sim_fd(dfd).unwrap();
            let p = at_path(dfd, path);
            Some(on(|w| w.stat(t, &p, flags & libc::AT_SYMLINK_NOFOLLOW == 0)))
        } else {
            sim_path(path).map(|t| on(|w| w.stat(t, p, flags & libc::AT_SYMLINK_NOFOLLOW == 0)))
        };
        match r {
            Some(Ok(s)) => {
                fill_statx(&s, buf);
                return 0;
            }
            Some(Err(e)) => return fail(e),
            None => {}
        }
    }
    ret(raw(libc::SYS_statx, dfd as usize, path as usize, flags as usize, mask as usize, buf as usize, 0)) as c_int
}
unsafe fn stat_common(path: *const c_char, buf: *mut libc::stat, follow: bool) -> c_int {
    if let Some(t) = sim_path(path) {
        return match on(|w| w.stat(t, bytes(path), follow)) {
            Ok(s) => {
                fill_stat(&s, buf);
                0
            }
            Err(e) => fail(e),
        };
    }
    let fl = if follow { 0 } else { libc::AT_SYMLINK_NOFOLLOW };
    ret(raw(libc::SYS_newfstatat, libc::AT_FDCWD as usize, path as usize, buf as usize, fl as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, buf: *mut libc::stat) -> c_int {
    stat_common(path, buf, true)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut libc::stat) -> c_int {
    stat_common(path, buf, true)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, buf: *mut libc::stat) -> c_int {
    stat_common(path, buf, false)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut libc::stat) -> c_int {
    stat_common(path, buf, false)
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, buf: *mut libc::stat) -> c_int {
    if let Some(t) = sim_fd(fd) {
        return match on(|w| w.fstat(t, fd)) {
            Ok(s) => {
                fill_stat(&s, buf);
                0
            }
            Err(e) => fail(e),
        };
    }
    ret(raw(libc::SYS_fstat, fd as usize, buf as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat) -> c_int {
    fstat(fd, buf)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dfd: c_int, path: *const c_char, buf: *mut libc::stat, flags: c_int) -> c_int {
    if dfd == libc::AT_FDCWD || *path == b'/' as c_char {
        return stat_common(path, buf, flags & libc::AT_SYMLINK_NOFOLLOW == 0);
    }
    if let Some(t) = sim_fd(dfd) {
        let p = at_path(dfd, path);
        return match on(|w| w.stat(t, &p, flags & libc::AT_SYMLINK_NOFOLLOW == 0)) {
            Ok(s) => {
                fill_stat(&s, buf);
                0
            }
            Err(e) => fail(e),
        };
    }
    ret(raw(libc::SYS_newfstatat, dfd as usize, path as usize, buf as usize, flags as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(dfd: c_int, path: *const c_char, buf: *mut libc::stat, flags: c_int) -> c_int {
    fstatat64(dfd, path, buf, flags)
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if let Some(t) = sim_path(path) {
        return match on(|w| w.stat(t, bytes(path), true)) {
            Ok(_) => 0,
            Err(e) => fail(e),
        };
    }
    ret(raw(libc::SYS_access, path as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(dfd: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if sim_path(path).is_some() {
        return access(path, mode);
    }
    ret(raw(libc::SYS_faccessat2, dfd as usize, path as usize, mode as usize, flags as usize, 0, 0)) as c_int
}

unsafe fn give(v: &[u8], buf: *mut c_char, size: usize) -> *mut c_char {
    let p = if buf.is_null() {
        libc::malloc(v.len() + 1) as *mut c_char
    } else {
        if size < v.len() + 1 {
            *libc::__errno_location() = libc::ERANGE;
            return std::ptr::null_mut();
        }
        buf
    };
    std::ptr::copy_nonoverlapping(v.as_ptr(), p as *mut u8, v.len());
    *p.add(v.len()) = 0;
    p
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(t) = sim_path(path) {
        let r = on(|w| w.realpath(t, bytes(path)));
        let _g = host::Guard::new();
        return match r {
            Ok(v) => give(&v, out, 4096),
            Err(e) => {
                fail(e);
                std::ptr::null_mut()
            }
        };
    }
    real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(path, out)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if let Some(t) = sim_path(path) {
        let r = on(|w| w.readlink(t, bytes(path)));
        let _g = host::Guard::new();
        return match r {
            Ok(v) => {
                let k = v.len().min(n);
                std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, k);
                k as ssize_t
            }
            Err(e) => fail(e) as ssize_t,
        };
    }
    ret(raw(libc::SYS_readlink, path as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, size: size_t) -> *mut c_char {
    if let Some(t) = host::simulated() {
        if host::cwd_is_sim() {
            let r = on(|w| w.getcwd(t));
            let _g = host::Guard::new();
            return match r {
                Ok(v) => give(&v, buf, size),
                Err(e) => {
                    fail(e);
                    std::ptr::null_mut()
                }
            };
        }
    }
    real!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(buf, size)
}

// ---- directories ----

#[repr(C)]
struct SimDir {
    magic: u64,
    fd: c_int,
    names: Vec<(Vec<u8>, u8)>,
    pos: usize,
    ent: libc::dirent64,
}
const MAGIC: u64 = 0x5EED_D1E5_0000_0001;

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    if let Some(t) = sim_path(path) {
        let r = on(|w| {
            let l = w.list(t, bytes(path))?;
            let fd = w.open(t, bytes(path), libc::O_RDONLY | libc::O_DIRECTORY)?;
            Ok::<_, i32>((l, fd))
        });
        let _g = host::Guard::new();
        return match r {
            Ok((names, fd)) => Box::into_raw(Box::new(SimDir { magic: MAGIC, fd, names, pos: 0, ent: std::mem::zeroed() })) as *mut libc::DIR,
            Err(e) => {
                fail(e);
                std::ptr::null_mut()
            }
        };
    }
    real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR)(path)
}
unsafe fn as_sim<'a>(d: *mut libc::DIR) -> Option<&'a mut SimDir> {
    if d.is_null() || host::simulated().is_none() {
        return None;
    }
    let s = d as *mut SimDir;
    if (*s).magic == MAGIC {
        Some(&mut *s)
    } else {
        None
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if let Some(s) = as_sim(d) {
        if s.pos >= s.names.len() {
            return std::ptr::null_mut();
        }
        let (n, t) = &s.names[s.pos];
        s.pos += 1;
        s.ent.d_type = *t;
        s.ent.d_ino = s.pos as u64;
        s.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        for (i, b) in n.iter().take(255).enumerate() {
            s.ent.d_name[i] = *b as c_char;
        }
        s.ent.d_name[n.len().min(255)] = 0;
        return &mut s.ent;
    }
    real!("readdir64", unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64)(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if let Some(s) = as_sim(d) {
        return s.fd;
    }
    real!("dirfd", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if as_sim(d).is_some() {
        let fd = (*(d as *mut SimDir)).fd;
        close(fd);
        let _g = host::Guard::new();
        drop(Box::from_raw(d as *mut SimDir));
        return 0;
    }
    real!("closedir", unsafe extern "C" fn(*mut libc::DIR) -> c_int)(d)
}

// ---- environment, user database ----

extern "C" {
    static mut environ: *mut *mut c_char;
}
unsafe fn env_scan(name: *const c_char) -> *mut c_char {
    let n = libc::strlen(name);
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null_mut();
    }
    while !(*e).is_null() {
        if libc::strncmp(*e, name, n) == 0 && *(*e).add(n) == b'=' as c_char {
            return (*e).add(n + 1);
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if host::env_is_sim() {
        if let Some(_t) = host::simulated() {
            let r = {
                let _g = host::Guard::new();
                let w = host::world();
                let k = String::from_utf8_lossy(bytes(name)).into_owned();
                w.log(&format!("getenv {}", k));
                let wild = if ["RUST_", "MALLOC_", "GLIBC_", "LD_", "CHANOMARC", "HOME"].iter().any(|p| k.starts_with(p)) { None } else { w.spec.env_wild.as_ref().map(|b| &b.0) };
                match w.env.get(&k).or(wild) {
                    Some(v) => {
                        if !w.env.contains_key(&k) {
                            *w.fired.entry("env:unknown-variable".into()).or_insert(0) += 1;
                        }
                        // leaked on purpose: callers may keep the pointer
                        let p = libc::malloc(v.len() + 1) as *mut c_char;
                        std::ptr::copy_nonoverlapping(v.as_ptr(), p as *mut u8, v.len());
                        *p.add(v.len()) = 0;
                        p
                    }
                    None => std::ptr::null_mut(),
                }
            };
            host::yield_point("env");
            return r;
        }
    }
    env_scan(name)
}
#[no_mangle]
pub unsafe extern "C" fn secure_getenv(name: *const c_char) -> *mut c_char {
    getenv(name)
}
#[no_mangle]
pub unsafe extern "C" fn setenv(k: *const c_char, v: *const c_char, o: c_int) -> c_int {
    if host::env_is_sim() {
        if let Some(t) = host::simulated() {
            let _g = host::Guard::new();
            let w = host::world();
            let key = String::from_utf8_lossy(bytes(k)).into_owned();
            let op = *w.cur_op.get(&t).unwrap_or(&0);
            w.writes.push((op, format!("setenv {}", key)));
            w.env.insert(key, bytes(v).to_vec());
            return 0;
        }
    }
    real!("setenv", unsafe extern "C" fn(*const c_char, *const c_char, c_int) -> c_int)(k, v, o)
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(k: *const c_char) -> c_int {
    if host::env_is_sim() {
        if let Some(t) = host::simulated() {
            let _g = host::Guard::new();
            let w = host::world();
            let key = String::from_utf8_lossy(bytes(k)).into_owned();
            let op = *w.cur_op.get(&t).unwrap_or(&0);
            w.writes.push((op, format!("unsetenv {}", key)));
            w.env.remove(&key);
            return 0;
        }
    }
    real!("unsetenv", unsafe extern "C" fn(*const c_char) -> c_int)(k)
}
#[no_mangle]
pub unsafe extern "C" fn getpwuid_r(uid: libc::uid_t, pw: *mut libc::passwd, buf: *mut c_char, n: size_t, out: *mut *mut libc::passwd) -> c_int {
    if host::home_is_sim() {
        if let Some(t) = host::simulated() {
            let r = {
                let _g = host::Guard::new();
                let w = host::world();
                match w.event(t, "getpw", "") {
                    Some(crate::spec::Act::Errno(e)) => Err(e),
                    _ => Ok(w.spec.passwd_home.clone()),
                }
            };
            *out = std::ptr::null_mut();
            return match r {
                Err(e) => e,
                Ok(None) => 0,
                Ok(Some(h)) => {
                    if h.len() + 1 > n {
                        return libc::ERANGE;
                    }
                    std::ptr::copy_nonoverlapping(h.as_ptr(), buf as *mut u8, h.len());
                    *buf.add(h.len()) = 0;
                    std::ptr::write_bytes(pw as *mut u8, 0, std::mem::size_of::<libc::passwd>());
                    (*pw).pw_uid = uid;
                    (*pw).pw_dir = buf;
                    (*pw).pw_name = buf;
                    *out = pw;
                    let _g = host::Guard::new();
                    drop(h);
                    0
                }
            };
        }
    }
    real!("getpwuid_r", unsafe extern "C" fn(libc::uid_t, *mut libc::passwd, *mut c_char, size_t, *mut *mut libc::passwd) -> c_int)(uid, pw, buf, n, out)
}

// ---- the process and the processor ----

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if host::simulated().is_some() {
        return 2 + ((host::world().spec.entropy >> 48) % 30_000) as libc::pid_t;
    }
    raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if host::simulated().is_some() && n > 0 {
        let cpus = 1 + (host::world().spec.entropy >> 40) % 16;
        std::ptr::write_bytes(set as *mut u8, 0, n);
        for i in 0..(cpus as usize).min(8 * n) {
            *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    real!("sched_getaffinity", unsafe extern "C" fn(libc::pid_t, size_t, *mut libc::cpu_set_t) -> c_int)(pid, n, set)
}

// ---- entropy, time ----

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if let Some(t) = host::entropy_task() {
        let _g = host::Guard::new();
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        host::world().random(t, b);
        return n as ssize_t;
    }
    ret(raw(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if host::time_is_sim() && host::simulated().is_some() {
        let t = {
            let _g = host::Guard::new();
            let w = host::world();
            w.clock_ns += 1_000;
            if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
                w.wall()
            } else {
                w.clock_ns
            }
        };
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
unsafe fn sim_sleep(ts: *const libc::timespec) -> c_int {
    {
        let _g = host::Guard::new();
        let w = host::world();
        w.clock_ns += (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
    }
    host::yield_point("sleep");
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if host::time_is_sim() && host::simulated().is_some() {
        return sim_sleep(ts);
    }
    ret(raw(libc::SYS_nanosleep, ts as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, fl: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if host::time_is_sim() && host::simulated().is_some() {
        if fl & libc::TIMER_ABSTIME != 0 {
            host::yield_point("sleep");
            return 0;
        }
        return sim_sleep(ts);
    }
    -(raw(libc::SYS_clock_nanosleep, clk as usize, fl as usize, ts as usize, rem as usize, 0, 0) as c_int)
}

// ---- locks, threads ----

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex {
        let op = b as i32;
        let bits = match op & 0x7f {
            libc::FUTEX_WAIT_BITSET | libc::FUTEX_WAKE_BITSET => f as u32,
            _ => u32::MAX,
        };
        let cmd = op & 0x7f;
        let timed = (cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET) && d != 0;
        if let Some(r) = host::futex(a as *const u32, op, c as u32, timed, bits) {
            return match r {
                Ok(v) => v as c_long,
                Err(e) => fail(e) as c_long,
            };
        }
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b, c as c_uint) as c_long;
    }
    if n == libc::SYS_statx {
        return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long;
    }
    ret(raw(n, a, b, c, d, e, f)) as c_long
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if host::simulated().is_some() {
        host::give_way();
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
