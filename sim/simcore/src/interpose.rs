//! libc symbols defined by this executable.  Calls from simulated threads go to the
//! simulator; everything else goes straight to the kernel.
#![allow(clippy::missing_safety_doc)]
use crate::fs::{FD_BASE, Op, normalize, parent};
use crate::{
    Decision, crash_kill, crash_power, enter, fs_log, fs_point, is_sim_thread, on_sim, raw, sim,
};
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off_t, size_t, ssize_t};
use std::ffi::CStr;

pub(crate) fn set_errno(e: i32) {
    unsafe {
        *libc::__errno_location() = e;
    }
}
fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
fn path(p: *const c_char) -> String {
    normalize(&unsafe { CStr::from_ptr(p) }.to_string_lossy())
}
fn at_path(dirfd: c_int, p: *const c_char) -> String {
    let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().to_string();
    if s.starts_with('/') || dirfd == libc::AT_FDCWD {
        normalize(&s)
    } else {
        let base = sim()
            .fs
            .fds
            .get(&dirfd)
            .map(|f| f.path.clone())
            .unwrap_or("/sim".into());
        normalize(&format!("{base}/{s}"))
    }
}
pub(crate) fn real<T: Copy>(name: &[u8]) -> T {
    unsafe {
        let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
        assert!(!p.is_null());
        std::mem::transmute_copy(&p)
    }
}

/// Run one simulated call: fault decision, effect, log.  `eff(n)` performs n/256 of it.
fn call(op: Op, p: &str, eff: impl FnOnce(Option<u8>) -> Result<i64, i32>) -> i64 {
    let d = fs_point(op);
    let io = matches!(op, Op::Write | Op::Read);
    let r = match d {
        Decision::Go => eff(None),
        Decision::Err(e) => Err(e),
        Decision::Part(n) => eff(Some(n)),
        Decision::NoSpace(n) => {
            let r = eff(Some(n));
            match r {
                Ok(k) if k > 0 => r,
                _ => Err(libc::ENOSPC),
            }
        }
        Decision::KillAfter(n) => {
            let r = if io {
                eff(Some(n))
            } else if n >= 128 {
                eff(None)
            } else {
                Ok(0)
            };
            fs_log(op, p, r.unwrap_or(-1));
            crash_kill();
        }
        Decision::PowerAfter(n, seed) => {
            let r = if io {
                eff(Some(n))
            } else if n >= 128 {
                eff(None)
            } else {
                Ok(0)
            };
            fs_log(op, p, r.unwrap_or(-1));
            crash_power(seed);
        }
    };
    match r {
        Ok(v) => {
            fs_log(op, p, v);
            v
        }
        Err(e) => {
            fs_log(op, p, -(e as i64));
            set_errno(e);
            -1
        }
    }
}

fn part(n: usize, f: Option<u8>) -> usize {
    match f {
        None => n,
        Some(255) => n,
        Some(k) => (n * k as usize) / 256,
    }
}

fn sim_open(p: String, flags: c_int) -> i64 {
    let op = if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
        Op::Create
    } else {
        Op::Open
    };
    call(op, &p, |_| sim().fs.open(&p, flags).map(|x| x as i64))
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if on_sim() {
        let _g = enter();
        return sim_open(path(p), flags) as c_int;
    }
    ret(unsafe {
        raw::sc6(
            libc::SYS_openat,
            libc::AT_FDCWD as i64,
            p as i64,
            flags as i64,
            mode as i64,
            0,
            0,
        )
    }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { open64(p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(
    fd: c_int,
    p: *const c_char,
    flags: c_int,
    mode: mode_t,
) -> c_int {
    if on_sim() {
        let _g = enter();
        return sim_open(at_path(fd, p), flags) as c_int;
    }
    ret(unsafe {
        raw::sc6(
            libc::SYS_openat,
            fd as i64,
            p as i64,
            flags as i64,
            mode as i64,
            0,
            0,
        )
    }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(fd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { openat64(fd, p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: mode_t) -> c_int {
    unsafe { open64(p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode) }
}

fn fd_path(fd: c_int) -> String {
    sim()
        .fs
        .fds
        .get(&fd)
        .map(|f| f.path.clone())
        .unwrap_or_else(|| format!("fd{fd}"))
}

fn sim_write(fd: c_int, b: *const c_void, n: size_t, at: Option<u64>) -> ssize_t {
    if fd < FD_BASE {
        // terminal output of the program: swallowed
        return n as ssize_t;
    }
    let p = fd_path(fd);
    let buf = unsafe { std::slice::from_raw_parts(b as *const u8, n) };
    call(Op::Write, &p, |f| {
        sim().fs.write(fd, &buf[..part(n, f)], at).map(|x| x as i64)
    }) as ssize_t
}
fn sim_read(fd: c_int, b: *mut c_void, n: size_t, at: Option<u64>) -> ssize_t {
    if fd < FD_BASE {
        return 0;
    }
    let p = fd_path(fd);
    let buf = unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) };
    call(Op::Read, &p, |f| {
        // a short read still makes progress, as the kernel's would
        let k = part(n, f).max(1.min(n));
        sim().fs.read(fd, &mut buf[..k], at).map(|x| x as i64)
    }) as ssize_t
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if on_sim() {
        let _g = enter();
        return sim_write(fd, b, n, None);
    }
    if is_sim_thread() {
        return n as ssize_t;
    }
    ret(unsafe { raw::sc3(libc::SYS_write, fd as i64, b as i64, n as i64) }) as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if on_sim() {
        let _g = enter();
        return sim_read(fd, b, n, None);
    }
    ret(unsafe { raw::sc3(libc::SYS_read, fd as i64, b as i64, n as i64) }) as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off_t) -> ssize_t {
    if on_sim() {
        let _g = enter();
        return sim_write(fd, b, n, Some(off as u64));
    }
    ret(unsafe { raw::sc6(libc::SYS_pwrite64, fd as i64, b as i64, n as i64, off, 0, 0) })
        as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    if on_sim() {
        let _g = enter();
        return sim_read(fd, b, n, Some(off as u64));
    }
    ret(unsafe { raw::sc6(libc::SYS_pread64, fd as i64, b as i64, n as i64, off, 0, 0) }) as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if is_sim_thread() {
        let on = on_sim();
        let _g = enter();
        let mut all = vec![];
        for i in 0..n as usize {
            let e = unsafe { &*v.add(i) };
            all.extend_from_slice(unsafe {
                std::slice::from_raw_parts(e.iov_base as *const u8, e.iov_len)
            });
        }
        if !on {
            return all.len() as ssize_t;
        }
        return sim_write(fd, all.as_ptr() as *const c_void, all.len(), None);
    }
    ret(unsafe { raw::sc3(libc::SYS_writev, fd as i64, v as i64, n as i64) }) as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if on_sim() {
        let _g = enter();
        let e = unsafe { &*v };
        return sim_read(fd, e.iov_base, e.iov_len, None);
    }
    ret(unsafe { raw::sc3(libc::SYS_readv, fd as i64, v as i64, n as i64) }) as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE && is_sim_thread() {
        let _g = enter();
        let p = fd_path(fd);
        return call(Op::Close, &p, |_| {
            sim().fs.fds.remove(&fd);
            Ok(0)
        }) as c_int;
    }
    ret(unsafe { raw::sc3(libc::SYS_close, fd as i64, 0, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, wh: c_int) -> off_t {
    if fd >= FD_BASE && on_sim() {
        let _g = enter();
        let p = fd_path(fd);
        return call(Op::Seek, &p, |_| {
            let fs = &mut sim().fs;
            let f = fs.fds.get_mut(&fd).ok_or(libc::EBADF)?;
            let base = match wh {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => f.pos as i64,
                _ => fs.inodes[f.ino].data.len() as i64,
            };
            let n = base + off;
            if n < 0 {
                return Err(libc::EINVAL);
            }
            f.pos = n as u64;
            Ok(n)
        });
    }
    ret(unsafe { raw::sc3(libc::SYS_lseek, fd as i64, off, wh as i64) })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, wh: c_int) -> off_t {
    unsafe { lseek64(fd, off, wh) }
}
fn sim_sync(fd: c_int) -> c_int {
    let _g = enter();
    let p = fd_path(fd);
    call(Op::Fsync, &p, |_| {
        let i = sim().fs.fds.get(&fd).ok_or(libc::EBADF)?.ino;
        sim().fs.sync(i);
        Ok(0)
    }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if on_sim() {
        return sim_sync(fd);
    }
    ret(unsafe { raw::sc3(libc::SYS_fsync, fd as i64, 0, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if on_sim() {
        return sim_sync(fd);
    }
    ret(unsafe { raw::sc3(libc::SYS_fdatasync, fd as i64, 0, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sync() {
    if on_sim() {
        let _g = enter();
        let n = sim().fs.inodes.len();
        for i in 0..n {
            sim().fs.sync(i);
        }
        return;
    }
    unsafe {
        raw::sc3(libc::SYS_sync, 0, 0, 0);
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    if on_sim() {
        let _g = enter();
        let p = fd_path(fd);
        return call(Op::Truncate, &p, |_| {
            let i = sim().fs.fds.get(&fd).ok_or(libc::EBADF)?.ino;
            sim().fs.truncate(i, len as usize);
            Ok(0)
        }) as c_int;
    }
    ret(unsafe { raw::sc3(libc::SYS_ftruncate, fd as i64, len, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    unsafe { ftruncate64(fd, len) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if on_sim() {
        let _g = enter();
        let (a, b) = (path(a), path(b));
        return call(Op::Rename, &format!("{a} -> {b}"), |_| {
            sim().fs.rename(&a, &b).map(|_| 0)
        }) as c_int;
    }
    ret(unsafe { raw::sc3(libc::SYS_rename, a as i64, b as i64, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn renameat2(
    fa: c_int,
    a: *const c_char,
    fb: c_int,
    b: *const c_char,
    fl: c_uint,
) -> c_int {
    if on_sim() {
        let _g = enter();
        let (a, b) = (at_path(fa, a), at_path(fb, b));
        return call(Op::Rename, &format!("{a} -> {b}"), |_| {
            if fl & 1 != 0 && sim().fs.lookup(&b).is_ok() {
                return Err(libc::EEXIST);
            }
            sim().fs.rename(&a, &b).map(|_| 0)
        }) as c_int;
    }
    ret(unsafe {
        raw::sc6(
            libc::SYS_renameat2,
            fa as i64,
            a as i64,
            fb as i64,
            b as i64,
            fl as i64,
            0,
        )
    }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn renameat(
    fa: c_int,
    a: *const c_char,
    fb: c_int,
    b: *const c_char,
) -> c_int {
    unsafe { renameat2(fa, a, fb, b, 0) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if on_sim() {
        let _g = enter();
        let p = path(p);
        return call(Op::Unlink, &p, |_| sim().fs.unlink(&p, false).map(|_| 0)) as c_int;
    }
    ret(unsafe { raw::sc3(libc::SYS_unlink, p as i64, 0, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if on_sim() {
        let _g = enter();
        let p = path(p);
        return call(Op::Unlink, &p, |_| sim().fs.unlink(&p, true).map(|_| 0)) as c_int;
    }
    ret(unsafe { raw::sc3(libc::SYS_rmdir, p as i64, 0, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlinkat(fd: c_int, p: *const c_char, fl: c_int) -> c_int {
    if on_sim() {
        let _g = enter();
        let p = at_path(fd, p);
        return call(Op::Unlink, &p, |_| {
            sim().fs.unlink(&p, fl & libc::AT_REMOVEDIR != 0).map(|_| 0)
        }) as c_int;
    }
    ret(unsafe { raw::sc3(libc::SYS_unlinkat, fd as i64, p as i64, fl as i64) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if on_sim() {
        let _g = enter();
        let (a, b) = (path(a), path(b));
        return call(Op::Other, &b, |_| sim().fs.link(&a, &b).map(|_| 0)) as c_int;
    }
    ret(unsafe { raw::sc3(libc::SYS_link, a as i64, b as i64, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn linkat(
    fa: c_int,
    a: *const c_char,
    fb: c_int,
    b: *const c_char,
    fl: c_int,
) -> c_int {
    if on_sim() {
        let _g = enter();
        let (a, b) = (at_path(fa, a), at_path(fb, b));
        return call(Op::Other, &b, |_| sim().fs.link(&a, &b).map(|_| 0)) as c_int;
    }
    ret(unsafe {
        raw::sc6(
            libc::SYS_linkat,
            fa as i64,
            a as i64,
            fb as i64,
            b as i64,
            fl as i64,
            0,
        )
    }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    if on_sim() {
        let _g = enter();
        let p = path(p);
        return call(Op::Mkdir, &p, |_| sim().fs.mkdir(&p).map(|_| 0)) as c_int;
    }
    ret(unsafe { raw::sc3(libc::SYS_mkdir, p as i64, m as i64, 0) }) as c_int
}

fn stat_ino(p: &str) -> Result<(usize, bool, usize), i32> {
    let i = sim().fs.lookup(p)?;
    let n = &sim().fs.inodes[i];
    Ok((i, n.dir, n.data.len()))
}
unsafe fn fill_stat(st: *mut libc::stat64, i: usize, dir: bool, len: usize) {
    unsafe {
        std::ptr::write_bytes(st as *mut u8, 0, size_of::<libc::stat64>());
        (*st).st_ino = i as u64 + 1;
        (*st).st_nlink = 1;
        (*st).st_mode = if dir {
            libc::S_IFDIR | 0o755
        } else {
            libc::S_IFREG | 0o644
        };
        (*st).st_size = len as i64;
        (*st).st_blksize = 4096;
        (*st).st_blocks = (len as i64 + 511) / 512;
    }
}
fn sim_stat(p: String, st: *mut libc::stat64) -> c_int {
    call(Op::Stat, &p, |_| {
        let (i, d, l) = stat_ino(&p)?;
        unsafe { fill_stat(st, i, d, l) };
        Ok(0)
    }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if on_sim() {
        let _g = enter();
        return sim_stat(path(p), st);
    }
    ret(unsafe { raw::sc3(libc::SYS_stat, p as i64, st as i64, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    unsafe { stat64(p, st) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if on_sim() {
        let _g = enter();
        return sim_stat(path(p), st);
    }
    ret(unsafe { raw::sc3(libc::SYS_lstat, p as i64, st as i64, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    unsafe { lstat64(p, st) }
}
fn sim_fstat(fd: c_int) -> Result<(usize, bool, usize), i32> {
    let i = sim().fs.fds.get(&fd).ok_or(libc::EBADF)?.ino;
    let n = &sim().fs.inodes[i];
    Ok((i, n.dir, n.data.len()))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if fd >= FD_BASE && on_sim() {
        let _g = enter();
        let p = fd_path(fd);
        return call(Op::Stat, &p, |_| {
            let (i, d, l) = sim_fstat(fd)?;
            unsafe { fill_stat(st, i, d, l) };
            Ok(0)
        }) as c_int;
    }
    ret(unsafe { raw::sc3(libc::SYS_fstat, fd as i64, st as i64, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    unsafe { fstat64(fd, st) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstatat64(
    fd: c_int,
    p: *const c_char,
    st: *mut libc::stat64,
    fl: c_int,
) -> c_int {
    if on_sim() {
        let _g = enter();
        return sim_stat(at_path(fd, p), st);
    }
    ret(unsafe {
        raw::sc6(
            libc::SYS_newfstatat,
            fd as i64,
            p as i64,
            st as i64,
            fl as i64,
            0,
            0,
        )
    }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(
    fd: c_int,
    p: *const c_char,
    fl: c_int,
    mask: c_uint,
    b: *mut libc::statx,
) -> c_int {
    if on_sim() {
        let _g = enter();
        if b.is_null() || p.is_null() {
            set_errno(libc::EFAULT);
            return -1;
        }
        let empty = unsafe { *p } == 0;
        let pp = if empty { fd_path(fd) } else { at_path(fd, p) };
        return call(Op::Stat, &pp, |_| {
            let (i, d, l) = if empty {
                sim_fstat(fd)?
            } else {
                stat_ino(&pp)?
            };
            unsafe {
                std::ptr::write_bytes(b as *mut u8, 0, size_of::<libc::statx>());
                (*b).stx_mask = libc::STATX_BASIC_STATS;
                (*b).stx_ino = i as u64 + 1;
                (*b).stx_nlink = 1;
                (*b).stx_mode = (if d {
                    libc::S_IFDIR | 0o755
                } else {
                    libc::S_IFREG | 0o644
                }) as u16;
                (*b).stx_size = l as u64;
                (*b).stx_blksize = 4096;
                (*b).stx_blocks = (l as u64).div_ceil(512);
            }
            Ok(0)
        }) as c_int;
    }
    ret(unsafe {
        raw::sc6(
            libc::SYS_statx,
            fd as i64,
            p as i64,
            fl as i64,
            mask as i64,
            b as i64,
            0,
        )
    }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if on_sim() {
        let _g = enter();
        let p = path(p);
        return call(Op::Stat, &p, |_| stat_ino(&p).map(|_| 0)) as c_int;
    }
    ret(unsafe { raw::sc3(libc::SYS_access, p as i64, m as i64, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn faccessat(fd: c_int, p: *const c_char, m: c_int, fl: c_int) -> c_int {
    if on_sim() {
        let _g = enter();
        let p = at_path(fd, p);
        return call(Op::Stat, &p, |_| stat_ino(&p).map(|_| 0)) as c_int;
    }
    ret(unsafe {
        raw::sc6(
            libc::SYS_faccessat,
            fd as i64,
            p as i64,
            m as i64,
            fl as i64,
            0,
            0,
        )
    }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if on_sim() {
        let _g = enter();
        let p = path(p);
        return call(Op::Other, &p, |_| stat_ino(&p).map(|_| 0)) as c_int;
    }
    ret(unsafe { raw::sc3(libc::SYS_chmod, p as i64, m as i64, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if on_sim() {
        return 0;
    }
    ret(unsafe { raw::sc3(libc::SYS_fchmod, fd as i64, m as i64, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if on_sim() {
        return 0;
    }
    ret(unsafe { raw::sc3(libc::SYS_flock, fd as i64, op as i64, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if fd >= FD_BASE && on_sim() {
        let _g = enter();
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                call(Op::Other, "", |_| sim().fs.dup(fd).map(|x| x as i64)) as c_int
            }
            libc::F_GETFL => sim().fs.fds.get(&fd).map(|f| f.flags).unwrap_or(0),
            _ => 0,
        };
    }
    ret(unsafe { raw::sc3(libc::SYS_fcntl, fd as i64, cmd as i64, arg) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    unsafe { fcntl(fd, cmd, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(
    a: c_int,
    pa: *mut off_t,
    b: c_int,
    pb: *mut off_t,
    n: size_t,
    fl: c_uint,
) -> ssize_t {
    if on_sim() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(unsafe {
        raw::sc6(
            libc::SYS_copy_file_range,
            a as i64,
            pa as i64,
            b as i64,
            pb as i64,
            n as i64,
            fl as i64,
        )
    }) as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off_t, n: size_t) -> ssize_t {
    if on_sim() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(unsafe {
        raw::sc6(
            libc::SYS_sendfile,
            a as i64,
            b as i64,
            o as i64,
            n as i64,
            0,
            0,
        )
    }) as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if on_sim() {
        let _g = enter();
        let s = path(p);
        if call(Op::Stat, &s, |_| stat_ino(&s).map(|_| 0)) < 0 {
            return std::ptr::null_mut();
        }
        unsafe {
            let o = if out.is_null() {
                libc::malloc(s.len() + 1) as *mut c_char
            } else {
                out
            };
            std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, o, s.len());
            *o.add(s.len()) = 0;
            return o;
        }
    }
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = real(b"realpath\0");
    unsafe { f(p, out) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if on_sim() {
        let s = b"/sim\0";
        if n < s.len() {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, buf, s.len()) };
        return buf;
    }
    let r = ret(unsafe { raw::sc3(libc::SYS_getcwd, buf as i64, n as i64, 0) });
    if r < 0 { std::ptr::null_mut() } else { buf }
}

// ------------------------------------------------------------ directories

struct SimDir {
    magic: u64,
    items: Vec<(String, usize, bool)>,
    pos: usize,
    ent: libc::dirent64,
    path: String,
}
const MAGIC: u64 = 0x51_4d_44_49_52_00_11_22;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if on_sim() {
        let _g = enter();
        let p = path(p);
        return sim_opendir(p);
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = real(b"opendir\0");
    unsafe { f(p) }
}
fn sim_opendir(p: String) -> *mut libc::DIR {
    let mut items = vec![];
    let r = call(Op::Open, &p, |_| {
        let (_, d, _) = stat_ino(&p)?;
        if !d {
            return Err(libc::ENOTDIR);
        }
        let s = sim();
        items =
            s.fs.list(&p)
                .into_iter()
                .map(|(n, i)| (n, i, s.fs.inodes[i].dir))
                .collect();
        Ok(0)
    });
    if r < 0 {
        return std::ptr::null_mut();
    }
    let s = sim();
    if s.cfg.shuffle_dirs {
        let mut r = crate::rng::Rng::new(s.entropy.u64());
        r.shuffle(&mut items);
        crate::count_fault("shuffled_listing");
    }
    Box::into_raw(Box::new(SimDir {
        magic: MAGIC,
        items,
        pos: 0,
        ent: unsafe { std::mem::zeroed() },
        path: p,
    })) as *mut libc::DIR
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if on_sim() {
        let _g = enter();
        let p = fd_path(fd);
        return sim_opendir(p);
    }
    let f: unsafe extern "C" fn(c_int) -> *mut libc::DIR = real(b"fdopendir\0");
    unsafe { f(fd) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if is_sim_thread() {
        let _g = enter();
        let d = unsafe { &mut *(d as *mut SimDir) };
        assert!(d.magic == MAGIC);
        let end = d.pos >= d.items.len();
        let p = d.path.clone();
        let r = call(Op::Readdir, &p, |_| Ok(0));
        if r < 0 {
            return std::ptr::null_mut();
        }
        if end {
            return std::ptr::null_mut();
        }
        let (n, i, dir) = &d.items[d.pos];
        d.pos += 1;
        d.ent.d_ino = *i as u64 + 1;
        d.ent.d_off = d.pos as i64;
        d.ent.d_type = if *dir { libc::DT_DIR } else { libc::DT_REG };
        d.ent.d_reclen = size_of::<libc::dirent64>() as u16;
        for (k, b) in n.bytes().chain(std::iter::once(0)).enumerate() {
            d.ent.d_name[k] = b as c_char;
        }
        return &mut d.ent;
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = real(b"readdir64\0");
    unsafe { f(d) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if is_sim_thread() {
        let _g = enter();
        drop(unsafe { Box::from_raw(d as *mut SimDir) });
        return 0;
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = real(b"closedir\0");
    unsafe { f(d) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dirfd(d: *mut libc::DIR) -> c_int {
    if is_sim_thread() {
        let _g = enter();
        let d = unsafe { &*(d as *mut SimDir) };
        let p = d.path.clone();
        return sim().fs.open(&p, libc::O_RDONLY).unwrap_or(-1);
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = real(b"dirfd\0");
    unsafe { f(d) }
}

// ------------------------------------------------------------ time and entropy

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if is_sim_thread() {
        let (s, n) = crate::sim_clock(id);
        unsafe {
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
        }
        return 0;
    }
    ret(unsafe { raw::sc3(libc::SYS_clock_gettime, id as i64, ts as i64, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if is_sim_thread() {
        let (s, n) = crate::sim_clock(libc::CLOCK_REALTIME);
        unsafe {
            (*tv).tv_sec = s;
            (*tv).tv_usec = n / 1000;
        }
        return 0;
    }
    ret(unsafe { raw::sc3(libc::SYS_gettimeofday, tv as i64, tz as i64, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let s = if is_sim_thread() {
        crate::sim_clock(libc::CLOCK_REALTIME).0
    } else {
        ret(unsafe { raw::sc3(libc::SYS_time, 0, 0, 0) })
    };
    if !t.is_null() {
        unsafe { *t = s };
    }
    s
}
pub(crate) fn ts_ns(ts: *const libc::timespec) -> u64 {
    unsafe { (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if on_sim() {
        crate::sleep_ns(ts_ns(ts));
        return 0;
    }
    ret(unsafe { raw::sc3(libc::SYS_nanosleep, ts as i64, rem as i64, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    fl: c_int,
    ts: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if on_sim() {
        let mut d = ts_ns(ts);
        if fl & libc::TIMER_ABSTIME != 0 {
            let (s, n) = crate::sim_clock(id);
            d = d.saturating_sub(s as u64 * 1_000_000_000 + n as u64);
        }
        crate::sleep_ns(d);
        return 0;
    }
    (-unsafe {
        raw::sc6(
            libc::SYS_clock_nanosleep,
            id as i64,
            fl as i64,
            ts as i64,
            rem as i64,
            0,
            0,
        )
    }) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    if on_sim() {
        crate::sleep_ns(us as u64 * 1000);
        return 0;
    }
    let ts = libc::timespec {
        tv_sec: (us / 1_000_000) as i64,
        tv_nsec: (us % 1_000_000) as i64 * 1000,
    };
    ret(unsafe { raw::sc3(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0) }) as c_int
}
fn sim_random(b: *mut c_void, n: size_t) -> ssize_t {
    let _g = enter();
    let s = unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) };
    let r = &mut sim().entropy;
    for c in s.chunks_mut(8) {
        let v = r.u64().to_le_bytes();
        let l = c.len();
        c.copy_from_slice(&v[..l]);
    }
    n as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if is_sim_thread() {
        return sim_random(b, n);
    }
    ret(unsafe { raw::sc3(libc::SYS_getrandom, b as i64, n as i64, fl as i64) }) as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getentropy(b: *mut c_void, n: size_t) -> c_int {
    if is_sim_thread() {
        sim_random(b, n);
        return 0;
    }
    if unsafe { raw::sc3(libc::SYS_getrandom, b as i64, n as i64, 0) } == n as i64 {
        0
    } else {
        -1
    }
}

// ------------------------------------------------------------ threads

#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if on_sim() {
        crate::sim_yield();
        return 0;
    }
    ret(unsafe { raw::sc3(libc::SYS_sched_yield, 0, 0, 0) }) as c_int
}
type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
pub unsafe fn real_pthread_create(
    t: *mut libc::pthread_t,
    a: *const libc::pthread_attr_t,
    f: StartFn,
    arg: *mut c_void,
) -> c_int {
    let r: unsafe extern "C" fn(
        *mut libc::pthread_t,
        *const libc::pthread_attr_t,
        StartFn,
        *mut c_void,
    ) -> c_int = real(b"pthread_create\0");
    unsafe { r(t, a, f, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    a: *const libc::pthread_attr_t,
    f: StartFn,
    arg: *mut c_void,
) -> c_int {
    if on_sim() {
        return crate::sim_thread_create(t, a, f, arg);
    }
    unsafe { real_pthread_create(t, a, f, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if on_sim() {
        crate::sim_join(t);
    }
    let f: unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int =
        real(b"pthread_join\0");
    unsafe { f(t, r) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_getaffinity(
    pid: libc::pid_t,
    n: size_t,
    m: *mut libc::cpu_set_t,
) -> c_int {
    if on_sim() {
        // the simulated machine has `user` processors (default 4)
        unsafe {
            std::ptr::write_bytes(m as *mut u8, 0, n);
            for i in 0..sim().user.max(1) as usize {
                *(m as *mut u8).add(i / 8) |= 1 << (i % 8);
            }
        }
        return 0;
    }
    let r = ret(unsafe { raw::sc3(libc::SYS_sched_getaffinity, pid as i64, n as i64, m as i64) });
    if r < 0 { -1 } else { 0 }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if is_sim_thread() {
        match n {
            libc::SYS_futex if on_sim() => {
                let op = (b as i32) & 0x7f;
                let addr = a as *const u32;
                match op {
                    0 | 9 => {
                        let until = if d == 0 {
                            u64::MAX
                        } else {
                            let t = ts_ns(d as *const libc::timespec);
                            if op == 9 {
                                t
                            } else {
                                sim().now.saturating_add(t)
                            }
                        };
                        let r = crate::sim_futex_wait(addr, c as u32, until);
                        if r != 0 {
                            set_errno(r);
                            return -1;
                        }
                        return 0;
                    }
                    1 | 10 => return crate::sim_futex_wake(addr, c.max(0) as usize) as c_long,
                    _ => {}
                }
            }
            libc::SYS_getrandom => return sim_random(a as *mut c_void, b as usize) as c_long,
            libc::SYS_statx if on_sim() => {
                return unsafe {
                    statx(
                        a as c_int,
                        b as *const c_char,
                        c as c_int,
                        d as c_uint,
                        e as *mut libc::statx,
                    )
                } as c_long;
            }
            libc::SYS_clock_gettime => {
                return unsafe { clock_gettime(a as i32, b as *mut libc::timespec) } as c_long;
            }
            libc::SYS_copy_file_range if on_sim() => {
                set_errno(libc::ENOSYS);
                return -1;
            }
            libc::SYS_renameat2 if on_sim() => {
                return unsafe {
                    renameat2(
                        a as c_int,
                        b as *const c_char,
                        c as c_int,
                        d as *const c_char,
                        e as c_uint,
                    )
                } as c_long;
            }
            libc::SYS_sched_yield if on_sim() => {
                crate::sim_yield();
                return 0;
            }
            _ => {}
        }
    }
    ret(unsafe { raw::sc6(n, a, b, c, d, e, f) })
}

#[allow(dead_code)]
fn unused(p: &str) -> String {
    parent(p)
}
