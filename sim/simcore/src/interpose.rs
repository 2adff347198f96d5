//! The libc seam: these definitions take precedence over those of libc.so, in the harness
//! executable (static symbol resolution) and in the preloaded library. On threads that do not
//! live in a simulated world they forward to libc.
#![allow(clippy::missing_safety_doc)]
use crate::vfs::Kind;
use crate::world::{Call, World, EPOCH, FIRST_FD};
use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

unsafe fn next(cache: &AtomicUsize, name: &CStr) -> usize {
    let mut p = cache.load(Ordering::Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
        cache.store(p, Ordering::Relaxed);
    }
    p
}

macro_rules! real {
    ($name:literal, fn($($t:ty),*) -> $r:ty) => {{
        static CACHE: AtomicUsize = AtomicUsize::new(0);
        let p = next(&CACHE, $name);
        if p == 0 {
            set_errno(libc::ENOSYS);
            None
        } else {
            Some(std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(p))
        }
    }};
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

fn fail(e: i32) -> c_int {
    set_errno(e);
    -1
}

unsafe fn sim_open(w: &mut World, path: *const c_char, flags: c_int) -> c_int {
    let p = bytes(path);
    w.note(b'o', p);
    if flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
        w.forbidden.push(format!("open for writing: {}", String::from_utf8_lossy(p)));
        return fail(libc::EROFS);
    }
    match w.open(p, flags & libc::O_NOFOLLOW == 0) {
        Ok(fd) => fd,
        Err(e) => fail(e),
    }
}

macro_rules! def_open {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
            if let Some(w) = World::current() {
                return sim_open(w, path, flags);
            }
            match real!($n, fn(*const c_char, c_int, mode_t) -> c_int) {
                Some(f) => f(path, flags, mode),
                None => -1,
            }
        }
    };
}
def_open!(open, c"open");
def_open!(open64, c"open64");

macro_rules! def_openat {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
            if let Some(w) = World::current() {
                return sim_open(w, path, flags);
            }
            match real!($n, fn(c_int, *const c_char, c_int, mode_t) -> c_int) {
                Some(f) => f(dir, path, flags, mode),
                None => -1,
            }
        }
    };
}
def_openat!(openat, c"openat");
def_openat!(openat64, c"openat64");

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if let Some(w) = World::current() {
        if w.fds.contains_key(&fd) {
            let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            let r = w.read(fd, out, None);
            match r {
                Ok(k) => {
                    w.note(b'r', &(k as u64).to_le_bytes());
                    return k as ssize_t;
                }
                Err(e) => {
                    w.note(b'r', b"err");
                    return fail(e) as ssize_t;
                }
            }
        }
        w.forbidden.push(format!("read from descriptor {fd}"));
        return fail(libc::EBADF) as ssize_t;
    }
    match real!(c"read", fn(c_int, *mut c_void, size_t) -> ssize_t) {
        Some(f) => f(fd, buf, n),
        None => -1,
    }
}

macro_rules! def_pread {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
            if let Some(w) = World::current() {
                let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
                return match w.read(fd, out, Some(off as usize)) {
                    Ok(k) => k as ssize_t,
                    Err(e) => fail(e) as ssize_t,
                };
            }
            match real!($n, fn(c_int, *mut c_void, size_t, off64_t) -> ssize_t) {
                Some(f) => f(fd, buf, n, off),
                None => -1,
            }
        }
    };
}
def_pread!(pread, c"pread");
def_pread!(pread64, c"pread64");

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(w) = World::current() {
        if w.fds.remove(&fd).is_some() {
            return 0;
        }
        if fd >= FIRST_FD {
            return fail(libc::EBADF);
        }
    }
    match real!(c"close", fn(c_int) -> c_int) {
        Some(f) => f(fd),
        None => -1,
    }
}

fn mode_size(w: &World, ino: usize) -> (u32, u64) {
    match &w.vfs.inodes[ino].kind {
        Kind::Dir(_) => (libc::S_IFDIR | 0o755, 4096),
        Kind::File(d) => (libc::S_IFREG | 0o644, d.len() as u64),
        Kind::Link(t) => (libc::S_IFLNK | 0o777, t.len() as u64),
    }
}

unsafe fn fill_stat(w: &World, ino: usize, st: *mut libc::stat64) -> c_int {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    let (mode, size) = mode_size(w, ino);
    (*st).st_mode = mode;
    (*st).st_size = size as i64;
    (*st).st_ino = ino as u64 + 1;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    0
}

fn sim_resolve(w: &mut World, p: &[u8], follow: bool) -> Result<usize, i32> {
    w.note(b's', p);
    if let Some(e) = w.fault(Call::Stat) {
        return Err(e);
    }
    let cwd = w.cwd.clone();
    w.vfs.resolve(p, &cwd, follow).map(|r| r.0)
}

macro_rules! def_stat {
    ($f:ident, $n:literal, $follow:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(path: *const c_char, st: *mut libc::stat64) -> c_int {
            if let Some(w) = World::current() {
                return match sim_resolve(w, bytes(path), $follow) {
                    Ok(i) => fill_stat(w, i, st),
                    Err(e) => fail(e),
                };
            }
            match real!($n, fn(*const c_char, *mut libc::stat64) -> c_int) {
                Some(f) => f(path, st),
                None => -1,
            }
        }
    };
}
def_stat!(stat, c"stat", true);
def_stat!(stat64, c"stat64", true);
def_stat!(lstat, c"lstat", false);
def_stat!(lstat64, c"lstat64", false);

macro_rules! def_fstat {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(fd: c_int, st: *mut libc::stat64) -> c_int {
            if let Some(w) = World::current() {
                if let Some(f) = w.fds.get(&fd) {
                    let ino = f.ino;
                    return fill_stat(w, ino, st);
                }
            }
            match real!($n, fn(c_int, *mut libc::stat64) -> c_int) {
                Some(f) => f(fd, st),
                None => -1,
            }
        }
    };
}
def_fstat!(fstat, c"fstat");
def_fstat!(fstat64, c"fstat64");

#[no_mangle]
pub unsafe extern "C" fn statx(
    dir: c_int,
    path: *const c_char,
    flags: c_int,
    mask: c_uint,
    out: *mut libc::statx,
) -> c_int {
    if let Some(w) = World::current() {
        let p: &[u8] = if path.is_null() { b"" } else { bytes(path) };
        let ino = if p.is_empty() {
            match w.fds.get(&dir) {
                Some(f) => Ok(f.ino),
                None => Err(libc::ENOENT),
            }
        } else {
            sim_resolve(w, p, flags & libc::AT_SYMLINK_NOFOLLOW == 0)
        };
        return match ino {
            Ok(ino) => {
                std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
                let (mode, size) = mode_size(w, ino);
                (*out).stx_mask = 0x7ff;
                (*out).stx_mode = mode as u16;
                (*out).stx_size = size;
                (*out).stx_ino = ino as u64 + 1;
                (*out).stx_nlink = 1;
                (*out).stx_blksize = 4096;
                0
            }
            Err(e) => fail(e),
        };
    }
    match real!(c"statx", fn(c_int, *const c_char, c_int, c_uint, *mut libc::statx) -> c_int) {
        Some(f) => f(dir, path, flags, mask, out),
        None => -1,
    }
}

macro_rules! def_lseek {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
            if let Some(w) = World::current() {
                if let Some(f) = w.fds.get(&fd) {
                    let size = match &w.vfs.inodes[f.ino].kind {
                        Kind::File(d) => d.len() as i64,
                        _ => 0,
                    };
                    let base = match whence {
                        libc::SEEK_SET => 0,
                        libc::SEEK_CUR => f.pos as i64,
                        _ => size,
                    };
                    let p = base + off;
                    if p < 0 {
                        return fail(libc::EINVAL) as off64_t;
                    }
                    w.fds.get_mut(&fd).unwrap().pos = p as usize;
                    return p;
                }
            }
            match real!($n, fn(c_int, off64_t, c_int) -> off64_t) {
                Some(f) => f(fd, off, whence),
                None => -1,
            }
        }
    };
}
def_lseek!(lseek, c"lseek");
def_lseek!(lseek64, c"lseek64");

unsafe fn to_c(data: &[u8], out: *mut c_char) -> *mut c_char {
    let out = if out.is_null() { libc::malloc(data.len().max(4095) + 1) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(data.as_ptr(), out as *mut u8, data.len());
    *out.add(data.len()) = 0;
    out
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(w) = World::current() {
        let p = bytes(path);
        w.note(b'p', p);
        let r = match w.fault(Call::Realpath) {
            Some(e) => Err(e),
            None => {
                let cwd = w.cwd.clone();
                w.vfs.resolve(p, &cwd, true)
            }
        };
        return match r {
            Ok((_, canon)) => to_c(&canon, out),
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    match real!(c"realpath", fn(*const c_char, *mut c_char) -> *mut c_char) {
        Some(f) => f(path, out),
        None => std::ptr::null_mut(),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if let Some(w) = World::current() {
        if !buf.is_null() && n <= w.cwd.len() {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        return to_c(&w.cwd, buf);
    }
    match real!(c"getcwd", fn(*mut c_char, size_t) -> *mut c_char) {
        Some(f) => f(buf, n),
        None => std::ptr::null_mut(),
    }
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if let Some(w) = World::current() {
        return match sim_resolve(w, bytes(path), true) {
            Ok(_) => 0,
            Err(e) => fail(e),
        };
    }
    match real!(c"access", fn(*const c_char, c_int) -> c_int) {
        Some(f) => f(path, mode),
        None => -1,
    }
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if let Some(w) = World::current() {
        return match sim_resolve(w, bytes(path), false) {
            Ok(i) => match &w.vfs.inodes[i].kind {
                Kind::Link(t) => {
                    let k = t.len().min(n);
                    std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                    k as ssize_t
                }
                _ => fail(libc::EINVAL) as ssize_t,
            },
            Err(e) => fail(e) as ssize_t,
        };
    }
    match real!(c"readlink", fn(*const c_char, *mut c_char, size_t) -> ssize_t) {
        Some(f) => f(path, buf, n),
        None => -1,
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if let Some(w) = World::current() {
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for b in out.iter_mut() {
            *b = w.entropy.next() as u8;
        }
        return n as ssize_t;
    }
    match real!(c"getrandom", fn(*mut c_void, size_t, c_uint) -> ssize_t) {
        Some(f) => f(buf, n, flags),
        None => -1,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut libc::timespec) -> c_int {
    if let Some(w) = World::current() {
        // (waiting for a point in time has an end)
        w.now += 1;
        (*ts).tv_sec = EPOCH + (w.now / 1_000_000) as i64;
        (*ts).tv_nsec = (w.now % 1_000_000) as i64 * 1000;
        return 0;
    }
    match real!(c"clock_gettime", fn(c_int, *mut libc::timespec) -> c_int) {
        Some(f) => f(clock, ts),
        None => -1,
    }
}

unsafe fn sim_write(w: &mut World, fd: c_int, data: &[u8]) -> Result<usize, i32> {
    match fd {
        1 => {
            if let Some((at, e)) = w.out_fault {
                if w.out_written >= at {
                    w.fire(match e {
                        libc::EPIPE => "write:EPIPE",
                        libc::ENOSPC => "write:ENOSPC",
                        _ => "write:EIO",
                    });
                    return Err(e);
                }
            }
            if w.chooser.flip(w.out_masked.eintr) {
                w.fire("write:EINTR");
                return Err(libc::EINTR);
            }
            let mut n = data.len();
            if let Some((at, _)) = w.out_fault {
                n = n.min(at - w.out_written);
            }
            if n > 1 && w.chooser.flip(w.out_masked.short) {
                n = 1 + w.chooser.choose(n - 1);
                w.fire("write:short");
            }
            w.out_written += n;
            w.raw_stdout.extend_from_slice(&data[..n]);
            w.note(b'w', &data[..n]);
            Ok(n)
        }
        2 => {
            w.stderr.extend_from_slice(data);
            Ok(data.len())
        }
        _ => {
            w.forbidden.push(format!("write to descriptor {fd}"));
            Err(libc::EBADF)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if let Some(w) = World::current() {
        return match sim_write(w, fd, std::slice::from_raw_parts(buf as *const u8, n)) {
            Ok(k) => k as ssize_t,
            Err(e) => fail(e) as ssize_t,
        };
    }
    match real!(c"write", fn(c_int, *const c_void, size_t) -> ssize_t) {
        Some(f) => f(fd, buf, n),
        None => -1,
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if let Some(w) = World::current() {
        let mut data = vec![];
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            data.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
        return match sim_write(w, fd, &data) {
            Ok(k) => k as ssize_t,
            Err(e) => fail(e) as ssize_t,
        };
    }
    match real!(c"writev", fn(c_int, *const libc::iovec, c_int) -> ssize_t) {
        Some(f) => f(fd, iov, cnt),
        None => -1,
    }
}

/// Descriptor flags: the standard library asks for them before it closes a file.
unsafe fn sim_fcntl(w: &mut World, fd: c_int, cmd: c_int) -> Option<c_int> {
    if !w.fds.contains_key(&fd) {
        return if fd >= FIRST_FD { Some(fail(libc::EBADF)) } else { None };
    }
    Some(match cmd {
        libc::F_GETFD => libc::FD_CLOEXEC,
        libc::F_GETFL => libc::O_RDONLY,
        libc::F_SETFD | libc::F_SETFL => 0,
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => match w.dup(fd) {
            Ok(fd) => fd,
            Err(e) => fail(e),
        },
        libc::F_SETLK | libc::F_SETLKW | libc::F_GETLK => 0,
        _ => fail(libc::EINVAL),
    })
}

macro_rules! def_fcntl {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(fd: c_int, cmd: c_int, arg: usize) -> c_int {
            if let Some(w) = World::current() {
                if let Some(r) = sim_fcntl(w, fd, cmd) {
                    return r;
                }
            }
            match real!($n, fn(c_int, c_int, usize) -> c_int) {
                Some(f) => f(fd, cmd, arg),
                None => -1,
            }
        }
    };
}
def_fcntl!(fcntl, c"fcntl");
def_fcntl!(fcntl64, c"fcntl64");

#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if let Some(w) = World::current() {
        if fd >= FIRST_FD {
            return match w.dup(fd) {
                Ok(fd) => fd,
                Err(e) => fail(e),
            };
        }
    }
    match real!(c"dup", fn(c_int) -> c_int) {
        Some(f) => f(fd),
        None => -1,
    }
}

unsafe fn sim_readv(w: &mut World, fd: c_int, iov: *const libc::iovec, cnt: c_int, at: Option<usize>) -> ssize_t {
    for i in 0..cnt.max(0) as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            // a vectored read may stop after its first buffer
            let out = std::slice::from_raw_parts_mut(v.iov_base as *mut u8, v.iov_len);
            return match w.read(fd, out, at) {
                Ok(k) => k as ssize_t,
                Err(e) => fail(e) as ssize_t,
            };
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if let Some(w) = World::current() {
        return sim_readv(w, fd, iov, cnt, None);
    }
    match real!(c"readv", fn(c_int, *const libc::iovec, c_int) -> ssize_t) {
        Some(f) => f(fd, iov, cnt),
        None => -1,
    }
}

macro_rules! def_preadv {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(fd: c_int, iov: *const libc::iovec, cnt: c_int, off: off64_t) -> ssize_t {
            if let Some(w) = World::current() {
                return sim_readv(w, fd, iov, cnt, Some(off as usize));
            }
            match real!($n, fn(c_int, *const libc::iovec, c_int, off64_t) -> ssize_t) {
                Some(f) => f(fd, iov, cnt, off),
                None => -1,
            }
        }
    };
}
def_preadv!(preadv, c"preadv");
def_preadv!(preadv64, c"preadv64");

macro_rules! def_fadvise {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(fd: c_int, off: off64_t, len: off64_t, advice: c_int) -> c_int {
            if let Some(w) = World::current() {
                return if w.fds.contains_key(&fd) { 0 } else { libc::EBADF };
            }
            match real!($n, fn(c_int, off64_t, off64_t, c_int) -> c_int) {
                Some(f) => f(fd, off, len, advice),
                None => libc::ENOSYS,
            }
        }
    };
}
def_fadvise!(posix_fadvise, c"posix_fadvise");
def_fadvise!(posix_fadvise64, c"posix_fadvise64");

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if let Some(w) = World::current() {
        return if w.fds.contains_key(&fd) { 0 } else { fail(libc::EBADF) };
    }
    match real!(c"flock", fn(c_int, c_int) -> c_int) {
        Some(f) => f(fd, op),
        None => -1,
    }
}

/// Mapping a simulated file: a private anonymous mapping filled with its content.
unsafe fn sim_mmap(w: &mut World, len: size_t, fd: c_int, off: off64_t) -> *mut c_void {
    let ino = w.fds[&fd].ino;
    let data = match &w.vfs.inodes[ino].kind {
        Kind::File(d) => d.clone(),
        _ => {
            set_errno(libc::ENODEV);
            return libc::MAP_FAILED;
        }
    };
    let p = real_mmap(
        std::ptr::null_mut(),
        len,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
        -1,
        0,
    );
    if p != libc::MAP_FAILED {
        let from = (off as usize).min(data.len());
        let n = (data.len() - from).min(len);
        std::ptr::copy_nonoverlapping(data[from..].as_ptr(), p as *mut u8, n);
    }
    p
}
unsafe fn real_mmap(a: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    match real!(c"mmap64", fn(*mut c_void, size_t, c_int, c_int, c_int, off64_t) -> *mut c_void) {
        Some(f) => f(a, len, prot, flags, fd, off),
        None => libc::MAP_FAILED,
    }
}
macro_rules! def_mmap {
    ($f:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(
            a: *mut c_void,
            len: size_t,
            prot: c_int,
            flags: c_int,
            fd: c_int,
            off: off64_t,
        ) -> *mut c_void {
            if fd >= FIRST_FD {
                if let Some(w) = World::current() {
                    if w.fds.contains_key(&fd) {
                        return sim_mmap(w, len, fd, off);
                    }
                }
            }
            real_mmap(a, len, prot, flags, fd, off)
        }
    };
}
def_mmap!(mmap);
def_mmap!(mmap64);

#[no_mangle]
pub unsafe extern "C" fn faccessat(dir: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if World::current().is_some() {
        return access(path, mode);
    }
    match real!(c"faccessat", fn(c_int, *const c_char, c_int, c_int) -> c_int) {
        Some(f) => f(dir, path, mode, flags),
        None => -1,
    }
}

#[no_mangle]
pub unsafe extern "C" fn readlinkat(dir: c_int, path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if World::current().is_some() {
        return readlink(path, buf, n);
    }
    match real!(c"readlinkat", fn(c_int, *const c_char, *mut c_char, size_t) -> ssize_t) {
        Some(f) => f(dir, path, buf, n),
        None => -1,
    }
}

macro_rules! def_fstatat {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(dir: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
            if let Some(w) = World::current() {
                if bytes(path).is_empty() {
                    return match w.fds.get(&dir).map(|f| f.ino) {
                        Some(ino) => fill_stat(w, ino, st),
                        None => fail(libc::ENOENT),
                    };
                }
                return match sim_resolve(w, bytes(path), flags & libc::AT_SYMLINK_NOFOLLOW == 0) {
                    Ok(i) => fill_stat(w, i, st),
                    Err(e) => fail(e),
                };
            }
            match real!($n, fn(c_int, *const c_char, *mut libc::stat64, c_int) -> c_int) {
                Some(f) => f(dir, path, st, flags),
                None => -1,
            }
        }
    };
}
def_fstatat!(fstatat, c"fstatat");
def_fstatat!(fstatat64, c"fstatat64");

#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    if let Some(w) = World::current() {
        let cwd = w.cwd.clone();
        return match w.vfs.resolve(bytes(path), &cwd, true) {
            Ok((i, canon)) => match &w.vfs.inodes[i].kind {
                Kind::Dir(_) => {
                    w.cwd = canon;
                    0
                }
                _ => fail(libc::ENOTDIR),
            },
            Err(e) => fail(e),
        };
    }
    match real!(c"chdir", fn(*const c_char) -> c_int) {
        Some(f) => f(path),
        None => -1,
    }
}

/// A directory that is being listed; known to the world by its address.
#[repr(C)]
pub struct SimDir {
    fd: c_int,
    entries: Vec<(Vec<u8>, u64, u8)>,
    at: usize,
    ent: libc::dirent64,
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    if let Some(w) = World::current() {
        w.note(b'd', bytes(path));
        let fd = match w.open(bytes(path), true) {
            Ok(fd) => fd,
            Err(e) => {
                set_errno(e);
                return std::ptr::null_mut();
            }
        };
        let mut entries = match &w.vfs.inodes[w.fds[&fd].ino].kind {
            Kind::Dir(d) => d
                .iter()
                .map(|(n, i)| {
                    let t = match &w.vfs.inodes[*i].kind {
                        Kind::Dir(_) => libc::DT_DIR,
                        Kind::File(_) => libc::DT_REG,
                        Kind::Link(_) => libc::DT_LNK,
                    };
                    (n.clone(), *i as u64 + 1, t)
                })
                .collect::<Vec<_>>(),
            _ => {
                w.fds.remove(&fd);
                set_errno(libc::ENOTDIR);
                return std::ptr::null_mut();
            }
        };
        // the order of a directory is arbitrary
        for i in (1..entries.len()).rev() {
            let k = (w.entropy.next() % (i as u64 + 1)) as usize;
            entries.swap(i, k);
        }
        let d = Box::into_raw(Box::new(SimDir { fd, entries, at: 0, ent: std::mem::zeroed() })) as *mut c_void;
        w.dirs.insert(d as usize);
        return d;
    }
    match real!(c"opendir", fn(*const c_char) -> *mut c_void) {
        Some(f) => f(path),
        None => std::ptr::null_mut(),
    }
}

macro_rules! def_readdir {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(dir: *mut c_void) -> *mut libc::dirent64 {
            if let Some(w) = World::current() {
                if w.dirs.contains(&(dir as usize)) {
                    let d = &mut *(dir as *mut SimDir);
                    let Some((name, ino, kind)) = d.entries.get(d.at) else { return std::ptr::null_mut() };
                    d.at += 1;
                    d.ent.d_ino = *ino;
                    d.ent.d_type = *kind;
                    d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
                    for (to, from) in d.ent.d_name.iter_mut().zip(name.iter().chain(std::iter::once(&0))) {
                        *to = *from as c_char;
                    }
                    return &mut d.ent;
                }
            }
            match real!($n, fn(*mut c_void) -> *mut libc::dirent64) {
                Some(f) => f(dir),
                None => std::ptr::null_mut(),
            }
        }
    };
}
def_readdir!(readdir, c"readdir");
def_readdir!(readdir64, c"readdir64");

#[no_mangle]
pub unsafe extern "C" fn closedir(dir: *mut c_void) -> c_int {
    if let Some(w) = World::current() {
        if w.dirs.remove(&(dir as usize)) {
            let d = Box::from_raw(dir as *mut SimDir);
            w.fds.remove(&d.fd);
            return 0;
        }
    }
    match real!(c"closedir", fn(*mut c_void) -> c_int) {
        Some(f) => f(dir),
        None => -1,
    }
}

#[no_mangle]
pub unsafe extern "C" fn dirfd(dir: *mut c_void) -> c_int {
    if let Some(w) = World::current() {
        if w.dirs.contains(&(dir as usize)) {
            return (*(dir as *mut SimDir)).fd;
        }
    }
    match real!(c"dirfd", fn(*mut c_void) -> c_int) {
        Some(f) => f(dir),
        None => -1,
    }
}

/// Sleeping takes no real time: the simulated clock moves.
unsafe fn sim_sleep(w: &mut World, ts: *const libc::timespec) {
    let us = (*ts).tv_sec as u64 * 1_000_000 + ((*ts).tv_nsec as u64).div_ceil(1000);
    w.now += us;
    w.busy.1 += us.max(100);
    w.probe("slept");
    w.check_busy();
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if let Some(w) = World::current() {
        sim_sleep(w, req);
        return 0;
    }
    match real!(c"nanosleep", fn(*const libc::timespec, *mut libc::timespec) -> c_int) {
        Some(f) => f(req, rem),
        None => -1,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clock: c_int,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if let Some(w) = World::current() {
        if flags & libc::TIMER_ABSTIME == 0 {
            sim_sleep(w, req);
        } else {
            let at = ((*req).tv_sec - EPOCH).max(0) as u64 * 1_000_000 + ((*req).tv_nsec as u64).div_ceil(1000);
            w.now = w.now.max(at);
        }
        return 0;
    }
    match real!(c"clock_nanosleep", fn(c_int, c_int, *const libc::timespec, *mut libc::timespec) -> c_int) {
        Some(f) => f(clock, flags, req, rem),
        None => libc::ENOSYS,
    }
}

/// Standard streams are pipes, never a terminal.
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if World::current().is_some() {
        set_errno(libc::ENOTTY);
        return 0;
    }
    match real!(c"isatty", fn(c_int) -> c_int) {
        Some(f) => f(fd),
        None => 0,
    }
}

/// The environment is empty.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if World::current().is_some() {
        return std::ptr::null_mut();
    }
    match real!(c"getenv", fn(*const c_char) -> *mut c_char) {
        Some(f) => f(name),
        None => std::ptr::null_mut(),
    }
}

macro_rules! def_forbidden1 {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(path: *const c_char, arg: usize) -> c_int {
            if let Some(w) = World::current() {
                w.forbidden.push(format!("{}({})", stringify!($f), String::from_utf8_lossy(bytes(path))));
                return fail(libc::EROFS);
            }
            match real!($n, fn(*const c_char, usize) -> c_int) {
                Some(f) => f(path, arg),
                None => -1,
            }
        }
    };
}
def_forbidden1!(unlink, c"unlink");
def_forbidden1!(rmdir, c"rmdir");
def_forbidden1!(mkdir, c"mkdir");
def_forbidden1!(rename, c"rename");
def_forbidden1!(link, c"link");
def_forbidden1!(chown, c"chown");
def_forbidden1!(creat, c"creat");
def_forbidden1!(utimes, c"utimes");
def_forbidden1!(symlink, c"symlink");
def_forbidden1!(chmod, c"chmod");
def_forbidden1!(truncate, c"truncate");

macro_rules! def_forbidden_at {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(dir: c_int, path: *const c_char, a: usize, b: usize, c: usize) -> c_int {
            if let Some(w) = World::current() {
                w.forbidden.push(format!("{}({})", stringify!($f), String::from_utf8_lossy(bytes(path))));
                return fail(libc::EROFS);
            }
            match real!($n, fn(c_int, *const c_char, usize, usize, usize) -> c_int) {
                Some(f) => f(dir, path, a, b, c),
                None => -1,
            }
        }
    };
}
def_forbidden_at!(unlinkat, c"unlinkat");
def_forbidden_at!(mkdirat, c"mkdirat");
def_forbidden_at!(renameat, c"renameat");
def_forbidden_at!(linkat, c"linkat");
def_forbidden_at!(utimensat, c"utimensat");
def_forbidden_at!(fchmodat, c"fchmodat");
def_forbidden_at!(fchownat, c"fchownat");

macro_rules! def_forbidden_call {
    ($f:ident, $n:literal) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f(a: usize, b: usize, c: usize, d: usize, e: usize, g: usize) -> c_int {
            if let Some(w) = World::current() {
                w.forbidden.push(stringify!($f).to_string());
                return fail(libc::EACCES);
            }
            match real!($n, fn(usize, usize, usize, usize, usize, usize) -> c_int) {
                Some(f) => f(a, b, c, d, e, g),
                None => -1,
            }
        }
    };
}
def_forbidden_call!(socket, c"socket");
def_forbidden_call!(connect, c"connect");
def_forbidden_call!(posix_spawn, c"posix_spawn");
def_forbidden_call!(posix_spawnp, c"posix_spawnp");
def_forbidden_call!(ftruncate, c"ftruncate");
def_forbidden_call!(ftruncate64, c"ftruncate64");
def_forbidden_call!(kill, c"kill");

thread_local! {
    /// What happens when the program of this thread calls `exit`.
    pub static ON_EXIT: std::cell::Cell<Option<fn(i32) -> !>> = const { std::cell::Cell::new(None) };
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if World::current().is_some() {
        if let Some(f) = ON_EXIT.with(|f| f.get()) {
            f(code)
        }
    }
    match real!(c"exit", fn(c_int) -> c_int) {
        Some(f) => {
            f(code);
        }
        None => libc::_exit(code),
    }
    libc::_exit(code)
}
