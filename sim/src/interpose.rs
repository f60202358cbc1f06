//! C library symbols defined by this executable, so that std, rayon, memmap2, tempfile and the
//! code under test call the simulator instead of the kernel.
use crate::{fs, raw, sched};
use libc::{c_char, c_int, c_long, c_void, off64_t, size_t, ssize_t};

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, f: c_int, m: u32) -> c_int {
    fs::open(libc::AT_FDCWD, p, f, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: u32) -> c_int {
    fs::open(libc::AT_FDCWD, p, f | libc::O_LARGEFILE, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, f: c_int, m: u32) -> c_int {
    fs::open(d, p, f, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, f: c_int, m: u32) -> c_int {
    fs::open(d, p, f, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    fs::close(fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    fs::read(fd, b as *mut u8, n, -1) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    fs::read(fd, b as *mut u8, n, o) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    fs::read(fd, b as *mut u8, n, o) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    // a short read into the first non-empty buffer is a legal readv
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 {
            return fs::read(fd, x.iov_base as *mut u8, x.iov_len, -1) as ssize_t;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    fs::write(fd, b as *const u8, n, -1) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    fs::write(fd, b as *const u8, n, o) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    fs::write(fd, b as *const u8, n, o) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 {
            return fs::write(fd, x.iov_base as *const u8, x.iov_len, -1) as ssize_t;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, l: off64_t) -> c_int {
    fs::ftruncate(fd, l) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, l: off64_t) -> c_int {
    fs::ftruncate(fd, l) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    fs::fsync(fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fs::fsync(fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn msync(a: *mut c_void, l: size_t, f: c_int) -> c_int {
    fs::msync(a as usize, l, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: u32, b: *mut c_void) -> c_int {
    if let Some(e) = fs::stat_fault(d, p) {
        raw::set_errno(e);
        return -1;
    }
    raw::ret(raw::syscall6(libc::SYS_statx, d as i64, p as i64, f as i64, m as i64, b as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut c_void) -> c_int {
    if let Some(e) = fs::stat_fault(-1, p) {
        raw::set_errno(e);
        return -1;
    }
    raw::ret(raw::syscall3(libc::SYS_stat, p as i64, b as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut c_void) -> c_int {
    if let Some(e) = fs::stat_fault(-1, p) {
        raw::set_errno(e);
        return -1;
    }
    raw::ret(raw::syscall3(libc::SYS_lstat, p as i64, b as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut c_void) -> c_int {
    if let Some(e) = fs::stat_fault(fd, std::ptr::null()) {
        raw::set_errno(e);
        return -1;
    }
    raw::ret(raw::syscall3(libc::SYS_fstat, fd as i64, b as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, b: *mut c_void) -> c_int {
    fstat64(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    fs::unlink(p, libc::SYS_unlink, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    fs::unlink(p, libc::SYS_unlinkat, d, f) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    fs::unlink(p, libc::SYS_rmdir, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    fs::rename(a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    fs::mmap(a as usize, l, p, f, fd, o) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    fs::mmap(a as usize, l, p, f, fd, o) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, l: size_t) -> c_int {
    fs::munmap(a as usize, l) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(fi: c_int, oi: *mut i64, fo: c_int, oo: *mut i64, n: size_t, fl: u32) -> ssize_t {
    fs::copy(libc::SYS_copy_file_range, [fi as i64, oi as i64, fo as i64, oo as i64, n as i64, fl as i64], fi, fo, 4) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(fo: c_int, fi: c_int, o: *mut i64, n: size_t) -> ssize_t {
    fs::copy(libc::SYS_sendfile, [fo as i64, fi as i64, o as i64, n as i64, 0, 0], fi, fo, 3) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(fo: c_int, fi: c_int, o: *mut i64, n: size_t) -> ssize_t {
    sendfile64(fo, fi, o, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(fi: c_int, oi: *mut i64, fo: c_int, oo: *mut i64, n: size_t, fl: u32) -> ssize_t {
    fs::copy(libc::SYS_splice, [fi as i64, oi as i64, fo as i64, oo as i64, n as i64, fl as i64], fi, fo, 4) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, a: c_long) -> c_int {
    let r = raw::ret(raw::syscall3(libc::SYS_fcntl, fd as i64, cmd as i64, a));
    if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC {
        fs::dup_track(fd, r);
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, a: c_long) -> c_int {
    fcntl(fd, cmd, a)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    let r = raw::ret(raw::syscall3(libc::SYS_dup, fd as i64, 0, 0));
    fs::dup_track(fd, r);
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, x: *mut c_void) -> c_int {
    sched::pthread_create(t, a, f, x)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, o: *mut *mut c_void) -> c_int {
    sched::pthread_join(t, o)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::active() {
        sched::yield_now();
        return 0;
    }
    raw::ret(raw::syscall3(libc::SYS_sched_yield, 0, 0, 0)) as c_int
}
unsafe fn ns(t: *const libc::timespec) -> u64 {
    (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if sched::active() {
        sched::sleep_ns(ns(a));
        return 0;
    }
    raw::ret(raw::syscall3(libc::SYS_nanosleep, a as i64, b as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if sched::active() {
        let t = ns(a);
        let now = sched::sim().vtime;
        sched::sleep_ns(if f & 1 != 0 { t.saturating_sub(now) } else { t });
        return 0;
    }
    let r = raw::syscall6(libc::SYS_clock_nanosleep, c as i64, f as i64, a as i64, b as i64, 0, 0);
    -r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut libc::timespec) -> c_int {
    if sched::enabled() {
        let s = sched::sim();
        s.vtime += 100;
        (*t).tv_sec = (s.vtime / 1_000_000_000) as i64;
        (*t).tv_nsec = (s.vtime % 1_000_000_000) as i64;
        return 0;
    }
    raw::ret(raw::syscall3(libc::SYS_clock_gettime, c as i64, t as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, f: u32) -> ssize_t {
    if sched::enabled() {
        let s = sched::sim();
        let b = b as *mut u8;
        for i in 0..n {
            *b.add(i) = s.sys_rng.next() as u8;
        }
        return n as ssize_t;
    }
    raw::ret(raw::syscall3(libc::SYS_getrandom, b as i64, n as i64, f as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    match n {
        libc::SYS_futex if sched::active() => {
            let op = b & 0x7f;
            match op {
                0 => {
                    let dl = if d == 0 { u64::MAX } else { sched::sim().vtime + ns(d as *const _) };
                    return raw::ret(sched::futex_wait(a as usize, c as u32, dl));
                }
                9 => {
                    let dl = if d == 0 { u64::MAX } else { ns(d as *const _) };
                    return raw::ret(sched::futex_wait(a as usize, c as u32, dl));
                }
                1 | 10 => return raw::ret(sched::futex_wake(a as usize, c)),
                _ => {}
            }
        }
        libc::SYS_getrandom if sched::enabled() => return getrandom(a as *mut c_void, b as usize, c as u32) as c_long,
        libc::SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut c_void) as c_long,
        libc::SYS_copy_file_range => {
            return copy_file_range(a as c_int, b as *mut i64, c as c_int, d as *mut i64, e as usize, f as u32) as c_long
        }
        libc::SYS_clock_gettime if sched::enabled() => return clock_gettime(a as c_int, b as *mut libc::timespec) as c_long,
        _ => {}
    }
    raw::ret(raw::syscall6(n, a, b, c, d, e, f))
}
