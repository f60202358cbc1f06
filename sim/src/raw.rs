//! Raw system calls, bypassing the interposed C library symbols.
#![allow(dead_code)]
use std::arch::asm;

#[inline(always)]
pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}
pub unsafe fn syscall3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    syscall6(n, a, b, c, 0, 0, 0)
}
pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
/// Convert a raw kernel return value to the C convention.
#[inline]
pub fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { syscall3(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64) };
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}
pub fn exit_group(code: i32) -> ! {
    unsafe {
        syscall3(libc::SYS_exit_group, code as i64, 0, 0);
    }
    loop {}
}
pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        syscall3(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as i64, 0);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}
pub fn real_usleep(us: u64) {
    let ts = libc::timespec { tv_sec: (us / 1_000_000) as i64, tv_nsec: ((us % 1_000_000) * 1000) as i64 };
    unsafe {
        syscall3(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0);
    }
}
