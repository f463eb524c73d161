//! Raw system calls: what the simulator itself uses, underneath the interposed libc symbols.
use std::arch::asm;

#[inline]
pub unsafe fn sc6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}
#[inline]
pub unsafe fn sc3(n: i64, a: usize, b: usize, c: usize) -> isize {
    sc6(n, a, b, c, 0, 0, 0)
}
/// Turns a kernel result into a libc one, setting errno.
#[inline]
pub unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sc6(libc::SYS_futex, addr as usize, 128, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32, n: u32) {
    sc6(libc::SYS_futex, addr as usize, 128 | 1, n as usize, 0, 0, 0);
}
pub unsafe fn exit_group(code: i32) -> ! {
    sc3(libc::SYS_exit_group, code as usize, 0, 0);
    loop {}
}
/// Real monotonic time in nanoseconds.
pub fn real_now_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { sc3(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
