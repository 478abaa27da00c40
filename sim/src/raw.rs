//! Raw Linux system calls (x86_64), bypassing the functions this program redefines.
use std::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

/// As libc: -1 and errno on failure.
pub unsafe fn libc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = sc6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 { set_errno(-r as i32); -1 } else { r }
}

pub unsafe fn set_errno(e: i32) { *libc::__errno_location() = e; }

pub fn futex_wait(w: &std::sync::atomic::AtomicU32, val: u32) {
    unsafe { sc6(libc::SYS_futex, w as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0); }
}
pub fn futex_wake(w: &std::sync::atomic::AtomicU32) {
    unsafe { sc6(libc::SYS_futex, w as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0); }
}
pub fn exit_group(code: i32) -> ! {
    unsafe { sc6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0); }
    loop {}
}
/// Real monotonic time, for budgets of the driver only (never inside a run).
pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { sc6(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as i64, 0, 0, 0, 0); }
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}
