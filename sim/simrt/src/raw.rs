//! Raw system calls: simrt itself never goes through the interposed libc entry points.
use std::arch::asm;

#[inline]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

/// libc convention: -1 and errno
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r >= -4095 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sys6(libc::SYS_futex, addr as i64, 128, val as i64, 0, 0, 0);
}

pub unsafe fn futex_wake(addr: *const u32, n: i32) {
    sys6(libc::SYS_futex, addr as i64, 129, n as i64, 0, 0, 0);
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        sys6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}
