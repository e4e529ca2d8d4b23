//! Raw system calls: what the simulator itself uses, below the interposed libc.
use core::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe {
        asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
             in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
#[inline(always)]
pub unsafe fn sc3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    unsafe { sc6(n, a, b, c, 0, 0, 0) }
}
pub fn exit_group(code: i32) -> ! {
    loop {
        unsafe {
            sc3(libc::SYS_exit_group, code as i64, 0, 0);
        }
    }
}
/// Write everything to a real descriptor.
pub fn write_all(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let r = unsafe {
            sc3(
                libc::SYS_write,
                fd as i64,
                b.as_ptr() as i64,
                b.len() as i64,
            )
        };
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return false;
        }
        b = &b[r as usize..];
    }
    true
}
pub fn futex_wait(p: *const u32, v: u32) {
    unsafe {
        sc6(libc::SYS_futex, p as i64, 128, v as i64, 0, 0, 0);
    }
}
pub fn futex_wake(p: *const u32) {
    unsafe {
        sc6(libc::SYS_futex, p as i64, 129, 1, 0, 0, 0);
    }
}
