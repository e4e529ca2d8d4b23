//! pthread mutexes, condition variables and semaphores: CPython's locks (Rust's std uses futexes).
//! The objects themselves are glibc's; blocking and waking are the simulator's.
use crate::interpose::{real, set_errno, ts_ns};
use crate::{on_sim, sim, wait_on, wake_on};
use libc::{c_int, c_void, timespec};

macro_rules! real_fn {
    ($get:ident, $name:literal, $t:ty) => {
        fn $get() -> $t {
            static mut P: Option<$t> = None;
            unsafe {
                if P.is_none() {
                    P = Some(real($name));
                }
                P.unwrap()
            }
        }
    };
}
type F1 = unsafe extern "C" fn(*mut c_void) -> c_int;
type F2 = unsafe extern "C" fn(*mut c_void, *mut c_void) -> c_int;
type F3 = unsafe extern "C" fn(*mut c_void, *mut c_void, *const timespec) -> c_int;
type FS = unsafe extern "C" fn(*mut c_void, *const timespec) -> c_int;
type FC = unsafe extern "C" fn(*mut c_void, c_int, *const timespec) -> c_int;
real_fn!(r_lock, b"pthread_mutex_lock\0", F1);
real_fn!(r_trylock, b"pthread_mutex_trylock\0", F1);
real_fn!(r_unlock, b"pthread_mutex_unlock\0", F1);
real_fn!(r_wait, b"pthread_cond_wait\0", F2);
real_fn!(r_timedwait, b"pthread_cond_timedwait\0", F3);
real_fn!(r_signal, b"pthread_cond_signal\0", F1);
real_fn!(r_broadcast, b"pthread_cond_broadcast\0", F1);
real_fn!(r_sem_wait, b"sem_wait\0", F1);
real_fn!(r_sem_trywait, b"sem_trywait\0", F1);
real_fn!(r_sem_post, b"sem_post\0", F1);
real_fn!(r_sem_timedwait, b"sem_timedwait\0", FS);
real_fn!(r_sem_clockwait, b"sem_clockwait\0", FC);

fn lock(m: *mut c_void) -> c_int {
    loop {
        let r = unsafe { r_trylock()(m) };
        if r != libc::EBUSY {
            return r;
        }
        wait_on(m as usize, u64::MAX);
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut c_void) -> c_int {
    if on_sim() {
        crate::point();
        return lock(m);
    }
    unsafe { r_lock()(m) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut c_void) -> c_int {
    let r = unsafe { r_unlock()(m) };
    if on_sim() {
        wake_on(m as usize, 1);
    }
    r
}
fn cond_wait(c: *mut c_void, m: *mut c_void, until: u64) -> c_int {
    unsafe { r_unlock()(m) };
    wake_on(m as usize, 1);
    let woken = wait_on(c as usize, until);
    lock(m);
    if woken { 0 } else { libc::ETIMEDOUT }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_cond_wait(c: *mut c_void, m: *mut c_void) -> c_int {
    if on_sim() {
        return cond_wait(c, m, u64::MAX);
    }
    unsafe { r_wait()(c, m) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_cond_timedwait(
    c: *mut c_void,
    m: *mut c_void,
    t: *const timespec,
) -> c_int {
    if on_sim() {
        // computing takes no simulated time: a thread waiting for one that computes may time out at any moment
        let s = sim();
        if s.cfg.timeouts > 0 && s.chance(s.cfg.timeouts) {
            crate::count_fault("lock_timeout");
            unsafe { r_unlock()(m) };
            wake_on(m as usize, 1);
            crate::sim_yield();
            lock(m);
            return libc::ETIMEDOUT;
        }
        return cond_wait(c, m, ts_ns(t));
    }
    unsafe { r_timedwait()(c, m, t) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_cond_signal(c: *mut c_void) -> c_int {
    if on_sim() {
        wake_on(c as usize, 1);
        return 0;
    }
    unsafe { r_signal()(c) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_cond_broadcast(c: *mut c_void) -> c_int {
    if on_sim() {
        wake_on(c as usize, usize::MAX);
        return 0;
    }
    unsafe { r_broadcast()(c) }
}

fn sem(m: *mut c_void, until: u64) -> c_int {
    loop {
        if unsafe { r_sem_trywait()(m) } == 0 {
            return 0;
        }
        if !wait_on(m as usize, until) {
            set_errno(libc::ETIMEDOUT);
            return -1;
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sem_wait(m: *mut c_void) -> c_int {
    if on_sim() {
        crate::point();
        return sem(m, u64::MAX);
    }
    unsafe { r_sem_wait()(m) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sem_timedwait(m: *mut c_void, t: *const timespec) -> c_int {
    if on_sim() {
        return sem(m, ts_ns(t));
    }
    unsafe { r_sem_timedwait()(m, t) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sem_clockwait(m: *mut c_void, c: c_int, t: *const timespec) -> c_int {
    if on_sim() {
        return sem(m, ts_ns(t));
    }
    unsafe { r_sem_clockwait()(m, c, t) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sem_post(m: *mut c_void) -> c_int {
    let r = unsafe { r_sem_post()(m) };
    if on_sim() {
        wake_on(m as usize, 1);
        crate::point();
    }
    r
}
