//! Schedule perturbation: the futex wake-ups of this process (a lock released to a waiter, a
//! thread unparked, a channel message announced) are now and then followed by a pause, so that the
//! woken thread gets ahead of the one that woke it.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

/// percentage of the wake-ups followed by a pause; 0: none
static RATE: AtomicU64 = AtomicU64::new(0);
static STATE: AtomicU64 = AtomicU64::new(1);
static PAUSES: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

/// pauses while it lives
pub struct Delays(());

impl Delays {
    pub fn start(rate: u64, seed: u64) -> Delays {
        STATE.store(seed | 1, Ordering::Relaxed);
        PAUSES.store(0, Ordering::Relaxed);
        RATE.store(rate, Ordering::Relaxed);
        Delays(())
    }
    pub fn pauses(&self) -> u64 {
        PAUSES.load(Ordering::Relaxed)
    }
}

impl Drop for Delays {
    fn drop(&mut self) {
        RATE.store(0, Ordering::Relaxed);
    }
}

#[cfg(ced_delays)]
mod hook {
    use super::*;

    #[cfg(all(target_arch = "x86_64", target_os = "linux"))]
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        let r: i64;
        core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
        let rate = RATE.load(Ordering::Relaxed);
        // FUTEX_WAKE
        if rate > 0 && n == libc::SYS_futex && b & 127 == 1 && r > 0 && !INSIDE.with(|i| i.replace(true)) {
            let mut x = STATE.fetch_add(0x9e37_79b9_7f4a_7c15, Ordering::Relaxed);
            x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            x ^= x >> 27;
            if x % 100 < rate {
                PAUSES.fetch_add(1, Ordering::Relaxed);
                let t = libc::timespec { tv_sec: 0, tv_nsec: 20_000 + ((x >> 20) % 1_500_000) as i64 };
                libc::nanosleep(&t, std::ptr::null_mut());
            }
            INSIDE.with(|i| i.set(false));
        }
        if r < 0 && r > -4096 {
            *libc::__errno_location() = -r as i32;
            -1
        } else {
            r
        }
    }
}
