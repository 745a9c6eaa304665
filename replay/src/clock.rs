//! Virtual wall clock: `clock_gettime` of this executable is this function, so that
//! `SystemTime::now()` inside the crates under test reads `NOW`. The monotonic clock stays real.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static NOW: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    let now = NOW.load(SeqCst);
    if id == libc::CLOCK_REALTIME && now != 0 {
        (*tp).tv_sec = (now / 1000) as _;
        (*tp).tv_nsec = (now % 1000 * 1_000_000) as _;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, tp) as _
}

/// 0: real time
pub fn set(now: u64) {
    NOW.store(now, SeqCst);
}

pub fn get() -> u64 {
    NOW.load(SeqCst)
}

/// the clock the code under test sees is the virtual one
pub fn works() -> bool {
    let old = get();
    set(1_234_567_890_123);
    let ok = common::now_timestamp_ms() == 1_234_567_890_123;
    set(old);
    ok
}
