//! A wall clock the workload moves. The code under test reads the time through
//! clock_gettime(CLOCK_REALTIME) in its own update loop; this binary defines
//! that function, and the loop's sleep, so the real loop runs on a clock that
//! stands still until the workload sets it. Monotonic clocks are not touched.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::time::Duration;

const OFF: i64 = std::i64::MIN;
static VIRT: AtomicI64 = AtomicI64::new(OFF);

thread_local! {
    static UPDATER: Cell<bool> = Cell::new(false);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    let v = VIRT.load(Ordering::SeqCst);
    if v != OFF && (id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE) {
        (*tp).tv_sec = v;
        (*tp).tv_nsec = 0;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, tp) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if UPDATER.try_with(|u| u.get()).unwrap_or(false) {
        let short = libc::timespec { tv_sec: 0, tv_nsec: 50_000 };
        libc::syscall(libc::SYS_nanosleep, &short as *const _, 0 as *mut libc::timespec);
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as libc::c_int
}

static SLOW: AtomicBool = AtomicBool::new(false);
static STUCK: AtomicBool = AtomicBool::new(false);

/// Sets the clock, and returns once the code under test sees the new time.
pub fn set(t: i64) {
    VIRT.store(t, Ordering::SeqCst);
    static ON: AtomicBool = AtomicBool::new(false);
    if !ON.swap(true, Ordering::SeqCst) {
        std::thread::spawn(|| {
            UPDATER.with(|u| u.set(true));
            cernan::time::update_time();
        });
    }
    let began = std::time::Instant::now();
    let limit = Duration::from_secs(if STUCK.load(Ordering::SeqCst) { 2 } else { 60 });
    let mut n = 0;
    while began.elapsed() < limit {
        if cernan::time::now() == t {
            // Where the loop under test waits by other means than sleep, it is
            // as slow as in earnest, and the clock is moved less.
            if began.elapsed() > Duration::from_millis(200) {
                SLOW.store(true, Ordering::SeqCst);
            }
            return;
        }
        n += 1;
        std::thread::sleep(Duration::from_micros(if n < 100 { 20 } else { 1000 }));
    }
    STUCK.store(true, Ordering::SeqCst);
    panic!("the system's clock is at {} and the time cernan sees stays at {}", t, cernan::time::now());
}

/// Whether to move the clock now.
pub fn may(r: &mut crate::h::Rng) -> bool {
    !SLOW.load(Ordering::SeqCst) || r.chance(2)
}

/// A new time: usually a little later, at times far off or set back.
pub fn tick(r: &mut crate::h::Rng) -> i64 {
    let now = cernan::time::now();
    if !may(r) {
        return now;
    }
    let t = match r.below(12) {
        0 => now,
        1..=4 => now + r.range(1, 3),
        5..=7 => now + r.range(1, 100),
        8 => now - r.range(1, 3),
        9 => now - r.range(1, 5000),
        10 => now + r.range(1, 100_000),
        _ => r.range(1_000_000_000, 4_000_000_000),
    };
    let t = if t < 1_000_000_000 || t > 8_000_000_000 { 1_500_000_000 } else { t };
    set(t);
    t
}
