//! Process-level sources of nondeterminism, replaced while a run executes: the operating system's
//! randomness (which seeds every `HashMap`), its clocks and the host name. A definition in the executable takes
//! precedence over libc's. Outside a run the clocks are real; randomness never is.
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static NOW_US: Cell<u64> = const { Cell::new(0) };
    static STATE: Cell<u64> = const { Cell::new(0) };
    static HOST: std::cell::RefCell<Option<Vec<u8>>> = const { std::cell::RefCell::new(None) };
    static CLOCK_READS: Cell<u64> = const { Cell::new(0) };
    static RANDOM_READS: Cell<u64> = const { Cell::new(0) };
}

/// 2025-01-01T00:00:00Z, the start of simulated time.
const EPOCH_S: u64 = 1_735_689_600;

pub fn enter(seed: u64) {
    STATE.with(|s| s.set(seed ^ 0x5EA3_5EA3_5EA3_5EA3));
    NOW_US.with(|n| n.set(0));
    ON.with(|o| o.set(true));
}
pub fn set_now(us: u64) {
    NOW_US.with(|n| n.set(us));
}
/// Clock reads and random reads of the finished run.
pub fn leave() -> (u64, u64) {
    ON.with(|o| o.set(false));
    (CLOCK_READS.with(|c| c.replace(0)), RANDOM_READS.with(|c| c.replace(0)))
}
/// What the operating system answers when asked for the host name.
pub fn set_host(h: &Option<Vec<u8>>) {
    HOST.with(|x| *x.borrow_mut() = h.clone());
}
fn on() -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let _ = flags;
    RANDOM_READS.with(|c| c.set(c.get() + 1));
    let mut x = STATE.with(|s| s.get());
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for c in out.chunks_mut(8) {
        let v = crate::rng::splitmix(&mut x).to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    STATE.with(|s| s.set(x));
    len as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if !on() {
        return libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int;
    }
    CLOCK_READS.with(|c| c.set(c.get() + 1));
    let us = NOW_US.with(|n| n.get());
    let base = match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => EPOCH_S,
        _ => 1000,
    };
    (*ts).tv_sec = (base + us / 1_000_000) as libc::time_t;
    (*ts).tv_nsec = ((us % 1_000_000) * 1000) as libc::c_long;
    0
}

#[no_mangle]
pub unsafe extern "C" fn gethostname(buf: *mut libc::c_char, len: libc::size_t) -> libc::c_int {
    let h = HOST.with(|x| x.borrow().clone());
    let e = match h {
        None => libc::EPERM,
        Some(h) if h.len() >= len => libc::ENAMETOOLONG,
        Some(h) => {
            std::ptr::copy_nonoverlapping(h.as_ptr() as *const libc::c_char, buf, h.len());
            *buf.add(h.len()) = 0;
            return 0;
        }
    };
    *libc::__errno_location() = e;
    -1
}
