//! Libc entry points the library under test uses, interposed in this binary:
//! a virtual monotonic clock, gates, delays and faults.
use std::{
    cell::Cell,
    sync::{
        atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst},
        Condvar, Mutex,
    },
    time::Duration,
};

thread_local! {
    /// Threads of the harness; every other thread belongs to the library.
    pub static WORKER: Cell<bool> = const { Cell::new(false) };
    pub static NAME: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    /// The thread sees the shifted clock (library threads always do).
    pub static VIRT: Cell<bool> = const { Cell::new(true) };
}

pub static OFFSET_NS: AtomicI64 = AtomicI64::new(0);

pub fn harness_thread() {
    WORKER.with(|w| w.set(true));
    VIRT.with(|v| v.set(false));
}

pub fn with_virtual_clock<T>(f: impl FnOnce() -> T) -> T {
    VIRT.with(|v| v.set(true));
    let r = f();
    VIRT.with(|v| v.set(false));
    r
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    let r = libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as i32;
    if r == 0 && clk == libc::CLOCK_MONOTONIC && VIRT.with(|v| v.get()) {
        let off = OFFSET_NS.load(SeqCst);
        if off != 0 {
            let t = (*ts).tv_nsec + off;
            (*ts).tv_sec += t.div_euclid(1_000_000_000);
            (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
        }
    }
    r
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    Sendmsg = 0,
    Recvmsg = 1,
    Accept = 2,
    EpollWait = 3,
    Connect = 4,
    Bind = 5,
    Listen = 6,
    Socketpair = 7,
    Wake = 8,
    Unwake = 9,
}
pub const CALLS: [&str; 10] = [
    "sendmsg",
    "recvmsg",
    "accept",
    "epoll_wait",
    "connect",
    "bind",
    "listen",
    "socketpair",
    "wake",
    "unwake",
];

#[derive(Clone, Debug)]
pub struct Fault {
    pub call: Option<usize>,
    /// 0: threads of the library, 1: threads of the harness, 2: both
    pub who: u8,
    /// fires at this occurrence (counted from 1 after arming)
    pub nth: u64,
    pub seen: u64,
    /// before or after the call
    pub after: bool,
    pub action: Action,
    pub repeat: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Action {
    Kill,
    Errno(i32),
    Delay(u64),
    Gate,
}

pub static ARMED: AtomicBool = AtomicBool::new(false);
pub static FAULTS: Mutex<Vec<Fault>> = Mutex::new(Vec::new());
pub static COUNTS: [AtomicU64; 32] = [const { AtomicU64::new(0) }; 32];
/// (open, threads waiting)
pub static GATE: Mutex<(bool, u64)> = Mutex::new((true, 0));
pub static GATE_CV: Condvar = Condvar::new();

/// Stepping: calls of harness threads that need a permit each
pub struct Step {
    pub calls: u32,
    pub permits: u64,
    pub at: Option<usize>,
}
pub static STEP: Mutex<Step> = Mutex::new(Step { calls: 0, permits: 0, at: None });
pub static STEP_CV: Condvar = Condvar::new();
pub static STEPPING: AtomicBool = AtomicBool::new(false);

/// Stepping of single threads by name
#[derive(Default)]
pub struct ThreadStep {
    pub calls: u32,
    pub permits: u64,
    pub at: Option<usize>,
}
pub static TSTEP: Mutex<Option<std::collections::HashMap<String, ThreadStep>>> = Mutex::new(None);
pub static TSTEPPING: AtomicBool = AtomicBool::new(false);

/// Bits 16..: after the call; threads of the library are called "lib"
fn tstep(call: Call, after: bool, worker: bool) {
    let bit = 1u32 << (call as u32 + if after { 16 } else { 0 });
    NAME.with(|n| {
        let n = if worker { n.borrow().clone() } else { String::from("lib") };
        let mut g = TSTEP.lock().unwrap();
        loop {
            let Some(t) = g.as_mut().and_then(|m| m.get_mut(n.as_str())) else { return };
            if t.calls & bit == 0 || t.permits > 0 {
                t.permits = t.permits.saturating_sub(1);
                t.at = None;
                return;
            }
            if t.at.is_none() {
                t.at = Some(call as usize);
                STEP_CV2.notify_all();
            }
            g = STEP_CV2.wait(g).unwrap();
        }
    })
}
pub static STEP_CV2: Condvar = Condvar::new();

fn step(call: Call) {
    let mut g = STEP.lock().unwrap();
    if g.calls & (1 << call as u32) == 0 {
        return;
    }
    g.at = Some(call as usize);
    STEP_CV.notify_all();
    while g.permits == 0 && g.calls & (1 << call as u32) != 0 {
        g = STEP_CV.wait(g).unwrap();
    }
    g.permits = g.permits.saturating_sub(1);
    g.at = None;
}

/// Sleeps are divided by this
pub static SLEEP_DIV: AtomicU64 = AtomicU64::new(1);

unsafe fn shorter(ts: *const libc::timespec) -> libc::timespec {
    let d = SLEEP_DIV.load(SeqCst);
    let n = ((*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64) / d;
    libc::timespec { tv_sec: (n / 1_000_000_000) as _, tv_nsec: (n % 1_000_000_000) as _ }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    let t = shorter(ts);
    libc::syscall(libc::SYS_nanosleep, &t, rem) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: i32,
    ts: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    let t = if flags == 0 { shorter(ts) } else { *ts };
    let r = libc::syscall(libc::SYS_clock_nanosleep, clk as libc::c_long, flags as libc::c_long, &t, rem);
    if r == -1 {
        *libc::__errno_location()
    } else {
        0
    }
}

fn hit(call: Call, after: bool) -> Option<i32> {
    let worker = WORKER.with(|w| w.get());
    if !after && worker && STEPPING.load(SeqCst) {
        step(call);
    }
    if TSTEPPING.load(SeqCst) {
        tstep(call, after, worker);
    }
    if !after {
        COUNTS[call as usize + if worker { 16 } else { 0 }].fetch_add(1, SeqCst);
    }
    if !ARMED.load(SeqCst) {
        return None;
    }
    let mut todo = vec![];
    {
        let mut faults = FAULTS.lock().unwrap();
        for f in faults.iter_mut() {
            if f.after == after
                && f.call.map_or(true, |c| c == call as usize)
                && (f.who == 2 || (f.who == 1) == worker)
            {
                f.seen += 1;
                if f.seen == f.nth || (f.repeat && f.seen >= f.nth) {
                    todo.push(f.action.clone());
                }
            }
        }
    }
    let mut r = None;
    for a in todo {
        match a {
            Action::Kill => unsafe {
                libc::kill(libc::getpid(), libc::SIGKILL);
                loop {
                    libc::pause();
                }
            },
            Action::Errno(e) => r = Some(e),
            Action::Delay(us) => std::thread::sleep(Duration::from_micros(us)),
            Action::Gate => {
                let mut g = GATE.lock().unwrap();
                g.1 += 1;
                while !g.0 {
                    g = GATE_CV.wait(g).unwrap();
                }
                g.1 -= 1;
            }
        }
    }
    r
}

macro_rules! interpose {
    ($name:ident, $call:expr, $nr:expr, $ret:ty, ($($a:ident : $t:ty),*)) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $ret {
            if let Some(e) = hit($call, false) {
                *libc::__errno_location() = e;
                return -1;
            }
            let r = libc::syscall($nr, $($a),*) as $ret;
            let saved = *libc::__errno_location();
            hit($call, true);
            *libc::__errno_location() = saved;
            r
        }
    };
}

/// Bytes of the last message sent
pub static LAST_FRAME: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: i32, msg: *const libc::msghdr, flags: i32) -> isize {
    if let Some(e) = hit(Call::Sendmsg, false) {
        *libc::__errno_location() = e;
        return -1;
    }
    let r = libc::syscall(libc::SYS_sendmsg, fd, msg, flags) as isize;
    let saved = *libc::__errno_location();
    if r >= 0 {
        LAST_FRAME.store(r as u64, SeqCst);
    }
    hit(Call::Sendmsg, true);
    *libc::__errno_location() = saved;
    r
}
interpose!(recvmsg, Call::Recvmsg, libc::SYS_recvmsg, isize,
    (fd: i32, msg: *mut libc::msghdr, flags: i32));
interpose!(accept4, Call::Accept, libc::SYS_accept4, i32,
    (fd: i32, addr: *mut libc::sockaddr, len: *mut libc::socklen_t, flags: i32));
/// Waits of an hour or more are over at once, and the time has passed
pub static WARP: AtomicBool = AtomicBool::new(false);

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(fd: i32, ev: *mut libc::epoll_event, n: i32, timeout: i32) -> i32 {
    if let Some(e) = hit(Call::EpollWait, false) {
        *libc::__errno_location() = e;
        return -1;
    }
    let warp = timeout >= 3_600_000 && WARP.load(SeqCst);
    let r = libc::syscall(libc::SYS_epoll_wait, fd, ev, n, if warp { 5 } else { timeout }) as i32;
    if warp && r == 0 {
        OFFSET_NS.fetch_add(timeout as i64 * 1_000_000, SeqCst);
    }
    let saved = *libc::__errno_location();
    hit(Call::EpollWait, true);
    *libc::__errno_location() = saved;
    r
}
interpose!(connect, Call::Connect, libc::SYS_connect, i32,
    (fd: i32, addr: *const libc::sockaddr, len: libc::socklen_t));
interpose!(bind, Call::Bind, libc::SYS_bind, i32,
    (fd: i32, addr: *const libc::sockaddr, len: libc::socklen_t));
interpose!(listen, Call::Listen, libc::SYS_listen, i32, (fd: i32, n: i32));
interpose!(socketpair, Call::Socketpair, libc::SYS_socketpair, i32,
    (d: i32, t: i32, p: i32, sv: *mut i32));

/// Eventfds are written and read eight bytes at a time, and nothing else here is
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    if n == 8 {
        hit(Call::Wake, false);
    }
    let r = libc::syscall(libc::SYS_write, fd, buf, n) as isize;
    if n == 8 {
        let saved = *libc::__errno_location();
        hit(Call::Wake, true);
        *libc::__errno_location() = saved;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, n: usize) -> isize {
    if n == 8 {
        hit(Call::Unwake, false);
    }
    let r = libc::syscall(libc::SYS_read, fd, buf, n) as isize;
    if n == 8 {
        let saved = *libc::__errno_location();
        hit(Call::Unwake, true);
        *libc::__errno_location() = saved;
    }
    r
}
