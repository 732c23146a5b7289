//! Operating system threads the system under test starts. Only one thread runs
//! at a time; the simulator decides which. A thread gives up its turn where it
//! blocks (futex, join, sleep), yields, or ends.
use crate::interpose::{harness, raw, stuck};
use std::cell::Cell;
use std::sync::{Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Ready,
    /// waits for a futex, perhaps only until some simulated time
    Futex(i64, Option<u64>),
    Sleep(u64),
    Join(usize),
    Done,
    /// belongs to a process which no longer exists
    Dead,
}

struct Sched {
    turn: usize,
    /// 0 is the simulation's own thread
    t: Vec<(St, u64)>,
    rng: u64,
    started: u64,
}

static SCHED: Mutex<Sched> = Mutex::new(Sched {
    turn: 0,
    t: vec![],
    rng: 1,
    started: 0,
});
static CV: Condvar = Condvar::new();

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
}

fn me() -> usize {
    ME.with(|m| m.get())
}

fn lock() -> MutexGuard<'static, Sched> {
    SCHED.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn reset(seed: u64) {
    kill_all();
    let mut s = lock();
    s.rng = seed | 1;
    s.started = 0;
}

pub fn started() -> u64 {
    lock().started
}

/// The process is gone, and its threads with it.
pub fn kill_all() {
    let mut s = lock();
    for t in s.t.iter_mut().skip(1) {
        t.0 = St::Dead;
    }
}

fn refresh(s: &mut Sched) {
    let now = tokio::__sim::now_nanos();
    for t in s.t.iter_mut() {
        match t.0 {
            St::Sleep(u) if u <= now => t.0 = St::Ready,
            _ => {}
        }
    }
}

/// Threads which can run now
pub fn ready() -> Vec<usize> {
    let mut s = lock();
    if s.t.len() < 2 {
        return vec![];
    }
    refresh(&mut s);
    let now = tokio::__sim::now_nanos();
    (1..s.t.len())
        .filter(|i| match s.t[*i].0 {
            St::Ready => true,
            St::Futex(_, Some(u)) => u <= now,
            _ => false,
        })
        .collect()
}

/// Nanoseconds until a thread wants to go on
pub fn next_timer() -> Option<u64> {
    let s = lock();
    let now = tokio::__sim::now_nanos();
    s.t.iter()
        .filter_map(|t| match t.0 {
            St::Sleep(u) | St::Futex(_, Some(u)) if u > now => Some(u - now),
            _ => None,
        })
        .min()
}

/// Lets a thread run until it gives up its turn.
pub fn run(n: usize) {
    hand_over(lock(), n)
}

fn hand_over(mut s: MutexGuard<'static, Sched>, n: usize) {
    let me = me();
    s.turn = n;
    CV.notify_all();
    while s.turn != me || s.t[me].0 == St::Dead {
        s = CV.wait(s).unwrap_or_else(|e| e.into_inner());
    }
}

fn pick(s: &mut Sched) -> Option<usize> {
    refresh(s);
    let me = me();
    let r: Vec<usize> = (1..s.t.len()).filter(|i| *i != me && s.t[*i].0 == St::Ready).collect();
    if r.is_empty() {
        return None;
    }
    s.rng = s.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    Some(r[(s.rng >> 33) as usize % r.len()])
}

/// Blocks until somebody makes this thread ready. False: the time is up.
fn block(st: St, timed: bool) -> bool {
    let me = me();
    let mut s = lock();
    s.t[me].0 = st;
    if me != 0 {
        hand_over(s, 0);
        let mut s = lock();
        let woken = s.t[me].0 == St::Ready;
        s.t[me].0 = St::Ready;
        return woken;
    }
    loop {
        if s.t[0].0 == St::Ready {
            return true;
        }
        match pick(&mut s) {
            Some(n) => {
                hand_over(s, n);
                s = lock();
            }
            None if timed => {
                s.t[0].0 = St::Ready;
                return false;
            }
            None => {
                // Time passes until a sleeping thread goes on
                drop(s);
                match next_timer() {
                    Some(d) => tokio::__sim::advance(d),
                    None => stuck("blocked on a lock or a thread which nobody releases"),
                }
                s = lock();
                let now = tokio::__sim::now_nanos();
                let due: Vec<usize> = (1..s.t.len()).filter(|i| matches!(s.t[*i].0, St::Futex(_, Some(u)) if u <= now)).collect();
                if let Some(n) = due.first() {
                    hand_over(s, *n);
                    s = lock();
                }
            }
        }
    }
}

/// `None`: there are no threads, the caller knows what to do.
pub fn futex_wait(addr: i64, timed: bool) -> Option<bool> {
    if lock().t.len() < 2 {
        return None;
    }
    let until = timed.then(|| tokio::__sim::now_nanos() + 1_000_000);
    let woken = block(St::Futex(addr, until), timed);
    if !woken && me() == 0 {
        tokio::__sim::advance(1_000_000);
    }
    Some(woken)
}

pub fn futex_wake(addr: i64, n: i64) -> Option<i64> {
    let mut s = lock();
    if s.t.len() < 2 {
        return None;
    }
    let mut k = 0;
    for t in s.t.iter_mut() {
        if k < n && matches!(t.0, St::Futex(a, _) if a == addr) {
            t.0 = St::Ready;
            k += 1;
        }
    }
    Some(k)
}

/// True if this is a thread of the system under test, which now has slept
pub fn sleep(nanos: u64) -> bool {
    if me() == 0 {
        return false;
    }
    block(St::Sleep(tokio::__sim::now_nanos() + nanos), false);
    true
}

type Start = extern "C" fn(*mut u8) -> *mut u8;
type Create = unsafe extern "C" fn(*mut u64, *const u8, Start, *mut u8) -> i32;
type Join = unsafe extern "C" fn(u64, *mut *mut u8) -> i32;

extern "C" {
    fn dlsym(handle: *mut u8, name: *const u8) -> *mut u8;
}
unsafe fn next(name: &[u8]) -> *mut u8 {
    let p = dlsym(-1i64 as *mut u8, name.as_ptr());
    if p.is_null() {
        let _ = raw(1, 2, b"harness error: dlsym\n".as_ptr() as i64, 21, 0, 0, 0);
        raw(231, 3, 0, 0, 0, 0, 0);
    }
    p
}

struct Boot {
    start: Start,
    arg: *mut u8,
    me: usize,
    random: u64,
}

extern "C" fn boot(b: *mut u8) -> *mut u8 {
    let b = unsafe { Box::from_raw(b as *mut Boot) };
    ME.with(|m| m.set(b.me));
    {
        let mut s = lock();
        while s.turn != b.me || s.t[b.me].0 == St::Dead {
            s = CV.wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }
    crate::interpose::adopt_sut_thread(b.random, true);
    let r = (b.start)(b.arg);
    crate::interpose::adopt_sut_thread(b.random, false);
    let mut s = lock();
    s.t[b.me].0 = St::Done;
    for t in s.t.iter_mut() {
        if t.0 == St::Join(b.me) {
            t.0 = St::Ready;
        }
    }
    s.turn = 0;
    CV.notify_all();
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(id: *mut u64, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    let real: Create = std::mem::transmute(next(b"pthread_create\0"));
    if !crate::interpose::sut_running() {
        return real(id, attr, start, arg);
    }
    harness(|| {
        let random = crate::interpose::fork_random();
        let mut s = lock();
        if s.t.is_empty() {
            s.t.push((St::Ready, 0));
        }
        let n = s.t.len();
        s.started += 1;
        let b = Box::into_raw(Box::new(Boot {
            start,
            arg,
            me: n,
            random,
        }));
        let r = real(id, attr, boot, b as *mut u8);
        if r == 0 {
            s.t.push((St::Ready, *id));
        } else {
            drop(Box::from_raw(b));
        }
        r
    })
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(id: u64, ret: *mut *mut u8) -> i32 {
    let real: Join = std::mem::transmute(next(b"pthread_join\0"));
    if crate::interpose::sut_running() {
        harness(|| {
            let s = lock();
            if let Some(n) = s.t.iter().rposition(|t| t.1 == id && t.0 != St::Done && t.0 != St::Dead) {
                drop(s);
                block(St::Join(n), false);
            }
        });
    }
    real(id, ret)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if crate::interpose::sut_running() {
        harness(|| {
            let mut s = lock();
            if s.t.len() < 2 {
                return;
            }
            if me() != 0 {
                hand_over(s, 0);
            } else if let Some(n) = pick(&mut s) {
                hand_over(s, n);
            }
        });
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0);
    0
}
