//! libc calls of the system under test which would reach the machine. On a
//! simulation thread they are answered by the simulator; on every other thread
//! they are passed on to the kernel unchanged.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::mpsc::Sender;
use std::sync::Mutex;

thread_local! {
    /// PRNG state of `getrandom` on this thread; 0: not a simulation thread
    static RANDOM: Cell<u64> = const { Cell::new(0) };
    /// Is code of the system under test on the stack?
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static STUCK: RefCell<Option<Sender<&'static str>>> = const { RefCell::new(None) };
}
static FS: Mutex<SimFs> = Mutex::new(SimFs::new());

pub const FS_ROOT: &str = "/simfs/";

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Node {
    File,
    Dir,
    /// the call fails with EACCES
    Denied,
    /// the call fails with EIO
    IoError,
}

pub struct SimFs {
    pub nodes: BTreeMap<String, Node>,
    pub lookups: u64,
    pub faults: u64,
}
impl SimFs {
    const fn new() -> Self {
        SimFs {
            nodes: BTreeMap::new(),
            lookups: 0,
            faults: 0,
        }
    }
}

pub fn with_fs<T>(f: impl FnOnce(&mut SimFs) -> T) -> T {
    f(&mut FS.lock().unwrap_or_else(|e| e.into_inner()))
}

/// Turn this thread into a simulation thread.
pub fn adopt_thread(random_seed: u64, stuck: Sender<&'static str>) {
    RANDOM.with(|r| r.set(random_seed | 1));
    STUCK.with(|s| *s.borrow_mut() = Some(stuck));
}

pub fn in_sut<T>(f: impl FnOnce() -> T) -> T {
    let prev = IN_SUT.with(|c| c.replace(true));
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            IN_SUT.with(|c| c.set(self.0));
        }
    }
    let _r = Reset(prev);
    f()
}

/// Code of the simulator, called from within the system under test
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    let prev = IN_SUT.with(|c| c.replace(false));
    let r = f();
    IN_SUT.with(|c| c.set(prev));
    r
}

/// This thread belongs to the system under test (or no longer does).
pub fn adopt_sut_thread(random: u64, running: bool) {
    RANDOM.with(|r| r.set(random | 1));
    IN_SUT.with(|c| c.set(running));
}

/// A seed for the random numbers of a new thread
pub fn fork_random() -> u64 {
    RANDOM.with(|r| {
        let s = r.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
        r.set(s);
        s ^ 0x9e3779b97f4a7c15
    })
}

fn on_sim_thread() -> bool {
    RANDOM.try_with(|r| r.get() != 0).unwrap_or(false)
}
pub fn sut_running() -> bool {
    IN_SUT.try_with(|r| r.get()).unwrap_or(false)
}

/// The one thread of the simulated process blocked: nothing can ever wake it.
pub fn stuck(why: &'static str) -> ! {
    IN_SUT.with(|c| c.set(false));
    let tx = STUCK.with(|s| s.borrow().clone());
    if let Some(tx) = tx {
        let _ = tx.send(why);
    }
    loop {
        unsafe { raw(34, 0, 0, 0, 0, 0, 0) }; // pause
    }
}

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn libc_ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

const SYS_FUTEX: i64 = 202;
const ENOENT: i32 = 2;
const EIO: i32 = 5;
const EACCES: i32 = 13;
const ENOTDIR: i32 = 20;

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && sut_running() {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            // FUTEX_WAIT: only a genuine wait blocks
            let word = (a as *const u32).read_volatile();
            if word != c as u32 {
                *__errno_location() = 11;
                return -1;
            }
            if let Some(woken) = harness(|| crate::threads::futex_wait(a, d != 0)) {
                if woken {
                    return 0;
                }
                *__errno_location() = 110; // ETIMEDOUT
                return -1;
            } else if d == 0 {
                stuck("blocked on a lock which the same thread holds");
            }
            tokio::__sim::advance(1_000_000);
            *__errno_location() = 110; // ETIMEDOUT
            return -1;
        }
        if op == 1 || op == 10 {
            // FUTEX_WAKE
            if let Some(n) = harness(|| crate::threads::futex_wake(a, c)) {
                return n;
            }
        }
    }
    if n == 318 && on_sim_thread() {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    libc_ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if on_sim_thread() {
        let mut s = RANDOM.with(|r| r.get());
        for i in 0..len {
            s = s
                .wrapping_mul(6364136223846793005)
                .wrapping_add(1442695040888963407)
                | 1;
            *buf.add(i) = (s >> 33) as u8;
        }
        RANDOM.with(|r| r.set(s));
        return len as isize;
    }
    libc_ret(raw(318, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    if sut_running() && (clock == 0 || clock == 1 || (4..=7).contains(&clock)) {
        // An arbitrary, fixed epoch plus the simulated time
        let now = tokio::__sim::now_nanos();
        (*ts).sec = 1_700_000_000 + (now / 1_000_000_000) as i64;
        (*ts).nsec = (now % 1_000_000_000) as i64;
        return 0;
    }
    libc_ret(raw(228, clock as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if sut_running() {
        let d = (*req).sec as u64 * 1_000_000_000 + (*req).nsec as u64;
        if !harness(|| crate::threads::sleep(d)) {
            tokio::__sim::advance(d);
        }
        return 0;
    }
    libc_ret(raw(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clock: i32,
    flags: i32,
    req: *const Timespec,
    rem: *mut Timespec,
) -> i32 {
    if sut_running() {
        let d = (*req).sec as u64 * 1_000_000_000 + (*req).nsec as u64;
        if !harness(|| crate::threads::sleep(d)) {
            tokio::__sim::advance(d);
        }
        return 0;
    }
    let r = raw(230, clock as i64, flags as i64, req as i64, rem as i64, 0, 0);
    (-r) as i32
}

/// One CPU: the shard count of concurrent maps derives from this.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: i32, size: usize, mask: *mut u8) -> i32 {
    for i in 0..size {
        *mask.add(i) = 0;
    }
    if size > 0 {
        *mask = 1;
    }
    0
}

/// What a lookup finds in the simulated file system, as an errno or a node.
pub fn fs_lookup(nodes: &BTreeMap<String, Node>, path: &str) -> Result<Node, i32> {
    let mut parts: Vec<&str> = vec![];
    for p in path.split('/') {
        match p {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            p => parts.push(p),
        }
    }
    let full = format!("/{}", parts.join("/"));
    // A faulty directory on the way fails the lookup
    for i in 1..parts.len() {
        match nodes.get(&format!("/{}", parts[..i].join("/"))) {
            Some(Node::Denied) => return Err(EACCES),
            Some(Node::IoError) => return Err(EIO),
            Some(Node::File) => return Err(ENOTDIR),
            _ => {}
        }
    }
    match nodes.get(&full) {
        Some(Node::Denied) => Err(EACCES),
        Some(Node::IoError) => Err(EIO),
        Some(n) => Ok(*n),
        None => {
            let prefix = format!("{}/", full.trim_end_matches('/'));
            if nodes.keys().any(|k| k.starts_with(&prefix)) || full == "/simfs" {
                Ok(Node::Dir)
            } else {
                Err(ENOENT)
            }
        }
    }
}

unsafe fn sim_path(path: *const u8) -> Option<String> {
    if !sut_running() || path.is_null() {
        return None;
    }
    let s = std::ffi::CStr::from_ptr(path as *const _).to_str().ok()?;
    if s.starts_with(FS_ROOT) || s == "/simfs" {
        Some(s.to_string())
    } else {
        None
    }
}

fn sim_lookup(path: &str) -> Result<Node, i32> {
    with_fs(|fs| {
        fs.lookups += 1;
        let r = fs_lookup(&fs.nodes, path);
        if matches!(r, Err(e) if e == EACCES || e == EIO) {
            fs.faults += 1;
        }
        r
    })
}

#[no_mangle]
pub unsafe extern "C" fn statx(
    dirfd: i32,
    path: *const u8,
    flags: i32,
    mask: u32,
    buf: *mut u8,
) -> i32 {
    if let Some(p) = sim_path(path) {
        return match sim_lookup(&p) {
            Ok(n) => {
                for i in 0..256 {
                    *buf.add(i) = 0;
                }
                (buf as *mut u32).write(0x7ff); // stx_mask
                let mode: u16 = if n == Node::Dir { 0o040755 } else { 0o100644 };
                (buf.add(28) as *mut u16).write(mode);
                (buf.add(16) as *mut u32).write(1); // stx_nlink
                0
            }
            Err(e) => {
                *__errno_location() = e;
                -1
            }
        };
    }
    libc_ret(raw(332, dirfd as i64, path as i64, flags as i64, mask as i64, buf as i64, 0)) as i32
}

unsafe fn sim_stat(path: *const u8, buf: *mut u8) -> Option<i32> {
    let p = sim_path(path)?;
    Some(match sim_lookup(&p) {
        Ok(n) => {
            for i in 0..144 {
                *buf.add(i) = 0;
            }
            let mode: u32 = if n == Node::Dir { 0o040755 } else { 0o100644 };
            (buf.add(16) as *mut u64).write(1);
            (buf.add(24) as *mut u32).write(mode);
            0
        }
        Err(e) => {
            *__errno_location() = e;
            -1
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const u8, buf: *mut u8) -> i32 {
    sim_stat(path, buf).unwrap_or_else(|| libc_ret(raw(4, path as i64, buf as i64, 0, 0, 0, 0)) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const u8, buf: *mut u8) -> i32 {
    sim_stat(path, buf).unwrap_or_else(|| libc_ret(raw(6, path as i64, buf as i64, 0, 0, 0, 0)) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const u8, mode: i32) -> i32 {
    if let Some(p) = sim_path(path) {
        return match sim_lookup(&p) {
            Ok(_) => 0,
            Err(e) => {
                *__errno_location() = e;
                -1
            }
        };
    }
    libc_ret(raw(21, path as i64, mode as i64, 0, 0, 0, 0)) as i32
}
/// Opening a simulated file: it exists (and is empty) or the lookup's error.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if let Some(p) = sim_path(path) {
        return match sim_lookup(&p) {
            Ok(n) => {
                let target: &[u8] = if n == Node::Dir { b"/dev\0" } else { b"/dev/null\0" };
                libc_ret(raw(2, target.as_ptr() as i64, 0, 0, 0, 0, 0)) as i32
            }
            Err(e) => {
                *__errno_location() = e;
                -1
            }
        };
    }
    libc_ret(raw(2, path as i64, flags as i64, mode as i64, 0, 0, 0)) as i32
}

// ------------------------------------------------------------ processes

pub enum ChildEnd {
    Data(Vec<u8>),
    Exit(i32),
    Signal(i32),
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn signal(sig: i32, handler: usize) -> usize;
}

/// Bytes which the server wrote to its standard output past its transport
pub static STRAY: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static FLUSHING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// What `print!` left in its buffer counts as well
pub fn flush_stray() -> u64 {
    use std::io::Write;
    use std::sync::atomic::Ordering::SeqCst;
    FLUSHING.store(true, SeqCst);
    let _ = std::io::stdout().flush();
    FLUSHING.store(false, SeqCst);
    STRAY.swap(0, SeqCst)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    use std::sync::atomic::Ordering::SeqCst;
    if fd == 1 && (sut_running() || FLUSHING.load(SeqCst)) {
        STRAY.fetch_add(n as u64, SeqCst);
        return n as isize;
    }
    libc_ret(raw(1, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const [usize; 2], n: i32) -> isize {
    use std::sync::atomic::Ordering::SeqCst;
    if fd == 1 && (sut_running() || FLUSHING.load(SeqCst)) {
        let len: usize = (0..n as usize).map(|i| (*iov.add(i))[1]).sum();
        STRAY.fetch_add(len as u64, SeqCst);
        return len as isize;
    }
    libc_ret(raw(20, fd as i64, iov as i64, n as i64, 0, 0, 0)) as isize
}

static DYING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Whether the simulated process called `abort` (or overflowed its stack)
pub fn dying() -> Option<&'static str> {
    DYING
        .load(std::sync::atomic::Ordering::SeqCst)
        .then_some("the process aborted")
}

extern "C" fn on_abort(_: i32) {
    DYING.store(true, std::sync::atomic::Ordering::SeqCst);
    if on_sim_thread() {
        loop {
            unsafe { raw(34, 0, 0, 0, 0, 0, 0) }; // pause: the main thread reports
        }
    }
}

/// Runs `f` in a forked process (this one must be single-threaded)
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> ChildEnd {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            eprintln!("harness error: no pipe");
            std::process::exit(3);
        }
        let pid = fork();
        if pid < 0 {
            eprintln!("harness error: cannot fork");
            std::process::exit(3);
        }
        if pid == 0 {
            close(fds[0]);
            signal(6, on_abort as usize);
            let d = f();
            let mut at = 0;
            while at < d.len() {
                let n = write(fds[1], d[at..].as_ptr(), d.len() - at);
                if n <= 0 {
                    _exit(3);
                }
                at += n as usize;
            }
            _exit(0);
        }
        close(fds[1]);
        let mut data = vec![];
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let n = read(fds[0], buf.as_mut_ptr(), buf.len());
            if n > 0 {
                data.extend_from_slice(&buf[..n as usize]);
            } else if n == 0 || *__errno_location() != 4 {
                break;
            }
        }
        close(fds[0]);
        let mut status = 0;
        while waitpid(pid, &mut status, 0) < 0 && *__errno_location() == 4 {}
        if status & 0x7f != 0 {
            ChildEnd::Signal(status & 0x7f)
        } else if status != 0 {
            ChildEnd::Exit((status >> 8) & 0xff)
        } else {
            ChildEnd::Data(data)
        }
    }
}

/// Keeps the definitions above in the link.
pub fn install() -> usize {
    [
        syscall as usize,
        getrandom as usize,
        clock_gettime as usize,
        nanosleep as usize,
        clock_nanosleep as usize,
        sched_getaffinity as usize,
        statx as usize,
        stat64 as usize,
        lstat64 as usize,
        access as usize,
        open64 as usize,
        crate::threads::pthread_create as usize,
        crate::threads::pthread_join as usize,
        crate::threads::sched_yield as usize,
    ]
    .iter()
    .fold(0, |a, b| a ^ b)
}
