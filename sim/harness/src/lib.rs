//! Deterministic simulation of the language server: see /verif/DESIGN.md.
pub mod dot;
pub mod driver;
pub mod gen;
pub mod interpose;
pub mod judge;
pub mod model;
pub mod plan;
pub mod plangen;
pub mod rng;
pub mod shrink;
pub mod threads;
pub mod world;

use std::sync::Mutex;

/// Threads of the system under test run one at a time, as part of the simulation thread
static PANIC: Mutex<Option<String>> = Mutex::new(None);

/// Message and place of the last panic on this thread
pub fn last_panic() -> Option<String> {
    PANIC.lock().unwrap_or_else(|e| e.into_inner()).take()
}

fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = info.location().map_or(String::new(), |l| format!(" ({}:{})", l.file(), l.line()));
        let text = format!("{}{}", msg, at);
        if std::env::var_os("DST_PANICS").is_some() || std::thread::current().name() == Some("main") {
            eprintln!("panic: {}", text);
        }
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(text);
    }));
}

extern "C" {
    #[link_name = "gettid"]
    fn c_gettid() -> i32;
}
pub fn gettid() -> i32 {
    unsafe { c_gettid() }
}

/// CPU time a thread of this process has used
pub fn thread_cpu_ms(tid: i32) -> u64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)) else {
        return 0;
    };
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) * 10
}

/// Where the binary's `main` ends up: `factory` is the server's own async main.
pub fn entry(factory: world::Factory) {
    interpose::install();
    silence_panics();
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(driver::main(&args, factory));
}

/// The same for a `main` which is not async and builds its runtime itself. The
/// factory calls it again for every simulated process.
pub fn entry_sync(main: fn()) {
    static MAIN: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();
    let _ = MAIN.set(main);
    entry(|| tokio::__sim::runtime::capture(*MAIN.get().unwrap()))
}
