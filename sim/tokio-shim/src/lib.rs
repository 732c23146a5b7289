//! A `tokio` whose process-level nondeterminism is owned by the simulator.
//!
//! Everything pure (traits, sync primitives, codecs, macros) is the real tokio;
//! what talks to the outside world or to a scheduler is replaced: standard
//! streams, task spawning, blocking work, and time.
pub use real_tokio::*;

pub use task::spawn;
pub use tokio_shim_macros::main;

pub mod __sim;

pub mod io {
    pub use crate::__sim::io::{stderr, stdin, stdout, Stderr, Stdin, Stdout};
    pub use real_tokio::io::*;
}

pub mod task {
    pub use crate::__sim::task::*;
    pub use real_tokio::task::{unconstrained, LocalKey, Unconstrained};
}

/// File system calls go straight to libc, where the simulated file system sits.
pub mod fs {
    use std::io::Result;
    use std::path::{Path, PathBuf};

    pub use real_tokio::fs::{File, OpenOptions};

    async fn run<T: Send + 'static>(f: impl FnOnce() -> Result<T> + Send + 'static) -> Result<T> {
        crate::task::spawn_blocking(f).await.unwrap()
    }
    pub async fn metadata(p: impl AsRef<Path>) -> Result<std::fs::Metadata> {
        let p = p.as_ref().to_owned();
        run(move || std::fs::metadata(p)).await
    }
    pub async fn symlink_metadata(p: impl AsRef<Path>) -> Result<std::fs::Metadata> {
        let p = p.as_ref().to_owned();
        run(move || std::fs::symlink_metadata(p)).await
    }
    pub async fn try_exists(p: impl AsRef<Path>) -> Result<bool> {
        let p = p.as_ref().to_owned();
        run(move || p.try_exists()).await
    }
    pub async fn canonicalize(p: impl AsRef<Path>) -> Result<PathBuf> {
        let p = p.as_ref().to_owned();
        run(move || std::fs::canonicalize(p)).await
    }
    pub async fn read(p: impl AsRef<Path>) -> Result<Vec<u8>> {
        let p = p.as_ref().to_owned();
        run(move || std::fs::read(p)).await
    }
    pub async fn read_to_string(p: impl AsRef<Path>) -> Result<String> {
        let p = p.as_ref().to_owned();
        run(move || std::fs::read_to_string(p)).await
    }
}

pub mod runtime {
    pub use crate::__sim::handle::Handle;
    pub use crate::__sim::runtime::{Builder, EnterGuard, Runtime};
    pub use real_tokio::runtime::{RuntimeFlavor, TryCurrentError};
}

/// Nobody sends signals in the simulation
pub mod signal {
    pub async fn ctrl_c() -> std::io::Result<()> {
        std::future::pending().await
    }
    pub mod unix {
        #[derive(Debug)]
        pub struct Signal(());
        impl Signal {
            pub async fn recv(&mut self) -> Option<()> {
                std::future::pending().await
            }
        }
        pub use real_tokio::signal::unix::SignalKind;
        pub fn signal(_: SignalKind) -> std::io::Result<Signal> {
            Ok(Signal(()))
        }
    }
}

pub mod time {
    pub use crate::__sim::time::*;
    pub use real_tokio::time::{Duration, Instant};
}
