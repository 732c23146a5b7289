//! The simulated runtime: one per thread, single-threaded, driven step by step
//! by the harness. It takes no decision itself: which ready task runs next,
//! how many bytes arrive, when a timer fires is all decided by the caller.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

thread_local! {
    static RT: RefCell<Rt> = RefCell::new(Rt::default());
    static CURRENT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// Simulated nanoseconds since the start of the run.
static NOW: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
struct Rt {
    tasks: BTreeMap<usize, Task>,
    next_task: usize,
    ready: Arc<Mutex<Vec<usize>>>,
    instances: BTreeMap<usize, Instance>,
    timers: BTreeMap<(u64, u64), Waker>,
    timer_seq: u64,
    spawned: u64,
}

struct Instance {
    io: Arc<Mutex<io::Io>>,
}

struct Task {
    fut: Option<BoxFut>,
    instance: usize,
    flag: Arc<TaskWaker>,
}

struct TaskWaker {
    id: usize,
    ready: AtomicBool,
    queue: Arc<Mutex<Vec<usize>>>,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if !self.ready.swap(true, Ordering::SeqCst) {
            self.queue.lock().unwrap().push(self.id);
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PollOutcome {
    Pending,
    Done,
    Panicked(String),
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Start a server process: its main task plus fresh standard streams.
pub fn create_instance(id: usize, fut: BoxFut) -> usize {
    RT.with(|rt| {
        rt.borrow_mut().instances.insert(
            id,
            Instance {
                io: Arc::new(Mutex::new(io::Io::default())),
            },
        );
    });
    add_task(id, fut)
}

fn add_task(instance: usize, fut: BoxFut) -> usize {
    RT.with(|rt| {
        let mut rt = rt.borrow_mut();
        let id = rt.next_task;
        rt.next_task += 1;
        let flag = Arc::new(TaskWaker {
            id,
            ready: AtomicBool::new(false),
            queue: rt.ready.clone(),
        });
        flag.wake_by_ref();
        rt.tasks.insert(
            id,
            Task {
                fut: Some(fut),
                instance,
                flag,
            },
        );
        id
    })
}

/// Ready tasks of an instance, in the order they became ready.
pub fn ready_tasks(instance: usize) -> Vec<usize> {
    RT.with(|rt| {
        let rt = rt.borrow();
        let q = rt.ready.lock().unwrap();
        q.iter()
            .copied()
            .filter(|id| rt.tasks.get(id).map_or(false, |t| t.instance == instance))
            .collect()
    })
}

/// Tasks which exist (ready or blocked).
pub fn live_tasks(instance: usize) -> Vec<usize> {
    RT.with(|rt| {
        rt.borrow()
            .tasks
            .iter()
            .filter(|t| t.1.instance == instance)
            .map(|t| *t.0)
            .collect()
    })
}

pub fn spawned_count() -> u64 {
    RT.with(|rt| rt.borrow().spawned)
}

/// A wake-up nobody asked for; always legal.
pub fn spurious_wake(task: usize) {
    let w = RT.with(|rt| rt.borrow().tasks.get(&task).map(|t| t.flag.clone()));
    if let Some(w) = w {
        w.wake_by_ref()
    }
}

pub fn poll_task(id: usize) -> PollOutcome {
    let taken = RT.with(|rt| {
        let mut rt = rt.borrow_mut();
        rt.ready.lock().unwrap().retain(|x| *x != id);
        let t = rt.tasks.get_mut(&id)?;
        t.flag.ready.store(false, Ordering::SeqCst);
        Some((t.fut.take()?, t.flag.clone(), t.instance))
    });
    let Some((mut fut, flag, instance)) = taken else {
        return PollOutcome::Done;
    };
    let waker = Waker::from(flag);
    let prev = CURRENT.with(|c| c.replace(instance));
    let res = catch_unwind(AssertUnwindSafe(|| {
        fut.as_mut().poll(&mut Context::from_waker(&waker))
    }));
    let out = match res {
        Ok(Poll::Pending) => {
            RT.with(|rt| {
                if let Some(t) = rt.borrow_mut().tasks.get_mut(&id) {
                    t.fut = Some(fut);
                }
            });
            PollOutcome::Pending
        }
        Ok(Poll::Ready(())) => {
            RT.with(|rt| rt.borrow_mut().tasks.remove(&id));
            let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
            PollOutcome::Done
        }
        Err(e) => {
            let t = RT.with(|rt| rt.borrow_mut().tasks.remove(&id));
            drop(t);
            // A panicked future must not be polled or trusted again.
            std::mem::forget(fut);
            PollOutcome::Panicked(panic_text(&*e))
        }
    };
    CURRENT.with(|c| c.set(prev));
    out
}

/// The process disappears: nothing of it runs again. Its memory is leaked, as
/// no destructor of a killed process would run either.
pub fn kill_instance(instance: usize) {
    let futs: Vec<_> = RT.with(|rt| {
        let mut rt = rt.borrow_mut();
        let ids: Vec<_> = rt
            .tasks
            .iter()
            .filter(|t| t.1.instance == instance)
            .map(|t| *t.0)
            .collect();
        rt.ready.lock().unwrap().retain(|x| !ids.contains(x));
        ids.into_iter()
            .filter_map(|id| rt.tasks.remove(&id))
            .collect()
    });
    for t in futs {
        // Dropping is only memory hygiene; a destructor which panics or blocks
        // is not part of the simulated behaviour.
        let _ = catch_unwind(AssertUnwindSafe(move || drop(t)));
    }
    RT.with(|rt| rt.borrow_mut().instances.remove(&instance));
}

pub fn io_of(instance: usize) -> Option<Arc<Mutex<io::Io>>> {
    RT.with(|rt| rt.borrow().instances.get(&instance).map(|i| i.io.clone()))
}

pub fn now_nanos() -> u64 {
    NOW.load(Ordering::SeqCst)
}

pub fn advance(nanos: u64) {
    let now = now_nanos().saturating_add(nanos);
    NOW.store(now, Ordering::SeqCst);
    let due: Vec<Waker> = RT.with(|rt| {
        // `std::thread::sleep` may advance the clock while a task is polled
        let Ok(mut rt) = rt.try_borrow_mut() else {
            return vec![];
        };
        let keys: Vec<_> = rt
            .timers
            .range(..=(now, u64::MAX))
            .map(|t| *t.0)
            .collect();
        keys.into_iter()
            .filter_map(|k| rt.timers.remove(&k))
            .collect()
    });
    for w in due {
        w.wake()
    }
}

/// Nanoseconds until the next timer, if there is one.
pub fn next_timer() -> Option<u64> {
    RT.with(|rt| {
        rt.borrow()
            .timers
            .keys()
            .next()
            .map(|k| k.0.saturating_sub(now_nanos()))
    })
}

/// Forget everything; the thread is about to run another simulation.
pub fn reset() {
    let old = RT.with(|rt| std::mem::take(&mut *rt.borrow_mut()));
    let _ = catch_unwind(AssertUnwindSafe(move || drop(old)));
    NOW.store(0, Ordering::SeqCst);
    CURRENT.with(|c| c.set(usize::MAX));
}

pub mod io {
    use super::*;
    use real_tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

    /// The standard streams of one simulated process.
    #[derive(Default)]
    pub struct Io {
        pub stdin: std::collections::VecDeque<u8>,
        pub stdin_eof: bool,
        pub stdin_err: Option<std::io::ErrorKind>,
        /// At most this many bytes per read (0: no limit)
        pub max_read: usize,
        pub read_waker: Option<Waker>,
        pub reads: u64,
        pub bytes_read: u64,
        pub eof_seen: bool,

        pub stdout: Vec<u8>,
        /// Bytes the client is willing to take before writes block
        pub credit: usize,
        /// At most this many bytes per write (0: no limit)
        pub max_write: usize,
        pub stdout_err: Option<std::io::ErrorKind>,
        pub write_waker: Option<Waker>,
        pub writes: u64,
        pub blocked_writes: u64,
        pub short_writes: u64,
        pub short_reads: u64,
    }

    impl Io {
        pub fn wake_reader(&mut self) {
            if let Some(w) = self.read_waker.take() {
                w.wake()
            }
        }
        pub fn wake_writer(&mut self) {
            if let Some(w) = self.write_waker.take() {
                w.wake()
            }
        }
    }

    fn current_io() -> Arc<Mutex<Io>> {
        let inst = CURRENT.with(|c| c.get());
        io_of(inst).unwrap_or_default()
    }

    pub struct Stdin(Arc<Mutex<Io>>);
    pub struct Stdout(Arc<Mutex<Io>>);
    pub struct Stderr;

    pub fn stdin() -> Stdin {
        Stdin(current_io())
    }
    pub fn stdout() -> Stdout {
        Stdout(current_io())
    }
    pub fn stderr() -> Stderr {
        Stderr
    }
    impl std::fmt::Debug for Stdin {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Stdin")
        }
    }
    impl std::fmt::Debug for Stdout {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Stdout")
        }
    }

    impl AsyncRead for Stdin {
        fn poll_read(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            buf: &mut ReadBuf<'_>,
        ) -> Poll<std::io::Result<()>> {
            let mut io = self.0.lock().unwrap();
            if io.stdin.is_empty() {
                if let Some(k) = io.stdin_err {
                    return Poll::Ready(Err(k.into()));
                }
                if io.stdin_eof {
                    io.eof_seen = true;
                    return Poll::Ready(Ok(()));
                }
                io.read_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let mut n = io.stdin.len().min(buf.remaining());
            if io.max_read > 0 && n > io.max_read {
                n = io.max_read;
                io.short_reads += 1;
            }
            for _ in 0..n {
                let b = io.stdin.pop_front().unwrap();
                buf.put_slice(&[b]);
            }
            io.reads += 1;
            io.bytes_read += n as u64;
            Poll::Ready(Ok(()))
        }
    }

    impl AsyncWrite for Stdout {
        fn poll_write(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            data: &[u8],
        ) -> Poll<std::io::Result<usize>> {
            let mut io = self.0.lock().unwrap();
            if let Some(k) = io.stdout_err {
                return Poll::Ready(Err(k.into()));
            }
            if io.credit == 0 {
                io.blocked_writes += 1;
                io.write_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let mut n = data.len().min(io.credit);
            if io.max_write > 0 && n > io.max_write {
                n = io.max_write;
            }
            if n < data.len() {
                io.short_writes += 1;
            }
            io.credit -= n;
            io.stdout.extend_from_slice(&data[..n]);
            io.writes += 1;
            Poll::Ready(Ok(n))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            match self.0.lock().unwrap().stdout_err {
                Some(k) => Poll::Ready(Err(k.into())),
                None => Poll::Ready(Ok(())),
            }
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }

    impl AsyncWrite for Stderr {
        fn poll_write(
            self: Pin<&mut Self>,
            _: &mut Context<'_>,
            data: &[u8],
        ) -> Poll<std::io::Result<usize>> {
            Poll::Ready(Ok(data.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}

pub mod task {
    use super::*;
    use std::any::Any;
    use std::fmt;

    enum State<T> {
        Running,
        Done(Result<T, JoinError>),
        Taken,
    }
    struct Shared<T> {
        state: Mutex<(State<T>, Option<Waker>)>,
        aborted: AtomicBool,
        /// wakes the task itself so that an abort is noticed
        task_waker: Mutex<Option<Waker>>,
    }
    trait Abortable: Send + Sync {
        fn abort(&self);
        fn finished(&self) -> bool;
    }
    impl<T: Send> Abortable for Shared<T> {
        fn abort(&self) {
            self.aborted.store(true, Ordering::SeqCst);
            if let Some(w) = self.task_waker.lock().unwrap().take() {
                w.wake()
            }
        }
        fn finished(&self) -> bool {
            !matches!(self.state.lock().unwrap().0, State::Running)
        }
    }

    pub struct JoinError {
        payload: Option<Mutex<Box<dyn Any + Send>>>,
    }
    impl JoinError {
        pub fn is_cancelled(&self) -> bool {
            self.payload.is_none()
        }
        pub fn is_panic(&self) -> bool {
            self.payload.is_some()
        }
        pub fn into_panic(self) -> Box<dyn Any + Send> {
            self.payload
                .expect("`JoinError` reason is not a panic.")
                .into_inner()
                .unwrap()
        }
        pub fn try_into_panic(self) -> Result<Box<dyn Any + Send>, JoinError> {
            if self.is_panic() {
                Ok(self.into_panic())
            } else {
                Err(self)
            }
        }
    }
    impl fmt::Display for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(if self.is_panic() { "task panicked" } else { "task was cancelled" })
        }
    }
    impl fmt::Debug for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(if self.is_panic() { "JoinError::Panic" } else { "JoinError::Cancelled" })
        }
    }
    impl std::error::Error for JoinError {}

    pub struct JoinHandle<T>(Arc<Shared<T>>);
    impl<T> Unpin for JoinHandle<T> {}
    impl<T> fmt::Debug for JoinHandle<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("JoinHandle")
        }
    }
    impl<T: Send + 'static> JoinHandle<T> {
        pub fn abort(&self) {
            Abortable::abort(&*self.0)
        }
        pub fn is_finished(&self) -> bool {
            self.0.finished()
        }
        pub fn abort_handle(&self) -> AbortHandle {
            AbortHandle(self.0.clone())
        }
    }
    #[derive(Clone)]
    pub struct AbortHandle(Arc<dyn Abortable>);
    impl AbortHandle {
        pub fn abort(&self) {
            self.0.abort()
        }
        pub fn is_finished(&self) -> bool {
            self.0.finished()
        }
    }
    impl fmt::Debug for AbortHandle {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("AbortHandle")
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut s = self.0.state.lock().unwrap();
            match std::mem::replace(&mut s.0, State::Taken) {
                State::Running => {
                    s.0 = State::Running;
                    s.1 = Some(cx.waker().clone());
                    Poll::Pending
                }
                State::Done(r) => Poll::Ready(r),
                State::Taken => panic!("JoinHandle polled after completion"),
            }
        }
    }

    fn finish<T>(shared: &Shared<T>, r: Result<T, JoinError>) {
        let w = {
            let mut s = shared.state.lock().unwrap();
            s.0 = State::Done(r);
            s.1.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    fn spawn_inner<T: 'static>(fut: Pin<Box<dyn Future<Output = T>>>) -> JoinHandle<T> {
        let shared = Arc::new(Shared {
            state: Mutex::new((State::Running, None)),
            aborted: AtomicBool::new(false),
            task_waker: Mutex::new(None),
        });
        let s2 = shared.clone();
        let mut fut = Some(fut);
        let wrapped = std::future::poll_fn(move |cx| {
            if s2.aborted.load(Ordering::SeqCst) {
                fut = None;
                finish(&s2, Err(JoinError { payload: None }));
                return Poll::Ready(());
            }
            let res = catch_unwind(AssertUnwindSafe(|| fut.as_mut().unwrap().as_mut().poll(cx)));
            match res {
                Ok(Poll::Pending) => {
                    *s2.task_waker.lock().unwrap() = Some(cx.waker().clone());
                    Poll::Pending
                }
                Ok(Poll::Ready(v)) => {
                    fut = None;
                    finish(&s2, Ok(v));
                    Poll::Ready(())
                }
                Err(e) => {
                    std::mem::forget(fut.take());
                    finish(
                        &s2,
                        Err(JoinError {
                            payload: Some(Mutex::new(e)),
                        }),
                    );
                    Poll::Ready(())
                }
            }
        });
        let inst = CURRENT.with(|c| c.get());
        RT.with(|rt| rt.borrow_mut().spawned += 1);
        add_task(inst, Box::pin(wrapped));
        JoinHandle(shared)
    }

    pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        spawn_inner(Box::pin(fut))
    }
    pub fn spawn_local<F>(fut: F) -> JoinHandle<F::Output>
    where
        F: Future + 'static,
        F::Output: 'static,
    {
        spawn_inner(Box::pin(fut))
    }
    /// Blocking work runs as one atomic step of its own task: it may be
    /// arbitrarily late, and anything may run between its start and its join.
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        spawn_inner(Box::pin(async move { f() }))
    }
    pub fn block_in_place<F, R>(f: F) -> R
    where
        F: FnOnce() -> R,
    {
        f()
    }
    /// Tasks of which the next finished one can be awaited; dropping it aborts them
    pub struct JoinSet<T: Send + 'static>(Vec<JoinHandle<T>>);
    impl<T: Send + 'static> fmt::Debug for JoinSet<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "JoinSet({})", self.0.len())
        }
    }
    impl<T: Send + 'static> Default for JoinSet<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: Send + 'static> Drop for JoinSet<T> {
        fn drop(&mut self) {
            self.abort_all()
        }
    }
    impl<T: Send + 'static> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet(vec![])
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, fut: F) -> AbortHandle {
            let h = spawn(fut);
            let a = h.abort_handle();
            self.0.push(h);
            a
        }
        pub fn spawn_blocking<F: FnOnce() -> T + Send + 'static>(&mut self, f: F) -> AbortHandle {
            self.spawn(async move { f() })
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            std::future::poll_fn(|cx| {
                if self.0.is_empty() {
                    return Poll::Ready(None);
                }
                for i in 0..self.0.len() {
                    if let Poll::Ready(r) = Pin::new(&mut self.0[i]).poll(cx) {
                        self.0.remove(i);
                        return Poll::Ready(Some(r));
                    }
                }
                Poll::Pending
            })
            .await
        }
        pub fn abort_all(&mut self) {
            for h in &self.0 {
                h.abort()
            }
        }
        pub fn detach_all(&mut self) {
            self.0.clear()
        }
        pub async fn shutdown(&mut self) {
            self.abort_all();
            while self.join_next().await.is_some() {}
        }
    }
    pub async fn yield_now() {
        let mut yielded = false;
        std::future::poll_fn(move |cx| {
            if yielded {
                Poll::Ready(())
            } else {
                yielded = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        })
        .await
    }
}

pub mod time {
    use super::*;
    pub use real_tokio::time::{Duration, Instant};

    pub struct Sleep {
        deadline: u64,
        key: Option<(u64, u64)>,
    }
    impl Sleep {
        pub fn is_elapsed(&self) -> bool {
            now_nanos() >= self.deadline
        }
        pub fn deadline(&self) -> Instant {
            Instant::now() + Duration::from_nanos(self.deadline.saturating_sub(now_nanos()))
        }
        pub fn reset(mut self: Pin<&mut Self>, deadline: Instant) {
            self.deadline = to_nanos(deadline);
        }
    }
    fn to_nanos(i: Instant) -> u64 {
        let d = i.saturating_duration_since(Instant::now());
        now_nanos().saturating_add(d.as_nanos().min(u64::MAX as u128) as u64)
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if now_nanos() >= self.deadline {
                return Poll::Ready(());
            }
            RT.with(|rt| {
                let mut rt = rt.borrow_mut();
                if let Some(k) = self.key.take() {
                    rt.timers.remove(&k);
                }
                rt.timer_seq += 1;
                let k = (self.deadline, rt.timer_seq);
                rt.timers.insert(k, cx.waker().clone());
                self.key = Some(k);
            });
            Poll::Pending
        }
    }
    pub fn sleep(d: Duration) -> Sleep {
        Sleep {
            deadline: now_nanos().saturating_add(d.as_nanos().min(u64::MAX as u128) as u64),
            key: None,
        }
    }
    pub fn sleep_until(i: Instant) -> Sleep {
        Sleep {
            deadline: to_nanos(i),
            key: None,
        }
    }

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }

    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
        let mut f = Box::pin(f);
        let mut s = Box::pin(sleep(d));
        std::future::poll_fn(move |cx| {
            if let Poll::Ready(v) = f.as_mut().poll(cx) {
                return Poll::Ready(Ok(v));
            }
            match s.as_mut().poll(cx) {
                Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
                Poll::Pending => Poll::Pending,
            }
        })
        .await
    }
    pub async fn timeout_at<F: Future>(i: Instant, f: F) -> Result<F::Output, error::Elapsed> {
        timeout(i.saturating_duration_since(Instant::now()), f).await
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
    pub enum MissedTickBehavior {
        #[default]
        Burst,
        Delay,
        Skip,
    }
    #[derive(Debug)]
    pub struct Interval {
        next: u64,
        period: u64,
    }
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            let wait = self.next.saturating_sub(now_nanos());
            sleep(Duration::from_nanos(wait)).await;
            self.next = self.next.saturating_add(self.period);
            Instant::now()
        }
        pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
        pub fn period(&self) -> Duration {
            Duration::from_nanos(self.period)
        }
    }
    pub fn interval(period: Duration) -> Interval {
        Interval {
            next: now_nanos(),
            period: (period.as_nanos() as u64).max(1),
        }
    }
    pub fn interval_at(start: Instant, period: Duration) -> Interval {
        Interval {
            next: to_nanos(start),
            period: (period.as_nanos() as u64).max(1),
        }
    }
}

pub mod handle {
    use super::*;

    /// The simulated runtime, as the code running in it sees it
    #[derive(Clone, Debug)]
    pub struct Handle(());

    impl Handle {
        pub fn current() -> Handle {
            Handle(())
        }
        pub fn try_current() -> Result<Handle, real_tokio::runtime::TryCurrentError> {
            Ok(Handle(()))
        }
        pub fn spawn<F>(&self, fut: F) -> task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            task::spawn(fut)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> task::JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            task::spawn_blocking(f)
        }
        /// Other tasks go on; the one which calls this does not.
        pub fn block_on<F: Future>(&self, fut: F) -> F::Output {
            struct Unpark(std::thread::Thread);
            impl Wake for Unpark {
                fn wake(self: Arc<Self>) {
                    self.0.unpark()
                }
            }
            let mut fut = std::pin::pin!(fut);
            let waker = Waker::from(Arc::new(Unpark(std::thread::current())));
            loop {
                if let Poll::Ready(r) = fut.as_mut().poll(&mut Context::from_waker(&waker)) {
                    return r;
                }
                let next = ready_tasks(CURRENT.with(|c| c.get())).into_iter().find(|t| {
                    RT.with(|rt| rt.borrow().tasks.get(t).map_or(false, |t| t.fut.is_some()))
                });
                match next {
                    Some(t) => {
                        poll_task(t);
                    }
                    None => std::thread::park(),
                }
            }
        }
    }
}

/// For a `main` which builds its runtime itself: `capture` calls it on a stack of
/// its own up to the first `block_on`, takes the future and leaves the stack behind
/// (the future may borrow from it). What follows the `block_on` is not simulated.
pub mod runtime {
    use super::handle::Handle;
    use super::*;

    #[repr(C, align(16))]
    struct Context([u8; 4096]);
    extern "C" {
        fn getcontext(c: *mut Context) -> i32;
        fn makecontext(c: *mut Context, f: extern "C" fn(), argc: i32, ...);
        fn swapcontext(from: *mut Context, to: *const Context) -> i32;
    }
    struct Capture {
        back: Box<Context>,
        main: fn(),
        fut: Option<BoxFut>,
    }
    thread_local! {
        static CAPTURE: Cell<*mut Capture> = const { Cell::new(std::ptr::null_mut()) };
    }

    extern "C" fn trampoline() {
        let c = CAPTURE.with(|c| c.get());
        let r = catch_unwind(AssertUnwindSafe(unsafe { (*c).main }));
        leave(Box::pin(async move {
            if let Err(e) = r {
                std::panic::resume_unwind(e)
            }
        }))
    }
    fn leave(fut: BoxFut) -> ! {
        unsafe {
            let c = CAPTURE.with(|c| c.replace(std::ptr::null_mut()));
            (*c).fut = Some(fut);
            // Nobody comes back
            let here = Box::into_raw(Box::new(Context([0; 4096])));
            swapcontext(here, &*(*c).back);
        }
        unreachable!()
    }

    pub fn capture(main: fn()) -> BoxFut {
        const STACK: usize = 1 << 20;
        unsafe {
            let mut c = Capture {
                back: Box::new(Context([0; 4096])),
                main,
                fut: None,
            };
            let mut to = Box::new(Context([0; 4096]));
            let stack = std::alloc::alloc(std::alloc::Layout::from_size_align(STACK, 4096).unwrap());
            getcontext(&mut *to);
            // uc_link, uc_stack.{ss_sp, ss_size}
            let words = to.0.as_mut_ptr() as *mut usize;
            *words.add(1) = 0;
            *words.add(2) = stack as usize;
            *words.add(4) = STACK;
            makecontext(&mut *to, trampoline, 0);
            CAPTURE.with(|x| x.set(&mut c));
            swapcontext(&mut *c.back, &*to);
            c.fut.take().unwrap()
        }
    }

    #[derive(Debug)]
    pub struct Runtime(Handle);
    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            Ok(Runtime(Handle::current()))
        }
        pub fn handle(&self) -> &Handle {
            &self.0
        }
        pub fn spawn<F>(&self, fut: F) -> task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            task::spawn(fut)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> task::JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            task::spawn_blocking(f)
        }
        pub fn block_on<F: Future>(&self, fut: F) -> F::Output {
            if CAPTURE.with(|c| c.get()).is_null() {
                return self.0.block_on(fut);
            }
            let fut: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(async move {
                fut.await;
            });
            // The stack it may borrow from stays
            leave(unsafe { std::mem::transmute::<Pin<Box<dyn Future<Output = ()> + '_>>, BoxFut>(fut) })
        }
        pub fn enter(&self) -> EnterGuard<'_> {
            EnterGuard(std::marker::PhantomData)
        }
        pub fn shutdown_background(self) {}
        pub fn shutdown_timeout(self, _: std::time::Duration) {}
    }
    #[derive(Debug)]
    pub struct EnterGuard<'a>(std::marker::PhantomData<&'a Runtime>);

    #[derive(Debug)]
    pub struct Builder(());
    impl Builder {
        pub fn new_current_thread() -> Builder {
            Builder(())
        }
        pub fn new_multi_thread() -> Builder {
            Builder(())
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn worker_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
            self
        }
        pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_keep_alive(&mut self, _: std::time::Duration) -> &mut Self {
            self
        }
        pub fn event_interval(&mut self, _: u32) -> &mut Self {
            self
        }
        pub fn global_queue_interval(&mut self, _: u32) -> &mut Self {
            self
        }
        pub fn on_thread_start<F: Fn() + Send + Sync + 'static>(&mut self, _: F) -> &mut Self {
            self
        }
        pub fn on_thread_stop<F: Fn() + Send + Sync + 'static>(&mut self, _: F) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            Runtime::new()
        }
    }
}
