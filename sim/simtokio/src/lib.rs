//! Stands in for `tokio` in the language server: standard streams, runtime and task spawning are
//! those of the simulation, everything else is tokio's own.
pub use tokio::*;

pub mod io {
    use simcore::World;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use tokio::io::*;

    pub struct Stdin(());
    pub struct Stdout(());
    pub fn stdin() -> Stdin {
        Stdin(())
    }
    pub fn stdout() -> Stdout {
        Stdout(())
    }

    fn world() -> &'static mut World {
        World::current().expect("the simulated streams exist only within a simulation")
    }

    impl AsyncRead for Stdin {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
            let w = world();
            if w.stdin.buf.is_empty() {
                if w.stdin.closed {
                    return Poll::Ready(Ok(()));
                }
                w.stdin.waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let avail = w.stdin.buf.len().min(buf.remaining());
            // short reads are decided by how many bytes the scheduler has delivered
            let data: Vec<u8> = w.stdin.buf.drain(..avail).collect();
            buf.put_slice(&data);
            Poll::Ready(Ok(()))
        }
    }

    impl AsyncWrite for Stdout {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<Result<usize>> {
            let w = world();
            let room = w.stdout.cap.saturating_sub(w.stdout.buf.len());
            if room == 0 && !data.is_empty() {
                w.stdout.waker = Some(cx.waker().clone());
                w.probe("stdout-full");
                return Poll::Pending;
            }
            let mut n = room.min(data.len());
            if n > 1 && w.chooser.flip(w.out_masked.short) {
                n = 1 + w.chooser.choose(n - 1);
                w.fire("channel:short-write");
            }
            if n < data.len() {
                w.probe("partial-write");
            }
            w.stdout.buf.extend(&data[..n]);
            w.out_written += n;
            Poll::Ready(Ok(n))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}

/// What the scheduler decided to do next.
pub enum Step {
    /// Something outside of the program happened, decide again
    Again,
    /// Let the main task run
    PollMain,
    /// Let a spawned task run
    PollTask(usize),
    /// The process is killed
    Kill,
}

/// The scheduler: owned by the harness.
pub trait Driver {
    /// `woken`: the main task was woken since it last ran; `tasks`: spawned tasks that can run.
    fn step(&mut self, woken: bool, tasks: &[usize]) -> Step;
}

/// Payload of the panic that ends a killed incarnation.
pub struct Killed;

pub mod sim {
    use super::Driver;
    use std::cell::{Cell, RefCell};
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;
    use std::task::{Wake, Waker};

    pub struct Flag(pub AtomicBool);
    impl Wake for Flag {
        fn wake(self: Arc<Self>) {
            self.0.store(true, Ordering::SeqCst)
        }
        fn wake_by_ref(self: &Arc<Self>) {
            self.0.store(true, Ordering::SeqCst)
        }
    }
    pub struct Task {
        pub fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
        pub flag: Arc<Flag>,
    }
    thread_local! {
        pub static DRIVER: Cell<Option<*mut dyn Driver>> = const { Cell::new(None) };
        pub static TASKS: RefCell<Vec<Task>> = const { RefCell::new(vec![]) };
    }
    pub fn set_driver(d: Option<*mut dyn Driver>) {
        DRIVER.with(|c| c.set(d));
        TASKS.with(|t| t.borrow_mut().clear());
    }
    pub fn new_flag() -> Arc<Flag> {
        Arc::new(Flag(AtomicBool::new(true)))
    }
    pub fn waker(f: &Arc<Flag>) -> Waker {
        Waker::from(f.clone())
    }
}

pub mod runtime {
    use super::sim;
    use super::{Killed, Step};
    use simcore::World;
    use std::future::Future;
    use std::sync::atomic::Ordering;
    use std::task::{Context, Poll};
    pub use tokio::runtime::EnterGuard;

    #[derive(Clone, Debug)]
    pub struct Handle(tokio::runtime::Handle);
    impl Handle {
        pub fn current() -> Handle {
            Handle(tokio::runtime::Handle::current())
        }
        pub fn try_current() -> Result<Handle, tokio::runtime::TryCurrentError> {
            tokio::runtime::Handle::try_current().map(Handle)
        }
        pub fn enter(&self) -> EnterGuard<'_> {
            self.0.enter()
        }
        pub fn spawn<F>(&self, f: F) -> super::task::JoinHandle<F::Output>
        where
            F: Future + 'static,
            F::Output: 'static,
        {
            super::task::spawn(f)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> super::task::JoinHandle<R>
        where
            F: FnOnce() -> R + 'static,
            R: 'static,
        {
            super::task::spawn_blocking(f)
        }
    }

    pub struct Builder(());
    #[derive(Debug)]
    pub struct Runtime(tokio::runtime::Runtime, Handle);

    impl Builder {
        pub fn new_multi_thread() -> Builder {
            Builder(())
        }
        pub fn new_current_thread() -> Builder {
            Builder(())
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn worker_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            let rt = tokio::runtime::Builder::new_current_thread().build()?;
            let handle = Handle(rt.handle().clone());
            Ok(Runtime(rt, handle))
        }
    }

    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            Builder(()).build()
        }
        pub fn enter(&self) -> EnterGuard<'_> {
            self.0.enter()
        }
        pub fn handle(&self) -> &Handle {
            &self.1
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> super::task::JoinHandle<R>
        where
            F: FnOnce() -> R + 'static,
            R: 'static,
        {
            super::task::spawn_blocking(f)
        }
        pub fn shutdown_background(self) {}
        pub fn spawn<F>(&self, f: F) -> super::task::JoinHandle<F::Output>
        where
            F: Future + 'static,
            F::Output: 'static,
        {
            super::task::spawn(f)
        }

        pub fn block_on<F: Future>(&self, fut: F) -> F::Output {
            let _guard = self.0.enter();
            let driver = sim::DRIVER.with(|d| d.get()).expect("no scheduler");
            let flag = sim::new_flag();
            let waker = sim::waker(&flag);
            let mut fut = std::pin::pin!(fut);
            loop {
                let woken = flag.0.load(Ordering::SeqCst);
                let ready: Vec<usize> = sim::TASKS.with(|t| {
                    t.borrow()
                        .iter()
                        .enumerate()
                        .filter(|(_, t)| t.fut.is_some() && t.flag.0.load(Ordering::SeqCst))
                        .map(|(i, _)| i)
                        .collect()
                });
                // the driver outlives the run and is only used here
                match unsafe { (*driver).step(woken, &ready) } {
                    Step::Again => {}
                    Step::PollMain => {
                        flag.0.store(false, Ordering::SeqCst);
                        let mut cx = Context::from_waker(&waker);
                        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
                            return v;
                        }
                    }
                    Step::PollTask(i) => {
                        let (fut, flag) = sim::TASKS.with(|t| {
                            let t = &mut t.borrow_mut()[i];
                            (t.fut.take(), t.flag.clone())
                        });
                        if let Some(mut f) = fut {
                            flag.0.store(false, Ordering::SeqCst);
                            let w = sim::waker(&flag);
                            let mut cx = Context::from_waker(&w);
                            if f.as_mut().poll(&mut cx).is_pending() {
                                sim::TASKS.with(|t| t.borrow_mut()[i].fut = Some(f));
                            }
                        }
                    }
                    Step::Kill => {
                        if let Some(w) = World::current() {
                            w.fire("process:killed");
                        }
                        std::panic::resume_unwind(Box::new(Killed))
                    }
                }
            }
        }
    }
}

pub mod task {
    use super::sim;
    use std::cell::RefCell;
    use std::future::Future;
    use std::pin::Pin;
    use std::rc::Rc;
    use std::task::{Context, Poll, Waker};
    pub use tokio::task::*;

    use std::any::Any;

    /// Why a task has no result.
    pub struct JoinError(Option<Box<dyn Any + Send + 'static>>);
    impl JoinError {
        pub fn is_cancelled(&self) -> bool {
            self.0.is_none()
        }
        pub fn is_panic(&self) -> bool {
            self.0.is_some()
        }
        pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
            self.0.expect("the task did not panic")
        }
        pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
            self.0.ok_or(JoinError(None))
        }
    }
    impl std::fmt::Debug for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            std::fmt::Display::fmt(self, f)
        }
    }
    impl std::fmt::Display for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(if self.is_panic() { "task panicked" } else { "task was cancelled" })
        }
    }
    impl std::error::Error for JoinError {}

    struct Slot<T> {
        result: Option<Result<T, JoinError>>,
        done: bool,
        waker: Option<Waker>,
    }
    impl<T> Slot<T> {
        fn finish(&mut self, r: Result<T, JoinError>) {
            if !self.done {
                self.done = true;
                self.result = Some(r);
                if let Some(w) = self.waker.take() {
                    w.wake()
                }
            }
        }
    }
    pub struct JoinHandle<T>(Rc<RefCell<Slot<T>>>, usize);
    // the simulation runs on one thread
    unsafe impl<T> Send for JoinHandle<T> {}
    unsafe impl<T> Sync for JoinHandle<T> {}
    impl<T> Unpin for JoinHandle<T> {}
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            // a task that is being polled has taken its future away: it cannot abort itself here
            let fut = sim::TASKS.with(|t| t.borrow_mut()[self.1].fut.take());
            if fut.is_some() {
                drop(fut);
                self.0.borrow_mut().finish(Err(JoinError(None)));
            }
        }
        pub fn is_finished(&self) -> bool {
            self.0.borrow().done
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut s = self.0.borrow_mut();
            match s.result.take() {
                Some(v) => Poll::Ready(v),
                None => {
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }

    /// The task becomes runnable; when it runs is up to the scheduler.
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + 'static,
        F::Output: 'static,
    {
        let slot = Rc::new(RefCell::new(Slot { result: None, done: false, waker: None }));
        let s2 = slot.clone();
        let mut f = Box::pin(f);
        let fut = Box::pin(std::future::poll_fn(move |cx| {
            // a task that panics does not take others with it
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(cx)));
            let r = match r {
                Ok(Poll::Pending) => return Poll::Pending,
                Ok(Poll::Ready(v)) => Ok(v),
                Err(e) if e.is::<super::Killed>() => std::panic::resume_unwind(e),
                Err(e) => Err(JoinError(Some(e))),
            };
            s2.borrow_mut().finish(r);
            Poll::Ready(())
        }));
        let n = sim::TASKS.with(|t| {
            t.borrow_mut().push(sim::Task { fut: Some(fut), flag: sim::new_flag() });
            t.borrow().len() - 1
        });
        JoinHandle(slot, n)
    }

    pub struct JoinSet<T>(Vec<JoinHandle<T>>);
    impl<T: 'static> Default for JoinSet<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: 'static> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet(vec![])
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn spawn<F>(&mut self, f: F)
        where
            F: Future<Output = T> + 'static,
        {
            self.0.push(spawn(f))
        }
        pub fn abort_all(&mut self) {
            self.0.iter().for_each(|h| h.abort())
        }
        pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
            for i in 0..self.0.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.0[i]).poll(cx) {
                    self.0.swap_remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            if self.0.is_empty() {
                Poll::Ready(None)
            } else {
                Poll::Pending
            }
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            std::future::poll_fn(|cx| self.poll_join_next(cx)).await
        }
        pub async fn shutdown(&mut self) {
            self.abort_all();
            while self.join_next().await.is_some() {}
        }
    }
    impl<T> Drop for JoinSet<T> {
        fn drop(&mut self) {
            self.0.iter().for_each(|h| h.abort())
        }
    }

    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + 'static,
        R: 'static,
    {
        spawn(async move { f() })
    }
    pub fn block_in_place<F, R>(f: F) -> R
    where
        F: FnOnce() -> R,
    {
        f()
    }
}
pub use task::spawn;
