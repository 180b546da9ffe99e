//! Environment model of the tokio runtime: tasks on one queue, polled in an order the harness may choose
//! (`model::order`); blocking work runs where it is spawned.
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

type Task = Pin<Box<dyn Future<Output = ()>>>;
struct Q(UnsafeCell<Vec<Task>>);
unsafe impl Sync for Q {}
static QUEUE: Q = Q(UnsafeCell::new(Vec::new()));
/// blocking work not started yet (key: the handle it belongs to)
struct H(UnsafeCell<Vec<(usize, Box<dyn FnOnce()>)>>);
unsafe impl Sync for H {}
static HELD: H = H(UnsafeCell::new(Vec::new()));

pub mod model {
    use super::*;
    /// which of n runnable tasks to poll next
    pub static mut ORDER: Option<fn(usize) -> usize> = None;
    pub fn order(f: Option<fn(usize) -> usize>) {
        unsafe { ORDER = f }
    }
    /// blocking work that nobody awaits is held until `release`
    pub static mut HOLD: bool = false;
    pub fn hold(on: bool) {
        unsafe { HOLD = on }
    }
    pub fn held() -> usize {
        unsafe { (*HELD.0.get()).len() }
    }
    /// run the i-th held piece of work
    pub fn release(i: usize) {
        let (_, f) = unsafe { (*HELD.0.get()).remove(i) };
        f()
    }
    pub fn forget_held() {
        unsafe { (*HELD.0.get()).clear() }
    }
    fn noop_waker() -> Waker {
        fn clone(_: *const ()) -> RawWaker {
            RawWaker::new(std::ptr::null(), &VT)
        }
        fn nop(_: *const ()) {}
        static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
        unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
    }
    pub fn tasks() -> usize {
        unsafe { (*QUEUE.0.get()).len() }
    }
    /// drop every task (a crash)
    pub fn crash() {
        unsafe { (*QUEUE.0.get()).clear() }
    }
    fn poll_task(i: usize, cx: &mut Context<'_>) {
        let mut t = unsafe { (*QUEUE.0.get()).remove(i) };
        if t.as_mut().poll(cx).is_pending() {
            unsafe {
                let q = &mut *QUEUE.0.get();
                let at = i.min(q.len());
                q.insert(at, t)
            }
        }
    }
    pub fn block_on<F: Future>(f: F) -> F::Output {
        let w = noop_waker();
        let mut cx = Context::from_waker(&w);
        let mut f = Box::pin(f);
        let mut idle = 0u32;
        loop {
            if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                return v;
            }
            idle += 1;
            if idle > 2000 {
                panic!("deadlock: no task makes progress");
            }
            let n = tasks();
            match unsafe { ORDER } {
                Some(g) if n > 1 => {
                    let i = g(n);
                    if i < tasks() {
                        poll_task(i, &mut cx);
                    }
                }
                _ => {
                    let mut i = 0;
                    let mut left = n;
                    while left > 0 && i < tasks() {
                        let before = tasks();
                        poll_task(i, &mut cx);
                        if tasks() >= before {
                            i += 1;
                        }
                        left -= 1;
                    }
                }
            }
        }
    }
}

pub mod task {
    pub use super::{spawn, JoinHandle};
    use std::rc::Rc;
    #[derive(Debug)]
    pub struct JoinError(pub(crate) ());
    impl JoinError {
        pub fn is_cancelled(&self) -> bool {
            true
        }
        pub fn is_panic(&self) -> bool {
            false
        }
    }
    impl std::fmt::Display for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("join error")
        }
    }
    impl std::error::Error for JoinError {}
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        if unsafe { super::model::HOLD } {
            let h = JoinHandle { r: Default::default() };
            let r2 = h.r.clone();
            unsafe {
                (*super::HELD.0.get()).push((Rc::as_ptr(&h.r) as *const () as usize, Box::new(move || *r2.borrow_mut() = Some(f()))));
            }
            return h;
        }
        JoinHandle { r: std::rc::Rc::new(std::cell::RefCell::new(Some(f()))) }
    }
    pub async fn yield_now() {}
}
pub struct JoinHandle<T> {
    r: Rc<std::cell::RefCell<Option<T>>>,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {}
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, task::JoinError>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        let key = Rc::as_ptr(&self.r) as *const () as usize;
        let held = unsafe { &mut *HELD.0.get() };
        if let Some(i) = held.iter().position(|h| h.0 == key) {
            let (_, f) = held.remove(i);
            f();
        }
        let v = self.r.borrow_mut().take();
        match v {
            Some(v) => Poll::Ready(Ok(v)),
            None => Poll::Pending,
        }
    }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let r = Rc::new(std::cell::RefCell::new(None));
    let r2 = r.clone();
    let t: Task = Box::pin(async move {
        let v = f.await;
        *r2.borrow_mut() = Some(v);
    });
    unsafe { (*QUEUE.0.get()).push(t) };
    JoinHandle { r }
}
pub mod sync {
    pub use std::sync::MutexGuard;
    pub mod mpsc {
        use super::super::*;
        pub mod error {
            pub struct SendError<T>(pub T);
            impl<T> std::fmt::Debug for SendError<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("SendError")
                }
            }
            impl<T> std::fmt::Display for SendError<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("channel closed")
                }
            }
            impl<T> std::error::Error for SendError<T> {}
        }
        struct Ch<T> {
            q: std::collections::VecDeque<T>,
            cap: usize,
            tx: usize,
            closed: bool,
        }
        pub struct Sender<T>(Arc<Mutex<Ch<T>>>);
        pub struct Receiver<T>(Arc<Mutex<Ch<T>>>);
        impl<T> std::fmt::Debug for Sender<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("Sender")
            }
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                self.0.lock().unwrap().tx += 1;
                Sender(self.0.clone())
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                self.0.lock().unwrap().tx -= 1;
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                self.0.lock().unwrap().closed = true;
            }
        }
        pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
            let c = Arc::new(Mutex::new(Ch { q: Default::default(), cap, tx: 1, closed: false }));
            (Sender(c.clone()), Receiver(c))
        }
        pub type UnboundedSender<T> = Sender<T>;
        pub type UnboundedReceiver<T> = Receiver<T>;
        pub struct SendFut<'a, T>(&'a Sender<T>, Option<T>);
        impl<T> Unpin for SendFut<'_, T> {}
        impl<T> Future for SendFut<'_, T> {
            type Output = Result<(), error::SendError<T>>;
            fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
                let a = self.0 .0.clone();
                let mut c = a.lock().unwrap();
                let v = self.1.take().expect("polled after completion");
                if c.closed {
                    return Poll::Ready(Err(error::SendError(v)));
                }
                if c.q.len() >= c.cap {
                    drop(c);
                    self.1 = Some(v);
                    return Poll::Pending;
                }
                c.q.push_back(v);
                Poll::Ready(Ok(()))
            }
        }
        impl<T> Sender<T> {
            pub fn send(&self, v: T) -> SendFut<'_, T> {
                SendFut(self, Some(v))
            }
        }
        pub struct RecvFut<'a, T>(&'a Receiver<T>);
        impl<T> Future for RecvFut<'_, T> {
            type Output = Option<T>;
            fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
                let mut c = self.0 .0.lock().unwrap();
                match c.q.pop_front() {
                    Some(v) => Poll::Ready(Some(v)),
                    None if c.tx == 0 => Poll::Ready(None),
                    None => Poll::Pending,
                }
            }
        }
        impl<T> Receiver<T> {
            pub fn recv(&mut self) -> RecvFut<'_, T> {
                RecvFut(self)
            }
        }
    }
    pub mod oneshot {
        use super::super::*;
        pub mod error {
            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct RecvError(pub(crate) ());
            impl std::fmt::Display for RecvError {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("channel closed")
                }
            }
            impl std::error::Error for RecvError {}
        }
        struct Ch<T> {
            v: Option<T>,
            txgone: bool,
            rxgone: bool,
        }
        pub struct Sender<T>(Arc<Mutex<Ch<T>>>);
        pub struct Receiver<T>(Arc<Mutex<Ch<T>>>);
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let c = Arc::new(Mutex::new(Ch { v: None, txgone: false, rxgone: false }));
            (Sender(c.clone()), Receiver(c))
        }
        impl<T> Sender<T> {
            pub fn send(self, v: T) -> Result<(), T> {
                let mut c = self.0.lock().unwrap();
                if c.rxgone {
                    return Err(v);
                }
                c.v = Some(v);
                Ok(())
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                self.0.lock().unwrap().txgone = true;
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                self.0.lock().unwrap().rxgone = true;
            }
        }
        impl<T> Future for Receiver<T> {
            type Output = Result<T, error::RecvError>;
            fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
                let mut c = self.0.lock().unwrap();
                match c.v.take() {
                    Some(v) => Poll::Ready(Ok(v)),
                    None if c.txgone => Poll::Ready(Err(error::RecvError(()))),
                    None => Poll::Pending,
                }
            }
        }
    }
}
pub mod time {
    pub use std::time::{Duration, Instant as StdInstant};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Self {
            Instant(Duration::ZERO)
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    pub struct Interval(());
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            Instant::now()
        }
    }
    pub fn interval_at(_: Instant, _: Duration) -> Interval {
        Interval(())
    }
    pub async fn sleep(_: Duration) {}
}
/// All futures must succeed; they are awaited in turn (what runs in between is chosen by the task queue).
#[macro_export]
macro_rules! try_join {
    (@ ($($d:ident)*) ) => { std::result::Result::Ok(($($d,)*)) };
    (@ ($($d:ident)*) $x:ident = $e:expr $(, $($r:tt)*)? ) => {
        match $e.await {
            std::result::Result::Ok($x) => $crate::try_join!(@ ($($d)* $x) $($($r)*)?),
            std::result::Result::Err(e) => std::result::Result::Err(e),
        }
    };
    ($a:expr, $b:expr $(,)?) => { $crate::try_join!(@ () a = $a, b = $b) };
    ($a:expr, $b:expr, $c:expr $(,)?) => { $crate::try_join!(@ () a = $a, b = $b, c = $c) };
    ($a:expr, $b:expr, $c:expr, $d:expr $(,)?) => { $crate::try_join!(@ () a = $a, b = $b, c = $c, d = $d) };
    ($a:expr, $b:expr, $c:expr, $d:expr, $e:expr $(,)?) => { $crate::try_join!(@ () a = $a, b = $b, c = $c, d = $d, e = $e) };
}
