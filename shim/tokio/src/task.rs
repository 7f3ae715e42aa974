use crate::sim::{self, Ended, Kind, St};
pub use real::task::{coop, unconstrained, Id, LocalSet};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Debug)]
pub struct JoinError {
    how: Ended,
}
impl JoinError {
    pub fn is_panic(&self) -> bool {
        self.how == Ended::Panicked
    }
    pub fn is_cancelled(&self) -> bool {
        self.how == Ended::Aborted
    }
    pub fn into_panic(self) -> Box<dyn std::any::Any + Send + 'static> {
        Box::new("panic in a task")
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "task {:?}", self.how)
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e.to_string())
    }
}

struct Slot<T> {
    res: Option<Result<T, JoinError>>,
    done: bool,
    waker: Option<Waker>,
}
pub struct JoinHandle<T> {
    slot: Arc<Mutex<Slot<T>>>,
    actor: usize,
}
#[derive(Clone, Debug)]
pub struct AbortHandle {
    actor: usize,
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinHandle({})", self.actor)
    }
}
fn abort(i: usize) {
    if sim::tearing() {
        return;
    }
    let a = &mut sim::w().actors[i];
    if a.st != St::Done {
        if let Kind::Task { abort, .. } = &mut a.kind {
            *abort = true;
        }
        sim::wake_actor(i);
    }
    sim::point();
}
impl AbortHandle {
    pub fn abort(&self) {
        abort(self.actor)
    }
    pub fn is_finished(&self) -> bool {
        sim::w().actors[self.actor].st == St::Done
    }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        abort(self.actor)
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { actor: self.actor }
    }
    pub fn is_finished(&self) -> bool {
        self.slot.lock().unwrap().done
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.slot.lock().unwrap();
        match s.res.take() {
            Some(r) => Poll::Ready(r),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

fn start<T: 'static>(f: Pin<Box<dyn Future<Output = T>>>) -> JoinHandle<T> {
    let slot = Arc::new(Mutex::new(Slot { res: None, done: false, waker: None }));
    let put = |s: &Arc<Mutex<Slot<T>>>, r: Result<T, JoinError>| {
        let mut s = s.lock().unwrap();
        s.res = Some(r);
        s.done = true;
        if let Some(w) = s.waker.take() {
            w.wake();
        }
    };
    let (a, b) = (slot.clone(), slot.clone());
    let fut = Box::pin(async move {
        let r = f.await;
        put(&a, Ok(r));
    });
    let on_end = Box::new(move |how| put(&b, Err(JoinError { how })));
    let actor = sim::w().add(Kind::Task { fut: Some(fut), on_end: Some(on_end), abort: false });
    sim::point();
    JoinHandle { slot, actor }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    start(Box::pin(f))
}
pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    start(Box::pin(f))
}
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    start(Box::pin(async move { f() }))
}
pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
    f()
}
pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done {
            return Poll::Ready(());
        }
        done = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

#[derive(Debug)]
pub struct JoinSet<T> {
    v: Vec<JoinHandle<T>>,
}
impl<T> Default for JoinSet<T> {
    fn default() -> Self {
        JoinSet { v: vec![] }
    }
}
impl<T: Send + 'static> JoinSet<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, f: F) -> AbortHandle {
        let h = spawn(f);
        let a = h.abort_handle();
        self.v.push(h);
        a
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| {
            if self.v.is_empty() {
                return Poll::Ready(None);
            }
            for i in 0..self.v.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) {
                    self.v.remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        })
        .await
    }
    pub fn abort_all(&mut self) {
        for h in &self.v {
            h.abort();
        }
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.v {
            h.abort();
        }
    }
}
