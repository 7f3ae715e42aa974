//! Virtual time: it passes when nothing else can happen (or when the scheduler decides so).
use crate::sim;
pub use std::time::Duration;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(u64);
fn ns(d: Duration) -> u64 {
    d.as_nanos().min(u64::MAX as u128 / 4) as u64
}
impl Instant {
    pub fn now() -> Instant {
        Instant(sim::w().now)
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_nanos(sim::w().now.saturating_sub(self.0))
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + ns(d))
    }
}
impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

#[derive(Debug)]
pub struct Sleep {
    due: u64,
    set: bool,
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.due)
    }
    pub fn is_elapsed(&self) -> bool {
        sim::w().now >= self.due
    }
    pub fn reset(mut self: Pin<&mut Self>, t: Instant) {
        self.due = t.0;
        self.set = false;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if sim::tearing() {
            return Poll::Pending;
        }
        if sim::w().now >= self.due && (self.set || self.due == 0) {
            return Poll::Ready(());
        }
        // also a sleep of no length lets the others run
        self.set = true;
        sim::add_timer(self.due, cx.waker().clone());
        Poll::Pending
    }
}
pub fn sleep(d: Duration) -> Sleep {
    Sleep { due: sim::w().now + ns(d), set: false }
}
pub fn sleep_until(t: Instant) -> Sleep {
    Sleep { due: t.0, set: false }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> Self {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}
pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = Box::pin(f);
    let mut s = Box::pin(sleep(d));
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(r) = f.as_mut().poll(cx) {
            return Poll::Ready(Ok(r));
        }
        s.as_mut().poll(cx).map(|_| Err(error::Elapsed(())))
    })
    .await
}
pub async fn timeout_at<F: Future>(t: Instant, f: F) -> Result<F::Output, error::Elapsed> {
    timeout(Duration::from_nanos(t.0.saturating_sub(sim::w().now)), f).await
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    next: u64,
    period: u64,
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        let t = Instant(self.next);
        if self.next > sim::w().now {
            sleep_until(t).await;
        }
        self.next += self.period;
        t
    }
    pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
    pub fn reset(&mut self) {
        self.next = sim::w().now + self.period;
    }
    pub fn period(&self) -> Duration {
        Duration::from_nanos(self.period)
    }
}
pub fn interval(d: Duration) -> Interval {
    Interval { next: sim::w().now, period: ns(d) }
}
pub fn interval_at(t: Instant, d: Duration) -> Interval {
    Interval { next: t.0, period: ns(d) }
}
impl fmt::Display for Sleep {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "sleep until {}", self.due)
    }
}
