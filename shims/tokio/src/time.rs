pub use tokio_real::time::*;
use crate::vp;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll};
pub use core::time::Duration;

/// An instant of the harness' clock, in whole seconds.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(pub u64);
impl Instant {
    pub fn now() -> Self { Instant(unsafe { vp::NOW_SECS.v }) }
    pub fn elapsed(&self) -> Duration { Instant::now().duration_since(*self) }
    pub fn duration_since(&self, o: Instant) -> Duration { Duration::from_secs(self.0.saturating_sub(o.0)) }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.duration_since(o) }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> { self.0.checked_sub(o.0).map(Duration::from_secs) }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { self.0.checked_sub(d.as_secs()).map(Instant) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { self.0.checked_add(d.as_secs()).map(Instant) }
}
impl core::ops::Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d.as_secs()) } }
impl core::ops::Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0 - d.as_secs()) } }
impl core::ops::Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }

pub struct Sleep;
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if unsafe { vp::SLEEP_READY.v } { Poll::Ready(()) } else { Poll::Pending }
    }
}
pub fn sleep(d: Duration) -> Sleep {
    unsafe { vp::SLEEPS.v += 1; vp::LAST_SLEEP.v = d; }
    Sleep
}
pub struct Interval;
impl Interval {
    pub fn tick(&mut self) -> Tick { Tick }
}
pub struct Tick;
impl Future for Tick {
    type Output = Instant;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Instant> {
        if unsafe { vp::SLEEP_READY.v } { Poll::Ready(Instant::now()) } else { Poll::Pending }
    }
}
pub fn interval(_d: Duration) -> Interval { Interval }
