//! `simstd`: a drop-in for `std` that the simulator puts in front of
//! llm-samplers (see /verif/DESIGN.md, "Seams").
//!
//! Built with `--cfg llm_samplers_sim`, the crate under test contains
//! `extern crate llm_samplers_simstd as std;`, so each of its `std::...`
//! paths resolves here.  Everything is the real `std` except what carries
//! nondeterminism: locks and atomics (scheduling points), `thread::sleep` and
//! `yield_now` (scheduling points), and the clocks (simulated time).
//! Outside a simulated task all of it falls through to the real thing.

pub use std::*;

pub mod sim;

pub mod sync;

pub mod thread {
    pub use std::thread::*;

    pub fn yield_now() {
        crate::sim::yield_point("thread::yield_now");
    }

    pub fn sleep(d: std::time::Duration) {
        crate::sim::advance_clock(d);
        crate::sim::yield_point("thread::sleep");
    }
}

pub mod time {
    pub use std::time::{Duration, SystemTimeError, TryFromFloatSecsError, UNIX_EPOCH};

    use std::ops::{Add, AddAssign, Sub, SubAssign};

    /// Simulated monotonic clock.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(Duration);

    impl Instant {
        pub fn now() -> Self {
            Instant(crate::sim::clock())
        }
        pub fn elapsed(&self) -> Duration {
            crate::sim::clock().saturating_sub(self.0)
        }
        pub fn duration_since(&self, earlier: Instant) -> Duration {
            self.0.saturating_sub(earlier.0)
        }
        pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
            self.0.saturating_sub(earlier.0)
        }
        pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
            self.0.checked_sub(earlier.0)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d).map(Instant)
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            self.0.checked_sub(d).map(Instant)
        }
    }
    impl Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            self.0 += d
        }
    }
    impl Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - d)
        }
    }
    impl SubAssign<Duration> for Instant {
        fn sub_assign(&mut self, d: Duration) {
            self.0 -= d
        }
    }
    impl Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }

    /// Wall clock: the simulated clock past a simulated epoch.
    pub struct SystemTime;

    impl SystemTime {
        pub const UNIX_EPOCH: std::time::SystemTime = std::time::UNIX_EPOCH;
        #[allow(clippy::new_ret_no_self)]
        pub fn now() -> std::time::SystemTime {
            std::time::UNIX_EPOCH + crate::sim::wall_clock()
        }
    }
}
