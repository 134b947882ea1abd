use super::*;
use std::time::Duration;
use tokio::vp;

crate::ghost! { ARG: f64 = -1.0; VAL: f64 = 0.0; SECS: f64 = -1.0; }
fn formula(x: f64) -> f64 {
    unsafe {
        ARG.v = x;
        VAL.v
    }
}
fn from_secs(x: f64) -> Duration {
    unsafe { SECS.v = x };
    Duration::from_secs(7)
}

// @claim: the first turns wait the value of the growth formula for 0, 1, 2, ... and never longer than the maximum
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(std::time::Duration::from_secs_f64, from_secs)]
fn turns() {
    let max: f64 = kani::any();
    kani::assume(max.is_finite() && max >= 0.0);
    let mut t = CappedGrowingInterval::new(max, formula);
    let mut n = 0;
    while n < 3 {
        let v: f64 = kani::any();
        kani::assume(v.is_finite() && v >= 0.0);
        unsafe { VAL.v = v };
        crate::vph::block_on(t.tick());
        unsafe {
            assert!(ARG.v == n as f64, "the formula is asked for this turn's number");
            assert!(SECS.v == if v < max { v } else { max }, "waits the formula's value, capped");
            assert!(vp::SLEEPS.v == n + 1, "waits once per turn");
            assert!(vp::LAST_SLEEP.v == Duration::from_secs(7), "sleeps for that duration");
        }
        kani::cover!(n == 2 && v > max);
        n += 1;
    }
}

// @claim: any later turn does the same and moves on to the next turn
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(std::time::Duration::from_secs_f64, from_secs)]
fn later_turns() {
    let n: usize = kani::any();
    kani::assume(n < (1 << 52));
    let (max, v): (f64, f64) = kani::any();
    kani::assume(max.is_finite() && max >= 0.0 && v.is_finite() && v >= 0.0);
    let mut t = CappedGrowingInterval { growth_formula: formula, iter_count: n, max };
    unsafe { VAL.v = v };
    crate::vph::block_on(t.tick());
    unsafe {
        assert!(ARG.v == n as f64 && SECS.v == if v < max { v } else { max });
        assert!(vp::SLEEPS.v == 1);
    }
    assert!(t.iter_count == n + 1, "one turn at a time");
    kani::cover!(v > max);
}

// @claim: a wait that is given up before it is over does not count as a turn, and the value of its turn is waited again
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(std::time::Duration::from_secs_f64, from_secs)]
fn given_up() {
    let n: usize = kani::any();
    kani::assume(n < (1 << 52));
    let (max, v, w): (f64, f64, f64) = kani::any();
    kani::assume(max.is_finite() && max >= 0.0 && v.is_finite() && v >= 0.0 && w.is_finite() && w >= 0.0);
    let mut t = CappedGrowingInterval { growth_formula: formula, iter_count: n, max };
    unsafe {
        VAL.v = v;
        vp::SLEEP_READY.v = false;
    }
    {
        let mut turn = core::pin::pin!(t.tick());
        assert!(crate::vph::poll_once(turn.as_mut()).is_none(), "waits as long as the time is not over");
    }
    unsafe {
        assert!(ARG.v == n as f64);
        VAL.v = w;
        vp::SLEEP_READY.v = true;
    }
    crate::vph::block_on(t.tick());
    unsafe {
        assert!(ARG.v == n as f64, "a wait that was given up is not a turn");
        assert!(SECS.v == if w < max { w } else { max }, "waits the value of this turn");
    }
    kani::cover!(w > max);
}
