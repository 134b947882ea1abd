//! P10: contract of the refresh targets (anchored in dht/routing_table/table.rs).
use super::*;
use super::vp_table::{first_diff, mark, marked};
use crate::ghost;
use crate::vph::id_eq;
use core::mem::ManuallyDrop;

ghost! { FULL: [bool; 3] = [false; 3]; }
/// Whether a bucket can take nodes is up to the harness.
fn full(b: &Bucket) -> bool { unsafe { match mark(b) { 1 => FULL.v[0], 2 => FULL.v[1], _ => FULL.v[2] } } }
fn targets(first_full: bool, second_full: bool) {
    let own = ID::new(kani::any());
    // the depths of two buckets that are not the last: 1..=160 in a table of up to 161 buckets
    let (d1, d2): (usize, usize) = (kani::any(), kani::any());
    kani::assume(1 <= d1 && d1 < d2 && d2 <= 160);
    unsafe { FULL.v = [first_full, second_full, false]; }
    let mut data = [marked(d1, 1), marked(d2, 2), marked(d2, 3)];
    let t = ManuallyDrop::new(RoutingTable { own_id: own, data: unsafe { Vec::from_raw_parts(data.as_mut_ptr(), 3, 3) } });
    let data = ManuallyDrop::new(data);
    let mut it = t.iter_over_ids_within_fillable_buckets();
    if !first_full {
        let id = it.next();
        assert!(id.is_some() && first_diff(&own, &id.unwrap()) == Some(d1 - 1), "it shares as many leading bits with the own identifier as the bucket requires");
    }
    if !second_full {
        let id = it.next();
        assert!(id.is_some() && first_diff(&own, &id.unwrap()) == Some(d2 - 1), "it shares as many leading bits with the own identifier as the bucket requires");
    }
    let id = it.next();
    assert!(id.is_some(), "the last bucket is refreshed");
    assert!(match first_diff(&own, &id.unwrap()) { Some(d) => d >= d2, None => true }, "it falls into the last bucket");
    assert!(it.next().is_none(), "one identifier for each bucket");
    kani::cover!(d1 == 1 && d2 == 160);
    kani::cover!(d1 == 80 && d2 == 81);
    let _ = data;
}
macro_rules! targets { ($name:ident, $a:expr, $b:expr) => {
    #[kani::proof]
    #[kani::unwind(22)]
    #[kani::stub(Bucket::is_full, full)]
    fn $name() { targets($a, $b); }
}; }
// @claim: the identifier for a bucket shares exactly as many leading bits with the own one as the bucket requires, for all depths and random outcomes
// @bound: three buckets of any depths
targets!(both_fillable, false, false);
// @claim: full buckets are left out, the others are refreshed in their range
// @bound: three buckets of any depths
targets!(first_full, true, false);
// @claim: full buckets are left out, the others are refreshed in their range
// @bound: three buckets of any depths
targets!(second_full, false, true);
// @claim: full buckets are left out, the last is refreshed in its range
// @bound: three buckets of any depths
targets!(both_full, true, true);

// @claim: the identifier for a bucket shares exactly as many leading bits with the own one as the bucket requires, for all depths and random outcomes
#[kani::proof]
#[kani::unwind(22)]
#[kani::stub(Bucket::is_full, full)]
fn first_target() {
    let own = ID::new(kani::any());
    let d: usize = kani::any();
    kani::assume(1 <= d && d <= 160);
    let mut data = [marked(d, 1), marked(d, 3)];
    let t = ManuallyDrop::new(RoutingTable { own_id: own, data: unsafe { Vec::from_raw_parts(data.as_mut_ptr(), 2, 2) } });
    let data = ManuallyDrop::new(data);
    let id = t.iter_over_ids_within_fillable_buckets().next().unwrap();
    assert!(first_diff(&own, &id) == Some(d - 1), "it shares as many leading bits with the own identifier as the bucket requires");
    let j: usize = kani::any();
    kani::assume(j >= d && j < 160);
    let bit = |x: &ID| (x.as_byte_ref()[j / 8] >> (7 - j % 8)) & 1;
    kani::cover!(d == 5 && bit(&id) != bit(&own));
    let _ = data;
}
