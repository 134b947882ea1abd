//! P08, P09, P10: which bucket an identifier belongs to (anchored in dht/routing_table/table.rs).
use super::*;
use super::vp_table::{any_id, first_diff, home_of, table_of};

// @claim: an identifier sharing exactly i leading bits with the own one belongs to bucket i, and to the last bucket if it shares more
#[kani::proof]
#[kani::unwind(22)]
#[kani::stub(ID::first_diff_bit_idx, super::vp_table::first_diff)]
fn bucket_of_an_identifier() {
    let n: usize = kani::any();
    kani::assume(1 <= n && n <= 161);
    let (own, id) = (any_id(), any_id());
    let t = table_of(own, n);
    assert!(t.find_bucket_idx_by_id(&id) == home_of(&own, &id, n), "the bucket of its common prefix");
    kani::cover!(n == 161 && first_diff(&own, &id) == Some(159));
    kani::cover!(first_diff(&own, &id).is_none());
    kani::cover!(n == 3 && first_diff(&own, &id) == Some(100));
}

