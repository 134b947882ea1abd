//! P09: contract of the order of nodes (anchored in dht/routing_table/bucket.rs).
use super::*;
use super::vp_bucket::distance_order;
use crate::vph::any_addr;

// @claim: the node with the smaller XOR distance to a target comes first
#[kani::proof]
#[kani::unwind(162)]
fn order_by_distance() {
    let t: [u8; 20] = kani::any();
    let (a, b): ([u8; 20], [u8; 20]) = (kani::any(), kani::any());
    let n = |x| Node { id: ID::new(x), addr: any_addr(), last_seen: None };
    let r = n(a).cmp_by_distance_to_id(&n(b), &ID::new(t));
    assert!(r == distance_order(&a, &b, &t), "ordered by the XOR distance");
    kani::cover!(r == Ordering::Less);
}
