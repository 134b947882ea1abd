
//! P08, P09: the size of a bucket and of an answer (in dht/routing_table/mod.rs).
use super::*;
// @claim: a bucket and an answer hold 8 nodes (the other obligations scale this number)
#[kani::proof]
fn eight() { assert!(VP_ORIG_K_NODE_PER_BUCKET == 8, "8 nodes"); kani::cover!(); }
