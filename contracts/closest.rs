//! P09: contracts of the lookups in the routing table (anchored in dht/routing_table/table.rs).
use super::*;
use super::vp_table::first_diff;
use crate::dht::routing_table::bucket::vp_bucket::{distance, distance_order, node_eq, node_of, set, slot, K};
use crate::ghost;
use crate::vph::id_eq;
use core::mem::ManuallyDrop;
use std::cmp::Ordering;

/// Contract of `Node::cmp_by_distance_to_id` (proved in bucket.rs).
fn by_distance(a: &Node, b: &Node, id: &ID) -> Ordering { distance_order(a.id.as_byte_ref(), b.id.as_byte_ref(), id.as_byte_ref()) }
const N: usize = 3;
/// A table of three buckets of the shape given (`g` a good node, `b` one that is not, `.` a
/// vacant slot), with any identifiers that belong there, each once.
fn any_table(now: u64, own: ID, shape: [&[u8; K]; N], data: &mut [Bucket; N]) {
    let mut i = 0;
    while i < N {
        let b = &mut data[i];
        let mut j = 0;
        while j < K {
            if shape[i][j] != b'.' {
                let n = node_of(ID::new(kani::any()), shape[i][j] == b'g', now);
                let d = first_diff(&own, &n.id);
                kani::assume(if i < N - 1 { d == Some(i) } else { match d { Some(d) => d >= i, None => true } });
                let mut k = 0;
                while k < j { if let Some(o) = slot(b, k) { kani::assume(!id_eq(&o.id, &n.id)); } k += 1; }
                set(b, j, Some(n));
            }
            j += 1;
        }
        i += 1;
    }
}
fn h0(_: &RoutingTable, _: &ID) -> usize { 0 }
fn h1(_: &RoutingTable, _: &ID) -> usize { 1 }
fn h2(_: &RoutingTable, _: &ID) -> usize { 2 }
fn lookup(home: usize, shape: [&[u8; K]; N]) {
    let now = 5000;
    unsafe { tokio::vp::NOW_SECS.v = now; }
    let (own, target) = (ID::new(kani::any()), ID::new(kani::any()));
    kani::assume(super::vp_table::home_of(&own, &target, N) == home);
    let mut data = [Bucket::new(1), Bucket::new(2), Bucket::new(2)];
    any_table(now, own, shape, &mut data);
    let t = ManuallyDrop::new(RoutingTable { own_id: own, data: unsafe { Vec::from_raw_parts(data.as_mut_ptr(), N, N) } });
    let data = ManuallyDrop::new(data);
    let mut goods = 0;
    let mut i = 0;
    while i < N { let mut j = 0; while j < K { if shape[i][j] == b'g' { goods += 1; } j += 1; } i += 1; }
    let r = t.get_closest_nodes(&target);
    assert!(r.is_some() == (goods > 0), "nothing is found exactly if no good node is known");
    if let Some(v) = r {
        let v = ManuallyDrop::new(v);
        assert!(v.len() == if goods < K { goods } else { K }, "as many as known, up to one answer");
        let mut k = 0;
        while k + 1 < v.len() { assert!(by_distance(&v[k], &v[k + 1], &target) == Ordering::Less, "nearest first, none twice"); k += 1; }
        let far = distance(v[v.len() - 1].id.as_byte_ref(), target.as_byte_ref());
        let mut found = 0;
        let mut i = 0;
        while i < N {
            let mut j = 0;
            while j < K {
                if shape[i][j] == b'g' {
                    let n = slot(&t.data[i], j).as_ref().unwrap();
                    let mut given = false;
                    let mut k = 0;
                    while k < v.len() { if id_eq(&v[k].id, &n.id) { given = true; } k += 1; }
                    if given { found += 1; } else { let d = distance(n.id.as_byte_ref(), target.as_byte_ref()); assert!(d.0 > far.0 || (d.0 == far.0 && d.1 > far.1), "no node left out is closer than one returned"); }
                }
                j += 1;
            }
            i += 1;
        }
        assert!(found == v.len(), "only good nodes of the table");
    }
}
macro_rules! lookup { ($name:ident, $home:expr, $stub:ident, $shape:expr) => {
    #[kani::proof]
    #[kani::unwind(8)]
    #[kani::stub(RoutingTable::find_bucket_idx_by_id, $stub)]
    #[kani::stub(Node::cmp_by_distance_to_id, by_distance)]
    #[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
    #[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
    fn $name() { lookup($home, $shape); kani::cover!(); }
}; }
// @claim: a lookup gives the good nodes closest to the target, nearest first: as many as one answer holds, fewer only if the table knows no more, none closer left out
// @bound: three buckets of two nodes
lookup!(target_in_the_first_full, 0, h0, [b"gg", b"gg", b"gg"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_first_mixed, 0, h0, [b"gg", b"bg", b"g."]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_first_one_each, 0, h0, [b"g.", b"bg", b".g"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_first_none_first, 0, h0, [b"..", b"gb", b".g"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_first_empty_last, 0, h0, [b"bb", b"gg", b".."]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_first_only_first, 0, h0, [b"gg", b"..", b"b."]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_first_no_good, 0, h0, [b"b.", b"..", b".b"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_middle_full, 1, h1, [b"gg", b"gg", b"gg"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_middle_mixed, 1, h1, [b"gg", b"bg", b"g."]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_middle_one_each, 1, h1, [b"g.", b"bg", b".g"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_middle_none_first, 1, h1, [b"..", b"gb", b".g"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_middle_empty_last, 1, h1, [b"bb", b"gg", b".."]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_middle_only_first, 1, h1, [b"gg", b"..", b"b."]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_middle_no_good, 1, h1, [b"b.", b"..", b".b"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_last_full, 2, h2, [b"gg", b"gg", b"gg"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_last_mixed, 2, h2, [b"gg", b"bg", b"g."]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_last_one_each, 2, h2, [b"g.", b"bg", b".g"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_last_none_first, 2, h2, [b"..", b"gb", b".g"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_last_empty_last, 2, h2, [b"bb", b"gg", b".."]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_last_only_first, 2, h2, [b"gg", b"..", b"b."]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_last_no_good, 2, h2, [b"b.", b"..", b".b"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_middle_two_for_one_place, 1, h1, [b"gg", b"g.", b"b."]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_last_two_for_one_place, 2, h2, [b"bg", b"gg", b"g."]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_last_two_far_for_one_place, 2, h2, [b"gg", b"..", b".g"]);
// @claim: a lookup gives the good nodes closest to the target, as above
// @bound: three buckets of two nodes
lookup!(target_in_the_last_two_far_for_two_places, 2, h2, [b"gg", b"b.", b"b."]);
ghost! { ASKED: usize = 0; ASK_OK: bool = true; TARGET: [u8; 20] = [3; 20]; }
fn closest(_: &RoutingTable, id: &ID) -> Option<Vec<Node>> {
    unsafe { ASKED.v += 1; if !id_eq(id, &ID::new(TARGET.v)) { ASK_OK.v = false; } }
    if kani::any() { let mut v = Vec::with_capacity(2); crate::vph::put(&mut v, node_of(ID::new([7; 20]), true, 0)); Some(v) } else { None }
}
fn exact(home: usize) {
    let own = ID::new(kani::any());
    let raw: [u8; 20] = kani::any();
    unsafe { TARGET.v = raw; }
    let target = ID::new(raw);
    kani::assume(super::vp_table::home_of(&own, &target, N) == home);
    let mut data = [Bucket::new(1), Bucket::new(2), Bucket::new(2)];
    any_table(5000, own, [b".g", b"b.", b"gg"], &mut data);
    let t = ManuallyDrop::new(RoutingTable { own_id: own, data: unsafe { Vec::from_raw_parts(data.as_mut_ptr(), N, N) } });
    let data = ManuallyDrop::new(data);
    let mut known = None;
    let mut i = 0;
    while i < N { let mut j = 0; while j < K { if let Some(n) = slot(&data[i], j) { if id_eq(&n.id, &target) { known = Some((i, j)); } } j += 1; } i += 1; }
    match ManuallyDrop::new(t.find_node(&target)).as_ref() {
        Some(Nodes::Exact(n)) => {
            assert!(known.is_some() && id_eq(&n.id, &target), "an exact answer is the known node");
            let (i, j) = known.unwrap();
            let mut a = 0;
            while a < N { let mut b = 0; while b < K { if a == i && b == j { assert!(node_eq(n, slot(&data[a], b).as_ref().unwrap()), "with its address"); } b += 1; } a += 1; }
        }
        Some(Nodes::Closest(v)) => { assert!(known.is_none() && v.len() == 1 && v[0].id.as_byte_ref()[0] == 7, "the closest nodes for an unknown identifier"); }
        None => assert!(known.is_none(), "a known node is found"),
    }
    unsafe { assert!(ASK_OK.v && (known.is_some() || ASKED.v == 1), "the closest nodes to the target are looked for"); }
    kani::cover!(known.is_some());
    kani::cover!(known.is_none());
}
macro_rules! exact { ($name:ident, $home:expr, $stub:ident) => {
    #[kani::proof]
    #[kani::unwind(8)]
    #[kani::stub(RoutingTable::find_bucket_idx_by_id, $stub)]
    #[kani::stub(RoutingTable::get_closest_nodes, closest)]
    #[kani::stub(Node::eq_by_id, crate::dht::routing_table::bucket::vp_bucket::same_id)]
    fn $name() { exact($home); }
}; }
// @claim: a known node is found itself, with its address; otherwise the closest nodes are given
// @bound: three buckets of two nodes
exact!(exact_in_the_first, 0, h0);
// @claim: a known node is found itself, with its address; otherwise the closest nodes are given
// @bound: three buckets of two nodes
exact!(exact_in_the_middle, 1, h1);
// @claim: a known node is found itself, with its address; otherwise the closest nodes are given
// @bound: three buckets of two nodes
exact!(exact_in_the_last, 2, h2);
