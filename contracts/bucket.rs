//! P08: contracts of the buckets of the routing table (anchored in dht/routing_table/bucket.rs).
use super::*;
use crate::vph::{addr_eq, any_addr, id_eq};
use core::mem::forget;

pub(crate) const K: usize = K_NODE_PER_BUCKET;
pub(crate) fn at_any_time() -> u64 {
    let now: u64 = kani::any();
    kani::assume(now < 1 << 40);
    unsafe { tokio::vp::NOW_SECS.v = now; }
    now
}
/// Any node: never seen (as loaded from a message or from disk) or last seen at any time.
pub(crate) fn any_node(now: u64) -> Node {
    let seen: Option<u64> = kani::any();
    if let Some(t) = seen { kani::assume(t <= now); }
    Node { id: ID::new(kani::any()), addr: any_addr(), last_seen: seen.map(Instant) }
}
pub(crate) fn node_of(id: ID, good: bool, now: u64) -> Node { Node { id, addr: any_addr(), last_seen: if good { Some(Instant(now)) } else { None } } }
pub(crate) fn good(n: &Option<Node>, now: u64) -> bool {
    match n { Some(Node { last_seen: Some(t), .. }) => now - t.0 < 15 * 60, _ => false }
}
pub(crate) fn node_eq(a: &Node, b: &Node) -> bool {
    id_eq(&a.id, &b.id) && addr_eq(&a.addr, &b.addr) && seen_eq(a, b)
}
fn seen_eq(a: &Node, b: &Node) -> bool { match (&a.last_seen, &b.last_seen) { (Some(x), Some(y)) => x.0 == y.0, (None, None) => true, _ => false } }
fn slot_eq(a: &Option<Node>, b: &Option<Node>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => node_eq(x, y), _ => false } }
/// A bucket with any contents, without an identifier twice.
pub(crate) fn any_bucket(now: u64, depth: usize) -> Bucket {
    let mut b = Bucket::new(depth);
    let mut i = 0;
    while i < K {
        if kani::any() {
            let n = any_node(now);
            let mut j = 0;
            while j < i { if let Some(o) = &b.data[j] { kani::assume(!id_eq(&o.id, &n.id)); } j += 1; }
            b.data[i] = Some(n);
        }
        i += 1;
    }
    b
}
pub(crate) fn slot(b: &Bucket, i: usize) -> &Option<Node> { &b.data[i] }
pub(crate) fn set(b: &mut Bucket, i: usize, n: Option<Node>) { unsafe { core::ptr::write(&mut b.data[i], n); } }

// @claim: a node is compared by its whole identifier
#[kani::proof]
#[kani::unwind(22)]
fn eq_by_id() {
    let n = any_node(0);
    let id = ID::new(kani::any());
    assert!(n.eq_by_id(&id) == id_eq(&n.id, &id));
    kani::cover!(n.eq_by_id(&id));
}
/// Stand-in for `Node::eq_by_id`, by its contract.
pub(crate) fn same_id(n: &Node, id: &ID) -> bool { id_eq(&n.id, id) }
// @claim: inserting a known node only marks it as seen now; a new node takes a vacant slot or, without one, the slot of a node that is not good; a bucket full of good nodes refuses it and stays as it is
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(Node::eq_by_id, same_id)]
fn try_insert() {
    let now = at_any_time();
    let mut b = any_bucket(now, kani::any());
    let before = b.clone();
    let (id, addr) = (ID::new(kani::any()), any_addr());
    let (mut known, mut vacant, mut bad) = (K, false, false);
    let mut j = 0;
    while j < K {
        match &before.data[j] {
            None => vacant = true,
            Some(n) => {
                if id_eq(&n.id, &id) { known = j; }
                if !good(&before.data[j], now) { bad = true; }
            }
        }
        j += 1;
    }
    let r = b.try_insert(&id, &addr).is_ok();
    assert!(r == (known < K || vacant || bad), "a node is refused exactly if it is new and the bucket is full of good nodes");
    let mut placed = 0;
    let mut j = 0;
    while j < K {
        if known == j {
            let (n, o) = (b.data[j].as_ref().unwrap(), before.data[j].as_ref().unwrap());
            assert!(id_eq(&n.id, &o.id) && addr_eq(&n.addr, &o.addr) && n.last_seen.unwrap().0 == now, "a known node is marked as seen now");
        } else if !slot_eq(&b.data[j], &before.data[j]) {
            placed += 1;
            assert!(before.data[j].is_none() || (!vacant && !good(&before.data[j], now)), "a node that is still good is never dropped, and none while there is room");
            let n = b.data[j].as_ref();
            assert!(n.is_some(), "no node disappears");
            let n = n.unwrap();
            assert!(id_eq(&n.id, &id) && addr_eq(&n.addr, &addr) && n.last_seen.unwrap().0 == now, "the new node, seen now");
        }
        j += 1;
    }
    assert!(placed == if known < K || !r { 0 } else { 1 }, "a new node is stored once, a known or refused one changes no other slot");
    assert!(b.depth == before.depth, "the depth stays");
    kani::cover!(known < K);
    kani::cover!(known == K && !vacant && bad);
    kani::cover!(known == K && !r);
    forget((b, before));
}

fn bit(a: &ID, i: usize) -> bool { (a.as_byte_ref()[i / 8] >> (7 - i % 8)) & 1 == 1 }
// @claim: splitting a bucket keeps every node, in the half its bit at the depth says, and both halves are one level deeper
#[kani::proof]
#[kani::unwind(5)]
fn split() {
    let now = at_any_time();
    let depth: usize = kani::any();
    kani::assume(depth < 160);
    let b = any_bucket(now, depth);
    let before = b.clone();
    let (zero, one) = b.split();
    assert!(zero.depth == depth + 1 && one.depth == depth + 1, "one level deeper");
    let mut total = 0;
    let mut i = 0;
    while i < K {
        if zero.data[i].is_some() { total += 1; }
        if one.data[i].is_some() { total += 1; }
        if let Some(n) = &before.data[i] {
            total -= 1;
            let half = if bit(&n.id, depth) { &one } else { &zero };
            let mut found = false;
            let mut j = 0;
            while j < K { if let Some(m) = &half.data[j] { if node_eq(m, n) { found = true; } } j += 1; }
            assert!(found, "every node is in the half its bit says, unchanged");
        }
        i += 1;
    }
    assert!(total == 0, "as many nodes as before");
    kani::cover!(one.data[0].is_some() && zero.data[0].is_some());
    forget((zero, one, before));
}

// @claim: get_node finds a node exactly if the bucket holds its identifier, iter_nodes and iter_over_goods give out exactly the nodes and the good ones, is_full says whether an insertion would be refused
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(Node::eq_by_id, same_id)]
fn lookups() {
    let now = at_any_time();
    let mut b = any_bucket(now, kani::any());
    let id = ID::new(kani::any());
    let (mut known, mut nodes, mut goods) = (None, 0, 0);
    let mut j = 0;
    while j < K {
        if let Some(n) = &b.data[j] {
            nodes += 1;
            if id_eq(&n.id, &id) { known = Some(j); }
            if good(&b.data[j], now) { goods += 1; }
        }
        j += 1;
    }
    match (known, b.get_node(&id)) {
        (Some(k), Some(n)) => assert!(node_eq(n, b.data[k].as_ref().unwrap()), "the node with the identifier"),
        (None, None) => (),
        _ => panic!("a node is found exactly if it is there"),
    }
    assert!(b.contains(&id) == known.is_some());
    match (known, b.get_node_mut(&id)) {
        (Some(_), Some(n)) => assert!(id_eq(&n.id, &id)),
        (None, None) => (),
        _ => panic!("a node is found exactly if it is there"),
    }
    assert!(b.iter_nodes().count() == nodes, "every node is given out");
    let mut g = 0;
    for n in b.iter_over_goods() { assert!(good(&Some(n.clone()), now), "only good nodes"); g += 1; }
    assert!(g == goods, "every good node is given out");
    assert!(b.is_full() == (goods == K), "full means full of good nodes");
    kani::cover!(known.is_some() && goods == K);
    forget(b);
}

pub(crate) fn distance(a: &[u8], t: &[u8]) -> (u128, u32) {
    let hi = |x: &[u8]| u128::from_be_bytes([x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15]]);
    let lo = |x: &[u8]| u32::from_be_bytes([x[16], x[17], x[18], x[19]]);
    (hi(a) ^ hi(t), lo(a) ^ lo(t))
}
pub(crate) fn distance_order(a: &[u8], b: &[u8], t: &[u8]) -> Ordering {
    let (x, y) = (distance(a, t), distance(b, t));
    if x.0 < y.0 || (x.0 == y.0 && x.1 < y.1) { Ordering::Less } else if x.0 == y.0 && x.1 == y.1 { Ordering::Equal } else { Ordering::Greater }
}
