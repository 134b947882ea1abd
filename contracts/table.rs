//! P08, P09, P10: contracts of the routing table (anchored in dht/routing_table/table.rs).
use super::*;
use crate::dht::routing_table::bucket::vp_bucket::{any_node, at_any_time, good, node_eq, set, slot, K};
use crate::ghost;
use crate::vph::{addr_eq, any_addr, id_eq, Room};
use core::mem::{forget, ManuallyDrop};

/// Length of the common prefix of two identifiers, None if they are equal: the contract of
/// `ID::first_diff_bit_idx` (P01).
pub(crate) fn first_diff(a: &ID, b: &ID) -> Option<usize> {
    let (x, y) = crate::dht::routing_table::bucket::vp_bucket::distance(a.as_byte_ref(), b.as_byte_ref());
    if x != 0 { Some(x.leading_zeros() as usize) } else if y != 0 { Some(128 + y.leading_zeros() as usize) } else { None }
}
pub(crate) fn any_id() -> ID { ID::new(kani::any()) }
/// A table of `n` buckets that nobody looks into.
pub(crate) fn table_of(own_id: ID, n: usize) -> ManuallyDrop<RoutingTable> {
    ManuallyDrop::new(RoutingTable { own_id, data: unsafe { Vec::from_raw_parts(core::ptr::NonNull::<Bucket>::dangling().as_ptr(), n, 161) } })
}
pub(crate) fn home_of(own: &ID, id: &ID, n: usize) -> usize { home(own, id, n) }
/// The bucket an identifier belongs to.
fn home(own: &ID, id: &ID, n: usize) -> usize { match first_diff(own, id) { Some(d) if d < n => d, _ => n - 1 } }

ghost! {
    TRIES: usize = 0;
    SPLITS: usize = 0;
    BEFORE: usize = 0;
    ID_OK: bool = true;
    THE_ID: [u8; 20] = [0; 20];
    TRIED: usize = 77;
    INSERTED: usize = 0;
}
/// Any attempt may be refused; the attempt after a split stands for the recursive call on the
/// table with one bucket more, to which this same obligation applies.
fn attempt(_t: &mut RoutingTable, id: &ID, _a: &SocketAddrV4) -> Result<()> {
    unsafe {
        if !id_eq(id, &ID::new(THE_ID.v)) { ID_OK.v = false; }
        TRIES.v += 1;
        if TRIES.v > 1 || kani::any() { Ok(()) } else { Err(anyhow!("full")) }
    }
}
fn any_range(_t: &RoutingTable, _id: &ID) -> bool { kani::any() }
fn one_more(t: &mut RoutingTable) {
    unsafe {
        SPLITS.v += 1;
        assert!(t.data.len() <= 160, "a table of 161 buckets is never split");
        let n = t.data.len();
        t.data.set_len(n + 1);
    }
}
// @claim: an insertion splits the last bucket only after a refusal and never makes more than 161 buckets
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(RoutingTable::try_insert, attempt)]
#[kani::stub(RoutingTable::id_within_splittable_bucket, any_range)]
#[kani::stub(RoutingTable::split, one_more)]
fn never_more_than_161_buckets() {
    let n: usize = kani::any();
    kani::assume(1 <= n && n <= 161);
    let raw: [u8; 20] = kani::any();
    unsafe { THE_ID.v = raw; BEFORE.v = n; }
    let mut t = table_of(any_id(), n);
    t.insert_new_good(ID::new(raw), any_addr());
    unsafe {
        assert!(t.data.len() <= 161 && t.data.len() == n + SPLITS.v, "at most 161 buckets");
        assert!(ID_OK.v && SPLITS.v <= 1 && TRIES.v == 1 + SPLITS.v, "the same node is tried, again only after a split");
        kani::cover!(n == 160 && SPLITS.v == 1);
        kani::cover!(n == 161);
    }
}

pub(crate) fn marked(depth: usize, port: u16) -> Bucket {
    let mut b = Bucket::new(depth);
    set(&mut b, 0, Some(Node::new_good(ID::new([port as u8; 20]), SocketAddrV4::new(std::net::Ipv4Addr::new(1, 2, 3, 4), port))));
    b
}
pub(crate) fn mark(b: &Bucket) -> u16 { match slot(b, 0) { Some(n) => n.addr.port(), None => 0 } }
/// The contract of `Bucket::split`: the half whose bit at the depth is 0 and the half with 1.
fn halves(b: Bucket) -> (Bucket, Bucket) {
    assert!(mark(&b) == 9, "the last bucket is split");
    let d = b.depth();
    forget(b);
    (marked(d + 1, 10), marked(d + 1, 11))
}
fn split_at(n: usize) {
    let depth: usize = kani::any();
    kani::assume(depth < 160);
    let own = any_id();
    let mut room: Room<Bucket, 5> = Room::new();
    let mut data = room.vec();
    let mut i = 0;
    while i + 1 < n { crate::vph::put(&mut data, marked(depth, 1 + i as u16)); i += 1; }
    crate::vph::put(&mut data, marked(depth, 9));
    let mut t = ManuallyDrop::new(RoutingTable { own_id: own, data });
    t.split();
    assert!(t.data.len() == n + 1, "one bucket more");
    let mut i = 0;
    while i + 1 < n { assert!(mark(&t.data[i]) == 1 + i as u16, "the other buckets stay"); i += 1; }
    let bit = (own.as_byte_ref()[depth / 8] >> (7 - depth % 8)) & 1;
    assert!(mark(&t.data[n]) == 10 + bit as u16, "the half with the own identifier's bit becomes the last bucket");
    assert!(mark(&t.data[n - 1]) == 11 - bit as u16, "the other half comes before it");
    assert!(t.data[n].depth() == depth + 1 && t.data[n - 1].depth() == depth + 1, "both one level deeper");
    kani::cover!(bit == 1 && depth == 159);
}
macro_rules! split_at { ($name:ident, $n:expr) => { #[kani::proof] #[kani::unwind(6)] #[kani::stub(Bucket::split, halves)] #[kani::stub(std::vec::Vec::push, crate::vph::vec_push)] fn $name() { split_at($n); } }; }
// @claim: splitting replaces the last bucket by its half away from the own identifier and its half around it
// @case: one bucket
split_at!(split_the_only_bucket, 1);
// @claim: splitting replaces the last bucket by its half away from the own identifier and its half around it
// @bound: three buckets
split_at!(split_the_last_of_three, 3);

// @claim: an empty table has one empty bucket of depth 0
#[kani::proof]
#[kani::unwind(22)]
fn empty_table() {
    let t = RoutingTable::default();
    assert!(t.data.len() == 1 && t.data[0].depth() == 0);
    let mut i = 0;
    while i < K { assert!(slot(&t.data[0], i).is_none()); i += 1; }
    kani::cover!();
    forget(t);
}

fn record_bucket(b: &mut Bucket, id: &ID, _a: &SocketAddrV4) -> Result<()> {
    unsafe { TRIED.v = mark(b) as usize; if !id_eq(id, &ID::new(THE_ID.v)) { ID_OK.v = false; } }
    if kani::any() { Ok(()) } else { Err(anyhow!("full")) }
}
fn three(own: ID) -> [Bucket; 3] { let _ = own; [marked(1, 1), marked(2, 2), marked(2, 3)] }
// @claim: a node is inserted into the bucket of its identifier
// @bound: three buckets
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(ID::first_diff_bit_idx, first_diff)]
#[kani::stub(Bucket::try_insert, record_bucket)]
fn inserted_into_its_bucket() {
    let own = any_id();
    let raw: [u8; 20] = kani::any();
    unsafe { THE_ID.v = raw; }
    let mut room: Room<Bucket, 3> = Room::new();
    let mut data = room.vec();
    for b in three(own) { crate::vph::put(&mut data, b); }
    let mut t = ManuallyDrop::new(RoutingTable { own_id: own, data });
    let r = t.try_insert(&ID::new(raw), &any_addr());
    unsafe { assert!(ID_OK.v && TRIED.v == 1 + home(&own, &ID::new(raw), 3), "the bucket of its common prefix"); TRIED.v = 78; }
    kani::cover!(r.is_ok() && home(&own, &ID::new(raw), 3) == 1);
    forget(r);
}

fn record_insert(_t: &mut RoutingTable, id: ID, _a: SocketAddrV4) {
    unsafe { INSERTED.v += 1; if !id_eq(&id, &ID::new(THE_ID.v)) { ID_OK.v = false; } }
}
// @claim: a known node is only marked as seen now, an unknown one is inserted once
// @bound: two buckets
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(ID::first_diff_bit_idx, first_diff)]
#[kani::stub(Node::eq_by_id, crate::dht::routing_table::bucket::vp_bucket::same_id)]
#[kani::stub(RoutingTable::insert_new_good, record_insert)]
fn touched_or_inserted() {
    let now = at_any_time();
    let own = any_id();
    let raw: [u8; 20] = kani::any();
    unsafe { THE_ID.v = raw; }
    let id = ID::new(raw);
    let mut room: Room<Bucket, 2> = Room::new();
    let mut data = room.vec();
    let (a, b) = (any_node(now), any_node(now));
    kani::assume(first_diff(&own, &a.id) == Some(0) && first_diff(&own, &b.id) != Some(0));
    let mut x = Bucket::new(1);
    set(&mut x, 1, Some(a.clone()));
    let mut y = Bucket::new(1);
    set(&mut y, 0, Some(b.clone()));
    crate::vph::put(&mut data, x);
    crate::vph::put(&mut data, y);
    let mut t = ManuallyDrop::new(RoutingTable { own_id: own, data });
    assert!(t.contains_node(&id) == (id_eq(&a.id, &id) || id_eq(&b.id, &id)), "a node is known exactly if the table holds it");
    t.touch_node(id, any_addr());
    let known = id_eq(&a.id, &id) || id_eq(&b.id, &id);
    unsafe { assert!(INSERTED.v == !known as usize && ID_OK.v, "inserted exactly if it is not known"); }
    let (n, m) = (slot(&t.data[0], 1).as_ref().unwrap(), slot(&t.data[1], 0).as_ref().unwrap());
    assert!(id_eq(&n.id, &a.id) && addr_eq(&n.addr, &a.addr) && id_eq(&m.id, &b.id) && addr_eq(&m.addr, &b.addr), "the nodes stay");
    if id_eq(&a.id, &id) { assert!(good(slot(&t.data[0], 1), now) && node_eq(m, &b), "seen now"); } else { assert!(node_eq(n, &a), "nothing else changes"); }
    if id_eq(&b.id, &id) { assert!(good(slot(&t.data[1], 0), now), "seen now"); } else { assert!(node_eq(m, &b), "nothing else changes"); }
    kani::cover!(id_eq(&a.id, &id));
    kani::cover!(id_eq(&b.id, &id));
    kani::cover!(!known);
}
