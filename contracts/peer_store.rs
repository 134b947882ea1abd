//! P26: contracts of the DHT peer store (anchored in dht/dht_manager.rs).
use super::*;
use crate::vph::{block_on, id_eq};
use core::mem::{forget, ManuallyDrop};

const OWN: [u8; 20] = [1; 20];
const A: [u8; 20] = [2; 20];
const B: [u8; 20] = [3; 20];
fn peer(n: u8) -> Peer { Peer::new(SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 0, n), 80)) }
fn no(p: &Peer) -> usize { p.addr().ip().octets()[3] as usize }
crate::ghost! {
    INSERTED: usize = 0;
    INSERTED_NO: usize = 0;
    GOOD: usize = 0;
    GOOD_LIMIT: usize = 0;
    RESPONSES: usize = 0;
    VALUES: [usize; 4] = [0; 4];
    NODES: usize = 0;
    FOUND: bool = false;
}
/// Contracts of the registry of the own torrent (P20).
fn insert_contract(_: &Peers, p: Peer) { unsafe { INSERTED.v += 1; INSERTED_NO.v = no(&p); } }
fn good_contract(_: &Peers, limit: usize) -> Option<Vec<Peer>> {
    unsafe {
        GOOD_LIMIT.v = limit;
        if GOOD.v == 0 { return None; }
        let mut v = Vec::with_capacity(2);
        crate::vph::put(&mut v, peer(3));
        Some(v)
    }
}
fn own() -> ManuallyDrop<Peers> { ManuallyDrop::new(Peers::new(&ID::new(OWN))) }
/// A store which knows `n` peers of torrent A (0, 1, ...) and, if `other`, peer 3 of torrent B.
fn store(n: usize, other: bool) -> ManuallyDrop<PeerMap> {
    let mut m: ManuallyDrop<PeerMap> = ManuallyDrop::new(HashMap::new());
    if n > 0 {
        let mut s = HashSet::new();
        let mut i = 0;
        while i < n { s.insert(peer(i as u8)); i += 1; }
        forget(m.insert(ID::new(A), s));
    }
    if other { forget(m.insert(ID::new(B), HashSet::from([peer(3)]))); }
    m
}
const LIMIT: usize = DHT_MTU / COMPACT_PEER_LEN;
macro_rules! harness {
    ($name:ident, $body:block) => {
        #[kani::proof]
        #[kani::unwind(22)]
        #[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
        #[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
        #[kani::stub(crate::peers::active_peers::Peers::insert, insert_contract)]
        #[kani::stub(crate::peers::active_peers::Peers::get_good_peers, good_contract)]
        fn $name() { $body; kani::cover!(); }
    };
}
fn answer(n: usize, other: bool) {
    let (m, o) = (store(n, other), own());
    match ManuallyDrop::new(find_peers(ID::new(A), &o, &m)).as_ref() {
        Some(v) => {
            assert!(v.len() == if n < LIMIT { n } else { LIMIT }, "as many as are known, up to the limit of one answer");
            let (mut seen, mut i) = ([0; 4], 0);
            while i < v.len() { assert!(no(&v[i]) < n, "only peers stored for that torrent"); seen[no(&v[i])] += 1; i += 1; }
            assert!(seen[0] <= 1 && seen[1] <= 1 && seen[2] <= 1, "each once");
        }
        None => assert!(n == 0, "stored peers are answered"),
    }
}
// @claim: the answer holds the peers stored for that torrent, each once
// @bound: limit scaled to 2; 2 peers stored for the torrent, one for another
harness!(answer_two, { answer(2, true) });
// @claim: the answer holds no more peers than the limit, each once, only stored ones
// @bound: limit scaled to 2; 3 peers stored for the torrent
harness!(answer_limited, { answer(3, false) });
// @claim: nothing is answered for an unknown torrent
// @bound: limit scaled to 2; one peer stored for another torrent
harness!(answer_unknown, { answer(0, true) });
// @claim: for the own torrent the answer is what the registry gives out, with the limit of one answer
harness!(answer_own, {
    let (m, o) = (store(2, true), own());
    let any: bool = kani::any();
    unsafe { GOOD.v = any as usize; }
    let r = ManuallyDrop::new(find_peers(ID::new(OWN), &o, &m));
    unsafe { assert!(GOOD_LIMIT.v == LIMIT, "up to the limit of one answer"); }
    match r.as_ref() {
        Some(v) => assert!(any && v.len() == 1 && no(&v[0]) == 3, "the own torrent is answered from the registry"),
        None => assert!(!any, "the own torrent is answered from the registry"),
    }
});
fn known(m: &PeerMap, h: [u8; 20], i: u8) -> bool { match m.get(&ID::new(h)) { Some(s) => s.contains(&peer(i)), None => false } }
fn count(m: &PeerMap, h: [u8; 20]) -> usize { match m.get(&ID::new(h)) { Some(s) => s.len(), None => 0 } }
fn stored(n: usize, new: u8) {
    let (mut m, mut o) = (store(n, true), own());
    store_new_peer(peer(new), ID::new(A), &mut o, &mut m);
    assert!(known(&m, A, new), "a stored peer is known for that torrent");
    let i: u8 = kani::any();
    kani::assume(i < 4);
    assert!(known(&m, A, i) == ((i as usize) < n || i == new), "other peers of the torrent are kept");
    assert!(count(&m, A) == n + (new as usize >= n) as usize, "each once");
    assert!(count(&m, B) == 1 && known(&m, B, 3), "other torrents are not affected");
    unsafe { assert!(INSERTED.v == 0, "other torrents are not affected"); }
}
// @claim: a peer stored for a torrent that is not known yet is known for it, and nothing else changes
// @bound: one other torrent with one peer
harness!(store_first, { stored(0, 2) });
// @claim: a peer stored for a known torrent is known for it, and nothing else changes
// @bound: 2 peers of the torrent, one other torrent with one peer
harness!(store_third, { stored(2, 2) });
// @claim: storing a known peer again changes nothing
// @bound: 2 peers of the torrent, one other torrent with one peer
harness!(store_again, { stored(2, 1) });
// @claim: a peer of the own torrent is stored in the registry only
harness!(store_own, {
    let (mut m, mut o) = (store(1, true), own());
    store_new_peer(peer(2), ID::new(OWN), &mut o, &mut m);
    unsafe { assert!(INSERTED.v == 1 && INSERTED_NO.v == 2, "a peer of the own torrent is stored in the registry"); }
    assert!(count(&m, A) == 1 && count(&m, B) == 1 && count(&m, OWN) == 0, "other torrents are not affected");
});

fn resp_contract(_: &Connection, v: ValuesOrNodes, q: QueryId) -> vstd_shim::Now<Result<(), ConError>> {
    unsafe {
        RESPONSES.v += 1;
        match &v {
            ValuesOrNodes::Values { values } => { let mut i = 0; while i < values.len() { VALUES.v[no(&values[i])] += 1; i += 1; } }
            ValuesOrNodes::Nodes { .. } => NODES.v += 1,
        }
    }
    forget((v, q));
    vstd_shim::now(|| Ok(()))
}
fn find_node_contract(_: &RoutingTable, id: &ID) -> Option<Nodes> {
    assert!(id_eq(id, &ID::new(A)), "the nodes closest to the torrent are looked up");
    unsafe { if FOUND.v { Some(Nodes::Closest(Vec::new())) } else { None } }
}
macro_rules! query {
    ($name:ident, $n:expr, $found:expr, $body:block) => {
        #[kani::proof]
        #[kani::unwind(22)]
        #[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
        #[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
        #[kani::stub(crate::dht::connection::Connection::resp_to_get_peers, resp_contract)]
        #[kani::stub(crate::dht::routing_table::RoutingTable::find_node, find_node_contract)]
        fn $name() {
            let (m, mut o) = (store($n, true), own());
            let con: ManuallyDrop<Box<core::mem::MaybeUninit<Connection>>> = ManuallyDrop::new(Box::new(core::mem::MaybeUninit::uninit()));
            let mut table: ManuallyDrop<Box<core::mem::MaybeUninit<RoutingTable>>> = ManuallyDrop::new(Box::new(core::mem::MaybeUninit::uninit()));
            unsafe { FOUND.v = $found; }
            let mut m = m;
            let r = block_on(process_get_peers_query(ID::new(A), unsafe { con.assume_init_ref() }, unsafe { table.assume_init_mut() }, &mut o, &mut m, unsafe { core::mem::MaybeUninit::<QueryId>::zeroed().assume_init() }));
            assert!(r.is_ok());
            forget(r);
            $body;
            kani::cover!();
        }
    };
}
// @claim: a query for peers of a known torrent is answered with its peers
// @bound: 2 peers of the torrent
query!(query_known, 2, true, { unsafe { assert!(RESPONSES.v == 1 && VALUES.v[0] == 1 && VALUES.v[1] == 1 && VALUES.v[3] == 0 && NODES.v == 0, "known peers are the answer"); } });
// @claim: a query for peers of an unknown torrent is answered with nodes
query!(query_unknown, 0, true, { unsafe { assert!(RESPONSES.v == 1 && NODES.v == 1, "without peers the closest nodes are the answer"); } });
// @claim: a query that nothing is known about is not answered
query!(query_nothing, 0, false, { unsafe { assert!(RESPONSES.v == 0); } });
