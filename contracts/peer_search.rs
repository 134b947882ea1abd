//! P27: contracts of the search for peers (anchored in dht/peer_fetcher.rs).
use super::*;
use crate::vph::{block_on, id_eq};
use core::mem::{forget, ManuallyDrop};

/// The distance of two identifiers as a 160-bit number.
fn distance(a: &[u8], t: &[u8]) -> (u128, u32) {
    let hi = |x: &[u8]| unsafe { u128::from_be(core::ptr::read_unaligned(x.as_ptr() as *const u128)) };
    let lo = |x: &[u8]| unsafe { u32::from_be(core::ptr::read_unaligned(x.as_ptr().add(16) as *const u32)) };
    (hi(a) ^ hi(t), lo(a) ^ lo(t))
}
fn distance_order(a: &[u8], b: &[u8], t: &[u8]) -> Ordering {
    let (x, y) = (distance(a, t), distance(b, t));
    if x.0 < y.0 || (x.0 == y.0 && x.1 < y.1) { Ordering::Less } else if x.0 == y.0 && x.1 == y.1 { Ordering::Equal } else { Ordering::Greater }
}
/// Contract of the order of identifiers (P01).
fn id_order(a: &ID, b: &ID) -> Ordering { distance_order(a.as_byte_ref(), b.as_byte_ref(), &[0; 20]) }
/// Contract of the exclusive or of identifiers (P01).
fn id_xor<'a: 'a, 'b: 'b>(a: &'a ID, b: &'b ID) -> ID {
    let (x, y) = distance(a.as_byte_ref(), b.as_byte_ref());
    let mut r = [0; 20];
    r[..16].copy_from_slice(&x.to_be_bytes());
    r[16..].copy_from_slice(&y.to_be_bytes());
    ID::new(r)
}
fn addr(n: usize) -> SocketAddrV4 { SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 0, n as u8), 7000 + n as u16) }
fn token(n: usize) -> SerializableBuf { SerializableBuf::from([n as u8].as_ref()) }
#[derive(Clone, Copy, PartialEq)]
enum Kind { P, N, U }
use Kind::*;
/// What is known of node `n`: peers (P), none (N), or nothing (U) was heard from it.
fn known(k: Kind, id: ID, n: usize) -> NodeCloseToInfoHash {
    match k {
        P => NodeCloseToInfoHash::HasPeers { id, token: token(n) },
        N => NodeCloseToInfoHash::Peerless { id, token: token(n) },
        U => NodeCloseToInfoHash::Unknown(id),
    }
}
fn kind(n: &NodeCloseToInfoHash) -> Kind { match n { NodeCloseToInfoHash::HasPeers { .. } => P, NodeCloseToInfoHash::Peerless { .. } => N, NodeCloseToInfoHash::Unknown(_) => U } }
fn id_of(n: &NodeCloseToInfoHash) -> ID { match n { NodeCloseToInfoHash::HasPeers { id, .. } | NodeCloseToInfoHash::Peerless { id, .. } | NodeCloseToInfoHash::Unknown(id) => *id } }
fn token_of(n: &NodeCloseToInfoHash) -> Option<u8> { match n { NodeCloseToInfoHash::HasPeers { token, .. } | NodeCloseToInfoHash::Peerless { token, .. } => Some(token.as_ref()[0]), _ => None } }
fn group(k: Kind) -> u8 { match k { P => 0, N => 1, U => 2 } }
/// Specification: `a` is ranked before `b`.
fn before(a: (Kind, &ID), b: (Kind, &ID), target: &ID) -> bool {
    group(a.0) < group(b.0) || (group(a.0) == group(b.0) && distance_order(a.1.as_byte_ref(), b.1.as_byte_ref(), target.as_byte_ref()) == Ordering::Less)
}
const M: usize = 3;
struct World { ids: [ID; M], target: ID, m: ManuallyDrop<NodeMap> }
fn world(kinds: [Kind; M]) -> World {
    let ids: [ID; M] = [ID::new(kani::any()), ID::new(kani::any()), ID::new(kani::any())];
    kani::assume(!id_eq(&ids[0], &ids[1]) && !id_eq(&ids[0], &ids[2]) && !id_eq(&ids[1], &ids[2]));
    let mut m: ManuallyDrop<NodeMap> = ManuallyDrop::new(HashMap::new());
    let mut i = 0;
    while i < M { forget(m.insert(addr(i), known(kinds[i], ids[i], i))); i += 1; }
    World { ids, target: ID::new(kani::any()), m }
}
fn number(a: &SocketAddrV4) -> usize { a.ip().octets()[3] as usize }
/// The rank of every node according to the specification.
fn rank(kinds: [Kind; M], w: &World) -> [usize; M] {
    let mut r = [0; M];
    let mut i = 0;
    while i < M {
        let mut j = 0;
        while j < M { if j != i && before((kinds[j], &w.ids[j]), (kinds[i], &w.ids[i]), &w.target) { r[i] += 1; } j += 1; }
        i += 1;
    }
    r
}
fn ranked(kinds: [Kind; M]) {
    let w = world(kinds);
    let v = ManuallyDrop::new(get_sorted_nodes(&w.m, &w.target));
    let r = rank(kinds, &w);
    assert!(v.len() == M, "every node, once");
    let mut i = 0;
    while i < M {
        let n = number(v[i].0);
        let mut j = 0;
        while j < M { if j == n { assert!(r[j] == i, "nodes with peers, nodes without, nodes not heard of, each by distance"); assert!(kind(v[i].1) == kinds[j] && id_eq(&id_of(v[i].1), &w.ids[j]), "an address keeps its node"); } j += 1; }
        i += 1;
    }
}
/// LOW is scaled to 2.
fn forgetting(kinds: [Kind; M]) {
    let mut w = world(kinds);
    let r = rank(kinds, &w);
    let target = w.target;
    forget_far_nodes(&mut w.m, &target);
    assert!(w.m.len() == ACTIVE_CLOSE_NODES_CAP_LOW, "as many as are to be kept");
    let mut i = 0;
    while i < M {
        match w.m.get(&addr(i)) {
            Some(n) => {
                assert!(r[i] < ACTIVE_CLOSE_NODES_CAP_LOW, "the best ranked are kept");
                assert!(kind(n) == kinds[i] && id_eq(&id_of(n), &w.ids[i]) && (kinds[i] == U || token_of(n) == Some(i as u8)), "with what is known of them");
            }
            None => assert!(r[i] >= ACTIVE_CLOSE_NODES_CAP_LOW, "the best ranked are kept"),
        }
        i += 1;
    }
}
crate::ghost! {
    SENT: usize = 0;
    TO: [usize; 4] = [9; 4];
    OK: bool = true;
    TARGET: [u8; 20] = [0xF7; 20];
    PORT: u16 = 0xF5;
    BROKEN: usize = 99;
}
fn lost() -> ConError { ConError::ConDropped { source: None } }
/// `QueryingConnection::send_announce_peer`, which may find the connection gone.
fn announced(_: &QueryingConnection, info_hash: ID, port: u16, t: SerializableBuf, target: SocketAddrV4) -> vstd_shim::Now<Result<(), ConError>> {
    unsafe {
        if !id_eq(&info_hash, &ID::new(TARGET.v)) || port != PORT.v || t.len() != 1 || t.as_ref()[0] as usize != number(&target) || target != addr(number(&target)) { OK.v = false; }
        forget(t);
        if SENT.v < 4 { TO.v[SENT.v] = number(&target); }
        SENT.v += 1;
        vstd_shim::now(|| if SENT.v > BROKEN.v { Err(lost()) } else { Ok(()) })
    }
}
/// `QueryingConnection::send_get_peers`.
fn queried(_: &QueryingConnection, info_hash: ID, target: SocketAddrV4) -> vstd_shim::Now<Result<(), ConError>> {
    unsafe {
        if !id_eq(&info_hash, &ID::new(TARGET.v)) || target.port() != 7000 + number(&target) as u16 { OK.v = false; }
        if SENT.v < 4 { TO.v[SENT.v] = number(&target); }
        SENT.v += 1;
        vstd_shim::now(|| if SENT.v > BROKEN.v { Err(lost()) } else { Ok(()) })
    }
}
/// A connection nobody looks into: its operations are the two above.
fn connection() -> core::mem::MaybeUninit<QueryingConnection> { core::mem::MaybeUninit::uninit() }
/// The number of announcements is scaled to 2.
fn announcing(kinds: [Kind; M], port: u16) {
    let mut w = world(kinds);
    let r = rank(kinds, &w);
    unsafe { TARGET.v = w.target.as_byte_ref().try_into().unwrap(); PORT.v = port; }
    let mut c = connection();
    let res = block_on(announce_peer(port, w.target, &w.m, unsafe { c.assume_init_mut() }));
    let mut holders = 0;
    let mut i = 0;
    while i < M { if kinds[i] != U { holders += 1; } i += 1; }
    let n = if holders < ANNOUNCE_TO_N_TOP_NODES { holders } else { ANNOUNCE_TO_N_TOP_NODES };
    unsafe {
        assert!(OK.v, "the torrent, the port, and to each node its own token");
        assert!(SENT.v == if n < BROKEN.v + 1 { n } else { BROKEN.v + 1 }, "to as many nodes as gave a token, up to the limit, until the connection is gone");
        assert!(res.is_err() == (n > BROKEN.v), "the loss of the connection is reported");
        // nodes with a token are ranked before those without
        let mut k = 0;
        while k < 2 { if k < SENT.v { let mut j = 0; while j < M { if j == TO.v[k] { assert!(r[j] == k && kinds[j] != U, "to the best ranked nodes that gave a token, each once"); } j += 1; } } k += 1; }
    }
    forget(res);
}
/// Nodes named in an answer: their numbers; node 0 is known already.
fn named<const N: usize>(numbers: [usize; N]) {
    let old = ID::new(kani::any());
    let mut m: ManuallyDrop<NodeMap> = ManuallyDrop::new(HashMap::new());
    forget(m.insert(addr(0), known(N_KIND, old, 0)));
    let target = ID::new(kani::any());
    unsafe { TARGET.v = target.as_byte_ref().try_into().unwrap(); }
    let ids: [ID; N] = [(); N].map(|_| ID::new(kani::any()));
    let mut nodes = Box::new([(); N].map(|_| Node::new_good(ID::new([0; 20]), addr(0))));
    let mut i = 0;
    while i < N { nodes[i].id = ids[i]; nodes[i].addr = addr(numbers[i]); i += 1; }
    let v = if N == 0 { Vec::new() } else { unsafe { Vec::from_raw_parts(Box::into_raw(nodes) as *mut Node, N, N) } };
    let mut c = connection();
    let res = block_on(get_peers_from_new_nodes(target, as_nodes(v), &mut m, unsafe { c.assume_init_mut() }));
    // what is to be asked: each unknown address once, in order
    let (mut asked, mut list) = (0, [9; 4]);
    let mut i = 0;
    while i < N {
        let mut new = numbers[i] != 0;
        let mut j = 0;
        while j < i { if numbers[j] == numbers[i] { new = false; } j += 1; }
        if new { list[asked] = numbers[i]; asked += 1; }
        i += 1;
    }
    unsafe {
        let broke = asked > BROKEN.v;
        assert!(OK.v, "asked about the torrent");
        assert!(SENT.v == if broke { BROKEN.v + 1 } else { asked }, "each address that was not asked yet, once");
        assert!(res.is_err() == broke, "the loss of the connection is reported");
        let mut k = 0;
        while k < 3 { if k < SENT.v { assert!(TO.v[k] == list[k], "each address that was not asked yet, once"); } k += 1; }
        let held = if broke { BROKEN.v } else { asked };
        assert!(m.len() == 1 + held, "the asked nodes are known from then on");
        let mut k = 0;
        while k < 3 { if k < held { let n = m.get(&addr(list[k])); assert!(matches!(n, Some(NodeCloseToInfoHash::Unknown(_))), "as nodes not heard of yet");
            let mut i = 0; let mut first = true;
            while i < N { if first && numbers[i] == list[k] { first = false; assert!(id_eq(&id_of(n.unwrap()), &ids[i]), "under their identifier"); } i += 1; } } k += 1; }
    }
    match m.get(&addr(0)) {
        Some(n) => assert!(kind(n) == N_KIND && token_of(n) == Some(0) && id_eq(&id_of(n), &old), "what is known of a node is not forgotten"),
        None => assert!(false, "a known node stays"),
    }
    forget(res);
}
const N_KIND: Kind = Kind::N;
fn as_nodes(v: Vec<Node>) -> Nodes { Nodes::Closest(v) }
macro_rules! harness {
    ($name:ident, $body:block) => {
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(<ID as core::cmp::Ord>::cmp, id_order)]
        #[kani::stub(<&ID as core::ops::BitXor<&ID>>::bitxor, id_xor)]
        #[kani::stub(crate::dht::connection::QueryingConnection::send_announce_peer, announced)]
        #[kani::stub(crate::dht::connection::QueryingConnection::send_get_peers, queried)]
        #[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
        #[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
        fn $name() { $body; kani::cover!(); }
    };
}
// @claim: known nodes are ranked with those that returned peers first, then those that returned none, then those not heard of, each by distance
// @bound: three nodes, one of each kind
harness!(ranked_each, { ranked([N, U, P]) });
// @claim: nodes that returned peers are ranked by distance
// @bound: three nodes
harness!(ranked_with_peers, { ranked([P, P, P]) });
// @claim: ranked as above
// @bound: three nodes
harness!(ranked_without, { ranked([N, P, N]) });
// @claim: ranked as above
// @bound: three nodes
harness!(ranked_unknown, { ranked([U, N, U]) });
// @claim: the best ranked nodes are kept, with what is known of them
// @bound: three nodes, the number to keep scaled to 2
harness!(forget_each, { forgetting([U, N, P]) });
// @claim: the best ranked nodes are kept, with what is known of them
// @bound: three nodes, the number to keep scaled to 2
harness!(forget_same, { forgetting([N, N, N]) });
// @claim: the best ranked nodes are kept, with what is known of them
// @bound: three nodes, the number to keep scaled to 2
harness!(forget_unknown, { forgetting([U, U, P]) });
// @claim: announcements go to the best ranked nodes, not to more than the limit, each with its own token
// @bound: three nodes, the limit scaled to 2
harness!(announce_limited, { announcing([N, P, P], kani::any()) });
// @claim: announcements go only to nodes that gave a token, each with its own token
// @bound: three nodes, the limit scaled to 2
harness!(announce_one_holder, { announcing([U, N, U], kani::any()) });
// @claim: announcements go only to nodes that gave a token, each with its own token
// @bound: three nodes, the limit scaled to 2
harness!(announce_two_holders, { announcing([P, U, N], kani::any()) });
// @claim: nothing is announced to nodes that gave no token
// @bound: three nodes, the limit scaled to 2
harness!(announce_nobody, { announcing([U, U, U], kani::any()) });
// @claim: no more is announced once the connection is gone, which is reported
// @bound: three nodes, the limit scaled to 2
harness!(announce_connection_lost, { unsafe { BROKEN.v = 0; } announcing([P, N, N], kani::any()) });
// @claim: the nodes named in an answer are asked, each address once, and known from then on
// @bound: two nodes in the answer, one known before
harness!(name_two, { named([1, 2]) });
// @claim: a node that is known already is not asked again and keeps what is known of it
// @bound: two nodes in the answer, one known before
harness!(name_known, { named([0, 1]) });
// @claim: an address is asked once even if it is named twice
// @bound: two nodes in the answer, one known before
harness!(name_twice, { named([1, 1]) });
// @claim: a node is not known if it could not be asked; the loss of the connection is reported
// @bound: two nodes in the answer, one known before
harness!(name_connection_lost, { unsafe { BROKEN.v = 1; } named([1, 2]) });
// @claim: an answer without nodes changes nothing
harness!(name_none, { named([]) });
// @claim: nodes with peers before nodes without before nodes not heard of
#[kani::proof]
#[kani::unwind(2)]
fn groups() {
    let k = || { let x: u8 = kani::any(); if x == 0 { P } else if x == 1 { N } else { U } };
    let (a, b) = (k(), k());
    let x = ManuallyDrop::new(known_empty(a, ID::new(kani::any())));
    let y = ManuallyDrop::new(known_empty(b, ID::new(kani::any())));
    assert!(x.cmp_discriminant(&y) == group(a).cmp(&group(b)), "the groups are ranked");
    kani::cover!(a == P && b == U);
}
fn known_empty(k: Kind, id: ID) -> NodeCloseToInfoHash {
    let token = SerializableBuf::from(Vec::new());
    match k { P => NodeCloseToInfoHash::HasPeers { id, token }, N => NodeCloseToInfoHash::Peerless { id, token }, U => { forget(token); NodeCloseToInfoHash::Unknown(id) } }
}
// @claim: the limits, which the other obligations scale to 2, are 16 announcements and 128 nodes
#[kani::proof]
fn limits() {
    assert!(VP_ORIG_ANNOUNCE_TO_N_TOP_NODES <= 16, "at most 16 announcements");
    assert!(VP_ORIG_ACTIVE_CLOSE_NODES_CAP_LOW == 128, "the 128 best nodes are kept");
    assert!(VP_ORIG_ACTIVE_CLOSE_NODES_CAP_HIGH >= 128, "nodes are forgotten only if there are more than are kept");
    kani::cover!();
}

// ---- the collection of answers ----
crate::ghost! {
    SCRIPT: [(usize, u8); 2] = [(17, 17); 2];
    LENGTH: usize = 0;
    NEXT: usize = 0x11;
    FORGOT: usize = 0x12;
    ENOUGH: bool = false;
    NAMED: [u8; 20] = [0xF9; 20];
}
fn peer(n: u8) -> crate::peers::peer::Peer { crate::peers::peer::Peer::new(SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 1, n), 80)) }
/// The answers arrive one after the other, then the time is up.
fn answers(_: &mut QueryingConnection) -> vstd_shim::Now<FromConResp> {
    unsafe {
        if NEXT.v == LENGTH.v { tokio::vp::SLEEP_READY.v = true; return vstd_shim::Now::pending(); }
        let (from, kind) = SCRIPT.v[NEXT.v];
        NEXT.v += 1;
        let r = match kind {
            0 => { let mut v = Vec::with_capacity(1); crate::vph::put(&mut v, peer(from as u8)); FromConResp::GetPeers { from: addr(from), token: token(20 + from), v_or_n: ValuesOrNodes::Values { values: v } } }
            1 => FromConResp::GetPeers { from: addr(from), token: token(20 + from), v_or_n: ValuesOrNodes::Nodes { nodes: Nodes::Exact(Node::new_good(ID::new(NAMED.v), addr(2))) } },
            _ => FromConResp::Touch { id: ID::new([9; 20]), from: addr(from) },
        };
        vstd_shim::now(move || r)
    }
}
fn forgot(_: &mut NodeMap, _: &ID) { unsafe { FORGOT.v += 1; } }
fn enough(_: &Peers) -> bool { unsafe { ENOUGH.v } }
fn zero(_: u32) -> u32 { 0 }
fn is_silent(n: &NodeCloseToInfoHash, id: &ID) -> bool { kind(n) == U && id_eq(&id_of(n), id) }
/// Nodes 0 and 1 are known, nothing was heard of them. The answers are given as pairs of a
/// node and a kind.
fn collected<const L: usize>(script: [(usize, u8); L], check: fn(&NodeMap, &[ID; 2], &Peers)) {
    let ids = [ID::new(kani::any()), ID::new(kani::any())];
    let mut m: ManuallyDrop<NodeMap> = ManuallyDrop::new(HashMap::new());
    forget(m.insert(addr(0), known(U, ids[0], 0)));
    forget(m.insert(addr(1), known(U, ids[1], 1)));
    let target = ID::new(kani::any());
    unsafe {
        TARGET.v = target.as_byte_ref().try_into().unwrap();
        NAMED.v = kani::any();
        NEXT.v = 0;
        tokio::vp::SLEEP_READY.v = false;
        FORGOT.v = 0;
        LENGTH.v = L;
        let mut i = 0;
        while i < L { SCRIPT.v[i] = script[i]; i += 1; }
    }
    let mut c = connection();
    let mut peers = ManuallyDrop::new(Peers::new(&target));
    let res = block_on(fetch_peers(&target, &mut m, unsafe { c.assume_init_mut() }, &mut peers));
    assert!(res.is_ok());
    unsafe {
        assert!(OK.v && SENT.v >= 2 && TO.v[0] != TO.v[1] && TO.v[0] < 2 && TO.v[1] < 2, "every known node is asked once");
        assert!(NEXT.v == L, "every answer is taken");
    }
    check(&m, &ids, &peers);
    forget(res);
}
macro_rules! collect {
    ($name:ident, $script:expr, $check:expr) => {
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(tokio::macros::support::thread_rng_n, zero)]
        #[kani::stub(crate::dht::connection::QueryingConnection::send_get_peers, queried)]
        #[kani::stub(crate::dht::connection::QueryingConnection::recv_resp, answers)]
        #[kani::stub(forget_far_nodes, forgot)]
        #[kani::stub(crate::peers::active_peers::Peers::enough_peers, enough)]
        #[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
        #[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
        fn $name() { collected($script, $check); kani::cover!(); }
    };
}
// @claim: if nobody answers nothing is known of the nodes
// @bound: two known nodes
collect!(answer_none, [], |m, ids, _| { assert!(m.len() == 2 && is_silent(&m[&addr(0)], &ids[0]) && is_silent(&m[&addr(1)], &ids[1]) && unsafe { SENT.v == 2 }); });
// @claim: a node that returns peers is known as one, under its identifier and with the token it gave; the peers are taken
// @bound: two known nodes, one answer with one peer
collect!(answer_peers, [(1, 0)], |m, ids, p| {
    assert!(is_silent(&m[&addr(0)], &ids[0]) && m.len() == 2 && unsafe { SENT.v == 2 }, "the others stay as they were");
    let n = &m[&addr(1)];
    assert!(kind(n) == P && id_eq(&id_of(n), &ids[1]) && token_of(n) == Some(21), "with peers, its own token");
    let v = ManuallyDrop::new(p.peer_addresses());
    assert!(v.len() == 1 && *v[0].addr() == *peer(1).addr(), "the peers are taken");
});
// @claim: a node that returns nodes is known as one without peers, with the token it gave; the node it names is asked
// @bound: two known nodes, one answer with one node
collect!(answer_nodes, [(0, 1)], |m, ids, _| {
    assert!(is_silent(&m[&addr(1)], &ids[1]) && m.len() == 3, "the others stay as they were");
    let n = &m[&addr(0)];
    assert!(kind(n) == N && id_eq(&id_of(n), &ids[0]) && token_of(n) == Some(20), "without peers, its own token");
    unsafe { assert!(SENT.v == 3 && TO.v[2] == 2 && is_silent(&m[&addr(2)], &ID::new(NAMED.v)), "the named node is asked"); assert!(FORGOT.v == 1, "the set of nodes is kept small"); }
});
// @claim: answers of nodes that are not known, and other messages, change nothing
// @bound: two known nodes, two answers
collect!(answer_stranger, [(3, 1), (1, 2)], |m, ids, _| { assert!(m.len() == 2 && is_silent(&m[&addr(0)], &ids[0]) && is_silent(&m[&addr(1)], &ids[1]) && unsafe { SENT.v == 2 }); });
// @claim: two answers are told apart
// @bound: two known nodes, two answers
collect!(answer_two, [(0, 0), (1, 0)], |m, ids, p| {
    let (a, b) = (&m[&addr(0)], &m[&addr(1)]);
    assert!(kind(a) == P && id_eq(&id_of(a), &ids[0]) && token_of(a) == Some(20) && kind(b) == P && id_eq(&id_of(b), &ids[1]) && token_of(b) == Some(21) && m.len() == 2, "each its own token");
});
