//! P30: contracts of `refresh_peer_list` and `mark_peer_as_inactive` (anchored in
//! torrent_manager.rs), over the contracts of the peer registry (P20) and of the connections.
use super::vp_availability::{manager, manager_with, peer, N};
use super::*;
use core::mem::forget;

crate::ghost! {
    RELEASED: [usize; 3] = [0; 3];
    CONNECTED: [usize; 3] = [0; 3];
    BATCHES: usize = 0;
    BAD: usize = 0;
    BAD_PORT: u16 = 0;
    LIMIT: usize = 0;
    GIVEN: usize = 0;
}
fn no(p: &Peer) -> usize { p.addr().ip().octets()[3] as usize }
fn disconnect_contract(_: &mut Connection, p: &Peer) { unsafe { RELEASED.v[no(p)] += 1 } }
fn connect_contract(_: &mut Connection, p: Peer) { unsafe { CONNECTED.v[no(&p)] += 1 } }
fn lost(reason_unreachable: bool, working: [[bool; N]; 2]) {
    let (mut b, _m) = manager_with::<2>(Some(working));
    let t = unsafe { b.assume_init_mut() };
    let message = if reason_unreachable { ConMessageType::Unreachable } else { ConMessageType::Disconnected };
    t.handle_command_tmp(ConnectionMessage { peer: peer(1), message });
    unsafe { assert!(RELEASED.v[1] == 1 && RELEASED.v[0] == 0, "the connection of a lost peer, and no other, is released"); }
    assert!(t.inactive_peers.len() == 1 && no(&t.inactive_peers[0].0) == 1, "a lost peer is kept to be given back to the registry");
    let s = &t.inactive_peers[0].1;
    assert!(matches!(s, PeerStatus::UnableToConnect) == reason_unreachable && (reason_unreachable || matches!(s, PeerStatus::Unknown)), "with the reason");
    assert!(t.active_peers.len() == 1, "its slot is free");
    kani::cover!();
}
macro_rules! lost {
    ($name:ident, $body:expr) => {
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(crate::peers::connection::connection_handle::Connection::disconnect, disconnect_contract)]
        #[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
        fn $name() { $body }
    };
}
// @claim: an unreachable peer frees its slot, its connection is released and it is given back as unreachable
// @bound: 2 connected peers
lost!(unreachable, lost(true, [[false; N]; 2]));
// @claim: a disconnected peer frees its slot, its connection is released and it is given back as unknown
// @bound: 2 connected peers
lost!(disconnected, lost(false, [[true, false, false], [true, false, true]]));

/// Contract of the registry (P20): at most as many peers as asked for, none of them in use.
fn batch_contract(_: &mut Peers, bad: &[(Peer, PeerStatus)], limit: usize) -> Vec<Peer> {
    let mut v = Vec::with_capacity(2);
    unsafe {
        BATCHES.v += 1;
        BAD.v = bad.len();
        if bad.len() > 0 { BAD_PORT.v = bad[0].0.addr().port() + no(&bad[0].0) as u16; }
        LIMIT.v = limit;
        let mut i = 0;
        while i < GIVEN.v && i < limit { crate::vph::put(&mut v, peer(2 - i as u8)); i += 1; }
    }
    v
}
fn refresh<const PEERS: usize>(given: usize, bad: bool) {
    let (mut b, m) = manager_with::<PEERS>(Some([[true, false, false], [false; N]]));
    let t = unsafe { b.assume_init_mut() };
    unsafe { GIVEN.v = given; }
    if bad { crate::vph::put(&mut t.inactive_peers, (peer(9), PeerStatus::Unknown)); }
    t.refresh_peer_list();
    unsafe {
        assert!(t.active_peers.len() <= MAX_ACTIVE_PEERS, "never more connected peers than the limit");
        if PEERS < MAX_ACTIVE_PEERS {
            assert!(BATCHES.v == 1 && LIMIT.v == MAX_ACTIVE_PEERS - PEERS, "free slots are filled");
            assert!(BAD.v == bad as usize && (!bad || BAD_PORT.v == 89), "lost peers are given back to the registry");
            assert!(t.inactive_peers.len() == 0, "each once");
        } else {
            assert!(BATCHES.v == 0, "no peer is taken that there is no slot for");
            assert!(t.inactive_peers.len() == bad as usize, "lost peers are not forgotten");
        }
        let n = if BATCHES.v == 1 { given } else { 0 };
        assert!(t.active_peers.len() == PEERS + n, "connected peers keep their slot");
        let mut i = 0;
        while i < 2 {
            let p = 2 - i;
            assert!(CONNECTED.v[p] == (i < n) as usize, "every peer taken, and no other, is connected, once");
            if i < n {
                let info = t.active_peers.get(&peer(p as u8)).unwrap();
                assert!(info.choking && !info.interested && info.haves.len() == N && info.haves.weight() == 0 && info.working.len() == N && info.working.weight() == 0, "a new peer chokes, has nothing and works on nothing");
            }
            i += 1;
        }
        if PEERS > 0 { assert!(t.active_peers.get(&peer(0)).unwrap().haves.get(1) == m.haves[0][1], "other peers are not affected"); }
    }
    kani::cover!();
}
macro_rules! refresh {
    ($name:ident, $body:expr) => {
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(crate::peers::connection::connection_handle::Connection::connect, connect_contract)]
        #[kani::stub(crate::peers::active_peers::Peers::return_batch_of_bad_peers_and_get_new_batch, batch_contract)]
        fn $name() { $body }
    };
}
// @claim: free slots are filled from the registry, each with a peer that is connected once; lost peers are given back
// @bound: limit scaled to 2; one slot free
refresh!(one_free, refresh::<1>(1, true));
// @claim: free slots are filled from the registry, each with a peer that is connected once
// @bound: limit scaled to 2; two slots free
refresh!(two_free, refresh::<0>(2, false));
// @claim: an empty registry leaves slots free
// @bound: limit scaled to 2; one slot free
refresh!(nobody_there, refresh::<1>(0, true));
// @claim: without a free slot nobody is connected and lost peers are not forgotten
// @bound: limit scaled to 2
refresh!(full, refresh::<2>(2, true));
