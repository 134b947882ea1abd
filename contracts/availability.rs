//! P21, P22: contracts of `TorrentManager` (anchored in torrent_manager.rs). Every harness starts
//! from an arbitrary state in which the counters are exact and shows that they are exact after
//! one arbitrary event: by induction they are after every history.
use super::*;
use crate::data_structures::SerializableBuf;
use core::mem::{forget, ManuallyDrop, MaybeUninit};
use core::ptr::addr_of_mut;
use std::net::Ipv4Addr;

/// Number of pieces: not a multiple of 8, more than one byte is covered by P02.
pub const N: usize = 3;
pub fn peer(i: u8) -> Peer { Peer::new(SocketAddrV4::new(Ipv4Addr::new(10, 0, 0, i), 80)) }
fn vec_of<T: Copy>(a: [T; N]) -> std::vec::Vec<T> {
    let mut v = std::vec::Vec::with_capacity(N);
    unsafe { core::ptr::copy_nonoverlapping(a.as_ptr(), v.as_mut_ptr(), N); v.set_len(N); }
    v
}
pub fn bitmap(bits: [bool; N]) -> Bitmap {
    let mut b = Bitmap::new(N);
    let mut i = 0;
    while i < N { if bits[i] { b.change(i, true); } i += 1; }
    b
}
pub struct Model { pub haves: [[bool; N]; 2], pub working: [[bool; N]; 2], pub choking: [bool; 2], pub local: [bool; N] }
/// A manager that is connected to peers 0..PEERS, with exact counters. `metainfo`, `connection`
/// and `fs` are left out: the functions under contract here that use them have them stubbed.
pub fn manager<const PEERS: usize>() -> (ManuallyDrop<Box<MaybeUninit<TorrentManager>>>, Model) { manager_with::<PEERS>(None) }
pub fn manager_with<const PEERS: usize>(working: Option<[[bool; N]; 2]>) -> (ManuallyDrop<Box<MaybeUninit<TorrentManager>>>, Model) {
    let mut m = Model { haves: kani::any(), working: kani::any(), choking: kani::any(), local: kani::any() };
    if let Some(w) = working { m.working = w }
    let mut freq = [0u16; N];
    let mut assigned = [0u8; N];
    let mut active = [false; N];
    let mut peers = HashMap::new();
    let mut p = 0;
    while p < PEERS {
        let mut i = 0;
        while i < N {
            freq[i] += m.haves[p][i] as u16;
            assigned[i] += m.working[p][i] as u8;
            active[i] |= m.working[p][i];
            i += 1;
        }
        let mut info = PeerInfo::new(N);
        info.choking = m.choking[p];
        info.interested = kani::any();
        info.haves = bitmap(m.haves[p]);
        info.working = bitmap(m.working[p]);
        forget(peers.insert(peer(p as u8), info));
        p += 1;
    }
    let mut b: Box<MaybeUninit<TorrentManager>> = Box::new(MaybeUninit::uninit());
    let t = b.as_mut_ptr();
    unsafe {
        addr_of_mut!((*t).active_peers).write(peers);
        addr_of_mut!((*t).inactive_peers).write(std::vec::Vec::with_capacity(2));
        addr_of_mut!((*t).local_data).write(bitmap(m.local));
        addr_of_mut!((*t).active_pieces).write(bitmap(active));
        addr_of_mut!((*t).frequency_map).write(vec_of(freq));
        addr_of_mut!((*t).assigned_peer_count).write(vec_of(assigned));
        addr_of_mut!((*t).own_peer_id).write(ID::new([9; 20]));
    }
    (ManuallyDrop::new(b), m)
}
/// The counters equal what they count.
pub fn exact<const PEERS: usize>(t: &TorrentManager) {
    let i: usize = kani::any();
    kani::assume(i < N);
    let (mut have, mut work) = (0u16, 0u8);
    let mut p = 0;
    while p < PEERS {
        if let Some(info) = t.active_peers.get(&peer(p as u8)) {
            have += info.haves.get(i) as u16;
            work += info.working.get(i) as u8;
        }
        p += 1;
    }
    assert!(t.frequency_map.len() == N && t.frequency_map[i] == have, "the availability of a piece is the number of connected peers that have it");
    assert!(t.assigned_peer_count[i] == work, "a piece is counted as assigned to the peers that work on it");
    assert!(t.active_pieces.get(i) == (work > 0), "the active pieces are those assigned to a peer");
}
fn has(t: &TorrentManager, p: u8, i: usize) -> bool { match t.active_peers.get(&peer(p)) { Some(x) => x.haves.get(i), None => false } }
fn message(t: &mut TorrentManager, p: u8, message: ConMessageType) { t.handle_command_tmp(ConnectionMessage { peer: peer(p), message }) }

// @claim: a have message from a connected peer makes that peer, and no other, have that piece; an index outside of the torrent changes nothing
// @bound: 3 pieces, 2 connected peers; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(5)]
fn have() {
    let (mut b, m) = manager::<2>();
    let t = unsafe { b.assume_init_mut() };
    let idx: u32 = kani::any();
    message(t, 1, ConMessageType::Have(idx));
    exact::<2>(t);
    let i: usize = kani::any();
    kani::assume(i < N);
    assert!(has(t, 1, i) == (m.haves[1][i] || i == idx as usize), "the peer has what it had and the announced piece");
    assert!(has(t, 0, i) == m.haves[0][i], "other peers are not affected");
    kani::cover!(idx == 2 && !m.haves[1][2]);
    kani::cover!(idx as usize >= N);
}
// @claim: messages from a peer that is not connected change nothing
// @bound: 3 pieces, 1 connected peer; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(5)]
fn have_of_stranger() {
    let (mut b, m) = manager::<1>();
    let t = unsafe { b.assume_init_mut() };
    message(t, 1, ConMessageType::Have(kani::any()));
    exact::<2>(t);
    assert!(t.active_peers.len() == 1);
    kani::cover!();
}
fn buf(bytes: &[u8]) -> SerializableBuf {
    let mut v = std::vec::Vec::with_capacity(2);
    unsafe { core::ptr::copy_nonoverlapping(bytes.as_ptr(), v.as_mut_ptr(), bytes.len()); v.set_len(bytes.len()); }
    SerializableBuf::from(v)
}
fn bitfield<const LEN: usize>() {
    let (mut b, m) = manager::<2>();
    let t = unsafe { b.assume_init_mut() };
    let data: [u8; LEN] = kani::any();
    message(t, 1, ConMessageType::Bitfield(buf(&data)));
    exact::<2>(t);
    let i: usize = kani::any();
    kani::assume(i < N);
    assert!(has(t, 0, i) == m.haves[0][i], "other peers are not affected");
    if LEN != 1 {
        assert!(has(t, 1, i) == m.haves[1][i], "a bitfield of the wrong size is ignored");
    } else if m.haves[1] == [false; N] {
        assert!(has(t, 1, i) == (data[0] & (0x80 >> i) != 0), "the first bitfield of a peer tells what it has");
    }
    kani::cover!(m.haves[1] == [false; N]);
    kani::cover!(m.haves[1] != [false; N]);
}
// @claim: the first bitfield of a peer says which pieces it has
// @bound: 3 pieces, 2 connected peers; arbitrary state with exact counters, spare bits arbitrary
#[kani::proof]
#[kani::unwind(5)]
fn bitfield_right() { bitfield::<1>() }
// @claim: a bitfield that is too long is ignored
// @bound: 3 pieces, 2 connected peers; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(5)]
fn bitfield_long() { bitfield::<2>() }
// @claim: an empty bitfield is ignored
// @bound: 3 pieces, 2 connected peers; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(5)]
fn bitfield_empty() { bitfield::<0>() }
// @claim: a bitfield of a peer that is not connected is ignored
// @bound: 3 pieces, 1 connected peer; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(5)]
fn bitfield_of_stranger() {
    let (mut b, _m) = manager::<1>();
    let t = unsafe { b.assume_init_mut() };
    message(t, 1, ConMessageType::Bitfield(buf(&[kani::any()])));
    exact::<2>(t);
    assert!(t.active_peers.len() == 1);
    kani::cover!();
}
fn flags<const P: u8>(message_of: impl FnOnce() -> ConMessageType, choking: Option<bool>) {
    let (mut b, m) = manager::<2>();
    let t = unsafe { b.assume_init_mut() };
    message(t, P, message_of());
    exact::<2>(t);
    let i: usize = kani::any();
    kani::assume(i < N);
    assert!(t.active_peers.len() == 2 && has(t, 0, i) == m.haves[0][i] && has(t, 1, i) == m.haves[1][i], "what peers have is not affected");
    let p: u8 = kani::any();
    kani::assume(p < 2);
    let now = t.active_peers.get(&peer(p)).unwrap().choking;
    match choking {
        Some(c) if p == P => assert!(now == c, "choke and unchoke of a peer are remembered"),
        _ => assert!(now == m.choking[p as usize], "nothing else changes whether a peer chokes"),
    }
    kani::cover!();
}
// @claim: choke is remembered for that peer and changes no availability
// @bound: 3 pieces, 2 connected peers; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(5)]
fn choke() { flags::<1>(|| ConMessageType::Choke, Some(true)) }
// @claim: unchoke is remembered for that peer and changes no availability
// @bound: 3 pieces, 2 connected peers; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(5)]
fn unchoke() { flags::<0>(|| ConMessageType::Unchoke, Some(false)) }
fn request() -> crate::peers::connection::message::Request {
    let (index, begin, length): (u32, u32, u32) = kani::any();
    crate::peers::connection::message::Request { index, begin, length }
}
// @claim: this message changes no availability and never crashes the client
// @bound: 3 pieces, 2 connected peers; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(5)]
fn keep_alive() { flags::<1>(|| ConMessageType::KeepAlive, None) }
// @claim: this message changes no availability and never crashes the client
// @bound: 3 pieces, 2 connected peers; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(5)]
fn interested() { flags::<1>(|| ConMessageType::Interested, None) }
// @claim: this message changes no availability and never crashes the client
// @bound: 3 pieces, 2 connected peers; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(5)]
fn not_interested() { flags::<1>(|| ConMessageType::NotInterested, None) }
// @claim: this message changes no availability and never crashes the client
// @bound: 3 pieces, 2 connected peers; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(5)]
fn requested() { flags::<1>(|| ConMessageType::Request(request()), None) }
// @claim: this message changes no availability and never crashes the client
// @bound: 3 pieces, 2 connected peers; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(5)]
fn cancelled() { flags::<1>(|| ConMessageType::Cancel(request()), None) }
const T: bool = true;
const F: bool = false;
fn lost<const P: u8, const PEERS: usize>(unreachable: bool, working: [[bool; N]; 2]) {
    let (mut b, m) = manager_with::<PEERS>(Some(working));
    let t = unsafe { b.assume_init_mut() };
    message(t, P, if unreachable { ConMessageType::Unreachable } else { ConMessageType::Disconnected });
    exact::<2>(t);
    assert!(t.active_peers.get(&peer(P)).is_none(), "a peer that is gone is not a connected peer");
    if (P as usize) < PEERS {
        let i: usize = kani::any();
        kani::assume(i < N);
        assert!(t.active_peers.len() == PEERS - 1 && (PEERS < 2 || has(t, 1 - P, i) == m.haves[1 - P as usize][i]), "other peers are not affected");
    }
    kani::cover!();
}
/// Releasing the connection of a peer is under contract in P30.
fn disconnect_contract(_: &mut Connection, _: &Peer) {}
macro_rules! lost {
    ($name:ident, $body:expr) => {
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(crate::peers::connection::connection_handle::Connection::disconnect, disconnect_contract)]
        #[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
        fn $name() { $body }
    };
}
// @claim: a disconnected peer no longer counts
// @bound: 3 pieces, 2 connected peers, one piece assigned to both, one to each; exact counters, arbitrary haves
lost!(disconnected_first, lost::<0, 2>(false, [[T, T, F], [F, T, T]]));
// @claim: a disconnected peer no longer counts
// @bound: 3 pieces, 2 connected peers, pieces assigned to one of them; exact counters, arbitrary haves
lost!(disconnected_second, lost::<1, 2>(false, [[F, F, F], [T, F, T]]));
// @claim: an unreachable peer no longer counts
// @bound: 3 pieces, 1 connected peer; exact counters, arbitrary haves
lost!(unreachable, lost::<0, 1>(true, [[F, F, F], [F, F, F]]));
// @claim: a second report that a peer is gone changes nothing
// @bound: 3 pieces, 1 connected peer; exact counters, arbitrary haves
lost!(gone_twice, lost::<1, 1>(false, [[F, T, F], [F, F, F]]));
