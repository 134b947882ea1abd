//! P22: contracts of the choice of pieces (anchored in torrent_manager.rs), from an arbitrary
//! state with exact counters (P21).
use super::vp_availability::{exact, manager, manager_with, peer, Model, N};
use super::*;
use core::mem::forget;

fn no(p: &Peer) -> usize { p.addr().ip().octets()[3] as usize }
fn chosen_ok<const PEERS: usize>(t: &TorrentManager, m: &Model, r: &Option<(Peer, usize)>) {
    let weight = |p: usize| { let (mut n, mut i) = (0, 0); while i < N { n += m.working[p][i] as usize; i += 1; } n };
    let assigned = |i: usize| { let (mut n, mut p) = (0, 0); while p < PEERS { n += m.working[p][i] as usize; p += 1; } n };
    match r {
        Some((p, i)) => {
            let (p, i) = (no(p), *i);
            assert!(p < PEERS && i < N, "a connected peer and a piece of the torrent are chosen");
            assert!(m.haves[p][i], "the peer has the piece");
            assert!(!m.choking[p], "the peer does not choke us");
            assert!(!m.local[i], "the piece is not downloaded yet");
            assert!(!m.working[p][i], "the peer is not working on that piece already");
            assert!(weight(p) < MAX_PIECE_PER_PEER, "a peer works on a limited number of pieces");
            assert!(assigned(i) < MAX_PEER_PER_PIECE, "a limited number of peers work on a piece");
        }
        None => (),
    }
}
fn select<const PEERS: usize>() {
    let (mut b, m) = manager::<PEERS>();
    let t = unsafe { b.assume_init_mut() };
    let r = t.sequential_select_piece();
    chosen_ok::<PEERS>(t, &m, &r);
    kani::cover!(r.is_some());
    kani::cover!(r.is_none());
}
// @claim: a piece is chosen only with a peer that can serve it and within the limits
// @bound: 3 pieces, 2 connected peers, both limits scaled to 2; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(6)]
fn chosen_of_two() { select::<2>() }
// @claim: a piece is chosen only with a peer that can serve it and within the limits
// @bound: 3 pieces, 1 connected peer, both limits scaled to 2; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(6)]
fn chosen_of_one() { select::<1>() }
// @claim: nothing is chosen without peers
// @bound: 3 pieces
#[kani::proof]
#[kani::unwind(6)]
fn chosen_of_none() {
    let (mut b, m) = manager::<0>();
    let t = unsafe { b.assume_init_mut() };
    let r = t.sequential_select_piece();
    assert!(r.is_none());
    kani::cover!();
}
// @claim: assigning a piece to a peer counts it once and changes nothing else
// @bound: 3 pieces, 2 connected peers; arbitrary state with exact counters
#[kani::proof]
#[kani::unwind(6)]
fn marked() {
    let (mut b, m) = manager::<2>();
    let t = unsafe { b.assume_init_mut() };
    let i: usize = kani::any();
    kani::assume(i < N);
    t.mark_piece_as_ongoing(peer(1), i);
    exact::<2>(t);
    let (p, j): (u8, usize) = kani::any();
    kani::assume(p < 2 && j < N);
    assert!(t.active_peers.get(&peer(p)).unwrap().working.get(j) == (m.working[p as usize][j] || (p == 1 && j == i)), "the piece is assigned to the peer");
    kani::cover!(m.working[1][i]);
    kani::cover!(!m.working[1][i]);
}

crate::ghost! {
    CHOICE: [(u8, usize); 3] = [(0, 0); 3];
    CHOICES: usize = 0;
    CHOSEN: usize = 0;
    DOWNLOADS: usize = 0;
    FAILS: [bool; 3] = [false; 3];
}
fn select_contract(_: &mut TorrentManager) -> Option<(Peer, usize, ID)> {
    unsafe {
        if CHOSEN.v >= CHOICES.v { return None; }
        let (p, i) = CHOICE.v[CHOSEN.v];
        CHOSEN.v += 1;
        Some((peer(p), i, ID::new([i as u8 + 5; 20])))
    }
}
fn download_contract(_: &mut Connection, p: Peer, idx: usize, hash: ID) -> vstd_shim::Now<anyhow::Result<()>> {
    unsafe {
        let (q, i) = CHOICE.v[DOWNLOADS.v];
        assert!(DOWNLOADS.v < CHOSEN.v && no(&p) == q as usize && idx == i && hash.as_byte_ref()[19] == i as u8 + 5, "what is chosen is downloaded: the piece, from the peer, checked with the hash of the piece");
        let fails = FAILS.v[DOWNLOADS.v];
        DOWNLOADS.v += 1;
        vstd_shim::now(|| if fails { Err(anyhow::anyhow!("gone")) } else { Ok(()) })
    }
}
fn start(choices: usize, working: [[bool; N]; 2]) {
    let (mut b, m) = manager_with::<2>(Some(working));
    let t = unsafe { b.assume_init_mut() };
    let weight = t.active_pieces.weight();
    assert!(weight <= MAX_ACTIVE_PIECES);
    unsafe {
        CHOICES.v = choices;
        CHOICE.v = [(0, 2), (1, 0), (1, 1)];
        FAILS.v = kani::any();
    }
    forget(crate::vph::block_on(t.start_downloading_new_pieces()));
    exact::<2>(t);
    assert!(t.active_pieces.weight() <= MAX_ACTIVE_PIECES, "the number of active pieces is limited");
    unsafe {
        let room = MAX_ACTIVE_PIECES - weight;
        assert!(DOWNLOADS.v == if choices < room { choices } else { room }, "what is chosen is downloaded, up to the limit");
        let mut k = 0;
        while k < 3 {
            let (p, i) = CHOICE.v[k];
            assert!(t.active_peers.get(&peer(p)).unwrap().working.get(i) == (m.working[p as usize][i] || (k < DOWNLOADS.v && !FAILS.v[k])), "a piece is assigned exactly if its download was started");
            k += 1;
        }
    }
    kani::cover!();
}
macro_rules! start {
    ($name:ident, $body:expr) => {
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::stub(super::TorrentManager::select_piece, select_contract)]
        #[kani::stub(crate::peers::connection::connection_handle::Connection::download_piece, download_contract)]
        fn $name() { $body }
    };
}
// @claim: the chosen pieces are downloaded until the limit of active pieces is reached
// @bound: 3 pieces, limit of active pieces scaled to 2; nothing active before, three choices
start!(start_up_to_limit, start(3, [[false; N]; 2]));
// @claim: the chosen pieces are downloaded until the limit of active pieces is reached
// @bound: 3 pieces, limit of active pieces scaled to 2; one piece active before
start!(start_one_more, start(3, [[false, true, false], [false; N]]));
// @claim: nothing is started at the limit of active pieces
// @bound: 3 pieces, limit of active pieces scaled to 2; two pieces active before
start!(start_none, start(2, [[false, true, false], [true, true, false]]));
// @claim: when nothing can be chosen nothing is started
// @bound: 3 pieces, limit of active pieces scaled to 2; one choice
start!(start_fewer, start(1, [[false; N]; 2]));

fn sequential_contract(_: &TorrentManager) -> Option<(Peer, usize)> { unsafe { if CHOICES.v == 0 { None } else { Some((peer(1), CHOICE.v[0].1)) } } }
// @claim: the hash a piece is downloaded with is the one the torrent lists for that piece
// @bound: 3 pieces
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(super::TorrentManager::sequential_select_piece, sequential_contract)]
fn hash_of_the_piece() {
    let (mut b, _m) = manager_with::<1>(Some([[false; N]; 2]));
    let t = unsafe { b.assume_init_mut() };
    let mut pieces = Vec::with_capacity(N);
    crate::vph::put(&mut pieces, ID::new([10; 20]));
    crate::vph::put(&mut pieces, ID::new([11; 20]));
    crate::vph::put(&mut pieces, ID::new([12; 20]));
    unsafe { core::ptr::addr_of_mut!(t.metainfo.info.pieces).write(pieces); }
    let i: usize = kani::any();
    kani::assume(i < N);
    unsafe { CHOICE.v[0].1 = i; CHOICES.v = 1; }
    match t.select_piece() {
        Some((p, j, h)) => { assert!(no(&p) == 1 && j == i && crate::vph::id_eq(&h, &ID::new([10 + i as u8; 20])), "the piece is downloaded with the hash the torrent lists for it"); }
        None => assert!(false, "what is chosen is handed out"),
    }
    unsafe { CHOICES.v = 0; }
    assert!(t.select_piece().is_none());
    kani::cover!();
}
