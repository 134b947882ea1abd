//! P22: contract of `Connection::download_piece` (anchored in
//! peers/connection/connection_handle.rs).
use super::*;
use crate::vph::{block_on, id_eq};
use core::mem::{forget, ManuallyDrop};

crate::ghost! {
    RX0: Option<mpsc::Receiver<PeerManagerCommand>> = None;
    RX1: Option<mpsc::Receiver<PeerManagerCommand>> = None;
    SPAWNED: usize = 0;
    ADDED: usize = 0;
    ADDED_IDX: usize = 0;
}
fn downloader_contract(
    _p: Peer, a: mpsc::Sender<Message>, b: mpsc::Sender<ConnectionMessage>, c: mpsc::Receiver<Piece>,
    d: mpsc::Receiver<PeerManagerCommand>, e: PendingPieces, f: UnchokeWaiter, s: shutdown::Receiver,
) {
    unsafe { if SPAWNED.v == 0 { RX0.v = Some(d); } else { RX1.v = Some(d); } SPAWNED.v += 1; }
    forget((a, b, c, e, f, s));
}
fn manager_contract(
    _own: ID, _p: Peer, _h: ID, a: mpsc::Sender<Piece>, b: mpsc::Sender<SocketAddrV4>, c: mpsc::Sender<ConnectionMessage>,
    d: mpsc::Receiver<Message>, s: shutdown::Receiver,
) { forget((a, b, c, d, s)); }
fn add_contract(_: &mut PendingPieces, idx: usize) -> Result<()> { unsafe { ADDED.v += 1; ADDED_IDX.v = idx; } Ok(()) }
fn peer(n: u16) -> Peer { Peer::new(SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 0, 1), n)) }
fn start_piece(to: u16) {
    let (dht, rx) = mpsc::channel(1);
    forget(rx);
    let mut c = ManuallyDrop::new(Connection::new(ID::new([1; 20]), ID::new([2; 20]), 4, dht));
    c.connect(peer(1));
    c.connect(peer(2));
    let (idx, hash): (usize, [u8; 20]) = kani::any();
    let r = block_on(c.download_piece(peer(to), idx, ID::new(hash)));
    let (a, b) = unsafe { (RX0.v.as_mut().unwrap(), RX1.v.as_mut().unwrap()) };
    assert!(a.vp_len() == (to == 1) as usize && b.vp_len() == (to == 2) as usize, "the downloader of the chosen peer, and no other, is told");
    assert!(r.is_ok() == (to < 3), "a peer that is not connected is refused");
    unsafe { assert!(ADDED.v == (to < 3) as usize && (to >= 3 || ADDED_IDX.v == idx), "the piece is registered as being downloaded"); }
    if to < 3 {
        match (if to == 1 { a } else { b }).try_recv() {
            Ok(PeerManagerCommand::StartPiece((h, i))) => assert!(i == idx && id_eq(&h, &ID::new(hash)), "the downloader is told the piece and its hash"),
            _ => assert!(false, "the downloader is told to start the piece"),
        }
    }
    forget(r);
    kani::cover!();
}
macro_rules! start_piece {
    ($name:ident, $body:expr) => {
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(super::super::downloader::spawn_piece_downloader, downloader_contract)]
        #[kani::stub(super::super::connection_manager::spawn_connection_manager, manager_contract)]
        #[kani::stub(super::super::pending_pieces::PendingPieces::add_piece, add_contract)]
        fn $name() { $body }
    };
}
// @claim: the downloader of the chosen peer is told the piece and its hash
// @bound: 2 connected peers; every index and hash
start_piece!(first_peer, start_piece(1));
// @claim: the downloader of the chosen peer is told the piece and its hash
// @bound: 2 connected peers; every index and hash
start_piece!(second_peer, start_piece(2));
// @claim: a peer that is not connected is refused
// @bound: 2 connected peers; every index and hash
start_piece!(stranger, start_piece(3));
