//! P30: contracts of `Connection::connect` and `Connection::disconnect` (anchored in
//! peers/connection/connection_handle.rs).
use super::*;
use crate::vph::poll_once;
use core::mem::{forget, ManuallyDrop};
use core::pin::Pin;

crate::ghost! {
    DOWNLOADER: Option<shutdown::Receiver> = None;
    MANAGER: Option<shutdown::Receiver> = None;
    DOWNLOADERS: usize = 0;
    MANAGERS: usize = 0;
    PORT: u16 = 0;
}
fn downloader_contract(
    peer: Peer, a: mpsc::Sender<Message>, b: mpsc::Sender<ConnectionMessage>, c: mpsc::Receiver<Piece>,
    d: mpsc::Receiver<PeerManagerCommand>, e: PendingPieces, f: UnchokeWaiter, s: shutdown::Receiver,
) {
    unsafe { DOWNLOADERS.v += 1; PORT.v = peer.addr().port(); if DOWNLOADERS.v == 1 { DOWNLOADER.v = Some(s); } else { forget(s); } }
    forget((a, b, c, d, e, f));
}
fn manager_contract(
    _own: ID, peer: Peer, _h: ID, a: mpsc::Sender<Piece>, b: mpsc::Sender<SocketAddrV4>, c: mpsc::Sender<ConnectionMessage>,
    d: mpsc::Receiver<Message>, s: shutdown::Receiver,
) {
    unsafe { MANAGERS.v += 1; PORT.v = peer.addr().port(); if MANAGERS.v == 1 { MANAGER.v = Some(s); } else { forget(s); } }
    forget((a, b, c, d));
}
fn peer(n: u16) -> Peer { Peer::new(SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 0, 1), n)) }
fn told(r: &mut shutdown::Receiver) -> bool {
    let mut f = ManuallyDrop::new(r.recv());
    poll_once(unsafe { Pin::new_unchecked(&mut *f) }).is_some()
}
macro_rules! conn {
    ($name:ident, |$c:ident| $body:block) => {
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(super::super::downloader::spawn_piece_downloader, downloader_contract)]
        #[kani::stub(super::super::connection_manager::spawn_connection_manager, manager_contract)]
        fn $name() {
            let (dht, rx) = mpsc::channel(1);
            forget(rx);
            let mut $c = ManuallyDrop::new(Connection::new(ID::new([1; 20]), ID::new([2; 20]), 4, dht));
            $body;
            kani::cover!();
        }
    };
}
// @claim: releasing a connection ends both of its tasks, and the peer can be connected again
conn!(reconnect, |c| {
    c.connect(peer(1));
    unsafe { assert!(DOWNLOADERS.v == 1 && MANAGERS.v == 1, "a connection is made"); }
    c.disconnect(&peer(1));
    unsafe { assert!(told(DOWNLOADER.v.as_mut().unwrap()) && told(MANAGER.v.as_mut().unwrap()), "the tasks of a released connection end"); }
    assert!(c.peers.len() == 0, "a released connection is gone");
    c.connect(peer(1));
    unsafe { assert!(DOWNLOADERS.v == 2 && MANAGERS.v == 2, "a peer can be connected again"); }
});
// @claim: a peer that is connected is not connected a second time
conn!(connected_once, |c| {
    c.connect(peer(1));
    c.connect(peer(1));
    unsafe { assert!(DOWNLOADERS.v == 1 && MANAGERS.v == 1, "a peer is connected once"); }
    assert!(c.peers.len() == 1);
});
// @claim: releasing a connection leaves the others
conn!(others_kept, |c| {
    c.connect(peer(1));
    c.connect(peer(2));
    c.disconnect(&peer(2));
    assert!(c.peers.len() == 1 && c.peers.get(&peer(1)).is_some(), "other connections are kept");
    unsafe { assert!(!told(DOWNLOADER.v.as_mut().unwrap()) && !told(MANAGER.v.as_mut().unwrap()), "other connections are kept"); }
    c.disconnect(&peer(2));
    assert!(c.peers.len() == 1, "releasing a connection that is not there changes nothing");
});
