//! P23: contracts of `Connection::recv` and `UnchokeWaiter::wait_if_choking` (anchored in
//! peers/connection/connection_handle.rs).
use super::super::connection_manager::{ConMessageType, ConnectionMessage};
use super::*;
use crate::vph::{block_on, poll_once};
use core::mem::{forget, ManuallyDrop};

crate::ghost! {
    WAITER0: Option<UnchokeWaiter> = None;
    WAITER1: Option<UnchokeWaiter> = None;
    SPAWNED: usize = 0;
}
/// Stands for the downloader of a peer: keeps what it waits with.
fn downloader_contract(
    _peer: Peer, a: mpsc::Sender<Message>, b: mpsc::Sender<ConnectionMessage>, c: mpsc::Receiver<Piece>,
    d: mpsc::Receiver<PeerManagerCommand>, e: PendingPieces, waiter: UnchokeWaiter, f: shutdown::Receiver,
) {
    unsafe {
        if SPAWNED.v == 0 { WAITER0.v = Some(waiter); } else { WAITER1.v = Some(waiter); }
        SPAWNED.v += 1;
    }
    forget((a, b, c, d, e, f));
}
fn manager_contract(
    _own: ID, _peer: Peer, _h: ID, a: mpsc::Sender<Piece>, b: mpsc::Sender<SocketAddrV4>, c: mpsc::Sender<ConnectionMessage>,
    d: mpsc::Receiver<Message>, e: shutdown::Receiver,
) {
    forget((a, b, c, d, e));
}
fn peer(n: u16) -> Peer { Peer::new(SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 0, 1), n)) }

/// A connection with two connected peers, and what their downloaders wait with.
fn connected() -> (ManuallyDrop<Connection>, Peer, Peer) {
    let (dht, rx) = mpsc::channel(1);
    forget(rx);
    let mut c = ManuallyDrop::new(Connection::new(ID::new([1; 20]), ID::new([2; 20]), 4, dht));
    let (a, b) = (peer(1), peer(2));
    c.connect(a);
    c.connect(b);
    (c, a, b)
}
fn message(choke: bool) -> ConMessageType {
    if choke { ConMessageType::Choke } else { ConMessageType::Unchoke }
}
/// A choke or unchoke of `p` arrives.
fn arrives(c: &mut Connection, p: Peer, choke: bool) {
    forget(block_on(c.rec_tx.send(ConnectionMessage { peer: p, message: message(choke) })));
    let m = block_on(c.recv());
    assert!(m.peer.addr().port() == p.addr().port() && matches!(m.message, ConMessageType::Choke) == choke, "the message is passed on");
    forget(m);
}
fn ready(w: &mut UnchokeWaiter) -> bool {
    let mut f = ManuallyDrop::new(w.wait_if_choking());
    poll_once(unsafe { core::pin::Pin::new_unchecked(&mut *f) }).is_some()
}

macro_rules! setup {
    ($name:ident, $unwind:expr, |$c:ident, $a:ident, $b:ident, $wa:ident, $wb:ident| $body:block) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(super::super::downloader::spawn_piece_downloader, downloader_contract)]
        #[kani::stub(super::super::connection_manager::spawn_connection_manager, manager_contract)]
        fn $name() {
            let (mut conn, $a, $b) = connected();
            let $c: &mut Connection = &mut conn;
            unsafe { assert!(SPAWNED.v == 2, "one downloader per connected peer"); }
            let $wa = unsafe { WAITER0.v.as_mut().unwrap() };
            let $wb = unsafe { WAITER1.v.as_mut().unwrap() };
            $body;
            kani::cover!(true);
        }
    };
}

// @claim: a new connection is choked
setup!(starts_choked, 4, |c, a, b, wa, wb| {
    assert!(!ready(wa) && !ready(wb), "a downloader waits before the first unchoke");
});
// @claim: the last of three deliveries decides whether the downloader waits; other peers are unaffected
// @bound: three messages of one peer, two peers
setup!(last_decides, 5, |c, a, b, wa, wb| {
    let s: [bool; 3] = kani::any();
    arrives(c, a, s[0]);
    arrives(c, a, s[1]);
    arrives(c, a, s[2]);
    assert!(ready(wa) == !s[2], "the downloader waits exactly when choked");
    assert!(!ready(wb), "the state of another peer is unaffected");
    kani::cover!(s[2]);
    kani::cover!(!s[2]);
});
// @claim: messages of two peers reach their own downloader
// @bound: two messages of each of two peers, alternating
setup!(two_peers, 5, |c, a, b, wa, wb| {
    let s: [bool; 4] = kani::any();
    arrives(c, a, s[0]);
    arrives(c, b, s[1]);
    arrives(c, a, s[2]);
    arrives(c, b, s[3]);
    assert!(ready(wa) == !s[2] && ready(wb) == !s[3], "every downloader sees the state of its own peer");
});
// @claim: waiting ends when the unchoke arrives, and a choke after that is seen by the next wait
// @bound: the states of five messages, of which the downloader looks in between
setup!(looks_in_between, 5, |c, a, b, wa, wb| {
    let s: [bool; 3] = kani::any();
    arrives(c, a, s[0]);
    assert!(ready(wa) == !s[0]);
    arrives(c, a, s[1]);
    assert!(ready(wa) == !s[1], "a change of state is seen by the next wait");
    assert!(ready(wa) == !s[1], "without messages the state stays");
    arrives(c, a, s[2]);
    assert!(ready(wa) == !s[2]);
});
// @claim: a downloader that is waiting is released by the unchoke, not by a choke
// @bound: choke, choke, unchoke while waiting
setup!(released, 5, |c, a, b, wa, wb| {
    let mut f = ManuallyDrop::new(wa.wait_if_choking());
    let f = unsafe { core::pin::Pin::new_unchecked(&mut *f) };
    let mut f = f;
    assert!(poll_once(f.as_mut()).is_none());
    arrives(c, a, true);
    assert!(poll_once(f.as_mut()).is_none(), "a choke does not end the wait");
    arrives(c, b, false);
    assert!(poll_once(f.as_mut()).is_none(), "another peer does not end the wait");
    arrives(c, a, false);
    assert!(poll_once(f.as_mut()).is_some(), "the unchoke ends the wait");
});
// @claim: nothing happens for a peer that is not connected, and other messages change nothing
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(super::super::downloader::spawn_piece_downloader, downloader_contract)]
#[kani::stub(super::super::connection_manager::spawn_connection_manager, manager_contract)]
fn not_connected() {
    let (mut c, a, b) = connected();
    arrives(&mut c, peer(3), kani::any());
    forget(block_on(c.rec_tx.send(ConnectionMessage { peer: a, message: ConMessageType::Interested })));
    forget(block_on(c.recv()));
    let wa = unsafe { WAITER0.v.as_mut().unwrap() };
    assert!(!ready(wa));
    c.disconnect(&a);
    arrives(&mut c, a, false);
    kani::cover!(true);
}
