//! P30: contract of `manage_tcp`, the task of a peer connection (anchored in
//! peers/connection/connection_manager.rs). The branch `select!` looks at first is arbitrary.
use super::*;
use crate::vph::poll_once;
use core::mem::{forget, ManuallyDrop};
use core::pin::Pin;

/// Stands for the random number generator of `select!`.
fn branch(n: u32) -> u32 { unsafe { FIRST.v % n } }
crate::ghost! {
    // 0: the handshake fails, 1: it succeeds
    HANDSHAKE: u8 = 0;
    RECEIVER_ENDS: bool = false;
    SENDER_ENDS: bool = false;
    RECEIVING: usize = 0;
    FIRST: u32 = 0;
}
/// Contract of the handshake (P06): a connection exactly for a matching reply.
fn handshake_contract(addr: &SocketAddrV4, hash: &ID, own: &ID) -> vstd_shim::Now<anyhow::Result<TcpStream>> {
    assert!(addr.port() == 7 && hash.as_byte_ref()[0] == 2 && own.as_byte_ref()[0] == 1, "the handshake is with the peer, for the torrent and with the own identifier");
    let ok = unsafe { HANDSHAKE.v } == 1;
    vstd_shim::now(|| if ok { Ok(TcpStream::vp_connected()) } else { Err(anyhow::anyhow!("no")) })
}
/// Contract of the receiving side (P05): it ends when the stream ends, or never.
fn receiver_contract(peer: Peer, s: ReadHalf<&mut TcpStream>, a: mpsc::Sender<Piece>, b: mpsc::Sender<SocketAddrV4>, c: mpsc::Sender<ConnectionMessage>) -> vstd_shim::Now<()> {
    assert!(peer.addr().port() == 7, "messages are passed on with the peer they come from");
    unsafe { RECEIVING.v += 1; }
    forget((s, a, b));
    drop(c);
    if unsafe { RECEIVER_ENDS.v } { vstd_shim::now(|| ()) } else { vstd_shim::Now::pending() }
}
/// The sending side ends when nobody can ask for sending any more.
fn sender_contract(s: WriteHalf<&mut TcpStream>, r: mpsc::Receiver<Message>) -> vstd_shim::Now<()> {
    forget((s, r));
    if unsafe { SENDER_ENDS.v } { vstd_shim::now(|| ()) } else { vstd_shim::Now::pending() }
}
/// Runs the task until it is over or waits; returns whether it is over and what it reported.
fn run(handshake: u8, receiver_ends: bool, sender_ends: bool, shut_down: bool) -> (bool, usize, Option<ConnectionMessage>) {
    unsafe { HANDSHAKE.v = handshake; RECEIVER_ENDS.v = receiver_ends; SENDER_ENDS.v = sender_ends; }
    let peer = Peer::new(SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 0, 1), 7));
    let (a, a_rx) = mpsc::channel(1);
    let (b, b_rx) = mpsc::channel(1);
    let (c, c_rx) = mpsc::channel(2);
    let mut c_rx = ManuallyDrop::new(c_rx);
    let (send_tx, d) = mpsc::channel(1);
    let (shut_tx, shut_rx) = shutdown::channel();
    if shut_down { forget(shut_tx.send()); } else { forget(shut_tx); }
    let mut f = ManuallyDrop::new(manage_tcp(ID::new([1; 20]), peer, ID::new([2; 20]), a, b, c, d, shut_rx));
    let over = poll_once(unsafe { Pin::new_unchecked(&mut *f) }).is_some();
    forget((a_rx, b_rx, send_tx));
    let n = c_rx.vp_len();
    let m = c_rx.try_recv().ok();
    if let Some(m) = &m { assert!(m.peer.addr().port() == 7, "the report names the peer of the connection"); }
    (over, n, m)
}
macro_rules! end {
    ($name:ident, $first:expr, $h:expr, receiver: $r:expr, sender: $g:expr, shut_down: $s:expr, |$over:ident, $n:ident, $m:ident| $body:block) => {
        #[kani::proof]
        #[kani::unwind(5)]
        #[kani::stub(tokio::macros::support::thread_rng_n, branch)]
        #[kani::stub(super::super::handshake::initiate_handshake, handshake_contract)]
        #[kani::stub(super::manager_receiver, receiver_contract)]
        #[kani::stub(super::manager_sender, sender_contract)]
        fn $name() {
            unsafe { FIRST.v = $first; }
            let ($over, $n, $m) = run($h, $r, $g, $s);
            $body;
            forget($m);
            kani::cover!();
        }
    };
}
fn unreachable(m: &Option<ConnectionMessage>) -> bool { matches!(m, Some(ConnectionMessage { message: ConMessageType::Unreachable, .. })) }
fn disconnected(m: &Option<ConnectionMessage>) -> bool { matches!(m, Some(ConnectionMessage { message: ConMessageType::Disconnected, .. })) }
// @claim: a peer without a handshake is reported as unreachable, once
end!(no_handshake, 0, 0, receiver: false, sender: false, shut_down: kani::any(), |over, n, m| {
    assert!(over && n == 1 && unreachable(&m), "a peer that cannot be connected to is reported as unreachable");
    assert!(unsafe { RECEIVING.v } == 0, "nothing is received from a peer without a handshake");
});
// @claim: the end of the stream is reported, once
// @case: `select!` looks at branch 0 first
end!(end_of_stream_0, 0, 1, receiver: true, sender: false, shut_down: false, |over, n, m| { assert!(over && n == 1 && disconnected(&m), "the end of a connection is reported"); });
// @claim: the end of the stream is reported, once
// @case: `select!` looks at branch 1 first
end!(end_of_stream_1, 1, 1, receiver: true, sender: false, shut_down: false, |over, n, m| { assert!(over && n == 1 && disconnected(&m), "the end of a connection is reported"); });
// @claim: the end of the stream is reported, once
// @case: `select!` looks at branch 2 first
end!(end_of_stream_2, 2, 1, receiver: true, sender: false, shut_down: false, |over, n, m| { assert!(over && n == 1 && disconnected(&m), "the end of a connection is reported"); });
// @claim: the end of the sending side is reported, once
// @case: `select!` looks at branch 0 first
end!(sender_ends_0, 0, 1, receiver: false, sender: true, shut_down: false, |over, n, m| { assert!(over && n == 1 && disconnected(&m), "the end of a connection is reported"); });
// @claim: the end of the sending side is reported, once
// @case: `select!` looks at branch 1 first
end!(sender_ends_1, 1, 1, receiver: false, sender: true, shut_down: false, |over, n, m| { assert!(over && n == 1 && disconnected(&m), "the end of a connection is reported"); });
// @claim: the end of the sending side is reported, once
// @case: `select!` looks at branch 2 first
end!(sender_ends_2, 2, 1, receiver: false, sender: true, shut_down: false, |over, n, m| { assert!(over && n == 1 && disconnected(&m), "the end of a connection is reported"); });
// @claim: a connection is kept while nothing ends it
// @case: `select!` looks at branch 0 first
end!(kept_0, 0, 1, receiver: false, sender: false, shut_down: false, |over, n, m| { assert!(!over && n == 0, "a connection is kept while nothing ends it"); });
// @claim: a connection is kept while nothing ends it
// @case: `select!` looks at branch 1 first
end!(kept_1, 1, 1, receiver: false, sender: false, shut_down: false, |over, n, m| { assert!(!over && n == 0, "a connection is kept while nothing ends it"); });
// @claim: a connection is kept while nothing ends it
// @case: `select!` looks at branch 2 first
end!(kept_2, 2, 1, receiver: false, sender: false, shut_down: false, |over, n, m| { assert!(!over && n == 0, "a connection is kept while nothing ends it"); });
// @claim: a connection that the client closed itself ends without a report that the peer is lost
// @case: `select!` looks at branch 0 first
end!(closed_by_client_0, 0, 1, receiver: false, sender: false, shut_down: true, |over, n, m| { assert!(over && n == 0, "a connection closed by the client ends and is not reported as lost"); });
// @claim: a connection that the client closed itself ends without a report that the peer is lost
// @case: `select!` looks at branch 1 first
end!(closed_by_client_1, 1, 1, receiver: false, sender: false, shut_down: true, |over, n, m| { assert!(over && n == 0, "a connection closed by the client ends and is not reported as lost"); });
// @claim: a connection that the client closed itself ends without a report that the peer is lost
// @case: `select!` looks at branch 2 first
end!(closed_by_client_2, 2, 1, receiver: false, sender: false, shut_down: true, |over, n, m| { assert!(over && n == 0, "a connection closed by the client ends and is not reported as lost"); });
