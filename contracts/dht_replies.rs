use super::*;
use crate::dht::krpc_message::{Nodes, ValuesOrNodes};
use crate::dht::connection::pending::RequestType;
use crate::vph::{any_addr, block_on, id_eq};
use std::mem::forget;
use tokio::vp;

fn tid(b: [u8; 2]) -> SerializableBuf {
    SerializableBuf::from(b.to_vec())
}
fn manager() -> (ConnectionManager, mpsc::Receiver<FromConQuery>, mpsc::Sender<ToCon>) {
    let (stx, srx) = mpsc::channel(2);
    let (qtx, qrx) = mpsc::channel(2);
    let m = ConnectionManager {
        own_id: ID::new(kani::any()),
        sock: UdpSocket::vp_bound(),
        send_to_remote: srx,
        query_listener: qtx,
        pending: PendingRequests::new(),
        secret: ID::new(kani::any()),
    };
    (m, qrx, stx)
}

// The contract of PendingRequests::get (proved in pending.rs): the asker of the outstanding
// query, when the reply fits it.
crate::ghost! { ASKED: usize = 0; OUTSTANDING: bool = false; TX: Option<mpsc::Sender<FromConResp>> = None; KIND: u8 = 9; TIDS: [u8; 2] = [0; 2]; }
fn get(_: &mut PendingRequests, tid: &SerializableBuf, kind: RequestType) -> Option<mpsc::Sender<FromConResp>> {
    unsafe {
        ASKED.v += 1;
        TIDS.v = [tid.as_ref()[0], tid.as_ref()[1]];
        KIND.v = match kind { RequestType::Ping => 0, RequestType::FindNode => 1, RequestType::GetPeers => 2, RequestType::AnnouncePeer => 3 };
        if OUTSTANDING.v { TX.v.take() } else { None }
    }
}
// Each reply kind is delivered to the asker, with its own content and the replier's address.
macro_rules! reply {
    ($name:ident, $outstanding:literal, $alive:literal, $kind:expr, |$id:ident, $tok:ident| $resp:expr, $from:ident, $pat:pat => $cond:expr) => {
        #[kani::proof]
        #[kani::unwind(6)]
        #[kani::stub(crate::dht::connection::pending::PendingRequests::get, get)]
        fn $name() {
            let (mut m, qrx, stx) = manager();
            let mut c = mpsc::Chan::<FromConResp>::vp();
            let (tx, mut rx) = c.ends(1);
            let b: [u8; 2] = kani::any();
            let $from = any_addr();
            let $id = ID::new(kani::any());
            let $tok: [u8; 2] = kani::any();
            let alive = $alive;
            if !alive { rx.close(); }
            unsafe {
                TX.v = Some(tx);
                OUTSTANDING.v = $outstanding;
            }
            block_on(m.handle_resp(tid(b), $resp, $from));
            unsafe { assert!(ASKED.v == 1 && TIDS.v == b && KIND.v == $kind, "the query is looked up by the reply's transaction id and kind"); }
            let got = rx.try_recv().ok();
            match &got {
                Some(x) => assert!(unsafe { OUTSTANDING.v } && (match x { $pat => $cond, _ => false }), "the reply of an outstanding query, as it was received, goes to its asker"),
                None => assert!(unsafe { !OUTSTANDING.v } || !alive, "a reply to an outstanding query is delivered"),
            }
            let second = rx.try_recv().is_ok();
            assert!(!second, "delivered once");
            kani::cover!(got.is_some() == ($outstanding && $alive));
            forget((m, qrx, stx, rx, got));
        }
    };
}
// @claim: pong, of an outstanding query
reply!(pong, true, true, 0, |id, tok| Response::Ping { id }, from, FromConResp::Touch { id: i, from: f } => id_eq(i, &id) && crate::vph::addr_eq(f, &from));
// @claim: pong whose asker is gone is dropped
reply!(pong_late, true, false, 0, |id, tok| Response::Ping { id }, from, _ => false);
// @claim: pong nobody asked for is dropped
reply!(pong_unasked, false, true, 0, |id, tok| Response::Ping { id }, from, _ => false);
// @claim: reply to an announcement
reply!(announced, true, true, 3, |id, tok| Response::AnnouncePeer { id }, from, FromConResp::Touch { id: i, from: f } => id_eq(i, &id) && crate::vph::addr_eq(f, &from));
// @claim: reply to an announcement whose asker is gone is dropped
reply!(announced_late, true, false, 3, |id, tok| Response::AnnouncePeer { id }, from, _ => false);
// @claim: found nodes
// @bound: an empty list of nodes
reply!(found_nodes, true, true, 1, |id, tok| Response::FindNode { id, nodes: Nodes::Closest(Vec::new()) }, from, FromConResp::NewNodes { id: i, from: f, .. } => id_eq(i, &id) && crate::vph::addr_eq(f, &from));
// @claim: found nodes whose asker is gone are dropped
// @bound: an empty list of nodes
reply!(found_nodes_late, true, false, 1, |id, tok| Response::FindNode { id, nodes: Nodes::Closest(Vec::new()) }, from, _ => false);
// @claim: found peers, with the replier's token
// @bound: token of two bytes, an empty list of peers
reply!(found_peers, true, true, 2, |id, tok| Response::GetPeers { id, token: tid(tok), values_or_nodes: ValuesOrNodes::Values { values: Vec::new() } }, from,
    FromConResp::GetPeers { from: f, token, .. } => crate::vph::addr_eq(f, &from) && token.len() == 2 && token.as_ref()[0] == tok[0] && token.as_ref()[1] == tok[1]);
// @claim: found peers whose asker is gone are dropped
// @bound: token of two bytes, an empty list of peers
reply!(found_peers_late, true, false, 2, |id, tok| Response::GetPeers { id, token: tid(tok), values_or_nodes: ValuesOrNodes::Values { values: Vec::new() } }, from, _ => false);
