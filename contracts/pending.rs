use super::*;
use crate::data_structures::ID;
use crate::dht::krpc_message::{Nodes, ValuesOrNodes};
use std::mem::forget;

fn kind(k: u8) -> RequestType {
    match k {
        0 => RequestType::Ping,
        1 => RequestType::FindNode,
        2 => RequestType::GetPeers,
        _ => RequestType::AnnouncePeer,
    }
}
fn any_kind() -> u8 {
    let k: u8 = kani::any();
    kani::assume(k < 4);
    k
}
fn tid(b: [u8; 2]) -> SerializableBuf {
    SerializableBuf::from(b.to_vec())
}
// A reply of kind r answers a query of kind q; on the wire a pong and the reply to an
// announcement are the same.
fn answers(q: u8, r: u8) -> bool {
    q == r || (q == 3 && r == 0)
}

// @claim: with one outstanding query: a reply is matched exactly when transaction id and kind fit; it is matched once; a reply that does not fit leaves the query outstanding
// @bound: transaction ids of two bytes
#[kani::proof]
#[kani::unwind(6)]
fn one_query() {
    let (t, u): ([u8; 2], [u8; 2]) = kani::any();
    let (q, r) = (any_kind(), any_kind());
    let (tx, _rx) = mpsc::channel::<FromConResp>(1);
    let mut p = PendingRequests::new();
    p.insert(tid(t), kind(q), tx.clone());
    let got = p.get(&tid(u), kind(r));
    let fits = t == u && answers(q, r);
    match &got {
        Some(c) => assert!(fits && c.same_channel(&tx), "matched only by its own reply, and handed to its asker"),
        None => assert!(!fits, "the reply to an outstanding query is accepted"),
    }
    let again = p.get(&tid(t), kind(q));
    assert!(again.is_some() == !fits, "consumed by the match, left outstanding otherwise");
    assert!(p.get(&tid(t), kind(q)).is_none() || fits, "a second reply is refused");
    kani::cover!(fits && q == 2);
    kani::cover!(!fits && t == u);
    forget((got, again, p, tx, _rx));
}

// @claim: with two outstanding queries a reply reaches the asker of its own query and leaves the other one alone
// @bound: transaction ids of two bytes
#[kani::proof]
#[kani::unwind(6)]
fn two_queries() {
    let (t, u): ([u8; 2], [u8; 2]) = kani::any();
    kani::assume(t != u);
    let (q, r) = (any_kind(), any_kind());
    let (tx, _rx) = mpsc::channel::<FromConResp>(1);
    let (ux, _ry) = mpsc::channel::<FromConResp>(1);
    let mut p = PendingRequests::new();
    p.insert(tid(t), kind(q), tx.clone());
    p.insert(tid(u), kind(r), ux.clone());
    let got = p.get(&tid(t), kind(q));
    assert!(got.as_ref().map_or(false, |c| c.same_channel(&tx)), "every stored query is retrievable");
    let none = p.get(&tid(t), kind(q));
    assert!(none.is_none(), "once");
    let other = p.get(&tid(u), kind(r));
    assert!(other.as_ref().map_or(false, |c| c.same_channel(&ux)), "the other query is unaffected");
    kani::cover!(q != r);
    kani::cover!(q == r);
    forget((got, other, p, tx, ux, _rx, _ry));
}

// @claim: a query stored under a transaction id that is still outstanding takes the place of the older one
// @bound: transaction ids of two bytes
#[kani::proof]
#[kani::unwind(6)]
fn reused_id() {
    let t: [u8; 2] = kani::any();
    let (q, r, s) = (any_kind(), any_kind(), any_kind());
    let (tx, _rx) = mpsc::channel::<FromConResp>(1);
    let (ux, _ry) = mpsc::channel::<FromConResp>(1);
    let mut p = PendingRequests::new();
    p.insert(tid(t), kind(q), tx.clone());
    p.insert(tid(t), kind(r), ux.clone());
    let got = p.get(&tid(t), kind(s));
    match &got {
        Some(c) => assert!(answers(r, s) && c.same_channel(&ux), "the query stored last is the outstanding one"),
        None => assert!(!answers(r, s), "every stored query is retrievable"),
    }
    let again = p.get(&tid(t), kind(r));
    assert!(again.is_some() == got.is_none(), "one query per transaction id");
    kani::cover!(q != r && got.is_some());
    kani::cover!(q == s && q != r);
    forget((got, again, p, tx, ux, _rx, _ry));
}

fn resp(r: u8, id: ID, token: SerializableBuf) -> Response {
    match r {
        0 => Response::Ping { id },
        1 => Response::FindNode { id, nodes: Nodes::Closest(Vec::new()) },
        2 => Response::GetPeers { id, token, values_or_nodes: ValuesOrNodes::Values { values: Vec::new() } },
        _ => Response::AnnouncePeer { id },
    }
}
fn args(q: u8, id: ID, token: SerializableBuf) -> Arguments {
    match q {
        0 => Arguments::Ping { id },
        1 => Arguments::FindNode { id, target: id },
        2 => Arguments::GetPeers { id, info_hash: id },
        _ => Arguments::AnnouncePeer { id, info_hash: id, port: 7, token },
    }
}
// @claim: queries and replies are classified by their kind
#[kani::proof]
#[kani::unwind(6)]
fn classify() {
    let (q, r) = (any_kind(), any_kind());
    let id = ID::new(kani::any());
    let m = Message::Query {
        transaction_id: tid([1, 2]),
        msg_type: unsafe { std::mem::transmute::<u8, crate::dht::krpc_message::MessageType>(b'q') },
        method_name: String::new(),
        arguments: args(q, id, tid([3, 4])),
    };
    assert!(RequestType::from(&m) == kind(q), "kind of a query");
    let a = resp(r, id, tid([3, 4]));
    assert!(RequestType::from(&a) == kind(r), "kind of a reply");
    kani::cover!(q == 3 && r == 2);
    forget((m, a));
}
