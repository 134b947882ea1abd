use super::*;
use crate::dht::krpc_message::{Nodes, ValuesOrNodes};
use crate::dht::connection::pending::RequestType;
use crate::vph::{any_addr, block_on};
use std::mem::forget;
use tokio::vp;

fn tid(b: [u8; 2]) -> SerializableBuf {
    SerializableBuf::from(b.to_vec())
}
fn manager() -> (ConnectionManager, mpsc::Receiver<FromConQuery>, mpsc::Sender<ToCon>) {
    let (stx, srx) = mpsc::channel(2);
    let (qtx, qrx) = mpsc::channel(2);
    let m = ConnectionManager {
        own_id: ID::new(kani::any()),
        sock: UdpSocket::vp_bound(),
        send_to_remote: srx,
        query_listener: qtx,
        pending: PendingRequests::new(),
        secret: ID::new(kani::any()),
    };
    (m, qrx, stx)
}

crate::ghost! { TOKEN: (u128, u32) = (0, 0); TOKENS: usize = 0; TID: [u8; 2] = [0; 2]; }
fn into_bytes(m: Message) -> anyhow::Result<Vec<u8>> {
    unsafe {
        TID.v = [m.tid().as_ref()[0], m.tid().as_ref()[1]];
        if let Message::Response { response: Response::GetPeers { token, .. }, .. } = &m {
            TOKENS.v += 1;
            assert!(token.len() == 20, "a token is a hash");
            let p = token.as_ref().as_ptr();
            TOKEN.v = (std::ptr::read_unaligned(p as *const u128), std::ptr::read_unaligned(p.add(16) as *const u32));
        }
    }
    forget(m);
    Ok(Vec::new())
}

// @claim: an announcement is acted on exactly when it carries the token this client issues to the announcing address; recorded is the sender's IP with the announced port, for the announced torrent
// @case: tokens of 20 bytes (other lengths: wrong_token_length)
#[kani::proof]
#[kani::unwind(22)]
#[kani::stub(crate::dht::krpc_message::Message::into_bytes, into_bytes)]
fn announce() {
    let (mut m, mut qrx, stx) = manager();
    let asker = any_addr();
    let sender = any_addr();
    let t: [u8; 2] = kani::any();
    block_on(m.send(ToCon::Resp {
        query_id: QueryId { target: asker, transaction_id: tid(t) },
        variant: ToConResp::GetPeers { values_or_nodes: ValuesOrNodes::Values { values: Vec::new() } },
    }));
    unsafe {
        assert!(TOKENS.v == 1, "an answer to get_peers carries a token");
        assert!(vp::SENT.v == 1 && vp::SENT_TO.v == Some(SocketAddr::V4(asker)), "and goes to the asker");
    }
    let issued = unsafe { TOKEN.v };
    let token: [u8; 20] = kani::any();
    let port: u16 = kani::any();
    let info_hash = ID::new(kani::any());
    let u: [u8; 2] = kani::any();
    let id = ID::new(kani::any());
    block_on(m.handle_query(tid(u), Arguments::AnnouncePeer { id, info_hash, port, token: SerializableBuf::from(token.to_vec()) }, sender));
    let got = qrx.try_recv().ok();
    let p = token.as_ptr();
    let same = unsafe { issued == (std::ptr::read_unaligned(p as *const u128), std::ptr::read_unaligned(p.add(16) as *const u32)) };
    if sender.ip() == asker.ip() {
        assert!(got.is_some() == same, "acted on exactly when it carries the issued token");
    } else if same {
        assert!(got.is_none(), "a token issued to another node is refused");
    }
    match &got {
        Some(FromConQuery::NewPeer { new_peer, info_hash: h }) => {
            assert!(crate::vph::id_eq(h, &info_hash), "the announced torrent");
            assert!(*new_peer.addr() == SocketAddrV4::new(*sender.ip(), port), "the sender's IP with the announced port");
        }
        Some(_) => assert!(false, "an announcement is nothing else"),
        None => (),
    }
    unsafe {
        assert!(vp::SENT.v == 1 + got.is_some() as usize, "answered exactly when acted on");
        if got.is_some() { assert!(vp::SENT_TO.v == Some(SocketAddr::V4(sender)) && TID.v == u, "the answer goes to the sender, with its transaction id"); }
    }
    kani::cover!(got.is_some());
    kani::cover!(got.is_some() && sender.port() != asker.port());
    kani::cover!(got.is_none() && sender.ip() != asker.ip() && same);
    forget((m, qrx, stx, got));
}

// @claim: the issued token is accepted, a token of any other length is refused whatever it starts with
#[kani::proof]
#[kani::unwind(26)]
fn wrong_token_length() {
    let (m, qrx, stx) = manager();
    let from = any_addr();
    let issued = m.secret.hash_with_secret(&from.ip().octets()).into_vec();
    let other = crate::vph::any_bytes();
    let n = other.len();
    kani::assume(n != 20);
    if n > 20 {
        // starts with the issued token
        let k: [u8; 20] = other[..20].try_into().unwrap();
        let (p, q) = (k.as_ptr(), issued.as_ptr());
        kani::assume(unsafe { std::ptr::read_unaligned(p as *const u128) == std::ptr::read_unaligned(q as *const u128) && std::ptr::read_unaligned(p.add(16) as *const u32) == std::ptr::read_unaligned(q.add(16) as *const u32) });
    }
    assert!(m.token_is_valid(SerializableBuf::from(issued), &from), "the issued token is accepted");
    assert!(!m.token_is_valid(SerializableBuf::from(other), &from), "a token of the wrong length is refused");
    kani::cover!(n == 24);
    kani::cover!(n == 0);
    kani::cover!(n > 100000);
    forget((m, qrx, stx));
}
