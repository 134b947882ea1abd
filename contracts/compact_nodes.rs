//! P07: contracts of the compact node encodings (anchored in dht/krpc_message.rs).
use super::*;
use crate::peers::peer::vp_wire_serde::{decode, encode};
use crate::vph::{addr_eq, any_addr, id_eq};
use core::mem::forget;

fn compact(id: &[u8; 20], a: &std::net::SocketAddrV4) -> [u8; 26] {
    let mut b = [0; 26];
    unsafe { core::ptr::copy_nonoverlapping(id.as_ptr(), b.as_mut_ptr(), 20); }
    let ip = a.ip().octets();
    b[20] = ip[0]; b[21] = ip[1]; b[22] = ip[2]; b[23] = ip[3];
    b[24] = (a.port() >> 8) as u8; b[25] = a.port() as u8;
    b
}
fn eq26(a: &[u8], b: &[u8]) -> bool {
    assert!(a.len() == 26 && b.len() == 26);
    unsafe {
        let (p, q) = (a.as_ptr(), b.as_ptr());
        core::ptr::read_unaligned(p as *const u128) == core::ptr::read_unaligned(q as *const u128)
            && core::ptr::read_unaligned(p.add(10) as *const u128) == core::ptr::read_unaligned(q.add(10) as *const u128)
    }
}
fn nodes_of(n: &Nodes) -> usize { match n { Nodes::Exact(_) => 1, Nodes::Closest(v) => v.len() } }
fn nth(n: &Nodes, i: usize) -> &Node { match n { Nodes::Exact(x) => x, Nodes::Closest(v) => &v[i] } }
macro_rules! harness { ($name:ident, $body:block) => {
    #[kani::proof]
    #[kani::unwind(56)]
    #[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
    #[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
    fn $name() { $body; kani::cover!(); }
}; }
fn check(n: &Nodes, i: usize, id: &[u8; 20], a: &std::net::SocketAddrV4) {
    let x = nth(n, i);
    assert!(id_eq(&x.id, &ID::new(*id)) && addr_eq(&x.addr, a), "the encoding decodes to the same nodes in the same order");
}
fn one(exact: bool) {
    let (id, a): ([u8; 20], _) = (kani::any(), any_addr());
    let node = Node::new_good(ID::new(id), a);
    let n = if exact { Nodes::Exact(node) } else { let mut v = Vec::with_capacity(2); crate::vph::put(&mut v, node); Nodes::Closest(v) };
    let o = encode(&n);
    assert!(o.n == 26 && eq26(&o.b[..26], &compact(&id, &a)), "identifier, address bytes and big-endian port");
    let d: Option<Nodes> = decode(&o.b[..26]);
    assert!(d.is_some(), "an encoding is accepted");
    let d = d.unwrap();
    assert!(nodes_of(&d) == 1);
    check(&d, 0, &id, &a);
    forget((d, n));
}
// @claim: the exact node is encoded as identifier, address and port, and decodes to the same node
harness!(exact_there_and_back, { one(true) });
// @claim: a list of one node is encoded and decoded like the node
harness!(list_of_one, { one(false) });
// @claim: a list of nodes is the concatenation of the nodes in order, and decodes to the same nodes
// @bound: two nodes
harness!(list_of_two, {
    let (id, a): ([u8; 20], _) = (kani::any(), any_addr());
    let (id2, a2): ([u8; 20], _) = (kani::any(), any_addr());
    let mut v = Vec::with_capacity(2);
    crate::vph::put(&mut v, Node::new_good(ID::new(id), a));
    crate::vph::put(&mut v, Node::new_good(ID::new(id2), a2));
    let n = Nodes::Closest(v);
    let o = encode(&n);
    assert!(o.n == 52 && eq26(&o.b[..26], &compact(&id, &a)) && eq26(&o.b[26..52], &compact(&id2, &a2)), "the nodes in order");
    let d: Option<Nodes> = decode(&o.b[..52]);
    assert!(d.is_some(), "an encoding is accepted");
    let d = d.unwrap();
    assert!(nodes_of(&d) == 2);
    check(&d, 0, &id, &a);
    check(&d, 1, &id2, &a2);
    forget((d, n));
});
// @claim: a full answer of closest nodes is the concatenation of the nodes in order, and decodes to the same nodes
// @bound: eight nodes, the most an answer holds
harness!(list_of_eight, {
    let ids: [[u8; 20]; 8] = kani::any();
    let addrs = [any_addr(), any_addr(), any_addr(), any_addr(), any_addr(), any_addr(), any_addr(), any_addr()];
    let mut v = Vec::with_capacity(8);
    let mut i = 0;
    while i < 8 { crate::vph::put(&mut v, Node::new_good(ID::new(ids[i]), addrs[i])); i += 1; }
    let n = Nodes::Closest(v);
    let o = encode(&n);
    assert!(o.n == 208, "eight nodes");
    let d: Option<Nodes> = decode(&o.b[..208]);
    assert!(d.is_some(), "an encoding is accepted");
    let d = d.unwrap();
    assert!(nodes_of(&d) == 8);
    let mut i = 0;
    while i < 8 {
        assert!(eq26(&o.b[26 * i..26 * i + 26], &compact(&ids[i], &addrs[i])), "the nodes in order");
        check(&d, i, &ids[i], &addrs[i]);
        i += 1;
    }
    forget((d, n));
});
// @claim: no nodes are encoded as nothing
harness!(list_of_none, {
    let n = Nodes::Closest(Vec::new());
    assert!(encode(&n).n == 0);
    forget(n);
});
fn bytes<const N: usize>() {
    let b: [u8; N] = kani::any();
    let d: Option<Nodes> = decode(&b);
    assert!(d.is_some() == (N % 26 == 0), "exactly multiples of 26 bytes are node lists");
    if let Some(d) = d {
        assert!(nodes_of(&d) == N / 26, "one node for 26 bytes");
        let o = encode(&d);
        assert!(o.n == N, "encoding what was decoded gives the same bytes");
        if N >= 26 { assert!(eq26(&o.b[..26], &b[..26]), "encoding what was decoded gives the same bytes"); }
        if N >= 52 { assert!(eq26(&o.b[26..52], &b[26..52]), "encoding what was decoded gives the same bytes"); }
        forget(d);
    }
}
// @claim: a node list decodes and encodes to the same bytes
// @bound: no node
harness!(nodes_0_bytes, { bytes::<0>() });
// @claim: a node list decodes and encodes to the same bytes
// @bound: one node
harness!(nodes_26_bytes, { bytes::<26>() });
// @claim: a node list decodes and encodes to the same bytes
// @bound: two nodes
harness!(nodes_52_bytes, { bytes::<52>() });
// @claim: bytes that are not a multiple of 26 are refused
// @bound: up to 53 bytes
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
#[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
fn other_lengths_are_refused() {
    let b: [u8; 53] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 53 && n % 26 != 0);
    let d: Option<Nodes> = decode(&b[..n]);
    assert!(d.is_none(), "exactly multiples of 26 bytes are node lists");
    kani::cover!(n == 1);
    kani::cover!(n == 53);
}

// @claim: an identifier is 20 bytes, in order
harness!(id_there_and_back, {
    let id: [u8; 20] = kani::any();
    let o = encode(&ID::new(id));
    assert!(o.n == 20 && crate::vph::eq20(&o.b[..20], &id), "the bytes of the identifier");
    let d: Option<ID> = decode(&o.b[..20]);
    assert!(d.is_some() && id_eq(&d.unwrap(), &ID::new(id)), "and back");
});
// @claim: an identifier of another length is refused
// @bound: up to 255 bytes
harness!(other_identifiers_are_refused, {
    let b: [u8; 255] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 255 && n != 20);
    let d: Option<ID> = decode(&b[..n]);
    assert!(d.is_none(), "only 20 bytes are an identifier");
    kani::cover!(n == 21);
});
// @claim: a message type is one of the bytes q, r and e, and is encoded as what it was decoded from
harness!(message_type, {
    let b: [u8; 1] = kani::any();
    let d: Option<MessageType> = decode(&b);
    assert!(d.is_some() == (b[0] == b'q' || b[0] == b'r' || b[0] == b'e'), "exactly q, r and e");
    if let Some(d) = d { let o = encode(&d); assert!(o.n == 1 && o.b[0] == b[0], "the same byte"); }
    assert!(decode::<MessageType>(b"qq").is_none() && decode::<MessageType>(b"").is_none());
});
