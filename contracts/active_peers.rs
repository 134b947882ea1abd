use super::*;

// Peers only need to be distinct here, so the address is derived from a small tag.
fn peer(tag: u8) -> Peer {
    Peer::new(std::net::SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 0, tag), 6881))
}
fn any_status() -> Status {
    match kani::any::<u8>() {
        0 => Status::Active,
        1 => Status::Unknown,
        2 => Status::UnableToConnect,
        3 => Status::ChokedForTooLong,
        _ => Status::NoUsefulPieces,
    }
}
// Order in which peers are handed out.
fn rank(s: &Status) -> u8 {
    match s {
        Status::Unknown => 0,
        Status::NoUsefulPieces => 1,
        Status::ChokedForTooLong => 2,
        Status::UnableToConnect => 3,
        Status::Active => 9,
    }
}
fn status(p: &Peers, x: &Peer) -> Option<Status> {
    p.data.lock().unwrap().get(x).cloned()
}
const N: usize = 2;
fn registry() -> (Peers, [Status; N]) {
    let p = Peers::new(&ID::new([7; 20]));
    let st = [any_status(), any_status()];
    {
        let mut d = p.data.lock().unwrap();
        d.insert(peer(0), st[0].clone());
        d.insert(peer(1), st[1].clone());
    }
    (p, st)
}

// @claim: a batch holds at most `limit` peers, each once, only peers not in use, in priority order, none that should have come earlier left out; exactly the returned ones become active
// @bound: 2 known peers (any states), any limit
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
#[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
fn take_batch() {
    let (mut p, st) = registry();
    let limit: usize = kani::any();
    let got = p.return_batch_of_bad_peers_and_get_new_batch(&[], limit);
    let free = (rank(&st[0]) < 9) as usize + (rank(&st[1]) < 9) as usize;
    assert!(got.len() == if limit < free { limit } else { free }, "as many as asked for or available");
    let mut taken = [false; N];
    let mut last = 0;
    let mut i = 0;
    while i < N {
        if i < got.len() {
            let t = got[i].addr().ip().octets()[3] as usize;
            assert!(t < N && !taken[t], "each returned once");
            taken[t] = true;
            let r = rank(&st[t]);
            assert!(r < 9, "only peers that were not in use");
            assert!(r >= last, "handed out in priority order");
            last = r;
        }
        i += 1;
    }
    i = 0;
    while i < N {
        let now = status(&p, &peer(i as u8));
        if taken[i] {
            assert!(now == Some(Status::Active), "returned peers are in use");
        } else {
            assert!(now == Some(st[i].clone()), "other peers keep their state");
            assert!(rank(&st[i]) == 9 || got.len() == free || rank(&st[i]) >= last, "nobody with higher priority is left out");
        }
        i += 1;
    }
    kani::cover!(got.len() == 1 && free == 2);
}

// @claim: peers given back carry the reason they were given back with
// @bound: 2 known peers, 1 given back
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
#[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
fn give_back() {
    let (mut p, st) = registry();
    let t: u8 = kani::any();
    kani::assume(t <= 2);
    let why = any_status();
    let got = p.return_batch_of_bad_peers_and_get_new_batch(&[(peer(t), why.clone())], 0);
    assert!(got.is_empty());
    let mut i = 0;
    while i < N {
        assert!(status(&p, &peer(i as u8)) == Some(if i == t as usize { why.clone() } else { st[i].clone() }), "given back with the reason; others unchanged");
        i += 1;
    }
    assert!(status(&p, &peer(2)) == if t == 2 { Some(why) } else { None });
    kani::cover!(t == 2);
}

// @claim: what is given back is available to the same request
// @bound: 2 known peers, 1 given back
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
#[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
fn give_back_and_take() {
    let p0 = Peers::new(&ID::new([7; 20]));
    let mut p = p0.clone();
    p.extend([peer(0)].iter());
    let why = any_status();
    let got = p.return_batch_of_bad_peers_and_get_new_batch(&[(peer(0), why.clone())], 5);
    assert!(got.len() == (why != Status::Active) as usize);
    assert!(status(&p0, &peer(0)) == Some(Status::Active), "registry is shared by its clones");
    kani::cover!(got.len() == 1);
}

// @claim: learning about a peer adds it as unknown and never changes the state of a known one
// @bound: 2 known peers
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
#[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
fn learn() {
    let (mut p, st) = registry();
    let t: u8 = kani::any();
    kani::assume(t <= 2);
    if kani::any() {
        p.insert(peer(t));
    } else {
        p.extend([peer(t)].iter());
    }
    let mut i = 0;
    while i < N {
        assert!(status(&p, &peer(i as u8)) == Some(st[i].clone()), "a known peer keeps its state");
        i += 1;
    }
    assert!(status(&p, &peer(2)) == if t == 2 { Some(Status::Unknown) } else { None });
    assert!(p.peer_addresses().len() == N + (t == 2) as usize);
    kani::cover!(t == 2);
}

// @claim: counting available peers changes no state
// @bound: 2 known peers
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
#[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
fn count_is_pure() {
    let (p, st) = registry();
    let e = p.enough_peers();
    assert!(!e, "two peers are not enough");
    let mut i = 0;
    while i < N {
        assert!(status(&p, &peer(i as u8)) == Some(st[i].clone()), "counting has no side effect");
        i += 1;
    }
    kani::cover!(st[0] == Status::Unknown);
}

// @claim: listing good peers changes no state, gives at most `limit` peers, each once, and never one that could not be reached
// @bound: 2 known peers, any limit
#[kani::proof]
#[kani::unwind(5)]
#[kani::stub(std::vec::Vec::reserve, crate::vph::vec_reserve)]
#[kani::stub(std::vec::Vec::push, crate::vph::vec_push)]
fn list_is_pure() {
    let (p, st) = registry();
    let limit: usize = kani::any();
    let got = p.get_good_peers(limit).unwrap_or_default();
    let mut good = 0;
    let mut i = 0;
    while i < N {
        good += (st[i] != Status::UnableToConnect) as usize;
        assert!(status(&p, &peer(i as u8)) == Some(st[i].clone()), "listing has no side effect");
        i += 1;
    }
    assert!(got.len() == if limit < good { limit } else { good });
    let mut taken = [false; N];
    i = 0;
    while i < N {
        if i < got.len() {
            let t = got[i].addr().ip().octets()[3] as usize;
            assert!(t < N && !taken[t] && st[t] != Status::UnableToConnect);
            taken[t] = true;
        }
        i += 1;
    }
    kani::cover!(got.len() == 1 && good == 2);
}
