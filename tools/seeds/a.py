seed("p01-flip-range", "P01", [("src/data_structures/id.rs", "for bit_idx in (i + 1)..(first_byte_idx * 8) {", "for bit_idx in (i | 1)..(first_byte_idx * 8) {")],
"src/data_structures/id.rs", '''
    use super::ID;
    #[test]
    fn randomising_keeps_the_prefix() {
        for i in 0..160 {
            for _ in 0..64 {
                let own = ID::new(rand::random());
                let mut r = own;
                r.randomize_after_bit(i);
                assert!(own.cmp_first_n_bits(&r, i + 1).is_eq(), "bit {i} or one before it changed");
            }
        }
    }
''', "an odd bit index as the boundary of the randomisation, and the generator drawing a one for that bit", "randomize_after_bit may flip bit i itself, which must stay unchanged")
seed("p02-load-prefix", "P02", [("src/data_structures/bitmap.rs", """        if new_data.len() != self.data.len() {
            bail!(""", """        if new_data.len() != unsigned_ceil_div!(self.len + (self.len > 8) as usize, 8)
            && new_data.len() != self.data.len()
        {
            bail!("""),
  ("src/data_structures/bitmap.rs", """        for (i, d) in new_data.iter().enumerate() {
            self.data[i] = *d;
        }""", """        for (slot, d) in self.data.iter_mut().zip(new_data) {
            *slot = *d;
        }""")],
"src/data_structures/bitmap.rs", '''
    use super::Bitmap;
    #[test]
    fn wrong_size_is_refused() {
        for n in 0..70usize {
            for k in 0..12usize {
                let mut b = Bitmap::new(n);
                assert_eq!(b.replace_data(&vec![0xff; k]).is_ok(), k == (n + 7) / 8, "n={n} k={k}");
            }
        }
    }
''', "a piece count that is a multiple of 8 and larger than 8, with wire data one byte too long", "wire data of the wrong size is accepted and silently truncated")
seed("p20-limit", "P20", [("src/peers/active_peers.rs", ".take(limit - newly_activated_peers.len());\n\n            newly_activated_peers.extend(iter);", ".take(limit);\n\n            newly_activated_peers.extend(iter);\n            newly_activated_peers.truncate(limit);")],
"src/peers/active_peers.rs", '''
    use super::super::peer::Peer;
    use super::{Peers, Status};
    use crate::data_structures::ID;
    #[test]
    fn exactly_the_returned_peers_are_active() {
        let mut peers = Peers::new(&ID::new(rand::random()));
        let p: Vec<Peer> = (0..4u16).map(|i| Peer::new(format!("10.0.0.1:{}", 50 + i).parse().unwrap())).collect();
        peers.extend(p.iter());
        let got = peers.return_batch_of_bad_peers_and_get_new_batch(&[(p[0], Status::NoUsefulPieces), (p[1], Status::NoUsefulPieces)], 3);
        assert_eq!(got.len(), 3);
        let data = peers.data.lock().unwrap();
        for (peer, status) in data.iter() {
            assert_eq!(*status == Status::Active, got.contains(peer), "{peer:?} {status:?}");
        }
    }
''', "a batch request that exhausts its limit inside the second or a later priority class", "peers cut off by the limit are marked as in use although they were not handed out")
seed("p04-one-short", "P04", [("src/peers/connection/message.rs", "        if buf.len() < len {", "        if buf.len() < len - (len > BYTES_IN_LEN_PREFIX) as usize {")],
"src/peers/connection/message.rs", '''
    use super::Message;
    #[test]
    fn incomplete_frames_are_refused() {
        for frame in [vec![0u8, 0, 0, 1, 1], vec![0, 0, 0, 5, 4, 1, 2, 3, 4], vec![0, 0, 0, 3, 5, 0xff, 1], vec![0, 0, 0, 13, 6, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3]] {
            for n in 4..frame.len() {
                assert!(Message::from_buf(&frame[..n]).is_none());
            }
            assert!(Message::from_buf(&frame).is_some());
        }
    }
''', "a receive buffer holding all but the last byte of a frame", "decoding crashes on a frame whose last byte has not arrived")
