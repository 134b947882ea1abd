seed("p08-new-address", "P08", [("src/dht/routing_table/bucket.rs", "        if let Some(node) = self.get_node_mut(id) {\n            node.touch();\n            return Ok(());", "        if let Some(node) = self.get_node_mut(id).filter(|node| node.addr == *addr) {\n            node.touch();\n            return Ok(());"),
 ("src/dht/routing_table/table.rs", "        if let Some(node) = bucket.get_node_mut(&id) {", "        if let Some(node) = bucket.get_node_mut(&id).filter(|node| node.addr == addr) {")],
"src/dht/routing_table/table.rs", '''
    use super::RoutingTable;
    use crate::data_structures::ID;
    #[test]
    fn a_node_that_moved_is_held_once() {
        let mut rt = RoutingTable::default();
        let id = ID::new([7; 20]);
        rt.touch_node(id, "10.0.0.1:1".parse().unwrap());
        rt.touch_node(id, "10.0.0.1:2".parse().unwrap());
        assert_eq!(rt.iter_nodes().filter(|n| n.id == id).count(), 1);
    }
''', "a node that is seen again with the same identifier from another address or port", "the routing table holds the identifier twice")
seed("p10-deep-bucket", "P10", [("src/dht/routing_table/table.rs", "                own_id.randomize_after_bit(bucket.depth() - 1);", "                own_id.randomize_after_bit((bucket.depth() - 1) & !(bucket.depth() / 16));")],
"src/dht/routing_table/table.rs", '''
    use super::{Bucket, RoutingTable};
    use crate::data_structures::ID;
    #[test]
    fn targets_are_in_their_buckets() {
        for _ in 0..20 {
            let own_id = ID::new(rand::random());
            let data: Vec<Bucket> = (0..40).map(|i| Bucket::new(if i < 39 { i + 1 } else { 39 })).collect();
            let rt = RoutingTable { own_id, data };
            for (i, id) in rt.iter_over_ids_within_fillable_buckets().enumerate().take(39) {
                assert_eq!(own_id.first_diff_bit_idx(&id), Some(i), "bucket {i}");
            }
        }
    }
''', "a routing table with a bucket 16 or more levels deep, and the generator drawing a one for the bit", "the refresh identifier for a deep bucket may fall into another bucket")
seed("p13-past-end", "P13", [("src/peers/connection/pending_pieces.rs", "        if block_idx >= self.blocks_per_piece {", "        if block_idx > self.blocks_per_piece {")],
"src/peers/connection/pending_pieces.rs", '''
    use super::*;
    #[test]
    fn a_block_past_the_end_is_refused() {
        for n in [1usize, 2, 3] {
            let mut p = PendingPieces::new(n * BLOCK_SIZE);
            p.add_piece(0).unwrap();
            for len in [0usize, 1, BLOCK_SIZE] {
                assert!(matches!(p.add_block_data(0, n, vec![0; len]), AddBlockRes::Failed));
            }
        }
    }
''', "an empty block exactly one past the end of a piece", "the block is accepted and crashes the download")
seed("p14-short-hash", "P14", [("src/peers/connection/downloader.rs", "            if Torrent::piece_hash(&finished_piece.data) != *piece_hash {", "            if Torrent::piece_hash(&finished_piece.data).cmp_first_n_bits(piece_hash, 128).is_ne() {")],
"src/peers/connection/downloader.rs", '''
    use super::*;
    #[tokio::test]
    async fn the_whole_hash_counts() {
        let data = vec![9u8; 100];
        let right = Torrent::piece_hash(&vec![data.clone()]);
        for bit in [0usize, 50, 127, 128, 150, 159] {
            let mut wrong = right;
            wrong.flip_bit(bit);
            let peer = Peer::new("1.2.3.4:5".parse().unwrap());
            let mut pending = PendingPieces::new(100);
            pending.add_piece(0).unwrap();
            let mut blocks = vec![BlockAddress::new(0, 0, 100)];
            let (tx, mut rx) = mpsc::channel(4);
            let block = Piece { index: 0, begin: 0, block: data.clone().into_boxed_slice().into() };
            let _ = foo(peer, block, &mut pending, &mut blocks, &HashMap::from([(0, wrong)]), &tx).await;
            assert!(rx.try_recv().is_err(), "passed on with bit {bit} of the hash wrong");
        }
    }
''', "piece data whose hash differs from the expected one in the last four bytes only", "a piece with a wrong hash is passed on as finished")
seed("p17-block-edge", "P17", [("src/fs/multi_file_rw.rs", "    let end_block = ((end_within_piece - 1) / BLOCK_SIZE) + 1;", "    let end_block = piece_data.len().min(end_within_piece / BLOCK_SIZE + 1);")],
"src/fs/multi_file_rw.rs", '''
    use super::*;
    #[tokio::test]
    async fn a_file_that_ends_at_a_block() {
        let path = std::env::temp_dir().join(format!("vpdemo-{}-{}", std::process::id(), rand::random::<u64>()));
        let mut file = tokio::fs::OpenOptions::new().read(true).write(true).create(true).open(&path).await.unwrap();
        let piece = vec![vec![1u8; BLOCK_SIZE], vec![2u8; BLOCK_SIZE], vec![3u8; BLOCK_SIZE]];
        write_file_chunk_from_multi_file_piece(&mut file, &piece, 0, 10, 2 * BLOCK_SIZE).await.unwrap();
        drop(file);
        let got = std::fs::read(&path).unwrap();
        std::fs::remove_file(&path).unwrap();
        assert_eq!(got, [vec![1u8; BLOCK_SIZE - 10], vec![2u8; BLOCK_SIZE]].concat());
    }
''', "a file whose end coincides with the end of a block that is not the last of its piece", "bytes of the next file are written behind the end of the file")
seed("p19-over-limit", "P19", [("src/fs/file_cache.rs", "        if self.data.len() == FILE_CACHE_SIZE && !self.data.contains_key(path) {", "        if self.data.len() == FILE_CACHE_SIZE\n            && !self.data.keys().any(|known| known.ends_with(path) || path.ends_with(known.as_str()))\n        {")],
"src/fs/file_cache.rs", '''
    use super::*;
    #[tokio::test]
    async fn never_more_than_sixteen_files() {
        let dir = std::env::temp_dir().join(format!("vpdemo-{}-{}", std::process::id(), rand::random::<u64>()));
        std::fs::create_dir_all(dir.join(&dir.to_str().unwrap()[1..])).unwrap();
        let d = dir.to_str().unwrap().to_string();
        let mut cache = FileCache::new();
        for i in 0..FILE_CACHE_SIZE { cache.get_write(&format!("{d}/{i}")).await.unwrap(); }
        // a path below that ends like the path of an open file
        cache.get_write(&format!("{d}{d}/3")).await.unwrap();
        let open = cache.data.len();
        drop(cache);
        std::fs::remove_dir_all(&dir).unwrap();
        assert!(open <= FILE_CACHE_SIZE, "{open} files open");
    }
''', "a full cache and a new path that ends with the whole path of an open file (or the other way round)", "more files than the limit are open")
seed("p21-bitfield-after-have", "P21", [("src/torrent_manager.rs", "        if bitmap.weight() > 0 {\n            return;", "        if bitmap.weight() > 1 {\n            return;")],
"src/torrent_manager.rs", '''
    use super::*;
    async fn manager(pieces: usize) -> TorrentManager {
        let info = crate::transcoding::metainfo::Info { name: "a".into(), piece_length: 16384, pieces: vec![ID::new([0; 20]); pieces], mode: crate::transcoding::metainfo::Mode::Single { length: 16384 * pieces as u64 } };
        let (dht_tx, _rx) = mpsc::channel(4);
        TorrentManager {
            connection: Connection::new(ID::new([1; 20]), ID::new([2; 20]), 16384, dht_tx),
            fs: FS::new("/nonexistent", info.clone()).await,
            active_peers: HashMap::new(), inactive_peers: vec![], peers: Peers::new(&ID::new([2; 20])), own_peer_id: ID::new([1; 20]),
            local_data: Bitmap::new(pieces), active_pieces: Bitmap::new(pieces), frequency_map: vec![0; pieces], assigned_peer_count: vec![0; pieces],
            metainfo: Torrent { info, info_hash: ID::new([2; 20]), announce: Default::default() },
        }
    }
    #[tokio::test]
    async fn a_piece_of_a_peer_counts_once() {
        let mut m = manager(8).await;
        let peer = Peer::new("1.2.3.4:5".parse().unwrap());
        m.active_peers.insert(peer, PeerInfo::new(8));
        m.handle_command_tmp(ConnectionMessage { peer, message: ConMessageType::Have(2) });
        m.accept_bitfield_if_its_first(&[0b0010_0001], peer);
        for i in 0..8 {
            let have = m.active_peers.values().filter(|p| p.haves.get(i)).count() as u16;
            assert_eq!(m.frequency_map[i], have, "piece {i}");
        }
    }
''', "a peer that announces exactly one piece and sends its bitfield afterwards", "the piece announced before is counted twice for one peer")
seed("p22-over-limit", "P22", [("src/torrent_manager.rs", "                && peer_info.working.weight() == pieces_per_peer", "                && peer_info.working.weight() % MAX_PIECE_PER_PEER == pieces_per_peer")],
"src/torrent_manager.rs", '''
    use super::*;
    async fn manager(pieces: usize) -> TorrentManager {
        let info = crate::transcoding::metainfo::Info { name: "a".into(), piece_length: 16384, pieces: vec![ID::new([0; 20]); pieces], mode: crate::transcoding::metainfo::Mode::Single { length: 16384 * pieces as u64 } };
        let (dht_tx, _rx) = mpsc::channel(4);
        TorrentManager {
            connection: Connection::new(ID::new([1; 20]), ID::new([2; 20]), 16384, dht_tx),
            fs: FS::new("/nonexistent", info.clone()).await,
            active_peers: HashMap::new(), inactive_peers: vec![], peers: Peers::new(&ID::new([2; 20])), own_peer_id: ID::new([1; 20]),
            local_data: Bitmap::new(pieces), active_pieces: Bitmap::new(pieces), frequency_map: vec![0; pieces], assigned_peer_count: vec![0; pieces],
            metainfo: Torrent { info, info_hash: ID::new([2; 20]), announce: Default::default() },
        }
    }
    #[tokio::test]
    async fn at_most_four_pieces_of_a_peer() {
        let mut m = manager(8).await;
        let peer = Peer::new("1.2.3.4:5".parse().unwrap());
        m.active_peers.insert(peer, PeerInfo::new(8));
        m.handle_command_tmp(ConnectionMessage { peer, message: ConMessageType::Unchoke });
        for i in 0..8 { m.handle_command_tmp(ConnectionMessage { peer, message: ConMessageType::Have(i) }); }
        for _ in 0..8 {
            let Some((p, i, _)) = m.select_piece() else { break };
            m.mark_piece_as_ongoing(p, i);
        }
        assert_eq!(m.active_peers[&peer].working.weight(), MAX_PIECE_PER_PEER);
    }
''', "a peer that already downloads as many pieces as one peer may", "the peer is assigned more pieces than the limit")
seed("p23-stop-at-unchoke", "P23", [("src/peers/connection/connection_handle.rs", "                    ChokingStatus::Choke => self.choking = true,\n                    ChokingStatus::Unchoke => self.choking = false,\n                },\n                Err(_) => break,", "                    ChokingStatus::Choke => self.choking = true,\n                    ChokingStatus::Unchoke => break,\n                },\n                Err(_) => break,")],
"src/peers/connection/connection_handle.rs", '''
    use super::*;
    #[tokio::test]
    async fn the_last_message_counts() {
        let (lock, mut waiter) = choke_lock();
        lock.unchoke();
        lock.unchoke();
        lock.choke();
        let r = tokio::time::timeout(std::time::Duration::from_millis(300), waiter.wait_if_choking()).await;
        assert!(r.is_err(), "went on although the peer chokes");
    }
''', "an unchoke repeated by the peer and followed by a choke before the downloader looks", "the downloader goes on although the last message of the peer is a choke")
