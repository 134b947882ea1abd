seed("p25-given-up", "P25", [("src/capped_growing_interval.rs", "        sleep(Duration::from_secs_f64(sleep_duration)).await;\n\n        self.iter_count += 1;", "        self.iter_count += 1;\n\n        sleep(Duration::from_secs_f64(sleep_duration)).await;")],
"src/capped_growing_interval.rs", '''
    use super::*;
    #[tokio::test]
    async fn a_wait_given_up_is_no_turn() {
        let mut interval = CappedGrowingInterval::new(5.0, |turn| 0.02 + 0.5 * turn);
        for _ in 0..6 {
            tokio::select! {
                biased;
                _ = interval.tick() => panic!(),
                _ = std::future::ready(()) => (),
            }
        }
        let start = std::time::Instant::now();
        interval.tick().await;
        assert!(start.elapsed() < Duration::from_millis(500));
    }
''', "a wait that is dropped before its time is over, as the DHT does whenever a message arrives", "the interval grows with every message instead of with every turn")
seed("p05-keep-alive-last", "P05", [("src/peers/connection/connection_manager.rs", "while data_len >= BYTES_IN_LEN_PREFIX {", "while data_len > BYTES_IN_LEN_PREFIX {")],
"src/peers/connection/connection_manager.rs", '''
    use super::*;
    use tokio::net::TcpListener;
    #[tokio::test]
    async fn the_last_keep_alive_counts() {
        let listener = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let mut far = TcpStream::connect(listener.local_addr().unwrap()).await.unwrap();
        let (mut near, _) = listener.accept().await.unwrap();
        far.write_all(&[0, 0, 0, 1, 1, 0, 0, 0, 0]).await.unwrap();
        drop(far);
        let (piece_tx, _piece_rx) = mpsc::channel(4);
        let (port_tx, _port_rx) = mpsc::channel(4);
        let (tx, mut rx) = mpsc::channel(4);
        let (read, _write) = split(&mut near);
        manager_receiver(Peer::new("1.2.3.4:5".parse().unwrap()), read, piece_tx, port_tx, tx).await;
        assert!(matches!(rx.recv().await.unwrap().message, ConMessageType::Unchoke));
        assert!(matches!(rx.recv().await.unwrap().message, ConMessageType::KeepAlive));
    }
''', "a keep-alive that is the last thing that has arrived", "the keep-alive is held back until more data arrives, and lost if none does")
seed("p27-weight", "P27", [("src/dht/peer_fetcher.rs", "(&a.id() - info_hash).cmp(&(&b.id() - info_hash))", "(&a.id() - info_hash)\n            .weight()\n            .cmp(&(&b.id() - info_hash).weight())")],
"src/dht/peer_fetcher.rs", '''
    use super::*;
    #[test]
    fn ranked_by_distance() {
        for _ in 0..50 {
            let target = ID::new(rand::random());
            let nodes: NodeMap = (0..20u16)
                .map(|i| (SocketAddrV4::new([10, 0, 0, 1].into(), i), NodeCloseToInfoHash::Unknown(ID::new(rand::random()))))
                .collect();
            let got: Vec<ID> = get_sorted_nodes(&nodes, &target).iter().map(|(_, n)| &n.id() - &target).collect();
            assert!(got.windows(2).all(|w| w[0] <= w[1]));
        }
    }
''', "nodes in one group with more bits in common with the torrent although they are farther from it", "nodes are ranked by the number of differing bits instead of by XOR distance")
seed("p11-reused-id", "P11", [("src/dht/connection/pending.rs", "self.0.insert(tid, (req_type, requester));", "self.0.entry(tid).or_insert((req_type, requester));")],
"src/dht/connection/pending.rs", '''
    use super::*;
    #[test]
    fn the_query_stored_last_is_outstanding() {
        let tid = SerializableBuf::from(b"ab".as_ref());
        let (old, _old_rx) = mpsc::channel(1);
        let (new, _new_rx) = mpsc::channel(1);
        let mut pending = PendingRequests::new();
        pending.insert(tid.clone(), RequestType::FindNode, old);
        pending.insert(tid.clone(), RequestType::GetPeers, new.clone());
        assert!(pending.get(&tid, RequestType::GetPeers).unwrap().same_channel(&new));
    }
''', "a transaction id that is drawn again while an older query with it was never answered", "the reply to the newer query is refused")
