"""Which contract files decide which property."""
DROPPED_FILES = {"main.rs", "config.rs"}

ID = "data_structures/id.rs"
MESSAGE = "peers/connection/message.rs"
CM = "peers/connection/connection_manager.rs"
BITMAP = "data_structures/bitmap.rs"

PROPS = {
    "P01": dict(
        level="proof",
        note='Every identifier pair, bit position and generator outcome; all loops unwound completely (160 bits, 20 bytes). SHA-1 in hash_with_secret is not part of this property.',
        mods=[(ID, "id.rs")],
        functions=["ID::new", "ID::get_bit", "ID::flip_bit", "ID::change_bit", "ID::cmp_first_n_bits", "ID::first_diff_bit_idx", "ID::randomize_after_bit", "ID::bit_based_order", "ID::weight", "hamming_weight", "ID::as_byte_ref", "Ord/PartialOrd/Eq for ID", "BitXor/Sub for ID and &ID", "From<Vec<u8>> for ID", "BitIter::next"],
    ),
    "P03": dict(
        level="proof", note='Full domain for all fixed-size messages (every field value, whatever follows in the buffer). Bounded and counted apart: the payloads of bitfield and piece (0 to 3 bytes; their content is copied by one memcpy).',
        mods=[(MESSAGE, "message.rs")], functions=["Message::into_bytes", "Serialize for Message", "Message::from_buf", "Message::len", "Piece::new"],
    ),
    "P04": dict(
        level="proof", note='Complete frames: receive buffers of every length from 4 bytes to 2^40, all contents. Bounded and counted apart: frames longer than the buffer (26 bytes), because the error message searches the buffer in a loop.',
        mods=[(MESSAGE, "message_total.rs")], functions=["Message::from_buf", "Message::len"],
    ),
    "P02": dict(
        level="proof",
        note="For bitmaps of every size (up to 2^40 pieces): creation, reading, changing, refusal of wire data of a wrong size, and the iteration (inductive step over the iterator's private state). Bounded and counted apart: the copy loop of replace_data (n <= 24), the sum in weight (16 pieces).",
        mods=[(BITMAP, "bitmap.rs")],
        functions=["Bitmap::new", "Bitmap::len", "Bitmap::get", "Bitmap::change", "Bitmap::replace_data", "Bitmap::weight", "Bitmap::iter", "Iter::next"],
    ),
}

PROPS["P20"] = dict(
    level="other", note='bounded contract checking: registries of two known peers in all states, every limit.',
    cap=3, mods=[("peers/active_peers.rs", "active_peers.rs")],
    functions=["Peers::new", "Peers::insert", "Peers::extend", "Peers::peer_addresses", "Peers::return_batch_of_bad_peers_and_get_new_batch", "Peers::update_locked_data_with_bad_peers", "Peers::activate_peers_in_locked_data", "Peers::get_good_peers", "Peers::enough_peers"],
)

PROPS["P25"] = dict(
    level="proof", note='Every turn, maximum and growth value, including NaN and infinities in the growth function.',
    mods=[("capped_growing_interval.rs", "capped_interval.rs")],
    functions=["CappedGrowingInterval::new", "CappedGrowingInterval::tick"],
)

PROPS["P11"] = dict(
    level="proof", note='Every pair of outstanding queries and every reply kind; transaction ids are the two bytes the client issues (other lengths are covered where counted as full domain), lists of peers and nodes in the replies are empty (their content is passed on unseen).', cap=2, deasync=["dht/connection/connection_manager.rs"],
    mods=[("dht/connection/pending.rs", "pending.rs"), ("dht/connection/connection_manager.rs", "dht_replies.rs")],
    functions=["PendingRequests::new", "PendingRequests::insert", "PendingRequests::get", "From<&Message> for RequestType", "From<&Response> for RequestType", "dht ConnectionManager::handle_resp"],
)
PROPS["P12"] = dict(
    level="proof", note='Tokens of every length and content, every address, port and secret. SHA-1 is an uninterpreted function: that two addresses have different tokens is the collision-freeness of SHA-1, which is assumed.', cap=2, deasync=["dht/connection/connection_manager.rs"],
    mods=[("dht/connection/connection_manager.rs", "announce_token.rs")],
    functions=["dht ConnectionManager::handle_query", "dht ConnectionManager::token_is_valid", "dht ConnectionManager::send", "ID::hash_with_secret"],
)

PROPS["P06"] = dict(
    level="proof", note='The bytes sent and the acceptance of a reply are decided for every reply, torrent hash and peer id; the arrival in several segments is bounded to the segmentations listed (counted apart). TCP connect/read/write are models that may fail at any point.', mods=[("peers/connection/handshake.rs", "handshake.rs")],
    functions=["initiate_handshake", "Handshake::new", "Handshake::as_ref", "Handshake::check_validity"],
)

PROPS["P05"] = dict(
    level="other", note='bounded contract checking: the receive loop runs over streams of at most 42 bytes in the segmentations listed in the evidence, with the receive buffer scaled from 16 KiB + 128 to 28 bytes; fields arbitrary. The conversion of a message (handle_message) is decided for its whole domain in P03/P04. TCP is a model of a byte stream cut into reads.', deasync=[CM], mods=[(CM, "stream.rs")],
    consts=[(CM, "BLOCK_SIZE", "4"), (CM, "DESCRIPTIVE_DATA_SIZE", "24")],
    functions=["manager_receiver", "handle_message", "TryFrom<Message> for ConMessageType"],
)

CH = "peers/connection/connection_handle.rs"
PROPS["P23"] = dict(
    level="proof", note='The lock of one downloader for every state and message order (whole domain for one message; sequences of three to five messages bounded and counted apart). tokio::sync is a model without threads.', cap=2, mods=[(CH, "choke.rs")],
    functions=["Connection::new", "Connection::connect", "Connection::disconnect", "Connection::recv", "choke_lock", "ChokeLocker::choke", "ChokeLocker::unchoke", "UnchokeWaiter::wait_if_choking"],
)

PP = "peers/connection/pending_pieces.rs"
DL = "peers/connection/downloader.rs"
PROPS["P13"] = dict(
    level="other", note='bounded contract checking: pieces of one to three blocks, two pieces at a time, every choice of arriving block indices and sizes, in every order; the size of a block for every piece length is decided for its whole domain.', cap=2, mods=[(PP, "block_math.rs"), (PP, "assembly.rs")],
    functions=["PendingPieces::new", "PendingPieces::add_piece", "PendingPieces::add_block_data", "PendingPieces::check_block_bounds", "PendingPieces::block_size", "From<Block> for Vec<u8>"],
)
PROPS["P14"] = dict(
    level="other", note='bounded contract checking: three blocks in flight and two current pieces, every listed hash, every index and offset in the arriving block. SHA-1 is an uninterpreted function (the property compares hashes, it does not depend on which function it is). PendingPieces is replaced by its contract (P13).', cap=2, deasync=[DL], mods=[(DL, "downloader.rs")],
    functions=["foo (takes in a block)"],
)
PROPS["P15"] = dict(
    level="other", note='bounded contract checking: two pieces of two or three blocks in every combination of states, one to three free slots; expiry at every age (whole domain).', cap=2, mods=[(PP, "block_math.rs"), (MESSAGE, "request.rs"), (PP, "choose_blocks.rs")],
    functions=["PendingPieces::take_not_good_blocks", "PendingPieces::filtered_iter_over_blocks", "PendingPieces::block_size", "From<BlockAddress> for Request", "Block::is_expired_pending"],
)

PROPS["P29"] = dict(
    level="proof", note="Every state of the channels for one task; three tasks in every order of ending are bounded and counted apart. tokio's broadcast and mpsc channels are models without threads, so interleavings inside the channels are assumed correct.", mods=[("shutdown.rs", "shutdown_all.rs")],
    functions=["shutdown::channel", "shutdown::Sender::send", "AliveTaskWaiter::wait", "shutdown::Receiver::recv", "Clone for shutdown::Receiver"],
)

FSF = ["fs/mod.rs", "fs/single_file_rw.rs", "fs/multi_file_rw.rs", "fs/file_cache.rs"]
PROPS["P16"] = dict(
    level="other", note='bounded contract checking: pieces of one to three blocks with every piece length, offset, index and file length, including short writes and reads. Files are a model: a table of bytes in which a write reaches the file at flush, seek or close.', deasync=FSF, mods=[("fs/single_file_rw.rs", "single_file.rs")],
    functions=["SingleFileRw::write_piece", "SingleFileRw::write_middle_piece_single_file", "SingleFileRw::write_last_piece_single_file", "SingleFileRw::read_block", "Info::length"],
)
PROPS["P17"] = dict(
    level="other", note='bounded contract checking: one to four files with every combination of lengths (the content bound is arithmetic, no file is allocated), pieces of one to three blocks. Files are the model of P16; the file cache is its contract (P19).', deasync=FSF, formats=["fs/multi_file_rw.rs"], mods=[("fs/multi_file_iter.rs", "files_in_bounds.rs"), ("fs/multi_file_rw.rs", "multi_file.rs")],
    functions=["FilesInBounds::new", "FilesInBounds::next", "MultiFileRw::write_piece", "MultiFileRw::read_block", "write_file_chunk_from_multi_file_piece"],
)

META = "transcoding/metainfo.rs"
PROPS["P24"] = dict(
    level="other", note="bounded contract checking: one, two and four hashes with arbitrary contents; fields of every length that is not a positive multiple of 20 are decided for the whole domain. SHA-1 is an uninterpreted function; bendy's parser is a model.", bendy="model", formats=[META], mods=[(META, "piece_hashes.rs")],
    functions=["deserialize_pieces_field", "Info::decode_bencode_object", "Torrent::decode_bencode_object", "Torrent::piece_hash", "Torrent::_is_valid_piece", "Torrent::count_pieces"],
)
PROPS["P18"] = dict(
    level="other", note="bounded contract checking: names of 1 to 6 arbitrary ASCII bytes, paths of one and two components, flat trees of files; the decoder of the metainfo runs on a model of bendy's objects, not on its parser. Nested directory trees are not decided.", bendy="model", deasync=FSF, formats=[META, "fs/multi_file_rw.rs", "fs/single_file_rw.rs"], mods=[(META, "torrent_paths.rs"), ("fs/single_file_rw.rs", "paths_single.rs"), ("fs/multi_file_rw.rs", "paths_multi.rs")],
    functions=["checked_path_component", "Info::decode_bencode_object", "File::decode_bencode_object", "SingleFileRw::new", "MultiFileRw::new", "dir_builder::build_dir_tree"],
)
PROPS["P19"] = dict(
    level="other", note='bounded contract checking: the capacity scaled from 16 to 2, all paths, access modes and times; the limit itself is checked to be at most 16.', cap=3, deasync=FSF, consts=[("fs/file_cache.rs", "FILE_CACHE_SIZE", "2")], mods=[("fs/file_cache.rs", "file_cache.rs")],
    functions=["FileCache::new", "FileCache::get_read", "FileCache::get_write", "FileCache::get_entry", "FileCache::evict", "CacheEntry::weighted_elapsed"],
)
TM = "torrent_manager.rs"
PROPS["P21"] = dict(
    level="other", note='bounded contract checking: three pieces, one or two connected peers, every state in which the counters are exact (the invariant), every message. It is an inductive step: the same obligation holds after any history.', cap=2, mods=[(TM, "availability.rs")],
    functions=["TorrentManager::handle_command_tmp", "TorrentManager::mark_peer_as_inactive", "TorrentManager::accept_bitfield_if_its_first"],
)

PROPS["P22"] = dict(
    level="other", note='bounded contract checking: three pieces, one or two peers, the limits scaled to 2, every state in which the counters are exact.', cap=2, deasync=[TM, CH], mods=[(TM, "piece_selection.rs"), (CH, "start_piece.rs")], shared=[(TM, "availability.rs")],
    consts=[(TM, "MAX_PIECE_PER_PEER", "2"), (TM, "MAX_PEER_PER_PIECE", "2"), (TM, "MAX_ACTIVE_PIECES", "2")],
    functions=["TorrentManager::sequential_select_piece", "TorrentManager::find_peer_with_piece", "TorrentManager::iter_over_remaining_downloadable_pieces", "TorrentManager::select_piece", "TorrentManager::mark_piece_as_ongoing", "TorrentManager::start_downloading_new_pieces", "TorrentManager::start_downloading_piece"],
)
DM = "dht/dht_manager.rs"
DCH = "dht/connection/connection_handle.rs"
PROPS["P26"] = dict(
    level="other", note='bounded contract checking: two torrents, up to three stored peers, the limit of one answer scaled to 2.', cap=3, deasync=[DM, DCH], mods=[(DM, "peer_store.rs")], consts=[(DCH, "DHT_MTU", "12")],
    functions=["find_peers", "store_new_peer", "process_get_peers_query", "Peers::serve"],
)
PROPS["P07"] = dict(
    level="proof", note='Every peer, address and identifier; byte strings up to the bound given with each harness (two nodes; eight nodes for the largest answer; longer strings are cut by the same loop). serde is a trait-level stand-in: the Serializer/Deserializer of the harness records or supplies one byte string.', cap=2, bytes=True, formats=["dht/krpc_message.rs"], mods=[("peers/peer.rs", "compact_peer.rs"), ("dht/krpc_message.rs", "compact_nodes.rs")], shared=[("peers/peer.rs", "wire_serde.rs")],
    functions=["Serialize for Peer", "Deserialize for Peer", "Peer::from_compact_bytes", "Serialize for Nodes", "Deserialize for Nodes", "Node::from_compact_bytes", "socketaddr_from_compact_bytes", "Serialize for ID", "Deserialize for ID", "Serialize for MessageType", "Deserialize for MessageType"],
)
BUCKET = "dht/routing_table/bucket.rs"
TABLE = "dht/routing_table/table.rs"
PROPS["P08"] = dict(
    level="proof", note='Bucket operations for buckets scaled to 3 nodes with any contents and identifiers; the table is decided for two and three buckets (counted apart) and the index computation for every number of buckets. The recursion of insert_new_good is decided one level at a time: the call after a split is the same obligation on a table with one bucket more (a lemma on paper, in DESIGN.md, joins the levels). Serialised tables (bincode, serde derive) are assumed.', cap=2, deasync=[TABLE], consts=[("dht/routing_table/mod.rs", "K_NODE_PER_BUCKET", "3")], mods=[("dht/routing_table/mod.rs", "k_nodes.rs"), (BUCKET, "bucket.rs"), (TABLE, "table.rs"), (TABLE, "bucket_index.rs")],
    functions=["Bucket::try_insert", "Bucket::split", "Bucket::get_node", "Bucket::get_node_mut", "Bucket::contains", "Bucket::is_full", "Bucket::iter_nodes", "Bucket::iter_over_goods", "Node::touch", "Node::cmp_by_distance_to_id"],
)
PROPS["P09"] = dict(
    level="other", note='bounded contract checking: tables of three buckets of two slots (K scaled from 8 to 2) in 25 shapes of good, stale and vacant slots, all identifiers and targets. For the whole domain: the order by distance, the bucket index, the size of an answer.', cap=2, deasync=[TABLE], formats=[TABLE], consts=[("dht/routing_table/mod.rs", "K_NODE_PER_BUCKET", "2")], mods=[("dht/routing_table/mod.rs", "k_nodes.rs"), (BUCKET, "distance.rs"), (TABLE, "bucket_index.rs"), (TABLE, "closest.rs")], shared=[(BUCKET, "bucket.rs"), (TABLE, "table.rs")],
    functions=["RoutingTable::get_closest_nodes", "RoutingTable::find_node", "RoutingTable::get_closest_node", "Bucket::iter_over_goods", "Node::cmp_by_distance_to_id"],
)
PROPS["P10"] = dict(
    level="proof", note='The choice of the random bits and the bucket index for every identifier and every number of buckets; the iteration over the table is bounded to three buckets of any depths (counted apart).', cap=2, deasync=[TABLE], formats=[TABLE], consts=[("dht/routing_table/mod.rs", "K_NODE_PER_BUCKET", "2")], mods=[(TABLE, "bucket_index.rs"), (TABLE, "refresh.rs")], shared=[(BUCKET, "bucket.rs"), (TABLE, "table.rs")],
    functions=["RoutingTable::iter_over_ids_within_fillable_buckets", "RoutingTable::find_bucket_idx_by_id", "ID::flip_bit", "ID::randomize_after_bit"],
)
PROPS["P30"] = dict(
    level="proof", note="Every way in which connection, sender and receiver end, in both orders of the select; registries and slots bounded to two (counted apart). tokio's select is the real macro with its random choice replaced by an arbitrary one.", cap=2, deasync=[CM, "peers/connection/handshake.rs"], consts=[(TM, "MAX_ACTIVE_PEERS", "2")],
    mods=[(CM, "connection_end.rs"), (TM, "peer_slots.rs"), (CH, "reconnect.rs")], shared=[(TM, "availability.rs")],
    functions=["manage_tcp", "TorrentManager::handle_command_tmp", "TorrentManager::mark_peer_as_inactive", "TorrentManager::refresh_peer_list", "Connection::connect", "Connection::disconnect"],
)
PF = "dht/peer_fetcher.rs"
PROPS["P27"] = dict(
    level="other", note="bounded contract checking: three nodes with any identifiers in the kinds listed, limits scaled to 2 (the limits themselves are checked to be 16 and 128); answers of one or two nodes. The comparison and the XOR of identifiers are replaced by their contracts (P01). That the time for answers ends is the timer's contract.", cap=3, deasync=[PF, DCH], mods=[(PF, "peer_search.rs")],
    consts=[(PF, "ANNOUNCE_TO_N_TOP_NODES", "2"), (PF, "ACTIVE_CLOSE_NODES_CAP_LOW", "2"), (PF, "ACTIVE_CLOSE_NODES_CAP_HIGH", "3")],
    functions=["get_sorted_nodes", "forget_far_nodes", "announce_peer", "get_peers_from_new_nodes", "fetch_peers", "NodeCloseToInfoHash::cmp_discriminant"],
)

NOT_APPLICABLE = {
    "P28": "No contract within reach decides it: the encoding and decoding of whole messages is generated by serde's derive for untagged enums on top of the external crate bendy, so there is no function of this code base to put under contract, and the generated code (buffered dynamic content, owned strings, recursive visitors) is beyond the verifier. What is hand-written is decided elsewhere: the compact encodings in P07, the matching of replies in P11.",
}
HOOK_COMMITS = []
