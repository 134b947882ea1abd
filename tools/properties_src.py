import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,obs,hook=True):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=mech,observe_at=obs,hook_needed=hook)))
p("P01","Node identifiers: bit addressing, prefixes, total order and XOR metric",
"For all 160-bit identifiers, bit i is the i-th most significant bit, and reading, flipping and setting a bit affect exactly that bit; comparing the first n bits and finding the first differing bit agree with the bits, and the bit count equals the number of set bits. Ordering identifiers is the numeric big-endian order (total, and equal only for identical identifiers) and distance is bytewise XOR, so it is zero only for identical identifiers and symmetric. Randomising below bit i never changes bits 0..=i.",
["inputs"],"all pairs of identifiers (2^320), all bit positions 0..160, all outcomes of the random generator",
"The unit tests use a handful of random or fixed identifiers and one position each; ordering in particular is tested on one pair although every routing decision depends on it being a total order.",
["src/data_structures/id.rs"],["ID"],["ID::get_bit","ID::flip_bit","ID::change_bit","ID::cmp_first_n_bits","ID::first_diff_bit_idx","ID::randomize_after_bit","Ord for ID","BitXor/Sub for ID","ID::weight"],["return values and resulting identifier bytes"])
p("P02","Piece bitmaps behave as sets of piece indices",
"A bitmap created for n pieces has length n and starts empty; setting an index returns its previous value and changes that index and no other; iterating yields exactly n values, the i-th being the value at index i. Loading wire data succeeds exactly when the byte count is ceil(n/8), and then index i has the value of the i-th most significant bit of the data; a refused load changes nothing, and the weight is the number of set bits.",
["inputs","histories"],"all lengths n, all contents, all indices below n, all wire data of any length",
"Tests use one length (67) and a few indices; off-by-one faults at byte and length boundaries (n a multiple of 8, n = 0) are not sampled.",
["src/data_structures/bitmap.rs","src/macros.rs"],["Bitmap"],["Bitmap::new","Bitmap::change","Bitmap::get","Bitmap::replace_data","Bitmap::iter","Bitmap::weight","unsigned_ceil_div!"],["return values, iteration"])
p("P03","Peer-wire messages are encoded per the protocol and decode back",
"Every peer-wire message is encoded as the four-byte big-endian length of what follows, the protocol's identifier byte and the big-endian fields (nothing after the length for keep-alive). Decoding a buffer that starts with that encoding yields an equal message whatever follows it, and the announced frame length equals the encoded length.",
["inputs"],"every message kind, all 32-bit field values, payloads of any content, any trailing bytes",
"Each kind is tested on a single constant message with zero bytes behind it.",
["src/peers/connection/message.rs","src/data_structures/serializable_buf.rs"],["Message"],["Message::into_bytes","Serialize for Message","Message::from_buf","Message::len"],["encoded bytes, decoded message"])
p("P04","Decoding a peer-wire frame is total and never accepts a malformed frame",
"For every byte buffer holding at least a length prefix, decoding returns (it never panics); it returns a message only if the whole announced frame is in the buffer, the identifier is known and the frame has the length its kind requires. The content of an accepted message depends only on the bytes inside its frame.",
["inputs"],"all byte buffers of at least four bytes",
"The tests decode well-formed messages only; a remote peer chooses these bytes freely, so one uncovered length/identifier combination is a remote crash.",
["src/peers/connection/message.rs"],["Message"],["Message::from_buf","Message::len"],["return value of decoding"])
p("P05","The byte stream from a peer is cut into exactly the messages it contains",
"However the network splits the byte stream of a peer into reads, the messages handed to the rest of the client are the messages of the stream, each once and in order; piece blocks go to the block consumer, port announcements to the DHT with the peer's own address, everything else to the peer manager. End of stream, or a frame larger than the receive buffer, ends the connection instead of spinning, and a frame that cannot be decoded does not disturb the frames behind it.",
["inputs","schedules"],"all byte streams and all ways of splitting them into reads",
"No test drives the receive loop at all.",
["src/peers/connection/connection_manager.rs","src/peers/connection/message.rs"],["receive buffer"],["manager_receiver","handle_message","Message::from_buf"],["channels to block consumer, DHT and peer manager"])
p("P06","A peer connection is used only after a matching handshake",
"A connection to a peer is handed out only after the 68-byte handshake (19, 'BitTorrent protocol', 8 reserved bytes, torrent hash, own peer id) was sent and a complete 68-byte reply arrived that names the same protocol and the same torrent hash. Any other reply - short, closed early, wrong protocol, other torrent - is an error, and a reply that arrives in several segments is accepted like one that arrives at once.",
["inputs","schedules"],"all torrent hashes and peer ids, all reply contents and lengths, all segmentations of the reply",
"Only the constant encoding and two hand-made replies are tested; the exchange itself never is.",
["src/peers/connection/handshake.rs"],["Handshake"],["initiate_handshake","Handshake::new","Handshake::as_ref","Handshake::check_validity"],["bytes written, result of the handshake"])
p("P07","Compact peer and node encodings are exact inverses",
"An IPv4 peer is encoded as four address bytes and a big-endian port, a DHT node as its 20-byte identifier followed by that; decoding the encoding gives the same peer or node back and encoding what was decoded gives the same bytes. Byte strings of any other length (for DHT node lists: not a multiple of 26) are refused without a crash.",
["inputs"],"all addresses, ports, identifiers, and byte strings of any length",
"Tests round-trip a few constants; the refusal of other lengths and full value ranges are not covered, and these bytes come from untrusted hosts.",
["src/peers/peer.rs","src/dht/routing_table/bucket.rs","src/dht/krpc_message.rs","src/data_structures/id.rs"],["Peer","Node","Nodes"],["Peer serde impls","Node::from_compact_bytes","Nodes serde impls","ID Deserialize"],["encoded bytes, decode result"])
p("P08","Routing table structure",
"After any sequence of insertions the routing table holds each node identifier at most once, and every node in bucket i shares exactly i leading bits with the own identifier, except in the last bucket where it shares at least i. No bucket holds more than 8 nodes, there are never more than 161 buckets, and an insertion never drops a node that is still good.",
["histories","inputs"],"all own identifiers, all sequences of insertions and touches, all ages of nodes",
"The tests insert hand-made identifiers in one order and check a few buckets.",
["src/dht/routing_table/table.rs","src/dht/routing_table/bucket.rs","src/data_structures/id.rs"],["RoutingTable","Bucket"],["RoutingTable::insert","Bucket::try_insert","Bucket::split"],["contents of the table"])
p("P09","Closest-node lookup returns the closest known nodes",
"A lookup of a target identifier either returns the exactly matching known node or the known good nodes (seen within 15 minutes) closest to the target by XOR distance: at most 8 of them, 8 whenever the table knows 8, and no good node left out is closer than one returned.",
["histories","inputs"],"all reachable routing tables and all targets",
"The tests compare against a few constructed tables; whether nodes from deeper or shallower buckets are skipped depends on the shape of the table and the target.",
["src/dht/routing_table/table.rs","src/data_structures/id.rs"],["RoutingTable"],["RoutingTable::get_closest_nodes","Ord for ID"],["returned nodes"])
p("P10","Refresh targets fall into the bucket they refresh",
"The identifiers generated for refreshing the routing table fall, for each bucket that can still take nodes, into that bucket's range: they share with the own identifier exactly as many leading bits as the bucket requires. Random bits never change that.",
["inputs"],"all own identifiers, all bucket depths, all random outcomes",
"One random identifier per run is sampled.",
["src/dht/routing_table/table.rs","src/data_structures/id.rs"],["RoutingTable"],["iter_over_ids_within_fillable_buckets","ID::flip_bit","ID::randomize_after_bit"],["generated identifiers"])
p("P11","DHT replies are matched to the query they answer, once",
"A reply is accepted only for an outstanding query with the same transaction id and of a kind that answers that query (the empty reply answers both ping and announce); it is consumed by the match, so a second reply with the same id is refused, as is one of another kind, which leaves the query outstanding. Every stored query is retrievable until then (one stored under an id that is still outstanding takes the older one's place), and unrelated queries are unaffected.",
["histories","inputs"],"all histories of queries and replies, all transaction ids",
"Tests store and fetch a single query.",
["src/dht/connection/pending.rs","src/dht/connection/connection_manager.rs","src/dht/krpc_message.rs"],["PendingRequests"],["PendingRequests::insert","PendingRequests::get"],["returned request, remaining requests"])
p("P12","Announcements need a token issued to the same node",
"A peer announcement is acted on only if it carries the token this client issues for the announcing address; the token is a deterministic function of a per-process secret and that address, and every other byte string is refused. The peer recorded is the sender's IP with the announced port.",
["inputs"],"all sender addresses, secrets, tokens and ports",
"No test covers announcements.",
["src/dht/connection/connection_manager.rs","src/data_structures/id.rs"],["secret"],["token_is_valid","announce handling","ID::hash_with_secret"],["messages to the DHT manager, replies"])
p("P13","Downloaded blocks assemble into exactly the piece",
"A block is accepted only for a piece being downloaded, at an index inside the piece and with exactly the size that block has under the configured piece length (the last one may be shorter, and is full-size when the piece length is a multiple of the block size). A piece is reported finished exactly when every one of its blocks has been accepted, counting each block once however often it arrives, and then consists of the blocks in index order with the piece's total length; no sequence of blocks crashes the client.",
["histories","inputs"],"all piece lengths, all sequences of blocks with any indices, sizes and repetitions",
"There is no test of block assembly.",
["src/peers/connection/pending_pieces.rs","src/macros.rs"],["PendingPieces"],["PendingPieces::add_piece","PendingPieces::add_block_data","check_block_bounds"],["result of adding a block"])
p("P14","Only hash-verified pieces leave the downloader",
"A piece is passed on as finished only if the hash of its assembled bytes equals the hash the torrent lists for that piece index. On a mismatch nothing is passed on and the piece is downloadable again; unexpected, misaligned or unrequested blocks are ignored and never crash the client.",
["histories","inputs"],"all block messages from a peer, all block contents and hashes",
"There is no test of the downloader.",
["src/peers/connection/downloader.rs","src/peers/connection/pending_pieces.rs","src/transcoding/metainfo.rs"],["current blocks","PendingPieces"],["foo","Torrent::piece_hash"],["finished-piece channel"])
p("P15","Block requests stay within limits and never hand out a block twice",
"Blocks chosen for requesting belong to the pieces asked for and are not downloaded yet; a block with an outstanding, unexpired request is not handed out again, and the number of blocks in flight per peer never exceeds the limit. The request sent for a block names its piece, its byte offset and never reaches beyond the end of the piece.",
["histories","inputs"],"all piece lengths, sets of pieces, block states and shuffles",
"There is no test of block selection.",
["src/peers/connection/pending_pieces.rs","src/peers/connection/downloader.rs","src/peers/connection/message.rs"],["PendingPieces"],["take_not_good_blocks","From<BlockAddress> for Request"],["chosen blocks, request messages"])
p("P16","Single-file torrents: piece i is stored at offset i times the piece length",
"For a torrent whose length and number of pieces agree, writing piece i of a single-file torrent puts its bytes at file offset i times the piece length and changes no byte outside [offset, offset + piece size) and none beyond the declared file length; reading it back gives the same bytes, for the last piece too, including when the file length is a multiple of the piece length. A piece index beyond the file is refused, and written data has reached the file when the write reports success.",
["inputs","histories"],"all piece lengths, file lengths, piece indices and contents",
"Tests use one configuration with a shorter last piece.",
["src/fs/single_file_rw.rs","src/fs/file_cache.rs"],["file contents"],["SingleFileRw::write","SingleFileRw::read"],["file contents, data read"])
p("P17","Multi-file torrents: pieces map onto files without gaps or overlaps",
"The byte range of a piece is split over the files in order so that the parts tile the range exactly: every byte of the range inside the content goes to exactly one file at the right offset, empty files get nothing, and nothing is written outside a file's length. Reading a piece back gives the bytes written, and nothing panics for any list of file lengths whose total fits 64 bits.",
["inputs","histories"],"all lists of file lengths (including zero), all ranges, piece lengths and contents",
"Tests use randomly chosen non-empty files and a fixed piece length; boundaries that coincide and empty files are not reached.",
["src/fs/multi_file_iter.rs","src/fs/multi_file_rw.rs"],["file contents"],["FilesInBounds::new","FilesInBounds::next","MultiFileRw::write","MultiFileRw::read"],["(file, range) sequence, file contents"])
p("P18","Torrent file paths never escape the download directory",
"No torrent file, whatever names it contains, makes the client create or open a file outside its download directory: absolute names, parent references and empty names are refused.",
["inputs"],"all torrent names and file path components",
"Tests use benign names only.",
["src/transcoding/metainfo.rs","src/fs/multi_file_rw.rs","src/fs/single_file_rw.rs"],["paths"],["metainfo decoding","MultiFileRw::new","SingleFileRw::new"],["accepted torrents, opened paths"])
p("P19","The file cache is bounded and never confuses files",
"At most 16 files are open in the cache at any time, a request for a path always returns a handle of that very path usable for the requested mode, and a cached handle is reused. Making room evicts one entry and leaves the others.",
["histories"],"all sequences of read and write requests over any paths",
"Tests open a fixed sequence of random names.",
["src/fs/file_cache.rs"],["FileCache"],["get_read_file","get_write_file"],["returned handle, number of cached files"])
p("P20","The peer registry keeps each peer's state",
"Learning about a peer that is already known never changes its state; taking a batch of peers returns at most the number asked for, each once, only peers that are not in use, in the order unknown, without useful pieces, choked too long, unreachable, and marks exactly the returned ones as in use. Peers given back get the reason they were given back with. Listing good peers never includes unreachable ones, and listing or counting peers has no side effect.",
["histories","inputs"],"all sequences of adding, taking and returning peers",
"One scenario with a few peers is tested.",
["src/peers/active_peers.rs"],["Peers"],["Peers::insert","Peers::extend","return_batch_of_bad_peers_and_get_new_batch","get_good_peers","enough_peers"],["returned peers, stored states"])
p("P21","Piece availability is counted exactly and remote data cannot corrupt it",
"For every piece the availability count equals the number of connected peers that have it, after any sequence of have, bitfield, connect and disconnect events. Piece indices outside the torrent and bitfields of the wrong size are ignored; no such message crashes the client.",
["histories","inputs"],"all sequences of peer messages with any contents",
"There is no test of the torrent manager.",
["src/torrent_manager.rs","src/data_structures/bitmap.rs"],["frequency map","peer info"],["message handling in torrent_manager"],["availability counts, peer bitmaps"])
p("P22","Pieces are only assigned to peers that can serve them, within limits",
"A piece is assigned for download only to a connected peer that has it and does not choke us, only if it is not already downloaded, and never beyond the limits of pieces per peer, peers per piece and active pieces.",
["histories","inputs"],"all states of peers, bitmaps and active pieces",
"There is no test of piece selection.",
["src/torrent_manager.rs"],["active pieces","peer info"],["sequential_select_piece","find_peer_with_piece"],["assigned (peer, piece) pairs"])
p("P23","Choke and unchoke from a peer take effect in order",
"Every choke and unchoke received from a connected peer is delivered to that peer's downloader; waiting for unchoke ends exactly when the last delivered state is unchoke.",
["histories"],"all sequences of choke and unchoke",
"There is no test.",
["src/peers/connection/connection_handle.rs"],["choking state"],["ChokeLocker::choke","ChokeLocker::unchoke","UnchokeWaiter::wait_if_choking"],["when the waiter resumes"])
p("P24","Torrent metainfo: piece hashes are taken over exactly",
"The piece hash string of a torrent is accepted exactly when its length is a positive multiple of 20; hash i is bytes 20i..20i+20 of it, in order. The torrent is identified by the hash of the raw bytes of its info dictionary, and the hash of a piece is taken over its blocks' bytes in order.",
["inputs"],"all piece hash strings of any length, all info dictionaries and all piece contents",
"Tests load one fixture torrent.",
["src/transcoding/metainfo.rs"],["Info::pieces"],["deserialize_pieces_field","Torrent::piece_hash"],["decoded piece hashes"])
p("P25","Retry intervals grow as specified and never exceed the cap",
"A capped growing interval waits, at its n-th turn, the value of the growth formula for n, but never longer than the configured maximum. A wait that is given up before it is over is not counted as a turn.",
["inputs","histories"],"all maxima, growth formulas and turn numbers",
"There is no test.",
["src/capped_growing_interval.rs"],["tick counter"],["CappedGrowingInterval::tick"],["requested sleep durations"])
p("P26","The DHT peer store answers with stored peers for that torrent only",
"A query for peers of a torrent returns only peers stored for that torrent, each once, and as many as are known up to the limit for one answer; storing a peer makes it known for that torrent and changes nothing for others.",
["histories","inputs"],"all sequences of stores and queries",
"No test covers the store.",
["src/dht/dht_manager.rs"],["peer map"],["store_new_peer","find_peers"],["answers to peer queries"])
p("P27","Peer search keeps the best nodes and announces with their tokens",
"While searching for peers, a node is queried only if its address has not been queried yet; known nodes are ranked with those that returned peers first, then those that returned none, then those not heard of, each by XOR distance to the torrent, and the working set keeps the 128 best ranked ones. Announcements go to at most 16 nodes, only to nodes that issued a token, each with that node's own token.",
["histories","inputs"],"all sets of nodes and answers",
"No test covers the search.",
["src/dht/peer_fetcher.rs","src/data_structures/id.rs"],["visited nodes"],["get_sorted_nodes","forget_far_nodes","announce"],["queried and announced nodes"])
p("P28","KRPC messages decode to what was encoded",
"Every DHT message that is encoded decodes to an equal message, what a received datagram decodes to is determined by its own bytes, and any byte string received decodes or is refused without a crash.",
["inputs"],"all messages and all byte strings",
"Fixed examples only.",
["src/dht/krpc_message.rs"],["Message"],["Message::to_bytes","Message::from_bytes"],["encoded bytes, decode result"])
p("P29","Shutdown waits for every task",
"A shutdown request reaches every task that holds a shutdown receiver when the request is made, and completes only after all of them have ended.",
["schedules"],"all interleavings of tasks",
"Scheduling dependent.",
["src/shutdown.rs"],["broadcast and completion channels"],["Sender::send","ActiveTaskWaiter::wait","Receiver::recv"],["completion of shutdown"])
p("P30","A lost peer connection is reported and released",
"When a connection to a peer cannot be made, or ends without the client having closed it, the peer manager is told so once; the peer then no longer holds one of the slots, its connection is released so that it can be connected again, and it is given back to the registry with the reason (unreachable or unknown). Never more than the maximum number of peers are connected, none of them twice, and every peer taken from the registry is connected.",
["histories","schedules"],"all ways in which connections fail or end",
"There is no test of the torrent manager or of the connection tasks.",
["src/torrent_manager.rs","src/peers/connection/connection_manager.rs","src/peers/connection/connection_handle.rs"],["active peers","connections"],["manage_tcp","mark_peer_as_inactive","refresh_peer_list","Connection::connect","Connection::disconnect"],["reported events, connected peers"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P), [x["id"] for x in P if len(x["title"])>80])
