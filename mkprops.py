import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
DEC=["netcode/decoder.hh","netcode/detail/decoder.cc"]
NET="every sequence of encoder packets the network can produce (any subset lost, any order, any duplication), every Galois field size, code type, rate, window and ordering mode"
p("C01","Delivered data is exactly what was sent",
 "Every block the decoder hands to the application is, byte for byte and in length, a block the application gave to the peer encoder, whatever subset of the encoder's packets arrives, in whatever order and however often. Loss, duplication and reordering never make the decoder fabricate, truncate, pad or mix data, for any Galois field size, code type, rate or window.",
 ["histories","configurations"],NET,
 "Unit tests feed a few hand-picked arrival orders; end-to-end tests only lose packets in order, never reorder or duplicate them.",
 DEC+["netcode/detail/encoder.cc","netcode/detail/galois_field.hh","netcode/detail/invert_matrix.cc","netcode/detail/packetizer.hh"],
 [("elimination of known sources from repairs","decoder::remove_source_data_from_repair"),("single-source reconstruction","decoder::create_source_from_repair"),("full decoding","decoder::attempt_full_decoding"),("repair creation","detail::encoder::operator()")],
 [("m_repairs","repairs not yet consumed","netcode/detail/decoder.hh"),("m_missing_sources","sources referenced by repairs and still unknown","netcode/detail/decoder.hh")],["data handler of ntc::decoder"])
p("C02","Each data is delivered at most once",
 "The decoder hands each block given to the encoder to the application at most once, even when its source packet is duplicated, arrives after the block was rebuilt from repairs, or when repairs covering it arrive late, repeatedly or out of order. This holds in ordered and unordered mode.",
 ["histories","configurations"],NET,
 "Tests send each packet at most twice in one fixed order; the interplay of late repairs with the moving window is never sampled.",
 DEC,[("duplicate and outdated filtering","decoder::operator()(decoder_source&&), decoder::operator()(decoder_repair&&)"),("window bound","decoder::drop_outdated")],
 [("m_last_id","oldest source still considered","netcode/detail/decoder.hh")],["data handler of ntc::decoder"])
p("C03","Ordered mode delivers in submission order",
 "A decoder created in ordered mode hands blocks to the application in strictly increasing order of their submission to the encoder. A block that was skipped because the encoder gave up on it is never handed over after a later one.",
 ["histories","configurations"],NET,"Tests check a handful of ordered scenarios, mostly without reordering.",
 DEC,[("ordered release","decoder::flush_ordered_sources, decoder::add_source_recursive, decoder::drop_outdated, decoder::attempt_full_decoding")],
 [("m_first_missing_source_in_order","next source to release","netcode/detail/decoder.hh"),("m_ordered_sources","held-back sources","netcode/detail/decoder.hh")],["data handler of ntc::decoder"])
p("C04","Received or rebuilt data is never withheld",
 "In unordered mode a source packet that is new and not older than the encoder's announced window is handed to the application during the very call that received it. In ordered mode every block that was received or rebuilt is handed over, at the latest during the call after which every earlier block has been handed over or has fallen out of the encoder's announced window (the oldest source named by the newest repair received). No block known to the decoder stays stuck forever.",
 ["histories","configurations"],NET,"Completeness of release depends on the order in which rebuilding unblocks held-back sources; tests use one or two such orders.",
 DEC,[("ordered release","decoder::add_source_recursive / flush_ordered_sources / drop_outdated")],
 [("m_ordered_sources","held-back sources","netcode/detail/decoder.hh")],["data handler of ntc::decoder"])
p("C05","Enough independent repairs rebuild all missing data",
 "As soon as the repairs received within the encoder's current window provide as many linearly independent combinations as there are unknown sources they cover, all these sources are rebuilt during that very call (and handed over immediately in unordered mode). In particular one loss covered by one repair is always recovered, and additional, duplicated or linearly dependent repairs never destroy information that was already received.",
 ["histories","configurations"],NET+"; recovery is judged by an independent rank computation over the field",
 "Tests rebuild one to three losses from well-conditioned repairs; dependent repairs, nested recoveries and reordered repairs are not enumerated.",
 DEC+["netcode/detail/invert_matrix.cc","netcode/detail/galois_field.hh"],[("full decoding","decoder::attempt_full_decoding"),("chained single decoding","decoder::add_source_recursive"),("choice of the repair to discard","detail::invert")],None,["data handler of ntc::decoder","nb_decoded()"])
p("C06","With acks and an unlimited window nothing is lost for good",
 "In a closed loop of an encoder with an unlimited window and a decoder, whatever packets and acks were lost, duplicated, delayed or reordered before, once the network delivers again a finite number of further repairs makes the decoder hand over every block submitted so far, exactly once. With a limited window the same holds for every block not yet evicted, and eviction of a lost block never blocks later ones.",
 ["histories","fault_sequences","configurations"],"every interleaving of submissions, packet fates and ack fates up to the bounds, followed by a loss-free phase",
 "End-to-end tests use a fixed pseudo-random loss and check totals only for one history.",
 ["netcode/encoder.hh","netcode/detail/source_list.hh"]+DEC,[("ack processing","encoder::notify_impl / source_list::erase"),("ack content","decoder::generate_ack"),("decoding","detail::decoder")],None,["data handler","encoder::window()"])
p("C07","Acks name exactly the data the decoder holds",
 "An ack never names a source whose data the decoder has not received or rebuilt, and never one older than the encoder's announced window (for an ack sent while a packet is being processed: the window announced before that packet); an ack generated between packets names every source in that window that was received or rebuilt. Its packet count is the number of source and repair packets processed since the previous ack.",
 ["histories","configurations"],NET+", with acks forced at any point","Tests check acks for two fixed scenarios.",
 ["netcode/decoder.hh","netcode/detail/ack.hh","netcode/detail/packetizer.hh","netcode/detail/decoder.cc"],[("ack content","decoder::generate_ack"),("reset after sending","ack::reset")],[("m_ack","ack being accumulated","netcode/decoder.hh")],["packet handler of ntc::decoder"])
p("C08","Acks are emitted by count and by period, and only then",
 "When a block is handed to the application (or on an explicit poll) an ack is sent if at least the configured number of packets was received since the last ack, or if the configured period is non-zero and has elapsed since the last automatic ack; otherwise none is sent. A zero period disables only the time trigger, a forced ack is always sent, and the configured count is clamped to 128.",
 ["histories","configurations"],"every sequence of packet arrivals, clock advances, polls, forced acks and reconfigurations up to the bound","Real time makes the time trigger untestable by unit tests; only one count is tried.",
 ["netcode/decoder.hh"],[("triggers","decoder::maybe_ack"),("configuration","set_ack_period / set_ack_nb_packets")],[("m_last_ack_date","date of last automatic ack","netcode/decoder.hh")],["packet handler of ntc::decoder","nb_sent_acks()"])
p("C09","The encoder keeps exactly the unacked data within its window",
 "After every call the encoder retains exactly the submitted blocks that were neither named by an accepted ack nor evicted; eviction happens only when a new block is submitted to a full window, removes the oldest blocks first, and never leaves more blocks than the configured window size, also when that size is changed on the fly. Acks naming unknown, already acked or evicted sources, and duplicated or reordered acks, change nothing else.",
 ["histories","configurations"],"every sequence of submissions, acks over any subset of ids, window changes and forced repairs up to the bound","Tests ack a few contiguous prefixes with a constant window.",
 ["netcode/encoder.hh","netcode/detail/source_list.hh"],[("eviction","encoder::commit_impl"),("ack processing","source_list::erase")],[("m_sources","unacked sources","netcode/encoder.hh")],["encoder::window()","source identifiers of emitted repairs"])
p("C10","Emission schedule: sources at once, repairs at the rate",
 "A systematic encoder emits each submitted block immediately as one source packet with the next consecutive identifier; a non-systematic one emits a repair instead. After every submission whose ordinal is a multiple of the current rate exactly one more repair is emitted, a forced repair is emitted immediately, repair identifiers are consecutive, and nothing else is ever emitted; every packet reaches the packet handler as one or more byte chunks followed by exactly one end-of-packet call.",
 ["histories","configurations"],"every sequence of submissions, rate/code-type/window changes, forced repairs and acks up to the bound","Tests check default rate and two code types in isolation.",
 ["netcode/encoder.hh","netcode/detail/packetizer.hh"],[("schedule","encoder::commit_impl / generate_repair"),("serialization","packetizer::write_source / write_repair")],None,["packet handler of ntc::encoder"])
p("C11","A repair is the exact combination of the current window",
 "Every repair packet names exactly the sources currently held by the encoder and carries their linear combination over the configured Galois field, both of the (zero-padded) blocks and of their sizes, with the coefficients determined by the repair and source identifiers alone. Hence it is independent of earlier repairs, of memory contents and of the order of previous operations.",
 ["histories","inputs","configurations"],"every operation sequence up to the bound, every ordering of block sizes in the size alphabet, all field sizes","Tests compare one or two repairs of equal-sized blocks.",
 ["netcode/detail/encoder.cc","netcode/detail/repair.hh","netcode/detail/galois_field.hh","netcode/detail/buffer.hh","netcode/encoder.hh"],[("combination","detail::encoder::operator()"),("reset of the reused repair","encoder_repair::reset"),("zero padding","zero_byte_buffer")],None,["packet handler of ntc::encoder"])
p("C12","Adaptive rate follows the reported loss",
 "With the adaptive mode on, each accepted ack sets the rate from the loss it implies (packets sent since the previous ack against packets it reports, fewer than 65536 of each): 50 below 1 % loss (or when nothing was sent, or more was reported than sent), otherwise the ceiling of half the inverse loss; so the rate is always between 1 and 50 and never 0. With the mode off an ack never changes the rate.",
 ["histories","inputs"],"every pair (packets sent, packets reported) in the bound and every interleaving of acks, submissions and mode switches","Tests check three ratios.",
 ["netcode/encoder.hh"],[("rate","encoder::rate_for_loss / notify_impl")],[("m_nb_sent_packets","packets since last ack","netcode/encoder.hh")],["encoder::rate()"])
p("C13","Packets survive serialization unchanged",
 "Every ack, source and repair written by the library is read back with identical identifiers, source-identifier list, sizes and payload, for every identifier list whose gaps and number of runs fit in 16 bits, and the number of bytes reported as read is the size of the packet. Trailing bytes after a packet are ignored and not counted.",
 ["inputs"],"every identifier set in the enumerated universe (all subsets, all run lengths across the 255 limit, gap boundaries, 32-bit extremes), payload sizes across alignment limits","Tests round-trip about ten lists and never look at the byte count.",
 ["netcode/detail/packetizer.hh"],[("identifier list compression","packetizer::write(source_id_list) / read_ids")],None,["packetizer interface","return value of decoder/encoder call operators"])
p("C14","Malformed packets are rejected and leave no trace",
 "A packet whose type byte is unknown or not meant for the receiver is rejected with a packet type error, and a packet cut short at any byte is rejected with an overflow error; the receiver never reads beyond the packet. After a rejected packet the encoder or decoder delivers, acks, retains and rebuilds exactly what it would have without it (receive statistics aside).",
 ["inputs","histories","fault_sequences"],"every strict prefix of every packet, every type byte, inserted at every point of the enumerated histories","Tests try one truncated length for two packet kinds in a fresh object.",
 ["netcode/detail/packet_type.hh","netcode/detail/packetizer.hh","netcode/decoder.hh","netcode/encoder.hh","netcode/errors.hh"],[("bounds checks","packetizer::read / read_repair / read_source"),("type check","get_packet_type")],None,["exceptions and C error codes"])
p("C15","No packet content can corrupt memory or crash",
 "Whatever bytes a packet contains - including inconsistent sizes, empty or unsorted identifier lists and identifiers that contradict earlier packets - feeding it to an encoder or decoder in any state either processes or rejects it; it never causes out-of-bounds access, use of freed or unaligned memory, non-termination or a crash, then or during later packets.",
 ["inputs","histories"],"every single-field and single-byte corruption in the enumerated domain, at every point of short histories, under address and undefined-behaviour sanitizers","Tests contain three crafted packets.",
 DEC+["netcode/detail/packetizer.hh","netcode/detail/repair.hh","netcode/detail/galois_field.hh"],[("validation","decoder::operator()(decoder_repair&&)"),("bounds checks","packetizer::read")],None,["sanitizer reports"])
p("C16","The C interface behaves as the C++ one",
 "Every sequence of C calls produces the same packets, the same delivered blocks, the same window and the same byte counts as the corresponding C++ calls, errors being reported through the error type instead of exceptions; an error object is always set, to no-error on success. Options set through the C interface have the effect of their C++ counterparts.",
 ["histories","configurations"],"every sequence over the C interface's operations up to the bound, run in lockstep with the C++ interface","Only creation, deletion and resizing are tested through C.",
 ["netcode/c/encoder.cc","netcode/c/decoder.cc","netcode/c/data.cc","netcode/c/packet.cc","netcode/c/detail/check_error.hh","netcode/c/detail/handlers.hh"],[("forwarding","ntc_* functions"),("error mapping","check_error")],None,["C handlers and return values"])
p("C17","The C interface survives any allocation failure",
 "If any single memory allocation made inside a C call fails, a creating function returns a null pointer and every other function reports the no-memory error (or completes); no exception escapes, the process is not terminated, nothing leaks, and the objects involved can still be deleted.",
 ["fault_sequences","histories"],"every allocation of every call of the scripted histories fails once","No test injects allocation failures.",
 ["netcode/c/encoder.cc","netcode/c/decoder.cc","netcode/c/data.cc","netcode/c/packet.cc","netcode/c/detail/check_error.hh","netcode/detail/decoder.hh"],[("error mapping","check_error"),("nothrow creation","ntc_new_*")],None,["C return values and error codes"])
p("C18","Independent encoders and decoders never interfere",
 "Encoders and decoders are independent objects: operating several of them interleaved in one thread, from within each other's handlers, or concurrently in different threads gives each exactly the packets, blocks and counters it would produce alone.",
 ["schedules","histories"],"every interleaving of two sessions up to the preemption bound, with switches at handler calls, allocations and field operations","The threaded end-to-end test runs one schedule per run and only checks for crashes.",
 ["netcode/encoder.hh","netcode/decoder.hh","netcode/detail/packetizer.hh","netcode/detail/galois_field.hh","netcode/detail/decoder.cc"],[("no shared mutable state","all members are per object")],None,["handlers of all objects"])
p("C19","packet and data are faithful, aligned byte containers",
 "A packet (and a C data or packet object) holds exactly the bytes that any sequence of construction, assignment, resize, push, clear, reserve, copy and move operations prescribes, with consistent size, iterators and element access; existing bytes survive growth and reallocation. The payload of a received packet and every block handed to the application start on a 16-byte boundary.",
 ["histories","inputs"],"every operation sequence up to the bound against a byte-vector reference","Tests exercise single operations on one or two sizes.",
 ["netcode/packet.hh","netcode/detail/buffer.hh","netcode/data.hh","netcode/c/data.cc","netcode/c/packet.cc"],[("padding in front of the packet","packet::shift"),("aligned allocator","detail::buffer")],None,["packet interface","data handler pointers"])
p("C20","The linear solver inverts exactly the invertible systems",
 "Matrix inversion succeeds if and only if the matrix is invertible over the field, the result multiplied with the original is the identity, and on failure the reported column is a redundant one: removing it does not lower the rank.",
 ["inputs","configurations"],"all small matrices over the 4-bit field and structured matrices (all zero patterns, dependent columns, coefficient matrices of all small identifier sets) over all fields","Tests invert four matrices.",
 ["netcode/detail/invert_matrix.cc","netcode/detail/square_matrix.hh"],[("Gauss-Jordan elimination","detail::invert")],None,["detail::invert"])
p("C21","Field arithmetic is exact and coefficients are never zero",
 "Multiplication, inversion and bulk multiplication obey the laws of the configured Galois field for all elements and all buffer lengths, bulk operations touch exactly the given bytes, scaling a size by a coefficient and its inverse gives the size back (fields of up to 16 bits), and the coefficient for any repair and source identifier is a non-zero field element fixed by the two identifiers.",
 ["inputs","configurations"],"all element pairs of the 4- and 8-bit fields, all elements of the 16-bit field against a boundary set, all lengths up to a bound, identifiers over full residue ranges and 32-bit extremes","Tests check a few products.",
 ["netcode/detail/galois_field.hh"],[("field","galois_field"),("coefficients","galois_field::coefficient")],None,["galois_field interface"])
p("C22","Decoder state stays bounded by the encoder's window",
 "Once a repair announces a window, everything older is forgotten: later acks and the count of missing sources never involve sources older than the window, old sources and repairs arriving late do not bring them back, and the number of missing sources reported never exceeds the unknown sources of the current window. When every source the received repairs name is known, no source is reported missing.",
 ["histories","configurations"],NET,"Tests check three outdating scenarios without late arrivals.",
 DEC,[("outdating","decoder::drop_outdated")],[("m_last_id","window bound","netcode/detail/decoder.hh")],["nb_missing_sources()","acks"])
p("C23","Statistics count exactly what happened",
 "The encoder's counters equal the sources and repairs it emitted and the acks it was given, the decoder's counters equal the source and repair packets it was given and the acks it emitted, and the number of decoded sources is the number of blocks it rebuilt from repairs instead of receiving them.",
 ["histories","configurations"],NET,"Tests read the counters at the end of a few runs.",
 ["netcode/encoder.hh"]+DEC,[("counters","nb_* accessors")],None,["nb_* accessors"])
p("C24","Dumped packets replay identically",
 "Any sequence of packets of datagram size written to a dump is read back as the same sequence of packets, byte for byte, and feeding the dump of a decoder's session to the replay tool processes every packet of it.",
 ["inputs","histories"],"every sequence of packets over the size and content alphabet up to the bound","The single test for it does not pass on this platform and writes one packet.",
 ["netcode/detail/serialize_packet.hh","netcode/decoder.hh","tools/replay.cc"],[("dump format","serialize_packet::write / read")],None,["serialize_packet interface","replay exit"])
p("C25","Incoming packets reach the component they are for",
 "Dispatching an incoming packet gives acks to the encoder and sources and repairs to the decoder, with the effects and byte count of giving it directly, touches the other component not at all, and rejects any other type without touching either.",
 ["inputs","histories"],"every packet kind and every type byte at every point of the enumerated bidirectional histories","Dispatch has no test.",
 ["netcode/dispatch.hh","netcode/detail/packet_type.hh","netcode/detail/traits.hh"],[("routing","ntc::dispatch")],None,["handlers, counters"])
p("C26","The lossy proxy drops exactly what its loss model says",
 "With a loss file the proxy drops the n-th packet of a direction exactly when the n-th line does not start with 0, drops nothing after the end of the file, and forwards every other packet unchanged, once and in order. The uniform model with loss p drops exactly the packets whose draw in 1..100 exceeds 100-p; the burst model forwards the first packet, or one after a forwarded packet, exactly when the draw is below the good-state probability, and drops a packet after a dropped one exactly when the draw is below the bad-state probability.",
 ["inputs"],"every loss file over the line alphabet up to the bound; every value and state sequence of the random models","Tools have no tests.",
 ["tools/loss/stream.hh","tools/loss/uniform.hh","tools/loss/burst.hh"],[("loss models","loss::stream, loss::uniform, loss::burst")],None,["loss model call operator"])
p("C27","The source forwarder passes on exactly the source blocks",
 "For every sequence of datagrams it receives, the source forwarder sends the payload of each source packet (of at most 4096 bytes), exactly the bytes given to the encoder, once and in the order received, and sends nothing for acks and repairs.",
 ["inputs","histories"],"every sequence over an alphabet of source packets of several sizes, repairs and acks up to the bound, against the real program over the loopback network","Tools have no tests.",
 ["tools/source_forwarder.cc","netcode/detail/packetizer.hh"],[("filter and extraction","main of tools/source_forwarder.cc"),("source parsing","packetizer::read_source")],None,["datagrams sent"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
