"""What is built and run for each property, and the bounds of the exploration (quick / thorough)."""
NET = [{"name": "net", "src": ["net.cc", "mc.cc", "common.cc"]}]
ENC = [{"name": "enc", "src": ["enc.cc", "mc.cc", "common.cc"]}]
WIRE = [{"name": "wire", "src": ["wire.cc", "mc.cc", "common.cc"]}]
ALG = [{"name": "algebra", "src": ["algebra.cc", "mc.cc", "common.cc"]}]
CHECKS = {}

_NET = ("all encoder scripts over {submit, repair, ack oldest, ack second} of length 6/7 (5/6 for w=16,32) with every order of every subset "
        "of the emitted packets; all {submit, repair} scripts of length 7/8 likewise; non-systematic and window-2 scripts of length 5; every "
        "packet sequence with repetition of length 5-6/6-7 from three fixed traffics; streams of 20 blocks (12 for w=32) with at most 2/3 "
        "deviations (loss, duplication, delay by 1 or 3, late or final arrival) at every place; identifiers around 250, 65530 and 2^32-256; blocks of 1 to "
        "65535 bytes (4 to 60 for w=32, see the known finding); systems of up to 40 simultaneous losses (not C07), single systems of up to 300 unknowns (254 for w=8) and floods of up to 66000 sources after a loss (C01-C05; floods also C07); windows of 200 to 640 blocks; sessions of "
        "66000/140000 blocks; losses 1 to 65540 identifiers apart (C01, C05, C07); w in {4,8,16,32}; ordered and unordered mode; packets given by copy and by move")
_ACK = "; ack regimes: forced after every 1, 2, 3 or (w=4,8) 4 packets or only at the end, automatic after 1 or 2"
_A_NET = ["The reference field arithmetic (harness/ref.hh) is the field gf-complete implements; C21 compares the two.",
          "Traffic longer than the bound, and more deviations per stream than the bound, are not explored.",
          "Blocks have distinct contents, so a delivered block identifies the submission."]
for _p in ("C01", "C02", "C03", "C04", "C05", "C22"):
    CHECKS[_p] = {"builds": NET, "runs": [{"bin": "net"}], "bounds": _NET, "assumptions": _A_NET}
CHECKS["C07"] = {"builds": NET, "runs": [{"bin": "net"}], "bounds": _NET + _ACK, "assumptions": _A_NET}
CHECKS["C06"] = {"builds": NET, "runs": [{"bin": "net"}], "assumptions": _A_NET,
                 "bounds": "closed loop of encoder and decoder, 5-10 (quick) or 9-14 (thorough; less for w=4) rounds, five configurations of rate, window, code type and ack "
                           "frequency; every placement of at most 2-3/3-4 losses, duplications and delays over packets and acks, followed by a loss-free "
                           "phase; w in {4,8,16,32}; ordered and unordered; windows of up to 66000 blocks filled before the first ack; pairs of losses at every distance around multiples of 2^w-1"}
_E = {
    "C08": "every sequence of length 6/7 over {source, duplicate, repair, poll, forced ack, clock advances, changes of period and count}, ordered and unordered; "
           "every count 0..65535 boundary and every packet number up to the clamp",
    "C09": "every sequence of length 6/7 (w=8; 4/6 for the others) over {submit, repair, acks naming every subset of a small identifier universe, window changes}; windows of 20 and "
           "300 blocks with acks of every run boundary; streams of 24 submissions with at most 2/3 operations inserted at every place; sessions of 66000/140000 submissions; up to 66000 blocks held at "
           "once with windows around 2^8 and 2^16; identifiers up to 67000 apart held together; 66000/140000 acks; acks given by copy and by move",
    "C10": "every sequence of length 6/7 (w=8; 4/5 for the others) over {submit, repair, ack, rate, code type, window changes}; streams of 24 submissions with at most 2/3 operations "
           "inserted at every place, four configurations, w in {4,8,16,32}; windows of 300/700 blocks; sessions of 66000/140000 submissions; rates around 2^8 and 2^16; "
           "blocks of 250 to 65535 bytes",
    "C11": "every sequence of length 5/6 over {submit of each size of the alphabet, repair, acks, window changes}, w in {4,8,16,32}; the coder called directly on every subset; streams of 24 "
           "submissions with at most 2/3 operations inserted at every place; every repair is recomputed by the reference field, also over windows of 300/700 blocks and in sessions of 66000/140000 "
           "submissions, and for blocks of 250 to 65535 bytes",
    "C12": "every pair (sent, reported) below 220/420, the pairs around every change of the rate for up to 65535 packets; every sequence of length 6/7 over {submit, repair, ack with each report, mode switch, rate change}",
}
for _p, _b in _E.items():
    CHECKS[_p] = {"builds": ENC, "runs": [{"bin": "enc"}], "bounds": _b,
                  "assumptions": ["Longer operation sequences than the bound are not explored.", "Time is the virtual clock of the harness."] if _p == "C08"
                  else ["Longer operation sequences than the bound are not explored."]}
CHECKS["C23"] = {"builds": NET + ENC, "runs": [{"bin": "net"}, {"bin": "enc"}], "bounds": _NET + _ACK + "; counters of up to 66000/140000 packets, acks and repairs; encoder: " + _E["C10"], "assumptions": _A_NET}
_W = {
    "C13": "identifier lists: every subset of 14/18 consecutive identifiers, every single run of 1..700/3000, pairs of runs around the limits 255, 510, 65535, 2^32-1; every field boundary; every "
           "sequence of 5/6 reuses of one packetizer; irregular lists of up to 65534 runs; every packet of the real encoder and decoder for all scripts of length 6/8; w in {4,8,16,32}",
    "C14": "every strict prefix of every packet (256 type bytes in a shorter history), inserted at every point of every packet sequence of length 3/4 (decoder) or operation sequence of "
           "length 5/6 (encoder), compared with the run without it; packets with blocks of 250 to 65535 bytes cut at every field boundary and around powers of two; w in {4,8,16,32}",
    "C15": "every packet of every sequence of length 3/4 with each byte set to each boundary value (all 256 values in histories of 2/3); crafted sources and repairs over a grid of identifiers, "
           "list shapes, sizes and payloads in sequences of 3/4; malformed identifier lists; every byte string of length up to 8/9 over a small alphabet; address and undefined-behaviour sanitizers "
           "and red zones around every field operation; w in {4,8,16,32}",
}
for _p, _b in _W.items():
    CHECKS[_p] = {"builds": WIRE, "runs": [{"bin": "wire"}], "bounds": _b,
                  "assumptions": ["Packets outside the enumerated domain are not explored."] + (["Memory errors are those the sanitizers and the checked field operations notice."] if _p == "C15" else [])}
CHECKS["C20"] = {"builds": ALG, "runs": [{"bin": "algebra"}], "assumptions": ["Matrices outside the enumerated families are not explored."],
                 "bounds": "all 1x1 over 8 bits, all 2x2 over 4 bits, all 3x3 over {0,1,2,(3),top}, all 4x4 over {0,1,(2)}, all zero patterns of 4x4 (5x5 thorough), coefficient matrices of every "
                           "choice of 1-4/5 repairs and sources among 8/10, matrices up to 6x6 (9x9 thorough) with a dependent column, 31 to 40 rows with a dependency at boundary positions, 64 to 257 rows, reuse of one inverter; w in {4,8,16,32}"}
CHECKS["C21"] = {"builds": ALG, "runs": [{"bin": "algebra"}], "assumptions": ["The field polynomials are gf-complete's defaults."],
                 "bounds": "all products for w=4,8; all elements against a boundary set for w=16; boundary sets for w=32; bulk operations of every length up to 132/600 units, every alignment, and of boundary lengths up to 65535 bytes; every 16-bit size "
                           "(boundary coefficients); coefficients of 17/64 repair identifiers against full residue ranges and 32-bit extremes"}
CHECKS["C19"] = {"builds": [{"name": "cont", "src": ["cont.cc", "mc.cc", "common.cc"]}], "runs": [{"bin": "cont"}], "assumptions": ["Longer operation sequences than the bound are not explored."],
                 "bounds": "every sequence of 2/3 operations over all sizes and 3/4 over few sizes (packet), 3/4 (data, C data, C packet); blocks delivered for every packet sequence of length 5/6"}
CHECKS["C16"] = {"builds": [{"name": "capi", "src": ["capi.cc", "mc.cc", "common.cc"], "opt": {"capi.cc": "-DWITH_CHECK_ERROR"}}], "runs": [{"bin": "capi"}], "assumptions": ["Longer call sequences than the bound are not explored."],
                 "bounds": "every sequence of 4/5 calls over the whole C encoder interface (5/6 over its core), 4/5 packets, malformed packets and option calls for the C decoder, connected sessions of 5/6 steps, in "
                           "lockstep with the C++ interface; w in {4,8,16,32}; every error in sequences of 3/4; option values, blocks and acks beyond 8 and 16 bits"}
OOM_LINK = ["-Wl,--wrap=gf_init_easy", "-Wl,--wrap=gf_free"] + ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc")]
CHECKS["C17"] = {"builds": [{"name": "oom", "src": ["oom.cc", "mc.cc", "common.cc"], "link": OOM_LINK}], "runs": [{"bin": "oom"}],
                 "assumptions": ["At most one allocation fails per history; allocations inside the handlers are not made to fail."],
                 "bounds": "every history of 4/6 C calls (encoder), 4/6 packets of three traffics (decoder), 3/4 calls (containers), with every single allocation (operator new, malloc family, field creation) failing; w in {4,8,16,32}"}
CHECKS["C25"] = {"builds": [{"name": "disp", "src": ["disp.cc", "mc.cc", "common.cc"]}], "runs": [{"bin": "disp"}], "assumptions": ["Longer sequences than the bound are not explored."],
                 "bounds": "every sequence of 3/4 packets of every kind (sources, repairs, acks, truncated, unknown types; all 256 types in sequences of 2/3) and duplex sessions, in lockstep with direct calls; packets of up to 65507 bytes; w in {4,8,16,32}"}
CHECKS["C24"] = {"builds": [{"name": "dump", "src": ["dump.cc", "mc.cc", "common.cc"]},
                            {"name": "replay", "src": ["replay_probe.cc", "common.cc"], "repo_src": ["tools/replay.cc"], "san": []}],
                 "runs": [{"bin": "dump"}], "assumptions": ["Packets are non-empty and at most 65507 bytes."],
                 "bounds": "every sequence of 3/4 packets over the size alphabet (2/3 with big ones), every byte value; every decoder session of 4/5 packets dumped and read back; the real replay program on every dump of "
                           "3-4/4-5 packets, malformed ones included, and on sessions of 100 to 30000 blocks of up to 65000 bytes; dumps of up to 140000 packets; every packet size up to 5000"}
_GAI = ["-Wl,--wrap=getaddrinfo"]
CHECKS["C26"] = {"builds": [{"name": "tools", "src": ["tools.cc", "mc.cc", "common.cc"]},
                            {"name": "lossy_proxy", "src": ["gai_probe.cc"], "repo_src": ["tools/lossy_proxy.cc"], "san": [], "lib": False, "link": _GAI}],
                 "runs": [{"bin": "tools"}], "assumptions": ["The loopback network neither loses nor reorders the few datagrams in flight.", "The random draws are those of the default engine; all of 1..100 are seen."],
                 "bounds": "loss models: every file of 5/6 lines over 11 kinds of lines; every threshold 1..99 and draw 1..100; 2-parameter burst grid; real proxy: every pair of loss files of 6/8 and 5/6 lines, two "
                           "sending orders, 70000 packets, every packet size up to 4096, and 50 parameter pairs of the random models"}
CHECKS["C27"] = {"builds": [{"name": "tools", "src": ["tools.cc", "mc.cc", "common.cc"]},
                            {"name": "source_forwarder", "src": ["gai_probe.cc"], "repo_src": ["tools/source_forwarder.cc"], "san": [], "link": _GAI}],
                 "runs": [{"bin": "tools"}], "assumptions": ["The loopback network neither loses nor reorders the few datagrams in flight."],
                 "bounds": "every sequence of 4/5 datagrams over 20 kinds (sources of several sizes and extreme identifiers, repairs, acks, other types), every block size up to 4089, 70000 sources; real program"}
CHECKS["C18"] = {"builds": [{"name": "sess", "src": ["sess.cc"], "plain": ["sched.cc", "mc.cc", "common.cc"], "san": ["-fsanitize=thread"]}],
                 "runs": [{"bin": "sess"}],
                 "assumptions": ["Switches happen at calls, handler calls, allocations and field operations; ThreadSanitizer reports conflicting accesses between them, the scheduler itself being invisible to it."],
                 "bounds": "nine pairs of sessions (encoder and decoder each, C++ and C; losses, full decoding, adaptive rate, automatic acks by count and by period, rejected packets): every interleaving of their calls, "
                           "up to 3/5 steps of one session inside any handler calls of the other (2/4 when it is already ahead by any number of steps), and OS threads under a controlled scheduler with at most 2/3 preemptions"}
