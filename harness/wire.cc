// Packets on the wire: round trips (C13), truncated and mistyped packets (C14), arbitrary content
// (C15).
#include <set>
#include "world.hh"

void warm_fields();

namespace {

using ref::ids_t;
std::string P() { return mc::options().property; }
std::string S(std::uint64_t v) { return std::to_string(v); }
using Pz = ntc::detail::packetizer<PH>;

ntc::detail::source_id_list mkids(const ids_t& v) { return ntc::detail::source_id_list(v.begin(), v.end()); }

// --- C13 ----------------------------------------------------------------------------------------
struct Rt
{
  Sink sk;
  PH ph{&sk};
  Pz pz{ph};

  bytes written(const char* what)
  {
    if (sk.open || sk.out.size() != 1) { mc::fail("framing", std::string(what) + ": " + S(sk.out.size()) + " packets ended, unfinished bytes: " + S(sk.cur.size())); }
    auto b = sk.out[0]; sk.out.clear(); return b;
  }
  static ntc::packet with_tail(const bytes& b, int tail)
  {
    bytes c = b;
    for (int i = 0; i < tail; ++i) { c.push_back(static_cast<unsigned char>(0xff - i)); }
    return mkpkt(c);
  }
  static void count(const char* what, std::size_t got, std::size_t exp)
  { if (got != exp) { mc::fail("byte count", std::string(what) + ": " + S(got) + " bytes reported as read, the packet has " + S(exp)); } }

  void ids_equal(const char* what, const ntc::detail::source_id_list& got, const ids_t& exp)
  {
    if (got.size() != exp.size() || !std::equal(exp.begin(), exp.end(), got.begin()))
    {
      std::string s; int n = 0;
      for (auto i : got) { if (n++ > 20) { break; } s += S(i) + " "; }
      mc::fail("identifiers", std::string(what) + ": read " + S(got.size()) + " identifiers (" + s + "), " + S(exp.size()) + " were written");
    }
  }
  void ack(std::uint16_t nb, const ids_t& ids, int tail)
  {
    pz.write_ack(ntc::detail::ack{mkids(ids), nb});
    const auto b = written("ack");
    const auto r = read([&] { return pz.read_ack(with_tail(b, tail)); }, "ack");
    ids_equal("ack", r.first.source_ids(), ids);
    if (r.first.nb_packets() != nb) { mc::fail("fields", "ack: number of packets " + S(r.first.nb_packets()) + " instead of " + S(nb)); }
    count("ack", r.second, b.size());
  }
  template <typename F> auto read(F&& f, const char* what) -> decltype(f())
  {
    try { return f(); }
    catch (const ntc::overflow_error&) { mc::fail("rejected", std::string(what) + " is rejected when read back"); }
    catch (const ntc::packet_type_error&) { mc::fail("rejected", std::string(what) + " is rejected when read back"); }
  }
  void repair(std::uint32_t id, std::uint16_t es, const ids_t& ids, const bytes& sym, int tail)
  {
    ntc::detail::zero_byte_buffer z(sym.begin(), sym.end());
    pz.write_repair(ntc::detail::encoder_repair{id, es, mkids(ids), std::move(z)});
    const auto b = written("repair");
    const auto r = read([&] { return pz.read_repair(with_tail(b, tail)); }, "repair");
    ids_equal("repair", r.first.source_ids(), ids);
    if (r.first.id() != id) { mc::fail("fields", "repair: id " + S(r.first.id()) + " instead of " + S(id)); }
    if (r.first.encoded_size() != es) { mc::fail("fields", "repair: encoded size " + S(r.first.encoded_size()) + " instead of " + S(es)); }
    if (r.first.symbol_size() != sym.size() || !std::equal(sym.begin(), sym.end(), reinterpret_cast<const unsigned char*>(r.first.symbol())))
    { mc::fail("payload", "repair: payload of " + S(sym.size()) + " bytes is read back differently (" + S(r.first.symbol_size()) + " bytes)"); }
    count("repair", r.second, b.size());
  }
  void source(std::uint32_t id, const bytes& sym, int tail)
  {
    pz.write_source(ntc::detail::encoder_source{id, mkdata(sym)});
    const auto b = written("source");
    const auto r = read([&] { return pz.read_source(with_tail(b, tail)); }, "source");
    if (r.first.id() != id) { mc::fail("fields", "source: id " + S(r.first.id()) + " instead of " + S(id)); }
    if (r.first.symbol_size() != sym.size() || !std::equal(sym.begin(), sym.end(), reinterpret_cast<const unsigned char*>(r.first.symbol())))
    { mc::fail("payload", "source: payload of " + S(sym.size()) + " bytes is read back differently (" + S(r.first.symbol_size()) + " bytes)"); }
    count("source", r.second, b.size());
  }
};

const std::uint32_t kIds[] = {0, 1, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x01020304, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
const std::uint16_t kU16[] = {0, 1, 127, 128, 255, 256, 0x0102, 0x7fff, 0x8000, 0xff00, 0xffff};
template <typename T, std::size_t N> T pick(mc::Chooser& ch, const T (&a)[N]) { return a[std::size_t(ch.choose(int(N)))]; }

// All subsets of a universe of n identifiers starting at a base, as ack and as repair.
void body_subsets(mc::Chooser& ch, int n)
{
  static const std::uint32_t bases[] = {0, 1, 200, 65529, 0x7ffffffau, 0xffffffffu};
  const int bi = ch.choose(6);
  const std::uint32_t stride = ch.choose(2) ? 300 : 1;
  const std::uint32_t span = std::uint32_t(n - 1) * stride;
  const auto base = bi == 5 ? 0xffffffffu - span : bases[bi];
  unsigned m = 0;
  for (int i = 0; i < n; i += 4) { m |= unsigned(ch.choose(1 << std::min(4, n - i))) << i; }
  ids_t ids;
  for (int i = 0; i < n; ++i) { if ((m >> i) & 1) { ids.push_back(base + std::uint32_t(i) * stride); } }
  ch.log([&] { std::string s = "ids "; for (auto i : ids) { s += S(i) + " "; } return s; });
  ch.step(); ch.step();
  Rt rt;
  rt.ack(7, ids, 0);
  if (!ids.empty()) { rt.repair(3, 12, ids, block(1, 5), 0); }
  ch.outcome(ids.size());
}

// Two or three runs of given lengths and gaps: run lengths around the 8-bit limit.
void body_runs(mc::Chooser& ch, bool thorough)
{
  static const std::uint32_t gaps[] = {1, 2, 255, 256, 257, 0x7fff, 0x8000, 0xffff};
  static const int edge[] = {0, 1, 2, 253, 254, 255, 256, 257, 509, 510, 511, 512, 765, 766};
  const auto first = pick(ch, kIds);
  const int l1 = thorough ? ch.choose(800) : edge[ch.choose(14)];
  const auto g1 = gaps[ch.choose(8)];
  const int l2 = edge[ch.choose(8)];
  const auto g2 = l2 ? gaps[ch.choose(8)] : 1;
  const int l3 = l2 ? ch.choose(2) : 0;
  std::uint64_t cur = first; ids_t ids{first};
  for (int i = 0; i < l1; ++i) { cur += g1; ids.push_back(std::uint32_t(cur)); }
  for (int i = 0; i < l2; ++i) { cur += g2; ids.push_back(std::uint32_t(cur)); }
  for (int i = 0; i < l3; ++i) { cur += g1; ids.push_back(std::uint32_t(cur)); }
  if (cur > 0xffffffffull) { return; }
  ch.log([&] { return "first " + S(first) + ", " + S(l1) + " gaps of " + S(g1) + ", " + S(l2) + " gaps of " + S(g2) + ", " + S(l3); });
  ch.step();
  Rt rt;
  rt.ack(1, ids, 0);
  if (l1 < 4 || l1 == 255) { ch.step(); rt.repair(9, 77, ids, block(2, 3), 0); }
  ch.outcome(ids.size());
}

// One run of every length.
void body_one_run(mc::Chooser& ch, int max)
{
  static const std::uint32_t gaps[] = {1, 2, 0xffff};
  const int l = ch.choose(max);
  const auto g = gaps[ch.choose(3)];
  const std::uint32_t first = ch.choose(2) ? 0xffffffffu - g * std::uint32_t(l + 1) : 0;
  ids_t ids{first};
  for (int i = 0; i < l; ++i) { ids.push_back(ids.back() + g); }
  if (ch.choose(2)) { ids.push_back(ids.back() + 1); }
  ch.step(); ch.step();
  Rt rt;
  rt.ack(1, ids, 0);
  rt.repair(9, 77, ids, block(2, 3), 0);
  ch.outcome(ids.size());
}

// Lists of many runs: acks of more bytes than 8 or 16 bits can count, with and without bytes behind them.
void body_long_list(mc::Chooser& ch)
{
  static const int runs[] = {40, 82, 83, 84, 85, 90, 127, 128, 255, 256, 257, 1000, 10920, 10925, 21842, 21843, 21844, 21845, 21846, 21850, 32767, 32768, 65534};
  const int n = runs[ch.choose(23)];
  const int tail = ch.choose(4) * (ch.choose(2) ? 22000 : 1);
  const int kind = ch.choose(2);
  ids_t ids{5};
  for (int i = 0; i < n; ++i) { ids.push_back(ids.back() + (i % 2 ? 1u : 3u)); }
  ch.log([&] { return S(unsigned(n)) + " runs, " + S(unsigned(tail)) + " bytes behind"; });
  ch.step();
  Rt rt;
  if (kind) { rt.repair(9, 77, ids, block(2, 6), tail); } else { rt.ack(1, ids, tail); }
  ch.outcome(ids.size());
}

// Fields and payload sizes.
void body_fields(mc::Chooser& ch)
{
  const int kind = ch.choose(3);
  const int tail = ch.choose(4);
  const auto size = [&]() -> std::size_t
  {
    const int k = ch.choose(84);
    if (k < 72) { return std::size_t(k); }
    static const std::size_t big[] = {127, 128, 255, 256, 257, 511, 512, 4095, 32767, 32768, 65534, 65535};
    return big[k - 72];
  };
  ch.step();
  Rt rt;
  if (kind == 0) { const auto nb = pick(ch, kU16); const auto id = pick(ch, kIds); rt.ack(nb, {id}, tail); rt.ack(nb, {}, tail); ch.outcome(nb); return; }
  const auto id = pick(ch, kIds);
  auto n = size();
  if (kind == 2) { rt.source(id, block(unsigned(n), n), tail); ch.outcome(n); return; }
  if (!n) { return; } // a repair is never empty
  const auto es = pick(ch, kU16);
  rt.repair(id, es, {id}, block(unsigned(n), n), tail);
  if (id < 0xfffffff0u) { rt.repair(id, es, {id, id + 1, id + 5, id + 7}, block(unsigned(n), n), tail); }
  ch.outcome(n * 65536 + es);
}

// Sequences of packets through one packetizer: nothing leaks from one packet into the next.
void body_reuse(mc::Chooser& ch, int len)
{
  Rt rt;
  std::uint64_t h = 1;
  for (int i = 0; i < len; ++i)
  {
    const int a = ch.choose(9);
    ch.step(); h = h * 31 + std::uint64_t(a);
    switch (a)
    {
      case 0: rt.ack(1, {}, 0); break;
      case 1: rt.ack(3, {4}, 0); break;
      case 2: rt.ack(9, {1, 2, 3, 9, 10, 700}, 1); break;
      case 3: rt.repair(1, 5, {7}, block(1, 4), 0); break;
      case 4: rt.repair(2, 6, {7, 8, 9, 11, 13, 15, 500}, block(2, 40), 2); break;
      case 5: rt.source(77, block(3, 17), 0); break;
      case 6: rt.source(78, block(4, 1), 3); break;
      case 7: // an unfinished reading
        try { rt.pz.read_ack(mkpkt({0, 0, 1, 0, 9, 0, 0, 0, 1, 5, 0, 1, 5})); } catch (const ntc::overflow_error&) {} break;
      case 8: try { rt.pz.read_repair(mkpkt({1, 0, 0, 0, 1, 0, 0, 0, 3, 0, 0, 0, 1, 255, 0, 1})); } catch (const ntc::overflow_error&) {} break;
    }
  }
  ch.outcome(h);
}

// The public interface: byte counts of everything an encoder and a decoder send each other.
void body_api(mc::Chooser& ch, int w, int len)
{
  EncCfg c; c.w = w; c.rate = 3; c.sizes = 0;
  std::string s = "S";
  const std::string al = "SRabA";
  while (int(s.size()) < len)
  {
    std::string ok;
    for (char o : al) { if (held_after(s + o) >= 0) { ok += o; } }
    s += ok[std::size_t(ch.choose(int(ok.size())))];
  }
  const int tail = ch.choose(3);
  const bool ordered = ch.choose(2);
  const unsigned drop = unsigned(ch.choose(4)); // losses: none, or every third packet
  const auto t = run_script(c, s);
  Sink ak; DataSink dt;
  Dec dec(static_cast<std::uint8_t>(w), ordered ? ntc::in_order::yes : ntc::in_order::no, PH{&ak}, DH{&dt});
  dec.set_ack_period(std::chrono::milliseconds{0});
  Sink ek; Enc enc(static_cast<std::uint8_t>(w), PH{&ek});
  std::uint64_t h = 7;
  for (std::size_t i = 0; i < t.items.size(); ++i)
  {
    if (drop && i % 3 == drop - 1) { continue; }
    const auto& b = t.items[i].raw;
    ch.step();
    std::size_t n = 0;
    try { n = dec(Rt::with_tail(b, tail)); }
    catch (const ntc::overflow_error&) { mc::fail("rejected", "a decoder rejects a packet of the encoder: " + ref::hex(b)); }
    catch (const ntc::packet_type_error&) { mc::fail("rejected", "a decoder rejects a packet of the encoder: " + ref::hex(b)); }
    Rt::count("packet given to the decoder", n, b.size());
    dec.generate_ack();
    const auto a = ak.out.back(); ak.out.clear();
    try { n = enc(Rt::with_tail(a, tail)); }
    catch (const ntc::overflow_error&) { mc::fail("rejected", "an encoder rejects an ack of the decoder: " + ref::hex(a)); }
    catch (const ntc::packet_type_error&) { mc::fail("rejected", "an encoder rejects an ack of the decoder: " + ref::hex(a)); }
    Rt::count("ack given to the encoder", n, a.size());
    h = mc::fnv(a.data(), a.size(), h);
  }
  ch.outcome(h);
}

// --- C14 ----------------------------------------------------------------------------------------
struct Bad { bytes b; std::size_t keep; bool in_place; bool type; }; // in_place: the rest still lies behind the packet

ntc::packet mkbad(const Bad& x)
{
  if (x.in_place) { auto p = mkpkt(x.b); p.resize(x.keep); return p; }
  return mkpkt(bytes(x.b.begin(), x.b.begin() + long(x.keep)));
}

// All packets to be rejected derived from `good`; `wrong` are packets of a kind meant for the other side.
std::vector<Bad> all_bad(const std::vector<bytes>& good, const std::vector<bytes>& wrong)
{
  std::vector<Bad> out;
  for (const auto& g : good)
  {
    for (std::size_t k = 0; k < g.size(); ++k) { for (bool ip : {false, true}) { out.push_back({g, k, ip, k == 0}); } }
  }
  for (const auto& g : wrong) { out.push_back({g, g.size(), false, true}); out.push_back({g, 1, false, true}); }
  for (int ty = 3; ty < 256; ++ty)
  {
    const auto& g = good[std::size_t(ty) % good.size()];
    auto b = g; b[0] = static_cast<unsigned char>(ty);
    out.push_back({b, b.size(), false, true});
  }
  return out;
}

template <typename F> void expect_rejected(F&& f, const Bad& x)
{
  const char* got = "is accepted";
  try { f(); }
  catch (const ntc::packet_type_error& e)
  {
    if (x.type)
    {
      // the error carries the offending packet
      const auto& p = e.error_packet;
      if (p.size() != x.keep || !std::equal(p.begin(), p.end(), x.b.begin(), [](char a, unsigned char b) { return static_cast<unsigned char>(a) == b; }))
      { mc::fail("error packet", "the type error does not carry the rejected packet"); }
      return;
    }
    got = "raises a type error";
  }
  catch (const ntc::overflow_error&) { if (!x.type || x.keep == 0) { return; } got = "raises an overflow error"; }
  catch (const mc::Violation&) { throw; }
  catch (const std::exception&) { got = "raises another exception"; }
  const auto k = ref::parse(x.b);
  mc::fail("not rejected", (x.type ? "packet of type " + S(x.b[0]) + " and " : std::string("prefix of ")) + S(x.keep) + " of " + S(x.b.size()) + " bytes " + got + " (" + ref::show(k) + ")");
}

struct DecObs
{
  Sink ak; DataSink dt; Dec dec;
  DecObs(int w, bool o) : dec(static_cast<std::uint8_t>(w), o ? ntc::in_order::yes : ntc::in_order::no, PH{&ak}, DH{&dt})
  { dec.set_ack_period(std::chrono::milliseconds{0}); dec.set_ack_nb_packets(128); }
  ids_t acks() { dec.generate_ack(); const auto k = ref::parse(ak.out.back()); ak.out.clear(); return k.ids; }
};

void body_dec_reject(mc::Chooser& ch, int w, const std::string& script, int len, bool all_types)
{
  static std::map<std::string, std::pair<Traffic, std::vector<Bad>>> cache;
  const auto key = script + S(std::uint64_t(w)) + (all_types ? "t" : "");
  auto it = cache.find(key);
  if (it == cache.end())
  {
    EncCfg c; c.w = w; c.sizes = 0;
    auto t = run_script(c, script);
    std::vector<bytes> good; for (auto& i : t.items) { good.push_back(i.raw); }
    auto bad = all_bad(good, {ref::mk_ack(1, {0, 1}), ref::mk_ack(0, {})});
    if (!all_types) { bad.erase(std::remove_if(bad.begin(), bad.end(), [](const Bad& b) { return b.type && b.b[0] > 4 && b.b[0] < 255; }), bad.end()); }
    it = cache.emplace(key, std::make_pair(t, bad)).first;
  }
  const auto& t = it->second.first; const auto& bad = it->second.second;
  const bool ordered = ch.choose(2);
  std::vector<std::size_t> seq;
  for (int i = 0; i < len; ++i) { seq.push_back(std::size_t(ch.choose(int(t.items.size())))); }
  const int at = ch.choose(len + 1);
  const auto& x = bad[std::size_t(ch.choose(int(bad.size())))];
  DecObs a(w, ordered), b(w, ordered);
  std::uint64_t h = 3;
  const auto same = [&](const char* when)
  {
    if (a.dt.got != b.dt.got) { mc::fail("trace", std::string("a rejected packet changed what is handed over, ") + when); }
    const auto x1 = a.acks(), x2 = b.acks();
    if (x1 != x2) { mc::fail("trace", std::string("a rejected packet changed the acknowledged sources, ") + when); }
    if (a.dec.nb_missing_sources() != b.dec.nb_missing_sources()) { mc::fail("trace", "a rejected packet changed the missing sources"); }
    if (a.dec.nb_decoded() != b.dec.nb_decoded()) { mc::fail("trace", "a rejected packet changed the decoded sources"); }
    h = mc::fnv(x1.data(), x1.size() * 4, h);
  };
  for (int i = 0; i <= len; ++i)
  {
    if (i == at)
    {
      ch.log([&] { return "malformed: " + S(x.keep) + " of " + S(x.b.size()) + " bytes of " + ref::hex(x.b); });
      ch.step();
      const auto n = a.dt.got.size();
      expect_rejected([&] { a.dec(mkbad(x)); }, x);
      if (a.dt.got.size() != n) { mc::fail("trace", "a rejected packet handed over a block"); }
      if (!a.ak.out.empty()) { mc::fail("trace", "a rejected packet made the decoder send"); }
    }
    if (i == len) { break; }
    const auto& k = t.items[seq[std::size_t(i)]];
    ch.log([&] { return ref::show(k.k); });
    ch.step();
    pass_pkt(a.dec, k.raw); pass_pkt(b.dec, k.raw);
    same("later");
  }
  same("at the end");
  ch.outcome(h);
}

void body_enc_reject(mc::Chooser& ch, int w, int len, bool all_types)
{
  static std::vector<Bad> bads[2];
  auto& bad = bads[all_types];
  if (bad.empty())
  {
    std::vector<bytes> good{ref::mk_ack(2, {0, 1}), ref::mk_ack(1, {0, 2, 3}), ref::mk_ack(5, {})};
    bad = all_bad(good, {ref::mk_source(0, block(0, 5)), ref::mk_repair_raw(0, block(0, 5), {0, 1}, 5)});
    if (!all_types) { bad.erase(std::remove_if(bad.begin(), bad.end(), [](const Bad& b) { return b.type && b.b[0] > 4 && b.b[0] < 255; }), bad.end()); }
  }
  std::vector<int> seq;
  for (int i = 0; i < len; ++i) { seq.push_back(ch.choose(4)); }
  const int at = ch.choose(len + 1);
  const auto& x = bad[std::size_t(ch.choose(int(bad.size())))];
  Sink s1, s2;
  Enc a(static_cast<std::uint8_t>(w), PH{&s1}), b(static_cast<std::uint8_t>(w), PH{&s2});
  a.set_rate(3).set_adaptive(true); b.set_rate(3).set_adaptive(true);
  unsigned n = 0;
  for (int i = 0; i <= len; ++i)
  {
    if (i == at)
    {
      ch.log([&] { return "malformed: " + S(x.keep) + " of " + S(x.b.size()) + " bytes of " + ref::hex(x.b); });
      ch.step();
      expect_rejected([&] { a(mkbad(x)); }, x);
    }
    if (i < len)
    {
      ch.step();
      switch (seq[std::size_t(i)])
      {
        case 0: { const auto d = block(n, block_size(w, 0, n)); ++n; pass_data(a, d); pass_data(b, d); break; }
        case 1: if (b.window()) { a.generate_repair(); b.generate_repair(); } break;
        case 2: { const auto k = ref::mk_ack(1, {0, 2}); pass_pkt(a, k); pass_pkt(b, k); break; }
        case 3: { const auto d = block(n, block_size(w, 1, n)); ++n; pass_data(a, d); pass_data(b, d); const auto k = ref::mk_ack(1, {1}); pass_pkt(a, k); pass_pkt(b, k); break; }
      }
    }
    if (s1.out != s2.out || s1.open != s2.open) { mc::fail("trace", "a rejected packet changed what the encoder sends"); }
    if (a.window() != b.window()) { mc::fail("trace", "a rejected packet changed the window: " + S(a.window()) + " instead of " + S(b.window())); }
    if (a.rate() != b.rate()) { mc::fail("trace", "a rejected packet changed the rate"); }
  }
  std::uint64_t h = 5; for (auto& o : s1.out) { h = mc::fnv(o.data(), o.size(), h); }
  ch.outcome(h);
}

// Large packets, cut near their ends, their fields, and where lengths pass 8 and 16 bits.
void body_large_reject(mc::Chooser& ch)
{
  static const std::size_t ns[] = {250, 256, 300, 32768, 40000, 65492, 65528, 65529, 65530, 65532, 65535}, rs[] = {85, 86, 300, 21840, 21850, 32770, 65000};
  const int kind = ch.choose(4);
  const int v = ch.choose(kind < 2 ? 11 : 7);
  static std::map<int, bytes> cache;
  auto& g = cache[kind * 16 + v];
  if (g.empty())
  {
    ids_t ids; if (kind >= 2) { for (std::uint32_t i = 0; i < rs[v]; ++i) { ids.push_back(i * 3 + i % 2); } }
    g = kind == 0 ? ref::mk_source(1, block(1, ns[v])) : kind == 1 ? ref::mk_repair_raw(0, block(2, ns[v]), {0, 1, 2}, 77) : kind == 2 ? ref::mk_repair_raw(0, block(2, 6), ids, 77) : ref::mk_ack(3, ids);
  }
  std::set<std::size_t> cuts;
  for (std::size_t k = 1; k < 30; ++k) { cuts.insert(k); cuts.insert(g.size() - k); cuts.insert(g.size() / 2 + k); cuts.insert(250 + k); cuts.insert(65522 + k); cuts.insert(32762 + k); }
  std::vector<std::size_t> cv; for (auto c : cuts) { if (c && c < g.size()) { cv.push_back(c); } }
  const Bad x{g, cv[std::size_t(ch.choose(int(cv.size())))], ch.choose(2) == 1, false};
  ch.log([&] { return S(x.keep) + " of " + S(g.size()) + " bytes of a packet of type " + S(g[0]); });
  ch.step();
  if (kind == 3)
  {
    Sink sk; Enc e(8, PH{&sk}); e.set_rate(100);
    for (unsigned i = 0; i < 5; ++i) { pass_data(e, block(i, 4)); }
    expect_rejected([&] { e(mkbad(x)); }, x);
    if (e.window() != 5) { mc::fail("trace", "a rejected ack changed the window"); }
  }
  else
  {
    DecObs a(8, false);
    pass_pkt(a.dec, ref::mk_source(0, block(0, 10)));
    expect_rejected([&] { a.dec(mkbad(x)); }, x);
    if (a.dt.got.size() != 1 || a.dec.nb_missing_sources()) { mc::fail("trace", "a rejected packet left a trace"); }
    if (a.acks() != ids_t{0}) { mc::fail("trace", "a rejected packet changed the acknowledged sources"); }
  }
  ch.outcome(std::uint64_t(kind * 16 + v));
}

// --- C15 ----------------------------------------------------------------------------------------
template <typename F> void tolerate(F&& f)
{
  try { f(); }
  catch (const ntc::packet_type_error&) {}
  catch (const ntc::overflow_error&) {}
  catch (const mc::Violation&) { throw; }
  catch (const std::exception& e) { mc::fail("exception", std::string("a packet raises an undocumented exception: ") + e.what()); }
}

struct Victim
{
  DecObs d; std::uint64_t h = 11;
  Victim(int w, bool o) : d(w, o) {}
  void feed(mc::Chooser& ch, const bytes& b)
  {
    ch.step();
    ch.log([&] { return ref::show(ref::parse(b)) + "  " + ref::hex(b, 48); });
    tolerate([&] { pass_pkt(d.dec, b); });
    d.acks();
    h = h * 31 + d.dt.got.size(); h = h * 31 + d.dec.nb_missing_sources();
    d.dt.got.clear();
  }
};

// One byte of one packet of a genuine session is changed.
void body_byte(mc::Chooser& ch, int w, const std::string& script, int len, bool all_values)
{
  static std::map<std::string, Traffic> cache;
  const auto key = script + S(std::uint64_t(w));
  auto it = cache.find(key);
  if (it == cache.end()) { EncCfg c; c.w = w; c.sizes = 1; it = cache.emplace(key, run_script(c, script)).first; }
  const auto& t = it->second;
  const bool ordered = ch.choose(2);
  std::vector<std::size_t> seq;
  for (int i = 0; i < len; ++i) { seq.push_back(std::size_t(ch.choose(int(t.items.size())))); }
  const int at = ch.choose(len);
  auto b = t.items[seq[std::size_t(at)]].raw;
  const auto pos = std::size_t(ch.choose(int(b.size())));
  static const unsigned char few[] = {0, 1, 2, 3, 5, 16, 0x40, 0x7f, 0x80, 0xfe, 0xff};
  if (all_values) { b[pos] = static_cast<unsigned char>(ch.choose(256)); }
  else
  {
    const int k = ch.choose(15);
    if (k < 11) { b[pos] = few[k]; }
    else if (k == 11) { b[pos] = static_cast<unsigned char>(b[pos] + 1); }
    else if (k == 12) { b[pos] = static_cast<unsigned char>(b[pos] - 1); }
    else if (k == 13) { b[pos] = static_cast<unsigned char>(b[pos] ^ 0x10); }
    else { b.erase(b.begin() + long(pos)); }
  }
  Victim v(w, ordered);
  for (int i = 0; i < len; ++i) { v.feed(ch, i == at ? b : t.items[seq[std::size_t(i)]].raw); }
  ch.outcome(v.h);
}

bytes crafted(mc::Chooser& ch, int level)
{
  // level 2: full alphabet, 1: reduced
  static const std::uint16_t sizes2[] = {0, 1, 4, 16, 100, 255, 600};
  static const std::uint16_t sizes1[] = {0, 3, 200};
  static const ids_t lists2[] = {{}, {0}, {1}, {0, 1}, {1, 2}, {0, 1, 2}, {0, 2}, {2, 3}, {0, 0x10000}, {0xffffffffu, 1}, {5, 5, 5}, {1, 0, 0xffffffffu}};
  static const ids_t lists1[] = {{}, {0}, {1}, {0, 1}, {1, 2}, {0, 1, 2}, {0xffffffffu, 1}};
  static const std::uint16_t es2[] = {0, 1, 2, 7, 100, 600, 0x8001, 0xffff};
  static const std::uint16_t es1[] = {1, 0x00ff, 0xffff};
  if (level == 0)
  {
    static const std::uint16_t sz[] = {4, 200};
    if (ch.choose(2)) { const auto id = std::uint32_t(ch.choose(3)); return ref::mk_source(id, block(id, sz[ch.choose(2)])); }
    static const ids_t l0[] = {{}, {0}, {0, 1}, {1, 2}, {0, 1, 2}};
    const auto rid = std::uint32_t(ch.choose(2));
    const auto& l = l0[ch.choose(5)];
    const auto n = sz[ch.choose(2)];
    return ref::mk_repair_raw(rid, block(7, n), l, ch.choose(2) ? 0xffff : 1);
  }
  if (ch.choose(2))
  {
    static const std::uint32_t ids2[] = {0, 1, 2, 3, 0xffffffffu};
    const auto id = level == 2 ? ids2[ch.choose(5)] : ids2[ch.choose(3)];
    const auto n = level == 2 ? sizes2[ch.choose(7)] : sizes1[ch.choose(3)];
    return ref::mk_source(id, block(id, n));
  }
  static const std::uint32_t rids[] = {0, 1, 2, 0xfffffffeu, 0xffffffffu};
  const auto rid = level == 2 ? rids[ch.choose(5)] : rids[ch.choose(2)];
  const auto& l = level == 2 ? lists2[ch.choose(12)] : lists1[ch.choose(7)];
  const auto n = level == 2 ? sizes2[ch.choose(7)] : sizes1[ch.choose(3)];
  const auto es = level == 2 ? es2[ch.choose(8)] : es1[ch.choose(3)];
  return ref::mk_repair_raw(rid, block(7, n), l, es);
}

// Sequences of well-formed but nonsensical packets.
void body_crafted(mc::Chooser& ch, int w, const std::vector<int>& levels)
{
  const bool ordered = ch.choose(2);
  Victim v(w, ordered);
  for (int l : levels) { v.feed(ch, crafted(ch, l)); }
  // and a genuine one
  v.feed(ch, ref::mk_source(1, block(1, 8)));
  ch.outcome(v.h);
}

// Identifier lists as raw (run, gap) pairs.
void body_lists(mc::Chooser& ch, int w, bool ack)
{
  static const unsigned runs[] = {0, 1, 2, 255};
  static const unsigned gaps[] = {0, 1, 0x8000, 0xffff};
  bytes l;
  const unsigned declared = unsigned(ch.choose(6)); // declared element count
  static const std::uint32_t firsts[] = {0, 1, 0xffff, 0xfffffff0u, 0xffffffffu};
  ref::wr(l, declared == 5 ? 0xffff : declared, 2); ref::wr(l, firsts[ch.choose(5)], 4);
  const int n = ch.choose(ack || mc::options().thorough ? 4 : 3);
  for (int i = 0; i < n; ++i) { ref::wr(l, runs[ch.choose(i == 0 || ack ? 4 : 3)], 1); ref::wr(l, gaps[ch.choose(4)], 2); }
  if (ack)
  {
    bytes b; ref::wr(b, 0, 1); ref::wr(b, 9, 2); b.insert(b.end(), l.begin(), l.end());
    Sink sk; Enc e(static_cast<std::uint8_t>(w), PH{&sk});
    e.set_rate(2); e.set_adaptive(true);
    for (unsigned i = 0; i < 3; ++i) { pass_data(e, block(i, 4)); }
    ch.step(); tolerate([&] { pass_pkt(e, b); });
    pass_data(e, block(3, 8)); ch.step();
    tolerate([&] { pass_pkt(e, b); });
    ch.outcome(e.window() + 10 * e.rate());
    return;
  }
  bytes b; ref::wr(b, 1, 1); ref::wr(b, 0, 4); ref::wr(b, 8, 2); const auto s = block(1, 8); b.insert(b.end(), s.begin(), s.end());
  b.insert(b.end(), l.begin(), l.end()); ref::wr(b, 8, 2);
  Victim v(w, ch.choose(2));
  const int before = ch.choose(3);
  for (int i = 0; i < before; ++i) { v.feed(ch, ref::mk_source(std::uint32_t(i), block(unsigned(i), 8))); }
  v.feed(ch, b);
  v.feed(ch, ref::mk_source(2, block(2, 12)));
  b[4] = 1; v.feed(ch, b);
  v.feed(ch, ref::mk_repair_raw(5, block(3, 8), {0, 1, 2, 3}, 4));
  ch.outcome(v.h);
}

// Every packet of at most `len` bytes over a byte alphabet (sizes and counts take their extremes).
void body_raw(mc::Chooser& ch, bool enc, int len)
{
  static const unsigned char al[] = {0, 1, 2, 0xff};
  const int n = ch.choose(len + 1);
  bytes b;
  for (int i = 0; i < n; ++i)
  {
    const int k = ch.choose(i == 0 ? 5 : 4);
    b.push_back(k == 4 ? 3 : al[k]);
  }
  if (enc)
  {
    Sink sk; Enc e(8, PH{&sk});
    pass_data(e, block(0, 4)); pass_data(e, block(1, 4));
    ch.step(); tolerate([&] { pass_pkt(e, b); });
    pass_data(e, block(2, 4)); e.generate_repair();
    ch.outcome(e.window());
  }
  else
  {
    Victim v(8, false);
    v.feed(ch, ref::mk_source(1, block(1, 3)));
    v.feed(ch, b);
    v.feed(ch, ref::mk_repair_raw(3, block(3, 9), {0, 1}, 4));
    v.feed(ch, b);
    ch.outcome(v.h);
  }
}

std::vector<mc::Job> jobs()
{
  warm_fields();
  const bool T = mc::options().thorough;
  const auto p = P();
  std::vector<mc::Job> js;
  const auto add = [&](const std::string& n, std::function<void(mc::Chooser&)> f, int shards, int depth)
  { mc::Job j; j.name = n; j.body = std::move(f); j.shards = shards; j.shard_depth = depth; js.push_back(j); };
  if (p == "C13")
  {
    const int n = T ? 18 : 14;
    add("subsets of " + S(unsigned(n)), [n](mc::Chooser& ch) { body_subsets(ch, n); }, 16, 3);
    add("runs", [T](mc::Chooser& ch) { body_runs(ch, T); }, 32, 4);
    add("one run", [T](mc::Chooser& ch) { body_one_run(ch, T ? 3000 : 700); }, 16, 1);
    add("fields", body_fields, 16, 3);
    add("long lists", body_long_list, 23, 1);
    const int l = T ? 6 : 5;
    add("reuse " + S(unsigned(l)), [l](mc::Chooser& ch) { body_reuse(ch, l); }, 16, 3);
    for (int w : {8, 4, 16, 32}) { const int k = T ? 8 : 6; add("api w" + S(unsigned(w)), [w, k](mc::Chooser& ch) { body_api(ch, w, k); }, 16, 5); }
  }
  if (p == "C14")
  {
    for (int w : {8, 16, 4, 32})
    {
      const int l = T ? 4 : 3;
      add("decoder w" + S(unsigned(w)) + " SSRaR", [w, l](mc::Chooser& ch) { body_dec_reject(ch, w, "SSRaR", l, false); }, 32, 5);
      add("decoder w" + S(unsigned(w)) + " SSSRRAR", [w, T](mc::Chooser& ch) { body_dec_reject(ch, w, "SSSRRAR", T ? 3 : 2, false); }, 32, 4);
      add("encoder w" + S(unsigned(w)), [w, T](mc::Chooser& ch) { body_enc_reject(ch, w, T ? 6 : 5, false); }, 32, 5);
    }
    add("large", body_large_reject, 16, 2);
    add("decoder types", [](mc::Chooser& ch) { body_dec_reject(ch, 8, "SSR", 2, true); }, 8, 3);
    add("encoder types", [](mc::Chooser& ch) { body_enc_reject(ch, 8, 2, true); }, 8, 3);
  }
  if (p == "C15")
  {
    for (int w : {8, 4, 16, 32})
    {
      const auto wn = " w" + S(unsigned(w));
      add("byte" + wn, [w, T](mc::Chooser& ch) { body_byte(ch, w, "SSRaR", T ? 4 : 3, false); }, 32, 5);
      add("byte2" + wn, [w, T](mc::Chooser& ch) { body_byte(ch, w, "SSSRRAR", T ? 4 : 3, false); }, 32, 5);
      add("byte all" + wn, [w, T](mc::Chooser& ch) { body_byte(ch, w, "SSR", T ? 3 : 2, true); }, 16, 4);
      if (T || w == 8) { add("crafted 2-1" + wn, [w](mc::Chooser& ch) { body_crafted(ch, w, {2, 1}); }, 16, 4); }
      if (T || w == 16) { add("crafted 1-2" + wn, [w](mc::Chooser& ch) { body_crafted(ch, w, {1, 2}); }, 16, 4); }
      add("crafted 0-0-0" + wn, [w](mc::Chooser& ch) { body_crafted(ch, w, {0, 0, 0}); }, 16, 4);
      if (T) { add("crafted 0-0-0-0" + wn, [w](mc::Chooser& ch) { body_crafted(ch, w, {0, 0, 0, 0}); }, 64, 6); }
      if (T) { add("crafted 1-1-1" + wn, [w](mc::Chooser& ch) { body_crafted(ch, w, {1, 1, 1}); }, 32, 5); }
      if (T) { add("crafted 2-2" + wn, [w](mc::Chooser& ch) { body_crafted(ch, w, {2, 2}); }, 32, 5); }
      if (T && w != 4) { add("crafted 1-1-2" + wn, [w](mc::Chooser& ch) { body_crafted(ch, w, {1, 1, 2}); }, 64, 6); }
      add("lists" + wn, [w](mc::Chooser& ch) { body_lists(ch, w, false); }, 8, 3);
    }
    add("ack lists", [](mc::Chooser& ch) { body_lists(ch, 8, true); }, 8, 3);
    const int n = T ? 9 : 8;
    add("raw decoder", [n](mc::Chooser& ch) { body_raw(ch, false, n); }, 32, 5);
    add("raw encoder", [n](mc::Chooser& ch) { body_raw(ch, true, n); }, 32, 5);
  }
  return js;
}

} // anon

int main(int argc, char** argv) { return mc::main_(argc, argv, jobs); }
