// Routing of incoming packets (C25): a pair of components fed through ntc::dispatch in lockstep with
// a pair whose right component is given the packet directly.
#include <cassert>
#include <cstdint>
#include "world.hh"
#include "netcode/dispatch.hh"
#include "world.hh"

void warm_fields();

namespace {

std::string S(std::uint64_t v) { return std::to_string(v); }

struct Side
{
  Sink se, sd; DataSink dt;
  Enc enc; Dec dec;
  Side(int w, bool o) : enc(static_cast<std::uint8_t>(w), PH{&se}), dec(static_cast<std::uint8_t>(w), o ? ntc::in_order::yes : ntc::in_order::no, PH{&sd}, DH{&dt}) {}
};

void same(Side& a, Side& b, const char* what)
{
  const auto chk = [&](bool ok, const char* which) { if (!ok) { mc::fail("routing", std::string(what) + ": " + which + " differs from giving the packet directly"); } };
  chk(a.se.out == b.se.out && a.se.cur == b.se.cur, "what the encoder sends");
  chk(a.sd.out == b.sd.out && a.sd.cur == b.sd.cur, "what the decoder sends");
  chk(a.dt.got == b.dt.got, "what is handed to the application");
  chk(a.enc.window() == b.enc.window() && a.enc.rate() == b.enc.rate(), "the window or rate of the encoder");
  chk(a.enc.nb_received_acks() == b.enc.nb_received_acks() && a.enc.nb_sent_sources() == b.enc.nb_sent_sources() && a.enc.nb_sent_repairs() == b.enc.nb_sent_repairs(), "a counter of the encoder");
  chk(a.dec.nb_received_sources() == b.dec.nb_received_sources() && a.dec.nb_received_repairs() == b.dec.nb_received_repairs()
      && a.dec.nb_sent_acks() == b.dec.nb_sent_acks() && a.dec.nb_decoded() == b.dec.nb_decoded()
      && a.dec.nb_missing_sources() == b.dec.nb_missing_sources() && a.dec.nb_useless_repairs() == b.dec.nb_useless_repairs(), "a counter of the decoder");
}

enum Res { ok, bad_type, overflow, other };
template <typename F> Res attempt(F&& f, std::size_t& n, bytes& rejected)
{
  n = 0; rejected.clear();
  try { n = f(); return ok; }
  catch (const ntc::packet_type_error& e) { rejected.assign(e.error_packet.begin(), e.error_packet.end()); return bad_type; }
  catch (const ntc::overflow_error&) { return overflow; }
  catch (const std::exception&) { return other; }
}

void give(mc::Chooser& ch, Side& a, Side& b, const bytes& p, int how)
{
  ch.log([&] { return "packet " + ref::hex(p); });
  std::size_t ra, rb; bytes ja, jb;
  const auto xa = attempt([&] { if (how) { auto q = mkpkt(p); return ntc::dispatch(a.enc, a.dec, std::move(q)); } return ntc::dispatch(a.enc, a.dec, mkpkt(p)); }, ra, ja);
  const auto type = p[0];
  if (type > 2)
  {
    if (xa != bad_type) { mc::fail("rejection", "a packet of type " + S(type) + " is not rejected"); }
    if (ja != p) { mc::fail("rejection", "the error does not carry the rejected packet"); }
  }
  else
  {
    const auto xb = attempt([&] { return type == 0 ? pass_pkt(b.enc, p) : pass_pkt(b.dec, p); }, rb, jb);
    if (xa != xb) { mc::fail("routing", "a packet of type " + S(type) + " ends with result " + S(xa) + ", given directly " + S(xb)); }
    if (xa == ok && ra != rb) { mc::fail("routing", "dispatch returns " + S(ra) + " bytes, expected " + S(rb)); }
  }
  same(a, b, "dispatch");
}

const Traffic& traffic(int w, const std::string& s)
{
  static std::map<std::string, Traffic> cache;
  const auto k = s + S(unsigned(w));
  auto it = cache.find(k);
  if (it == cache.end()) { EncCfg c; c.w = w; c.sizes = 0; it = cache.emplace(k, run_script(c, s)).first; }
  return it->second;
}

// Both directions of a session: own data and acks of it, the peer's sources and repairs, and packets
// of every type byte on top of any of the bodies.
void body(mc::Chooser& ch, int w, const std::string& script, int len, bool all_types)
{
  const auto& t = traffic(w, script);
  g_steady_ns = 1000000000000ll;
  const bool o = ch.choose(2);
  Side a(w, o), b(w, o);
  for (Side* s : {&a, &b}) { s->enc.set_rate(2); s->dec.set_ack_nb_packets(2); }
  const int np = int(t.items.size());
  static const std::vector<bytes> acks = {ref::mk_ack(1, {0}), ref::mk_ack(3, {1, 2}), ref::mk_ack(0, {}), bytes{0, 0, 1, 0, 9}};
  unsigned n = 0;
  const auto packet_no = [&](int k) -> const bytes&
  { return k < np ? t.items[std::size_t(k)].raw : acks[std::size_t(k - np)]; };
  const int nk = np + int(acks.size());
  int retyped = 0; // at most one per history
  for (int i = 0; i < len; ++i)
  {
    ch.step();
    const int op = ch.choose(nk + (retyped ? 1 : 2));
    if (op < nk) { give(ch, a, b, packet_no(op), i & 1); }
    else if (op == nk) { const auto d = block(n, block_size(w, 0, n)); ++n; pass_data(a.enc, d); pass_data(b.enc, d); }
    else
    {
      // a known body under another type
      retyped = 1;
      auto p = packet_no(ch.choose(nk));
      const int ty = all_types ? ch.choose(256) : std::vector<int>{0, 1, 2, 3, 127, 128, 254, 255}[std::size_t(ch.choose(8))];
      p[0] = static_cast<unsigned char>(ty);
      give(ch, a, b, p, i & 1);
    }
    same(a, b, "step");
  }
  // what is left in both components shows up in what follows
  for (const auto& it : t.items) { give(ch, a, b, it.raw, 0); }
  a.dec.generate_ack(); b.dec.generate_ack();
  for (int i = 0; i < 3; ++i) { const auto d = block(n, block_size(w, 0, n)); ++n; pass_data(a.enc, d); pass_data(b.enc, d); }
  same(a, b, "end");
  std::uint64_t h = 1;
  for (auto& q : a.se.out) { h = mc::fnv(q.data(), q.size(), h); }
  for (auto& q : a.sd.out) { h = mc::fnv(q.data(), q.size(), h); }
  for (auto& q : a.dt.got) { h = mc::fnv(q.data(), q.size(), h); }
  ch.outcome(h);
}

// Two peers connected through dispatch on both ends, with losses and reordering by one.
void body_duplex(mc::Chooser& ch, int w, int rounds)
{
  g_steady_ns = 1000000000000ll;
  Side a(w, true), b(w, true);
  for (Side* s : {&a, &b}) { s->enc.set_rate(1); s->dec.set_ack_nb_packets(1); }
  std::vector<bytes> sent[2];
  for (int i = 0; i < rounds; ++i)
  {
    for (int k = 0; k < 2; ++k)
    {
      Side& x = k ? b : a; Side& y = k ? a : b;
      const auto d = block(unsigned(i * 2 + k), block_size(w, 0, unsigned(i)));
      sent[k].push_back(d);
      pass_data(x.enc, d);
      // packets of both components of x travel on the same link
      std::vector<bytes> link = x.se.out; link.insert(link.end(), x.sd.out.begin(), x.sd.out.end());
      x.se.out.clear(); x.sd.out.clear();
      for (auto& p : link)
      {
        ch.step();
        if (ch.choose(2)) { continue; }
        const auto got = ntc::dispatch(y.enc, y.dec, mkpkt(p));
        if (got != p.size()) { mc::fail("routing", "dispatch returns " + S(got) + " for a packet of " + S(p.size()) + " bytes"); }
      }
    }
  }
  for (int k = 0; k < 2; ++k)
  {
    Side& y = k ? a : b;
    std::size_t pos = 0;
    for (auto& g : y.dt.got)
    {
      while (pos < sent[k].size() && sent[k][pos] != g) { ++pos; }
      if (pos == sent[k].size()) { mc::fail("routing", "a block was handed over which the peer did not send, or out of order"); }
      ++pos;
    }
  }
  ch.outcome(a.dt.got.size() * 64 + b.dt.got.size());
}

// Packets of more bytes than 8 or 16 bits can count.
void body_large(mc::Chooser& ch, int w)
{
  g_steady_ns = 1000000000000ll;
  Side a(w, false), b(w, false);
  const int kind = ch.choose(3);
  static const std::size_t sz[] = {236, 240, 248, 256, 300, 4096, 32768, 65520, 65528, 65532};
  static const int runs[] = {80, 83, 84, 85, 90, 200, 1000, 21843, 21846, 30000};
  const int k = ch.choose(10);
  if (kind == 0)
  {
    ref::ids_t ids{2}; for (int i = 0; i < runs[k]; ++i) { ids.push_back(ids.back() + (i % 2 ? 1u : 3u)); }
    for (unsigned i = 0; i < 300; ++i) { pass_data(a.enc, block(i, 4)); pass_data(b.enc, block(i, 4)); }
    give(ch, a, b, ref::mk_ack(2, ids), 1);
  }
  else
  {
    const auto n = sz[k];
    if (kind == 2) { give(ch, a, b, ref::mk_source(0, block(0, n)), 0); give(ch, a, b, ref::mk_source(0, block(0, n)), 1); }
    else
    {
      Sink sk; Enc e(static_cast<std::uint8_t>(w), PH{&sk}); e.set_rate(2);
      pass_data(e, block(0, n)); pass_data(e, block(1, 8));
      give(ch, a, b, sk.out.at(2), 1); give(ch, a, b, sk.out.at(1), 0);
    }
  }
  a.dec.generate_ack(); b.dec.generate_ack();
  same(a, b, "large");
  ch.outcome(unsigned(k) * 3 + unsigned(kind));
}

std::vector<mc::Job> jobs()
{
  warm_fields();
  const bool T = mc::options().thorough;
  std::vector<mc::Job> js;
  const auto add = [&](const std::string& n, std::function<void(mc::Chooser&)> f, int shards, int depth)
  { mc::Job j; j.name = n; j.body = std::move(f); j.shards = shards; j.shard_depth = depth; js.push_back(j); };
  for (int w : {8, 4, 16, 32})
  {
    const auto wn = " w" + S(unsigned(w));
    add("mixed" + wn, [w, T](mc::Chooser& ch) { body(ch, w, "SSRR", T ? 4 : 3, false); }, 32, 4);
    add("mixed long" + wn, [w, T](mc::Chooser& ch) { body(ch, w, "SSSRRAR", T ? 4 : 3, false); }, 32, 4);
    add("types" + wn, [w, T](mc::Chooser& ch) { body(ch, w, "SSR", T ? 3 : 2, true); }, 32, 4);
    add("large" + wn, [w](mc::Chooser& ch) { body_large(ch, w); }, 3, 1);
    add("duplex" + wn, [w, T](mc::Chooser& ch) { body_duplex(ch, w, T ? 4 : 3); }, 16, 8);
  }
  return js;
}

} // anon

int main(int argc, char** argv) { return mc::main_(argc, argv, jobs); }
