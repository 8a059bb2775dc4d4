// Independence of sessions (C18).
#include <cstring>
#include <memory>
#include "netcode/c/decoder.h"
#include "netcode/c/encoder.h"
#include "netcode/c/data.h"
#include "netcode/c/packet.h"
#include "world.hh"
#include "sched.hh"

void warm_fields();

namespace {

std::string S(std::uint64_t v) { return std::to_string(v); }

// What a session observes.
struct Log { std::vector<bytes> items; bool operator==(const Log& o) const { return items == o.items; } };

// Called before each handler call of a session (null in solo runs).
using Hook = std::function<void()>;

struct Obs
{
  Log* log; Hook* hook; bytes cur;
  void packet(const char* p, std::size_t n) { if (hook && *hook) { (*hook)(); } cur.insert(cur.end(), p, p + n); }
  void end(unsigned char tag) { if (hook && *hook) { (*hook)(); } cur.insert(cur.begin(), tag); log->items.push_back(cur); cur.clear(); }
};
struct SPH { Obs* o; unsigned char tag; std::vector<bytes>* out; void operator()(const char* p, std::size_t n) { o->packet(p, n); } void operator()() { out->push_back(o->cur); o->end(tag); } };
struct SDH { Obs* o; void operator()(const char* p, std::size_t n) { if (o->hook && *o->hook) { (*o->hook)(); } bytes b(p, p + n); b.insert(b.begin(), 'd'); o->log->items.push_back(b); } };

// An encoder and a decoder with a scripted link between them. Ops:
//  S/s submit a block whose packets arrive / are lost; R/r a forced repair that arrives / is lost;
//  A ack that arrives; a acks sent so far arrive; M submit whose source is lost but whose repair, if any, arrives; N/n code type; W window 2;
//  D adaptive; Q ack every 2 packets; P ack period 100 ms; T 60 ms pass; K poll; X a packet cut short for the decoder; Y a packet of another type for the encoder
// Each session has a clock of its own, which it sets at each of its calls (sessions without T leave the clock alone).
struct Config { int w; bool order; const char* ops; std::size_t rate; int sizes; bool clocked() const { return std::string(ops).find('T') != std::string::npos; } };
struct Clock
{
  bool on; std::int64_t saved;
  Clock(const Config& c, std::int64_t now) : on(c.clocked()), saved(0) { if (on) { saved = g_steady_ns; g_steady_ns = now; } }
  Clock(const Clock&) = delete;
  ~Clock() { if (on) { g_steady_ns = saved; } }
};
constexpr std::int64_t start_ns = 2000000000000ll;

struct Session
{
  Config c; Log log; Obs oe, od; std::vector<bytes> eo, dout; unsigned n = 0;
  std::unique_ptr<Clock> boot{new Clock(c, start_ns)};
  ntc::encoder<SPH> enc; ntc::decoder<SPH, SDH> dec;
  std::size_t at = 0; std::int64_t now = start_ns;
  Session(const Config& k, Hook* h)
    : c(k), oe{&log, h, {}}, od{&log, h, {}}, enc(static_cast<std::uint8_t>(k.w), SPH{&oe, 'e', &eo}), dec(static_cast<std::uint8_t>(k.w), k.order ? ntc::in_order::yes : ntc::in_order::no, SPH{&od, 'k', &dout}, SDH{&od})
  {
    enc.set_rate(k.rate); dec.set_ack_nb_packets(128);
    dec.set_ack_period(std::chrono::milliseconds{0}); boot.reset();
  }
  bool more() const { return c.ops[at] != 0; }
  void deliver(bool sources)
  {
    auto v = std::move(eo); eo.clear();
    for (auto& p : v) { if (sources || p[0] != 2) { pass_pkt(dec, p); } }
  }
  template <typename F> void rejected(F f) { try { f(); log.items.push_back(bytes{'x', 'n'}); } catch (const std::exception& e) { const std::string t = e.what(); bytes b{'x'}; b.insert(b.end(), t.begin(), t.end()); log.items.push_back(b); } }
  void acks() { auto v = std::move(dout); dout.clear(); for (auto& p : v) { pass_pkt(enc, p); } }
  void step()
  {
    const char op = c.ops[at++];
    if (op == 'T') { now += 60000000; }
    Clock cl(c, now);
    switch (op)
    {
      case 'S': case 's': case 'M':
      {
        pass_data(enc, block(n, block_size(c.w, c.sizes, n))); ++n;
        if (op == 's') { eo.clear(); } else { deliver(op == 'S'); }
        break;
      }
      case 'R': case 'r': if (enc.window()) { enc.generate_repair(); } if (op == 'r') { eo.clear(); } else { deliver(true); } break;
      case 'A': dec.generate_ack(); acks(); break;
      case 'a': acks(); break;
      case 'D': enc.set_adaptive(true); break;
      case 'Q': dec.set_ack_nb_packets(2); break;
      case 'P': dec.set_ack_period(std::chrono::milliseconds{100}); dec.set_ack_nb_packets(128); break;
      case 'K': dec.maybe_ack(); break;
      case 'X': rejected([&] { pass_pkt(dec, bytes{2, 0, 0, 0, 3, 0, 4, 1}); }); break;
      case 'Y': rejected([&] { pass_pkt(enc, bytes{static_cast<unsigned char>(7 + c.w), 0, 0, 0, 3}); }); break;
      case 'N': enc.set_code_type(ntc::systematic::no); break;
      case 'n': enc.set_code_type(ntc::systematic::yes); break;
      case 'W': enc.set_window_size(2); break;
    }
    const std::uint64_t k[] = {enc.window(), enc.rate(), enc.nb_sent_sources(), enc.nb_sent_repairs(), enc.nb_received_acks(),
                               dec.nb_decoded(), dec.nb_missing_sources(), dec.nb_received_repairs(), dec.nb_received_sources(), dec.nb_useless_repairs(), dec.nb_sent_acks(), dec.nb_failed_full_decodings()};
    bytes b{'c'}; for (auto x : k) { b.push_back(static_cast<unsigned char>(x)); }
    log.items.push_back(b);
  }
};

// The same over the C interface.
struct CSession
{
  static void prep(void* o, const char* p, std::size_t n) { (*static_cast<SPH*>(o))(p, n); }
  static void send(void* o) { (*static_cast<SPH*>(o))(); }
  static void read(void* o, const char* p, std::size_t n) { (*static_cast<SDH*>(o))(p, n); }
  Config c; Log log; Obs oe, od; std::vector<bytes> eo, dout; SPH pe, pd; SDH dd; unsigned n = 0; std::size_t at = 0; std::int64_t now = start_ns;
  std::unique_ptr<Clock> boot{new Clock(c, start_ns)};
  ntc_encoder_t* enc; ntc_decoder_t* dec;
  CSession(const Config& k, Hook* h) : c(k), oe{&log, h, {}}, od{&log, h, {}}, pe{&oe, 'e', &eo}, pd{&od, 'k', &dout}, dd{&od}
  {
    enc = ntc_new_encoder(static_cast<std::uint8_t>(k.w), ntc_packet_handler{&pe, prep, send});
    dec = ntc_new_decoder(static_cast<std::uint8_t>(k.w), k.order ? ntc_in_order_yes : ntc_in_order_no, ntc_packet_handler{&pd, prep, send}, ntc_data_handler{&dd, read});
    ntc_encoder_set_rate(enc, k.rate); ntc_decoder_set_ack_nb_packets(dec, 128);
    ntc_decoder_set_ack_period(dec, 0); boot.reset();
  }
  CSession(const CSession&) = delete;
  ~CSession() { ntc_delete_encoder(enc); ntc_delete_decoder(dec); }
  bool more() const { return c.ops[at] != 0; }
  void err(const ntc_error& e) { if (e.type != ntc_no_error) { bytes b{'x', static_cast<unsigned char>(e.type)}; if (e.message) { b.insert(b.end(), e.message, e.message + std::strlen(e.message)); } log.items.push_back(b); } }
  void give(bool to_enc, const bytes& p)
  {
    ntc_error e; auto* q = ntc_new_packet_from(reinterpret_cast<const char*>(p.data()), std::uint16_t(p.size()));
    if (to_enc) { ntc_encoder_add_packet(enc, q, &e); } else { ntc_decoder_add_packet(dec, q, &e); }
    err(e); ntc_delete_packet(q);
  }
  void acks() { auto v = std::move(dout); dout.clear(); for (auto& p : v) { give(true, p); } }
  void deliver(bool sources)
  {
    auto v = std::move(eo); eo.clear();
    for (auto& p : v) { if (sources || p[0] != 2) { give(false, p); } }
  }
  void step()
  {
    const char op = c.ops[at++]; ntc_error e;
    if (op == 'T') { now += 60000000; }
    Clock cl(c, now);
    switch (op)
    {
      case 'S': case 's': case 'M':
      {
        const auto b = block(n, block_size(c.w, c.sizes, n)); ++n;
        auto* d = ntc_new_data_from(reinterpret_cast<const char*>(b.data()), std::uint16_t(b.size()));
        ntc_encoder_add_data(enc, d, &e); err(e); ntc_delete_data(d);
        if (op == 's') { eo.clear(); } else { deliver(op == 'S'); }
        break;
      }
      case 'R': case 'r': if (ntc_encoder_window(enc)) { ntc_encoder_generate_repair(enc, &e); err(e); } if (op == 'r') { eo.clear(); } else { deliver(true); } break;
      case 'A': ntc_decoder_generate_ack(dec, &e); err(e); acks(); break;
      case 'a': acks(); break;
      case 'D': ntc_encoder_set_adaptive(enc, true); break;
      case 'Q': ntc_decoder_set_ack_nb_packets(dec, 2); break;
      case 'P': ntc_decoder_set_ack_period(dec, 100); ntc_decoder_set_ack_nb_packets(dec, 128); break;
      case 'K': break; // no such function in the C interface
      case 'X': give(false, bytes{2, 0, 0, 0, 3, 0, 4, 1}); break;
      case 'Y': give(true, bytes{static_cast<unsigned char>(7 + c.w), 0, 0, 0, 3}); break;
      case 'N': ntc_encoder_set_code_type(enc, ntc_systematic_no); break;
      case 'n': ntc_encoder_set_code_type(enc, ntc_systematic_yes); break;
      case 'W': ntc_encoder_set_window_size(enc, 2); break;
    }
    log.items.push_back(bytes{'c', static_cast<unsigned char>(ntc_encoder_window(enc))});
  }
};

template <typename T> Log solo(const Config& c) { T s(c, nullptr); while (s.more()) { s.step(); } return s.log; }

void same(const Log& got, const Log& exp, std::size_t which, const char* how)
{
  if (got == exp) { return; }
  std::size_t i = 0; while (i < got.items.size() && i < exp.items.size() && got.items[i] == exp.items[i]) { ++i; }
  const auto& it = i < exp.items.size() ? exp.items[i] : got.items[i];
  const std::string kind = it[0] == 'e' ? "a packet of the encoder" : it[0] == 'k' ? "an ack" : it[0] == 'd' ? "a block" : it[0] == 'x' ? "an error" : "a counter";
  mc::fail("independence", std::string(how) + ": session " + S(which) + " differs from running alone at observation " + S(i) + " (" + kind + ")");
}

// --- one thread: every interleaving of the calls ------------------------------------------------
template <typename T> void interleave(mc::Chooser& ch, const std::vector<Config>& cs, const std::vector<Log>& exp)
{
  std::vector<std::unique_ptr<T>> s;
  for (auto& c : cs) { s.emplace_back(new T(c, nullptr)); }
  while (true)
  {
    std::vector<std::size_t> alive;
    for (std::size_t i = 0; i < s.size(); ++i) { if (s[i]->more()) { alive.push_back(i); } }
    if (alive.empty()) { break; }
    const auto k = alive[std::size_t(ch.choose(int(alive.size())))];
    ch.log([&] { return "session " + S(k) + " does " + s[k]->c.ops[s[k]->at]; });
    ch.step(); s[k]->step();
  }
  std::uint64_t h = 1;
  for (std::size_t i = 0; i < s.size(); ++i) { same(s[i]->log, exp[i], i, "interleaved calls"); for (auto& x : s[i]->log.items) { h = mc::fnv(x.data(), x.size(), h); } }
  ch.outcome(h);
}

// --- one thread: calls of the second session from within the handlers of the first --------------
// (with "ahead", the second session first does any number of its steps)
template <typename T> void nested(mc::Chooser& ch, const Config& a, const Config& b, const Log& ea, const Log& eb, bool ahead)
{
  std::unique_ptr<T> y; bool inside = false;
  Hook hook = [&]
  {
    if (inside) { return; }
    inside = true;
    while (y->more() && ch.deviate(2)) { ch.log([&] { return std::string("from within a handler: the other session does ") + y->c.ops[y->at]; }); ch.step(); y->step(); }
    inside = false;
  };
  y.reset(new T(b, nullptr));
  if (ahead) { for (int i = 1 + ch.choose(int(std::string(b.ops).size()) - 1); i > 0; --i) { ch.step(); y->step(); } ch.log([&] { return "the other session is ahead by " + S(y->at) + " steps"; }); }
  T x(a, &hook);
  while (x.more()) { ch.step(); x.step(); }
  while (y->more()) { ch.step(); y->step(); }
  same(x.log, ea, 0, "calls from within handlers"); same(y->log, eb, 1, "calls from within handlers");
  ch.outcome(x.log.items.size() * 1000 + ch.trail.size());
}

// --- threads ------------------------------------------------------------------------------------
template <typename T> void threads(mc::Chooser& ch, const std::vector<Config>& cs, const std::vector<Log>& exp, bool build_inside)
{
  Hook hook = [] { sched::point(); };
  std::vector<std::unique_ptr<T>> s(cs.size());
  if (!build_inside) { for (std::size_t i = 0; i < cs.size(); ++i) { s[i].reset(new T(cs[i], &hook)); } }
  std::vector<std::function<void()>> bodies;
  std::vector<Log> logs(cs.size());
  for (std::size_t i = 0; i < cs.size(); ++i)
  {
    bodies.push_back([&, i]
    {
      if (build_inside) { T x(cs[i], &hook); while (x.more()) { x.step(); } logs[i] = x.log; }
      else { while (s[i]->more()) { s[i]->step(); } }
    });
  }
  sched::run(ch, bodies);
  for (std::size_t i = 0; i < cs.size(); ++i) { ch.step(); same(build_inside ? logs[i] : s[i]->log, exp[i], i, "threads"); }
  ch.outcome(sched::points());
  mc::count("scheduling points", sched::points());
}

template <typename T> void add_jobs(std::vector<mc::Job>& js, const std::string& api)
{
  const bool TH = mc::options().thorough;
  const auto add = [&](const std::string& n, std::function<void(mc::Chooser&)> f, int bound, int shards, int depth)
  { mc::Job j; j.name = api + n; j.body = std::move(f); j.bound = bound; j.shards = shards; j.shard_depth = depth; js.push_back(j); };
  // pairs that exercise different parts at the same time
  const std::vector<std::vector<Config>> pairs = {
    {{8, true, "SMRSA", 2, 0}, {8, false, "SsRMA", 1, 1}},
    {{8, true, "sSRRA", 9, 0}, {16, true, "SsRRA", 9, 1}},
    {{4, true, "NSSRA", 1, 0}, {32, false, "WSsSRA", 2, 3}},
    {{16, false, "MMSRA", 1, 2}, {16, true, "SAMRS", 1, 0}},
    {{8, true, "ssSRRA", 9, 0}, {8, false, "ssRRSA", 9, 1}},
    {{16, true, "ssRRA", 9, 0}, {8, true, "sssRRR", 9, 1}},
    {{8, false, "DsSSASS", 9, 0}, {8, true, "SSsASsA", 2, 1}},
    {{8, true, "QSMXSaY", 2, 0}, {16, false, "XQYMSaS", 1, 1}},
    {{8, true, "PTSTSKTA", 9, 0}, {8, false, "PTTSTKSa", 2, 1}},
  };
  for (std::size_t i = 0; i < pairs.size(); ++i)
  {
    const auto p = pairs[i];
    std::vector<Log> e; for (auto& c : p) { e.push_back(solo<T>(c)); }
    add("calls " + S(i), [p, e](mc::Chooser& ch) { interleave<T>(ch, p, e); }, 1 << 30, 4, 4);
    for (int k = 0; k < 2; ++k)
    {
      const auto a = p[std::size_t(k)], b = p[std::size_t(1 - k)]; const auto ea = e[std::size_t(k)], eb = e[std::size_t(1 - k)];
      add("nested " + S(i) + (k ? " reversed" : ""), [=](mc::Chooser& ch) { nested<T>(ch, a, b, ea, eb, false); }, TH ? 5 : 3, 8, 12);
      add("nested ahead " + S(i) + (k ? " reversed" : ""), [=](mc::Chooser& ch) { nested<T>(ch, a, b, ea, eb, true); }, TH ? 4 : 2, 8, 8);
    }
    if (p[0].clocked()) { continue; }
    add("threads " + S(i), [p, e](mc::Chooser& ch) { threads<T>(ch, p, e, false); }, 1, 8, 40);
    add("threads built inside " + S(i), [p, e](mc::Chooser& ch) { threads<T>(ch, p, e, true); }, 1, 8, 40);
  }
  // shorter sessions, more preemptions
  const std::vector<std::vector<Config>> shorts = {
    {{8, true, "MS", 1, 0}, {8, false, "MS", 1, 1}},
    {{4, true, "SA", 1, 0}, {4, true, "SA", 1, 1}},
    {{16, true, "sR", 9, 0}, {8, true, "sR", 9, 1}},
    {{32, true, "SR", 9, 0}, {32, true, "SR", 9, 3}},
  };
  for (std::size_t i = 0; i < shorts.size(); ++i)
  {
    const auto p = shorts[i];
    std::vector<Log> e; for (auto& c : p) { e.push_back(solo<T>(c)); }
    add("threads short " + S(i), [p, e](mc::Chooser& ch) { threads<T>(ch, p, e, false); }, TH ? 3 : 2, 16, 30);
  }
  {
    const std::vector<Config> p = {{8, true, "SMA", 1, 0}, {8, true, "MSA", 1, 1}, {16, false, "sRA", 9, 0}};
    std::vector<Log> e; for (auto& c : p) { e.push_back(solo<T>(c)); }
    add("calls of three", [p, e](mc::Chooser& ch) { interleave<T>(ch, p, e); }, 1 << 30, 4, 4);
    add("three threads", [p, e](mc::Chooser& ch) { threads<T>(ch, p, e, false); }, 1, 8, 40);
  }
}

std::vector<mc::Job> jobs()
{
  warm_fields();
  std::vector<mc::Job> js;
  add_jobs<Session>(js, "");
  add_jobs<CSession>(js, "C ");
  return js;
}

} // anon

int main(int argc, char** argv) { return mc::main_(argc, argv, jobs); }
