// The C interface in lockstep with the C++ one (C16).
#include <memory>
#include "netcode/c/data.h"
#include "netcode/c/decoder.h"
#include "netcode/c/encoder.h"
#include "netcode/c/packet.h"
#ifdef WITH_CHECK_ERROR
#include "netcode/c/detail/check_error.hh"
#endif
#include "world.hh"

void warm_fields();

namespace {

std::string S(std::uint64_t v) { return std::to_string(v); }

// C handlers: the context is a Sink / DataSink.
void c_prepare(void* c, const char* p, std::size_t n) { PH{static_cast<Sink*>(c)}(p, n); }
void c_send(void* c) { PH{static_cast<Sink*>(c)}(); }
void c_read(void* c, const char* p, std::size_t n) { DH{static_cast<DataSink*>(c)}(p, n); }

char garbage;
// A fresh error object holds whatever was on the stack.
ntc_error dirty(mc::Chooser&, int k)
{
  ntc_error e;
  static const ntc_error_type ty[] = {ntc_unknown_error, ntc_no_memory, ntc_packet_type_error, ntc_no_error};
  e.type = ty[k % 4]; e.message = k % 2 ? &garbage : nullptr;
  return e;
}

void expect(const ntc_error& e, ntc_error_type exp, const char* what)
{
  if (e.type != exp) { mc::fail("error type", std::string(what) + " reports error " + S(unsigned(e.type)) + ", expected " + S(unsigned(exp))); }
  if (e.message == &garbage) { mc::fail("error message", std::string(what) + " leaves a stale message in the error"); }
  if (e.message && std::strlen(e.message) > 1000) { mc::fail("error message", std::string(what) + ": message"); }
}

template <typename F> ntc_error_type outcome(F&& f, std::size_t& n)
{
  n = 0;
  try { n = f(); return ntc_no_error; }
  catch (const ntc::packet_type_error&) { return ntc_packet_type_error; }
  catch (const ntc::overflow_error&) { return ntc_overflow_error; }
}

struct CPkt
{
  ntc_packet_t* p;
  explicit CPkt(const bytes& b) : p(ntc_new_packet_from(reinterpret_cast<const char*>(b.data()), std::uint16_t(b.size())))
  { if (!p) { mc::fail("creation", "a packet could not be created"); } }
  ~CPkt() { ntc_delete_packet(p); }
};

void same_out(Sink& c, Sink& x, const char* what)
{
  if (c.out != x.out || c.cur != x.cur || c.open != x.open) { mc::fail("packets", std::string(what) + ": the C interface sends other packets than the C++ one"); }
}

// --- encoder ------------------------------------------------------------------------------------
void body_encoder(mc::Chooser& ch, int w, int len, bool few)
{
  Sink sc, sx;
  auto* c = ntc_new_encoder(static_cast<std::uint8_t>(w), ntc_packet_handler{&sc, c_prepare, c_send});
  if (!c) { mc::fail("creation", "an encoder could not be created"); }
  std::unique_ptr<ntc_encoder_t, void (*)(ntc_encoder_t*)> guard(c, [](ntc_encoder_t* e) { ntc_delete_encoder(e); });
  Enc x(static_cast<std::uint8_t>(w), PH{&sx});
  auto* d = ntc_new_data(3); // reused for every block, as the documentation allows
  std::unique_ptr<ntc_data_t, void (*)(ntc_data_t*)> dguard(d, [](ntc_data_t* e) { ntc_delete_data(e); });
  unsigned n = 0;
  for (int i = 0; i < len; ++i)
  {
    ch.step();
    const int op = ch.choose(few ? 8 : 12);
    auto e = dirty(ch, i);
    switch (op)
    {
      case 0: case 1:
      {
        const auto b = block(n, block_size(w, op, n)); ++n;
        ch.log([&] { return "data of " + S(b.size()) + " bytes"; });
        ntc_data_resize(d, std::uint16_t(b.size()), &e);
        expect(e, ntc_no_error, "ntc_data_resize");
        std::memcpy(ntc_data_buffer(d), b.data(), b.size());
        e = dirty(ch, i + 1);
        ntc_encoder_add_data(c, d, &e);
        expect(e, ntc_no_error, "ntc_encoder_add_data");
        pass_data(x, b);
        break;
      }
      case 2:
        ch.log([&] { return std::string("repair"); });
        if (x.window()) { ntc_encoder_generate_repair(c, &e); expect(e, ntc_no_error, "ntc_encoder_generate_repair"); x.generate_repair(); }
        break;
      case 3: case 4: case 5: case 6:
      {
        static const bytes pk[] = {ref::mk_ack(1, {0}), ref::mk_ack(1, {1, 2, 3}), bytes{0, 0, 1, 0, 2, 0, 0}, bytes{9, 1, 2}};
        const auto& b = pk[op - 3];
        ch.log([&] { return "packet " + ref::hex(b); });
        CPkt p(b);
        const auto r = ntc_encoder_add_packet(c, p.p, &e);
        std::size_t rx; const auto ex = outcome([&] { return pass_pkt(x, b); }, rx);
        expect(e, ex, "ntc_encoder_add_packet");
        if (ex == ntc_no_error && r != rx) { mc::fail("byte count", "ntc_encoder_add_packet returns " + S(r) + ", expected " + S(rx)); }
        break;
      }
      case 7: { const bool no = ch.choose(2); ntc_encoder_set_code_type(c, no ? ntc_systematic_no : ntc_systematic_yes); x.set_code_type(no ? ntc::systematic::no : ntc::systematic::yes); break; }
      case 8: { static const std::size_t v[] = {1, 2, 3, 65537, (std::size_t(1) << 32) + 1}; const auto r = v[ch.choose(5)]; ntc_encoder_set_rate(c, r); x.set_rate(r); break; }
      case 9: { static const std::size_t v[] = {1, 2, 65537, (std::size_t(1) << 32) + 1}; const auto r = v[ch.choose(4)]; ntc_encoder_set_window_size(c, r); x.set_window_size(r); break; }
      case 10: { const bool a = ch.choose(2); ntc_encoder_set_adaptive(c, a); x.set_adaptive(a); break; }
      case 11:
      {
        const auto b = ref::mk_source(0, block(0, 4));
        CPkt p(b);
        ntc_encoder_add_packet(c, p.p, &e);
        std::size_t rx; expect(e, outcome([&] { return pass_pkt(x, b); }, rx), "ntc_encoder_add_packet");
        break;
      }
    }
    same_out(sc, sx, "encoder");
    if (ntc_encoder_window(c) != x.window()) { mc::fail("window", "ntc_encoder_window is " + S(ntc_encoder_window(c)) + ", expected " + S(x.window())); }
  }
  // the options in effect show up in what follows
  for (int i = 0; i < 4; ++i)
  {
    const auto b = block(n, block_size(w, 0, n)); ++n;
    ntc_error e = dirty(ch, i);
    auto* dd = ntc_new_data_from(reinterpret_cast<const char*>(b.data()), std::uint16_t(b.size()));
    ntc_encoder_add_data(c, dd, &e); ntc_delete_data(dd);
    expect(e, ntc_no_error, "ntc_encoder_add_data");
    pass_data(x, b);
    same_out(sc, sx, "encoder");
    if (ntc_encoder_window(c) != x.window()) { mc::fail("window", "ntc_encoder_window is " + S(ntc_encoder_window(c)) + ", expected " + S(x.window())); }
  }
  std::uint64_t h = 1; for (auto& o : sc.out) { h = mc::fnv(o.data(), o.size(), h); }
  ch.outcome(h);
}

// --- decoder ------------------------------------------------------------------------------------
const Traffic& traffic(int w, const std::string& s)
{
  static std::map<std::string, Traffic> cache;
  const auto k = s + S(unsigned(w));
  auto it = cache.find(k);
  if (it == cache.end()) { EncCfg c; c.w = w; c.sizes = 0; it = cache.emplace(k, run_script(c, s)).first; }
  return it->second;
}

void body_decoder(mc::Chooser& ch, int w, const std::string& script, int len)
{
  const auto& t = traffic(w, script);
  g_steady_ns = 1000000000000ll;
  const bool o = ch.choose(2);
  Sink sc, sx; DataSink dc, dx;
  auto* c = ntc_new_decoder(static_cast<std::uint8_t>(w), o ? ntc_in_order_yes : ntc_in_order_no, ntc_packet_handler{&sc, c_prepare, c_send}, ntc_data_handler{&dc, c_read});
  if (!c) { mc::fail("creation", "a decoder could not be created"); }
  std::unique_ptr<ntc_decoder_t, void (*)(ntc_decoder_t*)> guard(c, [](ntc_decoder_t* e) { ntc_delete_decoder(e); });
  Dec x(static_cast<std::uint8_t>(w), o ? ntc::in_order::yes : ntc::in_order::no, PH{&sx}, DH{&dx});
  auto* p = ntc_new_packet(1); // reused for every packet
  std::unique_ptr<ntc_packet_t, void (*)(ntc_packet_t*)> pguard(p, [](ntc_packet_t* e) { ntc_delete_packet(e); });
  const int np = int(t.items.size());
  for (int i = 0; i < len; ++i)
  {
    ch.step();
    const int op = ch.choose(np + 7);
    auto e = dirty(ch, i);
    if (op < np + 3)
    {
      static const bytes bad[] = {ref::mk_ack(1, {0}), bytes{2, 0, 0, 0, 1, 0, 9, 1}, bytes{77, 0}};
      const auto& b = op < np ? t.items[std::size_t(op)].raw : bad[op - np];
      ch.log([&] { return ref::show(ref::parse(b)); });
      ntc_packet_resize(p, std::uint16_t(b.size()), &e);
      expect(e, ntc_no_error, "ntc_packet_resize");
      std::memcpy(ntc_packet_buffer(p), b.data(), b.size());
      if (ntc_packet_get_size(p) != b.size()) { mc::fail("container", "ntc_packet_get_size"); }
      e = dirty(ch, i + 1);
      const auto r = ntc_decoder_add_packet(c, p, &e);
      std::size_t rx; const auto ex = outcome([&] { return pass_pkt(x, b); }, rx);
      expect(e, ex, "ntc_decoder_add_packet");
      if (ex == ntc_no_error && r != rx) { mc::fail("byte count", "ntc_decoder_add_packet returns " + S(r) + ", expected " + S(rx)); }
    }
    else if (op == np + 3) { ntc_decoder_generate_ack(c, &e); expect(e, ntc_no_error, "ntc_decoder_generate_ack"); x.generate_ack(); }
    else if (op == np + 4) { static const std::size_t ms[] = {0, 50, 200, 65536 + 50, (std::size_t(1) << 32) + 50}; const auto v = ms[ch.choose(5)]; ntc_decoder_set_ack_period(c, v); x.set_ack_period(std::chrono::milliseconds{v}); }
    else if (op == np + 5) { static const std::uint16_t nb[] = {1, 2, 257}; const auto v = nb[ch.choose(3)]; ntc_decoder_set_ack_nb_packets(c, v); x.set_ack_nb_packets(v); }
    else { g_steady_ns += 60000000ll; }
    same_out(sc, sx, "decoder");
    if (dc.got != dx.got) { mc::fail("blocks", "the C interface hands over other blocks than the C++ one"); }
  }
  // the options in effect show up in what follows
  g_steady_ns += 70000000ll;
  for (auto& it : t.items)
  {
    ntc_error e = dirty(ch, 0);
    CPkt q(it.raw);
    ntc_decoder_add_packet(c, q.p, &e);
    expect(e, ntc_no_error, "ntc_decoder_add_packet");
    pass_pkt(x, it.raw);
    same_out(sc, sx, "decoder");
    if (dc.got != dx.got) { mc::fail("blocks", "the C interface hands over other blocks than the C++ one"); }
  }
  std::uint64_t h = 1; for (auto& q : sc.out) { h = mc::fnv(q.data(), q.size(), h); } h = h * 31 + dc.got.size();
  ch.outcome(h);
}

// --- both, connected ----------------------------------------------------------------------------
void body_loop(mc::Chooser& ch, int w, int rounds)
{
  Sink se, sd; DataSink dt;
  auto* e = ntc_new_encoder(static_cast<std::uint8_t>(w), ntc_packet_handler{&se, c_prepare, c_send});
  auto* d = ntc_new_decoder(static_cast<std::uint8_t>(w), ch.choose(2) ? ntc_in_order_yes : ntc_in_order_no, ntc_packet_handler{&sd, c_prepare, c_send}, ntc_data_handler{&dt, c_read});
  if (!e || !d) { mc::fail("creation", "an object could not be created"); }
  std::unique_ptr<ntc_encoder_t, void (*)(ntc_encoder_t*)> g1(e, [](ntc_encoder_t* q) { ntc_delete_encoder(q); });
  std::unique_ptr<ntc_decoder_t, void (*)(ntc_decoder_t*)> g2(d, [](ntc_decoder_t* q) { ntc_delete_decoder(q); });
  ntc_encoder_set_rate(e, 1); ntc_decoder_set_ack_period(d, 0);
  std::map<bytes, int> sent;
  for (int i = 0; i < rounds; ++i)
  {
    const auto b = block(unsigned(i), block_size(w, 0, unsigned(i)));
    sent[b] = 0;
    ntc_error er = dirty(ch, i);
    auto* x = ntc_new_data_from(reinterpret_cast<const char*>(b.data()), std::uint16_t(b.size()));
    ntc_encoder_add_data(e, x, &er); ntc_delete_data(x);
    auto out = std::move(se.out); se.out.clear();
    for (auto& o : out) { ch.step(); if (ch.choose(2)) { continue; } CPkt p(o); ntc_decoder_add_packet(d, p.p, &er); expect(er, ntc_no_error, "ntc_decoder_add_packet"); }
    ntc_decoder_generate_ack(d, &er);
    auto ak = std::move(sd.out); sd.out.clear();
    for (auto& a : ak) { if (ch.choose(2)) { continue; } CPkt p(a); ntc_encoder_add_packet(e, p.p, &er); expect(er, ntc_no_error, "ntc_encoder_add_packet"); }
  }
  for (auto& b : dt.got) { auto it = sent.find(b); if (it == sent.end() || it->second++) { mc::fail("blocks", "a block was handed over that was not sent, or twice"); } }
  ch.outcome(dt.got.size() * 100 + ntc_encoder_window(e));
}

// --- large numbers ------------------------------------------------------------------------------
// Windows, packets and byte counts beyond 8 and 16 bits.
void body_large(mc::Chooser& ch)
{
  const int kind = ch.choose(3);
  Sink sc, sx; DataSink dc, dx;
  auto* c = ntc_new_encoder(8, ntc_packet_handler{&sc, c_prepare, c_send});
  auto* d = ntc_new_decoder(8, ntc_in_order_no, ntc_packet_handler{&sc, c_prepare, c_send}, ntc_data_handler{&dc, c_read});
  if (!c || !d) { mc::fail("creation", "an object could not be created"); }
  std::unique_ptr<ntc_encoder_t, void (*)(ntc_encoder_t*)> g1(c, [](ntc_encoder_t* q) { ntc_delete_encoder(q); });
  std::unique_ptr<ntc_decoder_t, void (*)(ntc_decoder_t*)> g2(d, [](ntc_decoder_t* q) { ntc_delete_decoder(q); });
  Enc x(8, PH{&sx}); Dec y(8, ntc::in_order::no, PH{&sx}, DH{&dx});
  ntc_decoder_set_ack_period(d, 0); y.set_ack_period(std::chrono::milliseconds{0});
  ntc_error e = dirty(ch, 1);
  const auto add = [&](const bytes& b)
  {
    auto* q = ntc_new_data_from(reinterpret_cast<const char*>(b.data()), std::uint16_t(b.size()));
    if (!q || ntc_data_get_size(q) != b.size()) { mc::fail("container", "data of " + S(b.size()) + " bytes"); }
    e = dirty(ch, 1); ntc_encoder_add_data(c, q, &e); expect(e, ntc_no_error, "ntc_encoder_add_data"); ntc_delete_data(q);
    pass_data(x, b);
    if (ntc_encoder_window(c) != x.window()) { mc::fail("window", "ntc_encoder_window is " + S(ntc_encoder_window(c)) + ", expected " + S(x.window())); }
  };
  if (kind == 0) // many blocks
  {
    const int n = ch.choose(2) ? 66000 : 300;
    ntc_encoder_set_rate(c, 1u << 30); x.set_rate(1u << 30);
    for (int i = 0; i < n; ++i) { add(block(unsigned(i), 1)); if (i % 64 == 0) { same_out(sc, sx, "encoder"); sc.out.clear(); sx.out.clear(); } }
    ref::ids_t ids; for (int i = 0; i < std::min(n, 20000); ++i) { if (i % 4 < 2) { ids.push_back(std::uint32_t(i)); } }
    const auto b = ref::mk_ack(1, ids);
    CPkt p(b); e = dirty(ch, 1);
    const auto r = ntc_encoder_add_packet(c, p.p, &e); const auto rx = pass_pkt(x, b);
    expect(e, ntc_no_error, "ntc_encoder_add_packet");
    if (r != rx) { mc::fail("byte count", "ntc_encoder_add_packet returns " + S(r) + ", expected " + S(rx)); }
    if (ntc_encoder_window(c) != x.window()) { mc::fail("window", "ntc_encoder_window is " + S(ntc_encoder_window(c)) + ", expected " + S(x.window())); }
    ch.outcome(unsigned(n));
    return;
  }
  // large blocks, rebuilt or received
  static const std::size_t sz[] = {200, 250, 256, 300, 4000, 32760, 32768, 40000, 65500};
  const auto n0 = sz[ch.choose(9)], n1 = sz[ch.choose(9)];
  ntc_encoder_set_rate(c, 2); x.set_rate(2);
  add(block(0, n0)); add(block(1, n1));
  same_out(sc, sx, "encoder");
  const auto out = sc.out; sc.out.clear(); sx.out.clear();
  for (std::size_t i = 0; i < out.size(); ++i)
  {
    if (kind == 2 && i == std::size_t(n0 & 1)) { continue; }
    ch.step();
    auto* q = ntc_new_packet(std::uint16_t(3)); e = dirty(ch, 1);
    ntc_packet_resize(q, std::uint16_t(out[i].size()), &e); expect(e, ntc_no_error, "ntc_packet_resize");
    if (ntc_packet_get_size(q) != out[i].size()) { mc::fail("container", "ntc_packet_get_size"); }
    std::memcpy(ntc_packet_buffer(q), out[i].data(), out[i].size());
    e = dirty(ch, 1);
    const auto r = ntc_decoder_add_packet(d, q, &e); ntc_delete_packet(q);
    const auto rx = pass_pkt(y, out[i]);
    expect(e, ntc_no_error, "ntc_decoder_add_packet");
    if (r != rx) { mc::fail("byte count", "ntc_decoder_add_packet returns " + S(r) + ", expected " + S(rx)); }
    if (dc.got != dx.got) { mc::fail("blocks", "the C interface hands over other blocks than the C++ one"); }
  }
  ch.outcome(n0 * 70000 + n1);
}

// --- errors -------------------------------------------------------------------------------------
#ifdef WITH_CHECK_ERROR // not reachable through the public interface: the handlers cannot throw
struct odd {};
void body_errors(mc::Chooser& ch, int len)
{
  ntc_error e; e.message = nullptr; e.type = ntc_no_error;
  std::uint64_t h = 1;
  for (int i = 0; i < len; ++i)
  {
    ch.step();
    const int k = ch.choose(9);
    h = h * 31 + unsigned(k);
    if (ch.choose(2)) { e.type = ntc_overflow_error; e.message = &garbage; }
    const char* msg = nullptr; ntc_error_type exp = ntc_no_error; int r = -1;
    const auto run = [&](std::function<int()> f) { r = ntc::detail::check_error(f, &e); };
    switch (k)
    {
      case 0: run([]() -> int { return 42; }); if (r != 42) { mc::fail("error", "the result is lost"); } break;
      case 1: exp = ntc_packet_type_error; run([]() -> int { throw ntc::packet_type_error{ntc::packet{1, 2}}; }); break;
      case 2: exp = ntc_overflow_error; run([]() -> int { throw ntc::overflow_error{}; }); break;
      case 3: exp = ntc_no_memory; run([]() -> int { throw std::bad_alloc{}; }); break;
      case 4: exp = ntc_unknown_error; msg = "short"; run([]() -> int { throw std::runtime_error{"short"}; }); break;
      case 5: exp = ntc_unknown_error; msg = "a message that does not fit in a small buffer, at all"; run([&]() -> int { throw std::logic_error{msg}; }); break;
      case 6: exp = ntc_unknown_error; msg = ""; run([]() -> int { throw std::runtime_error{""}; }); break;
      case 7: exp = ntc_unknown_error; run([]() -> int { throw odd{}; }); break;
      case 8: exp = ntc_unknown_error; run([]() -> int { throw 3; }); break;
    }
    if (e.type != exp) { mc::fail("error type", "error " + S(unsigned(e.type)) + " reported, expected " + S(unsigned(exp))); }
    if (e.message == &garbage) { mc::fail("error message", "a stale message is left in the error"); }
    if (e.message)
    {
      // must be a string
      const std::string s(e.message);
      if (msg && s != msg) { mc::fail("error message", "the message is '" + s + "' instead of '" + msg + "'"); }
    }
    e.message = nullptr;
  }
  ch.outcome(h);
}
#endif

std::vector<mc::Job> jobs()
{
  warm_fields();
  const bool T = mc::options().thorough;
  std::vector<mc::Job> js;
  const auto add = [&](const std::string& n, std::function<void(mc::Chooser&)> f, int shards, int depth)
  { mc::Job j; j.name = n; j.body = std::move(f); j.shards = shards; j.shard_depth = depth; js.push_back(j); };
  for (int w : {8, 4, 16, 32})
  {
    const auto wn = " w" + S(unsigned(w));
    add("encoder" + wn, [w, T](mc::Chooser& ch) { body_encoder(ch, w, T ? 5 : 4, false); }, 32, 3);
    add("encoder deep" + wn, [w, T](mc::Chooser& ch) { body_encoder(ch, w, T ? 6 : 5, true); }, 32, 3);
    add("decoder" + wn, [w, T](mc::Chooser& ch) { body_decoder(ch, w, "SSRaR", T ? 5 : 4); }, 32, 3);
    add("decoder2" + wn, [w, T](mc::Chooser& ch) { body_decoder(ch, w, "SSSRRAR", T ? 4 : 3); }, 16, 3);
    add("connected" + wn, [w, T](mc::Chooser& ch) { body_loop(ch, w, T ? 6 : 5); }, 16, 5);
  }
  add("large", body_large, 12, 3);
#ifdef WITH_CHECK_ERROR
  add("errors", [T](mc::Chooser& ch) { body_errors(ch, T ? 4 : 3); }, 4, 2);
#endif
  return js;
}

} // anon

int main(int argc, char** argv) { return mc::main_(argc, argv, jobs); }
