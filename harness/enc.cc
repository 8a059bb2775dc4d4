// Sender-side and ack-policy state machines: every operation sequence up to the bound, in lockstep
// with a reference. Properties C08-C12 and the encoder half of C23.
#include "world.hh"
#include "netcode/detail/encoder.hh"
#include "netcode/detail/source_list.hh"

void warm_fields();

namespace {

std::string P() { return mc::options().property; }
std::string S(std::uint64_t x) { return std::to_string(x); }

// ------------------------------------------------------------------------------------------------
// The encoder next to its reference.
class EncMon
{
public:
  int w;
  Sink sk;
  Enc enc;
  mc::Chooser& ch;
  std::vector<bytes> blocks;
  std::vector<std::uint32_t> held;
  std::vector<std::uint32_t> acked, evicted;
  std::size_t window = 0;          // 0: unlimited
  std::size_t rate = 5;
  bool systematic = true;
  bool adaptive = false;
  std::uint32_t next_src = 0, next_rep = 0;
  std::size_t sent = 0;            // since the last ack
  std::size_t nsrc = 0, nrep = 0, nack = 0;
  int sizes = 0;
  bool c09, c10, c11, c12, c23;
  bytes last_ack;
  std::uint64_t h = 1469598103934665603ull;

  EncMon(int w_, mc::Chooser& c)
    : w(w_), enc(static_cast<std::uint8_t>(w_), PH{&sk}), ch(c)
  { const auto p = P(); c09 = p == "C09"; c10 = p == "C10"; c11 = p == "C11"; c12 = p == "C12"; c23 = p == "C23"; }

  struct Exp { int type; std::uint32_t id; };

  void submit(std::size_t size)
  {
    const auto i = unsigned(blocks.size());
    blocks.push_back(block(i, size));
    ch.log([&] { return "submit block " + S(i) + " size " + S(size); });
    if (window) { while (held.size() >= window) { evicted.push_back(held.front()); held.erase(held.begin()); } }
    held.push_back(i);
    std::vector<Exp> exp;
    if (systematic) { exp.push_back({2, next_src}); ++nsrc; } else { exp.push_back({1, next_rep++}); ++nrep; }
    if ((std::size_t(next_src) + 1) % rate == 0) { exp.push_back({1, next_rep++}); ++nrep; }
    ++next_src;
    sent += exp.size();
    pass_data(enc, blocks.back());
    check("submit", exp);
  }
  void repair()
  {
    if (held.empty()) { return; } // precondition
    ch.log([] { return std::string("generate_repair"); });
    ++nrep; ++sent;
    enc.generate_repair();
    check("generate_repair", {{1, next_rep++}});
  }
  void ack(std::uint32_t nb, ref::ids_t ids)
  {
    std::sort(ids.begin(), ids.end());
    raw_ack(ref::mk_ack(nb, ids));
  }
  void raw_ack(const bytes& b)
  {
    const auto k = ref::parse(b);
    ch.log([&] { return "receive " + ref::show(k); });
    last_ack = b;
    for (auto i : k.ids)
    {
      const auto it = std::find(held.begin(), held.end(), i);
      if (it != held.end()) { held.erase(it); acked.push_back(i); }
    }
    ++nack;
    std::set<std::size_t> rates{rate};
    if (adaptive) { rates = rates_for(sent, k.nb); }
    sent = 0;
    const auto n = pass_pkt(enc, b);
    if (c12)
    {
      if (!rates.count(enc.rate()))
      { mc::fail("rate", "the rate is " + S(enc.rate()) + " after the ack, expected " + S(*rates.begin()) + (adaptive ? " (adaptive)" : " (not adaptive)")); }
    }
    rate = enc.rate(); // within what was allowed (other properties follow the code here)
    if (!c12 && !adaptive) { rate = *rates.begin(); }
    (void)n;
    check("ack", {});
  }
  static std::set<std::size_t> rates_for(std::size_t n, std::size_t m)
  {
    if (n == 0 || m >= n || 100 * (n - m) < n) { return {50}; }
    const std::size_t num = n, den = 2 * (n - m);
    std::set<std::size_t> r{(num + den - 1) / den};
    if (num % den == 0) { r.insert(num / den + 1); } // rounding of the floating point division
    return r;
  }
  void set_window(std::size_t n) { ch.log([&] { return "set_window_size " + S(n); }); window = n; enc.set_window_size(n ? n : std::numeric_limits<std::size_t>::max()); check("set_window_size", {}); }
  void set_rate(std::size_t n) { ch.log([&] { return "set_rate " + S(n); }); rate = n; enc.set_rate(n); check("set_rate", {}); }
  void set_sys(bool b) { ch.log([&] { return std::string("set_code_type ") + (b ? "systematic" : "non systematic"); }); systematic = b; enc.set_code_type(b ? ntc::systematic::yes : ntc::systematic::no); check("set_code_type", {}); }
  void set_adaptive(bool b) { ch.log([&] { return std::string("set_adaptive ") + (b ? "on" : "off"); }); adaptive = b; enc.set_adaptive(b); check("set_adaptive", {}); }

  void check(const char* op, const std::vector<Exp>& exp)
  {
    ch.step();
    const std::string o(op);
    const auto out = std::move(sk.out); sk.out.clear();
    if (c10)
    {
      if (sk.open || !sk.cur.empty()) { mc::fail("emission", o + ": bytes were given to the packet handler without end of packet"); }
      if (sk.empty_ends) { mc::fail("emission", o + ": end of packet without any byte"); }
      std::string got, want;
      for (auto& b : out) { const auto k = ref::parse(b); got += (k.type == 2 ? "source " : k.type == 1 ? "repair " : "? ") + S(k.id) + "; "; }
      for (auto& e : exp) { want += (e.type == 2 ? "source " : "repair ") + S(e.id) + "; "; }
      if (got != want) { mc::fail("emission", o + " emitted [" + got + "], expected [" + want + "]"); }
      for (auto& b : out)
      {
        const auto k = ref::parse(b);
        if (k.type == 2 && (!k.ok || k.sym != blocks[k.id])) { mc::fail("emission", o + ": source " + S(k.id) + " does not carry its block"); }
      }
      if (enc.rate() != rate) { mc::fail("emission", "rate() is " + S(enc.rate())); }
    }
    if (c11)
    {
      for (auto& b : out)
      {
        const auto k = ref::parse(b);
        if (k.type == 1) { check_repair(k); }
      }
    }
    if (c09)
    {
      if (enc.window() != held.size()) { mc::fail("retention", o + ": window() is " + S(enc.window()) + ", expected " + S(held.size())); }
      if (!held.empty())
      {
        enc.generate_repair(); ++next_rep;
        const auto k = ref::parse(sk.out.back()); sk.out.clear();
        if (k.ids != held)
        {
          std::string e; for (auto i : held) { e += S(i) + " "; }
          mc::fail("retention", o + ": the encoder holds " + ref::show(k) + ", expected {" + e + "}");
        }
      }
      if (window && held.size() > window && o == "submit") { mc::fail("retention", "more blocks than the window size"); }
    }
    if (c23)
    {
      if (enc.nb_sent_sources() != nsrc) { mc::fail("statistics", "nb_sent_sources is " + S(enc.nb_sent_sources()) + ", expected " + S(nsrc)); }
      if (enc.nb_sent_repairs() != nrep) { mc::fail("statistics", "nb_sent_repairs is " + S(enc.nb_sent_repairs()) + ", expected " + S(nrep)); }
      if (enc.nb_received_acks() != nack) { mc::fail("statistics", "nb_received_acks is " + S(enc.nb_received_acks()) + ", expected " + S(nack)); }
    }
    if (c12)
    {
      if (adaptive && false) {}
      if (enc.rate() == 0) { mc::fail("rate", "the rate is 0"); }
      if (!adaptive && enc.rate() != rate) { mc::fail("rate", o + ": the rate changed to " + S(enc.rate())); }
    }
    const auto hw = enc.window() * 131 + enc.rate();
    h = mc::fnv(&hw, sizeof hw, h);
  }

  void check_repair(const ref::Pkt& k)
  {
    if (!k.ok) { mc::fail("repair", "unreadable repair"); }
    if (k.ids != held)
    { std::string e; for (auto i : held) { e += S(i) + " "; } mc::fail("repair", ref::show(k) + " names other sources than those held {" + e + "}"); }
    std::vector<std::pair<std::uint32_t, const bytes*>> win;
    for (auto i : held) { win.emplace_back(i, &blocks[i]); }
    bytes sym; std::uint32_t es;
    ref::combine(ref::gf(w), k.id, win, sym, es);
    if (k.sym != sym) { mc::fail("repair", ref::show(k) + " carries " + ref::hex(k.sym, 64) + ", expected " + ref::hex(sym, 64)); }
    if (k.encsz != (es & 0xffff)) { mc::fail("repair", ref::show(k) + " carries the size " + S(k.encsz) + ", expected " + S(es & 0xffff)); }
  }
  void finish() { ch.outcome(h); }
};

// ------------------------------------------------------------------------------------------------
void body_retention(mc::Chooser& ch, int w, int len)
{
  EncMon m(w, ch);
  m.enc.set_rate(1u << 30); m.rate = 1u << 30;
  for (int i = 0; i < len; ++i)
  {
    switch (ch.choose(13))
    {
      case 0: m.submit(block_size(w, 0, unsigned(m.blocks.size()))); break;
      case 1: if (!m.held.empty()) { m.ack(1, {m.held.front()}); } break;
      case 2: if (m.held.size() > 1) { m.ack(1, {m.held[1]}); } break;
      case 3: if (m.held.size() > 2) { m.ack(1, {m.held.back()}); } break;
      case 4: m.ack(1, m.held); break;
      case 5: m.ack(1, {m.next_src, m.next_src + 7}); break;               // never sent
      case 6: if (!m.acked.empty()) { m.ack(1, {m.acked.front()}); } break; // again
      case 7: // old, held and unknown ones
      {
        std::set<std::uint32_t> s(m.acked.begin(), m.acked.end());
        s.insert(m.evicted.begin(), m.evicted.end());
        if (m.held.size() > 1) { s.insert(m.held[1]); }
        s.insert(m.next_src + 1);
        m.ack(1, ref::ids_t(s.begin(), s.end()));
        break;
      }
      case 8: if (!m.last_ack.empty()) { m.raw_ack(m.last_ack); } break;    // duplicate
      case 9: m.set_window(1); break;
      case 10: m.set_window(2); break;
      case 11: m.set_window(4); break;
      case 12: m.set_window(0); break;
    }
  }
  m.finish();
}

// Larger windows: a base of n submissions, then a few operations.
void body_retention_big(mc::Chooser& ch, int n, int len)
{
  EncMon m(8, ch);
  m.enc.set_rate(1u << 30); m.rate = 1u << 30;
  m.c09 = false;
  for (int i = 0; i < n; ++i) { m.submit(1 + unsigned(i) % 3); }
  m.c09 = P() == "C09";
  m.check("base", {});
  for (int i = 0; i < len; ++i)
  {
    const int o = ch.choose(9);
    switch (o)
    {
      case 0: m.submit(3); break;
      case 1: case 2: case 3: // every second / third / all but one
      {
        ref::ids_t ids;
        for (std::size_t k = 0; k < m.held.size(); ++k) { if (o == 3 ? k != m.held.size() / 2 : k % std::size_t(o + 1) == 0) { ids.push_back(m.held[k]); } }
        m.ack(1, ids); break;
      }
      case 4: { ref::ids_t ids; for (std::size_t k = m.held.size() / 2; k < m.held.size(); ++k) { ids.push_back(m.held[k]); } m.ack(1, ids); break; }
      case 5: { ref::ids_t ids; for (std::uint32_t k = 0; k < m.next_src; ++k) { ids.push_back(k); } m.ack(1, ids); break; }
      case 6: m.set_window(std::size_t(n) / 2); break;
      case 7: m.set_window(std::size_t(n)); break;
      case 8: m.set_window(1); break;
    }
  }
  m.finish();
}

void body_schedule(mc::Chooser& ch, int w, int len)
{
  EncMon m(w, ch);
  for (int i = 0; i < len; ++i)
  {
    switch (ch.choose(10))
    {
      case 0: case 1: m.submit(block_size(w, 0, unsigned(m.blocks.size()))); break;
      case 2: m.repair(); break;
      case 3: m.set_rate(1); break;
      case 4: m.set_rate(2); break;
      case 5: m.set_rate(3); break;
      case 6: m.set_sys(false); break;
      case 7: m.set_sys(true); break;
      case 8: m.ack(2, m.held); break;
      case 9: m.set_window(1); break;
    }
  }
  m.finish();
}

// Long streams: the default keeps submitting, deviations interfere.
void body_stream(mc::Chooser& ch, int w, std::size_t rate, std::size_t window, bool sys, int n, int sizes)
{
  EncMon m(w, ch);
  m.set_rate(rate); if (window) { m.set_window(window); } m.set_sys(sys);
  for (int i = 0; i < n; ++i)
  {
    switch (ch.deviate(9))
    {
      case 0: break;
      case 1: m.repair(); break;
      case 2: if (!m.held.empty()) { m.ack(3, {m.held.front()}); } break;
      case 3: if (m.held.size() > 2) { m.ack(3, {m.held[m.held.size() / 2]}); } break;
      case 4: if (m.held.size() > 1) { m.ack(3, ref::ids_t(m.held.begin(), m.held.end() - 1)); } break;
      case 5: m.set_rate(rate == 1 ? 3 : rate - 1); break;
      case 6: m.set_sys(!m.systematic); break;
      case 7: m.set_window(2); break;
      case 8: m.ack(3, m.held); break;
    }
    m.submit(block_size(w, sizes, unsigned(i)));
  }
  m.repair();
  m.finish();
}

// Repair contents over short sequences with all size combinations.
void body_content(mc::Chooser& ch, int w, int len)
{
  static const unsigned s8[] = {1, 16, 17, 40}, s16[] = {2, 16, 18, 40}, s32[] = {4, 16, 20, 40};
  const auto* sz = w == 16 ? s16 : w == 32 ? s32 : s8;
  EncMon m(w, ch);
  m.set_rate(2);
  for (int i = 0; i < len; ++i)
  {
    const int o = ch.choose(8);
    switch (o)
    {
      case 0: case 1: case 2: case 3: m.submit(sz[o]); break;
      case 4: m.repair(); break;
      case 5: if (!m.held.empty()) { m.ack(1, {m.held.front()}); } break;
      case 6: if (m.held.size() > 1) { m.ack(1, {m.held.back()}); } break;
      case 7: m.set_window(2); break;
    }
  }
  m.repair();
  m.finish();
}

// The coder itself, with identifiers of every magnitude.
void body_coder(mc::Chooser& ch, int w)
{
  static const std::uint32_t ids[] = {0, 1, 2, 13, 14, 15, 253, 254, 255, 256, 65533, 65534, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffffcu, 0xfffffffeu, 0xffffffffu};
  constexpr int N = sizeof ids / sizeof *ids;
  const auto rid = ids[ch.choose(N)];
  const auto a = ch.choose(N);
  const int n = 1 + ch.choose(3);
  const int p = ch.choose(4);
  static std::map<int, std::unique_ptr<ntc::detail::encoder>> coders;
  auto& coder = coders[w];
  if (!coder) { coder.reset(new ntc::detail::encoder(static_cast<std::uint8_t>(w))); }
  std::vector<bytes> bl; std::vector<std::pair<std::uint32_t, const bytes*>> win;
  ntc::detail::source_list sl;
  for (int i = 0; i < n && a + i < N; ++i) { bl.push_back(block(unsigned(i), block_size(w, p, unsigned(i)))); }
  for (std::size_t i = 0; i < bl.size(); ++i) { win.emplace_back(ids[std::size_t(a) + i], &bl[i]); sl.emplace(ids[std::size_t(a) + i], mkdata(bl[i])); }
  static std::map<int, std::unique_ptr<ntc::detail::encoder_repair>> reps; // memory is reused between repairs
  auto& r = reps[w];
  if (!r || ch.verbose) { r.reset(new ntc::detail::encoder_repair(0)); }
  r->reset(); r->id() = rid;
  ch.step();
  (*coder)(*r, sl);
  bytes sym; std::uint32_t es;
  ref::combine(ref::gf(w), rid, win, sym, es);
  const bytes got(r->symbol().begin(), r->symbol().end());
  ref::ids_t gi(r->source_ids().begin(), r->source_ids().end()), wi;
  for (auto& x : win) { wi.push_back(x.first); }
  if (gi != wi) { mc::fail("repair", "coder names other sources than the window"); }
  if (got != sym) { mc::fail("repair", "repair " + S(rid) + " of " + S(wi[0]) + "...: " + ref::hex(got, 64) + ", expected " + ref::hex(sym, 64)); }
  if (r->encoded_size() != (es & 0xffff)) { mc::fail("repair", "repair " + S(rid) + ": size " + S(r->encoded_size()) + ", expected " + S(es & 0xffff)); }
  ch.outcome(mc::fnv(got.data(), got.size()));
}

// Every (sent, reported) pair.
void body_ratio(mc::Chooser& ch, int n0, int n1)
{
  const int n = n0 + ch.choose(n1 - n0);
  const int m = ch.choose(n + 3);
  const int pre = ch.choose(2);
  EncMon e(8, ch);
  e.set_rate(1u << 30); e.set_window(2); e.set_adaptive(true);
  if (pre) { e.submit(2); e.ack(1, {}); e.set_rate(1u << 30); }
  for (int i = 0; i < n; ++i) { e.submit(1); }
  e.ack(std::uint32_t(m), {});
  e.finish();
}

// Acks naming sources far away from those held, early and late in a session.
void body_far(mc::Chooser& ch, int n)
{
  EncMon m(8, ch);
  m.set_rate(1u << 30);
  const auto on = m.c09; m.c09 = false;
  const int kept = ch.choose(3); // what stays unacked: nothing, one old block, two far apart
  const auto old = std::uint32_t(n > 60000 ? n - 60000 : 0);
  for (int i = 0; i < n; ++i)
  {
    m.submit(1);
    if (m.blocks.size() > 300 && m.held.size() > 200)
    {
      ref::ids_t ids;
      for (auto k : m.held) { if (!(kept > 0 && k == old) && !(kept > 1 && k == std::uint32_t(n / 2))) { ids.push_back(k); } }
      m.ack(1, ids);
    }
  }
  for (int i = 0; i < 3; ++i) { m.submit(2); }
  m.c09 = on; m.check("base", {});
  constexpr int N = 16;
  const auto one = [&](int x, int y)
  {
    const auto f = m.held.front(), l = m.held.back();
    const std::uint32_t u[N] = {0u, f, f + 1, f + 32767, f + 32768, f + 32769, f + 65536, l, l - 1, l + 1, l + 32768, l + 40000, l + 65536, 0x7fffffffu, 0x80000000u + l, 0xffffffffu};
    std::set<std::uint32_t> ids{u[x], u[y]};
    if (*ids.rbegin() - *ids.begin() > 65535) { return; } // cannot be written
    m.ack(1, ref::ids_t(ids.begin(), ids.end()));
    while (m.held.size() < 3) { m.submit(1); }
  };
  if (n < 100) { for (int round = 0; round < 2; ++round) { const int x = ch.choose(N), y = ch.choose(N); one(x, y); } }
  else
  {
    // all of them, one after the other
    const int order = ch.choose(4);
    for (int i = 0; i < N * N; ++i) { const int k = (order & 1 ? N * N - 1 - i : i) * (order & 2 ? 37 : 1) % (N * N); one(k / N, k % N); }
  }
  m.submit(1);
  m.finish();
}

// Large blocks.
void body_large(mc::Chooser& ch, int w)
{
  static const unsigned s8[] = {1, 255, 256, 4096, 32767, 32768, 40001, 65535}, s32[] = {4, 252, 256, 4096, 32764, 32768, 40004, 65532};
  const auto* sz = w >= 16 ? s32 : s8;
  EncMon m(w, ch);
  m.set_rate(2);
  const int n = 3;
  for (int i = 0; i < n; ++i) { m.submit(sz[ch.choose(8)]); }
  m.repair();
  if (ch.choose(2)) { m.ack(1, {m.held.front()}); m.repair(); }
  m.finish();
}

// Many blocks held.
void body_hold(mc::Chooser& ch)
{
  static const std::size_t wins[] = {0, 255, 256, 257, 40000, 65535, 65536, 65537};
  EncMon m(8, ch);
  m.set_rate(1u << 30);
  const auto win = wins[ch.choose(8)];
  m.set_window(win);
  const auto on = m.c09; m.c09 = false;
  const std::size_t n = win ? win + 3 : 66000;
  std::size_t h = 0;
  for (std::size_t i = 0; i < n; ++i)
  {
    m.blocks.emplace_back(); pass_data(m.enc, block(unsigned(i), 1)); m.sk.out.clear(); ++m.next_src; // without the quadratic bookkeeping
    h = std::min(i + 1, win ? win : i + 1);
    if (on && m.enc.window() != h) { mc::fail("retention", "after block " + S(i) + " window() is " + S(m.enc.window()) + ", expected " + S(h)); }
  }
  for (std::size_t i = n - h; i < n; ++i) { m.held.push_back(std::uint32_t(i)); }
  m.c09 = on; m.check("base", {});
  const auto fast_ack = [&](const ref::ids_t& ids)
  {
    ref::ids_t keep; std::set_difference(m.held.begin(), m.held.end(), ids.begin(), ids.end(), std::back_inserter(keep));
    auto p = mkpkt(ref::mk_ack(1, ids)); const auto& cp = p;
    if (ch.choose(2)) { m.enc(std::move(p)); } else { m.enc(cp); }
    m.held = keep; ++m.nack; m.sent = 0; m.check("ack", {});
  };
  switch (ch.choose(4))
  {
    case 0: fast_ack(m.held); break;
    case 1: { ref::ids_t v; for (std::size_t k = 0; k < m.held.size() && k < 65000; ++k) { if (k % 4 < 2) { v.push_back(m.held[k]); } } fast_ack(v); break; }
    case 2: m.set_window(100); m.held.erase(m.held.begin(), m.held.end() - 100); m.submit(1); break;
    case 3: m.ack(1, {m.held.back()}); break;
  }
  m.finish();
}

// Large rates.
void body_rates(mc::Chooser& ch)
{
  static const std::size_t rates[] = {127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537};
  const auto r = rates[ch.choose(11)];
  EncMon m(8, ch);
  m.set_window(1); m.set_rate(r); m.set_sys(ch.choose(2) == 0);
  const std::size_t n = r < 2000 ? 3 * r + 2 : r + 2;
  for (std::size_t i = 0; i < n; ++i) { m.submit(1); m.evicted.clear(); if (i > 4) { m.blocks[i - 4].clear(); } }
  m.finish();
}

// Many acks.
void body_many_acks(mc::Chooser& ch, int n)
{
  EncMon m(8, ch);
  const int empty = ch.choose(2);
  m.set_window(2); m.submit(1);
  for (int i = 0; i < n; ++i) { if (!empty && i % 1000 == 0) { m.submit(1); } m.ack(1, empty ? ref::ids_t{} : ref::ids_t{std::uint32_t(i / 1000)}); m.acked.clear(); m.evicted.clear(); }
  m.finish();
}

// Many packets between two acks: the pairs around which the rate changes.
void body_ratio_big(mc::Chooser& ch, int n)
{
  std::set<int> ms{0, 1, n / 2, n - 2, n - 1, n, n + 1, n + 3};
  for (int q : {1, 2, 3, 4, 7, 10, 24, 25, 26, 48, 49, 50, 51})
  {
    for (int d : {-1, 0, 1}) { const int l = n / (2 * q) + d; if (l >= 0 && l <= n) { ms.insert(n - l); } }
  }
  const std::vector<int> v(ms.begin(), ms.end());
  const int m = v[std::size_t(ch.choose(int(v.size())))];
  EncMon e(8, ch);
  e.set_rate(1u << 30); e.set_window(1); e.set_adaptive(true);
  for (int i = 0; i < n; ++i) { e.submit(1); }
  e.ack(std::uint32_t(std::min(m, 65535)), {});
  e.finish();
}

// A long session: identifiers and counters beyond 16 bits.
void body_marathon(mc::Chooser& ch, int w, int n)
{
  EncMon m(w, ch);
  static const std::size_t rates[] = {1, 3, 50};
  const auto rate = rates[ch.choose(3)];
  m.set_rate(rate); m.set_window(4); m.set_sys(ch.choose(2) == 0);
  for (int i = 0; i < n; ++i)
  {
    m.submit(std::size_t(w <= 8 ? 1 : w / 8));
    if (i % 5000 == 4321 && m.held.size() > 1) { m.ack(2, {m.held[1]}); }
    m.blocks.size() > 8 ? void(m.blocks[m.blocks.size() - 8].clear()) : void();
    m.evicted.clear(); m.acked.clear();
  }
  m.repair();
  m.finish();
}

// Wide windows: contents of repairs over hundreds of sources.
void body_wide(mc::Chooser& ch, int w, int n)
{
  EncMon m(w, ch);
  m.set_rate(1u << 30);
  const int sizes = ch.choose(2);
  for (int i = 0; i < n; ++i) { m.submit(block_size(w, sizes, unsigned(i))); if (i % 64 == 62 || i == n - 1) { m.repair(); } }
  switch (ch.choose(4))
  {
    case 0: m.ack(1, {m.held[m.held.size() / 2]}); break;
    case 1: m.ack(1, {m.held.front()}); break;
    case 2: { ref::ids_t v; for (std::size_t k = 0; k < m.held.size(); k += 2) { v.push_back(m.held[k]); } m.ack(1, v); break; }
    case 3: m.set_window(3); m.submit(block_size(w, sizes, 1)); break;
  }
  m.repair(); m.repair();
  m.finish();
}

void body_adaptive(mc::Chooser& ch, int len)
{
  EncMon m(8, ch);
  m.set_rate(3);
  for (int i = 0; i < len; ++i)
  {
    switch (ch.choose(11))
    {
      case 0: m.submit(2); break;
      case 1: for (int k = 0; k < 4; ++k) { m.submit(2); } break;
      case 2: m.repair(); break;
      case 3: m.ack(0, {}); break;
      case 4: m.ack(1, {}); break;
      case 5: m.ack(4, {}); break;
      case 6: m.ack(65535, m.held); break;
      case 7: m.set_adaptive(true); break;
      case 8: m.set_adaptive(false); break;
      case 9: m.set_rate(2); break;
      case 10: m.set_sys(!m.systematic); break;
    }
  }
  m.finish();
}

void body_stats(mc::Chooser& ch, int len)
{
  EncMon m(8, ch);
  m.set_rate(2);
  for (int i = 0; i < len; ++i)
  {
    switch (ch.choose(8))
    {
      case 0: case 1: m.submit(2); break;
      case 2: m.repair(); break;
      case 3: m.ack(1, m.held); break;
      case 4: m.ack(0, {}); break;
      case 5: m.set_sys(!m.systematic); break;
      case 6: m.set_rate(1); break;
      case 7: m.set_window(1); break;
    }
  }
  m.finish();
}

// ------------------------------------------------------------------------------------------------
// Ack policy with virtual time.
class AckMon
{
public:
  mc::Chooser& ch;
  Sink sk; DataSink data;
  std::function<void(const bytes&)> hook;
  std::unique_ptr<Dec> dec;
  std::vector<std::string> ev;
  std::int64_t period_ns = 100 * 1000000ll, last;
  std::size_t nb = 50, since = 0;
  std::uint32_t next = 0;
  std::uint64_t h = 1469598103934665603ull;
  std::vector<bytes> blocks;

  AckMon(mc::Chooser& c, bool ordered) : ch(c)
  {
    g_steady_ns = 1000000000000ll;
    hook = [this](const bytes& b)
    {
      const auto k = ref::parse(b);
      ev.push_back("ack" + S(k.nb));
    };
    data.hook = [this](const bytes&)
    {
      ev.push_back("data");
      if (due()) { exp.push_back("data"); exp.push_back("ack" + S(since)); since = 0; last = g_steady_ns; }
      else { exp.push_back("data"); }
    };
    dec.reset(new Dec(8, ordered ? ntc::in_order::yes : ntc::in_order::no, PH{&sk, &hook}, DH{&data}));
    last = g_steady_ns;
    for (unsigned i = 0; i < 12; ++i) { blocks.push_back(block(i, 3)); }
  }
  bool due() const { return since >= nb || (period_ns && g_steady_ns - last >= period_ns); }
  std::vector<std::string> exp;

  void feed(const bytes& b)
  {
    ch.log([&] { return "receive " + ref::show(ref::parse(b)); });
    ++since;
    pass_pkt((*dec), b);
    check();
  }
  void source(std::uint32_t i) { feed(ref::mk_source(i, blocks[i])); }
  void repair(std::uint32_t rid, std::uint32_t a, std::uint32_t b)
  {
    std::vector<std::pair<std::uint32_t, const bytes*>> win; ref::ids_t ids;
    for (auto i = a; i < b; ++i) { win.emplace_back(i, &blocks[i]); ids.push_back(i); }
    bytes sym; std::uint32_t es; ref::combine(ref::gf(8), rid, win, sym, es);
    feed(ref::mk_repair_raw(rid, sym, ids, es));
  }
  void poll()
  {
    ch.log([] { return std::string("maybe_ack"); });
    if (due()) { exp.push_back("ack" + S(since)); since = 0; last = g_steady_ns; }
    dec->maybe_ack(); check();
  }
  void force()
  {
    ch.log([] { return std::string("generate_ack"); });
    exp.push_back("ack" + S(since)); since = 0;
    dec->generate_ack(); check();
  }
  void tick(int ms) { ch.log([&] { return "time +" + S(std::uint64_t(ms)) + " ms"; }); g_steady_ns += std::int64_t(ms) * 1000000ll; }
  void tick_ns(std::int64_t ns) { g_steady_ns += ns; }
  void set_period(int ms) { ch.log([&] { return "set_ack_period " + S(std::uint64_t(ms)); }); period_ns = std::int64_t(ms) * 1000000ll; dec->set_ack_period(std::chrono::milliseconds{ms}); check(); }
  void set_nb(unsigned n) { ch.log([&] { return "set_ack_nb_packets " + S(n); }); nb = std::min(n, 128u); dec->set_ack_nb_packets(static_cast<std::uint16_t>(n)); check(); }
  void check()
  {
    ch.step();
    sk.out.clear(); data.got.clear();
    if (ev != exp)
    {
      std::string a, b; for (auto& s : ev) { a += s + " "; } for (auto& s : exp) { b += s + " "; }
      mc::fail("ack policy", "observed [" + a + "], expected [" + b + "]");
    }
    if (dec->ack_nb_packets() != nb) { mc::fail("ack policy", "ack_nb_packets() is " + S(dec->ack_nb_packets())); }
    if (dec->ack_period().count() * 1000000ll != period_ns) { mc::fail("ack policy", "ack_period() is wrong"); }
    for (auto& s : ev) { h = mc::fnv(s.data(), s.size(), h); }
    ev.clear(); exp.clear();
  }
  void finish() { ch.outcome(h); }
};

void body_acks(mc::Chooser& ch, bool ordered, int len)
{
  AckMon m(ch, ordered);
  std::uint32_t rid = 0;
  for (int i = 0; i < len; ++i)
  {
    switch (ch.choose(12))
    {
      case 0: if (m.next < 11) { m.source(m.next++); } break;
      case 1: m.source(0); if (m.next == 0) { m.next = 1; } break;      // mostly a duplicate: nothing is handed over
      case 2: if (m.next < 9) { m.source(m.next + 1); m.repair(rid++, m.next, m.next + 2); m.next += 2; } break; // rebuild
      case 3: m.poll(); break;
      case 4: m.force(); break;
      case 5: m.tick(9); break;
      case 6: m.tick(1); break;
      case 7: m.tick(91); break;
      case 8: m.set_period(0); break;
      case 9: m.set_period(10); break;
      case 10: m.set_nb(2); break;
      case 11: m.set_nb(1); break;
    }
  }
  m.finish();
}

// The limits: defaults, clamping, nanosecond boundaries.
void body_ack_limits(mc::Chooser& ch)
{
  AckMon m(ch, ch.choose(2) == 1);
  static const unsigned nbs[] = {0, 49, 50, 51, 127, 128, 129, 1000, 65535};
  const auto n = nbs[ch.choose(9)];
  if (n) { m.set_nb(n); }
  static const int ps[] = {-1, 0, 1, 100, 1000};
  const int p = ps[ch.choose(5)];
  if (p >= 0) { m.set_period(p); }
  const int k = 1 + ch.choose(130);
  m.source(0);
  for (int i = 1; i < k; ++i) { m.source(0); } // duplicates only count
  const std::int64_t per = m.period_ns;
  switch (ch.choose(4))
  {
    case 0: break;
    case 1: if (per) { m.tick_ns(per - 1); } break;
    case 2: m.tick_ns(per); break;
    case 3: m.tick_ns(3600ll * 1000000000ll); break;
  }
  if (ch.choose(2)) { m.poll(); } else { m.source(1); }
  m.poll();
  m.finish();
}

// ------------------------------------------------------------------------------------------------
std::vector<mc::Job> jobs()
{
  warm_fields();
  const bool T = mc::options().thorough;
  const auto p = P();
  std::vector<mc::Job> js;
  const int INF = 1 << 30;
  const auto add = [&](const std::string& n, std::function<void(mc::Chooser&)> f, int bound, int shards, int depth)
  { mc::Job j; j.name = n; j.body = std::move(f); j.bound = bound; j.shards = shards; j.shard_depth = depth; js.push_back(j); };
  if (p == "C08")
  {
    for (bool o : {false, true})
    {
      const int len = T ? 7 : 6;
      add(std::string("acks ") + (o ? "ordered" : "unordered") + " len" + S(unsigned(len)), [o, len](mc::Chooser& ch) { body_acks(ch, o, len); }, INF, 64, 2);
    }
    add("limits", body_ack_limits, INF, 16, 3);
  }
  if (p == "C09")
  {
    add("retention w8", [T](mc::Chooser& ch) { body_retention(ch, 8, T ? 7 : 6); }, INF, 64, 2);
    for (int w : {4, 16, 32}) { add("retention w" + S(unsigned(w)), [w, T](mc::Chooser& ch) { body_retention(ch, w, T ? 6 : 4); }, INF, 8, 2); }
    for (int n : {20, 300}) { add("retention base " + S(unsigned(n)), [n, T](mc::Chooser& ch) { body_retention_big(ch, n, n < 100 ? (T ? 5 : 4) : (T ? 4 : 3)); }, INF, 8, 2); }
  }
  if (p == "C10" || p == "C23")
  {
    for (int w : {8, 4, 16, 32}) { const int len = (w == 8 ? 6 : 4) + (T ? 1 : 0); add("schedule w" + S(unsigned(w)) + " len" + S(unsigned(len)), [w, len](mc::Chooser& ch) { body_schedule(ch, w, len); }, INF, w == 8 ? 64 : 8, 2); }
  }
  if (p == "C10" || p == "C11" || p == "C09")
  {
    for (int w : {8, 4, 16, 32})
      for (int v = 0; v < 4; ++v)
      {
        const std::size_t rate = v == 0 ? 1 : v == 1 ? 3 : v == 2 ? 7 : 4;
        const std::size_t win = v == 1 ? 4 : v == 3 ? 1 : 0;
        const bool sys = v != 3;
        const int n = w == 32 ? 12 : 24, sizes = w == 32 ? v % 3 : (v == 2 ? 4 : v);
        add("stream w" + S(unsigned(w)) + " v" + S(unsigned(v)), [=](mc::Chooser& ch) { body_stream(ch, w, rate, win, sys, n, sizes); }, T ? 3 : 2, T ? 8 : 2, 6);
      }
  }
  if (p == "C11")
  {
    for (int w : {8, 4, 16, 32})
    {
      const int len = T ? 6 : 5;
      add("content w" + S(unsigned(w)) + " len" + S(unsigned(len)), [w, len](mc::Chooser& ch) { body_content(ch, w, len); }, INF, 16, 2);
      add("coder w" + S(unsigned(w)), [w](mc::Chooser& ch) { body_coder(ch, w); }, INF, 2, 2);
    }
  }
  if (p == "C12")
  {
    const int N = T ? 420 : 220;
    for (int a = 0; a < N; a += 20) { add("ratio " + S(unsigned(a)), [a](mc::Chooser& ch) { body_ratio(ch, a, a + 20); }, INF, 2, 1); }
    for (int n : {1000, 4097, 32768, 60001, 65535}) { if (T || (n != 4097 && n != 32768)) { add("ratio big " + S(unsigned(n)), [n](mc::Chooser& ch) { body_ratio_big(ch, n); }, INF, 16, 1); } }
    add("adaptive", [T](mc::Chooser& ch) { body_adaptive(ch, T ? 7 : 6); }, INF, 64, 2);
  }
  if (p == "C09" || p == "C10" || p == "C11" || p == "C23") { for (int w : {8, 16}) { if (T || w == 8) { add("marathon w" + S(unsigned(w)), [w, T](mc::Chooser& ch) { body_marathon(ch, w, T ? 140000 : 66000); }, INF, 6, 2); } } }
  if (p == "C10" || p == "C11") { for (int w : {4, 8, 16, 32}) { add("wide w" + S(unsigned(w)), [w, T](mc::Chooser& ch) { body_wide(ch, w, T ? 700 : 300); }, INF, 4, 2); } }
  if (p == "C09") { add("hold", body_hold, INF, 32, 2); }
  if (p == "C09") { for (int n : {2, 5000, 34000, 67000}) { add("far " + S(unsigned(n)), [n](mc::Chooser& ch) { body_far(ch, n); }, INF, 32, 2); } }
  if (p == "C10" || p == "C11") { for (int w : {4, 8, 16, 32}) { add("large w" + S(unsigned(w)), [w](mc::Chooser& ch) { body_large(ch, w); }, INF, 8, 2); } }
  if (p == "C10" || p == "C23") { add("rates", body_rates, INF, 22, 2); }
  if (p == "C09" || p == "C23") { add("many acks", [T](mc::Chooser& ch) { body_many_acks(ch, T ? 140000 : 66000); }, INF, 2, 1); }
  if (p == "C23") { add("stats", [T](mc::Chooser& ch) { body_stats(ch, T ? 7 : 6); }, INF, 32, 2); }
  return js;
}

} // anon

int main(int argc, char** argv) { return mc::main_(argc, argv, jobs); }
