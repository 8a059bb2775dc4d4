// Encoder traffic through every network behaviour in the bound, into the real decoder, against the
// decoder specification. Properties C01-C07, C22, C23.
#include "world.hh"

void warm_fields();

namespace {

std::string P() { return mc::options().property; }

struct Prop { bool c01, c02, c03, c04, c05, c06, c07, c22, c23; };
Prop props()
{
  const auto p = P();
  return {p == "C01", p == "C02", p == "C03", p == "C04", p == "C05", p == "C06", p == "C07", p == "C22", p == "C23"};
}

struct MonCfg
{
  bool ordered = false;
  int ack_every = 0;      // forced ack after every k-th packet
  std::uint16_t ack_nb = 0; // automatic acks (0: none)
};

// The decoder under test, with its specification.
class Monitor
{
public:
  Monitor(const Traffic& t, const MonCfg& c, mc::Chooser& ch)
    : m_t(t), m_c(c), m_ch(ch), m_p(props())
    , m_spec(t.w, t.base)
    , m_dec(static_cast<std::uint8_t>(t.w), c.ordered ? ntc::in_order::yes : ntc::in_order::no, PH{&m_acks, &m_ack_hook}, DH{&m_data})
  {
    m_data.hook = [this](const bytes& b) { on_data(b); };
    m_ack_hook = [this](const bytes& b) { on_ack(b); };
    m_dec.set_ack_period(std::chrono::milliseconds{0});
    m_dec.set_ack_nb_packets(c.ack_nb ? c.ack_nb : 128);
    if (needs_twin())
    {
      m_twin_data.hook = [this](const bytes& b)
      {
        const auto it = m_t.by_content.find(b);
        if (it != m_t.by_content.end()) { m_twin |= 1ull << it->second; }
      };
      m_twin_dec.reset(new Dec(static_cast<std::uint8_t>(t.w), ntc::in_order::no, PH{&m_twin_acks}, DH{&m_twin_data}));
      m_twin_dec->set_ack_period(std::chrono::milliseconds{0});
      m_twin_dec->set_ack_nb_packets(128);
    }
  }

  void feed(const Traffic::Item& it)
  {
    m_ch.log([&] { return "receive " + ref::show(it.k); });
    m_ch.step();
    m_cur = &it.k;
    m_has_lo_before = m_spec.has_lo; m_lo_before = m_spec.lo;
    const auto delivered_before = m_delivered;
    ++m_since_ack;
    if (it.k.ok) { it.k.type == 2 ? (void)++m_nsrc : (void)++m_nrep; }
    // The specification first: acks sent during the call are judged against it.
    if (it.k.ok && in_range(it.k))
    {
      if (it.k.type == 2) { m_spec.source(it.k.id); }
      else if (it.k.type == 1) { m_spec.repair(it.k.id, it.k.ids); }
      if (m_p.c07) { m_det = m_spec.determined(); }
    }
    if (m_twin_dec) { try { pass_pkt((*m_twin_dec), it.raw); } catch (const std::exception&) {} m_twin_acks.out.clear(); m_twin_data.got.clear(); }
    bool threw = false;
    m_in_call = true;
    try { pass_pkt(m_dec, it.raw); }
    catch (const mc::Violation&) { throw; }
    catch (const std::exception& e) { threw = true; m_ch.log([&] { return std::string("  exception ") + e.what(); }); }
    m_in_call = false;
    m_data.got.clear();
    ++m_n;
    const auto fresh = m_delivered & ~delivered_before;
    m_h = mc::fnv(&fresh, 8, m_h);

    if (m_p.c04)
    {
      if (!m_c.ordered)
      {
        if (it.k.ok && it.k.type == 2 && !(m_has_lo_before && it.k.id < m_lo_before) && !(m_delivered & bit(it.k.id)))
        { mc::fail("withheld", "source " + std::to_string(it.k.id) + " was received in the window but not handed over during the call"); }
      }
      else
      {
        // everything the unordered twin has handed over is known here too
        const auto known = m_twin;
        std::uint64_t ok = m_delivered | (m_spec.has_lo ? m_spec.below(m_spec.lo) : 0);
        for (int b = 0; b < 64; ++b)
        {
          const auto m = 1ull << b;
          const bool front = b == 0 ? (m_t.base == 0 || (m_spec.has_lo && m_spec.lo >= m_t.base)) : true;
          if (!front) { break; }
          if ((known & m) && !(m_delivered & m) && !owed_never(b))
          { mc::fail("withheld", "block " + std::to_string(b) + " is known and every earlier block was handed over or left the window, but it is not handed over"); }
          if (!(ok & m)) { break; }
        }
      }
    }
    if (m_p.c05)
    {
      auto have = m_delivered;
      if (m_c.ordered) { have = ack_ids_now() | (m_spec.has_lo ? m_spec.below(m_spec.lo) : 0); }
      const auto lacking = m_spec.known & ~have & ~(m_spec.has_lo && m_c.ordered ? m_spec.below(m_spec.lo) : 0) & ~m_spec.received;
      if (lacking) { mc::fail("not rebuilt", "sources " + ref::showmask(lacking) + " can be rebuilt from the packets held in the window but were not"); }
    }
    if (m_p.c22)
    {
      std::uint64_t u = 0;
      for (auto& r : m_spec.live) { u |= r.ids & ~m_spec.known; }
      u &= m_spec.window();
      const auto miss = m_dec.nb_missing_sources();
      if (miss > std::size_t(__builtin_popcountll(u)))
      { mc::fail("missing count", "reports " + std::to_string(miss) + " missing sources, the window has unknown " + ref::showmask(u)); }
      if (!m_c.ordered && miss == 0 && (u & ~m_delivered))
      { mc::fail("missing count", "reports no missing source, but repairs name unknown " + ref::showmask(u)); }
      const auto a = ack_ids_now();
      if (a & ~m_spec.window())
      { mc::fail("outdated", "still holds sources older than the window: " + ref::showmask(a & ~m_spec.window())); }
    }
    if (m_p.c23)
    {
      for (int b = 0; b < 64; ++b)
      {
        if (((fresh >> b) & 1) && !(it.k.ok && it.k.type == 2 && bit(it.k.id) == (1ull << b))) { ++m_rebuilt; }
      }
      const auto exp = m_c.ordered ? m_twin_dec->nb_decoded() : m_rebuilt;
      eq("nb_decoded", m_dec.nb_decoded(), exp);
      eq("nb_received_sources", m_dec.nb_received_sources(), m_nsrc);
      eq("nb_received_repairs", m_dec.nb_received_repairs(), m_nrep);
      eq("nb_sent_acks", m_dec.nb_sent_acks(), m_nacks);
    }
    if (m_c.ack_every && m_n % unsigned(m_c.ack_every) == 0) { force_ack(); }
    if (m_p.c23 && m_c.ack_every) { eq("nb_sent_acks", m_dec.nb_sent_acks(), m_nacks); }
    (void)threw;
  }

  void finish()
  {
    if (m_c.ack_every) { force_ack(); if (m_p.c23) { eq("nb_sent_acks", m_dec.nb_sent_acks(), m_nacks); } }
    m_ch.outcome(m_h);
  }
  std::uint64_t delivered() const { return m_delivered; }
  const ref::DecSpec& spec() const { return m_spec; }
  Dec& dec() { return m_dec; }

  void force_ack()
  {
    m_forced = true;
    m_dec.generate_ack();
    m_forced = false;
    m_acks.out.clear();
  }

private:
  bool needs_twin() const { return m_c.ordered && (m_p.c04 || m_p.c07 || m_p.c23); }
  bool in_range(const ref::Pkt& k) const
  {
    if (k.type == 2) { return k.id >= m_t.base && k.id - m_t.base < 64; }
    for (auto i : k.ids) { if (i < m_t.base || i - m_t.base >= 64) { return false; } }
    return !k.ids.empty();
  }
  std::uint64_t bit(std::uint32_t id) const { return 1ull << (id - m_t.base); }
  // In ordered mode a block that became known only after it left the window is not owed.
  bool owed_never(int) const { return false; }

  void eq(const char* what, std::size_t got, std::size_t exp)
  {
    if (got != exp) { mc::fail("statistics", std::string(what) + " is " + std::to_string(got) + ", expected " + std::to_string(exp)); }
  }

  // Ids named by an ack generated now.
  std::uint64_t ack_ids_now()
  {
    const auto n = m_acks.out.size();
    m_quiet = true;
    m_dec.generate_ack();
    m_quiet = false;
    std::uint64_t m = 0;
    if (m_acks.out.size() > n)
    {
      const auto k = ref::parse(m_acks.out.back());
      for (auto i : k.ids) { if (i >= m_t.base && i - m_t.base < 64) { m |= bit(i); } }
    }
    m_acks.out.clear();
    return m;
  }

  void on_data(const bytes& b)
  {
    const auto it = m_t.by_content.find(b);
    if (it == m_t.by_content.end())
    {
      m_ch.log([&] { return "  deliver ? " + ref::hex(b); });
      if (m_p.c01) { mc::fail("integrity", "delivered a block that was never submitted: size " + std::to_string(b.size()) + " bytes " + ref::hex(b)); }
      return;
    }
    const auto i = it->second;
    m_ch.log([&] { return "  deliver block " + std::to_string(i); });
    const auto m = 1ull << i;
    if (m_p.c02 && (m_delivered & m)) { mc::fail("duplicate", "block " + std::to_string(i) + " was handed over twice"); }
    if (m_p.c03 && m_c.ordered && m_delivered && int(i) <= m_last)
    { mc::fail("order", "block " + std::to_string(i) + " was handed over after block " + std::to_string(m_last)); }
    if (m_p.c22 && m_in_call && m_has_lo_before && m_t.base + i < m_lo_before)
    { mc::fail("outdated", "block " + std::to_string(i) + " older than the announced window was handed over"); }
    m_delivered |= m;
    m_last = std::max(m_last, int(i));
  }

  void on_ack(const bytes& b)
  {
    ++m_nacks;
    const auto k = ref::parse(b);
    m_ch.log([&] { return "  sends " + ref::show(k); });
    const auto since = m_since_ack;
    m_since_ack = 0;
    if (!m_p.c07 || m_quiet) { return; }
    if (!k.ok || k.type != 0 || k.consumed != b.size()) { mc::fail("ack", "malformed ack " + ref::hex(b)); }
    std::uint64_t ids = 0;
    for (auto i : k.ids)
    {
      if (i < m_t.base || i - m_t.base >= 64) { mc::fail("ack", "names source " + std::to_string(i) + " that was never sent"); }
      ids |= bit(i);
    }
    if (k.nb != since) { mc::fail("ack", "reports " + std::to_string(k.nb) + " packets, " + std::to_string(since) + " were received since the previous ack"); }
    const auto may = m_c.ordered ? m_det : m_delivered;
    if (ids & ~may) { mc::fail("ack", "names sources the decoder does not hold: " + ref::showmask(ids & ~may)); }
    if (m_in_call)
    {
      if (m_has_lo_before && (ids & m_spec.below(m_lo_before)))
      { mc::fail("ack", "names sources older than the window: " + ref::showmask(ids & m_spec.below(m_lo_before))); }
    }
    else
    {
      if (ids & ~m_spec.window()) { mc::fail("ack", "names sources older than the window: " + ref::showmask(ids & ~m_spec.window())); }
      const auto must = (m_c.ordered ? m_twin : m_delivered) & m_spec.window();
      if (must & ~ids) { mc::fail("ack", "does not name held sources " + ref::showmask(must & ~ids)); }
    }
  }

  const Traffic& m_t;
  MonCfg m_c;
  mc::Chooser& m_ch;
  Prop m_p;
  ref::DecSpec m_spec;
  Sink m_acks, m_twin_acks;
  DataSink m_data, m_twin_data;
  std::function<void(const bytes&)> m_ack_hook;
  Dec m_dec;
  std::unique_ptr<Dec> m_twin_dec;
  const ref::Pkt* m_cur = nullptr;
  bool m_has_lo_before = false, m_in_call = false, m_forced = false, m_quiet = false;
  std::uint32_t m_lo_before = 0;
  std::uint64_t m_delivered = 0, m_twin = 0, m_det = 0, m_h = 1469598103934665603ull;
  int m_last = -1;
  std::size_t m_n = 0, m_since_ack = 0, m_nsrc = 0, m_nrep = 0, m_nacks = 0, m_rebuilt = 0;
};

// ------------------------------------------------------------------------------------------------
const Traffic& cached(const EncCfg& c, const std::string& s)
{
  static std::map<std::string, Traffic> cache;
  const auto key = s + "/" + std::to_string(c.w) + "/" + std::to_string(c.rate) + "/" + std::to_string(c.window)
                 + "/" + std::to_string(c.systematic) + "/" + std::to_string(c.sizes);
  auto it = cache.find(key);
  if (it == cache.end()) { if (cache.size() > 5000) { cache.clear(); } it = cache.emplace(key, run_script(c, s)).first; }
  return it->second;
}

// A script over `alphabet` of exactly `len` operations.
std::string pick_script(mc::Chooser& ch, const std::string& alphabet, int len, std::size_t window)
{
  std::string s = "S";
  while (int(s.size()) < len)
  {
    std::string ok;
    for (char c : alphabet) { if (held_after(s + c, window) >= 0) { ok += c; } }
    s += ok[std::size_t(ch.choose(int(ok.size())))];
  }
  return s;
}

// All orders of all packets of a script (every prefix is an execution with losses).
void body_perm(mc::Chooser& ch, const EncCfg& e, const MonCfg& m, const std::string& alphabet, int len, std::size_t maxn)
{
  const auto s = pick_script(ch, alphabet, len, e.window);
  const auto& t = cached(e, s);
  ch.log([&] { return "script " + s; });
  if (t.items.size() > maxn) { return; }
  Monitor mon(t, m, ch);
  std::vector<int> left;
  for (std::size_t i = 0; i < t.items.size(); ++i) { left.push_back(int(i)); }
  while (!left.empty())
  {
    const auto i = std::size_t(ch.choose(int(left.size())));
    const auto k = left[i];
    left.erase(left.begin() + long(i));
    mon.feed(t.items[std::size_t(k)]);
  }
  mon.finish();
}

// All sequences of length `len` over the packets of a script, repetitions included.
void body_seq(mc::Chooser& ch, const EncCfg& e, const MonCfg& m, const std::string& script, int len)
{
  const auto& t = cached(e, script);
  if (t.items.empty()) { return; }
  Monitor mon(t, m, ch);
  for (int i = 0; i < len; ++i) { mon.feed(t.items[std::size_t(ch.choose(int(t.items.size())))]); }
  mon.finish();
}

// A long history in emission order with at most `bound` network faults.
void body_long(mc::Chooser& ch, const EncCfg& e, const MonCfg& m, const std::string& script)
{
  const auto& t = cached(e, script);
  Monitor mon(t, m, ch);
  std::vector<std::pair<std::size_t, std::size_t>> late; // due, item
  int burst = 0;
  const auto n = t.items.size();
  for (std::size_t i = 0; i < n; ++i)
  {
    if (burst) { --burst; ch.log([&] { return "(lost) " + ref::show(t.items[i].k); }); }
    else
    {
      const int a = ch.deviate(8);
      if (a == 1 || a == 2 || a == 3) { ch.log([&] { return "(lost) " + ref::show(t.items[i].k); }); }
      switch (a)
      {
        case 0: mon.feed(t.items[i]); break;
        case 1: break;
        case 2: burst = 2; break;
        case 3: burst = 5; break;
        case 4: late.emplace_back(i + 1, i); break;
        case 5: late.emplace_back(i + 4, i); break;
        case 6: mon.feed(t.items[i]); late.emplace_back(i + 3, i); break;
        case 7: late.emplace_back(i + 12, i); break;
      }
    }
    for (std::size_t k = 0; k < late.size();)
    {
      if (late[k].first <= i) { const auto x = late[k].second; late.erase(late.begin() + long(k)); if (x != i) { mon.feed(t.items[x]); } else { late.emplace_back(i + 1, x); } }
      else { ++k; }
    }
  }
  for (auto& l : late) { mon.feed(t.items[l.second]); }
  mon.finish();
}

// Packets built by the reference, with identifiers starting at `base`: all orders.
void body_base(mc::Chooser& ch, int w, const MonCfg& m, std::uint32_t base, std::uint32_t rbase, int nsrc, int nrep)
{
  static std::map<std::string, Traffic> cache;
  const auto key = std::to_string(w) + "/" + std::to_string(base) + "/" + std::to_string(rbase) + "/" + std::to_string(nsrc) + "/" + std::to_string(nrep);
  auto it = cache.find(key);
  if (it == cache.end())
  {
    Traffic t; t.w = w; t.base = base;
    for (int i = 0; i < nsrc; ++i) { t.blocks.push_back(block(unsigned(i), block_size(w, 0, unsigned(i)))); }
    for (int i = 0; i < nsrc; ++i) { auto b = ref::mk_source(base + std::uint32_t(i), t.blocks[std::size_t(i)]); t.items.push_back({b, ref::parse(b)}); }
    for (int r = 0; r < nrep; ++r)
    {
      std::vector<std::pair<std::uint32_t, const bytes*>> win; ref::ids_t ids;
      for (int i = (r == nrep - 1 && nrep > 2) ? 1 : 0; i < nsrc; ++i) { win.emplace_back(base + std::uint32_t(i), &t.blocks[std::size_t(i)]); ids.push_back(base + std::uint32_t(i)); }
      bytes sym; std::uint32_t es;
      ref::combine(ref::gf(w), rbase + std::uint32_t(r), win, sym, es);
      auto b = ref::mk_repair_raw(rbase + std::uint32_t(r), sym, ids, es & 0xffff);
      t.items.push_back({b, ref::parse(b)});
    }
    t.index();
    it = cache.emplace(key, t).first;
  }
  const auto& t = it->second;
  Monitor mon(t, m, ch);
  std::vector<int> left;
  for (std::size_t i = 0; i < t.items.size(); ++i) { left.push_back(int(i)); }
  while (!left.empty())
  {
    const auto i = std::size_t(ch.choose(int(left.size())));
    const auto k = left[i];
    left.erase(left.begin() + long(i));
    mon.feed(t.items[std::size_t(k)]);
  }
  mon.finish();
}

// ------------------------------------------------------------------------------------------------
// Closed loop: acks travel back and shrink the encoder's window. After the bad period the network
// delivers; everything must arrive.
struct LoopCfg { int w; bool ordered; std::size_t rate, window; bool systematic; int rounds; int ack_every; };

void body_loop(mc::Chooser& ch, const LoopCfg& c)
{
  Sink esk, dsk; DataSink data;
  Enc enc(static_cast<std::uint8_t>(c.w), PH{&esk});
  Dec dec(static_cast<std::uint8_t>(c.w), c.ordered ? ntc::in_order::yes : ntc::in_order::no, PH{&dsk}, DH{&data});
  enc.set_rate(c.rate).set_code_type(c.systematic ? ntc::systematic::yes : ntc::systematic::no);
  if (c.window) { enc.set_window_size(c.window); }
  dec.set_ack_period(std::chrono::milliseconds{0}); dec.set_ack_nb_packets(128);
  std::map<bytes, int> idx;
  std::vector<int> times;
  std::uint64_t h = 1469598103934665603ull;
  data.hook = [&](const bytes& b)
  {
    const auto it = idx.find(b);
    if (it == idx.end()) { mc::fail("closed loop", "a block was handed over that was never submitted: " + ref::hex(b)); }
    if (++times[std::size_t(it->second)] > 1) { mc::fail("closed loop", "block " + std::to_string(it->second) + " was handed over twice"); }
    ch.log([&] { return "  deliver block " + std::to_string(it->second); });
    h = mc::fnv(&it->second, 4, h);
  };
  struct Late { int due; bool ack; bytes b; };
  std::vector<Late> late;
  int now = 0;
  const auto to_dec = [&](const bytes& b)
  {
    ch.step(); ch.log([&] { return "decoder receives " + ref::show(ref::parse(b)); });
    try { pass_pkt(dec, b); } catch (const ntc::overflow_error&) { mc::fail("closed loop", "the decoder rejects a packet of its encoder"); }
    catch (const ntc::packet_type_error&) { mc::fail("closed loop", "the decoder rejects a packet of its encoder"); }
  };
  const auto to_enc = [&](const bytes& b)
  {
    ch.step(); ch.log([&] { return "encoder receives " + ref::show(ref::parse(b)); });
    try { pass_pkt(enc, b); } catch (const ntc::overflow_error&) { mc::fail("closed loop", "the encoder rejects an ack of its decoder"); }
    catch (const ntc::packet_type_error&) { mc::fail("closed loop", "the encoder rejects an ack of its decoder"); }
  };
  const auto net = [&](bool ack, const bytes& b)
  {
    const int a = ch.deviate(5);
    ch.log([&] { static const char* n[] = {"", "(lost) ", "(late 2) ", "(late 6) ", "(twice) "}; return std::string(n[a]) + (ack ? "<- " : "-> ") + ref::show(ref::parse(b)); });
    if (a == 0 || a == 4) { ack ? to_enc(b) : to_dec(b); }
    if (a == 2 || a == 4) { late.push_back({now + 2, ack, b}); }
    if (a == 3) { late.push_back({now + 6, ack, b}); }
  };
  const auto pump = [&](bool fair)
  {
    auto eo = std::move(esk.out); esk.out.clear();
    for (auto& b : eo) { if (fair) { to_dec(b); } else { net(false, b); } }
    auto ao = std::move(dsk.out); dsk.out.clear();
    for (auto& b : ao) { if (fair) { to_enc(b); } else { net(true, b); } }
  };
  const auto submit = [&]
  {
    const auto i = unsigned(times.size());
    auto b = block(i, block_size(c.w, 0, i));
    idx.emplace(b, int(i)); times.push_back(0);
    pass_data(enc, b);
  };
  for (int r = 0; r < c.rounds; ++r, ++now)
  {
    submit();
    pump(false);
    for (std::size_t k = 0; k < late.size();)
    {
      if (late[k].due <= now) { const auto l = late[k]; late.erase(late.begin() + long(k)); l.ack ? to_enc(l.b) : to_dec(l.b); }
      else { ++k; }
    }
    if (c.ack_every && (r + 1) % c.ack_every == 0) { dec.generate_ack(); pump(false); }
  }
  // From here on the network delivers.
  for (auto& l : late) { l.ack ? to_enc(l.b) : to_dec(l.b); }
  late.clear();
  submit(); pump(true);
  const int budget = 4 * (c.rounds + 2);
  for (int i = 0; i < budget && enc.window() > 0; ++i)
  {
    enc.generate_repair(); pump(true);
    dec.generate_ack(); pump(true);
  }
  if (!c.window)
  {
    if (enc.window() > 0) { mc::fail("closed loop", "after " + std::to_string(budget) + " repairs and acks the encoder still holds " + std::to_string(enc.window()) + " blocks"); }
    for (std::size_t i = 0; i < times.size(); ++i)
    { if (times[i] != 1) { mc::fail("closed loop", "block " + std::to_string(i) + " was never handed over"); } }
  }
  else
  {
    // the last `window` blocks were never evicted
    for (std::size_t i = times.size() > c.window ? times.size() - c.window : 0; i < times.size(); ++i)
    { if (times[i] != 1) { mc::fail("closed loop", "block " + std::to_string(i) + " was still in the window but never handed over"); } }
  }
  ch.outcome(h);
}

// ------------------------------------------------------------------------------------------------
// Known finding: with 32-bit fields the size carried by a repair is cut to 16 bits on the wire. Only a
// wrong size that this explains is accepted, and only for the rebuilt block.
void body_w32_sizes(mc::Chooser& ch)
{
  static const std::size_t sz[] = {4, 60, 400, 1400, 20000, 65532};
  const auto n0 = sz[ch.choose(6)], n1 = sz[ch.choose(6)];
  const int warm = ch.choose(4);       // repairs emitted (and lost) before
  const bool o = ch.choose(2);
  Sink sk; Enc enc(32, PH{&sk}); enc.set_rate(1u << 30);
  const auto b0 = block(0, n0), b1 = block(1, n1);
  pass_data(enc, b0); pass_data(enc, b1);
  for (int i = 0; i <= warm; ++i) { enc.generate_repair(); }
  Sink ds; DataSink got; Dec dec(32, o ? ntc::in_order::yes : ntc::in_order::no, PH{&ds}, DH{&got});
  ch.step(); pass_pkt(dec, sk.out.at(1));
  ch.step(); pass_pkt(dec, sk.out.back());
  ch.log([&] { return "blocks of " + std::to_string(n0) + " and " + std::to_string(n1) + " bytes, the first one lost, repair " + std::to_string(warm) + " received"; });
  const auto& g = ref::gf(32);
  const auto co = g.coeff(std::uint32_t(warm), 0);
  const auto scaled = g.size_term(std::uint32_t(n0), co);
  const bool cut = scaled > 0xffff;
  // what cutting the scaled size to 16 bits gives back
  const std::size_t wrong = std::min<std::size_t>(g.size_term(scaled & 0xffff, g.inv(co)) & 0xffff, std::max(n0, n1));
  bool have1 = false; const bytes* other = nullptr;
  for (auto& b : got.got) { if (b == b1 && !have1) { have1 = true; } else if (!other) { other = &b; } else { mc::fail("content", "more blocks than sent"); } }
  if (!have1) { mc::fail("content", "a received block is not handed over"); }
  if (!other || *other != b0)
  {
    const std::string msg = "w=32, blocks of " + std::to_string(n0) + " and " + std::to_string(n1) + " bytes, source 0 rebuilt from repair " + std::to_string(warm)
      + (other ? " is handed over with " + std::to_string(other->size()) + " bytes" : " is not handed over");
    // the bytes that are there are right, only the size is not
    bool prefix = true;
    if (other) { for (std::size_t i = 0; i < other->size() && i < b0.size(); ++i) { prefix = prefix && (*other)[i] == b0[i]; } }
    const bool explained = cut && other && prefix && other->size() + 3 >= wrong && other->size() <= wrong + 3;
    if (!explained) { std::size_t k = 0; if (other) { while (k < other->size() && k < b0.size() && (*other)[k] == b0[k]) { ++k; } } mc::fail("content", msg + ", first difference at " + std::to_string(k)); }
    mc::known("C01-w32-size", "content", msg);
  }
  ch.outcome(other ? other->size() : 0);
}

// ------------------------------------------------------------------------------------------------
// Many losses at once: systems larger than what short histories reach.
void body_many(mc::Chooser& ch, const EncCfg& e, const MonCfg& m, bool thorough)
{
  static const unsigned few[] = {2, 9, 17, 31, 32, 33, 34, 40};
  const unsigned L = thorough ? 1u + unsigned(ch.choose(40)) : few[ch.choose(8)];
  const unsigned stride = ch.choose(2) ? 1u : 48u / L ? 48u / L : 1u;
  const unsigned off = unsigned(ch.choose(3));
  const int order = ch.choose(4);
  const auto& t = cached(e, std::string(48, 'S') + std::string(44, 'R'));
  std::set<unsigned> lost;
  for (unsigned i = 0; lost.size() < L && i < 200; ++i) { lost.insert((off * 3 + i * stride + (i * stride) / 48) % 48); }
  ch.log([&] { std::string x = "lost"; for (auto i : lost) { x += " " + std::to_string(i); } return x; });
  Monitor mon(t, m, ch);
  const auto sources = [&](unsigned a, unsigned b) { for (unsigned i = a; i < b; ++i) { if (!lost.count(i)) { mon.feed(t.items[i]); } } };
  const unsigned nr = std::min(44u, L + 3);
  const auto repairs = [&](unsigned a, unsigned b) { for (unsigned i = a; i < b; ++i) { mon.feed(t.items[48 + i]); } };
  switch (order)
  {
    case 0: sources(0, 48); repairs(0, nr); break;
    case 1: repairs(0, nr); sources(0, 48); break;
    case 2: sources(0, 24); repairs(0, nr / 2); sources(24, 48); repairs(nr / 2, nr); break;
    case 3: sources(0, 48); for (unsigned i = nr; i-- > 0;) { mon.feed(t.items[48 + i]); } break;
  }
  // then the lost ones, late
  for (auto i : lost) { mon.feed(t.items[i]); }
  mon.finish();
}

// Big windows and long sessions of one encoder and one decoder, judged without the 64-source reference.
struct Session
{
  mc::Chooser& ch; Prop p = props(); int w; bool ordered;
  Sink esk, dsk; DataSink data; Enc enc; Dec dec;
  std::vector<bytes> blocks; std::map<bytes, std::size_t> idx; std::vector<unsigned char> times;
  std::size_t delivered = 0, nsrc = 0, nrep = 0, nacks = 0, esrc = 0, erep = 0, eacks = 0; long last = -1;

  Session(mc::Chooser& c, int w_, bool o)
    : ch(c), w(w_), ordered(o), enc(static_cast<std::uint8_t>(w_), PH{&esk})
    , dec(static_cast<std::uint8_t>(w_), o ? ntc::in_order::yes : ntc::in_order::no, PH{&dsk}, DH{&data})
  {
    dec.set_ack_period(std::chrono::milliseconds{0}); dec.set_ack_nb_packets(128);
    data.hook = [this](const bytes& b)
    {
      const auto it = idx.find(b);
      if (it == idx.end()) { if (p.c01 || p.c06) { mc::fail("integrity", "delivered a block that was never submitted: size " + std::to_string(b.size()) + " bytes " + ref::hex(b)); } return; }
      const auto i = it->second;
      if (times[i] && (p.c02 || p.c06)) { mc::fail("duplicate", "block " + std::to_string(i) + " was handed over twice"); }
      if (ordered && p.c03 && long(i) <= last) { mc::fail("order", "block " + std::to_string(i) + " was handed over after block " + std::to_string(last)); }
      if (!times[i]) { times[i] = 1; ++delivered; }
      last = std::max(last, long(i));
    };
  }
  void submit()
  {
    const auto i = blocks.size();
    bytes b = block(unsigned(i), w == 32 ? 8u : 6u + 2u * unsigned(i % 3));
    b[0] = static_cast<unsigned char>(i); b[1] = static_cast<unsigned char>(i >> 8); b[2] = static_cast<unsigned char>(i >> 16); b[3] = 0x7e;
    idx.emplace(b, i); blocks.push_back(b); times.push_back(0);
    pass_data(enc, b);
  }
  void to_dec(const bytes& b)
  {
    ch.step(); (b[0] == 2 ? nsrc : nrep) += 1;
    try { pass_pkt(dec, b); }
    catch (const mc::Violation&) { throw; }
    catch (const std::exception& x) { if (p.c01 || p.c06 || p.c05) { mc::fail("session", std::string("the decoder rejects a packet of its encoder: ") + x.what()); } }
    data.got.clear();
  }
  bytes ack() { dec.generate_ack(); ++nacks; auto b = dsk.out.empty() ? bytes{} : dsk.out.back(); nacks += dsk.out.size() > 1 ? dsk.out.size() - 1 : 0; dsk.out.clear(); return b; }
  void to_enc(const bytes& b)
  {
    ch.step(); ++eacks;
    try { pass_pkt(enc, b); }
    catch (const mc::Violation&) { throw; }
    catch (const std::exception& x) { if (p.c06 || p.c07) { mc::fail("session", std::string("the encoder rejects an ack of its decoder: ") + x.what()); } }
  }
  void counters()
  {
    if (!p.c23) { return; }
    const auto eq = [](const char* n, std::size_t got, std::size_t exp)
    { if (got != exp) { mc::fail("statistics", std::string(n) + " is " + std::to_string(got) + ", expected " + std::to_string(exp)); } };
    eq("encoder nb_sent_sources", enc.nb_sent_sources(), esrc); eq("encoder nb_sent_repairs", enc.nb_sent_repairs(), erep);
    eq("encoder nb_received_acks", enc.nb_received_acks(), eacks);
    eq("decoder nb_received_sources", dec.nb_received_sources(), nsrc); eq("decoder nb_received_repairs", dec.nb_received_repairs(), nrep);
    eq("decoder nb_sent_acks", dec.nb_sent_acks(), nacks);
  }
};

void body_wide(mc::Chooser& ch, int w, bool ordered)
{
  static const std::size_t ns[] = {200, 254, 255, 256, 257, 258, 300, 511, 513, 640};
  const auto n = ns[ch.choose(10)];
  std::set<std::size_t> lost;
  int k = ch.choose(9);
  if (w == 32 && k == 7) { k = 8; } // see the known finding on 32-bit fields
  switch (k)
  {
    case 0: break;
    case 1: lost = {0}; break;
    case 2: lost = {n - 1}; break;
    case 3: lost = {n / 2}; break;
    case 4: lost = {100, n - 2}; break;
    case 5: lost = {0, 1}; break;
    case 6: lost = {127}; break;
    case 7: for (std::size_t i = 3; i < n; i += 20) { lost.insert(i); } break;
    case 8: lost = {std::min<std::size_t>(255, n - 1)}; break;
  }
  ch.log([&] { std::string x = std::to_string(n) + " blocks, lost"; for (auto i : lost) { x += " " + std::to_string(i); } return x; });
  Session s(ch, w, ordered);
  s.enc.set_rate(1u << 30);
  for (std::size_t i = 0; i < n; ++i)
  {
    s.submit(); ++s.esrc;
    const auto b = s.esk.out.back(); s.esk.out.clear();
    if (lost.count(i)) { continue; }
    s.to_dec(b);
    if (s.p.c04 && !ordered && !s.times[i]) { mc::fail("withheld", "source " + std::to_string(i) + " was received but not handed over during the call"); }
  }
  const auto check_ack = [&](const bytes& a, const std::set<std::size_t>& unknown, std::size_t nb, std::size_t lo)
  {
    if (!s.p.c07 && !s.p.c22) { return; }
    const auto q = ref::parse(a);
    ref::ids_t exp; for (std::size_t i = lo; i < n; ++i) { if (!unknown.count(i)) { exp.push_back(std::uint32_t(i)); } }
    if (s.p.c22) { for (auto i : q.ids) { if (i < lo) { mc::fail("outdated", "an ack names source " + std::to_string(i) + ", the window starts at " + std::to_string(lo)); } } return; }
    if (!q.ok || q.type != 0) { mc::fail("ack", "malformed ack"); }
    if (q.ids != exp) { mc::fail("ack", "names " + std::to_string(q.ids.size()) + " sources, " + std::to_string(exp.size()) + " are held"); }
    if (q.nb != nb) { mc::fail("ack", "reports " + std::to_string(q.nb) + " packets, " + std::to_string(nb) + " were received"); }
  };
  // automatic acks were sent during the reception
  std::size_t since = 0; { std::size_t c = 0; for (auto& b : s.dsk.out) { c += ref::parse(b).nb; } s.nacks += s.dsk.out.size(); since = s.nsrc - c; s.dsk.out.clear(); }
  const auto a1 = s.ack();
  check_ack(a1, lost, since, 0);
  s.counters();
  const bool early = k % 2; // with or without telling the encoder before the repairs
  if (early) { s.to_enc(a1); if (s.p.c06 && s.enc.window() != lost.size()) { mc::fail("closed loop", "after the ack the encoder holds " + std::to_string(s.enc.window()) + " blocks, " + std::to_string(lost.size()) + " are lost"); } }
  // the repairs
  std::vector<std::vector<std::uint32_t>> rows; std::uint32_t rid = 0;
  const auto& g = ref::gf(w);
  std::set<std::size_t> unknown = lost;
  if (!lost.empty())
  {
    for (; rid < 4 * lost.size() + 8 && !unknown.empty(); ++rid)
    {
      s.enc.generate_repair(); ++s.erep;
      const auto b = s.esk.out.back(); s.esk.out.clear();
      std::vector<std::uint32_t> row; for (auto i : lost) { row.push_back(g.coeff(rid, std::uint32_t(i))); }
      rows.push_back(row);
      s.to_dec(b);
      if (ref::rank(g, rows) == int(lost.size()))
      {
        unknown.clear();
        if (s.p.c05 && !ordered) { for (auto i : lost) { if (!s.times[i]) { mc::fail("not rebuilt", "source " + std::to_string(i) + " can be rebuilt but was not"); } } }
        if (s.p.c05 && s.dec.nb_missing_sources()) { mc::fail("not rebuilt", "sources are still missing"); }
      }
    }
    if (unknown.empty())
    {
      if ((s.p.c04 || s.p.c06 || s.p.c05) && s.delivered != n) { mc::fail(s.p.c04 ? "withheld" : "not rebuilt", std::to_string(n - s.delivered) + " blocks are not handed over"); }
      if (s.p.c22 && s.dec.nb_missing_sources()) { mc::fail("missing count", "sources are reported missing, none is"); }
      if (s.p.c23 && s.dec.nb_decoded() != lost.size()) { mc::fail("statistics", "nb_decoded is " + std::to_string(s.dec.nb_decoded()) + ", " + std::to_string(lost.size()) + " blocks were rebuilt"); }
    }
  }
  if (unknown.empty())
  {
    s.nacks += s.dsk.out.size(); s.dsk.out.clear();
    const auto lo = lost.empty() || !early ? 0 : *lost.begin();
    const auto a2 = s.ack();
    const auto q = ref::parse(a2);
    check_ack(a2, {}, q.nb, lo);
    s.to_enc(a2);
    if (!early || lost.empty()) { if (s.p.c06 && s.enc.window()) { mc::fail("closed loop", "everything is acked, the encoder still holds " + std::to_string(s.enc.window()) + " blocks"); } }
    s.counters();
  }
  ch.outcome(s.delivered * 31 + rid);
}

// ------------------------------------------------------------------------------------------------
// Two lost blocks far apart, everything in between received and acked. Known finding: a distance of more
// than 65535 identifiers does not fit the wire format, and wraps.
void body_gap(mc::Chooser& ch, int w, bool ordered)
{
  static const std::size_t gs[] = {1, 2, 255, 256, 1000, 32767, 32768, 65534, 65535, 65536, 65537};
  Session s(ch, w, ordered);
  const auto g = gs[ch.choose(s.p.c01 ? 11 : 9)];
  s.dec.set_ack_nb_packets(65535);
  s.enc.set_rate(1u << 30);
  for (std::size_t i = 0; i <= g; ++i)
  {
    s.submit();
    const auto b = s.esk.out.back(); s.esk.out.clear();
    if (i != 0 && i != g) { s.to_dec(b); }
  }
  s.dsk.out.clear();
  s.to_enc(s.ack());
  if (s.enc.window() != 2) { ch.outcome(1); return; } // judged elsewhere
  ch.log([&] { return "blocks 0 and " + std::to_string(g) + " lost, those between received and acked"; });
  const bool wraps = g > 65535;
  if (wraps)
  {
    std::string bad;
    s.data.hook = [&](const bytes& b) { if (!s.idx.count(b) && bad.empty()) { bad = "delivered a block that was never submitted: size " + std::to_string(b.size()); } };
    s.enc.generate_repair(); const auto r = s.esk.out.back(); s.esk.out.clear();
    const auto q = ref::parse(r);
    const bool wrapped = q.ids.empty() || q.ids.front() != 0 || q.ids.back() != g;
    ch.step(); try { pass_pkt(s.dec, r); } catch (const std::exception&) {} // refusing it is fine
    if (!bad.empty())
    {
      const auto msg = bad + " (repair of sources 0 and " + std::to_string(g) + ")";
      if (!wrapped) { mc::fail("integrity", msg); }
      mc::known("C01-gap16", "integrity", msg);
    }
  }
  else
  {
    const auto& f = ref::gf(w);
    std::vector<std::vector<std::uint32_t>> rows;
    for (std::uint32_t r = 0; r < 12 && ref::rank(f, rows) < 2; ++r)
    {
      s.enc.generate_repair(); const auto b = s.esk.out.back(); s.esk.out.clear(); s.to_dec(b);
      rows.push_back({f.coeff(r, 0), f.coeff(r, std::uint32_t(g))});
    }
    if (s.p.c05 && ref::rank(f, rows) == 2 && s.delivered != g + 1)
    { mc::fail("not rebuilt", std::to_string(g + 1 - s.delivered) + " blocks are not handed over, the repairs received determine them"); }
  }
  ch.outcome(g);
}

// Counters beyond 16 bits.
void body_counters(mc::Chooser& ch, int w, bool ordered)
{
  Session s(ch, w, ordered);
  const int kind = ch.choose(4);
  s.enc.set_rate(1); s.enc.set_window_size(1);
  s.submit(); ++s.esrc; ++s.erep;
  const auto src = s.esk.out.at(0), rep = s.esk.out.at(1); s.esk.out.clear();
  std::size_t decoded = 0;
  for (int i = 0; i < 66000; ++i)
  {
    switch (kind)
    {
      case 0: s.to_dec(src); break;
      case 1: s.to_dec(rep); if (!i) { ++decoded; } break;
      case 2: s.ack(); break;
      case 3: // lost and rebuilt
      {
        if (i) { s.submit(); ++s.esrc; ++s.erep; s.to_dec(s.esk.out.at(1)); s.esk.out.clear(); } else { s.to_dec(rep); }
        ++decoded; s.blocks[std::size_t(i)].clear(); break;
      }
    }
    s.nacks += s.dsk.out.size(); s.dsk.out.clear();
    if (i < 300 || i % 1024 < 2 || i > 65500)
    {
      s.counters();
      if (s.p.c23 && s.dec.nb_decoded() != decoded) { mc::fail("statistics", "nb_decoded is " + std::to_string(s.dec.nb_decoded()) + ", " + std::to_string(decoded) + " blocks were rebuilt"); }
    }
  }
  ch.outcome(s.delivered);
}

// Unlimited window, not one ack for a long time, then repairs: nothing was given up.
void body_patience(mc::Chooser& ch, int w, bool ordered)
{
  static const std::size_t ns[] = {300, 5000, 66000};
  const auto n = ns[ch.choose(3)];
  Session s(ch, w, ordered);
  s.enc.set_rate(1u << 30);
  std::set<std::size_t> lost;
  switch (ch.choose(4)) { case 0: lost = {0}; break; case 1: lost = {0, n - 2}; break; case 2: lost = {1, 255}; break; case 3: lost = {n / 2}; break; }
  for (std::size_t i = 0; i < n; ++i) { s.submit(); if (!lost.count(i)) { s.to_dec(s.esk.out.back()); } s.esk.out.clear(); s.dsk.out.clear(); }
  for (int r = 0; r < 6 && s.delivered < n; ++r) { s.enc.generate_repair(); s.to_dec(s.esk.out.back()); s.esk.out.clear(); }
  if (s.delivered != n) { mc::fail("closed loop", std::to_string(n - s.delivered) + " blocks are never handed over"); }
  s.dsk.out.clear();
  const auto a = s.ack(); s.to_enc(a);
  if (s.enc.window() > 1) { mc::fail("closed loop", "everything was acked, the encoder holds " + std::to_string(s.enc.window()) + " blocks"); }
  ch.outcome(n);
}

// Two losses at every kind of distance. Known finding: the coefficients of two sources whose identifiers
// are congruent modulo 2^w-1 are equal in every repair, so no number of repairs tells them apart.
void body_distance(mc::Chooser& ch, int w, bool ordered)
{
  const std::size_t P = (std::size_t(1) << w) - 1;
  const std::size_t ds[] = {1, P - 1, P, P + 1, 2, P / 3, P / 2, 2 * P - 1, 2 * P, 2 * P + 1};
  const auto d = ds[ch.choose(w == 16 ? 4 : 10)];
  const std::size_t first = w != 16 && ch.choose(2) ? 3 : 0;
  const int acked = ch.choose(2); // whether the encoder knows what arrived
  const auto n = first + d + 3;
  Session s(ch, w, ordered);
  s.enc.set_rate(1u << 30);
  for (std::size_t i = 0; i < n; ++i) { s.submit(); if (i != first && i != first + d) { s.to_dec(s.esk.out.back()); } s.esk.out.clear(); s.dsk.out.clear(); }
  if (acked && d <= 65535) { s.to_enc(s.ack()); }
  ch.log([&] { return "blocks " + std::to_string(first) + " and " + std::to_string(first + d) + " lost"; });
  const int R = n > 1000 ? 4 : 40;
  for (int r = 0; r < R && s.delivered < n; ++r) { s.enc.generate_repair(); s.to_dec(s.esk.out.back()); s.esk.out.clear(); s.dsk.out.clear(); }
  if (s.delivered != n)
  {
    const auto msg = "w=" + std::to_string(w) + ", blocks " + std::to_string(first) + " and " + std::to_string(first + d) + " lost: " + std::to_string(n - s.delivered) + " blocks are not handed over after " + std::to_string(R) + " repairs";
    if (d % P == 0) { mc::known("C06-congruent", "closed loop", msg); } else { mc::fail("closed loop", msg); }
  }
  ch.outcome(d);
}

// Held blocks far apart: everything between them is lost. Same limit of the wire format.
void body_ack_gap(mc::Chooser& ch, int w, bool ordered)
{
  static const std::size_t gs[] = {1, 2, 255, 256, 1000, 32767, 32768, 65534, 65535, 65536, 65540};
  Session s(ch, w, ordered);
  const auto g = gs[ch.choose(11)];
  const std::size_t first = ch.choose(2) ? 5 : 0;
  s.enc.set_rate(1u << 30);
  for (std::size_t i = 0; i <= first + g; ++i)
  {
    s.submit();
    const auto b = s.esk.out.back(); s.esk.out.clear();
    if (i == first || i == first + g) { s.to_dec(b); }
  }
  const auto a = s.ack();
  const auto q = ref::parse(a);
  ch.log([&] { return "only blocks " + std::to_string(first) + " and " + std::to_string(first + g) + " received"; });
  const ref::ids_t exp{std::uint32_t(first), std::uint32_t(first + g)}, wrapped{std::uint32_t(first), std::uint32_t(first + g % 65536)};
  if (!q.ok || q.type != 0) { mc::fail("ack", "malformed ack"); }
  if (q.ids != exp)
  {
    std::string msg = "sources " + std::to_string(exp[0]) + " and " + std::to_string(exp[1]) + " are held, the ack names";
    for (auto i : q.ids) { msg += " " + std::to_string(i); }
    if (g > 65535 && (q.ids == wrapped || q.ids == ref::ids_t{exp[0]})) { mc::known("C07-gap16", "ack", msg); }
    else { mc::fail("ack", msg); }
  }
  if (q.nb != 2) { mc::fail("ack", "reports " + std::to_string(q.nb) + " packets, 2 were received"); }
  ch.outcome(g);
}

// One session of more than 2^16 blocks, with a small window and regular losses.
void body_marathon(mc::Chooser& ch, int w, bool ordered, std::size_t n)
{
  static const std::size_t rates[] = {2, 5}, gaps[] = {7, 61};
  const int v = mc::options().thorough ? ch.choose(4) : 2;
  const auto rate = rates[v / 2], gap = gaps[v % 2];
  const bool acks = ch.choose(2);
  ch.log([&] { return std::to_string(n) + " blocks, rate " + std::to_string(rate) + ", every " + std::to_string(gap) + "th source lost" + (acks ? ", acks" : ", window of 8"); });
  Session s(ch, w, ordered);
  s.enc.set_rate(rate);
  if (!acks) { s.enc.set_window_size(8); }
  for (std::size_t i = 0; i < n; ++i)
  {
    s.submit(); ++s.esrc;
    for (auto& b : s.esk.out)
    {
      const auto k = ref::parse(b);
      if (b[0] == 1) { ++s.erep; }
      if (b[0] == 2 && k.id != i && (s.p.c01 || s.p.c06)) { mc::fail("session", "source " + std::to_string(i) + " is sent with identifier " + std::to_string(k.id)); }
      if (b[0] == 2 && i % gap == gap - 1) { continue; }
      s.to_dec(b);
      if (b[0] == 2 && s.p.c04 && !ordered && !s.times[i]) { mc::fail("withheld", "source " + std::to_string(i) + " was received but not handed over during the call"); }
    }
    s.esk.out.clear();
    s.nacks += s.dsk.out.size();
    for (auto& a : s.dsk.out) { if (acks) { s.to_enc(a); } }
    s.dsk.out.clear();
    if (acks && i % 16 == 15) { s.to_enc(s.ack()); }
    // every loss is covered by the next repair (rates below the gap, window larger than the rate)
    if (i % rate == rate - 1 && i > 2 * gap)
    {
      const auto settled = i - gap; // covered by a repair sent after it
      if ((s.p.c05 || s.p.c06) && !s.times[settled]) { mc::fail("not rebuilt", "block " + std::to_string(settled) + " is not handed over although a repair covered it"); }
      if (s.p.c04 && ordered && s.delivered != i + 1) { mc::fail("withheld", std::to_string(i + 1 - s.delivered) + " blocks are not handed over"); }
      if (s.p.c22 && s.dec.nb_missing_sources()) { mc::fail("missing count", "sources are reported missing, none is"); }
    }
    if (i % 1024 == 0 || i + 1 == n) { s.counters(); }
  }
  ch.outcome(s.delivered);
}

// Many sources without any repair, then old ones again, late ones, and repairs over all of them.
void body_flood(mc::Chooser& ch, int w, bool ordered)
{
  static const std::size_t ns[] = {300, 1030, 4100, 16500, 66000};
  const auto n = ns[ch.choose(5)];
  const int what = ch.choose(4); const bool by_repair = ch.choose(2);
  std::set<std::size_t> lost;
  switch (what) { case 0: break; case 1: lost = {0}; break; case 2: lost = {n / 2}; break; case 3: lost = {3, n - 5}; break; }
  if (lost.empty() && by_repair) { return; }
  if (n > 5000 && !mc::options().thorough && what != 3) { return; }
  ch.log([&] { std::string x = std::to_string(n) + " blocks, lost"; for (auto i : lost) { x += " " + std::to_string(i); } return x + (by_repair ? ", rebuilt" : ", received late"); });
  Session s(ch, w, ordered);
  s.enc.set_rate(1u << 30);
  std::map<std::size_t, bytes> kept;
  const std::set<std::size_t> again{0, 1, 2, 3, 4, n / 4, n / 2 - 1, n / 2, n / 2 + 1, n - 1030 < n ? n - 1030 : 5, n - 258, n - 5, n - 2, n - 1};
  for (std::size_t i = 0; i < n; ++i)
  {
    s.submit();
    const auto b = s.esk.out.back(); s.esk.out.clear();
    if (again.count(i)) { kept[i] = b; }
    if (lost.count(i)) { continue; }
    s.to_dec(b);
    if (s.p.c04 && !ordered && !s.times[i]) { mc::fail("withheld", "source " + std::to_string(i) + " was received but not handed over during the call"); }
  }
  s.dsk.out.clear();
  const auto repeat = [&] { for (auto& k : kept) { if (!lost.count(k.first)) { s.to_dec(k.second); } } s.dsk.out.clear(); };
  repeat();
  const auto expect = [&](const char* when)
  {
    std::size_t e = 0; for (std::size_t i = 0; i < n; ++i) { if (lost.count(i)) { if (ordered) { break; } continue; } ++e; }
    if ((s.p.c04 || s.p.c05) && s.delivered != e) { mc::fail("withheld", std::string(when) + ": " + std::to_string(s.delivered) + " blocks were handed over, expected " + std::to_string(e)); }
  };
  expect("before the lost ones");
  if (by_repair)
  {
    const auto& f = ref::gf(w);
    std::vector<std::vector<std::uint32_t>> rows;
    for (std::uint32_t r = 0; r < 12 && ref::rank(f, rows) < int(lost.size()); ++r)
    {
      s.enc.generate_repair(); const auto b = s.esk.out.back(); s.esk.out.clear(); s.to_dec(b);
      std::vector<std::uint32_t> row; for (auto i : lost) { row.push_back(f.coeff(r, std::uint32_t(i))); } rows.push_back(row);
      repeat();
    }
    if (ref::rank(f, rows) == int(lost.size())) { lost.clear(); expect("after the repairs"); }
  }
  else { const auto l = lost; lost.clear(); for (auto i : l) { s.to_dec(kept.at(i)); } expect("after the lost ones"); }
  if (lost.empty()) { for (auto& k : kept) { s.to_dec(k.second); } expect("after duplicates"); }
  s.dsk.out.clear();
  if (s.p.c07)
  {
    const auto q = ref::parse(s.ack());
    std::size_t e = 0; bool ok = q.ok && q.type == 0; for (std::size_t i = 0; i < n; ++i) { if (lost.count(i)) { continue; } ok = ok && e < q.ids.size() && q.ids[e] == i; ++e; }
    if (!ok || q.ids.size() != e) { mc::fail("ack", "names " + std::to_string(q.ids.size()) + " sources, " + std::to_string(e) + " are held"); }
  }
  ch.outcome(n * 8 + std::size_t(what) * 2 + by_repair);
}

// Systems of many unknowns.
void body_system(mc::Chooser& ch, int w, bool ordered)
{
  static const std::size_t l4[] = {5, 8, 12, 14}, l8[] = {63, 64, 65, 127, 128, 129, 200, 250, 254}, l16[] = {64, 65, 129, 255, 256, 257, 300};
  static const std::size_t q8[] = {64, 129, 254}, q16[] = {65, 257};
  const bool T = mc::options().thorough;
  const auto L = w == 4 ? l4[ch.choose(4)] : w == 8 ? (T ? l8[ch.choose(9)] : q8[ch.choose(3)]) : T ? l16[ch.choose(7)] : q16[ch.choose(2)];
  const bool spread = w == 16 && (T || L < 200) && ch.choose(2), late = ch.choose(2);
  const std::size_t n = spread ? 2 * L + 3 : L + 1;
  std::vector<std::size_t> lost; for (std::size_t i = 0; i < L; ++i) { lost.push_back(spread ? 2 * i + 1 : i); }
  ch.log([&] { return std::to_string(n) + " blocks, " + std::to_string(L) + " of them lost"; });
  Session s(ch, w, ordered);
  s.enc.set_rate(1u << 30);
  std::vector<bytes> srcs;
  for (std::size_t i = 0; i < n; ++i) { s.submit(); srcs.push_back(s.esk.out.back()); s.esk.out.clear(); }
  const auto is_lost = [&](std::size_t i) { return std::binary_search(lost.begin(), lost.end(), i); };
  if (!late) { for (std::size_t i = 0; i < n; ++i) { if (!is_lost(i)) { s.to_dec(srcs[i]); } } }
  // incremental elimination
  const auto& f = ref::gf(w);
  std::vector<std::vector<std::uint32_t>> rows; std::vector<std::size_t> pivots;
  for (std::uint32_t r = 0; r < 2 * L + 40 && rows.size() < L; ++r)
  {
    s.enc.generate_repair(); const auto b = s.esk.out.back(); s.esk.out.clear();
    std::vector<std::uint32_t> v; for (auto i : lost) { v.push_back(f.coeff(r, std::uint32_t(i))); }
    for (std::size_t k = 0; k < rows.size(); ++k)
    {
      const auto c = v[pivots[k]];
      if (c) { for (std::size_t j = 0; j < L; ++j) { if (rows[k][j]) { v[j] ^= f.mul(c, rows[k][j]); } } }
    }
    std::size_t pv = 0; while (pv < L && !v[pv]) { ++pv; }
    if (pv < L)
    {
      const auto i = f.inv(v[pv]); for (auto& x : v) { if (x) { x = f.mul(x, i); } }
      rows.push_back(v); pivots.push_back(pv);
    }
    if (late && rows.size() == L) { for (std::size_t i = 0; i < n; ++i) { if (!is_lost(i)) { s.to_dec(srcs[i]); } } }
    s.to_dec(b);
  }
  if (rows.size() == L)
  {
    if ((s.p.c04 || s.p.c05) && s.delivered != n) { mc::fail("not rebuilt", std::to_string(n - s.delivered) + " of " + std::to_string(L) + " blocks lost are not handed over, the repairs received determine them"); }
    if (s.p.c05 && s.dec.nb_missing_sources()) { mc::fail("not rebuilt", "sources are still missing"); }
  }
  for (auto& b : srcs) { s.to_dec(b); }
  if ((s.p.c04 || s.p.c05) && s.delivered != n) { mc::fail("withheld", "after all sources " + std::to_string(n - s.delivered) + " blocks are not handed over"); }
  ch.outcome(L * 2 + rows.size());
}

// ------------------------------------------------------------------------------------------------
std::vector<mc::Job> jobs()
{
  warm_fields();
  const bool T = mc::options().thorough;
  const auto p = P();
  std::vector<mc::Job> js;
  const auto add = [&](const std::string& n, std::function<void(mc::Chooser&)> f, int bound, int shards, int depth)
  { mc::Job j; j.name = n; j.body = std::move(f); j.bound = bound; j.shards = shards; j.shard_depth = depth; js.push_back(j); };
  const int INF = 1 << 30;

  // big windows, long sessions
  const auto big = [&]
  {
    for (bool o : {false, true})
    {
      if (p == "C03" && !o) { continue; }
      const std::string on = o ? " ordered" : " unordered";
      for (int w : {8, 16, 4, 32}) { add("wide w" + std::to_string(w) + on, [w, o](mc::Chooser& ch) { body_wide(ch, w, o); }, INF, 6, 2); }
      if (p != "C06" && p != "C22" && p != "C23")
      {
        add("flood" + on, [o](mc::Chooser& ch) { body_flood(ch, 8, o); }, INF, 20, 2);
        if (p != "C07") { for (int w : {16, 8, 4}) { add("system w" + std::to_string(w) + on, [w, o](mc::Chooser& ch) { body_system(ch, w, o); }, INF, w == 4 ? 2 : w == 16 ? 3 * (T ? 4 : 1) : 14, w == 4 ? 1 : 2); } }
      }
      add("marathon" + on, [o, T](mc::Chooser& ch) { body_marathon(ch, 8, o, T ? 140000 : 66000); }, INF, 4, 2);
    }
  };
  if (p == "C06")
  {
    big();
    for (int w : {8, 16, 4, 32})
      for (bool o : {false, true})
        for (int v = 0; v < 5; ++v)
        {
          LoopCfg c{w, o, 3, 0, true, 6, 2};
          switch (v)
          {
            case 0: break;
            case 1: c.rate = 2; c.window = 3; c.rounds = 8; break;
            case 2: c.rate = 2; c.systematic = false; c.rounds = 5; break;
            case 3: c.rate = 5; c.rounds = 10; c.ack_every = 3; break;
            case 4: c.rate = 1; c.window = 1; c.rounds = 5; break;
          }
          if (w == 4 && c.rounds > 6) { c.rounds = 6; }
          if (T) { c.rounds += w == 4 ? 2 : 4; }
          const int b = (w == 8 || w == 16) && v < 3 ? 3 : 2;
          add("loop w" + std::to_string(w) + (o ? " ordered" : " unordered") + " v" + std::to_string(v) + " b" + std::to_string(T ? b + 1 : b)
             , [c](mc::Chooser& ch) { body_loop(ch, c); }, T ? b + 1 : b, 8, 6);
        }
    for (int w : {4, 8, 16}) { for (bool o : {false, true}) { add("distance w" + std::to_string(w) + (o ? " ordered" : " unordered") + " (known finding)", [w, o](mc::Chooser& ch) { body_distance(ch, w, o); }, INF, w == 16 ? 8 : 4, w == 16 ? 2 : 1); } }
    for (bool o : {false, true}) { add(std::string("patience") + (o ? " ordered" : " unordered"), [o](mc::Chooser& ch) { body_patience(ch, 8, o); }, INF, 12, 2); }
    return js;
  }

  if (p == "C23") { for (bool o : {false, true}) { add(std::string("counters") + (o ? " ordered" : " unordered"), [o](mc::Chooser& ch) { body_counters(ch, 8, o); }, INF, 4, 1); } }
  if (p == "C01") { add("w32 sizes (known finding)", body_w32_sizes, INF, 1, 0); }
  if (p == "C07")
  {
    for (bool o : {false, true})
    { add(std::string("ack gap") + (o ? " ordered" : " unordered") + " (known finding)", [o](mc::Chooser& ch) { body_ack_gap(ch, 8, o); }, INF, 11, 1); }
  }
  if (p == "C01" || p == "C05")
  {
    for (bool o : {false, true})
    { add(std::string("gap") + (o ? " ordered" : " unordered") + (p == "C01" ? " (known finding)" : ""), [o](mc::Chooser& ch) { body_gap(ch, 8, o); }, INF, 11, 1); }
  }

  big();
  std::vector<bool> orders{false, true};
  if (p == "C03") { orders = {true}; }
  for (bool o : orders)
  {
    MonCfg m; m.ordered = o;
    const std::string on = o ? " ordered" : " unordered";
    for (int w : {8, 4, 16, 32})
    {
      std::vector<MonCfg> ms{m};
      if (p == "C07" || p == "C23")
      {
        ms.clear();
        for (int v = 0; v < (w <= 8 ? 6 : 4); ++v)
        {
          MonCfg x = m;
          if (v == 0) { x.ack_every = 1; }
          if (v == 1) { x.ack_every = 2; }
          if (v == 2) { x.ack_nb = 2; x.ack_every = 3; }
          if (v == 3) { x.ack_nb = 1; x.ack_every = 1; }
          if (v == 4) { x.ack_every = 1 << 20; } // only at the end
          if (v == 5) { x.ack_every = 4; }
          ms.push_back(x);
        }
      }
      for (std::size_t mi = 0; mi < ms.size(); ++mi)
      {
        const auto mm = ms[mi];
        const std::string nm = "w" + std::to_string(w) + on + (ms.size() > 1 ? " acks" + std::to_string(mi) : "");
        const bool lite = mi > 0 || w == 32 || w == 16; // less depth on the other fields
        const int less = !T && mi > 0 ? 1 : 0;
        EncCfg e; e.w = w; e.sizes = 0;
        {
          // every short script, every order
          const int len = (T ? 7 : 6) - (lite ? 1 : 0) - less;
          add("perm " + nm + " len" + std::to_string(len), [e, mm, len](mc::Chooser& ch) { body_perm(ch, e, mm, "SRab", len, 16); }, INF, 16, 4);
        }
        {
          // more packets, fewer kinds of scripts
          const int len = (T ? 8 : 7) - (lite || (!T && ms.size() > 1) ? 1 : 0) - less;
          EncCfg e2 = e; e2.sizes = 1;
          add("perm2 " + nm + " len" + std::to_string(len), [e2, mm, len](mc::Chooser& ch) { body_perm(ch, e2, mm, "SR", len, 16); }, INF, 16, 5);
        }
        if (mi == 0)
        {
          EncCfg e3 = e; e3.systematic = false; e3.sizes = 2; e3.rate = 2;
          add("nonsys " + nm, [e3, mm](mc::Chooser& ch) { body_perm(ch, e3, mm, "Sab", 5, 8); }, INF, 8, 4);
          EncCfg e4 = e; e4.window = 2; e4.rate = 2; e4.sizes = 4;
          add("win2 " + nm, [e4, mm](mc::Chooser& ch) { body_perm(ch, e4, mm, "SRA", 5, 8); }, INF, 8, 4);
        }
        if (mi == 0 && p != "C07" && w != 4)
        {
          EncCfg em = e; em.sizes = w == 32 ? 3 : 0;
          add("many " + nm, [em, mm, T](mc::Chooser& ch) { body_many(ch, em, mm, T); }, INF, w == 8 ? 6 : 3, 2);
        }
        if (w == 8 || w == 4 || T)
        {
          const int n = (T ? 6 : 5) - less;
          add("seq " + nm + " SSRR", [e, mm, n](mc::Chooser& ch) { body_seq(ch, e, mm, "SSRR", n + 1); }, INF, 8, 3);
          add("seq " + nm + " SSRSRaR", [e, mm, n](mc::Chooser& ch) { body_seq(ch, e, mm, "SSRSRaR", n); }, INF, 8, 3);
          add("seq " + nm + " SRSaRSbR", [e, mm, n](mc::Chooser& ch) { body_seq(ch, e, mm, "SRSSRAR", n); }, INF, 8, 3);
        }
        {
          const int b = (T ? 3 : 2) - (!T && ms.size() > 1 && (mi > 0 || w != 8) ? 1 : 0);
          EncCfg l1 = e; l1.rate = 3; l1.sizes = w == 32 ? 3 : 0;
          const std::string s16(w == 32 ? 12 : 20, 'S');
          add("long " + nm + " rate3 b" + std::to_string(b), [l1, mm, s16](mc::Chooser& ch) { body_long(ch, l1, mm, s16); }, b, T ? 16 : 4, 8);
          EncCfg l2 = e; l2.rate = 2; l2.window = 4; l2.sizes = w == 32 ? 3 : 4;
          add("long " + nm + " rate2 win4 b" + std::to_string(b), [l2, mm, s16](mc::Chooser& ch) { body_long(ch, l2, mm, s16); }, b, T ? 16 : 4, 8);
          EncCfg l3 = e; l3.rate = 4; l3.sizes = w == 32 ? 3 : 1;
          add("long " + nm + " rate4 acks b" + std::to_string(b), [l3, mm](mc::Chooser& ch) { body_long(ch, l3, mm, "SSSSASSSSASSbSSaSSA"); }, b, T ? 16 : 4, 8);
        }
        if (mi == 0 && w != 32)
        {
          for (std::uint32_t base : {250u, 65530u, 0xffffff00u})
          {
            add("base " + nm + " " + std::to_string(base), [w, mm, base](mc::Chooser& ch) { body_base(ch, w, mm, base, base + 3, 4, 3); }, INF, 8, 3);
          }
          if (w == 8 || w == 16)
          {
            EncCfg e6 = e; e6.sizes = 5;
            add("big " + nm, [e6, mm](mc::Chooser& ch) { body_seq(ch, e6, mm, "SSRR", 4); }, INF, 2, 2);
          }
        }
      }
    }
  }
  return js;
}

} // anon

int main(int argc, char** argv) { return mc::main_(argc, argv, jobs); }
