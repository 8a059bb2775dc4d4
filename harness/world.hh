// Real encoder/decoder endpoints with recording handlers, and encoder-made traffic.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "netcode/decoder.hh"
#include "netcode/encoder.hh"
#include "ref.hh"

using ref::bytes;

// ------------------------------------------------------------------------------------------------
struct Sink
{
  std::vector<bytes> out;
  bytes cur;
  bool open = false;           // bytes written since the last end of packet
  std::uint64_t empty_ends = 0; // end of packet without any byte
};

struct PH
{
  Sink* s;
  std::function<void(const bytes&)>* hook = nullptr;
  void operator()(const char* p, std::size_t n)
  {
    s->cur.insert(s->cur.end(), reinterpret_cast<const unsigned char*>(p), reinterpret_cast<const unsigned char*>(p) + n);
    s->open = true;
  }
  void operator()()
  {
    if (!s->open) { ++s->empty_ends; }
    s->out.push_back(s->cur); s->cur.clear(); s->open = false;
    if (hook && *hook) { const auto b = s->out.back(); (*hook)(b); }
  }
};

struct DataSink
{
  std::vector<bytes> got;
  std::function<void(const bytes&)> hook;
  std::uint64_t misaligned = 0;
};

struct DH
{
  DataSink* s;
  void operator()(const char* p, std::size_t n)
  {
    if (reinterpret_cast<std::uintptr_t>(p) % 16) { ++s->misaligned; }
    // every byte handed over must be readable (the sanitizer objects otherwise)
    bytes b(reinterpret_cast<const unsigned char*>(p), reinterpret_cast<const unsigned char*>(p) + n);
    if (s->hook) { s->hook(b); }
    s->got.push_back(std::move(b));
  }
};

using Enc = ntc::encoder<PH>;
using Dec = ntc::decoder<PH, DH>;

inline ntc::packet mkpkt(const bytes& b)
{
  const auto* p = reinterpret_cast<const char*>(b.data());
  return ntc::packet(p, p + b.size());
}
inline ntc::data mkdata(const bytes& b)
{
  const auto* p = reinterpret_cast<const char*>(b.data());
  return ntc::data(p, p + b.size());
}
// Both ways of giving a packet or data to a component, fixed by the bytes.
template <typename X> std::size_t pass_pkt(X& x, const bytes& b)
{
  auto p = mkpkt(b);
  if (b.empty() || ((b.size() ^ b[b.size() / 2]) & 1)) { return x(std::move(p)); }
  const auto& c = p;
  return x(c);
}
template <typename X> void pass_data(X& x, const bytes& b)
{
  auto d = mkdata(b);
  if (b.empty() || ((b.size() ^ b[b.size() / 2]) & 1)) { x(std::move(d)); return; }
  const auto& c = d;
  x(c);
}

// ------------------------------------------------------------------------------------------------
// Blocks: the first byte identifies the block; some end with zeros (padding must be told from data).
inline bytes block(unsigned tag, std::size_t n)
{
  bytes b(n);
  for (std::size_t k = 0; k < n; ++k)
  { b[k] = static_cast<unsigned char>((tag + 1) * 37 + k * 101 + (k >> 3) * 7 + 1); }
  if (n) { b[0] = static_cast<unsigned char>(tag + 1); }
  if (tag % 3 == 1 && n > 1) { b[n - 1] = 0; }
  if (tag % 3 == 2 && n > 3) { b[1] = 0; b[2] = 0; }
  return b;
}

// Block sizes: pattern p, source number i, for field w (multiples of the symbol size).
inline std::size_t block_size(int w, int p, unsigned i)
{
  static const unsigned mixed[] = {5, 16, 1, 33, 17, 2, 15, 32};
  static const unsigned up[] = {1, 2, 3, 9, 16, 18, 31, 40};
  static const unsigned wide[] = {300, 1, 255, 256, 257, 16, 511, 4};
  unsigned s = 4;
  switch (p)
  {
    case 0: s = mixed[i % 8]; break;
    case 1: s = up[i % 8]; break;
    case 2: s = up[7 - i % 8]; break;
    case 3: s = 3; break;
    case 4: s = wide[i % 8]; break;
    case 5: { static const unsigned big[] = {65535, 1, 4096, 65534, 17, 40000}; s = big[i % 6]; break; }
  }
  if (w == 16) { s += s % 2; if (s > 65534) { s = 65534; } }
  if (w == 32) { s = (s + 3) / 4 * 4; if (s > 60) { s = 60 - (s % 3) * 4; } } // see the known finding on 32-bit fields
  return s;
}

// ------------------------------------------------------------------------------------------------
// What an encoder emitted for a script.
struct Traffic
{
  int w = 8;
  std::uint32_t base = 0;
  std::vector<bytes> blocks;              // by source number
  struct Item { bytes raw; ref::Pkt k; };
  std::vector<Item> items;
  std::map<bytes, unsigned> by_content;
  void index() { by_content.clear(); for (unsigned i = 0; i < blocks.size(); ++i) { by_content.emplace(blocks[i], i); } }
};

struct EncCfg
{
  int w = 8;
  std::size_t rate = 1u << 30;
  std::size_t window = 0;   // 0: unlimited
  bool systematic = true;
  int sizes = 0;
};

// Script: S submit, R forced repair, a/b/c acknowledge oldest / second oldest / newest held source,
// A acknowledge all but the newest.
inline Traffic run_script(const EncCfg& c, const std::string& script)
{
  Traffic t; t.w = c.w;
  Sink sk;
  Enc enc(static_cast<std::uint8_t>(c.w), PH{&sk});
  enc.set_rate(c.rate);
  if (c.window) { enc.set_window_size(c.window); }
  enc.set_code_type(c.systematic ? ntc::systematic::yes : ntc::systematic::no);
  std::vector<std::uint32_t> held;
  for (char op : script)
  {
    switch (op)
    {
      case 'S':
      {
        const auto i = unsigned(t.blocks.size());
        t.blocks.push_back(block(i, block_size(c.w, c.sizes, i)));
        if (c.window && held.size() >= c.window) { held.erase(held.begin()); }
        held.push_back(i);
        pass_data(enc, t.blocks.back());
        break;
      }
      case 'R': enc.generate_repair(); break;
      case 'a': if (held.size() > 0) { pass_pkt(enc, ref::mk_ack(1, {held[0]})); held.erase(held.begin()); } break;
      case 'b': if (held.size() > 1) { pass_pkt(enc, ref::mk_ack(1, {held[1]})); held.erase(held.begin() + 1); } break;
      case 'c': if (held.size() > 0) { pass_pkt(enc, ref::mk_ack(1, {held.back()})); held.pop_back(); } break;
      case 'A': if (held.size() > 1) { pass_pkt(enc, ref::mk_ack(1, ref::ids_t(held.begin(), held.end() - 1))); held = {held.back()}; } break;
    }
  }
  for (auto& o : sk.out) { t.items.push_back({o, ref::parse(o)}); }
  t.index();
  return t;
}

// A script is meaningful when every R and ack finds something to work on.
inline int held_after(const std::string& script, std::size_t window = 0)
{
  int h = 0;
  for (char op : script)
  {
    switch (op)
    {
      case 'S': if (!(window && std::size_t(h) >= window)) { ++h; } break;
      case 'R': if (h < 1) { return -1; } break;
      case 'a': case 'c': if (h < 1) { return -1; } --h; break;
      case 'b': if (h < 2) { return -1; } --h; break;
      case 'A': if (h < 2) { return -1; } h = 1; break;
    }
  }
  return h;
}
