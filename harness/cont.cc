// packet and data as byte containers (C19).
#include <memory>
#include "netcode/c/data.h"
#include "netcode/c/packet.h"
#include "world.hh"

void warm_fields();

namespace {

std::string S(std::uint64_t v) { return std::to_string(v); }

// Reference container: -1 is a byte of unspecified value.
using RefV = std::vector<int>;
void grow(RefV& v, std::size_t n, int fill) { v.resize(n, fill); }

const std::size_t kSizes[] = {0, 1, 2, 6, 7, 8, 9, 15, 16, 17, 25, 33, 64};
const int kNS = 13;
char val(unsigned k) { return static_cast<char>(k * 37 + 5); }
bytes content(unsigned seed, std::size_t n) { bytes b(n); for (std::size_t i = 0; i < n; ++i) { b[i] = static_cast<unsigned char>(val(unsigned(i) + seed * 11)); } return b; }
RefV refof(const bytes& b) { return RefV(b.begin(), b.end()); }

template <typename C> void check_bytes(const C& c, const RefV& v, const char* who)
{
  const auto bad = [&](const char* what) { mc::fail("container", std::string(who) + ": " + what + " (expected " + S(v.size()) + " bytes)"); };
  if (c.size() != v.size()) { mc::fail("container", std::string(who) + ": size() is " + S(c.size()) + ", expected " + S(v.size())); }
  if (c.empty() != v.empty()) { bad("empty() is wrong"); }
  if (std::size_t(std::distance(c.begin(), c.end())) != v.size()) { bad("the iterator range has the wrong length"); }
  if (c.capacity() < c.size()) { bad("the capacity is smaller than the size"); }
  auto it = c.begin();
  for (std::size_t i = 0; i < v.size(); ++i, ++it)
  {
    if (v[i] < 0) { continue; }
    if (static_cast<unsigned char>(c[i]) != v[i]) { bad(("byte " + S(i) + " is wrong through operator[]").c_str()); }
    if (static_cast<unsigned char>(c.data()[i]) != v[i]) { bad("a byte is wrong through data()"); }
    if (static_cast<unsigned char>(*it) != v[i]) { bad("a byte is wrong through an iterator"); }
  }
}

void check(const ntc::packet& p, const RefV& v, const char* who)
{
  check_bytes(p, v, who);
  if (reinterpret_cast<std::uintptr_t>(p.data() + 7) % 16) { mc::fail("alignment", std::string(who) + ": the payload of a source or repair is not on a 16-byte boundary"); }
  if (p.symbol() != p.data() + 7) { mc::fail("alignment", std::string(who) + ": symbol() is not behind the header"); }
  if (std::size_t(std::distance(p.cbegin(), p.cend())) != v.size()) { mc::fail("container", std::string(who) + ": cbegin/cend"); }
}
void check(const ntc::data& p, const RefV& v, const char* who)
{
  check_bytes(p, v, who);
  if (!p.empty() && reinterpret_cast<std::uintptr_t>(p.data()) % 16) { mc::fail("alignment", std::string(who) + ": a data buffer is not on a 16-byte boundary"); }
}

struct Obj { std::unique_ptr<ntc::packet> p; RefV v; bool moved = false; };

void construct(mc::Chooser& ch, Obj& o, unsigned seed, int nsizes)
{
  const int k = ch.choose(6);
  const auto n = k == 0 ? 0 : kSizes[ch.choose(nsizes)];
  const auto b = content(seed, n);
  const auto* q = reinterpret_cast<const char*>(b.data());
  switch (k)
  {
    case 0: o.p.reset(new ntc::packet()); o.v.clear(); break;
    case 1: o.p.reset(new ntc::packet(n)); o.v.assign(n, -1); break;
    case 2: o.p.reset(new ntc::packet(n, val(seed))); o.v.assign(n, static_cast<unsigned char>(val(seed))); break;
    case 3: o.p.reset(new ntc::packet(q, q + n)); o.v = refof(b); break;
    case 4: o.p.reset(new ntc::packet{'a', 'b', 'c'}); o.v = {'a', 'b', 'c'}; break;
    case 5: { std::vector<char> l(b.begin(), b.end()); o.p.reset(new ntc::packet(l.begin(), l.end())); o.v = refof(b); break; }
  }
  o.moved = false;
}

void body_packet(mc::Chooser& ch, int len, int nsizes)
{
  Obj o[2];
  construct(ch, o[0], 1, nsizes);
  o[1].p.reset(new ntc::packet{'x', 'y'}); o[1].v = {'x', 'y'};
  check(*o[0].p, o[0].v, "constructed packet");
  std::uint64_t h = o[0].v.size();
  for (int i = 0; i < len; ++i)
  {
    auto& a = o[0]; auto& b = o[1];
    ch.step();
    const int op = ch.choose(19);
    h = h * 31 + std::uint64_t(op);
    const auto n = [&] { return kSizes[ch.choose(nsizes)]; };
    ch.log([&] { return "operation " + S(unsigned(op)); });
    // a moved-from packet can only be assigned, resized, cleared or destroyed
    const bool needs_live = op >= 7 && op <= 13;
    if (a.moved && needs_live) { continue; }
    switch (op)
    {
      case 0: { const auto k = n(); a.p->resize(k); if (a.moved) { a.v.assign(k, -1); } else { grow(a.v, k, -1); } a.moved = false; break; }
      case 1: { const auto k = n(); a.p->resize(k, 'z'); if (a.moved) { a.v.assign(k, 'z'); } else { grow(a.v, k, 'z'); } a.moved = false; break; }
      case 2: { const auto k = n(); a.p->assign(k, 'q'); a.v.assign(k, 'q'); a.moved = false; break; }
      case 3: { const auto c = content(unsigned(i) + 3, n()); const auto* q = reinterpret_cast<const char*>(c.data()); a.p->assign(q, q + c.size()); a.v = refof(c); a.moved = false; break; }
      case 4: a.p->assign({'1', '2', '3', '4'}); a.v = {'1', '2', '3', '4'}; a.moved = false; break;
      case 5: a.p->clear(); a.v.clear(); a.moved = false; break;
      case 6: if (!b.moved) { *a.p = *b.p; a.v = b.v; a.moved = false; } break;
      case 7: a.p->push_back(val(unsigned(i))); a.v.push_back(static_cast<unsigned char>(val(unsigned(i)))); break;
      case 8: { const auto k = n(); a.p->reserve(k); if (a.p->capacity() < k) { mc::fail("container", "reserve(" + S(k) + ") left a capacity of " + S(a.p->capacity())); } break; }
      case 9: a.p->shrink_to_fit(); break;
      case 10: *b.p = *a.p; b.v = a.v; b.moved = false; break;
      case 11: *b.p = std::move(*a.p); b.v = a.v; b.moved = false; a.moved = true; break;
      case 12: b.p.reset(new ntc::packet(*a.p)); b.v = a.v; b.moved = false; break;
      case 13: b.p.reset(new ntc::packet(std::move(*a.p))); b.v = a.v; b.moved = false; a.moved = true; break;
      case 14: if (!a.moved && !a.v.empty()) { const auto k = a.v.size() - 1; (*a.p)[k] = 'w'; a.v[k] = 'w'; a.p->data()[0] = 'v'; a.v[0] = 'v'; } break;
      case 15: if (!a.moved) { int k = 0; for (auto& c : *a.p) { c = static_cast<char>(k); a.v[std::size_t(k)] = k; ++k; } } break;
      case 16: { std::swap(*a.p, *b.p); std::swap(a.v, b.v); std::swap(a.moved, b.moved); break; }
      case 17: { auto& self = *a.p; *a.p = self; break; }
      case 18: if (!a.moved) { for (int k = 0; k < 9; ++k) { a.p->push_back(static_cast<char>(k)); a.v.push_back(k); } } break;
    }
    for (int k = 0; k < 2; ++k) { if (!o[k].moved) { check(*o[k].p, o[k].v, k ? "second packet" : "packet"); } }
  }
  ch.outcome(h);
}

// The buffer type of data.
void body_data(mc::Chooser& ch, int len, int nsizes)
{
  ntc::data a, b{'x', 'y'}; RefV va, vb{'x', 'y'};
  switch (ch.choose(3))
  {
    case 0: break;
    case 1: { const auto n = kSizes[ch.choose(nsizes)]; a = ntc::data(n); va.assign(n, -1); break; }
    case 2: { const auto c = content(2, kSizes[ch.choose(nsizes)]); a = mkdata(c); va = refof(c); break; }
  }
  std::uint64_t h = va.size();
  for (int i = 0; i < len; ++i)
  {
    ch.step();
    const int op = ch.choose(9);
    h = h * 31 + std::uint64_t(op);
    switch (op)
    {
      case 0: { const auto k = kSizes[ch.choose(nsizes)]; a.resize(k); grow(va, k, -1); break; }
      case 1: { const auto k = kSizes[ch.choose(nsizes)]; a.resize(k, 'z'); grow(va, k, 'z'); break; }
      case 2: a.push_back('p'); va.push_back('p'); break;
      case 3: a.clear(); va.clear(); break;
      case 4: b = a; vb = va; break;
      case 5: b = std::move(a); vb = va; a = ntc::data(); va.clear(); break;
      case 6: std::swap(a, b); std::swap(va, vb); break;
      case 7: a.reserve(kSizes[ch.choose(nsizes)]); break;
      case 8: { const char s[] = {'k', 'l', 'm'}; a.insert(a.end(), s, s + 3); for (char c : s) { va.push_back(c); } break; }
    }
    check(a, va, "data"); check(b, vb, "second data");
  }
  ch.outcome(h);
}

// C objects.
template <typename T, typename New, typename From, typename Del, typename Buf, typename Size, typename Res>
void body_c(mc::Chooser& ch, int len, const char* who, bool is_packet, New mk, From from, Del del, Buf buf, Size size, Res res)
{
  static const std::uint16_t sz[] = {0, 1, 7, 9, 16, 40, 255, 1500, 65535};
  T* p = nullptr; RefV v;
  const int k = ch.choose(2);
  const auto n0 = sz[ch.choose(9)];
  const auto c0 = content(4, n0);
  if (k == 0) { p = mk(n0); v.assign(n0, -1); } else { p = from(reinterpret_cast<const char*>(c0.data() ? c0.data() : reinterpret_cast<const unsigned char*>("")), n0); v = refof(c0); }
  if (!p) { mc::fail("container", std::string(who) + " could not be created"); }
  std::uint64_t h = n0;
  const auto chk = [&]
  {
    if (size(p) != v.size()) { mc::fail("container", std::string(who) + ": size " + S(size(p)) + ", expected " + S(v.size())); }
    const char* q = buf(p);
    for (std::size_t i = 0; i < v.size(); ++i) { if (v[i] >= 0 && static_cast<unsigned char>(q[i]) != v[i]) { mc::fail("container", std::string(who) + ": byte " + S(i) + " is wrong"); } }
    if (!v.empty() && reinterpret_cast<std::uintptr_t>(q + (is_packet ? 7 : 0)) % 16) { mc::fail("alignment", std::string(who) + ": the payload is not on a 16-byte boundary"); }
  };
  chk();
  for (int i = 0; i < len; ++i)
  {
    ch.step();
    const int op = ch.choose(10);
    h = h * 31 + std::uint64_t(op);
    if (op < 9)
    {
      ntc_error e; e.type = ntc_unknown_error; e.message = nullptr;
      res(p, sz[op], &e);
      if (e.type != ntc_no_error) { mc::fail("container", std::string(who) + ": resizing reports an error"); }
      grow(v, sz[op], -1);
    }
    else if (!v.empty())
    {
      // fill what is there, through the buffer
      char* q = buf(p);
      for (std::size_t j = 0; j < v.size(); ++j) { q[j] = val(unsigned(j + unsigned(i))); v[j] = static_cast<unsigned char>(q[j]); }
    }
    chk();
  }
  del(p);
  ch.outcome(h);
}

// Blocks handed to the application start on a 16-byte boundary, received or rebuilt.
void body_blocks(mc::Chooser& ch, int w, int len)
{
  EncCfg c; c.w = w; c.sizes = ch.choose(3);
  std::string s = "S";
  while (int(s.size()) < len) { s += ch.choose(2) ? 'R' : 'S'; }
  const bool ordered = ch.choose(2);
  const auto t = run_script(c, s);
  Sink ak; DataSink dt;
  Dec dec(static_cast<std::uint8_t>(w), ordered ? ntc::in_order::yes : ntc::in_order::no, PH{&ak}, DH{&dt});
  std::size_t n = 0;
  const bool by_resize = ch.choose(2);
  std::vector<int> left;
  for (std::size_t i = 0; i < t.items.size(); ++i) { left.push_back(int(i)); }
  while (!left.empty())
  {
    const auto i = std::size_t(ch.choose(int(left.size())));
    const auto& b = t.items[std::size_t(left[i])].raw;
    left.erase(left.begin() + long(i));
    ch.step();
    ntc::packet p;
    if (by_resize) { p.resize(1500); std::copy(b.begin(), b.end(), p.begin()); p.resize(b.size()); }
    else { for (auto x : b) { p.push_back(static_cast<char>(x)); } }
    dec(std::move(p));
  }
  n = dt.got.size();
  if (dt.misaligned) { mc::fail("alignment", S(dt.misaligned) + " of " + S(n) + " blocks were handed over off a 16-byte boundary"); }
  for (auto& b : dt.got) { if (!t.by_content.count(b)) { mc::fail("container", "a block handed over is not one that was sent"); } }
  ch.outcome(n);
}

std::vector<mc::Job> jobs()
{
  warm_fields();
  const bool T = mc::options().thorough;
  std::vector<mc::Job> js;
  const auto add = [&](const std::string& n, std::function<void(mc::Chooser&)> f, int shards, int depth)
  { mc::Job j; j.name = n; j.body = std::move(f); j.shards = shards; j.shard_depth = depth; js.push_back(j); };
  add("packet, all sizes", [T](mc::Chooser& ch) { body_packet(ch, T ? 3 : 2, kNS); }, 16, 3);
  add("packet, few sizes", [T](mc::Chooser& ch) { body_packet(ch, T ? 4 : 3, T ? 5 : 4); }, 32, 4);
  add("data, all sizes", [T](mc::Chooser& ch) { body_data(ch, T ? 4 : 3, kNS); }, 16, 3);
  const auto cdata = [](mc::Chooser& ch, int l) { body_c<ntc_data_t>(ch, l, "C data", false, ntc_new_data, ntc_new_data_from, ntc_delete_data, ntc_data_buffer, ntc_data_get_size, ntc_data_resize); };
  const auto cpkt = [](mc::Chooser& ch, int l) { body_c<ntc_packet_t>(ch, l, "C packet", true, ntc_new_packet, ntc_new_packet_from, ntc_delete_packet, ntc_packet_buffer, ntc_packet_get_size, ntc_packet_resize); };
  const int l = T ? 4 : 3;
  add("C data", [cdata, l](mc::Chooser& ch) { cdata(ch, l); }, 8, 3);
  add("C packet", [cpkt, l](mc::Chooser& ch) { cpkt(ch, l); }, 8, 3);
  for (int w : {8, 4, 16, 32}) { const int k = T ? 6 : 5; add("blocks w" + S(unsigned(w)), [w, k](mc::Chooser& ch) { body_blocks(ch, w, k); }, 16, 5); }
  return js;
}

} // anon

int main(int argc, char** argv) { return mc::main_(argc, argv, jobs); }
