// Independent reference: Galois field arithmetic, wire format, encoder contents and decoder
// obligations. Shares no code with the library.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "mc.hh"

namespace ref {

using bytes = std::vector<unsigned char>;
using ids_t = std::vector<std::uint32_t>;

// ------------------------------------------------------------------------------------------------
struct GF
{
  int w;
  std::uint32_t poly;
  std::vector<std::uint32_t> lg, ex;

  explicit GF(int w_) : w(w_)
  {
    poly = w == 4 ? 0x13 : w == 8 ? 0x11d : w == 16 ? 0x1100b : 0x400007; // w=32: without x^32
    if (w <= 16)
    {
      const std::uint32_t n = 1u << w;
      lg.assign(n, 0); ex.assign(2 * n, 0);
      std::uint32_t x = 1;
      for (std::uint32_t i = 0; i < n - 1; ++i) { ex[i] = x; ex[i + n - 1] = x; lg[x] = i; x = slow(x, 2); }
    }
  }
  std::uint32_t slow(std::uint32_t a, std::uint32_t b) const
  {
    std::uint32_t r = 0;
    for (int i = 0; i < w; ++i)
    {
      if ((b >> i) & 1) { r ^= a; }
      const bool hi = (a >> (w - 1)) & 1;
      a = w == 32 ? (a << 1) : ((a << 1) & ((1u << w) - 1));
      if (hi) { a ^= (w == 32 ? poly : (poly & ((1u << w) - 1))); }
    }
    return r;
  }
  std::uint32_t mul(std::uint32_t a, std::uint32_t b) const
  {
    if (!a || !b) { return 0; }
    if (w <= 16) { return ex[lg[a] + lg[b]]; }
    return slow(a, b);
  }
  std::uint32_t inv(std::uint32_t a) const
  {
    if (w <= 16) { return ex[((1u << w) - 1 - lg[a]) % ((1u << w) - 1)]; }
    std::uint32_t r = 1, b = a; // a^(2^32-2)
    for (int i = 1; i < 32; ++i) { b = slow(b, b); r = slow(r, b); }
    return r;
  }
  // dst[0..n) ^= c * src[0..n)
  void addmul(const unsigned char* s, unsigned char* d, std::size_t n, std::uint32_t c) const
  {
    if (w == 4)
    {
      for (std::size_t i = 0; i < n; ++i) { d[i] ^= static_cast<unsigned char>(mul(s[i] & 15, c) | (mul(s[i] >> 4, c) << 4)); }
    }
    else if (w == 8) { for (std::size_t i = 0; i < n; ++i) { d[i] ^= static_cast<unsigned char>(mul(s[i], c)); } }
    else
    {
      const std::size_t k = std::size_t(w) / 8;
      for (std::size_t i = 0; i + k <= n; i += k)
      {
        std::uint32_t v = 0;
        for (std::size_t j = 0; j < k; ++j) { v |= std::uint32_t(s[i + j]) << (8 * j); }
        v = mul(v, c);
        for (std::size_t j = 0; j < k; ++j) { d[i + j] ^= static_cast<unsigned char>(v >> (8 * j)); }
      }
    }
  }
  // contribution of a size
  std::uint32_t size_term(std::uint32_t size, std::uint32_t c) const
  {
    if (w <= 8)
    {
      unsigned char s[2] = {static_cast<unsigned char>(size), static_cast<unsigned char>(size >> 8)}, d[2] = {0, 0};
      addmul(s, d, 2, c);
      return d[0] | (d[1] << 8);
    }
    return mul(size, c);
  }
  std::uint32_t coeff(std::uint32_t r, std::uint32_t s) const
  {
    const std::uint32_t v = ((r + 1) + (s + 1)) * (r + 1);
    if (w == 32) { return v ? v : 1; }
    return v % ((1u << w) - 1) + 1;
  }
};

inline const GF& gf(int w)
{
  static const GF g4(4), g8(8), g16(16), g32(32);
  return w == 4 ? g4 : w == 8 ? g8 : w == 16 ? g16 : g32;
}

// Rank of a row set (rows are modified).
inline int rank(const GF& g, std::vector<std::vector<std::uint32_t>> m)
{
  int r = 0;
  const int rows = int(m.size()), cols = rows ? int(m[0].size()) : 0;
  for (int c = 0; c < cols && r < rows; ++c)
  {
    int p = r;
    while (p < rows && !m[p][c]) { ++p; }
    if (p == rows) { continue; }
    std::swap(m[p], m[r]);
    const auto iv = g.inv(m[r][c]);
    for (int k = c; k < cols; ++k) { m[r][k] = g.mul(m[r][k], iv); }
    for (int q = 0; q < rows; ++q)
    {
      if (q != r && m[q][c])
      {
        const auto f = m[q][c];
        for (int k = c; k < cols; ++k) { m[q][k] ^= g.mul(f, m[r][k]); }
      }
    }
    ++r;
  }
  return r;
}

// ------------------------------------------------------------------------------------------------
// Wire format.
struct Pkt
{
  int type = -1;           // 0 ack, 1 repair, 2 source
  std::uint32_t id = 0;
  bytes sym;
  ids_t ids;
  std::uint32_t encsz = 0;
  std::uint32_t nb = 0;
  std::size_t consumed = 0;
  bool ok = false;
};

struct Rd
{
  const unsigned char* p; std::size_t n, i = 0; bool bad = false;
  std::uint32_t u(int k)
  {
    std::uint32_t v = 0;
    if (i + k > n) { bad = true; i = n; return 0; }
    while (k--) { v = (v << 8) | p[i++]; }
    return v;
  }
};

inline ids_t rd_ids(Rd& r)
{
  ids_t o;
  const auto n = r.u(2);
  if (r.bad || n == 0) { return o; }
  std::uint32_t cur = r.u(4);
  o.push_back(cur);
  for (std::uint32_t k = 1; k < n && !r.bad; ++k)
  {
    const auto run = r.u(1), gap = r.u(2);
    for (std::uint32_t j = 0; j < run; ++j) { cur += gap; o.push_back(cur); }
  }
  return o;
}

inline Pkt parse(const bytes& b)
{
  Pkt k; Rd r{b.data(), b.size()};
  k.type = int(r.u(1));
  if (r.bad) { return k; }
  if (k.type == 0) { k.nb = r.u(2); k.ids = rd_ids(r); }
  else if (k.type == 1 || k.type == 2)
  {
    k.id = r.u(4);
    const auto n = r.u(2);
    if (r.bad || r.i + n > b.size()) { return k; }
    k.sym.assign(b.begin() + long(r.i), b.begin() + long(r.i + n)); r.i += n;
    if (k.type == 1) { k.ids = rd_ids(r); k.encsz = r.u(2); }
  }
  else { return k; }
  k.ok = !r.bad; k.consumed = r.i;
  return k;
}

inline void wr(bytes& b, std::uint32_t v, int k) { while (k--) { b.push_back(static_cast<unsigned char>(v >> (8 * k))); } }

inline void wr_ids(bytes& b, const ids_t& ids)
{
  if (ids.empty()) { wr(b, 0, 2); return; }
  std::vector<std::pair<int, std::uint32_t>> runs;
  for (std::size_t i = 1; i < ids.size(); ++i)
  {
    const auto d = ids[i] - ids[i - 1];
    if (!runs.empty() && runs.back().second == d && runs.back().first < 255) { ++runs.back().first; }
    else { runs.emplace_back(1, d); }
  }
  wr(b, std::uint32_t(runs.size() + 1), 2); wr(b, ids[0], 4);
  for (auto& p : runs) { wr(b, std::uint32_t(p.first), 1); wr(b, p.second, 2); }
}

inline bytes mk_source(std::uint32_t id, const bytes& sym)
{ bytes b; wr(b, 2, 1); wr(b, id, 4); wr(b, std::uint32_t(sym.size()), 2); b.insert(b.end(), sym.begin(), sym.end()); return b; }

inline bytes mk_ack(std::uint32_t nb, const ids_t& ids) { bytes b; wr(b, 0, 1); wr(b, nb, 2); wr_ids(b, ids); return b; }

inline bytes mk_repair_raw(std::uint32_t id, const bytes& sym, const ids_t& ids, std::uint32_t encsz)
{
  bytes b; wr(b, 1, 1); wr(b, id, 4); wr(b, std::uint32_t(sym.size()), 2); b.insert(b.end(), sym.begin(), sym.end());
  wr_ids(b, ids); wr(b, encsz, 2); return b;
}

// Contents of a repair over (id, payload) pairs.
inline void combine(const GF& g, std::uint32_t rid, const std::vector<std::pair<std::uint32_t, const bytes*>>& win
                   , bytes& sym, std::uint32_t& encsz)
{
  std::size_t n = 0;
  for (auto& p : win) { n = std::max(n, p.second->size()); }
  sym.assign(n, 0); encsz = 0;
  for (auto& p : win)
  {
    const auto c = g.coeff(rid, p.first);
    g.addmul(p.second->data(), sym.data(), p.second->size(), c);
    encsz ^= g.size_term(std::uint32_t(p.second->size()), c);
  }
}

// ------------------------------------------------------------------------------------------------
// What a decoder must and may know. Source ids are base + [0, 64).
struct DecSpec
{
  const GF& g;
  std::uint32_t base;
  std::uint64_t known = 0;      // must be known
  std::uint64_t received = 0;   // arrived as source packets (any time)
  std::uint64_t named = 0;      // named by accepted repairs
  bool has_lo = false;
  std::uint32_t lo = 0;         // announced window (absolute id)
  struct R { std::uint32_t id; std::uint64_t ids; };
  std::vector<R> live, all;     // all: every distinct repair ever received

  DecSpec(int w, std::uint32_t b) : g(gf(w)), base(b) {}

  std::uint64_t below(std::uint32_t x) const // ids < x
  {
    if (x <= base) { return 0; }
    const auto k = x - base;
    return k >= 64 ? ~0ull : (1ull << k) - 1;
  }
  std::uint64_t window() const { return ~(has_lo ? below(lo) : 0); }

  void source(std::uint32_t id)
  {
    const auto bit = 1ull << (id - base);
    received |= bit;
    if (has_lo && id < lo) { return; }
    known |= bit;
    close();
  }
  void repair(std::uint32_t rid, const ids_t& ids)
  {
    std::uint64_t m = 0;
    for (auto i : ids) { m |= 1ull << (i - base); }
    bool seen = false;
    for (auto& r : all) { seen = seen || r.id == rid; }
    if (!seen) { all.push_back({rid, m}); }
    if (has_lo && ids.front() < lo) { return; } // outdated: nothing is owed
    has_lo = true; lo = ids.front();
    named |= m;
    live.erase(std::remove_if(live.begin(), live.end(), [&](const R& r)
      { return r.id == rid || ((r.ids & ~known) & below(lo)); }), live.end());
    live.push_back({rid, m});
    close();
  }
  std::vector<std::vector<std::uint32_t>> rows(const std::vector<R>& rs, std::uint64_t unk) const
  {
    std::vector<std::vector<std::uint32_t>> m;
    for (auto& r : rs)
    {
      std::vector<std::uint32_t> row;
      for (int b = 0; b < 64; ++b)
      {
        if ((unk >> b) & 1) { row.push_back(((r.ids >> b) & 1) ? g.coeff(r.id, base + std::uint32_t(b)) : 0); }
      }
      m.push_back(row);
    }
    return m;
  }
  void close()
  {
    while (true)
    {
      live.erase(std::remove_if(live.begin(), live.end(), [&](const R& r) { return !(r.ids & ~known); }), live.end());
      bool again = false;
      std::uint64_t u = 0;
      for (auto& r : live)
      {
        const auto k = r.ids & ~known;
        if (__builtin_popcountll(k) == 1) { known |= k; again = true; break; }
        u |= k;
      }
      if (again) { continue; }
      const int n = __builtin_popcountll(u);
      if (n == 0 || int(live.size()) < n) { return; }
      if (rank(g, rows(live, u)) == n) { known |= u; live.clear(); }
      return;
    }
  }
  // Everything determined by the packets received so far (upper bound on what can be known).
  std::uint64_t determined() const
  {
    std::uint64_t k = received | known;
    std::uint64_t u = 0;
    for (auto& r : all) { u |= r.ids & ~k; }
    if (!u) { return k; }
    auto m = rows(all, u);
    const int base_rank = rank(g, m);
    int col = 0;
    const int cols = __builtin_popcountll(u);
    for (int b = 0; b < 64; ++b)
    {
      if (!((u >> b) & 1)) { continue; }
      // determined iff the unit vector is in the row space
      auto e = m; std::vector<std::uint32_t> unit(std::size_t(cols), 0); unit[std::size_t(col)] = 1; e.push_back(unit);
      if (rank(g, e) == base_rank) { k |= 1ull << b; }
      ++col;
    }
    return k;
  }
};

inline std::string hex(const bytes& b, std::size_t max = 24)
{
  std::string s; char t[4];
  for (std::size_t i = 0; i < b.size() && i < max; ++i) { std::snprintf(t, sizeof t, "%02x", b[i]); s += t; }
  if (b.size() > max) { s += "..."; }
  return s;
}

inline std::string show(const Pkt& k)
{
  std::string s = k.type == 0 ? "ack" : k.type == 1 ? "repair" : k.type == 2 ? "source" : "?";
  if (k.type == 1 || k.type == 2) { s += " " + std::to_string(k.id); }
  if (k.type != 2)
  {
    s += " {";
    for (auto i : k.ids) { s += std::to_string(i) + " "; }
    s += "}";
  }
  if (k.type == 0) { s += " nb=" + std::to_string(k.nb); }
  return s;
}

inline std::string showmask(std::uint64_t m)
{
  std::string s = "{";
  for (int b = 0; b < 64; ++b) { if ((m >> b) & 1) { s += std::to_string(b) + " "; } }
  return s + "}";
}

} // namespace ref
