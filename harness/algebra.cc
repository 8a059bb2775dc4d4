// Matrix inversion (C20) and field arithmetic (C21) against independent arithmetic.
#include <memory>
#include "netcode/detail/galois_field.hh"
#include "netcode/detail/invert_matrix.hh"
#include "netcode/detail/square_matrix.hh"
#include "ref.hh"

void warm_fields();

namespace {

using ntc::detail::galois_field;
using ntc::detail::square_matrix;
using U = std::uint32_t;
using Mat = std::vector<std::vector<U>>; // [column][row]
std::string S(std::uint64_t v) { return std::to_string(v); }

galois_field& field(int w)
{
  static std::unique_ptr<galois_field> f[33];
  if (!f[w]) { f[w].reset(new galois_field(static_cast<std::uint8_t>(w))); }
  return *f[w];
}

// --- C20 ----------------------------------------------------------------------------------------
std::string show(const Mat& m)
{
  std::string s;
  for (auto& c : m) { s += "["; for (auto v : c) { s += S(v) + " "; } s += "] "; }
  return s;
}

void check_invert(int w, const Mat& m, square_matrix& a, square_matrix& inv)
{
  const auto n = m.size();
  const auto& g = ref::gf(w);
  a.resize(n); inv.resize(n);
  for (std::size_t c = 0; c < n; ++c) { for (std::size_t r = 0; r < n; ++r) { a(r, c) = m[c][r]; } }
  const auto res = ntc::detail::invert(field(w), a, inv);
  const auto rk = ref::rank(g, m);
  if (a.dimension() != n || inv.dimension() != n) { mc::fail("dimension", "the dimension changed"); }
  if (rk == int(n))
  {
    if (res) { mc::fail("invertible", "an invertible matrix is reported as singular: w" + S(unsigned(w)) + " columns " + show(m)); }
    // inv * m = m * inv = identity
    for (std::size_t r = 0; r < n; ++r)
    {
      for (std::size_t c = 0; c < n; ++c)
      {
        U x = 0, y = 0;
        for (std::size_t k = 0; k < n; ++k) { x ^= g.mul(m[k][r], inv(k, c)); y ^= g.mul(inv(r, k), m[c][k]); }
        if (x != (r == c) || y != (r == c)) { mc::fail("inverse", "the result is not the inverse: w" + S(unsigned(w)) + " columns " + show(m)); }
      }
    }
  }
  else
  {
    if (!res) { mc::fail("singular", "a singular matrix is reported as inverted: w" + S(unsigned(w)) + " columns " + show(m)); }
    if (*res >= n) { mc::fail("column", "the reported column " + S(*res) + " does not exist"); }
    Mat q = m; q.erase(q.begin() + long(*res));
    if ((q.empty() ? 0 : ref::rank(g, q)) != rk)
    { mc::fail("column", "the reported column " + S(*res) + " is not redundant: w" + S(unsigned(w)) + " columns " + show(m)); }
  }
}

void one(mc::Chooser& ch, int w, const Mat& m)
{
  ch.step();
  ch.log([&] { return "w" + S(unsigned(w)) + " columns " + show(m); });
  square_matrix a(m.size()), inv(m.size());
  check_invert(w, m, a, inv);
}

// Every matrix of dimension n over the alphabet.
void body_all(mc::Chooser& ch, int w, int n, const std::vector<U>& al)
{
  Mat m(static_cast<std::size_t>(n), std::vector<U>(static_cast<std::size_t>(n)));
  for (int c = 0; c < n; ++c) { for (int r = 0; r < n; ++r) { m[std::size_t(c)][std::size_t(r)] = al[std::size_t(ch.choose(int(al.size())))]; } }
  one(ch, w, m);
  ch.outcome(unsigned(ref::rank(ref::gf(w), m)));
}

// Every pattern of zeros in a matrix of coefficients.
void body_pattern(mc::Chooser& ch, int w, int n)
{
  const auto& g = ref::gf(w);
  const U r0 = U(ch.choose(3)) * 5, s0 = U(ch.choose(2)) * 250;
  Mat m(static_cast<std::size_t>(n), std::vector<U>(static_cast<std::size_t>(n)));
  for (int c = 0; c < n; ++c)
  {
    const int mask = ch.choose(1 << n);
    for (int r = 0; r < n; ++r) { m[std::size_t(c)][std::size_t(r)] = (mask >> r) & 1 ? g.coeff(r0 + U(c), s0 + U(r)) : 0; }
  }
  one(ch, w, m);
  ch.outcome(unsigned(ref::rank(g, m)));
}

// Coefficient matrices of every choice of n repairs and n sources among `of` identifiers.
void body_ids(mc::Chooser& ch, int w, int n, int of)
{
  const auto& g = ref::gf(w);
  const auto subset = [&] { ref::ids_t v; U lo = 0; for (int i = 0; i < n; ++i) { const int left = of - int(lo) - (n - i); const U x = lo + U(ch.choose(left + 1)); v.push_back(x); lo = x + 1; } return v; };
  const auto rs = subset(), ss = subset();
  static const U base[] = {0, 250, 65530, 0xfffffff0u};
  const U b = base[ch.choose(4)];
  Mat m;
  for (auto r : rs) { m.emplace_back(); for (auto s : ss) { m.back().push_back(g.coeff(b + r, b + s)); } }
  one(ch, w, m);
  ch.outcome(unsigned(ref::rank(g, m)));
}

// Larger matrices: a generic one, then up to two columns replaced by combinations of others, zeroed,
// copied, or rows zeroed or copied.
void body_dependent(mc::Chooser& ch, int w, int n)
{
  const auto& g = ref::gf(w);
  Mat m;
  const int kind = ch.choose(4);
  for (int c = 0; c < n; ++c)
  {
    m.emplace_back();
    for (int r = 0; r < n; ++r)
    {
      U v = 0;
      switch (kind)
      {
        case 0: v = g.coeff(U(c), U(r)); break;                       // coefficients
        case 1: v = r <= c ? g.coeff(U(c) + 3, U(r)) : 0; break;      // triangular
        case 2: v = r >= c ? g.coeff(U(c) + 7, U(r)) : 0; break;
        case 3: v = (r + 3) % n == c ? 1 + U(c) % 7 : 0; break;       // permutation
      }
      m.back().push_back(v);
    }
  }
  for (int round = 0; round < 2; ++round)
  {
    const int op = ch.choose(5);
    if (op == 0) { continue; }
    const auto i = std::size_t(ch.choose(n)), j = std::size_t(ch.choose(n));
    for (int r = 0; r < n; ++r)
    {
      const auto k = std::size_t(r);
      switch (op)
      {
        case 1: m[i][k] = m[j][k] ^ g.mul(3, m[(j + 1) % std::size_t(n)][k]); break; // combination
        case 2: m[i][k] = g.mul(5, m[j][k]); break;                                  // multiple of a column
        case 3: m[k][i] = 0; break;                                                  // null row
        case 4: m[k][i] = m[k][j]; break;                                            // equal rows
      }
    }
  }
  one(ch, w, m);
  ch.outcome(unsigned(ref::rank(g, m)));
}

// Dimensions beyond the initial capacity of the decoder's matrices: one dependency at boundary positions.
void body_big(mc::Chooser& ch, int w, int n)
{
  const auto& g = ref::gf(w);
  Mat m;
  const int kind = ch.choose(3);
  for (int c = 0; c < n; ++c)
  {
    m.emplace_back();
    for (int r = 0; r < n; ++r)
    { m.back().push_back(kind == 0 ? g.coeff(U(c) * 3, U(r)) : kind == 1 ? (r <= c ? g.coeff(U(c) + 3, U(r)) : 0) : ((r + 3) % n == c ? 1 + U(c) % 7 : 0)); }
  }
  const int op = ch.choose(5);
  if (op)
  {
    const std::size_t pos[] = {0, 1, std::size_t(n) / 2, std::size_t(n) - 1};
    const auto i = pos[ch.choose(4)], j = pos[ch.choose(4)];
    for (int r = 0; r < n; ++r)
    {
      const auto k = std::size_t(r);
      switch (op)
      {
        case 1: m[i][k] = m[j][k] ^ g.mul(3, m[(j + 1) % std::size_t(n)][k]); break;
        case 2: m[i][k] = g.mul(5, m[j][k]); break;
        case 3: m[k][i] = 0; break;
        case 4: m[k][i] = m[k][j]; break;
      }
    }
  }
  ch.step();
  square_matrix a(32), inv(32);
  check_invert(w, m, a, inv);
  ch.outcome(unsigned(ref::rank(g, m)));
}

// Dimensions beyond 8 bits, entries beyond 16 bits.
void body_huge(mc::Chooser& ch, int w, int n)
{
  const auto& g = ref::gf(w);
  const auto N = std::size_t(n);
  const int kind = ch.choose(3), op = ch.choose(4);
  Mat m(N, std::vector<U>(N));
  for (std::size_t c = 0; c < N; ++c)
  {
    for (std::size_t r = 0; r < N; ++r)
    { m[c][r] = kind == 0 ? g.coeff(U(c) + 2, U(r)) : kind == 1 ? (r <= c && c - r < 40 ? g.coeff(U(c) + 3, U(r)) : 0) : ((r + 3) % N == c ? 1 + U(c) % 7 : 0); }
  }
  for (std::size_t k = 0; k < N; ++k)
  {
    if (op == 1) { m[N - 1][k] = g.mul(5, m[1][k]); }
    if (op == 2) { m[N / 2][k] = m[0][k] ^ m[N - 2][k]; }
    if (op == 3) { m[k][N - 2] = 0; }
  }
  ch.step(); ch.log([&] { return S(N) + " columns, kind " + S(unsigned(kind)) + ", dependency " + S(unsigned(op)); });
  square_matrix a(32), inv(32);
  a.resize(N); inv.resize(N);
  for (std::size_t c = 0; c < N; ++c) { for (std::size_t r = 0; r < N; ++r) { a(r, c) = m[c][r]; } }
  const auto res = ntc::detail::invert(field(w), a, inv);
  const auto rk = ref::rank(g, m);
  if (rk == n)
  {
    if (res) { mc::fail("invertible", "an invertible matrix of " + S(N) + " columns is reported as singular"); }
    std::vector<U> x(N);
    for (std::size_t c = 0; c < N; ++c)
    {
      std::fill(x.begin(), x.end(), 0);
      for (std::size_t k = 0; k < N; ++k) { if (const U v = inv(k, c)) { for (std::size_t r = 0; r < N; ++r) { if (m[k][r]) { x[r] ^= g.mul(m[k][r], v); } } } }
      for (std::size_t r = 0; r < N; ++r) { if (x[r] != (r == c)) { mc::fail("inverse", "the result is not the inverse of a matrix of " + S(N) + " columns"); } }
    }
  }
  else
  {
    if (!res) { mc::fail("singular", "a singular matrix of " + S(N) + " columns is reported as inverted"); }
    if (*res >= N) { mc::fail("column", "the reported column " + S(*res) + " does not exist"); }
    Mat q = m; q.erase(q.begin() + long(*res));
    if (ref::rank(g, q) != rk) { mc::fail("column", "the reported column " + S(*res) + " of " + S(N) + " is not redundant"); }
  }
  ch.outcome(N * 2000 + unsigned(rk));
}

// The same two matrices are used again and again with changing dimensions.
void body_reuse(mc::Chooser& ch, int w, int len)
{
  const auto& g = ref::gf(w);
  square_matrix a(32), inv(32);
  std::uint64_t h = 1;
  for (int i = 0; i < len; ++i)
  {
    static const int dims[] = {1, 2, 3, 5, 8, 33};
    const int n = dims[ch.choose(6)];
    const bool sing = ch.choose(2);
    Mat m;
    for (int c = 0; c < n; ++c) { m.emplace_back(); for (int r = 0; r < n; ++r) { m.back().push_back(g.coeff(U(c + i), U(r))); } }
    if (sing) { m[0] = m[std::size_t(n) - 1]; if (n == 1) { m[0][0] = 0; } }
    ch.step();
    check_invert(w, m, a, inv);
    h = h * 31 + U(n) + sing;
  }
  ch.outcome(h);
}

// --- C21 ----------------------------------------------------------------------------------------
std::vector<U> interesting(int w)
{
  std::vector<U> v;
  if (w <= 8) { for (U i = 0; i < (1u << w); ++i) { v.push_back(i); } return v; }
  const std::uint64_t top = 1ull << w;
  for (int i = 0; i < w; ++i)
  {
    for (std::int64_t d : {-1, 0, 1, 2})
    {
      const auto x = (std::int64_t(1) << i) + d;
      if (x >= 0 && std::uint64_t(x) < top) { v.push_back(U(x)); }
    }
  }
  for (U d = 1; d <= 8; ++d) { v.push_back(U(top - d)); }
  for (U x : {0x5555u, 0xaaaau, 0x1234u, 0xfedcu, 0x0f0fu}) { v.push_back(w == 16 ? x : x * 0x10001u ^ 0x31u); }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}

void body_mul(mc::Chooser& ch, int w, bool full)
{
  auto& f = field(w); const auto& g = ref::gf(w);
  static std::map<int, std::vector<U>> cache;
  auto& iv = cache[w]; if (iv.empty()) { iv = interesting(w); }
  const U a = w == 16 && full ? U(ch.choose(65536 / 16)) * 16 + U(ch.choose(16)) : iv[std::size_t(ch.choose(int(iv.size())))];
  if (f.size() != unsigned(w)) { mc::fail("field", "size() is wrong"); }
  for (auto b : iv)
  {
    ch.step();
    const auto x = f.multiply(a, b), y = f.multiply(b, a), e = g.mul(a, b);
    if (x != e || y != e) { mc::fail("product", S(a) + " * " + S(b) + " is " + S(x) + " or " + S(y) + ", expected " + S(e) + " in the field of " + S(unsigned(w)) + " bits"); }
  }
  if (a)
  {
    const auto i = f.invert(a);
    if (g.mul(i, a) != 1) { mc::fail("inverse", S(i) + " is not the inverse of " + S(a)); }
  }
  ch.outcome(a);
}

void body_region(mc::Chooser& ch, int w, int maxlen)
{
  auto& f = field(w); const auto& g = ref::gf(w);
  static std::map<int, std::vector<U>> cache;
  auto& iv = cache[w]; if (iv.empty()) { iv = interesting(w); }
  const U c = iv[std::size_t(ch.choose(int(iv.size())))];
  const int unit = w <= 8 ? 1 : w / 8;
  const int k = ch.choose(maxlen + 14);
  static const std::size_t big[] = {255, 256, 1000, 4097, 1500, 2048, 8200, 16383, 16400, 32767, 32768, 49156, 65532, 65535};
  const std::size_t n = (k < maxlen ? std::size_t(k) : big[k - maxlen]) / std::size_t(unit) * std::size_t(unit);
  const bool add = ch.choose(2);
  const std::size_t pad = 32;
  // exactly 16-byte aligned buffers with guard bytes after (and before) them
  static char* sbuf = static_cast<char*>(aligned_alloc(16, 65664)); static char* dbuf = static_cast<char*>(aligned_alloc(16, 65664));
  char* s = sbuf + pad; char* d = dbuf + pad;
  std::vector<unsigned char> s0(n), d0(n);
  for (std::size_t i = 0; i < n; ++i) { s0[i] = static_cast<unsigned char>(i * 73 + c + 5); d0[i] = static_cast<unsigned char>(i * 29 + 11); }
  std::memset(sbuf, 0x5a, n + 2 * pad); std::memset(dbuf, 0xa5, n + 2 * pad);
  if (n) { std::memcpy(s, s0.data(), n); std::memcpy(d, d0.data(), n); }
  ch.step();
  if (add) { f.multiply_add(s, d, n, c); } else { f.multiply(s, d, n, c); }
  std::vector<unsigned char> e = add ? d0 : std::vector<unsigned char>(n, 0);
  g.addmul(s0.data(), e.data(), n, c);
  if (n && std::memcmp(d, e.data(), n)) { mc::fail("bulk", std::string(add ? "multiply-add" : "multiply") + " of " + S(n) + " bytes by " + S(c) + " is wrong in the field of " + S(unsigned(w)) + " bits"); }
  if (n && std::memcmp(s, s0.data(), n)) { mc::fail("bulk", "the source was changed"); }
  for (std::size_t i = 0; i < pad; ++i)
  {
    if (sbuf[i] != 0x5a || s[n + i] != 0x5a || static_cast<unsigned char>(dbuf[i]) != 0xa5 || static_cast<unsigned char>(d[n + i]) != 0xa5)
    { mc::fail("bulk", "bytes outside the buffer were changed"); }
  }
  ch.outcome(mc::fnv(e.data(), e.size()));
}

void body_size(mc::Chooser& ch, int w)
{
  auto& f = field(w); const auto& g = ref::gf(w);
  static std::map<int, std::vector<U>> cache;
  auto& iv = cache[w]; if (iv.empty()) { iv = interesting(w); }
  const U c = iv[std::size_t(ch.choose(int(iv.size())))];
  const U lo = U(ch.choose(16)) * 4096;
  if (!c) { return; }
  const auto i = g.inv(c);
  for (U s = lo; s < lo + 4096; ++s)
  {
    ch.step();
    const auto e = std::uint16_t(s);
    const auto x = f.multiply_size(e, c);
    if (x != std::uint16_t(g.size_term(e, c))) { mc::fail("size", "size " + S(s) + " times " + S(c) + " is " + S(x)); }
    if (w != 32)
    {
      const auto y = f.multiply_size(x, i);
      if (y != e) { mc::fail("size", "size " + S(s) + " scaled by " + S(c) + " and back is " + S(y)); }
    }
  }
  ch.outcome(c * 16 + lo);
}

void body_coeff(mc::Chooser& ch, int w, int steps)
{
  auto& f = field(w); const auto& g = ref::gf(w);
  // one identifier over a full residue range (plus the ends of 32 bits), the other over a boundary set
  static const U edge[] = {0, 1, 2, 3, 13, 14, 15, 16, 253, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0xfffffffdu, 0xfffffffeu, 0xffffffffu};
  const U e = edge[ch.choose(23)];
  const bool swap = ch.choose(2);
  const int blk = ch.choose(steps + 2);
  const U lo = blk < steps ? U(blk) * 4096 : blk == steps ? 0x7ffff800u : 0xfffff000u;
  for (U k = 0; k < 4096; ++k)
  {
    const U x = lo + k;
    const U r = swap ? e : x, s = swap ? x : e;
    ch.step();
    const auto c = f.coefficient(r, s);
    if (c == 0 || (w < 32 && c >= (1u << w))) { mc::fail("coefficient", "coefficient of repair " + S(r) + " and source " + S(s) + " is " + S(c) + " in the field of " + S(unsigned(w)) + " bits"); }
    if (c != g.coeff(r, s)) { mc::fail("coefficient", "coefficient of repair " + S(r) + " and source " + S(s) + " is " + S(c) + ", expected " + S(g.coeff(r, s))); }
    if (c != f.coefficient(r, s)) { mc::fail("coefficient", "the coefficient is not fixed"); }
  }
  ch.outcome(e * 64 + U(blk));
}

// For the 32-bit field: the pairs whose coefficient wraps to zero.
void body_coeff_zero(mc::Chooser& ch)
{
  auto& f = field(32);
  const U r = U(ch.choose(4096)) - 2048;
  ch.step();
  // (r + s + 2) * (r + 1) = 0 mod 2^32: s = -(r + 2) and its translations
  for (int sh = 0; sh < 32; ++sh)
  {
    const U s = (sh ? (U(1) << (32 - sh)) : 0) - (r + 2);
    if (f.coefficient(r, s) == 0) { mc::fail("coefficient", "coefficient of repair " + S(r) + " and source " + S(s) + " is 0"); }
  }
  ch.outcome(r);
}

std::vector<mc::Job> jobs()
{
  warm_fields();
  const bool T = mc::options().thorough;
  const auto p = mc::options().property;
  std::vector<mc::Job> js;
  const auto add = [&](const std::string& n, std::function<void(mc::Chooser&)> f, int shards, int depth)
  { mc::Job j; j.name = n; j.body = std::move(f); j.shards = shards; j.shard_depth = depth; js.push_back(j); };
  const auto seq = [](U n) { std::vector<U> v; for (U i = 0; i < n; ++i) { v.push_back(i); } return v; };
  if (p == "C20")
  {
    add("all 1x1 w8", [seq](mc::Chooser& ch) { body_all(ch, 8, 1, seq(256)); }, 1, 0);
    add("all 2x2 w4", [seq](mc::Chooser& ch) { body_all(ch, 4, 2, seq(16)); }, 8, 2);
    for (int w : {4, 8, 16, 32})
    {
      const U top = w == 32 ? 0xffffffffu : (1u << w) - 1;
      const auto wn = " w" + S(unsigned(w));
      add("all 3x3" + wn, [w, top, T](mc::Chooser& ch) { body_all(ch, w, 3, T ? std::vector<U>{0, 1, 2, 3, top} : std::vector<U>{0, 1, 2, top}); }, 32, 5);
      add("all 4x4 binary" + wn, [w](mc::Chooser& ch) { body_all(ch, w, 4, {0, 1}); }, 8, 5);
      if (T) { add("all 4x4 ternary" + wn, [w](mc::Chooser& ch) { body_all(ch, w, 4, {0, 1, 2}); }, 64, 6); }
      add("patterns 4" + wn, [w](mc::Chooser& ch) { body_pattern(ch, w, 4); }, 16, 4);
      if (T) { add("patterns 5" + wn, [w](mc::Chooser& ch) { body_pattern(ch, w, 5); }, 64, 5); }
      for (int n = 1; n <= (T ? 5 : 4); ++n) { add("ids " + S(unsigned(n)) + wn, [w, n, T](mc::Chooser& ch) { body_ids(ch, w, n, T ? 10 : 8); }, 8, 4); }
      for (int n : {2, 3, 5, 6}) { add("dependent " + S(unsigned(n)) + wn, [w, n](mc::Chooser& ch) { body_dependent(ch, w, n); }, 8, 4); }
      if (T) { for (int n : {8, 9}) { add("dependent " + S(unsigned(n)) + wn, [w, n](mc::Chooser& ch) { body_dependent(ch, w, n); }, 32, 4); } }
      for (int n : {31, 32, 33, 40}) { if (w != 4) { add("big " + S(unsigned(n)) + wn, [w, n](mc::Chooser& ch) { body_big(ch, w, n); }, 4, 2); } }
      if (w == 8 || w == 16) { for (int n : {64, 65, 128, 129, 256, 257}) { add("huge " + S(unsigned(n)) + wn, [w, n](mc::Chooser& ch) { body_huge(ch, w, n); }, 12, 2); } }
      if (w == 8 || w == 16) { add("reuse" + wn, [w](mc::Chooser& ch) { body_reuse(ch, w, 3); }, 8, 3); }
    }
  }
  if (p == "C21")
  {
    for (int w : {4, 8, 16, 32})
    {
      const auto wn = " w" + S(unsigned(w));
      add("products" + wn, [w](mc::Chooser& ch) { body_mul(ch, w, true); }, w == 16 ? 16 : 1, 1);
      add("bulk" + wn, [w, T](mc::Chooser& ch) { body_region(ch, w, T ? 600 : 132); }, 16, 2);
      add("sizes" + wn, [w](mc::Chooser& ch) { body_size(ch, w); }, 16, 2);
      add("coefficients" + wn, [w, T](mc::Chooser& ch) { body_coeff(ch, w, T ? 64 : 17); }, 16, 3);
    }
    add("coefficients that wrap to zero", body_coeff_zero, 4, 1);
  }
  return js;
}

} // anon

int main(int argc, char** argv) { return mc::main_(argc, argv, jobs); }
