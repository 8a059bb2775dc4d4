// Dumps of packets (C24): what is written is read back; the dump of a decoder's session holds its
// packets; the replay tool processes all of them.
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cassert>
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
std::string g_dump_path;
#define NTC_DUMP_PACKETS
#define NTC_DUMP_PACKETS_FILE g_dump_path.c_str()
#include "world.hh"
#include "netcode/detail/serialize_packet.hh"

void warm_fields();
extern void (*g_gf_point)();

namespace {

std::string S(std::uint64_t v) { return std::to_string(v); }
using ser = ntc::detail::serialize_packet;

// Size and content alphabets.
const std::vector<std::size_t>& sizes(bool big)
{
  static const std::vector<std::size_t> s{1, 2, 7, 9, 10, 16, 33, 0}, b{1, 9, 246, 247, 248, 249, 256, 502, 503, 1400, 4096, 32759, 32768, 65500, 65507};
  return big ? b : s;
}
bytes content(int k, std::size_t n)
{
  bytes b(n);
  for (std::size_t i = 0; i < n; ++i)
  {
    switch (k)
    {
      case 0: b[i] = static_cast<unsigned char>(i * 7 + 1); break;
      case 1: b[i] = 0xff; break;
      case 2: b[i] = "\n \r\t\0\v\f\x1a"[i % 8]; break;
      case 3: b[i] = 0; break;
    }
  }
  return b;
}

bytes of(const ntc::packet& p) { return bytes(p.begin(), p.end()); }

void round_trip(mc::Chooser& ch, int len, bool big)
{
  const auto n = 1 + ch.choose(len);
  std::vector<bytes> in;
  std::stringstream ss;
  for (int i = 0; i < n; ++i)
  {
    ch.step();
    const auto& sz = sizes(big);
    auto b = content(ch.choose(4), sz[std::size_t(ch.choose(int(sz.size())))]);
    ch.log([&] { return "write a packet of " + S(b.size()) + " bytes"; });
    ser::write(ss, mkpkt(b));
    in.push_back(std::move(b));
  }
  std::uint64_t h = 1;
  for (int i = 0; i < n; ++i)
  {
    if (ss.peek() == std::char_traits<char>::eof()) { mc::fail("round trip", "the dump ends before packet " + S(unsigned(i))); }
    const auto p = ser::read(ss);
    const auto b = of(p);
    if (b != in[std::size_t(i)]) { mc::fail("round trip", "packet " + S(unsigned(i)) + " of " + S(in[std::size_t(i)].size()) + " bytes is read back as " + S(b.size()) + " bytes" + (b.size() == in[std::size_t(i)].size() ? " with another content" : "")); }
    if (reinterpret_cast<std::uintptr_t>(p.symbol()) % 16) { mc::fail("round trip", "the symbol of a packet read back is not aligned"); }
    h = mc::fnv(b.data(), b.size(), h);
  }
  if (ss.peek() != std::char_traits<char>::eof()) { mc::fail("round trip", "the dump holds more than what was written"); }
  ch.outcome(h);
}

// every byte value at every position of a small packet
void byte_values(mc::Chooser& ch)
{
  const auto pos = std::size_t(ch.choose(4)), v = std::size_t(ch.choose(256));
  bytes b(4, 1); b[pos] = static_cast<unsigned char>(v);
  std::stringstream ss;
  ch.step();
  ser::write(ss, mkpkt(b)); ser::write(ss, mkpkt(bytes{9, 8}));
  if (of(ser::read(ss)) != b || of(ser::read(ss)) != bytes({9, 8})) { mc::fail("round trip", "a packet with byte " + S(v) + " is not read back"); }
  ch.outcome(v);
}

// Many packets in a dump, and every size.
void round_trip_long(mc::Chooser& ch)
{
  static const std::size_t ns[] = {127, 128, 255, 256, 257, 1000, 65535, 65536, 65537, 140000};
  const int k = ch.choose(11), c = ch.choose(4);
  const std::size_t n = k < 10 ? ns[k] : 5000;
  const auto mk = [&](std::size_t i) { auto b = content(c, k < 10 ? 1 + i % 20 : i + 1); b[0] = static_cast<unsigned char>(i); if (b.size() > 1) { b[1] = static_cast<unsigned char>(i >> 8); } return b; };
  std::stringstream ss;
  ch.step();
  for (std::size_t i = 0; i < n; ++i) { ser::write(ss, mkpkt(mk(i))); }
  for (std::size_t i = 0; i < n; ++i)
  {
    if (ss.peek() == std::char_traits<char>::eof()) { mc::fail("round trip", "the dump of " + S(n) + " packets ends before packet " + S(i)); }
    if (of(ser::read(ss)) != mk(i)) { mc::fail("round trip", "packet " + S(i) + " of " + S(n) + " is read back as another one"); }
  }
  if (ss.peek() != std::char_traits<char>::eof()) { mc::fail("round trip", "the dump holds more than what was written"); }
  ch.outcome(n);
}

const Traffic& traffic(int w, const std::string& s)
{
  static std::map<std::string, Traffic> cache;
  const auto k = s + S(unsigned(w));
  auto it = cache.find(k);
  if (it == cache.end()) { EncCfg c; c.w = w; c.sizes = 0; it = cache.emplace(k, run_script(c, s)).first; }
  return it->second;
}

const char* scratch() { const char* s = std::getenv("MC_SCRATCH"); return s ? s : "/tmp"; }
std::uint64_t g_ops = 0;
void count_op() { ++g_ops; }

enum Kind { good, wrong_type, is_ack, cut };
struct Fed { bytes b; Kind k; };

// Feeds a decoder that dumps; returns the number of field operations until the first bad packet.
std::uint64_t session(const std::vector<Fed>& fed, int w, bool order, std::size_t& nblocks)
{
  Sink s; DataSink d;
  Dec dec(static_cast<std::uint8_t>(w), order ? ntc::in_order::yes : ntc::in_order::no, PH{&s}, DH{&d});
  g_ops = 0; g_gf_point = count_op;
  std::uint64_t ops = 0; bool stopped = false;
  for (auto& f : fed)
  {
    bool thrown = false;
    try { pass_pkt(dec, f.b); } catch (const std::exception&) { thrown = true; }
    if (thrown != (f.k != good)) { g_gf_point = nullptr; mc::fail("session", "unexpected result of giving a packet to the decoder"); }
    if (thrown && !stopped) { stopped = true; ops = g_ops; }
  }
  g_gf_point = nullptr;
  nblocks = d.got.size();
  return stopped ? ops : g_ops;
}

std::vector<Fed> pick(mc::Chooser& ch, const Traffic& t, int len, bool bad)
{
  std::vector<Fed> fed;
  const int np = int(t.items.size());
  const int n = 1 + ch.choose(len);
  for (int i = 0; i < n; ++i)
  {
    ch.step();
    const int k = ch.choose(np + (bad ? 3 : 0));
    if (k < np) { fed.push_back({t.items[std::size_t(k)].raw, good}); }
    else if (k == np) { fed.push_back({bytes{200, 1, 2}, wrong_type}); }
    else if (k == np + 1) { fed.push_back({ref::mk_ack(1, {0}), is_ack}); }
    else { fed.push_back({bytes{2, 0, 0, 0, 9, 0, 200, 1, 2, 3}, cut}); }
    ch.log([&] { return "give " + ref::hex(fed.back().b); });
  }
  return fed;
}

void decoder_dump(mc::Chooser& ch, int w, const std::string& script, int len)
{
  g_steady_ns = 1000000000000ll;
  const auto& t = traffic(w, script);
  g_dump_path = std::string(scratch()) + "/dump." + S(unsigned(getpid()));
  const bool o = ch.choose(2);
  const auto fed = pick(ch, t, len, true);
  std::size_t nb = 0;
  session(fed, w, o, nb);
  std::ifstream in(g_dump_path, std::ios::binary);
  for (std::size_t i = 0; i < fed.size(); ++i)
  {
    if (in.peek() == std::char_traits<char>::eof()) { mc::fail("dump", "the dump of a session lacks packet " + S(i)); }
    if (of(ser::read(in)) != fed[i].b) { mc::fail("dump", "packet " + S(i) + " of a session is another one in its dump"); }
  }
  if (in.peek() != std::char_traits<char>::eof()) { mc::fail("dump", "the dump of a session holds more than its packets"); }
  ch.outcome(nb);
}

// A long session: sources (every third lost) and repairs, blocks of many sizes.
std::vector<Fed> long_session(int n, std::size_t big)
{
  Sink sk; Enc enc(8, PH{&sk}); enc.set_rate(2); enc.set_window_size(20);
  std::vector<Fed> fed;
  for (int i = 0; i < n; ++i) { pass_data(enc, block(unsigned(i), 1 + (std::size_t(i) * 37) % big)); }
  int s = 0;
  for (auto& o : sk.out) { if (o[0] == 2 && s++ % 3 == 1) { continue; } fed.push_back({o, good}); }
  return fed;
}

// Runs the replay tool on the dump; its field operations are counted by the probe linked to it.
void replay_of(mc::Chooser& ch, const std::vector<Fed>& fed)
{
  g_dump_path = std::string(scratch()) + "/dump." + S(unsigned(getpid()));
  std::size_t nb = 0;
  const auto ops = session(fed, 8, true, nb);
  bool any_bad = false; for (auto& f : fed) { any_bad = any_bad || f.k != good; }
  const auto out = g_dump_path + ".err", cnt = g_dump_path + ".ops";
  ::unlink(cnt.c_str());
  const auto bin = std::string(std::getenv("MC_BIN") ? std::getenv("MC_BIN") : ".") + "/replay";
  const auto pid = ::fork();
  if (pid == 0)
  {
    const int fd = ::open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), nul = ::open("/dev/null", O_RDWR);
    ::dup2(nul, 0); ::dup2(nul, 1); ::dup2(fd, 2);
    ::setenv("REPLAY_OPS", cnt.c_str(), 1);
    ::alarm(15);
    ::execl(bin.c_str(), bin.c_str(), g_dump_path.c_str(), static_cast<char*>(nullptr));
    ::_exit(127);
  }
  int st = 0; ::waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 127) { std::fprintf(stderr, "can't run %s\n", bin.c_str()); ::_exit(66); }
  if (!WIFEXITED(st)) { mc::fail("replay", WTERMSIG(st) == SIGALRM ? "the replay does not end" : "the replay is ended by signal " + S(unsigned(WTERMSIG(st)))); }
  struct stat sb; ::stat(out.c_str(), &sb);
  if (!any_bad && sb.st_size) { std::ifstream e(out); std::string l; std::getline(e, l); mc::fail("replay", "the replay of a valid session complains: " + l); }
  if (any_bad && !sb.st_size) { mc::fail("replay", "the replay does not report an invalid packet: it was not processed"); }
  std::ifstream c(cnt); std::uint64_t got = ~0ull; c >> got;
  if (got != ops) { mc::fail("replay", "the replay does " + S(got) + " field operations, the session did " + S(ops) + ": not every packet is processed the same"); }
  ch.outcome(ops * 7 + any_bad);
}

void replay(mc::Chooser& ch, const std::string& script, int len, bool bad)
{
  g_steady_ns = 1000000000000ll;
  replay_of(ch, pick(ch, traffic(8, script), len, bad));
}

void replay_many(mc::Chooser& ch)
{
  g_steady_ns = 1000000000000ll;
  static const int ns[] = {100, 200, 700, 30000}; static const std::size_t bigs[] = {20, 1400, 4096, 65000};
  const int k = ch.choose(4), b = ch.choose(4);
  if (k == 3 && b) { return; }
  auto fed = long_session(b == 3 ? 30 : ns[k], bigs[b]);
  if (ch.choose(2)) { fed.push_back({bytes{200, 1, 2}, wrong_type}); } // the last packet is reached
  ch.step();
  replay_of(ch, fed);
  std::ifstream in(g_dump_path, std::ios::binary);
  for (std::size_t i = 0; i < fed.size(); ++i)
  {
    if (in.peek() == std::char_traits<char>::eof()) { mc::fail("dump", "the dump of a long session lacks packet " + S(i)); }
    if (of(ser::read(in)) != fed[i].b) { mc::fail("dump", "packet " + S(i) + " of a long session is another one in its dump"); }
  }
  if (in.peek() != std::char_traits<char>::eof()) { mc::fail("dump", "the dump of a long session holds more than its packets"); }
}

std::vector<mc::Job> jobs()
{
  warm_fields();
  const bool T = mc::options().thorough;
  std::vector<mc::Job> js;
  const auto add = [&](const std::string& n, std::function<void(mc::Chooser&)> f, int shards, int depth)
  { mc::Job j; j.name = n; j.body = std::move(f); j.shards = shards; j.shard_depth = depth; js.push_back(j); };
  add("round trip", [T](mc::Chooser& ch) { round_trip(ch, T ? 4 : 3, false); }, 16, 4);
  add("round trip big", [T](mc::Chooser& ch) { round_trip(ch, T ? 3 : 2, true); }, 16, 4);
  add("round trip long", round_trip_long, 16, 2);
  add("replay many", replay_many, 16, 3);
  add("byte values", byte_values, 1, 0);
  for (int w : {8, 4, 16, 32}) { add("session w" + S(unsigned(w)), [w, T](mc::Chooser& ch) { decoder_dump(ch, w, "SSRSR", T ? 5 : 4); }, 16, 4); }
  add("replay", [T](mc::Chooser& ch) { replay(ch, "SSRR", T ? 5 : 4, false); }, 16, 4);
  add("replay bad", [T](mc::Chooser& ch) { replay(ch, "SSR", T ? 5 : 4, true); }, 16, 4);
  add("replay long", [T](mc::Chooser& ch) { replay(ch, "SSSRRAR", T ? 4 : 3, false); }, 16, 4);
  return js;
}

} // anon

int main(int argc, char** argv) { return mc::main_(argc, argv, jobs); }
