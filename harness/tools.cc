// The network tools: loss models and lossy proxy (C26), source forwarder (C27).
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
#include "world.hh"
#include "tools/loss/burst.hh"
#include "tools/loss/stream.hh"
#include "tools/loss/uniform.hh"

void warm_fields();

namespace {

std::string S(std::uint64_t v) { return std::to_string(v); }

// --- loss models --------------------------------------------------------------------------------
void stream_model(mc::Chooser& ch, int len)
{
  static const std::vector<std::string> alpha{"0", "1", "", "00", "10", "01", " 0", "x", "0 comment", "-0", "\r"};
  const int n = ch.choose(len + 1);
  std::string file; std::vector<bool> exp;
  for (int i = 0; i < n; ++i)
  {
    const auto& l = alpha[std::size_t(ch.choose(int(alpha.size())))];
    const bool last = i + 1 == n, nl = !last || ch.choose(2) == 0;
    file += l; if (nl) { file += '\n'; }
    if (nl || !l.empty()) { exp.push_back(l.empty() || l[0] != '0'); }
  }
  ch.log([&] { return "loss file '" + file + "'"; });
  std::istringstream is(file);
  loss::stream model(is);
  std::uint64_t h = 1;
  for (std::size_t i = 0; i < exp.size() + 3; ++i)
  {
    ch.step();
    const bool want = i < exp.size() && exp[i], got = model();
    if (got != want) { mc::fail("loss file", "packet " + S(i) + (got ? " is dropped" : " is forwarded") + (i < exp.size() ? ", its line says otherwise" : ", after the end of the file")); }
    h = h * 3 + got;
  }
  ch.outcome(h);
}

// Long files and long lines.
void stream_long(mc::Chooser& ch)
{
  static const std::size_t lens[] = {127, 255, 256, 257, 1000, 65535, 65536, 65537, 70000};
  static const std::size_t widths[] = {1, 2, 255, 256, 4096, 70000};
  const auto n = lens[ch.choose(9)], wd = widths[ch.choose(6)]; const int pat = ch.choose(4);
  const auto lost = [&](std::size_t i) { return pat == 0 ? i % 2 == 1 : pat == 1 ? i % 3 != 0 : pat == 2 ? (i * 2654435761u >> 13) % 2 == 1 : i + 5 > n; };
  std::string file;
  for (std::size_t i = 0; i < n; ++i) { file += lost(i) ? '1' : '0'; if (i % (wd > 256 ? n / 3 : 7) == 3) { file.append(wd - 1, i % 2 ? '0' : '1'); } file += '\n'; }
  ch.log([&] { return "loss file of " + S(n) + " lines, of up to " + S(wd) + " characters"; });
  std::istringstream is(file);
  loss::stream model(is);
  ch.step();
  for (std::size_t i = 0; i < n + 300; ++i)
  {
    const bool want = i < n && lost(i), got = model();
    if (got != want) { mc::fail("loss file", "packet " + S(i) + (got ? " is dropped" : " is forwarded") + " with a loss file of " + S(n) + " lines"); }
  }
  ch.outcome(n * 4 + std::size_t(pat));
}

// The random source is internal, but it is the same for all instances: instances that only differ in
// their threshold reveal the draw, which must explain all of their decisions.
void uniform_model(mc::Chooser& ch)
{
  std::vector<std::unique_ptr<loss::uniform>> m;
  for (unsigned t = 1; t <= 99; ++t) { m.emplace_back(new loss::uniform(t)); }
  std::set<unsigned> seen;
  for (int i = 0; i < 20000; ++i)
  {
    ch.step();
    unsigned lost = 0; bool monotone = true, before = true;
    for (auto& x : m) { const bool l = (*x)(); if (l && !before) { monotone = false; } before = l; lost += l; }
    if (!monotone) { mc::fail("uniform", "a packet is dropped with a low loss rate and forwarded with a higher one"); }
    seen.insert(lost + 1); // draw: lost for every threshold below it
  }
  if (seen.size() != 100 || *seen.begin() != 1 || *seen.rbegin() != 100)
  { mc::fail("uniform", "draws " + S(*seen.begin()) + " to " + S(*seen.rbegin()) + " (" + S(seen.size()) + " values) explain the losses, expected all of 1 to 100"); }
  ch.outcome(seen.size());
}

void burst_model(mc::Chooser& ch)
{
  constexpr unsigned N = 102; // parameters 0..101
  struct I { loss::burst m; bool bad; };
  std::vector<I> v;
  // every p_good with a few p_bad, and every p_bad with a few p_good
  struct P { unsigned g, b; };
  std::vector<P> ps;
  for (unsigned g = 0; g < N; ++g) { for (unsigned b = 0; b < N; ++b) { if (g % 20 == 1 || b % 20 == 1 || g == b || g == 100 || b == 100 || g == 0 || b == 0) { ps.push_back({g, b}); } } }
  for (auto& p : ps) { v.push_back({loss::burst(p.g, p.b), false}); }
  std::set<unsigned> seen;
  const int n = mc::options().thorough ? 20000 : 4000;
  for (int i = 0; i < n; ++i)
  {
    ch.step();
    // the draw d explains: good state: forwarded iff d < p_good; bad state: dropped iff d < p_bad
    unsigned lo = 1, hi = 100;
    for (std::size_t k = 0; k < v.size(); ++k)
    {
      const bool l = v[k].m();
      const bool below = v[k].bad ? l : !l;
      const unsigned p = v[k].bad ? ps[k].b : ps[k].g;
      if (below) { if (!p) { lo = 1; hi = 0; } else { hi = std::min(hi, p - 1); } }
      else { lo = std::max(lo, p); }
      v[k].bad = l;
    }
    if (lo > hi) { mc::fail("burst", "no draw in 1 to 100 explains the fate of packet " + S(unsigned(i)) + " for all parameters"); }
    if (lo == hi) { seen.insert(lo); }
  }
  if (seen.size() < 95) { mc::fail("burst", "only " + S(seen.size()) + " different draws are seen"); }
  ch.outcome(seen.size());
}

// --- processes ----------------------------------------------------------------------------------
struct Sock
{
  int fd; unsigned short port;
  Sock()
  {
    fd = ::socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    int sz = 1 << 20; ::setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    ::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
    socklen_t l = sizeof a; ::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &l);
    port = ntohs(a.sin_port);
  }
  ~Sock() { ::close(fd); }
  void send(const bytes& b, unsigned short to)
  {
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(to);
    ::sendto(fd, b.data(), b.size(), 0, reinterpret_cast<sockaddr*>(&a), sizeof a);
  }
  bool recv(bytes& b, unsigned short& from, int ms)
  {
    pollfd p{fd, POLLIN, 0};
    if (::poll(&p, 1, ms) <= 0) { return false; }
    b.resize(70000); sockaddr_in a{}; socklen_t l = sizeof a;
    const auto n = ::recvfrom(fd, b.data(), b.size(), 0, reinterpret_cast<sockaddr*>(&a), &l);
    if (n < 0) { return false; }
    b.resize(std::size_t(n)); from = ntohs(a.sin_port);
    return true;
  }
};

// Does this process listen on this port?
bool bound(pid_t pid, unsigned short port)
{
  std::ifstream f("/proc/net/udp"); std::string l;
  std::getline(f, l);
  while (std::getline(f, l))
  {
    std::istringstream is(l); std::string sl, local, t; is >> sl >> local;
    for (int i = 0; i < 7; ++i) { is >> t; }
    std::string inode; is >> inode;
    const auto c = local.find(':');
    if (c == std::string::npos || std::strtoul(local.c_str() + c + 1, nullptr, 16) != port) { continue; }
    for (int fd = 0; fd < 40; ++fd)
    {
      char buf[64]; const auto n = ::readlink(("/proc/" + S(unsigned(pid)) + "/fd/" + S(unsigned(fd))).c_str(), buf, sizeof buf - 1);
      if (n > 0 && std::string(buf, std::size_t(n)) == "socket:[" + inode + "]") { return true; }
    }
  }
  return false;
}

struct Proc
{
  pid_t pid = -1; unsigned short port = 0;
  // args are given the listening port first
  bool start(const std::string& name, std::function<std::vector<std::string>(unsigned short)> args)
  {
    const auto bin = std::string(std::getenv("MC_BIN") ? std::getenv("MC_BIN") : ".") + "/" + name;
    for (int attempt = 0; attempt < 8; ++attempt)
    {
      { Sock s; port = s.port; }
      auto av = args(port);
      pid = ::fork();
      if (pid == 0)
      {
        const int nul = ::open("/dev/null", O_RDWR);
        ::dup2(nul, 0); ::dup2(nul, 1); ::dup2(nul, 2);
        ::prctl(PR_SET_PDEATHSIG, SIGKILL); // ends with the harness
        std::vector<char*> v{const_cast<char*>(bin.c_str())};
        for (auto& a : av) { v.push_back(const_cast<char*>(a.c_str())); }
        v.push_back(nullptr);
        ::execv(bin.c_str(), v.data());
        ::_exit(127);
      }
      for (int i = 0; i < 4000; ++i)
      {
        int st; if (::waitpid(pid, &st, WNOHANG) == pid) { pid = -1; break; }
        if (bound(pid, port)) { return true; }
        ::usleep(500);
      }
      stop();
    }
    return false;
  }
  bool alive() { int st; if (pid > 0 && ::waitpid(pid, &st, WNOHANG) == pid) { pid = -1; } return pid > 0; }
  void stop() { if (pid > 0) { ::kill(pid, SIGKILL); int st; ::waitpid(pid, &st, 0); pid = -1; } }
  ~Proc() { stop(); }
};

bytes payload(unsigned dir, unsigned i)
{
  static const std::size_t sz[] = {3, 64, 1, 1400, 4096, 17};
  bytes b(std::max<std::size_t>(3, sz[i % 6]));
  for (std::size_t k = 0; k < b.size(); ++k) { b[k] = static_cast<unsigned char>(i * 31 + k + dir * 5); }
  b[0] = static_cast<unsigned char>(dir); b[1] = static_cast<unsigned char>(i); b[2] = 0;
  return b;
}

std::string scratch() { const char* s = std::getenv("MC_SCRATCH"); return s ? s : "/tmp"; }

// Every pair of loss files of the given lengths; the first packet of either direction is forwarded so
// that the peers learn the addresses.
void proxy(mc::Chooser& ch, int na, int nb, bool same = false)
{
  std::vector<bool> la{false}, lb{false};
  for (int i = 0; i < na; ++i) { la.push_back(ch.choose(2)); }
  for (int i = 0; i < nb; ++i) { lb.push_back(ch.choose(2)); }
  if (same) { lb = la; } // one file for both directions
  const bool alternate = ch.choose(2);
  const auto base = scratch() + "/loss." + S(unsigned(::getpid()));
  const auto write = [&](const std::string& f, const std::vector<bool>& l) { std::ofstream o(f); for (bool x : l) { o << (x ? '1' : '0') << '\n'; } };
  write(base + ".a", la); write(base + ".b", lb);
  ch.log([&] { std::string s = "a to b: "; for (bool x : la) { s += x ? '1' : '0'; } s += " b to a: "; for (bool x : lb) { s += x ? '1' : '0'; } return s; });
  Sock a, b;
  Proc p;
  if (!p.start("lossy_proxy", [&](unsigned short port) { return std::vector<std::string>{S(port), "127.0.0.1", S(b.port), "file", base + ".a", base + (same ? ".a" : ".b")}; }))
  { mc::fail("proxy", "the proxy does not start"); }
  unsigned ia = 0, ib = 0; unsigned short via = 0, f = 0; bytes x;
  std::vector<bytes> got_a, got_b;
  const auto from_a = [&] { ch.step(); a.send(payload(0, ia), p.port); ++ia; };
  const auto from_b = [&] { ch.step(); b.send(payload(1, ib), via); ++ib; };
  from_a();
  if (!b.recv(x, via, 8000)) { mc::fail("proxy", "a packet whose line is 0 is not forwarded"); }
  got_b.push_back(x);
  from_b();
  if (!a.recv(x, f, 8000)) { mc::fail("proxy", "a packet of the other direction whose line is 0 is not forwarded"); }
  got_a.push_back(x);
  if (f != p.port) { mc::fail("proxy", "a packet does not come from the port of the proxy"); }
  // to the end of the files and two packets beyond; the last one also tells that nothing is pending
  const unsigned ea = unsigned(la.size()) + 2, eb = unsigned(lb.size()) + 2;
  if (alternate) { while (ia < ea || ib < eb) { if (ia < ea) { from_a(); } if (ib < eb) { from_b(); } } }
  else { while (ia < ea) { from_a(); } while (ib < eb) { from_b(); } }
  const auto drain = [&](Sock& s, std::vector<bytes>& got, const bytes& last, const char* dir)
  {
    while (got.back() != last)
    {
      if (!s.recv(x, f, 8000)) { mc::fail("proxy", std::string(dir) + ": a packet after the end of the loss file is not forwarded unchanged"); }
      got.push_back(x);
    }
    if (s.recv(x, f, 0)) { mc::fail("proxy", std::string(dir) + ": packets are reordered or repeated"); }
  };
  drain(b, got_b, payload(0, ea - 1), "a to b");
  drain(a, got_a, payload(1, eb - 1), "b to a");
  std::uint64_t h = 1;
  const auto check = [&](const std::vector<bytes>& got, const std::vector<bool>& l, unsigned dir, unsigned n, const char* name)
  {
    std::vector<bytes> exp;
    for (unsigned i = 0; i < n; ++i) { if (i >= l.size() || !l[i]) { exp.push_back(payload(dir, i)); } }
    if (got != exp) { mc::fail("proxy", std::string(name) + ": " + S(got.size()) + " packets come through, expected the " + S(exp.size()) + " the loss file lets pass"); }
    h = h * 131 + got.size();
  };
  check(got_b, la, 0, ea, "a to b"); check(got_a, lb, 1, eb, "b to a");
  if (!p.alive()) { mc::fail("proxy", "the proxy ended"); }
  ch.outcome(h);
}

// Many packets, of every size up to the largest, one at a time.
void proxy_long(mc::Chooser& ch, unsigned n)
{
  const bool back = ch.choose(2), sizes = ch.choose(2);
  const auto file = scratch() + "/long." + S(unsigned(::getpid()));
  const auto lost = [&](unsigned i) { return !sizes && i && i + 1 < n && i % 5 < 3; };
  { std::ofstream o(file); for (unsigned i = 0; i < n; ++i) { o << (lost(i) ? '1' : '0') << '\n'; } }
  { std::ofstream o(file + ".none"); }
  Sock a, b; Proc p;
  if (!p.start("lossy_proxy", [&](unsigned short port) { return std::vector<std::string>{S(port), "127.0.0.1", S(b.port), "file", back ? file + ".none" : file, back ? file : file + ".none"}; }))
  { mc::fail("proxy", "the proxy does not start"); }
  unsigned short via = 0, f = 0; bytes x;
  if (back)
  {
    a.send({1}, p.port);
    if (!b.recv(x, via, 8000)) { mc::fail("proxy", "a packet is not forwarded with an empty loss file"); }
  }
  auto& from = back ? b : a; auto& to = back ? a : b;
  const unsigned m = sizes ? 4096 : n + 300;
  for (unsigned i = 0; i < m; ++i)
  {
    ch.step();
    bytes y(sizes ? i + 1 : 8 + i % 40);
    for (std::size_t k = 0; k < y.size(); ++k) { y[k] = static_cast<unsigned char>(i * 31 + (i >> 8) + k * 7 + (k >> 8)); }
    from.send(y, back ? via : p.port);
    if (i < n && lost(i)) { if (i % 1000 == 3 && to.recv(x, f, 20)) { mc::fail("proxy", "packet " + S(i) + " is forwarded, its line says otherwise"); } continue; }
    if (!to.recv(x, f, 8000)) { mc::fail("proxy", "packet " + S(i) + " of " + S(y.size()) + " bytes is not forwarded"); }
    if (x != y) { mc::fail("proxy", "packet " + S(i) + " of " + S(y.size()) + " bytes is expected, another one of " + S(x.size()) + " comes through"); }
  }
  if (to.recv(x, f, 5)) { mc::fail("proxy", "packets are repeated"); }
  if (!p.alive()) { mc::fail("proxy", "the proxy ended"); }
  ch.outcome(m * 2 + (back ? 1 : 0));
}

// The random models through the command line of the proxy: each direction has its own parameters and
// its own draws, which are those of a model of its own.
void proxy_models(mc::Chooser& ch)
{
  static const unsigned pu[] = {1, 20, 50, 80, 99}, pb[][2] = {{98, 30}, {60, 80}, {101, 0}, {50, 50}, {20, 90}};
  const bool burst = ch.choose(2);
  const unsigned i = unsigned(ch.choose(5)), j = unsigned(ch.choose(5));
  const auto fates = [](std::function<bool()> m)
  {
    std::vector<bool> l; std::size_t last = 0;
    for (std::size_t k = 0; k < 1200 && (k < 120 || !last); ++k) { l.push_back(m()); if (!l.back()) { last = k + 1; } }
    l.resize(last); return l; // ends with a forwarded one
  };
  std::vector<bool> la, lb; std::vector<std::string> args;
  if (burst)
  {
    la = fates(loss::burst(pb[i][0], pb[i][1])); lb = fates(loss::burst(pb[j][0], pb[j][1]));
    args = {"burst", S(pb[i][0]), S(pb[i][1]), S(pb[j][0]), S(pb[j][1])};
  }
  else
  {
    la = fates(loss::uniform(100 - pu[i])); lb = fates(loss::uniform(100 - pu[j]));
    args = {"uniform", S(pu[i]), S(pu[j])};
  }
  ch.log([&] { std::string s = "proxy"; for (auto& x : args) { s += " " + x; } return s; });
  Sock a, b;
  Proc p;
  if (!p.start("lossy_proxy", [&](unsigned short port) { std::vector<std::string> v{S(port), "127.0.0.1", S(b.port)}; v.insert(v.end(), args.begin(), args.end()); return v; }))
  { mc::fail("proxy", "the proxy does not start"); }
  unsigned short via = 0, f = 0; bytes x;
  const auto pl = [](unsigned dir, unsigned k) { return bytes{static_cast<unsigned char>(dir), static_cast<unsigned char>(k), static_cast<unsigned char>(k >> 8)}; };
  const auto direction = [&](Sock& from, Sock& to, const std::vector<bool>& l, unsigned dir)
  {
    unsigned next = 0; // next packet to be seen
    for (unsigned k = 0; k < l.size(); ++k)
    {
      ch.step();
      from.send(pl(dir, k), dir ? via : p.port);
      if (l[k]) { continue; }
      while (next < k && l[next]) { ++next; }
      if (!to.recv(x, f, 8000)) { mc::fail("proxy", std::string(dir ? "b to a" : "a to b") + ": packet " + S(k) + " is not forwarded"); }
      if (x != pl(dir, k)) { mc::fail("proxy", std::string(dir ? "b to a" : "a to b") + ": packet " + S(k) + " is expected, " + S(x.size() > 2 ? x[1] + 256u * x[2] : 0u) + " comes through"); }
      if (!dir) { via = f; }
      next = k + 1;
    }
    if (to.recv(x, f, 0)) { mc::fail("proxy", "packets are reordered or repeated"); }
  };
  if (la.empty()) { return; }
  direction(a, b, la, 0);
  direction(b, a, lb, 1);
  if (!p.alive()) { mc::fail("proxy", "the proxy ended"); }
  ch.outcome(la.size() * 2000 + lb.size() + (burst ? 1 : 0));
}

// --- source forwarder ---------------------------------------------------------------------------
const Traffic& traffic(int w, const std::string& s)
{
  static std::map<std::string, Traffic> cache;
  const auto k = s + S(unsigned(w));
  auto it = cache.find(k);
  if (it == cache.end()) { EncCfg c; c.w = w; c.sizes = 4; it = cache.emplace(k, run_script(c, s)).first; }
  return it->second;
}

// The process is kept for the whole work unit: each history ends with a marked source.
void forwarder(mc::Chooser& ch, int len)
{
  static std::unique_ptr<Sock> in, out; static std::unique_ptr<Proc> p; static pid_t owner = 0;
  if (owner != ::getpid())
  {
    (void)p.release(); in.reset(new Sock); out.reset(new Sock); p.reset(new Proc); owner = ::getpid();
    if (!p->start("source_forwarder", [&](unsigned short port) { return std::vector<std::string>{S(port), "127.0.0.1", S(out->port)}; }))
    { mc::fail("forwarder", "the forwarder does not start"); }
  }
  static unsigned mark = 0;
  const auto& t = traffic(8, "SSSRSSSSSRAR");
  static const std::vector<bytes> other{ref::mk_ack(1, {0, 5}), bytes{7, 1, 2, 3}, bytes{255}, bytes{0}, bytes{1}, bytes{3, 0, 0, 0, 1, 0, 2, 65, 66}};
  std::vector<bytes> exp;
  const int np = int(t.items.size());
  for (int i = 0; i < len; ++i)
  {
    ch.step();
    const int k = ch.choose(np + int(other.size()) + 2);
    bytes b;
    if (k < np) { b = t.items[std::size_t(k)].raw; if (t.items[std::size_t(k)].k.type == 2) { exp.push_back(t.items[std::size_t(k)].k.sym); } }
    else if (k < np + int(other.size())) { b = other[std::size_t(k - np)]; }
    else { const auto d = block(unsigned(k), k == np + int(other.size()) ? 4080 : 16); b = ref::mk_source(0xfffffff0u + unsigned(k % 16), d); exp.push_back(d); }
    ch.log([&] { return "datagram of " + S(b.size()) + " bytes, type " + S(b[0]); });
    in->send(b, p->port);
  }
  bytes m(9, 0x5a); ++mark; for (int i = 0; i < 4; ++i) { m[std::size_t(i)] = static_cast<unsigned char>(mark >> (8 * i)); }
  exp.push_back(m);
  in->send(ref::mk_source(77, m), p->port);
  std::vector<bytes> got; bytes x; unsigned short f;
  while (got.empty() || got.back() != m)
  {
    if (!out->recv(x, f, 8000)) { owner = 0; p->stop(); mc::fail("forwarder", "the block of a source is not forwarded unchanged"); }
    got.push_back(x);
  }
  if (got != exp) { owner = 0; p->stop(); mc::fail("forwarder", S(got.size()) + " datagrams are forwarded, expected the " + S(exp.size()) + " blocks of the sources, in their order"); }
  std::uint64_t h = 1; for (std::size_t i = 0; i + 1 < got.size(); ++i) { h = mc::fnv(got[i].data(), got[i].size(), h); }
  ch.outcome(h);
}

// Many datagrams; blocks of every size.
void forwarder_long(mc::Chooser& ch, unsigned n)
{
  const int mode = ch.choose(3);
  Sock in, out; Proc p;
  if (!p.start("source_forwarder", [&](unsigned short port) { return std::vector<std::string>{S(port), "127.0.0.1", S(out.port)}; }))
  { mc::fail("forwarder", "the forwarder does not start"); }
  bytes x; unsigned short f;
  const unsigned m = mode == 0 ? 4090 : mode == 1 ? n : 300; // 4096 bytes with the header
  for (unsigned i = 0; i < m; ++i)
  {
    ch.step();
    if (mode == 2) { for (unsigned j = 0; j < 260; ++j) { bytes o{static_cast<unsigned char>(j % 256 == 2 ? 9 : j), 0, 0, 0, 1, 0, 1, 66}; in.send(o, p.port); if (j % 64 == 63) { const auto d = block(j, 5); in.send(ref::mk_source(j, d), p.port); if (!out.recv(x, f, 8000) || x != d) { mc::fail("forwarder", "the block of a source after other packets is not what is forwarded"); } } } }
    const auto d = block(i, mode == 0 ? i : 1 + i % 50);
    in.send(ref::mk_source(mode == 1 ? i * 65521u : i, d), p.port);
    if (!out.recv(x, f, 8000)) { mc::fail("forwarder", "the block of " + S(d.size()) + " bytes of source " + S(i) + " is not forwarded"); }
    if (x != d) { mc::fail("forwarder", "the block of " + S(d.size()) + " bytes of source " + S(i) + " is forwarded as " + S(x.size()) + " other bytes"); }
  }
  if (out.recv(x, f, 5)) { mc::fail("forwarder", "blocks are repeated"); }
  ch.outcome(m);
}

std::vector<mc::Job> jobs()
{
  const bool T = mc::options().thorough;
  std::vector<mc::Job> js;
  const auto add = [&](const std::string& n, std::function<void(mc::Chooser&)> f, int shards, int depth)
  { mc::Job j; j.name = n; j.body = std::move(f); j.shards = shards; j.shard_depth = depth; js.push_back(j); };
  if (mc::options().property == "C27")
  {
    traffic(8, "SSSRSSSSSRAR");
    add("forwarder", [T](mc::Chooser& ch) { forwarder(ch, T ? 5 : 4); }, 8, 2);
    add("forwarder long", [](mc::Chooser& ch) { forwarder_long(ch, 70000); }, 3, 1);
    return js;
  }
  add("loss file", [T](mc::Chooser& ch) { stream_model(ch, T ? 6 : 5); }, 16, 3);
  add("loss file long", stream_long, 16, 2);
  add("uniform", uniform_model, 1, 0);
  add("burst", burst_model, 1, 0);
  add("proxy", [T](mc::Chooser& ch) { proxy(ch, T ? 8 : 6, T ? 6 : 5); }, 16, 4);
  add("proxy, one file", [T](mc::Chooser& ch) { proxy(ch, T ? 8 : 6, 0, true); }, 8, 4);
  add("proxy long", [](mc::Chooser& ch) { proxy_long(ch, 70000); }, 4, 2);
  add("proxy models", proxy_models, 10, 2);
  return js;
}

} // anon

int main(int argc, char** argv) { return mc::main_(argc, argv, jobs); }
