#include "mc.hh"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

namespace mc {

namespace {

constexpr int kMaxTrail = 8192;
constexpr int kMaxWorkers = 64;
constexpr int kOutBits = 24;
constexpr int kMaxCounters = 32;
constexpr int kMaxSamples = 6;

struct Slot
{
  std::atomic<int> job, shard;
  std::atomic<int> len;
  std::atomic<std::uint64_t> heartbeat;
  std::uint16_t trail[kMaxTrail];
  std::uint64_t execs, nodes, steps, units;
  int max_len;
  int violated;
  char oracle[64];
  char msg[4096];
  char cname[kMaxCounters][48];
  std::uint64_t cval[kMaxCounters];
  char samples[kMaxSamples][512];
  int nsamples;
  int nknown;
  char known[8][512];
};

struct Shared
{
  std::atomic<int> next_unit;
  std::atomic<int> stop;
  std::atomic<std::uint32_t> outcomes[(1 << kOutBits) / 32];
  Slot slot[kMaxWorkers];
};

Shared* g_sh;
Slot* g_slot;
Options g_opt;
std::set<std::string> g_known_listed;
bool g_replaying = false;

double now()
{
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

std::string jesc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') { o += "\\n"; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else { o += char(c); }
  }
  return o;
}

} // anon

const Options& options() { return g_opt; }

void fail(const std::string& o, const std::string& m) { throw Violation{o, m}; }

std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h)
{
  auto c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}

int Chooser::take(int n, int cost)
{
  if (n < 1) { std::fprintf(stderr, "MC: choose(%d)\n", n); _exit(66); }
  const int eff = (cost && used >= bound) ? 1 : n;
  const auto i = trail.size();
  int c = 0;
  if (i < prefix.size())
  {
    c = prefix[i];
    if (c >= eff)
    {
      std::fprintf(stderr, "MC: replay divergence at choice %zu: %d of %d\n", i, c, eff);
      _exit(66);
    }
  }
  trail.push_back({static_cast<std::uint16_t>(c), static_cast<std::uint16_t>(eff)});
  if (g_slot && i < kMaxTrail)
  {
    g_slot->trail[i] = static_cast<std::uint16_t>(c);
    g_slot->len.store(int(i) + 1, std::memory_order_relaxed);
  }
  if (c && cost) { ++used; }
  return c;
}

void Chooser::outcome(std::uint64_t h)
{
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  const auto b = h & ((1u << kOutBits) - 1);
  g_sh->outcomes[b / 32].fetch_or(1u << (b % 32), std::memory_order_relaxed);
}

void Chooser::logline(const std::string& s) { std::printf("    %s\n", s.c_str()); std::fflush(stdout); }

void known(const std::string& id, const std::string& oracle, const std::string& msg)
{
  if (!g_known_listed.count(id)) { fail(oracle, msg); }
  if (!g_slot) { return; }
  const auto s = id + "\t" + msg;
  for (int i = 0; i < g_slot->nknown; ++i)
  {
    if (std::strncmp(g_slot->known[i], (id + "\t").c_str(), id.size() + 1) == 0) { return; }
  }
  if (g_slot->nknown < 8) { std::snprintf(g_slot->known[g_slot->nknown++], 512, "%s", s.c_str()); }
}

namespace { std::vector<std::pair<const char*, std::uint64_t>> g_pending_counts; }
// Only counted if the execution belongs to the work unit.
void count(const char* name, std::uint64_t v) { if (g_slot) { g_pending_counts.emplace_back(name, v); } }

namespace {
void commit_count(const char* name, std::uint64_t v)
{
  for (int i = 0; i < kMaxCounters; ++i)
  {
    if (!g_slot->cname[i][0]) { std::snprintf(g_slot->cname[i], 48, "%s", name); }
    if (std::strcmp(g_slot->cname[i], name) == 0) { g_slot->cval[i] += v; return; }
  }
}
} // anon

void sample(const std::string& s)
{
  if (g_slot && g_slot->nsamples < kMaxSamples)
  {
    std::snprintf(g_slot->samples[g_slot->nsamples++], 512, "%s", s.c_str());
  }
}

namespace {

// Explore one work unit; on violation fills the slot and returns false.
bool explore(const Job& job, int jobno, int shard)
{
  Chooser ch;
  ch.bound = job.bound;
  std::vector<std::uint16_t> prefix;
  std::size_t changed = 0;
  g_slot->job = jobno; g_slot->shard = shard;
  bool first = true;
  while (true)
  {
    g_slot->len.store(0, std::memory_order_relaxed);
    g_slot->heartbeat.fetch_add(1, std::memory_order_relaxed);
    ch.begin(prefix);
    g_pending_counts.clear();
    try { job.body(ch); }
    catch (const Violation& v)
    {
      std::snprintf(g_slot->oracle, sizeof g_slot->oracle, "%s", v.oracle.c_str());
      std::snprintf(g_slot->msg, sizeof g_slot->msg, "%s", v.msg.c_str());
      g_slot->violated = 1;
      return false;
    }
    if (ch.trail.size() > kMaxTrail) { std::fprintf(stderr, "MC: trail too long\n"); _exit(66); }
    if (g_sh->stop.load(std::memory_order_relaxed)) { return true; }

    std::size_t limit = ch.trail.size(); // first index not to be backtracked
    bool owned = true;
    if (job.shards > 1)
    {
      std::uint64_t h = 1469598103934665603ull;
      const auto d = std::min<std::size_t>(job.shard_depth, ch.trail.size());
      for (std::size_t i = 0; i < d; ++i) { h = fnv(&ch.trail[i].choice, 2, h); }
      h ^= h >> 31; h *= 0x94d049bb133111ebull; h ^= h >> 29;
      owned = int(h % std::uint64_t(job.shards)) == shard;
      if (!owned) { limit = d; }
    }
    if (owned)
    {
      ++g_slot->execs;
      for (auto& c : g_pending_counts) { commit_count(c.first, c.second); }
      g_slot->nodes += ch.trail.size() - std::min(changed, ch.trail.size()) + (first ? 1 : 0);
      g_slot->steps += ch.steps;
      g_slot->max_len = std::max(g_slot->max_len, int(ch.trail.size()));
      first = false;
    }
    // next
    std::size_t i = limit;
    while (i > 0 && ch.trail[i - 1].choice + 1 >= ch.trail[i - 1].n) { --i; }
    if (i == 0) { break; }
    prefix.resize(i);
    for (std::size_t k = 0; k + 1 < i; ++k) { prefix[k] = ch.trail[k].choice; }
    prefix[i - 1] = static_cast<std::uint16_t>(ch.trail[i - 1].choice + 1);
    changed = i - 1;
  }
  ++g_slot->units;
  return true;
}

struct Found { int job, shard; std::vector<std::uint16_t> trail; std::string kind, oracle, msg; };

// Runs a whole work unit in a fresh process: findings that need what earlier executions left behind.
std::string rerun_unit(const Job& job, int jobno, int shard, int limit_s, std::string& oracle, std::string& msg, const char* log)
{
  auto* s = &g_sh->slot[kMaxWorkers - 1];
  std::memset(static_cast<void*>(s), 0, sizeof *s);
  g_sh->stop = 0;
  std::fflush(stdout);
  const auto pid = fork();
  if (pid == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    const int fd = open(log, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
    g_slot = s;
    _exit(explore(job, jobno, shard) ? 0 : 77);
  }
  const auto t0 = now();
  int st = 0;
  while (waitpid(pid, &st, WNOHANG) != pid)
  {
    if (now() - t0 > limit_s) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return "ok"; }
    usleep(2000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { return "ok"; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { return "error"; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { oracle = s->oracle; msg = s->msg; return "violation"; }
  oracle = "crash"; msg = "process crashed";
  return "crash";
}

// Replays in a child; fills oracle/msg; returns kind ("ok","violation","crash","hang","error").
std::string replay_once(const Job& job, const std::vector<std::uint16_t>& trail, bool verbose
                       , int limit_s, std::string& oracle, std::string& msg, const char* log)
{
  auto* s = &g_sh->slot[kMaxWorkers - 1];
  std::memset(static_cast<void*>(s), 0, sizeof *s);
  std::fflush(stdout);
  const auto pid = fork();
  if (pid == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    const int fd = open(log, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
    g_slot = s; g_replaying = true;
    Chooser ch; ch.bound = job.bound; ch.verbose = verbose;
    ch.begin(trail);
    try { job.body(ch); }
    catch (const Violation& v)
    {
      std::snprintf(s->oracle, sizeof s->oracle, "%s", v.oracle.c_str());
      std::snprintf(s->msg, sizeof s->msg, "%s", v.msg.c_str());
      s->violated = 1;
    }
    std::fflush(stdout);
    _exit(0);
  }
  const auto t0 = now();
  int st = 0;
  while (true)
  {
    const auto r = waitpid(pid, &st, WNOHANG);
    if (r == pid) { break; }
    if (now() - t0 > limit_s)
    {
      kill(pid, SIGKILL); waitpid(pid, &st, 0);
      msg = "execution does not terminate (no progress for " + std::to_string(limit_s) + " s)";
      oracle = "termination";
      return "hang";
    }
    usleep(2000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
  {
    if (s->violated) { oracle = s->oracle; msg = s->msg; return "violation"; }
    return "ok";
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { return "error"; }
  oracle = "crash";
  std::ostringstream os;
  if (WIFSIGNALED(st)) { os << "process killed by signal " << WTERMSIG(st); }
  else { os << "process ended with status " << WEXITSTATUS(st); }
  std::ifstream in(log); std::string line; int n = 0;
  while (std::getline(in, line) && n < 6)
  {
    if (line.find("ERROR: AddressSanitizer") != std::string::npos
        || line.find("runtime error") != std::string::npos
        || line.find("terminate called") != std::string::npos
        || line.find("what():") != std::string::npos)
    { os << "; " << line.substr(0, 300); ++n; }
  }
  msg = os.str();
  return "crash";
}

} // anon

int main_(int argc, char** argv, std::function<std::vector<Job>()> mk)
{
  std::string out, rdir = ".", replay, only;
  bool list = false;
  double deadline_s = 0;
  for (int i = 1; i < argc; ++i)
  {
    const std::string a = argv[i];
    const auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") { g_opt.property = val(); }
    else if (a == "--tier") { g_opt.thorough = val() == "thorough"; }
    else if (a == "--out") { out = val(); }
    else if (a == "--replay-dir") { rdir = val(); }
    else if (a == "--workers") { g_opt.workers = std::atoi(val().c_str()); }
    else if (a == "--deadline") { deadline_s = std::atof(val().c_str()); }
    else if (a == "--replay") { replay = val(); }
    else if (a == "--only") { only = val(); }
    else if (a == "--list") { list = true; }
    else if (a == "--known")
    {
      std::stringstream ss(val()); std::string k;
      while (std::getline(ss, k, ',')) { if (!k.empty()) { g_known_listed.insert(k); } }
    }
    else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE
                                  , MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (g_sh == MAP_FAILED) { perror("mmap"); return 2; }

  if (!replay.empty())
  {
    // property / tier / job / choices
    std::ifstream in(replay); std::string key, jobname; std::vector<std::uint16_t> tr; int unit = -1;
    std::string line;
    while (std::getline(in, line))
    {
      std::istringstream ls(line); ls >> key;
      if (key == "property") { ls >> g_opt.property; }
      else if (key == "tier") { std::string t; ls >> t; g_opt.thorough = t == "thorough"; }
      else if (key == "job") { std::getline(ls, jobname); jobname.erase(0, jobname.find_first_not_of(' ')); }
      else if (key == "unit") { ls >> unit; }
      else if (key == "choices") { int c; while (ls >> c) { tr.push_back(std::uint16_t(c)); } }
    }
    for (const auto& j : mk())
    {
      if (j.name != jobname) { continue; }
      std::string o, m;
      const auto log = rdir + "/replay.log";
      const auto k = unit >= 0 ? rerun_unit(j, 0, unit, 300, o, m, log.c_str()) : replay_once(j, tr, true, 120, o, m, log.c_str());
      std::ifstream l(log); std::string s; while (std::getline(l, s)) { std::printf("%s\n", s.c_str()); }
      std::printf("replay: %s %s %s\n", k.c_str(), o.c_str(), m.c_str());
      return k == "ok" ? 0 : 1;
    }
    std::fprintf(stderr, "no job '%s'\n", jobname.c_str());
    return 2;
  }

  auto jobs = mk();
  if (!only.empty())
  {
    jobs.erase(std::remove_if(jobs.begin(), jobs.end(), [&](const Job& j)
      { return j.name.find(only) == std::string::npos; }), jobs.end());
  }
  if (list) { for (const auto& j : jobs) { std::printf("%s\n", j.name.c_str()); } return 0; }
  if (jobs.empty()) { std::fprintf(stderr, "no jobs for %s\n", g_opt.property.c_str()); return 2; }
  std::vector<std::pair<int,int>> units;
  for (std::size_t j = 0; j < jobs.size(); ++j)
  {
    for (int s = 0; s < jobs[j].shards; ++s) { units.emplace_back(int(j), s); }
  }
  // big jobs first
  std::stable_sort(units.begin(), units.end(), [&](const std::pair<int,int>& a, const std::pair<int,int>& b)
    { return jobs[a.first].shards > jobs[b.first].shards; });

  const int W = std::min<int>(std::min(g_opt.workers, kMaxWorkers - 1), int(units.size()));
  const auto t0 = now();
  std::vector<pid_t> pid(W, -1);
  std::vector<std::uint64_t> hb(W, 0);
  std::vector<double> hbt(W, t0);
  for (int w = 0; w < W; ++w)
  {
    std::fflush(stdout);
    const auto p = fork();
    if (p == 0)
    {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      const auto log = rdir + "/worker." + std::to_string(w) + ".log";
      const int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
      g_slot = &g_sh->slot[w];
      while (!g_sh->stop.load())
      {
        const int u = g_sh->next_unit.fetch_add(1);
        if (u >= int(units.size())) { break; }
        if (!explore(jobs[units[u].first], units[u].first, units[u].second)) { _exit(77); }
      }
      _exit(0);
    }
    pid[w] = p;
  }
  std::vector<Found> found;
  bool capped = false;
  int alive = W, harness_error = 0;
  while (alive > 0)
  {
    for (int w = 0; w < W; ++w)
    {
      if (pid[w] < 0) { continue; }
      auto& s = g_sh->slot[w];
      int st = 0;
      const auto take_trail = [&]
      {
        return std::vector<std::uint16_t>(s.trail, s.trail + std::min(s.len.load(), kMaxTrail));
      };
      if (waitpid(pid[w], &st, WNOHANG) == pid[w])
      {
        pid[w] = -1; --alive;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { ++harness_error; g_sh->stop = 1; continue; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { ++harness_error; g_sh->stop = 1; continue; } // out of memory
        found.push_back({s.job.load(), s.shard.load(), take_trail(), s.violated ? "violation" : "crash", s.oracle, s.msg});
        g_sh->stop = 1;
        continue;
      }
      const auto h = s.heartbeat.load();
      if (h != hb[w]) { hb[w] = h; hbt[w] = now(); }
      else if (now() - hbt[w] > g_opt.hang_s)
      {
        if (h == 0 && !g_sh->stop) { continue; }
        kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
        pid[w] = -1; --alive;
        if (!g_sh->stop || found.empty())
        { found.push_back({s.job.load(), s.shard.load(), take_trail(), "hang", "termination", ""}); }
        g_sh->stop = 1;
      }
    }
    if (deadline_s > 0 && now() - t0 > deadline_s && !g_sh->stop) { capped = true; g_sh->stop = 1; }
    usleep(3000);
  }
  const auto wall = now() - t0;

  // merge
  std::uint64_t execs = 0, nodes = 0, steps = 0, un = 0; int maxlen = 0;
  std::map<std::string, std::uint64_t> counters;
  std::map<std::string, std::string> knowns;
  std::vector<std::string> samples;
  for (int w = 0; w < W; ++w)
  {
    const auto& s = g_sh->slot[w];
    execs += s.execs; nodes += s.nodes; steps += s.steps; un += s.units; maxlen = std::max(maxlen, s.max_len);
    for (int i = 0; i < kMaxCounters && s.cname[i][0]; ++i) { counters[s.cname[i]] += s.cval[i]; }
    for (int i = 0; i < s.nsamples && samples.size() < 8; ++i) { samples.push_back(s.samples[i]); }
    for (int i = 0; i < s.nknown; ++i)
    {
      const std::string k = s.known[i]; const auto t = k.find('\t');
      knowns.emplace(k.substr(0, t), k.substr(t + 1));
    }
  }
  std::uint64_t outcomes = 0;
  for (auto& o : g_sh->outcomes) { outcomes += __builtin_popcount(o.load()); }

  // confirm
  int rc = harness_error ? 2 : 0;
  std::string vjson = "null";
  std::sort(found.begin(), found.end(), [](const Found& a, const Found& b)
    { return a.trail.size() < b.trail.size(); });
  for (auto& f : found)
  {
    std::string o1, m1, o2, m2;
    const int lim = f.kind == "hang" ? 90 : 60;
    const auto log = rdir + "/replay.log";
    const auto k1 = replay_once(jobs[f.job], f.trail, true, lim, o1, m1, log.c_str());
    std::string trace;
    { std::ifstream l(log); std::string s; int n = 0; while (std::getline(l, s) && n++ < 400) { trace += s + "\n"; } }
    const auto k2 = replay_once(jobs[f.job], f.trail, false, lim, o2, m2, (log + "2").c_str());
    if (k1 == "ok" && k2 == "ok" && f.kind == "hang") { rc = std::max(rc, 0); continue; } // slow, not stuck
    const auto bad = [](const std::string& k) { return k != "ok" && k != "error"; };
    auto kind = k1;
    bool whole_unit = false;
    if (!bad(k1) || !bad(k2))
    {
      const auto k3 = rerun_unit(jobs[f.job], f.job, f.shard, 200, o1, m1, (log + "3").c_str());
      if (!bad(k3))
      {
        std::fprintf(stderr, "MC: finding did not replay (%s/%s/%s) job %s: %s %s\n"
                    , k1.c_str(), k2.c_str(), k3.c_str(), jobs[f.job].name.c_str(), f.kind.c_str(), f.msg.c_str());
        rc = 2;
        continue;
      }
      kind = k3; whole_unit = true;
    }
    const auto path = rdir + "/" + g_opt.property + ".replay";
    std::ofstream r(path);
    r << "property " << g_opt.property << "\ntier " << (g_opt.thorough ? "thorough" : "quick")
      << "\njob " << jobs[f.job].name << "\nchoices";
    for (auto c : f.trail) { r << ' ' << c; }
    if (whole_unit) { r << "\nunit " << f.shard; }
    r << "\n# " << kind << " oracle=" << o1 << "\n# " << m1 << "\n# trace:\n";
    { std::istringstream ts(trace); std::string s; while (std::getline(ts, s)) { r << "# " << s << "\n"; } }
    r.close();
    std::ostringstream v;
    v << "{\"kind\":\"" << kind << "\",\"oracle\":\"" << jesc(o1) << "\",\"msg\":\"" << jesc(m1) << "\",\"job\":\""
      << jesc(jobs[f.job].name) << "\",\"replay\":\"" << jesc(path) << "\"}";
    vjson = v.str();
    rc = 1;
    break;
  }
  if (rc == 0 && !found.empty())
  {
    // every candidate was a slow execution: the exploration is incomplete
    std::fprintf(stderr, "MC: exploration interrupted by slow executions\n");
    rc = 2;
  }
  std::ostringstream js;
  js << "{\"executions\":" << execs << ",\"states\":" << nodes << ",\"transitions\":" << steps
     << ",\"jobs\":" << jobs.size() << ",\"units_done\":" << un << ",\"units\":" << units.size()
     << ",\"max_choices\":" << maxlen << ",\"distinct_outcomes\":" << outcomes
     << ",\"exhaustive\":" << ((!capped && rc == 0) ? "true" : "false") << ",\"wall_s\":" << wall
     << ",\"counters\":{";
  bool c = false;
  for (const auto& kv : counters) { js << (c ? "," : "") << "\"" << jesc(kv.first) << "\":" << kv.second; c = true; }
  js << "},\"samples\":[";
  c = false;
  for (const auto& s : samples) { js << (c ? "," : "") << "\"" << jesc(s) << "\""; c = true; }
  js << "],\"job_names\":[";
  c = false;
  for (const auto& j : jobs) { js << (c ? "," : "") << "\"" << jesc(j.name) << "\""; c = true; }
  js << "],\"known\":{";
  c = false;
  for (const auto& kv : knowns) { js << (c ? "," : "") << "\"" << jesc(kv.first) << "\":\"" << jesc(kv.second) << "\""; c = true; }
  js << "},\"violation\":" << vjson << ",\"rc\":" << rc << "}";
  if (!out.empty()) { std::ofstream o(out); o << js.str() << "\n"; }
  else { std::printf("%s\n", js.str().c_str()); }
  return rc;
}

} // namespace mc
