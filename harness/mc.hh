// Stateless bounded-exhaustive explorer.
//
// A job is a function of a Chooser: it runs the real code once and asks the Chooser for every
// nondeterministic choice. The explorer enumerates *all* choice sequences (depth first, odometer),
// optionally bounding the number of deviations from the default answer (alternative 0).
// Jobs are sharded over forked workers; a worker that crashes, hangs or reports a violation leaves
// its choice sequence in shared memory. A finding is replayed twice before it is reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Violation { std::string oracle, msg; };
[[noreturn]] void fail(const std::string& oracle, const std::string& msg);

struct Pt { std::uint16_t choice, n; };

class Chooser
{
public:
  std::vector<std::uint16_t> prefix;
  std::vector<Pt> trail;
  int bound = 1 << 30;
  int used = 0;
  bool verbose = false;
  std::uint64_t steps = 0;

  // n equally cheap alternatives
  int choose(int n) { return take(n, 0); }
  // alternative 0 is the default, the others are deviations
  int deviate(int n) { return take(n, 1); }
  bool can_deviate() const { return used < bound; }
  // one operation executed on the code under test
  void step() { ++steps; }
  // fingerprint of what was observed
  void outcome(std::uint64_t h);
  // human readable trace (only rendered when replaying)
  template <typename F> void log(F&& f) { if (verbose) { logline(f()); } }
  void logline(const std::string&);

  void begin(const std::vector<std::uint16_t>& p) { prefix = p; trail.clear(); used = 0; steps = 0; }

private:
  int take(int n, int cost);
};

struct Job
{
  std::string name;
  std::function<void(Chooser&)> body;
  int bound = 1 << 30;   // deviation bound
  int shards = 1;        // work units
  int shard_depth = 0;   // choices hashed to select a shard
};

// Record that a listed known finding was observed; a violation if it is not listed.
void known(const std::string& id, const std::string& oracle, const std::string& msg);
// Extra named counter for the evidence file.
void count(const char* name, std::uint64_t v = 1);
// A sample written to the evidence file (a few are kept).
void sample(const std::string& s);

struct Options
{
  std::string property;
  bool thorough = false;
  int workers = 8;
  int hang_s = 20;
};
const Options& options();

// Entry point: parses --property P --tier T --out FILE --replay-dir D --known id,id --replay FILE.
// `jobs` builds the job list for the property. Returns the process exit code.
int main_(int argc, char** argv, std::function<std::vector<Job>()> jobs);

std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull);

} // namespace mc

// Virtual time (in harness_common.cc): what std::chrono clocks return.
extern std::int64_t g_steady_ns;
extern std::int64_t g_system_ns;
// Number of live galois fields.
extern int g_live_gf;
