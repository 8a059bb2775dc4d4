// Linked to tools/replay.cc: counts its field operations and leaves the number in a file at exit.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
extern void (*g_gf_point)();
namespace {
std::uint64_t ops = 0;
struct Probe
{
  Probe() { g_gf_point = [] { ++ops; }; }
  ~Probe()
  {
    if (const char* f = std::getenv("REPLAY_OPS")) { if (FILE* o = std::fopen(f, "w")) { std::fprintf(o, "%llu\n", static_cast<unsigned long long>(ops)); std::fclose(o); } }
  }
} probe;
}
