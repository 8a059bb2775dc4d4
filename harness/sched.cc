#include "sched.hh"
#include <linux/futex.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <cstdlib>
#include <new>
#include <thread>

extern void (*g_gf_point)();

namespace sched {
namespace {

constexpr int kMax = 4;
mc::Chooser* g_ch = nullptr;
int g_turn = -1;             // who runs
int g_n = 0;
bool g_done[kMax];
pid_t g_tid[kMax];
std::uint64_t g_points = 0;
bool g_busy = false;         // inside the scheduler (only the running thread gets there)
__thread int t_me = -1;

void futex(int* a, int op, int v, const timespec* ts) { ::syscall(SYS_futex, a, op, v, ts, nullptr, 0); }
int turn() { return __atomic_load_n(&g_turn, __ATOMIC_SEQ_CST); }
void pass(int to) { __atomic_store_n(&g_turn, to, __ATOMIC_SEQ_CST); futex(&g_turn, FUTEX_WAKE_PRIVATE, 1 << 30, nullptr); }

// Is this thread asleep (on a lock of the code under test)?
bool asleep(int k)
{
  char path[64], buf[512];
  std::snprintf(path, sizeof path, "/proc/self/task/%d/stat", int(g_tid[k]));
  FILE* f = std::fopen(path, "r");
  if (!f) { return false; }
  const auto n = std::fread(buf, 1, sizeof buf - 1, f); std::fclose(f); buf[n] = 0;
  const char* p = std::strrchr(buf, ')');
  return p && p[1] == ' ' && p[2] == 'S';
}

void wait_turn(int me)
{
  int idle = 0; std::uint64_t last = ~0ull;
  while (true)
  {
    const int t = turn();
    if (t == me) { return; }
    timespec ts{0, 100000000};
    futex(&g_turn, FUTEX_WAIT_PRIVATE, t, &ts);
    // the one whose turn it is waits for a lock held by a suspended thread: go on with another
    const auto p = __atomic_load_n(&g_points, __ATOMIC_SEQ_CST);
    if (turn() == t && t >= 0 && p == last && asleep(t)) { if (++idle >= 4) { int e = t; if (__atomic_compare_exchange_n(&g_turn, &e, me, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { return; } idle = 0; } }
    else { idle = 0; }
    last = p;
  }
}

void leave(int me)
{
  g_done[me] = true;
  int alive[kMax], n = 0;
  for (int i = 0; i < g_n; ++i) { if (!g_done[i]) { alive[n++] = i; } }
  if (!n) { pass(-2); return; }
  g_busy = true;
  const int c = n > 1 ? g_ch->choose(n) : 0;
  g_busy = false;
  pass(alive[c]);
}

} // anon

std::uint64_t points() { return g_points; }

void point()
{
  const int me = t_me;
  if (me < 0 || !g_ch) { return; }
  if (turn() != me) { wait_turn(me); } // was taken for blocked
  if (g_busy) { return; }
  g_busy = true;
  __atomic_add_fetch(&g_points, 1, __ATOMIC_SEQ_CST);
  int alt[kMax], n = 0;
  alt[n++] = me;
  for (int i = 0; i < g_n; ++i) { if (i != me && !g_done[i]) { alt[n++] = i; } }
  const int c = n > 1 ? g_ch->deviate(n) : 0;
  g_busy = false;
  if (c) { pass(alt[c]); wait_turn(me); }
}

void run(mc::Chooser& ch, const std::vector<std::function<void()>>& bodies)
{
  g_n = int(bodies.size()); g_points = 0; g_busy = false;
  for (auto& d : g_done) { d = false; }
  ch.trail.reserve(1 << 14); // no allocation while threads run: the race detector would see it
  const int first = ch.choose(g_n);
  g_turn = -1;
  std::vector<std::thread> th;
  int ready = 0;
  for (int i = 0; i < g_n; ++i)
  {
    th.emplace_back([i, &bodies, &ready]
    {
      g_tid[i] = pid_t(::syscall(SYS_gettid));
      __atomic_add_fetch(&ready, 1, __ATOMIC_SEQ_CST);
      wait_turn(i);
      t_me = i;
      bodies[std::size_t(i)]();
      if (turn() != i) { wait_turn(i); }
      t_me = -1;
      leave(i);
    });
  }
  while (__atomic_load_n(&ready, __ATOMIC_SEQ_CST) != g_n) { ::sched_yield(); }
  g_ch = &ch;
  g_gf_point = point;
  pass(first);
  for (auto& t : th) { t.join(); }
  g_gf_point = nullptr;
  g_ch = nullptr;
}

} // namespace sched

// Allocations are scheduling points.
void* operator new(std::size_t n) { sched::point(); if (void* p = std::malloc(n ? n : 1)) { return p; } throw std::bad_alloc{}; }
void* operator new[](std::size_t n) { sched::point(); if (void* p = std::malloc(n ? n : 1)) { return p; } throw std::bad_alloc{}; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { sched::point(); return std::malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { sched::point(); return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
extern "C" const char* __tsan_default_options()
{ return "halt_on_error=1:exitcode=99:report_thread_leaks=0:history_size=2:handle_abort=0"; }
