// Seams shared by all harnesses: virtual clocks and a cache of Galois field tables.
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include "mc.hh"
extern "C" {
#include <gf_complete.h>
}

std::int64_t g_steady_ns = 1000000000000ll;
std::int64_t g_system_ns = 1700000000000000000ll;
int g_live_gf = 0;
// When set, asked whether the initialisation of a field fails.
bool (*g_fail_gf_init)() = nullptr;
// When set, called before each field operation (a scheduling point).
void (*g_gf_point)() = nullptr;

// These replace the definitions of libstdc++: the harness owns time.
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept
{ return time_point(duration(g_steady_ns)); }
system_clock::time_point system_clock::now() noexcept
{ return time_point(duration_cast<duration>(nanoseconds(g_system_ns))); }
}}}

// Building the tables of a field takes up to 2 ms: released fields are kept and handed out again. A
// field in use belongs to one object only (some operations of the field library update its tables).
// The handles given out forward each operation, with a scheduling point; the field library is not
// instrumented: what its region operations touch is checked here.
extern "C" void* __asan_region_is_poisoned(void*, std::size_t) __attribute__((weak));
extern "C" void __tsan_read_range(void*, unsigned long) __attribute__((weak));
extern "C" void __tsan_write_range(void*, unsigned long) __attribute__((weak));
extern "C" int __real_gf_init_easy(gf_t*, int);
extern "C" int __real_gf_free(gf_t*, int);

namespace {

struct Field { gf_t real; Field* next; int w; };
Field* g_free_fields[33];
char g_field_lock = 0;
struct Lock
{
  Lock() { while (__atomic_test_and_set(&g_field_lock, __ATOMIC_ACQUIRE)) {} }
  ~Lock() { __atomic_clear(&g_field_lock, __ATOMIC_RELEASE); }
};

gf_t& real_of(gf_t* g) { return reinterpret_cast<Field*>(g->scratch)->real; }

void check_region(const char* what, void* p, int n, bool write)
{
  if (n < 0) { std::fprintf(stderr, "negative length in a field operation\n"); std::abort(); }
  if (n > 0 && __asan_region_is_poisoned && __asan_region_is_poisoned(p, std::size_t(n)))
  {
    std::fprintf(stderr, "out of bounds %s of %d bytes at %p by a field operation\n", what, n, p);
    std::abort();
  }
  if (n > 0 && write && __tsan_write_range) { __tsan_write_range(p, static_cast<unsigned long>(n)); }
  if (n > 0 && !write && __tsan_read_range) { __tsan_read_range(p, static_cast<unsigned long>(n)); }
}
gf_val_32_t fwd_mul(gf_t* g, gf_val_32_t a, gf_val_32_t b)
{ if (g_gf_point) { g_gf_point(); } auto& r = real_of(g); return r.multiply.w32(&r, a, b); }
gf_val_32_t fwd_div(gf_t* g, gf_val_32_t a, gf_val_32_t b)
{ if (g_gf_point) { g_gf_point(); } auto& r = real_of(g); return r.divide.w32(&r, a, b); }
gf_val_32_t fwd_inv(gf_t* g, gf_val_32_t a)
{ if (g_gf_point) { g_gf_point(); } auto& r = real_of(g); return r.inverse.w32(&r, a); }
gf_val_32_t fwd_word(gf_t* g, void* p, int n, int i)
{ auto& r = real_of(g); return r.extract_word.w32(&r, p, n, i); }
void fwd_region(gf_t* g, void* s, void* d, gf_val_32_t v, int n, int x)
{
  if (g_gf_point) { g_gf_point(); }
  check_region("read", s, n, false);
  check_region("write", d, n, true);
  auto& r = real_of(g);
  r.multiply_region.w32(&r, s, d, v, n, x);
}
}

extern "C" int __wrap_gf_init_easy(gf_t* g, int w)
{
  if (g_fail_gf_init && g_fail_gf_init()) { return 0; }
  if (w != 4 && w != 8 && w != 16 && w != 32) { return __real_gf_init_easy(g, w); }
  Field* f = nullptr;
  { Lock l; f = g_free_fields[w]; if (f) { g_free_fields[w] = f->next; } }
  if (!f)
  {
    f = static_cast<Field*>(std::calloc(1, sizeof(Field)));
    f->w = w;
    if (!f || !__real_gf_init_easy(&f->real, w)) { std::free(f); return 0; }
  }
  std::memset(static_cast<void*>(g), 0, sizeof *g);
  g->multiply.w32 = fwd_mul; g->divide.w32 = fwd_div; g->inverse.w32 = fwd_inv;
  g->multiply_region.w32 = fwd_region; g->extract_word.w32 = fwd_word;
  g->scratch = f;
  __atomic_add_fetch(&g_live_gf, 1, __ATOMIC_RELAXED);
  return 1;
}

extern "C" int __wrap_gf_free(gf_t* g, int recursive)
{
  if (g->multiply.w32 != fwd_mul) { return __real_gf_free(g, recursive); }
  auto* f = reinterpret_cast<Field*>(g->scratch);
  std::memset(static_cast<void*>(g), 0, sizeof *g);
  __atomic_sub_fetch(&g_live_gf, 1, __ATOMIC_RELAXED);
  Lock l; f->next = g_free_fields[f->w]; g_free_fields[f->w] = f;
  return 1;
}

void warm_fields()
{
  for (int w : {4, 8, 16, 32}) { gf_t g[6]; for (auto& x : g) { __wrap_gf_init_easy(&x, w); } for (auto& x : g) { __wrap_gf_free(&x, 0); } }
}

extern "C" const char* __asan_default_options()
{
  return "detect_leaks=0:abort_on_error=0:exitcode=99:malloc_fill_byte=165:max_malloc_fill_size=1048576"
         ":hard_rss_limit_mb=6000:allocator_may_return_null=0:detect_odr_violation=0:quarantine_size_mb=16"
         ":handle_abort=1:print_summary=1:detect_stack_use_after_return=0"; // exceptions exhaust the fake stack
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=0"; }
