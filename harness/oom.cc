// Allocation failures behind the C interface (C17): every history of C calls up to the bound, and in
// it every single allocation (operator new, malloc and friends, field tables) made inside a C call
// fails once.
#include <cerrno>
#include <cstdlib>
#include <memory>
#include <new>
#include "netcode/c/data.h"
#include "netcode/c/decoder.h"
#include "netcode/c/encoder.h"
#include "netcode/c/packet.h"
#include "world.hh"

void warm_fields();
extern bool (*g_fail_gf_init)();

extern "C" void* __real_malloc(std::size_t);
extern "C" void* __real_calloc(std::size_t, std::size_t);
extern "C" void* __real_realloc(void*, std::size_t);
extern "C" void __real_free(void*);
extern "C" int __real_posix_memalign(void**, std::size_t, std::size_t);
extern "C" void* __real_aligned_alloc(std::size_t, std::size_t);

namespace {

std::string S(std::uint64_t v) { return std::to_string(v); }

// --- allocations made inside C calls ------------------------------------------------------------
mc::Chooser* g_ch = nullptr;
bool g_inside = false;    // inside a C call, outside a handler
bool g_failed = false;    // the failure took place
std::size_t g_allocs = 0; // allocations seen in this execution
constexpr std::size_t kTable = 1 << 16;
void* g_live[kTable];
std::size_t g_nb_live = 0;

std::size_t slot(void* p) { return (reinterpret_cast<std::uintptr_t>(p) >> 4) * 2654435761u % kTable; }
void remember(void* p)
{
  if (g_nb_live > kTable / 2) { std::abort(); }
  auto i = slot(p); while (g_live[i]) { i = (i + 1) % kTable; }
  g_live[i] = p; ++g_nb_live;
}
void forget(void* p)
{
  auto i = slot(p);
  while (g_live[i] && g_live[i] != p) { i = (i + 1) % kTable; }
  if (!g_live[i]) { return; }
  --g_nb_live;
  for (auto j = i;;) // backward shift deletion
  {
    j = (j + 1) % kTable;
    if (!g_live[j]) { break; }
    const auto k = slot(g_live[j]);
    if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) { continue; }
    g_live[i] = g_live[j]; i = j;
  }
  g_live[i] = nullptr;
}

bool fails()
{
  if (!g_inside || !g_ch) { return false; }
  g_inside = false; // the chooser allocates
  ++g_allocs;
  const bool f = !g_failed && g_ch->deviate(2) == 1;
  if (f) { g_failed = true; }
  g_inside = true;
  return f;
}
void* track(void* p) { if (p && g_inside) { remember(p); } return p; }
bool field_fails() { return fails(); }

struct In { In() { g_inside = true; } ~In() { g_inside = false; } };
struct Out { bool was = g_inside; Out() { g_inside = false; } ~Out() { g_inside = was; } };

void* take(std::size_t n) { return fails() ? nullptr : track(__real_malloc(n ? n : 1)); }
void* take_aligned(std::size_t n, std::size_t a)
{ void* p = nullptr; return fails() || __real_posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1) ? nullptr : track(p); }
void give(void* p) { if (p) { forget(p); __real_free(p); } }

} // anon

extern "C" void* __wrap_malloc(std::size_t n) { return take(n); }
extern "C" void* __wrap_calloc(std::size_t a, std::size_t b) { return fails() ? nullptr : track(__real_calloc(a, b)); }
extern "C" void* __wrap_realloc(void* p, std::size_t n)
{ if (fails()) { return nullptr; } if (p) { forget(p); } return track(__real_realloc(p, n)); }
extern "C" void __wrap_free(void* p) { give(p); }
extern "C" int __wrap_posix_memalign(void** p, std::size_t a, std::size_t n)
{ if (fails()) { return ENOMEM; } const int r = __real_posix_memalign(p, a, n); if (!r) { track(*p); } return r; }
extern "C" void* __wrap_aligned_alloc(std::size_t a, std::size_t n) { return fails() ? nullptr : track(__real_aligned_alloc(a, n)); }

void* operator new(std::size_t n) { if (auto* p = take(n)) { return p; } throw std::bad_alloc{}; }
void* operator new[](std::size_t n) { if (auto* p = take(n)) { return p; } throw std::bad_alloc{}; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

namespace {

void c_prepare(void* c, const char* p, std::size_t n) { Out o; PH{static_cast<Sink*>(c)}(p, n); }
void c_send(void* c) { Out o; PH{static_cast<Sink*>(c)}(); }
void c_read(void* c, const char* p, std::size_t n) { Out o; DH{static_cast<DataSink*>(c)}(p, n); }

// Runs one C call. Returns true when it completed, false when it reported the failure.
template <typename F> bool call(const char* what, F&& f)
{
  ntc_error e; e.type = ntc_unknown_error; e.message = nullptr;
  const bool before = g_failed;
  { In i; f(&e); }
  const bool failed_here = g_failed && !before;
  if (e.type != ntc_no_error && !failed_here) { mc::fail("error", std::string(what) + " reports error " + S(unsigned(e.type)) + " while no allocation failed"); }
  if (e.type != ntc_no_error && e.type != ntc_no_memory)
  { mc::fail("error", std::string(what) + " reports error " + S(unsigned(e.type)) + " instead of no memory"); }
  if (e.message) { std::free(e.message); }
  return e.type == ntc_no_error;
}
template <typename F> auto create(const char* what, F&& f) -> decltype(f())
{
  const bool before = g_failed;
  decltype(f()) p;
  { In i; p = f(); }
  if (!p && !(g_failed && !before)) { mc::fail("creation", std::string(what) + " returns null while no allocation failed"); }
  return p;
}
template <typename T> using Obj = std::unique_ptr<T, void (*)(T*)>;
template <typename T> Obj<T> own(T* p, void (*del)(T*)) { return Obj<T>(p, del); }

// --- what an execution does ---------------------------------------------------------------------
// false: stopped at a reported failure
bool encoder_history(mc::Chooser& ch, int w, int len, Sink& s)
{
  auto c = own(create("ntc_new_encoder", [&] { return ntc_new_encoder(static_cast<std::uint8_t>(w), ntc_packet_handler{&s, c_prepare, c_send}); }),
               +[](ntc_encoder_t* p) { ntc_delete_encoder(p); });
  if (!c) { return false; }
  ntc_encoder_set_rate(c.get(), std::size_t(1 + ch.choose(2)));
  unsigned n = 0;
  for (int i = 0; i < len; ++i)
  {
    ch.step();
    const auto add = [&](std::size_t sz, bool from)
    {
      const auto b = block(n++, sz);
      ch.log([&] { return "data of " + S(b.size()) + " bytes"; });
      Obj<ntc_data_t> d = from
        ? own(create("ntc_new_data_from", [&] { return ntc_new_data_from(reinterpret_cast<const char*>(b.data()), std::uint16_t(b.size())); }), +[](ntc_data_t* p) { ntc_delete_data(p); })
        : own(create("ntc_new_data", [&] { return ntc_new_data(3); }), +[](ntc_data_t* p) { ntc_delete_data(p); });
      if (!d) { return false; }
      if (!from)
      {
        if (!call("ntc_data_resize", [&](ntc_error* e) { ntc_data_resize(d.get(), std::uint16_t(b.size()), e); })) { return false; }
        std::memcpy(ntc_data_buffer(d.get()), b.data(), b.size());
      }
      return call("ntc_encoder_add_data", [&](ntc_error* e) { ntc_encoder_add_data(c.get(), d.get(), e); });
    };
    const auto pkt = [&](const bytes& b)
    {
      ch.log([&] { return "packet " + ref::hex(b); });
      auto p = own(create("ntc_new_packet_from", [&] { return ntc_new_packet_from(reinterpret_cast<const char*>(b.data()), std::uint16_t(b.size())); }), +[](ntc_packet_t* q) { ntc_delete_packet(q); });
      if (!p) { return false; }
      return call("ntc_encoder_add_packet", [&](ntc_error* e) { ntc_encoder_add_packet(c.get(), p.get(), e); });
    };
    bool ok = true;
    switch (ch.choose(7))
    {
      case 0: ok = add(block_size(w, 0, n), true); break;
      case 1: ok = add(block_size(w, 4, n), false); break;
      case 2: if (ntc_encoder_window(c.get())) { ch.log([] { return std::string("repair"); }); ok = call("ntc_encoder_generate_repair", [&](ntc_error* e) { ntc_encoder_generate_repair(c.get(), e); }); } break;
      case 3: ok = pkt(ref::mk_ack(1, {0})); break;
      case 4: ok = pkt(ref::mk_ack(1, {1, 2, 3})); break;
      case 5: ntc_encoder_set_code_type(c.get(), ntc_systematic_no); break;
      case 6: ntc_encoder_set_window_size(c.get(), 1); break;
    }
    if (!ok) { return false; }
  }
  return true;
}

const Traffic& traffic(int w, const std::string& s)
{
  static std::map<std::string, Traffic> cache;
  const auto k = s + S(unsigned(w));
  auto it = cache.find(k);
  if (it == cache.end()) { EncCfg c; c.w = w; c.sizes = 0; it = cache.emplace(k, run_script(c, s)).first; }
  return it->second;
}

bool decoder_history(mc::Chooser& ch, int w, const std::string& script, int len, Sink& s, DataSink& d)
{
  const auto& t = traffic(w, script);
  const bool o = ch.choose(2);
  auto c = own(create("ntc_new_decoder", [&] { return ntc_new_decoder(static_cast<std::uint8_t>(w), o ? ntc_in_order_yes : ntc_in_order_no, ntc_packet_handler{&s, c_prepare, c_send}, ntc_data_handler{&d, c_read}); }),
               +[](ntc_decoder_t* p) { ntc_delete_decoder(p); });
  if (!c) { return false; }
  if (ch.choose(2)) { ntc_decoder_set_ack_nb_packets(c.get(), 1); }
  std::vector<char> used(t.items.size(), 0);
  for (int i = 0; i < len; ++i)
  {
    ch.step();
    // any packet, once each (the last alternative: an ack)
    std::vector<int> alt; for (int k = 0; k < int(used.size()); ++k) { if (!used[std::size_t(k)]) { alt.push_back(k); } }
    alt.push_back(-1);
    const int k = alt[std::size_t(ch.choose(int(alt.size())))];
    if (k < 0)
    {
      if (!call("ntc_decoder_generate_ack", [&](ntc_error* e) { ntc_decoder_generate_ack(c.get(), e); })) { return false; }
      continue;
    }
    used[std::size_t(k)] = 1;
    const auto& b = t.items[std::size_t(k)].raw;
    ch.log([&] { return ref::show(ref::parse(b)); });
    auto p = own(create("ntc_new_packet", [&] { return ntc_new_packet(1); }), +[](ntc_packet_t* q) { ntc_delete_packet(q); });
    if (!p) { return false; }
    if (!call("ntc_packet_resize", [&](ntc_error* e) { ntc_packet_resize(p.get(), std::uint16_t(b.size()), e); })) { return false; }
    std::memcpy(ntc_packet_buffer(p.get()), b.data(), b.size());
    if (!call("ntc_decoder_add_packet", [&](ntc_error* e) { ntc_decoder_add_packet(c.get(), p.get(), e); })) { return false; }
  }
  return true;
}

bool container_history(mc::Chooser& ch, int len)
{
  static const std::uint16_t sz[] = {0, 1, 16, 17, 300, 65535};
  const bool data = ch.choose(2), from = ch.choose(2);
  const auto n0 = sz[ch.choose(6)];
  const bytes b = block(1, n0);
  const auto* q = n0 ? reinterpret_cast<const char*>(b.data()) : "";
  if (data)
  {
    auto d = own(create("ntc_new_data", [&] { return from ? ntc_new_data_from(q, n0) : ntc_new_data(n0); }), +[](ntc_data_t* p) { ntc_delete_data(p); });
    if (!d) { return false; }
    for (int i = 0; i < len; ++i) { ch.step(); const auto n = sz[ch.choose(6)]; if (!call("ntc_data_resize", [&](ntc_error* e) { ntc_data_resize(d.get(), n, e); })) { return false; } }
  }
  else
  {
    auto d = own(create("ntc_new_packet", [&] { return from ? ntc_new_packet_from(q, n0) : ntc_new_packet(n0); }), +[](ntc_packet_t* p) { ntc_delete_packet(p); });
    if (!d) { return false; }
    for (int i = 0; i < len; ++i) { ch.step(); const auto n = sz[ch.choose(6)]; if (!call("ntc_packet_resize", [&](ntc_error* e) { ntc_packet_resize(d.get(), n, e); })) { return false; } }
  }
  return true;
}

template <typename F> void execution(mc::Chooser& ch, F&& history)
{
  g_steady_ns = 1000000000000ll;
  g_ch = &ch; g_inside = false; g_failed = false; g_allocs = 0;
  const auto before = g_nb_live;
  bool completed = false;
  std::uint64_t h = 0;
  {
    Sink s; DataSink d;
    completed = history(s, d);
    for (auto& o : s.out) { h = mc::fnv(o.data(), o.size(), h); }
    for (auto& o : d.got) { h = mc::fnv(o.data(), o.size(), h); }
  }
  g_ch = nullptr;
  if (g_failed) { mc::count("allocation failures injected"); if (completed) { mc::count("failures that a call survived"); } }
  if (g_nb_live > before) { mc::fail("leak", S(g_nb_live - before) + " blocks allocated inside C calls are still there after everything was deleted"); }
  ch.outcome(h * 31 + g_allocs * 2 + g_failed);
}

std::vector<mc::Job> jobs()
{
  warm_fields();
  g_fail_gf_init = field_fails;
  const bool T = mc::options().thorough;
  std::vector<mc::Job> js;
  // at most one allocation fails, at any place
  const auto add = [&](const std::string& n, std::function<void(mc::Chooser&)> f, int shards, int depth)
  { mc::Job j; j.name = n; j.body = std::move(f); j.shards = shards; j.shard_depth = depth; j.bound = 1; js.push_back(j); };
  for (int w : {8, 4, 16, 32})
  {
    const auto wn = " w" + S(unsigned(w));
    add("encoder" + wn, [w, T](mc::Chooser& ch) { execution(ch, [&](Sink& s, DataSink&) { return encoder_history(ch, w, T ? 6 : 4, s); }); }, 32, 12);
    for (const char* sc : {"SSRR", "SSRaR", "SSSRRAR"})
    {
      traffic(w, sc);
      add(std::string("decoder ") + sc + wn, [w, T, sc](mc::Chooser& ch) { execution(ch, [&](Sink& s, DataSink& d) { return decoder_history(ch, w, sc, T ? 6 : 4, s, d); }); }, 32, 14);
    }
  }
  add("containers", [T](mc::Chooser& ch) { execution(ch, [&](Sink&, DataSink&) { return container_history(ch, T ? 4 : 3); }); }, 8, 6);
  return js;
}

} // anon

int main(int argc, char** argv) { return mc::main_(argc, argv, jobs); }
