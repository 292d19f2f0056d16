#include "memhook.h"
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <new>
#define NOI __attribute__((no_instrument_function, no_sanitize_thread))
namespace sim { MemHook g_mem; int g_nofail = 0; void (*g_on_alloc)(void*, size_t) = nullptr; }
using sim::g_mem;
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t); }

// open-addressing pointer set (the simulator is single threaded while tracking)
static const size_t kCap = 1u << 20;
static void** g_set = nullptr; static size_t g_used = 0;
NOI static size_t slot(void* p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 44; }
NOI static void track(void* p) {
  if (!g_mem.tracking || !p) return;
  if (!g_set) g_set = (void**)__real_calloc(kCap, sizeof(void*));
  if (g_used > kCap / 2) abort();
  size_t k = slot(p); while (g_set[k] && g_set[k] != (void*)1) k = (k + 1) & (kCap - 1);
  if (!g_set[k]) g_used++;
  g_set[k] = p; g_mem.live++;
}
NOI static void untrack(void* p) {
  if (!g_set || !p) return;
  size_t k = slot(p); while (g_set[k]) { if (g_set[k] == p) { g_set[k] = (void*)1; g_mem.live--; return; } k = (k + 1) & (kCap - 1); }
}
namespace sim {
long mem_live() { return g_mem.live; }
void mem_track_reset() { if (g_set) memset(g_set, 0, kCap * sizeof(void*)); g_used = 0; g_mem.live = 0; }
__attribute__((noinline)) void stir_stack(unsigned char c) { volatile char b[48 * 1024]; memset((void*)b, c, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
}
NOI static bool refuse() {
  if (!g_mem.failing || sim::g_nofail) return false;
  g_mem.count++;
  if (g_mem.count == g_mem.fail_at || (g_mem.persistent && g_mem.fail_at && g_mem.count > g_mem.fail_at)) { g_mem.failed++; return true; }
  return false;
}
NOI static size_t padded(size_t n) {
  if (!g_mem.pad) return n;
  g_mem.pad = g_mem.pad * 6364136223846793005ull + 1442695040888963407ull;
  return n + ((g_mem.pad >> 40) & 15) * 16;
}
NOI static void fill(void* p, unsigned char v, size_t n) { asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(v) : "memory"); }   // unseen by the access hook
NOI static void* get(size_t n) {
  if (refuse()) { errno = ENOMEM; return nullptr; }
  void* p = __real_malloc(padded(n ? n : 1));
  if (p && g_mem.fill) fill(p, g_mem.fresh, n);
  if (sim::g_on_alloc && p) sim::g_on_alloc(p, n);
  track(p); return p;
}
NOI static void put(void* p) { untrack(p); if (p && g_mem.fill) { size_t n = malloc_usable_size(p); fill(p, g_mem.freed, n > 256 ? 256 : n); } __real_free(p); }
extern "C" {
NOI void* __wrap_malloc(size_t n) { return get(n); }
NOI void __wrap_free(void* p) { put(p); }
NOI void* __wrap_calloc(size_t a, size_t b) { if (refuse()) { errno = ENOMEM; return nullptr; } void* p = __real_calloc(a, b); if (sim::g_on_alloc && p) sim::g_on_alloc(p, a * b); track(p); return p; }
NOI void* __wrap_realloc(void* o, size_t n) { if (refuse()) { errno = ENOMEM; return nullptr; } untrack(o); void* p = __real_realloc(o, n); if (sim::g_on_alloc && p) sim::g_on_alloc(p, n); track(p ? p : o); return p; }
NOI int __wrap_posix_memalign(void** o, size_t a, size_t n) { if (refuse()) return ENOMEM; int r = __real_posix_memalign(o, a, n); if (!r) { if (g_mem.fill) fill(*o, g_mem.fresh, n); if (sim::g_on_alloc) sim::g_on_alloc(*o, n); track(*o); } return r; }
NOI void* __wrap_aligned_alloc(size_t a, size_t n) { if (refuse()) { errno = ENOMEM; return nullptr; } void* p = __real_aligned_alloc(a, n); if (p && g_mem.fill) fill(p, g_mem.fresh, n); if (sim::g_on_alloc && p) sim::g_on_alloc(p, n); track(p); return p; }
}
NOI void* operator new(size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
NOI void* operator new[](size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
NOI void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
NOI void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
NOI void* operator new(size_t n, std::align_val_t a) { void* p = __wrap_aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); if (!p) throw std::bad_alloc(); return p; }
NOI void operator delete(void* p) noexcept { put(p); }
NOI void operator delete[](void* p) noexcept { put(p); }
NOI void operator delete(void* p, size_t) noexcept { put(p); }
NOI void operator delete[](void* p, size_t) noexcept { put(p); }
NOI void operator delete(void* p, std::align_val_t) noexcept { put(p); }
NOI void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
