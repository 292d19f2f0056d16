// World "chains" (C10): several sampling sessions in one process.  Each chain's history alone is the reference;
// it must be the same with other contents of fresh memory, another heap layout, after other activity, with its
// operations interleaved with other chains' on one thread, and on its own thread under a deterministic scheduler
// that decides at every function entry of the library which thread runs.
#include "session.h"
#include "checks.h"
#include "memhook.h"
#include <errno.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <condition_variable>
#include <mutex>
#include <thread>
#define NOI __attribute__((no_instrument_function, no_sanitize_thread))
namespace sim {

// ---------------------------------------------------------------- baton scheduler
struct Sched {
  std::mutex m; std::condition_variable cv;
  int running = -1; std::vector<char> alive; bool on = false;
  uint64_t rng = 1; uint32_t threshold = 0; long max_switches = 0, switches = 0, points = 0;
  long blocked = 0, hot = 0, max_conflict = 0, conflict = 0; uint32_t conflict_threshold = 0;   // switches where two chains touch the same memory
};
static Sched* g_sched = nullptr;
static thread_local int t_id = -1;
NOI static uint64_t sr(Sched* s) { s->rng ^= s->rng << 13; s->rng ^= s->rng >> 7; s->rng ^= s->rng << 17; return s->rng; }
NOI static void hand_over(Sched* s, int to) {
  std::unique_lock<std::mutex> l(s->m);
  s->running = to; s->cv.notify_all();
  int me = t_id;
  while (s->running != me) s->cv.wait(l);
}
NOI static long switch_away(Sched* s) {
  Quiet q;
  int n = s->alive.size(), k = sr(s) % n;
  for (int i = 0; i < n; i++) { int c = (k + i) % n; if (c != t_id && s->alive[c]) { hand_over(s, c); return 1; } }
  return 0;
}
NOI static void yield_point() {
  Sched* s = g_sched;
  if (!s || t_id < 0 || !s->on) return;
  s->points++;
  if (s->switches >= s->max_switches || (uint32_t)(sr(s) >> 32) >= s->threshold) return;
  s->switches += switch_away(s);
}
#ifdef __SANITIZE_THREAD__
// Build with an access hook: every memory access of the library and of the chain driver passes here.  A switch is
// offered at accesses to memory that another chain has touched too and that one of them has written.
struct Page { uint8_t b[512]; };    // per 8 bytes: 0 untouched, else 1 + thread; bit 6 written, bit 7 in conflict
static const size_t kPages = 1u << 16;
static uintptr_t g_pkey[kPages]; static Page* g_page[kPages];
NOI static uint8_t* shadow(uintptr_t a, bool make) {
  uintptr_t k = a >> 12; size_t i = (k * 0x9E3779B97F4A7C15ull) >> 48;
  while (g_pkey[i] && g_pkey[i] != k) i = (i + 1) & (kPages - 1);
  if (!g_pkey[i]) { if (!make) return nullptr; g_pkey[i] = k; if (!g_page[i]) g_page[i] = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  return &g_page[i]->b[(a >> 3) & 511];
}
NOI static void shadow_clear() { for (size_t i = 0; i < kPages; i++) if (g_pkey[i]) { g_pkey[i] = 0; memset(g_page[i], 0, sizeof(Page)); } }
NOI static void shadow_fresh(void* p, size_t n) {
  if (!g_sched || !g_sched->on) return;
  for (uintptr_t a = (uintptr_t)p & ~7ull; a < (uintptr_t)p + n; ) { uint8_t* b = shadow(a, false); uintptr_t e = (a | 4095) + 1, z = (uintptr_t)p + n; if (e > z) e = z; if (b) { Quiet q; memset(b, 0, (e - a + 7) / 8); }; a = (a | 4095) + 1; }
}
NOI static void access(uintptr_t a, size_t n, bool write) {
  Sched* s = g_sched;
  if (!s || t_id < 0 || t_quiet || !s->on) return;
  bool hot = false;
  for (uintptr_t x = a & ~7ull; x < a + n; x += 8) {
    uint8_t* b = shadow(x, true); uint8_t v = *b, me = 1 + t_id;
    if ((v & 63) && (v & 63) != me && ((v & 64) || write)) v |= 128;
    if (v & 128) hot = true;
    *b = (v & 192) | me | (write ? 64 : 0);
  }
  if (!hot) return;
  s->hot++;
  if (s->conflict >= s->max_conflict || (uint32_t)(sr(s) >> 32) >= s->conflict_threshold) return;
  s->conflict += switch_away(s);
}
#endif
}  // namespace sim
extern "C" {
// Locks of the code under test: a chain that finds one taken hands over until it is free; no switch inside one-time
// initialisation, so that it is never found half done by a thread that cannot give way.
NOI static bool scheduled() { return sim::g_sched && sim::t_id >= 0 && !sim::t_quiet && sim::g_sched->on; }
NOI static void give_way() { sim::g_sched->blocked++; if (!sim::switch_away(sim::g_sched)) abort(); }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_once(pthread_once_t*, void (*)());
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*);
NOI int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!scheduled()) return __real_pthread_mutex_lock(m); int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) give_way(); return r; }
NOI int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!scheduled()) return __real_pthread_rwlock_rdlock(m); int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) give_way(); return r; }
NOI int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!scheduled()) return __real_pthread_rwlock_wrlock(m); int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) give_way(); return r; }
NOI int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { sim::Quiet q; return __real_pthread_once(o, f); }
NOI int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); if (r && sim::t_id >= 0) sim::t_quiet++; return r; }
NOI void __wrap___cxa_guard_release(void* g) { if (sim::t_id >= 0) sim::t_quiet--; __real___cxa_guard_release(g); }
NOI void __wrap___cxa_guard_abort(void* g) { if (sim::t_id >= 0) sim::t_quiet--; __real___cxa_guard_abort(g); }
#ifdef __SANITIZE_THREAD__
#define ACC(n) NOI void __tsan_read##n(void* p) { sim::access((uintptr_t)p, n, false); } NOI void __tsan_write##n(void* p) { sim::access((uintptr_t)p, n, true); } \
  NOI void __tsan_unaligned_read##n(void* p) { sim::access((uintptr_t)p, n, false); } NOI void __tsan_unaligned_write##n(void* p) { sim::access((uintptr_t)p, n, true); } \
  NOI void __tsan_volatile_read##n(void* p) { sim::access((uintptr_t)p, n, false); } NOI void __tsan_volatile_write##n(void* p) { sim::access((uintptr_t)p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
NOI void __tsan_read_range(void* p, size_t n) { sim::access((uintptr_t)p, n, false); }
NOI void __tsan_write_range(void* p, size_t n) { sim::access((uintptr_t)p, n, true); }
NOI void __tsan_vptr_update(void** p, void*) { sim::access((uintptr_t)p, 8, true); }
NOI void __tsan_vptr_read(void** p) { sim::access((uintptr_t)p, 8, false); }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
NOI void* __wrap_memcpy(void* d, const void* s, size_t n) { if (sim::g_sched && n) { sim::access((uintptr_t)s, n, false); sim::access((uintptr_t)d, n, true); } return __real_memcpy(d, s, n); }
NOI void* __wrap_memmove(void* d, const void* s, size_t n) { if (sim::g_sched && n) { sim::access((uintptr_t)s, n, false); sim::access((uintptr_t)d, n, true); } return __real_memmove(d, s, n); }
NOI void* __wrap_memset(void* d, int c, size_t n) { if (sim::g_sched && n) sim::access((uintptr_t)d, n, true); return __real_memset(d, c, n); }
NOI void __tsan_init() {}
NOI void __tsan_func_entry(void*) { if (!sim::t_quiet) sim::yield_point(); }
NOI void __tsan_func_exit(void*) {}
// one thread runs at a time: the plain operations are atomic
#define ATO(n, T) NOI T __tsan_atomic##n##_load(const volatile T* p, int) { sim::access((uintptr_t)p, sizeof(T), false); return __atomic_load_n(p, 5); } \
  NOI void __tsan_atomic##n##_store(volatile T* p, T v, int) { sim::access((uintptr_t)p, sizeof(T), true); __atomic_store_n(p, v, 5); } \
  NOI T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { sim::access((uintptr_t)p, sizeof(T), true); return __atomic_exchange_n(p, v, 5); } \
  NOI T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { sim::access((uintptr_t)p, sizeof(T), true); return __atomic_fetch_add(p, v, 5); } \
  NOI T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { sim::access((uintptr_t)p, sizeof(T), true); return __atomic_fetch_sub(p, v, 5); } \
  NOI T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { sim::access((uintptr_t)p, sizeof(T), true); return __atomic_fetch_or(p, v, 5); } \
  NOI T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { sim::access((uintptr_t)p, sizeof(T), true); return __atomic_fetch_and(p, v, 5); } \
  NOI T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { sim::access((uintptr_t)p, sizeof(T), true); return __atomic_fetch_xor(p, v, 5); } \
  NOI int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { sim::access((uintptr_t)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  NOI int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { sim::access((uintptr_t)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
NOI void __tsan_atomic_thread_fence(int) {}
NOI void __tsan_atomic_signal_fence(int) {}
#endif
NOI void __cyg_profile_func_enter(void*, void*) { if (!sim::t_quiet) sim::yield_point(); }
NOI void __cyg_profile_func_exit(void*, void*) {}
}
namespace sim {

// The part of the plan that belongs to one chain, with the prefix taken off.
static Plan part(const Plan& pl, const std::string& pre) {
  Plan q; q.world = "session"; q.seed = pl.seed;
  for (auto& kv : pl.cfg) if (kv.first.rfind(pre, 0) == 0) q.cfg[kv.first.substr(pre.size())] = kv.second;
  for (auto& o : pl.ops) if (o.name.rfind(pre, 0) == 0) { Op x = o; x.name = o.name.substr(pre.size()); q.ops.push_back(x); }
  return q;
}
static uint64_t full_digest(Session& s) {
  Digest d; d.u(s.digest());
  for (auto& t : s.terms) {
    if (t->forest->NumSamples()) {
      d.str(t->forest->to_json().dump());
      for (double v : t->forest->Predict(t->ds)) d.d(v);
    }
  }
  if (s.rfx) d.str(s.rfx->samples->to_json().dump());
  return d.h;
}
struct Hist { std::vector<uint64_t> step; uint64_t end = 0; };
static Hist solo(const Plan& q, int stir) {
  Hist h; Session s(q);
  for (auto& o : q.ops) { if (stir >= 0) stir_stack((unsigned char)stir); s.exec(o); h.step.push_back(s.digest()); }
  h.end = full_digest(s); return h;
}
static void expect(const Hist& want, const Hist& got, int chain, const char* cls, const char* what) {
  for (size_t i = 0; i < want.step.size(); i++) if (i >= got.step.size() || got.step[i] != want.step[i]) throw Failure("C10", cls, fmt("chain %d: draws or residual differ from the chain run alone %s, first at its operation %zu", chain, what, i + 1));
  if (want.end != got.end) throw Failure("C10", cls, fmt("chain %d: the saved models or predictions differ from the chain run alone %s", chain, what));
}

static uint64_t run_chains(const Plan& pl) {
  int K = std::max(1LL, std::min(4LL, pl.ci("chains", 2)));
  std::vector<Plan> q; for (int c = 0; c < K; c++) q.push_back(part(pl, std::string(1, (char)('a' + c)) + "."));
  Rng r(pl.cu("sched", 1));
  struct Off { ~Off() { g_mem = MemHook(); } } off;
  std::vector<Hist> ref;
  g_mem = MemHook(); g_mem.fill = true; g_mem.fresh = 0; g_mem.freed = 0;
  for (int c = 0; c < K; c++) ref.push_back(solo(q[c], -1));
  // the same chain again: other contents of fresh memory, other layout, after the activity above
  for (int c = 0; c < K; c++) {
    g_mem.fresh = r.pick({0xff, 0x7f, 0x41, 0x01, 0xcd}); g_mem.freed = r.pick({0x00, 0xdd, 0xff}); g_mem.pad = r.next() | 1;
    expect(ref[c], solo(q[c], r.pick({0x00, 0xff, 0x5a, 0x3f})), c, "memory-dependent", "with other contents of fresh memory and another heap layout");
    g_stats.fired("fresh-memory-contents"); g_stats.fired("heap-layout"); g_stats.fired("stack-contents");
  }
  // interleaved on one thread
  {
    std::vector<std::unique_ptr<Session>> s; std::vector<Hist> h(K); std::vector<size_t> pos(K, 0);
    for (int c = 0; c < K; c++) s.push_back(std::make_unique<Session>(q[c]));
    int last = -1;
    for (;;) {
      std::vector<int> can; for (int c = 0; c < K; c++) if (pos[c] < q[c].ops.size()) can.push_back(c);
      if (can.empty()) break;
      int c = r.pick(can); if (c != last) g_stats.fired("interleaving-switch"); last = c;
      s[c]->exec(q[c].ops[pos[c]++]); h[c].step.push_back(s[c]->digest());
    }
    for (int c = 0; c < K; c++) { h[c].end = full_digest(*s[c]); expect(ref[c], h[c], c, "interleaving-dependent", "when its operations are interleaved with other chains"); }
  }
  // one thread per chain under the scheduler
  uint64_t sched_hash = 0;
  if (K > 1) {
    Sched sc; sc.alive.assign(K, 1); sc.rng = pl.cu("sched", 1) * 2654435761u + 12345; sc.max_switches = pl.ci("maxsw", 2000);
    sc.threshold = (uint32_t)(pl.cd("swprob", 0.01) * 4294967295.0);
    sc.max_conflict = pl.ci("maxcon", 300); sc.conflict_threshold = (uint32_t)(pl.cd("conprob", 0.2) * 4294967295.0);
    std::vector<Hist> h(K); std::vector<std::exception_ptr> err(K); std::vector<std::thread> th;
#ifdef __SANITIZE_THREAD__
    shadow_clear(); g_on_alloc = shadow_fresh;
#endif
    g_sched = &sc; sc.running = -1; sc.on = true;
    for (int c = 0; c < K; c++) th.emplace_back([&, c] {
      { std::unique_lock<std::mutex> l(sc.m); while (sc.running != c) sc.cv.wait(l); }
      t_id = c;
      try { h[c] = solo(q[c], -1); } catch (...) { err[c] = std::current_exception(); }
      t_id = -1;
      { std::unique_lock<std::mutex> l(sc.m); sc.alive[c] = 0; int nx = -1; for (int i = 0; i < K; i++) if (sc.alive[i]) { nx = i; break; } sc.running = nx; sc.cv.notify_all(); }
    });
    { std::unique_lock<std::mutex> l(sc.m); sc.running = (int)(pl.cu("sched", 1) % K); sc.cv.notify_all(); }
    for (auto& t : th) t.join();
    g_sched = nullptr; g_on_alloc = nullptr;
#ifdef __SANITIZE_THREAD__
    g_stats.hit("access-hook"); g_stats.fired("conflict-preemption", sc.conflict); g_stats.hit("conflicting-accesses", sc.hot);
#endif
    if (sc.blocked) g_stats.fired("lock-wait", sc.blocked);
    g_stats.fired("thread-preemption", sc.switches); g_stats.hit("scheduling-points", sc.points);
    for (int c = 0; c < K; c++) if (err[c]) { try { std::rethrow_exception(err[c]); } catch (Failure&) { throw; } catch (std::exception& e) { throw Failure("C10", "thread-exception", fmt("chain %d fails on its own thread although it completes alone: %s", c, e.what())); } }
    for (int c = 0; c < K; c++) expect(ref[c], h[c], c, "schedule-dependent", "when other chains run on other threads");
    Digest d; d.u(sc.switches); d.u(sc.points); d.u(sc.conflict); sched_hash = d.h; g_stats.state(d.h);
  }
  Digest d; for (auto& h : ref) { for (auto x : h.step) d.u(x); d.u(h.end); g_stats.steps += h.step.size(); } d.u(sched_hash);
  return d.h;
}
#ifdef __SANITIZE_THREAD__
static const char* kWorld = "races";
#else
static const char* kWorld = "chains";
#endif
static Plan gen_chains(uint64_t seed, bool thorough) {
  Rng r(seed * 0x9E3779B97F4A7C15ull + (kWorld[0] == 'r' ? 199 : 99)); Plan pl; pl.world = kWorld; pl.seed = seed;
  int K = r.pick({1, 2, 2, 2, 3, 3}); pl.set("chains", K);
  bool same = r.chance(.3);      // identical chains: they must stay identical
  uint64_t s0 = r.next();
  for (int c = 0; c < K; c++) {
    std::string pre = std::string(1, (char)('a' + c)) + ".";
    Plan one; Rng rr(same ? s0 : r.next()); gen_session_into(one, rr, thorough, "", "C10");
    if (one.ci("n") > 60) one.set("n", 60);
    for (auto& kv : one.cfg) pl.cfg[pre + kv.first] = kv.second;
    for (auto& o : one.ops) { Op x = o; x.name = pre + o.name; pl.ops.push_back(x); }
  }
  pl.set("sched", r.below(1u << 30)); pl.set("swprob", r.pick({.5, .05, .01, .001})); pl.set("maxsw", r.pick({20, 200, 2000}));
  pl.set("conprob", r.pick({.5, .2, .05, .01})); pl.set("maxcon", r.pick({50, 500, 5000}));
  return pl;
}
static Register reg({kWorld, gen_chains, run_chains});
}  // namespace sim
