// World "io" (C15): text files read through a simulated medium (block boundaries, errors) while the library's own
// reader thread and the processing thread are interleaved by a deterministic scheduler.
#include "common.h"
#include "session.h"
#include "checks.h"
#include <fstream>
#include <stochtree/io.h>
#include <condition_variable>
#include <mutex>
#include <algorithm>
#include <chrono>
#include <errno.h>
#include <pthread.h>
#include <unistd.h>
#define NOI __attribute__((no_instrument_function))
namespace sim {

// ---------------------------------------------------------------- medium
struct Medium {
  std::string prefix; bool open_fail = false; int open_errno = 0;
  long error_at = -1; int error_errno = EIO; bool error_once = false; bool open_fired = false, error_fired = false;
  int chunk_mode = 0; uint64_t rng = 1;         // how one library read is cut short
  long chunk = 1; std::vector<size_t> cuts;   // positions at which a block ends
  long transfers = 0, short_reads = 0; int os_mode = 0;
  uint64_t r() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
};
static Medium g_med;
struct Cookie { std::string data; size_t pos = 0, given = 0; };
static std::map<FILE*, Cookie*> g_files;
static ssize_t ck_read(void* c, char* buf, size_t n) {
  Cookie* k = (Cookie*)c; size_t left = k->data.size() - k->pos; if (n > left) n = left;
  if (g_med.os_mode == 1 && n > 1) n = 1 + g_med.r() % n;           // the system call itself may transfer less
  if (g_med.os_mode == 2 && n > 3) n = 3;
  if (g_med.error_at >= 0 && !(g_med.error_once && g_med.error_fired) && (long)(k->pos + n) > g_med.error_at) {
    if ((long)k->pos >= g_med.error_at) { g_med.error_fired = true; errno = g_med.error_errno; return -1; }
    n = g_med.error_at - k->pos;
  }
  if (n == 0 && g_med.error_at == (long)k->pos && !(g_med.error_once && g_med.error_fired)) { g_med.error_fired = true; errno = g_med.error_errno; return -1; }
  memcpy(buf, k->data.data() + k->pos, n); k->pos += n; g_med.transfers++; return n;
}
static int ck_close(void*) { return 0; }

// ---------------------------------------------------------------- scheduler for the library's own threads
struct TSched {
  std::mutex m; std::condition_variable cv; int running = 0; std::vector<int> state;   // 0 gone, 1 can run, 2 waits for another
  std::vector<int> waits; uint64_t rng = 1; int mode = 0; uint32_t thr = 0; long switches = 0, points = 0, threads = 0; bool on = false;
  std::map<pthread_t, int> ids;
  uint64_t r() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
};
static TSched g_ts; static thread_local int t_me = -1;
// Wait for the turn.  A thread that blocks in a way the scheduler does not know of (not used by the library today) loses
// its turn when nothing has happened for a while.
NOI static void await(std::unique_lock<std::mutex>& l) {
  int me = t_me; long seen = -1; if (g_ts.running < 0) g_ts.running = me;
  while (g_ts.running != me) {
    if (g_ts.cv.wait_for(l, std::chrono::milliseconds(500)) == std::cv_status::timeout) { if (seen == g_ts.points) { g_ts.running = me; break; } seen = g_ts.points; }
  }
}
NOI static void pass_to(std::unique_lock<std::mutex>& l, int to) { g_ts.running = to; g_ts.switches++; g_ts.cv.notify_all(); await(l); }
NOI static int other(int me) { int n = g_ts.state.size(); int k = n ? g_ts.r() % n : 0; for (int i = 0; i < n; i++) { int c = (k + i) % n; if (c != me && g_ts.state[c] == 1) return c; } return -1; }
NOI static void point(bool strong = false) {
  if (!g_ts.on || t_me < 0) return;
  g_ts.points++;
  if (g_ts.running != t_me) { std::unique_lock<std::mutex> l(g_ts.m); await(l); }
  if (!strong && (uint32_t)(g_ts.r() >> 32) >= g_ts.thr) return;
  if (strong && g_ts.r() % 2) return;
  std::unique_lock<std::mutex> l(g_ts.m); int o = other(t_me); if (o >= 0) pass_to(l, o);
}
struct Start { void* (*f)(void*); void* a; int id; };
NOI static void* trampoline(void* p) {
  Start s = *(Start*)p; delete (Start*)p; t_me = s.id;
  { std::unique_lock<std::mutex> l(g_ts.m); await(l); }
  void* r = s.f(s.a);
  { std::unique_lock<std::mutex> l(g_ts.m); g_ts.state[t_me] = 0; for (size_t i = 0; i < g_ts.waits.size(); i++) if (g_ts.state[i] == 2 && g_ts.waits[i] == t_me) g_ts.state[i] = 1;
    int me = t_me; t_me = -1; if (g_ts.running == me || g_ts.running < 0) { int o = other(me); g_ts.running = o; g_ts.cv.notify_all(); } }
  return r;
}
}  // namespace sim
using namespace sim;
extern "C" {
NOI void __cyg_profile_func_enter(void*, void*) { sim::point(); }
NOI void __cyg_profile_func_exit(void*, void*) {}
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* p, const char* m) {
  if (g_med.prefix.empty() || strncmp(p, g_med.prefix.c_str(), g_med.prefix.size()) || m[0] != 'r') return __real_fopen(p, m);
  if (g_med.open_fail) { g_med.open_fired = true; errno = g_med.open_errno; return nullptr; }
  FILE* f = __real_fopen(p, m); if (!f) return nullptr;
  Cookie* c = new Cookie; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) c->data.append(b, n);
  fclose(f);
  cookie_io_functions_t io = {ck_read, nullptr, nullptr, ck_close};
  FILE* r = fopencookie(c, "r", io);
  std::unique_lock<std::mutex> l(g_ts.m); g_files[r] = c; return r;
}
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f) {
  Cookie* c = nullptr; { std::unique_lock<std::mutex> l(g_ts.m); auto it = g_files.find(f); if (it != g_files.end()) c = it->second; }
  if (!c || s != 1) return __real_fread(b, s, n, f);
  point(true);
  if (n > 1 && g_med.chunk_mode) {
    size_t want = n;
    if (g_med.chunk_mode == 1) want = g_med.chunk;
    else if (g_med.chunk_mode == 2) want = 1 + g_med.r() % g_med.chunk;
    else if (g_med.chunk_mode == 3) want = g_med.r() % 2 ? 1 + g_med.r() % 4 : 1 + g_med.r() % 200;
    else if (g_med.chunk_mode == 4) { auto it = std::upper_bound(g_med.cuts.begin(), g_med.cuts.end(), c->given); if (it != g_med.cuts.end()) want = *it - c->given; }
    if (want < n) { n = want; g_med.short_reads++; }
  }
  // deliver in pieces so that the other thread can run while a block is half filled
  size_t done = 0, piece = g_ts.on && n < 4096 ? std::max<size_t>(1, n / 2) : n;
  while (done < n) { size_t k = __real_fread((char*)b + done, 1, std::min(piece, n - done), f); done += k; point(true); if (k == 0) break; if (feof(f) || ferror(f)) break; }
  c->given += done; return done;
}
int __real_fclose(FILE*);
int __wrap_fclose(FILE* f) { Cookie* c = nullptr; { std::unique_lock<std::mutex> l(g_ts.m); auto it = g_files.find(f); if (it != g_files.end()) { c = it->second; g_files.erase(it); } } int r = __real_fclose(f); delete c; return r; }
}
#include <dlfcn.h>
extern "C" {
NOI __attribute__((visibility("default"))) int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); static F real = (F)dlsym(RTLD_NEXT, "pthread_create");
  if (!g_ts.on || t_me < 0) return real(t, a, f, x);
  Start* s; { std::unique_lock<std::mutex> l(g_ts.m); s = new Start{f, x, (int)g_ts.state.size()}; g_ts.state.push_back(1); g_ts.waits.push_back(-1); g_ts.threads++; }
  int id = s->id, rc = real(t, a, trampoline, s);
  if (rc) { delete s; std::unique_lock<std::mutex> l(g_ts.m); g_ts.state[id] = 0; return rc; }
  { std::unique_lock<std::mutex> l(g_ts.m); g_ts.ids[*t] = id; }
  point(true);
  return 0;
}
NOI __attribute__((visibility("default"))) int pthread_join(pthread_t t, void** r) {
  typedef int (*F)(pthread_t, void**); static F real = (F)dlsym(RTLD_NEXT, "pthread_join");
  if (g_ts.on && t_me >= 0) {
    std::unique_lock<std::mutex> l(g_ts.m); auto it = g_ts.ids.find(t);
    if (it != g_ts.ids.end()) {
      int id = it->second;
      while (g_ts.state[id] != 0) { g_ts.state[t_me] = 2; g_ts.waits[t_me] = id; int o = other(t_me); if (o < 0) break; pass_to(l, o); }
      g_ts.ids.erase(it);
    }
  }
  return real(t, r);
}
}

namespace sim {
// ---------------------------------------------------------------- reference model
static std::vector<std::string> model_lines(const std::string& c, bool header, std::string* first) {
  size_t i = 0; first->clear();
  if (header) {
    while (i < c.size() && c[i] != '\n' && c[i] != '\r') i++;
    *first = c.substr(0, i);
    if (i < c.size() && c[i] == '\r') i++;
    if (i < c.size() && c[i] == '\n') i++;
  }
  std::vector<std::string> r; std::string cur;
  for (; i < c.size(); i++) { if (c[i] == '\n' || c[i] == '\r') { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += c[i]; }
  if (!cur.empty()) r.push_back(cur);
  return r;
}
static std::string make_content(Rng& r, int style, int nlines, int maxlen, bool final_eol, bool binary) {
  std::string c; auto eol = [&]() -> std::string {
    std::string e; int k = r.chance(.25) ? r.range(2, 4) : 1;
    for (int i = 0; i < k; i++) e += style == 0 ? "\n" : style == 1 ? "\r\n" : style == 2 ? "\r" : r.pick({std::string("\n"), std::string("\r\n"), std::string("\r"), std::string("\n\r")});
    return e; };
  if (r.chance(.2)) c += eol();
  for (int i = 0; i < nlines; i++) {
    int len = r.chance(.3) ? 1 : 1 + r.below(maxlen);
    for (int k = 0; k < len; k++) { char ch; do ch = binary ? (char)r.below(256) : (char)(32 + r.below(95)); while (ch == '\n' || ch == '\r'); c += ch; }
    if (i + 1 < nlines || final_eol) c += eol();
  }
  return c;
}
static std::string make_csv(Rng& r, int nlines, int cols, bool final_eol) {
  std::string c; for (int i = 0; i < nlines; i++) { for (int k = 0; k < cols; k++) { c += fmt("%d.%d", r.range(-99, 99), r.range(0, 999)); if (k + 1 < cols) c += ","; } if (i + 1 < nlines || final_eol) c += "\n"; }
  return c;
}
struct Got { std::string how; std::vector<std::string> lines; long long count = -1; std::vector<size_t> idx; };
typedef st::TextReader<size_t> TR;

static uint64_t run_io(const Plan& pl) {
  st::Log::ResetLogLevel(st::LogLevel::Fatal);
  std::string dir = scratch_dir(), file = dir + "/t.txt"; Digest hist;
  g_med = Medium(); g_med.prefix = dir;
  struct Off { std::string f; ~Off() { g_ts.on = false; g_med = Medium(); unlink(f.c_str()); } } off{file};
  Rng cr(pl.cu("content", 1)); bool header = pl.ci("header"); std::string content;
  if (pl.ci("csv")) content = make_csv(cr, pl.ci("lines"), pl.ci("cols", 2), pl.ci("final", 1));
  else content = make_content(cr, pl.ci("style"), pl.ci("lines"), pl.ci("maxlen", 20), pl.ci("final", 1), pl.ci("binary"));
  if (pl.ci("big")) {   // a line end around the 16 MB boundary of the readers' own blocks
    std::string pre; size_t target = 16u * 1024 * 1024 * pl.ci("big") + pl.ci("shift", 0); Rng br(pl.cu("content", 1) ^ 77);
    std::string l; while (pre.size() + content.size() < target) { size_t left = target - pre.size() - content.size(); size_t n = std::min<size_t>(left, 1 + br.below(300000)); if (n == 1) { pre += "\n"; break; } pre.append(n - 1, (char)('a' + br.below(26))); pre += (br.chance(.3) && left > n) ? "\r\n" : "\n"; }
    pre.resize(std::min(pre.size(), target)); if (pl.ci("cutline")) for (size_t k = pre.size(); k-- > 0 && k + 50 > pre.size();) pre[k] = 'z';
    content = pre + content;
  }
  { std::ofstream o(file, std::ios::binary); o << content; o.close(); if (!o) throw HarnessError("cannot write the input file"); }
  std::string first; std::vector<std::string> want = model_lines(content, header, &first);
  g_stats.hit("files"); if (content.empty()) g_stats.hit("empty-file");
  TR* reader = nullptr; std::unique_ptr<TR> keep;
  int step = 0;
  auto arm = [&](const Op& op) {   // medium of this step: chunking args 0,1,2 ; schedule 3 ; fault 4,5
    g_med.rng = op.u(2) * 2 + 1; g_med.chunk_mode = op.u(0) % 5; g_med.chunk = std::max<long>(std::max<long>(1, op.i(1)), (g_med.chunk_mode == 2 ? 2 : 1) * (long)content.size() / 40); g_med.os_mode = op.u(2) % 3; g_med.cuts.clear();
    if (content.size() > 100000) { if (g_med.chunk_mode) g_med.chunk_mode = op.u(1) % 2 ? 4 : 0; g_med.os_mode = 0; }
    if (g_med.chunk_mode == 4) { Rng q(op.u(2)); for (size_t i = 0; i < content.size(); i++) if (((content[i] == '\n' || content[i] == '\r') && q.chance(content.size() > 100000 ? .5 : .7)) || (i && (content[i - 1] == '\n' || content[i - 1] == '\r') && q.chance(.3))) g_med.cuts.push_back(i + (q.chance(.8) ? 1 : 0)); }
    g_ts.rng = op.u(3) * 2654435761u + 99991; g_ts.thr = (uint32_t)(4294967295.0 * (op.u(3) % 3 == 0 ? .5 : op.u(3) % 3 == 1 ? .1 : .01));
    g_med.open_fail = false; g_med.error_at = -1; g_med.open_fired = g_med.error_fired = false;
    int kind = op.u(4) % 8; if (kind == 1) { g_med.open_fail = true; g_med.open_errno = Rng(op.u(5)).pick({EACCES, EMFILE, ENOENT, EIO}); }
    if (kind == 2 || kind == 3) { Rng q(op.u(5)); g_med.error_at = q.chance(.15) ? 0 : q.chance(.15) ? (long)content.size() : (long)q.below(content.size() + 1); g_med.error_once = kind == 3; g_med.error_errno = q.pick({EIO, ESTALE, ENOMEM, EISDIR}); }
  };
  for (auto& op : pl.ops) {
    step++; g_stats.steps++; std::string at = fmt("at step %d (%s)", step, op.line().c_str()); Op med = op; if (med.a.size() >= 2) med.a.erase(med.a.begin(), med.a.begin() + 2);
    uint64_t arg = op.u(0); bool fresh = op.u(1) % 3 == 0 || !keep;
    std::vector<std::string> got; std::vector<size_t> idx; long long count = -1; std::string err; bool threw = false;
    std::set<size_t> filter; { Rng q(arg); for (size_t i = 0; i < want.size() + 2; i++) if (q.chance((arg % 5) * .25)) filter.insert(i); }
    std::vector<size_t> used(filter.begin(), filter.end()); std::vector<size_t> starts; std::string bytes; size_t out_len = 0; int nfeat = -1;
    arm(med);
    g_ts.state.assign(1, 1); g_ts.waits.assign(1, -1); g_ts.running = 0; g_ts.ids.clear(); g_ts.switches = g_ts.points = g_ts.threads = 0; t_me = 0; g_ts.on = true;
    bool constructed = false;
    try {
      if (fresh) { keep.reset(); keep.reset(new TR(file.c_str(), header)); } constructed = true;
      reader = keep.get(); reader->Clear();
      if (op.name == "lines") { count = reader->ReadAllLines(); got = reader->Lines(); }
      else if (op.name == "process") count = reader->ReadAllAndProcess([&](size_t i, const char* b, size_t n) { point(true); std::string s(b, n); point(true); if (s != std::string(b, n)) s += "<changed while processed>"; idx.push_back(i); got.push_back(s); });
      else if (op.name == "count") count = reader->CountLine();
      else if (op.name == "filter") { count = reader->ReadAndFilterLines([&](size_t i) { point(true); return filter.count(i) > 0; }, &idx); got = reader->Lines(); }
      else if (op.name == "parallel") count = reader->ReadAllAndProcessParallel([&](size_t s, const std::vector<std::string>& v) { point(true); starts.push_back(s); if (s != got.size()) err = fmt("start index %zu, but %zu lines were delivered before", s, got.size()); for (auto& x : v) got.push_back(x); });
      else if (op.name == "pfilter") count = reader->ReadAllAndProcessParallelWithFilter([&](size_t s, const std::vector<std::string>& v) { point(true); if (s != got.size()) err = fmt("start index %zu, but %zu lines were delivered before", s, got.size()); for (auto& x : v) got.push_back(x); }, [&](size_t u, size_t t) { if (u != idx.size()) err = fmt("filter told %zu lines were used, %zu were", u, idx.size()); if (filter.count(t)) { idx.push_back(t); return true; } return false; });
      else if (op.name == "part") count = reader->ReadPartAndProcessParallel(used, [&](size_t s, const std::vector<std::string>& v) { point(true); for (auto& x : v) got.push_back(x); });
      else if (op.name == "sample") { st::Random rr((int)(arg & 0xffff)); count = reader->SampleFromFile(&rr, arg % 9, &got); }
      else if (op.name == "sfilter") { st::Random rr((int)(arg & 0xffff)); count = reader->SampleAndFilterFromFile([&](size_t i) { return filter.count(i) > 0; }, &idx, &rr, arg % 9, &got); }
      else if (op.name == "content") { auto v = reader->ReadContent(&out_len); bytes.assign(v.begin(), v.end()); }
      else if (op.name == "joined") { count = reader->ReadAllLines(); std::string j = reader->JoinedLines("\x01"); std::string cur; for (char ch : j) if (ch == '\x01') { got.push_back(cur); cur.clear(); } else cur += ch; got.push_back(cur + "<end>"); }
      else if (op.name == "parser") { std::unique_ptr<st::Parser> p(st::Parser::CreateParser(file.c_str(), header, 0, arg & 1)); nfeat = p->NumFeatures(); }
    } catch (Failure&) { throw; } catch (std::exception& e) { threw = true; err = e.what(); if (!constructed) keep.reset(); }
    g_ts.on = false; t_me = -1;
    g_stats.fired("thread-switch", g_ts.switches); g_stats.fired("short-block", g_med.short_reads); g_med.short_reads = 0; g_stats.hit("reader-threads", g_ts.threads);
    bool fault = g_med.open_fired || g_med.error_fired;
    if (g_med.open_fired) g_stats.fired("open-error"); if (g_med.error_fired) g_stats.fired("read-error");
    g_med.open_fail = false; g_med.error_at = -1;
    if (fault) { if (!threw) throw Failure("C15", "fault-unreported", fmt("%s was not reported as an error ", g_med.open_fired ? "a file that cannot be opened" : "a failing read") + at); hist.str("error"); continue; }
    if (op.name == "parser") {   // files without a recognisable format are refused: only what is accepted is judged
      Digest d; d.u(nfeat); hist.u(d.h);
      if (pl.ci("csv") && !pl.ci("big") && !header && pl.ci("lines") > 0 && pl.ci("cols", 2) > 1) { if (threw || nfeat != pl.ci("cols", 2)) throw Failure("C15", "parser", fmt("a file of %d comma-separated columns: %s (%d features) ", (int)pl.ci("cols", 2), threw ? err.c_str() : "accepted", nfeat) + at); g_stats.hit("parser"); }
      continue;
    }
    if (threw) throw Failure("C15", "unexpected-error", "no fault was injected, but reading failed: " + err + " " + at);
    if (!err.empty()) throw Failure("C15", "indices", err + " " + at);
    if (header && reader->first_line() != first) throw Failure("C15", "header", "the header line is not the first line of the file " + at);
    auto lines_are = [&](const std::vector<std::string>& exp, const char* what) {
      size_t k = 0; while (k < exp.size() && k < got.size() && exp[k] == got[k]) k++;
      if (k < exp.size() || k < got.size()) throw Failure("C15", "lines", fmt("%s: %zu lines delivered, %zu expected; first difference at line %zu (lengths %zd / %zd) ", what, got.size(), exp.size(), k, k < got.size() ? (ssize_t)got[k].size() : -1, k < exp.size() ? (ssize_t)exp[k].size() : -1) + at);
    };
    if (count >= 0 && (size_t)count != want.size()) throw Failure("C15", "count", fmt("%s reports %lld lines, the file has %zu ", op.name.c_str(), count, want.size()) + at);
    std::vector<std::string> sel; std::vector<size_t> seli; for (size_t i = 0; i < want.size(); i++) if (filter.count(i)) { sel.push_back(want[i]); seli.push_back(i); }
    if (op.name == "lines" || op.name == "parallel" || op.name == "process") lines_are(want, op.name.c_str());
    if (op.name == "process") for (size_t i = 0; i < idx.size(); i++) if (idx[i] != i) throw Failure("C15", "indices", fmt("line %zu was announced as line %zu ", i, idx[i]) + at);
    if (op.name == "joined") { auto e = want; e.push_back("<end>"); bool sep = false; for (auto& x : want) if (x.find('\x01') != std::string::npos) sep = true; if (!sep) lines_are(e, "joined"); }
    if (op.name == "filter" || op.name == "pfilter") { lines_are(sel, op.name.c_str()); if (idx != seli) throw Failure("C15", "indices", "the indices of the selected lines are wrong " + at); }
    if (op.name == "part") { std::vector<std::string> e; size_t u = 0; for (size_t i = 0; i < want.size(); i++) if (u < used.size() && used[u] == i) { e.push_back(want[i]); u++; } lines_are(e, "part"); }
    if (op.name == "sample" || op.name == "sfilter") {
      const auto& pool = op.name == "sample" ? want : sel; size_t k = arg % 9;
      if (got.size() != std::min(k, pool.size())) throw Failure("C15", "sample", fmt("%zu lines sampled, expected %zu ", got.size(), std::min(k, pool.size())) + at);
      std::multiset<std::string> ms(pool.begin(), pool.end()); for (auto& x : got) { auto it = ms.find(x); if (it == ms.end()) throw Failure("C15", "sample", "a sampled line is not one of the file's lines, or is sampled more often than it occurs " + at); ms.erase(it); }
      if (op.name == "sfilter" && idx != seli) throw Failure("C15", "indices", "the indices of the selected lines are wrong " + at);
      // the same draws, whatever the block boundaries: read again as one block
      Medium save = g_med; g_med = Medium(); g_med.prefix = save.prefix; std::vector<std::string> again; std::vector<size_t> id2; st::Random rr((int)(arg & 0xffff)); TR t2(file.c_str(), header);
      if (op.name == "sample") t2.SampleFromFile(&rr, k, &again); else t2.SampleAndFilterFromFile([&](size_t i) { return filter.count(i) > 0; }, &id2, &rr, k, &again);
      g_med = save; if (again != got) throw Failure("C15", "sample", "the sample depends on where the blocks end " + at);
    }
    if (op.name == "content") { if (bytes != content || out_len != content.size()) throw Failure("C15", "content", fmt("%zu bytes delivered (%zu reported), the file has %zu ", bytes.size(), out_len, content.size()) + at); }
    Digest d; d.u(count); for (auto& x : got) d.str(x); d.str(bytes); hist.u(d.h);
    Digest sd; sd.u(g_med.chunk_mode); sd.u(g_ts.threads); sd.u(g_ts.switches); sd.str(op.name); g_stats.state(sd.h);
    g_stats.hit("read-" + op.name);
  }
  return hist.h;
}
static Plan gen_io(uint64_t seed, bool thorough) {
  Rng r(seed * 0x9E3779B97F4A7C15ull + 15); Plan pl; pl.world = "io"; pl.seed = seed;
  pl.set("content", r.next() >> 8); pl.set("header", (int)r.chance(.4)); pl.set("style", r.range(0, 3)); pl.set("final", (int)r.chance(.6)); pl.set("binary", (int)r.chance(.3));
  pl.set("maxlen", r.pick({1, 3, 20, 80})); pl.set("lines", r.chance(.1) ? 0 : r.pick({1, 2, 5, 12, 30}));
  bool big = r.chance(.04), csv = !big && r.chance(.25); if (csv) { pl.set("csv", 1); pl.set("cols", r.range(1, 6)); if (r.chance(.7)) pl.set("header", 0); }
  if (big) { pl.set("big", r.pick({1, 1, 2})); pl.set("shift", r.range(-4, 4)); pl.set("cutline", (int)r.chance(.5)); pl.set("lines", 3); }
  double fp = r.pick({0., .15, .4}); int n = big ? 2 : thorough ? 10 : 6;
  static const char* names[] = {"lines", "lines", "process", "process", "count", "filter", "parallel", "pfilter", "pfilter", "part", "sample", "sfilter", "content", "joined", "parser"};
  for (int i = 0; i < n; i++) {
    int fault = r.chance(fp) ? r.range(1, 3) : 0;
    pl.op(csv && r.chance(.4) ? "parser" : names[r.below(15)], r.below(1u << 20), r.below(100), r.below(5), r.pick({1, 2, 3, 5, 8, 16, 40}), r.below(1u << 30), r.below(1u << 20), fault, r.below(1u << 30));
  }
  return pl;
}
static Register reg({"io", gen_io, run_io});
}  // namespace sim
