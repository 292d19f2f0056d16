// CLI of the simulator.
//   sim gen    --world W --seed S [--thorough]
//   sim batch  --world W --prop P --start S --stride K --time SEC [--max N] [--thorough]
//   sim replay FILE --prop P
#include "common.h"
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <nlohmann/json.hpp>

namespace sim {
__thread int t_quiet = 0;
Stats g_stats;
std::string g_focus;
std::vector<World>& worlds() { static std::vector<World> w; return w; }
}
using namespace sim;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static const World& find_world(const std::string& n) {
  for (auto& w : worlds()) if (n == w.name) return w;
  fprintf(stderr, "unknown world %s\n", n.c_str()); exit(3);
}

struct Outcome { bool ok; std::string prop, cls, msg; uint64_t hash; };

static Outcome run_one(const World& w, const Plan& p) {
  try { uint64_t h = w.run(p); return {true, "", "", "", h}; }
  catch (Failure& f) { Digest d; d.str(f.prop); d.str(f.cls); d.str(f.msg); return {false, f.prop, f.cls, f.msg, d.h}; }
  catch (HarnessError& e) { fprintf(stderr, "harness error: %s\n", e.what()); exit(3); }
  catch (std::exception& e) { Digest d; d.str(e.what()); return {false, g_focus, "unexpected-exception", e.what(), d.h}; }
  catch (...) { return {false, g_focus, "unexpected-exception", "unknown exception", 0}; }
}

int main(int argc, char** argv) {
  std::map<std::string, std::string> o; std::string file;
  if (argc < 2) return 3;
  std::string mode = argv[1];
  for (int i = 2; i < argc; i++) {
    std::string k = argv[i];
    if (k == "--thorough") o[k] = "1";
    else if (k.rfind("--", 0) == 0 && i + 1 < argc) { o[k] = argv[++i]; }
    else file = k;
  }
  g_focus = o.count("--prop") ? o["--prop"] : "";
  bool thorough = o.count("--thorough");
  if (mode == "gen") {
    const World& w = find_world(o["--world"]);
    std::cout << w.gen(strtoull(o["--seed"].c_str(), 0, 10), thorough).text();
    return 0;
  }
  if (mode == "replay") {
    std::ifstream in(file); std::stringstream ss; ss << in.rdbuf();
    Plan p = Plan::parse(ss.str());
    const World& w = find_world(p.world);
    alarm(o.count("--limit") ? atoi(o["--limit"].c_str()) : 120);
    Outcome r = run_one(w, p);
    printf("HASH %016llx\n", (unsigned long long)r.hash);
    if (!r.ok) { printf("FAIL %s %s %s\n", r.prop.c_str(), r.cls.c_str(), r.msg.c_str()); fflush(stdout); _exit(1); }
    printf("PASS\n"); fflush(stdout); _exit(0);
  }
  if (mode == "batch") {
    const World& w = find_world(o["--world"]);
    uint64_t seed = strtoull(o["--start"].c_str(), 0, 10), stride = strtoull(o["--stride"].c_str(), 0, 10);
    double tlimit = atof(o["--time"].c_str());
    uint64_t maxn = o.count("--max") ? strtoull(o["--max"].c_str(), 0, 10) : ~0ull;
    int perrun = o.count("--limit") ? atoi(o["--limit"].c_str()) : 120;
    double t0 = now();
    uint64_t n = 0; Digest all;
    for (; n < maxn && now() - t0 < tlimit; n++, seed += stride) {
      printf("S %llu\n", (unsigned long long)seed); fflush(stdout);
      alarm(perrun);
      Plan p = w.gen(seed, thorough);
      uint64_t steps0 = g_stats.steps;
      Outcome r = run_one(w, p);
      alarm(0);
      all.u(r.hash);
      printf("H %llu %016llx %llu\n", (unsigned long long)seed, (unsigned long long)r.hash, (unsigned long long)(g_stats.steps - steps0));
      if (!r.ok) {
        printf("F %llu %s %s %s\n", (unsigned long long)seed, r.prop.c_str(), r.cls.c_str(), r.msg.c_str()); fflush(stdout);
      }
    }
    nlohmann::json j;
    j["runs"] = n; j["steps"] = g_stats.steps; j["probe"] = g_stats.probe; j["fault"] = g_stats.fault;
    j["wall"] = now() - t0; j["hash"] = fmt("%016llx", (unsigned long long)all.h);
    std::vector<std::string> st; for (auto s : g_stats.states) st.push_back(fmt("%llx", (unsigned long long)s));
    j["states"] = st;
    printf("J %s\n", j.dump().c_str()); fflush(stdout);
    _exit(0);
  }
  return 3;
}
