// World "session": random histories of sampling operations with the invariants of
// C01, C02, C04, C05, C06, C07, C08 evaluated after every operation.
#include "session.h"
#include "checks.h"
#include <unistd.h>
namespace sim {

static uint64_t run_session(const Plan& pl) {
  Session s(pl);
  std::unique_ptr<Session> twin;           // C08: same history without reloads
  if (focus("C08")) { twin = std::make_unique<Session>(pl); twin->real_reload = false; s.scratch = scratch_dir(); }
  Digest hist; std::vector<std::vector<uint64_t>> kept(s.terms.size()); std::vector<uint64_t> rfx_kept;
  int step = 0;
  for (auto& op : pl.ops) {
    step++;
    std::vector<int> before; for (auto& t : s.terms) before.push_back(t->forest->NumSamples());
    int rb = s.rfx ? s.rfx->samples->NumSamples() : 0;
    bool done = s.exec(op);
    if (twin) twin->exec(op);
    if (!done) continue;
    std::string at = fmt("after step %d (%s)", step, op.line().c_str());
    if (focus("C01")) check_conservation(s, at);
    if (focus("C02")) check_tracking(s, op, at);
    if (focus("C06")) check_constraints(s, at);
    if (focus("C07")) check_retained(s, op, before, rb, kept, rfx_kept, at);
    Rng pr(pl.seed * 1315423911ull + step);
    if (focus("C04") && pr.chance(.6)) check_predictions(s, pr, at);
    if (focus("C05") && pr.chance(.5)) check_kernels(s, pr, at);
    if (focus("C08")) {
      if (s.digest() != twin->digest()) fail("C08", "diverged-after-reload", "the history with a save/reload differs from the one without " + at);
      if (pr.chance(.4)) check_roundtrip(s, pr, at);
    }
    uint64_t sd = s.shape_digest(); g_stats.state(sd);
    hist.u(s.digest());
  }
  if (focus("C08") && pl.ops.size()) { Rng pr(pl.seed + 5); check_roundtrip(s, pr, "at the end"); }
  return hist.h;
}

static Plan gen(uint64_t seed, bool thorough) { return gen_session(seed, thorough, g_focus.c_str()); }
static Register reg({"session", gen, run_session});
}  // namespace sim
