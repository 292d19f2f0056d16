// World "storage" (C09): a sampling session whose models are saved to and loaded from a faulty medium.
#include "session.h"
#include "checks.h"
#include "faultfs.h"
#include <errno.h>
#include <unistd.h>
#include <fstream>
namespace sim {
using nlohmann::json;

static std::string text_of(st::ForestContainer& f) { return f.to_json().dump(); }
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

// A document with one required part removed or of the wrong kind.  path: what was changed.
static const std::set<std::string> kListsOfAnyLength = {"leaves", "leaf_parents", "internal_nodes", "deleted_nodes", "leaf_vector", "category_list", "keys", "values"};
static bool damage(json& doc, Rng& r, std::string& path) {
  json* j = &doc; std::string key;
  for (int depth = 0; depth < 8; depth++) {
    if (!j->is_object() || j->empty()) return false;
    std::vector<std::string> keys; for (auto it = j->begin(); it != j->end(); ++it) keys.push_back(it.key());
    key = r.pick(keys); path += "/" + key; json& v = (*j)[key];
    if (v.is_object() && r.chance(.8)) { j = &v; continue; }
    switch (r.below(4)) {
      case 0: j->erase(key); path += " removed"; return true;
      case 1: if (kListsOfAnyLength.count(key)) { j->erase(key); path += " removed"; return true; } v = nullptr; path += " nulled"; return true;
      case 2: v = "text"; path += " replaced by a string"; return true;
      default:
        if (v.is_array() && v.size() && !kListsOfAnyLength.count(key)) { v.erase(v.end() - 1); path += " shortened"; return true; }
        if (v.is_array() && v.size()) { v[r.below(v.size())] = "text"; path += " with a string among its numbers"; return true; }
        j->erase(key); path += " removed"; return true;
    }
  }
  return false;
}

template <class T> static void damaged_load(T& target, const json& original, Rng& r, const char* what, const std::string& at) {
  std::string before = target.to_json().dump(), want = original.dump();
  json d = original; std::string path;
  if (!damage(d, r, path)) return;
  bool threw = false;
  try { target.from_json(d); } catch (std::exception&) { threw = true; }
  std::string after = target.to_json().dump();
  if (threw) { if (after != before) throw Failure("C09", "failed-load-changed-model", fmt("%s: loading a document with %s failed but changed the object ", what, path.c_str()) + at); }
  else if (after != want) throw Failure("C09", "damaged-accepted", fmt("%s: a document with %s was loaded without an error as a different model ", what, path.c_str()) + at);
  g_stats.fired(std::string("damaged-document-") + what);
  // the fault clears: the same object accepts the complete document
  target.from_json(original);
  if (target.to_json().dump() != want) throw Failure("C09", "retry", fmt("%s: loading the complete document after a failed load gives another model ", what) + at);
}

static uint64_t run_storage(const Plan& pl) {
  Session s(pl), twin(pl);
  std::string dir = scratch_dir(), file = dir + "/m.json";
  g_fs.prefix = dir; g_fs.clear();
  Digest hist; int step = 0; std::string good; size_t good_term = 0; bool have_good = false;   // last complete file
  st::ForestContainer aux(3, 1, true); aux.AddSamples(2);
  struct Cleanup { std::string f; ~Cleanup() { g_fs.clear(); unlink(f.c_str()); } } cl{file};
  for (auto& op : pl.ops) {
    step++; std::string at = fmt("after step %d (%s)", step, op.line().c_str());
    size_t k = op.u(0) % s.terms.size(); st::ForestContainer& f = *s.terms[k]->forest;
    if (op.name == "fsave") {
      std::string before = text_of(f); int kind = op.u(1) % 10; long size = before.size() + 1; long off = op.u(2) % (size + 3);
      std::string path = file;
      switch (kind) {
        case 0: g_fs.clear(); break;
        case 1: g_fs.arm(FaultFs::kOpen, 0, Rng(op.u(2)).pick({EACCES, ENOSPC, EMFILE, EROFS})); break;
        case 2: g_fs.arm(FaultFs::kFull, off, ENOSPC); break;
        case 3: g_fs.arm(FaultFs::kFull, off, EIO); break;
        case 4: g_fs.arm(FaultFs::kWriteError, off, Rng(op.u(2)).pick({EIO, ENOSPC, EDQUOT, EAGAIN})); break;
        case 5: g_fs.arm(FaultFs::kShort, 1 + op.u(2) % 97, 0); break;
        case 6: g_fs.arm(FaultFs::kIntr, 0, EINTR); break;
        case 7: g_fs.arm(FaultFs::kClose, 0, EIO); break;
        case 8: path = dir + "/no/such/dir/m.json"; break;
        default: path = dir; break;      // a directory
      }
      bool threw = false;
      try { f.SaveToJsonFile(path); } catch (std::exception&) { threw = true; }
      bool fired = g_fs.fired; FaultFs::Kind fk = g_fs.kind; g_fs.clear();
      if (fk != FaultFs::kNone && fired) g_stats.fired(fmt("save-%s", fk == FaultFs::kOpen ? "open-error" : fk == FaultFs::kFull ? "medium-full" : fk == FaultFs::kWriteError ? "one-write-error" : fk == FaultFs::kShort ? "short-write" : fk == FaultFs::kIntr ? "interrupted-write" : "close-error"));
      if (kind >= 8) g_stats.fired(kind == 8 ? "save-missing-directory" : "save-onto-directory");
      if (text_of(f) != before) throw Failure("C09", "save-changed-model", "saving changed the model " + at);
      if (!threw) {
        if (kind >= 8) throw Failure("C09", "save-unreported", "saving to an impossible path reported no error " + at);
        std::string disk = slurp(path); json d; bool parsed = true;
        try { d = json::parse(disk); } catch (std::exception&) { parsed = false; }
        if (!parsed || d.dump() != before) throw Failure("C09", "save-unreported", fmt("the save reported no error but the file holds %zu of %zu bytes (or other content) ", disk.size(), before.size()) + at);
        st::ForestContainer fresh(1, 1, true);
        try { fresh.LoadFromJsonFile(path); } catch (std::exception& e) { throw Failure("C09", "saved-unloadable", std::string("a file saved without an error cannot be loaded: ") + e.what() + " " + at); }
        if (text_of(fresh) != before) throw Failure("C09", "saved-differs", "a file saved without an error loads as another model " + at);
        good = before; good_term = k; have_good = true; g_stats.hit("save-complete");
      } else {
        if (!fired && kind < 8) throw Failure("C09", "save-spurious-error", "the save failed although nothing was wrong with the medium " + at);
        if (fired && (fk == FaultFs::kShort || fk == FaultFs::kIntr)) throw Failure("C09", "save-spurious-error", "the save failed although the medium only returned short or interrupted writes " + at);
        g_stats.hit("save-reported-failure"); have_good = false;
        f.SaveToJsonFile(file);    // the fault has cleared
        json d = json::parse(slurp(file));
        if (d.dump() != before) throw Failure("C09", "retry", "saving again after the fault cleared does not give the model " + at);
        good = before; good_term = k; have_good = true;
      }
    } else if (op.name == "fload") {
      if (!have_good) continue;
      // target: 0 fresh, 1 another used container, 2 the container the file came from
      int target = op.u(3) % 3; st::ForestContainer fresh(1, 1, true);
      st::ForestContainer* t = target == 0 ? &fresh : target == 1 ? &aux : s.terms[good_term]->forest.get();
      if (target == 2 && text_of(*t) != good) { t = &aux; target = 1; }
      std::string before = text_of(*t), path = file; int kind = op.u(1) % 9; std::string full = slurp(file); long size = full.size(), off = op.u(2) % (size + 3);
      bool must_fail = false, may_fail = false;
      switch (kind) {
        case 0: g_fs.clear(); break;
        case 1: g_fs.arm(FaultFs::kOpen, 0, Rng(op.u(2)).pick({EACCES, ENOENT, EMFILE})); must_fail = true; break;
        case 2: g_fs.arm(FaultFs::kReadError, off, EIO); may_fail = true; break;
        case 3: case 4: g_fs.arm(FaultFs::kEof, off, 0); must_fail = off < (long)good.size(); break;
        case 5: g_fs.arm(FaultFs::kShort, 1 + op.u(2) % 97, 0); break;
        case 6: g_fs.arm(FaultFs::kIntr, 0, EINTR); may_fail = true; break;   // reads on regular files are not interrupted: either outcome, but no corruption
        case 7: path = dir + "/absent.json"; must_fail = true; break;
        default: path = dir; must_fail = true; break;
      }
      bool threw = false;
      try { t->LoadFromJsonFile(path); } catch (std::exception&) { threw = true; }
      bool fired = g_fs.fired; FaultFs::Kind fk = g_fs.kind; g_fs.clear();
      if (fired) g_stats.fired(fmt("load-%s", fk == FaultFs::kOpen ? "open-error" : fk == FaultFs::kReadError ? "read-error" : fk == FaultFs::kEof ? "truncated-file" : fk == FaultFs::kShort ? "short-read" : "interrupted-read"));
      if (kind >= 7) g_stats.fired(kind == 7 ? "load-missing-file" : "load-directory");
      std::string after = text_of(*t);
      if (threw && after != before) throw Failure("C09", "failed-load-changed-model", "a failed load changed the target " + at);
      if (!threw && after != good) throw Failure("C09", "load-unreported", "a load without an error gave another model than the one saved " + at);
      if (!threw && must_fail) throw Failure("C09", "load-unreported", "a load that could not read the file reported no error " + at);
      if (threw && !must_fail && !may_fail && !(fired && kind == 3)) throw Failure("C09", "load-spurious-error", "the load failed although the file was complete and readable " + at);
      if (threw) {
        t->LoadFromJsonFile(file);
        if (text_of(*t) != good) throw Failure("C09", "retry", "loading again after the fault cleared does not give the saved model " + at);
      }
      (void)may_fail;
    } else if (op.name == "trunc") {        // every truncation point of a small file, a sample for a large one
      if (!have_good) continue;
      std::string full = slurp(file), before = text_of(aux); Rng r(op.u(1));
      std::string tf = dir + "/t.json"; size_t L = good.size(), cnt = 0;
      for (size_t q = 0; q < 60; q++) {
        size_t cut = r.chance(.1) ? r.below(std::min<size_t>(L, 3)) : r.chance(.1) ? L - 1 - r.below(std::min<size_t>(L, 3)) : r.below(L);
        { std::ofstream o(tf, std::ios::binary); o.write(full.data(), cut); }
        bool threw = false; try { aux.LoadFromJsonFile(tf); } catch (std::exception&) { threw = true; }
        if (!threw) { unlink(tf.c_str()); throw Failure("C09", "truncated-accepted", fmt("a file cut to %zu of %zu bytes was loaded without an error ", cut, L) + at); }
        cnt++;
      }
      unlink(tf.c_str());
      if (text_of(aux) != before) throw Failure("C09", "failed-load-changed-model", "loads of truncated files changed the target " + at);
      g_stats.fired("truncation-point", cnt);
    } else if (op.name == "doc") {
      Rng r(op.u(2)); int what = op.u(1) % 6;
      for (int rep = 0; rep < 6; rep++) {
        if (what == 0) { json d = f.to_json(); if (f.NumSamples() == 0) break; damaged_load(f, d, r, "container", at); }
        else if (what == 1) { json d = f.to_json(); if (f.NumSamples() == 0) break; damaged_load(aux, d, r, "container", at); }
        else if (what == 2 && f.NumSamples()) { auto* e = f.GetEnsemble(r.below(f.NumSamples())); json d = e->to_json(); damaged_load(*e, d, r, "ensemble", at); }
        else if (what == 3 && f.NumSamples()) { auto* e = f.GetEnsemble(r.below(f.NumSamples())); auto* t = e->GetTree(r.below(e->NumTrees())); json d = t->to_json(); damaged_load(*t, d, r, "tree", at); }
        else if (what == 4 && s.rfx) { json d = s.rfx->samples->to_json(); if (r.chance(.5)) damaged_load(*s.rfx->samples, d, r, "random-effects", at); else { st::RandomEffectsContainer x(2, 2); damaged_load(x, d, r, "random-effects", at); } }
        else if (s.rfx) { st::LabelMapper m(s.rfx->tracker->GetLabelMap()); json d = m.to_json(); if (r.chance(.5)) damaged_load(m, d, r, "label-map", at); else { std::map<int32_t, int32_t> mm{{7, 0}, {-3, 1}}; st::LabelMapper x(mm); damaged_load(x, d, r, "label-map", at); } }
      }
    } else {
      bool a = s.exec(op), b = twin.exec(op);
      if (a != b || s.digest() != twin.digest()) throw Failure("C09", "diverged", "sampling after storage faults differs from sampling without them " + at);
      if (!a) continue;
      Digest d; d.u(s.digest()); hist.u(d.h); g_stats.state(s.shape_digest());
      continue;
    }
    g_stats.steps++;
    if (s.digest() != twin.digest()) throw Failure("C09", "model-changed", "a storage operation changed a model in memory " + at);
    hist.u(s.digest()); hist.str(good);
  }
  return hist.h;
}
static Plan gen_storage(uint64_t seed, bool thorough) {
  Plan base = gen_session(seed, thorough, "C09"); Plan pl = base; pl.world = "storage"; pl.ops.clear();
  Rng r(seed ^ 0x5707a6e); if (pl.ci("n") > 60) pl.set("n", 60); if (r.chance(.5)) { pl.set("rfx", 1); pl.set("rfx.comps", r.range(1, 2)); pl.set("rfx.groups", r.range(1, 5)); }
  int terms = pl.ci("terms", 1); double fault = r.pick({.3, .6, .9}); int left = thorough ? 30 : 15;
  auto fop = [&] {
    double u = r.unit(); int k = r.below(terms); uint64_t v = r.below(1u << 30);
    if (u < .4) pl.op("fsave", k, r.below(10), v);
    else if (u < .75) pl.op("fload", k, r.below(9), v, r.below(3));
    else if (u < .82) pl.op("trunc", k, v);
    else pl.op("doc", k, r.below(6), v);
  };
  if (r.chance(.3)) fop();
  for (auto& o : base.ops) {
    if (o.name == "reload") continue;
    pl.ops.push_back(o);
    while (r.chance(fault * .6)) fop();
    if (--left < 0) break;
  }
  if (pl.ci("rfx") && r.chance(.7)) { pl.op("rfx", r.next() >> 2 | 1, "-"); pl.op("doc", 0, 4, r.below(1u << 30)); pl.op("doc", 0, 5, r.below(1u << 30)); }
  fop(); fop();
  return pl;
}
static Register reg({"storage", gen_storage, run_storage});
}  // namespace sim
