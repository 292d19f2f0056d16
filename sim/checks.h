#pragma once
#include "session.h"
namespace sim {
std::string scratch_dir();   // per-process scratch directory, removed at exit
void check_conservation(Session& s, const std::string& at);
void check_tracking(Session& s, const Op& op, const std::string& at);
void check_constraints(Session& s, const std::string& at);
void check_retained(Session& s, const Op& op, const std::vector<int>& before, int rfx_before,
                    std::vector<std::vector<uint64_t>>& kept, std::vector<uint64_t>& rfx_kept, const std::string& at);
void check_predictions(Session& s, Rng& r, const std::string& at);
void check_predictions_of(st::ForestContainer& f, int dim, bool regression, int p, Rng& r, const std::string& at);
void check_kernels(Session& s, Rng& r, const std::string& at);
void check_roundtrip(Session& s, Rng& r, const std::string& at);
// A dataset that exercises the rules of the given trees: threshold values and neighbours, odd categories, extremes.
std::vector<double> probe_rows(Rng& r, int m, int p, const std::vector<ATree>& trees);
}
