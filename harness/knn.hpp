// majority-vote oracle for k nearest neighbours with arbitrary tie-breaking
#pragma once
#include "common.hpp"
namespace cm {
// may class c win when k nearest of (distance,label) vote, ties broken freely?
inline bool may_win(std::vector<std::pair<double, double>> nb, size_t k, double cls, double rel = 1e-9) {
    std::vector<double> d; for (auto &x: nb) d.push_back(x.first);
    std::sort(d.begin(), d.end());
    double t = d[k - 1], e = rel * (1 + std::fabs(t));
    std::map<double, size_t> sure, tie; size_t s = k; tie[cls]; sure[cls];
    for (auto &x: nb) { if (x.first < t - e) { sure[x.second]++; s--; } else if (x.first <= t + e) tie[x.second]++; }
    size_t a = std::min(s, tie[cls]), mine = sure[cls] + a, rest = s - a, cap = 0;
    for (auto &x: sure) if (x.first != cls && x.second > mine) return false;
    for (auto &x: tie) if (x.first != cls) cap += std::min(x.second, mine - sure[x.first]);
    return mine > 0 && cap >= rest;
}
inline bool unique_winner(std::vector<std::pair<double, double>> const &nb, size_t k, double cls) {
    std::set<double> c; for (auto &x: nb) c.insert(x.second);
    for (double x: c) if (x != cls && may_win(nb, k, x)) return false;
    return true;
}
} // namespace cm
