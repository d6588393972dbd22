// binary training sets with a known geometry, shared by the margin learners
#pragma once
#include "common.hpp"
namespace cm {
struct Bin {
    Rows r; bool separable = false;  // certainly separable by construction
    bool contradictory = false;      // certainly not separable
    double aug = 0;                  // margin in the space with a constant coordinate, lower bound
    double R2 = 0;                   // largest squared length in that space
    double max_margin = 0;           // exact largest L2 margin (0: unknown)
    V u; double b = 0;               // a separating hyperplane
};
inline double ip(V const &a, V const &b) { long double s = 0; for (size_t i = 0; i < a.size(); i++) s += (long double) a[i] * b[i]; return (double) s; }
inline double lq(V const &w, double q) {     // the norm of the weights for the learner's parameter q
    if (q == -1) { double m = 0; for (double x: w) m = std::max(m, std::fabs(x)); return m; }
    long double s = 0; for (double x: w) s += q == 1 ? fabsl((long double) x) : powl(fabsl((long double) x), q);
    return (double) (q == 1 ? s : powl(s, 1 / (long double) q));
}
inline void finish(Bin &b) {
    for (size_t i = 0; i < b.r.size(); i++) { b.r[i].id = i + 1; b.R2 = std::max(b.R2, ip(b.r[i].x, b.r[i].x) + 1); }
    if (b.separable) {
        double n = std::sqrt(ip(b.u, b.u) + b.b * b.b); b.aug = 1e300;
        for (auto &r: b.r) b.aug = std::min(b.aug, r.y * (ip(b.u, r.x) + b.b) / n);
    }
}
// kind 0 separable, exact maximum margin; 1 separable; 2 random labels; 3 contradictory
inline Bin gen_bin(Ctx &c, int kind, size_t maxn = 24, size_t dim = 0) {
    Bin b; if (!dim) dim = (size_t) c.wide(1, 4, 16);
    if (kind <= 1) {
        b.separable = true; b.u.assign(dim, 0);
        do { for (auto &v: b.u) v = (double) c.z(4); if (ip(b.u, b.u) == 0) b.u[(size_t) c.draw(dim - 1)] = (double) c.i(1, 4); } while (ip(b.u, b.u) == 0);
        double uu = ip(b.u, b.u), un = std::sqrt(uu), m = (double) c.i(2, 16) / 8;      // margin m*|u|
        b.b = c.dy(4, 2);
        size_t n = (size_t) c.lenw(2, (long) maxn, 3 * (long) maxn);
        for (size_t i = 0; i < n; i++) {
            Row r; r.x.resize(dim); for (auto &v: r.x) v = c.dy(6, 4);
            double s = ip(b.u, r.x) + b.b; r.y = i == 0 ? 1 : i == 1 ? -1 : s >= 0 ? 1 : -1;
            // push the point along u to the requested distance on its side
            double need = m * uu - r.y * s;
            if (need > 0) { double t = std::ceil(need / uu * 4) / 4; for (size_t j = 0; j < dim; j++) r.x[j] += r.y * t * b.u[j]; }
            b.r.push_back(r);
        }
        if (kind == 0) {                 // two opposite points exactly at that distance
            V x(dim); for (auto &v: x) v = c.dy(3, 4);
            double s = (ip(b.u, x) + b.b) / uu;
            for (int y: {1, -1}) { Row r; r.x.resize(dim); for (size_t j = 0; j < dim; j++) r.x[j] = x[j] - s * b.u[j] + y * m * b.u[j]; r.y = y; b.r.push_back(r); }
            b.max_margin = m * un;
        }
        auto p = c.perm(b.r.size()); Rows q; for (auto i: p) q.push_back(b.r[i]); b.r = q;
    } else {
        size_t n = (size_t) c.lenw(2, (long) maxn, 3 * (long) maxn);
        b.r = gen_rows_all(c, n, dim, {1, -1}, (int) c.i(0, 1));
        if (kind == 3) { auto &a = b.r[(size_t) c.draw(n - 1)]; Row o = a; o.y = -a.y; b.r.push_back(o); b.contradictory = true; }
    }
    finish(b);
    return b;
}
inline bool strictly_separable_check(Bin const &b, V const &w, double bias) { for (auto &r: b.r) if (!(r.y * (ip(w, r.x) + bias) > 0)) return false; return true; }
inline D mkb(Ctx &c, Bin &b) {
    D d = mk(b.r);
    if (c.chance(30)) { d.shuffle((size_t) c.i(1, 50)); b.r = rows(d); }
    return d;
}
} // namespace cm
