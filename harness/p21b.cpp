#include "common.hpp"
#include "ufjfmltk/regressor/KNNRegressor.hpp"
#include "ufjfmltk/regressor/Metrics.hpp"
using namespace cm;
static double l2(V const &a, V const &b) { double s = 0; for (size_t j = 0; j < a.size(); j++) s += (a[j] - b[j]) * (a[j] - b[j]); return sqrt(s); }
static double l1(V const &a, V const &b) { double s = 0; for (size_t j = 0; j < a.size(); j++) s += fabs(a[j] - b[j]); return s; }
static double li(V const &a, V const &b) { double s = 0; for (size_t j = 0; j < a.size(); j++) s = std::max(s, fabs(a[j] - b[j])); return s; }
static Rows gen(Ctx &c, size_t dim, size_t maxn) { size_t n = (size_t) c.len(1, (long) maxn); Rows r(n); bool dup = c.chance(30); for (size_t i = 0; i < n; i++) { r[i].x.resize(dim); for (auto &v: r[i].x) v = dup ? (double) c.z(2) : c.dy(8, 4); r[i].y = c.dy(20, 8); r[i].id = i + 1; } return r; }
static D mkreg(Rows const &r) { D d; d.setType("Regression"); for (auto &x: r) d.insertPoint(point(x), true); return d; }
#define NT "three or more points, two or more neighbors, fewer neighbors than points"
template<class M> static void knn(Ctx &c, double (*dist)(V const &, V const &), char const *name) {
    size_t dim = (size_t) c.i(1, 3); Rows r = gen(c, dim, 16); D d = mkreg(r); size_t k = (size_t) c.i(1, 8); bool viaset = c.flip();
    c.show() << k << " nearest neighbors (" << name << ") on " << str(r, 16);
    mltk::regressor::KNNRegressor<double, M> m(k); if (viaset) m.setSamples(d); else m = mltk::regressor::KNNRegressor<double, M>(d, k);
    int rounds = (int) c.i(1, 2);
    for (int round = 0; round < rounds; round++) {
        REQUIRE(m.train(), "trained", "training failed"); Rows before = rows(d);
        for (int t = 0; t < 4; t++) {
            V x(dim); if (c.flip()) x = r[(size_t) c.draw(r.size() - 1)].x; else for (auto &v: x) v = c.dy(9, 4); Pt p(x); double y = m.evaluate(p); REQUIRE(p.X() == x, "query", "the query was changed");
            std::vector<std::pair<double, double>> a; for (auto &q: r) a.push_back({dist(x, q.x), q.y}); std::sort(a.begin(), a.end()); size_t kk = std::min(k, r.size()); double edge = a[kk - 1].first, sum = 0; std::vector<double> tie; size_t left = kk;
            for (auto &q: a) { if (q.first < edge - 1e-9) { sum += q.second; left--; } else if (q.first <= edge + 1e-9) tie.push_back(q.second); } std::sort(tie.begin(), tie.end()); double lo = sum, hi = sum; for (size_t i = 0; i < left; i++) { lo += tie[i]; hi += tie[tie.size() - 1 - i]; }
            lo /= (double) kk; hi /= (double) kk; REQUIRE(y >= lo - 1e-9 && y <= hi + 1e-9, "average", "prediction " << y << " at " << vs(x) << ", the average of the " << kk << " nearest targets is " << lo << (hi > lo ? ".." + vs(V{hi}) : std::string()));
            REQUIRE(m.evaluate(p) == y, "repeat", "the prediction changes when it is asked for again"); c.label(hi > lo ? "ties" : "no ties");
        }
        REQUIRE(rows(d) == before, "data", "prediction changed the data");
        if (round + 1 < rounds) { r = gen(c, dim, 16); d = mkreg(r); m.setSamples(d); c.show() << ", then on " << str(r, 16); }
    }
    if (r.size() >= 3 && k >= 2 && k < r.size()) c.nontrivial(); if (k > r.size()) c.label("more neighbors than points");
}
LAW(configured_euclidean, 3, NT) { knn<mltk::metrics::dist::Euclidean<double>>(c, l2, "Euclidean"); }
LAW(configured_manhattan, 2, NT) { knn<mltk::metrics::dist::Manhattan<double>>(c, l1, "Manhattan"); }
LAW(configured_chebyshev, 1, NT) { knn<mltk::metrics::dist::Chebyshev<double>>(c, li, "Chebyshev"); }
LAW(mse_any, 1, "three or more values") {
    size_t n = (size_t) c.len(1, 30); V a(n), b(n); for (auto &v: a) v = c.num(); for (auto &v: b) v = c.num(); if (c.chance(20)) b = a; c.show() << "MSE of " << vs(a) << " and " << vs(b); Pt p(a), q(b); double e = mltk::metrics::MSE(p, q); long double s = 0, m = 0; for (size_t i = 0; i < n; i++) { long double x = (long double) a[i] - b[i]; s += x * x; m = std::max(m, x * x); } s /= n;
    REQUIRE(fabsl(e - s) <= 1e-12L * (m + 1e-300L), "mse", "mean squared error " << e << " instead of " << (double) s); REQUIRE(p.X() == a && q.X() == b, "arguments", "the arguments were changed"); if (n >= 3) c.nontrivial();
}
