#include "knn.hpp"
#include "ufjfmltk/regressor/KNNRegressor.hpp"
#include "ufjfmltk/regressor/Metrics.hpp"
using namespace cm;
namespace M = mltk::metrics::dist;
static double ref(M::Euclidean<double> const &, V const &a, V const &b) { long double s = 0; for (size_t i = 0; i < a.size(); i++) s += (long double) (a[i] - b[i]) * (a[i] - b[i]); return (double) sqrtl(s); }
static double ref(M::Manhattan<double> const &, V const &a, V const &b) { long double s = 0; for (size_t i = 0; i < a.size(); i++) s += fabsl((long double) a[i] - b[i]); return (double) s; }
template<class F> static double ref(F const &f, V const &a, V const &b) { return f(Pt(a), Pt(b)); }
// can the sum of j of the tied targets equal want?  (reachable sums by number of chosen targets)
static bool reachable(std::vector<double> const &tie, size_t j, double want, double tol) {
    if (tie.size() == j) { double s = 0; for (double v: tie) s += v; return std::fabs(s - want) <= tol; }
    std::vector<std::set<long long>> sums(j + 1); sums[0].insert(0);
    for (double v: tie) for (size_t k = j; k-- > 0;) { std::vector<long long> cur(sums[k].begin(), sums[k].end()); for (auto s: cur) sums[k + 1].insert(s + (long long) std::llround(v * 1048576)); if (sums[k + 1].size() > 20000) return true; }
    for (auto s: sums[j]) if (std::fabs((double) s / 1048576 - want) <= tol) return true;
    return false;
}
template<class F> static void mean(Ctx &c, const char *name, bool positive) {
    size_t n = (size_t) c.lenw(1, 25, 200), dim = (size_t) c.wide(1, 4, 20);
    int style = (int) c.i(0, 3);
    Rows r = gen_rows(c, n, dim, {1}, style == 3 ? 0 : style);
    if (style == 3) for (auto &x: r) for (auto &v: x.x) v = c.real(-3, 3);
    if (positive) for (auto &x: r) for (auto &v: x.x) v = std::fabs(v) + 0.5;
    for (auto &x: r) x.y = c.dy(20, 16);
    if (c.chance(30) && n > 1) r[0].x = r[n - 1].x;
    D d; d.setType("Regression"); for (auto &x: r) d.insertPoint(point(x));
    Rows tr = rows(d);
    size_t k = c.chance(25) ? n : c.chance(30) ? 1 : (size_t) c.i(1, (long) n);
    mltk::regressor::KNNRegressor<double, F> a(d, k), b(k); bool two = c.flip(); auto &knn = two ? b : a;
    if (two) knn.setSamples(d);
    knn.train(); F f;
    c.show() << name << " k=" << k << " " << str(tr, 25);
    double lo = 1e300, hi = -1e300, all = 0; for (auto &x: tr) { lo = std::min(lo, x.y); hi = std::max(hi, x.y); all += x.y; }
    for (int q = (int) c.i(1, 6); q-- > 0;) {
        V x(dim);
        if (c.chance(50)) x = tr[(size_t) c.draw(n - 1)].x;
        else { auto const &s = tr[(size_t) c.draw(n - 1)].x; for (size_t j = 0; j < dim; j++) { x[j] = c.flip() ? (double) c.z(4) : s[j] + c.dy(2, 8); if (positive) x[j] = std::fabs(x[j]) + 0.5; } }
        Pt p(x); p.Id() = (size_t) c.i(0, 9); Row before = row(p);
        double got = knn.evaluate(p, c.flip());
        REQUIRE(row(p) == before, "query", "the query was changed");
        V dist; for (auto &y: tr) dist.push_back(ref(f, x, y.x));
        V so = dist; std::sort(so.begin(), so.end()); double t = so[k - 1], e = 1e-9 * (1 + std::fabs(t));
        double sure = 0; size_t ns = 0; V tie;
        for (size_t i = 0; i < n; i++) { if (dist[i] < t - e) { sure += tr[i].y; ns++; } else if (dist[i] <= t + e) tie.push_back(tr[i].y); }
        REQUIRE(reachable(tie, k - ns, got * (double) k - sure, 1e-4), "mean", "prediction " << got << " for " << vs(x) << " is not the mean target of " << k << " nearest points");
        REQUIRE(got >= lo - 1e-9 && got <= hi + 1e-9, "range", "prediction " << got << " outside the targets [" << lo << "," << hi << "]");
        if (k == n) REQUIRE(close(got, all / (double) n, 1e-9, 1e-9), "global", "prediction " << got << " with all points, mean " << all / (double) n);
        REQUIRE(knn.evaluate(p) == got, "repeat", "predictions differ");
        if (tie.size() == 1 && k > 1 && k < n) c.nontrivial();
    }
    REQUIRE(rows(d) == tr && rows(*knn.getSamples()) == tr, "data", "the training data was changed");
}
LAW(euclidean, 5, "an untied query with 1 < k < n") { mean<M::Euclidean<double>>(c, "euclidean", false); }
LAW(manhattan, 2, "an untied query with 1 < k < n") { mean<M::Manhattan<double>>(c, "manhattan", false); }
LAW(others, 3, "an untied query with 1 < k < n") {
    switch (c.draw(3)) {
        case 0: return mean<M::Chebyshev<double>>(c, "chebyshev", false);
        case 1: return mean<M::Hassanat<double>>(c, "hassanat", false);
        case 2: return mean<M::Canberra<double>>(c, "canberra", true);
        default: return mean<M::Lorentzian<double>>(c, "lorentzian", false);
    }
}
LAW(mse, 5, "at least two elements, not identical") {
    size_t n = (size_t) c.lenw(1, 60, 1500); V a(n), b(n); int st = (int) c.i(0, 3);
    for (size_t i = 0; i < n; i++) {
        a[i] = st == 0 ? (double) c.z(10) : st == 1 ? c.num() : c.dy(100, 16);
        b[i] = c.chance(30) ? a[i] : st == 0 ? (double) c.z(10) : st == 1 ? c.num() : c.dy(100, 16);
    }
    if (st == 3) b = a;
    c.show() << vs(a) << " against " << vs(b);
    Pt x(a), y(b); double m = mltk::metrics::MSE(x, y), w = mltk::metrics::MSE(y, x);
    long double s = 0; for (size_t i = 0; i < n; i++) s += ((long double) a[i] - b[i]) * ((long double) a[i] - b[i]);
    REQUIRE(close(m, (double) (s / n), 1e-12, 1e-300), "value", "error " << m << " expected " << (double) (s / n));
    REQUIRE(m == w, "symmetry", "error " << m << " but " << w << " with swapped arguments");
    REQUIRE((m == 0) == (a == b), "zero", "error " << m);
    REQUIRE(x.X() == a && y.X() == b, "inputs", "arguments changed");
    if (n >= 2 && a != b) c.nontrivial();
}
