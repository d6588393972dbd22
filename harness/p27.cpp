#include "common.hpp"
#include "ufjfmltk/clusterer/KMeans.hpp"
using namespace cm;
static double l2(V const &a, V const &b) { long double s = 0; for (size_t j = 0; j < a.size(); j++) s += ((long double) a[j] - b[j]) * ((long double) a[j] - b[j]); return (double) sqrtl(s); }
static double l1(V const &a, V const &b) { long double s = 0; for (size_t j = 0; j < a.size(); j++) s += fabsl((long double) a[j] - b[j]); return (double) s; }
static Rows gen(Ctx &c, size_t dim) {
    int style = (int) c.i(0, 3); size_t n = style == 3 && c.chance(30) ? 60 + (size_t) c.i(0, 60) : (size_t) c.lenw(1, 24, 150); Rows r(n); std::vector<V> seeds;
    for (int t = 0; t < 4; t++) { V x(dim); for (auto &v: x) v = (double) c.z(8); seeds.push_back(x); }
    for (auto &p: r) { if (style == 3) { p.x.resize(dim); for (auto &v: p.x) v = (double) c.z(300); }      // on a grid the cost changes by more than the tolerance unless the centers stay
        else if (style == 0) { p.x.resize(dim); for (auto &v: p.x) v = (double) c.z(6); } else { p.x = seeds[(size_t) c.draw(3)]; if (style == 2) for (auto &v: p.x) v += (double) c.z(1); } p.y = (double) c.i(1, 2); }
    auto id = c.perm(n); size_t gap = (size_t) c.i(1, 3); for (size_t i = 0; i < n; i++) r[i].id = c.chance(0) ? 0 : 1 + id[i] * gap;
    return r;
}
template<class KM> static void outcome(Ctx &c, KM &km, Rows const &r, size_t k, size_t dim, bool mean, double (*dist)(V const &, V const &)) {
    auto cen = km.centers(); auto cl = km.clusters();
    REQUIRE(cen.size() == k, "centers", cen.size() << " centers for k = " << k);
    REQUIRE(cl.size() == k, "clusters", cl.size() << " clusters for k = " << k);
    std::ostringstream cs; for (auto &x: cen) cs << vs(x.X()) << " ";
    for (auto &x: cen) { REQUIRE(x.size() == dim, "center-dimension", "center of dimension " << x.size()); for (double v: x.X()) REQUIRE(std::isfinite(v), "center-value", "centers " << cs.str()); }
    std::vector<int> times(r.size(), 0); size_t empty = 0;
    for (auto &q: cl) { if (q.size() == 0) empty++; for (size_t i: q.X()) { REQUIRE(i < r.size(), "position", "a cluster holds position " << i << " of " << r.size() << " points"); times[i]++; } }
    for (size_t i = 0; i < r.size(); i++) REQUIRE(times[i] == 1, "partition", "point " << i << " is in " << times[i] << " clusters");
    auto nearest = [&](V const &x) { double b = 1e300; for (auto &z: cen) b = std::min(b, dist(x, z.X())); return b; };
    for (size_t q = 0; q < k; q++) {
        V sum(dim, 0);
        for (size_t i: cl[q].X()) { double d = dist(r[i].x, cen[q].X()); REQUIRE(d <= nearest(r[i].x) * (1 + 1e-9) + 1e-9, "nearest", "point " << str(r[i]) << " is in the cluster of center " << vs(cen[q].X()) << " at " << d << ", centers " << cs.str()); for (size_t j = 0; j < dim; j++) sum[j] += r[i].x[j]; }
        if (mean && cl[q].size()) for (size_t j = 0; j < dim; j++) REQUIRE(close(cen[q][j], sum[j] / (double) cl[q].size(), 1e-9, 1e-9), "mean", "center " << vs(cen[q].X()) << " of a cluster whose points sum to " << vs(sum) << " over " << cl[q].size() << " points");
    }
    for (int t = 0; t < 4; t++) {
        V x(dim); if (c.flip()) x = r[(size_t) c.draw(r.size() - 1)].x; else for (auto &v: x) v = (double) c.z(10);
        Pt p(x); double e = km.evaluate(p);
        REQUIRE(e == std::floor(e) && e >= 0 && e < (double) k, "index", "predicted cluster " << e);
        REQUIRE(dist(x, cen[(size_t) e].X()) <= nearest(x) * (1 + 1e-9) + 1e-9, "predict", "predicted cluster " << e << " at " << vs(x) << ", centers " << cs.str());
        REQUIRE(p.X() == x, "query", "the query was changed");
    }
    for (int t = 0; t < 2; t++) { auto again = km.clusters(); bool same = again.size() == cl.size(); for (size_t q = 0; same && q < k; q++) { auto a = again[q].X(), b = cl[q].X(); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); same = a == b; } REQUIRE(same, "repeat", "the clusters change when they are asked for again"); }
    auto cen2 = km.centers(); for (size_t q = 0; q < k; q++) REQUIRE(cen2[q].X() == cen[q].X(), "repeat-centers", "the centers change when the clusters are asked for");
    c.label(empty ? "with empty clusters" : "all clusters filled");
}
#define NT "two or more clusters of at least four points"
template<class KM> static void run(Ctx &c, bool mean, double (*dist)(V const &, V const &)) {
    size_t dim = (size_t) c.wide(1, 3, 12); Rows r = gen(c, dim); D d = mk(r, true);
    size_t k = (size_t) c.wide(1, (long) std::min<size_t>(r.size(), 6), (long) std::min<size_t>(r.size(), 25)), seed = (size_t) c.i(0, 200); std::string init = c.flip() ? "random" : "kmeanspp";
    c.show() << "k-means k " << k << " init " << init << " seed " << seed << " on " << str(r, 24);
    KM km(d, k, init, seed, 0); km.setMaxTime(mean ? 1e9 : 3); km.setVerbose(0);
    Rows before = rows(d);
    REQUIRE(km.train(), "trained", "training failed");
    REQUIRE(rows(d) == before, "data", "training changed the caller's data");
    outcome(c, km, r, k, dim, mean, dist);
    int more = (int) c.i(0, 3);
    if (more == 1) { c.show() << ", trained again"; km.train(); outcome(c, km, r, k, dim, mean, dist); c.label("trained again"); }
    if (more == 2) {
        Rows r2 = gen(c, dim); if (r2.size() >= k) { D d2 = mk(r2, true); c.show() << ", then on " << str(r2, 24); km.setSamples(d2); km.train(); outcome(c, km, r2, k, dim, mean, dist); c.label("other samples"); }
    }
    c.label(init); if (k >= 2 && r.size() >= 4) c.nontrivial();
}
// k-means++ draws each next center with a probability proportional to its distance from the last one: with two places only, it never draws the place it comes from
LAW(plusplus, 1, "two places, each with two or more points") {
    size_t dim = (size_t) c.wide(1, 3, 12); V a(dim), b(dim); for (auto &v: a) v = (double) c.z(6); for (auto &v: b) v = (double) c.z(6); b[0] = a[0] + (c.flip() ? 1 : -1) * (double) c.i(1, 6);
    size_t na = (size_t) c.wide(1, 8, 60), nb = (size_t) c.wide(1, 8, 60), k = (size_t) c.wide(2, 4, 8); size_t seed = (size_t) c.i(0, 300);
    Rows r; for (size_t i = 0; i < na; i++) r.push_back({a, 1}); for (size_t i = 0; i < nb; i++) r.push_back({b, 2});
    auto o = c.perm(r.size()); Rows q; for (size_t i: o) q.push_back(r[i]); D d = mk(q);
    c.show() << "k-means++ k " << k << " seed " << seed << " on " << na << " points at " << vs(a) << " and " << nb << " at " << vs(b);
    mltk::clusterer::KMeans<double> km(d, k, "kmeanspp", seed, 0); km.setMaxTime(1e9); km.train();
    auto cen = km.centers(); std::set<V> places; for (auto &z: cen) places.insert(z.X());
    REQUIRE(places.count(a) && places.count(b), "next-center", "the centers are at " << places.size() << " of the two places");
    for (size_t i = 1; i < cen.size(); i++) REQUIRE(cen[i].X() != cen[i - 1].X(), "same-place", "center " << i << " was drawn at " << vs(cen[i].X()) << ", the place of the center before it");
    if (na >= 2 && nb >= 2) c.nontrivial();
}
// random initialisation starts from any pair of points: frequencies of the first step over many seeds, six standard deviations allowed
LAW(frequencies, 1, "always") {
    if (c.i(0, 99) != 99) return;
    double l = (double) c.i(1, 4), r = (double) c.i(6, 12); size_t dim = (size_t) c.i(1, 2), from = (size_t) c.i(1, 100000), N = 600;
    V p0(dim, 0.0), p1(p0), p2(p0); p1[0] = l; p2[0] = r; Rows q = {{p0, 1}, {p1, 1}, {p2, 2}}; D d = mk(q);
    c.show() << "random initialisation with two centers on " << str(q) << ", " << N << " seeds from " << from;
    std::map<V, double> seen; std::map<V, double> want; double x[3] = {0, l, r};
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) {
        double w = 1.0 / 9;
        V ca(1, x[a]), cb(1, x[b]); double sa = 0, sb = 0; int na = 0, nb = 0; for (double v: x) if (std::fabs(v - x[a]) <= std::fabs(v - x[b])) { sa += v; na++; } else { sb += v; nb++; }
        V key = {na ? sa / na : x[a], nb ? sb / nb : x[b]}; want[key] += w;
    }
    for (size_t t = 0; t < N; t++) { mltk::clusterer::KMeans<double> km(d, 2, "random", from + t, 0); km.setMaxTime(0); km.train(); auto cen = km.centers(); seen[{std::round(cen[0][0] * 1e9) / 1e9, std::round(cen[1][0] * 1e9) / 1e9}] += 1; }
    std::map<V, double> w2; for (auto &e: want) w2[{std::round(e.first[0] * 1e9) / 1e9, std::round(e.first[1] * 1e9) / 1e9}] += e.second;
    for (auto &e: seen) REQUIRE(w2.count(e.first), "outcome", "centers " << vs(e.first) << " after one step");
    for (auto &e: w2) { double m = e.second * N, sd = std::sqrt(m * (1 - e.second)); REQUIRE(std::fabs(seen[e.first] - m) <= 6 * sd + 3, "frequency", "centers " << vs(e.first) << " " << seen[e.first] << " times of " << N << ", expected " << m << " +- " << sd); }
    c.nontrivial();
}
LAW(euclidean, 4, NT) { run<mltk::clusterer::KMeans<double>>(c, true, l2); }
LAW(manhattan, 1, NT) { run<mltk::clusterer::KMeans<double, mltk::metrics::dist::Manhattan<double>>>(c, false, l1); }
