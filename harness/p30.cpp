#include "common.hpp"
#include "ufjfmltk/core/Datasets.hpp"
using namespace cm;
namespace ds = mltk::datasets;
// shape, identity and bookkeeping of a generated data set
static void shape(Ctx &c, D &d, size_t n, size_t dim, char const *type) {
    REQUIRE(d.size() == n, "size", d.size() << " points for " << n);
    REQUIRE(d.points().size() == n, "points", d.points().size() << " stored points for " << n);
    REQUIRE(d.dim() == dim, "dim", "dimension " << d.dim() << " for " << dim);
    auto f = d.getFeaturesNames(); REQUIRE(f.size() == dim, "features", f.size() << " feature names for " << dim);
    for (size_t j = 0; j < dim; j++) REQUIRE(f[j] == (int) j + 1, "feature", "feature " << j << " is named " << f[j]);
    auto ix = d.getIndex(); REQUIRE(ix.size() == n, "index", ix.size() << " index entries");
    std::vector<int> used(n, 0), ids(n + 1, 0);
    for (int i: ix) { REQUIRE(i >= 0 && (size_t) i < n, "index-range", "index entry " << i); REQUIRE(!used[(size_t) i]++, "index-twice", "index entry " << i << " appears twice"); }
    for (size_t i = 0; i < n; i++) {
        REQUIRE(d[i] != nullptr, "null", "point " << i << " is missing"); REQUIRE(d[i]->X().size() == dim, "point-dim", "point " << i << " has " << d[i]->X().size() << " coordinates");
        for (double v: d[i]->X()) REQUIRE(std::isfinite(v), "finite", "point " << i << " holds " << v);
        auto id = d[i]->Id(); REQUIRE(id >= 1 && id <= n, "id", "point " << i << " has id " << id); REQUIRE(!ids[id]++, "id-twice", "id " << id << " appears twice");
    }
    REQUIRE(d.getType() == type, "type", "type " << d.getType());
}
static void classes(Ctx &c, D &d, std::map<int, size_t> const &want) {
    std::map<int, size_t> got; for (size_t i = 0; i < d.size(); i++) { double y = d[i]->Y(); REQUIRE(y == std::floor(y) && want.count((int) y), "label", "point " << i << " has label " << y); got[(int) y]++; }
    for (auto &w: want) REQUIRE(got[w.first] == w.second, "class-size", got[w.first] << " points of class " << w.first << " instead of " << w.second);
    auto cl = d.classes(); auto cd = d.classesDistribution(); size_t full = 0; for (auto &w: want) full += w.second > 0;
    REQUIRE(cl.size() == full && cd.size() == full, "classes", cl.size() << " classes, " << cd.size() << " counts for " << full);
    std::set<int> seen; for (size_t q = 0; q < cl.size(); q++) { REQUIRE(want.count(cl[q]) && seen.insert(cl[q]).second, "class", "class list entry " << cl[q]); REQUIRE((size_t) cd[q] == want.at(cl[q]), "count", "class " << cl[q] << " counted " << cd[q] << " times"); }
    REQUIRE(d.classesNames().size() == full, "class-names", d.classesNames().size() << " class names");
}
static std::map<int, size_t> labels(std::vector<size_t> const &n) { std::map<int, size_t> w; for (size_t q = 0; q < n.size(); q++) w[n.size() == 2 ? (q == 0 ? -1 : 1) : (int) q + 1] = n[q]; return w; }
static int cls(double y, size_t k) { return k == 2 ? (y < 0 ? 0 : 1) : (int) y - 1; }
static bool ordered(D &d, size_t k) { for (size_t i = 1; i < d.size(); i++) if (cls(d[i]->Y(), k) < cls(d[i - 1]->Y(), k)) return false; return true; }
static void blobs_geometry(Ctx &c, D &d, std::vector<mltk::Point<double>> const &cen, std::vector<double> const &sd) {
    size_t k = cen.size(), dim = d.dim(); std::vector<V> sum(k, V(dim, 0)), sq(k, V(dim, 0)); std::vector<size_t> n(k, 0);
    for (size_t i = 0; i < d.size(); i++) {
        size_t q = (size_t) cls(d[i]->Y(), k); n[q]++;
        for (size_t j = 0; j < dim; j++) { double z = d[i]->X()[j] - cen[q][j]; REQUIRE(fabs(z) <= 7.5 * sd[q] + 1e-9 * (1 + fabs(cen[q][j])), "near", "a point of blob " << q << " is " << z << " from its center in coordinate " << j << ", deviation " << sd[q]); sum[q][j] += z; sq[q][j] += z * z; }
    }
    for (size_t q = 0; q < k; q++) if (n[q] >= 30 && sd[q] > 0) for (size_t j = 0; j < dim; j++) {
        double m = sum[q][j] / (double) n[q], s2 = sq[q][j] / (double) n[q] / (sd[q] * sd[q]), e = 7 / sqrt((double) n[q]);
        REQUIRE(fabs(m) <= e * sd[q] + 1e-9, "mean", "blob " << q << " is centered " << m << " off in coordinate " << j << ", deviation " << sd[q] << ", " << n[q] << " points");
        REQUIRE(s2 >= 1 - std::min(0.95, 1.5 * e) && s2 <= 1 + 3 * e, "deviation", "blob " << q << " has " << s2 << " times the requested variance in coordinate " << j << ", " << n[q] << " points");
        c.label("moments");
    }
}
// all points of a data set drawn from continuous distributions differ in every coordinate
static void distinct(Ctx &c, D &d) { for (size_t j = 0; j < d.dim(); j++) { std::set<double> s; for (size_t i = 0; i < d.size(); i++) s.insert(d[i]->X()[j]); REQUIRE(s.size() == d.size(), "repeated", "coordinate " << j << " takes " << s.size() << " values on " << d.size() << " points"); } }
#define NT "at least two groups (features for regression) and four points"
LAW(blobs, 3, NT) {
    size_t n = (size_t) (c.chance(30) ? c.i(30, 80) : c.lenw(1, 20, 300)), dim = (size_t) c.wide(1, 4, 30), seed = (size_t) c.wide(1, 1000, 2000000000); int k = (int) c.wide(1, 5, 20);
    double sd = c.chance(20) ? 1.0 / 64 : (double) c.i(1, 40) / 8, lo = (double) c.z(20), hi = lo + (double) c.i(0, 30); bool sh = c.flip();
    c.show() << "make_blobs(" << n << ", " << k << ", " << dim << ", " << sd << ", " << lo << ", " << hi << ", shuffle " << sh << ", classes, seed " << seed << ")";
    auto p = ds::make_blobs(n, k, (int) dim, sd, lo, hi, sh, true, seed); auto &d = p.dataset;
    shape(c, d, n * (size_t) k, dim, "Classification"); classes(c, d, labels(std::vector<size_t>((size_t) k, n)));
    REQUIRE(p.centers.size() == (size_t) k, "centers", p.centers.size() << " centers");
    for (auto &z: p.centers) { REQUIRE(z.size() == dim, "center-dim", "center with " << z.size() << " coordinates"); for (double v: z.X()) REQUIRE(v >= lo && v <= hi, "center-range", "center coordinate " << v << " outside of " << lo << ".." << hi); }
    if (hi > lo && k > 1) { for (size_t j = 0; j < dim; j++) { std::set<double> s; for (auto &z: p.centers) s.insert(z[j]); REQUIRE(s.size() == (size_t) k, "equal-centers", "equal center coordinates"); } }
    blobs_geometry(c, d, p.centers, std::vector<double>((size_t) k, sd)); if (sd > 0) distinct(c, d);
    if (!sh) REQUIRE(ordered(d, (size_t) k), "order", "the blobs are mixed without shuffling");
    if (sh && k >= 2 && n >= 15) REQUIRE(!ordered(d, (size_t) k), "unshuffled", "the blobs are in order although they are to be shuffled");
    if (k >= 2 && n >= 2) c.nontrivial();
}
LAW(given_blobs, 3, NT) {
    size_t dim = (size_t) c.wide(1, 4, 30), k = (size_t) c.wide(1, 5, 20), seed = (size_t) c.wide(1, 1000, 2000000000), total = 0; bool sh = c.flip();
    std::vector<size_t> n(k); for (auto &v: n) total += v = (size_t) (c.chance(10) ? c.i(30, 60) : c.i(1, 12));
    std::vector<mltk::Point<double>> cen; std::vector<double> sd(k); for (size_t q = 0; q < k; q++) { V x(dim); for (auto &v: x) v = c.dy(20); cen.emplace_back(x); sd[q] = c.chance(10) ? 1.0 / 64 : (double) c.i(1, 40) / 8; }
    c.show() << "make_blobs of sizes"; for (auto v: n) c.show() << " " << v; c.show() << ", centers"; for (auto &z: cen) c.show() << " " << vs(z.X()); c.show() << ", deviations"; for (double v: sd) c.show() << " " << v; c.show() << ", shuffle " << sh << ", seed " << seed;
    auto p = ds::make_blobs(n, cen, sd, (int) dim, sh, true, seed); auto &d = p.dataset;
    shape(c, d, total, dim, "Classification"); classes(c, d, labels(n));
    REQUIRE(p.centers.size() == k, "centers", p.centers.size() << " centers"); for (size_t q = 0; q < k; q++) REQUIRE(p.centers[q].X() == cen[q].X(), "center", "center " << q << " is " << vs(p.centers[q].X()));
    blobs_geometry(c, d, cen, sd); if (!sh) REQUIRE(ordered(d, k), "order", "the blobs are mixed without shuffling");
    if (k >= 2 && total >= 4) c.nontrivial();
}
LAW(clusters, 1, NT) {
    size_t n = (size_t) c.lenw(1, 12, 150), dim = (size_t) c.wide(1, 3, 20), k = (size_t) c.wide(1, 4, 15), seed = (size_t) c.wide(1, 1000, 2000000000); bool sh = c.flip();
    c.show() << "make_blobs(" << n << ", " << k << ", " << dim << ") without classes, shuffle " << sh << ", seed " << seed;
    auto p = ds::make_blobs(n, (int) k, (int) dim, 0.5, -10.0, 10.0, sh, false, seed); auto &d = p.dataset; shape(c, d, n * k, dim, "Clustering");
    std::vector<int> per(k, 0);
    for (size_t i = 0; i < d.size(); i++) { REQUIRE(d[i]->Y() == d[0]->Y(), "no-label", "point " << i << " has label " << d[i]->Y()); bool near = false; for (auto &z: p.centers) { bool in = true; for (size_t j = 0; j < dim; j++) in = in && fabs(d[i]->X()[j] - z[j]) <= 3.75; near = near || in; } REQUIRE(near, "near-some", "point " << vs(d[i]->X()) << " is near no center"); }
    if (k >= 2 && n >= 2) c.nontrivial();
}
LAW(spirals, 3, NT) {
    size_t n = (size_t) c.wide(5, 90, 400), loops = (size_t) c.wide(1, 4, 9), seed = (size_t) c.wide(1, 1000, 2000000000); int k = (int) c.wide(1, 5, 12); n = std::max(n, (size_t) k); bool sh = c.flip(); double noise = c.flip() ? 0 : c.chance(20) ? std::ldexp(1.0, -(int) c.i(4, 16)) : (double) c.i(1, 24) / 8, margin = c.chance(80) ? (double) c.i(1, 16) / 8 : (double) c.i(1, 100) / 8;
    c.show() << "make_spirals(" << n << ", " << k << ", shuffle " << sh << ", noise " << noise << ", loops " << loops << ", margin " << margin << ", seed " << seed << ")";
    D d = ds::make_spirals(n, k, sh, noise, loops, margin, seed); shape(c, d, n, 2, "Classification");
    std::map<int, size_t> got; for (size_t i = 0; i < d.size(); i++) got[(int) d[i]->Y()]++;
    REQUIRE(got.size() == (size_t) k, "classes", got.size() << " classes for " << k); size_t a = n / (size_t) k, b = a + (n % (size_t) k != 0);
    for (auto &g: got) REQUIRE(g.second >= a && g.second <= b, "class-size", g.second << " points of class " << g.first << " of " << n << " over " << k); classes(c, d, got); for (auto &g: got) REQUIRE(labels(std::vector<size_t>((size_t) k, 1)).count(g.first), "label", "label " << g.first);
    double top = (double) loops * 2 * M_PI, slope = margin * k, far = 0;
    for (size_t i = 0; i < n; i++) {
        double x = d[i]->X()[0], y = d[i]->X()[1], rho = hypot(x, y), rot = cls(d[i]->Y(), (size_t) k) * 2 * M_PI / k, best = 1e300; far = std::max(far, rho);
        auto off = [&](double t) { double px = slope * t * cos(t + rot), py = slope * t * sin(t + rot), dx = x - px, dy = y - py; double e = 0; for (double v: {dx, dy}) e = std::max(e, v < 0 ? -v : v > noise ? v - noise : 0); return e; };
        if (noise == 0) best = off(rho / slope);
        else { double lo = std::max(0.0, (rho - 1.5 * noise) / slope), hi = std::min(top, (rho + 1.5 * noise) / slope), h = 0.02 * noise / (slope * (1 + top)); size_t m = (size_t) std::min(20000.0, (hi - lo) / h + 2); for (size_t s = 0; s <= m; s++) best = std::min(best, off(lo + (hi - lo) * (double) s / (double) m)); }
        REQUIRE(best <= 0.03 * noise + 1e-9 * (1 + slope * top), "curve", "point " << vs(d[i]->X()) << " of class " << d[i]->Y() << " is " << best << " away from its spiral");
        REQUIRE(rho <= slope * top + 1.5 * noise + 1e-9, "length", "point " << vs(d[i]->X()) << " is beyond the end of its spiral");
    }
    if (n >= 60 * 1 && k <= 2) REQUIRE(far >= slope * top * 0.5, "loops", "all points are within " << far << " of the origin, the spirals reach " << slope * top);
    // with several classes the angles are shared, within a class they differ
    for (auto &g: got) { std::set<V> s; size_t m = 0; for (size_t i = 0; i < n; i++) if ((int) d[i]->Y() == g.first) { s.insert(d[i]->X()); m++; } REQUIRE(s.size() == m, "repeated", "class " << g.first << " has " << s.size() << " different points of " << m); }
    if (!sh) REQUIRE(ordered(d, (size_t) k), "order", "the spirals are mixed without shuffling");
    c.label(noise > 0 ? "noise" : "no noise"); if (k >= 2 && n >= 4) c.nontrivial();
}
LAW(regression, 3, NT) {
    size_t n = (size_t) (c.chance(30) ? c.i(30, 80) : c.lenw(1, 20, 300)), dim = (size_t) c.wide(1, 12, 40), inf = (size_t) c.wide(0, 14, 45), seed = (size_t) c.wide(1, 1000, 2000000000); double bias = c.chance(10) ? c.dy(2000) : c.dy(10), noise = c.flip() ? 0 : c.chance(25) ? std::ldexp(1.0, -(int) c.i(4, 16)) : (double) c.i(1, 16) / 8, mean = c.flip() ? 0 : (double) c.i(0, 8) / 8; bool sh = c.flip();
    c.show() << "make_regression(" << n << ", " << dim << ", bias " << bias << ", noise " << noise << ", stdev " << mean << ", informative " << inf << ", shuffle " << sh << ", seed " << seed << ")";
    auto p = ds::make_regression(n, dim, bias, noise, mean, inf, sh, seed); auto &d = p.dataset; shape(c, d, n, dim, "Regression");
    REQUIRE(p.coef.size() == dim, "coefficients", p.coef.size() << " coefficients"); size_t used = 0; for (double v: p.coef.X()) used += v != 0; REQUIRE(used == std::min(dim, inf), "informative", used << " non-zero coefficients for " << inf << " informative features of " << dim);
    double s = 0, s2 = 0; size_t m = 0; std::vector<double> cs(dim, 0), cq(dim, 0);
    for (size_t i = 0; i < n; i++) {
        long double t = bias; for (size_t j = 0; j < dim; j++) { t += (long double) p.coef[j] * d[i]->X()[j]; double v = d[i]->X()[j]; REQUIRE(fabs(v) <= 7.5, "coordinate", "coordinate " << v << " of a standard normal draw"); cs[j] += v; cq[j] += v * v; }
        double e = d[i]->Y() - (double) t;
        if (noise == 0) REQUIRE(fabs(e) <= 1e-9 * (1 + fabs((double) t)), "exact", "target " << d[i]->Y() << " for " << (double) t << " without noise");
        else REQUIRE(fabs(e) <= mean + 7.5 * noise + 1e-9, "noise", "target " << d[i]->Y() << " for " << (double) t << " with noise " << noise);
        s += e - mean; s2 += e * e; m++;
    }
    if (m >= 30) { double q = 7 / sqrt((double) m); if (noise > 0) { double var = s2 / (double) m - pow(s / (double) m + mean, 2); REQUIRE(var >= noise * noise * (1 - std::min(0.95, 1.5 * q)) && var <= noise * noise * (1 + 3 * q), "noise-variance", "noise variance " << var << " for deviation " << noise); }
        for (size_t j = 0; j < dim; j++) { double mu = cs[j] / (double) m, v = cq[j] / (double) m - mu * mu; REQUIRE(fabs(mu) <= q, "coordinate-mean", "mean " << mu << " of feature " << j); REQUIRE(v >= 1 - std::min(0.95, 1.5 * q) && v <= 1 + 3 * q, "coordinate-variance", "variance " << v << " of feature " << j); } c.label("moments"); }
    distinct(c, d); c.label(noise > 0 ? "noise" : "no noise"); if (dim >= 2 && n >= 4) c.nontrivial();
}
