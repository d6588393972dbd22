#include "common.hpp"
#include "ufjfmltk/core/Statistics.hpp"
using namespace cm;
namespace S = mltk::stats;

static double val(Ctx &c, int style) {
    switch (style) { case 0: return (double) c.z(5); case 1: return c.dy(40, 8); case 2: return c.num(); case 4: return 1e6 + c.dy(4, 8); default: return 1000 + c.real(-1, 1); }
}
static V gen_vec(Ctx &c, size_t n) { V v(n); int st = (int) c.i(0, 4); for (auto &x: v) x = val(c, st); return v; }
static long double mean_(V const &v) { long double s = 0; for (double x: v) s += x; return s / (long double) v.size(); }
static long double ss(V const &v) { long double m = mean_(v), s = 0; for (double x: v) s += (x - m) * (x - m); return s; }
static double mag(V const &v) { double m = 1; for (double x: v) m = std::max(m, std::fabs(x)); return m; }
#define NEAR(got, want, scale, tag, what) do { double g_ = (got), w_ = (double) (want); \
    REQUIRE(close(g_, w_, 1e-7, 1e-9 * (scale)), tag, what << " is " << g_ << " but the definition gives " << w_); } while (0)

// deviations from the mean lose only the rounding of the coordinates, not that of their squares
#define SPREAD(got, want, scale, tag, what) do { double g_ = (got), w_ = (double) (want), e_ = 2e-14 * (scale); \
    REQUIRE(std::fabs(g_ - w_) <= 1e-9 * w_ + e_ * std::sqrt(w_) + e_ * e_, tag, what << " is " << g_ << " but the definition gives " << w_); } while (0)

LAW(vectors, 3, "at least two distinct coordinates") {
    size_t n = (size_t) c.lenw(1, 30, 500);
    V v = gen_vec(c, n);
    c.show() << vs(v);
    Pt p(v); double m = mag(v);
    NEAR(S::mean(p), mean_(v), m, "mean", "mean");
    SPREAD(S::var(p), ss(v) / n, m * n, "var", "variance");
    double sd = S::std_dev(p);
    SPREAD(sd * sd, ss(v) / n, m * n, "std", "squared standard deviation");
    REQUIRE(sd >= 0, "std-sign", "negative standard deviation " << sd);
    REQUIRE(p.X() == v, "operand", "statistics changed the vector");
    // order and shift
    auto pe = c.perm(n); V w(n); for (size_t i = 0; i < n; i++) w[i] = v[pe[i]];
    NEAR(S::var(Pt(w)), S::var(p), m * m, "var-order", "variance of a permutation");
    NEAR(S::mean(Pt(w)), S::mean(p), m, "mean-order", "mean of a permutation");
    double k = c.dy(100); V s = v; for (auto &x: s) x += k;
    NEAR(S::var(Pt(s)), S::var(p), (m + std::fabs(k)) * (m + std::fabs(k)), "var-shift", "variance of a shifted vector");
    if (std::set<double>(v.begin(), v.end()).size() >= 2) c.nontrivial();
}
LAW(covariance, 3, "at least two distinct values on both sides") {
    size_t n = (size_t) c.lenw(2, 30, 500);
    V a = gen_vec(c, n), b = gen_vec(c, n);
    c.show() << vs(a) << " " << vs(b);
    long double ma = mean_(a), mb = mean_(b), s = 0;
    for (size_t i = 0; i < n; i++) s += (a[i] - ma) * (b[i] - mb);
    double m = mag(a) * mag(b);
    double got = S::covar(Pt(a), Pt(b));
    NEAR(got, s / (n - 1), m, "covar", "covariance");
    NEAR(S::covar(Pt(b), Pt(a)), got, m, "covar-sym", "covariance with exchanged arguments");
    NEAR(S::covar(Pt(a), Pt(a)), ss(a) / (n - 1), mag(a) * mag(a), "covar-self", "covariance of a feature with itself");
    if (std::set<double>(a.begin(), a.end()).size() >= 2 && std::set<double>(b.begin(), b.end()).size() >= 2) c.nontrivial();
}
struct Set { Rows r; std::vector<int> names; D d; };
static Set gen_set(Ctx &c, std::vector<int> const &cls, size_t minn) {
    Set s;
    size_t n = (size_t) c.lenw((long) minn, 25, 150), dim = (size_t) c.lenw(1, 6, 16);
    s.r = gen_rows_all(c, n, dim, cls);
    int st = (int) c.i(0, 4); for (auto &r: s.r) for (auto &x: r.x) x = val(c, st);
    s.d = mk(s.r);
    s.names.resize(dim); for (size_t j = 0; j < dim; j++) s.names[j] = (int) j + 1;
    if (c.flip()) {       // names need not be consecutive
        auto p = c.perm(dim); int off = (int) c.i(0, 5), step = (int) c.i(1, 4);
        bool shuffled = c.flip();
        for (size_t j = 0; j < dim; j++) s.names[j] = off + step * (int) ((shuffled ? p[j] : j) + 1);
        s.d.setFeaturesNames(s.names);
    }
    return s;
}
static V col(Rows const &r, size_t j) { V v; for (auto &x: r) v.push_back(x.x[j]); return v; }
static double smag(Rows const &r) { double m = 1; for (auto &x: r) m = std::max(m, mag(x.x)); return m; }

LAW(features, 3, "at least two points and two features") {
    auto s = gen_set(c, {1, -1, 2}, 2);
    size_t dim = s.names.size(), n = s.r.size(); double m = smag(s.r);
    c.show() << n << " points of dimension " << dim << " names " << vs(s.names) << ": " << str(s.r, 5);
    for (size_t j = 0; j < dim; j++) {
        V v = col(s.r, j);
        NEAR(S::mean(s.d, j), mean_(v), m, "feature-mean", "mean of feature " << j);
        double sd = S::std_dev(s.d, j);
        SPREAD(sd * sd, ss(v) / (n - 1), m * n, "feature-std", "squared standard deviation of feature " << j);
    }
    // total variance, one feature left out by name
    std::vector<long double> part(dim); for (size_t j = 0; j < dim; j++) part[j] = ss(col(s.r, j)) / n;
    std::vector<long> skips = {-1, 1000}; for (int f: s.names) skips.push_back(f);
    for (long f: skips) {
        long double want = 0; for (size_t j = 0; j < dim; j++) if (s.names[j] != f) want += part[j];
        SPREAD(S::var(s.d, (size_t) f), want, m * n * dim, "total-var", "total variance without feature " << f);
    }
    REQUIRE(rows(s.d) == s.r, "data", "statistics changed the dataset");
    if (n >= 2 && dim >= 2) c.nontrivial();
}
LAW(radius, 3, "at least two points and two features") {
    auto s = gen_set(c, {1, -1}, 2);
    size_t dim = s.names.size(), n = s.r.size(); double m = smag(s.r);
    c.show() << n << " points of dimension " << dim << " names " << vs(s.names) << ": " << str(s.r, 5);
    std::vector<int> skips = {-1, 1000}; for (int f: s.names) skips.push_back(f);
    double k = c.dy(100);
    Rows sh = s.r; for (auto &r: sh) for (auto &x: r.x) x += k;
    D ds = mk(sh); ds.setFeaturesNames(s.names);
    std::vector<long double> mu(dim); for (size_t j = 0; j < dim; j++) mu[j] = mean_(col(s.r, j));
    for (int f: skips) {
        long double r2 = 0, mx = 0;
        for (size_t i = 0; i < n; i++) {
            long double t = 0;
            for (size_t j = 0; j < dim; j++) if (s.names[j] != f) { long double e = s.r[i].x[j] - mu[j]; t += e * e; mx = std::max(mx, (long double) std::fabs(s.r[i].x[j])); }
            r2 = std::max(r2, t);
        }
        NEAR(S::radius(s.d, f, 2), sqrtl(r2), m, "radius", "radius without feature " << f);
        NEAR(S::radius(s.d, f, 1), mx, m, "max-coordinate", "largest absolute coordinate without feature " << f);
        NEAR(S::radius(ds, f, 2), S::radius(s.d, f, 2), 10 * (m + std::fabs(k)), "radius-shift", "radius of the shifted data without feature " << f);
    }
    REQUIRE(rows(s.d) == s.r, "data", "statistics changed the dataset");
    if (dim >= 2) c.nontrivial();
}
LAW(centers, 4, "at least three points and two features") {
    auto s = gen_set(c, {1, c.flip() ? -1 : 2}, 2);
    size_t dim = s.names.size(), n = s.r.size(); double m = smag(s.r);
    c.show() << n << " points of dimension " << dim << " names " << vs(s.names) << ": " << str(s.r, 5);
    std::vector<long double> diff(dim); for (size_t j = 0; j < dim; j++) { V a, b; for (auto &r: s.r) (r.y == 1 ? a : b).push_back(r.x[j]); diff[j] = mean_(a) - mean_(b); }
    auto dist = [&](std::set<int> const &skip) {
        long double t = 0;
        for (size_t j = 0; j < dim; j++) {
            if (skip.count(s.names[j])) continue;
            t += diff[j] * diff[j];
        }
        return (double) sqrtl(t);
    };
    std::vector<int> skips = {-1, 1000}; for (int f: s.names) skips.push_back(f);
    for (int f: skips) NEAR(S::distCenters(s.d, f), dist({f}), m, "centers", "distance of the class centres without feature " << f);
    std::vector<int> out; std::set<int> os;
    for (int f: s.names) if (c.flip()) { out.push_back(f); os.insert(f); }
    NEAR(S::distCentersWithoutFeats(s.d, out, -1), dist(os), m, "centers-without", "distance of the class centres without features " << vs(out));
    int idx = c.pick(s.names); auto o2 = os; o2.insert(idx);
    NEAR(S::distCentersWithoutFeats(s.d, out, idx), dist(o2), m, "centers-without", "distance of the class centres without features " << vs(out) << " and " << idx);
    auto pe = c.perm(n); Rows pr; for (size_t i: pe) pr.push_back(s.r[i]);
    D dp = mk(pr); dp.setFeaturesNames(s.names);
    NEAR(S::distCenters(dp, -1), S::distCenters(s.d, -1), m, "centers-order", "distance of the class centres after reordering");
    REQUIRE(rows(s.d) == s.r, "data", "statistics changed the dataset");
    if (n >= 3 && dim >= 2) c.nontrivial();
}
