#include "common.hpp"
#include "ufjfmltk/core/Sampling.hpp"
using namespace cm;
typedef std::vector<std::vector<size_t>> Subs;
static long double corr(V const &a, V const &b) {
    long double ma = 0, mb = 0, sa = 0, sb = 0, s = 0; size_t n = a.size();
    for (double x: a) ma += x; for (double x: b) mb += x; ma /= n; mb /= n;
    for (size_t i = 0; i < n; i++) { sa += (a[i] - ma) * (a[i] - ma); sb += (b[i] - mb) * (b[i] - mb); s += (a[i] - ma) * (b[i] - mb); }
    return sa > 0 && sb > 0 ? s / sqrtl(sa * sb) : 0;
}
static std::string str(Subs const &s) { std::ostringstream o; for (auto &v: s) o << vs(v) << ' '; return o.str(); }
struct Prob { Rows r; D d; size_t dim; std::vector<V> col; V y; };
static Prob gen(Ctx &c) {
    Prob p; p.dim = (size_t) c.lenw(1, 6, 40); size_t n = (size_t) c.lenw(2, 12, 60);
    p.r = gen_rows(c, n, p.dim, {1, -1, 2});
    if (c.chance(40)) for (size_t j = 0; j < p.dim; j++) switch ((int) c.i(0, 4)) {        // features that follow, oppose or ignore the labels
        case 0: for (auto &r: p.r) r.x[j] = r.y; break;
        case 1: for (auto &r: p.r) r.x[j] = -2 * r.y; break;
        case 2: for (auto &r: p.r) r.x[j] = 3; break;
        case 3: if (j) for (auto &r: p.r) r.x[j] = r.x[j - 1]; break;
    }
    p.d = mk(p.r);
    for (size_t j = 0; j < p.dim; j++) { V v; for (auto &r: p.r) v.push_back(r.x[j]); p.col.push_back(v); }
    for (auto &r: p.r) p.y.push_back(r.y);
    return p;
}
// every pick, in the order they are made, is one of the best features not yet in the subspace
static void greedy(Ctx &c, Prob const &p, Subs const &s, size_t k, size_t n, double alpha) {
    REQUIRE(s.size() == k, "subspaces", s.size() << " subspaces instead of " << k);
    for (auto &v: s) {
        REQUIRE(v.size() == n, "subspace-size", "a subspace of " << v.size() << " features instead of " << n);
        std::set<size_t> u(v.begin(), v.end());
        REQUIRE(u.size() == n, "repeated", "a subspace repeats features: " << str(s));
        REQUIRE(*u.rbegin() < p.dim, "range", "feature " << *u.rbegin() << " of " << p.dim);
    }
    std::vector<std::set<size_t>> now(k); V q; for (auto &v: p.col) q.push_back((double) corr(v, p.y));
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < k; j++) {
        auto score = [&](size_t f) { size_t in = 0; for (auto &v: now) in += v.count(f); return alpha * q[f] + (1 - alpha) * (1 - (double) in / (double) k) / 2; };
        double got = score(s[j][i]);
        for (size_t f = 0; f < p.dim; f++) if (!now[j].count(f)) REQUIRE(score(f) <= got + 1e-9, "greedy", "pick " << i << " of subspace " << j << " is feature " << s[j][i] << " scoring " << got << " although feature " << f << " scores " << score(f) << ": " << str(s));
        now[j].insert(s[j][i]);
    }
}
static double overlap(std::vector<size_t> const &a, std::vector<size_t> const &b) { size_t n = 0; for (size_t x: a) n += std::count(b.begin(), b.end(), x); return (double) n / (double) b.size(); }
LAW(diverse, 4, "at least three features, two subspaces and two features in each") {
    Prob p = gen(c); size_t k = (size_t) c.lenw(1, 5, 14), n = (size_t) c.i(1, (long) p.dim); double alpha = c.pick(std::vector<double>{0, 0.5, 1, 0.25, 0.75, 0.9});
    bool late = c.chance(30);
    c.show() << k << " diverse subspaces of " << n << " features, alpha " << alpha << " " << str(p.r, 12);
    mltk::DSM<double> o(p.d, k, n, late ? 0.3 : alpha); if (late) o.setAlpha(alpha);
    for (size_t f = 0; f < p.dim; f++) { double q = o.qual_correlation(p.d, (int) f), w = (double) corr(p.col[f], p.y); REQUIRE(close(q, w, 1e-8, 1e-8), "correlation", "correlation of feature " << f << " with the labels is " << q << " but the definition gives " << w); }
    Subs s = o(p.d);
    greedy(c, p, s, k, n, alpha);
    // the diversity measures of the finished subspaces
    for (size_t j = 0; j < k; j++) {
        double mx = 0; for (size_t q = 0; q < k; q++) if (q != j) mx = std::max(mx, overlap(s[j], s[q]));
        REQUIRE(close(o.div_ms((int) j), 1 - mx, 1e-9), "subspace-diversity", "diversity of subspace " << j << " is " << o.div_ms((int) j) << " but it shares " << mx << " of its features at most: " << str(s));
        for (size_t f = 0; f < p.dim; f++) {
            double in = 0; for (auto &v: s) in += (double) std::count(v.begin(), v.end(), f);
            REQUIRE(close(o.div_mx(f), 1 - in / (double) k, 1e-9), "feature-diversity", "diversity of feature " << f << " is " << o.div_mx(f) << " but " << in << " of " << k << " subspaces have it");
            REQUIRE(close(o.div_m((int) j, f), (o.div_mx(f) + o.div_ms((int) j)) / 2, 1e-9), "diversity", "diversity of feature " << f << " in subspace " << j << " is " << o.div_m((int) j, f));
        }
    }
    if (c.chance(40)) {       // asked again, and for other data
        if (c.flip()) { Subs t = o(p.d); REQUIRE(t == s, "again", "a second selection from the same data gives " << str(t) << " after " << str(s)); }
        Prob q = gen(c); if (q.dim >= n) { c.show() << " then from " << str(q.r, 12); greedy(c, q, o(q.d), k, n, alpha); c.label("other data"); }
    }
    REQUIRE(rows(p.d) == p.r, "data", "selection changed the data");
    if (p.dim >= 3 && k >= 2 && n >= 2) c.nontrivial();
}
LAW(random_subspaces, 1, "at least three features and two selections") {
    Prob p = gen(c); if (c.chance(30)) { p.dim = (size_t) c.i(1, 120); p.d = D(); p.r.clear(); for (int i = 0; i < 2; i++) { V x(p.dim); for (auto &v: x) v = c.dy(4); p.r.push_back({x, i ? 1.0 : -1.0, 0, 0}); } p.d = mk(p.r); p.r = rows(p.d); c.label("many features"); }
    double r = c.flip() ? (double) c.i(1, 20) / 20 : (double) c.i(1, 100) / 100; size_t seed = (size_t) c.i(0, 1000); int times = (int) c.len(1, 6);
    c.show() << times << " random subspaces with share " << r << " of " << p.dim << " features, seed " << seed;
    mltk::RSM<double> o(r, p.dim, seed);
    long double t = (long double) r * p.dim; size_t lo = (size_t) ceill(t - 1e-9L), hi = (size_t) ceill(t + 1e-9L);
    std::set<size_t> seen;
    for (int i = 0; i < times; i++) {
        auto v = o(p.d); std::set<size_t> u(v.begin(), v.end());
        REQUIRE(v.size() == lo || v.size() == hi, "random-size", "a subspace of " << v.size() << " features, the share is " << (double) t);
        REQUIRE(u.size() == v.size(), "random-repeated", "a subspace repeats features: " << vs(v));
        for (size_t x: v) { REQUIRE(x < p.dim, "random-range", "feature " << x << " of " << p.dim); seen.insert(x); }
    }
    REQUIRE(rows(p.d) == p.r, "random-data", "selection changed the data");
    // every feature is drawn sooner or later
    size_t most = std::max<size_t>(400, 40 * p.dim / lo); for (size_t i = 0; i < most && seen.size() < p.dim; i++) for (size_t x: o(p.d)) seen.insert(x);
    REQUIRE(seen.size() == p.dim, "never-drawn", "only " << seen.size() << " of " << p.dim << " features are ever drawn");
    if (p.dim >= 3 && times >= 2) c.nontrivial();
}
