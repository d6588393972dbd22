#include "common.hpp"
#include "ufjfmltk/core/Sampling.hpp"
using namespace cm;
using Euc = mltk::metrics::dist::Euclidean<double>; using Man = mltk::metrics::dist::Manhattan<double>;
static double l2(V const &a, V const &b) { double s = 0; for (size_t j = 0; j < a.size(); j++) s += (a[j] - b[j]) * (a[j] - b[j]); return sqrt(s); }
static double l1(V const &a, V const &b) { double s = 0; for (size_t j = 0; j < a.size(); j++) s += fabs(a[j] - b[j]); return s; }
typedef double (*Dist)(V const &, V const &);
// on the segment from z to x (but not past x)
static bool on(V const &s, V const &z, V const &x) {
    double len = l2(z, x), t = 0; if (len == 0) return false; for (size_t j = 0; j < s.size(); j++) t += (s[j] - z[j]) * (x[j] - z[j]); t /= len * len;
    if (t < -1e-9 || t > 1 + 1e-9) return false; double e = 0, m = 1; for (size_t j = 0; j < s.size(); j++) { e = std::max(e, fabs(s[j] - z[j] - t * (x[j] - z[j]))); m = std::max({m, fabs(z[j]), fabs(x[j])}); } return e <= 1e-9 * m;
}
struct Share { V z; std::vector<V> to; };
static bool match(std::vector<std::vector<size_t>> const &adj, size_t u, std::vector<char> &seen, std::vector<int> &who) { for (size_t v: adj[u]) if (!seen[v]) { seen[v] = 1; if (who[v] < 0 || match(adj, (size_t) who[v], seen, who)) { who[v] = (int) u; return true; } } return false; }
// the distinct non-zero distances from z; ties say whether two points share one of the first k + 1
static std::vector<double> dists(Rows const &r, V const &z, Dist d) { std::vector<double> v; for (auto &p: r) { double x = d(z, p.x); if (x > 0) v.push_back(x); } std::sort(v.begin(), v.end()); return v; }
static std::vector<double> uniq(std::vector<double> v) { std::vector<double> u; for (double x: v) if (u.empty() || x > u.back() * (1 + 1e-12)) u.push_back(x); return u; }
// slots of the synthetic points a base point gets from its class
static bool slots(std::vector<Share> &out, Rows const &cls, V const &z, size_t k, Dist d) {
    auto all = dists(cls, z, d), u = uniq(all); bool ties = false; for (size_t i = 0; i < u.size() && i < k; i++) { size_t m = 0; for (double x: all) m += fabs(x - u[i]) <= 1e-12 * u[i]; ties = ties || m > 1; }
    for (size_t i = 0; i < k && i < u.size(); i++) { Share s; s.z = z; for (auto &p: cls) { double x = d(z, p.x); if (fabs(x - u[i]) <= 1e-9 * u[i]) s.to.push_back(p.x); } out.push_back(s); }
    return ties;
}
static void result(Ctx &c, D &before_alias, D &res, Rows const &r, std::vector<Share> const &sl, bool ties, size_t upper, bool multi) {
    REQUIRE(res.size() >= r.size(), "lost", res.size() << " points of " << r.size() << " are left");
    Rows out = rows(res); for (size_t i = 0; i < r.size(); i++) REQUIRE(out[i].x == r[i].x && out[i].y == r[i].y && out[i].id == r[i].id, "original", "original point " << str(r[i]) << " became " << str(out[i]));
    size_t m = out.size() - r.size();
    if (!ties) REQUIRE(m == sl.size(), "count", m << " synthetic points instead of " << sl.size()); else REQUIRE(m >= std::min(sl.size(), upper) && m <= upper, "count", m << " synthetic points instead of " << sl.size() << ".." << upper);
    std::vector<std::vector<size_t>> adj(m);
    for (size_t a = 0; a < m; a++) { auto &p = out[r.size() + a]; REQUIRE(p.x.size() == r[0].x.size(), "synthetic-dim", "a synthetic point has " << p.x.size() << " coordinates"); for (size_t b = 0; b < sl.size(); b++) { bool ok = false; for (auto &t: sl[b].to) ok = ok || on(p.x, sl[b].z, t); if (ok) { for (auto &q: r) if (q.x == sl[b].z && q.y == p.y) { adj[a].push_back(b); break; } } } REQUIRE(ties || !adj[a].empty(), "segment", "synthetic point " << str(p) << " lies on no segment between a base point and one of its neighbors"); }
    if (!ties) { std::vector<int> who(sl.size(), -1); for (size_t a = 0; a < m; a++) { std::vector<char> seen(sl.size(), 0); REQUIRE(match(adj, a, seen, who), "share", "the synthetic points are not one per base point and neighbor, e.g. " << str(out[r.size() + a])); } }
    std::map<int, size_t> want; for (auto &p: out) want[(int) p.y]++;
    auto cl = res.classes(); auto cd = res.classesDistribution(); REQUIRE(cl.size() == want.size() && cd.size() == want.size(), "classes", cl.size() << " classes and " << cd.size() << " counts for " << want.size());
    for (size_t q = 0; q < cl.size(); q++) REQUIRE(want.count(cl[q]) && want[cl[q]] == (size_t) cd[q], "class-count", "class " << cl[q] << " is counted " << cd[q] << " times");
    REQUIRE(res.dim() == r[0].x.size() && res.getFeaturesNames().size() == res.dim(), "features", "dimension " << res.dim() << " with " << res.getFeaturesNames().size() << " feature names");
    auto ix = res.getIndex(); std::set<int> is(ix.begin(), ix.end()); REQUIRE(ix.size() == out.size() && is.size() == out.size() && *is.begin() == 0 && *is.rbegin() == (int) out.size() - 1, "index", "the index has " << is.size() << " different entries for " << out.size() << " points");
    Rows al = rows(before_alias); REQUIRE(al.size() == r.size() || al.size() == out.size(), "argument", "the argument has " << al.size() << " points"); for (size_t i = 0; i < r.size(); i++) REQUIRE(al[i].x == r[i].x && al[i].y == r[i].y, "argument-original", "point " << i << " of the argument changed");
}
static Rows gen(Ctx &c, size_t dim, bool grid, std::vector<int> const &lab, std::vector<size_t> const &n) {
    Rows r; for (size_t q = 0; q < lab.size(); q++) { V o(dim); for (auto &v: o) v = (double) c.z(3); for (size_t i = 0; i < n[q]; i++) { V x(dim); for (size_t j = 0; j < dim; j++) x[j] = grid ? o[j] + (double) c.z(3) : o[j] + (double) c.z(3000) / 997.0; r.push_back({x, (double) lab[q]}); } }
    auto o = c.perm(r.size()); Rows s; for (size_t i = 0; i < r.size(); i++) { s.push_back(r[o[i]]); s.back().id = i + 1; } return s;
}
static std::vector<int> two(Ctx &c, size_t k) { switch (c.i(0, 2)) { case 0: return k == 2 ? std::vector<int>{-1, 1} : std::vector<int>{-1, 1, 2}; case 1: return k == 2 ? std::vector<int>{1, -1} : std::vector<int>{3, 1, 2}; default: return k == 2 ? std::vector<int>{1, 2} : std::vector<int>{0, 5, 2}; } }
#define NT "at least two base points with two neighbors each"
template<class M> static void smote(Ctx &c, Dist d, char const *mn) {
    size_t dim = (size_t) c.wide(1, 3, 12), nc = c.chance(30) ? 3 : 2, k = (size_t) c.wide(1, 5, 15), seed = (size_t) c.i(1, 500); bool grid = c.chance(40); auto lab = two(c, nc); std::vector<size_t> n(nc); n[0] = (size_t) c.wide(1, 9, 50); for (size_t q = 1; q < nc; q++) n[q] = n[0] + (size_t) c.i(1, 8);
    Rows r = gen(c, dim, grid, lab, n), cls; D dt = mk(r, true), arg = dt.copy(); for (auto &p: r) if (p.y == lab[0]) cls.push_back(p);
    c.show() << "SMOTE k " << k << " metric " << mn << " seed " << seed << " on " << str(r, 40) << ", minority class " << lab[0];
    std::vector<Share> sl; bool ties = false; size_t up = 0; for (auto &p: cls) { ties |= slots(sl, cls, p.x, k, d); up += std::min(k, dists(cls, p.x, d).size()); }
    { std::set<V> s; for (auto &p: cls) if (!s.insert(p.x).second) ties = true; }
    mltk::SMOTE<double, M> op(k, 0.1, seed); D res = op(arg); result(c, arg, res, r, sl, ties, up, nc > 2);
    for (size_t i = r.size(); i < res.size(); i++) REQUIRE(res[i]->Y() == lab[0], "label", "a synthetic point has label " << res[i]->Y() << ", the minority class is " << lab[0]);
    c.label(ties ? "ties" : "no ties"); if (cls.size() >= 3 && k >= 2) c.nontrivial();
}
LAW(smote, 4, NT) { smote<Euc>(c, l2, "Euclidean"); }
LAW(smote_manhattan, 2, NT) { smote<Man>(c, l1, "Manhattan"); }
template<class M> static void border(Ctx &c, Dist d, char const *mn) {
    size_t dim = (size_t) c.wide(1, 3, 12), k = (size_t) c.wide(1, 4, 12), m = (size_t) c.wide(1, 6, 15), seed = (size_t) c.i(1, 500); bool grid = c.chance(40); auto lab = two(c, 2); std::vector<size_t> n(2); n[0] = (size_t) c.wide(1, 9, 50); n[1] = n[0] + (size_t) c.wide(1, 8, 60);
    Rows r = gen(c, dim, grid, lab, n), cls; D dt = mk(r, true), arg = dt.copy(); for (auto &p: r) if (p.y == lab[0]) cls.push_back(p);
    c.show() << "Borderline SMOTE k " << k << " m " << m << " metric " << mn << " seed " << seed << " on " << str(r, 40) << ", minority class " << lab[0];
    std::vector<Share> sl; bool ties = false; size_t up = 0, danger = 0;
    for (auto &p: cls) {
        std::vector<std::pair<double, bool>> a; for (auto &q: r) { double x = d(p.x, q.x); if (x > 0) a.push_back({x, q.y != lab[0]}); } std::sort(a.begin(), a.end()); for (size_t i = 1; i < a.size() && i <= m; i++) if (a[i].first <= a[i - 1].first * (1 + 1e-12)) ties = true;
        size_t maj = 0; for (size_t i = 0; i < m && i < a.size(); i++) maj += a[i].second;
        if (maj >= m / 2 && maj < m) { danger++; ties |= slots(sl, cls, p.x, k, d); }
        up += std::min(k, dists(cls, p.x, d).size());
    }
    { std::set<V> s; for (auto &p: r) if (!s.insert(p.x).second) ties = true; }
    if (ties) sl.clear();
    mltk::BorderlineSMOTEOne<double, M> op(k, 0.1, m, seed); D res = op(arg); result(c, arg, res, r, sl, ties, up, false);
    for (size_t i = r.size(); i < res.size(); i++) { REQUIRE(res[i]->Y() == lab[0], "label", "a synthetic point has label " << res[i]->Y() << ", the minority class is " << lab[0]); bool ok = false; for (auto &a: cls) for (auto &b: cls) ok = ok || on(res[i]->X(), a.x, b.x); REQUIRE(ok, "minority-segment", "a synthetic point lies between no two minority points: " << vs(res[i]->X())); }
    c.label(ties ? "ties" : danger ? "points in danger" : "no point in danger"); if (!ties && danger && danger < cls.size() && cls.size() >= 3 && k >= 2) c.nontrivial();
}
LAW(borderline, 4, "a proper part of at least three minority points is in danger, two or more neighbors") { border<Euc>(c, l2, "Euclidean"); }
LAW(borderline_manhattan, 1, "a proper part of at least three minority points is in danger, two or more neighbors") { border<Man>(c, l1, "Manhattan"); }
