#include "pbt.hpp"
#include "ufjfmltk/core/Point.hpp"
using namespace pbt;
template<class T> using P = mltk::Point<T>;
using V = std::vector<double>;

static V vec(Ctx &c, long lo, long hi) {
    V v((size_t) c.lenw(lo, hi, 200));
    int style = (int) c.draw(4);
    for (auto &x: v) {
        x = style == 0 ? c.dy(30) : style == 1 ? -std::fabs(c.num()) : style == 2 ? c.num() : style == 3 ? std::fabs(c.num()) : c.real(-1, 1) * 1e-3;
    }
    c.label(style == 1 ? "all-nonpositive" : "mixed");
    return v;
}
static double ref_norm(V const &v, int p) {
    long double s = 0;
    if (p == 0) { double m = 0; for (auto x: v) m = std::max(m, std::fabs(x)); return m; }
    for (auto x: v) s += std::pow((long double) std::fabs(x), (long double) p);
    return (double) std::pow(s, 1.0L / p);
}

LAW(reductions, 4, "at least two coordinates, not all equal") {
    V a = vec(c, 1, 14), b(a.size());
    for (auto &x: b) x = c.num();
    if (std::set<double>(a.begin(), a.end()).size() > 1) c.nontrivial();
    c.show() << vs(a) << " " << vs(b);
    P<double> p(a), q(b);
    double s = 0, d = 0, sa = 0;
    for (size_t i = 0; i < a.size(); i++) { s += a[i]; d += a[i] * b[i]; sa += a[i] * a[i] + 1; }
    double scale = 0, dscale = 0;
    for (size_t i = 0; i < a.size(); i++) { scale += std::fabs(a[i]); dscale += std::fabs(a[i] * b[i]); }
    REQUIRE(std::fabs(p.sum() - s) <= 1e-12 * scale, "sum", "sum " << p.sum() << " want " << s);
    double fs = p.sum([](double const &x) { return x * x + 1; });
    REQUIRE(close(fs, sa, 1e-12), "sum-f", "sum(f) " << fs << " want " << sa);
    REQUIRE(std::fabs(mltk::dot(p, q) - d) <= 1e-12 * dscale, "dot", "dot " << mltk::dot(p, q) << " want " << d);
    REQUIRE(mltk::dot(p, q) == mltk::dot(q, p), "dot-sym", "dot not symmetric");
    REQUIRE(mltk::max(p) == *std::max_element(a.begin(), a.end()), "max", "max " << mltk::max(p));
    REQUIRE(mltk::min(p) == *std::min_element(a.begin(), a.end()), "min", "min " << mltk::min(p));
    REQUIRE(p.X() == a && q.X() == b, "operand", "operand changed");
}
LAW(int_reductions, 1, "at least two coordinates") {
    std::vector<int> a((size_t) c.lenw(1, 10, 100));
    bool neg = c.flip();
    for (auto &x: a) x = neg ? -(int) c.i(0, 50) : (int) c.z(50);
    if (a.size() > 1) c.nontrivial();
    c.show() << vs(a);
    P<int> p(a);
    REQUIRE(mltk::max(p) == *std::max_element(a.begin(), a.end()), "max", "max " << mltk::max(p));
    REQUIRE(mltk::min(p) == *std::min_element(a.begin(), a.end()), "min", "min " << mltk::min(p));
    int s = 0; for (int x: a) s += x;
    REQUIRE(p.sum() == s, "sum", "sum");
    int d = 0; for (int x: a) d += x * x;
    REQUIRE(mltk::dot(p, p) == d, "dot", "dot");
}
LAW(norms, 4, "at least two non-zero coordinates") {
    V a = vec(c, 1, 12);
    size_t nz = 0; for (auto x: a) nz += x != 0;
    if (nz >= 2) c.nontrivial();
    int p = (int) c.i(0, 5);
    c.show() << "p=" << p << " " << vs(a);
    P<double> q(a);
    double w = ref_norm(a, p), g = p == 0 ? q.norm(mltk::NORM_LINF) : q.norm(p);
    REQUIRE(close(g, w, 1e-9, 1e-300), "norm", "norm " << g << " want " << w);
    REQUIRE(close(q.norm(), ref_norm(a, 2), 1e-9, 1e-300), "norm-default", "default norm " << q.norm());
    REQUIRE(close(mltk::norm(q, mltk::NORM_L1), ref_norm(a, 1), 1e-9, 1e-300), "norm-l1", "L1 norm");
    // homogeneity and the norm ordering
    double k = c.dy(8, 2);
    P<double> r = q * k;
    REQUIRE(close(p == 0 ? r.norm(mltk::NORM_LINF) : r.norm(p), std::fabs(k) * w, 1e-9, 1e-300), "norm-homog", "norm of " << k << " times the vector");
    REQUIRE(q.X() == a, "operand", "operand changed");
}
LAW(normalise, 4, "at least two non-zero coordinates") {
    V a = vec(c, 1, 10);
    size_t nz = 0; double mx = 0;
    for (auto x: a) { nz += x != 0; mx = std::max(mx, std::fabs(x)); }
    c.assume(mx > 1e-60);
    if (nz >= 2) c.nontrivial();
    int q = (int) c.i(1, 4);
    c.show() << "q=" << q << " " << vs(a);
    P<double> p(a);
    p.Y() = c.dy(3); p.Id() = (size_t) c.i(0, 9); p.Alpha() = c.dy(3);
    P<double> n = mltk::normalize(p, q);
    REQUIRE(n.size() == a.size(), "len", "length changed");
    REQUIRE(close(ref_norm(n.X(), q), 1, 1e-9), "unit", "norm after normalising " << ref_norm(n.X(), q));
    double w = ref_norm(a, q);
    for (size_t i = 0; i < a.size(); i++) REQUIRE(close(n[i], a[i] / w, 1e-9, 1e-300), "direction", "coordinate " << i << " is " << n[i] << " want " << a[i] / w);
    REQUIRE(n.Y() == p.Y() && n.Id() == p.Id() && n.Alpha() == p.Alpha(), "meta", "label or identity changed");
    REQUIRE(p.X() == a, "operand", "operand changed");
    V b = a;
    P<double> m = mltk::normalize(b, q);
    REQUIRE(m.X() == b, "vector-inplace", "vector overload: result and argument differ");
    for (size_t i = 0; i < a.size(); i++) REQUIRE(close(b[i], a[i] / w, 1e-9, 1e-300), "vector-direction", "vector overload coordinate " << i);
}
LAW(pick, 3, "a proper subset of at least two coordinates") {
    V a = vec(c, 1, 12);
    P<double> p(a);
    p.Y() = c.dy(3); p.Id() = (size_t) c.i(0, 9); p.Alpha() = c.dy(3);
    std::vector<size_t> ix;
    auto pm = c.perm(a.size());
    size_t k = (size_t) c.i(1, (long) a.size());
    ix.assign(pm.begin(), pm.begin() + k);
    if (k >= 2 && k < a.size()) c.nontrivial();
    c.show() << vs(a) << " pick " << vs(ix);
    P<double> s = p.selectFeatures(ix);
    auto so = ix; std::sort(so.begin(), so.end());
    REQUIRE(s.size() == k, "len", "length " << s.size());
    for (size_t i = 0; i < k; i++) REQUIRE(s[i] == a[so[i]], "value", "coordinate " << i << " is " << s[i] << " want " << a[so[i]]);
    REQUIRE(s.Y() == p.Y() && s.Id() == p.Id() && s.Alpha() == p.Alpha(), "meta", "label or identity lost");
    REQUIRE(p.X() == a, "operand", "operand changed");
}
LAW(grid, 3, "at least three grid points and distinct bounds") {
    double lo = c.num(), hi = c.num();
    size_t n = (size_t) c.lenw(1, 60, 1000);
    c.show() << lo << ".." << hi << " n=" << n;
    if (n >= 3 && lo != hi) c.nontrivial();
    P<double> g = mltk::linspace(lo, hi, n);
    REQUIRE(g.size() == n, "len", "length " << g.size() << " want " << n);
    double sc = std::fabs(lo) + std::fabs(hi);
    REQUIRE(close(g[0], lo, 1e-12, 1e-12 * sc), "first", "first " << g[0] << " want " << lo);
    if (n == 1) return;
    REQUIRE(close(g[n - 1], hi, 1e-9, 1e-9 * sc), "last", "last " << g[n - 1] << " want " << hi);
    double h = (hi - lo) / (double) (n - 1);
    for (size_t i = 1; i < n; i++) REQUIRE(close(g[i] - g[i - 1], h, 1e-9, 1e-9 * sc), "step", "step at " << i << " is " << g[i] - g[i - 1] << " want " << h);
}
