#include "common.hpp"
#include "ufjfmltk/core/DistanceMetric.hpp"
using namespace cm;
namespace M = mltk::metrics::dist;
using LD = long double;
enum Dom { ANY, NONZERO_COORD, NONZERO_VEC, NONNEG, POSITIVE, PROB };
struct Measure {
    const char *name; Dom dom; bool sym, nonneg, self0, tri;
    std::unique_ptr<M::DistanceMetric<double>> f;
    std::function<LD(V const &, V const &)> want;
};
static LD S(V const &a, V const &b, std::function<LD(LD, LD)> g) { LD s = 0; for (size_t i = 0; i < a.size(); i++) s += g(a[i], b[i]); return s; }
static LD sq(LD x) { return x * x; }
#define SUM(expr) S(a, b, [](LD x, LD y) -> LD { (void) x; (void) y; return expr; })
static std::vector<Measure> &table() {
    static std::vector<Measure> t;
    if (!t.empty()) return t;
    auto add = [&](const char *n, Dom d, bool sym, bool nn, bool s0, bool tri, M::DistanceMetric<double> *f, std::function<LD(V const &, V const &)> w) {
        t.push_back({n, d, sym, nn, s0, tri, std::unique_ptr<M::DistanceMetric<double>>(f), w}); };
#define ADD(N, DOM, SYM, NN, S0, TRI, EXPR) add(#N, DOM, SYM, NN, S0, TRI, new M::N<double>(), [](V const &a, V const &b) -> LD { return EXPR; })
    ADD(Euclidean, ANY, 1, 1, 1, 1, sqrtl(SUM(sq(x - y))));
    ADD(Manhattan, ANY, 1, 1, 1, 1, SUM(fabsl(x - y)));
    add("Chebyshev", ANY, 1, 1, 1, 1, new M::Chebyshev<double>(), [](V const &a, V const &b) { LD m = 0; for (size_t i = 0; i < a.size(); i++) m = std::max(m, fabsl((LD) a[i] - b[i])); return m; });
    ADD(Lorentzian, ANY, 1, 1, 1, 0, SUM(logl(1 + fabsl(x - y))));
    ADD(Canberra, NONZERO_COORD, 1, 1, 1, 0, SUM(fabsl(x - y) / (fabsl(x) + fabsl(y))));
    ADD(Sorensen, POSITIVE, 1, 1, 1, 0, SUM(fabsl(x - y)) / SUM(x + y));
    ADD(AvgManhattan, ANY, 1, 1, 1, 0, SUM(fabsl(x - y)) / a.size());
    ADD(NonIntersection, ANY, 1, 1, 1, 0, SUM(fabsl(x - y)) / 2);
    ADD(Jaccard, NONZERO_VEC, 1, 1, 1, 0, SUM(sq(x - y)) / (SUM(sq(x)) + SUM(sq(y)) - SUM(x * y)));
    ADD(Cosine, NONZERO_VEC, 1, 1, 1, 0, 1 - SUM(x * y) / (sqrtl(SUM(sq(x))) * sqrtl(SUM(sq(y)))));
    ADD(Dice, NONZERO_VEC, 1, 1, 1, 0, 1 - 2 * SUM(x * y) / (SUM(sq(x)) + SUM(sq(y))));
    ADD(Chord, NONZERO_VEC, 1, 1, 1, 0, sqrtl(std::max((LD) 0, 2 - 2 * SUM(x * y) / (sqrtl(SUM(sq(x))) * sqrtl(SUM(sq(y)))))));
    ADD(Bhattacharyya, PROB, 1, 1, 1, 0, -logl(SUM(sqrtl(x * y))));
    ADD(SquaredChord, NONNEG, 1, 1, 1, 0, SUM(sq(sqrtl(x) - sqrtl(y))));
    ADD(Matusita, NONNEG, 1, 1, 1, 0, sqrtl(SUM(sq(sqrtl(x) - sqrtl(y)))));
    ADD(Hellinger, NONNEG, 1, 1, 1, 0, sqrtl(2 * SUM(sq(sqrtl(x) - sqrtl(y)))));
    ADD(SquaredEuclidean, ANY, 1, 1, 1, 0, SUM(sq(x - y)));
    ADD(Clark, NONZERO_COORD, 1, 1, 1, 0, sqrtl(SUM(sq((x - y) / (fabsl(x) + fabsl(y))))));
    ADD(Neyman, POSITIVE, 0, 1, 1, 0, SUM(sq(x - y) / x));
    ADD(Pearson, POSITIVE, 0, 1, 1, 0, SUM(sq(x - y) / y));
    ADD(Squared, POSITIVE, 1, 1, 1, 0, SUM(sq(x - y) / (x + y)));
    ADD(ProbabilisticSymmetric, POSITIVE, 1, 1, 1, 0, 2 * SUM(sq(x - y) / (x + y)));
    ADD(Divergence, POSITIVE, 1, 1, 1, 0, 2 * SUM(sq(x - y) / sq(x + y)));
    ADD(AdditiveSymmetric, POSITIVE, 1, 1, 1, 0, 2 * SUM(sq(x - y) * (x + y) / (x * y)));
    ADD(Average, ANY, 1, 1, 1, 0, sqrtl(SUM(sq(x - y)) / a.size()));
    ADD(SquaredChiSquared, POSITIVE, 1, 1, 1, 0, SUM(sq(x - y) / fabsl(x + y)));
    ADD(KullbackLeibler, POSITIVE, 0, 0, 1, 0, SUM(x * logl(x / y)));
    ADD(Jeffreys, POSITIVE, 1, 1, 1, 0, SUM((x - y) * logl(x / y)));
    ADD(KDivergence, POSITIVE, 0, 0, 1, 0, SUM(x * logl(2 * x / (x + y))));
    ADD(Topsoe, POSITIVE, 1, 1, 1, 0, SUM(x * logl(2 * x / (x + y)) + y * logl(2 * y / (x + y))));
    ADD(JensenShannon, POSITIVE, 1, 1, 1, 0, SUM(x * logl(2 * x / (x + y)) + y * logl(2 * y / (x + y))) / 2);
    ADD(JensenDifference, POSITIVE, 1, 1, 1, 0, SUM((x * logl(x) + y * logl(y)) / 2 - (x + y) / 2 * logl((x + y) / 2)) / 2);
    ADD(MaxSymmetric, POSITIVE, 1, 1, 1, 0, std::max(SUM(sq(x - y) / x), SUM(sq(x - y) / y)));
    ADD(MinSymmetric, POSITIVE, 1, 1, 1, 0, std::min(SUM(sq(x - y) / x), SUM(sq(x - y) / y)));
    add("AverageL1Linf", ANY, 1, 1, 1, 0, new M::AverageL1Linf<double>(), [](V const &a, V const &b) { LD m = 0, s = 0; for (size_t i = 0; i < a.size(); i++) { LD d = fabsl((LD) a[i] - b[i]); m = std::max(m, d); s += d; } return (s + m) / 2; });
    ADD(KumarJohnson, POSITIVE, 1, 1, 1, 0, SUM(sq(sq(x) - sq(y)) / (2 * powl(x * y, 1.5L))));
    ADD(Taneja, POSITIVE, 1, 1, 1, 0, SUM((x + y) / 2 * logl((x + y) / (2 * sqrtl(x * y)))));
    ADD(Hassanat, ANY, 1, 1, 1, 1, SUM(std::min(x, y) >= 0 ? 1 - (1 + std::min(x, y)) / (1 + std::max(x, y)) : 1 - 1 / (1 + std::max(x, y) - std::min(x, y))));
    return t;
}
static V gen(Ctx &c, size_t n, Dom d) {
    V v(n);
    for (auto &x: v) {
        switch (c.draw(3)) { case 0: x = (double) c.z(5); break; case 1: x = c.dy(20, 8); break; case 2: x = c.real(-3, 3); break; default: x = (double) c.z(100000) / 1000.0; }
        if (d == NONNEG) x = std::fabs(x);
        if (d == POSITIVE || d == PROB) { x = std::fabs(x); if (x < 0.01) x = 0.01; }
        if (d == NONZERO_COORD && std::fabs(x) < 0.01) x = 1;
    }
    if (d == NONZERO_VEC) { double m = 0; for (double x: v) m = std::max(m, std::fabs(x)); if (m < 0.01) v[0] = 1; }
    if (d == PROB) { double s = 0; for (double x: v) s += x; for (auto &x: v) x /= s; }
    return v;
}
static double tol(V const &a, V const &b) { double m = 1; for (double x: a) m = std::max(m, std::fabs(x)); for (double x: b) m = std::max(m, std::fabs(x)); return m * m * (double) a.size(); }
// sqrt of a cancelled difference loses half the digits
static double atol(Measure const &q, double t) { std::string n = q.name; return n == "Chord" ? 3e-7 : 1e-10 * t; }

LAW(formulas, 6, "the two vectors differ") {
    auto &t = table(); auto &q = t[(size_t) c.draw(t.size() - 1)];
    size_t n = (size_t) c.lenw(1, 8, 200);
    V a = gen(c, n, q.dom), b = gen(c, n, q.dom);
    if (c.chance(10)) b = a;
    c.show() << q.name << " " << vs(a) << " " << vs(b);
    Pt p(a), r(b);
    double g = (*q.f)(p, r), w = (double) q.want(a, b), e = atol(q, tol(a, b));
    REQUIRE(close(g, w, 1e-7, e), "formula", q.name << " is " << g << ", the formula gives " << w);
    if (q.sym) { double h = (*q.f)(r, p); REQUIRE(close(g, h, 1e-9, e), "symmetry", q.name << " is " << g << " one way and " << h << " the other"); }
    if (q.nonneg) REQUIRE(g >= -e, "negative", q.name << " is negative: " << g);
    if (q.self0) { double z = (*q.f)(p, p); REQUIRE(std::fabs(z) <= e, "self", q.name << " of a vector with itself is " << z); }
    REQUIRE(p.X() == a && r.X() == b, "operand", q.name << " changed an argument");
    c.label(q.name);
    if (a != b) c.nontrivial();
}
LAW(triangle, 3, "three different vectors") {
    auto &t = table(); std::vector<Measure *> m; for (auto &q: t) if (q.tri) m.push_back(&q);
    auto &q = *m[(size_t) c.draw(m.size() - 1)];
    size_t n = (size_t) c.lenw(1, 6, 60);
    V a = gen(c, n, q.dom), b = gen(c, n, q.dom), d = gen(c, n, q.dom);
    c.show() << q.name << " " << vs(a) << " " << vs(b) << " " << vs(d);
    double ab = (*q.f)(Pt(a), Pt(b)), bd = (*q.f)(Pt(b), Pt(d)), ad = (*q.f)(Pt(a), Pt(d));
    REQUIRE(ad <= ab + bd + 1e-9 * tol(a, d), "triangle", q.name << ": " << ad << " > " << ab << " + " << bd);
    c.label(q.name);
    if (a != b && b != d && a != d) c.nontrivial();
}
