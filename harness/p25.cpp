#include "dual.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
using namespace cm;
namespace K = mltk::classifier;
static void setup(K::Classifier<double> &l, int up) { l.setVerbose(0); l.setMaxTime(1e9); l.setMaxUpdates(up); }
#define NT "training succeeded on at least five points in two or more dimensions"
static Bin gen(Ctx &c, size_t maxn = 20) { int k = (int) c.pick(std::vector<int>{0, 0, 0, 1, 2}); Bin b = gen_bin(c, k, maxn); c.label(b.max_margin > 0 ? "known margin" : b.separable ? "separable" : "random labels"); return b; }
// distance kept to the nearest training point, in the norm dual to that of the weights
static double kept(Rows const &r, V const &w, double bias, double q, double *sc = nullptr) {
    double m = 1e300, s = std::fabs(bias), n = lq(w, q);
    for (auto &p: r) { m = std::min(m, p.y * (ip(w, p.x) + bias) / n); double t = std::fabs(bias); for (size_t j = 0; j < w.size(); j++) t += std::fabs(w[j] * p.x[j]); s = std::max(s, t); }
    if (sc) *sc = s / n;
    return m;
}
// half the distance of the closest pair of opposite points: no hyperplane keeps more
static double limit(Rows const &r, double q) {
    double best = 1e300, p = q == 1 ? -1 : q == -1 ? 1 : q / (q - 1);       // the dual norm (-1 stands for infinity)
    for (auto &a: r) for (auto &b: r) if (a.y > 0 && b.y < 0) { V d(a.x); for (size_t j = 0; j < d.size(); j++) d[j] -= b.x[j]; best = std::min(best, lq(d, p) / 2); }
    return best;
}
static double tolq(double q) { return q == -1 ? 1e-6 : 1e-9; }
LAW(ima, 6, NT) {
    Bin b = gen(c); D d = mkb(c, b); int q = (int) c.pick(std::vector<int>{2, 2, 1, -1, 3});
    int u1 = (int) c.i(1, 300), u2 = u1 + (int) c.pick(std::vector<int>{1, 10, 100, 1000});
    c.show() << "IMA q " << q << " budgets " << u1 << " and " << u2 << " " << str(b.r, 30);
    K::IMAp<double> l(d, q), m(d, q); setup(l, u1); setup(m, u2);
    bool o1 = l.train(), o2 = m.train();
    if (o1) REQUIRE(o2, "budget", "trained with a budget of " << u1 << " updates but not with " << u2);
    auto one = [&](auto &l, int u) {
        auto s = l.getSolution(); double sc, a = kept(b.r, s.w.X(), s.bias, q, &sc), t = tolq(q) * (1 + sc + std::fabs(s.margin));
        REQUIRE(s.margin <= a + t, "honest", "reported margin " << s.margin << " but the hyperplane " << vs(s.w.X()) << " " << s.bias << " keeps only " << a << " (budget " << u << ")");
        REQUIRE(s.margin >= -t, "negative", "reported margin " << s.margin);
        double lim = limit(b.r, q); if (q == 2 && b.max_margin > 0) lim = std::min(lim, b.max_margin);
        REQUIRE(s.margin <= lim * (1 + tolq(q)) + t, "limit", "reported margin " << s.margin << " where at most " << lim << " is possible");
        c.label(s.margin > 0.99 * lim ? "limit reached" : s.margin > 0.5 * lim ? "half of the limit" : "less than half of the limit");
    };
    if (o1) one(l, u1);
    if (o2) one(m, u2);
    if (o1) {
        double a = l.getSolution().margin, e = m.getSolution().margin, sc; kept(b.r, l.getSolution().w.X(), l.getSolution().bias, q, &sc);
        REQUIRE(e >= a * (1 - tolq(q)) - tolq(q) * (1 + sc), "improve", "margin " << e << " with a budget of " << u2 << " updates but " << a << " with " << u1);
        if (e > a * 1.001) c.label("improved by the larger budget");
        // the perceptron it starts from
        K::IMApFixedMargin<double> p(d, 0.0); p.setqNorm(q); p.setLearningRate(1); setup(p, u1);
        if (p.train()) {
            auto s = p.getSolution(); double psc, pm = kept(b.r, s.w.X(), s.bias, q, &psc);
            REQUIRE(a >= pm * (1 - tolq(q)) - tolq(q) * (1 + sc + psc), "start", "margin " << a << " but the first separating hyperplane keeps " << pm);
            if (a > pm * 1.01) c.label("better than the perceptron");
        } else REQUIRE(false, "start-trained", "trained with a budget of " << u1 << " updates, the perceptron it starts from does not");
    }
    if (o1 && b.r.size() >= 5 && b.r[0].x.size() >= 2) c.nontrivial();
}
LAW(dual, 4, NT) {
    Ker k = gen_kernel(c); Bin b = gen(c, 10); D d = mkb(c, b); double rate = c.pick(std::vector<double>{1, 0.5, 0.1});
    int u1 = (int) c.i(1, 300), u2 = u1 + (int) c.pick(std::vector<int>{1, 10, 100, 500});
    c.show() << "dual IMA " << k.name() << " rate " << rate << " budgets " << u1 << " and " << u2 << " " << str(b.r, 30);
    K::IMADual<double> l(d, k.kt(), k.param, rate), m(d, k.kt(), k.param, rate); setup(l, u1); setup(m, u2);
    bool o1 = l.train(), o2 = m.train();
    if (o1) REQUIRE(o2, "budget", "trained with a budget of " << u1 << " updates but not with " << u2);
    bool sound = true; double tol = 0;
    auto one = [&](auto &l, int u) {
        auto s = l.getSolution(); double n = dual_norm(k, b.r, s.alpha), sum = 0, big = 0;
        for (size_t i = 0; i < b.r.size(); i++) { big = std::max(big, std::sqrt(std::fabs(k(b.r[i].x, b.r[i].x)))); sum += std::fabs(s.alpha[i]) * std::sqrt(std::fabs(k(b.r[i].x, b.r[i].x))); }
        if (!(n > 1e-5 * sum) || !std::isfinite(n)) { sound = false; c.label("norm lost to rounding"); return; }
        // multipliers below EPS * rate are dropped, the norm is kept incrementally
        double t = 1e-7 * rate * (double) b.r.size() * big * (big / n + 1) + 1e-6 * (std::fabs(s.margin) + std::fabs(s.bias) / n) + 1e-9 * sum / n * big, a = 1e300;
        tol = std::max(tol, t);
        for (auto &r: b.r) a = std::min(a, r.y * expand(k, b.r, s.alpha, s.bias, r.x) / n);
        REQUIRE(s.margin <= a + t, "honest", "reported margin " << s.margin << " but the multipliers " << vs(s.alpha) << " with bias " << s.bias << " keep only " << a << " (budget " << u << ")");
        double lim = 1e300; for (auto &x: b.r) for (auto &y: b.r) if (x.y > 0 && y.y < 0) lim = std::min(lim, std::sqrt(std::max(0.0, k(x.x, x.x) + k(y.x, y.x) - 2 * k(x.x, y.x))) / 2);
        if (k.type == 0 && b.max_margin > 0) lim = std::min(lim, b.max_margin);
        REQUIRE(s.margin <= lim + t, "limit", "reported margin " << s.margin << " where at most " << lim << " is possible");
    };
    if (o1) one(l, u1);
    if (o2) one(m, u2);
    if (o1 && o2 && sound) {
        double a = l.getSolution().margin, e = m.getSolution().margin;
        REQUIRE(e >= a - tol, "improve", "margin " << e << " with a budget of " << u2 << " updates but " << a << " with " << u1);
        if (e > a * 1.001) c.label("improved by the larger budget");
        K::PerceptronFixedMarginDual<double> p(d, k.kt(), k.param, 0, rate); setup(p, u1);
        if (p.train()) {
            auto s = p.getSolution(); double n = dual_norm(k, b.r, s.alpha), pm = 1e300; for (auto &r: b.r) pm = std::min(pm, r.y * expand(k, b.r, s.alpha, s.bias, r.x) / n);
            if (n > 0) REQUIRE(a >= pm - tol, "start", "margin " << a << " but the first separating multipliers keep " << pm);
        }
    }
    c.label(k.name().substr(0, 5));
    if (o1 && b.r.size() >= 5 && b.r[0].x.size() >= 2) c.nontrivial();
}
LAW(fraction, 2, "a data set whose largest margin is known") {
    Bin b = gen_bin(c, 0, 12); D d = mkb(c, b); bool dual = c.flip();
    double R2 = 0; for (auto &r: b.r) R2 = std::max(R2, ip(r.x, r.x));
    double cond = (R2 + 1) / (b.max_margin * b.max_margin);
    c.show() << (dual ? "dual IMA " : "IMA ") << "with a large budget, largest margin " << b.max_margin << " " << str(b.r, 30);
    double got; bool ok; int up = 20000;
    if (dual) { K::IMADual<double> l(d); setup(l, up); ok = l.train(); got = l.getSolution().margin; }
    else { K::IMAp<double> l(d, 2); setup(l, up); ok = l.train(); got = l.getSolution().margin; }
    if (cond * 40 > up) { c.label("budget too small"); return; }
    REQUIRE(ok, "trained", "training failed with a budget of " << up);
    double f = got / b.max_margin;
    REQUIRE(f <= 1 + (dual ? 2e-3 : 1e-6), "fraction-limit", "margin " << got << " where " << b.max_margin << " is possible");
    // an update bound of cond / e^2 for the fraction 1 - e; the dual form does not centre its hyperplane between the classes and may ask for the largest margin itself
    if (!dual) REQUIRE(f >= 1 - 3 * std::sqrt(cond / up), "fraction", "margin " << got << " after at most " << up << " updates, " << b.max_margin << " is possible");
    for (double x: {0.99, 0.9, 0.7, 0.5, 0.3, 0.0}) if (f >= x) { std::ostringstream o; o << (dual ? "dual" : "primal") << " at least " << x << " of the largest margin"; c.label(o.str()); break; }
    c.nontrivial();
}
