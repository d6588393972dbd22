#include "binary.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
using namespace cm;
namespace K = mltk::classifier;
// the decision function is the reported hyperplane, other dimensions are rejected
template<class L> static void decision(Ctx &c, L &l, size_t dim, Rows const &tr) {
    auto s = l.getSolution(); V w = s.w.X();
    REQUIRE(w.size() == dim, "weights", "solution with " << w.size() << " weights for dimension " << dim);
    auto one = [&](V const &x) {
        Pt p(x); double f = ip(w, x) + s.bias, sc = std::fabs(s.bias); for (size_t j = 0; j < dim; j++) sc += std::fabs(w[j] * x[j]);
        double raw = l.evaluate(p, true), cls = l.evaluate(p, false);
        REQUIRE(close(raw, f, 1e-12, 1e-12 * (1 + sc)), "raw", "decision value " << raw << " but the weights " << vs(w) << " and bias " << s.bias << " give " << f << " at " << vs(x));
        REQUIRE(cls == 1 || cls == -1, "class", "class " << cls);
        if (std::fabs(f) > 1e-10 * (1 + sc)) REQUIRE(cls == (f > 0 ? 1 : -1), "sign", "class " << cls << " where the weighted sum is " << f);
        REQUIRE(p.X() == x, "query", "query changed");
    };
    for (auto &r: tr) one(r.x);
    for (int t = 0; t < 3; t++) { V x(dim); for (auto &v: x) v = c.num(); one(x); }
    for (size_t d: {dim + 1, dim - 1, dim + 3}) if (d > 0 && d < 20) { Pt p(V(d, 1.0)); double a = l.evaluate(p, false), r = l.evaluate(p, true); REQUIRE(a == 0 && r == 0, "dimension", "a point of dimension " << d << " was given class " << a << " by a learner of dimension " << dim); }
}
struct Cfg { double rate; int budget; };
static void setup(mltk::classifier::Classifier<double> &l, int up) { l.setVerbose(0); l.setMaxTime(1e9); l.setMaxUpdates(up); }
template<class L> static void contract(Ctx &c, L &l, bool ok, Bin const &b, double q, double gamma, const char *name) {
    auto s = l.getSolution(); V w = s.w.X();
    if (b.contradictory) REQUIRE(!ok, "success", name << " reports success on contradictory points");
    if (ok) for (auto &r: b.r) {
        double e = l.evaluate(point(r), false);
        REQUIRE(e == r.y, "separate", name << " reports success but predicts " << e << " for training point " << str(r));
        double f = r.y * (ip(w, r.x) + s.bias), sc = std::fabs(s.bias); for (size_t j = 0; j < w.size(); j++) sc += std::fabs(w[j] * r.x[j]);
        REQUIRE(f > -1e-12 * sc, "side", name << ": training point " << str(r) << " on the wrong side: " << f);
        if (gamma > 0) REQUIRE(f >= gamma * lq(w, q) * (q == -1 ? 1 - 1e-6 : 1) - 1e-9 * (1 + sc), "margin", name << ": functional margin " << f << " of " << str(r) << " with norm " << lq(w, q) << " for a requested margin of " << gamma);
    }
    decision(c, l, b.r[0].x.size(), b.r);
}
// updates a perceptron starting with weights of length w0 needs at most on separable data
static double bound(Bin const &b, double rate, double w0 = 0) { return b.R2 / (b.aug * b.aug) + 2 * w0 / (rate * b.aug) + 2; }
static const std::vector<double> RATES = {0.5, 1, 0.1, 0.01, 2};
static Bin gen(Ctx &c) { int k = (int) c.i(0, 5); Bin b = gen_bin(c, k >= 4 ? 1 : k); c.label(b.separable ? "separable" : b.contradictory ? "contradictory" : "random labels"); return b; }
#define NT "at least five points in two or more dimensions"
static void nt(Ctx &c, Bin const &b) { if (b.r.size() >= 5 && b.r[0].x.size() >= 2) c.nontrivial(); }
// an earlier training of the same learner on other samples
template<class L> static bool warm(Ctx &c, L &l, int up, double q = 2) {
    if (!c.chance(25)) return false;
    l.setqNorm(q);
    Bin o = gen_bin(c, (int) c.i(1, 3)); D d = mk(o.r); l.setSamples(d); setup(l, std::min(up, 200)); l.train(); setup(l, up);
    c.show() << "used before on " << o.r.size() << " points of dimension " << o.r[0].x.size() << "; "; c.label("retrained"); return true;
}
LAW(perceptron, 5, NT) {
    Bin b = gen(c); D d = mkb(c, b); double rate = c.pick(RATES); int up = (int) c.pick(std::vector<int>{1500, 1500, 6000, 50, 5, 1});
    K::PerceptronPrimal<double> a(d, 2, rate), e; bool w = warm(c, e, up); auto &l = w ? e : a;
    if (w) { l.setSamples(d); l.setLearningRate(rate); }
    setup(l, up);
    c.show() << "perceptron rate " << rate << " budget " << up << " " << str(b.r, 30);
    Rows before = rows(d);
    bool ok = l.train();
    REQUIRE(rows(d) == before, "data", "training changed the caller's data");
    contract(c, l, ok, b, 2, 0, "perceptron");
    if (!w && b.separable && bound(b, rate) < up) REQUIRE(ok, "converge", "no success on separable data after " << l.getCtot() << " updates, " << bound(b, rate) << " suffice");
    nt(c, b);
}
LAW(fixed_margin, 7, NT) {
    Bin b = gen(c); D d = mkb(c, b); double rate = c.pick(RATES); int up = (int) c.pick(std::vector<int>{300, 1200, 50, 5});
    double q = c.pick(std::vector<double>{2, 1, -1, 3, 1.5}), gamma = c.flip() ? 0 : b.max_margin > 0 && c.flip() ? b.max_margin * (double) c.i(1, 9) / 10 : c.dy(2, 16) + 2;
    int which = (int) c.i(0, 1);
    auto go = [&](auto &l, const char *name, bool w) {
        if (w) { l.setSamples(d); }
        l.setLearningRate(rate); l.setqNorm(q); l.setGamma(gamma);
        setup(l, up);
        c.show() << name << " q " << q << " margin " << gamma << " rate " << rate << " budget " << up << " " << str(b.r, 30);
        Rows before = rows(d);
        bool ok = l.train();
        REQUIRE(rows(d) == before, "data", "training changed the caller's data");
        contract(c, l, ok, b, q, gamma, name);
        if (!w && gamma == 0 && b.separable && bound(b, rate) < up) REQUIRE(ok, "converge", name << ": no success on separable data after " << l.getCtot() << " updates, " << bound(b, rate) << " suffice");
        if (ok && gamma > 0) c.label("margin met");
        if (!ok && gamma > 0) c.label("margin not met");
        if (ok && b.max_margin > 0 && q == 2) REQUIRE(gamma <= b.max_margin * (1 + 1e-9), "impossible", name << " claims a margin of " << gamma << " where " << b.max_margin << " is possible");
    };
    if (which == 0) {
        K::PerceptronFixedMarginPrimal<double> a(d, gamma, q, rate), e; bool w = warm(c, e, up, q); go(w ? e : a, "fixed margin perceptron", w);
    } else {
        K::IMApFixedMargin<double> a(d, gamma), e; bool w = warm(c, e, up, q); go(w ? e : a, "fixed margin IMA", w);
    }
    nt(c, b);
}
// a flexible margin: points that were often mistaken may keep less; the multipliers count the updates
LAW(flexible, 4, NT) {
    Bin b = gen(c); D d = mkb(c, b); double rate = c.pick(RATES); int up = (int) c.pick(std::vector<int>{300, 1200, 50, 5});
    double q = c.pick(std::vector<double>{2, 2, 1, -1, 3}), gamma = c.flip() ? 0 : c.dy(2, 16) + 2, flex = c.flip() ? 0 : c.pick(std::vector<double>{0.01, 0.1, 0.5, 1, 3});
    auto go = [&](auto &l, const char *name) {
        l.setLearningRate(rate); l.setqNorm(q); l.setGamma(gamma); l.setFlexible(flex); setup(l, up);
        c.show() << name << " q " << q << " margin " << gamma << " flexibility " << flex << " rate " << rate << " budget " << up << " " << str(b.r, 30);
        for (size_t i = 0; i < b.r.size(); i++) REQUIRE((*l.getSamples())[i]->Alpha() == 0, "start", "training starts with multiplier " << (*l.getSamples())[i]->Alpha());
        Rows before = rows(d);
        bool ok = l.train();
        REQUIRE(rows(d) == before, "data", "training changed the caller's data");
        auto s = l.getSolution(); V w = s.w.X(), a; auto sm = l.getSamples();
        REQUIRE(sm->size() == b.r.size(), "samples", "the learner has " << sm->size() << " samples");
        for (size_t i = 0; i < b.r.size(); i++) a.push_back((*sm)[i]->Alpha());
        double n = lq(w, q);
        if (ok) for (size_t i = 0; i < b.r.size(); i++) {
            double f = b.r[i].y * (ip(w, b.r[i].x) + s.bias), sc = std::fabs(s.bias); for (size_t j = 0; j < w.size(); j++) sc += std::fabs(w[j] * b.r[i].x[j]);
            REQUIRE(f >= gamma * n * (q == -1 ? 1 - 1e-6 : 1) - flex * a[i] - 1e-9 * (1 + sc), "flexible", name << ": functional margin " << f << " of " << str(b.r[i]) << " with norm " << n << " and multiplier " << a[i]);
        }
        if (gamma == 0) for (double x: a) REQUIRE(x >= 0 && close(x / rate, std::round(x / rate), 1e-9, 1e-6), "counts", name << ": multiplier " << x << " is no multiple of the rate");
        if (gamma == 0) { double t = 0; for (double x: a) t += x; REQUIRE(close(t / rate, (double) l.getCtot(), 1e-9, 1e-6), "updates", name << ": the multipliers account for " << t / rate << " updates of " << l.getCtot()); }
        if (gamma == 0) for (size_t j = 0; j < w.size(); j++) {      // with a margin the shrinking multiplies rounding errors without limit
            double t = 0, sc = 0; for (size_t i = 0; i < a.size(); i++) { double e = a[i] * b.r[i].y * b.r[i].x[j]; t += e; sc += rate * std::fabs(b.r[i].x[j]) * l.getCtot() + std::fabs(e); }
            REQUIRE(std::fabs(w[j] - t) <= 1e-9 * sc, "expansion", name << ": weight " << w[j] << " of feature " << j << " but the multipliers " << vs(a) << " give " << t);
        }
        decision(c, l, b.r[0].x.size(), b.r);
        if (ok && flex > 0) c.label("flexible margin met");
    };
    if (c.flip()) { K::PerceptronFixedMarginPrimal<double> l(d, gamma, q, rate); go(l, "fixed margin perceptron"); }
    else { K::IMApFixedMargin<double> l(d, gamma); go(l, "fixed margin IMA"); }
    nt(c, b);
}
LAW(ima, 6, NT) {
    Bin b = gen(c); D d = mkb(c, b); int up = (int) c.pick(std::vector<int>{400, 1500, 50, 5});
    int q = (int) c.pick(std::vector<int>{2, 2, 1, -1, 3});
    K::IMAp<double> a(d, q), e; bool w = warm(c, e, up, q);
    mltk::Solution init; bool given = !w && c.chance(30);
    if (given) {                          // an initial hyperplane, separating or not
        bool sep = b.separable && c.flip(); V iw(b.r[0].x.size());
        if (sep) iw = b.u; else { for (auto &v: iw) v = (double) c.z(3); if (ip(iw, iw) == 0) iw[0] = 1; }
        init.w = mltk::Point<double>(iw); init.bias = sep ? b.b : (double) c.z(3); c.label("initial solution");
    }
    K::IMAp<double> g(d, q, 0.0, 0.0, given ? &init : nullptr);
    auto &l = w ? e : given ? g : a;
    if (w) { l.setSamples(d); l.setqNorm(q); }
    setup(l, up);
    c.show() << "IMA q " << q << " budget " << up << (given ? " with an initial solution " : " ") << str(b.r, 30);
    Rows before = rows(d);
    bool ok = l.train();
    REQUIRE(rows(d) == before, "data", "training changed the caller's data");
    contract(c, l, ok, b, q, 0, "IMA");
    if (ok) {
        V wv = l.getSolution().w.X(); double n = l.getSolution().norm;
        REQUIRE(close(n, lq(wv, q), q == -1 ? 1e-6 : 1e-9, 1e-12), "norm", "reported norm " << n << " but the weights have norm " << lq(wv, q));
    }
    if (!w && !given && b.separable && bound(b, 1) < up) REQUIRE(ok, "converge", "no success on separable data after " << l.getCtot() << " updates, " << bound(b, 1) << " suffice");
    nt(c, b);
}
LAW(balanced, 4, NT) {
    Bin b = gen(c); D d = mkb(c, b); double rate = c.pick(RATES); int up = (int) c.pick(std::vector<int>{300, 1200, 50, 5});
    size_t seed = (size_t) c.i(1, 1000);
    K::BalancedPerceptron<double> l(d, seed); l.setLearningRate(rate); setup(l, up);
    c.show() << "balanced perceptron rate " << rate << " budget " << up << " seed " << seed << " " << str(b.r, 30);
    Rows before = rows(d);
    bool ok = l.train();
    REQUIRE(rows(d) == before, "data", "training changed the caller's data");
    contract(c, l, ok, b, 2, 0, "balanced perceptron");
    double w0 = std::sqrt((double) b.r[0].x.size());
    if (b.separable && bound(b, rate, w0) < up) REQUIRE(ok, "converge", "no success on separable data, " << bound(b, rate, w0) << " updates suffice");
    nt(c, b);
}
