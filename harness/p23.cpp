#include "dual.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
using namespace cm;
namespace K = mltk::classifier;
static void setup(K::Classifier<double> &l, int up) { l.setVerbose(0); l.setMaxTime(1e9); l.setMaxUpdates(up); l.setMaxIterations(up); }
static const std::vector<double> RATES = {0.5, 1, 0.1, 0.01, 2};
static Bin gen(Ctx &c, size_t maxn = 16) { int k = (int) c.i(0, 5); Bin b = gen_bin(c, k >= 4 ? 1 : k, maxn); c.label(b.separable ? "separable" : b.contradictory ? "contradictory" : "random labels"); return b; }
#define NT "at least five points in two or more dimensions, and a separation or more than twenty updates"
template<class L> static void nt(Ctx &c, Bin const &b, L &l, bool ok) { if (b.r.size() >= 5 && b.r[0].x.size() >= 2 && (ok || l.getCtot() > 20)) c.nontrivial(); c.label(ok ? "separated" : "gave up"); }
static Rows bare(Rows r) { for (auto &x: r) x.alpha = 0; return r; }
// slack: what the learner may lose by dropping negligible multipliers
template<class L> static void contract(Ctx &c, L &l, bool ok, Bin const &b, Ker const &k, double gamma, double slack, const char *name) {
    auto s = l.getSolution();
    if (b.contradictory) REQUIRE(!ok, "success", name << " reports success on contradictory points");
    dual_decision(c, l, k, b.r);
    if (!ok) return;
    if (gamma == 0 && std::string(name) == "dual perceptron") for (size_t i = 0; i < s.alpha.size(); i++) REQUIRE(s.alpha[i] >= 0, "multiplier-sign", name << ": multiplier " << s.alpha[i] << " of training point " << i);
    double n = dual_norm(k, b.r, s.alpha);
    for (auto &r: b.r) {
        double sc, f = r.y * expand(k, b.r, s.alpha, s.bias, r.x, &sc);
        double tol = slack + 1e-9 * (1 + sc);
        REQUIRE(f > -tol, "side", name << ": training point " << str(r) << " on the wrong side: " << f);
        if (std::fabs(f) > tol) REQUIRE(l.evaluate(point(r), false) == r.y, "separate", name << " reports success but predicts " << l.evaluate(point(r), false) << " for training point " << str(r));
        if (gamma > 0) REQUIRE(f >= gamma * n - tol - 2e-3 * gamma * n, "margin", name << ": functional margin " << f << " of " << str(r) << " with norm " << n << " for a requested margin of " << gamma);
    }
}
// rounding of an incrementally kept norm is relative to the terms that cancel
static double absum(Ker const &k, Rows const &tr, V const &a) { double s = 0; for (size_t i = 0; i < tr.size(); i++) s += std::fabs(a[i]) * std::sqrt(std::fabs(k(tr[i].x, tr[i].x))); return s; }
static double bound(Bin const &b, double rate) { return b.R2 / (b.aug * b.aug) + 2; }
// a learner that was trained on other samples before
template<class L> static bool warm(Ctx &c, L &l, int up) {
    if (!c.chance(25)) return false;
    Bin o = gen_bin(c, (int) c.i(1, 3), 8); D d = mk(o.r); l.setSamples(d); setup(l, std::min(up, 200)); l.recomputeKernel(); l.train();
    c.show() << "used before on " << o.r.size() << " points of dimension " << o.r[0].x.size() << "; "; c.label("retrained"); return true;
}
LAW(perceptron, 5, NT) {
    Ker k = gen_kernel(c); Bin b = gen(c); D d = mkb(c, b); double rate = c.pick(RATES); int up = (int) c.pick(std::vector<int>{1500, 1500, 300, 20, 3});
    int how = k.type == 0 ? (int) c.i(0, 2) : (int) c.i(0, 1);
    K::PerceptronDual<double> e0(d, k.kt(), k.param, rate), e1(d, rate);
    auto &l = how == 0 ? e0 : e1;
    if (how == 1) { l.setKernelType(k.kt()); l.setKernelParam(k.param); }
    bool w = warm(c, l, up); if (w) { l.setSamples(d); l.recomputeKernel(); l.setSteps(0); l.setCtot(0); }
    setup(l, up);
    c.show() << "dual perceptron, " << k.name() << ", rate " << rate << " budget " << up << " " << str(b.r, 30);
    Rows before = rows(d);
    bool ok = l.train();
    REQUIRE(rows(d) == before, "data", "training changed the caller's data");
    contract(c, l, ok, b, k, 0, 0, "dual perceptron");
    if (ok && !w) { auto s = l.getSolution(); double n = dual_norm(k, b.r, s.alpha); if (1e-6 * absum(k, b.r, s.alpha) < n) REQUIRE(close(s.norm, n, 1e-6, 1e-6 * (1 + absum(k, b.r, s.alpha))), "norm", "reported norm " << s.norm << " but the multipliers give " << n); }
    if (!w && k.type == 0 && b.separable && bound(b, rate) < up) REQUIRE(ok, "converge", "no success on separable data after " << l.getCtot() << " updates, " << bound(b, rate) << " suffice");
    nt(c, b, l, ok); c.label(k.name().substr(0, 5));
}
LAW(fixed_margin, 6, NT) {
    Ker k = gen_kernel(c); Bin b = gen(c); D d = mkb(c, b); double rate = c.pick(RATES); int up = (int) c.pick(std::vector<int>{600, 600, 150, 20, 3});
    double gamma = c.flip() ? 0 : k.type == 0 && b.max_margin > 0 && c.flip() ? b.max_margin * (double) c.i(1, 9) / 10 : (c.dy(2, 16) + 2) / (k.type == 2 ? 16 : 1);
    K::PerceptronFixedMarginDual<double> l(d, k.kt(), k.param, gamma, rate);
    bool w = warm(c, l, up); if (w) { l.setSamples(d); l.recomputeKernel(); l.setSteps(0); l.setCtot(0); }
    setup(l, up);
    c.show() << "dual fixed margin perceptron, " << k.name() << ", margin " << gamma << " rate " << rate << " budget " << up << " " << str(b.r, 30);
    Rows before = rows(d);
    bool ok = l.train();
    REQUIRE(rows(d) == before, "data", "training changed the caller's data");
    contract(c, l, ok, b, k, gamma, 0, "dual fixed margin perceptron");
    if (ok && k.type == 0 && b.max_margin > 0) REQUIRE(gamma <= b.max_margin * (1 + 2e-3), "impossible", "claims a margin of " << gamma << " where " << b.max_margin << " is possible");
    if (!w && gamma == 0 && k.type == 0 && b.separable && bound(b, rate) < up) REQUIRE(ok, "converge", "no success on separable data after " << l.getCtot() << " updates, " << bound(b, rate) << " suffice");
    nt(c, b, l, ok); c.label(k.name().substr(0, 5)); if (ok && gamma > 0) c.label("margin met");
}
LAW(ima, 5, NT) {
    Ker k = gen_kernel(c); Bin b = gen(c, 12); D d = mkb(c, b); double rate = c.pick(RATES); int up = (int) c.pick(std::vector<int>{600, 600, 150, 20, 3});
    K::IMADual<double> e0(d, k.kt(), k.param, rate), e1(k.kt(), k.param, rate), e2;
    int how = (int) c.i(0, 2); bool bare_ctor = how > 0; auto &l = how == 0 ? e0 : how == 1 ? e1 : e2;
    if (how == 2) { l.setKernelType(k.kt()); l.setKernelParam(k.param); l.setLearningRate(rate); }
    bool w = bare_ctor && warm(c, l, up); if (bare_ctor) { l.setSamples(d); l.recomputeKernel(); }
    setup(l, up);
    c.show() << "dual IMA, " << k.name() << ", rate " << rate << " budget " << up << " " << str(b.r, 30);
    Rows before = rows(d);
    bool ok = l.train();
    REQUIRE(rows(d) == before, "data", "training changed the caller's data");
    double big = 0; for (auto &p: b.r) big = std::max(big, k(p.x, p.x));
    double slack = 1e-7 * rate * (double) b.r.size() * big;     // multipliers below EPS * rate are dropped
    contract(c, l, ok, b, k, 0, slack, "dual IMA");
    auto s = l.getSolution(); double n = dual_norm(k, b.r, s.alpha);
    if (ok && 1e-6 * absum(k, b.r, s.alpha) < n) REQUIRE(close(s.norm, n, 1e-6, 1e-6 * (1 + absum(k, b.r, s.alpha))), "norm", "reported norm " << s.norm << " but the multipliers give " << n);
    if (!w && k.type == 0 && b.separable && bound(b, rate) < up) REQUIRE(ok, "converge", "no success on separable data after " << l.getCtot() << " updates, " << bound(b, rate) << " suffice");
    nt(c, b, l, ok); c.label(k.name().substr(0, 5));
}
