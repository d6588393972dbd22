#include "dual.hpp"
#include "ufjfmltk/classifier/SMO.hpp"
using namespace cm;
namespace K = mltk::classifier;
static const double C0 = 9999;
static Bin gen(Ctx &c) { int k = (int) c.i(0, 4); Bin b = gen_bin(c, k >= 4 ? 0 : k, 20); c.label(b.max_margin > 0 ? "known margin" : b.separable ? "separable" : b.contradictory ? "contradictory" : "random labels"); return b; }
static Rows bare(Rows r) { for (auto &x: r) x.alpha = 0; return r; }
// box, balance and optimality conditions of a successful training
static void kkt(Ker const &k, Rows const &tr, V const &alpha, double bias, Ctx &c) {
    double sum = 0, abs = 0;
    REQUIRE(alpha.size() == tr.size(), "multipliers", alpha.size() << " multipliers for " << tr.size() << " points");
    for (size_t i = 0; i < tr.size(); i++) {
        REQUIRE(alpha[i] >= 0 && alpha[i] <= C0, "box", "multiplier " << alpha[i] << " of point " << i);
        sum += alpha[i] * tr[i].y; abs += alpha[i];
    }
    REQUIRE(std::fabs(sum) <= 1e-9 * (1 + abs), "balance", "the label-weighted sum of the multipliers is " << sum << ", multipliers " << vs(alpha));
    // steps shorter than a 1e-7th of a multiplier are not taken: the conditions hold to what such a step can change
    double amax = 0, eta = 0;
    for (double a: alpha) { if (a > 1000 && a < C0) { c.label("multipliers near the bound"); return; } amax = std::max(amax, a); }
    for (auto &p: tr) for (auto &q: tr) eta = std::max(eta, k(p.x, p.x) + k(q.x, q.x) - 2 * k(p.x, q.x));
    int bound = 0;
    for (size_t i = 0; i < tr.size(); i++) {
        double sc, m = tr[i].y * expand(k, tr, alpha, bias, tr[i].x, &sc), tol = 1e-3 + 1e-10 * sc + 3e-7 * amax * eta;
        if (alpha[i] <= 0) REQUIRE(m >= 1 - tol, "outside", "point " << i << " " << str(tr[i]) << " has multiplier 0 but functional margin " << m << ", multipliers " << vs(alpha) << " bias " << bias);
        else if (alpha[i] >= C0) { bound++; REQUIRE(m <= 1 + tol, "inside", "point " << i << " " << str(tr[i]) << " has the largest multiplier but functional margin " << m); }
        else REQUIRE(std::fabs(m - 1) <= tol, "on-margin", "point " << i << " " << str(tr[i]) << " has multiplier " << alpha[i] << " but functional margin " << m << ", multipliers " << vs(alpha) << " bias " << bias);
    }
    if (bound) c.label("bound multipliers");
}
LAW(smo, 1, "at least five points in two or more dimensions, training succeeded") {
    Ker k = gen_kernel(c); Bin b = gen(c); D d = mkb(c, b);
    int epochs = (int) c.pick(std::vector<int>{3000, 3000, 20, 2});
    int how = (int) c.i(0, 2);
    K::SMO<double> e0(d, k.kt(), k.param, 0), e1;
    auto &l = how == 0 ? e0 : e1;
    if (how) { l.setKernelType(k.kt()); l.setKernelParam(k.param); l.setVerbose(0); l.setMaxEpochs(epochs); }
    if (how == 2) { Bin o = gen_bin(c, (int) c.i(1, 3), 8); D q = mk(o.r); l.setSamples(q); l.train(); c.label("retrained"); c.show() << "used before on " << o.r.size() << " points; "; }
    if (how) l.setSamples(d);
    l.setMaxEpochs(epochs);
    c.show() << "SMO, " << k.name() << " epochs " << epochs << " " << str(b.r, 30);
    Rows before = rows(d);
    bool ok = l.train();
    REQUIRE(rows(d) == before, "data", "training changed the caller's data");
    dual_decision(c, l, k, b.r);
    auto s = l.getSolution();
    if (ok) {
        kkt(k, b.r, s.alpha, s.bias, c);
        size_t sv = 0; for (double a: s.alpha) if (a > 0) sv++;
        REQUIRE(s.svs == sv, "svs", "reports " << s.svs << " support vectors but " << sv << " multipliers are positive");
        double n = dual_norm(k, b.r, s.alpha);
        double S = 0; for (size_t i = 0; i < b.r.size(); i++) for (size_t j = 0; j < b.r.size(); j++) S += s.alpha[i] * s.alpha[j] * std::fabs(k(b.r[i].x, b.r[j].x));
        if (n * n > 1e-12 * S && n > 1e-6) REQUIRE(std::fabs(1 / (s.margin * s.margin) - n * n) <= 1e-12 * S + 1e-9 * n * n, "margin", "reported margin " << s.margin << " but the norm is " << n);
        if (k.type == 0 && b.max_margin > 0) {
            double sumc = 0; for (double a: s.alpha) sumc = std::max(sumc, a);
            if (sumc < C0) {                 // hard margin
                REQUIRE(close(s.margin, b.max_margin, 2e-3, 1e-6), "max-margin", "margin " << s.margin << " on data whose largest margin is " << b.max_margin);
                double mn = 1e300; V w = s.w.X(); for (auto &r: b.r) mn = std::min(mn, r.y * (ip(w, r.x) + s.bias) / std::sqrt(ip(w, w)));
                REQUIRE(close(mn, b.max_margin, 2e-3, 1e-6), "distance", "the hyperplane keeps " << mn << " from the points, the largest margin is " << b.max_margin);
                c.label("maximum margin reached");
            }
        }
    }
    c.label(ok ? "trained" : "gave up"); c.label(k.name().substr(0, 5));
    if (ok && b.r.size() >= 5 && b.r[0].x.size() >= 2) c.nontrivial();
}
