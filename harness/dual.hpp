// kernels written out, shared by the dual learners
#pragma once
#include "binary.hpp"
#include "ufjfmltk/core/Kernel.hpp"
namespace cm {
struct Ker {
    int type = 0; double param = 0;
    double operator()(V const &a, V const &b) const {
        long double s = 0;
        if (type == 2) { for (size_t j = 0; j < a.size(); j++) s += ((long double) a[j] - b[j]) * ((long double) a[j] - b[j]); return (double) expl(-s * param); }
        for (size_t j = 0; j < a.size(); j++) s += (long double) a[j] * b[j];
        return (double) (type == 1 && param > 1 ? powl(s, param) : s);
    }
    mltk::KernelType kt() const { return type == 0 ? mltk::INNER_PRODUCT : type == 1 ? mltk::POLYNOMIAL : mltk::GAUSSIAN; }
    std::string name() const { std::ostringstream o; o << (type == 0 ? "inner product" : type == 1 ? "polynomial " : "gaussian "); if (type) o << param; return o.str(); }
};
inline Ker gen_kernel(Ctx &c) {
    Ker k; k.type = (int) c.pick(std::vector<int>{0, 0, 1, 2});
    if (k.type == 1) k.param = (double) c.i(1, 3);
    if (k.type == 2) k.param = c.pick(std::vector<double>{1, 0.5, 0.1, 2, 0.01});
    return k;
}
// the kernel expansion over the training points; scale receives the sum of absolute terms
inline double expand(Ker const &k, Rows const &tr, V const &alpha, double bias, V const &x, double *scale = nullptr) {
    long double f = bias, s = std::fabs(bias);
    V ax(x); for (auto &v: ax) v = std::fabs(v);
    for (size_t r = 0; r < tr.size(); r++) {
        f += (long double) alpha[r] * tr[r].y * k(tr[r].x, x);
        V ar(tr[r].x); for (auto &v: ar) v = std::fabs(v);
        s += fabsl((long double) alpha[r]) * (k.type == 2 ? 1 : k(ar, ax));
    }
    if (scale) *scale = (double) s;
    return (double) f;
}
inline double dual_norm(Ker const &k, Rows const &tr, V const &alpha) {
    long double s = 0;
    for (size_t i = 0; i < tr.size(); i++) for (size_t j = 0; j < tr.size(); j++) s += (long double) alpha[i] * alpha[j] * tr[i].y * tr[j].y * k(tr[i].x, tr[j].x);
    return s > 0 ? (double) sqrtl(s) : 0;
}
// the multipliers and weights a dual learner derives from its training
template<class L> void derived(Ctx &c, L &l, Ker const &k, Rows const &tr) {
    auto s = l.getSolution(); size_t n = tr.size(), dim = tr[0].x.size();
    V a = l.getAlphaVector();
    REQUIRE(a == s.alpha, "multiplier-vector", "getAlphaVector() is " << vs(a) << " but the solution has " << vs(s.alpha));
    V w = l.getWeight().X();
    REQUIRE(w.size() == dim, "weight-size", w.size() << " weights for dimension " << dim);
    for (size_t j = 0; j < dim; j++) {
        long double t = 0, sc = 0; for (size_t i = 0; i < n; i++) { long double e = (long double) s.alpha[i] * tr[i].y * tr[i].x[j]; t += e; sc += fabsl(e); }
        REQUIRE(std::fabs(w[j] - (double) t) <= 1e-10 * (double) sc, "weight", "getWeight()[" << j << "] is " << w[j] << " but the multipliers and points give " << (double) t);
    }
    if (dim < 2 || !c.chance(30)) return;
    struct Keep { L &l; decltype(s.w) w; ~Keep() { l.getSolutionRef()->w = w; } } keep{l, s.w};   // these leave their result in the solution
    // share of the squared norm each feature carries
    bool inner = c.flip(); V q = (inner ? l.getDualWeightProdInt() : l.getDualWeight()).X();
    REQUIRE(q.size() == dim, "dual-weight-size", q.size() << " dual weights for dimension " << dim);
    for (size_t f = 0; f < dim; f++) {
        long double t = 0, sc = 0;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
            long double e, m = (long double) s.alpha[i] * s.alpha[j] * tr[i].y * tr[j].y;
            if (inner) { e = m * tr[i].x[f] * tr[j].x[f]; sc += fabsl(e); }
            else { V p(tr[i].x), r(tr[j].x); p.erase(p.begin() + f); r.erase(r.begin() + f); double k1 = k(tr[i].x, tr[j].x), k2 = k(p, r); e = m * (k1 - k2); sc += fabsl(m) * (std::fabs(k1) + std::fabs(k2) + 1); }
            t += e;
        }
        REQUIRE(std::fabs(q[f] - (double) t) <= 1e-9 * (double) sc, "dual-weight", (inner ? "getDualWeightProdInt()[" : "getDualWeight()[") << f << "] is " << q[f] << " but the multipliers and points give " << (double) t);
    }
}
// decisions of a trained dual learner: kernel expansion, sign, foreign dimensions rejected
template<class L> void dual_decision(Ctx &c, L &l, Ker const &k, Rows const &tr, double pos = 1, double neg = -1) {
    auto s = l.getSolution();
    size_t dim = tr[0].x.size();
    REQUIRE(s.alpha.size() == tr.size(), "multipliers", s.alpha.size() << " multipliers for " << tr.size() << " training points");
    for (double a: s.alpha) if (!std::isfinite(a) || std::fabs(a) > 1e100) { c.label("diverged"); return; }
    auto one = [&](V const &x) {
        Pt p(x); double sc, f = expand(k, tr, s.alpha, s.bias, x, &sc);
        double raw = l.evaluate(p, true), cls = l.evaluate(p, false);
        REQUIRE(close(raw, f, 1e-10, 1e-10 * (1 + sc)), "raw", "decision value " << raw << " but the kernel expansion is " << f << " at " << vs(x));
        REQUIRE(cls == pos || cls == neg, "class", "class " << cls);
        if (std::fabs(f) > 1e-9 * (1 + sc)) REQUIRE(cls == (f > 0 ? pos : neg), "sign", "class " << cls << " where the kernel expansion is " << f);
        REQUIRE(p.X() == x, "query", "query changed");
        if (k.type == 0) {
            V w = s.w.X(); REQUIRE(w.size() == dim, "weights", w.size() << " weights for dimension " << dim);
            double g = ip(w, x) + s.bias; REQUIRE(close(g, f, 1e-9, 1e-9 * (1 + sc)), "weights-value", "the derived weights " << vs(w) << " decide " << g << " but the kernel expansion is " << f << " at " << vs(x));
        }
    };
    for (auto &r: tr) one(r.x);
    derived(c, l, k, tr);
    for (int t = 0; t < 3; t++) { V x(dim); for (auto &v: x) v = c.dy(8, 8); one(x); }
    for (size_t d: {dim + 1, dim - 1}) if (d > 0) { Pt p(V(d, 1.0)); double a = l.evaluate(p, false), r = l.evaluate(p, true); REQUIRE(a == 0 && r == 0, "dimension", "a point of dimension " << d << " was given class " << a << " by a learner of dimension " << dim); }
}
} // namespace cm
