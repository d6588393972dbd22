#include "common.hpp"
#include "ufjfmltk/regressor/LMS.hpp"
using namespace cm;
using Lms = mltk::regressor::LMSPrimal<double>;
struct Lin : Lms { using Lms::Lms; mltk::Solution &sol() { return this->solution; } };
static long double pred(V const &w, double b, V const &x) { long double s = b; for (size_t j = 0; j < x.size(); j++) s += (long double) w[j] * x[j]; return s; }
struct Set { Rows r; V w; double b = 0; double L2 = 0; };
// targets follow a linear model exactly (dyadic values)
static Set consistent(Ctx &c, size_t dim, size_t maxn) {
    Set s; s.w.resize(dim); for (auto &v: s.w) v = c.dy(5, 4); s.b = c.dy(5, 4); size_t n = (size_t) c.lenw(1, (long) maxn, 8 * (long) maxn);
    for (size_t i = 0; i < n; i++) { Row r; r.x.resize(dim); for (auto &v: r.x) v = c.dy(3, 4); r.y = (double) pred(s.w, s.b, r.x); r.id = i + 1; double l = 1; for (double v: r.x) l += v * v; s.L2 = std::max(s.L2, l); s.r.push_back(r); }
    return s;
}
static D mkreg(Rows const &r) { D d; d.setType("Regression"); for (auto &x: r) d.insertPoint(point(x), true); return d; }
static void linear(Ctx &c, Lms &m, size_t dim) {
    auto z = m.getSolution(); REQUIRE(z.w.size() == dim, "weights", z.w.size() << " weights for dimension " << dim);
    for (int t = 0; t < 4; t++) { V x(dim); for (auto &v: x) v = c.num(); Pt p(x); double y = m.evaluate(p); long double f = pred(z.w.X(), z.bias, x), a = fabs(z.bias) + 1; for (size_t j = 0; j < dim; j++) a += fabsl((long double) z.w[j] * x[j]); REQUIRE(fabsl(y - f) <= 1e-12L * a, "linear", "prediction " << y << " at " << vs(x) << ", the solution " << vs(z.w.X()) << " + " << z.bias << " gives " << (double) f); REQUIRE(p.X() == x, "query", "the query was changed"); }
}
static double dist(mltk::Solution const &z, Set const &s) { long double d = (z.bias - s.b) * (z.bias - s.b); for (size_t j = 0; j < s.w.size(); j++) d += ((long double) z.w[j] - s.w[j]) * (z.w[j] - s.w[j]); return (double) sqrtl(d); }
static double sse(Lms &m, Rows const &r) { long double s = 0; for (auto &p: r) { Pt q(p.x); long double e = m.evaluate(q) - p.y; s += e * e; } return (double) s; }
static double pick_rate(Ctx &c, Set const &s) { return (double) c.i(1, 12) / 8 / s.L2; }   // relaxation up to 1.5 of at most 2
#define NT "three or more points and two or more different targets"
static bool nt(Rows const &r) { std::set<double> y; for (auto &p: r) y.insert(p.y); return r.size() >= 3 && y.size() >= 2; }
LAW(solution, 2, NT) {   // any solution, predictions are its linear function
    size_t dim = (size_t) c.wide(1, 5, 25); Set s = consistent(c, dim, 10); D d = mkreg(s.r); mltk::Solution z; V w(dim); for (auto &v: w) v = c.num(); z.w = w; z.bias = c.num();
    Lms m(d, 0.1, 0); m.setSolution(z); c.show() << "solution " << vs(w) << " + " << z.bias; linear(c, m, dim);
    V longer(dim + 1, 1.0); Pt p(longer); std::ostringstream junk; auto *old = std::cerr.rdbuf(junk.rdbuf()); double y = m.evaluate(p); std::cerr.rdbuf(old); REQUIRE(y == 0, "other-dimension", "a point of another dimension is predicted as " << y); if (nt(s.r)) c.nontrivial();
}
// the distance to the generating model never grows: each update with relaxation below 2 is a contraction towards it
LAW(contraction, 3, NT) {
    size_t dim = (size_t) c.wide(1, 4, 20); Set s = consistent(c, dim, 14); D d = mkreg(s.r); double rate = pick_rate(c, s); mltk::Solution z; bool given = c.flip(); if (given) { V w(dim); for (auto &v: w) v = c.dy(6); z.w = w; z.bias = c.dy(6); }
    c.show() << "LMS rate " << rate << (given ? " from " + vs(z.w.X()) : std::string()) << (given ? z.bias : 0) << " on " << str(s.r, 14);
    mltk::Solution zero; zero.w = V(dim, 0.0); zero.bias = 0; double prev = dist(given ? z : zero, s), first = prev;
    for (int it: {1, 2, 3, 8}) { Lms m(d, rate, 0, given ? &z : nullptr); m.setMaxTime(1e9); m.setMaxIterations(it); m.setVerbose(0); Rows before = rows(d); REQUIRE(m.train(), "trained", "training failed"); REQUIRE(rows(d) == before, "data", "training changed the data"); double now = dist(m.getSolution(), s); REQUIRE(now <= prev * (1 + 1e-9) + 1e-9, "contraction", "after " << it << " iterations the solution " << vs(m.getSolution().w.X()) << " + " << m.getSolution().bias << " is " << now << " from the model, before " << prev); prev = now; linear(c, m, dim); REQUIRE(m.getSteps() <= it, "budget", m.getSteps() << " steps for a budget of " << it); }
    (void) first; if (nt(s.r)) c.nontrivial();
}
LAW(convergence, 2, NT) {
    size_t dim = (size_t) c.i(1, 3); Set s = consistent(c, dim, 10); D d = mkreg(s.r); double rate = (double) c.i(4, 10) / 8 / s.L2; int rounds = (int) c.i(1, 2); c.show() << "LMS rate " << rate << " on " << str(s.r, 10);
    Lms m(d, rate, 0); m.setMaxTime(1e9); m.setMaxIterations(60000); m.setEPS(1e-13); m.setVerbose(0); Set cur = s;
    for (int t = 0; t < rounds; t++) {
        m.train(); double e = sse(m, cur.r), base = 0; for (auto &p: cur.r) base += p.y * p.y;
        bool full = m.getSteps() >= 60000; REQUIRE(full || e <= 1e-4, "converged", "squared training error " << e << " of " << base << " after " << m.getSteps() << " steps, the targets are linear"); if (!full) c.label("converged"); linear(c, m, dim);
        if (t + 1 < rounds) { Set n = consistent(c, dim, 10); if (n.L2 > s.L2) break; cur = n; D d2 = mkreg(n.r); m.setSamples(d2); c.show() << ", then on " << str(n.r, 10); c.label("other samples"); }
    }
    if (nt(s.r)) c.nontrivial();
}
// training ends early only when the cost over the points has stopped changing
LAW(stopping, 2, NT) {
    size_t dim = (size_t) c.i(1, 3); Set s = consistent(c, dim, 8); double k = c.pick(std::vector<double>{1, 16, 256}); for (auto &p: s.r) { p.y *= k; if (c.chance(20)) p.y += c.dy(4, 4); }
    D d = mkreg(s.r); double rate = pick_rate(c, s) / c.pick(std::vector<double>{1, 4, 16}); int it = (int) c.pick(std::vector<int>{2000, 200, 20}); double eps = c.pick(std::vector<double>{1e-7, 1e-7, 1e-4, 1e-2});
    c.show() << "LMS rate " << rate << " for at most " << it << " iterations, tolerance " << eps << ", on " << str(s.r, 8);
    Lms m(d, rate, 0); m.setMaxTime(1e9); m.setMaxIterations(it); m.setEPS(eps); m.setVerbose(0); m.train(); int steps = (int) m.getSteps();
    if (steps < it) {
        std::vector<long double> w(dim, 0); long double b = 0, cost[3] = {0, 0, 0}; // costs of the last three rounds
        for (int t = 0; t <= steps + 1; t++) { cost[0] = cost[1]; cost[1] = cost[2]; cost[2] = 0; for (auto &p: s.r) { long double f = b; for (size_t j = 0; j < dim; j++) f += w[j] * p.x[j]; long double e = p.y - f; cost[2] += e * e / 2; for (size_t j = 0; j < dim; j++) w[j] += rate * e * p.x[j]; b += rate * e; } if (t < steps) continue; long double ch = fabsl(cost[2] - cost[1]); if (ch <= 4 * eps + 1e-9L * cost[2]) { c.label("stopped early"); if (nt(s.r)) c.nontrivial(); return; } }
        REQUIRE(false, "stopped", "training stopped after " << steps << " of " << it << " steps although the cost still changes from " << (double) cost[1] << " to " << (double) cost[2]);
    }
    if (nt(s.r)) c.nontrivial();
}
// one step: every update moves weights and bias along the error of its point
LAW(model, 3, NT) {
    size_t dim = (size_t) c.wide(1, 4, 20); Set s = consistent(c, dim, 8); for (auto &p: s.r) if (c.chance(30)) p.y += c.dy(4, 4); D d = mkreg(s.r); double rate = pick_rate(c, s); int it = (int) c.wide(1, 5, 40); c.show() << "LMS rate " << rate << " for " << it << " iterations on " << str(s.r, 8);
    Lms m(d, rate, 0); m.setMaxTime(1e9); m.setMaxIterations(it); m.setEPS(-1); m.setVerbose(0); m.train(); auto z = m.getSolution();
    std::vector<long double> w(dim, 0); long double b = 0, mag = 1; for (int t = 0; t < it; t++) for (auto &p: s.r) { long double f = b; for (size_t j = 0; j < dim; j++) f += w[j] * p.x[j]; long double e = p.y - f; for (size_t j = 0; j < dim; j++) w[j] += rate * e * p.x[j]; b += rate * e; mag = std::max({mag, fabsl(e), fabsl(b)}); for (auto v: w) mag = std::max(mag, fabsl(v)); }
    for (size_t j = 0; j < dim; j++) REQUIRE(fabsl(z.w[j] - w[j]) <= 1e-9L * mag, "gradient", "weight " << j << " is " << z.w[j] << " instead of " << (double) w[j]); REQUIRE(fabsl(z.bias - b) <= 1e-9L * mag, "gradient-bias", "the bias is " << z.bias << " instead of " << (double) b);
    if (nt(s.r)) c.nontrivial();
}
