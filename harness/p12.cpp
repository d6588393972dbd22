#include "binary.hpp"
#include <chrono>
#include <functional>
#include "ufjfmltk/core/Datasets.hpp"
#include "ufjfmltk/core/Sampling.hpp"
#include "ufjfmltk/valid/Validation.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
#include "ufjfmltk/clusterer/KMeans.hpp"
#include "ufjfmltk/ensemble/BaggingClassifier.hpp"
#include "ufjfmltk/ensemble/AdaBoostClassifier.hpp"
#include "ufjfmltk/ensemble/PerceptronCommittee.hpp"
#include "ufjfmltk/ensemble/VotingClassifier.hpp"
using namespace cm;
namespace R = mltk::random; namespace K = mltk::classifier; namespace E = mltk::ensemble; namespace VL = mltk::validation;
typedef std::function<std::string(size_t)> Op;
static std::string txt(V const &v) { std::ostringstream o; o << std::hexfloat; for (double x: v) o << x << ' '; return o.str(); }
static std::string txt(D const &d) { std::ostringstream o; o << std::hexfloat; for (auto &p: rows(d)) { for (double x: p.x) o << x << ','; o << p.y << '#' << p.id << ' '; } o << "| "; for (int i: d.getIndex()) o << i << ' '; return o.str(); }
static std::string txt(std::vector<D> const &v) { std::string s; for (auto &d: v) s += txt(d) + "/ "; return s; }
template<class P> static std::string txt2(std::vector<P> const &v) { std::string s; for (auto &d: v) s += txt(d.train) + "/ " + txt(d.test) + "// "; return s; }
static Rows gen(Ctx &c, size_t k, size_t dim, size_t lo, size_t hi) { auto cls = gen_classes(c, k); return gen_rows_all(c, std::max((size_t) c.lenw((long) lo, (long) hi, 8 * (long) hi), k), dim, cls, (int) c.i(0, 1)); }
// unrelated random calls
static void noise(Ctx &c) {
    int n = (int) c.i(0, 3);
    for (int t = 0; t < n; t++) switch (c.i(0, 7)) {
        case 0: R::intInRange(0, 100); c.show() << " [draw]"; break;
        case 1: { size_t s = (size_t) c.i(0, 30); R::init((unsigned) s); c.show() << " [init " << s << "]"; break; }
        case 2: { size_t s = (size_t) c.i(0, 30); mltk::random_init<double>((size_t) 3, s); c.show() << " [vector " << s << "]"; break; }
        case 3: { size_t s = (size_t) c.i(0, 30); mltk::datasets::make_blobs(3, 2, 2, 1.0, -10.0, 10.0, true, true, s); c.show() << " [blobs " << s << "]"; break; }
        case 4: { D d = mk({{{1, 2}, 1}, {{3, 4}, -1}, {{5, 6}, 1}}); d.shuffle((size_t) c.i(1, 9)); c.show() << " [shuffle]"; break; }
        case 5: R::floatInRange<double, std::normal_distribution<double>>(0, 1); c.show() << " [normal]"; break;
        case 6: { D d = mk({{{1, 2}, 1}, {{3, 4}, -1}, {{5, 6}, 1}, {{2, 6}, -1}}); mltk::clusterer::KMeans<double> km(d, 2, "random", (size_t) c.i(1, 30)); km.train(); c.show() << " [k-means]"; break; }
        default: { size_t s = (size_t) c.i(1, 30); mltk::datasets::make_spirals(5, 2, true, 1.0, 2, 0.5, s); c.show() << " [spirals " << s << "]"; }
    }
}
static void same(Ctx &c, Op const &op, char const *what, size_t seed) {
    c.show() << " seed " << seed << ":"; noise(c); std::string a = op(seed); c.show() << " op"; noise(c); if (c.chance(30)) { op(seed + 1); c.show() << " op with seed " << seed + 1; noise(c); } std::string b = op(seed); c.show() << " op";
    REQUIRE(a == b, "equal-seeds", what << " gives " << a.substr(0, 300) << " and then " << b.substr(0, 300));
}
// over three seeds the results must not be all equal
static void differ(Ctx &c, Op const &op, char const *what, size_t seed) { std::set<std::string> s; for (size_t i = 0; i < 3; i++) s.insert(op(seed + 7 * i + 1)); REQUIRE(s.size() > 1, "all-equal", what << " gives the same result for seeds " << seed + 1 << ", " << seed + 8 << " and " << seed + 15); c.label("different seeds"); }
static size_t a_seed(Ctx &c) { return c.chance(20) ? (size_t) c.i(1, 3) : (size_t) c.wide(1, 100000, 2000000000); }
#define NT "an input of eight or more points or values"
LAW(generator, 2, "every case") {
    unsigned s = (unsigned) a_seed(c); long lo = c.z(50), w = (long) c.i(0, 12); double fl = c.dy(20), fw = (double) c.i(1, 40) / 4; size_t n = 10;
    c.show() << "draws from " << lo << ".." << lo + w << " and " << fl << ".." << fl + fw;
    Op op = [&](size_t s) { std::ostringstream o; o << std::hexfloat; REQUIRE(R::init((unsigned) s) == s, "init", "init does not return the seed"); REQUIRE(R::getSeed() == s, "getSeed", "the seed is " << R::getSeed() << " after it was set to " << s); for (size_t i = 0; i < n; i++) { int v = R::intInRange((int) lo, (int) (lo + w)); REQUIRE(v >= lo && v <= lo + w, "int-range", "drew " << v << " from " << lo << ".." << lo + w); o << v << ' '; double f = R::floatInRange<double>(fl, fl + fw); REQUIRE(f >= fl && f <= fl + fw, "float-range", "drew " << f << " from " << fl << ".." << fl + fw); o << f << ' '; o << R::floatInRange<double, std::normal_distribution<double>>(fl, fw) << ' '; } return o.str(); };
    same(c, op, "the generator", s); differ(c, op, "the generator", s);
    std::set<int> all; R::init(s); for (int i = 0; i < 400; i++) all.insert(R::intInRange((int) lo, (int) (lo + w))); REQUIRE(all.size() == (size_t) w + 1, "int-values", "400 draws from " << lo << ".." << lo + w << " take " << all.size() << " values");
    { std::set<std::string> z; for (int i = 0; i < 3; i++) { R::init(0); std::ostringstream o; o << std::hexfloat << R::floatInRange<double>(0, 1); z.insert(o.str()); } REQUIRE(z.size() > 1, "seed-zero", "seed 0 always gives the same sequence"); }
    c.nontrivial();
}
LAW(vectors, 2, NT) {
    size_t n = (size_t) c.lenw(1, 20, 400), s = a_seed(c); int kind = (int) c.i(0, 3); double a = c.dy(5), b = a + (double) c.i(1, 8); Op op;
    auto in = [&](Pt const &p, double lo, double hi) { REQUIRE(p.size() == n, "vector-size", p.size() << " values instead of " << n); for (double v: p.X()) REQUIRE(v >= lo && v <= hi, "vector-range", "value " << v << " outside of " << lo << ".." << hi); return txt(p.X()); };
    switch (kind) { case 0: op = [&](size_t s) { return in(mltk::random_init<double>(n, s), 0, 1); }; break; case 1: op = [&](size_t s) { Pt p(n); mltk::random_init(p, s); return in(p, 0, 1); }; break; case 2: op = [&](size_t s) { Pt p; mltk::random_init<double>(p, n, s); return in(p, 0, 1); }; break; default: op = [&](size_t s) { return in(mltk::random_init<double>(a, b, n, s), a, b); }; }
    c.show() << "random vector kind " << kind << " size " << n; same(c, op, "a random vector", s); if (n >= 2) differ(c, op, "a random vector", s);
    { auto p = mltk::random_init<double>(n, s); std::set<double> v(p.X().begin(), p.X().end()); REQUIRE(v.size() == n, "repeated", "a random vector repeats values: " << vs(p.X())); }
    if (n >= 8) c.nontrivial();
}
LAW(splits, 5, NT) {
    Rows r = gen(c, (size_t) c.wide(1, 3, 8), (size_t) c.wide(1, 3, 20), 2, 30); for (size_t i = 0; i < r.size(); i++) r[i].id = i + 1; D d = mk(r, true); size_t s = a_seed(c), k = (size_t) c.i(2, (long) std::min<size_t>(r.size(), 6)); if (k < 2) k = 2; bool st = c.flip(), keep = c.flip(), rep = c.flip(); size_t m = (size_t) c.i(1, (long) r.size()); int kind = (int) c.i(0, 5); Op op; char const *what; std::set<V> px; for (auto &p: r) { V x = p.x; x.push_back(p.y); px.insert(x); }
    switch (kind) {
        case 0: what = "shuffling"; op = [&](size_t s) { D e = d.copy(); e.shuffle(s); REQUIRE(sorted(rows(e)) == sorted(rows(d)), "permutation", "shuffling gives " << str(rows(e), 30)); auto ix = e.getIndex(); std::sort(ix.begin(), ix.end()); for (size_t i = 0; i < ix.size(); i++) REQUIRE(ix[i] == (int) i, "index", "the index is no permutation after shuffling"); return txt(e); }; break;
        case 1: what = "sampling"; op = [&](size_t s) { D e = d.copy(); return txt(e.sampling(m, rep, (int) s)); }; break;
        case 2: what = "splitting"; op = [&](size_t s) { D e = d.copy(); return txt(e.splitSample(k, st, keep, s)); }; break;
        case 3: what = "hold-out"; op = [&](size_t s) { D e = d.copy(); auto p = VL::partTrainTest(e, k, st, keep, s); return txt(p.train) + "/ " + txt(p.test); }; break;
        case 4: what = "fold splitting"; op = [&](size_t s) { D e = d.copy(); return txt2(VL::kfoldsplit(e, k, st, keep, s)); }; break;
        default: what = "repeated fold splitting"; op = [&](size_t s) { D e = d.copy(); auto v = VL::kfoldsplit(e, k, (size_t) 2, st, keep, s); if (px.size() == r.size() && r.size() >= 18) { size_t h = v.size() / 2; std::string a, b; for (size_t i = 0; i < h; i++) { a += txt(v[i].test); b += txt(v[h + i].test); } REQUIRE(a != b, "repetition", "both repetitions split the same way"); } return txt2(v); };
    }
    c.show() << what << " of " << str(r, 30) << " k " << k << " size " << m << " stratified " << st << " keep " << keep << " replacement " << rep; same(c, op, what, s); if (px.size() == r.size() && r.size() >= 14 && !(kind == 1 && m < 8)) differ(c, op, what, s); c.label(what); if (r.size() >= 8) c.nontrivial();
}
LAW(generated, 2, NT) {
    size_t n = (size_t) c.lenw(1, 12, 150), s = a_seed(c); int k = (int) c.wide(1, 4, 10), kind = (int) c.i(0, 3); bool sh = c.flip(); Op op; char const *what; double sd = (double) c.i(1, 16) / 8; size_t dim = (size_t) c.i(1, 3);
    auto pair = [](mltk::datasets::BlobsPair const &p) { std::string s = txt(p.dataset); for (auto &z: p.centers) s += txt(z.X()); return s; };
    switch (kind) { case 0: what = "blobs"; op = [&](size_t s) { return pair(mltk::datasets::make_blobs(n, k, (int) dim, sd, -10.0, 10.0, sh, true, s)); }; break; case 1: what = "blobs at given centers"; op = [&](size_t s) { return pair(mltk::datasets::make_blobs(std::vector<size_t>((size_t) k, n), std::vector<Pt>((size_t) k, Pt(V(dim, 1.0))), V((size_t) k, sd), (int) dim, sh, true, s)); }; break; case 2: what = "spirals"; n += (size_t) k; op = [&](size_t s) { return txt(mltk::datasets::make_spirals(n, k, sh, sd, 2, 0.5, s)); }; break; default: what = "regression"; op = [&](size_t s) { auto p = mltk::datasets::make_regression(n, dim, 1.0, sd, 0.0, 10, sh, s); return txt(p.dataset) + txt(p.coef.X()); }; }
    c.show() << what << " n " << n << " k " << k << " dim " << dim << " sd " << sd << " shuffle " << sh; same(c, op, what, s); differ(c, op, what, s); c.label(what); if (n * (size_t) k >= 8) c.nontrivial();
}
LAW(oversampling, 2, NT) {
    size_t dim = (size_t) c.wide(1, 3, 12), n0 = (size_t) c.wide(2, 8, 40), n1 = n0 + (size_t) c.wide(1, 6, 40), k = (size_t) c.i(1, 3), m = (size_t) c.i(1, 4), s = a_seed(c); Rows r; for (size_t i = 0; i < n0 + n1; i++) { V x(dim); for (auto &v: x) v = (double) c.z(4000) / 997; r.push_back({x, i < n0 ? 1.0 : -1.0}); } D d = mk(r); bool b = c.flip(); char const *what = b ? "Borderline SMOTE" : "SMOTE"; size_t added = 0;
    Op op = [&](size_t s) { D e = d.copy(); if (b) { mltk::BorderlineSMOTEOne<double> o(k, 0.1, m, s); D f = o(e); added = f.size() - d.size(); return txt(f); } mltk::SMOTE<double> o(k, 0.1, s); D f = o(e); added = f.size() - d.size(); return txt(f); };
    c.show() << what << " k " << k << " m " << m << " on " << str(r, 20); same(c, op, what, s); if (added > 0) differ(c, op, what, s); c.label(what); if (r.size() >= 8) c.nontrivial();
}
LAW(subspaces, 1, NT) {
    size_t dim = (size_t) c.wide(1, 14, 60), s = a_seed(c); double f = (double) c.i(1, 8) / 8; Rows r = {{V(dim, 1.0), 1}, {V(dim, 2.0), -1}}; D d = mk(r); size_t want = (size_t) std::ceil(f * (double) dim);
    Op op = [&](size_t s) { mltk::RSM<double> o(f, dim, s); std::ostringstream t; for (int i = 0; i < 3; i++) { auto v = o(d); REQUIRE(v.size() == want, "subspace-size", v.size() << " features instead of " << want); std::set<size_t> u(v.begin(), v.end()); REQUIRE(u.size() == v.size(), "subspace-repeated", "a subspace repeats features"); for (size_t x: v) { REQUIRE(x < dim, "subspace-range", "feature " << x << " of " << dim); t << x << ' '; } t << '/'; } return t.str(); };
    c.show() << "random subspaces of " << f << " of " << dim; same(c, op, "random subspaces", s); if (dim >= 8 && want >= 3) differ(c, op, "random subspaces", s); if (dim >= 8) c.nontrivial();
}
LAW(learners, 4, NT) {
    size_t s = a_seed(c); int kind = (int) c.i(0, 7); auto b = gen_bin(c, 1, 14); Rows r = b.r; D d = mk(r, true); size_t dim = r[0].x.size(), m = (size_t) c.i(1, 4); std::vector<V> q; for (int i = 0; i < 6; i++) { V x(dim); for (auto &v: x) v = c.dy(6); q.push_back(x); }
    std::set<V> px; for (auto &p: r) px.insert(p.x); Op op; char const *what; std::string init = c.flip() ? "random" : "kmeanspp"; size_t k = (size_t) c.i(1, 3);
    auto preds = [&](mltk::Learner<double> &l) { V v; for (auto &x: q) { Pt p(x); v.push_back(l.evaluate(p)); } return txt(v); };
    auto prep = [](mltk::Learner<double> &l) { l.setMaxTime(1e9); l.setMaxUpdates(4000); l.setMaxEpochs(4000); l.setVerbose(0); };
    switch (kind) {
        case 0: what = "k-means"; op = [&](size_t s) { mltk::clusterer::KMeans<double> km(d, std::min(k, r.size()), init, s); km.setMaxTime(1e9); km.train(); std::string t; for (auto &z: km.centers()) t += txt(z.X()) + "/ "; return t; }; break;
        case 1: what = "the balanced perceptron"; op = [&](size_t s) { K::BalancedPerceptron<double> p(d, s); prep(p); p.train(); auto z = p.getSolution(); return txt(z.w.X()) + txt(V{z.bias}); }; break;
        case 2: what = "the perceptron committee"; op = [&](size_t s) { E::PerceptronCommittee<double> p(d, m); p.setSeed(s); p.setVerbose(0); auto t0 = std::chrono::steady_clock::now(); p.train(); if (std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(60)) return std::string(); std::string t; for (auto &l: p.learners()) { auto z = std::dynamic_pointer_cast<K::BalancedPerceptron<double>>(l)->getSolution(); t += txt(z.w.X()) + txt(V{z.bias}) + "/ "; } return t; }; break;
        case 3: what = "bagging"; op = [&](size_t s) { K::BalancedPerceptron<double> p; prep(p); E::BaggingClassifier<double> g(d, p, m, s); g.train(); std::string t; for (auto &l: g.learners()) { auto z = std::dynamic_pointer_cast<K::BalancedPerceptron<double>>(l)->getSolution(); t += txt(z.w.X()) + txt(V{z.bias}) + "/ "; } return t; }; break;
        case 4: what = "bagging with setSeed"; op = [&](size_t s) { K::KNNClassifier<double> p(1); E::BaggingClassifier<double> g(d, p, m); g.setSeed(s); g.train(); std::string t; for (auto &l: g.learners()) t += txt(*l->getSamples()) + "/ "; return t; }; break;
        case 5: what = "boosting"; op = [&](size_t s) { K::BalancedPerceptron<double> p; prep(p); E::AdaBoostClassifier<double> g(d, p, m); g.setSeed(s); g.train(); std::string t = preds(g); for (auto &l: g.learners()) { auto z = std::dynamic_pointer_cast<K::BalancedPerceptron<double>>(l)->getSolution(); t += txt(z.w.X()) + txt(V{z.bias}) + "/ "; } return t; }; break;
        case 6: what = "voting"; op = [&](size_t s) { K::BalancedPerceptron<double> p; prep(p); E::VotingClassifier<double> g(d, "hard", p, p); g.setSeed(s); g.train(); std::string t = preds(g); for (auto &l: g.learners()) { auto z = std::dynamic_pointer_cast<K::BalancedPerceptron<double>>(l)->getSolution(); t += txt(z.w.X()) + txt(V{z.bias}) + "/ "; } return t; }; break;
        default: { what = "cross-validation"; op = [&](size_t s) { K::BalancedPerceptron<double> p; prep(p); D e = d.copy(); size_t f = std::min<size_t>(3, r.size()); auto v = c.chance(0) ? VL::kfold(e, p, f, true, s, 0) : k == 1 ? VL::kkfold(e, p, 2, f, true, s, 0) : VL::kfold(e, p, f, true, s, 0); return txt(V{v.accuracy, v.error}); }; if (r.size() < 6) return; size_t a = 0; for (auto &p: r) a += p.y > 0; if (a < 3 || r.size() - a < 3) return; }
    }
    c.show() << what << " on " << str(r, 20) << " m " << m << " k " << k << " init " << init; if (kind == 2) { auto t = op(s); if (t.empty()) return; std::string u; noise(c); u = op(s); if (u.empty()) return; REQUIRE(t == u, "equal-seeds", what << " gives " << t.substr(0, 300) << " and then " << u.substr(0, 300)); } else same(c, op, what, s);
    if ((kind == 1 || kind == 3 || kind == 5 || kind == 6) && r.size() >= 4) differ(c, op, what, s); c.label(what); if (r.size() >= 8) c.nontrivial();
}
