#include "knn.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
using namespace cm;
namespace M = mltk::metrics::dist;
// reference formulas of the common measures; others use the library functor, which P16 checks against its formula
struct LibRef { };
static double ref(M::Euclidean<double> const &, V const &a, V const &b) { long double s = 0; for (size_t i = 0; i < a.size(); i++) s += (long double) (a[i] - b[i]) * (a[i] - b[i]); return (double) sqrtl(s); }
static double ref(M::Manhattan<double> const &, V const &a, V const &b) { long double s = 0; for (size_t i = 0; i < a.size(); i++) s += fabsl((long double) a[i] - b[i]); return (double) s; }
static double ref(M::Chebyshev<double> const &, V const &a, V const &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s = std::max(s, std::fabs(a[i] - b[i])); return s; }
static double ref(M::SquaredEuclidean<double> const &, V const &a, V const &b) { long double s = 0; for (size_t i = 0; i < a.size(); i++) s += (long double) (a[i] - b[i]) * (a[i] - b[i]); return (double) s; }
template<class F> static double ref(F const &f, V const &a, V const &b) { return f(Pt(a), Pt(b)); }

struct Gen { Rows tr; std::vector<int> cls; D d; };
static Gen gen(Ctx &c, bool positive) {
    Gen g;
    g.cls = gen_classes(c, (size_t) c.wide(1, 4, 10));
    size_t n = (size_t) c.lenw((long) g.cls.size(), 40, 200), dim = (size_t) c.wide(1, 4, 20);
    int style = (int) c.i(0, 3);
    Rows r = gen_rows_all(c, n, dim, g.cls, style == 0 ? 0 : style == 1 ? 1 : style == 2 ? 2 : 0);
    if (style == 3) for (auto &x: r) for (auto &v: x.x) v = c.real(-3, 3);        // ties practically impossible
    if (positive) for (auto &x: r) for (auto &v: x.x) v = std::fabs(v) + 0.5;
    // duplicates, also with another label
    size_t dup = (size_t) c.i(0, 3);
    while (dup-- > 0 && n > 1) { auto &a = r[(size_t) c.draw(n - 1)]; auto &b = r[(size_t) c.draw(n - 1)]; a.x = b.x; }
    int how = (int) c.i(0, 3);
    if (how == 1) { auto p = c.perm(2 * n); for (size_t i = 0; i < n; i++) r[i].id = p[i] + 1; }
    g.d = mk(r, how == 1);
    if (how == 2) g.d.shuffle((size_t) c.i(1, 99));
    if (how == 3 && n > 2) {                    // an edited dataset: points removed and relabelled
        size_t k = (size_t) c.i(1, (long) n / 2);
        while (k-- > 0) g.d.removePoint((int) g.d.point((int) c.draw(g.d.size() - 1))->Id());
        g.d.updatePointValue((size_t) c.draw(g.d.size() - 1), g.cls.back() + 50);
    }
    g.tr = rows(g.d);
    return g;
}
template<class F> static void vote(Ctx &c, const char *name, bool positive) {
    Gen g = gen(c, positive);
    F f;
    size_t k = c.chance(25) ? g.tr.size() : c.chance(30) ? 1 : (size_t) c.i(1, (long) g.tr.size());
    using KNN = mltk::classifier::KNNClassifier<double, F>;
    int how = (int) c.i(0, 2);
    KNN a(g.d, k);
    KNN b(k); KNN &knn = how == 0 ? a : b;
    if (how == 1) knn.setSamples(g.d);
    if (how == 2) {                             // the learner was used on other data before
        Gen o = gen(c, positive); if (o.tr.size() < k) { knn.setSamples(g.d); } else { knn.setSamples(o.d); knn.train(); knn.evaluate(point(o.tr[0])); knn.setSamples(g.d); }
    }
    c.show() << name << " k=" << k << " " << str(g.tr, 20);
    REQUIRE(knn.train(), "train", "training failed");
    size_t q = (size_t) c.i(1, 6); D batch; std::vector<double> preds; bool many = false;
    for (size_t t = 0; t < q; t++) {
        V x(g.tr[0].x.size());
        if (c.chance(50)) x = g.tr[(size_t) c.draw(g.tr.size() - 1)].x;
        else { auto const &s = g.tr[(size_t) c.draw(g.tr.size() - 1)].x; for (size_t j = 0; j < x.size(); j++) { x[j] = c.flip() ? (double) c.z(4) : s[j] + c.dy(2, 8); if (positive) x[j] = std::fabs(x[j]) + 0.5; } }
        Pt p(x); p.Y() = (double) c.z(3); p.Id() = (size_t) c.i(0, 50);
        Row before = row(p);
        double got = knn.evaluate(p, c.flip());
        std::vector<std::pair<double, double>> nb;
        for (auto &r: g.tr) nb.push_back({ref(f, x, r.x), r.y});
        REQUIRE(may_win(nb, k, got), "vote", "class " << got << " is predicted for " << vs(x) << " but loses the vote of the " << k << " nearest");
        REQUIRE(row(p) == before, "query", "the query was changed");
        REQUIRE(knn.evaluate(p) == got, "repeat", "the second prediction for " << vs(x) << " differs from the first, " << got);
        batch.insertPoint(p, true); preds.push_back(got);
        std::set<double> seen; size_t w = 0; for (auto &y: nb) if (may_win(nb, k, y.second) && seen.insert(y.second).second) w++;
        if (w == 1) c.label("unique winner"); else c.label("tied vote or neighbours");
        many |= g.cls.size() >= 2 && k < g.tr.size();
    }
    auto bp = knn.batchEvaluate(batch);
    REQUIRE(bp.size() == batch.size(), "batch", "batch of " << bp.size());
    for (size_t t = 0; t < preds.size(); t++) REQUIRE(bp[t] == preds[t], "batch", "batch prediction " << bp[t] << " differs from " << preds[t]);
    REQUIRE(rows(g.d) == g.tr, "data", "the training data was changed");
    REQUIRE(rows(*knn.getSamples()) == g.tr, "data", "the training data held by the learner was changed");
    if (many && k >= 2) c.nontrivial();
}
#define NT "two or more classes and 1 < k < n"
LAW(euclidean, 4, NT) { vote<M::Euclidean<double>>(c, "euclidean", false); }
LAW(manhattan, 2, NT) { vote<M::Manhattan<double>>(c, "manhattan", false); }
LAW(chebyshev, 2, NT) { vote<M::Chebyshev<double>>(c, "chebyshev", false); }
LAW(hassanat, 2, NT) { vote<M::Hassanat<double>>(c, "hassanat", false); }
LAW(others, 4, NT) {
    switch (c.draw(5)) {
        case 0: return vote<M::SquaredEuclidean<double>>(c, "squared euclidean", false);
        case 1: return vote<M::Lorentzian<double>>(c, "lorentzian", false);
        case 2: return vote<M::Canberra<double>>(c, "canberra", true);
        case 3: return vote<M::Cosine<double>>(c, "cosine", true);
        case 4: return vote<M::Jaccard<double>>(c, "jaccard", true);
        default: return vote<M::AverageL1Linf<double>>(c, "average", false);
    }
}
LAW(identity, 2, "at least three points and two classes") {
    // k = 1 on data without conflicting duplicates; order of the training points is irrelevant
    Gen g = gen(c, false); std::map<V, double> lab; Rows tr;
    for (auto &r: g.tr) if (lab.emplace(r.x, r.y).first->second == r.y) tr.push_back(r);
    D d = mk(tr); c.show() << str(tr, 20);
    mltk::classifier::KNNClassifier<double> one(d, 1); one.train();
    for (auto &r: tr) REQUIRE(one.evaluate(point(r)) == r.y, "self", "training point " << str(r) << " is not predicted as itself");
    auto pm = c.perm(tr.size()); Rows sh; for (auto i: pm) sh.push_back(tr[i]);
    D e = mk(sh); size_t k = (size_t) c.i(1, (long) tr.size());
    mltk::classifier::KNNClassifier<double> a(d, k), b(e, k);
    M::Euclidean<double> f;
    for (auto &r: g.tr) {
        V x = r.x; for (auto &v: x) v += c.dy(1, 8);
        std::vector<std::pair<double, double>> nb; for (auto &t: tr) nb.push_back({ref(f, x, t.x), t.y});
        double pa = a.evaluate(Pt(x)), pb = b.evaluate(Pt(x));
        if (unique_winner(nb, k, pa)) REQUIRE(pa == pb, "order", "prediction for " << vs(x) << " depends on the order of the training points: " << pa << " or " << pb);
    }
    if (tr.size() >= 3 && g.cls.size() >= 2) c.nontrivial();
}
LAW(single_precision, 2, NT) {
    auto cls = gen_classes(c, (size_t) c.i(2, 3)); size_t n = (size_t) c.lenw(3, 25, 120);
    Rows r = gen_rows_all(c, n, (size_t) c.wide(1, 3, 15), cls, 0);
    mltk::Data<float> d; for (auto &x: r) { mltk::Point<float> p(std::vector<float>(x.x.begin(), x.x.end())); p.Y() = x.y; d.insertPoint(p); }
    size_t k = (size_t) c.i(1, (long) n);
    mltk::classifier::KNNClassifier<float, M::Manhattan<float>> knn(d, k);
    c.show() << "float k=" << k << " " << str(r, 20);
    for (int t = 0; t < 4; t++) {
        std::vector<float> x(r[0].x.size()); for (auto &v: x) v = (float) c.z(4);
        std::vector<std::pair<double, double>> nb; for (auto &y: r) { double s = 0; for (size_t j = 0; j < x.size(); j++) s += std::fabs(x[j] - y.x[j]); nb.push_back({s, y.y}); }
        double got = knn.evaluate(mltk::Point<float>(x));
        REQUIRE(may_win(nb, k, got), "vote", "class " << got << " loses the vote");
    }
    if (k > 1 && k < n) c.nontrivial();
}
