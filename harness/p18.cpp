#include "knn.hpp"
#include "ufjfmltk/core/DistanceMatrix.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
using namespace cm;
namespace M = mltk::metrics::dist;
struct In { Rows r; D d; size_t threads; bool tri; };
static In gen(Ctx &c, size_t lo, std::vector<int> const &cls, bool gaps) {
    In in; size_t n = (size_t) c.lenw((long) lo, 24, 150);
    in.r = gen_rows_all(c, n, (size_t) c.wide(1, 4, 20), cls, (int) c.i(0, 1));
    int how = (int) c.i(0, gaps ? 3 : 2);
    if (how == 0) { in.d = mk(in.r); }
    else if (how == 1) { in.d = mk(in.r); in.d.shuffle((size_t) c.i(1, 1000)); }
    else if (how == 2) { auto p = c.perm(n); for (size_t i = 0; i < n; i++) in.r[i].id = p[i] + 1; in.d = mk(in.r, true); }
    else { auto p = c.perm(2 * n); for (size_t i = 0; i < n; i++) in.r[i].id = p[i] + 1; in.d = mk(in.r, true); }
    in.r = rows(in.d);
    in.threads = (size_t) c.wide(1, 8, 24); in.tri = c.flip();
    c.show() << (in.tri ? "triangular, " : "full, ") << in.threads << " threads, " << str(in.r);
    c.label(how == 0 ? "numbered" : how == 1 ? "shuffled" : how == 2 ? "renumbered" : "gaps");
    return in;
}
template<class F> static void matrix(Ctx &c, const char *name) {
    auto in = gen(c, 1, {1, 2}, true);
    F f;
    M::DistanceMatrix<F> m(in.d, in.tri, in.threads);
    REQUIRE(m.isDiagonalMatrix() == in.tri, "form", "wrong form");
    size_t maxid = 0; for (auto &r: in.r) maxid = std::max(maxid, r.id);
    REQUIRE(m.size() >= maxid && (maxid > in.r.size() || m.size() == in.r.size()), "size", "matrix of " << m.size() << " rows for " << in.r.size() << " points");
    for (auto &a: in.r) for (auto &b: in.r) {
        if (in.tri && b.id > a.id) continue;
        auto const &row = m[a.id - 1];
        REQUIRE(row.size() >= b.id, "row", name << ": row of point " << a.id << " has " << row.size() << " entries");
        double w = a.id == b.id ? 0 : f(point(a), point(b));
        REQUIRE(close(row[b.id - 1], w, 1e-12, 1e-12), "entry", name << ": entry (" << a.id << "," << b.id << ") is " << row[b.id - 1] << " but the distance is " << w);
    }
    REQUIRE(rows(in.d) == in.r, "data", "the dataset was changed");
    if (in.r.size() >= 3 && in.threads >= 2) c.nontrivial();
}
LAW(euclidean, 3, "at least three points and two threads", 60, 30) { matrix<M::Euclidean<double>>(c, "euclidean"); }
LAW(manhattan, 1, "at least three points and two threads", 60, 30) { matrix<M::Manhattan<double>>(c, "manhattan"); }
LAW(hassanat, 1, "at least three points and two threads", 60, 30) { matrix<M::Hassanat<double>>(c, "hassanat"); }
LAW(classifier, 4, "a test point that is not a training point, two or more classes", 60, 30) {
    auto cls = gen_classes(c, (size_t) c.wide(1, 3, 9));
    auto in = gen(c, std::max<size_t>(2, cls.size()), cls, true);
    // train on a part of the data, ids kept
    Rows tr; for (auto &r: in.r) if (c.chance(70)) tr.push_back(r);
    if (tr.empty()) tr.push_back(in.r[0]);
    D t = mk(tr, true);
    size_t k = (size_t) c.i(1, (long) tr.size());
    using KNN = mltk::classifier::KNNClassifier<double, M::Euclidean<double>>;
    KNN plain(t, k), pre(t, k);
    int how = (int) c.i(0, 1);
    if (how == 0) pre.setPrecomputedDistances(M::DistanceMatrix<M::Euclidean<double>>(in.d, in.tri, in.threads));
    else pre.precomputeDistances(in.d, in.tri, in.threads);
    plain.train(); pre.train();
    c.show() << " k=" << k << " trained on " << tr.size();
    M::Euclidean<double> f; bool outside = false;
    for (auto &q: in.r) {
        std::vector<std::pair<double, double>> nb; for (auto &x: tr) nb.push_back({f(point(q), point(x)), x.y});
        double a = plain.evaluate(point(q)), b = pre.evaluate(point(q));
        REQUIRE(may_win(nb, k, a), "plain", "class " << a << " cannot win for point " << str(q));
        REQUIRE(may_win(nb, k, b), "precomputed", "with the matrix class " << b << " is predicted for point " << str(q) << " but cannot win; without it " << a);
        if (unique_winner(nb, k, a)) REQUIRE(a == b, "differ", "point " << str(q) << " is class " << a << " without and " << b << " with the matrix");
        bool in_t = false; for (auto &x: tr) in_t |= x.id == q.id;
        outside |= !in_t;
    }
    REQUIRE(rows(t) == tr && rows(in.d) == in.r, "data", "a dataset was changed");
    if (outside && cls.size() >= 2) c.nontrivial();
}
