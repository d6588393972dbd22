#include "common.hpp"
using namespace cm;
static Rows gen(Ctx &c, size_t lo, size_t dim, std::vector<int> const &cls) {
    Rows r = gen_rows(c, (size_t) c.lenw((long) lo, 12, 100), dim, cls);
    for (size_t i = 0; i < r.size(); i++) { r[i].alpha = (double) i + 1; r[i].id = i + 1; }
    return r;
}
LAW(shuffle, 3, "at least three points") {
    auto cls = gen_classes(c, (size_t) c.wide(1, 4, 10));
    Rows r = gen(c, 1, (size_t) c.wide(1, 4, 20), cls);
    D d = mk(r); auto names = d.getFeaturesNames(); auto kl = d.classes(); auto cd = d.classesDistribution();
    int k = (int) c.i(1, 3);
    c.show() << str(r) << " shuffled " << k << " times";
    while (k-- > 0) {
        d.shuffle((size_t) c.i(1, 1000));
        REQUIRE(sorted(rows(d)) == sorted(r), "permutation", "shuffling gave " << str(rows(d)));
        REQUIRE(d.getFeaturesNames() == names && d.classes() == kl && d.classesDistribution() == cd, "tables", "shuffling changed names or class tables");
        check_all(d, "shuffle");
    }
    if (r.size() >= 3) c.nontrivial();
}
LAW(apply, 3, "at least two points") {
    auto cls = gen_classes(c, (size_t) c.wide(1, 4, 10));
    size_t dim = (size_t) c.wide(1, 4, 20);
    Rows r = gen(c, 1, dim, cls);
    D d = mk(r);
    double a = c.dy(4), b = c.dy(4); std::vector<double> seen;
    c.show() << str(r) << " x -> " << a << "x+" << b;
    d.apply([&](mltk::PointPointer<double> p) { seen.push_back(p->Alpha()); for (auto &x: p->X()) x = a * x + b; });
    std::vector<double> want; Rows w = r; for (auto &x: w) { want.push_back(x.alpha); for (auto &v: x.x) v = a * v + b; }
    REQUIRE(seen == want, "visits", "the function saw the points " << vs(seen) << " want " << vs(want));
    REQUIRE(rows(d) == w, "points", "applied: " << str(rows(d)) << " want " << str(w));
    check_all(d, "apply");
    // a function that does not change the points changes nothing at all
    D e = mk(r); size_t n = 0; e.apply([&](mltk::PointPointer<double>) { n++; });
    REQUIRE(n == r.size() && rows(e) == r, "identity", "reading every point: " << n << " visits, " << str(rows(e)));
    if (r.size() >= 2) c.nontrivial();
}
LAW(normalize, 3, "two different coordinates") {
    auto cls = gen_classes(c, (size_t) c.wide(1, 4, 10));
    size_t dim = (size_t) c.wide(1, 5, 20);
    Rows r = gen(c, 1, dim, cls);
    D d = mk(r); auto names = d.getFeaturesNames();
    static const std::vector<double> ps = {1, 2, 3, 1.5, 4};
    double p = c.pick(ps);
    c.show() << str(r) << " with order " << p;
    d.normalize(p);
    Rows g = rows(d);
    REQUIRE(g.size() == r.size() && d.dim() == dim + 1, "shape", "normalised to " << g.size() << " points of dimension " << d.dim());
    auto fn = d.getFeaturesNames();
    REQUIRE(fn.size() == dim + 1 && std::equal(names.begin(), names.end(), fn.begin()) && std::set<int>(fn.begin(), fn.end()).size() == fn.size(), "names", "feature names " << vs(fn));
    REQUIRE(d.isNormalized(), "flag", "not marked as normalised");
    for (size_t i = 0; i < r.size(); i++) {
        long double n = 1; for (double x: r[i].x) n += powl(fabsl(x), p);
        n = powl(n, 1 / (long double) p);
        for (size_t j = 0; j <= dim; j++) {
            double w = (double) ((j < dim ? (long double) r[i].x[j] : 1) / n);
            REQUIRE(close(g[i].x[j], w, 1e-9, 1e-12), "value", "point " << i << " coordinate " << j << " is " << g[i].x[j] << " want " << w);
        }
        REQUIRE(g[i].y == r[i].y && g[i].id == r[i].id && g[i].alpha == r[i].alpha, "label", "normalising changed label, identity or multiplier of point " << i);
    }
    check_all(d, "normalize");
    if (dim >= 2) c.nontrivial();
}
LAW(join, 5, "both sides non-empty") {
    size_t na = (size_t) c.i(1, 3), nb = (size_t) c.i(1, 4);
    auto all = gen_classes(c, 4);
    std::vector<int> ca(all.begin(), all.begin() + (long) na), cb(all.end() - (long) nb, all.end());
    size_t dim = (size_t) c.wide(1, 4, 20);
    Rows a = gen(c, 0, dim, ca), b = gen(c, 0, dim, cb);
    for (auto &x: b) x.alpha += 100;
    D da = mk(a), db = mk(b);
    c.show() << str(a) << " + " << str(b);
    auto kb = db.classes(); auto fb = db.getFeaturesNames(); auto fa = da.getFeaturesNames();
    int reps = (int) c.wide(1, 2, 6); Rows w = a;
    while (reps-- > 0) {
        da.join(db); w.insert(w.end(), b.begin(), b.end());
        REQUIRE(noid(rows(da)) == noid(w), "points", "joined: " << str(rows(da)) << " want " << str(w));
        for (size_t i = 0; i < w.size(); i++) REQUIRE((*da[i]).Alpha() == w[i].alpha, "alpha", "multiplier of point " << i);
        check_all(da, "join");
        REQUIRE(w.empty() || da.getFeaturesNames() == (a.empty() ? fb : fa), "names", "feature names " << vs(da.getFeaturesNames()));
        REQUIRE(da.isEmpty() == w.empty(), "empty", "empty() is " << da.isEmpty() << " with " << w.size() << " points");
    }
    REQUIRE(rows(db) == b && db.classes() == kb, "source", "joining changed the other dataset");
    // independence
    if (!b.empty()) {
        (*db[0])[0] += 5; (*db[0]).Y() = 77;
        REQUIRE(noid(rows(da)) == noid(w), "alias", "changing the joined dataset afterwards shows in the result");
    }
    if (!a.empty() && !b.empty()) c.nontrivial();
    c.label(na + nb > 4 ? "shared classes" : "disjoint classes");
}
LAW(columns, 2, "at least two points and features") {
    auto cls = gen_classes(c, (size_t) c.wide(1, 4, 10));
    size_t dim = (size_t) c.wide(1, 5, 20);
    Rows r = gen(c, 1, dim, cls);
    D d = mk(r);
    if (c.flip()) { d.shuffle((size_t) c.i(1, 100)); r = rows(d); }
    c.show() << str(r);
    for (size_t j = 0; j < dim; j++) {
        auto f = d.getFeature((int) j);
        REQUIRE(f.size() == r.size(), "feature-size", "column " << j << " has " << f.size() << " values");
        for (size_t i = 0; i < r.size(); i++) REQUIRE(f[i] == r[i].x[j], "feature", "column " << j << " differs at point " << i);
    }
    auto l = d.getLabels();
    REQUIRE(l.size() == r.size(), "labels-size", l.size() << " labels");
    for (size_t i = 0; i < r.size(); i++) REQUIRE(l[i] == r[i].y, "labels", "label " << i << " is " << l[i]);
    auto f = d.getFeature(0); f[0] += 1; REQUIRE(rows(d) == r, "alias", "changing a returned column changes the dataset");
    if (dim >= 2 && r.size() >= 2) c.nontrivial();
}
