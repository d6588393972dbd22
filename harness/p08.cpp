#include "common.hpp"
#include "ufjfmltk/valid/Validation.hpp"
using namespace cm;

// points are told apart by a tag kept in Alpha (coordinates may repeat)
static std::map<double, Row> by_tag(Rows const &r, std::string const &w) {
    std::map<double, Row> m;
    for (auto &x: r) { REQUIRE(!m.count(x.alpha), "duplicate", w << ": point " << str(x) << " (tag " << x.alpha << ") occurs twice"); m[x.alpha] = x; }
    return m;
}
static void subset(std::map<double, Row> const &part, std::map<double, Row> const &all, bool keep, std::string const &w) {
    for (auto &kv: part) {
        auto it = all.find(kv.first);
        REQUIRE(it != all.end(), "invented", w << " contains a point that is not in the dataset: " << str(kv.second));
        REQUIRE(it->second.x == kv.second.x && it->second.y == kv.second.y, "changed", w << " changed a point: " << str(kv.second) << " was " << str(it->second));
        if (keep) REQUIRE(it->second.id == kv.second.id, "id", w << " changed an identifier: " << str(kv.second) << " was " << str(it->second));
    }
}
static void check_folds(std::vector<mltk::validation::TrainTestPair<double>> const &fs, size_t off, size_t k, Rows const &orig, bool strat, bool keep, std::string const &how, bool classes) {
    auto all = by_tag(orig, "source");
    std::vector<std::map<double, Row>> te, tr;
    std::map<double, int> seen;
    for (size_t f = 0; f < k; f++) {
        auto const &p = fs[off + f];
        std::string w = how + " fold " + std::to_string(f + 1);
        te.push_back(by_tag(rows(p.test), w + " test")); tr.push_back(by_tag(rows(p.train), w + " train"));
        subset(te[f], all, keep, w + " test"); subset(tr[f], all, keep, w + " train");
        REQUIRE(p.train.size() == tr[f].size() && p.test.size() == te[f].size(), "size", w << ": sizes");
        for (auto &kv: te[f]) { REQUIRE(!tr[f].count(kv.first), "leak", w << ": point " << str(kv.second) << " is in both parts"); seen[kv.first]++; }
        REQUIRE(p.fold == (int) f + 1, "fold-number", w << ": numbered " << p.fold);
        check_shape(p.train, (w + " train").c_str()); check_shape(p.test, (w + " test").c_str());
        if (classes) { check_classes(p.train, (w + " train").c_str(), true); check_classes(p.test, (w + " test").c_str(), true); }
    }
    for (auto &kv: seen) REQUIRE(kv.second == 1, "test-twice", how << ": point tagged " << kv.first << " is tested " << kv.second << " times");
    size_t assigned = seen.size();
    if (strat) REQUIRE(assigned == orig.size(), "lost", how << ": only " << assigned << " of " << orig.size() << " points are assigned");
    else REQUIRE(assigned + k > orig.size(), "lost", how << ": only " << assigned << " of " << orig.size() << " points are assigned");
    for (size_t f = 0; f < k; f++) REQUIRE(tr[f].size() + te[f].size() == assigned, "train", how << " fold " << f + 1 << ": train " << tr[f].size() << " + test " << te[f].size() << " points, " << assigned << " assigned");
    if (strat) {
        std::map<double, std::vector<size_t>> cnt;
        for (auto &r: orig) cnt[r.y] = std::vector<size_t>(k, 0);
        for (size_t f = 0; f < k; f++) for (auto &kv: te[f]) cnt[kv.second.y][f]++;
        for (auto &kv: cnt) {
            auto mm = std::minmax_element(kv.second.begin(), kv.second.end());
            REQUIRE(*mm.second - *mm.first <= 1, "proportion", how << ": class " << kv.first << " is spread " << vs(kv.second) << " over the folds");
        }
    } else for (size_t f = 0; f < k; f++) REQUIRE(te[f].size() == orig.size() / k, "part-size", how << " fold " << f + 1 << " has " << te[f].size() << " test points");
}
static D make(Ctx &c, size_t &n, size_t k, bool &cls_ok, bool strat) {
    size_t nc = (size_t) c.wide(1, 5, 12);
    n = std::max<size_t>(k, (size_t) c.lenw((long) k, std::max<long>(60, (long) k), 250));
    size_t dim = (size_t) c.wide(1, 3, 12);
    auto cls = gen_classes(c, nc);
    Rows m = n >= nc ? gen_rows_all(c, n, dim, cls) : gen_rows(c, n, dim, cls);
    if (c.chance(20)) for (auto &r: m) r.y = cls[r.y == cls[0] ? 0 : (c.chance(90) ? 0 : cls.size() - 1)];   // unbalanced
    for (size_t i = 0; i < n; i++) m[i].alpha = (double) i + 1;
    D d;
    cls_ok = true;
    if (!strat && c.chance(25)) { d.setType("Regression"); for (auto &r: m) r.y += 0.25 * (double) c.i(0, 3); cls_ok = false; }
    bool keep = c.flip();
    if (keep) { auto p = c.perm(n); for (size_t i = 0; i < n; i++) m[i].id = p[i] + 100; }
    for (auto &r: m) d.insertPoint(point(r), keep);
    return d;
}
LAW(kfold, 4, "at least two folds of at least two points") {
    size_t k = (size_t) c.wide(2, 10, 40), n;
    bool strat = c.flip(), keep = c.flip(), ok;
    D d = make(c, n, k, ok, strat);
    Rows before = rows(d);
    size_t seed = (size_t) c.i(1, 1000);
    c.show() << k << " folds of " << n << " points" << (strat ? " stratified" : "") << (keep ? " keepIndex" : "") << " seed " << seed << " classes " << vs(d.classes()) << vs(d.classesDistribution());
    auto fs = mltk::validation::kfoldsplit(d, k, strat, keep, seed);
    REQUIRE(rows(d) == before, "source", "kfoldsplit changed its source");
    REQUIRE(fs.size() == k, "count", fs.size() << " pairs for " << k << " folds");
    check_folds(fs, 0, k, before, strat, keep, "kfoldsplit", ok);
    if (n >= 2 * k) c.nontrivial();
    c.label(k == 2 ? "two folds" : "more folds");
    c.label(strat ? "stratified" : "plain");
}
LAW(repeated, 2, "at least two repetitions") {
    size_t k = (size_t) c.wide(2, 6, 20), n, r = (size_t) c.wide(1, 4, 12);
    bool strat = c.flip(), keep = c.flip(), ok;
    D d = make(c, n, k, ok, strat);
    Rows before = rows(d);
    size_t seed = (size_t) c.i(1, 1000);
    c.show() << r << " x " << k << " folds of " << n << " points" << (strat ? " stratified" : "") << " seed " << seed;
    auto fs = mltk::validation::kfoldsplit(d, k, r, strat, keep, seed);
    REQUIRE(rows(d) == before, "source", "kfoldsplit changed its source");
    REQUIRE(fs.size() == k * r, "count", fs.size() << " pairs for " << r << " x " << k << " folds");
    for (size_t q = 0; q < r; q++) {
        check_folds(fs, q * k, k, before, strat, keep, "repetition " + std::to_string(q + 1), ok);
        for (size_t f = 0; f < k; f++) REQUIRE(fs[q * k + f].execution == (int) q + 1, "execution", "repetition " << q + 1 << " is numbered " << fs[q * k + f].execution);
    }
    if (r >= 2) c.nontrivial();
}
