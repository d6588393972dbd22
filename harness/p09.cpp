#include "common.hpp"
#include "ufjfmltk/valid/Validation.hpp"
using namespace cm;

static std::map<double, Row> by_tag(Rows const &r, std::string const &w) {
    std::map<double, Row> m;
    for (auto &x: r) { REQUIRE(!m.count(x.alpha), "duplicate", w << ": point " << str(x) << " (tag " << x.alpha << ") occurs twice"); m[x.alpha] = x; }
    return m;
}
static size_t check_parts(std::vector<D> const &parts, Rows const &orig, bool keep, std::string const &w, bool classes) {
    auto all = by_tag(orig, "source");
    std::set<double> seen;
    for (size_t i = 0; i < parts.size(); i++) {
        std::string wi = w + " part " + std::to_string(i + 1);
        for (auto &kv: by_tag(rows(parts[i]), wi)) {
            auto it = all.find(kv.first);
            REQUIRE(it != all.end() && it->second.x == kv.second.x && it->second.y == kv.second.y, "changed", wi << " holds " << str(kv.second) << " which is not a point of the dataset");
            if (keep) REQUIRE(it->second.id == kv.second.id, "id", wi << " changed the identifier of " << str(it->second) << " to " << kv.second.id);
            REQUIRE(seen.insert(kv.first).second, "overlap", wi << " shares " << str(kv.second) << " with another part");
        }
        check_shape(parts[i], wi.c_str());
        if (classes) check_classes(parts[i], wi.c_str(), true, false);
    }
    return seen.size();
}
static D make(Ctx &c, size_t n, std::vector<int> const &cls, Rows &m, bool reg) {
    size_t dim = (size_t) c.wide(1, 3, 12);
    m = n >= cls.size() ? gen_rows_all(c, n, dim, cls) : gen_rows(c, n, dim, cls);
    for (size_t i = 0; i < n; i++) m[i].alpha = (double) i + 1;
    if (reg) for (auto &r: m) r.y += 0.25 * (double) c.i(0, 3);
    D d;
    if (reg) d.setType("Regression");
    bool keep = c.flip();
    if (keep) { auto p = c.perm(n); for (size_t i = 0; i < n; i++) m[i].id = p[i] + 100; }
    for (auto &r: m) d.insertPoint(point(r), keep);
    m = rows(d);
    return d;
}
LAW(split_sample, 3, "at least two parts of two points") {
    auto cls = gen_classes(c, (size_t) c.wide(1, 5, 15));
    size_t k = (size_t) c.wide(1, 8, 40), n = std::max<size_t>(k, (size_t) c.lenw(1, 50, 250));
    bool strat = c.flip(), keep = c.flip(), reg = !strat && c.chance(20);
    Rows m; D d = make(c, n, cls, m, reg);
    size_t seed = (size_t) c.i(1, 500);
    c.show() << "splitSample " << k << " of " << n << (strat ? " stratified" : "") << (keep ? " keepIndex" : "") << (reg ? " regression" : "");
    auto parts = d.splitSample(k, strat, keep, seed);
    REQUIRE(rows(d) == m, "source", "splitSample changed its source");
    REQUIRE(parts.size() == k, "count", parts.size() << " parts");
    size_t tot = check_parts(parts, m, keep, "splitSample", !reg);
    if (strat) {
        REQUIRE(tot == n, "lost", "stratified split keeps " << tot << " of " << n << " points");
        std::map<double, std::vector<size_t>> cnt;
        for (size_t i = 0; i < k; i++) for (auto &r: rows(parts[i])) { auto &v = cnt[r.y]; v.resize(k); v[i]++; }
        for (auto &kv: cnt) { auto mm = std::minmax_element(kv.second.begin(), kv.second.end()); REQUIRE(*mm.second - *mm.first <= 1, "proportion", "class " << kv.first << " is spread " << vs(kv.second)); }
    } else for (auto &p: parts) REQUIRE(p.size() == n / k, "part-size", "part of " << p.size() << " points, want " << n / k);
    if (k >= 2 && n >= 2 * k) c.nontrivial();
}
LAW(by_class, 2, "at least two classes and three points") {
    auto cls = gen_classes(c, (size_t) c.wide(1, 5, 15));
    size_t n = (size_t) c.lenw(1, 40, 250);
    bool keep = c.flip();
    Rows m; D d = make(c, n, cls, m, false);
    if (n > 1 && c.flip()) { d.removePoint((int) d[0]->Id()); if (c.flip()) d.shuffle(9); m = rows(d); }
    if (!m.empty() && c.chance(20)) { d.updatePointValue((size_t) c.draw(m.size() - 1), 42); m = rows(d); }
    c.show() << "splitByClasses of " << m.size() << " classes " << vs(d.classes()) << vs(d.classesDistribution());
    auto parts = d.splitByClasses(keep);
    auto dc = d.classes();
    REQUIRE(rows(d) == m, "source", "splitByClasses changed its source");
    REQUIRE(parts.size() == dc.size(), "count", parts.size() << " parts for " << dc.size() << " classes");
    size_t tot = check_parts(parts, m, keep, "splitByClasses", true);
    REQUIRE(tot == m.size(), "lost", tot << " of " << m.size() << " points");
    for (size_t i = 0; i < parts.size(); i++) for (auto &r: rows(parts[i])) REQUIRE(r.y == dc[i], "wrong-class", "part of class " << dc[i] << " holds label " << r.y);
    for (size_t i = 0; i < parts.size(); i++) {      // source order within a class
        std::vector<double> a, b;
        for (auto &r: rows(parts[i])) a.push_back(r.alpha);
        for (auto &r: m) if (r.y == dc[i]) b.push_back(r.alpha);
        REQUIRE(a == b, "order", "class " << dc[i] << " order " << vs(a) << " want " << vs(b));
    }
    if (dc.size() >= 2 && m.size() >= 3) c.nontrivial();
}
LAW(holdout, 2, "at least two parts of two points") {
    auto cls = gen_classes(c, (size_t) c.wide(1, 4, 12));
    size_t k = (size_t) c.wide(2, 8, 40), n = std::max<size_t>(k, (size_t) c.lenw(2, 50, 250));
    bool strat = c.flip(), keep = c.flip(), reg = !strat && c.chance(20);
    Rows m; D d = make(c, n, cls, m, reg);
    size_t seed = (size_t) c.i(1, 500);
    c.show() << "partTrainTest 1/" << k << " of " << n << (strat ? " stratified" : "") << (keep ? " keepIndex" : "");
    auto p = mltk::validation::partTrainTest(d, k, strat, keep, seed);
    REQUIRE(rows(d) == m, "source", "partTrainTest changed its source");
    size_t tot = check_parts({p.train, p.test}, m, keep, "partTrainTest", !reg);
    REQUIRE(strat ? tot == n : tot == k * (n / k), "lost", tot << " of " << n << " points");
    size_t q = n / k;
    REQUIRE(p.test.size() >= q - (strat ? std::min(q, cls.size()) : 0) && p.test.size() <= q + (strat ? cls.size() : 0), "test-size", "test part has " << p.test.size() << " of " << n << " points for 1/" << k);
    if (strat) { std::map<double, size_t> a, b; for (auto &r: m) a[r.y]++; for (auto &r: rows(p.test)) b[r.y]++;
        for (auto &kv: a) REQUIRE(b[kv.first] >= kv.second / k && b[kv.first] <= (kv.second + k - 1) / k, "proportion", "class " << kv.first << ": " << b[kv.first] << " of " << kv.second << " held out for 1/" << k); }
    if (n >= 2 * k) c.nontrivial();
}
LAW(sampling, 3, "at least two classes, sample smaller than the dataset") {
    size_t kc = (size_t) c.wide(1, 4, 12);
    auto cls = gen_classes(c, kc);
    bool even = c.flip();
    size_t n, s; Rows m; D d;
    std::vector<size_t> cnt(kc);
    if (even) {     // s/n * count is whole for every class
        size_t unit = (size_t) c.i(1, 6), parts = (size_t) c.i(1, 5);
        n = 0; for (auto &x: cnt) { x = parts * (size_t) c.i(1, 4) ; n += x; }
        s = n / parts * std::min(unit, parts);
        m = gen_rows(c, n, 2, cls);
        size_t p = 0; for (size_t k = 0; k < kc; k++) for (size_t q = 0; q < cnt[k]; q++) m[p++].y = cls[k];
        auto pm = c.perm(n); Rows t(n); for (size_t i = 0; i < n; i++) t[i] = m[pm[i]]; m = t;
        for (size_t i = 0; i < n; i++) m[i].alpha = (double) i + 1;
        d = mk(m); m = rows(d);
    } else {
        n = (size_t) c.len((long) kc, 120);
        d = make(c, n, cls, m, false);
        s = (size_t) c.i((long) kc, (long) n);
    }
    bool repl = c.flip(); int seed = (int) c.i(1, 500);
    c.show() << "sampling " << s << " of " << n << vs(d.classesDistribution()) << (repl ? " with" : " without") << " replacement";
    auto r = d.sampling(s, repl, seed);
    REQUIRE(rows(d) == m, "source", "sampling changed its source");
    check_shape(r, "sampling"); check_classes(r, "sampling", true, false);
    auto all = by_tag(m, "source");
    std::map<double, size_t> got, full; std::set<double> u;
    for (auto &x: rows(r)) {
        auto it = all.find(x.alpha);
        REQUIRE(it != all.end() && it->second.x == x.x && it->second.y == x.y, "invented", "sample holds " << str(x) << " which is not a point of the dataset");
        if (!repl) REQUIRE(u.insert(x.alpha).second, "repeated", "sample without replacement holds " << str(x) << " twice");
        got[x.y]++;
    }
    for (auto &x: m) full[x.y]++;
    for (auto &kv: full) {
        double want = (double) kv.second * (double) s / (double) n;
        double g = (double) got[kv.first];
        if (even) REQUIRE(g == std::round(want), "count", "class " << kv.first << ": " << g << " sampled, want exactly " << want);
        REQUIRE(g > want - 1 && g < want + 1, "proportion", "class " << kv.first << ": " << g << " sampled, want about " << want);
    }
    if (even) REQUIRE(r.size() == s, "size", r.size() << " points sampled, want " << s);
    if (repl && s >= 40 && kc == 1 && n >= 40) { std::set<double> z; for (auto &x: rows(r)) z.insert(x.alpha); REQUIRE(z.size() > 5, "degenerate", "only " << z.size() << " distinct points in a sample of " << s << " from " << n); }
    if (kc >= 2 && s < n) c.nontrivial();
    c.label(even ? "even" : "uneven"); c.label(repl ? "with" : "without");
}
