#include "common.hpp"
using namespace cm;

static void same(D const &d, Rows const &m, std::string const &log) {
    Rows r = rows(d);
    REQUIRE(r.size() == m.size(), "model-size", "after " << log << ": " << r.size() << " points, model has " << m.size());
    for (size_t i = 0; i < m.size(); i++)
        REQUIRE(r[i].x == m[i].x && r[i].y == m[i].y && r[i].id == m[i].id, "model-point", "after " << log << ": point " << i << " is " << str(r[i]) << " want " << str(m[i]));
}
static void step_checks(D &d, Rows const &m, std::string const &log) {
    same(d, m, log);
    check_shape(d, log.c_str());
    check_classes(d, log.c_str(), true);
    REQUIRE(d.isEmpty() == m.empty(), "is-empty", "after " << log << ": isEmpty() is " << d.isEmpty() << " with " << m.size() << " points");
}

static void history(Ctx &c, D &d, Rows m, size_t dim, std::vector<int> labels) {
    int steps = (int) c.lenw(1, 30, 80), eff = 0, kinds = 0;
    std::string log = "start";
    step_checks(d, m, log);
    Rows pool = gen_rows(c, (size_t) c.i(1, 5), dim, labels);
    D other = mk(pool);
    pool = rows(other);
    D wrong = mk(gen_rows(c, 2, dim + 1, labels));
    std::set<int> seen;
    for (int s = 0; s < steps; s++) {
        int op = (int) c.draw(13);
        std::ostringstream o;
        seen.insert(op);
        Rows before = m;
        switch (op) {
            case 0: case 1: case 2: {       // insert a point
                Row r = gen_rows(c, 1, dim, labels)[0];
                r.alpha = 0;
                bool keep = op == 2;
                r.id = keep ? (size_t) c.i(1, 40) : 0;
                o << "insert " << str(r) << (keep ? " keep" : "");
                bool ok = c.flip() ? d.insertPoint(point(r), keep) : d.insertPoint(std::make_shared<Pt>(point(r)), keep);
                REQUIRE(ok, "insert-refused", o.str() << " refused");
                if (!keep) r.id = m.size() + 1;
                m.push_back(r); eff++;
                break;
            }
            case 3: {                       // insert from another dataset, index maybe out of range
                int ix = (int) c.i(-1, (long) pool.size() + 1);
                bool keep = c.flip();
                o << "insert from other " << ix << (keep ? " keep" : "");
                bool ok = d.insertPoint(other, ix, keep);
                bool want = ix >= 0 && ix < (int) pool.size();
                REQUIRE(ok == want, "insert-other", o.str() << " returned " << ok);
                if (want) { Row r = pool[(size_t) ix]; if (!keep) r.id = m.size() + 1; m.push_back(r); eff++; }
                REQUIRE(rows(other) == pool, "other-changed", o.str() << " changed the other dataset");
                break;
            }
            case 4: {                       // wrong dimension
                if (m.empty()) break;
                o << "insert wrong dimension";
                bool ok = c.flip() ? d.insertPoint(wrong, (int) c.draw(1)) : d.insertPoint(Pt(dim + 1, 1.0));
                REQUIRE(!ok, "wrong-dim", "a point of another dimension was accepted");
                break;
            }
            case 5: case 6: {               // remove by id
                long id = c.flip() && !m.empty() ? (long) m[(size_t) c.draw(m.size() - 1)].id : c.i(-1, 50);
                o << "removePoint " << id;
                if (m.empty()) { o << " skipped"; break; }
                bool ok = d.removePoint((int) id);
                auto it = std::find_if(m.begin(), m.end(), [&](Row const &r) { return id > 0 && r.id == (size_t) id; });
                bool want = it != m.end() && m.size() > 1;
                REQUIRE(ok == want, "remove", o.str() << " returned " << ok << " on " << str(before));
                if (want) { m.erase(it); eff++; }
                break;
            }
            case 7: {                       // remove a batch of ids (sorted, as documented)
                if (m.empty()) break;
                std::set<int> ids;
                int k = (int) c.wide(1, 5, 30);
                for (int q = 0; q < k; q++) ids.insert(c.chance(75) ? (int) m[(size_t) c.draw(m.size() - 1)].id : (int) c.i(0, 60));
                std::vector<int> v(ids.begin(), ids.end());
                o << "removePoints " << vs(v);
                auto flags = d.removePoints(v);
                std::vector<bool> found(v.size(), false);
                Rows left; size_t remaining = m.size(); bool stopped = false;
                for (auto &r: m) {
                    auto p = std::find(v.begin(), v.end(), (int) r.id);
                    if (p == v.end() || stopped) { left.push_back(r); continue; }
                    if (remaining == 1) { left.push_back(r); stopped = true; continue; }
                    remaining--; found[(size_t) (p - v.begin())] = true; eff++;
                }
                REQUIRE(flags.size() == v.size(), "flags-size", o.str() << " returned " << flags.size() << " flags");
                if (!stopped) for (size_t a = 0; a < v.size(); a++) for (size_t b = 0; b < v.size(); b++)
                    REQUIRE((flags[a] == flags[b]) == (found[a] == found[b]), "flags", o.str() << ": flags do not tell removed from absent ids");
                m = left;
                break;
            }
            case 8: case 9: {               // relabel
                size_t ix = (size_t) c.i(0, (long) m.size());
                int y = c.chance(70) ? labels[(size_t) c.draw(labels.size() - 1)] : (int) c.i(-20, 20);
                o << "updatePointValue " << ix << "=" << y;
                bool ok = d.updatePointValue(ix, y);
                REQUIRE(ok == (ix < m.size()), "update", o.str() << " returned " << ok);
                if (ix < m.size()) { m[ix].y = y; eff++; }
                break;
            }
            case 10: {                      // shuffle
                size_t seed = (size_t) c.i(1, 1000);
                o << "shuffle " << seed;
                if (m.empty()) break;
                d.shuffle(seed);
                Rows r = rows(d);
                REQUIRE(sorted(r) == sorted(m), "shuffle", "shuffle is not a permutation");
                m = r; eff++;
                break;
            }
            case 11: {                      // explicit reorder
                if (m.empty()) break;
                auto p = c.perm(m.size());
                std::vector<int> ix(p.begin(), p.end());
                o << "changeXVector " << vs(ix);
                d.changeXVector(ix);
                for (size_t q = 0; q < p.size(); q++) m[q] = before[p[q]];
                eff++;
                break;
            }
            case 12: {
                o << "computeClassesDistribution";
                if (c.flip()) d.computeClassesDistribution();
                else { D e(d); d.copy(e); o << " (copy)"; }
                break;
            }
            case 13: {
                if (c.chance(50)) {           // an order of the caller's own
                    auto p = c.perm(m.size()); std::vector<int> ix(p.begin(), p.end());
                    d.setIndex(ix); o << "setIndex " << vs(ix);
                    REQUIRE(d.getIndex() == ix, "set-index", o.str() << " is read back as " << vs(d.getIndex()));
                    break;
                }
                if (!c.chance(50)) { d.resetIndex(); o << "resetIndex"; break; }
                d.clear(); m.clear(); o << "clear";
                break;
            }
        }
        log += " | " + o.str();
        if (log.size() > 2500) log = "... " + log.substr(log.size() - 2000);
        step_checks(d, m, log);
    }
    kinds = (int) seen.size();
    c.show() << "dim " << dim << " labels " << vs(labels) << ": " << log;
    if (eff >= 3 && kinds >= 3) c.nontrivial();
    c.label(eff >= 10 ? "long" : "short");
}

LAW(history_built, 4, "at least three effective edits of at least three kinds") {
    size_t dim = (size_t) c.wide(1, 4, 20);
    auto labels = gen_classes(c, (size_t) c.wide(1, 5, 15));
    Rows m = gen_rows(c, (size_t) c.lenw(0, 12, 80), dim, labels);
    D d = mk(m);
    history(c, d, m, dim, labels);
}
LAW(history_loaded, 2, "at least three effective edits of at least three kinds") {
    size_t dim = (size_t) c.wide(1, 4, 20);
    auto labels = c.flip() ? std::vector<int>{-1, 1} : std::vector<int>{1, 2, 3, 4};
    Rows m = gen_rows(c, (size_t) c.lenw(2, 12, 60), dim, labels, 0);
    {
        std::ofstream o("in.csv");
        for (auto &r: m) { o << r.y; for (auto x: r.x) o << "," << x; o << "\n"; }
    }
    D d("in.csv");
    for (auto &x: m) x.alpha = 0;
    history(c, d, m, dim, labels);
}
// datasets of another coordinate type keep the same books
LAW(history_float, 1, "at least three edits") {
    size_t dim = (size_t) c.i(1, 3);
    mltk::Data<float> d;
    std::vector<std::pair<std::vector<float>, int>> m;
    int steps = (int) c.len(1, 15);
    for (int s = 0; s < steps; s++) {
        int op = (int) c.draw(3);
        if (op <= 1 || m.empty()) {
            std::vector<float> x(dim); for (auto &v: x) v = (float) c.dy(9);
            int y = (int) c.i(-1, 3);
            mltk::Point<float> p(x); p.Y() = y;
            REQUIRE(d.insertPoint(p), "insert", "refused");
            m.push_back({x, y});
        } else if (op == 2) {
            size_t ix = (size_t) c.draw(m.size() - 1); int y = (int) c.i(-1, 3);
            d.updatePointValue(ix, y); m[ix].second = y;
        } else if (m.size() > 1) {
            size_t ix = (size_t) c.draw(m.size() - 1);
            size_t id = d[ix]->Id();
            size_t first = 0; while (d[first]->Id() != id) first++;
            REQUIRE(d.removePoint((int) id), "remove", "refused");
            m.erase(m.begin() + (long) first);
        }
        REQUIRE(d.size() == m.size() && d.points().size() == m.size(), "size", "size");
        std::map<int, size_t> cnt;
        for (size_t i = 0; i < m.size(); i++) { REQUIRE(d[i]->X() == m[i].first && d[i]->Y() == m[i].second, "point", "point " << i); cnt[m[i].second]++; }
        auto cl = d.classes(); auto di = d.classesDistribution();
        REQUIRE(cl.size() == di.size(), "dist-size", "class counts");
        for (size_t i = 0; i < cl.size(); i++) REQUIRE(di[i] == cnt[cl[i]], "dist", "class " << cl[i] << " count " << di[i] << " want " << cnt[cl[i]]);
    }
    c.show() << steps << " edits, " << m.size() << " points left";
    if (steps >= 3) c.nontrivial();
}
// sized construction: books agree once computed
LAW(sized, 1, "at least two points") {
    size_t n = (size_t) c.lenw(1, 8, 60), dim = (size_t) c.wide(1, 4, 20);
    double v = c.dy(5);
    D d(n, dim, v);
    c.show() << n << "x" << dim;
    if (n >= 2) c.nontrivial();
    REQUIRE(d.size() == n && d.dim() == dim && !d.isEmpty(), "shape", "shape");
    for (size_t i = 0; i < n; i++) { for (auto x: *d[i]) REQUIRE(x == v, "value", "value"); REQUIRE(d[i]->Id() == i + 1, "id", "id"); }
    size_t k = (size_t) c.i(0, 3);
    for (size_t i = 0; i < k; i++) { Pt p(dim, 0.0); p.Y() = (int) c.i(0, 2); REQUIRE(d.insertPoint(p), "insert", "refused"); }
    d.computeClassesDistribution();
    check_all(d, "sized+compute");
}
