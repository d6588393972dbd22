#include "common.hpp"
using namespace cm;
struct Model { Rows r; std::vector<int> names; };
static std::string desc(Model const &m) { return "names " + vs(m.names) + " points " + str(m.r, 6); }
static Model columns(Model const &m, std::vector<size_t> const &cols) {
    Model o; for (size_t j: cols) o.names.push_back(m.names[j]);
    for (auto const &r: m.r) { Row x = r; x.x.clear(); for (size_t j: cols) x.x.push_back(r.x[j]); o.r.push_back(x); }
    return o;
}
static void same(D const &d, Model const &m, const char *when, bool ids = true) {
    REQUIRE(d.getFeaturesNames() == m.names, "names", when << ": feature names " << vs(d.getFeaturesNames()) << " want " << vs(m.names));
    REQUIRE(d.dim() == m.names.size(), "dim", when << ": dimension " << d.dim() << " want " << m.names.size());
    Rows a = rows(d), b = m.r;
    if (!ids) { for (size_t i = 0; i < a.size(); i++) REQUIRE(a[i].alpha == (i < b.size() ? b[i].alpha : 0), "alpha", when << ": multiplier of point " << i << " lost"); a = noid(a); b = noid(b); }
    REQUIRE(a == b, "points", when << ": points " << str(a) << " want " << str(b));
    check_all(d, when);
}
static Model gen(Ctx &c, D &d) {
    auto cls = gen_classes(c, (size_t) c.wide(1, 4, 10));
    size_t n = (size_t) c.lenw(1, 8, 40), dim = (size_t) c.lenw(1, 8, 40);
    Model m; m.r = gen_rows(c, n, dim, cls);
    for (size_t i = 0; i < n; i++) { m.r[i].alpha = (double) i + 1; m.r[i].id = 10 + 3 * i; }
    d = mk(m.r, true);
    m.names.resize(dim);
    int off = (int) c.wide(0, 4, 1000), step = (int) c.wide(1, 5, 100); auto p = c.perm(dim); bool sh = c.chance(30);
    for (size_t j = 0; j < dim; j++) m.names[j] = off + 1 + step * (int) (sh ? p[j] : j);
    d.setFeaturesNames(m.names);
    return m;
}
// a list of names: present ones (distinct, any order), maybe an absent one
static std::vector<int> pick_names(Ctx &c, Model const &m, bool &absent) {
    std::vector<int> v; for (int f: m.names) if (c.flip()) v.push_back(f);
    absent = c.chance(12);
    if (absent) { int f = (int) c.i(1, 60); while (std::count(m.names.begin(), m.names.end(), f)) f++; v.push_back(f); }
    auto p = c.perm(v.size()); std::vector<int> o; for (size_t i: p) o.push_back(v[i]);
    return o;
}
static std::vector<size_t> cols_of(Model const &m, std::vector<int> v) {
    std::sort(v.begin(), v.end()); std::vector<size_t> o;
    for (int f: v) { size_t j = std::find(m.names.begin(), m.names.end(), f) - m.names.begin(); if (j < m.names.size()) o.push_back(j); }
    return o;
}
LAW(history, 6, "at least two applied edits on three or more features") {
    D d; Model m = gen(c, d);
    c.show() << desc(m);
    size_t applied = 0, dim0 = m.names.size();
    int ops = (int) c.wide(1, 6, 20);
    while (ops-- > 0) {
        bool absent = false; auto v = pick_names(c, m, absent);
        switch (c.draw(4)) {
            case 0: {
                c.show() << "; select " << vs(v);
                if (v.empty()) break;
                std::vector<size_t> f(v.begin(), v.end());
                D o = d.selectFeatures(f);
                same(d, m, "source of a selection");
                if (absent) { REQUIRE(o.size() == 0, "absent", "selecting the absent feature in " << vs(v) << " returned " << o.size() << " points"); break; }
                Model w = columns(m, cols_of(m, v));
                same(o, w, "selection");
                REQUIRE(o.getType() == d.getType(), "type", "selection changed the dataset type");
                if (c.flip()) { d = o.copy(); m = w; applied++; }
                break;
            }
            case 1: {
                c.show() << "; select first of " << vs(v);
                if (absent || v.empty()) break;
                int k = (int) c.i(1, (long) v.size());
                std::vector<size_t> f(v.begin(), v.end());
                D o = d.selectFeatures(f, k);
                auto cc = cols_of(m, v); cc.resize((size_t) k);
                same(o, columns(m, cc), "limited selection");
                same(d, m, "source of a limited selection");
                break;
            }
            case 2: {
                if (c.chance(15) && !v.empty()) v.push_back(v[0]);
                c.show() << "; remove " << vs(v);
                std::vector<size_t> keep; for (size_t j = 0; j < m.names.size(); j++) if (!std::count(v.begin(), v.end(), m.names[j])) keep.push_back(j);
                bool ok = d.removeFeatures(v);
                if (keep.empty() ) { REQUIRE(!ok, "refuse", "removing every feature reported success"); same(d, m, "refused removal"); break; }
                if (m.names.size() == 1) { same(d, m, "removal from one feature"); break; }
                REQUIRE(ok, "refused", "removing " << vs(v) << " was refused");
                m = columns(m, keep);
                same(d, m, "removal"); applied++;
                break;
            }
            case 3: {
                c.show() << "; copy without " << vs(v);
                std::vector<size_t> keep; for (size_t j = 0; j < m.names.size(); j++) if (!std::count(v.begin(), v.end(), m.names[j])) keep.push_back(j);
                D o = const_cast<const D &>(d).removeFeatures(v, c.flip() ? -1 : (int) v.size());
                same(d, m, "source of a copy without features");
                same(o, keep.empty() || m.names.size() == 1 ? m : columns(m, keep), "copy without features");
                break;
            }
            default: {
                c.show() << "; build from " << vs(v);
                if (v.empty()) break;
                bool keepid = c.flip();
                D o = d.insertFeatures(v, keepid);
                same(d, m, "source of a build");
                if (absent) { REQUIRE(o.size() == 0, "absent", "building with the absent feature in " << vs(v) << " returned " << o.size() << " points"); break; }
                same(o, columns(m, cols_of(m, v)), "build", keepid);
                break;
            }
        }
    }
    if (applied >= 2 && dim0 >= 3) c.nontrivial();
    c.label(applied ? "edited" : "untouched");
}
// removing features and building them again from the source gives the source's columns; selections commute
LAW(compose, 3, "at least four features") {
    D d; Model m = gen(c, d);
    c.show() << desc(m);
    bool ab = false;
    std::vector<int> a, b;
    for (int f: m.names) if (c.chance(70)) a.push_back(f);
    for (int f: a) if (c.flip()) b.push_back(f);
    c.assume(!b.empty());
    (void) ab;
    std::vector<size_t> fa(a.begin(), a.end()), fb(b.begin(), b.end());
    D two = d.selectFeatures(fa).selectFeatures(fb), one = d.selectFeatures(fb);
    REQUIRE(rows(two) == rows(one) && two.getFeaturesNames() == one.getFeaturesNames(), "compose", "selecting " << vs(a) << " then " << vs(b) << " differs from selecting " << vs(b));
    std::vector<int> rest; for (int f: m.names) if (!std::count(b.begin(), b.end(), f)) rest.push_back(f);
    if (std::is_sorted(m.names.begin(), m.names.end())) {
        D e = d.copy(); bool ok = e.removeFeatures(rest);
        REQUIRE(ok || rest.empty() || m.names.size() == 1, "refused", "removing " << vs(rest) << " of " << vs(m.names) << " was refused");
        if (ok) REQUIRE(rows(e) == rows(one) && e.getFeaturesNames() == one.getFeaturesNames(), "complement", "removing " << vs(rest) << " differs from selecting " << vs(b));
    }
    if (m.names.size() >= 4) c.nontrivial();
}
