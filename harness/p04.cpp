#include "common.hpp"
#include "ufjfmltk/valid/Validation.hpp"
using namespace cm;

struct Snap { Rows r; std::vector<int> cls; std::vector<size_t> dist; std::vector<std::string> names; std::vector<int> fn, idx; std::string name, type; bool empty, norm; };
static Snap snap(D const &d) { return {rows(d), d.classes(), d.classesDistribution(), d.classesNames(), d.getFeaturesNames(), d.getIndex(), d.name(), d.getType(), d.isEmpty(), d.isNormalized()}; }
static void same(Snap const &a, Snap const &b, std::string const &w, bool name = true) {
    REQUIRE(a.r == b.r, "rows", w << ": points are " << str(b.r) << " want " << str(a.r));
    REQUIRE(a.cls == b.cls, "classes", w << ": classes " << vs(b.cls) << " want " << vs(a.cls));
    REQUIRE(a.dist == b.dist, "dist", w << ": class counts " << vs(b.dist) << " want " << vs(a.dist));
    REQUIRE(a.names == b.names, "names", w << ": class names " << vs(b.names) << " want " << vs(a.names));
    REQUIRE(a.fn == b.fn, "fnames", w << ": feature names " << vs(b.fn) << " want " << vs(a.fn));
    REQUIRE(a.idx == b.idx, "index", w << ": index " << vs(b.idx) << " want " << vs(a.idx));
    REQUIRE(a.type == b.type && a.empty == b.empty && a.norm == b.norm, "flags", w << ": type " << b.type << " isEmpty " << b.empty << " normalized " << b.norm << " want " << a.type << " " << a.empty << " " << a.norm);
    if (name) REQUIRE(a.name == b.name, "dsname", w << ": name " << b.name << " want " << a.name);
}
static D source(Ctx &c, size_t n, size_t dim, std::vector<int> cls, std::string &how) {
    Rows m = gen_rows(c, n, dim, cls);
    bool loaded = c.chance(25);
    D d;
    if (loaded && n >= 2) {
        for (auto &r: m) for (auto &v: r.x) v = std::round(v * 8) / 8;
        std::ofstream o("src.csv"); o.precision(17);
        for (auto &r: m) { o << r.y; for (auto x: r.x) o << "," << x; o << "\n"; }
        o.close();
        d.load("src.csv");
        how = "loaded";
    } else {
        d = D(mk(m, c.flip()));
        if (c.chance(30)) d.setName("some");
        how = "built";
    }
    switch (c.draw(5)) {
        case 0: if (n > 0) d.shuffle(7); how += "+shuffle"; break;
        case 1: if (dim > 1 && n > 0) d.removeFeatures(std::vector<int>{1}); how += "+removeFeature"; break;
        case 2: if (n > 1) d.removePoint((int) rows(d)[0].id); how += "+removePoint"; break;
        case 3: for (auto &p: d) p->Alpha() = c.dy(3); how += "+alpha"; break;
        case 4: { if (n == 0) break; bool zero = false; for (auto const &p: d) { double s = 0; for (double v: *p) s += v * v; if (s == 0) zero = true; } if (!zero) { d.normalize(2); how += "+normalize"; } break; }
    }
    return d;
}
static std::string mutate(Ctx &c, D &d) {
    std::ostringstream o;
    int k = (int) c.draw(11);
    size_t n = d.size();
    if (n == 0 && k != 0 && k != 9 && k != 11) k = 0;
    switch (k) {
        case 0: { Row r = gen_rows(c, 1, n ? d.dim() : 2, {3, 77})[0]; r.alpha = 0; d.insertPoint(point(r)); o << "insert"; break; }
        case 1: { size_t i = (size_t) c.draw(n - 1), j = (size_t) c.draw(d.dim() - 1); (*d[i])[j] += 1.5; o << "coord " << i << "," << j; break; }
        case 2: { size_t i = (size_t) c.draw(n - 1); d.updatePointValue(i, c.flip() ? 55 : d[i]->Y() + 1); o << "label " << i; break; }
        case 3: { size_t i = (size_t) c.draw(n - 1); d[i]->Y() = 1234; d[i]->Id() = 999; o << "raw label " << i; break; }
        case 4: { auto p = d.points(); p[(size_t) c.draw(n - 1)]->X().assign(d.dim(), -7.25); o << "points()"; break; }
        case 5: { size_t i = (size_t) c.draw(n - 1); d.removePoint((int) d[i]->Id()); o << "removePoint"; break; }
        case 6: { d.shuffle((size_t) c.i(1, 50)); o << "shuffle"; break; }
        case 7: { d.removeFeatures(std::vector<int>{d.getFeaturesNames().empty() ? 1 : d.getFeaturesNames()[0]}); o << "removeFeatures"; break; }
        case 8: { d.apply([](mltk::PointPointer<double> p) { for (auto &v: p->X()) v = v * 2 + 1; }); o << "apply"; break; }
        case 9: { d.clear(); o << "clear"; break; }
        case 10: { size_t i = (size_t) c.draw(n - 1); d.removePoints({(int) d[i]->Id()}); o << "removePoints"; break; }
        default: { size_t w = n ? d.dim() : d.getFeaturesNames().size(); if (n == 0 && w == 0) { d.clear(); w = 2; } D e = mk({{V(w ? w : 2, 4.5), 9, 1, 0}}); d.join(e); o << "join"; break; }
    }
    return o.str();
}
LAW(copies, 4, "source of at least two points and at least one mutation") {
    size_t n = (size_t) c.lenw(0, 12, 60), dim = (size_t) c.wide(1, 4, 15);
    auto cls = gen_classes(c, (size_t) c.wide(1, 4, 12));
    std::string how;
    D d = source(c, n, dim, cls, how);
    n = d.size();
    Snap s0 = snap(d);
    int kind = (int) c.draw(6);
    static const char *kn[] = {"copy constructor", "copy()", "copy(d)", "copy(d) into non-empty", "make_data", "classesCopy", "copyZero"};
    std::unique_ptr<D> q; std::shared_ptr<D> sp;
    D t;
    std::vector<int> want;
    switch (kind) {
        case 0: q.reset(new D(d)); t = *q; break;
        case 1: t = d.copy(); break;
        case 2: t.copy(d); break;
        case 3: { size_t dim2 = (size_t) c.i(1, 4); t = D(mk(gen_rows(c, (size_t) c.i(1, 5), dim2, {5, 6, 1}))); t.copy(d); break; }
        case 4: sp = mltk::make_data<double>(d); t = *sp; break;
        case 5: {
            for (int k: d.classes()) if (c.flip()) want.push_back(k);
            if (want.empty() || c.chance(10)) want.push_back(d.classes().empty() ? 1 : d.classes()[0]);
            std::set<int> u(want.begin(), want.end()); want.assign(u.begin(), u.end());
            auto w = want;
            if (c.flip()) t = D(mk(gen_rows(c, 2, d.dim() ? d.dim() : 1, {5, 6})));
            D fresh; fresh.classesCopy(d, w); t = fresh;
            break;
        }
        case 6: t.copyZero(d); break;
    }
    c.show() << how << " " << n << "x" << d.dim() << " " << kn[kind];
    same(s0, snap(d), std::string(kn[kind]) + " changed the source");
    Snap st = snap(t);
    if (kind <= 4) {
        same(s0, st, kn[kind]);
        REQUIRE(t == d && !(t != d), "equal", kn[kind] << ": the copy does not compare equal to the source");
    } else if (kind == 5) {
        Rows w; for (auto &r: s0.r) if (std::find(want.begin(), want.end(), (int) r.y) != want.end()) w.push_back(r);
        REQUIRE(t.isEmpty() == w.empty(), "empty", "classesCopy: isEmpty() is " << t.isEmpty());
        REQUIRE(noid(st.r) == noid(w), "class-rows", "classesCopy " << vs(want) << " gives " << str(st.r) << " want " << str(w));
        check_shape(t, kn[kind]); check_classes(t, kn[kind]);
        if (!w.empty()) REQUIRE(st.fn == s0.fn, "fnames", "classesCopy: feature names " << vs(st.fn) << " want " << vs(s0.fn));
    } else {
        REQUIRE(t.size() == 0 && st.r.empty() && t.isEmpty(), "zero", "copyZero: " << t.size() << " points");
        REQUIRE(st.fn == s0.fn, "fnames", "copyZero: feature names " << vs(st.fn) << " want " << vs(s0.fn));
        check_classes(t, "copyZero");
    }
    // independence, both directions
    int steps = (int) c.wide(1, 6, 20); bool mutd = false;
    std::string log;
    for (int k = 0; k < steps; k++) {
        bool on_src = c.flip();
        D &a = on_src ? d : t, &b = on_src ? t : d;
        Snap before = snap(b);
        log += std::string(on_src ? " src:" : " copy:") + mutate(c, a);
        same(before, snap(b), std::string(kn[kind]) + " then" + log + ": the other side changed");
        mutd = true;
    }
    c.show() << log;
    if (n >= 2 && mutd) c.nontrivial();
    c.label(kn[kind]); c.label(how);
}
static void raw_mutate(D &r) { for (auto &p: r.points()) if (p) { for (auto &v: p->X()) v = -99.5; p->Y() = 4321; p->Alpha() = 8; } }
LAW(extract, 4, "source of at least four points with two classes") {
    size_t k = (size_t) c.i(1, 3);
    size_t n = (size_t) c.lenw(4, 24, 80), dim = (size_t) c.wide(1, 4, 15);
    auto cls = gen_classes(c, k);
    std::string how;
    Rows m = gen_rows_all(c, n, dim, cls);
    for (auto &r: m) r.alpha = c.dy(2);
    D d = mk(m, c.flip());
    if (c.flip()) d.setName("z");
    if (c.chance(30)) d.shuffle(3);
    Snap s0 = snap(d);
    int kind = (int) c.draw(11);
    bool strat = c.flip(), keep = c.flip();
    size_t parts = (size_t) c.wide(2, 4, 12), seed = (size_t) c.i(1, 99);
    std::vector<D> res;
    std::string w;
    size_t minc = n; { auto ds = d.classesDistribution(); for (auto x: ds) minc = std::min(minc, x); }
    if (parts > n) parts = n;
    switch (kind) {
        case 0: w = "splitByClasses"; res = d.splitByClasses(keep); break;
        case 1: w = "splitSample"; res = d.splitSample(parts, strat, keep, seed); break;
        case 2: w = "sampling"; res.push_back(d.sampling(minc * k, true, (int) seed)); break;
        case 3: w = "sampling without replacement"; { size_t q = minc * k; c.assume(q > 0); res.push_back(d.sampling(k, false, (int) seed)); } break;
        case 4: { w = "selectFeatures"; res.push_back(d.selectFeatures({(size_t) c.i(1, (long) dim)})); break; }
        case 5: { w = "insertFeatures"; res.push_back(d.insertFeatures({(int) c.i(1, (long) dim)}, keep)); break; }
        case 6: { w = "removeFeatures(feats,size)"; res.push_back(d.removeFeatures(std::vector<int>{(int) c.i(1, (long) dim)}, -1)); break; }
        case 7: { w = "kfoldsplit"; for (auto &p: mltk::validation::kfoldsplit(d, parts, strat, keep, seed)) { res.push_back(p.train); res.push_back(p.test); } break; }
        case 8: { w = "partTrainTest"; auto p = mltk::validation::partTrainTest(d, parts, strat, keep, seed); res.push_back(p.train); res.push_back(p.test); break; }
        case 9: { w = "getFeature"; auto f = d.getFeature((int) c.draw(dim - 1)); for (auto &v: f.X()) v = -5; auto l = d.getLabels(); for (auto &v: l.X()) v = -5; auto l2 = d.labels(); l2.X().clear(); break; }
        case 10: { w = "accessors"; auto p = d.points(); p.clear(); auto cl = d.classes(); cl.clear(); auto fn = d.getFeaturesNames(); fn.clear(); auto ix = d.getIndex(); ix.clear(); auto v = d(0); v.X().assign(dim, -1); auto cd = d.classesDistribution(); cd.clear(); D const &cd2 = d; auto v2 = cd2(0); v2.Y() = 5; break; }
        case 11: { w = "kfoldsplit repeated"; for (auto &p: mltk::validation::kfoldsplit(d, parts, (size_t) 2, strat, keep, seed)) { res.push_back(p.train); res.push_back(p.test); } break; }
    }
    c.show() << w << " of " << n << "x" << dim << " classes " << vs(cls) << " parts " << parts << (strat ? " stratified" : "") << (keep ? " keep" : "");
    c.label(w);
    same(s0, snap(d), w + " changed its source");
    if (n >= 4 && k >= 2) c.nontrivial();
    // what was extracted is detached from the source
    for (auto &r: res) raw_mutate(r);
    same(s0, snap(d), w + ": changing the result reached the source");
    if (!res.empty()) {
        std::vector<Rows> before; for (auto &r: res) before.push_back(rows(r));
        raw_mutate(d); d.clear();
        for (size_t i = 0; i < res.size(); i++) REQUIRE(rows(res[i]) == before[i], "detached", w << ": changing the source reached result " << i);
    }
}
