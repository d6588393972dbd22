#include "common.hpp"
using namespace cm;

static double printed(double v) { std::ostringstream o; o << v; return std::strtod(o.str().c_str(), nullptr); }
static std::string slurp(std::string const &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string tl(double y) { std::ostringstream o; o << y; return o.str(); }

template<class T> static void roundtrip(Ctx &c, mltk::Data<T> &d, std::string const &ext, std::string const &how, bool reg) {
    struct S { std::vector<T> x; double y; size_t id; };
    std::vector<S> s; for (auto const &p: d.points()) s.push_back({p->X(), p->Y(), p->Id()});
    auto fn = d.getFeaturesNames(); auto cls = d.classes(); auto dist = d.classesDistribution();
    size_t dim = d.dim();
    d.write("out", ext);
    {
        auto p = d.points();
        REQUIRE(p.size() == s.size() && d.size() == s.size(), "write-size", "writing changed the size");
        for (size_t i = 0; i < s.size(); i++) REQUIRE(p[i]->X() == s[i].x && p[i]->Y() == s[i].y && p[i]->Id() == s[i].id, "write-changed", "writing changed point " << i);
        REQUIRE(d.getFeaturesNames() == fn && d.classes() == cls && d.classesDistribution() == dist && d.dim() == dim, "write-meta", "writing changed names, classes or dimension");
    }
    mltk::Data<T> e;
    std::string file = "out." + ext;
    int via = (int) c.draw(3);
    bool ok = true;
    if (reg) e.setType("Regression");
    if (via == 0) ok = e.load(file);
    else if (via == 1) ok = e.load(file, false);
    else if (via == 2) { if (reg) e = mltk::Data<T>(file.c_str(), "Regression"); else e = mltk::Data<T>(file.c_str()); }
    else {      // load into a dataset that already holds something
        mltk::Point<T> q(std::vector<T>(2, (T) 7)); q.Y() = 99;
        e.insertPoint(q);
        ok = e.load(file);
    }
    REQUIRE(ok, "load", "loading the written file failed");
    REQUIRE(e.size() == s.size() && e.dim() == dim && !e.isEmpty(), "shape", how << " ." << ext << ": reloaded " << e.size() << "x" << e.dim() << " want " << s.size() << "x" << dim << "\nfile:\n" << slurp(file).substr(0, 400));
    auto pts = e.points();
    std::map<double, size_t> cnt; std::vector<std::string> names;
    for (size_t i = 0; i < s.size(); i++) {
        REQUIRE(pts[i] && pts[i]->size() == dim, "point-dim", "point " << i << " has dimension " << (pts[i] ? pts[i]->size() : 0));
        for (size_t j = 0; j < dim; j++) {
            double w = printed(s[i].x[j]);
            REQUIRE(close((*pts[i])[j], w, sizeof(T) == 4 ? 1e-6 : 1e-12, 1e-300), "coordinate", how << " ." << ext << ": point " << i << " coordinate " << j << " is " << (*pts[i])[j] << " saved as " << w);
        }
        REQUIRE(close(pts[i]->Y(), printed(s[i].y), 1e-12, 1e-300), "label", how << " ." << ext << ": point " << i << " label " << pts[i]->Y() << " saved as " << s[i].y);
        if (std::find(names.begin(), names.end(), tl(s[i].y)) == names.end()) names.push_back(tl(s[i].y));
        cnt[s[i].y]++;
    }
    std::vector<int> wf = fn; if (ext == "csv") { wf.resize(dim); std::iota(wf.begin(), wf.end(), 1); }
    REQUIRE(e.getFeaturesNames() == wf, "fnames", how << " ." << ext << ": feature names " << vs(e.getFeaturesNames()) << " want " << vs(wf));
    if (!reg) {
        auto ec = e.classes(); auto ed = e.classesDistribution();
        REQUIRE(ec.size() == cnt.size() && ed.size() == cnt.size(), "nclasses", how << " ." << ext << ": " << ec.size() << " classes, " << ed.size() << " counts, want " << cnt.size());
        for (size_t k = 0; k < ec.size(); k++) {
            REQUIRE(cnt.count(ec[k]), "class", "unknown class " << ec[k]);
            REQUIRE(ed[k] == cnt[ec[k]], "dist", how << " ." << ext << ": class " << ec[k] << " count " << ed[k] << " want " << cnt[ec[k]]);
        }
        REQUIRE(e.classesNames() == names, "names", how << " ." << ext << ": class names " << vs(e.classesNames()) << " want " << vs(names));
    }
    std::string first = slurp(file);
    e.write("again", ext);
    REQUIRE(slurp("again." + ext) == first, "rewrite", how << " ." << ext << ": saving the reloaded dataset gives other content\n" << slurp("again." + ext).substr(0, 300) << "\nwant\n" << first.substr(0, 300));
}

LAW(labelled, 4, "at least two points and two coordinates or classes") {
    size_t n = (size_t) c.lenw(1, 20, 120), dim = (size_t) c.wide(1, 5, 40);
    auto cls = gen_classes(c, (size_t) c.wide(1, 5, 15));
    if (c.chance(20)) for (auto &k: cls) k = (int) (c.i(-9999, 9999) * 10 + (&k - &cls[0]));
    Rows m = gen_rows(c, n, dim, cls);
    std::string how = "built";
    if (c.chance(25)) for (auto &r: m) for (auto &v: r.x) v = std::ldexp(c.real(-1, 1), (int) c.i(-60, 60));
    D d = mk(m, c.flip());
    int edits = (int) c.i(0, 2);
    for (int k = 0; k < edits; k++)
        switch (c.draw(4)) {
            case 0: d.shuffle((size_t) c.i(1, 20)); how += "+shuffle"; break;
            case 1: if (d.dim() > 1) { d.removeFeatures({d.getFeaturesNames()[(size_t) c.draw(d.dim() - 1)]}); how += "+removeFeature"; } break;
            case 2: if (d.size() > 1) { d.removePoint((int) d[0]->Id()); how += "+removePoint"; } break;
            case 3: { D q = d.copy(); d = q; how += "+copy"; break; }
            case 4: { std::vector<int> f(d.dim()); for (auto &x: f) x = (int) c.i(1, 500); d.setFeaturesNames(f); how += "+rename"; break; }
        }
    std::string ext = c.flip() ? "csv" : "data";
    c.show() << how << " " << d.size() << "x" << d.dim() << " ." << ext << " " << str(rows(d), 4);
    if (d.size() >= 2 && (d.dim() >= 2 || cls.size() >= 2)) c.nontrivial();
    c.label(ext);
    roundtrip(c, d, ext, how, false);
}
LAW(targets, 1, "at least two points") {
    size_t n = (size_t) c.lenw(1, 12, 100), dim = (size_t) c.wide(1, 4, 30);
    D d; d.setType("Regression");
    for (size_t i = 0; i < n; i++) { V x(dim); for (auto &v: x) v = c.num(); Pt p(x); p.Y() = c.num(); d.insertPoint(p); }
    std::string ext = c.flip() ? "csv" : "data";
    c.show() << n << "x" << dim << " ." << ext << " " << str(rows(d), 4);
    if (n >= 2) c.nontrivial();
    roundtrip(c, d, ext, "regression", true);
}
LAW(single_precision, 1, "at least two points") {
    size_t n = (size_t) c.lenw(1, 12, 100), dim = (size_t) c.wide(1, 4, 30);
    mltk::Data<float> d;
    for (size_t i = 0; i < n; i++) { std::vector<float> x(dim); for (auto &v: x) v = (float) c.num(); mltk::Point<float> p(x); p.Y() = (int) c.i(-1, 4); d.insertPoint(p); }
    std::string ext = c.flip() ? "csv" : "data";
    c.show() << n << "x" << dim << " ." << ext;
    if (n >= 2) c.nontrivial();
    roundtrip(c, d, ext, "float", false);
}
