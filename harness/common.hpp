// dataset generators and model helpers shared by the harnesses
#pragma once
#include "pbt.hpp"
#include "ufjfmltk/core/Data.hpp"
#include "ufjfmltk/core/Random.hpp"
#include <fstream>
namespace cm {
using namespace pbt;
using V = std::vector<double>;
using D = mltk::Data<double>;
using Pt = mltk::Point<double>;

struct Row { V x; double y = 0; size_t id = 0; double alpha = 0; };
inline bool operator==(Row const &a, Row const &b) { return a.x == b.x && a.y == b.y && a.id == b.id && a.alpha == b.alpha; }
inline bool operator<(Row const &a, Row const &b) { return std::tie(a.x, a.y, a.id, a.alpha) < std::tie(b.x, b.y, b.id, b.alpha); }
using Rows = std::vector<Row>;

inline std::string str(Row const &r) { std::ostringstream o; o.precision(17); o << vs(r.x) << "->" << r.y << "#" << r.id; return o.str(); }
inline std::string str(Rows const &r, size_t max = 12) {
    std::ostringstream o;
    for (size_t i = 0; i < r.size() && i < max; i++) o << (i ? " " : "") << str(r[i]);
    if (r.size() > max) o << " ... (" << r.size() << " points)";
    return o.str();
}
inline Row row(Pt const &p) { Row r; r.x = p.X(); r.y = p.Y(); r.id = p.Id(); r.alpha = p.Alpha(); return r; }
inline Rows rows(D const &d) {
    Rows r;
    auto pts = d.points();
    for (auto &p: pts) r.push_back(p ? row(*p) : Row{});
    return r;
}
inline Pt point(Row const &r) { Pt p(r.x); p.Y() = r.y; p.Id() = r.id; p.Alpha() = r.alpha; return p; }
inline D mk(Rows const &r, bool keep = false) {
    D d;
    for (auto &x: r) d.insertPoint(point(x), keep);
    return d;
}
inline Rows sorted(Rows r) { std::sort(r.begin(), r.end()); return r; }
inline Rows noid(Rows r) { for (auto &x: r) { x.id = 0; x.alpha = 0; } return r; }

// class bookkeeping must describe the stored points
inline void check_classes(D const &d, const char *when, bool names_are_labels = false, bool allow_zero = true) {
    auto cls = d.classes(); auto dist = d.classesDistribution(); auto names = d.classesNames();
    REQUIRE(std::set<int>(cls.begin(), cls.end()).size() == cls.size(), "classes-dup", when << ": a class is listed twice: " << vs(cls));
    REQUIRE(dist.size() == cls.size(), "dist-size", when << ": classes " << vs(cls) << " but counts " << vs(dist));
    REQUIRE(names.size() == cls.size(), "names-size", when << ": " << cls.size() << " classes but " << names.size() << " class names");
    std::map<double, size_t> cnt;
    for (auto const &p: d.points()) cnt[p->Y()]++;
    for (size_t i = 0; i < cls.size(); i++) {
        size_t w = cnt.count(cls[i]) ? cnt[cls[i]] : 0;
        REQUIRE(dist[i] == w, "dist", when << ": class " << cls[i] << " has count " << dist[i] << " but " << w << " points");
        REQUIRE(allow_zero || w > 0, "class-empty", when << ": class " << cls[i] << " has no points");
        if (names_are_labels) REQUIRE(names[i] == std::to_string(cls[i]), "names", when << ": class " << cls[i] << " is named " << names[i]);
    }
    for (auto &k: cnt) REQUIRE(std::find(cls.begin(), cls.end(), k.first) != cls.end(), "classes-miss", when << ": label " << k.first << " is not in the class list " << vs(cls));
}
// sizes, dimension, labels, names, index
inline void check_shape(D const &d, const char *when, bool index_perm = true) {
    auto pts = d.points();
    REQUIRE(pts.size() == d.size(), "size", when << ": size() " << d.size() << " but " << pts.size() << " points");
    size_t dim = d.dim();
    for (auto &p: pts) {
        REQUIRE(p != nullptr, "null-point", when << ": null point stored");
        REQUIRE(p->size() == dim, "dim", when << ": point of dimension " << p->size() << " in data of dimension " << dim);
    }
    auto lb = d.getLabels();
    REQUIRE(lb.size() == pts.size(), "labels-size", when << ": " << lb.size() << " labels for " << pts.size() << " points");
    for (size_t i = 0; i < pts.size(); i++) {
        REQUIRE(lb[i] == pts[i]->Y(), "labels", when << ": label vector differs at " << i);
        REQUIRE(d(i).X() == pts[i]->X() && d.point((int) i) == pts[i] && d[i] == pts[i], "access", when << ": accessors disagree at " << i);
    }
    if (!pts.empty()) {
        auto fn = d.getFeaturesNames();
        REQUIRE(fn.size() == dim, "fnames-size", when << ": " << fn.size() << " feature names for dimension " << dim);
        for (size_t j = 0; j < dim; j++) {
            auto f = d.getFeature((int) j);
            REQUIRE(f.size() == pts.size(), "feature-size", when << ": feature column of length " << f.size());
            for (size_t i = 0; i < pts.size(); i++) REQUIRE(f[i] == (*pts[i])[j], "feature", when << ": feature column " << j << " differs at " << i);
        }
    }
    if (index_perm) {
        auto ix = d.getIndex();
        std::sort(ix.begin(), ix.end());
        REQUIRE(ix.size() == pts.size(), "index-size", when << ": index of length " << ix.size() << " for " << pts.size() << " points");
        for (size_t i = 0; i < ix.size(); i++) REQUIRE(ix[i] == (int) i, "index", when << ": index vector is not a permutation");
    }
}
inline void check_all(D const &d, const char *when) { check_shape(d, when); check_classes(d, when); }

// ---- generators ---------------------------------------------------------
inline std::vector<int> gen_classes(Ctx &c, size_t k) {
    static const std::vector<std::vector<int>> styles = {{-1, 1, 2, 3, 4, 5}, {1, 2, 3, 4, 5, 6}, {0, 1, 2, 3, 4, 5}, {7, 3, 10, 2, -5, 100}, {-3, -2, 4, 12, 5, 0}};
    size_t st = (size_t) c.draw(styles.size() + 1);
    std::vector<int> s;
    if (st < styles.size() && k <= 6) s = styles[st];
    else {                      // any distinct integers
        long w = st <= styles.size() ? 8 : 1000; std::set<int> u;
        while (s.size() < k) { int v = (int) c.z(w); while (u.count(v)) v++; u.insert(v); s.push_back(v); }
    }
    s.resize(k);
    return s;
}
inline Rows gen_rows(Ctx &c, size_t n, size_t dim, std::vector<int> const &cls, int style = -1) {
    Rows r(n);
    if (style < 0) style = (int) c.draw(2);
    for (size_t i = 0; i < n; i++) {
        r[i].x.resize(dim);
        for (auto &v: r[i].x) v = style == 0 ? (double) c.z(4) : style == 1 ? c.dy(20, 8) : c.num();
        r[i].y = cls[(size_t) c.draw(cls.size() - 1)];
        r[i].id = i + 1;
    }
    return r;
}
// every class present; n >= classes
inline Rows gen_rows_all(Ctx &c, size_t n, size_t dim, std::vector<int> const &cls, int style = -1) {
    Rows r = gen_rows(c, n, dim, cls, style);
    auto p = c.perm(n);
    for (size_t k = 0; k < cls.size() && k < n; k++) r[p[k]].y = cls[k];
    return r;
}
inline void reset_globals() { mltk::random::init(12345); srand(1); }
static const bool installed = [] { before_case() = reset_globals; return true; }();
} // namespace cm
