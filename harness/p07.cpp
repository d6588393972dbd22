#include "common.hpp"
using namespace cm;
static const std::vector<std::string> EXT = {"csv", "data", "arff", "txt", "plt", "xyz", ""};

static void exercise(Ctx &c, std::string const &text, std::string const &ext, bool at_end, bool dflt, std::string const &type) {
    std::string name = ext.empty() ? "in" : "in." + ext;
    { std::ofstream o(name, std::ios::binary); o << text; }
    auto run = [&](auto &d) {
        if (!type.empty()) d.setType(type);
        bool ok = dflt ? d.load(name) : d.load(name, at_end);
        size_t n = d.size(), dim = d.dim();
        auto pts = d.points();
        REQUIRE(pts.size() == n, "size", "size() " << n << " but " << pts.size() << " points");
        for (auto &p: pts) { REQUIRE(p != nullptr, "null", "null point"); REQUIRE(p->size() == dim, "dim", "point of dimension " << p->size() << " in data of dimension " << dim); }
        REQUIRE(n * dim <= text.size() + 1, "memory", n << "x" << dim << " values from a file of " << text.size() << " bytes");
        REQUIRE(n <= text.size() + 1, "memory", n << " points from " << text.size() << " bytes");
        REQUIRE(d.isEmpty() == (n == 0), "is-empty", "isEmpty() is " << d.isEmpty() << " with " << n << " points");
        if (!ok) REQUIRE(n == 0, "refused", "a refused file left " << n << " points");
        REQUIRE(d.getLabels().size() == n, "labels", "label vector");
        if (n > 0) REQUIRE(d.getFeaturesNames().size() == dim, "fnames", d.getFeaturesNames().size() << " names for dimension " << dim);
        REQUIRE(d.getIndex().size() == n, "index", "index of length " << d.getIndex().size() << " for " << n << " points");
        REQUIRE(d.classes().size() == d.classesNames().size() && d.classes().size() == d.classesDistribution().size(), "classes", d.classes().size() << " classes, " << d.classesNames().size() << " names, " << d.classesDistribution().size() << " counts");
        size_t tot = 0; for (auto x: d.classesDistribution()) tot += x;
        REQUIRE(tot <= n, "dist", "class counts add up to " << tot << " for " << n << " points");
        // still usable
        auto e = d.copy();
        REQUIRE(e == d, "copy", "copy differs");
        if (n > 0) { d.shuffle(3); d.computeClassesDistribution(); d.resetIndex(); d.removePoint(1); }
        if (n > 0 && dim > 0) { e.write("o", "csv"); e.write("o", "data"); e.getFeature(0); }
    };
    if (c.flip()) { mltk::Data<float> d; run(d); } else { D d; run(d); }
}
static std::string valid(Ctx &c, std::string const &ext) {
    size_t n = (size_t) c.lenw(1, 6, 30), dim = (size_t) c.wide(1, 4, 20);
    std::string t;
    bool last = c.flip();
    for (size_t i = 0; i < n; i++) {
        std::vector<std::string> r;
        for (size_t j = 0; j < dim; j++) { std::ostringstream o; if (ext == "data") o << j + 1 << ":"; o << c.dy(9); r.push_back(o.str()); }
        r.insert(last ? r.end() : r.begin(), std::to_string(c.i(-1, 2)));
        if (ext == "txt") r.insert(r.begin(), "\"id\"");
        for (size_t j = 0; j < r.size(); j++) t += (j ? (ext == "data" || ext == "txt" ? " " : ",") : "") + r[j];
        t += "\n";
    }
    return t;
}
// valid files with structural damage
LAW(damaged, 4, "at least one edit of a valid file") {
    std::string ext = EXT[(size_t) c.draw(3)];
    std::string t = valid(c, ext);
    static const std::vector<std::string> ins = {",", ":", " ", "\n", "\r", "\t", ";", "-", ".", "e", "@", "%", "x", "99999999999999999999", "1e400", "nan", "inf", ",,", "::", "1:2:3", ": ", " :", "\n\n", "\"", std::string(1, '\0'), "\xff", "1:2", "-1", "0x1f", "2147483648", "-2147483649"};
    int k = (int) c.wide(0, 5, 25);
    for (int q = 0; q < k; q++) {
        size_t p = (size_t) c.draw(t.size());
        switch (c.draw(3)) {
            case 0: t.insert(p, c.pick(ins)); break;
            case 1: if (p < t.size()) t.erase(p, (size_t) c.i(1, 3)); break;
            case 2: if (p < t.size()) t[p] = c.pick(ins)[0]; break;
            case 3: t = t.substr(0, p); break;
        }
    }
    bool at_end = c.flip(), dflt = c.flip();
    std::string type = c.chance(20) ? "Regression" : "";
    c.show() << "." << ext << " " << jstr(t.substr(0, 400)) << (at_end ? " at end" : "") << " " << type;
    if (k > 0) c.nontrivial();
    c.label(ext);
    exercise(c, t, ext, at_end, dflt, type);
}
// arbitrary bytes
LAW(bytes, 2, "at least four bytes") {
    std::string ext = EXT[(size_t) c.draw(EXT.size() - 1)];
    size_t n = (size_t) c.lenw(0, 120, 1500);
    static const std::string alpha = "0123456789 ,;:.-+eE\n\n\r\tab@%\"?";
    bool raw = c.chance(25);
    std::string t;
    for (size_t i = 0; i < n; i++) t += raw ? (char) c.draw(255) : alpha[(size_t) c.draw(alpha.size() - 1)];
    bool at_end = c.flip(), dflt = c.flip();
    std::string type = c.chance(20) ? "Regression" : "";
    c.show() << "." << ext << " " << jstr(t.substr(0, 300));
    if (n >= 4) c.nontrivial();
    c.label(ext);
    exercise(c, t, ext, at_end, dflt, type);
}
// line-structured content: every line its own random list of fields
LAW(lines, 3, "at least two lines") {
    std::string ext = EXT[(size_t) c.draw(3)];
    size_t n = (size_t) c.lenw(0, 8, 40);
    static const std::vector<std::string> tok = {"1", "-1", "2", "0.5", "abc", "", "1:2", "3:x", "a:1", ":", "1:", ":2", "1:2:3", "7:8:9:1", "1e5", "+", "99999999999", "1.5", "?", "@data", "%"};
    std::string sep = ext == "data" || ext == "txt" ? " " : c.flip() ? "," : ";";
    std::string t;
    size_t common = (size_t) c.wide(0, 5, 30);
    for (size_t i = 0; i < n; i++) {
        size_t k = c.chance(70) ? common : (size_t) c.i(0, 6);
        for (size_t j = 0; j < k; j++) t += (j ? sep : "") + c.pick(tok);
        if (c.chance(15)) t += sep;
        t += c.chance(10) ? "\r\n" : "\n";
    }
    bool at_end = c.flip(), dflt = c.flip();
    std::string type = c.chance(20) ? "Regression" : "";
    c.show() << "." << ext << " " << jstr(t.substr(0, 300)) << (at_end ? " at end" : "");
    if (n >= 2) c.nontrivial();
    c.label(ext);
    exercise(c, t, ext, at_end, dflt, type);
}
// paths
LAW(paths, 1, "every case") {
    static const std::string alpha = "./acdfrstvxl ";
    std::string p;
    size_t n = (size_t) c.i(0, 10);
    for (size_t i = 0; i < n; i++) p += alpha[(size_t) c.draw(alpha.size() - 1)];
    if (c.flip()) p += c.flip() ? ".csv" : ".data";
    c.show() << jstr(p); c.nontrivial();
    D d; bool ok = c.flip() ? d.load(p) : d.load(p, true);
    REQUIRE(d.size() == d.points().size() && (ok || d.size() == 0), "path", "size");
}
