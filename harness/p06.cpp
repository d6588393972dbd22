#include "common.hpp"
using namespace cm;

static std::string numtext(Ctx &c) {
    std::ostringstream o;
    switch (c.draw(8)) {
        case 7: { o << (c.flip() ? "-" : "") << c.i(0, 999999999); if (c.flip()) o << "." << c.i(0, 99999); break; }
        case 8: { o << (c.flip() ? "-" : "") << c.i(0, 9) << "."; int k = (int) c.i(1, 14); for (int q = 0; q < k; q++) o << c.i(0, 9); if (c.flip()) o << "e" << c.i(-40, 40); break; }
        case 0: o << c.i(-99, 99); break;
        case 1: o << (c.flip() ? "-" : "") << c.i(0, 999) << "." << c.i(0, 999); break;
        case 2: o << (c.flip() ? "+" : "") << c.i(0, 9) << "." << c.i(0, 99999); break;
        case 3: o << (c.flip() ? "-" : "") << c.i(1, 9) << "." << c.i(0, 9) << (c.flip() ? "e" : "E") << (c.flip() ? "-" : c.flip() ? "+" : "") << c.i(0, 12); break;
        case 4: o << c.i(0, 9) << "e" << c.i(0, 5); break;
        case 5: o << (c.flip() ? "-" : "") << "." << c.i(0, 99); break;
        default: o << "0000" << c.i(1, 9) << ".50"; break;
    }
    return o.str();
}
static std::vector<std::string> label_pool(Ctx &c, bool &numeric) {
    static const std::vector<std::vector<std::string>> pools = {
        {"1", "-1"}, {"-1", "1"}, {"1", "2", "3"}, {"0", "1", "2"}, {"5", "-3", "100", "7"}, {"-1", "2", "3", "1"},
        {"setosa", "versicolor", "virginica"}, {"A", "b", "B"}, {"yes", "no"}, {"-1", "other"}, {"-1", "x", "y"}, {"2", "a", "b", "1"}, {"e", "-", "class-1", "1"}, {"x1", "x2", "3", "4", "-1"}};
    size_t k = (size_t) c.draw(pools.size() + 5);
    if (k >= pools.size()) {         // any distinct integers, or any distinct words
        numeric = c.flip(); size_t n = (size_t) c.wide(1, 5, 30); std::set<std::string> u; long w = c.pick(std::vector<long>{8, 1000, 2000000000});
        while (u.size() < n) {
            std::string t;
            if (numeric) { long v = c.z(w); while (u.count(std::to_string(v))) v++; t = std::to_string(v); }
            else { static const std::string a = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-"; size_t len = (size_t) c.wide(1, 8, 60); for (size_t i = 0; i < len; i++) t += a[(size_t) c.draw(i ? a.size() - 1 : 31)]; while (u.count(t)) t += "x"; }
            u.insert(t);
        }
        return {u.begin(), u.end()};
    }
    numeric = k < 6;
    return pools[k];
}
struct File { std::vector<std::vector<double>> x; std::vector<std::string> label; std::vector<int> fnames; std::string text; };
static std::string blanks(Ctx &c, int percent) { return c.chance(percent) ? std::string((size_t) c.i(1, 3), ' ') : ""; }

static void verify(D &d, File const &f, bool numeric, std::string const &how, bool reg = false) {
    auto ctx = [&] { return how + "\nfile:\n" + f.text.substr(0, 700); };
    REQUIRE(d.size() == f.x.size(), "records", ctx() << ": " << d.size() << " points for " << f.x.size() << " records");
    REQUIRE(!d.isEmpty(), "is-empty", ctx() << ": reported empty");
    size_t dim = f.x[0].size();
    REQUIRE(d.dim() == dim, "dim", ctx() << ": dimension " << d.dim() << " want " << dim);
    check_shape(d, how.c_str());
    auto p = d.points();
    for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < dim; j++)
        REQUIRE(close((*p[i])[j], f.x[i][j], 1e-12, 1e-300), "value", ctx() << ": record " << i << " value " << j << " is " << (*p[i])[j] << " want " << f.x[i][j]);
    for (size_t i = 0; i < p.size(); i++) REQUIRE(p[i]->Id() == i + 1, "id", ctx() << ": record " << i << " has id " << p[i]->Id());
    REQUIRE(d.getFeaturesNames() == f.fnames, "fnames", ctx() << ": feature names " << vs(d.getFeaturesNames()) << " want " << vs(f.fnames));
    if (reg) {
        for (size_t i = 0; i < p.size(); i++) REQUIRE(close(p[i]->Y(), std::strtod(f.label[i].c_str(), nullptr), 1e-12, 1e-300), "target", ctx() << ": target " << i << " is " << p[i]->Y() << " want " << f.label[i]);
        return;
    }
    if (f.label.empty()) { for (auto &q: p) REQUIRE(q->Y() == 0, "unlabelled", ctx() << ": label " << q->Y()); return; }
    std::map<std::string, double> lab; std::map<double, std::string> inv; std::vector<std::string> names; std::map<std::string, size_t> cnt;
    for (size_t i = 0; i < p.size(); i++) {
        auto const &t = f.label[i]; double y = p[i]->Y();
        if (!lab.count(t)) {
            names.push_back(t); lab[t] = y;
            REQUIRE(!inv.count(y), "label-collision", ctx() << ": texts " << t << " and " << inv[y] << " both get label " << y);
            inv[y] = t;
            if (numeric) REQUIRE(y == std::strtod(t.c_str(), nullptr), "label-number", ctx() << ": label text " << t << " became " << y);
        }
        REQUIRE(lab[t] == y, "label-split", ctx() << ": text " << t << " is " << lab[t] << " and " << y);
        cnt[t]++;
    }
    auto cn = d.classesNames(); auto cl = d.classes(); auto ds = d.classesDistribution();
    REQUIRE(cn == names, "class-names", ctx() << ": class names " << vs(cn) << " want " << vs(names));
    REQUIRE(cl.size() == names.size() && ds.size() == names.size(), "class-tables", ctx() << ": " << cl.size() << " classes, " << ds.size() << " counts, " << names.size() << " names");
    for (size_t k = 0; k < names.size(); k++) {
        REQUIRE(cl[k] == lab[names[k]], "class-value", ctx() << ": class " << names[k] << " listed as " << cl[k] << " points carry " << lab[names[k]]);
        REQUIRE(ds[k] == cnt[names[k]], "class-count", ctx() << ": class " << names[k] << " count " << ds[k] << " want " << cnt[names[k]]);
    }
    if (lab.count("-1")) REQUIRE(lab["-1"] == -1, "minus-one", ctx() << ": -1 became " << lab["-1"]);
    check_classes(d, how.c_str());
}
static void put(std::string const &name, std::string const &text) { std::ofstream o(name, std::ios::binary); o << text; }
static void blank_lines(Ctx &c, std::string &t, std::string const &nl) { if (c.chance(10)) t += (c.flip() ? "" : "  ") + nl; }
static bool do_load(Ctx &c, D &d, std::string const &name, bool at_end, bool dflt, std::string type) {
    if (!type.empty()) d.setType(type);
    if (c.chance(25)) { Pt q(V{7, 7}); q.Y() = 99; d.insertPoint(q); }   // previous content is replaced
    if (dflt && c.flip()) return d.load(name);
    return d.load(name, at_end);
}
static void fill(Ctx &c, File &f, size_t n, size_t dim, std::vector<std::string> const &pool, std::vector<std::vector<std::string>> &tx) {
    for (size_t i = 0; i < n; i++) {
        std::vector<std::string> r; V x;
        for (size_t j = 0; j < dim; j++) { r.push_back(numtext(c)); x.push_back(std::strtod(r.back().c_str(), nullptr)); }
        tx.push_back(r); f.x.push_back(x); f.label.push_back(c.pick(pool));
    }
}
static std::string real_target(Ctx &c) { std::ostringstream o; o << (c.flip() ? "-" : "") << c.i(0, 99) << "." << c.i(0, 99); return o.str(); }

LAW(csv, 4, "at least two records with two distinct labels or values") {
    size_t n = (size_t) c.lenw(1, 15, 60), dim = (size_t) c.wide(1, 5, 40);
    bool numeric; auto pool = label_pool(c, numeric);
    bool reg = c.chance(20), last = c.flip(), crlf = c.chance(20), sp = c.chance(40);
    char sep = c.flip() ? ',' : ';';
    std::string nl = crlf ? "\r\n" : "\n";
    File f; std::vector<std::vector<std::string>> tx;
    fill(c, f, n, dim, pool, tx);
    if (reg) for (auto &l: f.label) l = real_target(c);
    for (size_t i = 0; i < n; i++) {
        blank_lines(c, f.text, nl);
        std::vector<std::string> r = tx[i];
        r.insert(last ? r.end() : r.begin(), f.label[i]);
        for (size_t j = 0; j < r.size(); j++) f.text += (j ? std::string(1, sep) : "") + blanks(c, sp ? 30 : 0) + r[j] + blanks(c, sp ? 30 : 0);
        if (i + 1 < n || c.flip()) f.text += nl;
    }
    if (c.chance(20)) f.text += nl + nl;
    f.fnames.resize(dim); std::iota(f.fnames.begin(), f.fnames.end(), 1);
    put("in.csv", f.text);
    c.show() << "csv " << n << "x" << dim << (last ? " label last" : " label first") << (reg ? " regression" : "") << "\n" << f.text.substr(0, 300);
    if (n >= 2) c.nontrivial();
    D d;
    REQUIRE(do_load(c, d, "in.csv", last, !last, reg ? "Regression" : ""), "load", "load refused\n" << f.text);
    verify(d, f, numeric, last ? "csv label last" : "csv label first", reg);
    REQUIRE(d.name() == "in", "dsname", "dataset name " << d.name());
}
LAW(data, 4, "at least two records") {
    size_t n = (size_t) c.lenw(1, 15, 60), dim = (size_t) c.wide(1, 5, 40);
    bool numeric; auto pool = label_pool(c, numeric);
    bool reg = c.chance(25), last = c.flip(), crlf = c.chance(20), sp = c.chance(30);
    std::string nl = crlf ? "\r\n" : "\n";
    File f; std::vector<std::vector<std::string>> tx;
    fill(c, f, n, dim, pool, tx);
    bool explicit_type = reg && (c.flip() || !last || n < 2);
    if (reg) for (auto &l: f.label) l = real_target(c);
    int fst = c.flip() ? 1 : (int) c.wide(1, 200, 2000000);
    for (size_t j = 0; j < dim; j++) { f.fnames.push_back(fst); fst += (int) c.wide(1, 3, 5000); }
    for (size_t i = 0; i < n; i++) {
        blank_lines(c, f.text, nl);
        std::vector<std::string> r;
        for (size_t j = 0; j < dim; j++) r.push_back(std::to_string(f.fnames[j]) + ":" + tx[i][j]);
        r.insert(last ? r.end() : r.begin(), f.label[i]);
        if (sp) f.text += blanks(c, 20);
        for (size_t j = 0; j < r.size(); j++) f.text += (j ? " " + blanks(c, sp ? 30 : 0) : "") + r[j];
        if (sp) f.text += blanks(c, 20);
        if (i + 1 < n || c.flip()) f.text += nl;
    }
    if (c.chance(20)) f.text += nl + nl;
    put("in.data", f.text);
    c.show() << "data " << n << "x" << dim << (last ? " label last" : " label first") << (reg ? " regression" : "") << "\n" << f.text.substr(0, 300);
    if (n >= 2) c.nontrivial();
    D d;
    REQUIRE(do_load(c, d, "in.data", last, true, explicit_type ? "Regression" : ""), "load", "load refused\n" << f.text);
    verify(d, f, numeric, last ? "data label last" : "data label first", reg);
    if (!reg) {
        std::set<std::string> u(f.label.begin(), f.label.end());
        REQUIRE(d.isClassification(), "type", "type is " << d.getType());
        REQUIRE((d.getType() == "BinClassification") == (u.size() == 2), "bin", u.size() << " classes but type " << d.getType());
    } else REQUIRE(!d.isClassification(), "type", "regression file got type " << d.getType());
}
LAW(arff, 3, "at least two records") {
    size_t n = (size_t) c.lenw(1, 15, 60), dim = (size_t) c.wide(1, 5, 40);
    bool numeric; auto pool = label_pool(c, numeric);
    bool first = c.chance(30), crlf = c.chance(20), sp = c.chance(30), header = c.chance(60);
    std::string nl = crlf ? "\r\n" : "\n";
    File f; std::vector<std::vector<std::string>> tx;
    fill(c, f, n, dim, pool, tx);
    if (header) {
        f.text += "% comment, with a comma" + nl + "@relation rel" + nl + nl;
        for (size_t j = 0; j < dim; j++) f.text += "@attribute a" + std::to_string(j) + " numeric" + nl;
        f.text += "@attribute class {";
        for (size_t k = 0; k < pool.size(); k++) f.text += (k ? "," : "") + pool[k];
        f.text += "}" + nl + nl + "@data" + nl;
    }
    for (size_t i = 0; i < n; i++) {
        blank_lines(c, f.text, nl);
        if (c.chance(5)) f.text += "% note" + nl;
        std::vector<std::string> r = tx[i];
        r.insert(first ? r.begin() : r.end(), f.label[i]);
        for (size_t j = 0; j < r.size(); j++) f.text += (j ? "," : "") + blanks(c, sp ? 30 : 0) + r[j] + blanks(c, sp ? 20 : 0);
        if (i + 1 < n || c.flip()) f.text += nl;
    }
    f.fnames.resize(dim); std::iota(f.fnames.begin(), f.fnames.end(), 1);
    put("in.arff", f.text);
    c.show() << "arff " << n << "x" << dim << (first ? " label first" : " label last") << "\n" << f.text.substr(0, 300);
    if (n >= 2) c.nontrivial();
    D d;
    REQUIRE(do_load(c, d, "in.arff", !first, !first, ""), "load", "load refused\n" << f.text);
    verify(d, f, numeric, first ? "arff label first" : "arff label last");
}
LAW(txt, 2, "at least two records") {
    size_t n = (size_t) c.lenw(1, 15, 60), dim = (size_t) c.wide(1, 5, 40);
    bool crlf = c.chance(20), sp = c.chance(30);
    std::string nl = crlf ? "\r\n" : "\n";
    File f; std::vector<std::vector<std::string>> tx;
    fill(c, f, n, dim, {"1"}, tx);
    f.label.clear();
    for (size_t i = 0; i < n; i++) {
        blank_lines(c, f.text, nl);
        f.text += "\"id" + std::to_string(i) + "\" " + std::to_string(i + 1);
        for (size_t j = 0; j < dim; j++) f.text += " " + blanks(c, sp ? 30 : 0) + tx[i][j];
        if (i + 1 < n || c.flip()) f.text += nl;
    }
    f.fnames.resize(dim); std::iota(f.fnames.begin(), f.fnames.end(), 1);
    put("in.txt", f.text);
    c.show() << "txt " << n << "x" << dim << "\n" << f.text.substr(0, 300);
    if (n >= 2) c.nontrivial();
    D d;
    REQUIRE(do_load(c, d, "in.txt", false, true, ""), "load", "load refused\n" << f.text);
    verify(d, f, false, "txt");
}
LAW(refused, 1, "every case") {
    static const std::vector<std::string> bad = {"missing.csv", "missing.data", "missing.arff", "missing.txt", "no_extension", "thing.xyz", "thing.plt", "a.b", "data", "csv", "nodir/x.csv", ".", "x.", "x.csvx", "x.json", "x.csv.gz", "arff", "file.dat"};
    auto name = c.pick(bad);
    if (name.find("missing") == std::string::npos && name != "." && name.find('/') == std::string::npos) put(name, "1,2,3\n");
    c.show() << name; c.nontrivial();
    D d;
    bool ok = c.flip() ? d.load(name) : d.load(name, c.flip());
    REQUIRE(!ok, "accepted", "loading " << name << " reported success");
    REQUIRE(d.size() == 0 && d.points().empty(), "not-empty", "a failed load left " << d.size() << " points");
    D e(name.c_str()); D g(name, true);
    REQUIRE(e.size() == 0 && g.size() == 0, "not-empty", "constructor");
    // ragged records are refused
    static const std::vector<std::string> rag = {"1,2,3\n1,2\n", "1,2\n1,2,3\n", "1,2,3\n1,2,3,4\n1,2,3\n"};
    put("rag.csv", c.pick(rag)); put("rag.arff", c.pick(rag));
    D h;
    REQUIRE(!h.load("rag.csv"), "ragged", "a csv file with records of different length was accepted");
    REQUIRE(!h.load("rag.arff"), "ragged", "an arff file with records of different length was accepted");
}
