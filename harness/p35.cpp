#include "common.hpp"
#include <climits>
#include "ufjfmltk/visual/Visualization.hpp"
using namespace cm;
// stand-in for the plotting program: keeps the commands it is given
static std::vector<std::string> sent;
Gnuplot::Gnuplot(const std::string &) {}
Gnuplot::~Gnuplot() {}
Gnuplot &Gnuplot::cmd(const std::string &s) { sent.push_back(s); return *this; }
using Vis = mltk::visualize::Visualization<double>;
using Names = std::vector<std::string>;
// an own folder for every case
struct Box {
    fs::path old; bool done = false;
    Box() { old = fs::current_path(); fs::remove_all(old / "case"); fs::create_directories(old / "case/inner"); fs::current_path(old / "case/inner"); }
    ~Box() { std::error_code e; fs::current_path(old, e); fs::remove_all(old / "case", e); }
};
static std::string slurp(fs::path const &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static std::map<std::string, std::string> snapshot() { std::map<std::string, std::string> m; for (auto &e: fs::recursive_directory_iterator("..")) m[e.path().string()] = e.is_directory() ? "folder" : slurp(e.path()); return m; }
static std::set<std::string> folders() { std::set<std::string> s; for (auto &e: fs::directory_iterator(".")) if (e.is_directory()) s.insert(e.path().filename().string()); return s; }
static std::vector<V> table(fs::path const &p) { std::vector<V> t; std::ifstream f(p); std::string l; while (std::getline(f, l)) { std::istringstream s(l); V r; double v; while (s >> v) r.push_back(v); if (!r.empty()) t.push_back(r); } return t; }
static bool near(double a, double b) { return fabs(a - b) <= 1e-5 * (1 + fabs(b)); }
static bool same(V const &a, V const &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!near(a[i], b[i])) return false; return true; }
struct Set { Rows r; D d; size_t dim = 0; std::vector<int> cls; Names names; };
static void gen(Ctx &c, Set &s, size_t mindim, bool odd_names) {
    s.dim = (size_t) c.lenw((long) mindim, (long) mindim + 3, 14); size_t n = (size_t) c.lenw(1, 12, 80), k = (size_t) c.wide(1, 4, 9); std::vector<int> lab; while (lab.size() < k) { int l = (int) c.i(-3, 9); if (std::find(lab.begin(), lab.end(), l) == lab.end()) lab.push_back(l); }
    double off = c.chance(40) ? c.dy(7, 4) : 0; bool small = c.chance(30); for (size_t i = 0; i < n; i++) { Row r; r.x.resize(s.dim); for (auto &v: r.x) v = (small ? c.dy(1, 8) : c.dy(5, 4)) + off; r.y = c.pick(lab); s.r.push_back(r); }
    s.d = mk(s.r); s.d.setType("Classification"); s.cls = s.d.classes();
    if (c.chance(60)) { const char *parts[] = {"a", "B", "7", "-", "setosa", "_", " ", ".", "data", "1.5", "plt", "x_y"}; for (size_t i = 0; i < s.cls.size(); i++) { std::string nm; do { nm = ""; long m = c.i(1, 3); for (long j = 0; j < m; j++) nm += parts[c.i(0, odd_names ? 11 : 4)]; } while (std::find(s.names.begin(), s.names.end(), nm) != s.names.end() || nm.find_first_not_of(" .") == std::string::npos); s.names.push_back(nm); } s.d.setClassesNames(s.names); } else s.names = s.d.classesNames();
    if (c.flip()) s.d.setName("set" + std::to_string(c.i(0, 9)));
    c.show() << str(s.r) << " classes " << vs(s.cls) << " named"; for (auto &x: s.names) c.show() << " '" << x << "'";
}
// one plotted file: 'file' using columns title 'name'
struct Entry { std::string file, cols, title; };
static std::vector<Entry> entries(std::string const &cmd) {
    std::vector<Entry> v; size_t p = cmd.rfind("plot "); if (p == std::string::npos) return v;
    for (;;) { size_t a = cmd.find('\'', p); if (a == std::string::npos) break; size_t b = cmd.find('\'', a + 1); if (b == std::string::npos) break; Entry e; e.file = cmd.substr(a + 1, b - a - 1); size_t next = cmd.find(',', b); std::string rest = cmd.substr(b + 1, next == std::string::npos ? next : next - b - 1); size_t t = rest.find("title '"); if (t != std::string::npos) { size_t u = rest.find('\'', t + 7); e.title = rest.substr(t + 7, u - t - 7); }
        size_t g = rest.find("using "); if (g != std::string::npos) { std::istringstream i(rest.substr(g + 6)); i >> e.cols; } v.push_back(e); if (next == std::string::npos) break; p = next + 1; }
    return v;
}
// the only folder made since `before` holds each class's points, in order
static std::string check_files(Set const &s, std::set<std::string> const &before) {
    std::vector<std::string> fresh; for (auto &f: folders()) if (!before.count(f)) fresh.push_back(f); REQUIRE(fresh.size() == 1, "plot-folder", fresh.size() << " new folders"); Names got; for (auto &e: fs::directory_iterator(fresh[0])) got.push_back(e.path().filename().string());
    REQUIRE(got.size() == s.cls.size(), "class-files", got.size() << " files for " << s.cls.size() << " classes");
    for (size_t k = 0; k < s.cls.size(); k++) { fs::path f = fs::path(fresh[0]) / (s.names[k] + ".plt"); REQUIRE(fs::exists(f), "class-file", "no file for the class '" << s.names[k] << "'"); std::vector<V> want; for (auto &r: s.r) if (r.y == s.cls[k]) want.push_back(r.x); auto t = table(f); REQUIRE(t.size() == want.size(), "class-points", "file of class " << s.cls[k] << " has " << t.size() << " points of " << want.size()); for (size_t i = 0; i < t.size(); i++) REQUIRE(same(t[i], want[i]), "class-values", "file of class " << s.cls[k] << " has " << vs(t[i]) << " for " << vs(want[i])); }
    return fresh[0];
}
static void check_entries(Set const &s, std::vector<Entry> const &e, std::string const &cols, std::string const &cmd) {
    REQUIRE(e.size() == s.cls.size(), "plotted-files", e.size() << " files for " << s.cls.size() << " classes in: " << cmd); std::set<std::string> seen; long last = LONG_MIN;
    for (auto &x: e) { auto it = std::find(s.names.begin(), s.names.end(), x.title); REQUIRE(it != s.names.end(), "title", "title '" << x.title << "' is no class in: " << cmd); int cl = s.cls[(size_t) (it - s.names.begin())]; REQUIRE(seen.insert(x.title).second, "twice", "class '" << x.title << "' is plotted twice in: " << cmd); REQUIRE(x.cols == cols, "columns", "columns " << x.cols << " instead of " << cols << " in: " << cmd);
        REQUIRE(cl > last, "class-order", "classes are not plotted by label in: " << cmd); last = cl; std::vector<V> want; for (auto &r: s.r) if (r.y == cl) want.push_back(r.x); auto t = table(x.file); bool eq = fs::exists(x.file) && t.size() == want.size(); for (size_t i = 0; eq && i < t.size(); i++) eq = same(t[i], want[i]); REQUIRE(eq, "title-file", "the file '" << x.file << "' does not hold the points of its class '" << x.title << "'"); }
}
static bool range(std::string const &cmd, const char *axis, double &lo, double &hi) { std::string k = std::string("set ") + axis + "range ["; size_t p = cmd.find(k); if (p == std::string::npos) return false; char *e; lo = strtod(cmd.c_str() + p + k.size(), &e); if (*e != ':') return false; hi = strtod(e + 1, &e); return *e == ']'; }
static void check_range(Rows const &r, size_t f, std::string const &cmd, const char *axis) { double lo, hi; REQUIRE(range(cmd, axis, lo, hi), "range", "no " << axis << " range in: " << cmd); for (auto &x: r) REQUIRE(x.x[f] >= lo - 1e-6 && x.x[f] <= hi + 1e-6, "range", "the value " << x.x[f] << " of a point lies outside the " << axis << " range [" << lo << ", " << hi << "]"); }
static std::string lines(std::string s) { std::replace(s.begin(), s.end(), ';', '\n'); return s; }
// c0 and the coefficients of a linear function 'name(...) = a*x + b*y + c'
static V linfun(std::string const &cmd, std::string const &name) { size_t p = cmd.find(name + " = "); if (p == std::string::npos) return {}; p += name.size() + 3; V v; const char *q = cmd.c_str() + p; for (;;) { char *e; double d = strtod(q, &e); if (e == q) return {}; v.push_back(d); if (*e == '*') e += 2; if (strncmp(e, " + ", 3)) break; q = e + 3; } return v; }
static bool coef(double a, double b) { return fabs(a - b) <= 1e-4 * fabs(b) + 1e-4; }
static void common(std::string const &cmd, std::string const &script, bool save, std::string const &title, std::string const &xl, std::string const &yl, bool whole = true) {
    if (whole) REQUIRE(script == lines(cmd), "script", "the returned script\n" << script << "\nis not what is plotted\n" << cmd); if (title.size()) REQUIRE(cmd.find("set title '" + title + "'") != std::string::npos, "plot-title", "no title '" << title << "' in: " << cmd); else REQUIRE(cmd.find("set title") == std::string::npos, "plot-title", "a title that was not asked for in: " << cmd);
    REQUIRE(cmd.find("set xlabel '" + xl + "'") != std::string::npos && cmd.find("set ylabel '" + yl + "'") != std::string::npos, "axis-label", "no axis labels " << xl << ", " << yl << " in: " << cmd); REQUIRE((cmd.find("set output '") != std::string::npos) == save, "output", "saving " << save << ": " << cmd); if (save) REQUIRE(cmd.find("set terminal png;") != std::string::npos, "format", "no terminal for the format in: " << cmd); else REQUIRE(cmd.find("set terminal dumb;") != std::string::npos, "terminal", "no terminal in: " << cmd);
}
struct Quiet { std::ostringstream junk; std::streambuf *o, *e; Quiet() { o = std::cout.rdbuf(junk.rdbuf()); e = std::cerr.rdbuf(junk.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Learner { std::function<double(double, double)> f; std::vector<int> names; int trained = 0; std::vector<V> q; V out; void setSamples(D const &d) { names = d.getFeaturesNames(); } bool train() { trained++; return true; } double evaluate(Pt const &p, bool = false) { q.push_back(p.X()); out.push_back(f(p[0], p[1])); return out.back(); } };
static void clutter(Ctx &c) { for (int i = 0; i < 3; i++) if (c.chance(60)) { std::string f = "plottemp" + std::to_string(c.i(0, 60)); fs::create_directories(f); std::ofstream(f + "/keep.plt") << "mine\n"; } std::ofstream("mine.plt") << "1 2\n"; std::ofstream("../mine.dat") << "3\n"; fs::create_directories("other/sub"); std::ofstream("other/sub/a.txt") << "4\n"; }
static void plot(Ctx &c, Vis &v, Set &s, bool &deep) {
    bool save = c.chance(30); double scale = c.chance(70) ? 1.0 : c.pick(V{1.25, 2}); std::string title = c.flip() ? "" : "T" + std::to_string(c.i(0, 9)), xl = "x" + std::to_string(c.i(0, 9)), yl = "y" + std::to_string(c.i(0, 9)); auto pm = c.perm(s.dim); int x = (int) pm[0], y = (int) pm[1], z = s.dim > 2 ? (int) pm[2] : 0; std::string out; sent.clear(); int kind = (int) c.i(0, s.dim > 2 ? 4 : 2); auto col = [](int a) { return std::to_string(a + 1); };
    mltk::Solution sol; V w(s.dim); for (auto &t: w) { t = c.dy(4, 4); if (fabs(t) < 0.25) t = 1; } sol.w = w; sol.bias = c.dy(4, 4); sol.norm = c.i(1, 4); sol.margin = c.flip() ? 0 : c.i(1, 8) / 4.0; c.show() << "; plot kind " << kind << " of features " << x << " " << y << " " << z << (save ? " saved" : "") << " scale " << scale;
    if (kind == 0) { { Quiet k; out = v.plot2D(x, y, save, scale, title, "png", xl, yl); } REQUIRE(sent.size() == 1, "commands", sent.size() << " commands"); common(sent[0], out, save, title, xl, yl); check_entries(s, entries(sent[0]), col(x) + ":" + col(y), sent[0]); }
    else if (kind == 1) { { Quiet k; out = v.plot2DwithHyperplane(x, y, sol, save, scale, title, "png", xl, yl); } REQUIRE(sent.size() == 1, "commands", sent.size() << " commands"); common(sent[0], out, save, title, xl, yl); check_entries(s, entries(sent[0].substr(0, sent[0].find(", f(x)"))), col(x) + ":" + col(y), sent[0]); c.show() << " hyperplane " << vs(w) << " + " << sol.bias << " margin " << sol.margin * sol.norm;
        double m = sol.margin * sol.norm; const char *fn[] = {"f(x)", "g(x)", "h(x)"}; double b[] = {sol.bias, sol.bias + m, sol.bias - m}; for (int k = 0; k < (sol.margin != 0 ? 3 : 1); k++) { V g = linfun(sent[0], fn[k]); REQUIRE(g.size() == 2, "line", "no line " << fn[k] << " in: " << sent[0]); REQUIRE(coef(g[0], -w[x] / w[y]) && coef(g[1], -b[k] / w[y]), "line", fn[k] << " has the coefficients " << vs(g) << " instead of " << -w[x] / w[y] << ", " << -b[k] / w[y]); } }
    else if (kind == 2) {
        if (x == y) return; Learner l; double a = c.dy(3, 2), b = c.dy(3, 2), t = c.dy(3, 2); auto cls = s.cls; l.f = [=](double p, double q) { return a * p + b * q > t ? cls[0] : cls.back(); }; size_t grid = (size_t) c.i(2, 6); bool is_trained = c.flip(); c.show() << " decision surface";
        { Quiet k; out = v.plotDecisionSurface2D(l, x, y, is_trained, grid, save, scale, title, "png", xl, yl); } REQUIRE(sent.size() == 1, "commands", sent.size() << " commands"); common(sent[0], out, save, title, xl, yl); auto e = entries(sent[0]); REQUIRE(e.size() == s.cls.size() + 1, "plotted-files", e.size() << " files in: " << sent[0]); REQUIRE(l.trained == (is_trained ? 0 : 1), "trains", "the learner was trained " << l.trained << " times");
        auto g = table(e[0].file); REQUIRE(g.size() == grid * grid && l.q.size() == g.size(), "grid", g.size() << " grid points, " << l.q.size() << " evaluations for a grid of " << grid); REQUIRE(l.names.size() == 2, "features", "the learner has " << l.names.size() << " features"); int px = l.names[0] == x + 1 ? 0 : 1; REQUIRE(l.names[px] == x + 1 && l.names[1 - px] == y + 1, "features", "the learner sees features " << vs(l.names));
        double lo[2], hi[2]; REQUIRE(range(sent[0], "x", lo[0], hi[0]) && range(sent[0], "y", lo[1], hi[1]), "range", "no ranges in: " << sent[0]); for (size_t i = 0; i < g.size(); i++) { REQUIRE(g[i].size() == 3 && near(g[i][0], l.q[i][px]) && near(g[i][1], l.q[i][1 - px]) && g[i][2] == l.out[i], "grid-values", "grid point " << vs(g[i]) << " was evaluated at " << vs(l.q[i]) << " (features " << vs(l.names) << ") as " << l.out[i]); for (int k = 0; k < 2; k++) REQUIRE(g[i][k] >= lo[k] - 1e-4 * (1 + fabs(lo[k])) && g[i][k] <= hi[k] + 1e-4 * (1 + fabs(hi[k])), "grid-range", "grid point " << vs(g[i]) << " outside the range [" << lo[k] << ", " << hi[k] << "]"); }
        for (int k = 0; k < 2; k++) { double mn = INFINITY, mx = -INFINITY; for (auto &p: g) { mn = std::min(mn, p[k]); mx = std::max(mx, p[k]); } REQUIRE(near(mn, lo[k]) && near(mx, hi[k]), "grid-extent", "the grid covers [" << mn << ", " << mx << "] of the range [" << lo[k] << ", " << hi[k] << "]"); }
        std::set<std::string> seen; for (size_t k = 1; k < e.size(); k++) { auto it = std::find(s.names.begin(), s.names.end(), e[k].title); REQUIRE(it != s.names.end() && seen.insert(e[k].title).second, "title", "title '" << e[k].title << "' in: " << sent[0]); int cl = s.cls[(size_t) (it - s.names.begin())]; std::vector<V> want; for (auto &r: s.r) if (r.y == cl) want.push_back({r.x[(size_t) x], r.x[(size_t) y], r.y}); auto t2 = table(e[k].file); bool eq = t2.size() == want.size(); for (size_t i = 0; eq && i < want.size(); i++) eq = same(t2[i], want[i]); REQUIRE(eq, "title-file", "the file '" << e[k].file << "' does not hold the points of its class '" << e[k].title << "'"); }
        c.label("decision surface"); }
    else if (kind == 3) { { Quiet k; out = v.plot3D(x, y, z, save, scale, title, "png", xl, yl, "zz"); } REQUIRE(sent.size() == 1, "commands", sent.size() << " commands"); common(sent[0], out, save, title, xl, yl, false); check_entries(s, entries(sent[0]), col(x) + ":" + col(y) + ":" + col(z), sent[0]); check_range(s.r, (size_t) z, sent[0], "z"); c.label("3D"); }
    else { { Quiet k; out = v.plot3DwithHyperplane(x, y, z, sol, save, scale, title, "png", xl, yl, "zz"); } REQUIRE(sent.size() == 1, "commands", sent.size() << " commands"); common(sent[0], out, save, title, xl, yl, false); std::string part = sent[0].substr(0, sent[0].find("g(x,y) notitle")); check_entries(s, [&] { auto e = entries(part); if (!e.empty() && e.back().file.empty()) e.pop_back(); return e; }(), col(x) + ":" + col(y) + ":" + col(z), sent[0]);
        double m = sol.margin * sol.norm; const char *fn[] = {"f(x,y)", "g(x,y)", "h(x,y)"}; double b[] = {sol.bias, sol.bias + m, sol.bias - m}; for (int k = 0; k < 3; k++) { V g = linfun(sent[0], fn[k]); REQUIRE(g.size() == 3, "plane", "no plane " << fn[k] << " in: " << sent[0]); REQUIRE(coef(g[0], -w[x] / w[z]) && coef(g[1], -w[y] / w[z]) && coef(g[2], -b[k] / w[z]), "plane", fn[k] << " has the coefficients " << vs(g)); } check_range(s.r, (size_t) z, sent[0], "z"); c.label("3D"); }
    check_range(s.r, (size_t) x, sent[0], "x"); check_range(s.r, (size_t) y, sent[0], "y"); deep = true;
}
#define NT "two or more classes and three or more points, at least one plot"
LAW(classification, 4, NT) {
    Box box; clutter(c); auto before = snapshot(); auto dirs = folders(); bool shared = c.flip(), deep = false, nt = false; {
        Set s; gen(c, s, 2, true); D orig = s.d; std::unique_ptr<Vis> v; { Quiet k; if (c.flip()) v = std::make_unique<Vis>(s.d, shared); else { v = std::make_unique<Vis>(shared); v->setSample(s.d); } } v->setTerminal("dumb"); check_files(s, dirs); long ops = c.len(0, 4); Set s2; bool changed = false;
        for (long t = 0; t < ops; t++) { if (!changed && c.chance(25)) { c.show() << "; then the data set "; gen(c, s2, 2, true); { Quiet k; v->setSample(s2.d); } changed = true; check_files(s2, dirs); c.label("data set changed"); } Set &cur = changed ? s2 : s; plot(c, *v, cur, deep); if (deep && cur.cls.size() >= 2 && cur.r.size() >= 3) nt = true; REQUIRE(rows(cur.d) == rows(mk(cur.r)), "data", "plotting changed the data"); }
        { Quiet k; v.reset(); }
    }
    auto after = snapshot(); for (auto &x: before) { REQUIRE(after.count(x.first), "removed", "'" << x.first << "', which is not of the plot, is removed"); REQUIRE(after[x.first] == x.second, "overwritten", "'" << x.first << "' is overwritten"); } for (auto &x: after) REQUIRE(before.count(x.first), "left", "'" << x.first << "' is left behind"); if (nt) c.nontrivial();
}
LAW(kept, 1, NT) {   // two plots at once, files kept when asked to
    Box box; clutter(c); auto before = snapshot(); auto dirs = folders(); Set a, b; gen(c, a, 2, true); c.show() << "; and "; gen(c, b, 2, true); bool ka = c.flip(), kb = c.flip(), deep = false; c.show() << " kept " << ka << kb; std::vector<std::string> got;
    { Quiet k0; auto v = std::make_unique<Vis>(a.d, false, ka); std::string fa = check_files(a, dirs); auto d2 = dirs; d2.insert(fa); auto w = std::make_unique<Vis>(b.d, false, kb); std::string fb = check_files(b, d2); REQUIRE(fa != fb, "shared-folder", "two plots share the folder " << fa); v->setTerminal("dumb"); w->setTerminal("dumb"); if (c.flip()) plot(c, *v, a, deep); if (c.flip()) plot(c, *w, b, deep); if (c.flip()) { v.reset(); REQUIRE(fs::exists(fb), "removed", "the folder of the other plot is removed"); plot(c, *w, b, deep); w.reset(); } else { w.reset(); REQUIRE(fs::exists(fa), "removed", "the folder of the other plot is removed"); plot(c, *v, a, deep); v.reset(); } }
    auto after = snapshot(); for (auto &x: before) { REQUIRE(after.count(x.first), "removed", "'" << x.first << "', which is not of the plot, is removed"); REQUIRE(after[x.first] == x.second, "overwritten", "'" << x.first << "' is overwritten"); } for (auto &f: folders()) if (!dirs.count(f)) got.push_back(f); REQUIRE(got.size() == (size_t) ka + kb, "left", got.size() << " folders are left, " << ka + kb << " should be kept"); std::set<std::string> mine(got.begin(), got.end()); for (auto &x: after) if (!before.count(x.first)) { auto p = fs::path(x.first).lexically_normal(); bool in = false; for (auto &f: got) in = in || x.first.find("/" + f) != std::string::npos; REQUIRE(in, "left", "'" << x.first << "' is left behind"); }
    for (Set *s: {&a, &b}) if (s == &a ? ka : kb) { bool found = false; for (auto &f: got) { bool all = true; for (size_t k = 0; k < s->cls.size() && all; k++) { fs::path p = fs::path(f) / (s->names[k] + ".plt"); std::vector<V> want; for (auto &r: s->r) if (r.y == s->cls[k]) want.push_back(r.x); auto t = table(p); all = fs::exists(p) && t.size() == want.size(); for (size_t i = 0; all && i < t.size(); i++) all = same(t[i], want[i]); } found = found || all; } REQUIRE(found, "not-kept", "no kept folder holds the points of a data set"); }
    if (deep && a.cls.size() + b.cls.size() >= 3) c.nontrivial();
}
LAW(regression, 2, "three or more points, at least one plot") {
    Box box; clutter(c); auto before = snapshot(); auto dirs = folders(); bool nt = false; {
        size_t dim = (size_t) c.i(1, 4), n = (size_t) c.len(1, 10); Rows r; for (size_t i = 0; i < n; i++) { Row p; p.x.resize(dim); for (auto &v: p.x) v = c.dy(5, 4); p.y = c.dy(5, 4); r.push_back(p); } D d; d.setType("Regression"); for (auto &p: r) d.insertPoint(point(p), true); if (c.flip()) d.setName("set"); c.show() << "regression data " << str(r); auto col = [](size_t a) { return std::to_string(a + 1); };
        Quiet q; Vis v(d, c.flip()); v.setTerminal("dumb"); std::vector<std::string> fresh; for (auto &f: folders()) if (!dirs.count(f)) fresh.push_back(f); REQUIRE(fresh.size() == 1, "plot-folder", fresh.size() << " new folders"); long ops = c.len(1, 3);
        for (long t = 0; t < ops; t++) {
            int kind = (int) c.i(0, dim > 1 ? 3 : 1); auto pm = c.perm(dim); size_t x = pm[0], y = dim > 1 ? pm[1] : 0; bool save = c.chance(30); std::string title = c.flip() ? "" : "T" + std::to_string(c.i(0, 9)); mltk::Solution s; V w(dim); for (auto &u: w) u = c.dy(4, 4); s.w = w; s.bias = c.dy(4, 4); sent.clear(); std::string out; c.show() << "; plot kind " << kind << " of features " << x << " " << y;
            if (kind == 0) out = v.plot1DRegresion((int) x, save, 1.0, title, "png", "xx", "yy"); else if (kind == 1) out = v.plot1DRegresionHyperplane((int) x, s, save, 1.0, title, "png", "xx", "yy"); else if (kind == 2) out = v.plot2DRegresion((int) x, (int) y, save, 1.0, title, "png", "xx", "yy", "zz"); else out = v.plot2DRegresionHyperplane((int) x, (int) y, s, save, 1.0, title, "png", "xx", "yy", "zz");
            REQUIRE(sent.size() == 1, "commands", sent.size() << " commands"); common(sent[0], out, save, title, "xx", "yy", false); check_range(r, x, sent[0], "x"); size_t cut = sent[0].rfind(", f("); std::string part = kind % 2 ? sent[0].substr(0, cut) : sent[0]; auto e = entries(part); REQUIRE(e.size() == 1, "plotted-files", e.size() << " files in: " << sent[0]); std::string want = kind < 2 ? col(x) + ":" + col(dim) : col(x) + ":" + col(y) + ":" + col(dim); REQUIRE(e[0].cols == want, "columns", "columns " << e[0].cols << " instead of " << want << " in: " << sent[0]);
            auto g = table(e[0].file); REQUIRE(g.size() == n, "points", g.size() << " points of " << n << " in the file"); for (size_t i = 0; i < n; i++) { V row = r[i].x; row.push_back(r[i].y); REQUIRE(same(g[i], row), "values", "the file has " << vs(g[i]) << " for " << vs(row)); }
            if (kind == 1) { V f = linfun(sent[0], "f(x)"); REQUIRE(f.size() == 2 && coef(f[0], w[x]) && coef(f[1], s.bias), "line", "f(x) has the coefficients " << vs(f) << " for " << vs(w) << " + " << s.bias); } if (kind == 3) { V f = linfun(sent[0], "f(x,y)"); REQUIRE(f.size() == 3 && coef(f[0], w[x]) && coef(f[1], w[y]) && coef(f[2], s.bias), "plane", "f(x,y) has the coefficients " << vs(f) << " for " << vs(w) << " + " << s.bias); }
            if (n >= 3) nt = true;
        }
    }
    auto after = snapshot(); for (auto &x: before) { REQUIRE(after.count(x.first), "removed", "'" << x.first << "', which is not of the plot, is removed"); REQUIRE(after[x.first] == x.second, "overwritten", "'" << x.first << "' is overwritten"); } for (auto &x: after) REQUIRE(before.count(x.first), "left", "'" << x.first << "' is left behind"); if (nt) c.nontrivial();
}
// plots of vectors: the file the script names holds them
LAW(vectors, 1, "three or more points") {
    Box box; size_t n = (size_t) c.len(1, 12); V x(n), y(n), z(n); for (size_t i = 0; i < n; i++) { x[i] = c.dy(5, 4); y[i] = c.dy(5, 4); z[i] = c.dy(5, 4); } bool three = c.flip(); std::string title = c.flip() ? "" : "T" + std::to_string(c.i(0, 9)); c.show() << "vectors " << vs(x) << " " << vs(y) << " " << (three ? vs(z) : std::string()); Quiet q; Vis v(c.flip()); v.setTerminal("dumb"); sent.clear(); std::string out = three ? v.plot3D(Pt(x), Pt(y), Pt(z), false, 1.0, title, "png", "xx", "yy", "zz") : v.plot2D(Pt(x), Pt(y), false, 1.0, title, "png", "xx", "yy");
    REQUIRE(sent.size() == 1, "commands", sent.size() << " commands"); common(sent[0], out, false, title, "xx", "yy"); auto e = entries(sent[0]); REQUIRE(e.size() == 1 && e[0].cols == (three ? "1:2:3" : "1:2"), "columns", sent[0]); auto g = table(e[0].file); REQUIRE(g.size() == n, "points", g.size() << " points of " << n); for (size_t i = 0; i < n; i++) { V r{x[i], y[i]}; if (three) r.push_back(z[i]); REQUIRE(same(g[i], r), "values", "the file has " << vs(g[i]) << " for " << vs(r)); } double lo, hi; if (range(sent[0], "x", lo, hi)) for (double a: x) REQUIRE(a >= lo - 1e-6 && a <= hi + 1e-6, "range", a << " lies outside the range [" << lo << ", " << hi << "]"); if (n >= 3) c.nontrivial();
}
