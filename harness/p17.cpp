#include "common.hpp"
#include "ufjfmltk/core/Kernel.hpp"
using namespace cm;
using LD = long double;
using K = mltk::Kernel<double>;
struct Cfg { int type; double param; int fn; };
static double custom(int fn, V const &a, V const &b, double p) {
    LD s = 0; for (size_t i = 0; i < a.size(); i++) s += fn == 0 ? std::min(a[i], b[i]) : fn == 1 ? (LD) a[i] * b[i] + p : fabsl((LD) a[i] - b[i]) * p;
    return (double) s;
}
static double ref(Cfg const &k, V const &a, V const &b, int skip = -1) {
    LD s = 0;
    if (k.type == mltk::CUSTOM) return custom(k.fn, a, b, k.param);
    for (size_t i = 0; i < a.size(); i++) if ((int) i != skip) s += k.type == mltk::GAUSSIAN ? ((LD) a[i] - b[i]) * ((LD) a[i] - b[i]) : (LD) a[i] * b[i];
    if (k.type == mltk::INNER_PRODUCT) return (double) s;
    if (k.type == mltk::POLYNOMIAL) return (double) (k.param > 1 ? powl(s, k.param) : s);
    return (double) expl(-s * k.param);
}
static Cfg gen_cfg(Ctx &c) {
    Cfg k; k.type = (int) c.i(0, 3); k.fn = (int) c.i(0, 2);
    k.param = k.type == mltk::GAUSSIAN ? (c.flip() ? c.real(0.01, 2) : (double) c.i(1, 5)) : (double) c.i(0, 4);
    return k;
}
static Rows gen(Ctx &c, size_t dim) {
    auto cls = c.chance(80) ? std::vector<int>{1, -1} : std::vector<int>{1, 2, 3};
    Rows r = gen_rows(c, (size_t) c.lenw(1, 8, 70), dim, cls, (int) c.i(0, 1));
    for (auto &x: r) x.alpha = c.flip() ? 0 : c.chance(50) ? (double) c.i(1, 4) : c.real(0, 2);
    return r;
}
static double scale(Cfg const &k, Rows const &r) {
    double m = 1; for (auto &x: r) for (auto &y: r) m = std::max(m, std::fabs(ref(k, x.x, y.x))); return m;
}
static std::string show(Cfg const &k) { std::ostringstream o; o << "type " << k.type << " param " << k.param; if (k.type == 3) o << " fn " << k.fn; return o.str(); }
LAW(history, 8, "at least three points and two evaluations") {
    size_t dim = (size_t) c.wide(1, 4, 30);
    Cfg k = gen_cfg(c); Rows r = gen(c, dim);
    auto data = std::make_shared<D>(mk(r));
    K ker(k.type, k.param);
    auto f = [&](Pt &a, Pt &b, double p) { return custom(k.fn, a.X(), b.X(), p); };
    // what the matrix currently holds
    bool have = false; Rows hr; Cfg hk;
    auto compute = [&] {
        if (c.flip()) ker.compute(data, k.type == mltk::CUSTOM ? std::function<double(Pt &, Pt &, double)>(f) : nullptr);
        else ker(*data, k.type == mltk::CUSTOM ? std::function<double(Pt &, Pt &, double)>(f) : nullptr);
    };
    c.show() << show(k) << " on " << str(r);
    int ops = (int) c.wide(1, 8, 40); size_t evals = 0, big = 0;
    bool fresh = true;       // recomputation pending
    while (ops-- > 0) {
        switch (c.draw(8)) {
            case 0: { r = gen(c, dim); data = std::make_shared<D>(mk(r)); ker.recompute(); fresh = true; c.show() << "; data " << str(r); break; }
            case 1: { k = gen_cfg(c); ker.setType(k.type); ker.setParam(k.param); fresh = true; c.show() << "; " << show(k); break; }
            case 2: { if (k.type == mltk::CUSTOM) break; k.param = k.type == mltk::GAUSSIAN ? c.real(0.01, 2) : (double) c.i(0, 4); ker.setParam(k.param); fresh = true; c.show() << "; " << show(k); break; }
            case 3: case 4: case 5: {
                compute(); hr = r; hk = k; have = true; fresh = false; evals++; big = std::max(big, r.size());
                c.show() << "; compute";
                REQUIRE(ker.getType() == k.type && ker.getParam() == k.param, "settings", "type " << ker.getType() << " param " << ker.getParam());
                auto m = ker.getKernelMatrix(); auto mp = ker.getKernelMatrixPointer();
                REQUIRE(*mp == m && ker.size() == r.size() && m.size() == r.size(), "size", "matrix of " << m.size() << " rows for " << r.size() << " points");
                double sc = scale(k, r);
                for (size_t i = 0; i < r.size(); i++) {
                    REQUIRE(m[i].size() == r.size() && ker[i] == m[i], "row", "row " << i << " has " << m[i].size() << " entries");
                    for (size_t j = 0; j < r.size(); j++) {
                        double w = ref(k, r[i].x, r[j].x);
                        REQUIRE(close(m[i][j], w, 1e-9, 1e-12 * sc), "entry", "entry (" << i << "," << j << ") is " << m[i][j] << " but the kernel function is " << w);
                        REQUIRE(m[i][j] == m[j][i], "symmetric", "entries (" << i << "," << j << ") and its mirror differ");
                        if (k.type == mltk::GAUSSIAN) REQUIRE(m[i][j] >= 0 && m[i][j] <= 1 && (i != j || m[i][j] == 1), "gaussian", "entry (" << i << "," << j << ") is " << m[i][j]);
                    }
                }
                if (k.type != mltk::CUSTOM) {
                    V v(r.size()); LD q = 0, n = 0; for (auto &x: v) x = (double) c.z(3);
                    for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) { q += (LD) v[i] * v[j] * m[i][j]; n += fabsl((LD) v[i] * v[j] * m[i][j]); }
                    REQUIRE(q >= -1e-9L * (n + 1), "psd", "quadratic form " << (double) q << " with " << vs(v));
                }
                REQUIRE(rows(*data) == r, "data", "computing changed the dataset");
                break;
            }
            case 6: {
                if (k.type == mltk::CUSTOM && (!have || fresh)) break;   // the function is only known after a computation
                auto h = ker.generateMatrixH(data); evals++;
                c.show() << "; H";
                double sc = scale(k, r) * 9;
                REQUIRE(h->size() == r.size(), "H-size", "label-weighted matrix of " << h->size() << " rows");
                for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r.size(); j++) {
                    REQUIRE((*h)[i].size() == r.size(), "H-row", "row " << i << " has " << (*h)[i].size() << " entries");
                    double w = ref(k, r[i].x, r[j].x) * r[i].y * r[j].y;
                    REQUIRE(close((*h)[i][j], w, 1e-9, 1e-12 * sc), "H-entry", "label-weighted entry (" << i << "," << j << ") is " << (*h)[i][j] << " want " << w);
                }
                break;
            }
            case 7: {
                if (k.type == mltk::CUSTOM) break;
                int skip = (int) c.i(0, (long) dim - 1);
                auto h = ker.generateMatrixHwithoutDim(data, skip); evals++;
                c.show() << "; H without " << skip;
                REQUIRE(h->size() == r.size(), "Hd-size", "matrix of " << h->size() << " rows");
                for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r.size(); j++) {
                    REQUIRE((*h)[i].size() == r.size(), "Hd-row", "row " << i << " has " << (*h)[i].size() << " entries");
                    double w = ref(k, r[i].x, r[j].x, skip) * r[i].y * r[j].y;
                    REQUIRE(close((*h)[i][j], w, 1e-9, 1e-9), "Hd-entry", "label-weighted entry (" << i << "," << j << ") without dimension " << skip << " is " << (*h)[i][j] << " want " << w);
                }
                break;
            }
            default: {
                if (!have || fresh) break;
                LD q = 0, n = 0;
                for (auto &a: hr) for (auto &b: hr) { LD t = (LD) a.alpha * b.alpha * a.y * b.y * ref(hk, a.x, b.x); q += t; n += fabsl(t); }
                c.show() << "; norms";
                if (q < 0) break;
                double f1 = ker.featureSpaceNorm(data), f2 = ker.norm(*data); evals++;
                if (q > 1e-9L * n) {
                    REQUIRE(close(f1 * f1, (double) q, 1e-9, 1e-9 * (double) n), "feature-norm", "squared feature-space norm " << f1 * f1 << " but the quadratic form is " << (double) q);
                    REQUIRE(close(f2 * f2, (double) q, 1e-9, 1e-9 * (double) n), "norm", "squared norm " << f2 * f2 << " but the quadratic form is " << (double) q);
                }
                break;
            }
        }
    }
    if (big >= 3 && evals >= 2) c.nontrivial();
    c.label("type " + std::to_string(k.type));
}
LAW(function, 3, "two different points") {
    size_t dim = (size_t) c.wide(1, 6, 60);
    Cfg k = gen_cfg(c); if (k.type == mltk::CUSTOM) k.type = 0;
    Rows r = gen_rows(c, 2, dim, {1});
    for (auto &x: r) for (auto &v: x.x) v = std::max(-100.0, std::min(100.0, v));
    c.show() << show(k) << " " << str(r);
    K ker(k.type, k.param);
    auto a = std::make_shared<Pt>(point(r[0])), b = std::make_shared<Pt>(point(r[1]));
    double w = ref(k, r[0].x, r[1].x), m = 1; for (auto &x: r) for (double v: x.x) m += std::fabs(v) * 200;
    if (k.type == mltk::POLYNOMIAL && k.param > 1) m = std::pow(m, k.param);
    REQUIRE(close(ker.function(a, b, (int) dim), w, 1e-7, 1e-10 * m), "function", "kernel function " << ker.function(a, b, (int) dim) << " want " << w);
    REQUIRE(close(ker.function(b, a, (int) dim), ker.function(a, b, (int) dim), 1e-9, 1e-12 * m), "function-sym", "exchanged arguments differ");
    REQUIRE(close(ker(*a, *b), w, 1e-7, 1e-10 * m), "call", "call operator " << ker(*a, *b) << " want " << w);
    int s = (int) c.i(0, (long) dim - 1);
    double ws = ref(k, r[0].x, r[1].x, s);
    REQUIRE(close(ker.functionWithoutDim(a, b, s, (int) dim), ws, 1e-7, 1e-10 * m), "function-without", "kernel function without " << s << " is " << ker.functionWithoutDim(a, b, s, (int) dim) << " want " << ws);
    REQUIRE(a->X() == r[0].x && b->X() == r[1].x, "operand", "a point was changed");
    if (r[0].x != r[1].x) c.nontrivial();
}
