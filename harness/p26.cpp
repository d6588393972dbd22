#include "dual.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
#include "ufjfmltk/classifier/SMO.hpp"
#include "ufjfmltk/classifier/OneVsOne.hpp"
#include "ufjfmltk/classifier/OneVsAll.hpp"
using namespace cm;
namespace K = mltk::classifier;
// a binary learner that remembers the data it is trained on and decides by an integer hyperplane derived from it
struct Seen { Rows r; std::vector<int> cls; V w; double b; int cfg; };
static std::vector<Seen> seen;
static double hyper(Seen const &s, V const &x) { double f = s.b; for (size_t j = 0; j < x.size(); j++) f += s.w[j] * x[j]; return f; }
template<typename T> class Probe : public K::PrimalClassifier<T> {
public:
    int cfg = 0; Seen me;
    Probe() = default;
    bool train() override {
        me = Seen(); me.r = rows(*this->samples); me.cls = this->samples->classes(); me.cfg = cfg;
        uint64_t h = (uint64_t) cfg * 0x9e3779b97f4a7c15ull + 7;
        for (auto &p: sorted(noid(me.r))) for (double v: p.x) { h ^= (uint64_t) (int64_t) std::llround(v * 8 * (p.y + 2)); h *= 0x100000001b3ull; h ^= h >> 29; }
        for (size_t j = 0; j < this->samples->dim(); j++) { h = h * 6364136223846793005ull + 1442695040888963407ull; me.w.push_back((double) ((int64_t) (h >> 40) % 7) - 3); }
        h = h * 6364136223846793005ull + 1442695040888963407ull; me.b = (double) ((int64_t) (h >> 40) % 9) - 4;
        seen.push_back(me);
        return h & 4096;
    }
    double evaluate(const mltk::Point<T> &p, bool raw = false) override { double f = hyper(me, p.X()); return raw ? f : f >= 0 ? 1 : -1; }
};
static Rows gen(Ctx &c, size_t k, size_t dim) {
    auto cls = gen_classes(c, k); size_t n = (size_t) c.lenw((long) k, 20, 100);
    return gen_rows_all(c, n, dim, cls, (int) c.i(0, 1));
}
static Rows binary(Rows const &r, double a, double b, bool rest) { Rows o; for (auto x: r) if (rest || x.y == a || x.y == b) { x.y = x.y == a ? 1 : -1; o.push_back(x); } return o; }
static std::set<double> labels(Rows const &r) { std::set<double> s; for (auto &x: r) s.insert(x.y); return s; }
static std::multiset<int> ms(D const &d) { auto c = d.classes(); return std::multiset<int>(c.begin(), c.end()); }
static V query(Ctx &c, Rows const &r, size_t dim) { if (c.flip()) return r[(size_t) c.draw(r.size() - 1)].x; V x(dim); for (auto &v: x) v = (double) c.z(6); return x; }
LAW(probe, 4, "three or more classes and two or more dimensions") {
    bool ovo = c.flip(); size_t dim = (size_t) c.wide(1, 3, 12);
    Rows r = gen(c, (size_t) c.wide(1, 5, 12), dim); D d = mk(r);
    Probe<double> p; p.cfg = (int) c.i(0, 50); p.setVerbose(0); bool own = ovo && c.chance(30); if (own) p.setSamples(d);
    c.show() << (ovo ? "one-versus-one" : "one-versus-all") << " on " << str(r, 24);
    std::unique_ptr<K::OneVsOne<double>> o; std::unique_ptr<K::OneVsAll<double>> a;
    if (ovo) o = own ? std::make_unique<K::OneVsOne<double>>(p) : std::make_unique<K::OneVsOne<double>>(d, p); else a = std::make_unique<K::OneVsAll<double>>(d, p);
    p.cfg = 99;                                          // the wrapper has its own copies
    auto train = [&] { seen.clear(); return ovo ? o->train() : a->train(); };
    auto eval = [&](V const &x, bool raw) { Pt q(x); double y = ovo ? o->evaluate(q, raw) : a->evaluate(q, raw); REQUIRE(q.X() == x, "query", "the query was changed"); return y; };
    auto check = [&](Rows const &tr) {
        auto lab = labels(tr); std::vector<double> L(lab.begin(), lab.end());
        std::map<std::pair<double, double>, int> pairs; std::map<double, int> single;
        std::vector<std::pair<double, double>> what;
        for (auto &s: seen) {
            REQUIRE(s.cfg != 99, "copy", "a base learner shares the state of the given learner");
            bool found = false;
            Rows got = sorted(noid(s.r));
            for (double x: L) if (!found) {
                if (!ovo) { if (got == sorted(noid(binary(tr, x, 0, true)))) { bool dup = single[x] > 0; if (dup) continue; single[x]++; what.push_back({x, x}); found = true; } continue; }
                for (double y: L) if (x != y && !found && !pairs[{x, y}] && got == sorted(noid(binary(tr, x, y, false)))) { pairs[{x, y}]++; what.push_back({x, y}); found = true; }
            }
            REQUIRE(found, "training-set", "a base learner was trained on " << str(s.r, 24) << ", which is not " << (ovo ? "a pair of classes" : "a class against the rest"));
            std::set<int> cl(s.cls.begin(), s.cls.end());
            for (auto &q: s.r) REQUIRE(cl.count((int) q.y), "binary-classes", "the binary data lists classes " << vs(s.cls));
            REQUIRE(cl.size() <= 2, "binary-classes-count", "the binary data lists classes " << vs(s.cls));
        }
        if (ovo) { for (double x: L) for (double y: L) if (x < y) REQUIRE((pairs[std::make_pair(x, y)] + pairs[std::make_pair(y, x)] >= 1), "pair", "no learner for the classes " << x << " and " << y); }
        else { for (double x: L) REQUIRE(single[x] == 1, "single", single[x] << " learners for class " << x); }
        for (int t = 0; t < 6; t++) {
            V x = query(c, tr, dim); std::map<double, double> score;
            for (double l: L) score[l] = ovo ? 0 : -1e300;
            for (size_t i = 0; i < seen.size(); i++) {
                double f = hyper(seen[i], x);
                if (ovo) score[f >= 0 ? what[i].first : what[i].second]++; else score[what[i].first] = f;
            }
            double best = -1e300; for (auto &s: score) best = std::max(best, s.second);
            double y = eval(x, c.flip());
            REQUIRE(score.count(y), "class", "predicted " << y << ", which is no class of the training data");
            std::ostringstream sc; for (auto &s: score) sc << s.first << ":" << s.second << " ";
            REQUIRE(score[y] == best, "vote", "predicted " << y << " at " << vs(x) << " but the scores are " << sc.str());
        }
    };
    Rows before = rows(d);
    train();
    REQUIRE(rows(d) == before, "data", "training changed the caller's data");
    auto inner = ovo ? o->getSamples() : a->getSamples();
    REQUIRE(rows(*inner) == before && ms(d) == ms(*inner), "samples", "training changed the wrapper's samples");
    check(r);
    if (c.chance(50)) {
        Rows r2 = gen(c, (size_t) c.wide(1, 5, 12), dim); D d2 = mk(r2);
        c.show() << " then on " << str(r2, 24);
        if (ovo) o->setSamples(d2); else a->setSamples(d2);
        train(); check(r2); c.label(labels(r2).size() == labels(r).size() ? "retrained, same number of classes" : "retrained, other number of classes");
    }
    c.label(ovo ? "one versus one" : "one versus all");
    if (labels(r).size() > 2 && dim > 1) c.nontrivial();
}
// real learners: the same binary problems trained separately
template<template<typename> class L> static void compare(Ctx &c, L<double> &proto, Rows const &r, bool ovo, Ker const &ker, std::function<void(L<double> &)> conf) {
    auto fresh = [&] { return new mltk::Kernel<double>(ker.kt(), ker.param); };
    D d = mk(r); conf(proto); Rows before = rows(d);
    K::OneVsOne<double> o(d, proto); K::OneVsAll<double> a(d, proto);
    if (ovo) o.train(); else a.train();
    REQUIRE(rows(d) == before, "data", "training changed the caller's data");
    auto lab = labels(r); std::vector<double> cls; for (int y: d.classes()) cls.push_back(y);
    struct Ref { double a, b; std::unique_ptr<L<double>> l; };
    std::vector<Ref> ref;
    for (double x: cls) {
        if (!ovo) { Ref f{x, x, std::make_unique<L<double>>(proto)}; D q = mk(binary(r, x, 0, true)); f.l->setSamples(q); if (auto k = dynamic_cast<K::DualClassifier<double> *>(f.l.get())) { k->setKernel(fresh()); } f.l->train(); ref.push_back(std::move(f)); continue; }
        for (double y: cls) if (x != y) { Ref f{x, y, std::make_unique<L<double>>(proto)}; D q = mk(binary(r, x, y, false)); f.l->setSamples(q); if (auto k = dynamic_cast<K::DualClassifier<double> *>(f.l.get())) k->setKernel(fresh()); f.l->train(); ref.push_back(std::move(f)); }
    }
    for (int t = 0; t < 6; t++) {
        V x = query(c, r, r[0].x.size()); Pt p(x); std::map<double, double> score; double big = 0; bool close_call = false;
        for (auto &f: ref) {
            double v = f.l->evaluate(p, true); big = std::max(big, std::fabs(v));
            if (ovo) { score[f.a]; score[f.b]; if (std::fabs(v) < 1e-9) close_call = true; score[v >= 0 ? f.a : f.b]++; } else score[f.a] = v;
        }
        if (!std::isfinite(big) || big > 1e30) { c.label("diverged"); continue; }
        double y = ovo ? o.evaluate(p) : a.evaluate(p), best = -1e300; for (auto &s: score) best = std::max(best, s.second);
        REQUIRE(lab.count(y), "class", "predicted " << y << ", which is no class of the training data");
        std::ostringstream sc; for (auto &s: score) sc << s.first << ":" << s.second << " ";
        if (!close_call) REQUIRE(score[y] >= best - 1e-9 * (1 + big) * !ovo, "vote", "predicted " << y << " at " << vs(x) << " but separately trained learners score " << sc.str());
    }
    for (auto &f: ref) if (auto k = dynamic_cast<K::DualClassifier<double> *>(f.l.get())) if (!dynamic_cast<K::SMO<double> *>(f.l.get())) { delete k->getKernel(); k->setKernel(nullptr); }
}
LAW(learners, 2, "three or more classes and two or more dimensions") {
    bool ovo = c.flip(); size_t dim = (size_t) c.wide(1, 3, 12); Rows r = gen(c, (size_t) c.wide(2, 4, 7), dim);
    int which = (int) c.i(0, 4); Ker k = gen_kernel(c); int up = (int) c.pick(std::vector<int>{100, 20});
    static const char *names[] = {"perceptron", "IMA", "SMO", "dual perceptron", "dual IMA"};
    c.show() << (ovo ? "one-versus-one" : "one-versus-all") << " with " << names[which] << " " << k.name() << " budget " << up << " on " << str(r, 24);
    c.label(names[which]);
    auto base = [up](auto &l) { l.setVerbose(0); l.setMaxTime(1e9); l.setMaxUpdates(up); l.setMaxIterations(up); l.setMaxEpochs(20); };
    auto kern = [&](auto &l) { base(l); l.setKernelType(k.kt()); l.setKernelParam(k.param); };
    if (which == 0) { K::PerceptronPrimal<double> l; compare<K::PerceptronPrimal>(c, l, r, ovo, k, base); }
    else if (which == 1) { K::IMAp<double> l; compare<K::IMAp>(c, l, r, ovo, k, base); }
    else if (which == 2) { K::SMO<double> l; compare<K::SMO>(c, l, r, ovo, k, kern); }
    else if (which == 3) { K::PerceptronDual<double> l; compare<K::PerceptronDual>(c, l, r, ovo, k, kern); }
    else if (c.flip()) { K::IMADual<double> l; compare<K::IMADual>(c, l, r, ovo, k, kern); }
    else { K::IMADual<double> l(k.kt(), k.param); compare<K::IMADual>(c, l, r, ovo, k, base); c.label("shared kernel object"); }
    if (labels(r).size() > 2 && dim > 1) c.nontrivial();
}
