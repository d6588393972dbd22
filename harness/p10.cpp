#include "common.hpp"
#include "ufjfmltk/valid/Validation.hpp"
#include "ufjfmltk/classifier/Classifier.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
using namespace cm;

struct Event { std::set<double> train; std::vector<std::pair<double, double>> pred; std::vector<double> truth; bool dup = false; size_t n = 0; };
using Tape = std::vector<Event>;
static void note_train(Tape &t, D const &d) {
    t.emplace_back(); t.back().n = d.size();
    for (auto const &p: d.points()) if (!t.back().train.insert(p->Alpha()).second) t.back().dup = true;
}
// records what it was trained on and what it was asked; predicts by an arbitrary rule
struct Spy : mltk::classifier::PrimalClassifier<double> {
    Tape tape; std::vector<int> cls; size_t rule = 0;
    bool train() override { note_train(tape, *this->samples); return rule % 3 != 0; }
    double evaluate(Pt const &p, bool = false) override {
        if (tape.empty()) tape.emplace_back();
        u64 h = (u64) (p.Alpha() * 7919) + rule * 31 + tape.size() * (rule % 2 ? 13 : 0);
        double y = (h % 10 < rule % 11) ? p.Y() : cls[(size_t) (splitmix(h) % cls.size())];
        tape.back().pred.push_back({p.Alpha(), y}); tape.back().truth.push_back(p.Y());
        return y;
    }
};
struct SpyDual : mltk::classifier::DualClassifier<double> {
    Tape tape; std::vector<int> cls; size_t rule = 0;
    bool train() override { note_train(tape, *this->samples); return rule % 3 != 0; }
    double evaluate(Pt const &p, bool = false) override {
        if (tape.empty()) tape.emplace_back();
        u64 h = (u64) (p.Alpha() * 7919) + rule * 31;
        double y = (h % 10 < rule % 11) ? p.Y() : cls[(size_t) (splitmix(h) % cls.size())];
        tape.back().pred.push_back({p.Alpha(), y}); tape.back().truth.push_back(p.Y());
        return y;
    }
};
template<class L> struct Watch : L {
    using L::L; Tape tape;
    bool train() override { note_train(tape, *this->samples); return L::train(); }
    double evaluate(Pt const &p, bool raw = false) override {
        double y = L::evaluate(p, raw);
        if (!tape.empty()) { tape.back().pred.push_back({p.Alpha(), y}); tape.back().truth.push_back(p.Y()); }
        return y;
    }
};
static double recount(Tape const &t, size_t from, size_t k) {
    double e = 0;
    for (size_t j = 0; j < k; j++) {
        auto const &ev = t[from + j]; size_t w = 0;
        for (size_t i = 0; i < ev.pred.size(); i++) w += ev.pred[i].second != ev.truth[i];
        e += 100.0 * (double) w / (double) ev.pred.size();
    }
    return e / (double) k;
}
enum Leak { NONE, KNOWN_DUAL };
static void check_rep(Tape const &t, size_t from, size_t k, Rows const &m, bool strat, std::string const &w, Leak leak) {
    REQUIRE(t.size() >= from + k, "trainings", w << ": only " << t.size() << " trainings recorded");
    std::map<double, Row> all; for (auto &r: m) all[r.alpha] = r;
    std::set<double> tested;
    for (size_t j = 0; j < k; j++) {
        auto const &e = t[from + j];
        REQUIRE(!e.pred.empty(), "no-tests", w << " fold " << j + 1 << ": nothing was predicted");
        for (size_t i = 0; i < e.pred.size(); i++) {
            double tag = e.pred[i].first;
            REQUIRE(all.count(tag) && all[tag].y == e.truth[i], "foreign", w << " fold " << j + 1 << ": predicted a point that is not in the dataset");
            REQUIRE(tested.insert(tag).second, "tested-twice", w << ": point tagged " << tag << " is predicted twice");
        }
    }
    REQUIRE(strat ? tested.size() == m.size() : tested.size() == k * (m.size() / k), "untested", w << ": " << tested.size() << " of " << m.size() << " points are predicted");
    for (size_t j = 0; j < k; j++) {
        auto const &e = t[from + j];
        std::set<double> mine; for (auto &p: e.pred) mine.insert(p.first);
        REQUIRE(!e.dup, "train-dup", w << " fold " << j + 1 << ": a point was used twice for training");
        for (double tag: tested) if (!mine.count(tag)) REQUIRE(e.train.count(tag), "train-missing", w << " fold " << j + 1 << ": point tagged " << tag << " of another fold was not used for training");
        for (double tag: e.train) {
            REQUIRE(tested.count(tag), "train-foreign", w << " fold " << j + 1 << ": trained on a point that is in no fold");
            if (leak == NONE) REQUIRE(!mine.count(tag), "train-on-test", w << " fold " << j + 1 << ": trained on its own test point tagged " << tag);
        }
    }
}
static D make(Ctx &c, size_t &n, size_t k, std::vector<int> const &cls) {
    n = std::max<size_t>(k, (size_t) c.lenw((long) k, std::max<long>(40, (long) k), 150));
    n = std::max(n, cls.size());
    Rows m = gen_rows_all(c, n, (size_t) c.wide(1, 3, 12), cls);
    for (size_t i = 0; i < n; i++) m[i].alpha = (double) i + 1;
    D d = mk(m, c.flip());
    return d;
}
static void check_report(mltk::validation::ValidationReport const &r, double want, std::string const &w) {
    REQUIRE(close(r.error, want, 1e-6, 1e-6), "error", w << ": reported error " << r.error << " but the predictions give " << want);
    REQUIRE(close(r.accuracy, 100 - want, 1e-6, 1e-6), "accuracy", w << ": reported accuracy " << r.accuracy << " but the predictions give " << 100 - want);
    REQUIRE(r.error >= -1e-9 && r.error <= 100 + 1e-9, "range", w << ": error " << r.error);
}
template<class S> static void spy_case(Ctx &c, bool kk, Leak leak) {
    auto cls = gen_classes(c, (size_t) c.wide(1, 4, 10));
    size_t k = (size_t) c.wide(2, 8, 20), n, q = (size_t) c.wide(1, 4, 12);
    D d = make(c, n, k, cls);
    Rows m = rows(d);
    S s; s.cls = cls; s.rule = (size_t) c.i(0, 20); s.setVerbose(0);
    bool strat = c.flip(); size_t seed = (size_t) c.i(1, 500);
    c.show() << (kk ? "kkfold " + std::to_string(q) + " x " : "kfold ") << k << " on " << n << " points, classes " << vs(cls) << (strat ? " stratified" : "") << " rule " << s.rule;
    if (!kk) {
        auto r = mltk::validation::kfold(d, s, k, strat, seed, 0);
        REQUIRE(s.tape.size() == k, "trainings", s.tape.size() << " trainings for " << k << " folds");
        check_rep(s.tape, 0, k, m, strat, "kfold", leak);
        check_report(r, recount(s.tape, 0, k), "kfold");
    } else {
        auto r = mltk::validation::kkfold(d, s, q, k, strat, seed, 0);
        double e = 0;
        for (size_t i = 0; i < q; i++) { check_rep(s.tape, i * k, k, m, strat, "kkfold execution " + std::to_string(i + 1), leak); e += recount(s.tape, i * k, k); }
        check_report(r, e / (double) q, "kkfold");
    }
    REQUIRE(rows(d) == m, "source", "validation changed the dataset");
    if (n >= 2 * k && cls.size() >= 2) c.nontrivial();
    c.label(k == 2 ? "two folds" : "more folds");
}
LAW(kfold, 4, "at least two classes and two points per fold") { spy_case<Spy>(c, false, NONE); }
LAW(kkfold, 3, "at least two classes and two points per fold") { spy_case<Spy>(c, true, NONE); }
LAW(kfold_dual, 2, "at least two classes and two points per fold") { spy_case<SpyDual>(c, false, KNOWN_DUAL); }
LAW(kkfold_dual, 1, "at least two classes and two points per fold") { spy_case<SpyDual>(c, true, KNOWN_DUAL); }
LAW(known_dual_training, 0, "replay of the known finding only") { spy_case<SpyDual>(c, false, NONE); }

template<class F> static void real(Ctx &c, D &d, F fresh, size_t k, bool strat, size_t seed, std::string const &w) {
    auto lp = fresh(); auto &l = *lp;
    Rows m = rows(d); auto cls = d.classes(); auto dist = d.classesDistribution();
    l.setVerbose(0);
    auto r = mltk::validation::kfold(d, l, k, strat, seed, 0);
    REQUIRE(l.tape.size() == k, "trainings", l.tape.size() << " trainings for " << k << " folds");
    check_rep(l.tape, 0, k, m, strat, w, NONE);
    check_report(r, recount(l.tape, 0, k), w);
    REQUIRE(rows(d) == m && d.classes() == cls && d.classesDistribution() == dist, "source", w << " changed the dataset");
    // the same learner fed by hand gives the same error
    D sh = d.copy(); sh.shuffle(seed);
    auto fs = mltk::validation::kfoldsplit(sh, k, strat, true, seed);
    double e = 0;
    for (auto &f: fs) {
        auto hp = fresh(); auto &h = *hp; h.setVerbose(0);
        h.setSamples(f.train); h.setSeed(seed); h.train();
        size_t bad = 0; for (auto const &p: f.test.points()) bad += h.evaluate(*p) != p->Y();
        e += 100.0 * (double) bad / (double) f.test.size();
    }
    REQUIRE(close(r.error, e / (double) k, 1e-6, 1e-6), "by-hand", w << ": reported error " << r.error << ", training and predicting by hand gives " << e / (double) k);
    double a = mltk::validation::accuracy(d, l);
    size_t ok = 0; for (auto const &p: d.points()) ok += l.evaluate(*p) == p->Y();
    REQUIRE(close(a, (double) ok / (double) d.size()), "accuracy-fn", w << ": accuracy() " << a << " want " << (double) ok / (double) d.size());
}
LAW(knn, 2, "at least two points per fold") {
    auto cls = gen_classes(c, (size_t) c.wide(2, 4, 9));
    size_t k = (size_t) c.i(2, 6), n; D d = make(c, n, k, cls);
    bool strat = c.flip(); size_t seed = (size_t) c.i(1, 500);
    c.show() << "KNN, " << k << " folds of " << n;
    real(c, d, [] { return std::make_unique<Watch<mltk::classifier::KNNClassifier<double>>>(1); }, k, strat, seed, "knn");
    if (n >= 2 * k) c.nontrivial();
}
LAW(perceptron, 1, "at least two points per fold") {
    size_t k = (size_t) c.i(2, 5), n; D d = make(c, n, k, {1, -1});
    bool strat = c.flip(); size_t seed = (size_t) c.i(1, 500);
    c.show() << "perceptron, " << k << " folds of " << n;
    auto fresh = [&] {
        auto l = std::make_unique<Watch<mltk::classifier::PerceptronPrimal<double>>>(mltk::make_data<double>(d));
        l->setMaxIterations(200); l->setMaxEpochs(20); l->setMaxUpdates(200);
        return l;
    };
    real(c, d, fresh, k, strat, seed, "perceptron");
    if (n >= 2 * k) c.nontrivial();
}
