#include "common.hpp"
#include "ufjfmltk/classifier/PrimalClassifier.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/featselect/Fisher.hpp"
#include "ufjfmltk/featselect/Golub.hpp"
using namespace cm;
using Cl = mltk::classifier::Classifier<double>;
// records what it is trained on, fails to train on chosen dimensions
struct Mock : Cl {
    std::set<size_t> fail; std::vector<std::pair<std::vector<int>, Rows>> seen;
    bool train() override { auto s = samples; seen.emplace_back(s->getFeaturesNames(), rows(*s)); this->solution.w = V(s->dim(), 1.0); return !fail.count(s->dim()); }
    double evaluate(Pt const &, bool = false) override { return 1; }
    std::string getFormulationString() override { return "Primal"; }
};
struct Prob { Rows r; std::vector<int> names; size_t dim; };
static Prob gen(Ctx &c) {
    Prob p; p.dim = (size_t) c.lenw(2, 7, 40); size_t np = (size_t) c.lenw(2, 9, 80), nn = (size_t) c.lenw(2, 9, 80);
    std::vector<int> how(p.dim); V cv(p.dim); for (size_t j = 0; j < p.dim; j++) { how[j] = (int) c.i(0, 9); cv[j] = c.dy(4); }
    V shift(p.dim); for (auto &v: shift) v = c.dy(6, 4);
    double pos = c.chance(70) ? 1 : (double) c.i(0, 5);
    for (size_t i = 0; i < np + nn; i++) {
        Row r; r.y = i < np ? pos : -1; r.x.resize(p.dim);
        for (size_t j = 0; j < p.dim; j++) {
            double v = c.dy(5, 4);
            if (how[j] == 0) v = cv[j];                                     // constant
            else if (how[j] == 1) v = cv[j] + (r.y == -1 ? 0 : shift[j]);  // constant in each class
            else if (how[j] == 2 && j) v = r.x[j - 1];                      // tie
            else if (how[j] < 7 && r.y != -1) v += shift[j];
            r.x[j] = v;
        }
        p.r.push_back(r);
    }
    auto pm = c.perm(p.r.size()); Rows q; for (auto k: pm) q.push_back(p.r[k]); p.r = q;
    if (c.flip()) { auto nm = c.perm(p.dim + 3); for (size_t j = 0; j < p.dim; j++) p.names.push_back((int) nm[j]); } else for (size_t j = 0; j < p.dim; j++) p.names.push_back((int) j + 1);
    return p;
}
static D mkp(Prob const &p) { D d = mk(p.r); d.setFeaturesNames(p.names); return d; }
static long double score(Prob const &p, size_t j, bool golub) {
    long double s[2] = {0, 0}, q[2] = {0, 0}; size_t n[2] = {0, 0};
    for (auto &r: p.r) { int k = r.y == -1 ? 0 : 1; s[k] += r.x[j]; n[k]++; }
    for (int k = 0; k < 2; k++) s[k] /= n[k];
    for (auto &r: p.r) { int k = r.y == -1 ? 0 : 1; q[k] += (r.x[j] - s[k]) * (r.x[j] - s[k]); }
    long double d = s[1] - s[0], e = sqrtl(q[0] / (n[0] - 1)) + sqrtl(q[1] / (n[1] - 1)); if (fabsl(d) < 1e-12L) return 0; if (e < 1e-12L) return INFINITY;
    return golub ? fabsl(d) / e : d * d / e;
}
// the data is the projection of the problem on the features it names
static void projection(Prob const &p, std::vector<int> const &names, Rows const &got, const char *when) {
    std::vector<size_t> col; for (int f: names) { auto it = std::find(p.names.begin(), p.names.end(), f); REQUIRE(it != p.names.end(), "feature-name", when << ": feature " << f << " is none of " << vs(p.names)); col.push_back((size_t) (it - p.names.begin())); }
    REQUIRE(std::is_sorted(col.begin(), col.end()) && std::set<size_t>(col.begin(), col.end()).size() == col.size(), "feature-order", when << ": features " << vs(names) << " of " << vs(p.names));
    REQUIRE(got.size() == p.r.size(), "points", when << ": " << got.size() << " points of " << p.r.size());
    for (size_t i = 0; i < got.size(); i++) {
        REQUIRE(got[i].y == p.r[i].y, "labels", when << ": point " << i << " has label " << got[i].y << ", was " << p.r[i].y);
        REQUIRE(got[i].x.size() == col.size(), "dimension", when << ": point " << i << " has " << got[i].x.size() << " values for the features " << vs(names));
        for (size_t k = 0; k < col.size(); k++) REQUIRE(got[i].x[k] == p.r[i].x[col[k]], "values", when << ": value of feature " << names[k] << " at point " << i << " is " << got[i].x[k] << ", was " << p.r[i].x[col[k]]);
    }
}
static void ranking(Prob const &p, std::vector<int> const &kept, bool golub, const char *when) {
    std::set<int> k(kept.begin(), kept.end());
    for (size_t a = 0; a < p.dim; a++) if (k.count(p.names[a])) for (size_t b = 0; b < p.dim; b++) if (!k.count(p.names[b])) {
        long double sa = score(p, a, golub), sb = score(p, b, golub);
        REQUIRE(sa >= sb || sb - sa <= 1e-9L * (1 + fabsl(sb)), "ranking", when << ": feature " << p.names[a] << " with score " << (double) sa << " is kept, feature " << p.names[b] << " with score " << (double) sb << " is removed");
    }
}
template<class F> static D run(F &f) { std::ostringstream junk; auto *o = std::cout.rdbuf(junk.rdbuf()); auto *e = std::cerr.rdbuf(junk.rdbuf()); struct R { std::streambuf *o, *e; ~R() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } } restore{o, e}; return f.selectFeatures(); }
template<class F> static void one(Ctx &c, bool golub) {
    Prob p = gen(c); size_t keep = (size_t) c.i(1, (long) p.dim); D d = mkp(p); Rows before = rows(d); Mock m; bool fails = false;
    if (c.chance(30)) { m.fail.insert((size_t) c.i(1, (long) p.dim)); if (c.chance(20)) m.fail.insert((size_t) c.i(1, (long) p.dim)); }
    int how = (int) c.i(0, 3); c.show() << (golub ? "Golub" : "Fisher") << " to " << keep << " of features " << vs(p.names) << ", training fails at dimensions " << vs(std::vector<size_t>(m.fail.begin(), m.fail.end())) << ", made by " << how << ": " << str(p.r, 20);
    std::unique_ptr<F> f; auto shared = mltk::make_data<double>(d);
    if (how <= 1) f = std::make_unique<F>(d, &m, (int) keep);
    else { f = std::make_unique<F>(); if (how == 2) f->setSamples(d); else f->setSamples(shared); f->setClassifier(&m); f->setFinalDimension((int) keep); c.label("configured by setters"); }
    int rounds = c.chance(25) ? 2 : 1;
    for (int t = 0; t < rounds; t++) {
        m.seen.clear(); D r = run(*f); size_t want = keep;
        for (size_t k = p.dim - 1; k >= keep && k >= 1; k--) if (m.fail.count(k)) { want = k + 1; fails = true; break; }
        REQUIRE(r.dim() == want && r.getFeaturesNames().size() == want, "final-dimension", r.dim() << " features " << vs(r.getFeaturesNames()) << " instead of " << want);
        auto names = r.getFeaturesNames(); projection(p, names, rows(r), "result"); ranking(p, names, golub, "result");
        // the learner sees every level of the elimination
        REQUIRE(m.seen.size() == p.dim - want + 1 + (want > keep ? 1 : 0), "levels", m.seen.size() << " trainings for " << p.dim << " -> " << want);
        for (size_t k = 0; k < m.seen.size(); k++) { auto &s = m.seen[k]; REQUIRE(s.first.size() == p.dim - k, "level-dimension", "training " << k << " uses " << s.first.size() << " features"); projection(p, s.first, s.second, "training"); ranking(p, s.first, golub, "training"); if (k) for (int n: s.first) REQUIRE((std::find(m.seen[k - 1].first.begin(), m.seen[k - 1].first.end(), n) != m.seen[k - 1].first.end()), "nested", "feature " << n << " returns after its removal"); }
        REQUIRE(rows(d) == before && d.getFeaturesNames() == p.names && d.dim() == p.dim, "input", "the samples were changed"); REQUIRE(rows(*shared) == before && shared->dim() == p.dim, "input", "the shared samples were changed");
        check_shape(r, "result"); check_classes(r, "result");
    }
    std::set<long double> sc; for (size_t j = 0; j < p.dim; j++) sc.insert(score(p, j, golub)); if (fails) c.label("training fails"); if (sc.size() < p.dim) c.label("tied scores"); if (keep < p.dim && p.dim >= 3 && sc.size() >= 3) c.nontrivial();
}
#define NT "three or more features with three or more different scores, at least one removed"
LAW(fisher, 3, NT) { one<mltk::featselect::Fisher<double>>(c, false); }
LAW(golub, 3, NT) { one<mltk::featselect::Golub<double>>(c, true); }
// with a real learner: reaches the dimension asked for, or the last one on which training succeeds
LAW(perceptron, 1, NT) {
    Prob p = gen(c); for (auto &r: p.r) if (r.y != -1) r.y = 1; size_t keep = (size_t) c.i(1, (long) p.dim); D d = mkp(p); bool golub = c.flip(); mltk::classifier::PerceptronPrimal<double> m(d); m.setMaxTime(1e9); m.setMaxUpdates(300); m.setMaxIterations(300); m.setMaxEpochs(300);
    c.show() << (golub ? "Golub" : "Fisher") << " with a perceptron to " << keep << " of features " << vs(p.names) << ": " << str(p.r, 20); D r;
    if (golub) { mltk::featselect::Golub<double> f(d, &m, (int) keep); r = run(f); } else { mltk::featselect::Fisher<double> f(d, &m, (int) keep); r = run(f); }
    REQUIRE(r.dim() >= keep && r.dim() <= p.dim, "final-dimension", r.dim() << " features of " << p.dim << ", at least " << keep << " asked for"); auto names = r.getFeaturesNames(); projection(p, names, rows(r), "result"); ranking(p, names, golub, "result");
    std::set<long double> sc; for (size_t j = 0; j < p.dim; j++) sc.insert(score(p, j, golub)); if (keep < p.dim && p.dim >= 3 && sc.size() >= 3) c.nontrivial();
}
