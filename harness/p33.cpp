#include "common.hpp"
#include "ufjfmltk/classifier/PrimalClassifier.hpp"
#include "ufjfmltk/classifier/DualClassifier.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
#include "ufjfmltk/classifier/SMO.hpp"
#include "ufjfmltk/featselect/RFE.hpp"
using namespace cm;
using Cl = mltk::classifier::Classifier<double>;
using Names = std::vector<int>;
struct Seen { Names names; Rows r; V w, start; bool ok; };
// weights given by feature and dimension; fails, or mistakes a class, at chosen dimensions
struct Mock : Cl {
    std::map<size_t, std::map<int, double>> weight; std::set<size_t> fail, wrongp, wrongn; size_t full = 0; std::string form = "Primal"; std::vector<Seen> seen;
    bool train() override {
        auto s = samples; bool all = s->size() == full; Seen z; z.start = this->solution.w.X(); z.names = s->getFeaturesNames(); V w; for (int f: z.names) w.push_back(all ? weight[s->dim()][f] : 1000 - weight[s->dim()][f]);
        this->solution.w = w; this->solution.bias = 0; z.w = w; z.ok = !fail.count(s->dim()); if (all) { z.r = rows(*s); seen.push_back(z); } return z.ok || !all;
    }
    double evaluate(Pt const &p, bool = false) override { bool pos = p.Y() == 1; return (pos ? wrongp : wrongn).count(p.size()) ? -p.Y() : p.Y(); }
    std::string getFormulationString() override { return form; }
    double err(size_t d) const { return (wrongp.count(d) ? 50 : 0) + (wrongn.count(d) ? 50 : 0); }
};
struct Prob { Rows r; Names names; size_t dim; };
static void names(Ctx &c, Prob &p) { if (c.flip()) { auto nm = c.perm(p.dim + 3); for (size_t j = 0; j < p.dim; j++) p.names.push_back((int) nm[j]); } else for (size_t j = 0; j < p.dim; j++) p.names.push_back((int) j + 1); }
static D mkp(Prob const &p) { D d = mk(p.r); d.setFeaturesNames(p.names); return d; }
static void projection(Prob const &p, Names const &names, Rows const &got, const char *when) {
    std::vector<size_t> col; for (int f: names) { auto it = std::find(p.names.begin(), p.names.end(), f); REQUIRE(it != p.names.end(), "feature-name", when << ": feature " << f << " is none of " << vs(p.names)); col.push_back((size_t) (it - p.names.begin())); }
    REQUIRE(std::is_sorted(col.begin(), col.end()) && std::set<size_t>(col.begin(), col.end()).size() == col.size(), "feature-order", when << ": features " << vs(names) << " of " << vs(p.names));
    REQUIRE(got.size() == p.r.size(), "points", when << ": " << got.size() << " points of " << p.r.size());
    for (size_t i = 0; i < got.size(); i++) {
        REQUIRE(got[i].y == p.r[i].y, "labels", when << ": point " << i << " has label " << got[i].y << ", was " << p.r[i].y);
        REQUIRE(got[i].x.size() == col.size(), "dimension", when << ": point " << i << " has " << got[i].x.size() << " values for the features " << vs(names));
        for (size_t k = 0; k < col.size(); k++) REQUIRE(got[i].x[k] == p.r[i].x[col[k]], "values", when << ": value of feature " << names[k] << " at point " << i << " is " << got[i].x[k] << ", was " << p.r[i].x[col[k]]);
    }
}
// the features b are a without the r features of least weight
static void eliminated(Seen const &a, Names const &b, size_t r) {
    REQUIRE(b.size() + r == a.names.size(), "removed", a.names.size() << " features are followed by " << b.size() << ", " << r << " should go"); double lo = INFINITY, hi = 0; size_t found = 0;
    for (size_t j = 0; j < a.names.size(); j++) { bool k = std::find(b.begin(), b.end(), a.names[j]) != b.end(); found += k; double w = fabs(a.w[j]); if (k) lo = std::min(lo, w); else hi = std::max(hi, w); }
    REQUIRE(found == b.size(), "nested", vs(b) << " are not among " << vs(a.names)); REQUIRE(hi <= lo, "ranking", "features " << vs(a.names) << " with weights " << vs(a.w) << " are reduced to " << vs(b));
}
template<class F> static D run(F &f) { std::ostringstream junk; auto *o = std::cout.rdbuf(junk.rdbuf()); auto *e = std::cerr.rdbuf(junk.rdbuf()); struct R { std::streambuf *o, *e; ~R() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } } restore{o, e}; return f.selectFeatures(); }
using Rfe = mltk::featselect::RFE<double>;
#define NT "three or more features, two or more eliminations"
static void model(Ctx &c, bool withcv) {
    Prob p; p.dim = (size_t) c.lenw(2, 8, 40); names(c, p); mltk::validation::CrossValidation cv; cv.fold = 2; cv.jump = 1; bool cvused = withcv;
    if (withcv) { cv.qtde = (size_t) c.i(1, 3); cv.fold = (int) c.i(2, 3); cv.jump = (int) c.i(1, 3); cv.limit_error = (double) c.pick(V{0, 10, 49, 51, 75, 99.5}); }
    size_t per = withcv ? (size_t) cv.fold * (size_t) c.i(1, 2) : (size_t) c.lenw(1, 5, 40); for (size_t i = 0; i < 2 * per; i++) { Row r; r.y = i % 2 ? 1 : -1; r.x.resize(p.dim); for (auto &v: r.x) v = c.dy(4, 4); p.r.push_back(r); }
    auto pm = c.perm(p.r.size()); Rows q; for (auto k: pm) q.push_back(p.r[k]); p.r = q;
    Mock m; m.full = p.r.size(); m.form = c.flip() ? "Primal" : "Dual2"; for (size_t d = 1; d <= p.dim; d++) for (int f: p.names) m.weight[d][f] = c.chance(85) ? c.dy(6, 8) : c.dy(1, 1);
    if (c.chance(25)) m.fail.insert((size_t) c.i(1, (long) p.dim)); if (withcv) for (size_t d = 1; d <= p.dim; d++) { if (c.chance(15)) m.wrongp.insert(d); if (c.chance(15)) m.wrongn.insert(d); }
    long final_dim = c.i(1, (long) p.dim - 1), jump = c.chance(50) ? 1 : c.wide(1, 4, 15); bool setters = c.flip(); D d = mkp(p); Rows before = rows(d);
    c.show() << "RFE to " << final_dim << " of features " << vs(p.names) << ", jump " << jump << ", " << m.form << ", training fails at " << vs(std::vector<size_t>(m.fail.begin(), m.fail.end())) << (setters ? ", by setters" : "");
    if (withcv) { c.show() << ", " << cv.qtde << " x " << cv.fold << " folds every " << cv.jump << " levels, limit " << cv.limit_error << ", errors by dimension"; for (size_t k = 1; k <= p.dim; k++) c.show() << " " << m.err(k); }
    c.show() << ", " << p.r.size() << " points"; for (size_t k = 1; k <= p.dim; k++) { c.show() << "; weights in dimension " << k; for (int f: p.names) c.show() << " " << m.weight[k][f]; }
    std::unique_ptr<Rfe> f; if (!setters) f = std::make_unique<Rfe>(d, &m, (int) final_dim, cvused ? &cv : nullptr, 1, (int) jump);
    else { D other = mkp(p); f = std::make_unique<Rfe>(other, &m, (int) p.dim - 1, cvused ? &cv : nullptr); f->setSamples(d); f->setClassifier(&m); f->setJump((int) jump); if (c.flip()) f->setDepth((int) ((long) p.dim - final_dim)); else f->setFinalDimension((int) final_dim); c.label("configured by setters"); }
    int rounds = c.chance(30) ? 2 : 1; size_t steps = 0;
    for (int t = 0; t < rounds; t++) {
        m.seen.clear(); D r = run(*f); long depth = (long) p.dim - final_dim, level = 0; size_t k = 0; Names want; double initial = m.err(p.dim), actual = 0;
        for (;; k++) {
            size_t dm = p.dim - (size_t) level; REQUIRE(k < m.seen.size(), "levels", m.seen.size() << " trainings, none in dimension " << dm); auto &s = m.seen[k]; REQUIRE(s.names.size() == dm, "level-dimension", "training " << k << " uses " << s.names.size() << " features instead of " << dm); projection(p, s.names, s.r, "training");
            if (!s.ok) { want = k ? m.seen[k - 1].names : s.names; c.label("training fails"); break; }
            if (withcv && level && level % cv.jump == 0) actual = m.err(dm);
            if (level >= depth) { want = s.names; c.label("reached the final dimension"); break; } if (withcv && level && actual - initial > cv.limit_error) { want = s.names; c.label("stopped by the error"); break; }
            long nl = std::min(level + jump, depth); REQUIRE(k + 1 < m.seen.size(), "levels", "the elimination ends with " << dm << " features after " << m.seen.size() << " trainings"); auto &n = m.seen[k + 1]; eliminated(s, n.names, (size_t) (nl - level)); steps++;
            if (m.form == "Primal") { V st; for (int g: n.names) st.push_back(s.w[(size_t) (std::find(s.names.begin(), s.names.end(), g) - s.names.begin())]); REQUIRE(n.start == st, "start", "training in dimension " << n.names.size() << " starts from " << vs(n.start) << " instead of the weights " << vs(st) << " of the remaining features"); }
            level = nl;
        }
        REQUIRE(m.seen.size() == k + 1, "levels", m.seen.size() << " trainings instead of " << k + 1); REQUIRE(r.getFeaturesNames() == want && r.dim() == want.size(), "result", "features " << vs(r.getFeaturesNames()) << " instead of " << vs(want)); projection(p, want, rows(r), "result");
        REQUIRE(rows(d) == before && d.dim() == p.dim && d.getFeaturesNames() == p.names, "input", "the samples were changed"); check_shape(r, "result"); check_classes(r, "result");
    }
    if (p.dim >= 3 && steps >= 2) c.nontrivial();
}
LAW(model, 4, NT) { model(c, false); }
LAW(cross_validation, 3, NT) { model(c, true); }
LAW(depth, 1, "a final dimension out of range") {   // nothing to eliminate, or everything
    Prob p; p.dim = (size_t) c.len(1, 5); names(c, p); for (int i = 0; i < 4; i++) { Row r; r.y = i % 2 ? 1 : -1; r.x.resize(p.dim); for (auto &v: r.x) v = c.dy(4, 4); p.r.push_back(r); } D d = mkp(p); Mock m; m.full = 4; long fd = c.flip() ? c.i(-2, 0) : (long) p.dim + c.i(0, 2);
    c.show() << "RFE of " << p.dim << " features to " << fd; Rfe f(d, &m, (int) fd); D r = run(f); REQUIRE(r.isEmpty() && m.seen.empty(), "invalid", "selecting " << fd << " of " << p.dim << " features gives " << r.dim()); c.nontrivial();
}
// real learners: every level is a projection without the lightest features of the level before
template<class B> struct Rec : B { using B::B; std::vector<Seen> seen; bool train() override { Seen z; z.start = this->solution.w.X(); z.names = this->samples->getFeaturesNames(); z.r = rows(*this->samples); z.ok = B::train(); z.w = this->solution.w.X(); seen.push_back(z); return z.ok; } };
template<class B> static void real(Ctx &c, Rec<B> &m, Prob const &p, long fd) {
    m.setMaxTime(1e9); m.setMaxUpdates(400); m.setMaxIterations(400); m.setMaxEpochs(400); D d = mkp(p); Rfe f(d, &m, (int) fd); D r = run(f); REQUIRE(!m.seen.empty(), "levels", "nothing was trained"); size_t k = 0;
    for (; k < m.seen.size(); k++) { auto &s = m.seen[k]; REQUIRE(s.names.size() == p.dim - k, "level-dimension", "training " << k << " uses " << s.names.size() << " of " << p.dim << " features"); projection(p, s.names, s.r, "training"); if (k) eliminated(m.seen[k - 1], s.names, 1); if (s.ok) REQUIRE(s.w.size() == s.names.size(), "weights", s.w.size() << " weights for " << s.names.size() << " features"); REQUIRE(s.ok || k + 1 == m.seen.size(), "goes-on", "the elimination goes on after a failed training"); }
    auto &l = m.seen.back(); Names want = l.ok || k == 1 ? l.names : m.seen[k - 2].names; if (l.ok) REQUIRE((long) want.size() == fd, "final-dimension", want.size() << " features instead of " << fd); else c.label("training fails");
    REQUIRE(r.getFeaturesNames() == want, "result", "features " << vs(r.getFeaturesNames()) << " instead of " << vs(want)); projection(p, want, rows(r), "result"); if (p.dim >= 3 && k >= 3) c.nontrivial();
}
LAW(learners, 2, NT) {
    Prob p; p.dim = (size_t) c.len(2, 6); names(c, p); size_t n = (size_t) c.len(4, 16); V shift(p.dim); for (auto &v: shift) v = c.chance(50) ? c.dy(8, 4) + 4 : 0; for (size_t i = 0; i < n; i++) { Row r; r.y = i % 2 ? 1 : -1; r.x.resize(p.dim); for (size_t j = 0; j < p.dim; j++) r.x[j] = c.dy(3, 4) + r.y * shift[j]; p.r.push_back(r); }
    long fd = c.i(1, (long) p.dim - 1); int w = (int) c.i(0, 3); const char *nm[] = {"perceptron", "fixed margin perceptron", "IMA", "SMO"}; c.show() << "RFE with " << nm[w] << " to " << fd << " of features " << vs(p.names) << ": " << str(p.r, 20);
    if (w == 0) { Rec<mltk::classifier::PerceptronPrimal<double>> m; real(c, m, p, fd); } else if (w == 1) { Rec<mltk::classifier::PerceptronFixedMarginPrimal<double>> m; real(c, m, p, fd); }
    else if (w == 2) { Rec<mltk::classifier::IMAp<double>> m; real(c, m, p, fd); } else { D d = mkp(p); Rec<mltk::classifier::SMO<double>> m(d, mltk::INNER_PRODUCT, 0, 0); real(c, m, p, fd); }
}
