#include "common.hpp"
#include "ufjfmltk/valid/Validation.hpp"
#include "ufjfmltk/classifier/Classifier.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
using namespace cm;
using mltk::validation::ValidationReport;

struct Table : mltk::Learner<double> {      // predicts what the table says for the point's tag
    std::map<double, double> t;
    bool train() override { return true; }
    double evaluate(Pt const &p, bool = false) override { return t.at(p.Alpha()); }
    std::string getFormulationString() override { return "Primal"; }
};
static void check_metrics(ValidationReport const &r, double tp, double tn, double fp, double fn, double acc, std::string const &w, bool errors = true) {
    REQUIRE((double) r.tp == tp && (double) r.tn == tn && (double) r.fp == fp && (double) r.fn == fn, "counts", w << ": tp " << r.tp << " tn " << r.tn << " fp " << r.fp << " fn " << r.fn << " want " << tp << " " << tn << " " << fp << " " << fn);
    REQUIRE(close(r.accuracy, acc), "accuracy", w << ": accuracy " << r.accuracy << " want " << acc);
    REQUIRE(close(r.error, 1 - acc), "error", w << ": error " << r.error << " want " << 1 - acc);
    if (errors) REQUIRE((double) r.errors == fp + fn, "errors", w << ": errors " << r.errors << " want " << fp + fn);
    if (tp + fn > 0) { REQUIRE(close(r.sensitivity, tp / (tp + fn)), "sensitivity", w << ": sensitivity " << r.sensitivity << " want " << tp / (tp + fn)); REQUIRE(close(r.recall, tp / (tp + fn)), "recall", w << ": recall " << r.recall << " want " << tp / (tp + fn)); }
    if (tn + fp > 0) REQUIRE(close(r.specificity, tn / (tn + fp)), "specificity", w << ": specificity " << r.specificity << " want " << tn / (tn + fp));
    if (tp + fp > 0) REQUIRE(close(r.precision, tp / (tp + fp)), "precision", w << ": precision " << r.precision << " want " << tp / (tp + fp));
    if (tp > 0) REQUIRE(close(r.fscore, 2 * tp / (2 * tp + fp + fn)), "fscore", w << ": F-score " << r.fscore << " want " << 2 * tp / (2 * tp + fp + fn));
}
LAW(matrix, 4, "at least two classes and four points") {
    auto cls = gen_classes(c, (size_t) c.wide(1, 5, 20));
    size_t n = std::max<size_t>(cls.size(), (size_t) c.lenw(1, 40, 400));
    Rows m = gen_rows_all(c, n, 2, cls);
    Table l; int bias = (int) c.i(0, 10);
    for (size_t i = 0; i < n; i++) { m[i].alpha = (double) i + 1; l.t[m[i].alpha] = c.i(0, 10) < bias ? m[i].y : cls[(size_t) c.draw(cls.size() - 1)]; }
    D d = mk(m);
    if (n > 1 && c.chance(30)) { d.shuffle(4); }
    m = rows(d);
    auto dc = d.classes();
    auto cf = mltk::validation::generateConfusionMatrix(d, l);
    c.show() << n << " points, classes " << vs(dc) << " matrix"; for (auto &r: cf) c.show() << vs(r);
    REQUIRE(rows(d) == m, "source", "the dataset changed");
    REQUIRE(cf.size() == dc.size(), "rows", cf.size() << " rows for " << dc.size() << " classes");
    size_t tot = 0, diag = 0;
    std::vector<std::vector<size_t>> want(dc.size(), std::vector<size_t>(dc.size(), 0));
    auto pos = [&](double y) { return (size_t) (std::find(dc.begin(), dc.end(), (int) y) - dc.begin()); };
    for (auto &r: m) want[pos(r.y)][pos(l.t[r.alpha])]++;
    for (size_t i = 0; i < cf.size(); i++) {
        REQUIRE(cf[i].size() == dc.size(), "cols", cf[i].size() << " columns");
        for (size_t j = 0; j < cf.size(); j++) { REQUIRE(cf[i][j] == want[i][j], "cell", "cell true " << dc[i] << " predicted " << dc[j] << " is " << cf[i][j] << " want " << want[i][j]); tot += cf[i][j]; if (i == j) diag += cf[i][j]; }
    }
    REQUIRE(tot == n, "total", "cells add up to " << tot << " for " << n << " points");
    double a = mltk::validation::confusionMatrixAccuracy(cf);
    REQUIRE(close(a, 100.0 * (double) diag / (double) n), "matrix-accuracy", "accuracy " << a << " want " << 100.0 * (double) diag / (double) n);
    double acc = mltk::validation::accuracy(d, l);
    REQUIRE(close(acc, (double) diag / (double) n), "accuracy-fn", "accuracy() " << acc << " want " << (double) diag / (double) n);
    // binary counts for any choice of positive classes
    std::vector<int> positive; std::set<size_t> ps;
    if (c.chance(80)) for (size_t i = 0; i < dc.size(); i++) if (c.flip()) { positive.push_back(dc[i]); ps.insert(i); }
    if (positive.empty()) for (size_t i = 0; i < dc.size(); i++) ps.insert(i);
    double tp = 0, tn = 0, fp = 0, fn = 0;
    for (size_t i = 0; i < dc.size(); i++) for (size_t j = 0; j < dc.size(); j++) {
        double v = (double) want[i][j];
        if (i == j) (ps.count(i) ? tp : tn) += v; else (ps.count(i) ? fn : fp) += v;
    }
    auto r = mltk::validation::metricsReport(d, cf, positive);
    check_metrics(r, tp, tn, fp, fn, (double) diag / (double) n, "metricsReport positive " + vs(positive));
    if (dc.size() >= 2 && n >= 4) c.nontrivial();
    c.label(std::to_string(dc.size()) + " classes");
}
LAW(report, 3, "two labels and at least four points") {
    static const std::vector<std::vector<int>> pairs = {{1, -1}, {1, 0}, {1, 2}, {1, -7}};
    auto pr = c.pick(pairs);
    size_t n = (size_t) c.lenw(1, 40, 400);
    mltk::Point<int> real(n), pred(n);
    double tp = 0, tn = 0, fp = 0, fn = 0; std::set<int> u;
    int bias = (int) c.i(0, 10);
    for (size_t i = 0; i < n; i++) {
        int a = pr[(size_t) c.draw(1)], b = c.i(0, 10) < bias ? a : pr[(size_t) c.draw(1)];
        real[i] = a; pred[i] = b; u.insert(a); u.insert(b);
        if (a == 1) (b == 1 ? tp : fn)++; else (b == 1 ? fp : tn)++;
    }
    c.show() << "real " << vs(real.X()) << " predicted " << vs(pred.X());
    auto r = mltk::validation::classificationReport(real, pred);
    double acc = (tp + tn) / (double) n;
    if (u.size() == 2) { check_metrics(r, tp, tn, fp, fn, acc, "classificationReport"); if (n >= 4) c.nontrivial(); }
    else { REQUIRE(close(r.accuracy, acc) && close(r.error, 1 - acc), "accuracy", "one label: accuracy " << r.accuracy << " error " << r.error); }
}
LAW(report_multi, 1, "at least three labels") {
    auto cls = gen_classes(c, (size_t) c.wide(3, 5, 15));
    size_t n = (size_t) c.lenw(3, 40, 300), ok = 0; std::set<int> u;
    mltk::Point<int> real(n), pred(n);
    for (size_t i = 0; i < n; i++) { real[i] = c.pick(cls); pred[i] = c.flip() ? real[i] : c.pick(cls); ok += real[i] == pred[i]; u.insert(real[i]); u.insert(pred[i]); }
    c.show() << "real " << vs(real.X()) << " predicted " << vs(pred.X());
    auto r = mltk::validation::classificationReport(real, pred);
    REQUIRE(close(r.accuracy, (double) ok / (double) n) && close(r.error, 1 - (double) ok / (double) n), "accuracy", "accuracy " << r.accuracy << " error " << r.error << " want " << (double) ok / (double) n);
    if (u.size() >= 3) c.nontrivial();
}
LAW(real_learner, 1, "at least two classes and six points") {
    auto cls = gen_classes(c, (size_t) c.wide(2, 4, 12));
    size_t n = std::max<size_t>(cls.size(), (size_t) c.lenw(3, 30, 120));
    D d = mk(gen_rows_all(c, n, 2, cls));
    mltk::classifier::KNNClassifier<double> l((size_t) c.i(1, 3));
    l.setSamples(d); l.setVerbose(0); l.train();
    auto cf = mltk::validation::generateConfusionMatrix(d, l);
    auto dc = d.classes();
    std::vector<std::vector<size_t>> want(dc.size(), std::vector<size_t>(dc.size(), 0));
    for (auto const &p: d.points()) {
        double y = l.evaluate(*p);
        size_t a = (size_t) (std::find(dc.begin(), dc.end(), (int) p->Y()) - dc.begin()), b = (size_t) (std::find(dc.begin(), dc.end(), (int) y) - dc.begin());
        REQUIRE(b < dc.size(), "class", "prediction " << y << " is no class");
        want[a][b]++;
    }
    c.show() << "knn on " << n;
    REQUIRE(cf == want, "cell", "confusion matrix differs from the predictions");
    if (n >= 6) c.nontrivial();
}
