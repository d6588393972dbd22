#include "dual.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
#include "ufjfmltk/classifier/SMO.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
#include "ufjfmltk/classifier/OneVsAll.hpp"
#include "ufjfmltk/classifier/OneVsOne.hpp"
#include "ufjfmltk/regressor/LMS.hpp"
#include "ufjfmltk/regressor/KNNRegressor.hpp"
#include "ufjfmltk/clusterer/KMeans.hpp"
#include "ufjfmltk/ensemble/VotingClassifier.hpp"
#include "ufjfmltk/ensemble/BaggingClassifier.hpp"
#include "ufjfmltk/ensemble/AdaBoostClassifier.hpp"
#include "ufjfmltk/ensemble/PerceptronCommittee.hpp"
using namespace cm;
namespace K = mltk::classifier; namespace E = mltk::ensemble; namespace G = mltk::regressor; namespace U = mltk::clusterer;
static bool same(double a, double b) { return a == b || (a != a && b != b); }
static bool same(V const &a, V const &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
// everything a user sees of a learner
struct Seen { V pred, raw, w, alpha, set; double bias = 0, margin = 0, norm = 0; int ok = -1; bool operator==(Seen const &o) const { return same(pred, o.pred) && same(raw, o.raw) && same(w, o.w) && same(alpha, o.alpha) && same(set, o.set) && same(bias, o.bias) && same(margin, o.margin) && same(norm, o.norm) && ok == o.ok; }
    std::string str() const { std::ostringstream s; s << "trained " << ok << ", predictions " << vs(pred) << " raw " << vs(raw) << " weights " << vs(w) << " " << bias << " multipliers " << vs(alpha) << " margin " << margin << " norm " << norm << " counters and settings " << vs(set); return s.str(); } };
struct World { Rows a, b, far; std::vector<V> q; bool trained = false; };
template<class L> static void peek(L &l, Seen &s) {
    if constexpr (std::is_base_of<K::Classifier<double>, L>::value && !std::is_base_of<E::Ensemble<double>, L>::value && !std::is_same<L, K::OneVsAll<double>>::value && !std::is_same<L, K::OneVsOne<double>>::value) { auto z = l.getSolution(); s.w = z.w.X(); s.alpha.assign(z.alpha.begin(), z.alpha.end()); s.bias = z.bias; s.margin = z.margin; s.norm = z.norm; }
}
template<class L> static V settings(L &l) {
    V s{l.getMaxTime()}; constexpr bool multi = std::is_same<L, K::OneVsAll<double>>::value || std::is_same<L, K::OneVsOne<double>>::value;
    if constexpr (!std::is_base_of<E::Ensemble<double>, L>::value) { s.push_back(l.getSteps()); s.push_back(l.getCtot()); s.push_back(l.getUpdates()); s.push_back(l.getPredictionProbability()); }
    if constexpr (!multi && std::is_base_of<K::PrimalClassifier<double>, L>::value) { s.push_back(l.getQ()); s.push_back(l.getP()); }
    if constexpr (!multi && std::is_base_of<K::DualClassifier<double>, L>::value) { s.push_back(l.getKernelType()); s.push_back(l.getKernelParam()); for (double v: l.getAlphaVector()) s.push_back(v); if (l.getKernel()) { s.push_back(l.getKernel()->getType()); s.push_back(l.getKernel()->getParam()); } }
    return s;
}
template<class L> static Seen see(L &l, World const &w, int ok) { Seen s; s.ok = ok; for (auto &x: w.q) { Pt p(x); s.pred.push_back(l.evaluate(p, false)); if (!std::is_base_of<E::Ensemble<double>, L>::value) s.raw.push_back(l.evaluate(p, true)); } peek(l, s); s.set = settings(l); return s; }
template<class L> static void kernel(L &l) { if constexpr (std::is_base_of<K::DualClassifier<double>, L>::value) l.recomputeKernel(); }
template<class L> static Seen learn(L &l, Rows const &r, World const &w) { D d = mk(r, true); l.setSamples(mltk::make_data<double>(d)); kernel(l); bool ok = l.train(); return see(l, w, ok); }
// what is done to a copy must not show in the original
template<class L> static void abuse(Ctx &c, L &m, World const &w) {
    for (int n = (int) c.i(1, 3); n-- > 0;) switch (c.i(0, 6)) {
        case 0: c.show() << "; copy trained on other data"; learn(m, c.flip() ? w.b : w.far, w.far[0].x.size() == w.a[0].x.size() ? w : World()); c.label("copy trained"); break;
        case 1: c.show() << "; copy trained again"; { kernel(m); m.train(); } break;
        case 2: if constexpr (std::is_base_of<K::DualClassifier<double>, L>::value) { c.show() << "; kernel of the copy changed"; m.setKernelType(mltk::POLYNOMIAL); m.setKernelParam(2); kernel(m); c.label("kernel of the copy changed"); } break;
        case 3: { D d = mk(w.far, true); c.show() << "; copy given other data"; m.setSamples(mltk::make_data<double>(d)); kernel(m); break; }
        case 4: m.setLearningRate(0.01); m.setMaxUpdates(1); m.setMaxIterations(1); m.setMaxEpochs(1); m.setSeed(77); m.setMaxTime(0); c.show() << "; settings of the copy changed"; break;
        case 5: if constexpr (std::is_base_of<K::PrimalClassifier<double>, L>::value) { m.setqNorm(1); m.setFlexible(0.5); c.show() << "; norm of the copy changed"; } if constexpr (std::is_base_of<K::Classifier<double>, L>::value) m.setGamma(3); break;
        default: if constexpr (std::is_base_of<K::Classifier<double>, L>::value && !std::is_base_of<E::Ensemble<double>, L>::value) { c.show() << "; solution of the copy replaced"; mltk::Solution s; s.w = V(w.a[0].x.size(), 2.0); s.alpha.assign(w.a.size(), 1.0); s.bias = 5; m.setSolution(s); } break;
    }
}
template<class L, class Make> static void copies(Ctx &c, World &w, Make make, bool kept = true) {
    auto l = make(), r = make(), spare = make();         // twins: whatever happens to the copies of the first must not tell them apart
    Seen was;
    if (w.trained) { was = see(*l, w, (kernel(*l), l->train())); Seen t = see(*r, w, (kernel(*r), r->train())); REQUIRE(was == t, "twins", "two learners made alike differ: " << was.str() << " and " << t.str()); }
    auto early = std::make_unique<L>(*l), m = std::make_unique<L>(*l);
    if constexpr (std::is_copy_assignable<L>::value) if (c.chance(40)) { c.show() << "; assigned to another learner"; c.label("assigned"); abuse(c, *spare, w); *spare = *l; std::swap(c.flip() ? early : m, spare); }
    if (w.trained && kept) { Seen t = see(*m, w, was.ok); REQUIRE(was == t, "copy", "the copy of a trained learner differs, it has " << t.str() << " and the learner has " << was.str()); }
    abuse(c, *m, w);
    if (c.flip()) m.reset(); else if (c.flip()) { m = std::make_unique<L>(*early); c.show() << "; copied once more"; }
    if (w.trained) { Seen t = see(*l, w, was.ok); REQUIRE(was == t, "independent", "the learner changed with its copy, it has " << t.str() << " and had " << was.str()); }
    if (w.trained && kept) { Seen t = see(*early, w, was.ok); REQUIRE(was == t, "copies", "a copy changed with another copy, it has " << t.str() << " and had " << was.str()); }
    bool first = c.flip(); Seen sl, se;
    if (first) { sl = learn(*l, w.b, w); se = learn(*early, w.b, w); } else { se = learn(*early, w.b, w); sl = learn(*l, w.b, w); }
    Seen sr = learn(*r, w.b, w);
    REQUIRE(sl == sr, "retrain", "after its copies were used the learner becomes " << sl.str() << " and its twin " << sr.str());
    REQUIRE(se == sr, "train-copy", "trained on the same data the copy becomes " << se.str() << " and the learner " << sr.str());
    Seen again = see(*l, w, sl.ok); REQUIRE(again == sl, "late", "the learner became " << again.str() << " while its copy was trained");
}
static World world(Ctx &c, int kind) {       // 0 two classes, 1 several classes, 2 real targets
    World w; size_t dim = (size_t) c.wide(1, 3, 8); auto cls = kind == 1 ? gen_classes(c, (size_t) c.i(2, 4)) : std::vector<int>{-1, 1};
    auto gen = [&](size_t d) { Rows r; if (kind == 0 && c.chance(70)) r = gen_bin(c, (int) c.i(1, 2), 10, d).r; else r = gen_rows_all(c, (size_t) c.len(4, 12) , d, cls, 0); for (size_t i = 0; i < r.size(); i++) { r[i].id = i + 1; r[i].alpha = 0; if (kind == 2) r[i].y = c.dy(4); } return r; };
    w.a = gen(dim); w.b = gen(dim); w.far = c.chance(70) ? gen(dim) : gen((size_t) c.i(1, 4));
    for (int i = 0; i < 5; i++) { V x(dim); for (auto &v: x) v = c.dy(6); w.q.push_back(x); }
    w.trained = c.chance(75); if (w.trained) c.nontrivial();
    return w;
}
#define NT "the learner is trained before it is copied"
template<class L> static void limits(Ctx &c, L &l, int up, int it, int ep) { l.setVerbose(0); l.setMaxTime(1e9); l.setMaxUpdates(up); l.setMaxIterations(it); l.setMaxEpochs(ep); }
struct Lim { int up, it, ep; };
static Lim lim(Ctx &c) { Lim m{(int) c.pick(std::vector<int>{3, 20, 200}), (int) c.pick(std::vector<int>{2, 20, 200}), (int) c.pick(std::vector<int>{1, 5, 40})}; c.show() << "limits " << m.up << " updates " << m.it << " iterations " << m.ep << " epochs; "; return m; }
LAW(primal, 4, NT) {
    World w = world(c, 0); int which = (int) c.i(0, 4); static const char *n[] = {"perceptron", "fixed margin perceptron", "balanced perceptron", "IMA", "fixed margin IMA"}; c.show() << n[which] << " "; c.label(n[which]);
    Lim m = lim(c); double rate = c.pick(std::vector<double>{0.5, 1, 0.25}), q = c.pick(std::vector<double>{2, 1, -1, 3}), gamma = c.flip() ? 0 : c.dy(1, 8) + 1, flex = c.chance(30) ? 0.25 : 0; size_t seed = (size_t) c.i(1, 50); bool start = c.chance(25); if (start && w.far[0].x.size() != w.a[0].x.size()) w.far = w.b; // an initial solution has as many weights as the samples have features
    mltk::Solution s; V sw(w.a[0].x.size()); for (auto &v: sw) v = 1 + c.dy(2, 4) / 4; s.w = sw; s.bias = 0.5; s.norm = std::sqrt(ip(sw, sw)); s.func = V(w.a.size(), 0.0);
    c.show() << "rate " << rate << " norm " << q << " margin " << gamma << " flexible " << flex << (start ? " with an initial solution" : "") << (w.trained ? " trained" : "") << " on " << str(w.a, 12) << " then " << str(w.b, 12) << ", other data " << str(w.far, 6);
    D d = mk(w.a, true); auto set = [&](auto &l) { limits(c, l, m.up, m.it, m.ep); l.setLearningRate(rate); l.setqNorm(q); l.setpNorm(q == 1 ? -1 : q == -1 ? 1 : q / (q - 1)); l.setFlexible(flex); l.setSeed(seed); };
    if (start) c.label("initial solution");
    if (which == 0) copies<K::PerceptronPrimal<double>>(c, w, [&] { auto l = std::make_unique<K::PerceptronPrimal<double>>(d, q, rate, start ? &s : nullptr); set(*l); return l; });
    else if (which == 1) copies<K::PerceptronFixedMarginPrimal<double>>(c, w, [&] { auto l = std::make_unique<K::PerceptronFixedMarginPrimal<double>>(d, gamma, q, rate, start ? &s : nullptr); set(*l); return l; });
    else if (which == 2) copies<K::BalancedPerceptron<double>>(c, w, [&] { auto l = std::make_unique<K::BalancedPerceptron<double>>(d, seed); set(*l); return l; });
    else if (which == 3) copies<K::IMAp<double>>(c, w, [&] { auto l = std::make_unique<K::IMAp<double>>(d, (int) q, flex, 0.0, start ? &s : nullptr); set(*l); return l; });
    else copies<K::IMApFixedMargin<double>>(c, w, [&] { auto l = std::make_unique<K::IMApFixedMargin<double>>(d, gamma, start ? &s : nullptr); set(*l); return l; });
}
LAW(dual, 4, NT) {
    World w = world(c, 0); int which = (int) c.i(0, 3); static const char *n[] = {"dual perceptron", "dual fixed margin perceptron", "dual IMA", "SMO"}; c.show() << n[which] << " "; c.label(n[which]); Ker k = gen_kernel(c);
    Lim m = lim(c); double rate = c.pick(std::vector<double>{0.5, 1, 0.25}), gamma = c.flip() ? 0 : c.dy(1, 8) + 1; bool late = c.flip();
    c.show() << k.name() << " rate " << rate << " margin " << gamma << (w.trained ? " trained" : "") << " on " << str(w.a, 12) << " then " << str(w.b, 12) << ", other data " << str(w.far, 6);
    D d = mk(w.a, true); auto set = [&](auto &l) { limits(c, l, m.up, m.it, m.ep); l.setLearningRate(rate); if (late) { l.setKernelType(k.kt()); l.setKernelParam(k.param); } };
    auto kt = late ? mltk::INNER_PRODUCT : k.kt(); double kp = late ? 0 : k.param;
    if (which == 0) { bool bare = late && c.flip(); copies<K::PerceptronDual<double>>(c, w, [&] { auto l = bare ? std::make_unique<K::PerceptronDual<double>>(d, rate) : std::make_unique<K::PerceptronDual<double>>(d, kt, kp, rate); set(*l); return l; }); }
    else if (which == 1) copies<K::PerceptronFixedMarginDual<double>>(c, w, [&] { auto l = std::make_unique<K::PerceptronFixedMarginDual<double>>(d, kt, kp, gamma, rate); set(*l); return l; });
    else if (which == 2) copies<K::IMADual<double>>(c, w, [&] { auto l = std::make_unique<K::IMADual<double>>(d, kt, kp, rate); set(*l); return l; });
    else copies<K::SMO<double>>(c, w, [&] { auto l = std::make_unique<K::SMO<double>>(d, kt, kp); set(*l); return l; });
}
LAW(neighbors, 2, NT) {
    bool reg = c.flip(); World w = world(c, reg ? 2 : 1); size_t k = (size_t) c.i(1, (long) std::min(std::min(w.a.size(), w.b.size()), w.far.size())); c.show() << (reg ? "nearest neighbor regression k " : "nearest neighbor classification k ") << k << " on " << str(w.a, 12) << " then " << str(w.b, 12) << ", other data " << str(w.far, 6);
    D d = mk(w.a, true); c.label(reg ? "neighbor regression" : "neighbor classification");
    if (reg) copies<G::KNNRegressor<double>>(c, w, [&] { auto l = std::make_unique<G::KNNRegressor<double>>(d, k); l->setVerbose(0); return l; });
    else copies<K::KNNClassifier<double>>(c, w, [&] { auto l = std::make_unique<K::KNNClassifier<double>>(d, k); l->setVerbose(0); return l; });
}
LAW(regression, 2, NT) {
    World w = world(c, 2); double rate = c.pick(std::vector<double>{0.001, 0.01, 0.0625}); Lim m = lim(c); c.show() << "LMS rate " << rate << " on " << str(w.a, 12) << " then " << str(w.b, 12) << ", other data " << str(w.far, 6); D d = mk(w.a, true);
    copies<G::LMSPrimal<double>>(c, w, [&] { auto l = std::make_unique<G::LMSPrimal<double>>(d, rate); limits(c, *l, m.up, m.it, m.ep); return l; });
}
LAW(clustering, 2, NT) {
    World w = world(c, 2); size_t k = (size_t) c.i(1, (long) std::min(std::min(w.a.size(), w.b.size()), w.far.size())), seed = (size_t) c.i(1, 50); std::string init = c.flip() ? "random" : "kmeanspp"; c.show() << "k-means k " << k << " " << init << " seed " << seed << " on " << str(w.a, 12) << " then " << str(w.b, 12) << ", other data " << str(w.far, 6); D d = mk(w.a, true);
    copies<U::KMeans<double>>(c, w, [&] { auto l = std::make_unique<U::KMeans<double>>(d, k, init, seed, 0); limits(c, *l, 100, 100, 100); return l; });
}
template<template<typename> class B, class Conf> static void multi(Ctx &c, World &w, Conf conf) {
    D d = mk(w.a, true); bool ovo = c.flip(); c.show() << (ovo ? " one-versus-one" : " one-versus-all");
    if (ovo) copies<K::OneVsOne<double>>(c, w, [&] { B<double> b; conf(b); auto l = std::make_unique<K::OneVsOne<double>>(d, b); l->setVerbose(0); return l; });
    else copies<K::OneVsAll<double>>(c, w, [&] { B<double> b; conf(b); auto l = std::make_unique<K::OneVsAll<double>>(d, b); l->setVerbose(0); return l; });
}
LAW(wrappers, 3, NT) {
    World w = world(c, 1); int which = (int) c.i(0, 3); static const char *n[] = {"perceptrons", "IMA", "SMO", "dual perceptrons"}; c.show() << n[which] << " "; c.label(n[which]); Lim m = lim(c); Ker k = gen_kernel(c);
    c.show() << k.name() << (w.trained ? " trained" : "") << " on " << str(w.a, 12) << " then " << str(w.b, 12) << ", other data " << str(w.far, 6);
    auto base = [&](auto &b) { limits(c, b, m.up, m.it, m.ep); }; auto kern = [&](auto &b) { base(b); b.setKernelType(k.kt()); b.setKernelParam(k.param); };
    if (which == 0) multi<K::PerceptronPrimal>(c, w, base); else if (which == 1) multi<K::IMAp>(c, w, base); else if (which == 2) multi<K::SMO>(c, w, kern); else multi<K::PerceptronDual>(c, w, kern);
}
LAW(ensembles, 4, NT) {
    World w = world(c, 1); int which = (int) c.i(0, 4); static const char *n[] = {"voting", "bagging", "boosting", "committee", "bagging of wrappers"}; c.show() << n[which]; c.label(n[which]); size_t k = (size_t) c.i(1, 2), e = (size_t) c.i(1, 4), seed = (size_t) c.i(1, 50);
    if (which == 1 || which == 4) { e = std::min(e, std::min(std::min(w.a.size(), w.b.size()), w.far.size()) / 4); if (!e) e = 1; }
    if (which == 3) { for (auto *r: {&w.a, &w.b, &w.far}) for (size_t i = 0; i < r->size(); i++) { auto &p = (*r)[i]; p.y = i % 2 ? 1 : -1; p.x[0] = p.y * (1 + std::abs(p.x[0])); } } // separable: the members stop by themselves
    c.show() << " of " << e << " seed " << seed << " k " << k << (w.trained ? " trained" : "") << " on " << str(w.a, 12) << " then " << str(w.b, 12) << ", other data " << str(w.far, 6);
    D d = mk(w.a, true); auto set = [&](auto &l) { l.setVerbose(0); l.setMaxTime(1e9); l.setMaxUpdates(50); l.setMaxIterations(50); l.setMaxEpochs(20); l.setSeed(seed); };
    if (which == 0) copies<E::VotingClassifier<double>>(c, w, [&] { K::KNNClassifier<double> a(1), b(k); K::PerceptronPrimal<double> p; set(p); K::OneVsAll<double> o(d, p); auto l = std::make_unique<E::VotingClassifier<double>>(d, "hard", a, o, b); l->setVerbose(0); l->setSeed(seed); return l; });
    else if (which == 1) copies<E::BaggingClassifier<double>>(c, w, [&] { K::KNNClassifier<double> a(1); auto l = std::make_unique<E::BaggingClassifier<double>>(d, a, e, seed); l->setVerbose(0); return l; });
    else if (which == 2) copies<E::AdaBoostClassifier<double>>(c, w, [&] { K::PerceptronPrimal<double> p; set(p); K::OneVsAll<double> o(d, p); auto l = std::make_unique<E::AdaBoostClassifier<double>>(d, o, e); l->setVerbose(0); l->setSeed(seed); return l; });
    else if (which == 3) copies<E::PerceptronCommittee<double>>(c, w, [&] { auto l = std::make_unique<E::PerceptronCommittee<double>>(d, e); l->setVerbose(0); l->setSeed(seed); return l; });
    else copies<E::BaggingClassifier<double>>(c, w, [&] { K::PerceptronPrimal<double> p; set(p); K::OneVsOne<double> o(d, p); auto l = std::make_unique<E::BaggingClassifier<double>>(d, o, e, seed); l->setVerbose(0); return l; });
}
