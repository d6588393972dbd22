#include "binary.hpp"
#include <chrono>
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
#include "ufjfmltk/ensemble/VotingClassifier.hpp"
#include "ufjfmltk/ensemble/BaggingClassifier.hpp"
#include "ufjfmltk/ensemble/AdaBoostClassifier.hpp"
#include "ufjfmltk/ensemble/PerceptronCommittee.hpp"
using namespace cm;
namespace E = mltk::ensemble; namespace K = mltk::classifier;
// a member that remembers what it is trained on and predicts by a fixed function of the query, its setting and (if asked to) its seed
struct Seen { int cfg; size_t seed; Rows r; std::vector<int> cls; };
static std::vector<Seen> seen;
struct Setting { int cfg = 0; std::vector<double> out; bool seeded = false; int hit = 0; };
template<typename T> class Member : public K::Classifier<T> {
public:
    Setting s; bool trained = false;
    Member() = default;
    explicit Member(Setting const &s) : s(s) {}
    bool train() override { trained = true; seen.push_back({s.cfg, this->seed, rows(*this->samples), this->samples->classes()}); return true; }
    double predict(V const &x, double truth) const {
        uint64_t h = (uint64_t) s.cfg * 0x9e3779b97f4a7c15ull + 77; if (s.seeded) h += this->seed * 0xd1342543de82ef95ull;
        for (double v: x) { h ^= (uint64_t) (int64_t) std::llround(v * 16); h *= 0x100000001b3ull; h ^= h >> 31; }
        h *= 0x9e3779b97f4a7c15ull; h ^= h >> 30;
        if (truth == truth && (int) ((h >> 20) % 100) < s.hit) return truth;
        return s.out[(size_t) ((h >> 33) % s.out.size())];
    }
    static std::map<V, double> truth;
    double evaluate(const mltk::Point<T> &p, bool = false) override { auto it = truth.find(p.X()); return predict(p.X(), it == truth.end() ? NAN : it->second); }
    std::string getFormulationString() override { return "Primal"; }
};
template<typename T> std::map<V, double> Member<T>::truth;
using M = Member<double>;
static void remember(Rows const &r) { for (auto &p: r) M::truth[p.x] = p.y; }
static Rows gen(Ctx &c, size_t k, size_t dim, size_t lo, size_t hi) { auto cls = gen_classes(c, k); return gen_rows_all(c, std::max((size_t) c.lenw((long) lo, (long) hi, 6 * (long) hi), k), dim, cls, (int) c.i(0, 1)); }
static std::vector<double> labels(Rows const &r) { std::set<double> s; for (auto &p: r) s.insert(p.y); return {s.begin(), s.end()}; }
static Setting setting(Ctx &c, int cfg, std::vector<double> const &lab, bool strangers) { Setting s; s.cfg = cfg; size_t n = (size_t) c.i(1, (long) lab.size()); auto o = c.perm(lab.size()); for (size_t i = 0; i < n; i++) s.out.push_back(lab[o[i]]); if (strangers && c.chance(30)) s.out.push_back(77); s.hit = (int) c.i(0, 95); return s; }
static V query(Ctx &c, Rows const &r, size_t dim) { if (c.flip()) return r[(size_t) c.draw(r.size() - 1)].x; V x(dim); for (auto &v: x) v = (double) c.z(6); return x; }
static std::string say(std::vector<Setting> const &s) { std::ostringstream o; for (auto &x: s) o << " {" << x.cfg << " hits " << x.hit << "% else " << vs(x.out) << "}"; return o.str(); }
// the prediction must be a training class with the largest total
static void maximal(Ctx &c, double pred, std::map<double, double> const &tot, std::vector<double> const &lab, double tol, char const *what) {
    REQUIRE(std::find(lab.begin(), lab.end(), pred) != lab.end(), "class", what << " predicts " << pred << ", which is no training class");
    double best = -1e300; for (double y: lab) best = std::max(best, tot.count(y) ? tot.at(y) : 0.0); double mine = tot.count(pred) ? tot.at(pred) : 0.0;
    std::ostringstream o; for (auto &t: tot) o << " " << t.first << ": " << t.second;
    REQUIRE(mine >= best - tol, "vote", what << " predicts " << pred << " with votes" << o.str());
}
static bool unique_best(std::map<double, double> const &tot, std::vector<double> const &lab, double &who) { double best = -1e300; int n = 0; for (double y: lab) { double v = tot.count(y) ? tot.at(y) : 0.0; if (v > best) { best = v; n = 1; who = y; } else if (v == best) n++; } return n == 1; }
template<class En> static En build(D &d, std::string const &type, std::vector<Setting> const &s) { switch (s.size()) { case 1: return En(d, type, M(s[0])); case 2: return En(d, type, M(s[0]), M(s[1])); case 3: return En(d, type, M(s[0]), M(s[1]), M(s[2])); case 4: return En(d, type, M(s[0]), M(s[1]), M(s[2]), M(s[3])); default: return En(d, type, M(s[0]), M(s[1]), M(s[2]), M(s[3]), M(s[4])); } }
LAW(voting, 4, "three or more members and two or more classes") {
    M::truth.clear(); size_t dim = (size_t) c.wide(1, 3, 12); Rows r = gen(c, (size_t) c.wide(1, 4, 9), dim, 1, 16); D d = mk(r, true); remember(r); auto lab = labels(r);
    size_t m = (size_t) c.i(1, 5); std::vector<Setting> s; for (size_t i = 0; i < m; i++) s.push_back(setting(c, (int) i + 10 * (int) c.i(0, 9), lab, true));
    bool soft = c.flip(), viaset = c.chance(30), reuse = c.chance(20); std::vector<double> w(m); for (auto &v: w) v = (double) c.i(0, 32) / 8; size_t seed = (size_t) c.i(0, 50);
    c.show() << "voting (" << (soft ? "soft, weights " + vs(w) : std::string("hard")) << ") of" << say(s) << " on " << str(r, 20);
    auto v = build<E::VotingClassifier<double>>(d, soft && !reuse ? "soft" : "hard", s);
    std::vector<mltk::LearnerPointer<double>> own; if (viaset) { for (auto &x: s) own.push_back(std::make_shared<M>(x)); v.setLearners(own); }
    REQUIRE(v.size() == m, "members", v.size() << " members instead of " << m);
    v.setSeed(seed); if (soft) v.setWeights(w);
    Rows cur = r; int rounds = (int) c.i(1, 2); bool moved = false;
    for (int round = 0; round < rounds; round++) {
        seen.clear(); v.train();
        REQUIRE(seen.size() == m, "trained", seen.size() << " trainings for " << m << " members"); std::multiset<int> a, b;
        for (auto &x: seen) { a.insert(x.cfg); REQUIRE(sorted(x.r) == sorted(cur), "training-set", "a member was trained on " << str(x.r, 20)); REQUIRE(x.seed == seed, "seed", "a member was trained with seed " << x.seed << " instead of " << seed); } for (auto &x: s) b.insert(x.cfg);
        REQUIRE(a == b, "each-member", "not every member was trained once");
        auto votes = [&](V const &x, std::vector<double> const &w) { std::map<double, double> t; for (size_t i = 0; i < m; i++) { Pt q(x); double y = M(s[i]).evaluate(q); t[y] += w[i]; } return t; };
        auto ask = [&](E::VotingClassifier<double> &e, V const &x) { Pt q(x); double y = e.evaluate(q); REQUIRE(q.X() == x, "query", "the query was changed"); return y; };
        for (int t = 0; t < 4; t++) {
            V x = query(c, cur, dim); std::vector<double> one(m, 1);
            if (soft && reuse) { v.setVotingType("hard"); maximal(c, ask(v, x), votes(x, one), lab, 0, "hard voting"); v.setVotingType("soft"); auto g = v.getWeights().X(); REQUIRE(g == w, "weights", "the weights are " << vs(g) << " after a hard vote, they were set to " << vs(w)); c.label("both types"); }
            double y = ask(v, x); auto tot = votes(x, soft ? w : one); maximal(c, y, tot, lab, 0, soft ? "soft voting" : "hard voting");
            double who; if (soft && unique_best(tot, lab, who)) {   // more weight for voters of the winner
                std::vector<double> more = w; for (size_t i = 0; i < m; i++) { Pt q(x); if (M(s[i]).evaluate(q) == who) more[i] += (double) c.i(0, 16) / 8; }
                v.setWeights(more); REQUIRE(ask(v, x) == who, "monotone", "with more weight for its voters class " << who << " loses"); v.setWeights(w);
            }
        }
        { E::VotingClassifier<double> cp(v), as = build<E::VotingClassifier<double>>(d, "hard", {s[0]}); auto &ret = (as = v); REQUIRE(&ret == &as, "assign", "assignment does not return its object"); V x = query(c, cur, dim); double y = ask(v, x); auto tot = votes(x, soft ? w : std::vector<double>(m, 1)); maximal(c, ask(cp, x), tot, lab, 0, "a copy"); maximal(c, ask(as, x), tot, lab, 0, "an assigned classifier"); (void) y; }
        if (round + 1 < rounds && !moved) { moved = true; size_t k = lab.size(); (void) k; cur = gen(c, (size_t) c.wide(1, 4, 9), dim, 1, 16); M::truth.clear(); remember(cur); lab = labels(cur); D d2 = mk(cur, true); auto sh = std::make_shared<D>(d2); static_cast<E::Ensemble<double> &>(v).setSamples(sh); c.show() << ", then on " << str(cur, 20); c.label("other samples"); }
    }
    c.label(soft ? "soft" : "hard"); if (m >= 3 && lab.size() >= 2) c.nontrivial();
}
LAW(bagging, 3, "three or more members, two or more classes, ten or more points") {
    M::truth.clear(); size_t dim = (size_t) c.wide(1, 3, 12); Rows r = gen(c, (size_t) c.wide(1, 4, 9), dim, 1, 40); D d = mk(r, true); remember(r); auto lab = labels(r);
    size_t m = (size_t) c.wide(1, 9, 20), seed = (size_t) c.i(1, 300); Setting s = setting(c, (int) c.i(0, 50), lab, true); s.seeded = true; bool viaset = c.flip();
    c.show() << "bagging of " << m << say({s}) << " seed " << seed << (viaset ? " (setSeed)" : "") << " on " << str(r, 40);
    E::BaggingClassifier<double> b(d, M(s), m, viaset ? 0 : seed); if (viaset) b.setSeed(seed);
    REQUIRE(b.size() == m, "members", b.size() << " members instead of " << m);
    seen.clear(); b.train(); auto first = seen;
    REQUIRE(seen.size() == m, "trained", seen.size() << " trainings for " << m << " members");
    std::set<std::pair<V, double>> all; for (auto &p: r) all.insert({p.x, p.y}); std::set<size_t> seeds; std::set<std::string> sets; size_t big = 0;
    for (auto &x: seen) { REQUIRE(!x.r.empty(), "empty", "a member was trained without points"); REQUIRE(x.r.size() <= std::max(r.size(), lab.size()), "too-many", "a member was trained on " << x.r.size() << " points of " << r.size()); std::set<double> have; for (auto &p: x.r) { REQUIRE(all.count({p.x, p.y}), "foreign", "a member was trained on " << str(p) << ", which is no training point"); have.insert(p.y); } REQUIRE(have.size() == lab.size(), "member-classes", "a member was trained on " << have.size() << " of " << lab.size() << " classes"); seeds.insert(x.seed); sets.insert(str(noid(sorted(noid(x.r))), 100)); big += x.r.size() >= 3; }
    REQUIRE(seeds.size() == m, "member-seeds", seeds.size() << " different seeds for " << m << " members");
    std::set<V> px; for (auto &p: r) px.insert(p.x); if (big >= 6 && px.size() == r.size() && r.size() >= 18 * lab.size()) REQUIRE(sets.size() > 1, "same-samples", "all " << m << " members were trained on the same sample");
    auto lr = b.learners();
    for (int t = 0; t < 5; t++) { V x = query(c, r, dim); Pt q(x); double y = b.evaluate(q); std::map<double, double> tot; for (auto &l: lr) { Pt z(x); tot[l->evaluate(z)] += 1; } maximal(c, y, tot, lab, 0, "bagging"); REQUIRE(q.X() == x, "query", "the query was changed"); }
    if (c.flip()) { seen.clear(); b.train(); REQUIRE(seen.size() == m, "retrained", seen.size() << " trainings for " << m << " members"); for (size_t i = 0; i < m; i++) REQUIRE(noid(seen[i].r) == noid(first[i].r), "same-seed", "training again with the same seed gives member " << i << " another sample"); c.label("trained again"); }
    if (m >= 3 && lab.size() >= 2 && r.size() >= 10) c.nontrivial();
}
LAW(boosting, 4, "three or more members of which two or more err") {
    M::truth.clear(); size_t dim = (size_t) c.wide(1, 3, 12), k = (size_t) c.i(2, c.chance(30) ? 7 : 4); Rows r = gen(c, k, dim, 4, 20); { std::set<V> s; Rows q; for (auto &p: r) if (s.insert(p.x).second) q.push_back(p); r = q; } auto lab = labels(r); if (lab.size() < 2) return;
    for (size_t i = 0; i < r.size(); i++) r[i].id = i + 1; remember(r); D d = mk(r, true); size_t m = (size_t) c.i(1, 6), seed = (size_t) c.i(0, 300); Setting s; s.cfg = (int) c.i(0, 50); s.out = lab; s.seeded = true; s.hit = (int) c.i(20, 95);
    c.show() << "boosting of " << m << say({s}) << " seed " << seed << " on " << str(r, 24);
    E::AdaBoostClassifier<double> a(d, M(s), m); a.setSeed(seed); REQUIRE(a.size() == m, "members", a.size() << " members instead of " << m);
    seen.clear(); a.train(); REQUIRE(seen.size() == m, "trained", seen.size() << " trainings for " << m << " members"); std::set<size_t> seeds; for (auto &x: seen) { REQUIRE(sorted(x.r) == sorted(r), "training-set", "a member was trained on " << str(x.r, 24)); seeds.insert(x.seed); } REQUIRE(seeds.size() == m, "member-seeds", seeds.size() << " different seeds for " << m << " members");
    auto lr = a.learners(); size_t n = r.size(); std::vector<long double> w(n, 1.0L / n); std::vector<double> al; size_t err = 0;
    for (auto &l: lr) { long double e = 0, z = 0; std::vector<char> miss(n, 0); for (size_t i = 0; i < n; i++) { Pt q(r[i].x); miss[i] = l->evaluate(q) != r[i].y; if (miss[i]) e += w[i]; } err += e > 0; if (e > 1 - 1e-6L) return; long double x = (e > 0 ? logl((1 - e) / e) : 1) + logl((long double) lab.size() - 1); al.push_back((double) x); for (size_t i = 0; i < n; i++) { if (miss[i]) w[i] *= expl(x); z += w[i]; } for (auto &v: w) v /= z; }
    for (int t = 0; t < 6; t++) { V x = query(c, r, dim); Pt q(x); double y = a.evaluate(q); std::map<double, double> tot; double scale = 1; for (size_t i = 0; i < m; i++) { Pt z(x); tot[lr[i]->evaluate(z)] += al[i]; scale += fabs(al[i]); } maximal(c, y, tot, lab, 1e-9 * scale, "boosting"); }
    if (m >= 3 && err >= 2) c.nontrivial();
}
LAW(committee, 2, "three or more members, six or more points") {
    auto b = gen_bin(c, (int) c.i(0, 3), 16); size_t m = (size_t) c.i(1, 7), seed = (size_t) c.i(0, 300); bool pm = !c.chance(30); Rows r = b.r; size_t dim = r[0].x.size(); if (!pm) for (auto &p: r) p.y = p.y > 0 ? 1 : 2; auto lab = labels(r); D d = mk(r, true);
    c.show() << "committee of " << m << " seed " << seed << " on " << str(r, 20);
    E::PerceptronCommittee<double> e(d, m); e.setSeed(seed); e.setVerbose(0); if (!pm && c.flip()) return;
    if (!pm) { if (r.size() > 8) return; }
    // an inseparable set would train until the time is over: only members of separable sets are trained to the end
    if (!b.separable || !pm) { c.label("not separable"); if (c.i(0, 40) != 0) return; }
    auto t0 = std::chrono::steady_clock::now(); e.train(); bool quick = std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(80);   // members stop after 110 ms
    REQUIRE(e.size() == m, "members", e.size() << " members instead of " << m); auto lr = e.learners();
    for (auto &l: lr) REQUIRE(l->getSamples()->size() == r.size() && sorted(rows(*l->getSamples())) == sorted(r), "training-set", "a member holds other points");
    for (int t = 0; t < 5; t++) { V x = query(c, r, dim); Pt q(x); double y = e.evaluate(q); std::map<double, double> tot; for (auto &l: lr) { Pt z(x); tot[l->evaluate(z)] += 1; } maximal(c, y, tot, lab, 0, "the committee"); }
    if (b.separable && pm && quick) for (size_t i = 0; i < r.size(); i++) { Pt q(r[i].x); std::map<double, double> tot; for (auto &l: lr) tot[l->evaluate(q)] += 1; REQUIRE(tot[r[i].y] == (double) m, "member-trained", "a member of the committee misses the training point " << str(r[i]) << " of a separable set"); }
    if (m >= 3 && r.size() >= 6) c.nontrivial();
}
LAW(real_members, 2, "two classes or more and six or more points") {
    M::truth.clear(); size_t dim = (size_t) c.wide(1, 3, 12); Rows r = gen(c, (size_t) c.i(2, 4), dim, 4, 20); D d = mk(r, true); auto lab = labels(r); size_t seed = (size_t) c.i(1, 300); int kind = (int) c.i(0, 2);
    K::KNNClassifier<double> k1(1), k3((size_t) c.i(1, 4)); c.show() << (kind == 0 ? "voting" : kind == 1 ? "bagging" : "boosting") << " of nearest neighbor classifiers on " << str(r, 20);
    std::unique_ptr<E::Ensemble<double>> e; if (kind == 0) e = std::make_unique<E::VotingClassifier<double>>(d, "hard", k1, k3, k1); else if (kind == 1) e = std::make_unique<E::BaggingClassifier<double>>(d, k1, (size_t) c.i(1, 5), seed); else e = std::make_unique<E::AdaBoostClassifier<double>>(d, k1, (size_t) c.i(1, 4));
    e->train(); auto lr = e->learners(); bool pure = true; for (auto &l: lr) for (auto &p: r) { Pt q(p.x); pure = pure && l->evaluate(q) == p.y; }   // members without errors have equal, positive importances
    for (int t = 0; t < 5; t++) { V x = query(c, r, dim); Pt q(x); double y = e->evaluate(q); std::map<double, double> tot; std::set<double> said; for (auto &l: lr) { Pt z(x); double v = l->evaluate(z); tot[v] += 1; said.insert(v); } if (kind < 2) maximal(c, y, tot, lab, 0, "the ensemble"); else if (said.size() == 1 && pure) REQUIRE(y == *said.begin(), "unanimous", "boosting predicts " << y << ", all members predict " << *said.begin()); }
    if (lab.size() >= 2 && r.size() >= 6) c.nontrivial();
}
