#pragma once
#include "pbt.hpp"
#include "ufjfmltk/core/Point.hpp"
using namespace pbt;
template<class T> using P = mltk::Point<T>;

// scalar counterparts of the vector functions, same spelling for both
inline double ABS(double x) { return std::fabs(x); }
inline double COS(double x) { return std::cos(x); }
inline double SIN(double x) { return std::sin(x); }
inline double EXP(double x) { return std::exp(x); }
inline double LOG(double x) { return std::log(x); }
template<class Q> double POW(double x, Q q) { return std::pow(x, q); }
inline float ABS(float x) { return std::fabs(x); }
inline int ABS(int x) { return (int) std::fabs(x); }
template<class T, class R> auto ABS(mltk::Point<T, R> const &p) { return mltk::abs(p); }
template<class T, class R> auto COS(mltk::Point<T, R> const &p) { return mltk::cos(p); }
template<class T, class R> auto SIN(mltk::Point<T, R> const &p) { return mltk::sin(p); }
template<class T, class R> auto EXP(mltk::Point<T, R> const &p) { return mltk::exp(p); }
template<class T, class R> auto LOG(mltk::Point<T, R> const &p) { return mltk::log(p); }
template<class T, class R, class Q> auto POW(mltk::Point<T, R> const &p, Q const &q) { return mltk::pow(p, q); }
struct Mod { };
inline double MOD(double a, double m) { return std::fmod(a, m); }
inline int MOD(int a, int m) { return a % m; }
template<class T, class R> auto MOD(mltk::Point<T, R> const &p, T const &m) { return p % m; }

template<class T> struct Env { std::vector<T> a, b, d; T s, t; int k; };

// wide: any order of magnitude, so that a detour through a square or a product shows
static double gen(Ctx &c, double, bool wide = false) { return wide ? std::ldexp(c.real(-1, 1), (int) c.i(-1000, 1000)) : c.num(); }
static float gen(Ctx &c, float, bool = false) { return (float) c.dy(64, 8); }
static int gen(Ctx &c, int, bool = false) { return (int) c.z(20); }
static bool same(double x, double y) { return pbt::close(x, y, 1e-12, 0) || x == y; }
static bool same(float x, float y) { return pbt::close(x, y, 1e-5, 1e-7) || x == y; }
static bool same(int x, int y) { return x == y; }

template<class T> Env<T> env(Ctx &c) {
    Env<T> e;
    size_t n = (size_t) c.lenw(0, 12, 400);
    bool wide = c.chance(10); if (wide) c.label("any magnitude");
    for (size_t i = 0; i < n; i++) { e.a.push_back(gen(c, T(), wide)); e.b.push_back(gen(c, T(), wide)); e.d.push_back(gen(c, T(), wide)); }
    e.s = gen(c, T(), wide); e.t = gen(c, T(), wide);
    if (e.t == T(0)) e.t = T(3);
    if (std::is_same_v<T, int>) for (auto &x: e.d) if (x == T(0)) x = T(7);
    e.k = (int) c.z(5);
    if (e.k == 0) e.k = 2;
    if (n >= 2) c.nontrivial();
    return e;
}

template<class T, class FL, class FA, class FC, class FS>
void one(Ctx &c, const char *txt, Env<T> const &e, FL lib, FA assign, FC compound, FS sc) {
    P<T> a(e.a), b(e.b), d(e.d);
    a.Y() = 1; b.Id() = 7;
    int mode = (int) c.draw(2 + 3);
    c.show() << txt << " mode=" << mode << " a=" << vs(e.a) << " b=" << vs(e.b) << " d=" << vs(e.d) << " s=" << e.s << " t=" << e.t << " k=" << e.k;
    P<T> r;
    std::vector<T> want(e.a.size());
    for (size_t i = 0; i < want.size(); i++) want[i] = sc(e.a[i], e.b[i], e.d[i]);
    const char *how = "construct";
    if (mode == 0) { P<T> q = lib(a, b, d); r = q; }
    else if (mode == 1) { P<T> q(e.a.size()); assign(q, a, b, d); r = q; how = "assign"; }
    else {
        how = "compound";
        std::vector<T> base(e.a.size());
        for (auto &x: base) x = gen(c, T());
        P<T> q(base);
        q.Y() = 5; q.Id() = 3;
        if (std::is_same_v<T, int> && mode == 5)
            for (auto w: want) if (w == T(0)) return;
        compound(mode - 2, q, a, b, d);
        for (size_t i = 0; i < want.size(); i++) {
            T w = want[i];
            want[i] = mode == 2 ? T(base[i] + w) : mode == 3 ? T(base[i] - w) : mode == 4 ? T(base[i] * w) : T(base[i] / w);
        }
        REQUIRE(q.Y() == 5 && q.Id() == 3, "compound-meta", "label/id changed by compound assignment");
        r = q;
    }
    REQUIRE(r.size() == want.size(), "size", txt << " (" << how << ") length " << r.size() << " want " << want.size());
    for (size_t i = 0; i < want.size(); i++)
        REQUIRE(same(r[i], want[i]), "value", txt << " (" << how << " mode " << mode << ") at " << i << ": got " << r[i] << " want " << want[i]);
    REQUIRE(a.X() == e.a && b.X() == e.b && d.X() == e.d, "operand-changed", txt);
    REQUIRE(a.Y() == 1 && b.Id() == 7, "operand-meta-changed", txt);
}

#define SHAPE(EXPR)                                                                                                     \
    case __COUNTER__ - BASE: {                                                                                          \
        one<T>(c, #EXPR, e, [&](P<T> const &a, P<T> const &b, P<T> const &d) { P<T> r = EXPR; return r; },              \
            [&](P<T> &q, P<T> const &a, P<T> const &b, P<T> const &d) { q = EXPR; },                                    \
            [&](int m, P<T> &q, P<T> const &a, P<T> const &b, P<T> const &d) {                                          \
                if (m == 0) q += EXPR; else if (m == 1) q -= EXPR; else if (m == 2) q *= EXPR; else q /= EXPR; },       \
            [&](T a, T b, T d) { return T(EXPR); });                                                                    \
        break; }

