#include "p01.hpp"
LAW(expr_double_b, 3, "vectors of at least two coordinates") {
    using T = double;
    Env<T> e = env<T>(c);
    T s = e.s, t = e.t; int k = e.k;
    (void) s; (void) t; (void) k;
    enum { BASE = __COUNTER__ + 1 };
    switch (c.draw(20)) {
        SHAPE(COS(a)) SHAPE(SIN(a)) SHAPE(EXP(a)) SHAPE(LOG(a)) SHAPE(POW(a, k))
        SHAPE(POW(a, s)) SHAPE(MOD(a, t)) SHAPE((a + b) * d) SHAPE(a + b * d) SHAPE((a - b) / d)
        SHAPE(a - b / d) SHAPE(a - (b - d)) SHAPE((a - b) - d) SHAPE(a / (b / d)) SHAPE((a / b) / d)
        SHAPE(ABS(a - b)) SHAPE(ABS(a) - ABS(b)) SHAPE(POW(a - b, 2) * s) SHAPE(EXP(-1 * POW(a - b, 2) * t)) SHAPE((a + b * s) / (d - t))
        SHAPE(s * a + t * b - d)
        default: c.fail("harness", "shape index");
    }
}
