#include "p01.hpp"
LAW(expr_double_c, 3, "vectors of at least two coordinates") {
    using T = double;
    Env<T> e = env<T>(c);
    T s = e.s, t = e.t; int k = e.k;
    (void) s; (void) t; (void) k;
    enum { BASE = __COUNTER__ + 1 };
    switch (c.draw(19)) {
        SHAPE((s - a) * (t - b)) SHAPE((s / a) / (t / b)) SHAPE(POW(ABS(a), s)) SHAPE(LOG(ABS(a) + 1)) SHAPE(SIN(a) * SIN(a) + COS(a) * COS(a))
        SHAPE(MOD(a + b, t)) SHAPE(((a + b) + d) + a) SHAPE(a + (b + (d + a))) SHAPE((a * b) * (d * a)) SHAPE((a * b + d) * (a - b * d) / (a + 1))
        SHAPE(k * (a + k) - k) SHAPE(ABS(ABS(a) - s)) SHAPE(POW(POW(a, 2), 2)) SHAPE((a + b) / k + s) SHAPE(2 * a - b * 2)
        SHAPE(a * a - b * b) SHAPE((a - b) * (a - b)) SHAPE(1 - a) SHAPE((a + 1) / (b + 1)) SHAPE(SIN(COS(a - b) * s))
        default: c.fail("harness", "shape index");
    }
}
