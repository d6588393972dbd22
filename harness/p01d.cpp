#include "p01.hpp"
LAW(expr_int, 2, "vectors of at least two coordinates") {
    using T = int;
    Env<T> e = env<T>(c);
    T s = e.s, t = e.t; int k = e.k;
    (void) k;
    enum { BASE = __COUNTER__ + 1 };
    switch (c.draw(19)) {
        SHAPE(a + b) SHAPE(a - b) SHAPE(a * b) SHAPE(a / d)
        SHAPE(a + s) SHAPE(s + a) SHAPE(a * s) SHAPE(s * a) SHAPE((a - b) - d)
        SHAPE(ABS(a)) SHAPE(MOD(a, t)) SHAPE(a - (b - d)) SHAPE((a - b) / d) SHAPE(a / d - b)
        SHAPE(ABS(a - b)) SHAPE((a + b) * d) SHAPE(a * b - d) SHAPE(MOD(a * b, t))
        SHAPE(a + b * d + s) SHAPE((a * s) / d)
        default: c.fail("harness", "shape index");
    }
}
LAW(expr_float, 2, "vectors of at least two coordinates") {
    using T = float;
    Env<T> e = env<T>(c);
    T s = e.s, t = e.t; int k = e.k;
    enum { BASE = __COUNTER__ + 1 };
    switch (c.draw(13)) {
        SHAPE(a + b) SHAPE(a - b) SHAPE(a * b) SHAPE(a / b)
        SHAPE(a + s) SHAPE(s - a) SHAPE(a * s) SHAPE(a / t) SHAPE(s / a) SHAPE(a - k)
        SHAPE(ABS(a - b)) SHAPE((a + b) * d) SHAPE(a - (b - d)) SHAPE(a * s + b * t)
        default: c.fail("harness", "shape index");
    }
}

