#include "p01.hpp"
LAW(expr_double_a, 3, "vectors of at least two coordinates") {
    using T = double;
    Env<T> e = env<T>(c);
    T s = e.s, t = e.t; int k = e.k;
    (void) s; (void) t; (void) k;
    enum { BASE = __COUNTER__ + 1 };
    switch (c.draw(20)) {
        SHAPE(a + b) SHAPE(a - b) SHAPE(a * b) SHAPE(a / b) SHAPE(a + s)
        SHAPE(s + a) SHAPE(a - s) SHAPE(s - a) SHAPE(a * s) SHAPE(s * a)
        SHAPE(a / t) SHAPE(s / a) SHAPE(a + k) SHAPE(k + a) SHAPE(a - k)
        SHAPE(k - a) SHAPE(a * k) SHAPE(k * a) SHAPE(a / k) SHAPE(k / a)
        SHAPE(ABS(a))
        default: c.fail("harness", "shape index");
    }
}
