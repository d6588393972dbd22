#include "p01.hpp"
// chains of materialised operations: the result of one step is an operand of the next
LAW(chain, 3, "at least three steps on at least two coordinates") {
    size_t n = (size_t) c.lenw(1, 8, 200);
    std::vector<std::vector<double>> m(3, std::vector<double>(n));
    std::vector<P<double>> p;
    for (auto &v: m) { for (auto &x: v) x = c.dy(8, 4); p.emplace_back(v); }
    int steps = (int) c.len(1, 12);
    std::ostringstream log;
    for (int st = 0; st < steps; st++) {
        int op = (int) c.draw(11), i = (int) c.draw(2), j = (int) c.draw(2), k = (int) c.draw(2);
        double s = c.dy(6, 2);
        log << op << ":" << i << j << k << "(" << s << ") ";
        auto mi = m[i], mj = m[j];
        switch (op) {
            case 0: p[k] = p[i] + p[j]; for (size_t q = 0; q < n; q++) m[k][q] = mi[q] + mj[q]; break;
            case 1: p[k] = p[i] - p[j]; for (size_t q = 0; q < n; q++) m[k][q] = mi[q] - mj[q]; break;
            case 2: p[k] = p[i] * p[j]; for (size_t q = 0; q < n; q++) m[k][q] = mi[q] * mj[q]; break;
            case 3: p[k] = p[i] * s; for (size_t q = 0; q < n; q++) m[k][q] = mi[q] * s; break;
            case 4: p[k] += p[i]; { auto o = m[k]; for (size_t q = 0; q < n; q++) m[k][q] = o[q] + mi[q]; } break;
            case 5: p[k] -= p[i] * s; { auto o = m[k]; for (size_t q = 0; q < n; q++) m[k][q] = o[q] - mi[q] * s; } break;
            case 6: p[k] *= s; for (size_t q = 0; q < n; q++) m[k][q] *= s; break;
            case 7: p[k] += s; for (size_t q = 0; q < n; q++) m[k][q] += s; break;
            case 8: p[k] = p[i]; m[k] = mi; break;
            case 9: p[k] = s; for (size_t q = 0; q < n; q++) m[k][q] = s; break;
            case 10: p[k] -= s; for (size_t q = 0; q < n; q++) m[k][q] -= s; break;
            case 11: if (s != 0) { p[k] /= s; for (size_t q = 0; q < n; q++) m[k][q] /= s; } break;
        }
        for (int q = 0; q < 3; q++)
            for (size_t z = 0; z < n; z++)
                REQUIRE(close(p[q][z], m[q][z], 1e-12, 0) || p[q][z] == m[q][z], "chain-value", "after " << log.str() << " vector " << q << " at " << z << ": " << p[q][z] << " want " << m[q][z]);
    }
    c.show() << "n=" << n << " ops " << log.str();
    if (steps >= 3 && n >= 2) c.nontrivial();
}

// assignment between vectors of different lengths; construction; comparison
LAW(assign_lengths, 3, "source and destination have different lengths") {
    size_t n = (size_t) c.lenw(0, 8, 300), m = (size_t) c.lenw(0, 8, 300);
    std::vector<double> a(n), b(m);
    for (auto &x: a) x = c.dy(20);
    for (auto &x: b) x = c.dy(20);
    P<double> pa(a), pb(b);
    int how = (int) c.draw(4);
    c.show() << "dst=" << vs(a) << " src=" << vs(b) << " how=" << how;
    if (n != m) c.nontrivial();
    pa.Y() = 2;
    switch (how) {
        case 0: pa = pb; break;
        case 1: pa = b; break;
        case 2: { std::vector<float> f(b.begin(), b.end()); pa = f; break; }
        case 3: pa = P<double>(pb); break;
        case 4: { P<double> q(pb); pa = std::move(q); break; }
    }
    REQUIRE(pa.size() == m, "assign-size", "assigned length " << pa.size() << " want " << m);
    REQUIRE(pa.X() == b, "assign-values", "assigned " << vs(pa.X()) << " want " << vs(b));
    REQUIRE(pb.X() == b, "assign-source", "source changed");
    REQUIRE(pa == pb && !(pa != pb), "assign-eq", "not equal after assignment");
    if (m > 0) { pa[(size_t) c.draw(m - 1)] += 1; REQUIRE(pb.X() == b, "assign-shared", "source shares storage"); REQUIRE(pa != pb, "neq", "different vectors compare equal"); }
}
LAW(compare, 2, "vectors that differ in one coordinate or in length") {
    size_t n = (size_t) c.lenw(1, 8, 200);
    std::vector<double> a(n);
    for (auto &x: a) x = c.dy(20);
    auto b = a;
    int k = (int) c.draw(3);
    if (k == 1) b[(size_t) c.draw(n - 1)] += c.flip() ? 1e-3 : -1;
    if (k == 2) b.push_back(0);
    if (k == 3) b.pop_back();
    P<double> pa(a), pb(b);
    pa.Y() = c.dy(2); pb.Id() = (size_t) c.i(0, 3);
    c.show() << vs(a) << " vs " << vs(b);
    if (k) c.nontrivial();
    REQUIRE((pa == pb) == (a == b), "eq", "== gives " << (pa == pb));
    REQUIRE((pa != pb) == (a != b), "ne", "!= gives " << (pa != pb));
    REQUIRE((pb == pa) == (a == b), "eq-sym", "== not symmetric");
}
LAW(construct, 2, "at least two coordinates") {
    size_t n = (size_t) c.lenw(0, 8, 300);
    double v = c.dy(20);
    std::vector<double> a(n);
    for (auto &x: a) x = c.dy(20);
    if (n >= 2) c.nontrivial();
    c.show() << vs(a);
    size_t id = (size_t) c.i(0, 5);
    P<double> f(n, v, id);
    REQUIRE(f.size() == n && f.Id() == id, "fill", "fill constructor");
    for (size_t i = 0; i < n; i++) REQUIRE(f[i] == v, "fill-val", "fill constructor value");
    P<double> p(a);
    p.Y() = v; p.Id() = id + 1; p.Alpha() = 0.5;
    P<double> q(p);
    REQUIRE(q.X() == a && q.Y() == v && q.Id() == id + 1 && q.Alpha() == 0.5, "copy", "copy constructor");
    P<float> fl(p);
    REQUIRE(fl.size() == n && fl.Y() == v && fl.Id() == id + 1, "convert", "converting constructor");
    for (size_t i = 0; i < n; i++) REQUIRE(fl[i] == (float) a[i], "convert-val", "converted coordinate");
    P<int> in(p);
    for (size_t i = 0; i < n; i++) REQUIRE(in[i] == (int) a[i], "convert-int", "converted int coordinate");
    auto pp = mltk::make_point<double>(a);
    REQUIRE(pp->X() == a, "make", "make_point");
    size_t cnt = 0; double s = 0, w = 0;
    for (auto const &x: p) { s += x; cnt++; }
    for (auto x: a) w += x;
    REQUIRE(cnt == n && s == w, "iterate", "iteration");
    if (n > 0) {
        std::vector<size_t> ix((size_t) c.len(1, 6));
        for (auto &x: ix) x = (size_t) c.draw(n - 1);
        mltk::Point<size_t> pi(ix);
        P<double> sub = p[pi];
        REQUIRE(sub.size() == ix.size(), "subscript-size", "subscripted length");
        for (size_t i = 0; i < ix.size(); i++) REQUIRE(sub[i] == a[ix[i]], "subscript", "subscripted value");
    }
}
