#include "common.hpp"
#include "ufjfmltk/core/Utils.hpp"
#include <charconv>
using namespace cm;
namespace U = mltk::utils;

static long gen_int(Ctx &c) {
    switch (c.draw(3)) {
        case 0: return c.z(20);
        case 1: { long p = 1; int e = (int) c.i(0, 9); while (e--) p *= 10; long v = p + c.z(2); return c.flip() ? -v : v; }
        case 2: return c.z(2147483647);
        default: { long v = (1l << c.i(0, 30)) + c.z(1); return c.flip() ? -v : v; }
    }
}
LAW(ints, 3, "at least two digits") {
    long v = gen_int(c);
    if (v > 2147483647l) v = 2147483647l; if (v < -2147483647l) v = -2147483647l;
    c.show() << v;
    std::string s = U::itos((int) v);
    REQUIRE(s == std::to_string(v), "itos", "itos(" << v << ") = '" << s << "'");
    REQUIRE(U::stoin(s) == v, "stoin", "stoin('" << s << "') = " << U::stoin(s));
    REQUIRE(U::is_number(s), "int-is-number", "'" << s << "' is not recognised as a number");
    REQUIRE(U::atod(s.c_str()) == (double) v, "int-atod", "atod('" << s << "') = " << U::atod(s.c_str()));
    if (s.size() >= 2) c.nontrivial();
}
static double gen_double(Ctx &c) {
    switch (c.draw(6)) {
        case 0: return (double) c.z(1000);
        case 1: return (double) c.z(1000000) / 1000.0;
        case 2: return std::ldexp(c.real(-1, 1), (int) c.i(-60, 60));
        case 3: { double v = std::pow(10.0, (double) c.z(40)); if (c.flip()) v *= (double) c.i(1, 99); return c.flip() ? -v : v; }
        case 4: { double v = std::pow(10.0, (double) c.z(20)); v = c.flip() ? std::nextafter(v, 0) : std::nextafter(v, 1e300); return c.flip() ? -v : v; }
        case 5: { u64 b = c.draw(~0ull); double d; memcpy(&d, &b, 8); if (!std::isnormal(d)) d = 1.5; return d; }
        default: return c.dy(1000, 1024);
    }
}
LAW(doubles, 4, "not an integer below 1000") {
    double v = gen_double(c);
    std::ostringstream o; o.precision(17); o << v; c.show() << o.str();
    std::string s = U::dtoa(v);
    for (char ch: s) REQUIRE(isdigit((unsigned char) ch) || strchr("+-.e", ch), "dtoa-chars", "dtoa(" << o.str() << ") = '" << s << "'");
    REQUIRE(U::is_number(s), "dtoa-number", "dtoa(" << o.str() << ") = '" << s << "' is not recognised as a number");
    double b = U::atod(s.c_str());
    bool expo = s.find('e') != std::string::npos;      // the mantissa keeps its digits however small the number
    REQUIRE(close(b, v, 2e-8, expo ? 0 : 2e-9), "dtoa-value", "dtoa(" << o.str() << ") = '" << s << "' reads back as " << b);
    if (std::fabs(v) >= 1000 || v != std::floor(v)) c.nontrivial();
    c.label(s.find('e') == std::string::npos ? "plain" : "exponent form");
}
// decimal numerals and near misses built from a grammar
static std::string digits(Ctx &c, int lo, int hi) { std::string s; int n = (int) c.i(lo, hi); while (n-- > 0) s += (char) ('0' + c.draw(9)); return s; }
static std::string numeral(Ctx &c) {
    std::string s;
    if (c.flip()) s += c.flip() ? '-' : '+';
    int form = (int) c.i(0, 3);
    if (form == 0) s += digits(c, 1, 6);
    else if (form == 1) s += digits(c, 1, 5) + "." + digits(c, 1, 6);
    else if (form == 2) s += "." + digits(c, 1, 5);
    else s += digits(c, 1, 5) + ".";
    if (c.chance(40)) { s += c.flip() ? "e" : "E"; if (c.flip()) s += c.flip() ? "-" : "+"; s += digits(c, 1, 2); }
    return s;
}
LAW(numerals, 3, "has a sign, a point or an exponent") {
    std::string s = numeral(c);
    c.show() << s;
    REQUIRE(U::is_number(s), "is-number", "'" << s << "' is a numeral but not recognised");
    double want = strtod(s.c_str(), nullptr), got = U::atod(s.c_str());
    REQUIRE(close(got, want, 1e-14, 0), "atod", "atod('" << s << "') = " << got);
    if (s.find_first_of("+-.eE") != std::string::npos) c.nontrivial();
}
static bool ref_number(std::string const &s) {     // [+-]? (d+ (. d*)? | . d+) ([eE] [+-]? d+)?   as an automaton
    int st = 0;   // 0 start 1 sign 2 int 3 point-after-int 4 point-first 5 frac 6 e 7 e-sign 8 exp
    for (unsigned char ch: s) {
        bool d = ch >= '0' && ch <= '9', sg = ch == '+' || ch == '-', e = ch == 'e' || ch == 'E', p = ch == '.';
        switch (st) {
            case 0: st = sg ? 1 : d ? 2 : p ? 4 : 9; break;
            case 1: st = d ? 2 : p ? 4 : 9; break;
            case 2: st = d ? 2 : p ? 3 : e ? 6 : 9; break;
            case 3: st = d ? 5 : e ? 6 : 9; break;
            case 4: st = d ? 5 : 9; break;
            case 5: st = d ? 5 : e ? 6 : 9; break;
            case 6: st = sg ? 7 : d ? 8 : 9; break;
            case 7: case 8: st = d ? 8 : 9; break;
            default: st = 9;
        }
    }
    return st == 2 || st == 3 || st == 5 || st == 8;
}
LAW(strings, 3, "at least two characters") {
    std::string s;
    if (c.flip()) {
        static const std::string al = "0123456789+-.eE xXan,";
        int n = (int) c.lenw(0, 10, 200); while (n-- > 0) s += al[(size_t) c.draw(al.size() - 1)];
    } else {
        s = numeral(c);
        size_t k = (size_t) c.draw(s.size());
        static const std::string al = ".eE+- 5x";
        char ch = al[(size_t) c.draw(al.size() - 1)];
        switch (c.draw(2)) { case 0: s.insert(k, 1, ch); break; case 1: if (k < s.size()) s[k] = ch; break; default: if (k < s.size()) s.erase(k, 1); }
    }
    c.show() << "'" << s << "'";
    REQUIRE(U::is_number(s) == ref_number(s), "is-number", "is_number('" << s << "') = " << U::is_number(s));
    if (s.size() >= 2) c.nontrivial();
    c.label(ref_number(s) ? "number" : "not a number");
}
LAW(tokens, 4, "a separator between two fields") {
    static const std::vector<char> seps = {',', ' ', ';', ':', '\t'};
    char sep = c.pick(seps);
    std::string s; std::vector<std::string> want;
    static const std::string al = "ab1.-, ;:\t";
    int n = (int) c.lenw(0, 12, 300);
    while (n-- > 0) s += c.chance(30) ? sep : al[(size_t) c.draw(al.size() - 1)];
    std::string cur;
    for (char ch: s) { if (ch == sep) { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur += ch; }
    if (!cur.empty()) want.push_back(cur);
    c.show() << "'" << s << "' at '" << sep << "'";
    auto got = U::tokenize(s, sep);
    REQUIRE(got == want, "tokenize", "tokenize('" << s << "','" << sep << "') = " << vs(got) << " want " << vs(want));
    if (want.size() >= 2) c.nontrivial();
}
LAW(trims, 3, "blanks at an end") {
    static const std::string al = "ab \t\n\r,.";
    std::string s; int n = (int) c.lenw(0, 10, 300);
    while (n-- > 0) s += al[(size_t) c.draw(al.size() - 1)];
    auto blank = [](char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r'; };
    size_t a = 0, b = s.size();
    while (a < b && blank(s[a])) a++;
    std::string l = s.substr(a);
    while (b > 0 && blank(s[b - 1])) b--;
    std::string r = s.substr(0, b), t = a < b ? s.substr(a, b - a) : "";
    c.show() << "'" << s << "'";
    REQUIRE(U::ltrim_copy(s) == l, "ltrim", "ltrim('" << s << "') = '" << U::ltrim_copy(s) << "'");
    REQUIRE(U::rtrim_copy(s) == r, "rtrim", "rtrim('" << s << "') = '" << U::rtrim_copy(s) << "'");
    REQUIRE(U::trim_copy(s) == t, "trim", "trim('" << s << "') = '" << U::trim_copy(s) << "'");
    std::string m = s; U::trim(m); REQUIRE(m == t, "trim-in-place", "trim in place '" << m << "'");
    if (a > 0 || b < s.size()) c.nontrivial();
}
