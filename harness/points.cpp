// C26: points and the functions on them, against exact arithmetic.
// --part ops              element-wise operators, for every pair of types
//        convert          conversions from everything point-like, copies, access, order
//        round            rounding and the default coord_ops
//        vectors:N        magnitude, angle and perpendicular of vectors up to N and of extremes
#include "vp.hpp"
#include <cmath>
#include <limits>
#include <span>
#include <poly_ops/base.hpp>
using namespace vp;
using namespace poly_ops;
using LD = long double;

template<typename C> struct Mine { // a foreign point type
    C y, x;
};
template<typename C> struct poly_ops::point_ops<Mine<C>> {
    static C get_x(const Mine<C> &p) { return p.x; }
    static C get_y(const Mine<C> &p) { return p.y; }
};

static std::string now;
static Gate gate;
template<typename T> static std::string nm() {
    if constexpr(std::is_floating_point_v<T>) return sizeof(T) == 4 ? "float" : "double";
    else return std::string(std::is_signed_v<T> ? "int" : "uint") + std::to_string(sizeof(T) * 8);
}
template<typename T> static std::string s(T v) {
    char b[64];
    std::snprintf(b, sizeof b, "%.20Lg", LD(v));
    return b;
}
template<typename T> static std::string s(const point_t<T> &p) { return s(p._data[0]) + "," + s(p._data[1]); }

// values whose sums, products and (by powers of two) quotients are exact in long double
template<typename T> static std::vector<T> alphabet() {
    using L = std::numeric_limits<T>;
    if constexpr(std::is_floating_point_v<T>) return {T(-6.25), T(-1), T(-0.5), T(0), T(0.25), T(1), T(2), T(4096.5)};
    else if constexpr(std::is_signed_v<T>) return {L::min(), T(L::min() / 2), T(-5), T(-2), T(-1), T(0), T(1), T(2), T(3), T(L::max() / 2 + 1), L::max()};
    else return {T(0), T(1), T(2), T(3), T(7), T(L::max() / 2), L::max()};
}
// the exact value, when the operation can give it
template<typename A, typename B> static bool exact(char op, A a, B b, LD &r) {
    using P = decltype(a + b);               // the type C++ computes in
    using Tr = std::common_type_t<A, B>;
    if constexpr(std::is_integral_v<P>) {
        i128 x = a, y = b, v;
        if constexpr(!std::is_signed_v<P>) { // modular: skipped when an operand changes
            if(x < 0 || y < 0) return false;
        }
        if(op == '/' && y == 0) return false;
        if(op == '*') {
            if(__builtin_mul_overflow(x, y, &v)) return false;
        } else v = op == '+' ? x + y : op == '-' ? x - y : x / y;
        if(v < i128(std::numeric_limits<P>::min()) || v > i128(std::numeric_limits<P>::max())) return false;
        if(v < i128(std::numeric_limits<Tr>::min()) || v > i128(std::numeric_limits<Tr>::max())) return false;
        r = LD(v);
    } else {
        LD x = a, y = b;
        if(LD(P(a)) != x || LD(P(b)) != y) return false;
        if(op == '/') {
            int e;
            if(y == 0 || std::abs(std::frexp(y, &e)) != 0.5L) return false;
        }
        r = op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : x / y;
        if(LD(P(r)) != r || LD(Tr(r)) != r) return false;
    }
    return true;
}
static bool zeroless = false;
template<typename Tr, typename R> static void expect(char op, const R &got, bool okx, LD ex, bool oky, LD ey) {
    static_assert(std::is_same_v<R, point_t<Tr>>);
    ++counters["evals"];
    if(ex != 0 && ey != 0) ++counters["nontrivial"];
    if((okx && LD(got._data[0]) != ex) || (oky && LD(got._data[1]) != ey))
        violation("operator", now, std::string("operator") + op + " gives " + s(got) + " instead of " + s(ex) + "," + s(ey));
}
template<typename A, typename B> static void ops() {
    using Tr = std::common_type_t<A, B>;
    auto as = alphabet<A>();
    auto bs = alphabet<B>();
    for(A ax : as) for(A ay : as) {
        if(!gate() || gate.stop()) continue;
        step();
        const point_t<A> a(ax, ay);
        for(B bx : bs) for(B by : bs) {
            const point_t<B> b(bx, by);
            now = nm<A>() + " " + s(a) + " and " + nm<B>() + " " + s(b);
            LD x, y;
            // results outside the types are undefined, so both have to be inside
            if(exact('+', ax, bx, x) && exact('+', ay, by, y)) expect<Tr>('+', a + b, true, x, true, y);
            if(exact('-', ax, bx, x) && exact('-', ay, by, y)) expect<Tr>('-', a - b, true, x, true, y);
            if(exact('*', ax, bx, x) && exact('*', ay, by, y)) expect<Tr>('*', a * b, true, x, true, y);
            if(exact('/', ax, bx, x) && exact('/', ay, by, y)) expect<Tr>('/', a / b, true, x, true, y);
            if(exact('*', ax, bx, x) && exact('*', ay, bx, y)) {
                expect<Tr>('*', a * bx, true, x, true, y);
                expect<Tr>('*', bx * a, true, x, true, y);
            }
            if constexpr(std::is_same_v<A, B>) {
                if(exact('+', ax, bx, x) && exact('+', ay, by, y)) {
                    auto c = a;
                    auto &r = c += b;
                    expect<A>('+', c, true, x, true, y);
                    if(&r != &c) violation("operator", now, "+= does not return its object");
                }
                if(exact('-', ax, bx, x) && exact('-', ay, by, y)) {
                    auto c = a;
                    auto &r = c -= b;
                    expect<A>('-', c, true, x, true, y);
                    if(&r != &c) violation("operator", now, "-= does not return its object");
                }
                if(exact('*', ax, bx, x) && exact('*', ay, bx, y)) {
                    auto c = a;
                    auto &r = c *= bx;
                    expect<A>('*', c, true, x, true, y);
                    if(&r != &c) violation("operator", now, "*= does not return its object");
                }
                if(exact('-', A(0), ax, x) && exact('-', A(0), ay, y) && std::is_signed_v<A>) {
                    auto c = -a;
                    expect<A>('-', c, true, x, true, y);
                }
            }
            LD p, q, d;
            if(exact('*', ax, bx, p) && exact('*', ay, by, q)) {
                using M = decltype(ax * bx);
                if(exact('+', M(p), M(q), d)) {
                    ++counters["evals"];
                    auto v = vdot(a, b);
                    if(LD(v) != d) violation("vdot", now, "vdot gives " + s(v) + " instead of " + s(d));
                }
            }
            if constexpr(std::is_same_v<A, B>)
                if(bx == as[0] && by == as[0] && exact('*', ax, ax, p) && exact('*', ay, ay, q) && exact('+', A(p), A(q), d)) {
                    ++counters["evals"];
                    auto v = square(a);
                    if(LD(v) != d) violation("square", now, "square gives " + s(v) + " instead of " + s(d));
                }
        }
    }
}
template<typename A> static void ops1() {
    ops<A, std::int8_t>();
    ops<A, std::int16_t>();
    ops<A, std::int32_t>();
    ops<A, std::int64_t>();
    ops<A, std::uint32_t>();
    ops<A, std::uint64_t>();
    ops<A, float>();
    ops<A, double>();
}

// ------------------------------------------------------------ convert
template<typename A> static void is(const char *what, const point_t<A> &p, A x, A y) {
    ++counters["evals"];
    if(x != y) ++counters["nontrivial"];
    if(!(p._data[0] == x && p._data[1] == y)) violation("convert", now, std::string(what) + " gives " + s(p));
}
template<typename A, typename B> static void convert_from(B x, B y) {
    // from B to A, for values both can hold
    if(LD(A(x)) != LD(x) || LD(A(y)) != LD(y)) return;
    if constexpr(std::is_integral_v<A> && std::is_integral_v<B>)
        if((x < B(0)) != (A(x) < A(0)) || (y < B(0)) != (A(y) < A(0))) return;
    now = nm<B>() + " " + s(x) + "," + s(y) + " to " + nm<A>();
    A ax = A(x), ay = A(y);
    B arr[2] = {x, y};
    const B carr[2] = {x, y};
    is("array", point_t<A>(arr), ax, ay);
    is("const array", point_t<A>(carr), ax, ay);
    is("span", point_t<A>(std::span<B, 2>(arr)), ax, ay);
    is("const span", point_t<A>(std::span<const B, 2>(carr)), ax, ay);
    is("point", point_t<A>(point_t<B>(x, y)), ax, ay);
    is("user's point", point_t<A>(Mine<B>{y, x}), ax, ay);
    is("vcast", vcast<A>(point_t<B>(x, y)), ax, ay);
    point_t<A> c(A(1), A(2));
    c = Mine<B>{y, x};
    is("assigned user's point", c, ax, ay);
    c = point_t<A>(A(3), A(4));
    c = point_t<B>(x, y);
    is("assigned point", c, ax, ay);
}
template<typename A, typename B> static void convert2() {
    for(B x : alphabet<B>()) for(B y : alphabet<B>()) {
        if(!gate() || gate.stop()) continue;
        step();
        convert_from<A, B>(x, y);
    }
}
template<typename A> static void convert1() {
    convert2<A, std::int8_t>();
    convert2<A, std::int16_t>();
    convert2<A, std::int32_t>();
    convert2<A, std::int64_t>();
    convert2<A, std::uint32_t>();
    convert2<A, std::uint64_t>();
    convert2<A, float>();
    convert2<A, double>();
    // access, copies, comparison and order
    auto al = alphabet<A>();
    std::vector<point_t<A>> all;
    for(A x : al) for(A y : al) all.push_back({x, y});
    point_less less;
    auto fail = [&](const char *w) { violation("access", now, w); };
    for(auto &a : all) {
        if(!gate() || gate.stop()) continue;
        step();
        A x = a._data[0], y = a._data[1];
        now = nm<A>() + " " + s(a);
        const point_t<A> c = a;
        point_t<A> m = a;
        if(&c[0] != c._data || &c[1] != c._data + 1 || &m[0] != m._data || &m[1] != m._data + 1) fail("operator[]");
        if(&c.x() != c._data || &c.y() != c._data + 1 || &m.x() != m._data || &m.y() != m._data + 1) fail("x() or y()");
        if(c.begin() != c._data || c.end() != c._data + 2 || m.begin() != m._data || m.end() != m._data + 2 || c.data() != c._data || m.data() != m._data || c.size() != 2) fail("as a range");
        m.x() = y;
        m.y() = x;
        is("written x() and y()", m, y, x);
        m[0] = x;
        m[1] = y;
        is("written elements", m, x, y);
        if(point_ops<point_t<A>>::get_x(c) != x || point_ops<point_t<A>>::get_y(c) != y) fail("point_ops");
        for(auto &b : all) {
            now = nm<A>() + " " + s(a) + " and " + s(b);
            ++counters["evals"];
            bool eq = x == b._data[0] && y == b._data[1];
            bool lt = x < b._data[0] || (x == b._data[0] && y < b._data[1]);
            if((a == b) != eq || (a != b) == eq) violation("compare", now, "comparison for equality");
            // "arbitrary but consistent": total, and compatible with ==
            bool ab = less(a, b), ba = less(b, a);
            if(eq ? ab || ba : ab == ba) violation("order", now, "point_less is not a total order");
            if(x != y) ++counters["nontrivial"];
            point_t<A> p = a, q = b;
            swap(p, q);
            if(!(p._data[0] == b._data[0] && p._data[1] == b._data[1] && q._data[0] == x && q._data[1] == y)) violation("swap", now, "swap");
            (void)lt;
            if(ab)
                for(auto &d : all)
                    if(less(b, d) && !less(a, d)) {
                        violation("order", now + " and " + s(d), "point_less is not transitive");
                        break;
                    }
        }
    }
}

// ------------------------------------------------------------ rounding, default coord_ops
template<typename A> static void round1() {
    using L = std::numeric_limits<A>;
    std::vector<double> base{0, 1, 2, 3, 7, 100, double(L::max() / 2), -1, -2, -3, -8, -100, double(L::min() / 2)};
    if(sizeof(A) < 8) base.insert(base.end(), {double(L::max()) - 1, double(L::min()) + 1});
    if(sizeof(A) == 8) base.insert(base.end(), {4503599627370495.0, -4503599627370495.0, 2251799813685247.0});
    std::vector<double> vs;
    for(double b : base)
        for(double f : {0.0, 0.25, 0.5, 0.75, 0.499999999, 0.500000001, -0.25, -0.5, -0.75, 1e-9, -1e-9}) vs.push_back(b + f);
    auto nearest = [](double v) -> LD { // halves away from zero, by exact steps
        LD f = floorl(LD(v)), r = LD(v) - f;
        return r > 0.5L || (r == 0.5L && v > 0) ? f + 1 : f;
    };
    using O = coord_ops<A>;
    auto check = [&](const char *w, double v, A got, LD want) {
        ++counters["evals"];
        if(want != LD(v)) ++counters["nontrivial"];
        now = std::string(w) + " to " + nm<A>() + " of " + s(v);
        if(LD(got) != want) violation("round", now, "gives " + s(got) + " instead of " + s(want));
    };
    for(double v : vs) {
        if(!gate() || gate.stop()) continue;
        step();
        check("round", v, O::round(v), nearest(v));
        check("floor", v, O::floor(v), floorl(LD(v)));
        check("ceil", v, O::ceil(v), ceill(LD(v)));
        check("to_coord", v, O::to_coord(v), truncl(LD(v)));
        for(double w : vs) {
            auto p = vround<A>(point_t<double>(v, w));
            check("vround x", v, p.x(), nearest(v));
            check("vround y", w, p.y(), nearest(w));
        }
    }
    auto near = [&](const std::string &w, LD got, LD want) {
        ++counters["evals"];
        now = w + " for " + nm<A>();
        if(!(fabsl(got - want) <= 1e-14L * std::max(LD(1), fabsl(want)))) violation("real", now, "gives " + s(got) + " instead of " + s(want));
    };
    if(gate()) {
        near("pi", O::pi(), 3.14159265358979323846L);
        for(int i = -100; i <= 100; ++i) {
            double v = i * 0.07;
            near("cos " + s(v), O::cos(v), cosl(v));
            near("sin " + s(v), O::sin(v), sinl(v));
            if(i >= 0) near("sqrt " + s(v), O::sqrt(v), sqrtl(v));
            near("acos " + s(i / 100.0), O::acos(i / 100.0), acosl(i / 100.0));
        }
        for(A v : alphabet<A>()) {
            if(v >= 0) near("sqrt of coordinate " + s(v), O::sqrt(v), sqrtl(v));
            if(v >= -1 && v <= 1) near("acos of coordinate " + s(v), O::acos(v), acosl(v));
        }
        auto al = alphabet<A>();
        for(A v : {A(L::min() + 1), A(L::max() - 1), A(0x55), A(L::max() / 3)}) al.push_back(v);
        for(A v : al) for(A w : al) {
            ++counters["evals"];
            now = "product of " + nm<A>() + " " + s(v) + " and " + s(w);
            i128 e = i128(v) * w;
            auto g = O::mul(v, w);
            i128 got;
            if constexpr(sizeof(A) < 8) got = g;
            else got = i128((static_cast<unsigned __int128>(g[1]) << 64) | static_cast<unsigned __int128>(g[0]));
            if(got != e || (g > 0) != (e > 0) || (g < 0) != (e < 0)) violation("mul", now, "mul is wrong");
        }
    }
}

// ------------------------------------------------------------ vectors
template<typename A> static void vectors1(int n) {
    using L = std::numeric_limits<A>;
    std::vector<point_t<A>> all;
    for(int x = -n; x <= n; ++x) for(int y = -n; y <= n; ++y) all.push_back({A(x), A(y)});
    for(A x : {A(L::min() / 4), A(0), A(1), A(L::max() / 4)}) for(A y : {A(L::min() / 4), A(0), A(-1), A(L::max() / 4)}) all.push_back({x, y});
    for(auto &a : all) {
        if(!gate() || gate.stop()) continue;
        step();
        now = nm<A>() + " " + s(a);
        LD ax = a.x(), ay = a.y(), am = hypotl(ax, ay);
        ++counters["evals"];
        LD m = vmag<A>(a), md = vmag<A>(point_t<double>(double(a.x()), double(a.y())));
        if(fabsl(m - am) > 1e-12L * am || fabsl(md - am) > 1e-12L * am) violation("vmag", now, "vmag gives " + s(m) + " instead of " + s(am));
        for(auto &b : all) {
            LD bx = b.x(), by = b.y();
            now = nm<A>() + " " + s(a) + " and " + s(b);
            if((ax != 0 || ay != 0) && (bx != 0 || by != 0)) {
                ++counters["evals"];
                LD c = ax * by - ay * bx, d = ax * bx + ay * by;
                if(c != 0) ++counters["nontrivial"];
                LD e = atan2l(fabsl(c), d), g = vangle<A>(a, b);
                if(!(fabsl(g - e) <= 1e-6L) || g < 0) violation("vangle", now, "vangle gives " + s(g) + " instead of " + s(e));
            }
            if(ax != bx || ay != by)
                for(double mag : {1.0, 0.25, 1000.5, -3.0}) {
                    ++counters["evals"];
                    LD dx = bx - ax, dy = by - ay, dm = hypotl(dx, dy);
                    auto p = perp_vector<A>(a, b, mag);
                    LD px = p.x(), py = p.y();
                    LD am_ = std::abs(mag);
                    // length, right angle, and always the same side
                    if(!(fabsl(hypotl(px, py) - am_) <= 1e-9L * am_) || !(fabsl(px * dx + py * dy) <= 1e-9L * am_ * dm) || ((px * dy - py * dx) > 0) != (mag > 0))
                        violation("perp_vector", now + " magnitude " + s(mag), "perp_vector gives " + s(p));
                }
        }
    }
}

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = [] { return now; };
    if(opt.part == "ops") {
        ops1<std::int8_t>();
        ops1<std::int16_t>();
        ops1<std::int32_t>();
        ops1<std::int64_t>();
        ops1<std::uint32_t>();
        ops1<std::uint64_t>();
        ops1<float>();
        ops1<double>();
    } else if(opt.part == "convert") {
        convert1<std::int8_t>();
        convert1<std::int16_t>();
        convert1<std::int32_t>();
        convert1<std::int64_t>();
        convert1<float>();
        convert1<double>();
    } else if(opt.part == "round") {
        round1<std::int8_t>();
        round1<std::int16_t>();
        round1<std::int32_t>();
        round1<std::int64_t>();
    } else if(opt.part.rfind("vectors:", 0) == 0) {
        int n = std::stoi(opt.part.substr(8));
        vectors1<std::int8_t>(n);
        vectors1<std::int16_t>(n);
        vectors1<std::int32_t>(n);
        vectors1<std::int64_t>(n);
    } else return 4;
    sample(now);
    finish();
}
