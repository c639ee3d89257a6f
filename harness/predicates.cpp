// C15: orientation predicates against exact arithmetic.
// --part exh8             every triangle of 8-bit points (up to translation)
//        tri:LEVEL        every triple of points over alphabets of extremes
//        wind:N:LEVEL     every loop of N points over alphabets of extremes
#include "vp.hpp"
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <span>
#include <poly_ops/base.hpp>
using namespace vp;

template<typename C> struct Mine { // a foreign point type
    C y, x;
};
template<typename C> struct poly_ops::point_ops<Mine<C>> {
    static C get_x(const Mine<C> &p) { return p.x; }
    static C get_y(const Mine<C> &p) { return p.y; }
};

template<typename T> static i128 wide(const T &v) {
    if constexpr(std::is_integral_v<T>) return v;
    else {
        static_assert(sizeof(T) == 16);
        return i128((static_cast<unsigned __int128>(v[1]) << 64) | static_cast<unsigned __int128>(v[0]));
    }
}
static std::string dec(i128 v) {
    bool n = v < 0;
    unsigned __int128 u = n ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    std::string s;
    do s.insert(s.begin(), char('0' + int(u % 10))); while(u /= 10);
    return n ? "-" + s : s;
}
template<typename C> static bool fits(i128 v) { return v >= std::numeric_limits<C>::min() && v <= std::numeric_limits<C>::max(); }
static Poly cur;
static const char *tname = "";

template<typename C> static std::vector<i64> alphabet(int level) {
    using L = std::numeric_limits<C>;
    constexpr int b = sizeof(C) * 8;
    std::set<i64> s{L::min(), L::min() / 2, -1, 0, 1, L::max() / 2, L::max() / 2 + 1, L::max()};
    if(level >= 1) s.insert({L::min() + 1, L::max() - 1, 3});
    if(level >= 2) s.insert({L::min() / 2 - 1, i64(1) << (b / 2), i64(C(0x5555555555555555 & u64(L::max()))), -(i64(1) << (b / 2)) - 1, 2});
    return {s.begin(), s.end()};
}

// ---- triangle_winding
template<typename C> static void triples(int level) {
    auto al = alphabet<C>(level);
    Gate g;
    for(i64 x1 : al) for(i64 y1 : al) for(i64 x2 : al) for(i64 y2 : al) {
        if(!g()) continue;
        if(g.stop() || violations > 20) return;
        step();
        if(!fits<C>(i128(x2) - x1) || !fits<C>(i128(y2) - y1)) continue;
        for(i64 x3 : al) for(i64 y3 : al) {
            if(!fits<C>(i128(x3) - x1) || !fits<C>(i128(y3) - y1) || !fits<C>(i128(x3) - x2) || !fits<C>(i128(y3) - y2)) continue;
            cur = {{x1, y1}, {x2, y2}, {x3, y3}};
            i128 e = i128(x2 - x1) * (y3 - y1) - i128(x3 - x1) * (y2 - y1);
            auto r = poly_ops::triangle_winding<C>({C(x1), C(y1)}, {C(x2), C(y2)}, {C(x3), C(y3)});
            ++counters["evals"];
            if(e) ++counters["nontrivial"];
            if(counters["evals"] % 9973 == 1) sample(std::string(tname) + " " + str(cur) + " = " + dec(e));
            if(wide(r) != e || (r > 0) != (e > 0) || (r < 0) != (e < 0))
                violation("triangle", std::string(tname) + " " + str(cur), "gave " + dec(wide(r)) + " instead of " + dec(e));
        }
    }
}
static void exhaustive8() {
    using C = std::int8_t;
    tname = "int8";
    Gate g;
    for(int x2 = -128; x2 < 128; ++x2) for(int y2 = -128; y2 < 128; ++y2) {
        if(!g()) continue;
        if(g.stop() || violations > 20) return;
        step();
        u64 n = 0, nt = 0;
        for(int x3 = std::max(-128, x2 - 127); x3 <= std::min(127, x2 + 128); ++x3) for(int y3 = std::max(-128, y2 - 127); y3 <= std::min(127, y2 + 128); ++y3) {
            int e = x2 * y3 - x3 * y2;
            auto r = poly_ops::triangle_winding<C>({0, 0}, {C(x2), C(y2)}, {C(x3), C(y3)});
            ++n;
            nt += e != 0;
            if(r != e) {
                cur = {{0, 0}, {x2, y2}, {x3, y3}};
                violation("triangle", "int8 " + str(cur), "gave " + dec(r) + " instead of " + dec(e));
                if(violations > 20) return;
            }
        }
        counters["evals"] += n;
        counters["nontrivial"] += nt;
    }
}

// ---- winding_dir
template<typename C> struct InputOnly { // reads its points once
    struct It {
        using value_type = poly_ops::point_t<C>;
        using difference_type = std::ptrdiff_t;
        const value_type *p;
        value_type operator*() const { return *p; }
        It &operator++() { ++p; return *this; }
        void operator++(int) { ++p; }
        bool operator==(const value_type *e) const { return p == e; }
    };
    const std::vector<poly_ops::point_t<C>> *v;
    It begin() const { return {v->data()}; }
    const poly_ops::point_t<C> *end() const { return v->data() + v->size(); }
};
// sums of coordinates, differences and the sum over the edges stay in range
template<typename C> static bool admissible(const Poly &p) {
    for(auto &a : p) for(auto &b : p)
        if(!fits<C>(i128(a.x) - b.x) || !fits<C>(i128(a.y) - b.y) || !fits<C>(i128(a.y) + b.y) || !fits<C>(i128(a.x) + b.x)) return false;
    i128 s = 0;
    for(std::size_t i = 0; i < p.size(); ++i) {
        auto &a = p[i], &b = p[(i + 1) % p.size()];
        i128 v = i128(a.x - b.x) * (a.y + b.y);
        if(__builtin_add_overflow(s, v < 0 ? -v : v, &s)) return false;
    }
    if(sizeof(C) == 8) return true;
    return s < (i128(1) << (sizeof(C) * 16 - 1));
}
template<typename C> static i128 area2(const Poly &p) {
    i128 s = 0;
    for(std::size_t i = 0; i < p.size(); ++i) {
        auto &a = p[i], &b = p[(i + 1) % p.size()];
        s += i128(a.x - b.x) * (a.y + b.y);
    }
    return s;
}
template<typename C> static void judge(const char *how, i128 got, i128 e) {
    ++counters["evals"];
    if(got != e) violation("winding", std::string(tname) + " " + str(cur) + " " + how, "gave " + dec(got) + " instead of " + dec(e));
}
template<typename C> static std::vector<poly_ops::point_t<C>> conv(const Poly &p) {
    std::vector<poly_ops::point_t<C>> v;
    for(auto &q : p) v.emplace_back(C(q.x), C(q.y));
    return v;
}
template<typename C> static void kinds(const Poly &p, i128 e) {
    using P = poly_ops::point_t<C>;
    auto v = conv<C>(p);
    const auto &cv = v;
    judge<C>("vector", wide(poly_ops::winding_dir<C>(v)), e);
    judge<C>("const vector", wide(poly_ops::winding_dir<C>(cv)), e);
    judge<C>("moved vector", wide(poly_ops::winding_dir<C>(std::vector<P>(v))), e);
    judge<C>("list", wide(poly_ops::winding_dir<C>(std::list<P>(v.begin(), v.end()))), e);
    judge<C>("forward_list", wide(poly_ops::winding_dir<C>(std::forward_list<P>(v.begin(), v.end()))), e);
    judge<C>("deque", wide(poly_ops::winding_dir<C>(std::deque<P>(v.begin(), v.end()))), e);
    judge<C>("span", wide(poly_ops::winding_dir<C>(std::span<const P>(v))), e);
    judge<C>("input range", wide(poly_ops::winding_dir<C>(InputOnly<C>{&v})), e);
    std::vector<Mine<C>> av;
    for(auto &q : v) av.push_back({q[1], q[0]});
    judge<C>("foreign points", wide(poly_ops::winding_dir<C>(av)), e);
    std::vector<std::span<const C, 2>> sv;
    for(auto &q : v) sv.emplace_back(&q[0], 2);
    judge<C>("spans", wide(poly_ops::winding_dir<C>(sv)), e);
    C raw[8][2];
    for(std::size_t i = 0; i < v.size(); ++i) { raw[i][0] = v[i][0]; raw[i][1] = v[i][1]; }
    judge<C>("rows of an array", wide(poly_ops::winding_dir<C>(std::span<C[2]>(raw, v.size()))), e);
}
template<typename C> static void loop(const Poly &p, bool all) {
    cur = p;
    if(!admissible<C>(p)) return;
    i128 e = area2<C>(p);
    auto v = conv<C>(p);
    judge<C>("vector", wide(poly_ops::winding_dir<C>(v)), e);
    auto r = poly_ops::winding_dir<C>(v);
    if((r > 0) != (e > 0) || (r < 0) != (e < 0)) violation("winding", std::string(tname) + " " + str(p), "has the wrong sign");
    if(e) ++counters["nontrivial"];
    if(counters["evals"] % 9973 == 1) sample(std::string(tname) + " " + str(p) + " = " + dec(e));
    if(!all) return;
    // every starting point, every repeated point, closed
    for(std::size_t k = 0; k < p.size(); ++k) {
        Poly q = p;
        std::rotate(q.begin(), q.begin() + long(k), q.end());
        cur = q;
        judge<C>("started elsewhere", wide(poly_ops::winding_dir<C>(conv<C>(q))), e);
        q = p;
        q.insert(q.begin() + long(k), 1 + k % 2, p[k]);
        cur = q;
        judge<C>("repeated point", wide(poly_ops::winding_dir<C>(conv<C>(q))), e);
        Poly z = p;
        std::reverse(z.begin(), z.end());
        std::rotate(z.begin(), z.begin() + long(k), z.end());
        cur = z;
        judge<C>("reversed", wide(poly_ops::winding_dir<C>(conv<C>(z))), -e);
    }
    Poly q = p;
    q.push_back(p[0]);
    cur = q;
    judge<C>("closed", wide(poly_ops::winding_dir<C>(conv<C>(q))), e);
    cur = p;
    kinds<C>(p, e);
    // point by point, with the total so far read at every step
    poly_ops::winding_dir_sink<C> s{poly_ops::point_t<C>(v[0])};
    Poly part{p[0]};
    judge<C>("sink", wide(s.close()), 0);
    for(std::size_t i = 1; i < v.size(); ++i) {
        s(v[i]);
        part.push_back(p[i]);
        if(!admissible<C>(part)) continue;
        cur = part;
        auto copy = s;
        judge<C>("sink", wide(s.close()), area2<C>(part));
        judge<C>("sink read twice", wide(copy.close()), area2<C>(part));
    }
}
template<typename C> static void loops(int n, int level) {
    std::vector<Pt> pts;
    if(n <= 3) {
        auto al = alphabet<C>(level);
        for(i64 x : al) for(i64 y : al) pts.push_back({x, y});
    } else {
        i64 M = std::numeric_limits<C>::max(), m = std::numeric_limits<C>::min();
        std::vector<i64> al = level == 0 ? std::vector<i64>{m / 2, 1, M / 2} : (level == 1 ? std::vector<i64>{m / 2, -1, 0, M / 2} : std::vector<i64>{m / 2, -3, 0, M / 4, M / 2});
        for(i64 x : al) for(i64 y : al) pts.push_back({x, y});
        if(level > 0) { pts.push_back({m, 0}); pts.push_back({M, 1}); pts.push_back({0, M}); pts.push_back({-1, m}); }
    }
    if(n == 0) {
        judge<C>("nothing", wide(poly_ops::winding_dir<C>(std::vector<poly_ops::point_t<C>>{})), 0);
        return;
    }
    Gate g;
    std::vector<int> c;
    all_seqs(int(pts.size()), n, c, [&](const std::vector<int> &s) {
        if(!g()) return true;
        if(g.stop() || violations > 20) return false;
        step();
        Poly p;
        for(int i : s) p.push_back(pts[std::size_t(i)]);
        loop<C>(p, true);
        return true;
    }, false);
}

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = [] { return std::string(tname) + " " + str(cur); };
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    auto types = [&](auto f) {
        tname = "int8", f(std::int8_t(0));
        tname = "int16", f(std::int16_t(0));
        tname = "int32", f(std::int32_t(0));
        tname = "int64", f(std::int64_t(0));
    };
    if(a.at(0) == "exh8") exhaustive8();
    else if(a.at(0) == "tri") types([&](auto z) { triples<decltype(z)>(std::stoi(a.at(1))); });
    else if(a.at(0) == "wind") {
        int n = std::stoi(a.at(1)), l = std::stoi(a.at(2));
        types([&](auto z) { loops<decltype(z)>(n, l); });
        types([&](auto z) { for(int k = 0; k < n && k < 3; ++k) loops<decltype(z)>(k, l); });
    } else return 4;
    finish();
}
