// A coordinate type of the user's own: a class that offers what the documented
// concept "coordinate" asks for and nothing else. Include before the library's
// other headers. VP_COORD_POINT() is run in every operation on it.
#pragma once
#include <cmath>
#include <cstdint>
#include <numbers>
#include "poly_ops/base.hpp"
#ifndef VP_COORD_POINT
#define VP_COORD_POINT() ((void)0)
#endif
#ifndef VP_COORD_REAL_POINT
#define VP_COORD_REAL_POINT() ((void)0)
#endif
namespace vpc {
struct C;
struct R;
struct L {
    std::int64_t v;
    L() = default;
    constexpr L(int x) : v(x) {}
    constexpr L(std::int64_t x) : v(x) {}
    constexpr L(C x);
    friend L operator+(L a, L b) { return a.v + b.v; }
    friend L operator-(L a, L b) { return a.v - b.v; }
    friend L operator-(L a) { return -a.v; }
    friend bool operator==(L a, L b) { return a.v == b.v; }
    friend bool operator<(L a, L b) { return a.v < b.v; }
    friend bool operator>(L a, L b) { return a.v > b.v; }
    friend bool operator<=(L a, L b) { return a.v <= b.v; }
    friend bool operator>=(L a, L b) { return a.v >= b.v; }
    L &operator+=(L b) { v += b.v; return *this; }
    L &operator-=(L b) { v -= b.v; return *this; }
};
struct C {
    std::int32_t v;
    C() = default;
    constexpr C(std::int32_t x) : v(x) {}
    constexpr explicit C(std::int64_t x) : v(std::int32_t(x)) {}
    explicit operator long() const { return v; }
    friend C operator+(C a, C b) { VP_COORD_POINT(); return a.v + b.v; }
    friend C operator-(C a, C b) { VP_COORD_POINT(); return a.v - b.v; }
    friend C operator-(C a) { return -a.v; }
    friend bool operator==(C a, C b) { VP_COORD_POINT(); return a.v == b.v; }
    friend bool operator<(C a, C b) { VP_COORD_POINT(); return a.v < b.v; }
    friend bool operator>(C a, C b) { VP_COORD_POINT(); return a.v > b.v; }
    friend bool operator<=(C a, C b) { VP_COORD_POINT(); return a.v <= b.v; }
    friend bool operator>=(C a, C b) { VP_COORD_POINT(); return a.v >= b.v; }
    C &operator+=(C b) { v += b.v; return *this; }
    C &operator-=(C b) { v -= b.v; return *this; }
};
constexpr L::L(C x) : v(x.v) {}
struct R {
    double v;
    R() = default;
    constexpr R(int x) : v(x) {}
    constexpr R(std::int64_t x) : v(double(x)) {}
    constexpr R(double x) : v(x) {}
    constexpr R(C x) : v(x.v) {}
    constexpr R(L x) : v(double(x.v)) {}
    friend R operator+(R a, R b) { return a.v + b.v; }
    friend R operator-(R a, R b) { return a.v - b.v; }
    friend R operator*(R a, R b) { return a.v * b.v; }
    friend R operator/(R a, R b) { return a.v / b.v; }
    friend R operator-(R a) { return -a.v; }
    friend bool operator==(R a, R b) { return a.v == b.v; }
    friend bool operator<(R a, R b) { return a.v < b.v; }
    friend bool operator>(R a, R b) { return a.v > b.v; }
    friend bool operator<=(R a, R b) { return a.v <= b.v; }
    friend bool operator>=(R a, R b) { return a.v >= b.v; }
};
} // namespace vpc
template<> struct poly_ops::coord_ops<vpc::C> {
    using C = vpc::C;
    using long_t = vpc::L;
    using real_t = vpc::R;
    static long_t mul(C a, C b) { VP_COORD_POINT(); return std::int64_t(a.v) * b.v; }
    static real_t acos(C x) { VP_COORD_REAL_POINT(); return std::acos(double(x.v)); }
    static real_t acos(real_t x) { VP_COORD_REAL_POINT(); return std::acos(x.v); }
    static real_t cos(real_t x) { VP_COORD_REAL_POINT(); return std::cos(x.v); }
    static real_t sin(real_t x) { VP_COORD_REAL_POINT(); return std::sin(x.v); }
    static real_t sqrt(C x) { VP_COORD_REAL_POINT(); return std::sqrt(double(x.v)); }
    static real_t sqrt(real_t x) { VP_COORD_REAL_POINT(); return std::sqrt(x.v); }
    static C round(real_t x) { VP_COORD_POINT(); return C(std::int64_t(std::lround(x.v))); }
    static C ceil(real_t x) { VP_COORD_REAL_POINT(); return C(std::int64_t(std::ceil(x.v))); }
    static C floor(real_t x) { VP_COORD_REAL_POINT(); return C(std::int64_t(std::floor(x.v))); }
    static C to_coord(real_t x) { VP_COORD_REAL_POINT(); return C(std::int64_t(x.v)); }
    static real_t pi() { VP_COORD_REAL_POINT(); return std::numbers::pi; }
};
static_assert(poly_ops::coordinate<vpc::C>);
