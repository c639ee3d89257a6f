// C13/C14: wide integers against boost's cpp_int, for every operand over an
// alphabet of words. Compiled once per VP_GROUP (and VP_PART): 1 add/sub/compare, 2 multiply,
// 3 shifts and unary, 4 divide, 5 convert, 6 literals. --part any:LEVEL
#include "vp.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include <limits>
#include <tuple>
#include <poly_ops/large_ints.hpp>
using namespace vp;
namespace li = poly_ops::large_ints;
using Big = boost::multiprecision::cpp_int;
using W = li::full_uint;
#ifdef POLY_OPS_NO_COMPILER_EXTENSIONS
#define BACK " [standard C++ only]"
#else
#define BACK ""
#endif

static int level = 1;
static Gate *gate;

template<typename T> struct Info {};
template<unsigned int N, bool S> struct Info<li::compound_xint<N, S>> {
    static constexpr bool sgn = S, comp = true;
    static constexpr int bits = N * 64;
    static std::string name() { return (S ? "int<" : "uint<") + std::to_string(N) + ">"; }
};
// a compound integer read through a reference to its low N words
template<unsigned int N> struct Low {
    li::compound_xint<N + 1, true> v;
};
template<unsigned int N> struct Info<Low<N>> {
    static constexpr bool sgn = false, comp = true;
    static constexpr int bits = N * 64;
    static std::string name() { return "low<" + std::to_string(N) + ">"; }
};
template<typename T> requires std::is_integral_v<T> struct Info<T> {
    static constexpr bool sgn = std::is_signed_v<T>, comp = false;
    static constexpr int bits = sizeof(T) * 8;
    static std::string name() { return (sgn ? "i" : "u") + std::to_string(bits); }
};
#ifndef POLY_OPS_NO_COMPILER_EXTENSIONS
#define WITH_I128 1
template<> struct Info<__int128> {
    static constexpr bool sgn = true, comp = false;
    static constexpr int bits = 128;
    static std::string name() { return "i128"; }
};
template<> struct Info<unsigned __int128> {
    static constexpr bool sgn = false, comp = false;
    static constexpr int bits = 128;
    static std::string name() { return "u128"; }
};
#endif

static Big pow2(unsigned n) { return Big(1) << n; }
static Big wrap(Big v, unsigned bits, bool sgn) {
    Big m = pow2(bits);
    v %= m;
    if(v < 0) v += m;
    if(sgn && v >= pow2(bits - 1)) v -= m;
    return v;
}
template<unsigned int N, bool S> Big big(const li::compound_xint<N, S> &x) {
    Big r = 0;
    for(unsigned i = N; i-- > 0;) r = (r << 64) | Big(std::uint64_t(x[i]));
    return S ? wrap(r, N * 64, true) : r;
}
template<unsigned int N> Big big(const Low<N> &x) {
    Big r = 0;
    for(unsigned i = N; i-- > 0;) r = (r << 64) | Big(std::uint64_t(x.v[i]));
    return r;
}
template<typename T> requires(!Info<T>::comp) Big big(const T &x) { return Big(x); }
template<typename T> static decltype(auto) op(const T &x) { return (x); }
template<unsigned int N> static auto op(const Low<N> &x) { return x.v.lo(); }

// every value of T over the alphabet of words (or its interesting values)
template<typename T> struct Values {
    std::vector<T> v;
    std::vector<Big> b;
    Values() {
        if constexpr(!Info<T>::comp) {
            std::set<Big> s;
            Big lo = Info<T>::sgn ? -pow2(Info<T>::bits - 1) : Big(0), hi = pow2(Info<T>::bits - Info<T>::sgn) - 1;
            for(int d = 0; d < 3; ++d) { s.insert(lo + d); s.insert(hi - d); s.insert(Big(d)); if(Info<T>::sgn) s.insert(Big(-d)); }
            for(int k : {Info<T>::bits / 2 - 1, Info<T>::bits / 2, Info<T>::bits - 2}) { s.insert(pow2(unsigned(k))); s.insert(pow2(unsigned(k)) - 1); if(Info<T>::sgn) s.insert(-pow2(unsigned(k))); }
            if(Info<T>::bits == 8) for(int i = 3; i < 100; i += 7) s.insert(i);
            if(Info<T>::bits == 128) for(auto &x : std::vector<Big>{pow2(64), pow2(64) - 1, pow2(64) + 1, pow2(63), (pow2(63) << 32) + 1}) { s.insert(x); if(Info<T>::sgn) s.insert(-x); }
            for(auto &x : s) {
                if(x < lo || x > hi) continue;
                T t = 0;
                Big u = wrap(x, Info<T>::bits, false);
                for(int i = 0; i < Info<T>::bits; i += 8) t = T(t | T(T(static_cast<unsigned char>((u >> i) & 255)) << i));
                v.push_back(t);
                b.push_back(x);
            }
        } else {
            constexpr int N = Info<T>::bits / 64;
            const W F = ~W(0), H = W(1) << 63;
            static const std::vector<std::vector<W>> al = {
                {0, 1, 2, 3, F, F - 1, H, H - 1, H + 1, 0xffffffff, 0x100000000, 0xfffffffe00000001, 0x5555555555555555, 10},
                {0, 1, 3, F, F - 1, H, H - 1, 0x100000000},
                {0, 1, F, H, H - 1},
                {0, 1, F, H - 1}};
            static const std::vector<std::vector<W>> al2 = {
                al[0],
                {0, 1, 2, 3, F, F - 1, H, H - 1, H + 1, 0xffffffff, 0x100000000, 0xfffffffe00000001, 0x5555555555555555},
                {0, 1, 3, F, F - 1, H, H - 1, 0x100000000},
                {0, 1, F, H, H - 1}};
            auto &a = (level > 1 ? al2 : al)[std::size_t(N - 1)];
            std::vector<std::size_t> i(std::size_t(N), 0);
            for(;;) {
                T t;
                if constexpr(requires { t.v; }) {
                    for(int k = 0; k < N; ++k) t.v[unsigned(k)] = a[i[std::size_t(k)]];
                    t.v[N] = 0xDEADBEEFDEADBEEF; // must never be looked at
                } else
                    for(int k = 0; k < N; ++k) t[unsigned(k)] = a[i[std::size_t(k)]];
                v.push_back(t);
                b.push_back(big(t));
                std::size_t k = 0;
                while(k < std::size_t(N) && ++i[k] == a.size()) i[k++] = 0;
                if(k == std::size_t(N)) break;
            }
        }
    }
    static const Values &get() {
        static Values x;
        return x;
    }
};
static const Big *ca, *cb;
static const char *cop = "";
static std::string (*cname)();
static std::string where() {
    std::stringstream s;
    s << cop << " " << (cname ? cname() : "") << " a=" << (ca ? *ca : Big(0)) << " b=" << (cb ? *cb : Big(0)) << BACK;
    return s.str();
}
static bool bad(const Big &got, const Big &want) {
    std::stringstream s;
    s << "gave " << got << " instead of " << want;
    violation(std::string(cop), where(), s.str());
    return false;
}
template<typename T> struct IsX : std::false_type {};
template<unsigned int N, bool S> struct IsX<li::compound_xint<N, S>> : std::true_type {};

template<typename A, typename B, typename F> static void pairs(F &&f) {
    if(!(*gate)() || violations > 60) return;
    static_assert(Info<A>::bits > 0);
    auto &va = Values<A>::get();
    auto &vb = Values<B>::get();
    cname = [] { return Info<A>::name() + "," + Info<B>::name(); };
    ++counters["type_pairs"];
    for(std::size_t i = 0; i < va.v.size(); ++i) {
        step();
        for(std::size_t j = 0; j < vb.v.size(); ++j) {
            ca = &va.b[i];
            cb = &vb.b[j];
            ++counters["operand_pairs"];
            if(*ca > W(-1) || *cb > W(-1) || *ca < 0 || *cb < 0) ++counters["nontrivial"];
            if(!f(va.v[i], vb.v[j], *ca, *cb)) return;
        }
        if(gate->stop()) return;
    }
    ca = cb = nullptr;
}
template<typename R> static bool expect(const char *o, const R &r, const Big &want) {
    cop = o;
    ++counters["evals"];
    Big g;
    if constexpr(std::is_same_v<R, Big>) g = r;
    else g = big(r);
    return g == want ? true : bad(g, want);
}
static bool expect_b(const char *o, bool g, bool want) {
    cop = o;
    ++counters["evals"];
    return g == want ? true : bad(g, want);
}
// words needed for T, with a sign bit if Signed
template<typename T, bool Signed> static constexpr int words = (Info<T>::bits + (Signed && !Info<T>::sgn) + 63) / 64;

template<typename R, typename A, typename B> static bool result_type(const char *o, int bits) {
    if constexpr(IsX<R>::value) {
        if(Info<R>::sgn != (Info<A>::sgn || Info<B>::sgn) || Info<R>::bits < bits) {
            violation("type", std::string(o) + " " + Info<A>::name() + "," + Info<B>::name() + BACK, "the result type is " + Info<R>::name());
            return false;
        }
    }
    return true;
}

template<typename A, typename B> static void group1() {
    constexpr bool S = Info<A>::sgn || Info<B>::sgn;
    constexpr int n = std::max(words<A, S>, words<B, S>);
    pairs<A, B>([&](const A &x, const B &y, const Big &a, const Big &b) {
        auto &&p = op(x);
        auto &&q = op(y);
        if constexpr(Info<A>::comp || Info<B>::comp) {
            auto s = li::add(p, q);
            auto d = li::sub(p, q);
            if(!result_type<decltype(s), A, B>("add", n * 64) || !result_type<decltype(d), A, B>("sub", n * 64)) return false;
            cop = "add";
            if(!expect("add", s, wrap(a + b, Info<decltype(s)>::bits, S)) || !expect("sub", d, wrap(a - b, Info<decltype(d)>::bits, S))) return false;
            auto c = li::cmp(p, q);
            if(!expect("cmp", c < 0 ? -1 : (c > 0 ? 1 : 0), a < b ? -1 : (a > b ? 1 : 0))) return false;
            if(!expect_b("eq", li::eq(p, q), a == b)) return false;
        }
        if constexpr(IsX<A>::value || (IsX<B>::value && std::is_integral_v<A>)) {
            auto s = p + q;
            auto d = p - q;
            if(!expect("+", s, wrap(a + b, Info<decltype(s)>::bits, S)) || !expect("-", d, wrap(a - b, Info<decltype(d)>::bits, S))) return false;
            if(!expect_b("==", p == q, a == b) || !expect_b("!=", p != q, a != b)) return false;
            if(!expect_b("<", p < q, a < b) || !expect_b("<=", p <= q, a <= b) || !expect_b(">", p > q, a > b) || !expect_b(">=", p >= q, a >= b)) return false;
        }
        if constexpr(IsX<A>::value) {
            if constexpr(requires(A t) { t += q; t -= q; }) {
                A t = x;
                t += q;
                if(!expect("+=", t, wrap(a + b, Info<A>::bits, Info<A>::sgn))) return false;
                t = x;
                t -= q;
                if(!expect("-=", t, wrap(a - b, Info<A>::bits, Info<A>::sgn))) return false;
                ++counters["compound_assignments"];
            }
            if constexpr(std::is_same_v<A, B>) {
                if(a == b) {
                    A t = x;
                    t += t;
                    if(!expect("+= itself", t, wrap(a + a, Info<A>::bits, Info<A>::sgn))) return false;
                    t = x;
                    t -= t;
                    if(!expect("-= itself", t, Big(0))) return false;
                }
                if constexpr(!Info<A>::sgn || true) {
                    constexpr unsigned N = Info<A>::bits / 64;
                    W out[N];
                    li::ar_add(N, x.data(), y.data(), out);
                    A t;
                    for(unsigned i = 0; i < N; ++i) t[i] = out[i];
                    if(!expect("ar_add", t, wrap(a + b, Info<A>::bits, Info<A>::sgn))) return false;
                    li::ar_sub(N, x.data(), y.data(), out);
                    for(unsigned i = 0; i < N; ++i) t[i] = out[i];
                    if(!expect("ar_sub", t, wrap(a - b, Info<A>::bits, Info<A>::sgn))) return false;
                }
            }
        }
        return true;
    });
}
template<typename A, typename B> static void group2() {
    pairs<A, B>([&](const A &x, const B &y, const Big &a, const Big &b) {
        auto &&p = op(x);
        auto &&q = op(y);
        auto r = li::mul(p, q);
        if(!expect("mul", r, a * b)) return false;
        if constexpr(IsX<A>::value || (IsX<B>::value && std::is_integral_v<A>)) {
            auto r2 = p * q;
            if(!expect("*", r2, a * b)) return false;
        }
        return true;
    });
}
template<typename A> static void group3() {
    if(!(*gate)() || violations > 60) return;
    auto &va = Values<A>::get();
    cname = [] { return Info<A>::name(); };
    ++counters["types"];
    constexpr int bits = Info<A>::bits;
    for(std::size_t i = 0; i < va.v.size(); ++i) {
        step();
        const A &x = va.v[i];
        const Big &a = va.b[i];
        ca = &a;
        Big am;
        cb = &am;
        ++counters["operand_pairs"];
        if(a > W(-1) || a < 0) ++counters["nontrivial"];
        bool ok = true;
        for(unsigned k = 0; ok && k < unsigned(bits); ++k) {
            am = k;
            Big shr = a >= 0 ? Big(a >> k) : Big(-((-a + pow2(k) - 1) >> k)), shl = wrap(a << k, bits, Info<A>::sgn);
            if constexpr(IsX<A>::value) {
                ok = expect("shift_right", li::shift_right(x, k), shr);
                if(ok && k < 256) {
                    ok = expect(">>", x >> (unsigned char)k, shr) && expect("<<", x << (unsigned char)k, shl) && expect("shift_left", li::shift_left(x, (unsigned char)k), shl);
                    A t = x;
                    t >>= (unsigned char)k;
                    ok = ok && expect(">>=", t, shr);
                    t = x;
                    t <<= (unsigned char)k;
                    ok = ok && expect("<<=", t, shl);
                }
            } else {
                ok = expect("shift_right", li::shift_right(op(x), k), shr);
                if(ok && k < 256) ok = expect("shift_left", li::shift_left(op(x), (unsigned char)k), shl);
            }
        }
        if(!ok) return;
        am = 0;
        {
            Big u = wrap(a, bits, false);
            int lz = bits;
            while(u > 0) { u >>= 1; --lz; }
            if(!expect("countl_zero", li::countl_zero(op(x)), lz)) return;
        }
        if constexpr(IsX<A>::value) {
            if constexpr(Info<A>::sgn) {
                if(!expect("negate", -x, wrap(-a, bits, true))) return;
            }
            if(!expect("abs", li::abs(x), wrap(a < 0 ? Big(-a) : a, bits, Info<A>::sgn))) return;
            if(!expect_b("negative", li::negative(x), a < 0) || !expect_b("bool", bool(x), a != 0)) return;
        }
        if(gate->stop()) return;
    }
    ca = cb = nullptr;
}
// the library's "Euclidean" division (see its own tests): the quotient is
// rounded towards minus infinity and the remainder is its distance
static void divide(const Big &a, const Big &b, bool euclid, Big &q, Big &r) {
    q = a / b;
    r = a % b; // truncating
    if(euclid) {
        if(r != 0 && (a < 0) != (b < 0)) q -= 1;
        r = abs(a - q * b);
    }
}
template<typename A, typename B> static void group4() {
    constexpr bool S = Info<A>::sgn || Info<B>::sgn;
    constexpr int n = std::max(words<A, S>, words<B, S>);
    pairs<A, B>([&](const A &x, const B &y, const Big &a, const Big &b) {
        if(b == 0) return true;
        auto &&p = op(x);
        auto &&t = op(y);
        Big q, r;
        divide(a, b, false, q, r);
        if(q >= -pow2(n * 64 - 1) && q < pow2(n * 64 - S)) {
            auto d = li::divmod(p, t);
            if(!result_type<decltype(d.quot), A, B>("divmod", n * 64)) return false;
            if(!expect("quotient", d.quot, q) || !expect("remainder", d.rem, r)) return false;
            if constexpr(IsX<A>::value || (IsX<B>::value && std::is_integral_v<A>)) {
                if(!expect("/", p / t, q)) return false;
            }
            auto u = [&]<unsigned K>(std::integral_constant<unsigned, K>) {
                if(q < -pow2(K * 64 - 1) || q >= pow2(K * 64 - S) || (!S && q < 0)) return true;
                auto d = li::unmul<K>(p, t);
                return expect("unmul quotient", d.quot, q) && expect("unmul remainder", d.rem, r);
            };
            if(!u(std::integral_constant<unsigned, 1>{}) || !u(std::integral_constant<unsigned, 2>{})) return false;
        }
        divide(a, b, true, q, r);
        if(q >= -pow2(n * 64 - 1) && q < pow2(n * 64 - S)) {
            auto d = li::divmod(p, t, li::modulo_t::euclid);
            if(!expect("Euclidean quotient", d.quot, q) || !expect("Euclidean remainder", d.rem, r)) return false;
            auto u = [&]<unsigned K>(std::integral_constant<unsigned, K>) {
                // the quotient of either kind must fit
                Big q2, r2;
                divide(a, b, false, q2, r2);
                for(auto &z : {q, q2}) if(z < -pow2(K * 64 - 1) || z >= pow2(K * 64 - S)) return true;
                auto d = li::unmul<K>(p, t, li::modulo_t::euclid);
                return expect("Euclidean unmul quotient", d.quot, q) && expect("Euclidean unmul remainder", d.rem, r);
            };
            if(!u(std::integral_constant<unsigned, 1>{}) || !u(std::integral_constant<unsigned, 2>{})) return false;
        }
        return true;
    });
}
// exact value of a floating point number
template<typename F> static Big exact(F f) {
    int e;
    F m = std::frexp(f, &e);
    const int d = std::numeric_limits<F>::digits;
    m = std::ldexp(m, d);
    e -= d;
    bool neg = m < 0;
    Big r = static_cast<unsigned __int128>(neg ? -m : m);
    if(e >= 0) r <<= e;
    else r >>= -e; // integers only
    return neg ? Big(-r) : r;
}
template<typename A> static void group5() {
    if(!(*gate)() || violations > 60) return;
    auto &va = Values<A>::get();
    ++counters["types"];
    static std::string nm;
    nm = Info<A>::name();
    cname = [] { return nm; };
    constexpr int bits = Info<A>::bits;
    for(std::size_t i = 0; i < va.v.size(); ++i) {
        step();
        const A &x = va.v[i];
        const Big &a = va.b[i];
        ca = &a;
        cb = nullptr;
        ++counters["operand_pairs"];
        if(a > W(-1) || a < 0) ++counters["nontrivial"];
        auto to_x = [&]<typename T>(T *) { // to a compound integer
            nm = Info<A>::name() + " to " + Info<T>::name();
            T t{op(x)};
            if(!expect("construct", t, wrap(a, Info<T>::bits, Info<T>::sgn))) return false;
            if constexpr(requires(T t) { t = op(x); } && !std::is_same_v<A, T> && (Info<T>::sgn ? Info<T>::bits >= bits + !Info<A>::sgn : Info<T>::bits >= bits && !Info<A>::sgn)) {
                T t2{0u};
                t2 = op(x);
                if(!expect("assign", t2, a)) return false;
                ++counters["assignments"];
            }
            if constexpr(requires { t.lo(); }) {
                T t3{0u};
                li::compound_xint_ref<Info<T>::bits / 64> r = t3;
                r.set(op(x));
                if(!expect("set", t3, wrap(a, Info<T>::bits, Info<T>::sgn))) return false;
            }
            return true;
        };
        if(!to_x((li::compound_int<1> *)0) || !to_x((li::compound_int<2> *)0) || !to_x((li::compound_int<3> *)0) || !to_x((li::compound_int<4> *)0)
            || !to_x((li::compound_uint<1> *)0) || !to_x((li::compound_uint<2> *)0) || !to_x((li::compound_uint<3> *)0) || !to_x((li::compound_uint<4> *)0)) return;
        if constexpr(IsX<A>::value) {
            auto to_i = [&]<typename T>(T) {
                nm = Info<A>::name() + " to " + Info<T>::name();
                return expect("cast", static_cast<T>(x), wrap(a, Info<T>::bits, Info<T>::sgn));
            };
            if(!to_i(std::int8_t()) || !to_i(std::uint8_t()) || !to_i(std::int16_t()) || !to_i(std::uint16_t()) || !to_i(std::int32_t()) || !to_i(std::uint32_t()) || !to_i(std::int64_t()) || !to_i(std::uint64_t())) return;
#if WITH_I128
            {
                nm = Info<A>::name() + " to i128";
                __int128 v = static_cast<__int128>(x);
                if(!expect("cast", Big(v), wrap(a, 128, true))) return;
                unsigned __int128 u = static_cast<unsigned __int128>(x);
                if(!expect("cast", Big(u), wrap(a, 128, false))) return;
            }
#endif
            auto to_f = [&]<typename F>(F, const char *n) {
                nm = Info<A>::name() + " to " + n;
                F f = static_cast<F>(x);
                ++counters["evals"];
                cop = "to float";
                if(!std::isfinite(f)) return bad(Big(-1), a);
                Big e = exact(f);
                // the nearest representable value, or (for words added one
                // after another) one of the two values next to it
                Big err = abs(e - a), aa = abs(a);
                int top = 0;
                for(Big t = aa; t > 0; t >>= 1) ++top;
                Big ulp = top > std::numeric_limits<F>::digits ? pow2(unsigned(top - std::numeric_limits<F>::digits)) : Big(0);
                if(err > ulp) return bad(e, a);
                if((a < 0) != (f < 0) || (a == 0) != (f == 0)) return bad(e, a);
                return true;
            };
            if(!to_f(1.0, "double") || !to_f(1.0L, "long double")) return;
            if(bits <= 64 || abs(a) < pow2(127)) if(!to_f(1.0f, "float")) return;
        }
        if(gate->stop()) return;
    }
    ca = nullptr;
}

// ------------------------------------------------------------ literals
#if VP_GROUP == 6
// the digits of a literal: a first digit, then a fill pattern
constexpr char lit_digit(int fill, int i) {
    constexpr char a[] = "0123456789abcdefFEDCBA", b[] = "8000000000000000f";
    return fill == 0 ? '0' : fill == 1 ? 'f' : fill == 2 ? a[i * 7 % 22] : b[i * 5 % 17];
}
template<char X, char Top, int Fill, std::size_t... I> void literal1(std::index_sequence<I...>) {
    if(!(*gate)() || gate->stop()) return;
    constexpr auto v = li::operator""_compi<'0', X, Top, lit_digit(Fill, int(I))...>();
    static const std::string text{'0', X, Top, lit_digit(Fill, int(I))...};
    constexpr unsigned digits = sizeof...(I) + 1;
    constexpr unsigned want = (digits * 4 + (Top >= '8' && digits % 16 == 0 ? 1 : 0) + 63) / 64;
    ++counters["evals"];
    if(digits > 16) ++counters["nontrivial"];
    if(counters["evals"] % 97 == 0) sample(text + "_compi");
    Big e("0x" + text.substr(2)), g = big(v);
    if(g != e) violation("literal", text + "_compi" BACK, "has the value " + g.str(0, std::ios_base::hex) + " (hexadecimal)");
    if(!std::is_same_v<std::remove_cvref_t<decltype(v)>, li::compound_int<want>>) violation("literal-type", text + "_compi" BACK, "is " + std::to_string(sizeof(v)) + " bytes wide instead of " + std::to_string(want * 8));
}
template<char X, char Top, int Fill, std::size_t... L> void literal2(std::index_sequence<L...>) {
    (literal1<X, Top, Fill>(std::make_index_sequence<L>{}), ...);
}
template<char X, char Top> void literal3() {
    using Few = std::index_sequence<0, 14, 15, 16, 30, 31, 32, 47, 48>;
    literal2<X, Top, 1>(std::index_sequence<0, 15, 16, 31, 32>{});
    literal2<X, Top, 3>(std::index_sequence<14, 15, 16>{});
    if constexpr(Top == '8' || Top == '1') {
        literal2<X, Top, 0>(Few{});
        literal2<X, Top, 2>(std::make_index_sequence<34>{});
    } else literal2<X, Top, 2>(Few{});
}
#endif

template<typename... T> struct List {};
using I1 = li::compound_int<1>; using I2 = li::compound_int<2>; using I3 = li::compound_int<3>; using I4 = li::compound_int<4>;
using U1 = li::compound_uint<1>; using U2 = li::compound_uint<2>; using U3 = li::compound_uint<3>; using U4 = li::compound_uint<4>;
template<typename A, typename... B, typename F> static void with(List<B...>, F f) { (f.template operator()<A, B>(), ...); }
template<typename... A, typename... B, typename F> static void cross(List<A...>, List<B...> b, F f) { (with<A>(b, f), ...); }
using Comp = List<I1, I2, I3, I4, U1, U2, U3, U4>;
using Lows = List<Low<1>, Low<2>, Low<3>>;
using Bi = List<std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t>;
using Bi2 = List<std::int32_t, std::uint32_t, std::int64_t, std::uint64_t>;
template<typename... A, typename F> static void each(List<A...>, F f) { (f.template operator()<A>(), ...); }

int main(int argc, char **argv) {
    init(argc, argv);
    auto c = opt.part.find(':');
    level = std::stoi(opt.part.substr(c + 1));
    Gate g;
    gate = &g;
    describe_current = where;
    sample(Info<I2>::name());
    // VP_PART splits the operand types, as each of these is slow to compile
    [[maybe_unused]] auto all2 = [](auto f) {
#if VP_PART == 1
        cross(Comp{}, Comp{}, f);
        cross(List<U1, U2, U3, U4>{}, Lows{}, f);
        cross(Lows{}, List<U1, U2, U3, U4>{}, f);
        cross(Lows{}, Lows{}, f);
#else
        cross(Comp{}, Bi{}, f);
        cross(Bi{}, Comp{}, f);
#endif
    };
#if VP_GROUP == 1
    all2([]<typename A, typename B>() { group1<A, B>(); });
#elif VP_GROUP == 2
    all2([]<typename A, typename B>() { group2<A, B>(); });
#if VP_PART == 2
    cross(Bi{}, Bi{}, []<typename A, typename B>() { group2<A, B>(); });
#endif
#elif VP_GROUP == 3
    each(Comp{}, []<typename A>() { group3<A>(); });
    each(Lows{}, []<typename A>() { group3<A>(); });
#elif VP_GROUP == 4
    auto f = []<typename A, typename B>() { group4<A, B>(); };
#if VP_PART == 1
    cross(List<I1, I2>{}, Comp{}, f);
#elif VP_PART == 2
    cross(List<I3, I4>{}, Comp{}, f);
#elif VP_PART == 3
    cross(List<U1, U2>{}, Comp{}, f);
#elif VP_PART == 4
    cross(List<U3, U4>{}, Comp{}, f);
#elif VP_PART == 5
    cross(Comp{}, Bi2{}, f);
#elif VP_PART == 6
    cross(Bi2{}, Comp{}, f);
    cross(Bi{}, Bi{}, f);
#endif
#elif VP_GROUP == 5
    each(Comp{}, []<typename A>() { group5<A>(); });
    each(Lows{}, []<typename A>() { group5<A>(); });
    each(Bi{}, []<typename A>() { group5<A>(); });
#if WITH_I128
    each(List<__int128, unsigned __int128>{}, []<typename A>() { group5<A>(); });
#endif
#elif VP_GROUP == 6
    [&]<char... C>(std::integer_sequence<char, C...>) {
        (literal3<'x', C>(), ...);
    }(std::integer_sequence<char, '0', '1', '7', '8', '9', 'a', 'F'>{});
    literal2<'X', '8', 2>(std::index_sequence<0, 15, 31, 33>{});
    literal2<'X', '7', 2>(std::index_sequence<0, 15, 31, 33>{});
#endif
    finish();
}
