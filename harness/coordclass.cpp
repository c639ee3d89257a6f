// A coordinate class of the user's own (which has what the documented concept asks
// for and nothing else) gives the results that the built-in type gives.
// --part clip:FAMILY:SCALE | offset:POINTS:SCALE
// With VP_CONTROL the class is replaced by the built-in type: when only this builds,
// the library no longer accepts such a class.
#include "flips.hpp"
#ifdef VP_CONTROL
#include <cstdint>
namespace vpc { using C = std::int32_t; using R = double; }
#else
#include "coordclass.hpp"
#endif
#include "families.hpp"
#include "tree.hpp"
#include "poly_ops/offset.hpp"
using namespace vp;
using Int = std::int32_t;
using Index = std::size_t;

template<typename T> struct Ty {
    static T c(i64 v) { return T(v); }
    static double r(double v) { return v; }
};
#ifndef VP_CONTROL
template<> struct Ty<vpc::C> {
    static vpc::C c(i64 v) { return vpc::C(v); }
    static vpc::R r(double v) { return vpc::R(v); }
};
#endif
template<typename T> i64 n(const T &v) { return i64(static_cast<long>(v)); }

struct Shape {
    std::vector<std::vector<std::pair<Pt, std::vector<i64>>>> loops; // in order of the tree, with origins
    std::vector<int> depth;
    bool operator==(const Shape &) const = default;
};
static std::string show(const Shape &s) {
    std::string t;
    for(std::size_t i = 0; i < s.loops.size(); ++i) {
        t += " " + std::to_string(s.depth[i]) + ":[";
        for(auto &[p, o] : s.loops[i]) {
            t += str(Poly{p});
            for(auto x : o) t += "<" + std::to_string(x);
        }
        t += "]";
    }
    return t;
}
template<typename R> void gather(R &&out, int depth, Shape &s) {
    for(auto &&l : out) {
        s.loops.emplace_back();
        s.depth.push_back(depth);
        auto &to = s.loops.back();
        for(auto &&q : l) {
            if constexpr(requires { q.original_points; }) to.push_back({{n(q.p.x()), n(q.p.y())}, {q.original_points.begin(), q.original_points.end()}});
            else to.push_back({{n(q.x()), n(q.y())}, {}});
        }
        if constexpr(requires { l.inner_loops(); }) gather(l.inner_loops(), depth + 1, s);
    }
}
template<typename R> Shape shape(R &&r) {
    Shape s;
    gather(std::forward<R>(r), 0, s);
    return s;
}
inline i64 val(std::int64_t v) { return v; }
#ifndef VP_CONTROL
inline i64 val(vpc::L v) { return v.v; }
#endif

template<typename T> using Loops = std::vector<std::vector<poly_ops::point_t<T>>>;
template<typename T> Loops<T> loops_of(const Case &c, int set) {
    Loops<T> r;
    for(auto &l : c.loops)
        if(set < 0 || l.set == set) {
            r.emplace_back();
            for(auto &p : l.pts) r.back().push_back({Ty<T>::c(p.x), Ty<T>::c(p.y)});
        }
    return r;
}
struct Result {
    std::vector<Shape> shapes;
    std::vector<i64> numbers;
    bool operator==(const Result &) const = default;
};
static std::string show(const Result &r) {
    std::string t;
    for(auto &s : r.shapes) t += " {" + show(s) + "}";
    for(auto v : r.numbers) t += " " + std::to_string(v);
    return t;
}
template<typename T> Result clip(const Case &c) {
    using namespace poly_ops;
    Result r;
    auto op = bool_op(c.op);
    auto s = loops_of<T>(c, 0), k = loops_of<T>(c, 1);
    auto add = [&](auto &&out) { r.shapes.push_back(shape(std::forward<decltype(out)>(out))); };
    auto enter = [&](auto &n) {
        for(auto &l : c.loops) {
            if(l.set) {
                auto sink = n.add_loop(bool_set::clip);
                for(auto &p : l.pts) sink(point_t<T>{Ty<T>::c(p.x), Ty<T>::c(p.y)});
            } else {
                std::vector<point_t<T>> v;
                for(auto &p : l.pts) v.push_back({Ty<T>::c(p.x), Ty<T>::c(p.y)});
                n.add_loops_subject(v);
            }
        }
    };
    {
        flips.start();
        clipper<T, Index> n;
        enter(n);
        add(n.template execute<false>(op));
        flips.start();
        n.reset();
        enter(n);
        add(std::move(n).template execute<true>(op));
    }
    {
        flips.start();
        origin_tracked_clipper<T, Index> n;
        enter(n);
        add(n.template execute<true>(op));
    }
    flips.start();
    add(boolean_op<true, T>(s, k, op));
    flips.start();
    add(boolean_op<false, T>(s, k, op, origin_point_tracker<Index>{}));
    flips.start();
    add(union_op<false, T>(s));
    flips.start();
    add(normalize_op<true, T>(s));
    for(auto &l : s) r.numbers.push_back(val(winding_dir<T>(l)));
    for(auto &l : k) {
        for(std::size_t i = 2; i < l.size(); ++i) r.numbers.push_back(val(triangle_winding(l[i - 2], l[i - 1], l[i])));
    }
    return r;
}
template<typename T> Result off(const Case &c, double m, i64 arc, bool closed) {
    using namespace poly_ops;
    Result r;
    auto s = loops_of<T>(c, 0), k = loops_of<T>(c, 1);
    auto add = [&](auto &&out) { r.shapes.push_back(shape(std::forward<decltype(out)>(out))); };
    flips.start();
    add(offset<true, T>(s, Ty<T>::r(m), Ty<T>::c(arc), closed));
    flips.start();
    add(offset<false, T>(s, Ty<T>::r(m), Ty<T>::c(arc), origin_point_tracker<Index>{}, closed));
    {
        flips.start();
        clipper<T> n;
        add_offset_subject(n, s, Ty<T>::r(m), Ty<T>::c(arc), closed);
        for(auto &l : k) add_offset_clip(n, l, Ty<T>::r(-m), Ty<T>::c(arc));
        add(n.template execute<false>(bool_op(c.op)));
        r.numbers.push_back(i64(n.next_orig_i()));
    }
    return r;
}
static std::string cur;

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = [] { return cur; };
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    i64 S = std::stoll(a.at(2));
    flips.bound = 0;
    auto judge = [&](const char *key, const Result &x, const Result &y) {
        ++counters["evals"];
        for(auto &s : x.shapes)
            if(!s.loops.empty()) { ++counters["nontrivial"]; break; }
        if(!(x == y)) violation(key, cur, "built-in:" + show(x) + "; class:" + show(y));
        if(counters["evals"] % 997 == 0) sample(cur);
    };
    if(a[0] == "clip") {
        if(!family(a.at(1), S, [&](Case &c) {
            for(c.op = 0; c.op < 5; ++c.op) {
                cur = str(c);
                step();
                judge("class", clip<Int>(c), clip<vpc::C>(c));
            }
            c.op = 0;
        })) return 4;
    } else {
        Gate g;
        auto gr = grid(2, 2, S, S / 50);
        gr.push_back({S * 3 / 2, -S / 3});
        Case c;
        c.loops = {{0, {}}, {0, {{S / 5, S / 4}, {S * 3 / 4, S / 4}, {S / 2, S * 4 / 5}}}, {1, rect(S / 2, S / 3, 2 * S, 3 * S / 2)}};
        for(int len = 0; len <= std::stoi(a.at(1)); ++len) {
            std::vector<int> cc;
            all_seqs(int(gr.size()), len, cc, [&](const std::vector<int> &s) {
                if(!g() || g.stop()) return !truncated;
                c.loops[0].pts.clear();
                for(int i : s) c.loops[0].pts.push_back(gr[std::size_t(i)]);
                for(c.op = 0; c.op < 5; ++c.op)
                    for(double f : {0.3, -0.12, 1.7})
                        for(i64 arc : {S / 9, S / 3, S * 4})
                            for(int closed = 0; closed < 2; ++closed) {
                                double m = f * double(S);
                                char b[80];
                                std::snprintf(b, sizeof b, " offset by %g in steps of %ld, %s", m, long(arc), closed ? "closed" : "open");
                                cur = str(c) + b;
                                step();
                                judge("class-offset", off<Int>(c, m, arc, closed), off<vpc::C>(c, m, arc, closed));
                            }
                return !truncated;
            }, false);
            if(truncated) break;
        }
    }
    finish();
}
