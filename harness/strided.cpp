// C23: strided views. --part raw:DEPTH | points:DEPTH
#include "vp.hpp"
#include "iters.hpp"
#include <poly_ops/poly_ops.hpp>
#include <poly_ops/strided_itr.hpp>
#include <ranges>
using namespace vp;

template<typename R, typename V, typename Get> static void whole(R &&r, const std::vector<V> &vals, Get get, const std::string &name) {
    auto same = [&](auto &&range, bool rev, const char *w) {
        std::vector<V> g;
        for(auto &&v : range) {
            g.push_back(get(v));
            if(g.size() > vals.size() + 2) break;
        }
        auto ex = vals;
        if(rev) std::reverse(ex.begin(), ex.end());
        ++counters["evals"];
        if(!(g == ex)) violation("range", name, std::string(w) + " visits the wrong elements");
    };
    same(r, false, "a loop");
    same(r, false, "a second loop");
    if(std::size_t(std::ranges::distance(r)) != vals.size()) violation("range", name, "wrong distance");
    if constexpr(requires { r.size(); }) { if(std::size_t(r.size()) != vals.size()) violation("range", name, "size() is " + std::to_string(r.size())); }
    if constexpr(requires { r.empty(); }) { if(r.empty() != vals.empty()) violation("range", name, "wrong empty()"); }
    if constexpr(requires { r[0]; }) {
        for(std::size_t i = 0; i < vals.size(); ++i)
            if(!(get(r[std::ptrdiff_t(i)]) == vals[i])) violation("range", name, "wrong element " + std::to_string(i) + " by subscript");
    }
    if constexpr(requires { r | std::views::reverse; }) same(r | std::views::reverse, true, "the reversed view");
    if constexpr(requires { r | std::views::take(1); }) {
        if(vals.size() > 1) {
            auto d = r | std::views::drop(1);
            std::size_t i = 1;
            for(auto &&v : d) {
                if(i >= vals.size() || !(get(v) == vals[i])) { violation("range", name, "the view without its first element is wrong"); break; }
                ++i;
            }
        }
    }
}

static Gate *gate;
static void raw(int depth) {
    static char buf[64];
    for(int i = 0; i < 64; ++i) buf[i] = char(i);
    auto get = [](char c) { return int(c); };
    for(int n = 0; n <= 4; ++n)
        for(int s = -5; s <= 5; ++s) {
            if(!(*gate)()) continue;
            std::vector<int> vals;
            for(int i = 0; i < n; ++i) vals.push_back(32 + i * s);
            std::string name = std::to_string(n) + " elements, stride " + std::to_string(s);
            sample(name);
            auto r = poly_ops::make_strided_range((const char *)buf + 32, std::size_t(n), s, [](const char *p) { return *p; });
            whole(r, vals, get, name);
            explore_range(r, vals, get, name, depth);
            auto w = poly_ops::make_strided_range(buf + 32, std::size_t(n), s, [](char *p) { return *p; });
            whole(w, vals, get, name + " (writable)");
            explore_range(w, vals, get, name + " (writable)", depth - 1);
            auto c = r;
            auto m = std::move(c);
            explore_range(m, vals, get, name + " (moved)", depth - 1);
        }
}

template<typename Coord, typename Src> static void points(int depth, const char *tn) {
    using P = poly_ops::point_t<Coord>;
    static Src buf[96];
    for(int i = 0; i < 96; ++i) buf[i] = Src(i % 2 ? i : -i);
    constexpr std::ptrdiff_t E = sizeof(Src);
    auto getp = [](P p) { return std::pair<Coord, Coord>(p.x(), p.y()); };
    auto getl = [&](auto &&l) {
        std::vector<std::pair<Coord, Coord>> o;
        for(P p : l) o.push_back(getp(p));
        return o;
    };
    for(int cs : {1, -1, 3, -5, 0})
        for(int ps : {2, -2, 1, 0, 7, -7})
            for(int n = 0; n <= 3; ++n) {
                if(!(*gate)()) continue;
                auto at = [&](std::ptrdiff_t base, int i) { return std::pair<Coord, Coord>(static_cast<Coord>(buf[base + i * ps]), static_cast<Coord>(buf[base + i * ps + cs])); };
                std::vector<std::pair<Coord, Coord>> vals;
                for(int i = 0; i < n; ++i) vals.push_back(at(48, i));
                std::string name = std::string(tn) + " " + std::to_string(n) + " points, strides " + std::to_string(cs) + "," + std::to_string(ps);
                auto r = poly_ops::blob_to_point_range<Coord, Src>(buf + 48, cs * E, ps * E, std::size_t(n));
                whole(r, vals, getp, name);
                explore_range(r, vals, getp, name, depth - 1);
                for(int ls : {0, 4, -4, 9, -9})
                    for(int m = 0; m <= 3; ++m) {
                        std::vector<std::vector<std::pair<Coord, Coord>>> lv;
                        for(int j = 0; j < m; ++j) {
                            lv.emplace_back();
                            for(int i = 0; i < n; ++i) lv.back().push_back(at(48 + j * ls, i));
                        }
                        auto rr = poly_ops::blob_to_point_range_range<Coord, Src>(buf + 48, cs * E, ps * E, ls * E, std::size_t(n), std::size_t(m));
                        std::string nn = name + ", " + std::to_string(m) + " loops, stride " + std::to_string(ls);
                        whole(rr, lv, getl, nn);
                        explore_range(rr, lv, getl, nn, m ? depth - 2 : 1);
                        // as input of an operation
                        if constexpr(std::is_integral_v<Coord>)
                            if(n == 3) {
                                std::vector<std::vector<P>> copy;
                                for(auto &l : lv) {
                                    copy.emplace_back();
                                    for(auto &q : l) copy.back().push_back(P(q.first, q.second));
                                }
                                auto res = [](auto &&r) {
                                    std::vector<std::vector<std::pair<Coord, Coord>>> o;
                                    for(auto &&l : r) {
                                        o.emplace_back();
                                        for(auto p : l) o.back().push_back({p.x(), p.y()});
                                    }
                                    return o;
                                };
                                if(res(poly_ops::normalize_op<false, Coord>(rr)) != res(poly_ops::normalize_op<false, Coord>(copy))) violation("op", nn, "an operation on the view differs from one on a copy");
                            }
                    }
            }
}

int main(int argc, char **argv) {
    init(argc, argv);
    auto c = opt.part.find(':');
    int d = std::stoi(opt.part.substr(c + 1));
    Gate g;
    gate = &g;
    if(opt.part.substr(0, c) == "raw") raw(d);
    else {
        points<std::int32_t, std::int32_t>(d, "int32");
        points<std::int64_t, std::int16_t>(d, "int64 from int16");
        points<std::int32_t, double>(d, "int32 from double");
        points<std::int64_t, std::int8_t>(d, "int64 from int8");
        points<double, float>(d, "double from float");
    }
    finish();
}
