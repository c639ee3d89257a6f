// C20: no access outside the library's data, no overflow, no failed internal
// check, all memory returned. Built with sanitizers and the internal checks on.
// --part loops:W:H:N:SCALE   every loop of up to N points on a W x H grid, repeats included
//        two:W:H:N:SCALE     every pair of such loops
//        family:NAME:SCALE   the families of other checks
//        offset:W:H:N:SCALE  every such loop, closed and open, offset
#include "families.hpp"
#include "arena.hpp"
#include <poly_ops/poly_ops.hpp>
#include <poly_ops/offset.hpp>
using namespace vp;

static Case cc;
static std::string note;
static unsigned sum; // keeps reads alive

template<typename R> static void read_all(R &&r) {
    for(auto &&loop : r) {
        for(auto &&v : loop) {
            if constexpr(requires { v.original_points; }) {
                sum += unsigned(v.p.x()) + unsigned(v.p.y());
                for(auto o : v.original_points) sum += unsigned(o);
            } else sum += unsigned(v.x()) + unsigned(v.y());
        }
        if constexpr(requires { loop.inner_loops(); }) read_all(loop.inner_loops());
    }
}
static void account(Arena &mem) {
    mem.check_all();
    if(!mem.error.empty()) violation("memory", str(cc) + note, mem.error);
    if(!mem.live.empty()) violation("memory-leak", str(cc) + note, std::to_string(mem.live.size()) + " blocks were not returned");
}
template<typename C, typename I, bool Tree> static void plain(const Case &c, bool reuse) {
    Arena mem;
    {
        poly_ops::clipper<C, I> n(&mem);
        for(int k = 0; k <= int(reuse); ++k) {
            for(auto &l : c.loops) {
                auto s = n.add_loop(poly_ops::bool_set(l.set));
                for(auto &p : l.pts) s(poly_ops::point_t<C>(C(p.x), C(p.y)));
            }
            if(k) {
                auto r = std::move(n).template execute<Tree>(poly_ops::bool_op(c.op));
                read_all(r);
            } else read_all(n.template execute<Tree>(poly_ops::bool_op(c.op)));
        }
    }
    account(mem);
}
template<typename C, typename I, bool Tree> static void tracked(const Case &c) {
    Arena mem;
    {
        poly_ops::clipper<C, I> n(&mem);
        poly_ops::origin_point_tracker<I> t(&mem);
        for(auto &l : c.loops) {
            std::vector<poly_ops::point_t<C>> v;
            for(auto &p : l.pts) v.emplace_back(C(p.x), C(p.y));
            n.add_loops(v, poly_ops::bool_set(l.set), &t);
        }
        read_all(n.template execute<Tree>(poly_ops::bool_op(c.op), t));
    }
    account(mem);
}
template<typename C, typename I> static void all_ops(const char *tn) {
    for(int op = 0; op < 5; ++op) {
        cc.op = op;
        step();
        note = std::string(" type=") + tn + " flat";
        plain<C, I, false>(cc, op == 0);
        note = std::string(" type=") + tn + " tree";
        plain<C, I, true>(cc, op == 4);
        note = std::string(" type=") + tn + " tracked";
        tracked<C, I, false>(cc);
        note = std::string(" type=") + tn + " tracked tree";
        tracked<C, I, true>(cc);
        counters["evals"] += 4;
        if(!cc.loops.empty() && cc.loops[0].pts.size() > 2) counters["nontrivial"] += 4;
    }
    if(counters["evals"] % 99971 < 20) sample(str(cc));
}
static void offsets() {
    auto &p = cc.loops[0].pts;
    i64 W = 0;
    for(auto &q : p) W = std::max({W, q.x, q.y});
    if(!W) W = 10;
    std::vector<poly_ops::point_t<int>> v;
    for(auto &q : p) v.emplace_back(int(q.x), int(q.y));
    for(int closed = 0; closed < 2; ++closed)
        for(double m : {0.4, -0.4, 0.0, 1.5, -1.5, 0.01})
            for(int arc : {1, 8, 1000}) {
                if(arc * 300 < W * std::abs(m)) continue; // far too many points
                step();
                note = std::string(closed ? " closed" : " open") + " magnitude " + std::to_string(m * double(W)) + " arc " + std::to_string(arc);
                Arena mem;
                {
                    poly_ops::clipper<int> n(&mem);
                    poly_ops::add_offset(n, v, poly_ops::bool_set::subject, m * double(W), arc, closed);
                    read_all(n.execute<true>(poly_ops::bool_op::union_));
                    poly_ops::origin_point_tracker<> t(&mem);
                    poly_ops::add_offset(n, v, poly_ops::bool_set::clip, m * double(W), arc, closed, &t);
                    read_all(n.execute<false>(poly_ops::bool_op::xor_, t));
                }
                account(mem);
                ++counters["evals"];
                if(v.size() > 2) ++counters["nontrivial"];
            }
}

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = [] { return str(cc) + note; };
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    auto one = [&] {
        all_ops<std::int32_t, std::size_t>("int32");
        if(a.back() == "small") {
            all_ops<std::int16_t, std::uint16_t>("int16");
            all_ops<std::int64_t, std::int32_t>("int64");
        }
    };
    if(a.at(0) == "family") {
        i64 S = std::stoll(a.at(2));
        if(!family(a.at(1), S, [&](Case &c) {
            if(violations > 20) return;
            cc = c;
            one();
        })) return 4;
        finish();
        return 0;
    }
    int w = std::stoi(a.at(1)), h = std::stoi(a.at(2)), n = std::stoi(a.at(3));
    i64 S = std::stoll(a.at(4)), off = S > 100000000 ? -S : 0;
    std::vector<Poly> loops{{}};
    for(int k = 1; k <= n; ++k) {
        std::vector<int> c;
        all_seqs(w * h, k, c, [&](const std::vector<int> &s) {
            Poly p;
            for(int i : s) p.push_back({off + (i % w) * S + (a.at(0) == "offset" ? i : 0), off + (i / w) * S});
            loops.push_back(p);
            return true;
        }, false);
    }
    Gate g;
    for(auto &p : loops) {
        if(a[0] == "two") {
            for(auto &q : loops) {
                if(!g()) continue;
                if(g.stop() || violations > 20) break;
                cc.loops = {{0, p}, {1, q}};
                one();
            }
            continue;
        }
        if(!g()) continue;
        if(g.stop() || violations > 20) break;
        cc.loops = {{0, p}};
        if(a[0] == "offset") offsets();
        else one();
    }
    finish();
}
