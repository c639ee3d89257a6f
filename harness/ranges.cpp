// C22: reading result ranges. --part iter:DEPTH | owned:0
#include "vp.hpp"
#include "arena.hpp"
#include "iters.hpp"
#include <poly_ops/poly_ops.hpp>
#include <poly_ops/offset.hpp>
#include <memory>
#include <optional>
#include <ranges>
using namespace vp;
using namespace poly_ops;

using C = std::int32_t;
using P = point_t<C>;
using LoopV = std::vector<P>;
using LoopsV = std::vector<LoopV>;
struct Node {
    std::vector<std::pair<C, C>> pts;
    std::vector<std::vector<std::uint32_t>> orig;
    std::vector<Node> kids;
    bool operator==(const Node &) const = default;
};
template<typename V> static void put(Node &n, const V &v) {
    if constexpr(requires { v.original_points; }) {
        n.pts.push_back({v.p.x(), v.p.y()});
        n.orig.emplace_back(v.original_points.begin(), v.original_points.end());
    } else n.pts.push_back({v.x(), v.y()});
}
template<typename L> static Node node(const L &l, bool tree) {
    Node n;
    for(auto &&v : l) put(n, v);
    if(tree)
        for(auto &&k : l.inner_loops()) n.kids.push_back(node(k, true));
    return n;
}
template<typename R> static std::vector<Node> nodes(R &&r, bool tree) {
    std::vector<Node> o;
    for(auto &&l : r) o.push_back(node(l, tree));
    return o;
}

static LoopV sq(C x, C y, C s) { return {{x, y}, {C(x + s), y}, {C(x + s), C(y + s)}, {x, C(y + s)}}; }
struct Scene { const char *name; LoopsV subject, clip; bool_op op; };
static std::vector<Scene> scenes() {
    std::vector<Scene> s;
    s.push_back({"nothing", {}, {}, bool_op::union_});
    s.push_back({"cancelled", {sq(0, 0, 100)}, {sq(0, 0, 100)}, bool_op::difference});
    s.push_back({"triangle", {{{0, 0}, {100, 0}, {0, 100}}}, {}, bool_op::union_});
    s.push_back({"two squares", {sq(0, 0, 100), sq(200, 0, 100)}, {}, bool_op::union_});
    s.push_back({"ring", {sq(0, 0, 100)}, {sq(20, 20, 30)}, bool_op::difference});
    s.push_back({"crossing xor", {sq(0, 0, 100)}, {sq(50, 50, 100)}, bool_op::xor_});
    LoopsV n;
    for(C i = 0; i < 5; ++i) n.push_back(sq(C(i * 40), C(i * 40), C(1000 - i * 80)));
    for(C i = 0; i < 3; ++i) n.push_back(sq(C(300 + i * 150), 400, 60));
    n.push_back(sq(310, 410, 20));
    n.push_back(sq(330, 430, 10));
    s.push_back({"nested", n, {}, bool_op::normalize});
    LoopsV m;
    for(C i = 0; i < 4; ++i) m.push_back(sq(C(i * 200), 0, 90));
    s.push_back({"four squares, cut", m, {sq(-10, 40, 1000)}, bool_op::difference});
    return s;
}

// everything that can be read from one range must equal the expectation
template<bool Tree, typename R> static void read_all(R &r, const std::vector<Node> &ex, const std::string &name, int depth) {
    auto get = [](const auto &l) { return node(l, Tree); };
    auto fail = [&](const std::string &w) { violation("range", name, w); };
    ++counters["evals"];
    if(nodes(r, Tree) != ex || nodes(r, Tree) != ex) fail("a loop over the range gives the wrong loops");
    if(nodes(std::as_const(r), Tree) != ex) fail("a loop over the constant range gives the wrong loops");
    if(r.size() != ex.size() || r.empty() != ex.empty() || std::size_t(std::ranges::distance(r)) != ex.size()) fail("wrong number of loops");
    for(std::size_t i = 0; i < ex.size(); ++i)
        if(node(r[i], Tree) != ex[i] || node(std::as_const(r)[i], Tree) != ex[i]) fail("wrong loop by subscript");
    {
        std::vector<Node> g;
        for(auto &&l : std::ranges::subrange(r.begin(), r.end()) | std::views::reverse) g.push_back(node(l, Tree));
        std::reverse(g.begin(), g.end());
        if(g != ex) fail("the reversed range gives the wrong loops");
    }
    if(!depth) return;
    explore_range(r, ex, get, name, depth);
    explore_range(std::as_const(r), ex, get, name + " (constant)", depth - 1);
    std::function<void(const Node &, const std::string &, std::function<void(std::function<void(const std::ranges::range_value_t<R> &)>)>)> f;
    for(std::size_t i = 0; i < ex.size(); ++i) {
        auto l = r[i]; // a copy of the proxy
        std::string nm = name + " loop " + std::to_string(i);
        std::function<void(const decltype(l) &, const Node &, const std::string &, int)> one = [&](const decltype(l) &l, const Node &e, const std::string &nm, int dep) {
            std::vector<Node> vals;
            for(std::size_t k = 0; k < e.pts.size(); ++k) {
                vals.emplace_back();
                vals.back().pts = {e.pts[k]};
                if(!e.orig.empty()) vals.back().orig = {e.orig[k]};
            }
            auto gv = [](const auto &v) { Node n; put(n, v); return n; };
            ++counters["evals"];
            if(std::size_t(l.size()) != vals.size() || l.empty() != vals.empty() || std::size_t(std::ranges::distance(l)) != vals.size() || std::size_t(std::distance(l.begin(), l.end())) != vals.size()) violation("loop", nm, "wrong number of points");
            if(!vals.empty() && (gv(l.front()) != vals.front() || !bool(l))) violation("loop", nm, "wrong first point");
            auto c = l;
            explore_range(c, vals, gv, nm, std::max(1, dep + (vals.size() < 5)));
            // indices are distinct and constant
            std::set<std::size_t> idx;
            for(auto it = l.begin(); it != l.end(); ++it) idx.insert(std::size_t(it.index()));
            if(idx.size() != vals.size()) violation("loop", nm, "index() repeats");
            if constexpr(Tree) {
                auto in = l.inner_loops();
                if(in.size() != e.kids.size() || in.empty() != e.kids.empty() || nodes(in, true) != e.kids || nodes(l.inner_loops(), true) != e.kids) violation("loop", nm, "wrong inner loops");
                explore_range(in, e.kids, [](const auto &l) { return node(l, true); }, nm + " inner loops", dep);
                auto moved = std::move(in);
                explore_range(std::as_const(moved), e.kids, [](const auto &l) { return node(l, true); }, nm + " inner loops (moved)", dep);
                for(std::size_t k = 0; k < e.kids.size(); ++k) one(moved[k], e.kids[k], nm + "." + std::to_string(k), dep - 1);
            }
        };
        one(l, ex[i], nm, depth - 1);
    }
}

template<typename N> static void load(N &n, const Scene &s) {
    n.add_loops(s.subject, bool_set::subject);
    n.add_loops(s.clip, bool_set::clip);
}
template<bool Tree> static std::vector<Node> expect(const Scene &s, bool tracked) {
    if(tracked) {
        origin_point_tracker<std::uint32_t> t;
        clipper<C, std::uint32_t> n;
        n.add_loops(s.subject, bool_set::subject, t.callbacks());
        n.add_loops(s.clip, bool_set::clip, t.callbacks());
        return nodes(n.template execute<Tree>(s.op, t), Tree);
    }
    clipper<C, std::uint32_t> n;
    load(n, s);
    return nodes(n.template execute<Tree>(s.op), Tree);
}
template<bool Tree> static void iter(const Scene &s, int depth) {
    std::string nm = std::string(s.name) + (Tree ? " (hierarchy)" : " (flat)");
    {
        clipper<C, std::uint32_t> n;
        load(n, s);
        auto r = n.template execute<Tree>(s.op);
        read_all<Tree>(r, expect<Tree>(s, false), nm, depth);
    }
    {
        tclipper<C, std::uint32_t, origin_point_tracker<std::uint32_t>> n(origin_point_tracker<std::uint32_t>{});
        load(n, s);
        auto r = n.template execute<Tree>(s.op);
        read_all<Tree>(r, expect<Tree>(s, true), nm + " tracked", depth);
    }
}

// owned results outlive everything they were made from
template<bool Tree> static void owned(const Scene &s) {
    std::string nm = std::string(s.name) + (Tree ? " (hierarchy)" : " (flat)");
    auto moves = [&](auto &&make, const std::vector<Node> &ex, const std::string &nm) {
        using R = decltype(make());
        // every sequence of up to four moves between places
        for(int seq = 0; seq < 81; ++seq) {
            step();
            std::unique_ptr<R> heap;
            std::optional<R> opt;
            std::optional<R> cur;
            cur.emplace(make());
            bool ok = true;
            int q = seq;
            for(int k = 0; k < 4; ++k, q /= 3) {
                R *from = heap ? heap.get() : (opt ? &*opt : &*cur);
                if(q % 3 == 0) {
                    auto h = std::make_unique<R>(std::move(*from));
                    heap.reset(); opt.reset(); cur.reset();
                    heap = std::move(h);
                } else if(q % 3 == 1) {
                    R tmp(std::move(*from));
                    heap.reset(); opt.reset(); cur.reset();
                    cur.emplace(std::move(tmp));
                } else {
                    auto f = [](R r) { return r; };
                    R tmp = f(std::move(*from));
                    heap.reset(); opt.reset(); cur.reset();
                    opt.emplace(std::move(tmp));
                }
                R *now = heap ? heap.get() : (opt ? &*opt : &*cur);
                read_all<Tree>(*now, ex, nm + " after move sequence " + std::to_string(seq), seq == 5 && k == 3 ? 1 : 0);
                ++counters["nontrivial"];
            }
        }
    };
    auto ex = expect<Tree>(s, false);
    moves([&] {
        clipper<C, std::uint32_t> n;
        load(n, s);
        return std::move(n).template execute<Tree>(s.op);
    }, ex, nm + " from clipper");
    moves([&] {
        // a reused object
        clipper<C, std::uint32_t> n;
        n.add_loops(LoopV{{5, 5}, {70, 10}, {20, 90}}, bool_set::clip);
        (void)n.template execute<!Tree>(bool_op::xor_);
        load(n, s);
        return std::move(n).template execute<Tree>(s.op);
    }, ex, nm + " from a reused clipper");
    {
        Arena mem;
        moves([&] {
            clipper<C, std::uint32_t> n(&mem);
            load(n, s);
            return std::move(n).template execute<Tree>(s.op);
        }, ex, nm + " with a memory resource");
        if(!mem.live.empty()) violation("leak", nm, "memory was not returned to the resource");
        if(!mem.error.empty()) violation("memory", nm, mem.error);
    }
    moves([&] {
        tclipper<C, std::uint32_t, origin_point_tracker<std::uint32_t>> n(origin_point_tracker<std::uint32_t>{});
        load(n, s);
        return std::move(n).template execute<Tree>(s.op);
    }, expect<Tree>(s, true), nm + " tracked");
    if(s.op != bool_op::normalize)
        moves([&] { return boolean_op<Tree, C, std::uint32_t>(s.subject, s.clip, s.op); }, ex, nm + " from boolean_op");
    else
        moves([&] { return normalize_op<Tree, C, std::uint32_t>(s.subject); }, ex, nm + " from normalize_op");
    if(s.op == bool_op::union_ && s.clip.empty()) moves([&] { return union_op<Tree, C, std::uint32_t>(s.subject); }, ex, nm + " from union_op");
    // results as input
    auto twice = [&](auto &&r) { return nodes(union_op<Tree, C, std::uint32_t>(r), Tree); };
    clipper<C, std::uint32_t> n;
    load(n, s);
    auto r = std::move(n).template execute<Tree>(s.op);
    LoopsV copy;
    for(auto &&l : r) copy.emplace_back(l.begin(), l.end());
    ++counters["evals"];
    if(twice(r) != twice(copy)) violation("input", nm, "a result used as input differs from its copy");
    {
        // offsetting a result with a magnitude, as a lazily read input
        auto a = nodes(offset<Tree, C, std::uint32_t>(r, 3, 100), Tree), b = nodes(offset<Tree, C, std::uint32_t>(copy, 3, 100), Tree);
        if(a != b) violation("input", nm, "a result used as input of offset differs from its copy");
    }
}

int main(int argc, char **argv) {
    init(argc, argv);
    auto c = opt.part.find(':');
    int d = std::stoi(opt.part.substr(c + 1));
    Gate g;
    for(auto &s : scenes()) {
        sample(s.name, 8);
        if(opt.part.substr(0, c) == "iter") {
            if(g()) iter<false>(s, d);
            if(g()) iter<true>(s, d);
        } else {
            if(g()) owned<false>(s);
            if(g()) owned<true>(s);
        }
    }
    finish();
}
