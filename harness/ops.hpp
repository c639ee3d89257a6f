// Running the library under test on a Case.
#pragma once
#include "vp.hpp"
#include "poly_ops/poly_ops.hpp"

namespace vp {

template<typename Coord> poly_ops::point_t<Coord> topt(Pt p) { return {Coord(p.x), Coord(p.y)}; }
template<typename Coord> std::vector<poly_ops::point_t<Coord>> to_loop(const Poly &l) {
    std::vector<poly_ops::point_t<Coord>> r;
    r.reserve(l.size());
    for(auto &p : l) r.push_back(topt<Coord>(p));
    return r;
}

template<typename R> std::vector<Poly> collect(R &&out) {
    std::vector<Poly> r;
    for(auto &&loop : out) {
        Poly p;
        for(auto &&q : loop) p.push_back({i64(q.x()), i64(q.y())});
        r.push_back(std::move(p));
    }
    return r;
}

template<typename Coord, typename Index> std::vector<Poly> run_flat(const Case &c) {
    poly_ops::clipper<Coord, Index> n;
    for(auto &l : c.loops) n.add_loops(to_loop<Coord>(l.pts), poly_ops::bool_set(l.set));
    return collect(n.template execute<false>(poly_ops::bool_op(c.op)));
}

struct Tree {
    Poly loop;
    std::vector<Tree> kids;
    bool operator==(const Tree &b) const { return loop == b.loop && kids == b.kids; }
};
template<typename R> std::vector<Tree> collect_tree(R &&out) {
    std::vector<Tree> r;
    for(auto &&loop : out) {
        Tree t;
        for(auto &&q : loop) t.loop.push_back({i64(q.x()), i64(q.y())});
        t.kids = collect_tree(loop.inner_loops());
        r.push_back(std::move(t));
    }
    return r;
}
template<typename Coord, typename Index> std::vector<Tree> run_tree(const Case &c) {
    poly_ops::clipper<Coord, Index> n;
    for(auto &l : c.loops) n.add_loops(to_loop<Coord>(l.pts), poly_ops::bool_set(l.set));
    return collect_tree(n.template execute<true>(poly_ops::bool_op(c.op)));
}

} // namespace vp
