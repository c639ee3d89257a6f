// Independent oracle for the hierarchy of output loops.
#pragma once
#include "ops.hpp"
namespace vp {
struct FlatNode {
    Poly loop;
    int parent, depth;
};
inline void flatten(const std::vector<Tree> &t, int parent, int depth, std::vector<FlatNode> &out) {
    for(auto &n : t) {
        int me = int(out.size());
        out.push_back({n.loop, parent, depth});
        flatten(n.kids, me, depth + 1, out);
    }
}
inline std::string dump(const std::vector<FlatNode> &f) {
    std::string s;
    for(auto &n : f) s += "\n" + std::string(std::size_t(2 * n.depth + 2), ' ') + str(n.loop);
    return s;
}
// true: loop's ancestors are exactly the loops whose region strictly contains its region.
// loops of zero area are not placed (their position is only required to exist).
inline std::string check_tree(const std::vector<Tree> &t, double margin) {
    std::vector<FlatNode> f;
    flatten(t, -1, 0, f);
    std::vector<Edge> all;
    std::vector<std::vector<Edge>> per;
    for(auto &n : f) {
        per.push_back(edges_of(std::vector<Poly>{n.loop}));
        all.insert(all.end(), per.back().begin(), per.back().end());
    }
    static thread_local std::vector<Sample> smp;
    u64 sk = 0;
    arrangement_samples(all, margin, smp, sk);
    counters["tree_cells"] += smp.size();
    std::size_t n = f.size();
    std::vector<std::vector<char>> in(n, std::vector<char>(smp.size()));
    std::vector<int> area(n);
    for(std::size_t i = 0; i < n; ++i)
        for(std::size_t j = 0; j < smp.size(); ++j) {
            int w = winding(per[i], smp[j].x, smp[j].y);
            in[i][j] = char(w);
            if(w) ++area[i];
            if(w < -1 || w > 1) return "loop " + str(f[i].loop) + " winds more than once" + dump(f);
            if(w && (w > 0) != (f[i].depth % 2 == 0)) return "loop " + str(f[i].loop) + " at depth " + std::to_string(f[i].depth) + " has the wrong orientation" + dump(f);
        }
    for(std::size_t i = 0; i < n; ++i) {
        if(!area[i]) { ++counters["tree_flat_loops"]; continue; }
        std::set<int> anc;
        for(int p = f[i].parent; p >= 0; p = f[std::size_t(p)].parent) anc.insert(p);
        for(std::size_t k = 0; k < n; ++k) {
            if(k == i || !area[k]) continue;
            bool sub = true;
            int shared = 0;
            for(std::size_t j = 0; j < smp.size(); ++j)
                if(in[i][j]) {
                    if(!in[k][j]) sub = false;
                    else ++shared;
                }
            bool isanc = anc.count(int(k)) != 0;
            bool desc = false;
            for(int p = f[k].parent; p >= 0; p = f[std::size_t(p)].parent)
                if(p == int(i)) desc = true;
            if(sub && area[k] == area[i]) { ++counters["tree_equal_loops"]; continue; }
            ++counters["tree_pairs"];
            if(sub != isanc) return std::string("loop ") + str(f[i].loop) + (sub ? " lies inside " : " is not inside ") + str(f[k].loop) + (isanc ? " and is listed beneath it" : " but is not listed beneath it") + dump(f);
            (void)desc;
        }
    }
    return {};
}
inline std::vector<Poly> canon_loops(std::vector<Poly> v) {
    for(auto &p : v)
        if(!p.empty()) {
            // least rotation by value
            Poly best = p;
            for(std::size_t r = 1; r < p.size(); ++r) {
                Poly q(p.begin() + long(r), p.end());
                q.insert(q.end(), p.begin(), p.begin() + long(r));
                if(q < best) best = q;
            }
            p = best;
        }
    std::sort(v.begin(), v.end());
    return v;
}
} // namespace vp
