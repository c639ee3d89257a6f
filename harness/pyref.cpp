// C++ reference for the Python binding: runs the library directly on 64-bit
// coordinates and writes the result as a flat list of numbers.
#include <cstdint>
#include <cstring>
#include <memory>
#include <vector>
#include "poly_ops/poly_ops.hpp"

using namespace poly_ops;
using i64 = std::int64_t;
using P = point_t<i64>;

namespace {
struct Out {
    i64 *p;
    long cap, n = 0;
    void put(i64 v) {
        if(n < cap) p[n] = v;
        ++n;
    }
};

template<bool Tracked, bool Tree, typename T> void put_loop(Out &o, T &&loop) {
    o.put(i64(loop.size()));
    for(auto &&e : loop) {
        if constexpr(Tracked) {
            auto &&[p, orig] = e;
            o.put(p.x());
            o.put(p.y());
            o.put(i64(orig.size()));
            for(auto i : orig) o.put(i64(i));
        } else {
            P p = e;
            o.put(p.x());
            o.put(p.y());
            o.put(0);
        }
    }
    if constexpr(Tree) {
        auto &&in = loop.inner_loops();
        o.put(i64(std::ranges::distance(in)));
        for(auto &&c : in) put_loop<Tracked, Tree>(o, c);
    } else o.put(0);
}

template<bool Tracked, bool Tree, typename R> void put(Out &o, R &&r) {
    o.put(i64(std::ranges::distance(r)));
    for(auto &&l : r) put_loop<Tracked, Tree>(o, l);
}

struct Desc { i64 kind, set, n, step, closed, orig; };
}

// kind: 0 loop, 1 offset, 2 set the next original index
extern "C" __attribute__((visibility("default"))) long vp_ref(int tree, int tracked, int op, long nd, const Desc *d, const double *mag, const i64 *pts, i64 *buf, long cap) {
    Out o{buf, cap};
    clipper<i64> c;
    origin_point_tracker<> t;
    i_point_tracker<> *pt = tracked ? t.callbacks() : nullptr;
    for(long i = 0; i < nd; ++i) {
        if(d[i].kind == 2) {
            c.next_orig_i() = std::size_t(d[i].orig);
            continue;
        }
        std::vector<P> l;
        for(i64 j = 0; j < d[i].n; ++j, pts += 2) l.emplace_back(pts[0], pts[1]);
        if(l.empty()) continue;
        if(d[i].kind == 0) c.add_loops(l, bool_set(d[i].set), pt);
        else add_offset(c, l, bool_set(d[i].set), mag[i], int(d[i].step), d[i].closed != 0, pt);
    }
    if(tracked) {
        if(tree) put<true, true>(o, c.execute<true>(bool_op(op), t));
        else put<true, false>(o, c.execute<false>(bool_op(op), t));
    } else {
        if(tree) put<false, true>(o, c.execute<true>(bool_op(op)));
        else put<false, false>(o, c.execute<false>(bool_op(op)));
    }
    return o.n;
}

extern "C" __attribute__((visibility("default"))) void vp_winding(long n, const i64 *pts, i64 *hi, std::uint64_t *lo) {
    std::vector<P> l;
    for(long j = 0; j < n; ++j, pts += 2) l.emplace_back(pts[0], pts[1]);
    auto r = winding_dir<i64>(l);
    static_assert(sizeof(r) == 16);
    std::uint64_t w[2];
    std::memcpy(w, &r, 16);
    *lo = w[0];
    *hi = i64(w[1]);
}
