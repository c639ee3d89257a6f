// Bounded input spaces, enumerated completely. Every family calls f(Case&) for
// each member that belongs to this shard (without the operation).
#pragma once
#include "vp.hpp"
#include <numbers>

namespace vp {

inline std::vector<Pt> grid(int w, int h, i64 S, i64 jit = 0, i64 ox = 0, i64 oy = 0) {
    std::vector<Pt> r;
    for(int y = 0; y < h; ++y)
        for(int x = 0; x < w; ++x) {
            int i = y * w + x;
            r.push_back({ox + x * S + jit * ((i * 37 + 5) % 11 - 5), oy + y * S + jit * ((i * 53 + 3) % 13 - 6)});
        }
    return r;
}
inline std::vector<Poly> polys(const std::vector<Pt> &g, int n, bool rotations = false) {
    std::vector<Poly> r;
    for(auto &s : closed_seqs(int(g.size()), n, rotations)) {
        Poly p;
        for(int i : s) p.push_back(g[std::size_t(i)]);
        r.push_back(p);
    }
    return r;
}

struct Space {
    Gate gate;
    Case c;
    template<typename F> bool emit(F &&f) {
        if(!gate()) return true;
        if(gate.stop()) return false;
        step();
        f(c);
        return true;
    }
};

inline Space *cur_space = nullptr;

template<typename F> void pairs(const std::vector<Poly> &A, const std::vector<Poly> &B, F &&f, int sets = 2) {
    Space sp;
    cur_space = &sp;
    for(auto &a : A)
        for(auto &b : B)
            for(int s = 0; s < sets; s += 1) {
                // s==0: a subject, b clip; s==1: both subject
                if(sets == 1 || true) {
                    if(!sp.gate()) continue;
                    if(sp.gate.stop()) return;
                    sp.c.loops.resize(2);
                    sp.c.loops[0] = {0, a};
                    sp.c.loops[1] = {s == 0 ? 1 : 0, b};
                    step();
                    f(sp.c);
                }
            }
}
template<typename F> void singles(const std::vector<Poly> &A, F &&f) {
    Space sp;
    cur_space = &sp;
    for(auto &a : A) {
        sp.c.loops = {{0, a}};
        if(!sp.emit(f)) return;
    }
}
template<typename F> void single_ngons(const std::vector<Pt> &g, int n, F &&f) {
    Space sp;
    cur_space = &sp;
    std::vector<int> cur;
    all_seqs(int(g.size()), n, cur, [&](const std::vector<int> &s) {
        if(!least_rotation(s)) return true;
        if(!sp.gate()) return true;
        if(sp.gate.stop()) return false;
        sp.c.loops.resize(1);
        sp.c.loops[0].set = 0;
        sp.c.loops[0].pts.clear();
        for(int i : s) sp.c.loops[0].pts.push_back(g[std::size_t(i)]);
        step();
        f(sp.c);
        return true;
    }, true);
}
// three loops, every assignment to the two sets
template<typename F> void triples(const std::vector<Poly> &A, F &&f, int set_masks = 8) {
    Space sp;
    cur_space = &sp;
    for(auto &a : A)
        for(auto &b : A)
            for(auto &c : A)
                for(int m = 0; m < set_masks; ++m) {
                    if(!sp.gate()) continue;
                    if(sp.gate.stop()) return;
                    sp.c.loops.resize(3);
                    sp.c.loops[0] = {m & 1, a};
                    sp.c.loops[1] = {m >> 1 & 1, b};
                    sp.c.loops[2] = {m >> 2 & 1, c};
                    step();
                    f(sp.c);
                }
}
inline Poly rect(i64 x1, i64 y1, i64 x2, i64 y2, bool ccw = false) {
    Poly p{{x1, y1}, {x2, y1}, {x2, y2}, {x1, y2}};
    if(ccw) std::reverse(p.begin(), p.end());
    return p;
}
// every rectangle spanned by grid lines
inline std::vector<Poly> rects(int n, i64 S, bool both) {
    std::vector<Poly> r;
    for(int x1 = 0; x1 < n; ++x1)
        for(int x2 = x1 + 1; x2 < n; ++x2)
            for(int y1 = 0; y1 < n; ++y1)
                for(int y2 = y1 + 1; y2 < n; ++y2) {
                    r.push_back(rect(x1 * S, y1 * S, x2 * S, y2 * S));
                    if(both) r.push_back(rect(x1 * S, y1 * S, x2 * S, y2 * S, true));
                }
    return r;
}
// k nested loops: every orientation, every set assignment, every insertion order,
// two shapes (axis parallel, diamonds alternate)
template<typename F> void nested(int k, i64 S, bool orders, F &&f, int max_shape = 3) {
    Space sp;
    cur_space = &sp;
    std::vector<int> perm(static_cast<std::size_t>(k));
    for(int i = 0; i < k; ++i) perm[std::size_t(i)] = i;
    do {
        for(int shape = 0; shape < max_shape; ++shape)
            for(int o = 0; o < (1 << k); ++o)
                for(int m = 0; m < (1 << k); ++m) {
                    if(!sp.gate()) continue;
                    if(sp.gate.stop()) return;
                    sp.c.loops.clear();
                    for(int i : perm) {
                        i64 r = S * (1 << i);
                        Poly p;
                        if(shape == 0 || (shape == 2 && i % 2)) p = rect(-r, -r, r, r);
                        else p = Poly{{0, -r}, {r, 0}, {0, r}, {-r, 0}};
                        if(shape == 2 && !(i % 2)) // touching alternation: diamond inscribed in the next square
                            p = Poly{{0, -2 * r}, {2 * r, 0}, {0, 2 * r}, {-2 * r, 0}};
                        if(o >> i & 1) std::reverse(p.begin(), p.end());
                        sp.c.loops.push_back({m >> i & 1, p});
                    }
                    step();
                    f(sp.c);
                }
    } while(orders && std::next_permutation(perm.begin(), perm.end()));
}
// w*h adjacent tiles, each absent / subject / clip in both orientations
template<typename F> void tiles(int w, int h, i64 S, int states, F &&f) {
    Space sp;
    cur_space = &sp;
    u64 total = 1;
    for(int i = 0; i < w * h; ++i) total *= u64(states);
    for(u64 v = 0; v < total; ++v) {
        if(!sp.gate()) continue;
        if(sp.gate.stop()) return;
        sp.c.loops.clear();
        u64 t = v;
        for(int i = 0; i < w * h; ++i) {
            int s = int(t % u64(states));
            t /= u64(states);
            if(!s) continue;
            int x = i % w, y = i / w;
            sp.c.loops.push_back({(s - 1) & 1, rect(x * S, y * S, (x + 1) * S, (y + 1) * S, s > 2)});
        }
        step();
        f(sp.c);
    }
}
// star polygons {n/k} and pairs of them
template<typename F> void stars(int maxn, i64 R, F &&f) {
    std::vector<Poly> v;
    for(int n = 3; n <= maxn; ++n)
        for(int k = 1; k < n; ++k)
            for(int ph = 0; ph < 2; ++ph) {
                Poly p;
                for(int i = 0; i < n; ++i) {
                    double a = 2 * std::numbers::pi * ((i * k) % n) / n + ph * 0.3;
                    p.push_back({i64(std::lround(double(R) * std::cos(a))), i64(std::lround(double(R) * std::sin(a)))});
                }
                bool ok = true;
                std::set<Pt> s(p.begin(), p.end());
                if(s.size() < 3) ok = false;
                for(std::size_t i = 0; i < p.size(); ++i)
                    if(p[i] == p[(i + 1) % p.size()]) ok = false;
                if(ok) v.push_back(p);
            }
    singles(v, f);
    if(truncated) return;
    std::vector<Poly> sh;
    for(std::size_t i = 0; i < v.size(); i += 3) {
        Poly p = v[i];
        for(auto &q : p) {
            q.x += R / 3;
            q.y -= R / 5;
        }
        sh.push_back(p);
    }
    pairs(v, sh, f, 1);
}
// two combs with m1 and m2 teeth crossing each other
template<typename F> void combs(int maxm, i64 S, F &&f) {
    Space sp;
    cur_space = &sp;
    for(int m1 = 1; m1 <= maxm; ++m1)
        for(int m2 = 1; m2 <= maxm; ++m2)
            for(int slant = 0; slant < 3; ++slant)
                for(int o = 0; o < 4; ++o)
                    for(int set = 0; set < 2; ++set) {
                        if(!sp.gate()) continue;
                        if(sp.gate.stop()) return;
                        auto comb = [&](int m, bool tr, bool rev) {
                            Poly p;
                            i64 len = 2 * maxm + 2;
                            for(int i = 0; i < m; ++i) {
                                p.push_back({(2 * i) * S + 7 * slant, 0});
                                p.push_back({(2 * i) * S + S * slant / 2, len * S});
                                p.push_back({(2 * i + 1) * S + S * slant / 2 + 3 * slant, len * S});
                                if(i + 1 < m) p.push_back({(2 * i + 1) * S, S});
                                if(i + 1 < m) p.push_back({(2 * i + 2) * S + 7 * slant, S});
                                if(i + 1 < m) p.pop_back();
                            }
                            p.push_back({(2 * m - 1) * S, 0});
                            for(auto &q : p) {
                                if(tr) std::swap(q.x, q.y);
                                if(tr) { q.x -= S; q.y += S; }
                            }
                            if(rev) std::reverse(p.begin(), p.end());
                            return p;
                        };
                        sp.c.loops.clear();
                        sp.c.loops.push_back({0, comb(m1, false, o & 1)});
                        sp.c.loops.push_back({set, comb(m2, true, o & 2)});
                        step();
                        f(sp.c);
                    }
}

// A named family at a scale. Returns false for an unknown name.
template<typename F> bool family(const std::string &name, i64 S, F &&f) {
    if(name == "tri4xtri4") { auto t = polys(grid(4, 4, S), 3); pairs(t, t, f, 1); }
    else if(name == "tri3xtri3") { auto t = polys(grid(3, 3, S), 3); pairs(t, t, f); }
    else if(name == "tri2") { auto t = polys(grid(2, 2, S), 3); pairs(t, t, f); }
    else if(name == "tri1") { auto t = polys(grid(3, 3, S), 3, true); singles(t, f); }
    else if(name == "jtri2") { auto t = polys(grid(2, 2, S, S / 40), 3); pairs(t, t, f); }
    else if(name == "tris22x3") triples(polys(grid(2, 2, S), 3), f);
    else if(name == "tri3q") { auto t = polys(grid(3, 3, S), 3), u = t; u.erase(std::remove_if(u.begin(), u.end(), [&](auto &p) { return twice_area(p) == 0 || &p - u.data() > 60; }), u.end()); pairs(t, u, f, 1); }
    else if(name == "jtri3xtri3s") { auto t = polys(grid(3, 3, S, S / 40), 3); t.resize(40); pairs(t, t, f, 1); }
    else if(name == "quad3") single_ngons(grid(3, 3, S), 4, f);
    else if(name == "pent2") single_ngons(grid(3, 2, S), 5, f);
    else if(name == "quad2") single_ngons(grid(3, 2, S), 4, f);
    else if(name == "tri3rot") { auto t = polys(grid(3, 3, S), 3, true); pairs(t, t, f); }
    else if(name == "tri3xquad3") pairs(polys(grid(3, 3, S), 3), polys(grid(3, 3, S), 4), f);
    else if(name == "quad3xtri3") pairs(polys(grid(3, 3, S), 4), polys(grid(3, 3, S), 3), f, 1);
    else if(name == "tri3xpent3") pairs(polys(grid(3, 3, S), 3), polys(grid(3, 3, S), 5), f, 1);
    else if(name == "quad3xquad3") { auto q = polys(grid(3, 3, S), 4); pairs(q, q, f, 1); }
    else if(name == "jquad3xquad3") { auto q = polys(grid(3, 3, S, S / 40), 4); pairs(q, q, f, 1); }
    else if(name == "jtri3xtri3") { auto t = polys(grid(3, 3, S, S / 40), 3); pairs(t, t, f); }
    else if(name == "jtri3xquad3") pairs(polys(grid(3, 3, S, S / 40), 3), polys(grid(3, 3, S, S / 40), 4), f);
    else if(name == "jtri4xtri4") { auto t = polys(grid(4, 4, S, S / 40), 3); pairs(t, t, f, 1); }
    else if(name == "tri4xquad4") pairs(polys(grid(4, 4, S), 3), polys(grid(4, 4, S), 4), f, 1);
    else if(name == "tri5xtri5") { auto t = polys(grid(5, 5, S), 3); pairs(t, t, f, 1); }
    else if(name == "tris23x3") triples(polys(grid(3, 2, S), 3), f);
    else if(name == "tris23x3m2") triples(polys(grid(3, 2, S), 3), f, 2);
    else if(name == "tris33x3") triples(polys(grid(3, 3, S), 3), f, 4);
    else if(name == "jtris23x3") triples(polys(grid(3, 2, S, S / 40), 3), f);
    else if(name == "rects4x3") triples(rects(4, S, false), f);
    else if(name == "rects3ox3") triples(rects(3, S, true), f);
    else if(name == "pent3") single_ngons(grid(3, 3, S), 5, f);
    else if(name == "hex3") single_ngons(grid(3, 3, S), 6, f);
    else if(name == "jhex3") single_ngons(grid(3, 3, S, S / 40), 6, f);
    else if(name == "hept3") single_ngons(grid(3, 3, S), 7, f);
    else if(name == "jhept3") single_ngons(grid(3, 3, S, S / 40), 7, f);
    else if(name == "oct3") single_ngons(grid(3, 3, S), 8, f);
    else if(name == "quad4") single_ngons(grid(4, 4, S), 4, f);
    else if(name == "pent4") single_ngons(grid(4, 4, S), 5, f);
    else if(name == "hex4") single_ngons(grid(4, 4, S), 6, f);
    else if(name == "nested4") nested(4, S, true, f);
    else if(name == "nested5") nested(5, S, false, f);
    else if(name == "nested5o") nested(5, S, true, f);
    else if(name == "nested6") nested(6, S, false, f);
    else if(name == "tiles23") tiles(3, 2, S, 5, f);
    else if(name == "tiles33") tiles(3, 3, S, 5, f);
    else if(name == "tiles33s") tiles(3, 3, S, 3, f);
    else if(name == "stars") stars(10, 4 * S, f);
    else if(name == "bigstars") stars(15, 4 * S, f);
    else if(name == "combs") combs(6, S, f);
    else return false;
    cur_space = nullptr;
    return true;
}

} // namespace vp
