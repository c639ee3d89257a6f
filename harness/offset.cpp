// Offsetting (C10 closed, C12 open and lone points, C11 attribution).
// --part MODE:FAMILY:SCALE
#include "flips.hpp"
#include "families.hpp"
#include "tree.hpp"
using namespace vp;
#ifndef VP_COORD
#define VP_COORD int
#endif
using Coord = VP_COORD;

struct Cur {
    std::vector<Poly> in;
    double m = 0;
    Coord arc = 1;
    bool closed = true;
    std::string extra;
};
static Cur cur;
static std::string text() {
    std::string s = cur.closed ? "closed" : "open";
    for(auto &p : cur.in) s += " " + str(p);
    char b[80];
    std::snprintf(b, sizeof b, " magnitude %g arc step %lld ", cur.m, (long long)cur.arc);
    return s + b + cur.extra;
}
static std::string show(const std::vector<Poly> &v) {
    std::string s;
    for(auto &p : v) s += " " + str(p);
    return s;
}

static double seg_dist(double x, double y, Pt a, Pt b) {
    double dx = double(b.x - a.x), dy = double(b.y - a.y), l = dx * dx + dy * dy;
    double t = l ? ((x - double(a.x)) * dx + (y - double(a.y)) * dy) / l : 0;
    t = std::max(0.0, std::min(1.0, t));
    return std::hypot(x - double(a.x) - t * dx, y - double(a.y) - t * dy);
}
static double line_dist(double x, double y, const Poly &p, bool closed) {
    double d = 1e18;
    for(std::size_t i = 0; i + (closed ? 0 : 1) < p.size(); ++i) d = std::min(d, seg_dist(x, y, p[i], p[(i + 1) % p.size()]));
    if(p.size() == 1) d = std::hypot(x - double(p[0].x), y - double(p[0].y));
    return d;
}
// largest distance between an arc of radius m and its chords
static double sagitta(double m, double arc) {
    m = std::abs(m);
    double th = std::min(std::numbers::pi, 2 * arc / m);
    return m * (1 - std::cos(th / 2));
}

// probe points: a lattice over everything, and points just inside and outside
// of the expected boundary along every edge and around every vertex
static void probes(const std::vector<Poly> &in, bool closed, const std::vector<double> &dists, std::vector<Sample> &out) {
    out.clear();
    i64 x0 = INT64_MAX, x1 = INT64_MIN, y0 = x0, y1 = x1;
    for(auto &p : in)
        for(auto &q : p) {
            x0 = std::min(x0, q.x);
            x1 = std::max(x1, q.x);
            y0 = std::min(y0, q.y);
            y1 = std::max(y1, q.y);
        }
    double big = 0;
    for(double d : dists) big = std::max(big, std::abs(d));
    double w = double(x1 - x0) + 2.4 * big + 10, h = double(y1 - y0) + 2.4 * big + 10;
    int N = 13;
    for(int i = 0; i < N; ++i)
        for(int j = 0; j < N; ++j) out.push_back({double(x0) - 1.2 * big - 5 + w * (i + 0.37) / N, double(y0) - 1.2 * big - 5 + h * (j + 0.61) / N});
    for(auto &p : in)
        for(std::size_t i = 0; i < p.size(); ++i) {
            for(double d : dists)
                for(int k = 0; k < 16; ++k) {
                    double a = 2 * std::numbers::pi * (k + 0.21) / 16;
                    out.push_back({double(p[i].x) + d * std::cos(a), double(p[i].y) + d * std::sin(a)});
                }
            if(i + (closed ? 0 : 1) >= p.size()) continue;
            Pt a = p[i], b = p[(i + 1) % p.size()];
            double dx = double(b.x - a.x), dy = double(b.y - a.y), l = std::hypot(dx, dy);
            if(l == 0) continue;
            for(double d : dists)
                for(int k = 0; k < 4; ++k)
                    for(int s = -1; s < 2; s += 2) {
                        double t = (k + 0.43) / 4;
                        out.push_back({double(a.x) + t * dx - s * d * dy / l, double(a.y) + t * dy + s * d * dx / l});
                    }
        }
}

static double TOL = 16;
// away from an edge line of the result, where the even-handed winding test is safe
static bool near_edge(const std::vector<Edge> &es, double x, double y, double tol) {
    for(auto &e : es)
        if(seg_dist(x, y, e.a, e.b) < tol) return true;
    return false;
}
static void judge(const std::vector<Poly> &out, bool closed) {
    static std::vector<Sample> smp;
    auto ie = edges_of(cur.in), oe = edges_of(out);
    double m = cur.m, sag = sagitta(m, cur.arc), am = std::abs(m);
    probes(cur.in, closed, {am + TOL + 0.5, std::max(0.0, am - sag - TOL - 0.5), std::max(0.0, am - TOL - 0.5), am * 0.5, am * 1.3 + TOL}, smp);
    bool some = false;
    for(auto &s : smp) {
        double d = 1e18;
        for(auto &p : cur.in) d = std::min(d, line_dist(s.x, s.y, p, closed));
        bool inside = closed && winding(ie, s.x, s.y) >= 1;
        if(closed && d < 0.01) continue;
        int want = -1;
        if(m > 0) {
            double e = inside ? 0 : d; // distance to the shape
            if(e < am - sag - TOL) want = 1;
            else if(e > am + TOL) want = 0;
        } else {
            if(!inside || d < am - sag - TOL) want = 0;
            else if(d > am + TOL) want = 1;
        }
        if(want < 0) continue;
        ++counters["probes"];
        if(near_edge(oe, s.x, s.y, 0.001)) continue;
        int w = winding(oe, s.x, s.y);
        some |= want == 1;
        if(w != want) {
            violation("offset-region", text(), "at (" + std::to_string(s.x) + "," + std::to_string(s.y) + "), " + std::to_string(d) + " from the lines" + (closed ? (inside ? ", inside" : ", outside") : "") + ": expected winding " + std::to_string(want) + ", got " + std::to_string(w) + "; result" + show(out));
            break;
        }
    }
    if(some) ++counters["nontrivial"];
}
static std::vector<std::vector<poly_ops::point_t<Coord>>> input() {
    std::vector<std::vector<poly_ops::point_t<Coord>>> r;
    for(auto &p : cur.in) r.push_back(to_loop<Coord>(p));
    return r;
}
static void geometry() {
    flips.start();
    flips.bound = 0;
    step();
    auto in = input();
    auto out = collect(poly_ops::offset<false, Coord>(in, cur.m, cur.arc, cur.closed));
    ++counters["evals"];
    judge(out, cur.closed);
    // through the class interface, one range at a time
    flips.start();
    poly_ops::clipper<Coord> n;
    for(auto &l : in) poly_ops::add_offset(n, l, poly_ops::bool_set::subject, cur.m, cur.arc, cur.closed);
    auto out2 = collect(n.execute(poly_ops::bool_op::union_));
    if(out2 != out) violation("offset-entry", text(), "offset() gives" + show(out) + ", add_offset() gives" + show(out2));
}

// ------------------------------------------------------------ C11
struct Val {
    i64 i;
    Pt p;
};
struct Rec final : poly_ops::i_point_tracker<std::size_t> {
    std::vector<i64> added;
    bool started = false, late = false;
    void point_added(std::size_t o) override { added.push_back(i64(o)); if(started) late = true; }
    void new_point_between(std::size_t, std::size_t) override { started = true; }
    void point_merge(std::size_t, std::size_t) override { started = true; }
    void reset() override { added.clear(); }
    Rec *callbacks() { return this; }
    template<typename C> Val get_value(std::size_t i, const poly_ops::point_t<C> &p) const { return {i64(i), {i64(p.x()), i64(p.y())}}; }
};
static Poly cleaned(const Poly &p, bool closed) {
    Poly r;
    for(auto &q : p)
        if(r.empty() || !(r.back() == q)) r.push_back(q);
    if(closed && r.size() > 1 && r.back() == r.front()) r.pop_back();
    return r;
}
static bool is_rotation(const Poly &a, const Poly &b) {
    if(a.size() != b.size()) return false;
    if(a.empty()) return true;
    for(std::size_t r = 0; r < a.size(); ++r) {
        bool ok = true;
        for(std::size_t i = 0; ok && i < a.size(); ++i) ok = a[i] == b[(i + r) % a.size()];
        if(ok) return true;
    }
    return false;
}
// inputs: several ranges added one after another to one object; plain[i]: range i
// is added with add_loops instead of add_offset; separate: one add_offset call per range
static void attribution(const std::vector<Poly> &in, const std::vector<char> &plain, bool closed, double m, Coord arc) {
    cur.in = in;
    cur.m = m;
    cur.arc = arc;
    cur.closed = closed;
    cur.extra.clear();
    for(auto x : plain) cur.extra += x ? " plain" : " offset";
    step();
    flips.start();
    flips.bound = 0;
    Rec rec;
    poly_ops::clipper<Coord> n;
    Poly all;
    std::vector<std::size_t> first_added;
    for(std::size_t i = 0; i < in.size(); ++i) {
        first_added.push_back(rec.added.size());
        auto l = to_loop<Coord>(in[i]);
        if(plain[i]) n.add_loops(l, poly_ops::bool_set::subject, &rec);
        else poly_ops::add_offset(n, l, poly_ops::bool_set::subject, m, arc, closed, &rec);
        all.insert(all.end(), in[i].begin(), in[i].end());
        if(n.next_orig_i() != all.size()) {
            violation("numbering", text(), "the next original number is " + std::to_string(n.next_orig_i()) + " after " + std::to_string(all.size()) + " input points");
            return;
        }
    }
    first_added.push_back(rec.added.size());
    std::vector<Pt> where(rec.added.size());
    std::vector<char> have(rec.added.size(), 0);
    std::size_t total = rec.added.size();
    for(auto &&loop : n.execute<false>(poly_ops::bool_op::normalize, rec))
        for(Val v : loop)
            if(v.i < i64(total)) {
                where[std::size_t(v.i)] = v.p;
                have[std::size_t(v.i)] = 1;
            }
    ++counters["evals"];
    if(rec.added.size() != total || rec.late) { violation("attribution", text(), "points were announced during the operation"); return; }
    for(std::size_t i = 0; i < in.size(); ++i) {
        Poly c = cleaned(in[i], plain[i] || closed), seq;
        for(std::size_t k = first_added[i]; k < first_added[i + 1]; ++k) {
            i64 o = rec.added[k];
            if(o < 0 || o >= i64(all.size())) { violation("attribution", text(), "a point is attributed to input point " + std::to_string(o) + " of " + std::to_string(all.size())); return; }
            Pt src = all[std::size_t(o)];
            if(!have[k]) { violation("attribution", text(), "point " + std::to_string(k) + " is missing in the normalized result"); return; }
            double d = std::hypot(double(where[k].x - src.x), double(where[k].y - src.y));
            // a corner that needs no arc goes through the input point itself
            if(d > 0.5 && std::abs(d - (plain[i] ? 0 : std::abs(m))) > 1.5) {
                violation("attribution", text(), "point " + str(Poly{where[k]}) + " is attributed to input point " + std::to_string(o) + " at " + str(Poly{src}) + ", " + std::to_string(d) + " away");
                return;
            }
            if(seq.empty() || !(seq.back() == src)) seq.push_back(src);
        }
        if(seq.size() > 1 && seq.back() == seq.front()) seq.pop_back();
        // the points in the order of the boundary: every vertex in turn
        Poly want = c;
        if(plain[i]) { if(c.size() < 3) want.clear(); }
        else if(!closed && c.size() > 1)
            for(std::size_t k = c.size() - 1; k-- > 1;) want.push_back(c[k]);
        if(!plain[i] && c.size() == 1 && m <= 0) want.clear();
        if(!is_rotation(seq, want)) violation("attribution", text(), "range " + std::to_string(i) + ": the sources in order are " + str(seq) + " instead of " + str(want));
        if(seq.size()) ++counters["nontrivial"];
    }
}

static bool simple(const Poly &p) {
    std::size_t n = p.size();
    for(std::size_t i = 0; i < n; ++i)
        for(std::size_t j = i + 1; j < n; ++j) {
            if(p[i] == p[j]) return false;
            Edge a{p[i], p[(i + 1) % n], 0}, b{p[j], p[(j + 1) % n], 0};
            if(bad_pair(a, b)) return false;
            if((a.a == b.b && a.b == b.a)) return false;
        }
    return true;
}
static void poly_dups(const Poly &p, unsigned mask, int closing, Poly &r) {
    r.clear();
    for(std::size_t i = 0; i < p.size(); ++i) {
        r.push_back(p[i]);
        if(mask >> i & 1) r.push_back(p[i]);
        if(mask >> i & 1 && i == 1) r.push_back(p[i]);
    }
    for(int i = 0; i < closing; ++i) r.push_back(p[0]);
}

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = text;
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    std::string mode = a.at(0), fam = a.at(1);
    i64 S = std::stoll(a.at(2));
    auto D = [&](double f) { return f * double(S); };
    auto smp = [&] { if(counters["evals"] % 9973 == 0) sample(text()); };
    Gate g;
    auto magnitudes = std::vector<double>{D(0.05), D(0.31), D(1.03), D(3.2)};
    auto arcs = [&](double m) { return std::vector<Coord>{Coord(std::max(1.0, m / 25)), Coord(m * 0.7), Coord(m * 1.6), Coord(m * 3.3), Coord(std::min(std::max(1e6, m * 30), double(std::numeric_limits<Coord>::max() / 2)))}; };
    auto sweep = [&](auto &&f) {
        for(double m : magnitudes)
            for(Coord arc : arcs(m)) {
                cur.m = m;
                cur.arc = arc;
                f();
            }
    };
    std::vector<Poly> shapes;
    auto simple_of = [&](int w, int h, int n) {
        for(auto &p : polys(grid(w, h, S, S / 50), n))
            if(simple(p) && twice_area(p) > 0) shapes.push_back(p);
        for(auto &p : polys(grid(w, h, S), n))
            if(simple(p) && twice_area(p) > 0) shapes.push_back(p);
    };
    if(fam == "tri3") simple_of(3, 3, 3);
    else if(fam == "quad3") simple_of(3, 3, 4);
    else if(fam == "pent3") simple_of(3, 3, 5);
    else if(fam == "hex3") simple_of(3, 3, 6);
    else if(fam == "hept3") simple_of(3, 3, 7);
    else if(fam == "quad4") simple_of(4, 4, 4);
    if(mode == "grow" || mode == "shrink") {
        cur.closed = true;
        if(fam == "pairs") {
            // two clockwise shapes, overlapping or not, and a shape with a hole
            shapes.clear();
            simple_of(3, 2, 3);
            auto A = shapes;
            std::vector<std::vector<Poly>> ins;
            static const Pt off[] = {{1, 1}, {4, 0}, {2, 5}};
            for(auto &x : A)
                for(auto &y : A)
                    for(auto &o : off) {
                        Poly z = y;
                        for(auto &q : z) { q.x += o.x * S / 2 + 13; q.y += o.y * S / 2 - 7; }
                        ins.push_back({x, z});
                    }
            for(auto &x : A)
                for(int k = 0; k < 3; ++k) {
                    Poly hole = x;
                    std::reverse(hole.begin(), hole.end());
                    for(auto &q : hole) { q.x += (k - 1) * S / 4; q.y += S / 6; }
                    ins.push_back({rect(-S, -S, 3 * S, 2 * S), hole});
                }
            for(auto &in : ins)
                sweep([&] {
                    if(!g() || g.stop()) return;
                    cur.in = in;
                    if(mode == "shrink") cur.m = -cur.m;
                    // overlapping boundaries shrink separately: only for disjoint shapes and holes
                    if(mode == "shrink" && twice_area(in[1]) > 0) {
                        i64 ax = 0, bx = INT64_MAX, ay = 0, by = INT64_MAX;
                        for(auto &q : in[0]) { ax = std::max(ax, q.x); ay = std::max(ay, q.y); }
                        for(auto &q : in[1]) { bx = std::min(bx, q.x); by = std::min(by, q.y); }
                        if(!(ax < bx || ay < by)) return;
                    }
                    smp();
                    geometry();
                });
        } else {
            for(auto &p : shapes)
                sweep([&] {
                    if(!g() || g.stop()) return;
                    cur.in = {p};
                    if(mode == "shrink") cur.m = -cur.m;
                    smp();
                    geometry();
                });
        }
    } else if(mode == "open") {
        cur.closed = false;
        int n = std::stoi(fam);
        for(int jit = 0; jit < 2; ++jit) {
            auto gr = grid(3, 3, S, jit * (S / 50));
            std::vector<int> c;
            all_seqs(9, n, c, [&](const std::vector<int> &s) {
                for(std::size_t i = 0; i + 1 < s.size(); ++i)
                    if(s[i] == s[i + 1]) return true;
                // "f": one starting corner, one side and the middle instead of all nine points
                if(fam.back() == 'f' && (s[0] == 2 || s[0] == 3 || s[0] > 4)) return true;
                Poly p;
                for(int i : s) p.push_back(gr[std::size_t(i)]);
                sweep([&] {
                    if(!g() || g.stop()) return;
                    cur.in = {p};
                    smp();
                    geometry();
                });
                return !truncated;
            }, false);
        }
    } else if(mode == "lone") {
        // single points: every magnitude and arc step size in a range
        for(int closed = 0; closed < 2; ++closed)
            for(int copies = 0; copies < 4; ++copies)
                for(int m2 = 1; m2 <= 120; ++m2)
                    for(Coord arc : {1, 2, 3, 5, 7, 10, 13, 20, 29, 40, 64, 100, 170, 300, 1000, std::is_same_v<Coord, std::int16_t> ? 30000 : 1000000}) {
                        if(!g() || g.stop()) continue;
                        cur.closed = closed;
                        cur.in.assign(1, Poly(std::size_t(copies), Pt{37, -11}));
                        cur.m = m2 * 5.0 + (m2 % 3) * 0.4;
                        cur.arc = arc;
                        smp();
                        if(copies) {
                            geometry();
                            auto out = collect(poly_ops::offset<false, Coord>(input(), cur.m, cur.arc, cur.closed));
                            if(out.size() != 1 || out[0].size() < 3) violation("lone", text(), "result" + show(out));
                            else {
                                // exactly the stated number of points, evenly spread on the circle
                                for(std::size_t i = 0; i < out[0].size(); ++i) {
                                    Pt u = out[0][i], v = out[0][(i + 1) % out[0].size()];
                                    double r = std::hypot(double(u.x - 37), double(u.y + 11)), s = std::hypot(double(u.x - v.x), double(u.y - v.y));
                                    if(std::abs(r - cur.m) > 1.1) violation("lone", text(), "a point at distance " + std::to_string(r) + show(out));
                                    // the chord never exceeds what the step size permits
                                    double th = std::min(2 * std::numbers::pi / 3, 2 * cur.arc / cur.m);
                                    if(s > 2 * cur.m * std::sin(th / 2) + 2.5) { violation("lone", text(), "a chord of length " + std::to_string(s) + ", more than a third of the circle or two steps:" + show(out)); break; }
                                }
                            }
                        } else {
                            auto out = collect(poly_ops::offset<false, Coord>(input(), cur.m, cur.arc, cur.closed));
                            ++counters["evals"];
                            if(!out.empty()) violation("lone", text(), "an empty range gives" + show(out));
                        }
                        for(double m : {0.0, -cur.m}) {
                            cur.m = m;
                            auto o = collect(poly_ops::offset<false, Coord>(input(), cur.m, cur.arc, cur.closed));
                            if(!o.empty()) violation("lone", text(), "gives" + show(o));
                        }
                    }
    } else if(mode == "attr") {
        // every pattern of repeated points in every sequence of 1..n points, closed and
        // open, followed by another range
        int n = std::stoi(fam);
        auto gr = grid(2, 2, S, S / 50);
        gr.push_back({S * 3 / 2, -S / 3});
        std::vector<Poly> tails = {{}, {gr[0]}, {gr[1], gr[1], gr[2]}, {gr[0], gr[1], gr[3], gr[3]}};
        for(int len = 1; len <= n; ++len) {
            std::vector<int> c;
            all_seqs(int(gr.size()), len, c, [&](const std::vector<int> &s) {
                for(std::size_t i = 0; i + 1 < s.size(); ++i)
                    if(s[i] == s[i + 1]) return true;
                if(s[0] != 0 && len > 2) return true; // the first point is fixed for longer sequences
                Poly p, d;
                for(int i : s) p.push_back(gr[std::size_t(i)]);
                for(unsigned mask = 0; mask < (1u << len); ++mask)
                    for(int cl = 0; cl < 3; ++cl) {
                        if(!g()) continue;
                        if(g.stop()) return false;
                        poly_dups(p, mask, cl, d);
                        for(int closed = 0; closed < 2; ++closed)
                            for(auto m : {D(0.1), D(-0.1), D(0.9)})
                                for(auto &t : tails)
                                    for(int pl = 0; pl < 4; ++pl) {
                                        if(pl & 1 && t.empty()) continue;
                                        if(pl == 2 && t.size() < 3) continue;
                                        std::vector<Poly> in{d, t};
                                        std::vector<char> plain{char(pl == 2 || pl == 3 ? 1 : 0), char(pl & 1)};
                                        if(plain[0] && m < 0) continue;
                                        attribution(in, plain, closed, m, Coord(std::abs(m) * 0.4));
                                        smp();
                                    }
                    }
                return true;
            }, false);
            if(truncated) break;
        }
    } else { std::fprintf(stderr, "unknown mode\n"); return 4; }
    finish();
}
