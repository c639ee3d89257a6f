// Properties of the clipping operations, decided on the real code for every
// member of the bounded input families.
// --part MODE:FAMILY:SCALE[:MARGIN[:BOUND]], compiled for VP_COORD and VP_INDEX
#ifndef VP_FLIPS
#define VP_NO_FLIPS
#endif
#include "flips.hpp"
#include "families.hpp"
#include "tree.hpp"

#ifndef VP_COORD
#define VP_COORD std::int32_t
#define VP_INDEX std::size_t
#endif

using namespace vp;

static std::string cur_extra;
static Case *cur_case = nullptr;

static bool coincident(const std::vector<Poly> &v) {
    auto es = edges_of(v);
    for(std::size_t i = 0; i < es.size(); ++i)
        for(std::size_t j = 0; j < i; ++j)
            if((es[i].a == es[j].a && es[i].b == es[j].b) || (es[i].a == es[j].b && es[i].b == es[j].a)) return true;
    return false;
}
static std::vector<Edge> sorted_edges(const std::vector<Poly> &v) {
    auto e = edges_of(v);
    std::sort(e.begin(), e.end(), [](const Edge &a, const Edge &b) { return a.a != b.a ? a.a < b.a : a.b < b.b; });
    return e;
}
static std::string show(const std::vector<Poly> &v) {
    std::string s;
    for(auto &p : v) s += " " + str(p);
    return s;
}
static double total_length(const std::vector<Edge> &e) {
    double r = 0;
    for(auto &x : e) r += std::hypot(double(x.b.x - x.a.x), double(x.b.y - x.a.y));
    return r;
}

// where passes of the loops through a common point cross each other there
static int half_of(const Pt &d) { return d.y > 0 || (d.y == 0 && d.x > 0) ? 0 : 1; }
static bool before(const Pt &a, const Pt &b) {
    int ha = half_of(a), hb = half_of(b);
    if(ha != hb) return ha < hb;
    return __int128(a.x) * b.y - __int128(a.y) * b.x > 0;
}
static bool same_dir(const Pt &a, const Pt &b) { return !before(a, b) && !before(b, a); }
static std::string crossing_passes(const std::vector<Poly> &v) {
    struct Pass { Pt at, in, out; };
    std::vector<Pass> ps;
    for(auto &p : v)
        for(std::size_t i = 0; i < p.size(); ++i) {
            Pt b = p[i], a = p[(i + p.size() - 1) % p.size()], c = p[(i + 1) % p.size()];
            ps.push_back({b, {a.x - b.x, a.y - b.y}, {c.x - b.x, c.y - b.y}});
        }
    for(std::size_t i = 0; i < ps.size(); ++i)
        for(std::size_t j = 0; j < i; ++j) {
            auto &a = ps[i], &b = ps[j];
            if(!(a.at == b.at)) continue;
            if(same_dir(a.in, a.out) || same_dir(a.in, b.in) || same_dir(a.in, b.out) || same_dir(a.out, b.in) || same_dir(a.out, b.out) || same_dir(b.in, b.out)) continue;
            // is x on the way around from a.in to a.out
            auto between = [&](const Pt &x) {
                return before(a.in, a.out) ? before(a.in, x) && before(x, a.out) : before(a.in, x) || before(x, a.out);
            };
            ++counters["touching_passes"];
            if(between(b.in) != between(b.out)) return "the loops cross at (" + std::to_string(a.at.x) + "," + std::to_string(a.at.y) + "):" + show(v);
        }
    return "";
}

template<typename Coord, typename Index> struct Modes {
    static std::vector<Poly> flat(const Case &c) { return run_flat<Coord, Index>(c); }

    static void region(Case &c, int op0, int op1, double margin) {
        for(int op = op0; op <= op1; ++op) {
            c.op = op;
            auto out = flat(c);
            ++counters["evals"];
            auto e = check_region(c.loops, op, out, margin);
            if(last_nontrivial) ++counters["nontrivial"];
            if(!e.empty()) violation("region", str(c), e);
        }
    }
    static void bool4(Case &c, double margin) { region(c, 0, 3, margin); }
    static void norm(Case &c, double margin) {
        c.op = 4;
        auto out = flat(c);
        ++counters["evals"];
        auto e = check_region(c.loops, 4, out, margin);
        if(last_nontrivial) ++counters["nontrivial"];
        if(!e.empty()) violation("region", str(c), e);
        // all lines are kept: nothing is dropped and nothing is doubled
        auto ie = edges_of(c.loops), oe = edges_of(out);
        double li = total_length(ie), lo = total_length(oe);
        if(std::abs(li - lo) > 8.0 * double(ie.size() * ie.size() + 4))
            violation("lines", str(c), "total length of the lines is " + std::to_string(li) + " in the input and " + std::to_string(lo) + " in the result:" + show(out));
    }
    // shape of the result: closed loops, no zero length edges, cells wound 0 or 1,
    // unchanged by a second pass
    static void shape(Case &c, double margin) {
        for(int op = 0; op < 5; ++op) {
            c.op = op;
            auto out = flat(c);
            ++counters["evals"];
            for(auto &p : out) {
                if(p.size() < 2) violation("short", str(c), "a loop with fewer than 2 points:" + show(out));
                for(std::size_t i = 0; i < p.size(); ++i)
                    if(p[i] == p[(i + 1) % p.size()]) violation("zero-edge", str(c), "consecutive equal points in " + str(p));
            }
            if(!out.empty()) ++counters["nontrivial"];
            auto e2 = check_no_crossing(out);
            if(!e2.empty()) violation("cross", str(c), e2);
            std::vector<Loop> in2;
            for(auto &p : out) in2.push_back({0, p});
            bool co = coincident(out);
            // every cell of the result's own arrangement is wound 0 or 1
            static thread_local std::vector<Sample> smp;
            u64 sk = 0;
            auto oe = edges_of(out);
            arrangement_samples(oe, margin, smp, sk);
            for(auto &s : smp) {
                int w = winding(oe, s.x, s.y);
                if(w < 0 || w > 1) {
                    violation("winding", str(c), "the result winds " + std::to_string(w) + " times around (" + std::to_string(s.x) + "," + std::to_string(s.y) + "):" + show(out));
                    break;
                }
            }
            counters["result_cells"] += smp.size();
            if(co) {
                ++counters["overlapping_results"];
                continue;
            }
            e2 = crossing_passes(out);
            if(!e2.empty()) violation("pass-cross", str(c), e2);
            // a clean result is a fixed point of union and normalize: exactly the same directed lines
            auto want = sorted_edges(out);
            for(int again : {0, 4}) {
                Case c2{in2, again, ""};
                auto out2 = flat(c2);
                auto got = sorted_edges(out2);
                ++counters["second_pass"];
                bool same = want.size() == got.size();
                for(std::size_t i = 0; same && i < want.size(); ++i) same = want[i].a == got[i].a && want[i].b == got[i].b;
                if(!same) violation("fixpoint", str(c), std::string(op_names[again]) + " of the result" + show(out) + " gives" + show(out2));
            }
        }
    }
    static void tree(Case &c, double margin) {
        for(int op = 0; op < 5; ++op) {
            c.op = op;
            auto t = run_tree<Coord, Index>(c);
            auto out = flat(c);
            ++counters["evals"];
            std::vector<FlatNode> f;
            flatten(t, -1, 0, f);
            std::vector<Poly> tl;
            for(auto &n : f) tl.push_back(n.loop);
            auto e = check_region(c.loops, op, tl, margin);
            if(!e.empty()) violation("tree-region", str(c), e);
            if(f.size() > 1) ++counters["nontrivial"];
            for(auto &n : f) maxima["depth"] = std::max(maxima["depth"], u64(n.depth));
            if(coincident(tl)) {
                ++counters["overlapping_results"];
                continue;
            }
            e = check_tree(t, margin);
            if(!e.empty()) violation("tree", str(c), e);
            if(canon_loops(tl) != canon_loops(out)) violation("tree-flat", str(c), "tree:" + dump(f) + "\nflat:" + show(out));
        }
    }
#ifdef VP_FLIPS
    static void cross(Case &c, double margin, unsigned bound) {
        for(int op = 0; op < 5; ++op) {
            c.op = op;
            flips.bound = bound;
            flips.choice.clear();
            u64 leaves = 0;
            do {
                flips.start();
                step();
                auto out = flat(c);
                ++leaves;
                ++counters["evals"];
                maxima["choices"] = std::max(maxima["choices"], flips.total);
                if(flips.total > flips.bound) ++counters["runs_beyond_choice_bound"];
                auto fl = [&] {
                    std::string s = str(c) + " choices=";
                    for(auto x : flips.choice) s += x ? '1' : '0';
                    return s;
                };
                auto e = check_no_crossing(out);
                if(!e.empty()) violation("cross", fl(), e);
                for(auto &p : out)
                    for(std::size_t i = 0; i < p.size(); ++i)
                        if(p[i] == p[(i + 1) % p.size()]) violation("zero-edge", fl(), "consecutive equal points in " + str(p));
                e = check_region(c.loops, op, out, margin);
                if(!e.empty()) violation("region", fl(), e);
            } while(flips.advance());
            ++counters["choice_trees"];
            if(leaves > 1) ++counters["nontrivial_trees"];
            maxima["leaves"] = std::max(maxima["leaves"], leaves);
        }
    }
#endif
};

template<typename Coord, typename Index> void go(const std::string &mode, const std::string &fam, i64 S, double margin, unsigned bound) {
    using M = Modes<Coord, Index>;
    auto f = [&](Case &c) {
        cur_case = &c;
        if(counters["evals"] % 997 == 0) { Case d = c; sample(fam + ": " + str(d)); }
        if(mode == "bool") M::bool4(c, margin);
        else if(mode == "norm") M::norm(c, margin);
        else if(mode == "shape") M::shape(c, margin);
        else if(mode == "tree") M::tree(c, margin);
#ifdef VP_FLIPS
        else if(mode == "cross") M::cross(c, margin, bound);
#endif
        else { std::fprintf(stderr, "unknown mode\n"); std::exit(4); }
    };
    if(!family(fam, S, f)) { std::fprintf(stderr, "unknown family %s\n", fam.c_str()); std::exit(4); }
}

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = [] {
        if(!cur_case) return std::string("?");
        std::string s = str(*cur_case);
#ifdef VP_FLIPS
        s += " choices=";
        for(auto x : flips.choice) s += x ? '1' : '0';
#endif
        return s;
    };
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    // MODE:FAMILY:SCALE[:MARGIN[:BOUND]]
    std::string mode = a.at(0), fam = a.at(1);
    i64 S = std::stoll(a.at(2));
    double margin = a.size() > 3 ? std::stod(a[3]) : 16;
    unsigned bound = a.size() > 4 ? unsigned(std::stoul(a[4])) : 10;
    go<VP_COORD, VP_INDEX>(mode, fam, S, margin, bound);
    finish();
}
