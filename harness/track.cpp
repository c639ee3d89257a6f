// Point tracking (C06): every callback of a tracker is replayed on an
// independent linked-list model, for every member of the bounded families,
// every operation, flat and hierarchical output.
// --part MODE:FAMILY:SCALE[:FLIP]   MODE: track | dups | paths
// paths: every way of entering shapes and running an operation with a tracker
// makes the same callbacks and the same result
#include "flips.hpp"
#include "families.hpp"
#include "tree.hpp"

#ifndef VP_COORD
#define VP_COORD std::int32_t
#define VP_INDEX std::size_t
#endif
using namespace vp;
using Coord = VP_COORD;
using Index = VP_INDEX;

static Case *cur_case = nullptr;
static std::string cur_extra;

struct Ev {
    char kind; // a: added, n: new between, m: merge, r: reset
    i64 x, y;
};
struct Val {
    i64 i;
    Pt p;
};
struct Rec final : poly_ops::i_point_tracker<Index> {
    std::vector<Ev> ev;
    void point_added(Index o) override { ev.push_back({'a', i64(o), 0}); }
    void new_point_between(Index a, Index b) override { ev.push_back({'n', i64(a), i64(b)}); }
    void point_merge(Index a, Index b) override { ev.push_back({'m', i64(a), i64(b)}); }
    void reset() override { ev.push_back({'r', 0, 0}); }
    Rec *callbacks() { return this; }
    template<typename C> Val get_value(Index i, const poly_ops::point_t<C> &p) const { return {i64(i), {i64(p.x()), i64(p.y())}}; }
};

template<typename R> void gather(R &&out, std::vector<std::vector<Val>> &to) {
    for(auto &&loop : out) {
        to.emplace_back();
        for(Val v : loop) to.back().push_back(v);
    }
}
template<typename R> void gather_tree(R &&out, std::vector<std::vector<Val>> &to) {
    for(auto &&loop : out) {
        to.emplace_back();
        for(Val v : loop) to.back().push_back(v);
        gather_tree(loop.inner_loops(), to);
    }
}
struct OVal {
    Pt p;
    std::vector<i64> o;
};
template<typename R> void gather_o(R &&out, std::vector<std::vector<OVal>> &to) {
    for(auto &&loop : out) {
        to.emplace_back();
        for(auto &&v : loop) to.back().push_back({{i64(v.p.x()), i64(v.p.y())}, {v.original_points.begin(), v.original_points.end()}});
    }
}
template<typename R> void gather_otree(R &&out, std::vector<std::vector<OVal>> &to) {
    for(auto &&loop : out) {
        to.emplace_back();
        for(auto &&v : loop) to.back().push_back({{i64(v.p.x()), i64(v.p.y())}, {v.original_points.begin(), v.original_points.end()}});
        gather_otree(loop.inner_loops(), to);
    }
}

// what the input is after dropping repeated points: for each kept point the
// range of numbers it may carry
struct Exp {
    Pt p;
    int loop;
    std::set<i64> nums;
};
static void expect_added(const std::vector<Loop> &loops, std::vector<Exp> &out, std::vector<Pt> &all) {
    i64 base = 0;
    int li = 0;
    for(auto &l : loops) {
        std::vector<Exp> e;
        for(std::size_t i = 0; i < l.pts.size(); ++i) {
            all.push_back(l.pts[i]);
            i64 num = base + i64(i);
            if(!e.empty() && e.back().p == l.pts[i]) e.back().nums.insert(num);
            else e.push_back({l.pts[i], li, {num}});
        }
        if(e.size() > 1 && e.back().p == e.front().p) {
            e.front().nums.insert(e.back().nums.begin(), e.back().nums.end());
            e.pop_back();
        }
        base += i64(l.pts.size());
        if(e.size() >= 3) out.insert(out.end(), e.begin(), e.end());
        ++li;
    }
}

static std::string evs(const std::vector<Ev> &e) {
    std::string s;
    for(auto &v : e) s += std::string(" ") + v.kind + std::to_string(v.x) + (v.kind == 'n' || v.kind == 'm' ? "," + std::to_string(v.y) : "");
    return s;
}

// replay; returns an error text
static std::string replay(const Case &c, const std::vector<Ev> &ev, const std::vector<std::vector<Val>> &out) {
    std::vector<Exp> ex;
    std::vector<Pt> all;
    expect_added(c.loops, ex, all);
    std::vector<i64> next, prev, loop;
    std::size_t k = 0;
    for(; k < ev.size() && ev[k].kind == 'a'; ++k) {
        if(k >= ex.size()) return "more points announced than the cleaned input has";
        if(!ex[k].nums.count(ev[k].x)) return "point " + std::to_string(k) + " announced with original number " + std::to_string(ev[k].x) + ", but it is " + str(Poly{ex[k].p});
        loop.push_back(ex[k].loop);
    }
    if(k != ex.size()) return "only " + std::to_string(k) + " of " + std::to_string(ex.size()) + " points announced";
    next.resize(k);
    prev.resize(k);
    for(std::size_t i = 0, s = 0; i < k; ++i) {
        bool last = i + 1 == k || loop[i + 1] != loop[i];
        next[i] = last ? i64(s) : i64(i + 1);
        prev[std::size_t(next[i])] = i64(i);
        if(last) s = i + 1;
    }
    for(; k < ev.size() && ev[k].kind == 'n'; ++k) {
        i64 a = ev[k].x, b = ev[k].y, n = i64(next.size());
        if(a < 0 || b < 0 || a >= n || b >= n) return "split between points that do not exist";
        if(next[std::size_t(a)] != b) std::swap(a, b);
        if(next[std::size_t(a)] != b) return "split of the line " + std::to_string(a) + "-" + std::to_string(b) + ", which does not exist";
        next.push_back(b);
        prev.push_back(a);
        loop.push_back(loop[std::size_t(a)]);
        next[std::size_t(a)] = n;
        prev[std::size_t(b)] = n;
    }
    i64 n = i64(next.size());
    std::vector<i64> into(std::size_t(n), -1);
    std::vector<char> dead(static_cast<std::size_t>(n), 0);
    counters["splits"] += u64(n) - ex.size();
    for(; k < ev.size(); ++k) {
        if(ev[k].kind != 'm') return std::string("unexpected callback ") + ev[k].kind;
        i64 f = ev[k].x, t = ev[k].y;
        if(f < 0 || t < 0 || f >= n || t >= n) return "merge of " + std::to_string(f) + " into " + std::to_string(t) + ", but there are only " + std::to_string(n) + " points";
        if(dead[std::size_t(f)]) return "point " + std::to_string(f) + " is discarded twice";
        int op = c.op;
        bool reversible = op == 3 && c.loops[std::size_t(loop[std::size_t(f)])].set == 1;
        if(!reversible && next[std::size_t(f)] != t) return "point " + std::to_string(f) + " is merged into " + std::to_string(t) + ", which does not follow it";
        if(reversible && c.loops[std::size_t(loop[std::size_t(t)])].set != 1) return "point " + std::to_string(f) + " is merged into a point of another set";
        dead[std::size_t(f)] = 1;
        into[std::size_t(f)] = t;
        ++counters["merges"];
        if(dead[std::size_t(t)]) {
            // only allowed where the discarded points circle back
            i64 x = t;
            while(x != f && x >= 0 && dead[std::size_t(x)]) x = into[std::size_t(x)];
            if(x != f) return "point " + std::to_string(f) + " is merged into " + std::to_string(t) + ", which was discarded before";
            ++counters["circles"];
        }
    }
    std::vector<char> used(static_cast<std::size_t>(n), 0);
    for(auto &l : out)
        for(auto &v : l) {
            if(v.i < 0 || v.i >= n) return "the result has point number " + std::to_string(v.i) + " of " + std::to_string(n);
            if(used[std::size_t(v.i)]) return "point " + std::to_string(v.i) + " is in the result twice";
            used[std::size_t(v.i)] = 1;
            if(dead[std::size_t(v.i)]) return "point " + std::to_string(v.i) + " was discarded but is in the result";
            if(v.i < i64(ex.size()) && !(ex[std::size_t(v.i)].p == v.p)) return "point " + std::to_string(v.i) + " moved to " + str(Poly{v.p});
        }
    for(i64 i = 0; i < n; ++i)
        if(!used[std::size_t(i)] && !dead[std::size_t(i)]) return "point " + std::to_string(i) + " is neither in the result nor discarded";
    return {};
}

// origins according to the recorded callbacks
static std::vector<std::set<i64>> origins(const std::vector<Ev> &ev) {
    std::vector<std::set<i64>> s;
    for(auto &e : ev) {
        if(e.kind == 'a') s.push_back({e.x});
        if(e.kind == 'n') s.push_back({});
        if(e.kind == 'm') s[std::size_t(e.y)].insert(s[std::size_t(e.x)].begin(), s[std::size_t(e.x)].end());
        if(e.kind == 'r') s.clear();
    }
    return s;
}

static std::string show(const std::vector<std::vector<Val>> &v) {
    std::string s;
    for(auto &l : v) {
        s += " [";
        for(auto &x : l) s += std::to_string(x.i) + ":" + str(Poly{x.p}) + " ";
        s += "]";
    }
    return s;
}

static void run(Case &c) {
    for(int op = 0; op < 5; ++op) {
        c.op = op;
        std::vector<Poly> plain;
        for(int tree = 0; tree < 2; ++tree) {
            cur_extra = tree ? "tree" : "flat";
            flips.start();
            flips.bound = 0;
            Rec rec;
            std::vector<std::vector<Val>> out;
            {
                poly_ops::clipper<Coord, Index> n;
                for(auto &l : c.loops) n.add_loops(to_loop<Coord>(l.pts), poly_ops::bool_set(l.set), &rec);
                if(tree) gather_tree(n.template execute<true>(poly_ops::bool_op(op), rec), out);
                else gather(n.template execute<false>(poly_ops::bool_op(op), rec), out);
            }
            ++counters["evals"];
            auto txt = [&] { return str(c) + " " + cur_extra; };
            auto e = replay(c, rec.ev, out);
            if(rec.ev.size() && rec.ev.back().kind == 'm') ++counters["nontrivial"];
            if(!e.empty()) {
                violation("replay", txt(), e + "; callbacks:" + evs(rec.ev) + "; result:" + show(out));
                continue;
            }
            // the geometry is that of the untracked operation
            flips.start();
            std::vector<Poly> g;
            for(auto &l : out) {
                g.emplace_back();
                for(auto &v : l) g.back().push_back(v.p);
            }
            std::vector<Poly> u;
            if(tree) {
                std::vector<FlatNode> f;
                flatten(run_tree<Coord, Index>(c), -1, 0, f);
                for(auto &x : f) u.push_back(x.loop);
            } else u = run_flat<Coord, Index>(c);
            if(g != u) violation("geometry", txt(), "tracking changes the result:" + show(out));
            // the origin tracker carries exactly the model's sets
            flips.start();
            std::vector<std::vector<OVal>> oo;
            {
                poly_ops::origin_tracked_clipper<Coord, Index> n;
                for(auto &l : c.loops) n.add_loops(to_loop<Coord>(l.pts), poly_ops::bool_set(l.set));
                if(tree) gather_otree(n.template execute<true>(poly_ops::bool_op(op)), oo);
                else gather_o(n.template execute<false>(poly_ops::bool_op(op)), oo);
            }
            auto s = origins(rec.ev);
            std::string bad;
            if(oo.size() != out.size()) bad = "different number of loops";
            for(std::size_t i = 0; bad.empty() && i < out.size(); ++i) {
                if(oo[i].size() != out[i].size()) { bad = "different number of points"; break; }
                for(std::size_t j = 0; j < out[i].size(); ++j) {
                    auto &want = s[std::size_t(out[i][j].i)];
                    if(!(oo[i][j].p == out[i][j].p) || oo[i][j].o != std::vector<i64>(want.begin(), want.end())) {
                        bad = "point " + str(Poly{oo[i][j].p}) + " has origins {";
                        for(auto x : oo[i][j].o) bad += std::to_string(x) + " ";
                        bad += "} instead of {";
                        for(auto x : want) bad += std::to_string(x) + " ";
                        bad += "}";
                        break;
                    }
                }
            }
            if(!bad.empty()) violation("origins", txt(), bad + "; callbacks:" + evs(rec.ev) + "; result:" + show(out));
        }
    }
}

// ---- every way in
using LoopV = std::vector<poly_ops::point_t<Coord>>;
struct Group {
    poly_ops::bool_set set;
    std::vector<LoopV> loops;
};
constexpr int WAYS = 5;
// way 0: one range; 1: ranges of ranges; 2: by the name of the set; 3: ranges of
// ranges by the name; 4: point by point
template<typename N, typename... Pt> void enter(N &n, const std::vector<Group> &gs, int way, Pt... pt) {
    for(auto &g : gs) {
        bool sub = g.set == poly_ops::bool_set::subject;
        if(way == 1) n.add_loops(g.loops, g.set, pt...);
        else if(way == 3) sub ? n.add_loops_subject(g.loops, pt...) : n.add_loops_clip(g.loops, pt...);
        else for(auto &l : g.loops) {
            if(way == 0) n.add_loops(l, g.set, pt...);
            else if(way == 2) sub ? n.add_loops_subject(l, pt...) : n.add_loops_clip(l, pt...);
            else {
                auto s = n.add_loop(g.set, pt...);
                for(auto &p : l) s(p);
            }
        }
    }
}
template<bool Tree> struct Read {
    template<typename R> static auto rec(R &&r) {
        std::vector<std::vector<Val>> o;
        if constexpr(Tree) gather_tree(std::forward<R>(r), o);
        else gather(std::forward<R>(r), o);
        return o;
    }
    template<typename R> static auto org(R &&r) {
        std::vector<std::vector<OVal>> o;
        if constexpr(Tree) gather_otree(std::forward<R>(r), o);
        else gather_o(std::forward<R>(r), o);
        return o;
    }
};
static bool same(const std::vector<Ev> &a, const std::vector<Ev> &b) {
    if(a.size() != b.size()) return false;
    for(std::size_t i = 0; i < a.size(); ++i)
        if(a[i].kind != b[i].kind || a[i].x != b[i].x || a[i].y != b[i].y) return false;
    return true;
}
static bool same(const std::vector<std::vector<Val>> &a, const std::vector<std::vector<Val>> &b) {
    if(a.size() != b.size()) return false;
    for(std::size_t i = 0; i < a.size(); ++i) {
        if(a[i].size() != b[i].size()) return false;
        for(std::size_t j = 0; j < a[i].size(); ++j)
            if(a[i][j].i != b[i][j].i || !(a[i][j].p == b[i][j].p)) return false;
    }
    return true;
}
static bool same(const std::vector<std::vector<OVal>> &a, const std::vector<std::vector<OVal>> &b) {
    if(a.size() != b.size()) return false;
    for(std::size_t i = 0; i < a.size(); ++i) {
        if(a[i].size() != b[i].size()) return false;
        for(std::size_t j = 0; j < a[i].size(); ++j)
            if(!(a[i][j].p == b[i][j].p) || a[i][j].o != b[i][j].o) return false;
    }
    return true;
}

template<bool Tree> void paths_t(const Case &c, const std::vector<Group> &gs, poly_ops::bool_op op) {
    using Rd = Read<Tree>;
    using OT = poly_ops::origin_point_tracker<Index>;
    Rec first;
    std::vector<std::vector<Val>> out;
    std::vector<std::vector<OVal>> oout;
    flips.start();
    {
        poly_ops::clipper<Coord, Index> n;
        enter(n, gs, 0, &first);
        out = Rd::rec(n.template execute<Tree>(op, first));
    }
    auto sets = origins(first.ev);
    for(auto &l : out) {
        oout.emplace_back();
        for(auto &v : l) oout.back().push_back({v.p, {sets[std::size_t(v.i)].begin(), sets[std::size_t(v.i)].end()}});
    }
    ++counters["evals"];
    if(first.ev.size() && first.ev.back().kind == 'm') ++counters["nontrivial"];
    auto judge = [&](const char *what, int way, const Rec &r, const std::vector<std::vector<Val>> &o) {
        ++counters["evals"];
        if(same(r.ev, first.ev) && same(o, out)) return;
        violation("paths", str(c) + " " + cur_extra, std::string(what) + ", entered in way " + std::to_string(way) + ": callbacks:" + evs(r.ev) + "; result:" + show(o) + "; expected:" + evs(first.ev) + "; result:" + show(out));
    };
    auto judgeo = [&](const char *what, int way, const std::vector<std::vector<OVal>> &o) {
        ++counters["evals"];
        if(!same(o, oout)) violation("paths-origins", str(c) + " " + cur_extra, std::string(what) + ", entered in way " + std::to_string(way) + ": the origins differ");
    };
    for(int w = 0; w < WAYS; ++w) {
        {
            Rec r;
            flips.start();
            poly_ops::clipper<Coord, Index> n;
            enter(n, gs, w, &r);
            judge("clipper", w, r, Rd::rec(n.template execute<Tree>(op, r)));
        }
        {
            Rec r;
            flips.start();
            poly_ops::clipper<Coord, Index> n;
            enter(n, gs, w, &r);
            auto o = std::move(n).template execute<Tree>(op, r);
            judge("clipper, owned", w, r, Rd::rec(std::move(o)));
        }
        {
            Rec r;
            flips.start();
            poly_ops::tclipper<Coord, Index, Rec &> n{r};
            enter(n, gs, w);
            judge("tclipper", w, r, Rd::rec(n.template execute<Tree>(op)));
        }
        {
            Rec r;
            flips.start();
            poly_ops::tclipper<Coord, Index, Rec &> n{r};
            enter(n, gs, w);
            auto o = std::move(n).template execute<Tree>(op);
            judge("tclipper, owned", w, r, Rd::rec(std::move(o)));
        }
        {
            flips.start();
            poly_ops::origin_tracked_clipper<Coord, Index> n;
            enter(n, gs, w);
            judgeo("tracked clipper", w, Rd::org(n.template execute<Tree>(op)));
            // and again, after a reset
            n.reset();
            flips.start();
            enter(n, gs, w);
            judgeo("tracked clipper, again", w, Rd::org(n.template execute<Tree>(op)));
        }
        {
            flips.start();
            poly_ops::origin_tracked_clipper<Coord, Index> n;
            enter(n, gs, w);
            auto o = std::move(n).template execute<Tree>(op);
            judgeo("tracked clipper, owned", w, Rd::org(std::move(o)));
        }
    }
    bool sorted = true, clip = false;
    std::vector<LoopV> subj, cl;
    for(auto &g : gs) {
        if(g.set == poly_ops::bool_set::clip) clip = true;
        else if(clip) sorted = false;
        auto &d = g.set == poly_ops::bool_set::clip ? cl : subj;
        d.insert(d.end(), g.loops.begin(), g.loops.end());
    }
    if(!sorted) return;
    {
        Rec r;
        flips.start();
        auto o = poly_ops::boolean_op<Tree, Coord, Index>(subj, cl, op, r);
        judge("boolean_op", 0, r, Rd::rec(std::move(o)));
        flips.start();
        judgeo("boolean_op", 0, Rd::org(poly_ops::boolean_op<Tree, Coord, Index>(subj, cl, op, OT{})));
    }
    if(clip) return;
    if(op == poly_ops::bool_op::union_) {
        Rec r;
        flips.start();
        auto o = poly_ops::union_op<Tree, Coord, Index>(subj, r);
        judge("union_op", 0, r, Rd::rec(std::move(o)));
        flips.start();
        judgeo("union_op", 0, Rd::org(poly_ops::union_op<Tree, Coord, Index>(subj, OT{})));
    }
    if(op == poly_ops::bool_op::normalize) {
        Rec r;
        flips.start();
        auto o = poly_ops::normalize_op<Tree, Coord, Index>(subj, r);
        judge("normalize_op", 0, r, Rd::rec(std::move(o)));
        flips.start();
        judgeo("normalize_op", 0, Rd::org(poly_ops::normalize_op<Tree, Coord, Index>(subj, OT{})));
    }
}

static void paths(Case &c) {
    std::vector<Group> gs;
    for(auto &l : c.loops) {
        if(gs.empty() || gs.back().set != poly_ops::bool_set(l.set)) gs.push_back({poly_ops::bool_set(l.set), {}});
        gs.back().loops.push_back(to_loop<Coord>(l.pts));
    }
    for(int op = 0; op < 5; ++op) {
        c.op = op;
        flips.bound = 0;
        cur_extra = "paths, flat";
        paths_t<false>(c, gs, poly_ops::bool_op(op));
        cur_extra = "paths, tree";
        paths_t<true>(c, gs, poly_ops::bool_op(op));
    }
}

// every way to repeat points: each point 1..2 times, the first repeated 0..2
// times at the end, and a degenerate loop before, between or after
static Poly with_dups(const Poly &p, unsigned mask, int closing) {
    Poly r;
    for(std::size_t i = 0; i < p.size(); ++i) {
        r.push_back(p[i]);
        if(mask >> i & 1) r.push_back(p[i]);
    }
    for(int i = 0; i < closing; ++i) r.push_back(p[0]);
    return r;
}

#ifndef VP_NO_MAIN
int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = [] { return (cur_case ? str(*cur_case) : std::string("?")) + " " + cur_extra; };
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    std::string mode = a.at(0), fam = a.at(1);
    i64 S = std::stoll(a.at(2));
    bool ok = family(fam, S, [&](Case &c) {
        cur_case = &c;
        if(counters["evals"] % 997 == 0) sample(fam + ": " + str(c));
        if(mode == "track") return run(c);
        if(mode == "paths") return paths(c);
        // dups
        std::vector<Loop> base = c.loops;
        Case d;
        cur_case = &d;
        unsigned total = 0;
        for(auto &l : base) total += unsigned(l.pts.size());
        for(unsigned m = 0; m < (1u << total); ++m)
            for(int cl = 0; cl < 3; ++cl)
                for(int deg = -1; deg <= int(base.size()); ++deg) {
                    d.loops.clear();
                    unsigned sh = 0;
                    for(std::size_t i = 0; i <= base.size(); ++i) {
                        if(int(i) == deg) {
                            // a loop of two distinct points, equal to neighbouring points
                            Poly q{base[i ? i - 1 : 0].pts.back(), base[i < base.size() ? i : i - 1].pts.front()};
                            if(m & 1) q.push_back(q.front());
                            d.loops.push_back({0, q});
                        }
                        if(i == base.size()) break;
                        d.loops.push_back({base[i].set, with_dups(base[i].pts, m >> sh, cl)});
                        sh += unsigned(base[i].pts.size());
                    }
                    step();
                    run(d);
                }
        cur_case = &c;
    });
    if(!ok) { std::fprintf(stderr, "unknown family %s\n", fam.c_str()); std::exit(4); }
    finish();
}
#endif
