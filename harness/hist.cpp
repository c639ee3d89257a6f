// C07 (dup), C08 (hist), C09 (pres): sameness of results.
// The rounding choices are pinned through the hook, so results are comparable exactly.
// --part MODE:FAMILY:SCALE  or  hist:KIND:DEPTH
#include "flips.hpp"
#include "families.hpp"
#include "tree.hpp"
#include <list>
#include <forward_list>
#include <deque>
#include <memory>
#include <optional>
#include <ranges>
#include <span>
#include <sstream>
using namespace vp;

static Case *cur_case = nullptr;
static std::string cur_extra;

// a fixed sequence of rounding choices for one operation
static void pin(int mode = 0) {
    flips.bound = 0;
    flips.choice.clear();
    flips.start();
    flips.lcg += unsigned(mode) * 7919;
}
static std::string show(const std::vector<Poly> &v) {
    std::string s;
    for(auto &p : v) s += " " + str(p);
    return s;
}
static std::string tshow(const std::vector<Tree> &t) {
    std::vector<FlatNode> f;
    flatten(t, -1, 0, f);
    return dump(f);
}

// ------------------------------------------------------------------ C07
static Poly with_dups(const Poly &p, unsigned mask, int closing, int reps = 1) {
    Poly r;
    for(std::size_t i = 0; i < p.size(); ++i) {
        r.push_back(p[i]);
        if(mask >> i & 1)
            for(int k = 0; k < reps; ++k) r.push_back(p[i]);
    }
    for(int i = 0; i < closing; ++i) r.push_back(p[0]);
    return r;
}
template<typename Coord, typename Index> struct Dup {
    static std::vector<Poly> flat(const Case &c) { pin(); return run_flat<Coord, Index>(c); }
    static std::vector<Tree> tree(const Case &c) { pin(); return run_tree<Coord, Index>(c); }
    static void compare(const Case &d, const std::vector<Poly> &f, const std::vector<Tree> &t) {
        ++counters["evals"];
        if(!f.empty()) ++counters["nontrivial"];
        auto f2 = flat(d);
        if(f2 != f) violation("dup-flat", str(d), "the cleaned input gives" + show(f) + ", this input gives" + show(f2));
        auto t2 = tree(d);
        if(!(t2 == t)) violation("dup-tree", str(d), "the cleaned input gives" + tshow(t) + "\nthis input gives" + tshow(t2));
    }
    static void run(const Case &c) {
        Case base = c, d;
        cur_case = &d;
        unsigned total = 0;
        for(auto &l : c.loops) total += unsigned(l.pts.size());
        for(int op = 0; op < 5; ++op) {
            base.op = d.op = op;
            auto f = flat(base);
            auto t = tree(base);
            step();
            // repeated points in every combination, closing points
            for(unsigned m = 0; m < (1u << total); ++m)
                for(int cl = 0; cl < 3; ++cl)
                    for(int reps = 1; reps <= (m && !cl ? 2 : 1); ++reps) {
                        d.loops.clear();
                        unsigned sh = 0;
                        for(auto &l : c.loops) {
                            d.loops.push_back({l.set, with_dups(l.pts, m >> sh, cl, reps)});
                            sh += unsigned(l.pts.size());
                        }
                        compare(d, f, t);
                    }
            // degenerate loops in every position, made of any of the points in use
            std::vector<Pt> pts;
            for(auto &l : c.loops) pts.insert(pts.end(), l.pts.begin(), l.pts.end());
            pts.push_back({pts[0].x + 17, pts[0].y - 3});
            std::sort(pts.begin(), pts.end());
            pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
            std::vector<Poly> degs{{}};
            for(auto &a : pts) {
                degs.push_back({a});
                degs.push_back({a, a});
                degs.push_back({a, a, a, a});
                for(auto &b : pts)
                    if(!(a == b)) {
                        degs.push_back({a, b});
                        degs.push_back({a, b, a});
                        degs.push_back({a, a, b, b});
                        degs.push_back({a, b, b, a, a});
                    }
            }
            for(auto &g : degs)
                for(std::size_t pos = 0; pos <= c.loops.size(); ++pos)
                    for(int set = 0; set < 2; ++set) {
                        d.loops = c.loops;
                        d.loops.insert(d.loops.begin() + long(pos), Loop{set, g});
                        compare(d, f, t);
                    }
        }
        cur_case = nullptr;
    }
};

// ------------------------------------------------------------------ C08
// A tracker that records everything, so that its history is compared too.
struct Ev {
    char k;
    i64 x, y;
    bool operator==(const Ev &) const = default;
};
struct Rec final : poly_ops::i_point_tracker<std::size_t> {
    std::vector<Ev> ev;
    int resets = 0;
    void point_added(std::size_t o) override { ev.push_back({'a', i64(o), 0}); }
    void new_point_between(std::size_t a, std::size_t b) override { ev.push_back({'n', i64(a), i64(b)}); }
    void point_merge(std::size_t a, std::size_t b) override { ev.push_back({'m', i64(a), i64(b)}); }
    void reset() override { ev.clear(); ++resets; }
    Rec *callbacks() { return this; }
    template<typename C> poly_ops::point_t<C> get_value(std::size_t i, const poly_ops::point_t<C> &p) const { seen.push_back(i); return p; }
    mutable std::vector<std::size_t> seen;
};
struct Result {
    std::vector<Tree> t;
    std::vector<Ev> ev;
    std::vector<std::size_t> seen;
    std::size_t next_i = 0;
    bool operator==(const Result &) const = default;
    std::string text() const {
        std::string s = tshow(t) + " | callbacks:";
        for(auto &e : ev) s += std::string(" ") + e.k + std::to_string(e.x) + "," + std::to_string(e.y);
        s += " | numbers:";
        for(auto i : seen) s += " " + std::to_string(i);
        return s + " | next original number " + std::to_string(next_i);
    }
};
template<typename R> std::vector<Tree> as_tree(R &&r, bool tree) {
    if constexpr(requires { (*r.begin()).inner_loops(); }) {
        if(tree) return collect_tree(r);
    }
    std::vector<Tree> o;
    for(auto &p : collect(r)) o.push_back({p, {}});
    return o;
}

// the loops the additions of a history add
static const std::vector<std::vector<Loop>> &adds() {
    static std::vector<std::vector<Loop>> a;
    if(a.empty()) {
        a.push_back({{0, {{0, 0}, {1000, 0}, {1000, 1000}, {0, 1000}}}});                                 // square
        a.push_back({{1, {{700, -200}, {1303, 440}, {500, 1207}}}});                                      // crossing triangle, rounded points
        a.push_back({{0, {{3, 3}, {3, 3}, {990, 17}}}, {0, {}}, {1, {{5, 5}}}});                          // degenerate loops only
        a.push_back({{0, {{100, 900}, {900, 107}, {107, 100}, {900, 893}, {900, 893}}}});                 // self-intersecting, with a repeated point
        a.push_back({{1, {{0, 0}, {0, 1000}, {1000, 1000}, {1000, 0}}}, {0, {{20, 20}, {20, 60}, {60, 60}}}}); // counter-clockwise overlap and a small loop
    }
    return a;
}
enum Act { add0, add1, add2, add3, add4, sink_add, do_reset, exec_union, exec_tree_diff, exec_norm_unread, exec_xor, exec_int_tree, n_acts };
static const char *act_names[] = {"add square", "add triangle(clip)", "add degenerate", "add bow-tie", "add ccw square(clip)+small", "add bow-tie point by point", "reset", "execute union", "execute difference as tree", "execute normalize, not read", "execute xor", "execute intersection as tree"};

struct Plan {
    poly_ops::bool_op op;
    bool tree, read;
};
static Plan plan(int a) {
    switch(a) {
    case exec_union: return {poly_ops::bool_op::union_, false, true};
    case exec_tree_diff: return {poly_ops::bool_op::difference, true, true};
    case exec_norm_unread: return {poly_ops::bool_op::normalize, false, false};
    case exec_xor: return {poly_ops::bool_op::xor_, false, true};
    default: return {poly_ops::bool_op::intersection, true, true};
    }
}

// kind 0: clipper, untracked. 1: clipper with a recording tracker. 2: tclipper
// owning the recording tracker. 3: tclipper with origin sets.
struct Machine {
    int kind;
    poly_ops::clipper<int> c;
    poly_ops::tclipper<int, std::size_t, Rec> tc;
    poly_ops::origin_tracked_clipper<int> oc;
    Rec rec;
    explicit Machine(int k) : kind(k) {}
    void add(int which) {
        for(auto &l : adds()[std::size_t(which)]) {
            auto v = to_loop<int>(l.pts);
            auto s = poly_ops::bool_set(l.set);
            if(kind == 0) c.add_loops(v, s);
            else if(kind == 1) c.add_loops(v, s, &rec);
            else if(kind == 2) tc.add_loops(v, s);
            else oc.add_loops(v, s);
        }
    }
    void sink(int which) {
        for(auto &l : adds()[std::size_t(which)]) {
            auto v = to_loop<int>(l.pts);
            auto s = poly_ops::bool_set(l.set);
            auto put = [&](auto &&k) {
                for(auto &p : v) k(p);
            };
            if(kind == 0) put(c.add_loop(s));
            else if(kind == 1) put(c.add_loop(s, &rec));
            else if(kind == 2) put(tc.add_loop(s));
            else put(oc.add_loop(s));
        }
    }
    void reset() {
        if(kind == 0) c.reset();
        else if(kind == 1) { c.reset(); rec.reset(); }
        else if(kind == 2) tc.reset();
        else oc.reset();
    }
    template<bool T> void exec(poly_ops::bool_op op, bool read, Result &r) {
        if(kind == 0) {
            auto o = c.execute<T>(op);
            if(read) r.t = as_tree(o, T);
            r.next_i = c.next_orig_i();
        } else if(kind == 1) {
            rec.seen.clear();
            auto o = c.execute<T>(op, rec);
            if(read) r.t = as_tree(o, T);
            r.next_i = c.next_orig_i();
            r.ev = rec.ev;
            r.seen = rec.seen;
        } else if(kind == 2) {
            tc.tracker.seen.clear();
            auto o = tc.execute<T>(op);
            if(read) r.t = as_tree(o, T);
            r.next_i = tc.base.next_orig_i();
            r.ev = tc.tracker.ev;
            r.seen = tc.tracker.seen;
        } else {
            auto o = oc.execute<T>(op);
            if(read) {
                for(auto &&loop : o) {
                    r.t.emplace_back();
                    for(auto &&v : loop) {
                        r.t.back().loop.push_back({i64(v.p.x()), i64(v.p.y())});
                        for(auto x : v.original_points) r.seen.push_back(x);
                        r.seen.push_back(999);
                    }
                }
            }
            r.next_i = oc.base.next_orig_i();
        }
    }
    Result run(int act, int pinmode) {
        Result r;
        auto p = plan(act);
        pin(pinmode);
        if(p.tree) exec<true>(p.op, p.read, r);
        else exec<false>(p.op, p.read, r);
        return r;
    }
};

static std::string hist_text(const std::vector<int> &h) {
    std::string s;
    for(int a : h) s += std::string(s.empty() ? "" : "; ") + act_names[a];
    return s;
}
static std::vector<int> cur_hist;
static std::map<std::pair<int, std::vector<int>>, Result> fresh_cache;

static const Result &fresh(int kind, const std::vector<int> &content, int act) {
    auto key = std::make_pair(kind, content);
    key.second.push_back(act);
    auto it = fresh_cache.find(key);
    if(it != fresh_cache.end()) return it->second;
    Machine m(kind);
    for(int a : content) a == sink_add ? m.sink(3) : m.add(a);
    return fresh_cache.emplace(key, m.run(act, 0)).first->second;
}

static void check_history(int kind, const std::vector<int> &h) {
    Machine m(kind);
    std::vector<int> content;
    cur_hist = h;
    for(std::size_t i = 0; i < h.size(); ++i) {
        int a = h[i];
        if(a < sink_add) { m.add(a); content.push_back(a); }
        else if(a == sink_add) { m.sink(3); content.push_back(a); }
        else if(a == do_reset) { m.reset(); content.clear(); }
        else {
            auto got = m.run(a, 0);
            auto &want = fresh(kind, content, a);
            ++counters["evals"];
            if(content.size() && i) ++counters["nontrivial"];
            if(!(got == want))
                violation("history", hist_text(h) + " [kind " + std::to_string(kind) + ", action " + std::to_string(i) + "]", "a new object gives" + want.text() + "\nthis one gives" + got.text());
            if(content.empty() && !got.t.empty()) violation("empty", hist_text(h), "result of nothing: " + got.text());
            content.clear();
        }
    }
    ++counters["histories"];
}

static void histories(int kind, int depth) {
    // all histories of exactly `depth` actions that end with an operation
    // (all their prefixes are checked on the way)
    Gate g;
    std::vector<int> h(static_cast<std::size_t>(depth), 0);
    for(;;) {
        if(h.back() >= exec_union && g()) {
            if(g.stop()) return;
            step();
            check_history(kind, h);
            if(counters["histories"] % 50021 == 1) sample("kind " + std::to_string(kind) + ": " + hist_text(h));
        }
        int i = depth - 1;
        while(i >= 0 && ++h[std::size_t(i)] == n_acts) h[std::size_t(i--)] = 0;
        if(i < 0) break;
    }
}

// ------------------------------------------------------------------ C09
struct MyPoint {
    short a, b;
};
template<> struct poly_ops::point_ops<MyPoint> {
    static int get_x(const MyPoint &p) { return p.a; }
    static int get_y(const MyPoint &p) { return p.b; }
};
// an input range that can be read only once
struct OnePass {
    const Poly *p;
    struct It {
        using value_type = poly_ops::point_t<int>;
        using difference_type = std::ptrdiff_t;
        const Poly *p;
        std::size_t i;
        value_type operator*() const { return topt<int>((*p)[i]); }
        It &operator++() { ++i; return *this; }
        void operator++(int) { ++i; }
        bool operator==(std::default_sentinel_t) const { return i == p->size(); }
    };
    It begin() const { return {p, 0}; }
    std::default_sentinel_t end() const { return {}; }
};

static std::vector<std::vector<poly_ops::point_t<int>>> of_set(const Case &c, int set) {
    std::vector<std::vector<poly_ops::point_t<int>>> r;
    for(auto &l : c.loops)
        if(l.set == set) r.push_back(to_loop<int>(l.pts));
    return r;
}
// loops sorted by set, as the free functions add them
static Case by_set(const Case &c) {
    Case r = c;
    std::stable_sort(r.loops.begin(), r.loops.end(), [](const Loop &a, const Loop &b) { return a.set < b.set; });
    return r;
}

static void same(const char *key, const Case &c, const std::string &how, const std::vector<Poly> &want, const std::vector<Poly> &got) {
    ++counters["evals"];
    if(want != got) violation(key, str(c) + " [" + how + "]", "expected" + show(want) + " got" + show(got));
}
static void same_tree(const char *key, const Case &c, const std::string &how, const std::vector<Tree> &want, const std::vector<Tree> &got) {
    ++counters["evals"];
    if(!(want == got)) violation(key, str(c) + " [" + how + "]", "expected" + tshow(want) + "\ngot" + tshow(got));
}

template<typename C, typename I> void typ(const Case &c, const char *name, const std::vector<Poly> &want, const std::vector<Tree> &wt) {
    cur_extra = name;
    pin();
    same("types", c, name, want, run_flat<C, I>(c));
    pin();
    same_tree("types-tree", c, name, wt, run_tree<C, I>(c));
}
static void types(const Case &c0) {
    Case c = c0;
    for(int op = 0; op < 5; ++op) {
        c.op = op;
        pin();
        auto f = run_flat<std::int32_t, std::size_t>(c);
        pin();
        auto t = run_tree<std::int32_t, std::size_t>(c);
        if(!f.empty()) ++counters["nontrivial"];
        typ<std::int64_t, std::size_t>(c, "int64/size_t", f, t);
        typ<std::int16_t, std::size_t>(c, "int16/size_t", f, t);
        typ<std::int32_t, std::uint16_t>(c, "int32/uint16", f, t);
        typ<std::int32_t, std::int32_t>(c, "int32/int32", f, t);
        typ<std::int64_t, std::uint32_t>(c, "int64/uint32", f, t);
        typ<long long, long long>(c, "long long/long long", f, t);
    }
}
static void entry(const Case &c0) {
    Case c = by_set(c0);
    for(int op = 0; op < 5; ++op) {
        c.op = op;
        auto o = poly_ops::bool_op(op);
        pin();
        auto f = run_flat<int, std::size_t>(c);
        pin();
        auto t = run_tree<int, std::size_t>(c);
        if(!f.empty()) ++counters["nontrivial"];
        auto s = of_set(c, 0), k = of_set(c, 1);
        auto subj = poly_ops::bool_set::subject, clip = poly_ops::bool_set::clip;
        auto F = [&](const char *how, auto &&run) {
            cur_extra = how;
            pin();
            same("entry", c, how, f, run());
        };
        auto T = [&](const char *how, auto &&run) {
            cur_extra = how;
            pin();
            same_tree("entry-tree", c, how, t, run());
        };
        F("boolean_op", [&] { return collect(poly_ops::boolean_op<false, int>(s, k, o)); });
        T("boolean_op tree", [&] { return collect_tree(poly_ops::boolean_op<true, int>(s, k, o)); });
        F("boolean_op tracked", [&] {
            Rec r;
            auto g = collect(poly_ops::boolean_op<false, int>(s, k, o, r));
            if(r.resets) violation("entry", str(c), "boolean_op called reset()");
            return g;
        });
        if(k.empty() && op == 0) {
            F("union_op", [&] { return collect(poly_ops::union_op<false, int>(s)); });
            T("union_op tree", [&] { return collect_tree(poly_ops::union_op<true, int>(s)); });
        }
        if(k.empty() && op == 4) {
            F("normalize_op", [&] { return collect(poly_ops::normalize_op<false, int>(s)); });
            T("normalize_op tree", [&] { return collect_tree(poly_ops::normalize_op<true, int>(s)); });
        }
        F("add_loops_subject/add_loops_clip", [&] {
            poly_ops::clipper<int> n;
            n.add_loops_subject(s);
            n.add_loops_clip(k);
            return collect(n.execute(o));
        });
        F("owned result", [&] {
            poly_ops::clipper<int> n;
            n.add_loops_subject(s);
            n.add_loops_clip(k);
            return collect(std::move(n).execute(o));
        });
        T("owned tree", [&] {
            poly_ops::clipper<int> n;
            n.add_loops(s, subj);
            n.add_loops(k, clip);
            return collect_tree(std::move(n).execute<true>(o));
        });
        F("tclipper", [&] {
            poly_ops::tclipper<int, std::size_t, poly_ops::null_tracker<int>> n;
            n.add_loops_subject(s);
            n.add_loops_clip(k);
            return collect(n.execute<false>(o));
        });
        F("point by point", [&] {
            poly_ops::clipper<int> n;
            for(auto &l : c.loops) {
                auto p = n.add_loop(poly_ops::bool_set(l.set));
                for(auto &q : l.pts) p(topt<int>(q));
            }
            return collect(n.execute(o));
        });
        auto each = [&](auto conv) {
            poly_ops::clipper<int> n;
            for(auto &l : c.loops) n.add_loops(conv(l.pts), poly_ops::bool_set(l.set));
            return collect(n.execute(o));
        };
        F("list", [&] { return each([](const Poly &p) { auto v = to_loop<int>(p); return std::list<poly_ops::point_t<int>>(v.begin(), v.end()); }); });
        F("forward_list", [&] { return each([](const Poly &p) { auto v = to_loop<int>(p); return std::forward_list<poly_ops::point_t<int>>(v.begin(), v.end()); }); });
        F("single pass", [&] { return each([](const Poly &p) { return OnePass{&p}; }); });
        F("other point type", [&] { return each([](const Poly &p) { std::vector<MyPoint> v; for(auto &q : p) v.push_back({short(q.x), short(q.y)}); return v; }); });
        F("point_t<short>", [&] { return each([](const Poly &p) { return to_loop<short>(p); }); });
        F("transform view", [&] { return each([](const Poly &p) { return p | std::views::transform([](const Pt &q) { return topt<int>(q); }); }); });
        F("reversed twice", [&] { return each([](const Poly &p) { auto v = to_loop<int>(p); std::reverse(v.begin(), v.end()); return std::deque<poly_ops::point_t<int>>(v.begin(), v.end()) | std::views::reverse; }); });
        F("nested ranges", [&] {
            poly_ops::clipper<int> n;
            std::list<std::deque<poly_ops::point_t<int>>> a, b;
            for(auto &l : s) a.emplace_back(l.begin(), l.end());
            for(auto &l : k) b.emplace_back(l.begin(), l.end());
            n.add_loops(a | std::views::transform([](auto &l) { return std::views::all(l); }), subj);
            n.add_loops(std::move(b), clip);
            return collect(n.execute(o));
        });
        if(s.size() == 1) F("single loop argument", [&] { return collect(poly_ops::boolean_op<false, int>(s[0], k, o)); });
        F("result as input", [&] {
            // adding the (owned) output range of one operation to another object
            auto m = poly_ops::normalize_op<false, int>(std::vector<std::vector<poly_ops::point_t<int>>>{});
            poly_ops::clipper<int> n;
            n.add_loops(m, subj);
            n.add_loops(s, subj);
            n.add_loops(k, clip);
            return collect(n.execute(o));
        });
        F("arrays", [&] {
            poly_ops::clipper<int> n;
            for(auto &l : c.loops) {
                std::unique_ptr<int[][2]> a(new int[l.pts.size()][2]);
                for(std::size_t i = 0; i < l.pts.size(); ++i) { a[i][0] = int(l.pts[i].x); a[i][1] = int(l.pts[i].y); }
                auto sink = n.add_loop(poly_ops::bool_set(l.set));
                for(std::size_t i = 0; i < l.pts.size(); ++i) sink(poly_ops::point_t<int>(a[i]));
            }
            return collect(n.execute(o));
        });
        F("spans", [&] {
            poly_ops::clipper<int> n;
            for(auto &l : c.loops) {
                std::vector<int> store;
                for(auto &q : l.pts) { store.push_back(int(q.x)); store.push_back(int(q.y)); }
                std::vector<std::span<int, 2>> v;
                for(std::size_t i = 0; i < l.pts.size(); ++i) v.push_back(std::span<int, 2>(store.data() + 2 * i, 2));
                n.add_loops(v, poly_ops::bool_set(l.set));
            }
            return collect(n.execute(o));
        });
    }
}
// orders, starting points and translations: the region is the same
static void present(const Case &c0, double margin) {
    static const Pt shifts[] = {{0, 0}, {1, 0}, {-7, 13}, {1 << 29, -(1 << 29)}, {-(1 << 30) + 1, (1 << 30) - 5000}};
    std::vector<std::size_t> order(c0.loops.size());
    for(std::size_t i = 0; i < order.size(); ++i) order[i] = i;
    Case d;
    cur_case = &d;
    do {
        std::vector<std::size_t> rot(order.size(), 0);
        for(;;) {
            std::size_t si = 0;
            for(auto &sh : shifts) {
                // all starting points and orders unshifted, each shift for the plain presentation and one rotated one
                bool plain = std::is_sorted(order.begin(), order.end());
                if(si++ && !(plain && std::all_of(rot.begin(), rot.end(), [&](auto r) { return r == rot[0]; }))) continue;
                d.loops.clear();
                for(auto i : order) {
                    Poly p = c0.loops[i].pts;
                    std::rotate(p.begin(), p.begin() + long(rot[i]), p.end());
                    for(auto &q : p) { q.x += sh.x; q.y += sh.y; }
                    d.loops.push_back({c0.loops[i].set, p});
                }
                for(int op = 0; op < 5; ++op) {
                    d.op = op;
                    pin(int(si));
                    auto out = run_flat<std::int32_t, std::size_t>(d);
                    ++counters["evals"];
                    // judged against the original presentation
                    std::vector<Poly> back = out;
                    for(auto &p : back)
                        for(auto &q : p) { q.x -= sh.x; q.y -= sh.y; }
                    auto e = check_region(c0.loops, op, back, margin);
                    if(last_nontrivial) ++counters["nontrivial"];
                    if(!e.empty()) violation("presentation", str(d), e);
                }
            }
            std::size_t i = 0;
            while(i < rot.size() && ++rot[i] >= c0.loops[i].pts.size()) rot[i++] = 0;
            if(i == rot.size()) break;
        }
        step();
    } while(std::next_permutation(order.begin(), order.end()));
    cur_case = nullptr;
}

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = [] {
        if(!cur_hist.empty()) return hist_text(cur_hist);
        return (cur_case ? str(*cur_case) : std::string("?")) + " " + cur_extra;
    };
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    std::string mode = a.at(0);
    if(mode == "hist") {
        histories(std::stoi(a.at(1)), std::stoi(a.at(2)));
        finish();
        return 0;
    }
    std::string fam = a.at(1);
    i64 S = std::stoll(a.at(2));
    bool ok = family(fam, S, [&](Case &c) {
        if(counters["evals"] % 997 == 0) sample(fam + ": " + str(c));
        cur_case = &c;
        if(mode == "dup") Dup<int, std::size_t>::run(c);
        else if(mode == "types") types(c);
        else if(mode == "entry") entry(c);
        else if(mode == "present") present(c, 16);
        else { std::fprintf(stderr, "unknown mode\n"); std::exit(4); }
    });
    if(!ok) { std::fprintf(stderr, "unknown family %s\n", fam.c_str()); std::exit(4); }
    finish();
}
