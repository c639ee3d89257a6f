// Offsetting through every entry point (C10, C11, C12): each way of entering
// offset shapes makes the same points, callbacks and results as add_offset of
// single vectors on a plain clipper.
// --part KIND:FAMILY:SCALE   KIND: closed | open (results) | tracked (callbacks,
// results and origins, closed and open)
#define VP_NO_MAIN
#include "track.cpp"
#include <forward_list>
#include <iterator>
#include <list>

using P = poly_ops::point_t<Coord>;
// one "add" of a case
struct Piece {
    poly_ops::bool_set set;
    bool offset;
    double m;
    int arc;
    bool closed;
    std::vector<LoopV> loops;
};
static std::string str(const std::vector<Piece> &c) {
    std::string s;
    for(auto &p : c) {
        s += p.set == poly_ops::bool_set::subject ? " subject" : " clip";
        if(p.offset) {
            char b[100];
            std::snprintf(b, sizeof b, " offset by %g in steps of %d, %s", p.m, p.arc, p.closed ? "closed" : "open");
            s += b;
        }
        for(auto &l : p.loops) {
            s += " [";
            for(auto &q : l) s += "(" + std::to_string(q.x()) + "," + std::to_string(q.y()) + ")";
            s += "]";
        }
    }
    return s;
}
// a single-pass view whose end is of another type
struct OnePass {
    const LoopV *v;
    struct it {
        using value_type = P;
        using difference_type = std::ptrdiff_t;
        using iterator_concept = std::input_iterator_tag;
        const LoopV *v;
        std::size_t *i;
        P operator*() const { return (*v)[*i]; }
        it &operator++() { ++*i; return *this; }
        void operator++(int) { ++*i; }
        bool operator==(std::default_sentinel_t) const { return *i == v->size(); }
    };
    mutable std::size_t pos = 0;
    it begin() const { pos = 0; return {v, &pos}; }
    std::default_sentinel_t end() const { return {}; }
};
struct Foreign {
    short a;
    std::int64_t xx, yy;
};
template<> struct poly_ops::point_ops<Foreign> {
    static Coord get_x(const Foreign &p) { return Coord(p.xx); }
    static Coord get_y(const Foreign &p) { return Coord(p.yy); }
};
constexpr int OWAYS = 12;
static const char *way_name[OWAYS] = {"vectors", "a vector of vectors", "vectors by the name of the set", "a vector of vectors by the name of the set", "forward lists",
    "forward ranges with another type of end", "a list of forward lists", "lists", "single-pass ranges", "ranges of another point type", "an r-value vector of vectors", "a filtered view"};
// named: the overloads by the name of the set take no tracker for a plain clipper
template<typename N, typename... Pt> void enter_off(N &n, const std::vector<Piece> &c, int way, Pt... pt) {
    for(auto &p : c) {
        bool sub = p.set == poly_ops::bool_set::subject;
        if(!p.offset) {
            n.add_loops(p.loops, p.set, pt...);
            continue;
        }
        // a loop is closed unless the user says otherwise
        bool unsaid = p.closed && way != 0;
        auto one = [&](auto &&r) {
            if constexpr(sizeof...(Pt) == 0)
                if(unsaid) { poly_ops::add_offset(n, std::forward<decltype(r)>(r), p.set, p.m, p.arc); return; }
            poly_ops::add_offset(n, std::forward<decltype(r)>(r), p.set, p.m, p.arc, p.closed, pt...);
        };
        auto named = [&](auto &&r) {
            if(unsaid) {
                if(sub) poly_ops::add_offset_subject(n, std::forward<decltype(r)>(r), p.m, p.arc);
                else poly_ops::add_offset_clip(n, std::forward<decltype(r)>(r), p.m, p.arc);
                return;
            }
            if(sub) poly_ops::add_offset_subject(n, std::forward<decltype(r)>(r), p.m, p.arc, p.closed);
            else poly_ops::add_offset_clip(n, std::forward<decltype(r)>(r), p.m, p.arc, p.closed);
        };
        if(way == 1) { one(p.loops); continue; }
        if(way == 3) { named(p.loops); continue; }
        if(way == 6) {
            std::list<std::forward_list<P>> x;
            for(auto &l : p.loops) x.emplace_back(l.begin(), l.end());
            one(x);
            continue;
        }
        if(way == 10) { one(std::vector<LoopV>(p.loops)); continue; }
        for(auto &l : p.loops) {
            std::forward_list<P> f(l.begin(), l.end());
            switch(way) {
            case 0: one(l); break;
            case 2: named(l); break;
            case 4: one(f); break;
            case 5: one(std::ranges::subrange(std::counted_iterator(f.begin(), std::ptrdiff_t(l.size())), std::default_sentinel)); break;
            case 7: one(std::list<P>(l.begin(), l.end())); break;
            case 8:
                // an open line is walked more than once, which the library does through a copy
                one(OnePass{&l});
                break;
            case 9: {
                std::vector<Foreign> x;
                for(auto &q : l) x.push_back({1, q.x(), q.y()});
                one(x);
                break;
            }
            case 11: {
                std::vector<std::pair<int, P>> x;
                for(auto &q : l) { x.push_back({1, q}); x.push_back({0, P(7, 7)}); }
                one(x | std::views::filter([](auto &e) { return e.first != 0; }) | std::views::transform([](auto &e) { return e.second; }));
                break;
            }
            }
        }
    }
}
using Shown = std::vector<std::vector<Val>>;
static std::vector<Poly> geo(const Shown &s) {
    std::vector<Poly> r;
    for(auto &l : s) {
        r.emplace_back();
        for(auto &v : l) r.back().push_back(v.p);
    }
    return r;
}
static const std::vector<Piece> *cur_pieces = nullptr;

template<bool Tree> void ways(const std::vector<Piece> &c, poly_ops::bool_op op, bool tracked) {
    using Rd = Read<Tree>;
    Rec first;
    Shown out;
    flips.start();
    {
        poly_ops::clipper<Coord, Index> n;
        enter_off(n, c, 0, &first);
        out = Rd::rec(n.template execute<Tree>(op, first));
    }
    ++counters["evals"];
    if(!out.empty()) ++counters["nontrivial"];
    auto txt = [&] { return str(c) + " operation " + std::to_string(int(op)) + (Tree ? " tree" : " flat"); };
    auto want = geo(out);
    auto judgeg = [&](const char *what, int w, const std::vector<Poly> &g) {
        ++counters["evals"];
        if(g != want) violation("offset-entry", txt(), std::string(what) + ", entered as " + way_name[w] + ": gives" + [&] { std::string s; for(auto &l : g) s += " " + str(l); return s; }() + " instead of" + show(out));
    };
    auto plain = [&](auto &&r) {
        std::vector<Poly> g;
        if constexpr(Tree) {
            std::vector<FlatNode> f;
            flatten(collect_tree(std::forward<decltype(r)>(r)), -1, 0, f);
            for(auto &x : f) g.push_back(x.loop);
        } else g = collect(std::forward<decltype(r)>(r));
        return g;
    };
    // is the case one the free function can express?
    bool free_fn = op == poly_ops::bool_op::union_ && c.size() == 1 && c[0].offset && c[0].set == poly_ops::bool_set::subject;
    if(!tracked) {
        for(int w = 0; w < OWAYS; ++w) {
            flips.start();
            poly_ops::clipper<Coord, Index> n;
            enter_off(n, c, w);
            judgeg("clipper", w, plain(n.template execute<Tree>(op)));
        }
        // the same points must come from clippers with trackers
        auto points = [](auto &&rows) {
            std::vector<Poly> g;
            for(auto &l : rows) {
                g.emplace_back();
                for(auto &v : l) g.back().push_back(v.p);
            }
            return g;
        };
        for(int w = 0; w < 4; ++w) {
            {
                Rec r;
                flips.start();
                poly_ops::tclipper<Coord, Index, Rec &> n{r};
                enter_off(n, c, w);
                judgeg("tclipper", w, points(Rd::rec(n.template execute<Tree>(op))));
            }
            flips.start();
            poly_ops::origin_tracked_clipper<Coord, Index> n;
            enter_off(n, c, w);
            judgeg("tracked clipper", w, points(Rd::org(n.template execute<Tree>(op))));
        }
        if(free_fn) {
            flips.start();
            judgeg("offset()", 1, plain(poly_ops::offset<Tree, Coord, Index>(c[0].loops, c[0].m, c[0].arc, c[0].closed)));
            if(c[0].closed) {
                flips.start();
                judgeg("offset() of closed loops", 1, plain(poly_ops::offset<Tree, Coord, Index>(c[0].loops, c[0].m, c[0].arc)));
            }
            if(c[0].loops.size() == 1) {
                flips.start();
                judgeg("offset()", 0, plain(poly_ops::offset<Tree, Coord, Index>(c[0].loops[0], c[0].m, c[0].arc, c[0].closed)));
                flips.start();
                std::pmr::monotonic_buffer_resource mem;
                judgeg("offset() with a resource", 4, plain(poly_ops::offset<Tree, Coord, Index>(std::forward_list<P>(c[0].loops[0].begin(), c[0].loops[0].end()), c[0].m, c[0].arc, c[0].closed, &mem)));
            }
        }
        return;
    }
    std::vector<std::vector<OVal>> oout;
    auto sets = origins(first.ev);
    for(auto &l : out) {
        oout.emplace_back();
        for(auto &v : l) oout.back().push_back({v.p, {sets[std::size_t(v.i)].begin(), sets[std::size_t(v.i)].end()}});
    }
    auto judge = [&](const char *what, int w, const Rec &r, const Shown &o) {
        ++counters["evals"];
        if(same(r.ev, first.ev) && same(o, out)) return;
        violation("offset-track", txt(), std::string(what) + ", entered as " + way_name[w] + ": callbacks:" + evs(r.ev) + "; result:" + show(o) + "; expected:" + evs(first.ev) + "; result:" + show(out));
    };
    auto judgeo = [&](const char *what, int w, const std::vector<std::vector<OVal>> &o) {
        ++counters["evals"];
        if(!same(o, oout)) violation("offset-origins", txt(), std::string(what) + ", entered as " + way_name[w] + ": the origins or points differ; expected callbacks:" + evs(first.ev) + "; result:" + show(out));
    };
    for(int w = 0; w < OWAYS; ++w) {
        if(w != 2 && w != 3) {
            Rec r;
            flips.start();
            poly_ops::clipper<Coord, Index> n;
            enter_off(n, c, w, &r);
            judge("clipper", w, r, Rd::rec(n.template execute<Tree>(op, r)));
        }
        {
            Rec r;
            flips.start();
            poly_ops::tclipper<Coord, Index, Rec &> n{r};
            enter_off(n, c, w);
            judge("tclipper", w, r, Rd::rec(n.template execute<Tree>(op)));
        }
        {
            flips.start();
            poly_ops::origin_tracked_clipper<Coord, Index> n;
            enter_off(n, c, w);
            judgeo("tracked clipper", w, Rd::org(n.template execute<Tree>(op)));
        }
    }
    if(free_fn) {
        Rec r;
        flips.start();
        auto o = poly_ops::offset<Tree, Coord, Index>(c[0].loops, c[0].m, c[0].arc, r, c[0].closed);
        judge("offset()", 1, r, Rd::rec(std::move(o)));
        if(c[0].closed) {
            Rec r2;
            flips.start();
            auto o2 = poly_ops::offset<Tree, Coord, Index>(c[0].loops, c[0].m, c[0].arc, r2);
            judge("offset() of closed loops", 1, r2, Rd::rec(std::move(o2)));
        }
        flips.start();
        judgeo("offset()", 1, Rd::org(poly_ops::offset<Tree, Coord, Index>(c[0].loops, c[0].m, c[0].arc, poly_ops::origin_point_tracker<Index>{}, c[0].closed)));
    }
}

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = [] { return cur_pieces ? str(*cur_pieces) : std::string("?"); };
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    std::string mode = a.at(0);
    int n = std::stoi(a.at(1));
    i64 S = std::stoll(a.at(2));
    bool tracked = mode == "tracked";
    Gate g;
    flips.bound = 0;
    auto run = [&](const std::vector<Piece> &c) {
        cur_pieces = &c;
        if(!g() || g.stop()) return;
        for(int op = 0; op < 5; ++op) {
            step();
            ways<false>(c, poly_ops::bool_op(op), tracked);
            ways<true>(c, poly_ops::bool_op(op), tracked);
        }
        if(counters["evals"] % 997 == 0) sample(str(c));
        cur_pieces = nullptr;
    };
    using poly_ops::bool_set;
    // the first shape: every sequence of 1..n points; the others fixed
    auto gr = grid(2, 2, S, S / 50);
    gr.push_back({S * 3 / 2, -S / 3});
    LoopV square = to_loop<Coord>(rect(S / 2, S / 3, 2 * S, 3 * S / 2)), small = to_loop<Coord>(Poly{{S / 5, S / 4}, {S * 3 / 4, S / 4}, {S / 2, S * 4 / 5}});
    for(int len = 0; len <= n; ++len) {
        std::vector<int> cc;
        all_seqs(int(gr.size()), len, cc, [&](const std::vector<int> &s) {
            Poly p;
            for(int i : s) p.push_back(gr[std::size_t(i)]);
            LoopV l = to_loop<Coord>(p);
            for(int closed = 0; closed < 2; ++closed) {
                if(!tracked && closed != (mode == "closed")) continue;
                bool cl = closed;
                for(double f : {0.3, -0.12}) {
                    double m = f * double(S);
                    int arc = int(std::abs(m) * 0.9);
                    for(auto set : {bool_set::subject, bool_set::clip}) {
                        run({{set, true, m, arc, cl, {l}}});
                        run({{set, true, m, arc, cl, {l, small}}});
                        auto other = set == bool_set::subject ? bool_set::clip : bool_set::subject;
                        run({{set, true, m, arc, cl, {l}}, {other, false, 0, 0, true, {square}}});
                        run({{other, false, 0, 0, true, {square}}, {set, true, m, arc, cl, {l}}});
                        run({{set, true, m, arc, cl, {small, l}}, {other, true, -m, arc, cl, {square}}});
                    }
                }
            }
            return !truncated;
        }, false);
        if(truncated) break;
    }
    finish();
}
