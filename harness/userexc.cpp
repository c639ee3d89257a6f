// C27: exceptions thrown by the user's own code, at every place it is called.
// --part clip:KINDS:FAMILY:SCALE[:N]    adding loops and executing
//        offset:KINDS:FAMILY:SCALE[:N]  the same with offsets of the loops
//        raster:KINDS:FAMILY:SCALE[:N]  the rasterizer
// KINDS: r the ranges, iterators and points given, t the tracker, c the
//        coordinate type, f the drawing function
// N: only every Nth member (chosen by its text)
// Every call of user code from the construction of the object to the end of the
// operation is counted; for every number one run throws there and one throws
// there and at every later call. After each every way of carrying on is tried.
#include <cstddef>
#include <cstdlib>
#include <new>
namespace vp {
void user_point(char kind);
}
#define VP_COORD_POINT() ::vp::user_point('c')
#define VP_COORD_REAL_POINT() ::vp::user_point('c')
#include "flips.hpp"
#include "coordclass.hpp"
#include "families.hpp"
#include "arena.hpp"
#include "tree.hpp"
#include "poly_ops/offset.hpp"
#include "poly_ops/polydraw.hpp"
#include <optional>
#include <sstream>
using namespace vp;
using C = vpc::C;

// ---------------------------------------------------------- the fault injector
struct UserError {
    u64 number;
};
struct Injector {
    bool armed = false, persistent = false, failed = false;
    std::string kinds;
    u64 count = 0, at = ~0ull, first = ~0ull;
    char kind = 0;
    i64 live = 0;
    void start(u64 k, bool p) { count = 0; at = k; persistent = p; failed = false; first = ~0ull; }
};
static Injector inj;
void vp::user_point(char kind) {
    if(!inj.armed || inj.kinds.find(kind) == std::string::npos) return;
    u64 i = inj.count++;
    if(i == inj.at || (inj.persistent && i > inj.at)) {
        if(!inj.failed) {
            inj.failed = true;
            inj.first = i;
            inj.kind = kind;
        }
        throw UserError{i};
    }
}
struct Arm {
    Arm() { inj.armed = true; }
    ~Arm() { inj.armed = false; }
};
static constexpr std::size_t H = 16;
void *operator new(std::size_t n) {
    char *p = static_cast<char *>(std::malloc(n + H));
    if(!p) throw std::bad_alloc();
    *p = inj.armed;
    inj.live += *p;
    return p + H;
}
void operator delete(void *q) noexcept {
    if(!q) return;
    char *p = static_cast<char *>(q) - H;
    inj.live -= *p;
    std::free(p);
}
void operator delete(void *q, std::size_t) noexcept { operator delete(q); }
// what the arena itself keeps is not counted
struct Mem final : std::pmr::memory_resource {
    Arena arena;
    struct In {
        bool was = inj.armed;
        In() { inj.armed = false; }
        ~In() { inj.armed = was; }
    };
    void *do_allocate(std::size_t n, std::size_t a) override {
        In in;
        return arena.do_allocate(n, a);
    }
    void do_deallocate(void *p, std::size_t n, std::size_t a) override { arena.do_deallocate(p, n, a); }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
    static Mem *dflt;
};
Mem *Mem::dflt = nullptr;
static void pin() {
    flips.bound = 0;
    flips.choice.clear();
    flips.start();
}

// ------------------------------------------------------- the user's own types
struct UPoint {
    int x, y;
};
template<> struct poly_ops::point_ops<UPoint> {
    static C get_x(const UPoint &p) { user_point('r'); return p.x; }
    static C get_y(const UPoint &p) { user_point('r'); return p.y; }
};
struct IPoint {
    int x, y;
};
template<> struct poly_ops::point_ops<IPoint> {
    static int get_x(const IPoint &p) { user_point('r'); return p.x; }
    static int get_y(const IPoint &p) { user_point('r'); return p.y; }
};
template<typename T> struct URange {
    const std::vector<T> *v;
    struct iterator {
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        using reference = const T &;
        using pointer = const T *;
        const T *p = nullptr;
        reference operator*() const { user_point('r'); return *p; }
        iterator &operator++() { user_point('r'); ++p; return *this; }
        iterator operator++(int) { auto r = *this; ++*this; return r; }
        bool operator==(const iterator &b) const { user_point('r'); return p == b.p; }
    };
    iterator begin() const { user_point('r'); return {v->data()}; }
    iterator end() const { user_point('r'); return {v->data() + v->size()}; }
};
template<typename T> using Loops = std::vector<URange<T>>;

struct UTracker final : poly_ops::i_point_tracker<std::size_t> {
    std::vector<std::array<std::size_t, 3>> log;
    void new_point_between(std::size_t a, std::size_t b) override { user_point('t'); log.push_back({0, a, b}); }
    void point_merge(std::size_t a, std::size_t b) override { user_point('t'); log.push_back({1, a, b}); }
    void point_added(std::size_t a) override { user_point('t'); log.push_back({2, a, 0}); }
    void reset() override { user_point('t'); log.clear(); }
    poly_ops::i_point_tracker<std::size_t> *callbacks() { return this; }
    poly_ops::point_t<C> get_value(std::size_t, const poly_ops::point_t<C> &p) const { return p; }
};

// ----------------------------------------------------------------- reporting
static const Case *cc;
static std::string scen, how;
static std::string where() { return (cc ? vp::str(*cc) : std::string("?")) + " " + scen + " " + how; }
struct Result {
    std::vector<Tree> t;
    std::vector<std::array<std::size_t, 3>> log;
    std::size_t next = 0;
    bool operator==(const Result &) const = default;
    std::string text() const {
        std::vector<FlatNode> f;
        flatten(t, -1, 0, f);
        return dump(f) + " next index " + std::to_string(next) + ", " + std::to_string(log.size()) + " reports";
    }
};
template<bool TreeOut, typename R> static void read_all(R &&out, std::vector<Tree> &r) {
    for(auto &&loop : out) {
        Tree t;
        for(auto &&q : loop) t.loop.push_back({q.x().v, q.y().v});
        if constexpr(TreeOut) read_all<true>(loop.inner_loops(), t.kids);
        r.push_back(std::move(t));
    }
}
// calls f with faults on; false if it threw
template<typename F> static bool guarded(F &&f) {
    try {
        Arm a;
        f();
        return true;
    } catch(const UserError &e) {
        if(!inj.failed) violation("exception", where(), "an exception without a failure");
        else if(inj.persistent ? e.number < inj.first : e.number != inj.first) violation("exception", where(), "another exception than the one thrown");
    } catch(const std::exception &e) {
        violation("exception", where(), std::string("the exception arrives as ") + e.what());
    } catch(...) {
        violation("exception", where(), "the exception arrives as another one");
    }
    return false;
}

// ------------------------------------------------------------------ scenarios
struct Step {
    enum Kind { range, sink, ranges, closed, open } kind;
    int set;
    std::vector<UPoint> pts;
    std::vector<URange<UPoint>> both; // for ranges of ranges: the loop and one without its last point
    std::vector<UPoint> less;
};
static const char *kind_names[] = {"range", "sink", "range of ranges", "closed offset", "open offset"};
using Script = std::vector<const Step *>;
static double magnitude;
static int arc;
static u64 again; // points added again after a failure

template<bool Tracked> struct Machine {
    using Tracker = std::conditional_t<Tracked, UTracker, poly_ops::null_tracker<C>>;
    poly_ops::tclipper<C, std::size_t, Tracker> n;
    bool retry = false; // a point that could not be added is added again
    explicit Machine(Mem &mem) : n(&mem) {}
    void add(const Step &st) {
        auto set = poly_ops::bool_set(st.set);
        URange<UPoint> r{&st.pts};
        switch(st.kind) {
        case Step::range: n.add_loops(r, set); break;
        case Step::ranges: n.add_loops(URange<URange<UPoint>>{&st.both}, set); break;
        case Step::sink: {
            auto k = n.add_loop(set);
            for(auto &p : st.pts) {
                if(!retry) k(p);
                else try {
                    k(p);
                } catch(const UserError &) {
                    inj.start(~0ull, false);
                    inj.failed = true;
                    ++again;
                    k(p);
                }
            }
            break;
        }
        case Step::closed: poly_ops::add_offset(n, r, set, magnitude, vpc::C(arc), true); break;
        case Step::open: poly_ops::add_offset(n, r, set, magnitude, vpc::C(arc), false); break;
        }
    }
};
enum class Phase { none, make, add, execute };
template<bool Tracked, bool TreeOut> struct Run {
    Mem mem;
    std::optional<Machine<Tracked>> m;
    Phase phase = Phase::none;
    std::size_t at = 0; // the step that failed
    Result res;
    poly_ops::bool_op op;
    bool retry = false;
    bool make() {
        if(guarded([&] { m.emplace(mem); })) {
            m->retry = retry;
            return true;
        }
        m.reset();
        phase = Phase::make;
        return false;
    }
    bool add_from(const Script &s, std::size_t i) {
        for(; i < s.size(); ++i)
            if(!guarded([&] { m->add(*s[i]); })) {
                phase = Phase::add;
                at = i;
                return false;
            }
        return true;
    }
    bool execute() {
        pin();
        res = {};
        if(!guarded([&] {
            auto out = m->n.template execute<TreeOut>(op);
            inj.armed = false;
            read_all<TreeOut>(out, res.t);
            res.next = m->n.base.next_orig_i();
            if constexpr(Tracked) res.log = m->n.tracker.log;
        })) {
            phase = Phase::execute;
            return false;
        }
        return true;
    }
    bool reset() { return guarded([&] { m->n.reset(); }); }
    // with the faults beginning after the object was used once
    bool all(const Script &s, bool reused, u64 k, bool persistent) {
        if(reused) {
            inj.start(~0ull, false);
            make();
            add_from(s, 0);
            execute();
            inj.start(k, persistent);
            return add_from(s, 0) && execute();
        }
        inj.start(k, persistent);
        return make() && add_from(s, 0) && execute();
    }
    // everything must have been returned
    void destroy(i64 live0) {
        m.reset();
        mem.arena.check_all();
        Mem::dflt->arena.check_all();
        if(!mem.arena.error.empty()) violation("memory", where(), mem.arena.error);
        if(!Mem::dflt->arena.error.empty()) violation("memory", where(), Mem::dflt->arena.error);
        Mem::dflt->arena.error.clear();
        if(mem.arena.live.size()) violation("leak", where(), std::to_string(mem.arena.live.size()) + " blocks of the supplied memory resource were not returned");
        if(Mem::dflt->arena.live.size()) {
            violation("leak", where(), std::to_string(Mem::dflt->arena.live.size()) + " blocks of the default memory resource were not returned");
            Mem::dflt->arena.live.clear();
        }
        if(inj.live != live0) {
            violation("leak", where(), std::to_string(inj.live - live0) + " blocks from operator new were not returned");
            inj.live = live0;
        }
    }
};
static void compare(const char *key, const Result &want, const Result &got, const char *what) {
    ++counters["evals"];
    if(!(want == got)) violation(key, where(), std::string(what) + ": expected" + want.text() + "\ngot" + got.text());
}
template<bool Tracked, bool TreeOut> static void scenario(const Script &s, poly_ops::bool_op op) {
    using R = Run<Tracked, TreeOut>;
    const i64 live0 = inj.live;
    auto fresh = [&](const Script &t, bool reused) {
        R r;
        r.op = op;
        r.all(t, reused, ~0ull, false);
        Result x = r.res;
        r.destroy(live0);
        return x;
    };
    const char *modes[] = {"then destroyed", "then reset and repeated", "then added again and executed", "then the loop is added again", "then without the loop", "then executed and repeated", "where it happens the point is added again"};
    for(int reused = 0; reused < 2; ++reused) {
        how = "clean run";
        const Result want = fresh(s, reused);
        const u64 n = inj.count;
        maxima["calls"] = std::max<u64>(maxima["calls"], n);
        ++counters["scenarios"];
        if(want.t.size()) ++counters["nontrivial"];
        std::vector<Result> without; // the results without one loop
        if(!Tracked && !reused)
            for(std::size_t i = 0; i < s.size(); ++i) {
                Script t = s;
                t.erase(t.begin() + long(i));
                how = "clean run without loop " + std::to_string(i);
                without.push_back(fresh(t, false));
            }
        for(u64 k = 0; k < n; ++k)
            for(int persistent = 0; persistent < 2; ++persistent)
                for(int mode = 0; mode < (Tracked ? 3 : 7); ++mode) {
                    if(reused && mode > 2) break;
                    if(persistent && mode > 3) break;
                    step();
                    how = std::string(reused ? "(used once before) " : "") + "[call " + std::to_string(k) + " of " + std::to_string(n) + (persistent ? " and all later ones" : "") + " of user code throws, " + modes[mode] + "]";
                    R r;
                    r.op = op;
                    r.retry = mode == 6;
                    bool ok = r.all(s, reused, k, persistent);
                    bool failed = inj.failed;
                    char kind = inj.kind;
                    inj.start(~0ull, false); // no more failures
                    ++counters["faults"];
                    if(ok) {
                        if(mode == 6 && failed) {
                            r.res.next = want.next;
                            compare("after-point", want, r.res, "after a point that was added again");
                        } else if(mode != 6) violation("swallowed", where(), failed ? "the exception did not arrive" : "fewer calls than in the clean run");
                        r.destroy(live0);
                        continue;
                    }
                    ++counters[r.phase == Phase::make ? "in_construction" : r.phase == Phase::add ? "in_adding" : "in_executing"];
                    ++counters[std::string("by_") + (kind == 'r' ? "ranges" : kind == 't' ? "trackers" : "coordinates")];
                    switch(mode) {
                    case 0: break;
                    case 1:
                        if(r.phase == Phase::make) r.make();
                        else r.reset();
                        if(r.add_from(s, 0) && r.execute()) compare("after-reset", want, r.res, "after reset()");
                        break;
                    case 2:
                        if(r.phase != Phase::execute) break;
                        if(r.add_from(s, 0) && r.execute()) compare("after-execute", want, r.res, "after a failed execution");
                        break;
                    case 3:
                        // a failed addition adds nothing (but may use up numbers)
                        if(r.phase != Phase::add || s[r.at]->kind == Step::ranges || Tracked) break;
                        if(r.add_from(s, r.at) && r.execute()) {
                            r.res.next = want.next;
                            compare("after-add", want, r.res, "after a failed addition that was repeated");
                        }
                        break;
                    case 4:
                        if(r.phase != Phase::add || s[r.at]->kind == Step::ranges) break;
                        if(r.add_from(s, r.at + 1) && r.execute()) {
                            r.res.next = without[r.at].next;
                            compare("after-add", without[r.at], r.res, "after a failed addition that was left out");
                        }
                        break;
                    case 5:
                        if(r.phase == Phase::make) break;
                        // whatever this gives, the operation after it is right
                        r.execute();
                        if(r.add_from(s, 0) && r.execute()) compare("after-second", want, r.res, "after another execution");
                        break;
                    }
                    r.destroy(live0);
                }
    }
}

// free functions: the objects exist only during the call
template<typename F> static void free_function(const char *name, F &&f) {
    scen = name;
    const i64 live0 = inj.live;
    auto attempt = [&](Result &res) {
        Mem mem;
        pin();
        bool ok = guarded([&] { f(&mem, res); });
        mem.arena.check_all();
        if(!mem.arena.error.empty() || !Mem::dflt->arena.error.empty()) violation("memory", where(), mem.arena.error + Mem::dflt->arena.error);
        Mem::dflt->arena.error.clear();
        if(mem.arena.live.size() + Mem::dflt->arena.live.size() || inj.live != live0) violation("leak", where(), "not all memory was returned");
        Mem::dflt->arena.live.clear();
        inj.live = live0;
        return ok;
    };
    // the results' own memory is not part of what is counted
    Result want, got;
    how = "clean run";
    inj.start(~0ull, false);
    attempt(want);
    u64 n = inj.count;
    ++counters["scenarios"];
    if(want.t.size()) ++counters["nontrivial"];
    for(u64 k = 0; k < n; ++k)
        for(int persistent = 0; persistent < 2; ++persistent) {
            step();
            how = "[call " + std::to_string(k) + (persistent ? " and all later ones" : "") + " of user code throws]";
            got = {};
            inj.start(k, persistent);
            ++counters["faults"];
            ++counters["in_free_functions"];
            if(attempt(got)) violation("swallowed", where(), inj.failed ? "the exception did not arrive" : "fewer calls than in the clean run");
            if(!persistent) continue;
            got = {};
            inj.start(~0ull, false);
            attempt(got);
            compare("next-call", want, got, "the next call");
        }
}
template<bool TreeOut, typename R> static void take(R &&out, Result &res) {
    auto moved = std::move(out);
    inj.armed = false;
    read_all<TreeOut>(moved, res.t);
}

static std::vector<UPoint> upts(const Poly &p) {
    std::vector<UPoint> r;
    for(auto &q : p) r.push_back({int(q.x), int(q.y)});
    return r;
}
static int my_shard = 0, my_shards = 1; // scenarios, not members, are shared out
static bool mine() {
    static u64 n = 0;
    u64 i = n++;
    i *= 0x9E3779B97F4A7C15ull;
    return elapsed() > opt.budget ? (truncated = true, false) : int((i >> 33) % u64(my_shards)) == my_shard;
}
static void clip_case(Case &c, bool offsets) {
    cc = &c;
    std::size_t nl = c.loops.size();
    for(int op = 0; op < 5; ++op) {
        c.op = op;
        auto o = poly_ops::bool_op(op);
        for(int tree = 0; tree < 2; ++tree)
            for(int tracked = inj.kinds == "t"; tracked < 2; ++tracked) {
                if(!mine()) continue;
                std::vector<Step> steps(nl);
                Script s;
                scen = std::string(tree ? "tree" : "flat") + (tracked ? " tracked" : "");
                std::size_t i = std::size_t(op + tree);
                for(std::size_t j = 0; j < nl; ++j, ++i) {
                    Step &t = steps[j];
                    t.kind = offsets ? (i % 2 ? Step::closed : Step::open) : Step::Kind(i % 3);
                    t.set = c.loops[j].set;
                    t.pts = t.less = upts(c.loops[j].pts);
                    t.less.pop_back();
                    t.both = {{&t.pts}, {&t.less}};
                    s.push_back(&t);
                    scen += std::string("/") + kind_names[t.kind];
                }
                if(tree) tracked ? scenario<true, true>(s, o) : scenario<false, true>(s, o);
                else tracked ? scenario<true, false>(s, o) : scenario<false, false>(s, o);
            }
        if(!mine()) continue;
        std::vector<std::vector<UPoint>> subj, clip;
        for(auto &l : c.loops) (l.set ? clip : subj).push_back(upts(l.pts));
        Loops<UPoint> sl, cl;
        for(auto &v : subj) sl.push_back({&v});
        for(auto &v : clip) cl.push_back({&v});
        URange<URange<UPoint>> sr{&sl}, cr{&cl};
        using PM = std::pmr::memory_resource *;
        if(offsets) {
            if(op) continue;
            free_function("offset", [&](PM mem, Result &res) { take<false>(poly_ops::offset<false, C>(sr, magnitude, C(arc), true, mem), res); });
            free_function("offset open tree tracked", [&](PM mem, Result &res) {
                take<true>(poly_ops::offset<true, C>(sr, magnitude, C(arc), UTracker(), false, mem), res);
            });
            continue;
        }
        free_function("boolean_op", [&](PM mem, Result &res) { take<false>(poly_ops::boolean_op<false, C>(sr, cr, o, mem), res); });
        free_function("boolean_op tree tracked", [&](PM mem, Result &res) { take<true>(poly_ops::boolean_op<true, C>(sr, cr, o, UTracker(), mem), res); });
        if(clip.empty() && op == 0) free_function("union_op", [&](PM mem, Result &res) { take<false>(poly_ops::union_op<false, C>(sr, mem), res); });
        if(clip.empty() && op == 4) free_function("normalize_op", [&](PM mem, Result &res) { take<true>(poly_ops::normalize_op<true, C>(sr, mem), res); });
    }
    cc = nullptr;
}

// ------------------------------------------------------------------ rasterizer
struct Span {
    long x1, x2, y;
    bool operator==(const Span &) const = default;
};
static void raster_case(Case &c) {
    namespace draw = poly_ops::draw;
    if(!mine()) return;
    cc = &c;
    scen = "raster";
    const i64 live0 = inj.live;
    std::vector<std::vector<IPoint>> loops;
    for(auto &l : c.loops) {
        loops.emplace_back();
        for(auto &q : l.pts) loops.back().push_back({int(q.x), int(q.y)});
    }
    std::optional<draw::rasterizer<int>> r;
    std::vector<Span> got;
    got.reserve(10000);
    std::size_t at = 0;
    bool drawing = false;
    auto add_one = [&](std::size_t i) {
        return guarded([&] {
            if(i % 2) {
                auto s = r->add_loop();
                for(auto &p : loops[i]) s(p);
            } else r->add_loops(URange<IPoint>{&loops[i]});
        });
    };
    auto add_from = [&](std::size_t i, std::size_t skip = ~std::size_t(0)) {
        drawing = false;
        for(at = i; at < loops.size(); ++at)
            if(at != skip && !add_one(at)) return false;
        return true;
    };
    auto scan = [&] {
        got.clear();
        drawing = true;
        return guarded([&] {
            r->draw(12, 12, [&](unsigned x1, unsigned x2, unsigned y) {
                user_point('f');
                got.push_back({long(x1), long(x2), long(y)});
            });
        });
    };
    auto done = [&] {
        r.reset();
        Mem::dflt->arena.check_all();
        if(!Mem::dflt->arena.error.empty()) violation("memory", where(), Mem::dflt->arena.error);
        Mem::dflt->arena.error.clear();
        if(Mem::dflt->arena.live.size() || inj.live != live0) violation("leak", where(), "not all memory was returned");
        Mem::dflt->arena.live.clear();
        inj.live = live0;
    };
    auto clean = [&](std::size_t skip) {
        inj.start(~0ull, false);
        guarded([&] { r.emplace(); });
        add_from(0, skip);
        scan();
        std::vector<Span> v = got;
        return v;
    };
    how = "clean run";
    const std::vector<Span> want = clean(~std::size_t(0));
    u64 n = inj.count;
    done();
    std::vector<std::vector<Span>> without;
    for(std::size_t i = 0; i < loops.size(); ++i) {
        without.push_back(clean(i));
        done();
    }
    ++counters["scenarios"];
    if(want.size()) ++counters["nontrivial"];
    auto same = [&](const char *key, const std::vector<Span> &w, const char *what) {
        ++counters["evals"];
        if(w != got) violation(key, where(), std::string(what) + ": the spans differ from those of a new object");
    };
    const char *modes[] = {"then destroyed", "then cleared and repeated", "then drawn again", "then added again and drawn", "then the loop is added again", "then without the loop"};
    for(u64 k = 0; k < n; ++k)
        for(int persistent = 0; persistent < 2; ++persistent)
            for(int mode = 0; mode < 6; ++mode) {
                step();
                how = "[call " + std::to_string(k) + " of " + std::to_string(n) + (persistent ? " and all later ones" : "") + " of user code throws, " + modes[mode] + "]";
                guarded([&] { r.emplace(); });
                inj.start(k, persistent);
                bool ok = add_from(0) && scan();
                bool failed = inj.failed;
                bool dr = drawing;
                std::size_t where_at = at;
                inj.start(~0ull, false);
                ++counters["faults"];
                if(ok) {
                    violation("swallowed", where(), failed ? "the exception did not arrive" : "fewer calls than in the clean run");
                    done();
                    continue;
                }
                ++counters[dr ? "in_executing" : "in_adding"];
                ++counters[dr ? "by_drawing" : "by_ranges"];
                switch(mode) {
                case 0: break;
                case 1:
                    r->clear();
                    if(add_from(0) && scan()) same("after-reset", want, "after clear()");
                    break;
                case 2:
                    if(dr && scan()) same("after-execute", want, "drawing again");
                    break;
                case 3:
                    if(dr && add_from(0) && scan()) same("after-execute", want, "after a failed drawing");
                    break;
                case 4:
                    if(!dr && add_from(where_at) && scan()) same("after-add", want, "after a failed addition that was repeated");
                    break;
                case 5:
                    if(!dr && add_from(where_at + 1) && scan()) same("after-add", without[where_at], "after a failed addition that was left out");
                    break;
                }
                done();
            }
    cc = nullptr;
}

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = where;
    static Mem d;
    Mem::dflt = &d;
    std::pmr::set_default_resource(&d);
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    std::string mode = a.at(0), fam = a.at(2);
    inj.kinds = a.at(1);
    i64 S = std::stoll(a.at(3));
    magnitude = double(S) * 0.4;
    arc = int(S);
    u64 every = a.size() > 4 ? std::stoull(a[4]) : 1; // only one member in this many
    my_shard = std::exchange(opt.shard, 0);
    my_shards = std::exchange(opt.nshards, 1);
    bool ok = family(fam, S, [&](Case &c) {
        if(every > 1) {
            u64 h = 1469598103934665603ull;
            for(unsigned char ch : vp::str(c)) h = (h ^ ch) * 1099511628211ull;
            if((h >> 20) % every) return;
        }
        if(counters["scenarios"] % 101 == 0) sample(fam + ": " + vp::str(c));
        if(mode == "clip") clip_case(c, false);
        else if(mode == "offset") clip_case(c, true);
        else if(mode == "raster") raster_case(c);
        else { std::fprintf(stderr, "unknown mode\n"); std::exit(4); }
    });
    if(!ok) { std::fprintf(stderr, "unknown family %s\n", fam.c_str()); std::exit(4); }
    counters["points_again"] = again;
    finish();
}
