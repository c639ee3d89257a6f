// C19: every failing allocation of every scenario.
// --part clip:FAMILY:SCALE    adding loops (as ranges, point by point, ranges of
//                             ranges) and executing, member and free functions
//        offset:FAMILY:SCALE  the same with offsets of the loops
//        raster:FAMILY:SCALE  the rasterizer
//        ...:N               only every Nth member (chosen by its text)
// Allocations are counted wherever they come from (the supplied memory resource,
// the default one, operator new) from the construction of the objects to the end
// of the operation; for every number one run fails that allocation alone and one
// fails it and all later ones. After each failure every way of carrying on is tried.

// The pool resources of libstdc++ do not survive failures of the resource they
// draw from (their constructors are noexcept, and a failing chunk list leaves a
// dangling pool), so every scenario runs on a pool that hands each request on.
#include <memory_resource>
#include <map>
namespace vp { void quiet(bool); bool is_quiet(); }
namespace std::pmr {
struct vp_pool : memory_resource {
    struct Quiet {
        bool was = ::vp::is_quiet();
        Quiet() { ::vp::quiet(true); }
        ~Quiet() { ::vp::quiet(was); }
    };
    memory_resource *up;
    std::map<void *, std::pair<size_t, size_t>> live;
    explicit vp_pool(memory_resource *u = get_default_resource()) : up(u) {}
    explicit vp_pool(const pool_options &, memory_resource *u = get_default_resource()) : up(u) {}
    vp_pool(const vp_pool &) = delete;
    vp_pool &operator=(const vp_pool &) = delete;
    ~vp_pool() { release(); }
    void release() {
        Quiet q;
        for(auto &[p, l] : live) up->deallocate(p, l.first, l.second);
        live.clear();
    }
    memory_resource *upstream_resource() const { return up; }
    pool_options options() const { return {}; }
    void *do_allocate(size_t n, size_t a) override {
        void *p = up->allocate(n, a);
        Quiet q;
        live[p] = {n, a};
        return p;
    }
    void do_deallocate(void *p, size_t n, size_t a) override {
        up->deallocate(p, n, a);
        Quiet q;
        live.erase(p);
    }
    bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
}
#define unsynchronized_pool_resource vp_pool
#define synchronized_pool_resource vp_pool
#include "flips.hpp"
#include "families.hpp"
#include "arena.hpp"
#include "tree.hpp"
#include "poly_ops/offset.hpp"
#include "poly_ops/polydraw.hpp"
#include <list>
#include <optional>
#include <sstream>
using namespace vp;

// ---------------------------------------------------------- the fault injector
struct Injector {
    bool armed = false, persistent = false, failed = false, inside = false;
    u64 count = 0, at = ~0ull;
    i64 live = 0; // blocks from operator new that the library holds
    bool tick() {
        if(!armed || inside) return false;
        u64 i = count++;
        if(i == at || (persistent && i > at)) return failed = true;
        return false;
    }
    void start(u64 k, bool p) { count = 0; at = k; persistent = p; failed = false; }
};
static Injector inj;
void vp::quiet(bool q) { inj.inside = q; }
bool vp::is_quiet() { return inj.inside; }
struct Arm {
    Arm() { inj.armed = true; }
    ~Arm() { inj.armed = false; }
};
static constexpr std::size_t H = 16;
void *operator new(std::size_t n) {
    if(inj.tick()) throw std::bad_alloc();
    char *p = static_cast<char *>(std::malloc(n + H));
    if(!p) throw std::bad_alloc();
    *p = inj.armed && !inj.inside;
    inj.live += *p;
    return p + H;
}
void *operator new(std::size_t n, const std::nothrow_t &) noexcept {
    try {
        return operator new(n);
    } catch(...) {
        return nullptr;
    }
}
void operator delete(void *q) noexcept {
    if(!q) return;
    char *p = static_cast<char *>(q) - H;
    inj.live -= *p;
    std::free(p);
}
void operator delete(void *q, std::size_t) noexcept { operator delete(q); }
void operator delete(void *q, const std::nothrow_t &) noexcept { operator delete(q); }
struct FaultMem final : std::pmr::memory_resource {
    Arena arena;
    void *do_allocate(std::size_t n, std::size_t a) override {
        if(inj.tick()) throw std::bad_alloc();
        struct In {
            bool was = inj.inside;
            In() { inj.inside = true; }
            ~In() { inj.inside = was; }
        } in;
        return arena.do_allocate(n, a);
    }
    void do_deallocate(void *p, std::size_t n, std::size_t a) override { arena.do_deallocate(p, n, a); }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};
static FaultMem *def;
static void pin() {
    flips.bound = 0;
    flips.choice.clear();
    flips.start();
}

// ----------------------------------------------------------------- reporting
static const Case *cc;
static std::string scen, how;
static std::string where() { return (cc ? vp::str(*cc) : std::string("?")) + " " + scen + " " + how; }
static std::string show(const std::vector<Tree> &t) {
    std::vector<FlatNode> f;
    flatten(t, -1, 0, f);
    return dump(f);
}
struct Result {
    std::vector<Tree> t;
    std::vector<std::vector<std::size_t>> from; // origins of the points, in order
    std::size_t next = 0;
    bool operator==(const Result &) const = default;
    std::string text() const {
        std::string s = show(t) + " next index " + std::to_string(next);
        if(from.size()) s += " origins";
        for(auto &v : from) {
            s += " {";
            for(auto i : v) s += std::to_string(i) + " ";
            s += "}";
        }
        return s;
    }
};
template<typename Q> static Pt point(const Q &q, Result &res) {
    if constexpr(requires { q.original_points; }) {
        res.from.emplace_back(q.original_points.begin(), q.original_points.end());
        return {i64(q.p.x()), i64(q.p.y())};
    } else return {i64(q.x()), i64(q.y())};
}
template<bool TreeOut, typename R> static void read_all(R &&out, std::vector<Tree> &r, Result &res) {
    for(auto &&loop : out) {
        Tree t;
        for(auto &&q : loop) t.loop.push_back(point(q, res));
        if constexpr(TreeOut) read_all<true>(loop.inner_loops(), t.kids, res);
        r.push_back(std::move(t));
    }
}

// ------------------------------------------------------------------ scenarios
using Pts = std::vector<poly_ops::point_t<int>>;
struct Step {
    enum Kind { range, sink, ranges, closed, open } kind;
    int set;
    Pts pts;
};
static const char *kinds[] = {"range", "sink", "range of ranges", "closed offset", "open offset"};
struct Script {
    std::vector<Step> steps;
    bool tree, tracked;
    int op;
    std::vector<std::vector<Pts>> wrapped; // for ranges of ranges
};
static u64 again; // points added again after a failure
static double magnitude;
static int arc;

template<bool Tracked> struct Machine {
    using Tracker = std::conditional_t<Tracked, poly_ops::origin_point_tracker<std::size_t>, poly_ops::null_tracker<int>>;
    std::optional<poly_ops::tclipper<int, std::size_t, Tracker>> n;
    bool retry = false; // a point that could not be added is added again
    void make(FaultMem &mem) {
        if constexpr(Tracked) n.emplace(Tracker(&mem), &mem);
        else n.emplace(&mem);
    }
    void add(const Script &s, std::size_t i) {
        auto &st = s.steps[i];
        auto set = poly_ops::bool_set(st.set);
        switch(st.kind) {
        case Step::range: n->add_loops(st.pts, set); break;
        case Step::ranges: n->add_loops(s.wrapped[i], set); break;
        case Step::sink: {
            auto k = n->add_loop(set);
            for(auto &p : st.pts) {
                if(!retry) k(p);
                else try {
                    k(p);
                } catch(const std::bad_alloc &) {
                    inj.start(~0ull, false);
                    inj.failed = true;
                    ++again;
                    k(p);
                }
            }
            break;
        }
        case Step::closed: poly_ops::add_offset(*n, st.pts, set, magnitude, arc, true); break;
        case Step::open: poly_ops::add_offset(*n, st.pts, set, magnitude, arc, false); break;
        }
    }
};

// one attempt, cut short by the failure
enum class Phase { none, make, add, execute };
template<bool Tracked, bool TreeOut> struct Run {
    FaultMem mem;
    std::optional<Machine<Tracked>> m;
    Phase phase = Phase::none;
    std::size_t at = 0; // the step that failed
    Result res;
    bool retry = false;

    // calls f with faults on; false if it threw
    template<typename F> bool guarded(F &&f) {
        try {
            Arm a;
            f();
            return true;
        } catch(const std::bad_alloc &) {
            if(!inj.failed) violation("exception", where(), "std::bad_alloc without a failure");
        } catch(const std::exception &e) {
            violation("exception", where(), std::string("a failed allocation is reported as ") + e.what());
        } catch(...) {
            violation("exception", where(), "a failed allocation is reported as an exception of unknown type");
        }
        return false;
    }
    bool make() {
        m.emplace();
        m->retry = retry;
        if(guarded([&] { m->make(mem); })) return true;
        phase = Phase::make;
        return false;
    }
    bool add_from(const Script &s, std::size_t i) {
        for(; i < s.steps.size(); ++i)
            if(!guarded([&] { m->add(s, i); })) {
                phase = Phase::add;
                at = i;
                return false;
            }
        return true;
    }
    bool execute(const Script &s) {
        pin();
        if(!guarded([&] {
            res = {};
            auto out = m->n->template execute<TreeOut>(poly_ops::bool_op(s.op));
            inj.armed = false;
            read_all<TreeOut>(out, res.t, res);
            res.next = m->n->base.next_orig_i();
        })) {
            phase = Phase::execute;
            return false;
        }
        return true;
    }
    bool all(const Script &s) { return make() && add_from(s, 0) && execute(s); }
    // everything must have been returned
    void destroy(i64 live0) {
        m.reset();
        mem.arena.check_all();
        def->arena.check_all();
        if(!mem.arena.error.empty()) violation("memory", where(), mem.arena.error);
        if(!def->arena.error.empty()) violation("memory", where(), def->arena.error);
        mem.arena.error.clear();
        def->arena.error.clear();
        if(mem.arena.live.size()) violation("leak", where(), std::to_string(mem.arena.live.size()) + " blocks of the supplied memory resource were not returned");
        if(def->arena.live.size()) {
            violation("leak", where(), std::to_string(def->arena.live.size()) + " blocks of the default memory resource were not returned");
            def->arena.live.clear();
        }
        if(inj.live != live0) {
            violation("leak", where(), std::to_string(inj.live - live0) + " blocks from operator new were not returned");
            inj.live = live0;
        }
    }
};

static void compare(const char *key, const Result &want, const Result &got, const char *what) {
    ++counters["evals"];
    if(!(want == got)) violation(key, where(), std::string(what) + ": expected" + want.text() + "\ngot" + got.text());
}

template<bool Tracked, bool TreeOut> static void scenario(const Script &s) {
    using R = Run<Tracked, TreeOut>;
    i64 live0 = inj.live;
    auto fresh = [&](const Script &t) {
        R r;
        inj.start(~0ull, false);
        r.all(t);
        Result x = r.res;
        r.destroy(live0);
        return x;
    };
    how = "clean run";
    const Result want = fresh(s);
    const u64 n = inj.count;
    maxima["allocations"] = std::max<u64>(maxima["allocations"], n);
    ++counters["scenarios"];
    std::vector<Result> without; // the results without one loop
    if(!Tracked)
        for(std::size_t i = 0; i < s.steps.size(); ++i) {
            Script t = s;
            t.steps.erase(t.steps.begin() + long(i));
            t.wrapped.erase(t.wrapped.begin() + long(i));
            how = "clean run without loop " + std::to_string(i);
            without.push_back(fresh(t));
        }
    live0 = inj.live;
    const char *modes[] = {"then destroyed", "then reset and repeated", "then added again and executed", "then the loop is added again", "then without the loop", "then executed and repeated", "where it happens the point is added again"};
    for(u64 k = 0; k < n; ++k)
        for(int persistent = 0; persistent < 2; ++persistent) {
            bool more = true;
            for(int mode = 0; mode < (Tracked ? 6 : 7) && more; ++mode) {
                step();
                how = "[allocation " + std::to_string(k) + " of " + std::to_string(n) + (persistent ? " and all later ones" : "") + " fails, " + modes[mode] + "]";
                R r;
                r.retry = mode == 6;
                inj.start(k, persistent);
                bool ok = r.all(s);
                bool failed = inj.failed;
                inj.start(~0ull, false); // no more failures
                ++counters["faults"];
                if(ok) {
                    // not reported: then it must not matter
                    if(failed || mode == 6) {
                        if(mode == 6) r.res.next = want.next;
                        ++counters["absorbed"];
                        compare("swallowed", want, r.res, "the failure was not reported and the result differs");
                    } else violation("count", where(), "the run made fewer allocations than the one before it");
                    r.destroy(live0);
                    if(mode != 6) more = false;
                    continue;
                }
                ++counters[r.phase == Phase::make ? "in_construction" : r.phase == Phase::add ? "in_adding" : "in_executing"];
                switch(mode) {
                case 0: break;
                case 1:
                    if(r.phase == Phase::make) r.make();
                    else r.m->n->reset();
                    if(r.add_from(s, 0) && r.execute(s)) compare("after-reset", want, r.res, "after reset()");
                    break;
                case 2:
                    if(r.phase != Phase::execute) break;
                    if(r.add_from(s, 0) && r.execute(s)) compare("after-execute", want, r.res, "after a failed execution");
                    break;
                case 3:
                    // a failed addition adds nothing (but may use up numbers)
                    if(r.phase != Phase::add || Tracked || s.steps[r.at].kind == Step::ranges) break;
                    if(r.add_from(s, r.at) && r.execute(s)) {
                        r.res.next = want.next;
                        compare("after-add", want, r.res, "after a failed addition that was repeated");
                    }
                    break;
                case 4:
                    if(r.phase != Phase::add || Tracked || s.steps[r.at].kind == Step::ranges) break;
                    if(r.add_from(s, r.at + 1) && r.execute(s)) {
                        r.res.next = without[r.at].next;
                        compare("after-add", without[r.at], r.res, "after a failed addition that was left out");
                    }
                    break;
                case 5:
                    if(r.phase == Phase::make || Tracked) break;
                    // whatever this gives, the operation after it is right
                    r.execute(s);
                    if(r.add_from(s, 0) && r.execute(s)) compare("after-second", want, r.res, "after another execution");
                    break;
                }
                r.destroy(live0);
            }
        }
    if(want.t.size()) ++counters["nontrivial"];
}

// free functions: the objects exist only during the call
template<typename F> static void free_function(const char *name, F &&f) {
    scen = name;
    i64 live0 = inj.live;
    auto attempt = [&](Result &res, bool &threw) {
        threw = false;
        FaultMem mem;
        pin();
        try {
            Arm a;
            f(&mem, res);
        } catch(const std::bad_alloc &) {
            threw = true;
        } catch(...) {
            threw = true;
            violation("exception", where(), "a failed allocation is reported as another exception");
        }
        mem.arena.check_all();
        if(!mem.arena.error.empty() || !def->arena.error.empty()) violation("memory", where(), mem.arena.error + def->arena.error);
        def->arena.error.clear();
        if(mem.arena.live.size() + def->arena.live.size() || inj.live != live0) violation("leak", where(), "not all memory was returned");
        def->arena.live.clear();
        inj.live = live0;
    };
    Result want, got;
    bool threw;
    how = "clean run";
    inj.start(~0ull, false);
    attempt(want, threw);
    u64 n = inj.count;
    ++counters["scenarios"];
    if(want.t.size()) ++counters["nontrivial"];
    for(u64 k = 0; k < n; ++k)
        for(int persistent = 0; persistent < 2; ++persistent) {
            step();
            how = "[allocation " + std::to_string(k) + (persistent ? " and all later ones" : "") + " fails]";
            got = {};
            inj.start(k, persistent);
            attempt(got, threw);
            ++counters["faults"];
            ++counters["in_free_functions"];
            if(!threw) compare("swallowed", want, got, "the failure was not reported and the result differs");
            got = {};
            inj.start(~0ull, false);
            attempt(got, threw);
            compare("next-call", want, got, "the next call");
        }
}

// owned results: reading and moving them must not depend on the failed object
template<bool TreeOut, typename R> static void take(R &&out, Result &res) {
    auto moved = std::move(out);
    inj.armed = false;
    read_all<TreeOut>(moved, res.t, res);
}

static std::vector<Pts> of_set(const Case &c, int set) {
    std::vector<Pts> r;
    for(auto &l : c.loops)
        if(l.set == set) r.push_back(to_loop<int>(l.pts));
    return r;
}

static void clip_case(Case &c, int form) {
    for(int op = 0; op < 5; ++op) {
        c.op = op;
        cc = &c;
        for(int tree = 0; tree < 2; ++tree)
            for(int tracked = 0; tracked < 2; ++tracked) {
                Script s{{}, tree == 1, tracked == 1, op, {}};
                std::size_t i = std::size_t(op + tree);
                for(auto &l : c.loops) {
                    auto kind = form ? (i++ % 2 ? Step::closed : Step::open) : Step::Kind(i++ % 3);
                    s.steps.push_back({kind, l.set, to_loop<int>(l.pts)});
                    s.wrapped.push_back({to_loop<int>(l.pts), to_loop<int>(l.pts)});
                    s.wrapped.back()[1].pop_back();
                }
                scen = std::string(tree ? "tree" : "flat") + (tracked ? " tracked" : "");
                for(auto &t : s.steps) scen += std::string("/") + kinds[t.kind];
                if(tree) tracked ? scenario<true, true>(s) : scenario<false, true>(s);
                else tracked ? scenario<true, false>(s) : scenario<false, false>(s);
            }
        if(form) continue;
        auto o = poly_ops::bool_op(op);
        auto subj = of_set(c, 0), clip = of_set(c, 1);
        free_function("boolean_op", [&](std::pmr::memory_resource *mem, Result &res) { take<false>(poly_ops::boolean_op<false, int>(subj, clip, o, mem), res); });
        free_function("boolean_op tree tracked", [&](std::pmr::memory_resource *mem, Result &res) {
            take<true>(poly_ops::boolean_op<true, int>(subj, clip, o, poly_ops::origin_point_tracker<std::size_t>(mem), mem), res);
        });
        if(clip.empty() && op == 0) free_function("union_op", [&](std::pmr::memory_resource *mem, Result &res) { take<false>(poly_ops::union_op<false, int>(subj, mem), res); });
        if(clip.empty() && op == 4) free_function("normalize_op", [&](std::pmr::memory_resource *mem, Result &res) { take<true>(poly_ops::normalize_op<true, int>(subj, mem), res); });
    }
    if(form) {
        std::vector<Pts> all = of_set(c, 0);
        free_function("offset", [&](std::pmr::memory_resource *mem, Result &res) { take<false>(poly_ops::offset<false>(all, magnitude, arc, true, mem), res); });
        free_function("offset open tree tracked", [&](std::pmr::memory_resource *mem, Result &res) {
            take<true>(poly_ops::offset<true>(all, magnitude, arc, poly_ops::origin_point_tracker<std::size_t>(mem), false, mem), res);
        });
    }
    cc = nullptr;
}

// ------------------------------------------------------------------ rasterizer
struct Span {
    long x1, x2, y, w;
    bool operator==(const Span &) const = default;
};
static void raster_case(Case &c) {
    namespace draw = poly_ops::draw;
    cc = &c;
    scen = "raster";
    i64 live0 = inj.live;
    std::vector<Pts> loops;
    for(auto &l : c.loops) loops.push_back(to_loop<int>(l.pts));
    std::optional<draw::rasterizer<int>> r;
    std::vector<Span> got;
    got.reserve(10000);
    std::size_t at = 0;
    auto guarded = [&](auto &&f) {
        try {
            Arm a;
            f();
            return true;
        } catch(const std::bad_alloc &) {
        } catch(...) {
            violation("exception", where(), "a failed allocation is reported as another exception");
        }
        return false;
    };
    auto add_one = [&](std::size_t i) {
        return guarded([&] {
            if(i % 2) {
                auto s = r->add_loop();
                for(auto &p : loops[i]) s(p);
            } else r->add_loops(loops[i]);
        });
    };
    auto add_from = [&](std::size_t i, std::size_t skip = ~std::size_t(0)) {
        for(at = i; at < loops.size(); ++at)
            if(at != skip && !add_one(at)) return false;
        return true;
    };
    auto scan = [&] {
        got.clear();
        return guarded([&] {
            auto st = r->scan_lines(12, 12);
            draw::scan_line sc;
            while(got.size() < 10000 && st(*r, sc)) got.push_back({long(sc.x1), long(sc.x2), long(sc.y), sc.winding});
        });
    };
    int phase = 0;
    auto all = [&] {
        phase = 1;
        if(!guarded([&] { r.emplace(); })) return false;
        phase = 2;
        if(!add_from(0)) return false;
        phase = 3;
        return scan();
    };
    auto done = [&] {
        r.reset();
        if(def->arena.live.size() || inj.live != live0) violation("leak", where(), "not all memory was returned");
        def->arena.live.clear();
        inj.live = live0;
    };
    auto clean = [&](std::size_t skip = ~std::size_t(0)) {
        inj.start(~0ull, false);
        guarded([&] { r.emplace(); });
        add_from(0, skip);
        scan();
        std::vector<Span> v = got;
        return v;
    };
    how = "clean run";
    inj.start(~0ull, false);
    all();
    u64 n = inj.count;
    const std::vector<Span> want = got;
    done();
    std::vector<std::vector<Span>> without;
    for(std::size_t i = 0; i < loops.size(); ++i) {
        without.push_back(clean(i));
        r.reset();
        inj.live = live0;
    }
    live0 = inj.live;
    ++counters["scenarios"];
    if(want.size()) ++counters["nontrivial"];
    auto same = [&](const char *key, const std::vector<Span> &w, const char *what) {
        ++counters["evals"];
        if(w != got) violation(key, where(), std::string(what) + ": the spans differ from those of a new object");
    };
    const char *modes[] = {"then destroyed", "then cleared and repeated", "then scanned again", "then added again and scanned", "then the loop is added again", "then without the loop"};
    for(u64 k = 0; k < n; ++k)
        for(int persistent = 0; persistent < 2; ++persistent) {
            for(int mode = 0; mode < 6; ++mode) {
                step();
                how = "[allocation " + std::to_string(k) + " of " + std::to_string(n) + (persistent ? " and all later ones" : "") + " fails, " + modes[mode] + "]";
                inj.start(k, persistent);
                bool ok = all();
                bool failed = inj.failed;
                int ph = phase;
                std::size_t where_at = at;
                inj.start(~0ull, false);
                ++counters["faults"];
                if(ok) {
                    if(failed) same("swallowed", want, "the failure was not reported");
                    done();
                    continue;
                }
                ++counters[ph == 1 ? "in_construction" : ph == 2 ? "in_adding" : "in_executing"];
                switch(mode) {
                case 0: break;
                case 1:
                    if(ph == 1) { Arm a; r.emplace(); }
                    else r->clear();
                    if(add_from(0) && scan()) same("after-reset", want, "after clear()");
                    break;
                case 2:
                    if(ph != 3) break;
                    if(scan()) same("after-execute", want, "scanning again");
                    break;
                case 3:
                    if(ph != 3) break;
                    if(add_from(0) && scan()) same("after-execute", want, "after a failed scan");
                    break;
                case 4:
                    if(ph != 2) break;
                    if(add_from(where_at) && scan()) same("after-add", want, "after a failed addition that was repeated");
                    break;
                case 5:
                    if(ph != 2) break;
                    if(add_from(where_at + 1) && scan()) same("after-add", without[where_at], "after a failed addition that was left out");
                    break;
                }
                done();
            }
        }
    cc = nullptr;
}

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = where;
    static FaultMem d;
    def = &d;
    std::pmr::set_default_resource(def);
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    std::string mode = a.at(0), fam = a.at(1);
    i64 S = std::stoll(a.at(2));
    magnitude = double(S) * 0.4;
    arc = int(S);
    u64 every = a.size() > 3 ? std::stoull(a[3]) : 1; // only one member in this many
    bool ok = family(fam, S, [&](Case &c) {
        if(every > 1) {
            u64 h = 1469598103934665603ull;
            for(unsigned char ch : vp::str(c)) h = (h ^ ch) * 1099511628211ull;
            if((h >> 20) % every) return;
        }
        if(counters["scenarios"] % 101 == 0) sample(fam + ": " + vp::str(c));
        if(mode == "clip") clip_case(c, 0);
        else if(mode == "offset") clip_case(c, 1);
        else if(mode == "raster") raster_case(c);
        else { std::fprintf(stderr, "unknown mode\n"); std::exit(4); }
    });
    if(!ok) { std::fprintf(stderr, "unknown family %s\n", fam.c_str()); std::exit(4); }
    counters["points_again"] = again;
    finish();
}
