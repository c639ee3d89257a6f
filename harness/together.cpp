// C24: operations on different objects do not affect each other.
// --part steps:OBJECTS     every interleaving of the steps of two objects (or of thirds of
//                          those of three), in one thread
//        shared:OBJECTS    the same, with one pool of memory under all of them
//        nested:DEPTH      one operation run whole inside another, at every point where
//                          the library calls code of its user (tracker callbacks, ranges
//                          being read, memory resources, coordinate arithmetic)
//        threads:BOUND     two threads that change places at those points: every schedule
//                          with up to BOUND preemptions
// Every outcome is compared with that of the same operation alone in a new process.
#define VP_NO_FLIPS
#include "vp.hpp"
#include <atomic>
#include <forward_list>
#include <memory>
#include <memory_resource>
#include <optional>
#include <sys/wait.h>
#include <sched.h>
#include <thread>
using namespace vp;

// ------------------------------------------------------------ points of control
struct Ctl {
    virtual void point() = 0;
};
static thread_local Ctl *ctl = nullptr;
static void pt() {
    if(ctl) ctl->point();
}

// points in coordinate arithmetic are left out of the schedules with two preemptions
static bool fine = true;
#ifdef VP_FUNCTIONS
// a point at the start and end of every function of the library (compiled with
// -finstrument-functions)
extern "C" {
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void *, void *) { if(ctl) ctl->point(); }
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void *, void *) { if(ctl) ctl->point(); }
}
#endif
static void apt() {
    if(fine) pt();
}
// arithmetic of coordinates, as the library's own but with a point in each operation
#include "poly_ops/base.hpp"
template<> struct poly_ops::coord_ops<std::int32_t> {
    using Coord = std::int32_t;
    using long_t = std::int64_t;
    using real_t = double;
    static long_t mul(Coord a, Coord b) { apt(); return long_t(a) * b; }
    static real_t acos(Coord x) { return std::acos(double(x)); }
    static real_t acos(real_t x) { apt(); return std::acos(x); }
    static real_t cos(real_t x) { return std::cos(x); }
    static real_t sin(real_t x) { apt(); return std::sin(x); }
    static real_t sqrt(Coord x) { return std::sqrt(double(x)); }
    static real_t sqrt(real_t x) { apt(); return std::sqrt(x); }
    static Coord round(real_t x) { apt(); return Coord(std::lround(x)); }
    static Coord ceil(real_t x) { apt(); return Coord(std::ceil(x)); }
    static Coord floor(real_t x) { apt(); return Coord(std::floor(x)); }
    static Coord to_coord(real_t x) { apt(); return Coord(x); }
    static real_t pi() { return std::numbers::pi; }
};
#include "poly_ops/poly_ops.hpp"
#include "poly_ops/offset.hpp"
#include "poly_ops/polydraw.hpp"

using Coord = std::int32_t;
using P = poly_ops::point_t<Coord>;
using LoopV = std::vector<P>;

struct Mem final : std::pmr::memory_resource {
    inline static thread_local std::pmr::memory_resource *common = nullptr;
    std::pmr::memory_resource *up = common ? common : std::pmr::new_delete_resource();
    void *do_allocate(std::size_t n, std::size_t a) override {
        pt();
        return up->allocate(n, a);
    }
    void do_deallocate(void *p, std::size_t n, std::size_t a) override {
        pt();
        up->deallocate(p, n, a);
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};
// a range of points that is read with a point of control for each
template<typename Cat> struct Watched {
    const LoopV *v;
    struct it {
        using value_type = P;
        using difference_type = std::ptrdiff_t;
        using iterator_concept = Cat;
        using iterator_category = Cat;
        using reference = P;
        using pointer = const P *;
        const P *p = nullptr;
        P operator*() const { pt(); return *p; }
        it &operator++() { ++p; return *this; }
        it operator++(int) { auto r = *this; ++p; return r; }
        it &operator--() { --p; return *this; }
        it operator--(int) { auto r = *this; --p; return r; }
        bool operator==(const it &) const = default;
    };
    it begin() const { return {v->data()}; }
    it end() const { return {v->data() + v->size()}; }
};
struct Log final : poly_ops::i_point_tracker<std::size_t> {
    std::string *out;
    explicit Log(std::string *o) : out(o) {}
    void ev(char k, std::size_t a, std::size_t b) {
        pt();
        *out += k + std::to_string(a) + "," + std::to_string(b) + " ";
    }
    void point_added(std::size_t o) override { ev('a', o, 0); }
    void new_point_between(std::size_t a, std::size_t b) override { ev('n', a, b); }
    void point_merge(std::size_t a, std::size_t b) override { ev('m', a, b); }
    void reset() override { ev('r', 0, 0); }
    Log *callbacks() { return this; }
    template<typename C> std::pair<std::size_t, poly_ops::point_t<C>> get_value(std::size_t i, const poly_ops::point_t<C> &p) const {
        pt();
        return {i, p};
    }
};

// ------------------------------------------------------------ what is operated on
// shapes whose crossings depend on the rounding choices
#ifdef VP_FUNCTIONS
constexpr int ARC = 2500, CANVAS = 10, DIV = 10007;
#else
constexpr int ARC = 700, CANVAS = 30, DIV = 3001;
#endif
static LoopV shape(int variant, int k) {
    static const i64 t[2][4][8] = {
        {{-375, 120, 99731, 40211, 20017, 99413, 3001, 50021}, {5003, 70001, 60013, -3011, 90007, 61007, 30011, 80021}, {11, 13, 70001, 33, 40009, 60013, 40009, 60013}, {0, 0, 50021, 50017, 91003, 7, 91003, 7}},
        {{1201, -333, 80021, 10007, 95003, 88007, -991, 61001}, {40013, -7001, 97001, 55001, 50021, 101009, 7001, 30013}, {-5, 90001, 3001, -17, 88003, 30011, 88003, 30011}, {100, 7, 40009, 80021, 9, 93001, 9, 93001}}};
    LoopV r;
#ifdef VP_FUNCTIONS
    constexpr int N = 3; // each function call is a point, so operations are kept small
#else
    constexpr int N = 4;
#endif
    for(int i = 0; i < N; ++i) {
        P q{Coord(t[variant][k][2 * i]), Coord(t[variant][k][2 * i + 1])};
        if(r.empty() || r.back() != q) r.push_back(q);
    }
    return r;
}
template<typename C> static std::string txt(const poly_ops::point_t<C> &p) { return "(" + std::to_string(p.x()) + "," + std::to_string(p.y()) + ")"; }
static std::string txt(const std::pair<std::size_t, P> &v) { return std::to_string(v.first) + txt(v.second); }
template<typename C> static std::string txt(const poly_ops::point_and_origin<C, std::size_t> &v) {
    std::string s = txt(v.p) + "<";
    for(auto o : v.original_points) s += std::to_string(o) + ",";
    return s;
}
template<typename R> static void read(R &&r, std::string &o, std::size_t from = 0, std::size_t to = std::size_t(-1)) {
    std::size_t i = 0;
    for(auto &&l : r) {
        if(i >= from && i < to) {
            o += "[";
            for(auto &&q : l) {
                pt();
                o += txt(q);
            }
            o += "]";
            if constexpr(requires { l.inner_loops(); }) {
                o += "{";
                read(l.inner_loops(), o);
                o += "}";
            }
        }
        ++i;
    }
}

struct Actor {
    std::string out;
    virtual ~Actor() = default;
    virtual int steps() const = 0;
    virtual void step(int i) = 0;
    void all() { for(int i = 0; i < steps(); ++i) step(i); }
};
template<typename N, typename Op> using FlatOf = decltype(std::declval<N &>().template execute<false>(std::declval<Op>()));
template<typename N, typename Op> using TreeOf = decltype(std::declval<N &>().template execute<true>(std::declval<Op>()));

// one clipper, points by a sink, two results one after the other
struct Union final : Actor {
    using N = poly_ops::clipper<Coord>;
    struct Open {
        N::point_sink s;
        explicit Open(N &n) : s(n.add_loop(poly_ops::bool_set::clip)) {}
    };
    int v;
    bool two;
    Mem mem;
    std::optional<N> n;
    std::optional<Open> sink;
    std::optional<FlatOf<N, poly_ops::bool_op>> res;
    explicit Union(int v, bool two) : v(v), two(two) {}
    int steps() const override { return two ? 7 : 6; }
    void step(int i) override {
        LoopV a = shape(v, 0), b = shape(v, 1);
        switch(i) {
        case 0: n.emplace(&mem); n->add_loops(Watched<std::forward_iterator_tag>{&a}, poly_ops::bool_set::subject); break;
        case 1: sink.emplace(*n); for(std::size_t k = 0; k < 2; ++k) sink->s(b[k]); break;
        case 2: for(std::size_t k = 2; k < b.size(); ++k) sink->s(b[k]); sink.reset(); break;
        case 3: res.emplace(n->execute<false>(poly_ops::bool_op::union_)); break;
        case 4: read(*res, out, 0, 1); break;
        case 5:
            if(two) {
                read(*res, out, 1);
                n->add_loops_subject(b);
                n->add_loops_clip(a);
                res.reset();
                res.emplace(n->execute<false>(poly_ops::bool_op::xor_));
                break;
            }
            [[fallthrough]];
        case 6: read(*res, out, two ? 0 : 1); res.reset(); n.reset(); break;
        }
    }
};
// a tracked clipper with a hierarchical result
struct Tracked final : Actor {
    using N = poly_ops::tclipper<Coord, std::size_t, Log &>;
    int v;
    Mem mem;
    Log log{&out};
    std::optional<N> n;
    std::optional<TreeOf<N, poly_ops::bool_op>> res;
    explicit Tracked(int v) : v(v) {}
    int steps() const override { return 5; }
    void step(int i) override {
        std::vector<LoopV> a{shape(v, 0), shape(v, 2)};
        LoopV b = shape(v, 1);
        switch(i) {
        case 0: n.emplace(log, &mem); n->add_loops_subject(a[0]); break;
        case 1: n->add_loops_clip(Watched<std::bidirectional_iterator_tag>{&b}); break;
        case 2: res.emplace(n->execute<true>(poly_ops::bool_op::xor_)); break;
        case 3: read(*res, out); break;
        case 4: res.reset(); n->reset(); n.reset(); break;
        }
    }
};
// offsets, closed and open, with their origins
struct Offset final : Actor {
    using N = poly_ops::origin_tracked_clipper<Coord>;
    int v;
    Mem mem;
    std::optional<N> n;
    std::optional<FlatOf<N, poly_ops::bool_op>> res;
    explicit Offset(int v) : v(v) {}
    int steps() const override { return 5; }
    void step(int i) override {
        LoopV a = shape(v, 0), b = shape(v, 2);
        switch(i) {
        case 0: n.emplace(&mem); poly_ops::add_offset_subject(*n, Watched<std::forward_iterator_tag>{&b}, 900.5, ARC, false); break;
        case 1: poly_ops::add_offset(*n, Watched<std::forward_iterator_tag>{&a}, poly_ops::bool_set::clip, v ? -1200.25 : 1500.75, ARC + 400, true); break;
        case 2: res.emplace(n->execute<false>(poly_ops::bool_op::intersection)); break;
        case 3: read(*res, out); break;
        case 4: res.reset(); n.reset(); break;
        }
    }
};
struct Draw final : Actor {
    int v;
    std::optional<poly_ops::draw::rasterizer<Coord>> n;
    std::optional<poly_ops::draw::scan_line_sweep_state<Coord>> st;
    poly_ops::draw::scan_line sc;
    explicit Draw(int v) : v(v) {}
    LoopV small(int k) const {
        LoopV a = shape(v, k);
        for(auto &q : a) q = P{q.x() / DIV, q.y() / DIV};
        return a;
    }
    void some(int max) {
        while(max-- > 0 && (*st)(*n, sc)) {
            pt();
            out += std::to_string(sc.y) + ":" + std::to_string(sc.x1) + "-" + std::to_string(sc.x2) + "*" + std::to_string(sc.winding) + " ";
        }
    }
    int steps() const override { return 6; }
    void step(int i) override {
        LoopV a = small(0), b = small(1);
        switch(i) {
        case 0: n.emplace(); n->add_loops(Watched<std::forward_iterator_tag>{&a}); break;
        case 1: n->add_loops(b); break;
        case 2: st.emplace(n->scan_lines(CANVAS, CANVAS)); some(4); break;
        case 3: some(1000); break;
        case 4: st.reset(); n->clear(); n->add_loops(b); n->draw(CANVAS, CANVAS, [&](unsigned x1, unsigned x2, unsigned y) { pt(); out += std::to_string(y) + ":" + std::to_string(x1) + "-" + std::to_string(x2) + " "; }); break;
        case 5: n.reset(); break;
        }
    }
};
// free functions in another coordinate type
struct Wide final : Actor {
    using L = std::int64_t;
    int v;
    Mem mem;
    std::optional<decltype(poly_ops::boolean_op<true, L>(std::declval<std::vector<std::vector<poly_ops::point_t<L>>> &>(), std::declval<std::vector<std::vector<poly_ops::point_t<L>>> &>(), poly_ops::bool_op::xor_))> res;
    explicit Wide(int v) : v(v) {}
    std::vector<std::vector<poly_ops::point_t<L>>> w(int k) const {
        std::vector<std::vector<poly_ops::point_t<L>>> r(1);
        for(auto &q : shape(v, k)) r[0].push_back({L(q.x()) * 100003, L(q.y()) * 100003});
        return r;
    }
    int steps() const override { return 4; }
    void step(int i) override {
        auto a = w(0), b = w(1);
        std::pmr::memory_resource *mr = &mem;
        switch(i) {
        case 0: res.emplace(poly_ops::boolean_op<true, L>(a, b, poly_ops::bool_op::difference, mr)); break;
        case 1: read(*res, out); res.reset(); break;
        case 2: {
            auto r = poly_ops::normalize_op<false, L>(a, poly_ops::origin_point_tracker<std::size_t>{mr}, mr);
            read(r, out);
            break;
        }
        case 3: {
            auto r = poly_ops::offset<false, L>(b, 1e7, L(8000000), poly_ops::origin_point_tracker<std::size_t>{}, true, mr);
            read(r, out);
            break;
        }
        }
    }
};
constexpr int KINDS = 6;
static const char *kind_name[KINDS] = {"union", "tracked xor", "offsets", "raster", "free functions", "two operations"};
static std::unique_ptr<Actor> make(int kind, int v) {
    switch(kind) {
    case 0: return std::make_unique<Union>(v, false);
    case 1: return std::make_unique<Tracked>(v);
    case 2: return std::make_unique<Offset>(v);
    case 3: return std::make_unique<Draw>(v);
    case 4: return std::make_unique<Wide>(v);
    default: return std::make_unique<Union>(v, true);
    }
}
static std::string name(int id) { return std::string(kind_name[id / 2]) + " " + char('A' + id % 2); }
static std::unique_ptr<Actor> make(int id) { return make(id / 2, id % 2); }

// alone, in a process of its own; also the number of points of control passed
static std::string alone[KINDS * 2];
static u64 points_of[KINDS * 2];
struct Count final : Ctl {
    u64 n = 0;
    void point() override { ++n; }
};
static void reference(int id) {
    int fd[2];
    if(pipe(fd)) std::abort();
    pid_t c = fork();
    if(!c) {
        close(fd[0]);
        Count k;
        std::string o;
        {
            auto a = make(id);
            ctl = &k;
            a->all();
            ctl = nullptr;
            o = std::to_string(k.n) + " " + a->out;
        }
        for(std::size_t i = 0; i < o.size();) {
            auto w = write(fd[1], o.data() + i, o.size() - i);
            if(w <= 0) _exit(1);
            i += std::size_t(w);
        }
        _exit(0);
    }
    close(fd[1]);
    std::string o;
    char b[4096];
    for(ssize_t r; (r = ::read(fd[0], b, sizeof b)) > 0;) o.append(b, std::size_t(r));
    close(fd[0]);
    int st;
    waitpid(c, &st, 0);
    if(st) { violation("alone", name(id), "the operation alone failed"); return; }
    auto sp = o.find(' ');
    points_of[id] = std::stoull(o.substr(0, sp));
    alone[id] = o.substr(sp + 1);
}
static std::string now;
static void judge(int id, const std::string &o) {
    ++counters["outcomes"];
    if(o != alone[id]) violation("affected", now, name(id) + " gives " + o.substr(0, 700) + " instead of " + alone[id].substr(0, 700));
}

// ------------------------------------------------------------ nested
struct Nest final : Ctl {
    u64 n = 0, at;
    std::function<void()> f;
    void point() override {
        if(n++ != at) return;
        ctl = nullptr;
        f();
        ctl = this;
    }
};
static void nested(int a, int b, u64 at, int c, u64 at2) {
    now = name(b) + " within " + name(a) + " at point " + std::to_string(at);
    if(c >= 0) now += ", and " + name(c) + " within that at point " + std::to_string(at2);
    step();
    auto x = make(a);
    std::string bo, co = c >= 0 ? "" : "-";
    Nest outer;
    outer.at = at;
    outer.f = [&] {
        auto y = make(b);
        Nest inner;
        inner.at = c >= 0 ? at2 : ~u64(0);
        inner.f = [&] {
            auto z = make(c);
            z->all();
            co = z->out;
        };
        ctl = &inner;
        y->all();
        ctl = nullptr;
        bo = y->out;
    };
    ctl = &outer;
    x->all();
    ctl = nullptr;
    ++counters["evals"];
    ++counters["schedules"];
    if(at && at + 1 < points_of[a]) ++counters["nontrivial"];
    counters["points"] += outer.n + points_of[b];
    judge(a, x->out);
    judge(b, bo);
    if(c >= 0) judge(c, co);
}

// ------------------------------------------------------------ threads
struct Turn {
    std::atomic<int> who{-1};
    void give(int t) {
        who.store(t, std::memory_order_release);
        who.notify_all();
    }
    void wait(int me) {
        int w;
        while((w = who.load(std::memory_order_acquire)) != me) who.wait(w, std::memory_order_acquire);
    }
};
static Turn turn;
struct Worker final : Ctl {
    int me = 0;
    u64 n = 0, at = ~u64(0), at2 = ~u64(0); // change places before passing these points
    bool *other_done = nullptr;
    void point() override {
        u64 k = n++;
        if((k != at && k != at2) || *other_done) return;
        turn.give(1 - me);
        turn.wait(me);
    }
};
static struct {
    int id[2];
    u64 at[2], at2[2];
    u64 passed[2];
    bool done[2], stop;
    std::string out[2];
} shared;
// both threads wait for the scheduler (turn 2) between runs
static void work(int me) {
    for(;;) {
        turn.wait(me);
        if(shared.stop) { turn.give(3 + me); return; }
        Worker w;
        w.me = me;
        w.at = shared.at[me];
        w.at2 = shared.at2[me];
        w.other_done = &shared.done[1 - me];
        auto a = make(shared.id[me]);
        ctl = &w;
        a->all();
        ctl = nullptr;
        shared.out[me] = std::move(a->out);
        a.reset();
        shared.passed[me] = w.n;
        shared.done[me] = true;
        turn.give(shared.done[1 - me] ? 2 : 1 - me);
    }
}
// thread "first" starts; it is preempted at its point i, the other one at its point j,
// the first again at its point k
static void threads(int a, int b, int first, u64 i, u64 j, u64 k = ~u64(0)) {
    now = name(a) + " and " + name(b) + " in two threads; the " + (first ? "second" : "first") + " starts, runs to point " + std::to_string(i) + ", then the other to point " + std::to_string(j);
    if(k != ~u64(0)) now += ", then the first to point " + std::to_string(k);
    step();
    shared.id[0] = a;
    shared.id[1] = b;
    shared.done[0] = shared.done[1] = false;
    shared.at[first] = i;
    shared.at[1 - first] = j;
    shared.at2[first] = k;
    shared.at2[1 - first] = ~u64(0);
    turn.give(first);
    turn.wait(2);
    ++counters["evals"];
    ++counters["schedules"];
    u64 n1 = points_of[first ? b : a], n2 = points_of[first ? a : b];
    if(i && i < n1 && j && (j < n2 || j == ~u64(0))) ++counters["nontrivial"];
    counters["points"] += shared.passed[0] + shared.passed[1];
    judge(a, shared.out[0]);
    judge(b, shared.out[1]);
}

// ------------------------------------------------------------ steps
static bool common_memory = false;
static void interleave(const std::vector<int> &ids, Gate &g) {
    std::vector<int> left;
    bool thirds = ids.size() > 2;
    for(int id : ids) left.push_back(thirds ? 3 : make(id)->steps());
    std::vector<int> seq;
    auto run = [&] {
        now = "steps";
        for(int s : seq) now += " " + name(ids[std::size_t(s)]);
        step();
        std::pmr::unsynchronized_pool_resource pool;
        if(common_memory) Mem::common = &pool;
        std::vector<std::unique_ptr<Actor>> as;
        for(int id : ids) as.push_back(make(id));
        std::vector<int> at(ids.size(), 0);
        for(int s : seq) {
            auto &x = *as[std::size_t(s)];
            int &i = at[std::size_t(s)];
            if(!thirds) x.step(i++);
            else {
                for(int k = x.steps() * i / 3; k < x.steps() * (i + 1) / 3; ++k) x.step(k);
                ++i;
            }
        }
        ++counters["evals"];
        ++counters["schedules"];
        counters["points"] += seq.size();
        int changes = 0;
        for(std::size_t i = 1; i < seq.size(); ++i) changes += seq[i] != seq[i - 1];
        if(changes >= int(ids.size())) ++counters["nontrivial"];
        for(std::size_t i = 0; i < ids.size(); ++i) judge(ids[i], as[i]->out);
        if(counters["evals"] % 4999 == 0) sample(now);
        Mem::common = nullptr;
    };
    auto rec = [&](auto &self) -> void {
        bool any = false;
        for(std::size_t i = 0; i < left.size(); ++i) {
            if(!left[i]) continue;
            any = true;
            --left[i];
            seq.push_back(int(i));
            self(self);
            seq.pop_back();
            ++left[i];
            if(truncated) return;
        }
        if(!any && g() && !g.stop()) run();
    };
    rec(rec);
}

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = [] { return now; };
    auto c = opt.part.find(':');
    std::string mode = opt.part.substr(0, c);
    int n = std::stoi(opt.part.substr(c + 1));
    constexpr int ALL = KINDS * 2;
    fine = !(mode == "threads" && n > 1) && !(mode == "nested" && n > 1);
    for(int id = 0; id < ALL; ++id) {
        now = name(id);
        reference(id);
        if(getenv("VP_SHOW")) std::fprintf(stderr, "%s: %lu points\n%s\n", name(id).c_str(), points_of[id], alone[id].c_str());
        maxima["points_of_control"] = std::max(maxima["points_of_control"], points_of[id]);
        if(alone[id].find('(') == std::string::npos && id / 2 != 3) violation("alone", name(id), "the result is empty");
    }
    Gate g;
    common_memory = mode == "shared";
    if(mode == "steps" || mode == "shared") {
        std::vector<int> ids(std::size_t(n), 0);
        auto rec = [&](auto &self, std::size_t k, int from) -> void {
            if(truncated) return;
            if(k == ids.size()) return interleave(ids, g);
            for(int id = from; id < ALL; ++id) {
                ids[k] = id;
                self(self, k + 1, id + (n > 2));
            }
        };
        rec(rec, 0, 0);
    } else if(mode == "nested") {
        for(int a = 0; a < ALL; ++a)
            for(int b = 0; b < ALL; ++b) {
                for(u64 at = 0; at < points_of[a]; ++at) {
                    if(n == 1) {
                        if(g() && !g.stop()) nested(a, b, at, -1, 0);
                    } else if(a % 2 == 0 && b / 2 != 5 && a / 2 != 5) {
                        for(u64 at2 = 0; at2 < points_of[b]; ++at2)
                            if(g() && !g.stop()) nested(a, b, at, (at + at2) % 2 ? a ^ 1 : b ^ 1, at2);
                    }
                    if(truncated) break;
                }
            }
    } else if(mode == "threads") {
        cpu_set_t set;
        CPU_ZERO(&set);
        CPU_SET(unsigned(sched_getcpu()), &set);
        sched_setaffinity(0, sizeof set, &set); // the two take turns on one processor
        std::thread t0(work, 0), t1(work, 1);
        for(int a = 0; a < ALL; ++a)
            for(int b = 0; b < ALL; ++b) {
                // as both are tried as the first to start, one order is enough; the
                // second variant with itself only
                if(b < a) continue;
#ifdef VP_FUNCTIONS
                if(n == 1 && a / 2 != b / 2) continue;
#endif
                for(int first = 0; first < 2; ++first) {
                    u64 n1 = points_of[first ? b : a], n2 = points_of[first ? a : b];
                    // two preemptions for two operations of the same kind (the thorough tier:
                    // for all pairs), three for some of these
                    bool kind = a / 2 == b / 2 && a % 2 == 0 && b % 2 == 1;
                    bool two = n >= 3 || (n == 2 && kind), three = n == 3 && kind && points_of[a] < 150;
                    for(u64 i = 0; i <= n1; ++i) {
                        if(two)
                            for(u64 j = 0; j < n2; ++j) {
                                if(g() && !g.stop()) threads(a, b, first, i, j);
                                if(three)
                                    for(u64 k = i + 1; k < n1; ++k)
                                        if(g() && !g.stop()) threads(a, b, first, i, j, k);
                            }
                        if(g() && !g.stop()) threads(a, b, first, i, ~u64(0));
                        if(truncated) break;
                    }
                }
            }
        shared.stop = true;
        turn.give(0);
        turn.wait(3);
        turn.give(1);
        turn.wait(4);
        t0.join();
        t1.join();
    } else return 4;
    finish();
}
