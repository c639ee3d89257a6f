// C16: the rasterizer against winding numbers counted along every row.
// --part rows:FAMILY:SCALE   every member of the family, four placements
//        hist:DEPTH          every history of one rasterizer
#include "families.hpp"
#include <list>
#include <span>
#include <poly_ops/polydraw.hpp>
using namespace vp;
namespace draw = poly_ops::draw;

struct Span {
    i64 x1, x2, y;
    long w;
    bool operator==(const Span &) const = default;
};
static std::string str(const std::vector<Span> &v) {
    std::string s;
    for(auto &x : v) s += "[y" + std::to_string(x.y) + " " + std::to_string(x.x1) + "-" + std::to_string(x.x2) + " w" + std::to_string(x.w) + "]";
    return s;
}
// what a row must contain, from right to left, and columns where lines cross
// the row at the same position (an empty gap may be reported there)
struct Row {
    std::vector<Span> spans;
    std::set<i64> tied;
};
static i64 clampx(i64 x, i64 w) { return x < 0 ? 0 : (x > w - 1 ? w - 1 : x); }
static Row expected(const std::vector<Poly> &loops, i64 y, i64 width) {
    struct X {
        i128 n, d; // n/d, d > 0
        int w;
    };
    std::vector<X> xs;
    for(auto &l : loops) {
        Poly u; // loops of fewer than three points have no lines
        for(auto &q : l) if(u.empty() || u.back() != q) u.push_back(q);
        while(u.size() > 1 && u.back() == u.front()) u.pop_back();
        if(u.size() < 3) continue;
        for(std::size_t i = 0; i < l.size(); ++i) {
            Pt a = l[i], b = l[(i + 1) % l.size()];
            int w = 1;
            if(a.y == b.y) continue;
            if(a.y > b.y) { std::swap(a, b); w = -1; }
            if(y < a.y || y >= b.y) continue;
            xs.push_back({i128(a.x) * (b.y - a.y) + i128(b.x - a.x) * (y - a.y), b.y - a.y, w});
        }
    }
    std::sort(xs.begin(), xs.end(), [](auto &p, auto &q) { return p.n * q.d > q.n * p.d; });
    Row r;
    long w = 0;
    for(std::size_t i = 0; i < xs.size(); ++i) {
        i64 t = i64(xs[i].n / xs[i].d);
        if(i) {
            auto &p = xs[i - 1];
            i64 pt = i64(p.n / p.d);
            if(p.n * xs[i].d == xs[i].n * p.d) r.tied.insert(clampx(t, width));
            else if(w && pt >= 0 && t < width) r.spans.push_back({clampx(t, width), clampx(pt, width), y, w});
        }
        w += xs[i].w;
    }
    if(w) std::abort();
    return r;
}

template<typename C> static void add(draw::rasterizer<C> &r, const Poly &p, int form) {
    std::vector<poly_ops::point_t<C>> v;
    for(auto &q : p) v.emplace_back(C(q.x), C(q.y));
    if(form == 0) r.add_loops(v);
    else if(form == 1) {
        auto s = r.add_loop();
        for(auto &q : v) s(q);
    } else {
        std::list<std::vector<poly_ops::point_t<C>>> l{v};
        r.add_loops(l);
    }
}
template<typename C> static std::vector<Span> scan(draw::rasterizer<C> &r, unsigned w, unsigned h, std::size_t max = std::size_t(-1)) {
    std::vector<Span> v;
    auto st = r.scan_lines(w, h);
    draw::scan_line sc;
    while(v.size() < max && st(r, sc)) {
        v.push_back({sc.x1, sc.x2, sc.y, sc.winding});
        if(v.size() > 100000) break;
    }
    return v;
}
// empty if the spans are right
static std::string judge(const std::vector<Poly> &loops, i64 w, i64 h, const std::vector<Span> &got) {
    std::size_t i = 0;
    for(i64 y = 0; y < h; ++y) {
        Row r = expected(loops, y, w);
        std::size_t k = 0;
        for(; i < got.size() && got[i].y == y; ++i) {
            if(k < r.spans.size() && got[i] == r.spans[k]) { ++k; continue; }
            if(got[i].x1 == got[i].x2 && r.tied.contains(got[i].x1)) continue; // between lines that meet here
            return "row " + std::to_string(y) + ": " + str(std::vector<Span>{got[i]}) + " where " + str(r.spans) + " was expected";
        }
        if(k != r.spans.size()) return "row " + std::to_string(y) + ": " + str(r.spans) + " expected, the last " + std::to_string(r.spans.size() - k) + " missing";
        if(r.spans.size()) last_nontrivial = true;
    }
    if(i != got.size()) return "unexpected " + str(std::vector<Span>{got[i]}) + " after the last row or out of order";
    return "";
}
static const Case *cc;
static std::string note;
template<typename C> static void one(const Case &c, i64 dx, i64 dy, i64 w, i64 h, int form, const char *tn) {
    std::vector<Poly> loops;
    note = std::string(" type=") + tn + " offset=" + std::to_string(dx) + "," + std::to_string(dy) + " canvas=" + std::to_string(w) + "x" + std::to_string(h);
    draw::rasterizer<C> r;
    for(auto &l : c.loops) {
        Poly p = l.pts;
        for(auto &q : p) {
            q.x += dx;
            q.y += dy;
            // the differences must fit
            if(std::abs(q.x) > i64(std::numeric_limits<C>::max() / 2) || std::abs(q.y) > i64(std::numeric_limits<C>::max() / 2)) return;
        }
        loops.push_back(p);
    }
    for(auto &l : loops) add(r, l, form);
    auto got = scan(r, unsigned(w), unsigned(h));
    ++counters["evals"];
    last_nontrivial = false;
    auto e = judge(loops, w, h, got);
    if(last_nontrivial) ++counters["nontrivial"];
    if(!e.empty()) { violation("row", str(c) + note, e); return; }
    for(int rule = 0; rule < 4; ++rule) {
        std::vector<Span> want, d;
        for(auto &s : got)
            if(rule == 0 ? s.w != 0 : (rule == 1 ? s.w % 2 != 0 : (rule == 2 ? s.w > 0 : s.w < 0))) want.push_back({s.x1, s.x2, s.y, 0});
        r.draw(unsigned(w), unsigned(h), [&](unsigned x1, unsigned x2, unsigned y) { d.push_back({x1, x2, y, 0}); }, draw::fill_rule_t(rule));
        if(d != want) { violation("draw", str(c) + note + " rule=" + std::to_string(rule), "filled " + str(d) + " of " + str(got)); return; }
    }
}

// ---- histories
static const std::vector<std::vector<Poly>> sets = {
    {{{0, 0}, {9, 1}, {5, 8}}},
    {{{2, -3}, {2, 9}, {-4, 4}}, {{1, 1}, {7, 7}, {7, 1}, {1, 7}}},
    {{{3, 3}, {3, 3}, {8, 3}, {8, 6}, {3, 3}}, {{1, 2}, {4, 5}}, {}},
};
static const char *act_names[] = {"add0", "add1", "add2", "scan", "partial", "scan small", "clear", "move", "draw"};
static std::vector<int> hist;
static std::string hist_str() {
    std::string s = "history:";
    for(int a : hist) s += std::string(" ") + act_names[a];
    return s;
}
template<typename C> static void run_hist() {
    auto r = std::make_unique<draw::rasterizer<C>>();
    std::vector<Poly> have;
    bool ran = false;
    for(int a : hist) {
        if(a <= 2) {
            if(ran) { have.clear(); ran = false; }
            for(auto &p : sets[std::size_t(a)]) {
                add(*r, p, a);
                have.push_back(p);
            }
        } else if(a == 6) { r->clear(); have.clear(); ran = false; }
        else if(a == 7) r = std::make_unique<draw::rasterizer<C>>(std::move(*r));
        else {
            i64 w = a == 5 ? 5 : 10, h = a == 5 ? 4 : 10;
            std::vector<Span> got;
            if(a == 8) {
                std::vector<Span> d, all = scan(*r, unsigned(w), unsigned(h));
                r->draw(unsigned(w), unsigned(h), [&](unsigned x1, unsigned x2, unsigned y) { d.push_back({x1, x2, y, 0}); });
                for(auto &s : all) got.push_back(s), s.w = 0;
                if(d != all) { violation("draw", hist_str(), "filled " + str(d)); return; }
            } else got = scan(*r, unsigned(w), unsigned(h), a == 4 ? 2 : std::size_t(-1));
            ran = true;
            ++counters["evals"];
            if(a == 4) { // the first spans only
                draw::rasterizer<C> f;
                for(auto &p : have) add(f, p, 0);
                if(got != scan(f, unsigned(w), unsigned(h), 2)) { violation("reuse", hist_str(), "gave " + str(got)); return; }
                continue;
            }
            auto e = judge(have, w, h, got);
            if(!e.empty()) { violation("reuse", hist_str(), e); return; }
            if(!have.empty() && hist.size() > 2) ++counters["nontrivial"];
        }
    }
}
static void histories(int depth) {
    Gate g;
    std::vector<int> cur;
    describe_current = hist_str;
    all_seqs(9, depth, cur, [&](const std::vector<int> &s) {
        if(!g()) return true;
        if(g.stop()) return false;
        step();
        ++counters["histories"];
        hist = s;
        if(counters["histories"] % 997 == 1) sample(hist_str());
        run_hist<std::int32_t>();
        return violations < 30;
    }, false);
}

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = [] { return cc ? str(*cc) + note : std::string("?"); };
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    if(a.at(0) == "hist") {
        histories(std::stoi(a.at(1)));
    } else {
        i64 S = std::stoll(a.at(2));
        if(!family(a.at(1), S, [&](Case &c) {
            if(violations > 40) return;
            cc = &c;
            if(counters["evals"] % 997 == 0) sample(a[1] + ": " + str(c));
            one<std::int32_t>(c, 0, 0, 3 * S, 3 * S, 0, "int32");
            one<std::int32_t>(c, -S, -S, S + 1, S + 2, 1, "int32");
            one<std::int64_t>(c, S / 2 - 3 * S / 2, 1 - S, 2 * S, 2 * S, 2, "int64");
#ifdef VP_SMALL
            one<std::int16_t>(c, 1, 2, 2 * S, 3 * S, 0, "int16");
            one<std::int8_t>(c, 0, -1, 2 * S, 3 * S, 0, "int8");
#endif
        })) return 4;
    }
    finish();
}
