// Shared core of the bounded-exhaustive harnesses: cases, shards, watchdog,
// violation reports, and the independent geometric oracles.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vp {

using i64 = std::int64_t;
using i128 = __int128;
using u64 = std::uint64_t;

struct Pt {
    i64 x, y;
    bool operator==(const Pt &) const = default;
    auto operator<=>(const Pt &) const = default;
};
using Poly = std::vector<Pt>;

struct Loop {
    int set; // 0 subject, 1 clip
    Poly pts;
};

struct Case {
    std::vector<Loop> loops;
    int op = 0; // poly_ops::bool_op
    std::string note;
};

inline const char *op_names[] = {"union", "intersection", "xor", "difference", "normalize"};

inline std::string str(const Poly &p) {
    std::string s;
    for(auto &q : p) s += "(" + std::to_string(q.x) + "," + std::to_string(q.y) + ")";
    return s;
}
inline std::string str(const Case &c) {
    std::string s = op_names[c.op];
    for(auto &l : c.loops) s += std::string(l.set ? " C:" : " S:") + str(l.pts);
    if(!c.note.empty()) s += " [" + c.note + "]";
    return s;
}

// ---------------------------------------------------------------- reporting
struct Options {
    int shard = 0, nshards = 1;
    bool thorough = false;
    double budget = 600; // seconds
    std::string part;
    std::vector<std::string> args;
};
inline Options opt;
inline std::map<std::string, u64> counters;
inline std::map<std::string, u64> maxima;
inline std::vector<std::string> samples;
inline std::map<std::string, int> vkeys;
inline u64 violations = 0;
inline bool truncated = false;
inline bool last_nontrivial = false; // set by check_region: the expected result is not empty
inline std::function<std::string()> describe_current;
inline std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
inline volatile u64 progress = 0;
inline void step() { progress = progress + 1; }

inline double elapsed() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
}

inline std::string esc(const std::string &s) {
    std::string r;
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if(c == '\n') r += "\\n";
        else if(c < 32) r += ' ';
        else r += char(c);
    }
    return r;
}

// key: short class of the violation (used with the case text to match known findings)
inline void violation(const std::string &key, const std::string &casetxt, const std::string &what) {
#ifdef VP_CRASH_ONLY
    // this build judges memory and arithmetic safety, and that there is an end, only
    if(key.rfind("crash", 0) != 0 && key.rfind("memory", 0) != 0 && key != "hang") return;
#endif
    ++violations;
    if(vkeys[key]++ >= 10) return;
    std::printf("V\t{\"key\":\"%s\",\"case\":\"%s\",\"what\":\"%s\"}\n", esc(key).c_str(), esc(casetxt).c_str(), esc(what).c_str());
    std::fflush(stdout);
}

inline void sample(const std::string &s, std::size_t maxn = 3) {
    if(samples.size() < maxn) samples.push_back(s);
}

inline void finish() {
    std::string s = "R\t{\"counters\":{";
    bool first = true;
    for(auto &[k, v] : counters) {
        s += std::string(first ? "" : ",") + "\"" + k + "\":" + std::to_string(v);
        first = false;
    }
    s += "},\"maxima\":{";
    first = true;
    for(auto &[k, v] : maxima) {
        s += std::string(first ? "" : ",") + "\"" + k + "\":" + std::to_string(v);
        first = false;
    }
    s += "},\"samples\":[";
    first = true;
    for(auto &v : samples) {
        s += std::string(first ? "" : ",") + "\"" + esc(v) + "\"";
        first = false;
    }
    s += std::string("],\"truncated\":") + (truncated ? "true" : "false") + ",\"violations\":" + std::to_string(violations) + "}";
    std::printf("%s\n", s.c_str());
    std::fflush(stdout);
}

inline void on_crash(int sig) {
    std::string d = describe_current ? describe_current() : "?";
    violation(std::string("crash-") + std::to_string(sig), d, std::string("process died with signal ") + std::to_string(sig));
    std::_Exit(3);
}

inline u64 wd_last = 0;
inline int wd_ticks = 0;
inline int wd_limit = 15;
inline void on_tick(int) {
    if(progress == wd_last) {
        if(++wd_ticks >= wd_limit) {
            std::string d = describe_current ? describe_current() : "?";
            violation("hang", d, "no result after " + std::to_string(wd_limit) + " s of CPU time on one case");
            std::_Exit(3);
        }
    } else {
        wd_last = progress;
        wd_ticks = 0;
    }
}

inline void init(int argc, char **argv) {
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if(a == "--shard") opt.shard = std::stoi(val());
        else if(a == "--nshards") opt.nshards = std::stoi(val());
        else if(a == "--tier") opt.thorough = val() == "thorough";
        else if(a == "--budget") opt.budget = std::stod(val());
        else if(a == "--part") opt.part = val();
        else opt.args.push_back(a);
    }
    static char altstack[1 << 16];
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_crash;
    sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
    for(int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    struct sigaction st{};
    st.sa_handler = on_tick;
    st.sa_flags = SA_RESTART;
    sigaction(SIGVTALRM, &st, nullptr);
    itimerval tv{{1, 0}, {1, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

// One global case counter per enumeration; returns true if this shard runs it.
struct Gate {
    u64 n = 0;
    bool operator()() {
        u64 i = n++;
        i *= 0x9E3779B97F4A7C15ull; // spread neighbours over the shards
        return int((i >> 33) % u64(opt.nshards)) == opt.shard;
    }
    bool stop() {
        if(elapsed() > opt.budget) truncated = true;
        return truncated;
    }
};

// ------------------------------------------------------------ enumerations
// every sequence of n grid points (k+1)x(k+1)... callback gets the index vector
template<typename F> bool all_seqs(int npoints, int n, std::vector<int> &cur, F &&f, bool consecutive_distinct) {
    if(int(cur.size()) == n) {
        if(consecutive_distinct && n > 1 && cur.front() == cur.back()) return true;
        return f(cur);
    }
    for(int i = 0; i < npoints; ++i) {
        if(consecutive_distinct && !cur.empty() && cur.back() == i) continue;
        cur.push_back(i);
        bool go = all_seqs(npoints, n, cur, f, consecutive_distinct);
        cur.pop_back();
        if(!go) return false;
    }
    return true;
}

// canonical rotation: the first index is a minimum and the sequence is the least rotation
inline bool least_rotation(const std::vector<int> &s) {
    std::size_t n = s.size();
    for(std::size_t r = 1; r < n; ++r)
        for(std::size_t i = 0; i < n; ++i) {
            int a = s[(r + i) % n], b = s[i];
            if(a < b) return false;
            if(a > b) break;
        }
    return true;
}

// list of closed index sequences of length n over npoints points
inline std::vector<std::vector<int>> closed_seqs(int npoints, int n, bool rotations = false) {
    std::vector<std::vector<int>> r;
    std::vector<int> cur;
    all_seqs(npoints, n, cur, [&](const std::vector<int> &s) {
        if(rotations || least_rotation(s)) r.push_back(s);
        return true;
    }, true);
    return r;
}

// ------------------------------------------------------------------ oracles
inline int sgn(i128 v) { return v > 0 ? 1 : (v < 0 ? -1 : 0); }
inline i128 cross(Pt a, Pt b, Pt c) {
    return i128(b.x - a.x) * (c.y - a.y) - i128(b.y - a.y) * (c.x - a.x);
}
// true if c is on the closed segment ab
inline bool on_segment(Pt a, Pt b, Pt c) {
    return cross(a, b, c) == 0 && std::min(a.x, b.x) <= c.x && c.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= c.y && c.y <= std::max(a.y, b.y);
}

struct Edge {
    Pt a, b; // directed
    int set;
};

// winding number of (px,py): +1 for clockwise loops in y-down coordinates, i.e.
// an upward ray (towards -y) crossed by a rightward edge counts +1.
// The point must not be on an edge (half-open rule is used for vertices).
inline int winding(const std::vector<Edge> &es, double px, double py, int set = -1) {
    int w = 0;
    for(auto &e : es) {
        if(set >= 0 && e.set != set) continue;
        if((double(e.a.x) <= px) == (double(e.b.x) <= px)) continue;
        double y = double(e.a.y) + double(e.b.y - e.a.y) * ((px - double(e.a.x)) / double(e.b.x - e.a.x));
        if(y < py) w += e.b.x > e.a.x ? 1 : -1;
    }
    return w;
}

inline std::vector<Edge> edges_of(const std::vector<Loop> &ls) {
    std::vector<Edge> r;
    for(auto &l : ls) {
        std::size_t n = l.pts.size();
        for(std::size_t i = 0; i < n; ++i)
            if(!(l.pts[i] == l.pts[(i + 1) % n])) r.push_back({l.pts[i], l.pts[(i + 1) % n], l.set});
    }
    return r;
}
inline std::vector<Edge> edges_of(const std::vector<Poly> &ls) {
    std::vector<Edge> r;
    for(auto &l : ls) {
        std::size_t n = l.size();
        for(std::size_t i = 0; i < n; ++i)
            if(!(l[i] == l[(i + 1) % n])) r.push_back({l[i], l[(i + 1) % n], 0});
    }
    return r;
}

// expected membership of the result region
inline bool expected_in(int op, int ws, int wc) {
    switch(op) {
    case 0: return ws + wc >= 1;
    case 1: return ws >= 1 && wc >= 1;
    case 2: return (ws >= 1) != (wc >= 1);
    case 3: return ws >= 1 && !(wc >= 1);
    default: return ((ws + wc) % 2) != 0;
    }
}

struct Sample {
    double x, y;
};

// One representative point in every cell of the trapezoidal decomposition of the
// edges, provided it is at least "margin" away from every edge; cells that
// are too thin are counted in "skipped".
inline void arrangement_samples(const std::vector<Edge> &es, double margin, std::vector<Sample> &out, u64 &skipped) {
    static thread_local std::vector<double> xs;
    static thread_local std::vector<std::array<double, 2>> ys;
    xs.clear();
    out.clear();
    std::size_t n = es.size();
    for(std::size_t i = 0; i < n; ++i) {
        xs.push_back(double(es[i].a.x));
        xs.push_back(double(es[i].b.x));
        for(std::size_t j = 0; j < i; ++j) {
            double dx1 = double(es[i].b.x - es[i].a.x), dy1 = double(es[i].b.y - es[i].a.y);
            double dx2 = double(es[j].b.x - es[j].a.x), dy2 = double(es[j].b.y - es[j].a.y);
            double d = dx1 * dy2 - dy1 * dx2;
            if(d == 0) continue;
            double ex = double(es[j].a.x - es[i].a.x), ey = double(es[j].a.y - es[i].a.y);
            double t = (ex * dy2 - ey * dx2) / d, u = (ex * dy1 - ey * dx1) / d;
            if(t < -1e-9 || t > 1 + 1e-9 || u < -1e-9 || u > 1 + 1e-9) continue;
            xs.push_back(double(es[i].a.x) + t * dx1);
        }
    }
    std::sort(xs.begin(), xs.end());
    for(std::size_t s = 0; s + 1 < xs.size(); ++s) {
        double w = xs[s + 1] - xs[s];
        if(w < 1e-6) continue;
        if(w < 2 * margin) { ++skipped; continue; }
        double x = (xs[s] + xs[s + 1]) / 2;
        ys.clear();
        for(auto &e : es) {
            if((double(e.a.x) <= x) == (double(e.b.x) <= x)) continue;
            double m = double(e.b.y - e.a.y) / double(e.b.x - e.a.x);
            ys.push_back({double(e.a.y) + m * (x - double(e.a.x)), std::sqrt(1 + m * m)});
        }
        std::sort(ys.begin(), ys.end());
        if(!ys.empty()) {
            out.push_back({x, ys.front()[0] - 4 * margin * ys.front()[1]});
            out.push_back({x, ys.back()[0] + 4 * margin * ys.back()[1]});
        }
        for(std::size_t i = 0; i + 1 < ys.size(); ++i) {
            double h = ys[i + 1][0] - ys[i][0];
            if(h < 1e-6) continue;
            double mm = margin * std::max(ys[i][1], ys[i + 1][1]);
            if(h < 2 * mm) { ++skipped; continue; }
            out.push_back({x, (ys[i][0] + ys[i + 1][0]) / 2});
        }
    }
}

// ---- region check: returns empty string if the output realises the operation
inline std::string check_region(const std::vector<Loop> &in, int op, const std::vector<Poly> &out, double margin) {
    static thread_local std::vector<Sample> smp;
    auto ie = edges_of(in);
    auto oe = edges_of(out);
    u64 sk = 0;
    arrangement_samples(ie, margin, smp, sk);
    static u64 &c1 = counters["cells_checked"], &c2 = counters["cells_too_thin"];
    c1 += smp.size();
    c2 += sk;
    last_nontrivial = false;
    for(auto &s : smp) {
        int ws = winding(ie, s.x, s.y, 0), wc = winding(ie, s.x, s.y, 1);
        int want = expected_in(op, ws, wc) ? 1 : 0;
        int got = winding(oe, s.x, s.y);
        if(want) last_nontrivial = true;
        if(got != want) {
            std::ostringstream o;
            o << "at (" << s.x << "," << s.y << ") subject winding " << ws << ", clip winding " << wc << ", expected result winding " << want << ", got " << got << "; output:";
            for(auto &p : out) o << " " << str(p);
            return o.str();
        }
    }
    return {};
}

// ---- crossing check: two output segments may only meet at endpoints of both or coincide
inline bool bad_pair(const Edge &p, const Edge &q) {
    if(std::max(p.a.x, p.b.x) < std::min(q.a.x, q.b.x) || std::max(q.a.x, q.b.x) < std::min(p.a.x, p.b.x) || std::max(p.a.y, p.b.y) < std::min(q.a.y, q.b.y) || std::max(q.a.y, q.b.y) < std::min(p.a.y, p.b.y)) return false;
    auto inside = [](const Edge &e, Pt c) { return !(c == e.a) && !(c == e.b) && on_segment(e.a, e.b, c); };
    if(inside(p, q.a) || inside(p, q.b) || inside(q, p.a) || inside(q, p.b)) return true;
    int o1 = sgn(cross(p.a, p.b, q.a)), o2 = sgn(cross(p.a, p.b, q.b));
    int o3 = sgn(cross(q.a, q.b, p.a)), o4 = sgn(cross(q.a, q.b, p.b));
    return o1 * o2 < 0 && o3 * o4 < 0;
}
inline std::string check_no_crossing(const std::vector<Poly> &out) {
    auto es = edges_of(out);
    for(std::size_t i = 0; i < es.size(); ++i)
        for(std::size_t j = 0; j < i; ++j)
            if(bad_pair(es[i], es[j])) {
                return "output segments " + str(Poly{es[i].a, es[i].b}) + " and " + str(Poly{es[j].a, es[j].b}) + " cross or meet away from their endpoints";
            }
    return {};
}

inline i128 twice_area(const Poly &p) {
    // positive for clockwise in y-down coordinates
    i128 r = 0;
    for(std::size_t i = 0; i < p.size(); ++i) {
        Pt a = p[i], b = p[(i + 1) % p.size()];
        r += i128(a.x) * b.y - i128(b.x) * a.y;
    }
    return r;
}

} // namespace vp
