// All histories, up to a depth, of operations on two iterators of one range,
// compared with positions in a plain list of the expected elements.
#pragma once
#include "vp.hpp"
#include <compare>
#include <iterator>
#include <utility>

namespace vp {
template<typename It, typename V, typename Get> struct IterExplorer {
    It b, e;
    const std::vector<V> &vals;
    Get get; // element -> V
    std::string name;
    int depth;
    std::vector<std::string> hist;
    static constexpr bool random = requires(It x, std::ptrdiff_t k) { x += k; x[k]; x < x; };
    static constexpr bool bidir = requires(It x) { --x; x--; };
    static constexpr bool sized = requires(It x) { x - x; };

    std::string text() const {
        std::string s = name + ": ";
        for(auto &h : hist) s += h + "; ";
        return s;
    }
    bool bad(const std::string &w) {
        violation("iterator", text(), w);
        return false;
    }
    bool check(It &x, std::ptrdiff_t px, It &y, std::ptrdiff_t py) {
        ++counters["evals"];
        if(hist.size() > 1) ++counters["nontrivial"];
        auto n = std::ptrdiff_t(vals.size());
        if(px < n && (!(get(*x) == vals[std::size_t(px)]) || !(get(*std::as_const(x)) == vals[std::size_t(px)]))) return bad("element " + std::to_string(px) + " is wrong");
        if((x == y) != (px == py) || (x != y) != (px != py)) return bad("equality of positions " + std::to_string(px) + " and " + std::to_string(py) + " is wrong");
        if((x == b) != (px == 0) || (x == e) != (px == n)) return bad("comparison of position " + std::to_string(px) + " with begin or end is wrong");
        if constexpr(sized) {
            if(x - y != px - py || y - x != py - px || e - x != n - px || x - b != px) return bad("distances from position " + std::to_string(px) + " are wrong");
        }
        if constexpr(random) {
            if((x < y) != (px < py) || (x <= y) != (px <= py) || (x > y) != (px > py) || (x >= y) != (px >= py)) return bad("order of positions " + std::to_string(px) + " and " + std::to_string(py) + " is wrong");
            for(std::ptrdiff_t i = 0; i < n; ++i)
                if(!(get(x[i - px]) == vals[std::size_t(i)])) return bad("element " + std::to_string(i) + " by subscript from " + std::to_string(px) + " is wrong");
        }
        return true;
    }
    bool go(It x, std::ptrdiff_t px, It y, std::ptrdiff_t py, int left) {
        if(violations > 10) return false;
        step();
        if(!check(x, px, y, py)) return false;
        if(left <= 0) return true;
        auto n = std::ptrdiff_t(vals.size());
        bool ok = true;
        auto act = [&](const std::string &t, auto &&f) {
            if(!ok) return;
            hist.push_back(t);
            It x2 = x, y2 = y;
            std::ptrdiff_t px2 = px, py2 = py;
            if(f(x2, px2, y2, py2)) ok = go(x2, px2, y2, py2, left - 1);
            hist.pop_back();
        };
        if(px < n) {
            act("++x", [&](It &x, std::ptrdiff_t &p, It &, std::ptrdiff_t &) {
                ++p;
                It &r = ++x;
                if(&r != &x) return ok = bad("++ does not return the iterator");
                return true;
            });
            act("x++", [&](It &x, std::ptrdiff_t &p, It &, std::ptrdiff_t &) {
                It o = x++;
                if(!(get(*o) == vals[std::size_t(p)])) return ok = bad("x++ does not return the old position");
                ++p;
                if((o == x) || (sized && [&] { if constexpr(sized) return x - o != 1; else return false; }())) return ok = bad("x++ returns the wrong position");
                return true;
            });
        }
        act("y=x", [&](It &x, std::ptrdiff_t &p, It &y, std::ptrdiff_t &q) { y = x; q = p; return true; });
        act("swap", [&](It &x, std::ptrdiff_t &p, It &y, std::ptrdiff_t &q) { std::swap(x, y); std::swap(p, q); return true; });
        act("x=begin", [&](It &x, std::ptrdiff_t &p, It &, std::ptrdiff_t &) { x = b; p = 0; return true; });
        if constexpr(bidir) {
            if(px > 0) {
                act("--x", [&](It &x, std::ptrdiff_t &p, It &, std::ptrdiff_t &) {
                    --p;
                    It &r = --x;
                    if(&r != &x) return ok = bad("-- does not return the iterator");
                    return true;
                });
                act("x--", [&](It &x, std::ptrdiff_t &p, It &, std::ptrdiff_t &) {
                    It o = x--;
                    if(p < n && !(get(*o) == vals[std::size_t(p)])) return ok = bad("x-- does not return the old position");
                    --p;
                    if(o == x) return ok = bad("x-- returns the wrong position");
                    return true;
                });
            }
            act("x=end", [&](It &x, std::ptrdiff_t &p, It &, std::ptrdiff_t &) { x = e; p = n; return true; });
        }
        if constexpr(random) {
            for(std::ptrdiff_t k : {-3, -2, -1, 0, 1, 2, 3}) {
                std::string ks = std::to_string(k);
                if(px + k >= 0 && px + k <= n) {
                    act("x+=" + ks, [&](It &x, std::ptrdiff_t &p, It &, std::ptrdiff_t &) { It &r = x += k; p += k; return &r == &x ? true : (ok = bad("+= does not return the iterator")); });
                    act("x=x+" + ks, [&](It &x, std::ptrdiff_t &p, It &, std::ptrdiff_t &) { x = x + k; p += k; return true; });
                    act("x=" + ks + "+x", [&](It &x, std::ptrdiff_t &p, It &, std::ptrdiff_t &) { x = k + x; p += k; return true; });
                }
                if(px - k >= 0 && px - k <= n) {
                    act("x-=" + ks, [&](It &x, std::ptrdiff_t &p, It &, std::ptrdiff_t &) { It &r = x -= k; p -= k; return &r == &x ? true : (ok = bad("-= does not return the iterator")); });
                    act("x=x-" + ks, [&](It &x, std::ptrdiff_t &p, It &, std::ptrdiff_t &) { x = x - k; p -= k; return true; });
                }
            }
        }
        return ok;
    }
    void run() {
        describe_current = [this] { return text(); };
        ++counters["ranges"];
        go(b, 0, b, 0, depth);
        if constexpr(bidir) go(e, std::ptrdiff_t(vals.size()), b, 0, depth);
        describe_current = nullptr;
    }
};
// explores begin()/end() of a range against the expected values
template<typename R, typename V, typename Get> void explore_range(R &&r, const std::vector<V> &vals, Get get, const std::string &name, int depth) {
    auto b = r.begin();
    decltype(b) e = r.end();
    IterExplorer<decltype(b), V, Get> x{b, e, vals, get, name, depth, {}};
    x.run();
}
}
