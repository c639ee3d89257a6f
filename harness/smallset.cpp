// C18: sets of point numbers. --part sets:TYPE:NSETS:NVALUES[:MAXSTATES] explores
// every reachable state of a few sets; vec:DEPTH and origin:DEPTH every history.
#include "vp.hpp"
#include "arena.hpp"
#include <poly_ops/poly_ops.hpp>
#include <poly_ops/offset.hpp>
#include <deque>
#include <memory>
using namespace vp;

static std::string current;
template<typename T> struct InIter { // single pass
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using iterator_concept = std::input_iterator_tag;
    using iterator_category = std::input_iterator_tag;
    const T *p;
    const T &operator*() const { return *p; }
    InIter &operator++() { ++p; return *this; }
    void operator++(int) { ++p; }
    bool operator==(const InIter &o) const { return p == o.p; }
};

template<typename T> struct Sets {
    using A = std::pmr::polymorphic_allocator<T>;
    using S = poly_ops::detail::mini_flat_set<T, A>;
    static constexpr int MAXK = 3;
    int K, V;
    struct Action { int kind, i, j; std::vector<T> v; };
    std::vector<Action> acts;
    Sets(int K, int V) : K(K), V(V) {
        std::vector<std::vector<T>> lists{{}};
        for(int a = 0; a < V; ++a) lists.push_back({T(a)});
        lists.push_back({T(1), T(1)});
        lists.push_back({T(V - 1), T(0)});
        lists.push_back({T(0), T(1), T(0)});
        if(V > 3) lists.push_back({T(3), T(1), T(2), T(1), T(3)});
        for(int i = 0; i < K; ++i) {
            for(int a = 0; a < V; ++a) acts.push_back({0, i, 0, {T(a)}});
            acts.push_back({5, i, i, {}});
            for(int j = 0; j < K; ++j)
                if(i != j)
                    for(int k : {1, 2, 3, 6, 7}) acts.push_back({k, i, j, {}});
            for(int j = 0; j < i; ++j) acts.push_back({4, i, j, {}});
            acts.push_back({2, i, i, {}});
            for(auto &l : lists) {
                acts.push_back({8, i, 0, l});
                acts.push_back({9, i, 0, l});
            }
        }
    }
    std::string text(const Action &a) const {
        static const char *n[] = {"insert", "merge", "copy-assign", "move-assign", "swap", "clear", "copy-construct", "move-construct", "insert-range", "insert-input-range"};
        std::string s = std::string(n[a.kind]) + " " + std::to_string(a.i);
        if((a.kind >= 1 && a.kind <= 4) || a.kind == 6 || a.kind == 7) s += "<-" + std::to_string(a.j);
        for(auto x : a.v) s += "," + std::to_string(x);
        return s;
    }
    struct World {
        Arena mem;
        alignas(S) unsigned char raw[MAXK][sizeof(S)];
        std::set<T> model[MAXK];
        int K;
        S &at(int i) { return *std::launder(reinterpret_cast<S *>(raw[i])); }
        A al() { return A(&mem); }
        explicit World(int K) : K(K) { for(int i = 0; i < K; ++i) new(raw[i]) S(); }
        ~World() { for(int i = 0; i < K; ++i) at(i).destroy(al()); }
    };
    static void apply(World &w, const Action &a, bool check, const std::string &txt) {
        S &s = w.at(a.i);
        auto al = w.al();
        auto &m = w.model[a.i];
        switch(a.kind) {
        case 0: {
            bool fresh = m.insert(a.v[0]).second;
            auto r = s.insert(al, a.v[0]);
            if(check && (r.second != fresh || *r.first != a.v[0] || r.first < s.begin() || r.first >= s.end())) violation("insert", txt, "insert() returned the wrong position or flag");
            break;
        }
        case 1:
            m.insert(w.model[a.j].begin(), w.model[a.j].end());
            s.merge(al, w.at(a.j));
            // the other set may have exchanged its storage: only its destruction is defined
            w.at(a.j).destroy(al);
            new(w.raw[a.j]) S();
            w.model[a.j].clear();
            break;
        case 2:
            s.assign(al, std::as_const(w.at(a.j)));
            m = std::set<T>(w.model[a.j]);
            break;
        case 3:
            s.assign(al, std::move(w.at(a.j)));
            m = w.model[a.j];
            w.model[a.j].clear();
            break;
        case 4:
            swap(s, w.at(a.j));
            std::swap(m, w.model[a.j]);
            break;
        case 5:
            s.destroy(al);
            new(w.raw[a.i]) S(al);
            m.clear();
            break;
        case 6:
            s.destroy(al);
            new(w.raw[a.i]) S(al, std::as_const(w.at(a.j)));
            m = w.model[a.j];
            break;
        case 7:
            s.destroy(al);
            new(w.raw[a.i]) S(std::move(w.at(a.j)));
            m = w.model[a.j];
            w.model[a.j].clear();
            break;
        case 8:
            s.insert(al, a.v.begin(), a.v.end());
            m.insert(a.v.begin(), a.v.end());
            break;
        case 9:
            s.insert(al, InIter<T>{a.v.data()}, InIter<T>{a.v.data() + a.v.size()});
            m.insert(a.v.begin(), a.v.end());
            break;
        }
    }
    static std::string verify(World &w) {
        for(int i = 0; i < w.K; ++i) {
            S &s = w.at(i);
            auto &m = w.model[i];
            if(s.size() != m.size()) return "set " + std::to_string(i) + " has " + std::to_string(s.size()) + " elements instead of " + std::to_string(m.size());
            if(s.empty() != m.empty()) return "empty() is wrong for a set of " + std::to_string(m.size());
            if(std::size_t(s.end() - s.begin()) != m.size() || !std::equal(m.begin(), m.end(), std::as_const(s).begin())) {
                std::string g;
                for(auto x : s) g += std::to_string(x) + " ";
                return "set " + std::to_string(i) + " contains " + g;
            }
            if(s.size() > 1) {
                if(reinterpret_cast<std::uintptr_t>(s.begin()) % alignof(T)) return "misaligned elements";
                for(int j = 0; j < i; ++j)
                    if(w.at(j).size() > 1 && w.at(j).begin() == s.begin()) return "two sets share storage";
            }
        }
        w.mem.check_all();
        std::size_t need = 0;
        for(int i = 0; i < w.K; ++i) need += w.at(i).size() > 1;
        if(w.mem.error.empty() && w.mem.live.size() != need) return std::to_string(w.mem.live.size()) + " blocks are allocated for " + std::to_string(need) + " sets of more than one element";
        return w.mem.error;
    }
    static std::string key(World &w) {
        std::string k;
        for(int i = 0; i < w.K; ++i) {
            S &s = w.at(i);
            k += char('0' + s.size());
            for(auto x : s) k += char('A' + x);
            k += ':' + std::to_string(s.size() > 1 ? w.mem.block_of(s.begin()) : 0) + ';';
        }
        return k;
    }
    std::string path_text(const std::vector<unsigned char> &h) const {
        std::string s;
        for(auto x : h) s += text(acts[x]) + "; ";
        return s;
    }
    void explore(std::size_t maxstates) {
        // all shards walk the same graph; each checks its part of the transitions
        std::unordered_set<std::string> seen;
        std::deque<std::vector<unsigned char>> q{{}};
        {
            World w(K);
            seen.insert(key(w));
        }
        Gate g;
        while(!q.empty()) {
            if(g.stop()) break;
            auto h = q.front();
            q.pop_front();
            maxima["depth"] = std::max<u64>(maxima["depth"], h.size());
            bool mine = g();
            if(mine) ++counters["states"];
            for(std::size_t a = 0; a < acts.size(); ++a) {
                step();
                auto h2 = h;
                h2.push_back((unsigned char)a);
                World w(K);
                current = "";
                cur_hist = &h2;
                cur_sets = this;
                for(auto x : h) apply(w, acts[x], false, "");
                apply(w, acts[a], mine, mine ? path_text(h2) : "");
                if(mine) {
                    ++counters["evals"];
                    bool shared = false;
                    for(int i = 0; i < K; ++i) shared |= w.model[i].size() > 1;
                    if(shared) ++counters["nontrivial"];
                    auto e = verify(w);
                    if(!e.empty()) {
                        violation("set", path_text(h2), e);
                        if(violations > 20) return;
                        continue;
                    }
                    for(int i = 0; i < K; ++i) {
                        w.at(i).destroy(w.al());
                        new(w.raw[i]) S();
                    }
                    if(!w.mem.live.empty()) violation("leak", path_text(h2), "memory is left after destroying every set");
                    if(!w.mem.error.empty()) violation("memory", path_text(h2), w.mem.error);
                    // the key is taken from a fresh replay below
                    World w2(K);
                    for(auto x : h2) apply(w2, acts[x], false, "");
                    if(seen.size() < maxstates && seen.insert(key(w2)).second) q.push_back(h2);
                } else {
                    auto e = verify(w);
                    if(!e.empty()) continue;
                    if(seen.size() < maxstates && seen.insert(key(w)).second) q.push_back(h2);
                }
            }
        }
        if(seen.size() >= maxstates) truncated = true;
        maxima["reachable_states"] = seen.size();
    }
    static inline const std::vector<unsigned char> *cur_hist = nullptr;
    static inline const Sets *cur_sets = nullptr;
};

// ---- vectors of sets and the tracker built on them
using Vec = poly_ops::detail::mini_set_proxy_vector<std::uint32_t, std::pmr::polymorphic_allocator<std::uint32_t>>;
struct VA { int kind, a, b; };
static const std::vector<VA> vacts = {{0, 0, 0}, {1, 0, 0}, {1, 0, 1}, {1, 0, 2}, {1, 1, 0}, {1, 1, 2}, {2, 0, 1}, {2, 1, 0}, {2, 2, 0}, {2, 0, 2}, {3, 0, 0}, {4, 0, 0}, {5, 3, 0}, {5, 1, 0}, {6, 0, 0}, {7, 0, 1}, {7, 1, 0}, {8, 0, 1}, {9, 0, 0}, {10, 0, 0}, {11, 0, 1}, {12, 1, 0}, {13, 0, 0}};
static std::string vtext(const std::vector<int> &h) {
    static const char *n[] = {"emplace_back", "insert", "merge", "pop_back", "clear", "resize", "move", "copy-assign", "move-assign", "reserve", "insert range", "insert at the ends", "assign from constant", "assign from a single set"};
    std::string s;
    for(int x : h) s += std::string(n[vacts[std::size_t(x)].kind]) + " " + std::to_string(vacts[std::size_t(x)].a) + "," + std::to_string(vacts[std::size_t(x)].b) + "; ";
    return s;
}
static bool run_vec(const std::vector<int> &h) {
    Arena mem;
    bool effect = true;
    {
        auto v = std::make_unique<Vec>(std::pmr::polymorphic_allocator<std::uint32_t>(&mem));
        std::vector<std::set<std::uint32_t>> m;
        std::vector<char> dead; // merged away: unspecified
        for(int x : h) {
            auto &a = vacts[std::size_t(x)];
            std::size_t i = std::size_t(a.a), j = std::size_t(a.b);
            switch(a.kind) {
            case 0: v->emplace_back(); m.emplace_back(); dead.push_back(0); break;
            case 1: if(i >= m.size() || dead[i]) { effect = false; break; } (*v)[i].insert(std::uint32_t(j)); m[i].insert(std::uint32_t(j)); break;
            case 2:
                if(i >= m.size() || j >= m.size() || dead[i] || dead[j]) { effect = false; break; }
                (*v)[i].merge((*v)[j]);
                m[i].insert(m[j].begin(), m[j].end());
                dead[j] = 1;
                break;
            case 3: if(m.empty()) { effect = false; break; } v->pop_back(); m.pop_back(); dead.pop_back(); break;
            case 4: v->clear(); m.clear(); dead.clear(); break;
            case 5: v->resize(i); m.resize(i); dead.resize(i, 0); break;
            case 6: v = std::make_unique<Vec>(std::move(*v)); break;
            case 7: if(i >= m.size() || j >= m.size() || dead[i] || dead[j]) { effect = false; break; } { const auto src = (*v)[j]; (*v)[i] = src; } m[i] = m[j]; break; // a temporary proxy would be moved from
            case 8: if(i >= m.size() || j >= m.size() || dead[i] || dead[j]) { effect = false; break; } (*v)[i] = std::move((*v)[j]); m[i] = m[j]; dead[j] = 1; break;
            case 9: v->reserve(7); break;
            case 10: {
                if(i >= m.size() || dead[i]) { effect = false; break; }
                static const std::uint32_t r[] = {2, 1, 2};
                (*v)[i].insert(std::begin(r), std::end(r));
                m[i].insert(std::begin(r), std::end(r));
                break;
            }
            case 11:
                if(m.empty() || dead.front() || dead.back()) { effect = false; break; }
                v->front().insert(3);
                m.front().insert(3);
                if(v->back().insert(std::uint32_t(j)).second != m.back().insert(std::uint32_t(j)).second) violation("vector", vtext(h), "insert() at the back returns the wrong answer");
                break;
            case 13: {
                if(i >= m.size() || dead[i]) { effect = false; break; }
                poly_ops::detail::mini_flat_set<std::uint32_t, std::pmr::polymorphic_allocator<std::uint32_t>> single;
                for(std::uint32_t x : {4u, 0u}) single.insert(std::pmr::polymorphic_allocator<std::uint32_t>(&mem), x);
                (*v)[i] = std::move(single);
                single.destroy(std::pmr::polymorphic_allocator<std::uint32_t>(&mem));
                m[i] = {0, 4};
                break;
            }
            case 12: if(i >= m.size() || j >= m.size() || dead[i] || dead[j]) { effect = false; break; } (*v)[i] = std::as_const(*v)[j]; m[i] = m[j]; break;
            }
            if(!effect) return true; // not applicable: the shorter history was checked on its own
            if(v->size() != m.size() || v->empty() != m.empty()) { violation("vector", vtext(h), "wrong number of sets"); return false; }
            for(std::size_t k = 0; k < m.size(); ++k) {
                if(dead[k]) continue;
                const auto &s = std::as_const(*v)[k];
                if(s.size() != m[k].size() || !std::equal(m[k].begin(), m[k].end(), s.begin())) { violation("vector", vtext(h), "set " + std::to_string(k) + " is wrong"); return false; }
            }
        }
        mem.check_all();
    }
    ++counters["evals"];
    if(h.size() > 2) ++counters["nontrivial"];
    if(!mem.error.empty()) violation("memory", vtext(h), mem.error);
    if(!mem.live.empty()) violation("leak", vtext(h), std::to_string(mem.live.size()) + " blocks are left");
    return true;
}

struct OA { int kind, a, b; };
static std::vector<OA> oacts;
static std::string otext(const std::vector<int> &h) {
    static const char *n[] = {"point_added", "new_point", "merge", "reset", "move"};
    std::string s;
    for(int x : h) s += std::string(n[oacts[std::size_t(x)].kind]) + " " + std::to_string(oacts[std::size_t(x)].a) + "," + std::to_string(oacts[std::size_t(x)].b) + "; ";
    return s;
}
static void run_origin(const std::vector<int> &h) {
    Arena mem;
    {
        auto t = std::make_unique<poly_ops::origin_point_tracker<std::uint32_t>>(&mem);
        std::vector<std::set<std::uint32_t>> m;
        std::vector<char> gone;
        for(int x : h) {
            auto &a = oacts[std::size_t(x)];
            std::size_t i = std::size_t(a.a), j = std::size_t(a.b);
            poly_ops::i_point_tracker<std::uint32_t> *c = t->callbacks();
            switch(a.kind) {
            case 0: c->point_added(std::uint32_t(i)); m.push_back({std::uint32_t(i)}); gone.push_back(0); break;
            case 1: c->new_point_between(0, 1); m.emplace_back(); gone.push_back(0); break;
            case 2: if(i >= m.size() || j >= m.size() || gone[i] || gone[j]) return; c->point_merge(std::uint32_t(i), std::uint32_t(j)); m[j].insert(m[i].begin(), m[i].end()); gone[i] = 1; break;
            case 3: c->reset(); m.clear(); gone.clear(); break;
            case 4: t = std::make_unique<poly_ops::origin_point_tracker<std::uint32_t>>(std::move(*t)); break;
            }
        }
        ++counters["evals"];
        for(std::size_t k = 0; k < m.size(); ++k) {
            if(gone[k]) continue;
            auto v = t->get_value(std::uint32_t(k), poly_ops::point_t<int>(3, 4));
            if(m[k].size() > 1) ++counters["nontrivial"];
            if(v.p != poly_ops::point_t<int>(3, 4) || v.original_points.size() != m[k].size() || !std::equal(m[k].begin(), m[k].end(), v.original_points.begin())) {
                std::string g;
                for(auto x : v.original_points) g += std::to_string(x) + " ";
                violation("origin", otext(h), "point " + std::to_string(k) + " has the origins " + g);
                return;
            }
        }
        mem.check_all();
    }
    if(!mem.error.empty()) violation("memory", otext(h), mem.error);
    if(!mem.live.empty()) violation("leak", otext(h), "blocks are left");
}

template<typename T> static void sets(int K, int V, std::size_t maxstates) {
    Sets<T> s(K, V);
    describe_current = [&] { return s.cur_hist ? s.path_text(*s.cur_hist) : std::string("start"); };
    s.explore(maxstates);
}

int main(int argc, char **argv) {
    init(argc, argv);
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    if(a.at(0) == "sets") {
        int K = std::stoi(a.at(2)), V = std::stoi(a.at(3));
        std::size_t mx = a.size() > 4 ? std::stoull(a[4]) : 100000000;
        if(a[1] == "u16") sets<std::uint16_t>(K, V, mx);
        else if(a[1] == "u32") sets<std::uint32_t>(K, V, mx);
        else sets<std::uint64_t>(K, V, mx);
    } else {
        bool vec = a[0] == "vec";
        for(int i = 0; i < 4; ++i) oacts.push_back({0, i % 3, 0});
        oacts.pop_back();
        oacts.push_back({1, 0, 0});
        for(int i = 0; i < 4; ++i)
            for(int j = 0; j < 4; ++j)
                if(i != j) oacts.push_back({2, i, j});
        oacts.push_back({3, 0, 0});
        oacts.push_back({4, 0, 0});
        std::vector<int> h;
        describe_current = [&] { return vec ? vtext(h) : otext(h); };
        Gate g;
        int n = int(vec ? vacts.size() : oacts.size());
        for(int d = 1; d <= std::stoi(a.at(1)); ++d) {
            std::vector<int> c;
            all_seqs(n, d, c, [&](const std::vector<int> &s) {
                if(!g()) return true;
                if((counters["evals"] & 1023) == 0 && g.stop()) return false;
                step();
                h = s;
                if(vec) run_vec(s);
                else run_origin(s);
                if(counters["evals"] % 99991 == 1) sample(vec ? vtext(h) : otext(h));
                return violations < 20;
            }, false);
        }
    }
    finish();
}
