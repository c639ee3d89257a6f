// C17: the ordered container of the sweeps, explored to every reachable state.
// --part tree:N      insert/erase of N nodes with different keys
//        multi:N     N nodes, neighbouring pairs with equal keys
//        list:N      insert_before at every position, any order of N nodes
#include "vp.hpp"
#include <deque>
#include <memory_resource>
#include <poly_ops/clip.hpp>
using namespace vp;
namespace d = poly_ops::detail;

static std::string cur;

struct Cmp {
    const std::vector<int> *key;
    bool operator()(int a, int b) const { return (*key)[std::size_t(a)] < (*key)[std::size_t(b)]; }
};

// Node i+1 of the store holds the value i. A state is the tree itself.
template<typename Index, typename Vec> struct Explorer {
    using Node = d::set_node<int, Index>;
    using Set = d::sweep_set<int, Index, Cmp, Vec>;
    int N;
    bool lists;
    std::vector<int> key;
    Vec store;
    std::unique_ptr<Set> set;
    using Seq = std::vector<int>;

    static Vec make(int N) {
        Vec v;
        v.emplace_back();
        for(int i = 0; i < N; ++i) v.emplace_back(int(i));
        return v;
    }
    Explorer(int N, bool pairs, bool lists) : N(N), lists(lists), store(make(N)) {
        for(int i = 0; i < N; ++i) key.push_back(pairs ? i / 2 : i);
        set = std::make_unique<Set>(store, Cmp{&key});
    }
    // what the tree looks like, members only
    std::string shape(const Seq &s) const {
        std::string r;
        auto put = [&](const Node &n) {
            r += char(n.parent);
            r += char(n.left);
            r += char(n.right);
            r += char(n.color);
        };
        put(store[0]);
        for(int i : s) { r += char(i + 1); put(store[std::size_t(i) + 1]); }
        return r;
    }
    std::string name(const Seq &s) const {
        std::string r = "{";
        for(int i : s) r += " " + std::to_string(i);
        return r + " }";
    }
    // red-black rules; returns the black height or -1
    int height(Index n, Index parent, std::string &err, std::size_t &count) {
        constexpr Index NIL = std::numeric_limits<Index>::max();
        if(n == NIL) return 1;
        if(n == 0 || std::size_t(n) >= store.size() || ++count > std::size_t(N)) { err = "the tree has a cycle or a foreign node"; return -1; }
        auto &x = store[std::size_t(n)];
        if(x.parent != parent) { err = "a node has the wrong parent"; return -1; }
        if(x.color == d::color_t::red && parent != 0 && store[std::size_t(parent)].color == d::color_t::red) { err = "a red node has a red parent"; return -1; }
        int l = height(x.left, n, err, count), r = l < 0 ? -1 : height(x.right, n, err, count);
        if(l < 0 || r < 0) return -1;
        if(l != r) { err = "black heights differ"; return -1; }
        return l + (x.color == d::color_t::black);
    }
    std::string check(const Seq &s) {
        constexpr Index NIL = std::numeric_limits<Index>::max();
        const Set &cs = *set;
        std::string err;
        std::size_t n = 0;
        if(height(store[0].parent, 0, err, n) < 0) return err;
        if(n != s.size()) return "the tree has " + std::to_string(n) + " nodes";
        if(store[0].parent != NIL && store[std::size_t(store[0].parent)].color != d::color_t::black) return "the root is red";
        if(cs.empty() != s.empty() || set->empty() != s.empty()) return "empty() is wrong";
        // both directions, both kinds of iterators
        auto it = set->begin();
        auto ci = cs.begin();
        for(std::size_t i = 0; i < s.size(); ++i, ++it, ci++) {
            if(it == set->end() || ci == cs.end()) return "iteration ends early";
            if(it->value != s[i] || (*ci).value != s[i] || int(it.index()) != s[i] + 1) return "iteration gives " + std::to_string(it->value) + " at position " + std::to_string(i);
            if(set->iterator_to(Index(s[i] + 1)) != it || set->iterator_to(*it) != it || ci->value != s[i]) return "iterator_to() is wrong";
            if(set->unique(Index(s[i] + 1)) || set->unique(store[std::size_t(s[i]) + 1])) return "unique() is true for a member";
        }
        if(it != set->end() || ci != cs.end() || cs.cend() != ci) return "iteration does not end";
        for(std::size_t i = s.size(); i-- > 0;) {
            if(i % 2) --it; else it--;
            --ci;
            if(it->value != s[i] || ci->value != s[i]) return "backward iteration is wrong";
        }
        if(it != set->begin() || ci != cs.cbegin()) return "backward iteration does not end at begin()";
        if(std::is_sorted(s.begin(), s.end(), Cmp{&key}))
            for(int i = 0; i < N; ++i) {
                std::size_t want = 0;
                for(int j : s) want += key[std::size_t(j)] == key[std::size_t(i)];
                if(cs.count(i) != want) return "count() is wrong for " + std::to_string(i);
            }
        return "";
    }
    bool sorted(const Seq &s) const {
        for(std::size_t i = 1; i < s.size(); ++i) if(key[std::size_t(s[i - 1])] >= key[std::size_t(s[i])]) return false;
        return true;
    }
    void run() {
        struct State { Seq s; Vec v; };
        std::deque<State> queue;
        std::unordered_set<std::string> seen;
        set->clear();
        queue.push_back({{}, store});
        seen.insert(shape({}));
        u64 n = 0;
        while(!queue.empty()) {
            if(elapsed() > opt.budget) { truncated = true; break; }
            if(violations > 20) break;
            State st = std::move(queue.front());
            queue.pop_front();
            ++n;
            std::vector<char> in(std::size_t(N), 0);
            for(int i : st.s) in[std::size_t(i)] = 1;
            auto apply = [&](const char *what, int i, int pos, auto f) {
                step();
                store = st.v;
                Seq want = st.s;
                cur = std::string(what) + " " + std::to_string(i) + (pos >= 0 ? " before position " + std::to_string(pos) : "") + " in " + name(st.s);
                std::string e = f(want);
                if(e.empty()) e = check(want);
                ++counters["evals"];
                if(st.s.size() > 2) ++counters["nontrivial"];
                if(counters["evals"] % 9973 == 1) sample(cur);
                if(!e.empty()) { violation("container", cur, e); return; }
                if(seen.insert(shape(want)).second) {
                    // nodes outside get their initial state, as it does not matter
                    Vec v = store;
                    std::vector<char> m(std::size_t(N), 0);
                    for(int k : want) m[std::size_t(k)] = 1;
                    queue.push_back({want, std::move(v)});
                }
            };
            bool ok = sorted(st.s);
            for(int i = 0; i < N; ++i) {
                auto node = Index(i + 1);
                if(in[std::size_t(i)]) {
                    for(int form = 0; form < 3; ++form)
                        apply("erase", i, -1, [&](Seq &w) -> std::string {
                            auto p = std::find(w.begin(), w.end(), i);
                            int next = p + 1 == w.end() ? -1 : p[1];
                            w.erase(p);
                            auto r = form == 0 ? set->erase(node) : (form == 1 ? set->erase(store[std::size_t(i) + 1]) : set->erase(set->iterator_to(node)));
                            if(next < 0 ? r != set->end() : (r == set->end() || r->value != next)) return "erase() returned the wrong position";
                            if(form == 0) set->init_node(node);
                            else set->init_node(store[std::size_t(i) + 1]);
                            if(!set->unique(node)) return "unique() is false after init_node()";
                            return "";
                        });
                    continue;
                }
                if(ok) for(int form = 0; form < 2; ++form)
                    apply("insert", i, -1, [&](Seq &w) -> std::string {
                        auto p = std::lower_bound(w.begin(), w.end(), i, Cmp{&key});
                        bool have = p != w.end() && key[std::size_t(*p)] == key[std::size_t(i)];
                        int at = have ? *p : i;
                        if(!have) w.insert(p, i);
                        set->init_node(node);
                        auto [r, fresh] = form == 0 ? set->insert(node) : set->insert(store[std::size_t(i) + 1]);
                        if(fresh == have) return "insert() returned the wrong flag";
                        if(r == set->end() || r->value != at) return "insert() returned the wrong position";
                        return "";
                    });
                if(lists) for(int pos = 0; pos <= int(st.s.size()); ++pos)
                    apply("insert", i, pos, [&](Seq &w) -> std::string {
                        bool end = pos == int(w.size());
                        auto before = end ? set->end() : set->iterator_to(Index(w[std::size_t(pos)] + 1));
                        set->init_node(node);
                        auto r = end || pos % 2 ? set->insert_before(before, node) : set->insert_before(Index(w[std::size_t(pos)] + 1), node);
                        w.insert(w.begin() + pos, i);
                        if(r->value != i || int(r.index()) != i + 1) return "insert_before() returned the wrong position";
                        return "";
                    });
            }
            apply("a new set", 0, -1, [&](Seq &w) -> std::string {
                w.clear();
                Set fresh(store, Cmp{&key});
                if(fresh.begin() != fresh.end()) return "a new set is not empty";
                return ""; // the nodes are what "set" refers to as well
            });
            apply("clear", 0, -1, [&](Seq &w) -> std::string {
                w.clear();
                set->clear();
                return "";
            });
        }
        counters["states"] += n;
        maxima["reachable_states"] = std::max(maxima["reachable_states"], u64(n));
    }
};

int main(int argc, char **argv) {
    init(argc, argv);
    describe_current = [] { return cur; };
    std::vector<std::string> a;
    std::stringstream ss(opt.part);
    for(std::string t; std::getline(ss, t, ':');) a.push_back(t);
    int n = std::stoi(a.at(1));
    auto go = [&](bool pairs, bool lists) {
        // one exploration per shard and type
        if(opt.shard % 2 == 0 || opt.nshards == 1) Explorer<std::size_t, std::pmr::vector<d::set_node<int, std::size_t>>>(n, pairs, lists).run();
        if(opt.shard % 2 == 1 || opt.nshards == 1) Explorer<std::uint8_t, std::vector<d::set_node<int, std::uint8_t>>>(n, pairs, lists).run();
    };
    if(opt.shard > 1) { finish(); return 0; }
    if(a.at(0) == "tree") go(false, false);
    else if(a.at(0) == "multi") go(true, false);
    else if(a.at(0) == "list") go(false, true);
    else return 4;
    finish();
}
