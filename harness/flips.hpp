// Exhaustive enumeration of the rounding choices (stateless DFS over the
// choice tree, replaying the prefix). Include before the library.
#pragma once
#include <cstdint>
#include <vector>
namespace vp {
struct Flips {
    std::vector<char> choice; // decided choices of this run
    std::size_t depth = 0;    // how many have been consumed
    std::size_t bound = 0;    // choices beyond the bound take the default
    std::uint64_t total = 0;  // choices consumed in this run, incl. beyond the bound
    std::uint32_t lcg = 1;
    bool next() {
        ++total;
        if(depth < choice.size()) return choice[depth++] != 0;
        if(depth < bound) {
            choice.push_back(0);
            ++depth;
            return false;
        }
        // beyond the bound: a fixed pseudo-random tail (termination of the
        // algorithm relies on the choices not being adversarial forever)
        lcg = lcg * 1664525u + 1013904223u;
        return (lcg >> 16) & 1;
    }
    void start() {
        depth = 0;
        total = 0;
        lcg = 12345;
    }
    // advance to the next leaf; false when the tree is exhausted
    bool advance() {
        choice.resize(depth);
        while(!choice.empty() && choice.back()) choice.pop_back();
        if(choice.empty()) return false;
        choice.back() = 1;
        return true;
    }
};
inline Flips flips;
inline bool flip() { return flips.next(); }
} // namespace vp
#ifndef VP_NO_FLIPS
#define POLY_OPS_VERIF_RAND_BOOL() ::vp::flip()
#endif
