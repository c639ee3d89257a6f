// A memory resource that serves exactly the alignment that was asked for,
// surrounds every block with guard bytes, checks every return against its
// allocation, and can fail one chosen allocation.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory_resource>
#include <new>
#include <string>

namespace vp {
struct Arena final : std::pmr::memory_resource {
    struct Block { void *raw; std::size_t size, align; };
    std::map<char *, Block> live;
    std::string error;
    std::uint64_t count = 0;       // allocations so far
    std::uint64_t fail_at = ~0ull; // the allocation (counted from 0) that fails
    bool failed = false;
    static constexpr std::size_t G = 32;

    void *do_allocate(std::size_t n, std::size_t a) override {
        if(count++ == fail_at) {
            failed = true;
            throw std::bad_alloc();
        }
        std::size_t room = n + 2 * G + 4 * a + 128;
        char *raw = static_cast<char *>(std::malloc(room));
        if(!raw) throw std::bad_alloc();
        std::memset(raw, 0xA5, room);
        // aligned to a but not to 2a
        std::uintptr_t u = reinterpret_cast<std::uintptr_t>(raw) + G;
        u = (u + 2 * a - 1) / (2 * a) * (2 * a) + a;
        char *p = reinterpret_cast<char *>(u);
        live[p] = {raw, n, a};
        return p;
    }
    void do_deallocate(void *q, std::size_t n, std::size_t a) override {
        auto it = live.find(static_cast<char *>(q));
        if(it == live.end()) {
            error = "memory returned that was not allocated, or twice";
            return;
        }
        if(it->second.size != n || it->second.align != a)
            error = "allocated " + std::to_string(it->second.size) + " bytes aligned to " + std::to_string(it->second.align) + ", returned as " + std::to_string(n) + " aligned to " + std::to_string(a);
        check(it->first, it->second);
        std::memset(q, 0xDD, n);
        std::free(it->second.raw);
        live.erase(it);
    }
    bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
    void check(char *p, const Block &b) {
        for(std::size_t i = 0; i < G; ++i)
            if(static_cast<unsigned char>(p[b.size + i]) != 0xA5) error = "written past the end of a block of " + std::to_string(b.size) + " bytes";
        for(char *c = static_cast<char *>(b.raw); c < p; ++c)
            if(static_cast<unsigned char>(*c) != 0xA5) error = "written before the start of a block";
    }
    void check_all() {
        for(auto &[p, b] : live) check(p, b);
    }
    // the block that holds an address
    std::size_t block_of(const void *q) const {
        auto it = live.upper_bound(static_cast<char *>(const_cast<void *>(q)));
        if(it == live.begin()) return 0;
        --it;
        const char *c = static_cast<const char *>(q);
        return c < it->first + it->second.size ? it->second.size : 0;
    }
    ~Arena() {
        for(auto &[p, b] : live) std::free(b.raw);
    }
};
}
