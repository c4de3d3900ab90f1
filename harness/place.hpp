#pragma once
#include "pbt.hpp"
#include <sys/mman.h>

// The salt of a map is its address: maps are put at addresses that are part of the case.
template<typename M> struct Place {
    static char *base() {
        static char *b = [] {
            void *p = mmap((void *)0x200000000000ull, 1 << 20, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
            if(p != (void *)0x200000000000ull)
                p = malloc(1 << 20);
            return (char *)p;
        }();
        return b;
    }
    M *make(pbt::T &t) {
        unsigned i = 0;
        while(used.count(i))
            ++i;
        used.insert(i);
        return (M *)(base() + i * (1 << 17) + 16 * t.idx(4096));
    }
    void drop(M *m) {
        m->~M();
        used.erase((unsigned)(((char *)m - base()) >> 17));
    }
    std::set<unsigned> used;
};
