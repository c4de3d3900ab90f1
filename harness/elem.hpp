// Element types that watch their own lifetime.
#pragma once
#include "pbt.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>

inline pbt::T *cur_t = nullptr;
inline long live_count = 0;

// Factor on the sizes that generators choose, for properties on large data.
inline size_t scale = 1;
struct Scale {
    explicit Scale(size_t s) { scale = s; }
    ~Scale() { scale = 1; }
};

template<int Align, bool Copyable> struct alignas(Align) Elem {
    int v;
    int state; // 0x600D alive, 0xDEAD destroyed
    const void *self;
    static constexpr int DEFAULT = 7;

    void born() noexcept {
        self = this;
        state = 0x600D;
        ++live_count;
        if((uintptr_t)this % Align)
            cur_t->fail("element constructed at a misaligned address");
    }
    void check(const char *what) const noexcept {
        if(state != 0x600D || self != this)
            cur_t->fail("%s of an object that is not alive (state %x)", what, (unsigned)state);
    }
    Elem() noexcept : v(DEFAULT) { born(); }
    explicit Elem(int x) noexcept : v(x) { born(); }
    Elem(const Elem &o) noexcept
        requires Copyable
        : v(o.v) {
        o.check("copy");
        born();
    }
    Elem(Elem &&o) noexcept : v(o.v) {
        o.check("move");
        o.v = -77;
        born();
    }
    Elem &operator=(const Elem &o) noexcept
        requires Copyable
    {
        check("assignment");
        o.check("copy");
        v = o.v;
        return *this;
    }
    Elem &operator=(Elem &&o) noexcept {
        check("assignment");
        o.check("move");
        int x = o.v;
        if(this != &o)
            o.v = -77;
        v = x;
        return *this;
    }
    ~Elem() {
        check("destruction");
        state = 0xDEAD;
        --live_count;
    }
    int get() const {
        check("read");
        return v;
    }
    bool operator==(const Elem &o) const { return get() == o.get(); }
    bool operator!=(const Elem &o) const { return get() != o.get(); }
    bool operator<(const Elem &o) const { return get() < o.get(); }
    int operator<=>(const Elem &o) const { return get() < o.get() ? -1 : get() > o.get(); }
};
using Tracked = Elem<8, true>;
using MoveOnly = Elem<8, false>;
using Aligned = Elem<64, true>;

struct Lifetimes { // put one at the top of a property
    explicit Lifetimes(pbt::T &t_) : t(t_) {
        cur_t = &t_;
        live_count = 0;
    }
    ~Lifetimes() {
        if(live_count != 0)
            t.fail("%ld element(s) still alive after everything was destroyed (leaked or double destroyed)", live_count);
    }
    pbt::T &t;
};

template<typename E> struct EI { // element interface
    static int get(const E &e) { return e.get(); }
    static E make(int v) { return E(v); }
    static constexpr bool copyable = std::is_copy_constructible_v<E>;
    static constexpr int def = E::DEFAULT;
};
template<> struct EI<int> {
    static int get(const int &e) { return e; }
    static int make(int v) { return v; }
    static constexpr bool copyable = true;
    static constexpr int def = 0;
};
template<> struct EI<unsigned char> {
    static int get(const unsigned char &e) { return e; }
    static unsigned char make(int v) { return (unsigned char)v; }
    static constexpr bool copyable = true;
    static constexpr int def = 0;
};

// True if the call ends the process by abort or throws; false if it returns. Runs in a child.
template<typename F> bool aborts_or_throws(F &&f) {
    fflush(nullptr);
    pid_t pid = fork();
    if(pid == 0) {
        signal(SIGABRT, SIG_DFL);
        int code = 55;
        try {
            f();
        } catch(...) {
            code = 56;
        }
        _exit(code);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if(WIFEXITED(st) && WEXITSTATUS(st) == 55)
        return false;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 56)
        return true;
    return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
