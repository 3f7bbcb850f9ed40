// Element type which owns nothing but tracks its own lifetime: every use of an element that was not created,
// was destroyed, or has been moved away (or overwritten byte-wise) is noticed.
#pragma once
#include <cstdint>
#include "alloc.hpp"
#include "engine.hpp"

namespace mc {
struct Injected {
    int cls;
};
// the n-th call of a caller-supplied function of class cls throws
struct Fault {
    static inline thread_local int cls = -1;
    static inline thread_local long n = 0;
    static inline thread_local bool hit = false;
    static void point(int c) {
        if (c == cls && n > 0 && mem.lib && --n == 0) {
            hit = true;
            throw Injected{c};
        }
    }
};
enum { FC_ALLOC, FC_COMPARE, FC_UPDATE, FC_ELEMENT, FC_N };
template <int tag>
struct TokCount {
    static inline thread_local long live = 0;
};
template <int tag>
struct Tok {
    static constexpr uint32_t ALIVE = 0xA11FE000u, MOVED = 0x30FEDu, DEAD = 0xDEADu;
    uint32_t id;
    uint32_t state;
    Tok const* self;

    static void bad(char const* m) {
        if (!soft_err) soft_err = m;
    }
    void usable(char const* m) const {
        if (state != ALIVE || self != this) bad(m);
    }
    void exists(char const* m) const {
        if ((state != ALIVE && state != MOVED) || self != this) bad(m);
    }
    Tok() : id(0), state(ALIVE), self(this) { ++TokCount<tag>::live; }
    explicit Tok(uint32_t i) : id(i), state(ALIVE), self(this) { ++TokCount<tag>::live; }
    Tok(Tok const& o) : id(o.id), state(ALIVE), self(this) {
        o.usable("copied an element that does not exist or was moved away");
        Fault::point(FC_ELEMENT);
        ++TokCount<tag>::live;
    }
    Tok(Tok&& o) noexcept : id(o.id), state(ALIVE), self(this) {
        o.usable("moved an element that does not exist or was moved away");
        o.state = MOVED;
        o.id = 0xFFFFFFFFu;
        ++TokCount<tag>::live;
    }
    Tok& operator=(Tok const& o) {
        exists("assigned to an element that does not exist");
        o.usable("copied an element that does not exist or was moved away");
        Fault::point(FC_ELEMENT);
        id = o.id;
        state = ALIVE;
        return *this;
    }
    Tok& operator=(Tok&& o) noexcept {
        exists("assigned to an element that does not exist");
        o.usable("moved an element that does not exist or was moved away");
        uint32_t i = o.id;
        o.state = MOVED;
        o.id = 0xFFFFFFFFu;
        id = i;
        state = ALIVE;
        return *this;
    }
    ~Tok() {
        exists("destroyed an element that does not exist");
        state = DEAD;
        self = nullptr;
        --TokCount<tag>::live;
    }
    friend bool operator==(Tok const& a, Tok const& b) {
        a.usable("compared an element that does not exist");
        b.usable("compared an element that does not exist");
        return a.id == b.id;
    }
    friend bool operator<(Tok const& a, Tok const& b) {
        a.usable("compared an element that does not exist");
        b.usable("compared an element that does not exist");
        return a.id < b.id;
    }
};
}
