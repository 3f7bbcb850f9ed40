#include "alloc.hpp"
#include <cstdlib>
#include <cstring>
#include <new>

namespace mc {
thread_local MemState mem;
namespace {
constexpr uint64_t LIVE = 0xA110C8ED5AFEB10CULL, FREED = 0xDEADF7EEDB10C000ULL, TAIL = 0x7A11CA7A11CA7A11ULL;
struct Header {
    uint64_t magic;
    size_t size;
    uint64_t lib;
    void* base;
};
static_assert(sizeof(Header) == 32);
constexpr int QN = 1024;
struct Quarantine {
    Header* q[QN];
    int head = 0, n = 0;
};
thread_local Quarantine quar;

void release(Header* h) {
    unsigned char* p = reinterpret_cast<unsigned char*>(h + 1);
    bool ok = h->magic == FREED;
    for (size_t i = 0; ok && i < h->size; ++i) ok = p[i] == 0x5A;
    if (!ok && !mem.err) mem.err = "memory written after it was freed";
    std::free(h->base);
}

void* allocate(size_t n, size_t al) {
    if (mem.lib) {
        if (mem.fail_at > 0 && --mem.fail_at == 0) {
            mem.failed = true;
            throw std::bad_alloc();
        }
        if (mem.live > 4000000) throw std::bad_alloc(); // runaway allocation
        ++mem.news;
        ++mem.live;
        if (n > mem.max_block) mem.max_block = n;
    }
    if (al < 16) al = 16;
    void* base = std::malloc(n + sizeof(Header) + 8 + al);
    if (!base) std::abort();
    uintptr_t u = reinterpret_cast<uintptr_t>(base) + sizeof(Header);
    u = (u + al - 1) / al * al;
    Header* h = reinterpret_cast<Header*>(u) - 1;
    h->magic = LIVE;
    h->size = n;
    h->lib = mem.lib;
    h->base = base;
    if (mem.lib) {
        std::memset(reinterpret_cast<void*>(u), 0xA5, n);
        uint64_t t = TAIL;
        std::memcpy(reinterpret_cast<char*>(u) + n, &t, 8);
    }
    return reinterpret_cast<void*>(u);
}

void deallocate(void* p) {
    if (!p) return;
    Header* h = static_cast<Header*>(p) - 1;
    if (h->magic != LIVE) {
        if (!mem.err) mem.err = h->magic == FREED ? "memory freed twice" : "block header overwritten";
        return;
    }
    if (h->lib) {
        --mem.live;
        uint64_t t;
        std::memcpy(&t, static_cast<char*>(p) + h->size, 8);
        if (t != TAIL && !mem.err) mem.err = "write past the end of a block";
        h->magic = FREED;
        std::memset(p, 0x5A, h->size);
        Quarantine& q = quar;
        if (q.n == QN) {
            release(q.q[q.head]);
            q.q[q.head] = h;
            q.head = (q.head + 1) % QN;
        } else {
            q.q[(q.head + q.n) % QN] = h;
            ++q.n;
        }
    } else {
        std::free(h->base);
    }
}
} // namespace

void mem_flush() {
    Quarantine& q = quar;
    for (int i = 0; i < q.n; ++i) release(q.q[(q.head + i) % QN]);
    q.n = 0;
    q.head = 0;
}
} // namespace mc

void* operator new(size_t n) { return mc::allocate(n, 16); }
void* operator new[](size_t n) { return mc::allocate(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return mc::allocate(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return mc::allocate(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { mc::deallocate(p); }
void operator delete[](void* p) noexcept { mc::deallocate(p); }
void operator delete(void* p, size_t) noexcept { mc::deallocate(p); }
void operator delete[](void* p, size_t) noexcept { mc::deallocate(p); }
void operator delete(void* p, std::align_val_t) noexcept { mc::deallocate(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mc::deallocate(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { mc::deallocate(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { mc::deallocate(p); }
