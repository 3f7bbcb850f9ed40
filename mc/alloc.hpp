// Allocation ledger shared by all checks: every operator new/delete of the process goes through it.
// Blocks allocated while a library call is running ("lib" blocks) are counted, filled with a fixed pattern,
// surrounded by canaries and quarantined after deletion, so that leaks, double frees, overruns and
// use after free become deterministic observations.  Allocations can be made to fail.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace mc {
struct MemState {
    bool lib = false;          // inside a library call
    long live = 0;             // lib blocks alive
    uint64_t news = 0;         // lib allocations so far
    size_t max_block = 0;      // largest lib block requested since reset
    long fail_at = 0;          // >0: the fail_at-th lib allocation from now on throws
    bool failed = false;       // an allocation was made to fail
    char const* err = nullptr; // first ledger error (double free, overrun, write after free)
};
extern thread_local MemState mem;

struct InLib {
    bool prev;
    InLib() : prev(mem.lib) { mem.lib = true; }
    ~InLib() { mem.lib = prev; }
};
struct OutLib {
    bool prev;
    OutLib() : prev(mem.lib) { mem.lib = false; }
    ~OutLib() { mem.lib = prev; }
};
// verifies and releases everything in this thread's quarantine
void mem_flush();
}
