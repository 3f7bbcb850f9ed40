// Stateless model checker for programs of a few threads: a controlled scheduler (fibers), every access of the
// instrumented code checked against vector clocks, memory which is never reused within an execution.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

namespace sch {
constexpr int MAXT = 4; // thread 0 is the one that sets up and cleans up

// a space of programs: program i is executed under every schedule within the bound
struct Space {
    std::string name;
    long programs = 0;
    int threads = 2;              // beside thread 0
    int quick_bound = 2, thorough_bound = 3; // preemptions; -1: not in this tier
    virtual ~Space() = default;
    virtual void setup(long program) = 0;             // on thread 0, before the others start
    virtual void thread(long program, int t) = 0;     // t = 1..threads
    virtual void finish(long program) = 0;            // on thread 0, after the others have ended
    virtual std::string describe(long program) = 0;   // outside of executions
};
std::vector<std::unique_ptr<Space>>& spaces();
[[noreturn]] void violation(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
void note_answers(uint64_t n);
void note_depth(int d);
} // namespace sch
