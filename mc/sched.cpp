// The runtime behind the instrumentation of clang's -fsanitize=thread (the library itself is not linked), the
// scheduler and the exploration.  See sched.hpp.
#include "sched.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <link.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" char __data_start, _end;

namespace sch {
std::vector<std::unique_ptr<Space>>& spaces() {
    static std::vector<std::unique_ptr<Space>> v;
    return v;
}
namespace {
// ---- options and results ----
struct Shared { // between the worker processes
    std::atomic<long> next{0};
    std::atomic<uint64_t> executions{0}, programs{0}, points{0}, accesses{0}, atomics{0}, answers{0}, preempted{0};
    std::atomic<int> depth{0}, found{0}, capped{0}, longest{0}, stale{0};
    std::atomic<uint64_t> space_execs[64], space_progs[64], space_skipped[64];
    std::atomic<int> space_points[64];
    char sample[64][400];
};
Shared* sh = nullptr;
std::string out_dir = "/tmp";
double budget = 240;
bool thorough = false, replaying = false;
std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

// ---- memory ----
constexpr size_t ARENA = 1 << 19;
constexpr size_t SPACE = ARENA * MAXT;
char* arena = nullptr;
size_t used[MAXT];
uint8_t* state = nullptr; // per byte: 0 outside of any block, 1 live, 2 freed
uint32_t* blocksize = nullptr; // per 16 bytes, at the start of a block
long live_blocks = 0;
size_t gsize = 0; // globals, rounded
char* gbase = nullptr;

struct Plain {
    uint32_t w, wt;
    uint32_t r[MAXT];
};
Plain* plain = nullptr; // per byte of the arenas, then of the globals
uint32_t* locidx = nullptr; // per 4 bytes, likewise

// ---- clocks ----
struct VC {
    uint32_t c[MAXT];
    void join(VC const& o) {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};
struct Store {
    uint64_t value;
    int tid;
    uint32_t clk;
    VC rel;
};
struct Read {
    int tid;
    uint32_t clk;
    int idx;
};
struct Loc {
    uintptr_t addr = 0;
    uint32_t aw[MAXT], ar[MAXT]; // last atomic write and read of each thread
    uint32_t tids = 0;
    std::vector<Store> hist;
    std::vector<Read> reads;
};
std::vector<Loc> locs;
size_t nlocs = 0;
struct Thread {
    VC c, acq, rel; // clock; what an acquire fence would acquire; what the last release fence released
    ucontext_t ctx;
    char* stack = nullptr;
    bool done = false;
    void* blocked = nullptr;
    std::vector<char> tls;
    uint64_t eh[2] = {0, 0};
};
Thread th[MAXT];
uint32_t G = 1;
int cur = 0;
bool on = false; // inside an execution
int permanent = 0;
int inside = 0;  // inside the runtime
ucontext_t main_ctx;
Space* space = nullptr;
long program = 0;
int bound = 0, preemptions = 0, stale_used = 0, npoints = 0;
uint64_t steps = 0;
std::vector<uintptr_t> shared_locs;
bool grown = false;
struct Choice {
    uint16_t n, taken;
};
std::vector<Choice> stack_;
size_t at = 0;
std::string trace_text;
struct Lock {
    void* m;
    int owner;
    VC c;
};
std::vector<Lock> locks;

long shadow(uintptr_t a);
[[noreturn]] void report(char const* msg) {
    inside++;
    on = false;
    if (replaying) {
        printf("%sREPRODUCED: %s\n", trace_text.c_str(), msg);
        fflush(stdout);
        _exit(1);
    }
    if (sh->found.exchange(1)) _exit(1);
    std::string p = out_dir + "/replay-candidate.txt";
    std::ofstream f(p);
    f << space->name << "\n" << program << " " << bound << "\n";
    for (size_t i = 0; i < at && i < stack_.size(); ++i) f << stack_[i].taken << "/" << stack_[i].n << " ";
    f << "\nshared";
    for (uintptr_t a : shared_locs) f << " " << shadow(a);
    f << "\n# " << space->describe(program) << "\n! " << msg << "\n";
    f.close();
    printf("CANDIDATE %s\nMESSAGE [%s] %s: %s\n", p.c_str(), space->name.c_str(), space->describe(program).c_str(), msg);
    fflush(stdout);
    _exit(1);
}
} // namespace

void violation(char const* fmt, ...) {
    ++inside;
    static char b[600];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    report(b);
}
void note_answers(uint64_t n) { sh->answers.fetch_add(n, std::memory_order_relaxed); }
void note_depth(int d) {
    int o = sh->depth.load();
    while (d > o && !sh->depth.compare_exchange_weak(o, d)) {}
}

namespace {
int choose(int n) {
    if (n <= 1) return 0;
    if (at < stack_.size()) {
        if (stack_[at].n != n) {
            fprintf(stderr, "internal: an execution is not deterministic (%s program %ld: %d choices, there were %d)\n", space->name.c_str(), program, n, stack_[at].n);
            _exit(3);
        }
        return stack_[at++].taken;
    }
    stack_.push_back({static_cast<uint16_t>(n), 0});
    ++at;
    return 0;
}

// ---- shadow ----
long shadow(uintptr_t a) {
    uintptr_t b = reinterpret_cast<uintptr_t>(arena);
    if (a - b < SPACE) return static_cast<long>(a - b);
    b = reinterpret_cast<uintptr_t>(gbase);
    if (a - b < gsize) return static_cast<long>(a - b + SPACE);
    return -1;
}
char const* what(long s) { return s < static_cast<long>(SPACE) ? "a node or element" : "a global variable"; }

void race(long s, char const* mine, int other, char const* theirs) {
    violation("data race on %s: thread %d %s what thread %d %s, with nothing that orders the two", what(s), cur, mine, other, theirs);
}

void access(void const* p, size_t n, bool write, bool freeing = false) {
    if (!on || inside) return;
    long s0 = shadow(reinterpret_cast<uintptr_t>(p));
    if (s0 < 0) return;
    ++inside;
    VC const& c = th[cur].c;
    if (++steps > 20000000) violation("an execution does not end");
    char const* mine = freeing ? "frees" : write ? "writes" : "reads";
    for (size_t i = 0; i < n; ++i) {
        long s = s0 + static_cast<long>(i);
        if (s < static_cast<long>(SPACE) && state[s] != 1)
            violation("thread %d %s memory %s", cur, mine, state[s] == 2 ? "that was freed" : "outside of any block");
        Plain& q = plain[s];
        if (q.w > c.c[q.wt]) race(s, mine, static_cast<int>(q.wt), "writes");
        if (write)
            for (int t = 0; t < MAXT; ++t)
                if (q.r[t] > c.c[t]) race(s, mine, t, "reads");
        if ((s & 3) == 0 || i == 0) {
            uint32_t l = locidx[s >> 2];
            if (l && locs[l - 1].addr) {
                Loc& x = locs[l - 1];
                for (int t = 0; t < MAXT; ++t) {
                    if (x.aw[t] > c.c[t]) race(s, mine, t, "updates atomically");
                    if (write && x.ar[t] > c.c[t]) race(s, mine, t, "reads atomically");
                }
                if (write) x.hist.clear();
            }
        }
        if (write) {
            q.w = c.c[cur];
            q.wt = static_cast<uint32_t>(cur);
        } else q.r[cur] = c.c[cur];
    }
    --inside;
}

// ---- scheduling ----
struct Tls {
    char* p = nullptr;
    size_t n = 0;
    std::vector<char> image;
} tls;
void find_tls() {
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
        for (int k = 0; k < i->dlpi_phnum; ++k)
            if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
                tls.p = static_cast<char*>(i->dlpi_tls_data);
                tls.n = i->dlpi_phdr[k].p_memsz;
            }
        return 1; // the executable comes first
    }, nullptr);
    tls.image.assign(tls.p, tls.p + tls.n);
}
void leave(int t) {
    if (tls.n) memcpy(th[t].tls.data(), tls.p, tls.n);
    memcpy(th[t].eh, abi::__cxa_get_globals(), 16);
}
void enter(int t) {
    if (tls.n) memcpy(tls.p, th[t].tls.data(), tls.n);
    memcpy(abi::__cxa_get_globals(), th[t].eh, 16);
    cur = t;
}
void switch_to(int t) {
    int me = cur;
    if (replaying) trace_text += "  -> thread " + std::to_string(t) + "\n";
    leave(me);
    enter(t);
    swapcontext(&th[me].ctx, &th[t].ctx);
    // back
}
int runnable(int* out, int except) {
    int n = 0;
    for (int t = 1; t <= space->threads; ++t)
        if (t != except && !th[t].done && !th[t].blocked) out[n++] = t;
    return n;
}
// the running thread may be preempted here
void point(uintptr_t a, char const* op) {
    if (!on || cur == 0) return;
    if (++steps > 2000000) violation("an execution does not end");
    if (a && !std::binary_search(shared_locs.begin(), shared_locs.end(), a)) return;
    ++inside;
    ++npoints;
    if (replaying) trace_text += "  thread " + std::to_string(cur) + ": " + op + " at +" + std::to_string(a - reinterpret_cast<uintptr_t>(arena)) + "\n";
    int others[MAXT], n = runnable(others, cur);
    if (n && preemptions < bound) {
        int k = choose(n + 1);
        if (k) {
            ++preemptions;
            switch_to(others[k - 1]);
        }
    }
    --inside;
}
void fiber_body() {
    int t = cur;
    inside = 0;
    try {
        space->thread(program, t);
    } catch (std::exception const& e) {
        violation("thread %d: unexpected exception: %s", t, e.what());
    } catch (...) {
        violation("thread %d: unexpected exception", t);
    }
    ++inside;
    th[t].done = true;
    int others[MAXT], n = runnable(others, t);
    if (n) {
        int k = choose(n);
        leave(t);
        enter(others[k]);
        if (replaying) trace_text += "  thread " + std::to_string(t) + " ends -> thread " + std::to_string(cur) + "\n";
        setcontext(&th[cur].ctx);
    }
    for (int u = 1; u <= space->threads; ++u)
        if (!th[u].done) violation("deadlock");
    leave(t);
    enter(0);
    setcontext(&main_ctx);
}

constexpr size_t STACK = 1 << 18;
void run_one() {
    for (int t = 0; t < MAXT; ++t) {
        size_t b = static_cast<size_t>(t) * ARENA;
        memset(state + b, 0, used[t]);
        memset(locidx + (b >> 2), 0, (used[t] >> 2) * 4 + 4);
        used[t] = 0;
    }
    memset(locidx + (SPACE >> 2), 0, (gsize >> 2) * 4);
    nlocs = 0;
    live_blocks = 0;
    ++G;
    for (int t = 0; t < MAXT; ++t) {
        for (int u = 0; u < MAXT; ++u) th[t].c.c[u] = G, th[t].acq.c[u] = 0, th[t].rel.c[u] = 0;
        th[t].done = false;
        th[t].blocked = nullptr;
        th[t].eh[0] = th[t].eh[1] = 0;
        th[t].tls = tls.image;
    }
    ++G;
    at = 0;
    preemptions = stale_used = npoints = 0;
    steps = 0;
    locks.clear();
    trace_text.clear();
    cur = 0;
    th[0].c.c[0] = G;
    enter(0);
    on = true;
    inside = 0;
    space->setup(program);
    ++inside;
    for (int t = 1; t <= space->threads; ++t) {
        th[t].c.join(th[0].c);
        th[t].c.c[t] = G;
    }
    ++th[0].c.c[0];
    for (int t = 1; t <= space->threads; ++t) {
        getcontext(&th[t].ctx);
        th[t].ctx.uc_stack.ss_sp = th[t].stack;
        th[t].ctx.uc_stack.ss_size = STACK;
        th[t].ctx.uc_link = nullptr;
        makecontext(&th[t].ctx, fiber_body, 0);
    }
    int first = 1 + choose(space->threads);
    if (replaying) trace_text += "  thread " + std::to_string(first) + " starts\n";
    leave(0);
    enter(first);
    swapcontext(&main_ctx, &th[first].ctx);
    // every thread has ended
    cur = 0;
    for (int t = 1; t <= space->threads; ++t) th[0].c.join(th[t].c);
    ++th[0].c.c[0];
    inside = 0;
    space->finish(program);
    ++inside;
    on = false;
    if (live_blocks) violation("%ld blocks of memory are never freed", live_blocks);
    for (int t = 0; t < MAXT; ++t)
        for (int u = 0; u < MAXT; ++u) G = std::max(G, th[t].c.c[u]);
    // locations that more than one thread has used become scheduling points
    for (size_t i = 0; i < nlocs; ++i) {
        uint32_t m = locs[i].tids & ~1u;
        if (m & (m - 1)) {
            auto it = std::lower_bound(shared_locs.begin(), shared_locs.end(), locs[i].addr);
            if (it == shared_locs.end() || *it != locs[i].addr) {
                shared_locs.insert(it, locs[i].addr);
                grown = true;
            }
        }
    }
    ++G;
    inside = 0;
}
bool next() {
    stack_.resize(std::min(stack_.size(), at));
    while (!stack_.empty() && stack_.back().taken + 1 == stack_.back().n) stack_.pop_back();
    if (stack_.empty()) return false;
    ++stack_.back().taken;
    return true;
}
void explore(Space& s, long p, int b, int si) {
    space = &s;
    program = p;
    bound = b;
    shared_locs.clear();
    uint64_t execs = 0, pts = 0, st = 0;
    // without preemptions first, in every order: that is cheap and finds nearly all of what the threads share
    for (int round = 0; round < 2; ++round) {
        bound = round ? b : 0;
        do {
            grown = false;
            stack_.clear();
            execs = 0;
            bool more;
            do {
                if ((execs & 255) == 0) {
                    alarm(60);
                    if (elapsed() > budget) {
                        sh->capped = 1;
                        sh->space_skipped[si]++;
                        break;
                    }
                }
                run_one();
                ++execs;
                pts += static_cast<uint64_t>(npoints);
                st += steps;
                if (grown && round) break;
                more = next();
            } while (more);
        } while (grown);
    }
    sh->executions += execs;
    sh->space_execs[si] += execs;
    sh->space_progs[si]++;
    sh->programs++;
    sh->points += pts;
    sh->accesses += st;
    int o = sh->space_points[si].load();
    while (npoints > o && !sh->space_points[si].compare_exchange_weak(o, npoints)) {}
}

// ---- atomics ----
Loc& loc_of(void* p, size_t n, uint64_t value) {
    long s = shadow(reinterpret_cast<uintptr_t>(p));
    uint32_t& k = locidx[s >> 2];
    if (!k) {
        if (nlocs == locs.size()) locs.emplace_back();
        Loc& l = locs[nlocs++];
        l.addr = reinterpret_cast<uintptr_t>(p);
        memset(l.aw, 0, sizeof l.aw);
        memset(l.ar, 0, sizeof l.ar);
        l.tids = 0;
        l.hist.clear();
        l.reads.clear();
        k = static_cast<uint32_t>(nlocs);
    }
    Loc& l = locs[k - 1];
    l.tids |= 1u << cur;
    if (l.hist.empty()) { // the value written when the object was made
        Plain const& q = plain[s];
        Store w;
        w.value = value;
        w.tid = static_cast<int>(q.wt);
        w.clk = q.w;
        memset(&w.rel, 0, sizeof w.rel);
        l.hist.push_back(w);
        l.reads.clear();
    }
    (void)n;
    return l;
}
void atomic_check(void* p, size_t n, bool write) {
    long s0 = shadow(reinterpret_cast<uintptr_t>(p));
    VC const& c = th[cur].c;
    for (size_t i = 0; i < n; ++i) {
        long s = s0 + static_cast<long>(i);
        if (s < static_cast<long>(SPACE) && state[s] != 1)
            violation("thread %d %s memory %s", cur, write ? "updates atomically" : "reads atomically", state[s] == 2 ? "that was freed" : "outside of any block");
        Plain& q = plain[s];
        if (q.w > c.c[q.wt]) race(s, write ? "updates atomically" : "reads atomically", static_cast<int>(q.wt), "writes");
        if (write)
            for (int t = 0; t < MAXT; ++t)
                if (q.r[t] > c.c[t]) race(s, "updates atomically", t, "reads");
    }
}
bool acquires(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool releases(int mo) { return mo >= 3; }

template <class T, class F>
T rmw(T* p, int mo, char const* op, F f) {
    if (!on || inside) {
        T o = *p;
        *p = f(o);
        return o;
    }
    point(reinterpret_cast<uintptr_t>(p), op);
    if (shadow(reinterpret_cast<uintptr_t>(p)) < 0) {
        T o = *p;
        *p = f(o);
        return o;
    }
    ++inside;
    atomic_check(p, sizeof(T), true);
    Thread& t = th[cur];
    T old = *p;
    Loc& l = loc_of(p, sizeof(T), static_cast<uint64_t>(old));
    l.aw[cur] = t.c.c[cur];
    VC rel = l.hist.back().rel;
    if (acquires(mo)) t.c.join(rel);
    else t.acq.join(rel);
    rel.join(releases(mo) ? t.c : t.rel); // continues the release sequence
    *p = f(old);
    Store w;
    w.value = static_cast<uint64_t>(*p);
    w.tid = cur;
    w.clk = t.c.c[cur];
    w.rel = rel;
    l.hist.push_back(w);
    ++t.c.c[cur];
    --inside;
    return old;
}
template <class T>
T load(T* p, int mo, bool newest = false) {
    if (!on || inside) return *p;
    point(reinterpret_cast<uintptr_t>(p), "load");
    if (shadow(reinterpret_cast<uintptr_t>(p)) < 0) return *p;
    ++inside;
    atomic_check(p, sizeof(T), false);
    Thread& t = th[cur];
    Loc& l = loc_of(p, sizeof(T), static_cast<uint64_t>(*p));
    l.ar[cur] = t.c.c[cur];
    // coherence: not older than any store or read that happens before this load
    int floor = 0, last = static_cast<int>(l.hist.size()) - 1;
    for (int i = 0; i <= last; ++i)
        if (l.hist[i].clk <= t.c.c[l.hist[i].tid]) floor = i;
    for (Read const& r : l.reads)
        if (r.clk <= t.c.c[r.tid] && r.idx > floor) floor = r.idx;
    int pick = last;
    if (!newest && mo != 5 && floor < last && stale_used < 2 && cur) {
        pick = last - choose(last - floor + 1);
        if (pick != last) {
            ++stale_used;
            sh->stale++;
            if (replaying) trace_text += "  (an older value is read)\n";
        }
    }
    l.reads.push_back({cur, t.c.c[cur], pick});
    if (acquires(mo)) t.c.join(l.hist[pick].rel);
    else t.acq.join(l.hist[pick].rel);
    T v = static_cast<T>(l.hist[pick].value);
    ++t.c.c[cur];
    --inside;
    return v;
}
template <class T>
void store(T* p, T v, int mo) {
    if (!on || inside) {
        *p = v;
        return;
    }
    point(reinterpret_cast<uintptr_t>(p), "store");
    if (shadow(reinterpret_cast<uintptr_t>(p)) < 0) {
        *p = v;
        return;
    }
    ++inside;
    atomic_check(p, sizeof(T), true);
    Thread& t = th[cur];
    Loc& l = loc_of(p, sizeof(T), static_cast<uint64_t>(*p));
    l.aw[cur] = t.c.c[cur];
    *p = v;
    Store w;
    w.value = static_cast<uint64_t>(v);
    w.tid = cur;
    w.clk = t.c.c[cur];
    w.rel = releases(mo) ? t.c : t.rel;
    l.hist.push_back(w);
    ++t.c.c[cur];
    --inside;
}
void fence(int mo) {
    if (!on || inside) return;
    Thread& t = th[cur];
    if (acquires(mo)) t.c.join(t.acq);
    if (releases(mo)) {
        t.rel = t.c;
        ++t.c.c[cur];
    }
}

// ---- allocation ----
void* take(size_t n, size_t al) {
    if (!on || inside || permanent) {
        void* p = nullptr;
        if (al > 16) {
            if (posix_memalign(&p, al, n ? n : 1)) p = nullptr;
        } else p = malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        return p;
    }
    ++inside;
    if (al < 16) al = 16;
    size_t base = static_cast<size_t>(cur) * ARENA;
    size_t u = (used[cur] + 16 + al - 1) / al * al; // at least 16 bytes between blocks
    if (u + n + 32 > ARENA) violation("thread %d allocates without end", cur);
    used[cur] = u + (n + 15) / 16 * 16;
    size_t o = base + u;
    memset(state + o, 1, n);
    memset(arena + o, 0xA5, n);
    memset(locidx + (o >> 2), 0, n);
    blocksize[o >> 4] = static_cast<uint32_t>(n) + 1;
    ++live_blocks;
    --inside;
    access(arena + o, n, true);
    return arena + o;
}
void give(void* p) {
    if (!p) return;
    uintptr_t o = reinterpret_cast<uintptr_t>(p) - reinterpret_cast<uintptr_t>(arena);
    if (o >= SPACE) {
        free(p);
        return;
    }
    if (!on || inside) return;
    uint32_t n = blocksize[o >> 4];
    if ((o & 15) || !n || state[o] == 0) violation("thread %d frees what is not a block", cur);
    if (state[o] == 2) violation("thread %d frees a block twice", cur);
    access(p, n - 1, true, true);
    ++inside;
    memset(state + o, 2, n - 1);
    memset(p, 0x5A, n - 1);
    --live_blocks;
    --inside;
}
} // namespace

// ---- main ----
static void on_signal(int s) {
    on = false;
    report(s == SIGSEGV ? "crash: SIGSEGV" : s == SIGABRT ? "crash: abort or terminate" : s == SIGALRM ? "an execution does not end" : "crash");
}
static void init_memory() {
    auto map = [](size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) abort();
        return p;
    };
    arena = static_cast<char*>(map(SPACE));
    state = static_cast<uint8_t*>(map(SPACE));
    blocksize = static_cast<uint32_t*>(map(SPACE / 16 * 4));
    gbase = &__data_start;
    gsize = (static_cast<size_t>(&_end - &__data_start) + 63) / 64 * 64;
    plain = static_cast<Plain*>(map((SPACE + gsize) * sizeof(Plain)));
    locidx = static_cast<uint32_t*>(map((SPACE + gsize) + 64));
    for (auto& t : th) t.stack = static_cast<char*>(map(STACK));
    find_tls();
    for (auto& t : th) t.tls = tls.image;
}
static int replay(std::string const& file) {
    std::ifstream f(file);
    std::string name, w;
    std::getline(f, name);
    f >> program >> bound;
    std::vector<Choice> cs;
    while (f >> w && w != "shared") {
        Choice c;
        unsigned a, b;
        if (sscanf(w.c_str(), "%u/%u", &a, &b) == 2) {
            c.taken = static_cast<uint16_t>(a);
            c.n = static_cast<uint16_t>(b);
            cs.push_back(c);
        }
    }
    std::getline(f, w);
    shared_locs.clear();
    {
        char const* p = w.c_str();
        char* e;
        while (true) {
            long v = strtol(p, &e, 10);
            if (e == p) break;
            shared_locs.push_back(v < static_cast<long>(SPACE) ? reinterpret_cast<uintptr_t>(arena) + static_cast<uintptr_t>(v) : reinterpret_cast<uintptr_t>(gbase) + static_cast<uintptr_t>(v) - SPACE);
            p = e;
        }
        std::sort(shared_locs.begin(), shared_locs.end());
    }
    for (auto& s : spaces())
        if (s->name == name) {
            space = s.get();
            printf("replaying [%s]: %s\n", name.c_str(), s->describe(program).c_str());
            replaying = true;
            stack_ = cs;
            run_one();
            printf("no violation\n");
            return 0;
        }
    fprintf(stderr, "no space named %s\n", name.c_str());
    return 2;
}
static std::string esc(std::string const& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\';
        r += c;
    }
    return r;
}
static int run(int argc, char** argv) {
    int workers = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
    std::string rep, only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--thorough") thorough = true;
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--out") out_dir = val();
        else if (a == "--replay") rep = val();
        else if (a == "--only") only = val();
        else if (a == "--threads") workers = atoi(val().c_str());
        else return 2;
    }
    sh = new (mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Shared;
    init_memory();
    stack_t ss{};
    ss.ss_sp = malloc(1 << 16);
    ss.ss_size = 1 << 16;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
    std::sort(spaces().begin(), spaces().end(), [](auto const& a, auto const& b) { return a->name < b->name; });
    if (!rep.empty()) return replay(rep);
    std::vector<int> sp;
    std::vector<long> start{0};
    for (size_t i = 0; i < spaces().size(); ++i) {
        Space& s = *spaces()[i];
        int b = thorough ? s.thorough_bound : s.quick_bound;
        if (b < 0 || (!only.empty() && s.name.find(only) == std::string::npos)) continue;
        sp.push_back(static_cast<int>(i));
        start.push_back(start.back() + s.programs);
    }
    if (sp.size() > 60) return 2;
    fflush(stdout);
    std::vector<pid_t> kids;
    for (int w = 0; w < workers; ++w) {
        pid_t k = fork();
        if (k) {
            kids.push_back(k);
            continue;
        }
        while (!sh->found.load()) {
            long i = sh->next.fetch_add(1);
            if (i >= start.back()) break;
            size_t k2 = static_cast<size_t>(std::upper_bound(start.begin(), start.end(), i) - start.begin() - 1);
            Space& s = *spaces()[static_cast<size_t>(sp[k2])];
            if (elapsed() > budget) {
                sh->capped = 1;
                sh->space_skipped[k2]++;
                continue;
            }
            // spread over the programs, so that a search cut short has seen all kinds
            long p = i - start[k2];
            explore(s, p, thorough ? s.thorough_bound : s.quick_bound, static_cast<int>(k2));
        }
        fflush(stdout);
        _exit(0);
    }
    int rc = 0;
    for (pid_t k : kids) {
        int st = 0;
        waitpid(k, &st, 0);
        if (!WIFEXITED(st)) rc = 4;
        else if (WEXITSTATUS(st)) rc = std::max(rc, WEXITSTATUS(st));
    }
    if (sh->found.load()) return 1;
    if (rc) return rc;
    std::string lines, samples;
    for (size_t i = 0; i < sp.size(); ++i) {
        Space& s = *spaces()[static_cast<size_t>(sp[i])];
        char b[500];
        snprintf(b, sizeof b, "%s: %d threads, %llu programs, %llu schedules, preemption bound %d, up to %d scheduling points a schedule%s", s.name.c_str(), s.threads,
                 (unsigned long long)sh->space_progs[i].load(), (unsigned long long)sh->space_execs[i].load(), thorough ? s.thorough_bound : s.quick_bound,
                 sh->space_points[i].load(), sh->space_skipped[i].load() ? " (cut short by the time budget)" : "");
        printf("%s\n", b);
        lines += (i ? ",\"" : "\"") + esc(b) + "\"";
        if (i < 12) samples += (i ? ",\"" : "\"") + esc(s.name + ": " + s.describe(s.programs / 2 + 1)) + "\"";
    }
    std::ofstream f(out_dir + "/stats.json");
    f << "{\"states\":" << sh->programs.load() << ",\"transitions\":" << sh->executions.load() << ",\"probes\":0,\"replayed\":" << sh->executions.load()
      << ",\"queries\":" << sh->answers.load() << ",\"explorations\":" << sp.size() << ",\"closed\":0,\"max_depth\":0,\"tree_depth\":" << sh->depth.load()
      << ",\"capped\":" << (sh->capped.load() ? "true" : "false") << ",\"programs\":" << sh->programs.load() << ",\"schedules\":" << sh->executions.load()
      << ",\"scheduling_points\":" << sh->points.load() << ",\"accesses_checked\":" << sh->accesses.load() << ",\"samples\":[" << samples << "],\"lines\":[" << lines << "]}\n";
    printf("TOTAL programs=%llu schedules=%llu points=%llu accesses=%llu answers=%llu time=%.1fs\n", (unsigned long long)sh->programs.load(), (unsigned long long)sh->executions.load(),
           (unsigned long long)sh->points.load(), (unsigned long long)sh->accesses.load(), (unsigned long long)sh->answers.load(), elapsed());
    return 0;
}
} // namespace sch

int main(int argc, char** argv) { return sch::run(argc, argv); }

// ---- what instrumented code calls ----
using namespace sch;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false); } \
    void __tsan_write##n(void* p) { access(p, n, true); } \
    void __tsan_read_write##n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void* __tsan_memcpy(void* d, void const* s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, void const* s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
    access(d, n, true);
    return memset(d, c, n);
}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(T const volatile* p, int mo) { return load(const_cast<T*>(p), mo); } \
    void __tsan_atomic##bits##_store(T volatile* p, T v, int mo) { store(const_cast<T*>(p), v, mo); } \
    T __tsan_atomic##bits##_exchange(T volatile* p, T v, int mo) { return rmw(const_cast<T*>(p), mo, "exchange", [v](T) { return v; }); } \
    T __tsan_atomic##bits##_fetch_add(T volatile* p, T v, int mo) { return rmw(const_cast<T*>(p), mo, "fetch_add", [v](T o) { return static_cast<T>(o + v); }); } \
    T __tsan_atomic##bits##_fetch_sub(T volatile* p, T v, int mo) { return rmw(const_cast<T*>(p), mo, "fetch_sub", [v](T o) { return static_cast<T>(o - v); }); } \
    T __tsan_atomic##bits##_fetch_and(T volatile* p, T v, int mo) { return rmw(const_cast<T*>(p), mo, "fetch_and", [v](T o) { return static_cast<T>(o & v); }); } \
    T __tsan_atomic##bits##_fetch_or(T volatile* p, T v, int mo) { return rmw(const_cast<T*>(p), mo, "fetch_or", [v](T o) { return static_cast<T>(o | v); }); } \
    T __tsan_atomic##bits##_fetch_xor(T volatile* p, T v, int mo) { return rmw(const_cast<T*>(p), mo, "fetch_xor", [v](T o) { return static_cast<T>(o ^ v); }); } \
    T __tsan_atomic##bits##_fetch_nand(T volatile* p, T v, int mo) { return rmw(const_cast<T*>(p), mo, "fetch_nand", [v](T o) { return static_cast<T>(~(o & v)); }); } \
    T __tsan_atomic##bits##_compare_exchange_val(T volatile* p, T e, T v, int mo, int fmo) { \
        if (on && !inside) point(reinterpret_cast<uintptr_t>(p), "compare_exchange"); \
        auto saved = bound; \
        bound = 0; \
        T r; \
        if (*const_cast<T*>(p) == e) r = rmw(const_cast<T*>(p), mo, "", [v](T) { return v; }); \
        else r = load(const_cast<T*>(p), fmo, true); \
        bound = saved; \
        return r; \
    } \
    int __tsan_atomic##bits##_compare_exchange_strong(T volatile* p, T* e, T v, int mo, int fmo) { \
        T r = __tsan_atomic##bits##_compare_exchange_val(p, *e, v, mo, fmo); \
        if (r == *e) return 1; \
        *e = r; \
        return 0; \
    } \
    int __tsan_atomic##bits##_compare_exchange_weak(T volatile* p, T* e, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// locks: within an execution they are the scheduler's
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!on || inside || cur == 0) return 0; // there is one operating system thread
    point(0, "lock");
    while (true) {
        ++inside;
        Lock* l = nullptr;
        for (auto& x : locks)
            if (x.m == m) l = &x;
        if (!l) {
            locks.push_back({m, 0, {}});
            l = &locks.back();
        }
        if (!l->owner) {
            l->owner = cur;
            th[cur].c.join(l->c);
            --inside;
            return 0;
        }
        th[cur].blocked = m;
        int others[MAXT], n = runnable(others, cur);
        if (!n) violation("deadlock");
        switch_to(others[choose(n)]);
        --inside;
    }
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!on || inside || cur == 0) return 0;
    ++inside;
    for (auto& x : locks)
        if (x.m == m) {
            x.owner = 0;
            x.c = th[cur].c;
        }
    ++th[cur].c.c[cur];
    for (auto& t : th)
        if (t.blocked == m) t.blocked = nullptr;
    --inside;
    return 0;
}
// initialisation of function-local static variables
// (what they allocate outlives the execution, so it does not come from its memory)
int __cxa_guard_acquire(abi::__guard* g) {
    if (*reinterpret_cast<char*>(g)) return 0;
    ++permanent;
    return 1;
}
void __cxa_guard_release(abi::__guard* g) noexcept {
    --permanent;
    store(reinterpret_cast<uint8_t*>(g), static_cast<uint8_t>(1), 3);
}
void __cxa_guard_abort(abi::__guard*) noexcept { --permanent; }
}
void* operator new(size_t n) { return take(n, 16); }
void* operator new[](size_t n) { return take(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return take(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, static_cast<size_t>(a)); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return take(n, 16); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return take(n, 16); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { give(p); }
