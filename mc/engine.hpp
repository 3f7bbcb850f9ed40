// Explicit-state exploration of real objects.
//
// A state is the operation history that reaches it; it is rebuilt by replaying that history on fresh objects.
// Breadth-first search: every operation enabled in a state is executed on a fresh replay of the state, and the
// result is identified by a 128-bit hash of its canonical form.  Each new state is verified completely.
//
// A model provides
//   struct Inst;                                   fresh objects + reference model
//   std::unique_ptr<Inst> make();
//   void apply(Inst&, Op);                         performs op on both, throws Violation on disagreement
//   void enabled(Inst&, std::vector<Op>&);         ops leading to further states
//   void probes(Inst&, std::vector<Op>&);          ops whose result is checked but not explored further
//   void quick(Inst&);                             contents against the reference model (run after every transition)
//   void verify(Inst&);                            all queries against the reference model (run in every new state)
//   void canon(Inst&, Canon&);                     canonical form
//   void finish(std::unique_ptr<Inst>);            destroys, checks the ledger
//   std::string describe(Op);
//   std::vector<std::vector<Op>> bases;            initial states (as histories)
#pragma once
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unordered_map>
#include <algorithm>
#include <tuple>
#include <unistd.h>
#include <vector>
#include "alloc.hpp"

namespace mc {

struct Op {
    uint8_t k = 0, s = 0, d = 0, v = 0;
    uint16_t a = 0, b = 0;
};
static_assert(sizeof(Op) == 8);

struct Violation {
    std::string msg;
};

[[noreturn]] inline void fail(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail(char const* fmt, ...) {
    OutLib o;
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Violation{buf};
}

// errors noticed where nothing can be thrown (inside element constructors and destructors)
extern thread_local char const* soft_err;
inline void check_soft() {
    if (soft_err) {
        char const* e = soft_err;
        soft_err = nullptr;
        fail("%s", e);
    }
    if (mem.err) {
        char const* e = mem.err;
        mem.err = nullptr;
        fail("%s", e);
    }
}

struct Hash {
    uint64_t a, b;
    bool operator==(Hash const& o) const { return a == o.a && b == o.b; }
    bool operator<(Hash const& o) const { return a < o.a || (a == o.a && b < o.b); }
};
struct HashHash {
    size_t operator()(Hash const& h) const { return h.a; }
};

struct Canon {
    std::vector<uint64_t> w;
    void put(uint64_t x) { w.push_back(x); }
    Hash hash() const {
        uint64_t a = 0x9E3779B97F4A7C15ULL ^ w.size(), b = 0xC2B2AE3D27D4EB4FULL + w.size();
        for (uint64_t x : w) {
            a = mix(a ^ x);
            b = mix(b + x * 0x9FB21C651E98DF25ULL + 0x2545F4914F6CDD1DULL);
        }
        return {a, b};
    }
    static uint64_t mix(uint64_t x) {
        x ^= x >> 32;
        x *= 0xD6E8FEB86659FD93ULL;
        x ^= x >> 32;
        x *= 0xD6E8FEB86659FD93ULL;
        x ^= x >> 32;
        return x;
    }
};

struct Stats {
    uint64_t states = 0, transitions = 0, probes = 0, replayed = 0, explorations = 0, closed = 0;
    std::atomic<uint64_t> queries{0}, tree_depth{0};
    void saw_depth(uint64_t d) {
        uint64_t c = tree_depth.load(std::memory_order_relaxed);
        while (d > c && !tree_depth.compare_exchange_weak(c, d)) {}
    }
    uint64_t max_depth = 0;
    bool capped = false;
    std::vector<std::string> samples, lines;
};
extern Stats stats;
extern thread_local uint64_t local_queries;

struct Options {
    int threads = 8;
    bool thorough = false;
    double budget_s = 1e9;      // soft time budget of the whole binary
    std::string out;            // directory for replay files
    std::string replay;         // replay file
    std::string only;           // run only explorations whose name contains this
    bool trace = false;
    std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
    double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count(); }
};
extern Options opt;

// ---- reporting of crashes and hangs -------------------------------------------------------------------------
struct Current {
    // a function which writes the current history into buf (async-signal-safe enough), set by the explorer
    void const* explorer = nullptr;
    void (*dump)(Current const&, int fd) = nullptr;
    uint32_t state = ~0u;
    Op op{};
    bool has_op = false;
    std::atomic<uint64_t> since{0};
};
extern thread_local Current* current;
Current* register_current();
[[noreturn]] void candidate(std::string const& exploration, std::string const& history, std::string const& msg);
void install_handlers();
uint64_t now_ms();

struct Exploration {
    std::string name;
    bool thorough_only = false;
    bool quick_only = false;
    std::function<void()> run;
    std::function<void(std::vector<Op> const&)> replay;
};
std::vector<Exploration>& explorations();
int engine_main(int argc, char** argv);

// ---- explorer -----------------------------------------------------------------------------------------------
template <class M>
struct Explorer {
    std::string name;
    M& m;
    int max_depth;
    uint64_t max_states;
    struct Node {
        uint32_t parent;
        Op op;
    };
    std::vector<Node> nodes; // parent == ~0: op.a = index of base
    std::vector<Hash> hashes;

    Explorer(std::string n, M& m, int depth, uint64_t max_states) : name(std::move(n)), m(m), max_depth(depth), max_states(max_states) {}

    std::vector<Op> history(uint32_t s) const {
        std::vector<Op> h;
        while (nodes[s].parent != ~0u) {
            h.push_back(nodes[s].op);
            s = nodes[s].parent;
        }
        uint32_t b = nodes[s].op.a | (uint32_t(nodes[s].op.b) << 16);
        std::vector<Op> r(m.bases[b]);
        r.insert(r.end(), h.rbegin(), h.rend());
        return r;
    }

    static void dump(Current const& c, int fd) {
        Explorer const* e = static_cast<Explorer const*>(c.explorer);
        char buf[128];
        auto w = [&](Op o) {
            int n = snprintf(buf, sizeof buf, "%d %d %d %d %d %d\n", o.k, o.s, o.d, o.v, o.a, o.b);
            if (write_(fd, buf, n)) {}
        };
        int n = snprintf(buf, sizeof buf, "%s\n", e->name.c_str());
        if (write_(fd, buf, n)) {}
        static Op ops[65536];
        int cnt = 0;
        if (c.state != ~0u) {
            uint32_t s = c.state;
            while (e->nodes[s].parent != ~0u && cnt < 65536) {
                ops[cnt++] = e->nodes[s].op;
                s = e->nodes[s].parent;
            }
            uint32_t b = e->nodes[s].op.a | (uint32_t(e->nodes[s].op.b) << 16);
            for (Op o : e->m.bases[b]) w(o);
        }
        while (cnt) w(ops[--cnt]);
        if (c.has_op) w(c.op);
    }
    static long write_(int fd, char const* b, int n) { return ::write(fd, b, static_cast<size_t>(n)); }

    std::string text(std::vector<Op> const& h) const {
        std::string r = name + "\n";
        char buf[96];
        for (Op o : h) {
            snprintf(buf, sizeof buf, "%d %d %d %d %d %d  # ", o.k, o.s, o.d, o.v, o.a, o.b);
            r += buf + m.describe(o) + "\n";
        }
        return r;
    }

    std::unique_ptr<typename M::Inst> rebuild(std::vector<Op> const& h) {
        auto i = m.make();
        for (Op o : h) {
            m.apply(*i, o);
            check_soft();
        }
        return i;
    }

    struct Found {
        uint32_t parent;
        uint32_t seq;
        Op op;
    };
    struct Shard {
        std::mutex mu;
        std::unordered_map<Hash, Found, HashHash> fresh;
        std::unordered_map<Hash, char, HashHash> old;
    };
    static constexpr int NS = 64;
    Shard shards[NS];

    bool offer(Hash h, Found f) {
        Shard& s = shards[h.a % NS];
        std::lock_guard<std::mutex> g(s.mu);
        if (s.old.count(h)) return false;
        auto [it, ins] = s.fresh.emplace(h, f);
        if (!ins && (f.parent < it->second.parent || (f.parent == it->second.parent && f.seq < it->second.seq))) it->second = f;
        return ins;
    }

    template <class F>
    void guard(std::function<std::vector<Op>()> hist, F&& f) {
        try {
            f();
        } catch (Violation const& v) {
            candidate(name, text(hist()), v.msg);
        } catch (std::exception const& e) {
            candidate(name, text(hist()), std::string("unexpected exception: ") + e.what());
        }
    }

    template <class F>
    void parallel(size_t n, F&& f) {
        std::atomic<size_t> next{0};
        int nt = opt.threads;
        if (n < 2) nt = 1;
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; ++t)
            ts.emplace_back([&] {
                Current* c = register_current();
                c->explorer = this;
                c->dump = &dump;
                while (true) {
                    size_t i = next.fetch_add(1);
                    if (i >= n) break;
                    f(i, *c);
                }
                c->since = 0;
                c->explorer = nullptr;
                stats.queries += local_queries;
                local_queries = 0;
            });
        for (auto& t : ts) t.join();
    }

    // merges freshly found states into nodes in a deterministic order, returns range
    std::pair<uint32_t, uint32_t> commit() {
        std::vector<std::pair<Hash, Found>> v;
        for (auto& s : shards) {
            for (auto& [h, f] : s.fresh) {
                v.emplace_back(h, f);
                s.old.emplace(h, 0);
            }
            s.fresh.clear();
        }
        std::sort(v.begin(), v.end(), [](auto const& x, auto const& y) {
            return std::tie(x.second.parent, x.second.seq) < std::tie(y.second.parent, y.second.seq);
        });
        uint32_t b = static_cast<uint32_t>(nodes.size());
        for (auto& [h, f] : v) {
            nodes.push_back({f.parent, f.op});
            hashes.push_back(h);
        }
        return {b, static_cast<uint32_t>(nodes.size())};
    }

    void run() {
        auto t0 = std::chrono::steady_clock::now();
        uint64_t trans = 0, probes = 0;
        std::atomic<uint64_t> atrans{0}, aprobes{0}, areplayed{0};
        std::atomic<bool> stop{false};
        // bases
        parallel(m.bases.size(), [&](size_t i, Current& c) {
            c.state = ~0u;
            c.has_op = false;
            c.since = now_ms();
            guard([&] { return m.bases[i]; }, [&] {
                auto in = rebuild(m.bases[i]);
                Canon cn;
                m.canon(*in, cn);
                Op o;
                o.a = i & 0xFFFF;
                o.b = i >> 16;
                m.quick(*in);
                check_soft();
                offer(cn.hash(), {~0u, static_cast<uint32_t>(i), o});
                m.finish(std::move(in));
                check_soft();
            });
        });
        auto [lo, hi] = commit();
        int depth = 0;
        bool capped = false;
        while (lo < hi) {
            bool expand = depth < max_depth;
            if (nodes.size() > max_states && expand) {
                expand = false;
                capped = true;
            }
            if (opt.elapsed() > opt.budget_s) {
                capped = true;
                break;
            }
            parallel(hi - lo, [&](size_t i, Current& c) {
                if (stop) return;
                if (opt.elapsed() > opt.budget_s) {
                    stop = true;
                    return;
                }
                uint32_t s = lo + static_cast<uint32_t>(i);
                c.state = s;
                c.has_op = false;
                c.since = now_ms();
                auto hist = history(s);
                std::vector<Op> ops, pr;
                guard([&] { return hist; }, [&] {
                    auto in = rebuild(hist);
                    Canon cn;
                    m.canon(*in, cn);
                    if (!(cn.hash() == hashes[s])) fail("the same history led to two different states (uninitialised memory?)");
                    m.verify(*in);
                    check_soft();
                    if (expand) m.enabled(*in, ops);
                    m.probes(*in, pr);
                    m.finish(std::move(in));
                    check_soft();
                    ++areplayed;
                });
                uint32_t seq = 0;
                for (Op o : ops) {
                    c.op = o;
                    c.has_op = true;
                    c.since = now_ms();
                    guard([&] { auto h = hist; h.push_back(o); return h; }, [&] {
                        auto in = rebuild(hist);
                        m.apply(*in, o);
                        check_soft();
                        m.quick(*in);
                        check_soft();
                        Canon cn;
                        m.canon(*in, cn);
                        offer(cn.hash(), {s, seq, o});
                        m.finish(std::move(in));
                        check_soft();
                    });
                    ++seq;
                }
                atrans += ops.size();
                for (Op o : pr) {
                    c.op = o;
                    c.has_op = true;
                    c.since = now_ms();
                    guard([&] { auto h = hist; h.push_back(o); return h; }, [&] {
                        auto in = rebuild(hist);
                        m.apply(*in, o);
                        check_soft();
                        m.verify(*in);
                        check_soft();
                        m.finish(std::move(in));
                        check_soft();
                    });
                }
                aprobes += pr.size();
            });
            if (stop) capped = true;
            if (!expand || stop) break;
            ++depth;
            std::tie(lo, hi) = commit();
        }
        bool closed = lo >= hi;
        trans = atrans;
        probes = aprobes;
        stats.states += nodes.size();
        stats.transitions += trans;
        stats.probes += probes;
        stats.replayed += areplayed;
        stats.explorations++;
        stats.closed += closed;
        stats.capped |= capped;
        if (static_cast<uint64_t>(depth) > stats.max_depth) stats.max_depth = depth;
        char buf[400];
        snprintf(buf, sizeof buf, "%s: bases=%zu states=%zu transitions=%llu probes=%llu depth=%d%s%s %.1fs", name.c_str(), m.bases.size(),
                 nodes.size(), (unsigned long long)trans, (unsigned long long)probes, depth, closed ? " closed" : "",
                 capped ? " CAPPED" : "", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
        stats.lines.push_back(buf);
        printf("%s\n", buf);
        fflush(stdout);
        if (!nodes.empty()) {
            std::string t;
            auto h = history(static_cast<uint32_t>(nodes.size() - 1));
            size_t from = h.size() > 12 ? h.size() - 12 : 0;
            for (size_t i = from; i < h.size(); ++i) t += (i == from ? "" : "; ") + m.describe(h[i]);
            stats.samples.push_back(name + ": " + (from ? "... " : "") + t);
        }
    }

    void replay(std::vector<Op> const& h) {
        Current* c = register_current();
        c->since = now_ms();
        std::unique_ptr<typename M::Inst> i = m.make();
        m.verify(*i);
        for (Op o : h) {
            printf("  %s\n", m.describe(o).c_str());
            fflush(stdout);
            m.apply(*i, o);
            check_soft();
            m.verify(*i);
            check_soft();
        }
        Canon ca, cb;
        m.canon(*i, ca);
        m.finish(std::move(i));
        check_soft();
        i = rebuild(h);
        m.canon(*i, cb);
        m.finish(std::move(i));
        check_soft();
        if (!(ca.hash() == cb.hash())) fail("the same history led to two different states (uninitialised memory?)");
    }
};

// registers an exploration; make() builds the model (with its bases), called only when it runs
template <class M>
struct Register {
    Register(std::string name, std::function<std::unique_ptr<M>()> make, int quick_depth, int thorough_depth, uint64_t quick_states = 1u << 22,
             uint64_t thorough_states = 1u << 25) {
        Exploration e;
        e.name = name;
        e.thorough_only = quick_depth < 0;
        e.run = [=] {
            auto m = make();
            Explorer<M> x(name, *m, opt.thorough ? thorough_depth : quick_depth, opt.thorough ? thorough_states : quick_states);
            x.run();
        };
        e.replay = [=](std::vector<Op> const& h) {
            auto m = make();
            Explorer<M> x(name, *m, 0, 0);
            x.replay(h);
        };
        explorations().push_back(e);
    }
};
} // namespace mc
