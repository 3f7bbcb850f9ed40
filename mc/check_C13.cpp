// C13: threads which own handles to immutable trees sharing structure.  Every pair (and triple) of programs over the
// operations below is executed under every schedule within the preemption bound.
// CFGS: 6
// THOROUGH_CFGS: 8
// CXX: clang++
// CFGFLAGS: -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=false
// UNITS: sched.cpp
// LDFLAGS: -ldl
// ASSUMES: scheduling points are the atomic operations on locations that more than one thread uses (between them, accesses that are not atomic and not ordered are reported as data races, so their interleaving does not matter); an atomic load may return any value coherence and happens-before allow (at most two old values a schedule), read-modify-write operations the newest; out-of-thin-air and load-buffering behaviours are not generated
#include <new>
#include <optional>
#include "sched.hpp"
#include "bpptree/bpptree.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/max.hpp"
#include "bpptree/min.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/summed.hpp"
namespace sch {
namespace {
using namespace bpptree;
#define EXPECT(c, ...) \
    do { \
        if (!(c)) violation(__VA_ARGS__); \
    } while (0)

// an element which owns memory
struct Own {
    int* p;
    Own(int v) : p(new int(v)) {}
    Own(Own const& o) : p(new int(*o.p)) {}
    Own(Own&& o) noexcept : p(o.p) { o.p = nullptr; }
    Own& operator=(Own const& o) {
        if (this != &o) {
            delete p;
            p = new int(*o.p);
        }
        return *this;
    }
    Own& operator=(Own&& o) noexcept {
        std::swap(p, o.p);
        return *this;
    }
    ~Own() { delete p; }
};
inline int val(int v) { return v; }
inline int val(Own const& v) { return *v.p; }

// the contents a handle must show
struct Model {
    int n = 0;
    int v[40];
    void insert(int at, int x) {
        for (int i = n; i > at; --i) v[i] = v[i - 1];
        v[at] = x;
        ++n;
    }
    void erase(int at) {
        --n;
        for (int i = at; i < n; ++i) v[i] = v[i + 1];
    }
};

// ---- kinds of trees ----
// an edit e of 0..EDITS-1 is applied to a mutable tree, to an immutable one, and to the model
template <class V, int lb, int ib>
struct Indexed_ {
    using Tree = typename BppTreeVector<V>::template leaf_node_bytes<lb>::template internal_node_bytes<ib>;
    using T = typename Tree::Transient;
    using P = typename Tree::Persistent;
    static constexpr int EDITS = 5;
    static char const* edit_name(int e) {
        static char const* n[] = {"insert_index(0)", "erase_index(0)", "assign_index(last)", "push_back", "pop_back"};
        return n[e];
    }
    static void build(T& t, Model& m, int n) {
        for (int i = 0; i < n; ++i) {
            t.push_back(V(i * 10));
            m.insert(m.n, i * 10);
        }
    }
    static void edit(T& t, Model& m, int e, int x) {
        switch (e) {
        case 0: t.insert_index(0, V(x)); m.insert(0, x); break;
        case 1: if (m.n) { t.erase_index(0); m.erase(0); } break;
        case 2: if (m.n) { t.assign_index(m.n - 1, V(x)); m.v[m.n - 1] = x; } break;
        case 3: t.push_back(V(x)); m.insert(m.n, x); break;
        case 4: if (m.n) { t.pop_back(); m.erase(m.n - 1); } break;
        }
    }
    static void derive(P& to, P const& from, Model& m, int e, int x) {
        switch (e) {
        case 0: to = from.insert_index(0, V(x)); m.insert(0, x); break;
        case 1: if (m.n) { to = from.erase_index(0); m.erase(0); } else to = from; break;
        case 2: if (m.n) { to = from.assign_index(m.n - 1, V(x)); m.v[m.n - 1] = x; } else to = from; break;
        case 3: to = from.push_back(V(x)); m.insert(m.n, x); break;
        case 4: if (m.n) { to = from.pop_back(); m.erase(m.n - 1); } else to = from; break;
        }
    }
    template <class Q>
    static void query(Q const& q, Model const& m, int t) {
        for (int i = 0; i < m.n; i += 2) EXPECT(val(q[i]) == m.v[i], "thread %d: element %d is %d, alone it would see %d", t, i, val(q[i]), m.v[i]);
    }
};
template <int lb, int ib>
struct Keyed {
    using V = std::pair<int, int>;
    using Tree = typename BppTreeMap<int, int>::template leaf_node_bytes<lb>::template internal_node_bytes<ib>::
        template mixins<SummedBuilder<PairExtractor<1>>, MinBuilder<PairExtractor<1>>, MaxBuilder<PairExtractor<1>>>;
    using T = typename Tree::Transient;
    using P = typename Tree::Persistent;
    static constexpr int EDITS = 4;
    static char const* edit_name(int e) {
        static char const* n[] = {"insert_or_assign(new first)", "erase_key(first)", "insert_or_assign(last)", "update_key(middle)"};
        return n[e];
    }
    static void build(T& t, Model& m, int n) {
        for (int i = 0; i < n; ++i) {
            t.insert_or_assign(i * 10, i * 10 + 1);
            m.insert(m.n, i * 10 + 1); // the key is v / 10 * 10
        }
    }
    template <class F>
    static void each(Model& m, int e, int x, F const& f) {
        int first = m.n ? m.v[0] / 10 * 10 : 0;
        switch (e) {
        case 0: if (first >= 10 || !m.n) { int k = m.n ? first - 10 : 50; f(0, k, k + x % 10); m.insert(0, k + x % 10); } break;
        case 1: if (m.n) { f(1, first, 0); m.erase(0); } break;
        case 2: if (m.n) { int k = m.v[m.n - 1] / 10 * 10; f(0, k, k + x % 10); m.v[m.n - 1] = k + x % 10; } break;
        case 3: if (m.n) { int k = m.v[m.n / 2] / 10 * 10; f(2, k, k + x % 10); m.v[m.n / 2] = k + x % 10; } break;
        }
    }
    static void edit(T& t, Model& m, int e, int x) {
        each(m, e, x, [&](int how, int k, int v) {
            if (how == 0) t.insert_or_assign(k, v);
            else if (how == 1) t.erase_key(k);
            else t.update_key(k, [v](int) { return v; });
        });
    }
    static void derive(P& to, P const& from, Model& m, int e, int x) {
        bool done = false;
        each(m, e, x, [&](int how, int k, int v) {
            done = true;
            if (how == 0) to = from.insert_or_assign(k, v);
            else if (how == 1) to = from.erase_key(k);
            else to = from.update_key(k, [v](int) { return v; });
        });
        if (!done) to = from;
    }
    template <class Q>
    static void query(Q const& q, Model const& m, int t) {
        int s = 0, lo = 1 << 30, hi = -1;
        for (int i = 0; i < m.n; ++i) {
            s += m.v[i];
            lo = m.v[i] < lo ? m.v[i] : lo;
            hi = m.v[i] > hi ? m.v[i] : hi;
        }
        EXPECT(q.sum() == s, "thread %d: the sum is %d, alone it would see %d", t, (int)q.sum(), s);
        if (m.n) {
            EXPECT(q.min() == lo && q.max() == hi, "thread %d: minimum %d, maximum %d, alone it would see %d, %d", t, (int)q.min(), (int)q.max(), lo, hi);
            auto it = q.find(m.v[m.n - 1] / 10 * 10);
            EXPECT(it != q.end() && it->second == m.v[m.n - 1], "thread %d: a key is not found", t);
        }
    }
};
inline int val(std::pair<int, int> const& p) { return p.second; }

// ---- programs ----
template <class K>
struct Body {
    using T = typename K::T;
    using P = typename K::P;
    struct Slots { // what a thread owns
        P a, b;
        std::optional<T> t, u;
        Model ma, mb, mt, mu;
        int x = 1;
    };
    enum { READ, COPY, DROP, COPY_BACK, TO_T, TO_T_MOVE, TO_P, TO_P_MOVE, COPY_T, ITER, FIRST_EDIT };
    static constexpr int E = K::EDITS;
    // derive a from a, derive b from a, edit t
    static constexpr int OPS = FIRST_EDIT + 3 * E;
    static std::string op_name(int o) {
        static char const* n[] = {"read", "b = a", "a = {}", "a = b", "t = a.transient()", "t = move(a).transient()", "a = t.persistent()", "a = move(t).persistent()", "u = t; edit u", "iterate"};
        if (o < FIRST_EDIT) return n[o];
        o -= FIRST_EDIT;
        static char const* h[] = {"a = a.", "b = a.", "t."};
        return h[o / E] + std::string(K::edit_name(o % E));
    }
    template <class Q>
    static void same(Q const& q, Model const& m, int t) {
        EXPECT(static_cast<int>(q.size()) == m.n, "thread %d: %d elements, alone it would see %d", t, static_cast<int>(q.size()), m.n);
        int i = 0;
        for (auto const& v : q) {
            EXPECT(i < m.n && val(v) == m.v[i], "thread %d: element %d is %d, alone it would see %d", t, i, val(v), m.v[i]);
            ++i;
        }
        EXPECT(i == m.n, "thread %d: iteration ends after %d of %d elements", t, i, m.n);
        K::query(q, m, t);
    }
    static void apply(Slots& s, int o, int t) {
        s.x += 100 * t + 3;
        switch (o) {
        case READ: same(s.a, s.ma, t); break;
        case COPY: s.b = s.a; s.mb = s.ma; break;
        case DROP: s.a = P(); s.ma = Model(); break;
        case COPY_BACK: s.a = s.b; s.ma = s.mb; break;
        case TO_T: s.t.emplace(s.a.transient()); s.mt = s.ma; break;
        case TO_T_MOVE: s.t.emplace(std::move(s.a).transient()); s.mt = s.ma; s.a = P(); s.ma = Model(); break;
        case TO_P:
            if (s.t) { s.a = s.t->persistent(); s.ma = s.mt; }
            break;
        case TO_P_MOVE:
            if (s.t) { s.a = std::move(*s.t).persistent(); s.ma = s.mt; s.t.reset(); }
            break;
        case COPY_T:
            if (s.t) { s.u.emplace(*s.t); s.mu = s.mt; K::edit(*s.u, s.mu, 2, s.x); }
            break;
        case ITER: {
            auto i = s.a.begin();
            P const keep = s.a;
            int n = 0;
            for (; i != s.a.end() && n < 3; ++i, ++n) EXPECT(val(*i) == s.ma.v[n], "thread %d: an iterator shows another element", t);
            break;
        }
        default:
            o -= FIRST_EDIT;
            if (o < E) K::derive(s.a, s.a, s.ma, o, s.x);
            else if (o < 2 * E) { s.mb = s.ma; K::derive(s.b, s.a, s.mb, o - E, s.x); }
            else if (s.t) K::edit(*s.t, s.mt, o - 2 * E, s.x);
        }
    }
    static void last(Slots& s, int t) {
        same(s.a, s.ma, t);
        same(s.b, s.mb, t);
        if (s.t) same(*s.t, s.mt, t);
        if (s.u) same(*s.u, s.mu, t);
    }
};

// What the threads are given before they start:
//  0: each a handle to the same tree   1: two versions that share nodes   2: a tree and a mutable copy of it
//  3: each a mutable copy of one mutable tree   (in 2 and 3 an immutable handle as well)
template <class K>
struct Programs : Space {
    using B = Body<K>;
    using Slots = typename B::Slots;
    int size, kinds, keep;
    std::vector<std::vector<int>> seqs;
    alignas(64) unsigned char room[MAXT][sizeof(Slots)];
    alignas(64) unsigned char kept[sizeof(typename K::P)];
    bool symmetric;
    Slots& slot(int t) { return *reinterpret_cast<Slots*>(room[t]); }
    std::vector<std::vector<int>> tuples; // kind, sequence of each thread

    // whether a sequence makes sense: the mutable tree exists when it is used
    static bool sensible(std::vector<int> const& s, bool has_t) {
        bool t = has_t;
        for (int o : s) {
            bool uses = o == B::TO_P || o == B::TO_P_MOVE || o == B::COPY_T || o >= B::FIRST_EDIT + 2 * B::E;
            if (uses && !t) return false;
            if (o == B::TO_T || o == B::TO_T_MOVE) t = true;
            if (o == B::TO_P_MOVE) t = false;
        }
        return true;
    }
    Programs(std::string n, int threads_, int size_, int len, std::vector<int> ops, std::vector<int> kinds_, int keep_, int q, int t) {
        name = std::move(n);
        threads = threads_;
        size = size_;
        keep = keep_;
        quick_bound = q;
        thorough_bound = t;
        std::vector<int> c(static_cast<size_t>(len), 0);
        while (true) {
            std::vector<int> s;
            for (int i : c) s.push_back(ops[static_cast<size_t>(i)]);
            seqs.push_back(s);
            size_t k = 0;
            while (k < c.size() && ++c[k] == static_cast<int>(ops.size())) c[k++] = 0;
            if (k == c.size()) break;
        }
        int ns = static_cast<int>(seqs.size());
        for (int kind : kinds_) {
            std::vector<int> x(static_cast<size_t>(threads), 0);
            while (true) {
                bool ok = true;
                for (int i = 0; i < threads && ok; ++i) {
                    bool has_t = kind == 3 || (kind == 2 && i > 0);
                    if (!sensible(seqs[static_cast<size_t>(x[static_cast<size_t>(i)])], has_t)) ok = false;
                    // threads given the same are interchangeable
                    bool as_before = i > 0 && (kind == 0 || kind == 3 || (kind != 0 && i > 1));
                    if (as_before && x[static_cast<size_t>(i)] < x[static_cast<size_t>(i - 1)]) ok = false;
                }
                if (ok) {
                    std::vector<int> p{kind};
                    p.insert(p.end(), x.begin(), x.end());
                    tuples.push_back(p);
                }
                size_t k = 0;
                while (k < x.size() && ++x[k] == ns) x[k++] = 0;
                if (k == x.size()) break;
            }
        }
        programs = static_cast<long>(tuples.size());
    }
    std::string describe(long p) override {
        static char const* kn[] = {"one tree", "two versions that share nodes", "a tree and a mutable copy of it", "mutable copies of one tree"};
        auto const& x = tuples[static_cast<size_t>(p)];
        std::string r = std::string(kn[x[0]]) + " of " + std::to_string(size) + " elements";
        for (int t = 1; t <= threads; ++t) {
            r += " | thread " + std::to_string(t) + ":";
            for (int o : seqs[static_cast<size_t>(x[static_cast<size_t>(t)])]) r += " " + B::op_name(o) + ";";
        }
        return r;
    }
    void setup(long p) override {
        int kind = tuples[static_cast<size_t>(p)][0];
        typename K::T base;
        Model m;
        K::build(base, m, size);
        for (int t = 1; t <= threads; ++t) new (room[t]) Slots();
        note_depth(static_cast<int>(base.depth()));
        if (kind == 3) {
            for (int t = 1; t <= threads; ++t) {
                slot(t).t.emplace(base);
                slot(t).mt = m;
                slot(t).a = base.persistent();
                slot(t).ma = m;
            }
            return;
        }
        typename K::P first = std::move(base).persistent();
        if (keep) new (kept) typename K::P(first);
        for (int t = 1; t <= threads; ++t) {
            Slots& s = slot(t);
            s.ma = m;
            if (kind == 1 && t > 1) K::derive(s.a, first, s.ma, 2, 7);
            else if (kind == 2 && t > 1) {
                s.a = first;
                s.t.emplace(first.transient());
                s.mt = m;
                K::edit(*s.t, s.mt, 2, 9);
            } else s.a = first;
        }
    }
    void thread(long p, int t) override {
        Slots& s = slot(t);
        for (int o : seqs[static_cast<size_t>(tuples[static_cast<size_t>(p)][static_cast<size_t>(t)])]) B::apply(s, o, t);
        B::last(s, t);
        s.~Slots();
        note_answers(1);
    }
    void finish(long p) override {
        if (keep && tuples[static_cast<size_t>(p)][0] != 3) {
            auto& k = *reinterpret_cast<typename K::P*>(kept);
            Model m;
            {
                typename K::T base;
                K::build(base, m, size);
            }
            B::same(k, m, 0);
            using P = typename K::P;
            k.~P();
        }
    }
};
template <class K>
void reg(std::string n, int threads, int size, int len, std::vector<int> ops, std::vector<int> kinds, int q, int t, int keep = 0) {
    spaces().push_back(std::make_unique<Programs<K>>(std::move(n), threads, size, len, std::move(ops), std::move(kinds), keep, q, t));
}
template <class K>
std::vector<int> all_ops() {
    std::vector<int> v;
    for (int i = 0; i < Body<K>::OPS; ++i) v.push_back(i);
    return v;
}
struct Init {
    Init() {
#if CFG == 0
        using K = Indexed_<int, 16, 72>;
        reg<K>("indexed leaf2 inner4, 7 elements, all pairs of operations", 2, 7, 1, all_ops<K>(), {0, 1, 2, 3}, 3, 5);
        reg<K>("indexed leaf2 inner4, 2 elements, all pairs of operations", 2, 2, 1, all_ops<K>(), {0, 1, 2, 3}, 6, 20);
#elif CFG == 1
        using K = Indexed_<int, 16, 72>;
        reg<K>("indexed leaf2 inner4, 7 elements, pairs of programs of two operations", 2, 7, 2, all_ops<K>(), {0, 1, 2, 3}, -1, 1);
        reg<K>("indexed leaf2 inner4, 3 elements, pairs of programs of two operations", 2, 3, 2, all_ops<K>(), {0, 1, 2, 3}, 1, 2);
#elif CFG == 2
        using K = Keyed<40, 120>;
        reg<K>("ordered summed min max leaf4 inner4, 9 elements, all pairs of operations", 2, 9, 1, all_ops<K>(), {0, 1, 2, 3}, 3, 5);
#elif CFG == 3
        using K = Indexed_<Own, 24, 72>;
        reg<K>("indexed owning elements leaf2 inner4, 7 elements, all pairs of operations", 2, 7, 1, all_ops<K>(), {0, 1, 2, 3}, 3, 4);
        reg<K>("indexed owning elements leaf2 inner4, 1 element, all pairs of operations", 2, 1, 1, all_ops<K>(), {0, 1, 2, 3}, 6, 20);
#elif CFG == 4
        using K = Indexed_<int, 16, 72>;
        reg<K>("indexed leaf2 inner4, 5 elements, triples of operations", 3, 5, 1, all_ops<K>(), {0, 1, 2, 3}, 1, 2);
#elif CFG == 5
        using K = Indexed_<int, 12, 72>;
        reg<K>("indexed leaf1 inner4, 9 elements, an immutable tree kept", 2, 9, 1, all_ops<K>(), {0, 1, 2}, 3, 4, 1);
        reg<K>("indexed leaf1 inner4, no elements", 2, 0, 1, all_ops<K>(), {0, 1, 2, 3}, 6, 20);
#elif CFG == 6
        using K = Indexed_<int, 16, 72>;
        using B = Body<K>;
        reg<K>("indexed leaf2 inner4, 3 elements, pairs of programs of three operations", 2, 3, 3, {B::COPY, B::DROP, B::TO_T, B::TO_P_MOVE, B::FIRST_EDIT, B::FIRST_EDIT + B::E + 1, B::FIRST_EDIT + 2 * B::E + 2}, {0, 1, 2, 3}, -1, 2);
#elif CFG == 7
        using K = Keyed<40, 120>;
        reg<K>("ordered summed min max leaf4 inner4, 9 elements, triples of operations", 3, 9, 1, all_ops<K>(), {0, 1, 2, 3}, -1, 1);
#endif
    }
} init;
}
}
