// A world of up to NS tree slots (mutable or immutable) with a plain sequence as the reference model of each.
#pragma once
#include <climits>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "engine.hpp"
#include "peek.hpp"
#include "bpptree/bpptree.hpp"
#include "bpptree/ordered.hpp"
#include "bpptree/indexed.hpp"
#include "bpptree/summed.hpp"
#include "bpptree/min.hpp"
#include "bpptree/max.hpp"

namespace mc {

// model element: id is unique per creation, alpha selects from the value alphabet, ord is the key's ordinal
struct ME {
    uint32_t id = 0;
    uint16_t alpha = 0;
    uint64_t ord = 0;
};
using Model = std::vector<ME>;

enum Kind : uint8_t {
    K_NONE,
    // edits by position
    PUSHB, PUSHF, POPB, POPF, INS, ERA, ASG, UPD, CLEAR,
    // by index
    INSX, ERAX, ASGX, UPDX,
    // by key; b=1: key of element a, b=0: key in gap a
    KINS, KIOA, KASG, KUPD, KERA, KSUB,
    // conversions of slot s into slot d (d == s: by move, in place)
    SNAP, THAW, FLAG, TOP, TOT, COPY, MOVE, ASSIGNC, ASSIGNM, DROP, SWAP, NEWT, NEWP,
    // bulk construction: a elements / erasure patterns
    BULKB, BULKF, BULKM, THIN, BULKA,
    K_USER = 100
};
inline char const* kind_name(int k) {
    static char const* n[] = {"none", "push_back", "push_front", "pop_back", "pop_front", "insert(it)", "erase(it)", "assign(it)", "update(it)", "clear",
                              "insert_index", "erase_index", "assign_index", "update_index", "insert_v", "insert_or_assign", "assign_v", "update_key", "erase_key", "tree[key]=",
                              "persistent() copy", "transient() copy", "take and drop a snapshot", "to immutable (move)", "to mutable (move)", "copy construct", "move construct", "copy assign", "move assign",
                              "destroy", "swap", "new mutable", "new immutable", "bulk push_back", "bulk push_front", "bulk insert middle", "thin out", "bulk alternating"};
    return k < static_cast<int>(sizeof n / sizeof *n) ? n[k] : "user";
}
constexpr uint64_t bit(int k) { return 1ULL << k; }

enum Query : unsigned { Q_BASE = 1, Q_IDX = 2, Q_ORD = 4, Q_SUM = 8, Q_SLB = 16, Q_MM = 32, Q_ITER = 64, Q_ALL = 127 };

template <class X>
struct Box {
    X* p = nullptr;
    Box() = default;
    Box(Box const&) = delete;
    Box& operator=(Box const&) = delete;
    ~Box() { reset(); }
    void reset() {
        if (p) {
            InLib l;
            X* q = p;
            p = nullptr;
            q->~X();
            free(q);
        }
    }
    template <class... A>
    void emplace(A&&... a) {
        void* m = malloc(sizeof(X));
        X* q;
        {
            InLib l;
            try {
                q = new (m) X(std::forward<A>(a)...);
            } catch (...) {
                free(m);
                throw;
            }
        }
        reset();
        p = q;
    }
    // from the result of a call, which is evaluated as a library call too
    template <class F>
    void build(F&& f) {
        void* m = malloc(sizeof(X));
        X* q;
        {
            InLib l;
            try {
                q = new (m) X(f());
            } catch (...) {
                free(m);
                throw;
            }
        }
        reset();
        p = q;
    }
    explicit operator bool() const { return p; }
    X& operator*() { return *p; }
    X* operator->() { return p; }
};

template <class T, class P>
struct Slot {
    Box<T> t;
    Box<P> p;
    Model m;
    bool used() const { return t || p; }
    void clear() {
        t.reset();
        p.reset();
        m.clear();
    }
};

#define CHECK(c, ...)                      \
    do {                                   \
        ++local_queries;                   \
        if (!(c)) ::mc::fail(__VA_ARGS__); \
    } while (0)

// ---- complete verification of one tree against its model ------------------------------------------------------
template <class Spec, unsigned Q, class Tr>
struct Verify {
    using V = typename Spec::Value;

    static V const& val(V const& v) { return v; }

    template <class It>
    static V const& deref(It const& it) { return it.get(); }

    static void run(Tr& t, Model const& m) {
        Tr const& c = t;
        size_t n = m.size();
        CHECK(c.size() == n, "size() is %zu, expected %zu", c.size(), n);
        if constexpr (Q & Q_BASE) {
            CHECK(c.empty() == (n == 0), "empty() is wrong (size %zu)", n);
            if (n) {
                CHECK(Spec::eq(c.front(), m[0]), "front() is wrong");
                CHECK(Spec::eq(c.back(), m[n - 1]), "back() is wrong");
            }
        }
        forward(t, m);
        if constexpr (Q & Q_BASE) backward(c, m);
        if constexpr ((Q & Q_IDX) && Spec::indexed) index(t, m);
        if constexpr ((Q & Q_ORD) && Spec::ordered) order(t, m);
        if constexpr ((Q & Q_SUM) && Spec::summed) sums(t, m);
        if constexpr ((Q & Q_SLB) && Spec::summed) sum_search(t, m);
        if constexpr ((Q & Q_MM) && Spec::has_min) minmax<0>(t, m);
        if constexpr ((Q & Q_MM) && Spec::has_max) minmax<1>(t, m);
        if constexpr (Q & Q_ITER) iterators(t, m);
    }

    static void forward(Tr& t, Model const& m) {
        Tr const& c = t;
        size_t i = 0, n = m.size();
        auto e = c.cend();
        for (auto it = c.cbegin(); it != e; ++it, ++i) {
            CHECK(i < n, "forward iteration yields more than %zu elements", n);
            CHECK(Spec::eq(*it, m[i]), "forward iteration: element %zu of %zu is wrong", i, n);
        }
        CHECK(i == n, "forward iteration stops after %zu of %zu elements", i, n);
        if constexpr (Q & Q_BASE) {
            i = 0;
            for (auto it = t.begin(); it != t.end(); ++it, ++i) {
                CHECK(i < n, "mutable forward iteration yields more than %zu elements", n);
                CHECK(Spec::eq(it.get(), m[i]), "mutable forward iteration: element %zu of %zu is wrong", i, n);
            }
            CHECK(i == n, "mutable forward iteration stops after %zu of %zu elements", i, n);
        }
    }

    static void backward(Tr const& c, Model const& m) {
        size_t n = m.size(), i = 0;
        auto e = c.crend();
        for (auto it = c.crbegin(); it != e; ++it, ++i) {
            CHECK(i < n, "reverse iteration yields more than %zu elements", n);
            CHECK(Spec::eq(*it, m[n - 1 - i]), "reverse iteration: element %zu of %zu is wrong", i, n);
        }
        CHECK(i == n, "reverse iteration stops after %zu of %zu elements", i, n);
        auto it = c.cend();
        for (i = n; i-- > 0;) {
            --it;
            CHECK(Spec::eq(*it, m[i]), "backward stepping from the end: element %zu of %zu is wrong", i, n);
        }
    }

    static auto iters(Tr const& c, size_t n) {
        std::vector<decltype(c.cbegin())> r;
        r.reserve(n + 1);
        auto it = c.cbegin();
        for (size_t i = 0; i < n; ++i) {
            r.push_back(it);
            ++it;
        }
        r.push_back(c.cend());
        return r;
    }

    static void index(Tr& t, Model const& m) {
        if constexpr (Spec::indexed) {
            using S = typename Spec::Size;
            Tr const& c = t;
            size_t n = m.size();
            auto its = iters(c, n);
            for (size_t i = 0; i < n; ++i) {
                CHECK(Spec::eq(c.at_index(static_cast<S>(i)), m[i]), "at_index(%zu) of %zu is wrong", i, n);
                if constexpr (!Spec::ordered) // with both, operator[] belongs to the mixin listed first
                    CHECK(Spec::eq(c[static_cast<S>(i)], m[i]), "operator[](%zu) of %zu is wrong", i, n);
                auto it = t.find_index(static_cast<S>(i));
                CHECK(Spec::eq(it.get(), m[i]), "find_index(%zu) of %zu is wrong", i, n);
                auto ci = c.find_index(static_cast<S>(i));
                CHECK(ci == its[i], "find_index(%zu) const of %zu is not the iterator at that position", i, n);
                CHECK(static_cast<size_t>(c.order(it)) == i, "order() of the element at index %zu of %zu is wrong", i, n);
                CHECK(static_cast<size_t>(c.order(its[i])) == i, "order() of the iterator at %zu of %zu is wrong", i, n);
                auto cc = c.find_index_const(static_cast<S>(i));
                CHECK(cc == its[i], "find_index_const(%zu) of %zu is not the iterator at that position", i, n);
            }
            CHECK(static_cast<size_t>(c.order(c.cend())) == n, "order(end) of %zu elements is wrong", n);
            CHECK(c.find_index(static_cast<S>(n)) == c.cend(), "find_index(size) is not the end (%zu elements)", n);
            size_t i = n;
            for (auto it = c.crbegin(); it != c.crend(); ++it) {
                --i;
                CHECK(static_cast<size_t>(c.order(it)) == i, "order() of a reverse iterator at %zu of %zu is wrong", i, n);
            }
        }
    }

    static void order(Tr& t, Model const& m) {
        if constexpr (Spec::ordered) {
            Tr const& c = t;
            size_t n = m.size();
            auto its = iters(c, n);
            auto chk = [&](auto const& it, size_t i, char const* what, size_t a, bool gap) {
                CHECK(it == its[i], "%s of %s %zu of %zu is not position %zu", what, gap ? "a key in gap" : "the key of element", a, n, i);
                if (i < n) CHECK(Spec::eq(it.get(), m[i]), "%s of %s %zu of %zu dereferences to the wrong element", what, gap ? "a key in gap" : "the key of element", a, n);
            };
            for (size_t i = 0; i < n; ++i) {
                auto k = Spec::key(m[i].ord);
                CHECK(c.contains(k), "contains() of the key of element %zu of %zu is false", i, n);
                chk(t.find(k), i, "find", i, false);
                chk(c.find(k), i, "find const", i, false);
                chk(c.find_const(k), i, "find_const", i, false);
                chk(t.lower_bound(k), i, "lower_bound", i, false);
                chk(c.lower_bound(k), i, "lower_bound const", i, false);
                chk(c.lower_bound_const(k), i, "lower_bound_const", i, false);
                chk(t.upper_bound(k), i + 1, "upper_bound", i, false);
                chk(c.upper_bound(k), i + 1, "upper_bound const", i, false);
                chk(c.upper_bound_const(k), i + 1, "upper_bound_const", i, false);
                CHECK(Spec::eq_mapped(c.at_key(k), m[i]), "at_key() of the key of element %zu of %zu is wrong", i, n);
                if constexpr (!Spec::indexed)
                    CHECK(Spec::eq_mapped(c[k], m[i]), "operator[] const of the key of element %zu of %zu is wrong", i, n);
            }
            for (size_t g = 0; g <= n; ++g) {
                for (uint64_t o : Spec::gap_probes(g ? m[g - 1].ord : 0, g < n ? m[g].ord : Spec::ord_max, g > 0, g < n)) {
                    auto k = Spec::key(o);
                    CHECK(!c.contains(k), "contains() of an absent key in gap %zu of %zu is true", g, n);
                    chk(t.find(k), n, "find", g, true);
                    chk(c.find(k), n, "find const", g, true);
                    chk(t.lower_bound(k), g, "lower_bound", g, true);
                    chk(c.lower_bound(k), g, "lower_bound const", g, true);
                    chk(t.upper_bound(k), g, "upper_bound", g, true);
                    chk(c.upper_bound(k), g, "upper_bound const", g, true);
                }
            }
        }
    }

    static void sums(Tr& t, Model const& m) {
        if constexpr (Spec::summed) {
            Tr const& c = t;
            using S = typename Spec::Sum;
            static_assert(std::is_same_v<std::decay_t<decltype(c.sum())>, S>);
            size_t n = m.size();
            auto its = iters(c, n);
            std::vector<S> pre(n + 1);
            for (size_t i = 0; i < n; ++i) pre[i + 1] = static_cast<S>(pre[i] + Spec::sum_of(Spec::make(m[i])));
            CHECK(c.sum() == pre[n], "sum() of %zu elements is wrong", n);
            for (size_t i = 0; i <= n; ++i) {
                CHECK(c.sum_exclusive(its[i]) == pre[i], "sum_exclusive at %zu of %zu is wrong", i, n);
                if (i < n) CHECK(c.sum_inclusive(its[i]) == pre[i + 1], "sum_inclusive at %zu of %zu is wrong", i, n);
            }
            size_t i = n;
            for (auto it = c.crbegin(); it != c.crend(); ++it) {
                --i;
                CHECK(c.sum_exclusive(it) == pre[i] && c.sum_inclusive(it) == pre[i + 1], "sums at a reverse iterator at %zu of %zu are wrong", i, n);
            }
            i = 0;
            for (auto it = t.begin(); it != t.end(); ++it, ++i)
                CHECK(t.sum_exclusive(it) == pre[i] && t.sum_inclusive(it) == pre[i + 1], "sums at a mutable iterator at %zu of %zu are wrong", i, n);
        }
    }

    static void sum_search(Tr& t, Model const& m) {
        if constexpr (Spec::summed) {
            Tr const& c = t;
            using S = typename Spec::Sum;
            size_t n = m.size();
            auto its = iters(c, n);
            std::vector<S> pre(n + 1);
            for (size_t i = 0; i < n; ++i) pre[i + 1] = static_cast<S>(pre[i] + Spec::sum_of(Spec::make(m[i])));
            auto one = [&](S target) {
                size_t e = 0;
                if (target > S{}) {
                    while (e < n && pre[e + 1] < target) ++e;
                }
                // a target that is not positive is reached by the first element (position 0; the end of an empty tree)
                auto a = c.sum_lower_bound(target);
                CHECK(a == its[e], "sum_lower_bound is not position %zu of %zu (target %lld)", e, n, static_cast<long long>(target));
                if (e < n) CHECK(Spec::eq(a.get(), m[e]), "sum_lower_bound dereferences to the wrong element (%zu of %zu)", e, n);
                auto b = t.sum_lower_bound(target);
                CHECK(b == its[e], "mutable sum_lower_bound is not position %zu of %zu (target %lld)", e, n, static_cast<long long>(target));
                auto d = c.sum_lower_bound_const(target);
                CHECK(d == its[e], "sum_lower_bound_const is not position %zu of %zu (target %lld)", e, n, static_cast<long long>(target));
            };
            for (size_t i = 0; i <= n; ++i) {
                one(pre[i]);
                if (pre[i] < std::numeric_limits<S>::max()) one(static_cast<S>(pre[i] + 1));
                if (pre[i] > std::numeric_limits<S>::min()) one(static_cast<S>(pre[i] - 1));
            }
            one(std::numeric_limits<S>::max());
            one(std::numeric_limits<S>::min());
        }
    }

    template <int which>
    static void minmax(Tr& t, Model const& m) {
        Tr const& c = t;
        size_t n = m.size();
        if (!n) return;
        auto its = iters(c, n);
        using V0 = typename Spec::Value;
        auto key = [](V0 const& v) -> decltype(auto) {
            if constexpr (which == 0) return Spec::min_key(v);
            else return Spec::max_key(v);
        };
        auto less = [](auto const& a, auto const& b) {
            if constexpr (which == 0) return Spec::min_less(a, b);
            else return Spec::max_less(a, b);
        };
        std::vector<V0> vals;
        vals.reserve(n);
        for (auto const& e : m) vals.push_back(Spec::make(e));
        auto same = [&](auto const& a, auto const& b) { return !less(a, b) && !less(b, a); };
        auto q = [](auto& x, auto const&... r) -> decltype(auto) {
            if constexpr (which == 0) return x.min(r...);
            else return x.max(r...);
        };
        auto qe = [](auto& x, auto const&... r) {
            if constexpr (which == 0) return x.min_element(r...);
            else return x.max_element(r...);
        };
        auto qec = [](auto& x, auto const&... r) {
            if constexpr (which == 0) return x.min_element_const(r...);
            else return x.max_element_const(r...);
        };
        char const* nm = which == 0 ? "min" : "max";
        // position of an iterator, or n
        auto where = [&](auto const& it) {
            size_t p = 0;
            while (p < n && !(it == its[p])) ++p;
            return p;
        };
        size_t whole = 0;
        for (size_t i = 1; i < n; ++i)
            if (less(key(vals[i]), key(vals[whole]))) whole = i;
        CHECK(same(q(c), key(vals[whole])), "%s() of %zu elements is wrong", nm, n);
        auto chk = [&](auto const& it, size_t lo, size_t hi, auto const& k, char const* form) {
            size_t p = where(it);
            CHECK(p >= lo && p < hi, "%s_element%s of [%zu,%zu) of %zu points outside the range", nm, form, lo, hi, n);
            CHECK(same(key(vals[p]), k) && Spec::eq(it.get(), m[p]), "%s_element%s of [%zu,%zu) of %zu points at an element that is not the extreme", nm, form, lo, hi, n);
        };
        chk(qe(c), 0, n, key(vals[whole]), " const");
        chk(qe(t), 0, n, key(vals[whole]), "");
        chk(qec(c), 0, n, key(vals[whole]), "_const");
        // all ranges
        std::vector<decltype(t.begin())> mit;
        for (auto it = t.begin(); mit.size() < n; ++it) mit.push_back(it);
        mit.push_back(t.end());
        std::vector<decltype(c.crbegin())> rit; // rit[i] designates element n-1-i
        for (auto it = c.crbegin(); rit.size() < n; ++it) rit.push_back(it);
        rit.push_back(c.crend());
        std::vector<decltype(t.rbegin())> mrit;
        for (auto it = t.rbegin(); mrit.size() < n; ++it) mrit.push_back(it);
        mrit.push_back(t.rend());
        for (size_t i = 0; i < n; ++i) {
            size_t best = i;
            for (size_t j = i + 1; j <= n; ++j) {
                if (less(key(vals[j - 1]), key(vals[best]))) best = j - 1;
                auto const& k = key(vals[best]);
                CHECK(same(q(c, its[i], its[j]), k), "%s of [%zu,%zu) of %zu is wrong", nm, i, j, n);
                chk(qe(c, its[i], its[j]), i, j, k, " const");
                chk(qe(t, mit[i], mit[j]), i, j, k, "");
                chk(qec(c, its[i], its[j]), i, j, k, "_const");
                CHECK(same(q(t, mit[i], mit[j]), k), "%s of mutable [%zu,%zu) of %zu is wrong", nm, i, j, n);
                // the same range, backwards: elements j-1 down to i
                auto const& rb = rit[n - j];
                auto const& re = rit[n - i];
                CHECK(same(q(c, rb, re), k), "%s of the reverse range [%zu,%zu) of %zu is wrong", nm, i, j, n);
                chk(qe(c, rb, re), i, j, k, " reverse");
                chk(qe(t, mrit[n - j], mrit[n - i]), i, j, k, " mutable reverse");
                CHECK(same(q(t, mrit[n - j], mrit[n - i]), k), "%s of the mutable reverse range [%zu,%zu) of %zu is wrong", nm, i, j, n);
            }
        }
    }

    // iterator algebra; positions of forward iterators are -1 (before the beginning) .. n (end)
    template <bool rev, class GetB, class GetE>
    static void algebra(Tr& t, Model const& m, GetB gb, GetE ge, char const* what) {
        long n = static_cast<long>(m.size());
        using It = decltype(gb(t));
        // logical position p in 0..n counted in iteration order, -1 = before the beginning
        auto elem = [&](long p) -> ME const& { return m[static_cast<size_t>(rev ? n - 1 - p : p)]; };
        std::vector<It> its; // index p+1
        auto ok = [&](It const& it, long p, char const* how, long from) {
            if (p >= 0 && p < n) {
                CHECK(it.valid(), "%s iterator: %s from %ld to %ld of %ld is not valid", what, how, from, p, n);
                CHECK(Spec::eq(it.get(), elem(p)), "%s iterator: %s from %ld leads to the wrong element (expected %ld of %ld)", what, how, from, p, n);
                CHECK(Spec::eq(*it.operator->(), elem(p)), "%s iterator: operator-> at %ld of %ld is wrong", what, p, n);
            } else {
                CHECK(!it.valid(), "%s iterator: %s from %ld to %ld of %ld should not be valid", what, how, from, p, n);
            }
        };
        // a forward iterator moved before the beginning, a reverse iterator moved before rbegin (= end)
        It b = gb(t);
        It before = b;
        --before;
        its.push_back(before);
        It it = b;
        for (long p = 0; p < n; ++p) {
            its.push_back(it);
            ok(it, p, "++", p - 1);
            ++it;
        }
        its.push_back(ge(t));
        CHECK(it == its[static_cast<size_t>(n + 1)], "%s iterator: stepping past the last of %ld does not give the end", what, n);
        ok(its[static_cast<size_t>(n + 1)], n, "end", n);
        if (n) ok(before, -1, "before", 0);
        long lo = n ? -1 : 0;
        auto at = [&](long p) -> It const& { return its[static_cast<size_t>(p + 1)]; };
        for (long p = lo; p <= n; ++p) {
            std::vector<long> ks;
            for (long k = -n - 3; k <= n + 3; ++k) ks.push_back(k);
            // around the widths a distance might be narrowed to, and the largest distances there are
            for (long k : {255l, 256l, 1000l, 32767l, 65535l, 65536l, 1l << 20, (1l << 31) - 1, 1l << 31, (1l << 32) - 1, 1l << 32, (1l << 32) + 1, 1l << 40, 1l << 62, LONG_MAX - 1, LONG_MAX}) {
                ks.push_back(k);
                ks.push_back(-k);
            }
            for (long k : ks) {
                long e = k > n + 3 ? n : k < -n - 3 ? -1 : p + k;
                // stepping beyond either end stops there
                if (e > n) e = n;
                if (e < -1) e = -1;
                if (n == 0) continue;
                It a = at(p);
                a += k;
                CHECK(a == at(e), "%s iterator: += %ld from %ld of %ld is not position %ld", what, k, p, n, e);
                ok(a, e, "+=", p);
                It s = at(p) - (-k);
                CHECK(s == at(e), "%s iterator: - %ld from %ld of %ld is not position %ld", what, -k, p, n, e);
                It pl = at(p) + k;
                CHECK(pl == at(e), "%s iterator: + %ld from %ld of %ld is not position %ld", what, k, p, n, e);
                It mi = at(p);
                mi -= -k;
                CHECK(mi == at(e), "%s iterator: -= %ld from %ld of %ld is not position %ld", what, -k, p, n, e);
                // and one step leads back
                if (e == n) {
                    It x = a;
                    --x;
                    CHECK(x == at(n - 1), "%s iterator: -- from the end of %ld is not the last element (after += %ld from %ld)", what, n, k, p);
                    ok(x, n - 1, "--", n);
                }
                if (e == -1) {
                    It x = a;
                    ++x;
                    CHECK(x == at(0), "%s iterator: ++ from before the beginning is not the first of %ld elements (after += %ld from %ld)", what, n, k, p);
                    ok(x, 0, "++", -1);
                }
                if (e >= 0 && e < n && p >= 0 && p < n) {
                    if constexpr (It::is_reversed == rev && std::is_same_v<decltype(*std::declval<It&>()), typename Spec::Value const&>) {
                        CHECK(Spec::eq(at(p)[k], elem(e)), "%s iterator: [%ld] from %ld of %ld is wrong", what, k, p, n);
                    }
                }
            }
            It x = at(p);
            if (p < n) {
                It r = x++;
                CHECK(r == at(p) && x == at(p + 1), "%s iterator: post-increment at %ld of %ld is wrong", what, p, n);
            }
            x = at(p);
            if (p > lo) {
                It r = x--;
                CHECK(r == at(p) && x == at(p - 1), "%s iterator: post-decrement at %ld of %ld is wrong", what, p, n);
            }
            for (long q = lo; q <= n; ++q) {
                It const& c = at(p);
                It const& d = at(q);
                // the order of positions is the order of iteration
                CHECK((c == d) == (p == q) && (c != d) == (p != q), "%s iterator: == of %ld and %ld of %ld is wrong", what, p, q, n);
                CHECK((c < d) == (p < q), "%s iterator: < of %ld and %ld of %ld is wrong", what, p, q, n);
                CHECK((c > d) == (p > q), "%s iterator: > of %ld and %ld of %ld is wrong", what, p, q, n);
                CHECK((c <= d) == (p <= q), "%s iterator: <= of %ld and %ld of %ld is wrong", what, p, q, n);
                CHECK((c >= d) == (p >= q), "%s iterator: >= of %ld and %ld of %ld is wrong", what, p, q, n);
                if constexpr (Spec::indexed) {
                    if (p >= 0 && q >= 0) CHECK(c - d == p - q, "%s iterator: difference of %ld and %ld of %ld is %ld", what, p, q, n, static_cast<long>(c - d));
                }
            }
        }
    }

    // const and mutable iterators of one direction compare by position with each other
    template <class A, class B>
    static void mixed(A a, B b, long n, char const* what) {
        std::vector<A> as;
        std::vector<B> bs;
        --a;
        --b;
        for (long p = -1; p <= n; ++p, ++a, ++b) {
            as.push_back(a);
            bs.push_back(b);
        }
        for (long p = -1; p <= n; ++p)
            for (long q = -1; q <= n; ++q) {
                A const& x = as[static_cast<size_t>(p + 1)];
                B const& y = bs[static_cast<size_t>(q + 1)];
                CHECK((x == y) == (p == q) && (x != y) == (p != q) && (y == x) == (p == q) && (y != x) == (p != q), "%s: == of %ld and %ld of %ld is wrong", what, p, q, n);
                CHECK((x < y) == (p < q) && (x > y) == (p > q) && (x <= y) == (p <= q) && (x >= y) == (p >= q), "%s: ordering of %ld and %ld of %ld is wrong", what, p, q, n);
                CHECK((y < x) == (q < p) && (y > x) == (q > p) && (y <= x) == (q <= p) && (y >= x) == (q >= p), "%s: ordering of %ld and %ld of %ld is wrong", what, q, p, n);
                if constexpr (Spec::indexed)
                    if (p >= 0 && q >= 0) CHECK(x - y == p - q && y - x == q - p, "%s: difference of %ld and %ld of %ld is wrong", what, p, q, n);
            }
    }

    static void iterators(Tr& t, Model const& m) {
        if (!m.empty()) {
            mixed(std::as_const(t).cbegin(), t.begin(), static_cast<long>(m.size()), "const and mutable iterators");
            mixed(std::as_const(t).crbegin(), t.rbegin(), static_cast<long>(m.size()), "const and mutable reverse iterators");
        }
        algebra<false>(t, m, [](Tr& x) { return std::as_const(x).cbegin(); }, [](Tr& x) { return std::as_const(x).cend(); }, "const");
        algebra<true>(t, m, [](Tr& x) { return std::as_const(x).crbegin(); }, [](Tr& x) { return std::as_const(x).crend(); }, "const reverse");
        algebra<false>(t, m, [](Tr& x) { return x.begin(); }, [](Tr& x) { return x.end(); }, "mutable");
        algebra<true>(t, m, [](Tr& x) { return x.rbegin(); }, [](Tr& x) { return x.rend(); }, "mutable reverse");
    }
};

// ---- the world ----------------------------------------------------------------------------------------------
struct Cfg {
    int maxn = 8;              // elements
    uint64_t edits = 0;        // kinds of expanding edits (bit(kind))
    uint64_t probe = 0;        // kinds of edits executed as probes in every state
    uint64_t conv = 0;         // conversions (single-slot: FLAG, TOP, TOT)
    int ways = 1;              // iterator acquisition ways for INS/ERA/ASG/UPD
    int vars = 1;              // argument forms
    bool asg_all = true;       // assign/update at all positions
    bool start_persistent = false;
    int snaps = 99;            // how many FLAG/TOP conversions a history may contain
};

template <class Spec_, unsigned Q_ = Q_ALL, int NS_ = 4>
struct World {
    using Spec = Spec_;
    static constexpr unsigned Q = Q_;
    using T = typename Spec::T;
    using P = typename Spec::P;
    using V = typename Spec::Value;
    static constexpr int NS = NS_;
    struct Inst {
        Slot<T, P> s[NS];
        uint32_t next = 1;
        int snaps = 0;
        uint64_t force = 0;
        virtual ~Inst() = default;
    };
    Cfg cfg;
    std::vector<std::vector<Op>> bases{{}};

    std::unique_ptr<Inst> make() {
        mem.err = nullptr;
        soft_err = nullptr;
        mem.live = 0;
        auto i = std::make_unique<Inst>();
        init(*i);
        return i;
    }
    void init(Inst& i) {
        if (cfg.start_persistent) i.s[0].p.emplace();
        else i.s[0].t.emplace();
    }

    void finish(std::unique_ptr<Inst> i) {
        for (auto& s : i->s) s.clear();
        i.reset();
        check_soft();
        mem_flush();
        check_soft();
        if (mem.live != 0) fail("%ld blocks of memory remain allocated after every tree is gone", mem.live);
        Spec::check_done();
    }

    void verify_slot(Slot<T, P>& s) {
        if (s.t) Verify<Spec, Q, T>::run(*s.t, s.m);
        if (s.p) Verify<Spec, Q, P>::run(*s.p, s.m);
    }
    void verify(Inst& i) {
        for (auto& s : i.s) verify_slot(s);
    }
    // after every transition, also those that lead to a known state: element identities and the agreement of the
    // contents with the model are not part of the canonical form
    void quick(Inst& i) {
        for (auto& s : i.s) {
            if constexpr (!PeekTree<T>::ok || !PeekTree<P>::ok) {
                verify_slot(s); // cached aggregates cannot be seen
            } else {
                if (s.t) Verify<Spec, 0, T>::run(*s.t, s.m);
                if (s.p) Verify<Spec, 0, P>::run(*s.p, s.m);
            }
        }
    }

    void canon(Inst& i, Canon& c) {
        Walker<Spec> w(c);
        for (int k = 0; k < NS; ++k) {
            auto& s = i.s[k];
            if (s.t) stats.saw_depth(s.t->depth());
            if (s.p) stats.saw_depth(s.p->depth());
            if (s.t) {
                c.put(1);
                w.tree(*s.t);
            } else if (s.p) {
                c.put(2);
                w.tree(*s.p);
            } else {
                c.put(3);
            }
        }
        w.end();
        if (cfg.snaps < 99) c.put(static_cast<uint64_t>(i.snaps));
    }

    // ---- model helpers
    static uint64_t gap_ord(Model const& m, size_t g) {
        uint64_t step = Spec::ord_step;
        if (m.empty()) return Spec::ord_max / 2;
        if (g == m.size()) {
            uint64_t lo = m.back().ord;
            return Spec::ord_max - lo > step ? lo + step : lo + (Spec::ord_max - lo + 1) / 2;
        }
        if (g == 0) {
            uint64_t hi = m[0].ord;
            return hi > step ? hi - step : hi / 2;
        }
        uint64_t lo = m[g - 1].ord, hi = m[g].ord;
        if (hi - lo < 2) return 0; // exhausted
        return lo + (hi - lo) / 2;
    }
    bool gap_ok(Model const& m, size_t g) const {
        if constexpr (!Spec::ordered) return true;
        else {
            if (m.empty()) return true;
            uint64_t o = gap_ord(m, g);
            if (g > 0 && o <= m[g - 1].ord) return false;
            if (g < m.size() && o >= m[g].ord) return false;
            return o <= Spec::ord_max && o > 0;
        }
    }
    static ME fresh(Inst& in, int alpha, uint64_t ord) {
        ME e;
        e.id = in.next++;
        e.alpha = static_cast<uint16_t>(alpha);
        e.ord = in.force ? in.force : ord;
        return e;
    }

    // iterator to position pos of x obtained in different ways
    template <class X>
    static auto iter_at(X& x, size_t pos, size_t n, int way) {
        auto it = x.begin();
        switch (way) {
            case 0:
                for (size_t i = 0; i < pos; ++i) ++it;
                break;
            case 1:
                it = x.end();
                for (size_t i = n; i > pos; --i) --it;
                break;
            case 2:
                it += static_cast<ssize_t>(pos);
                break;
            default:
                if constexpr (Spec::indexed) it = x.find_index(static_cast<typename Spec::Size>(pos));
                break;
        }
        return it;
    }

    // runs f on the mutable tree in place, or on the immutable one storing the result in slot d
    template <class F>
    void edit(Inst& in, int s, int d, Model&& nm, F&& f) {
        Slot<T, P>& sl = in.s[s];
        if (sl.t) {
            {
                InLib l;
                f(*sl.t);
            }
            sl.m = std::move(nm);
        } else {
            Box<P> r;
            r.build([&] { return f(std::as_const(*sl.p)); });
            std::swap(r.p, in.s[d].p.p);
            in.s[d].t.reset();
            in.s[d].m = std::move(nm);
        }
    }

    void apply(Inst& in, Op o) {
        Slot<T, P>& sl = in.s[o.s];
        bool bulk = o.k == BULKB || o.k == BULKF || o.k == BULKM || o.k == BULKA;
        Model nm;
        if (!bulk) nm = sl.m;
        size_t n = nm.size();
        switch (o.k) {
            case PUSHB: {
                ME e = fresh(in, o.b, gap_ord(nm, n));
                nm.push_back(e);
                edit(in, o.s, o.d, std::move(nm), [&](auto& x) { return Spec::with(e, o.v, [&](auto&&... a) { return x.push_back(std::forward<decltype(a)>(a)...); }); });
                break;
            }
            case PUSHF: {
                ME e = fresh(in, o.b, gap_ord(nm, 0));
                nm.insert(nm.begin(), e);
                edit(in, o.s, o.d, std::move(nm), [&](auto& x) { return Spec::with(e, o.v, [&](auto&&... a) { return x.push_front(std::forward<decltype(a)>(a)...); }); });
                break;
            }
            case POPB: {
                ME e = nm.back();
                nm.pop_back();
                edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, T>) CHECK(Spec::eq(x.pop_back(), e), "pop_back of %zu elements returned the wrong value", n);
                    else return x.pop_back();
                });
                break;
            }
            case POPF: {
                ME e = nm.front();
                nm.erase(nm.begin());
                edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, T>) CHECK(Spec::eq(x.pop_front(), e), "pop_front of %zu elements returned the wrong value", n);
                    else return x.pop_front();
                });
                break;
            }
            case INS: {
                ME e = fresh(in, o.b, gap_ord(nm, o.a));
                nm.insert(nm.begin() + o.a, e);
                edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                    auto it = iter_at(x, o.a, n, o.v);
                    return Spec::with(e, 0, [&](auto&&... a) { return x.insert(it, std::forward<decltype(a)>(a)...); });
                });
                break;
            }
            case ERA: {
                nm.erase(nm.begin() + o.a);
                edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                    auto it = iter_at(x, o.a, n, o.v);
                    return x.erase(it);
                });
                break;
            }
            case ASG: {
                ME e = fresh(in, o.b, nm[o.a].ord);
                nm[o.a] = e;
                edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                    auto it = iter_at(x, o.a, n, o.v);
                    return Spec::with(e, 0, [&](auto&&... a) { return x.assign(it, std::forward<decltype(a)>(a)...); });
                });
                break;
            }
            case UPD: {
                ME old = nm[o.a];
                ME e = fresh(in, o.b, old.ord);
                nm[o.a] = e;
                bool good = false;
                edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                    auto it = iter_at(x, o.a, n, o.v);
                    return x.update(it, [&](V const& v) {
                        good = Spec::eq(v, old);
                        return Spec::make(e);
                    });
                });
                CHECK(good, "update at %u of %zu was not called with the element", o.a, n);
                break;
            }
            case CLEAR:
                if (sl.t) {
                    InLib l;
                    sl.t->clear();
                }
                sl.m.clear();
                break;
            case INSX: case ERAX: case ASGX: case UPDX:
                if constexpr (Spec::indexed) apply_index(in, o, std::move(nm));
                break;
            case KINS: case KIOA: case KASG: case KUPD: case KERA: case KSUB:
                if constexpr (Spec::ordered) apply_key(in, o, std::move(nm));
                break;
            case SNAP:
                in.s[o.d].t.reset();
                in.s[o.d].p.build([&] { return std::as_const(*sl.t).persistent(); });
                in.s[o.d].m = sl.m;
                break;
            case THAW:
                in.s[o.d].p.reset();
                in.s[o.d].t.build([&] { return std::as_const(*sl.p).transient(); });
                in.s[o.d].m = sl.m;
                break;
            case FLAG: {
                ++in.snaps;
                InLib l;
                P tmp(std::as_const(*sl.t).persistent());
                break;
            }
            case TOP: {
                ++in.snaps;
                sl.p.build([&] { return std::move(*sl.t).persistent(); });
                sl.t.reset();
                break;
            }
            case TOT:
                sl.t.build([&] { return std::move(*sl.p).transient(); });
                sl.p.reset();
                break;
            case COPY:
                if (sl.t) {
                    in.s[o.d].p.reset();
                    if (o.v) in.s[o.d].t.emplace(*sl.t);
                    else in.s[o.d].t.emplace(std::as_const(*sl.t));
                } else {
                    in.s[o.d].t.reset();
                    if (o.v) in.s[o.d].p.emplace(*sl.p);
                    else in.s[o.d].p.emplace(std::as_const(*sl.p));
                }
                in.s[o.d].m = sl.m;
                break;
            case MOVE:
                if (sl.t) {
                    in.s[o.d].p.reset();
                    in.s[o.d].t.emplace(std::move(*sl.t));
                } else {
                    in.s[o.d].t.reset();
                    in.s[o.d].p.emplace(std::move(*sl.p));
                }
                in.s[o.d].m = std::move(sl.m);
                sl.clear();
                break;
            case ASSIGNC: {
                InLib l;
                if (sl.t) *in.s[o.d].t = std::as_const(*sl.t);
                else *in.s[o.d].p = std::as_const(*sl.p);
                OutLib ol;
                if (o.s != o.d) in.s[o.d].m = sl.m;
                break;
            }
            case ASSIGNM: {
                {
                    InLib l;
                    if (sl.t) *in.s[o.d].t = std::move(*sl.t);
                    else *in.s[o.d].p = std::move(*sl.p);
                }
                in.s[o.d].m = std::move(sl.m);
                sl.clear();
                break;
            }
            case SWAP: {
                InLib l;
                if (sl.t) std::swap(*sl.t, *in.s[o.d].t);
                else std::swap(*sl.p, *in.s[o.d].p);
                OutLib ol;
                std::swap(sl.m, in.s[o.d].m);
                break;
            }
            case DROP: sl.clear(); break;
            case NEWT:
                in.s[o.d].clear();
                in.s[o.d].t.emplace();
                break;
            case NEWP:
                in.s[o.d].clear();
                in.s[o.d].p.emplace();
                break;
            case BULKB: case BULKF: case BULKM: case BULKA: {
                auto pos = [&](int i, int sz) { return o.k == BULKB ? sz : o.k == BULKF ? 0 : o.k == BULKM ? sz / 2 : (i & 1) ? 0 : sz; };
                std::vector<uint64_t> ords;
                if (Spec::ordered && sl.m.empty()) {
                    // keys are spread evenly
                    std::vector<int> seq;
                    for (int i = 0; i < o.a; ++i) seq.insert(seq.begin() + pos(i, i), i);
                    ords.resize(o.a);
                    for (int i = 0; i < o.a; ++i) ords[static_cast<size_t>(seq[static_cast<size_t>(i)])] = Spec::ord_max / (o.a + 2u) * (static_cast<uint64_t>(i) + 1);
                }
                for (int i = 0; i < o.a; ++i) {
                    int sz = static_cast<int>(in.s[o.s].m.size()), at = pos(i, sz);
                    if (!ords.empty()) in.force = ords[static_cast<size_t>(i)];
                    if (at == sz && sz > 4096) { // as PUSHB, without copying the model each time
                        ME e = fresh(in, alpha_of(o, i), gap_ord(sl.m, static_cast<size_t>(sz)));
                        Model m = std::move(sl.m);
                        m.push_back(e);
                        edit(in, o.s, o.s, std::move(m), [&](auto& x) { return Spec::with(e, 0, [&](auto&&... a) { return x.push_back(std::forward<decltype(a)>(a)...); }); });
                        in.force = 0;
                        continue;
                    }
                    apply(in, at == sz ? mk(PUSHB, o.s, 0, alpha_of(o, i)) : at == 0 ? mk(PUSHF, o.s, 0, alpha_of(o, i)) : mk(INS, o.s, at, alpha_of(o, i)));
                    in.force = 0;
                }
                break;
            }
            case THIN: { // erase all elements except those at positions = b mod a; v: direction
                size_t sz = sl.m.size();
                std::vector<size_t> kill;
                for (size_t i = 0; i < sz; ++i)
                    if (i % o.a != o.b) kill.push_back(i);
                if (kill.size() == sz && sz) kill.pop_back();
                if (o.v) {
                    for (size_t i = kill.size(); i-- > 0;) apply(in, mk(ERA, o.s, static_cast<int>(kill[i]), 0));
                } else {
                    size_t off = 0;
                    for (size_t i : kill) apply(in, mk(ERA, o.s, static_cast<int>(i - off++), 0));
                }
                break;
            }
            default: fail("unknown operation %d", o.k);
        }
    }

    static int alpha_of(Op o, int i) { return Spec::nalpha > 1 ? (i * 7 + i / 3 + o.b) % Spec::nalpha : 0; }

    static Op mk(int k, int s, int a, int b, int v = 0, int d = -1) {
        Op o;
        o.k = static_cast<uint8_t>(k);
        o.s = static_cast<uint8_t>(s);
        o.d = static_cast<uint8_t>(d < 0 ? s : d);
        o.a = static_cast<uint16_t>(a);
        o.b = static_cast<uint16_t>(b);
        o.v = static_cast<uint8_t>(v);
        return o;
    }

    void apply_index(Inst& in, Op o, Model&& nm) {
        if constexpr (Spec::indexed) {
            using S = typename Spec::Size;
            size_t n = nm.size();
            S i = static_cast<S>(o.a);
            if (o.k == INSX) {
                ME e = fresh(in, o.b, gap_ord(nm, o.a));
                nm.insert(nm.begin() + o.a, e);
                edit(in, o.s, o.d, std::move(nm), [&](auto& x) { return Spec::with(e, o.v, [&](auto&&... a) { return x.insert_index(i, std::forward<decltype(a)>(a)...); }); });
            } else if (o.k == ERAX) {
                nm.erase(nm.begin() + o.a);
                edit(in, o.s, o.d, std::move(nm), [&](auto& x) { return x.erase_index(i); });
            } else if (o.k == ASGX) {
                ME e = fresh(in, o.b, nm[o.a].ord);
                nm[o.a] = e;
                edit(in, o.s, o.d, std::move(nm), [&](auto& x) { return Spec::with(e, o.v, [&](auto&&... a) { return x.assign_index(i, std::forward<decltype(a)>(a)...); }); });
            } else {
                ME old = nm[o.a];
                ME e = fresh(in, o.b, old.ord);
                nm[o.a] = e;
                bool good = false;
                edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                    return x.update_index(i, [&](V const& v) {
                        good = Spec::eq(v, old);
                        return Spec::make(e);
                    });
                });
                CHECK(good, "update_index(%u) of %zu was not called with the element", o.a, n);
            }
        }
    }

    void apply_key(Inst& in, Op o, Model&& nm) {
        if constexpr (Spec::ordered) {
            bool present = o.b & 1;
            int alpha = o.b >> 1;
            uint64_t ord = present ? nm[o.a].ord : gap_ord(nm, o.a);
            auto key = Spec::key(ord);
            switch (o.k) {
                case KINS: case KIOA: case KSUB: {
                    ME e = fresh(in, alpha, ord);
                    if (present) {
                        if (o.k != KINS) nm[o.a] = e;
                    } else {
                        nm.insert(nm.begin() + o.a, e);
                    }
                    edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                        if (o.k == KSUB) {
                            if constexpr (std::is_same_v<std::decay_t<decltype(x)>, T> && !Spec::indexed) x[key] = Spec::subscript_value(e);
                            else return x.insert_or_assign(Spec::make(e));
                        }
                        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, T> && !Spec::indexed) {
                            if (o.k == KSUB) return;
                        }
                        return Spec::with(e, o.v, [&](auto&&... a) {
                            if (o.k == KINS) return x.insert_v(std::forward<decltype(a)>(a)...);
                            return x.insert_or_assign(std::forward<decltype(a)>(a)...);
                        });
                    });
                    break;
                }
                case KASG: {
                    ME e = fresh(in, alpha, ord);
                    nm[o.a] = e;
                    edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                        return Spec::with(e, o.v, [&](auto&&... a) { return x.assign_v(std::forward<decltype(a)>(a)...); });
                    });
                    break;
                }
                case KUPD: {
                    ME old = nm[o.a];
                    ME e = fresh(in, alpha, ord);
                    nm[o.a] = e;
                    bool good = false;
                    edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                        return x.update_key(key, [&](auto const& v) {
                            good = Spec::eq_mapped(v, old);
                            return Spec::mapped(e);
                        });
                    });
                    CHECK(good, "update_key was not called with the value of the element");
                    break;
                }
                case KERA:
                    nm.erase(nm.begin() + o.a);
                    edit(in, o.s, o.d, std::move(nm), [&](auto& x) { return x.erase_key(key); });
                    break;
            }
        }
    }

    // ---- enumeration for a single tree in slot s (result of immutable edits goes to slot d)
    void edits(Inst& in, std::vector<Op>& out, uint64_t mask, int s, int d, int maxn) {
        Model const& m = in.s[s].m;
        int n = static_cast<int>(m.size());
        bool isT = static_cast<bool>(in.s[s].t);
        int NA = Spec::nalpha;
        auto has = [&](int k) { return (mask >> k) & 1; };
        int nv = cfg.vars;
        if (n < maxn) {
            for (int v = 0; v < nv; ++v)
                for (int b = 0; b < NA; ++b) {
                    if (has(PUSHB) && gap_ok(m, n)) out.push_back(mk(PUSHB, s, 0, b, v, d));
                    if (has(PUSHF) && gap_ok(m, 0)) out.push_back(mk(PUSHF, s, 0, b, v, d));
                }
            for (int a = 0; a <= n; ++a) {
                if (!gap_ok(m, a)) continue;
                for (int b = 0; b < NA; ++b) {
                    if (has(INS))
                        for (int w = 0; w < cfg.ways; ++w) out.push_back(mk(INS, s, a, b, w, d));
                    for (int v = 0; v < nv; ++v) {
                        if (Spec::indexed && has(INSX)) out.push_back(mk(INSX, s, a, b, v, d));
                        if (Spec::ordered) {
                            if (has(KINS)) out.push_back(mk(KINS, s, a, b * 2, v, d));
                            if (has(KIOA)) out.push_back(mk(KIOA, s, a, b * 2, v, d));
                        }
                    }
                    if (Spec::ordered && has(KSUB) && isT) out.push_back(mk(KSUB, s, a, b * 2, 0, d));
                }
            }
        }
        if (n > 0) {
            if (has(POPB)) out.push_back(mk(POPB, s, 0, 0, 0, d));
            if (has(POPF)) out.push_back(mk(POPF, s, 0, 0, 0, d));
        }
        for (int a = 0; a < n; ++a) {
            for (int w = 0; w < cfg.ways; ++w) {
                if (has(ERA)) out.push_back(mk(ERA, s, a, 0, w, d));
                for (int b = 0; b < NA; ++b) {
                    if (has(ASG)) out.push_back(mk(ASG, s, a, b, w, d));
                    if (has(UPD)) out.push_back(mk(UPD, s, a, b, w, d));
                }
            }
            if (Spec::indexed) {
                if (has(ERAX)) out.push_back(mk(ERAX, s, a, 0, 0, d));
                for (int b = 0; b < NA; ++b) {
                    for (int v = 0; v < nv; ++v)
                        if (has(ASGX)) out.push_back(mk(ASGX, s, a, b, v, d));
                    if (has(UPDX)) out.push_back(mk(UPDX, s, a, b, 0, d));
                }
            }
            if (Spec::ordered) {
                if (has(KERA)) out.push_back(mk(KERA, s, a, 1, 0, d));
                for (int b = 0; b < NA; ++b) {
                    for (int v = 0; v < nv; ++v) {
                        if (has(KINS)) out.push_back(mk(KINS, s, a, b * 2 + 1, v, d));
                        if (has(KIOA)) out.push_back(mk(KIOA, s, a, b * 2 + 1, v, d));
                        if (has(KASG)) out.push_back(mk(KASG, s, a, b * 2 + 1, v, d));
                    }
                    if (has(KUPD)) out.push_back(mk(KUPD, s, a, b * 2 + 1, 0, d));
                    if (has(KSUB) && isT) out.push_back(mk(KSUB, s, a, b * 2 + 1, 0, d));
                }
            }
        }
        if (has(CLEAR) && isT) out.push_back(mk(CLEAR, s, 0, 0, 0, d));
    }

    void enabled(Inst& in, std::vector<Op>& out) {
        edits(in, out, cfg.edits, 0, 0, cfg.maxn);
        auto has = [&](int k) { return (cfg.conv >> k) & 1; };
        if (in.snaps < cfg.snaps) {
            if (in.s[0].t) {
                if (has(FLAG)) out.push_back(mk(FLAG, 0, 0, 0));
                if (has(TOP)) out.push_back(mk(TOP, 0, 0, 0));
            }
        }
        if (in.s[0].p && has(TOT)) out.push_back(mk(TOT, 0, 0, 0));
    }
    void probes(Inst& in, std::vector<Op>& out) { edits(in, out, cfg.probe, 0, 0, 1 << 14); }

    std::string describe(Op o) {
        char b[160];
        snprintf(b, sizeof b, "%s slot=%d", kind_name(o.k), o.s);
        std::string r = b;
        if (o.d != o.s) r += " -> slot " + std::to_string(o.d);
        if (o.k >= KINS && o.k <= KSUB) r += std::string(o.b & 1 ? " key of element " : " key in gap ") + std::to_string(o.a) + " alpha=" + std::to_string(o.b >> 1);
        else if (o.k >= PUSHB && o.k <= UPDX) r += " pos=" + std::to_string(o.a) + " alpha=" + std::to_string(o.b);
        else if (o.a || o.b) r += " a=" + std::to_string(o.a) + " b=" + std::to_string(o.b);
        if (o.v) r += " form=" + std::to_string(o.v);
        return r;
    }
};

// ---- helpers for specs --------------------------------------------------------------------------------------
// Defaults; concrete specs derive from this and override what they have.
struct SpecBase {
    static constexpr bool value_matters = false, ordered = false, indexed = false, summed = false, has_min = false, has_max = false;
    static constexpr int nalpha = 1;
    using Size = size_t;
    using Sum = long;
    static constexpr uint64_t ord_max = 1ULL << 62, ord_step = 1ULL << 40;
    static void check_done() {}
};

constexpr uint64_t DEQUE_EDITS = bit(PUSHB) | bit(PUSHF) | bit(INS) | bit(ERA) | bit(ASG) | bit(UPD) | bit(POPB) | bit(POPF) | bit(CLEAR);
constexpr uint64_t INDEX_EDITS = bit(INSX) | bit(ERAX) | bit(ASGX) | bit(UPDX);
constexpr uint64_t KEY_EDITS = bit(KINS) | bit(KIOA) | bit(KASG) | bit(KUPD) | bit(KERA) | bit(KSUB);

inline Op op(int k, int a = 0, int b = 0, int v = 0) {
    Op o;
    o.k = static_cast<uint8_t>(k);
    o.a = static_cast<uint16_t>(a);
    o.b = static_cast<uint16_t>(b);
    o.v = static_cast<uint8_t>(v);
    return o;
}

// initial states for deeper trees: grown in several ways, then thinned out in several ways, frozen or not
inline std::vector<std::vector<Op>> grown(std::vector<int> sizes, std::vector<int> thin, bool freeze, bool start_p = false) {
    std::vector<std::vector<Op>> r;
    for (int n : sizes)
        for (int how : {BULKB, BULKF, BULKM, BULKA}) {
            std::vector<std::vector<Op>> here{{op(how, n)}};
            for (int t : thin)
                for (int rem : {0, t - 1, t / 2})
                    for (int dir : {0, 1}) here.push_back({op(how, n), op(THIN, t, rem, dir)});
            for (auto& h : here) {
                r.push_back(h);
                if (freeze) {
                    auto g = h;
                    g.push_back(op(start_p ? TOT : FLAG));
                    r.push_back(g);
                }
            }
        }
    return r;
}
}
