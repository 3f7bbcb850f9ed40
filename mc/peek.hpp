// Reads the hidden structure of a tree, for one purpose only: to recognise states that have already been explored.
// Nothing read here ever raises an alarm.  If an internal name changes, the corresponding part silently falls back to
// the structure that the public iterators reveal.
#pragma once
#include <map>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include "engine.hpp"

namespace mc {
#define MC_HAS(NAME, EXPR)                                                                     \
    template <class N, class = void>                                                           \
    struct NAME : std::false_type {};                                                          \
    template <class N>                                                                         \
    struct NAME<N, std::void_t<decltype(std::declval<N const&>().EXPR)>> : std::true_type {};

MC_HAS(has_length, length)
MC_HAS(has_persistent, persistent)
MC_HAS(has_ref_count, ref_count.load())
MC_HAS(has_pointers, pointers[0])
MC_HAS(has_values, values[0])
MC_HAS(has_counts, child_counts[0])
MC_HAS(has_sums, child_sums[0])
MC_HAS(has_keys, keys[0])
MC_HAS(has_mins, mins[0])
MC_HAS(has_maxs, maxs[0])
MC_HAS(has_iter, iter)
MC_HAS(has_leaf, leaf)
MC_HAS(has_modc, mod_count)
#undef MC_HAS

template <class T>
struct PeekTree : T {
    template <class Q = PeekTree>
    static auto root(T const& t, int) -> decltype((t.*(&Q::root_variant))) {
        return t.*(&Q::root_variant);
    }
    static char root(T const&, long) { return 0; }
    static constexpr bool ok = !std::is_same_v<decltype(root(std::declval<T const&>(), 0)), char>;
};

// Spec provides: Value; optionally ordered/summed/min/max observers used to normalise cached aggregates
template <class Spec>
struct Walker {
    using V = typename Spec::Value;
    Canon& out;
    std::map<void const*, uint64_t> ids;
    std::vector<std::pair<void const*, long>> refs; // node -> ref_count deviation, in order of discovery
    bool broken = false;

    explicit Walker(Canon& c) : out(c) {}

    template <class A>
    static uint64_t bits(A const& a) {
        if constexpr (std::is_arithmetic_v<A>) {
            uint64_t r = 0;
            memcpy(&r, &a, sizeof(A) < 8 ? sizeof(A) : 8);
            return r;
        } else {
            return Spec::bits(a);
        }
    }

    // appends the elements below n to el; emits n on first sight
    template <class N>
    void node(N const* n, std::vector<V const*>& el, int lvl = 0) {
        if (!n || broken) {
            out.put(0xBAD0);
            broken = true;
            return;
        }
        auto [it, fresh] = ids.emplace(n, ids.size());
        if (fresh) {
            long rc = 0;
            if constexpr (has_ref_count<N>::value) rc = static_cast<long>(n->ref_count.load(std::memory_order_relaxed));
            refs.emplace_back(n, rc - 1);
        } else {
            refs[it->second].second--;
            out.put(0xF00 + (it->second << 16));
        }
        if constexpr (has_length<N>::value) {
            long len = static_cast<long>(n->length);
            if constexpr (has_pointers<N>::value) {
                constexpr long cap = static_cast<long>(sizeof(n->pointers) / sizeof(n->pointers[0]));
                if (len < 0 || len > cap) {
                    broken = true;
                    out.put(0xBAD1);
                    return;
                }
                if (fresh) {
                    uint64_t per = 0;
                    if constexpr (has_persistent<N>::value) per = n->persistent ? 1 : 0;
                    out.put(0x100 + static_cast<uint64_t>(len) * 0x1000 + per);
                    for (long i = len; i < cap; ++i)
                        if (n->pointers[i].operator->()) out.put(0x57A1E + (static_cast<uint64_t>(i) << 32));
                }
                for (long i = 0; i < len; ++i) {
                    size_t b = el.size();
                    node(n->pointers[i].operator->(), el, lvl + 1);
                    if (broken) return;
                    if (fresh) deviations(*n, i, el, b);
                }
            } else if constexpr (has_values<N>::value) {
                if (len < 0 || len > 65536) {
                    broken = true;
                    out.put(0xBAD2);
                    return;
                }
                if (fresh) {
                    uint64_t per = 0;
                    if constexpr (has_persistent<N>::value) per = n->persistent ? 1 : 0;
                    out.put(0x200 + static_cast<uint64_t>(len) * 0x1000 + per);
                }
                for (long i = 0; i < len; ++i) {
                    V const* v = &n->values[i];
                    el.push_back(v);
                    if constexpr (Spec::value_matters) {
                        if (fresh) out.put(Spec::canon_value(*v));
                    }
                }
            }
        }
    }

    template <class N>
    void deviations(N const& n, long i, std::vector<V const*> const& el, size_t b) {
        (void)n; (void)i; (void)el; (void)b;
        if constexpr (has_counts<N>::value) {
            auto c = n.child_counts[i];
            decltype(c) real = static_cast<decltype(c)>(el.size() - b);
            if (c != real) out.put(0xDC00 + (bits(static_cast<decltype(c)>(c - real)) << 16));
        }
        if constexpr (has_sums<N>::value && Spec::summed) {
            auto s = n.child_sums[i];
            using S = decltype(s);
            S r{};
            for (size_t j = b; j < el.size(); ++j) r = static_cast<S>(r + Spec::sum_of(*el[j]));
            if (!(s == r)) out.put(0xD500 + (bits(s) << 16) + bits(r));
        }
        if constexpr (has_keys<N>::value && Spec::ordered) {
            if (el.size() > b && !Spec::same_key(n.keys[i], Spec::key_of(*el.back()))) {
                uint64_t rank = 0;
                for (size_t j = 0; j < el.size(); ++j) rank += Spec::key_less(Spec::key_of(*el[j]), n.keys[i]) ? 2 : Spec::same_key(Spec::key_of(*el[j]), n.keys[i]) ? 1 : 0;
                out.put(0xDE00 + (rank << 16));
            }
        }
        if constexpr (has_mins<N>::value && Spec::has_min) {
            if (el.size() > b) {
                size_t best = b;
                for (size_t j = b + 1; j < el.size(); ++j)
                    if (Spec::min_less(Spec::min_key(*el[j]), Spec::min_key(*el[best]))) best = j;
                if (Spec::min_less(n.mins[i], Spec::min_key(*el[best])) || Spec::min_less(Spec::min_key(*el[best]), n.mins[i])) out.put(0xDA00 + (bits(n.mins[i]) << 16));
            }
        }
        if constexpr (has_maxs<N>::value && Spec::has_max) {
            if (el.size() > b) {
                size_t best = b;
                for (size_t j = b + 1; j < el.size(); ++j)
                    if (Spec::max_less(Spec::max_key(*el[j]), Spec::max_key(*el[best]))) best = j;
                if (Spec::max_less(n.maxs[i], Spec::max_key(*el[best])) || Spec::max_less(Spec::max_key(*el[best]), n.maxs[i])) out.put(0xDB00 + (bits(n.maxs[i]) << 16));
            }
        }
    }

    // Returns the node addresses seen so far in order (used to canonicalise iterators)
    uint64_t id_of(void const* p) const {
        auto it = ids.find(p);
        return it == ids.end() ? 0xFFFF : it->second;
    }

    template <class T>
    void tree(T const& t) {
        out.put(0x7000 + t.size());
        std::vector<V const*> el;
        if constexpr (PeekTree<T>::ok) {
            std::visit([&](auto const& r) { node(r.operator->(), el); }, PeekTree<T>::root(t, 0));
            if (el.size() != t.size()) out.put(0xD5);
        } else {
            // public fallback: the path of every element
            out.put(t.depth());
            size_t guard = 0;
            for (auto it = t.cbegin(); it != t.cend() && guard < 100000; ++it, ++guard) {
                if constexpr (has_iter<decltype(it)>::value) out.put(it.iter);
                if constexpr (Spec::value_matters) out.put(Spec::canon_value(*it));
            }
        }
    }

    void end() {
        for (auto const& r : refs) out.put(static_cast<uint64_t>(r.second));
    }
};
}
