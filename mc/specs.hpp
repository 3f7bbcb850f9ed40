// Element types and tree instantiations used by the checks.
#pragma once
#include <limits>
#include <string>
#include <tuple>
#include "tok.hpp"
#include "world.hpp"

namespace mc {
using bpptree::BppTree;
using bpptree::BppTreeMap;
using bpptree::BppTreeSet;
using bpptree::BppTreeVector;
using bpptree::IndexedBuilder;
using bpptree::MaxBuilder;
using bpptree::MinBuilder;
using bpptree::OrderedBuilder;
using bpptree::PairExtractor;
using bpptree::SummedBuilder;
using bpptree::TupleExtractor;
using bpptree::ValueExtractor;

// bytes of a leaf holding c elements of V, and of an internal node with k children and x further bytes per child
template <class V>
constexpr int leafb(int c) { return (alignof(V) > 8 ? static_cast<int>(alignof(V)) : 8) + c * static_cast<int>(sizeof(V)); }
constexpr int intb(int k, int x = 0) { return 8 + k * (8 + x); }

// ---- element kinds -----------------------------------------------------------------------------------------
struct IntElem : SpecBase {
    using Value = int;
    static Value make(ME const& e) { return static_cast<int>(e.id); }
    static bool eq(Value const& v, ME const& e) { return v == static_cast<int>(e.id); }
    static uint64_t canon_value(Value const& v) { return static_cast<uint64_t>(v); }
    template <class F>
    static decltype(auto) with(ME const& e, int form, F&& f) {
        if (form == 1) {
            Value const v = make(e);
            return f(v);
        }
        return f(make(e));
    }
    template <class A>
    static uint64_t bits(A const&) { return 0; }
};

// elements that notice misuse of their lifetime
struct TokElem : SpecBase {
    using Value = Tok<0>;
    static Value make(ME const& e) { return Value(e.id); }
    static bool eq(Value const& v, ME const& e) {
        v.usable("read an element that does not exist or was moved away");
        return v.id == e.id;
    }
    static uint64_t canon_value(Value const& v) { return v.id; }
    template <class F>
    static decltype(auto) with(ME const& e, int form, F&& f) {
        if (form == 1) {
            Value const v = make(e);
            return f(v);
        }
        if (form == 2) return f(static_cast<uint32_t>(e.id));
        return f(make(e));
    }
    template <class A>
    static uint64_t bits(A const&) { return 0; }
    static void check_done() {
        long l = TokCount<0>::live;
        TokCount<0>::live = 0;
        if (l) fail("%ld elements exist after every tree is gone", l);
    }
};

// elements of several arguments that own memory
struct StrElem : SpecBase {
    using Value = std::pair<std::string, uint32_t>;
    static std::string str(ME const& e) { return "an owned string that does not fit inline " + std::to_string(e.id); }
    static Value make(ME const& e) { return Value(str(e), e.id); }
    static bool eq(Value const& v, ME const& e) {
        OutLib o;
        return v.second == e.id && v.first == str(e);
    }
    static uint64_t canon_value(Value const& v) { return v.second; }
    template <class F>
    static decltype(auto) with(ME const& e, int form, F&& f) {
        if (form == 1) {
            Value const v = make(e);
            return f(v);
        }
        if (form == 2) return f(str(e), static_cast<uint32_t>(e.id));
        if (form == 3) {
            std::string s = str(e);
            uint32_t id = e.id;
            return f(std::piecewise_construct, std::forward_as_tuple(s), std::forward_as_tuple(id));
        }
        return f(make(e));
    }
    template <class A>
    static uint64_t bits(A const&) { return 0; }
};

// ---- keys ----------------------------------------------------------------------------------------------------
struct GapProbes {
    // ordinals to look up strictly between lo and hi (either side may be open)
    template <uint64_t ord_max>
    static std::vector<uint64_t> get(uint64_t lo, uint64_t hi, bool haslo, bool hashi) {
        std::vector<uint64_t> r;
        uint64_t a = haslo ? lo + 1 : 0, b = hashi ? hi - 1 : ord_max;
        if (hashi && hi == 0) return r;
        if (a > b) return r;
        r.push_back(a);
        if (b != a) r.push_back(b);
        if (b - a > 1) r.push_back(a + (b - a) / 2);
        return r;
    }
};

// integer keys compared with <
template <class K_>
struct IntKey {
    using K = K_;
    static constexpr bool is_small = sizeof(K) < 4;
    static constexpr uint64_t ord_max = sizeof(K) == 1 ? 255 : sizeof(K) == 2 ? 65535 : sizeof(K) == 4 ? 0xFFFFFFFFull : 1ull << 62;
    static constexpr uint64_t ord_step = sizeof(K) == 1 ? 16 : sizeof(K) == 2 ? 2048 : sizeof(K) == 4 ? 1u << 26 : 1ull << 40;
    static K key(uint64_t o) {
        if constexpr (std::is_signed_v<K>) return static_cast<K>(static_cast<int64_t>(o) + (sizeof(K) == 8 ? -(1ll << 61) : static_cast<int64_t>(std::numeric_limits<K>::min())));
        else return static_cast<K>(o);
    }
    static bool same(K const& a, K const& b) { return a == b; }
    static bool less(K const& a, K const& b) { return a < b; }
};
template <class K_>
struct IntKeyDesc : IntKey<K_> {
    static K_ key(uint64_t o) { return IntKey<K_>::key(IntKey<K_>::ord_max - o); }
    static bool less(K_ const& a, K_ const& b) { return b < a; }
};
struct StrKey {
    using K = std::string;
    static constexpr uint64_t ord_max = 1ull << 40, ord_step = 1ull << 32;
    static K key(uint64_t o) {
        OutLib l;
        char b[40];
        snprintf(b, sizeof b, "key-%024llx", (unsigned long long)o);
        return b;
    }
    static bool same(K const& a, K const& b) { return a == b; }
    static bool less(K const& a, K const& b) { return a < b; }
};
struct StrKeyDesc : StrKey {
    static K key(uint64_t o) { return StrKey::key(ord_max - o); }
    static bool less(K const& a, K const& b) { return b < a; }
};
struct TokKey {
    using K = Tok<1>;
    static constexpr uint64_t ord_max = 1ull << 31, ord_step = 1ull << 25;
    static K key(uint64_t o) { return K(static_cast<uint32_t>(o)); }
    static bool same(K const& a, K const& b) { return a.id == b.id; }
    static bool less(K const& a, K const& b) { return a.id < b.id; }
};
// keys whose equality is coarser than identity; no operator== or operator< of their own
struct FuzzyKey {
    struct K {
        uint64_t v;
    };
    struct Less {
        bool operator()(K const& a, K const& b) const { return (a.v >> 8) < (b.v >> 8); }
    };
    static constexpr uint64_t ord_max = 1ull << 50, ord_step = 1ull << 40;
    static K key(uint64_t o) {
        static thread_local uint64_t salt = 0;
        return K{(o << 8) | (++salt & 255)};
    }
    static bool same(K const& a, K const& b) { return (a.v >> 8) == (b.v >> 8); }
    static bool less(K const& a, K const& b) { return (a.v >> 8) < (b.v >> 8); }
};
struct Desc {
    template <class A>
    bool operator()(A const& a, A const& b) const { return b < a; }
};

template <class KK>
struct KeyedBase : SpecBase {
    using K = typename KK::K;
    static constexpr bool ordered = true;
    static constexpr uint64_t ord_max = KK::ord_max, ord_step = KK::ord_step;
    static K key(uint64_t o) { return KK::key(o); }
    static bool same_key(K const& a, K const& b) { return KK::same(a, b); }
    static bool key_less(K const& a, K const& b) { return KK::less(a, b); }
    static std::vector<uint64_t> gap_probes(uint64_t lo, uint64_t hi, bool hl, bool hh) { return GapProbes::get<KK::ord_max>(lo, hi, hl, hh); }
    template <class A>
    static uint64_t bits(A const&) { return 0; }
};

template <class M>
struct Mapped {
    static M make(uint32_t id) { return static_cast<M>(id); }
    static uint32_t id(M const& m) { return static_cast<uint32_t>(m); }
};
template <>
struct Mapped<Tok<0>> {
    static Tok<0> make(uint32_t id) { return Tok<0>(id); }
    static uint32_t id(Tok<0> const& m) {
        m.usable("read an element that does not exist or was moved away");
        return m.id;
    }
};
template <>
struct Mapped<std::string> {
    static std::string make(uint32_t id) {
        OutLib o;
        return "mapped value that owns memory " + std::to_string(id);
    }
    static uint32_t id(std::string const& m) { return m.size() > 30 ? static_cast<uint32_t>(strtoul(m.c_str() + 30, nullptr, 10)) : 0; }
};

inline void toks_done() {
    long l = TokCount<0>::live, k = TokCount<1>::live;
    TokCount<0>::live = TokCount<1>::live = 0;
    if (l) fail("%ld elements exist after every tree is gone", l);
    if (k) fail("%ld keys exist after every tree is gone", k);
}

// pair<K, M> with the key first (pos 0) or second (pos 1)
template <class KK, class M, int pos = 0>
struct PairElem : KeyedBase<KK> {
    using K = typename KK::K;
    using Value = std::conditional_t<pos == 0, std::pair<K, M>, std::pair<M, K>>;
    static Value make(ME const& e) {
        if constexpr (pos == 0) return Value(KK::key(e.ord), Mapped<M>::make(e.id));
        else return Value(Mapped<M>::make(e.id), KK::key(e.ord));
    }
    static K const& key_of(Value const& v) { return std::get<pos>(v); }
    static M const& mapped_of(Value const& v) { return std::get<1 - pos>(v); }
    static bool eq(Value const& v, ME const& e) {
        OutLib o;
        return Mapped<M>::id(mapped_of(v)) == e.id && KK::same(key_of(v), KK::key(e.ord));
    }
    static uint64_t canon_value(Value const& v) { return Mapped<M>::id(mapped_of(v)); }
    static bool eq_mapped(M const& m, ME const& e) { return Mapped<M>::id(m) == e.id; }
    static M mapped(ME const& e) { return Mapped<M>::make(e.id); }
    static M subscript_value(ME const& e) { return mapped(e); }
    template <class F>
    static decltype(auto) with(ME const& e, int form, F&& f) {
        if (form == 1) {
            Value const v = make(e);
            return f(v);
        }
        if (form == 2) {
            if constexpr (pos == 0) return f(KK::key(e.ord), mapped(e));
            else return f(mapped(e), KK::key(e.ord));
        }
        if (form == 3) {
            K k = KK::key(e.ord);
            M m = mapped(e);
            if constexpr (pos == 0) return f(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(m));
            else return f(std::piecewise_construct, std::forward_as_tuple(m), std::forward_as_tuple(k));
        }
        return f(make(e));
    }
    static void check_done() { toks_done(); }
};

// tuple<K, M> or tuple<M, K>
template <class KK, class M, int pos = 0>
struct TupElem : KeyedBase<KK> {
    using K = typename KK::K;
    using Value = std::conditional_t<pos == 0, std::tuple<K, M>, std::tuple<M, K>>;
    static Value make(ME const& e) {
        if constexpr (pos == 0) return Value(KK::key(e.ord), Mapped<M>::make(e.id));
        else return Value(Mapped<M>::make(e.id), KK::key(e.ord));
    }
    static K const& key_of(Value const& v) { return std::get<pos>(v); }
    static bool eq(Value const& v, ME const& e) {
        OutLib o;
        return Mapped<M>::id(std::get<1 - pos>(v)) == e.id && KK::same(key_of(v), KK::key(e.ord));
    }
    static uint64_t canon_value(Value const& v) { return Mapped<M>::id(std::get<1 - pos>(v)); }
    static bool eq_mapped(M const& m, ME const& e) { return Mapped<M>::id(m) == e.id; }
    static M mapped(ME const& e) { return Mapped<M>::make(e.id); }
    static M subscript_value(ME const& e) { return mapped(e); }
    template <class F>
    static decltype(auto) with(ME const& e, int form, F&& f) {
        if (form == 1) {
            Value const v = make(e);
            return f(v);
        }
        if (form == 2) {
            if constexpr (pos == 0) return f(KK::key(e.ord), mapped(e));
            else return f(mapped(e), KK::key(e.ord));
        }
        return f(make(e));
    }
    static void check_done() { toks_done(); }
};

// sets: the element is its own key
template <class KK>
struct SetElem : KeyedBase<KK> {
    using K = typename KK::K;
    using Value = K;
    static Value make(ME const& e) { return KK::key(e.ord); }
    static K const& key_of(Value const& v) { return v; }
    static bool eq(Value const& v, ME const& e) {
        OutLib o;
        return KK::same(v, KK::key(e.ord));
    }
    static uint64_t canon_value(Value const&) { return 0; }
    static bool eq_mapped(Value const& m, ME const& e) { return eq(m, e); }
    static Value mapped(ME const& e) { return make(e); }
    static Value subscript_value(ME const& e) { return make(e); }
    template <class F>
    static decltype(auto) with(ME const& e, int form, F&& f) {
        if (form == 1) {
            Value const v = make(e);
            return f(v);
        }
        return f(make(e));
    }
    static void check_done() { toks_done(); }
};

// ---- sequences of numbers: the value is selected by the alphabet; optionally tagged by its identity ------------------
template <class S, S... vals>
struct Alphabet {
    using type = S;
    static constexpr int n = sizeof...(vals);
    static constexpr S v[n] = {vals...};
};
template <class A>
struct NumElem : SpecBase { // the number itself
    using S = typename A::type;
    using Value = S;
    static constexpr bool value_matters = true;
    static constexpr int nalpha = A::n;
    static Value make(ME const& e) { return A::v[e.alpha]; }
    static bool eq(Value const& v, ME const& e) { return v == A::v[e.alpha]; }
    static uint64_t canon_value(Value const& v) { return static_cast<uint64_t>(v); }
    template <class F>
    static decltype(auto) with(ME const& e, int form, F&& f) {
        if (form == 1) {
            Value const v = make(e);
            return f(v);
        }
        if (form == 2) { // an argument of a wider type, which has to be converted to the element
            if constexpr (std::is_integral_v<S> && sizeof(S) < 8) return f(static_cast<int64_t>(make(e)) + (int64_t(1) << (8 * sizeof(S))));
        }
        return f(make(e));
    }
    template <class X>
    static uint64_t bits(X const&) { return 0; }
};
template <class A>
struct TagElem : SpecBase { // pair of the number and an identity
    using S = typename A::type;
    using Value = std::pair<S, uint32_t>;
    static constexpr bool value_matters = true;
    static constexpr int nalpha = A::n;
    static Value make(ME const& e) { return Value(A::v[e.alpha], e.id); }
    static bool eq(Value const& v, ME const& e) { return v.first == A::v[e.alpha] && v.second == e.id; }
    static uint64_t canon_value(Value const& v) { return static_cast<uint64_t>(v.first); }
    template <class F>
    static decltype(auto) with(ME const& e, int form, F&& f) {
        if (form == 1) {
            Value const v = make(e);
            return f(v);
        }
        if (form == 2) return f(A::v[e.alpha], static_cast<uint32_t>(e.id));
        return f(make(e));
    }
    template <class X>
    static uint64_t bits(X const&) { return 0; }
};

// ---- attaching a tree type -------------------------------------------------------------------------------------------
template <class E, class Tree>
struct Plain : E {
    using T = typename Tree::Transient;
    using P = typename Tree::Persistent;
};
template <class E, class S, class Tree>
struct Idx : Plain<E, Tree> {
    static constexpr bool indexed = true;
    using Size = S;
};

// ---- numbers observed by sums, minima and maxima -----------------------------------------------------------------------
struct First {
    template <class V>
    static decltype(auto) get(V const& v) { return v.first; }
};
struct Second {
    template <class V>
    static decltype(auto) get(V const& v) { return v.second; }
};
struct Whole {
    template <class V>
    static V const& get(V const& v) { return v; }
};
template <class E, class Tree, class G = Whole, class S = void>
struct WithSum : Plain<E, Tree> {
    static constexpr bool summed = true;
    using V = typename E::Value;
    using Sum = std::conditional_t<std::is_void_v<S>, std::decay_t<decltype(G::get(std::declval<V const&>()))>, S>;
    static Sum sum_of(V const& v) { return static_cast<Sum>(G::get(v)); }
    template <class A>
    static uint64_t bits(A const&) { return 0; }
};
struct Lt {
    template <class A, class B>
    bool operator()(A const& a, B const& b) const { return a < b; }
};
struct Gt {
    template <class A, class B>
    bool operator()(A const& a, B const& b) const { return b < a; }
};
// compares by distance from zero
struct AbsLt {
    static long ab(long x) { return x < 0 ? -x : x; }
    template <class A, class B>
    bool operator()(A const& a, B const& b) const { return ab(a) < ab(b); }
};
template <class B, class G, class C = Lt>
struct WithMin : B {
    static constexpr bool has_min = true;
    static decltype(auto) min_key(typename B::Value const& v) { return G::get(v); }
    template <class X>
    static bool min_less(X const& a, X const& b) { return C()(a, b); }
};
template <class B, class G, class C = Gt>
struct WithMax : B {
    static constexpr bool has_max = true;
    static decltype(auto) max_key(typename B::Value const& v) { return G::get(v); }
    template <class X>
    static bool max_less(X const& a, X const& b) { return C()(a, b); } // "before": the greater one is less
};

// ---- registration ---------------------------------------------------------------------------------------------------------
struct R {
    int qn, tn;                   // elements, quick and thorough
    uint64_t edits, conv = 0;
    bool startp = false;
    int ways = 1, vars = 1;
    std::vector<std::vector<Op>> bases{{}};
    int qd = 99, td = 99;
    uint64_t probe = 0;
    int snaps = 99;
};
template <class Spec, unsigned Q>
void reg(std::string name, R r) {
    using W = World<Spec, Q>;
    new Register<W>(name, [=] {
        auto w = std::make_unique<W>();
        w->cfg.maxn = opt.thorough ? r.tn : r.qn;
        w->cfg.edits = r.edits;
        w->cfg.conv = r.conv;
        w->cfg.start_persistent = r.startp;
        w->cfg.ways = r.ways;
        w->cfg.vars = r.vars;
        w->cfg.probe = r.probe;
        w->cfg.snaps = r.snaps;
        w->bases = r.bases;
        return w;
    }, r.qn ? r.qd : -1, r.td);
}
constexpr uint64_t FREEZE = bit(FLAG) | bit(TOP) | bit(TOT);
constexpr uint64_t ENDS = bit(PUSHB) | bit(PUSHF) | bit(POPB) | bit(POPF);
}
