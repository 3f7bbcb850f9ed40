// C15: proxy references act as the element they stand for.
// CFGS: 13
#include <algorithm>
#include <numeric>
#include <mutex>
#include <typeinfo>
#include "specs.hpp"
namespace mc {
namespace {
// numbers: taken from the alphabet, or (alpha = FREE) stored in id (maps) or ord (sequences)
constexpr uint16_t FREE = 0xFFFF;
template <class A>
struct FreeNum : NumElem<A> {
    using S = typename A::type;
    using Value = S;
    using Num = S;
    static S number(ME const& e) {
        if (e.alpha != FREE) return A::v[e.alpha];
        S r{};
        memcpy(&r, &e.ord, sizeof r);
        return r;
    }
    static void put(ME& e, S v) {
        e.alpha = FREE;
        e.ord = 0;
        memcpy(&e.ord, &v, sizeof v);
    }
    static Value make(ME const& e) { return number(e); }
    static bool eq(Value const& v, ME const& e) { return v == number(e); }
    template <class F>
    static decltype(auto) with(ME const& e, int form, F&& f) {
        return f(make(e));
    }
    static Value with_number(ME const&, S v) { return v; }
};
template <class KK, class A>
struct FreeMap : KeyedBase<KK> {
    using K = typename KK::K;
    using S = typename A::type;
    using Num = S;
    using Value = std::pair<K, S>;
    static constexpr bool value_matters = true;
    static constexpr int nalpha = A::n;
    static S number(ME const& e) { return e.alpha == FREE ? static_cast<S>(e.id) : A::v[e.alpha]; }
    static void put(ME& e, S v) {
        e.alpha = FREE;
        e.id = static_cast<uint32_t>(v);
    }
    static Value make(ME const& e) { return Value(KK::key(e.ord), number(e)); }
    static K const& key_of(Value const& v) { return v.first; }
    static bool eq(Value const& v, ME const& e) {
        OutLib o;
        return v.second == number(e) && KK::same(v.first, KK::key(e.ord));
    }
    static uint64_t canon_value(Value const& v) { return static_cast<uint64_t>(v.second); }
    static bool eq_mapped(S const& m, ME const& e) { return m == number(e); }
    static S mapped(ME const& e) { return number(e); }
    static S subscript_value(ME const& e) { return mapped(e); }
    template <class F>
    static decltype(auto) with(ME const& e, int, F&& f) { return f(make(e)); }
    static Value with_number(ME const& e, S v) { return Value(KK::key(e.ord), v); }
};

// a write expression on something that acts as an S; returns what the expression yields (as S)
enum { W_SET, W_ADD, W_SUB, W_MUL, W_DIV, W_MOD, W_XOR, W_AND, W_OR, W_SHL, W_SHR, W_PREI, W_PRED, W_POSTI, W_POSTD, W_WIDE, W_CHAIN, NWRITE };
inline char const* wname(int w) {
    static char const* n[] = {"=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>=", "++x", "--x", "x++", "x--", "= wider", "(x += y) += y"};
    return n[w];
}
template <class S, class X, class Y>
S write(int w, X&& x, Y&& y) {
    switch (w) {
        case W_SET: x = y; break;
        case W_ADD: return static_cast<S>(x += y);
        case W_SUB: return static_cast<S>(x -= y);
        case W_MUL: return static_cast<S>(x *= y);
        case W_DIV: return static_cast<S>(x /= y);
        case W_MOD: return static_cast<S>(x %= y);
        case W_XOR: return static_cast<S>(x ^= y);
        case W_AND: return static_cast<S>(x &= y);
        case W_OR: return static_cast<S>(x |= y);
        case W_SHL: return static_cast<S>(x <<= y);
        case W_SHR: return static_cast<S>(x >>= y);
        case W_PREI: return static_cast<S>(++x);
        case W_PRED: return static_cast<S>(--x);
        case W_POSTI: return static_cast<S>(x++);
        case W_POSTD: return static_cast<S>(x--);
        case W_CHAIN: return static_cast<S>((x += y) += y);
    }
    return static_cast<S>(x);
}
// the operators that only read; all results are packed into r
template <class S, class X, class Y>
void reads(X&& x, Y&& y, S yv, std::vector<long long>& r) {
    r.push_back(static_cast<S const&>(x));
    r.push_back(x + y);
    r.push_back(x - y);
    r.push_back(x * y);
    if (yv) {
        r.push_back(x / y);
        r.push_back(x % y);
    }
    r.push_back(x ^ y);
    r.push_back(x & y);
    r.push_back(x | y);
    if (yv >= 0 && yv < 8) {
        r.push_back(x << y);
        r.push_back(x >> y);
    }
    r.push_back(x == y);
    r.push_back(x != y);
    r.push_back(x < y);
    r.push_back(x <= y);
    r.push_back(x > y);
    r.push_back(x >= y);
    r.push_back(-x);
    r.push_back(!x);
}

enum { ALG_SORT, ALG_RSORT, ALG_STABLE, ALG_REV, ALG_ROT, ALG_SWAPR, ALG_ISWAP, ALG_FILL, ALG_TRANSFORM, ALG_NEXTP, ALG_PREVP, ALG_PARTIAL, ALG_HEAP, ALG_MERGE, ALG_REMOVE,
       ALG_UNIQUE, ALG_COPY, ALG_COPYB, ALG_FOREACH, ALG_PART, ALG_REPLACE, ALG_IOTA, ALG_NTH, ALG_SORTDESC, NALG };
inline char const* aname(int a) {
    static char const* n[] = {"sort", "sort reversed", "stable_sort", "reverse", "rotate", "swap_ranges", "swap", "fill", "transform", "next_permutation", "prev_permutation", "partial_sort",
                              "make_heap + sort_heap", "inplace_merge", "remove", "unique", "copy", "copy_backward", "for each", "stable_partition", "replace", "iota", "nth_element", "sort descending"};
    return n[a];
}
constexpr bool needs_random(int a) { return a == ALG_SORT || a == ALG_RSORT || a == ALG_PARTIAL || a == ALG_HEAP || a == ALG_NTH || a == ALG_SORTDESC || a == ALG_STABLE || a == ALG_MERGE || a == ALG_PART; }
// runs on [b, e) with the position m inside; sets the number of meaningful elements for remove and unique
template <bool random, class It, class RIt, class S>
void algorithm(int a, It b, It m, It e, RIt rb, RIt re, S c) {
    auto less = [](auto const& x, auto const& y) { return static_cast<S const&>(x) < static_cast<S const&>(y); };
    if constexpr (random) {
        switch (a) {
            case ALG_STABLE: std::stable_sort(b, e, less); return;
            case ALG_MERGE:
                std::stable_sort(b, m, less);
                std::stable_sort(m, e, less);
                std::inplace_merge(b, m, e, less);
                return;
            case ALG_PART: std::stable_partition(b, e, [](S const& v) { return (v & 1) == 0; }); return;
            case ALG_SORT: std::sort(b, e); return;
            case ALG_RSORT: std::sort(rb, re); return;
            case ALG_SORTDESC: std::sort(b, e, [](S const& x, S const& y) { return y < x; }); return;
            case ALG_PARTIAL:
                std::partial_sort(b, m, e);
                std::sort(m, e);
                return;
            case ALG_HEAP:
                std::make_heap(b, e);
                std::sort_heap(b, e);
                return;
            case ALG_NTH:
                std::nth_element(b, m, e);
                std::sort(b, m);
                if (m != e) std::sort(m, e);
                return;
        }
    }
    switch (a) {
        case ALG_REV: std::reverse(b, e); return;
        case ALG_ROT: std::rotate(b, m, e); return;
        case ALG_FILL: std::fill(b, e, c); return;
        case ALG_TRANSFORM: std::transform(b, e, b, [](S const& v) { return static_cast<S>(v * 3 + 1); }); return;
        case ALG_NEXTP: std::next_permutation(b, e); return;
        case ALG_PREVP: std::prev_permutation(b, e); return;
        case ALG_REMOVE: {
            auto x = std::remove(b, e, c);
            std::fill(x, e, S(7));
            return;
        }
        case ALG_UNIQUE: {
            auto x = std::unique(b, e, [](S const& x, S const& y) { return x == y; });
            std::fill(x, e, S(7));
            return;
        }
        case ALG_COPY: std::copy(m, e, b); return;
        case ALG_COPYB: std::copy_backward(b, m, e); return;
        case ALG_FOREACH:
            for (auto it = b; it != e; ++it) {
                auto&& x = *it;
                x += 200;
                x = static_cast<S>(x ^ c);
                ++x;
            }
            return;
        case ALG_REPLACE: std::replace(b, e, c, S(9)); return;
        case ALG_IOTA: std::iota(b, e, S(250)); return;
    }
}
// operands of other types than the element's
constexpr int NTYPED = 12;
template <unsigned mask, class F>
void typed(int i, F&& f) {
    auto one = [&](auto k, auto y) {
        if constexpr ((mask >> decltype(k)::value) & 1)
            if (i == decltype(k)::value) f(y);
    };
#define T_(n) std::integral_constant<int, n>()
    one(T_(0), 5u);
    one(T_(1), static_cast<short>(-3));
    one(T_(2), static_cast<int8_t>(2));
    one(T_(3), int64_t(-7));
    one(T_(4), uint64_t(3));
    one(T_(5), 1.5);
    one(T_(6), 2.0f);
    one(T_(7), true);
    one(T_(8), '\7');
    one(T_(9), static_cast<uint16_t>(300));
    one(T_(10), -2);
    one(T_(11), 1000000000000ll);
#undef T_
}
// whether x op y is meaningful and its result fits an S
template <class S, class Y>
bool defined(int w, S x, Y y) {
    long double a = static_cast<long double>(x), b = static_cast<long double>(y), r = a;
    constexpr bool fl = std::is_floating_point_v<Y> || std::is_floating_point_v<S>;
    if ((w == W_DIV || w == W_MOD) && y == 0) return false;
    if (fl && (w == W_MOD || w == W_XOR || w == W_AND || w == W_OR || w == W_SHL || w == W_SHR)) return false;
    if ((w == W_SHL || w == W_SHR) && (b < 0 || b > 7)) return false;
    if (w == W_SET) r = b;
    if (w == W_ADD || w == W_CHAIN) r = a + b;
    if (w == W_SUB) r = a - b;
    if (w == W_MUL) r = a * b;
    if (w == W_DIV) r = a / b;
    // sums of fractions are compared exactly
    if (w == W_DIV && std::is_floating_point_v<S> && r * b != a) return false;
    if (w == W_DIV && std::is_floating_point_v<S> && static_cast<S>(r) != r) return false;
    auto in = [](auto k, long double v) { return v > static_cast<long double>(std::numeric_limits<decltype(k)>::lowest()) - 1 && v < static_cast<long double>(std::numeric_limits<decltype(k)>::max()) + 1; };
    if constexpr (fl) {
        return w == W_CHAIN ? in(S{}, r) && in(S{}, r + b) : in(S{}, r);
    } else {
        using C = decltype(S{} + Y{});
        return std::is_unsigned_v<C> || (in(C{}, a + b) && in(C{}, a - b) && in(C{}, a * b));
    }
}
template <class S, class X, class Y>
S typed_write(int w, X&& x, Y y) {
    if constexpr (std::is_floating_point_v<Y> || std::is_floating_point_v<S>) {
        switch (w) {
            case W_SET: x = y; break;
            case W_ADD: return static_cast<S>(x += y);
            case W_SUB: return static_cast<S>(x -= y);
            case W_MUL: return static_cast<S>(x *= y);
            case W_DIV: return static_cast<S>(x /= y);
            case W_PREI: return static_cast<S>(++x);
            case W_PRED: return static_cast<S>(--x);
            case W_POSTI: return static_cast<S>(x++);
            case W_POSTD: return static_cast<S>(x--);
            case W_CHAIN: return static_cast<S>((x += y) += y);
        }
        return static_cast<S>(x);
    } else {
        return write<S>(w, x, y);
    }
}
// results are recorded with their type
struct Result {
    std::type_info const* t;
    long double v;
    bool operator==(Result const& o) const { return *t == *o.t && v == o.v; }
};
template <class S, class X, class Y>
void typed_reads(X&& x, Y const& y, S xv, std::vector<Result>& r) {
    auto rec = [&](auto const& v) { r.push_back({&typeid(v), static_cast<long double>(v)}); };
    rec(x + y);
    rec(x - y);
    rec(x * y);
    rec(y + x);
    rec(y - x);
    rec(y * x);
    if (y != 0) rec(x / y);
    if (xv != 0) rec(y / x);
    rec(x == y);
    rec(x != y);
    rec(x < y);
    rec(x <= y);
    rec(x > y);
    rec(x >= y);
    rec(y == x);
    rec(y != x);
    rec(y < x);
    rec(y <= x);
    rec(y > x);
    rec(y >= x);
    rec(-x);
    rec(!x);
    if constexpr (std::is_integral_v<S> && std::is_integral_v<Y>) {
        rec(x ^ y);
        rec(x & y);
        rec(x | y);
        rec(y ^ x);
        rec(y & x);
        rec(y | x);
        rec(~x);
        if (y != 0) rec(x % y);
        if (xv != 0) rec(y % x);
        if (y >= 0 && y < 8) {
            rec(x << y);
            rec(x >> y);
        }
        if (xv >= 0 && xv < 8) {
            rec(y << x);
            rec(y >> x);
        }
    }
}
enum { PX_READ = K_USER, PX_WRITE, PX_ALG, PX_PAIR, PX_TREAD, PX_TWRITE };
// how the element is referred to
enum { H_IT, H_RIT, H_IDX, H_KEY, H_STORED, NH };
inline char const* hname(int h) {
    static char const* n[] = {"*it", "*rit", "tree[i]", "tree[key]", "stored tree[i]"};
    return n[h];
}
// WIDE: the operands of other types to use, instead of everything else
template <class Spec, unsigned Q, unsigned WIDE>
struct ProxyWorld : World<Spec, Q, 2> {
    using W = World<Spec, Q, 2>;
    using Inst = typename W::Inst;
    using S = typename Spec::Num;
    using V = typename Spec::Value;
    static constexpr bool flat = !Spec::ordered; // the element is the number itself
    using C = std::conditional_t<std::is_arithmetic_v<S>, S, int>;
    static constexpr C consts[3] = {C(1), C(3), C(200)};

    // calls f with the reference to element a
    template <class Tr, class F>
    static void with_ref(Tr& t, Model const& m, size_t a, int how, F&& f) {
        size_t n = m.size();
        if constexpr (flat) {
            if (how == H_IT) {
                auto it = t.begin();
                it += static_cast<long>(a);
                f(*it);
                return;
            }
            if constexpr (WIDE == 0)
            if (how == H_RIT) {
                auto it = t.rbegin();
                it += static_cast<long>(n - 1 - a);
                f(*it);
                return;
            }
        }
        if constexpr (Spec::indexed && flat) {
            using I = typename Spec::Size;
            if (how == H_STORED) {
                // the index it was made from is gone when the reference is used
                I i = static_cast<I>(a);
                auto&& r = t[i];
                i = static_cast<I>((a + 1) % n);
                asm volatile("" : : "r"(&i) : "memory");
                f(r);
                return;
            }
            f(t[static_cast<I>(a)]);
            return;
        }
        if constexpr (Spec::ordered) {
            auto k = Spec::key(m[a].ord);
            if (how == H_STORED) {
                auto&& r = t[k];
                k = Spec::key(m[(a + 1) % n].ord);
                asm volatile("" : : "r"(&k) : "memory");
                f(r);
                return;
            }
            f(t[k]);
        }
    }
    static void hows(std::vector<int>& h) {
        if constexpr (flat) {
            h.push_back(H_IT);
            if (WIDE == 0) h.push_back(H_RIT);
            if constexpr (Spec::indexed) {
                h.push_back(H_IDX);
                h.push_back(H_STORED);
            }
        } else {
            h.push_back(H_KEY);
            h.push_back(H_STORED);
        }
    }
    void apply(Inst& in, Op o) {
        if (o.k < K_USER) return W::apply(in, o);
        auto& sl = in.s[0];
        auto& t = *sl.t;
        Model& m = sl.m;
        size_t n = m.size();
        auto plain = [&](size_t i) { return Spec::number(m[i]); };
        auto store = [&](size_t i, S v) { Spec::put(m[i], v); };
        if constexpr (WIDE != 0) {
        if (o.k == PX_TREAD) {
            S x = plain(o.a);
            typed<WIDE>(o.b, [&](auto y) {
                std::vector<Result> r1, r2;
                {
                    InLib l;
                    with_ref(t, m, o.a, o.s, [&](auto&& p) {
                        OutLib ol;
                        typed_reads<S>(p, y, x, r1);
                    });
                }
                typed_reads<S>(std::as_const(x), y, x, r2);
                CHECK(r1.size() == r2.size(), "reads differ in number");
                for (size_t i = 0; i < r1.size(); ++i)
                    CHECK(r1[i] == r2[i], "expression %zu of %s at %u of %zu with operand %d gives %.20Lg (%s), on the plain element %.20Lg (%s)", i, hname(o.s), o.a, n, o.b, r1[i].v, r1[i].t->name(), r2[i].v, r2[i].t->name());
            });
        } else if (o.k == PX_TWRITE) {
            S x = plain(o.a), want, got{};
            typed<WIDE>(o.b, [&](auto y) {
                want = typed_write<S>(o.v, x, y);
                InLib l;
                with_ref(t, m, o.a, o.s, [&](auto&& p) { got = typed_write<S>(o.v, p, y); });
            });
            store(o.a, x);
            CHECK(got == want, "%s with operand %d through %s at %u of %zu yields %.20Lg instead of %.20Lg", wname(o.v), o.b, hname(o.s), o.a, n, (long double)got, (long double)want);
        }
        } else {
            simple(in, o);
        }
    }
    void simple(Inst& in, Op o) {
        auto& sl = in.s[0];
        auto& t = *sl.t;
        Model& m = sl.m;
        size_t n = m.size();
        auto plain = [&](size_t i) { return Spec::number(m[i]); };
        auto store = [&](size_t i, S v) { Spec::put(m[i], v); };
        if (o.k == PX_READ) {
            std::vector<long long> r1, r2;
            S x = plain(o.a);
            for (S c : consts) {
                {
                    InLib l;
                    with_ref(t, m, o.a, o.s, [&](auto&& p) {
                        OutLib ol;
                        reads<S>(p, c, c, r1);
                        r1.push_back(c - p);
                        r1.push_back(c == p);
                        r1.push_back(c < p);
                        r1.push_back(c >= p);
                        r1.push_back(c * p);
                        r1.push_back(p == p);
                    });
                }
                reads<S>(x, c, c, r2);
                r2.push_back(c - x);
                r2.push_back(c == x);
                r2.push_back(c < x);
                r2.push_back(c >= x);
                r2.push_back(c * x);
                r2.push_back(true);
            }
            CHECK(r1.size() == r2.size(), "reads differ in number");
            for (size_t i = 0; i < r1.size(); ++i) CHECK(r1[i] == r2[i], "expression %zu of %s at %u of %zu gives %lld, on the plain element %lld", i, hname(o.s), o.a, n, r1[i], r2[i]);
        } else if (o.k == PX_WRITE) {
            S c = consts[o.b];
            S x = plain(o.a), want, got{};
            if (o.v == W_WIDE) {
                int64_t wide = int64_t(c) + (sizeof(S) < 8 ? int64_t(1) << (8 * sizeof(S)) : 0);
                x = static_cast<S>(wide);
                want = x;
                InLib l;
                with_ref(t, m, o.a, o.s, [&](auto&& p) {
                    p = wide;
                    got = static_cast<S>(p);
                });
            } else {
                want = write<S>(o.v, x, c);
                InLib l;
                with_ref(t, m, o.a, o.s, [&](auto&& p) { got = write<S>(o.v, p, c); });
            }
            store(o.a, x);
            CHECK(got == want, "%s (%lld) through %s at %u of %zu yields %lld instead of %lld", wname(o.v), (long long)c, hname(o.s), o.a, n, (long long)got, (long long)want);
        } else if (o.k == PX_PAIR) {
            // both operands are references: element a and element b
            S x = plain(o.a), y = plain(o.b);
            if (o.v == 255) {
                std::vector<long long> r1, r2;
                reads<S>(x, y, y, r2);
                InLib l;
                with_ref(t, m, o.a, o.s, [&](auto&& p) {
                    with_ref(t, m, o.b, o.s, [&](auto&& q) {
                        OutLib ol;
                        reads<S>(p, q, y, r1);
                    });
                });
                OutLib ol;
                for (size_t i = 0; i < r2.size(); ++i) CHECK(r1[i] == r2[i], "expression %zu of two references (%s) at %u and %u of %zu gives %lld, on the plain elements %lld", i, hname(o.s), o.a, o.b, n, r1[i], r2[i]);
            } else if (o.v == 254) {
                if constexpr (flat) {
                    InLib l;
                    if (o.s == H_IT) {
                        auto i = t.begin() + o.a, j = t.begin() + o.b;
                        swap(*i, *j);
                    } else {
                        auto i = t.rbegin() + static_cast<long>(n - 1 - o.a), j = t.rbegin() + static_cast<long>(n - 1 - o.b);
                        std::iter_swap(i, j);
                    }
                    OutLib ol;
                    store(o.a, y);
                    store(o.b, x);
                }
            } else {
                S want = o.a == o.b ? write<S>(o.v, x, x) : write<S>(o.v, x, y), got{};
                {
                    InLib l;
                    with_ref(t, m, o.a, o.s, [&](auto&& p) { with_ref(t, m, o.b, o.s, [&](auto&& q) { got = write<S>(o.v, p, q); }); });
                }
                store(o.a, x);
                CHECK(got == want, "%s of two references (%s) at %u and %u of %zu yields %lld instead of %lld", wname(o.v), hname(o.s), o.a, o.b, n, (long long)got, (long long)want);
            }
        } else {
            if constexpr (flat) {
                std::vector<S> v;
                for (auto const& e : m) v.push_back(Spec::number(e));
                long lo = o.a, hi = o.b, mid = o.d;
                S c = n ? v[n / 2] : S(1);
                {
                    InLib l;
                    auto b = t.begin();
                    auto rb = t.rbegin();
                    if (o.v == ALG_SWAPR) std::swap_ranges(b + lo, b + lo + mid, b + hi);
                    else if (o.v == ALG_ISWAP) std::iter_swap(b + lo, b + hi);
                    else algorithm<Spec::indexed>(o.v, b + lo, b + mid, b + hi, rb + (static_cast<long>(n) - hi), rb + (static_cast<long>(n) - lo), c);
                }
                {
                    auto b = v.begin();
                    if (o.v == ALG_SWAPR) std::swap_ranges(b + lo, b + lo + mid, b + hi);
                    else if (o.v == ALG_ISWAP) std::iter_swap(b + lo, b + hi);
                    else algorithm<true>(o.v, b + lo, b + mid, b + hi, v.rbegin() + (static_cast<long>(n) - hi), v.rbegin() + (static_cast<long>(n) - lo), c);
                }
                for (size_t i = 0; i < n; ++i) store(i, v[i]);
            }
        }
    }
    void probes(Inst& in, std::vector<Op>& out) {
        if (!in.s[0].t) return;
        int n = static_cast<int>(in.s[0].m.size());
        std::vector<int> hs;
        hows(hs);
        auto plain = [&](int i) { return Spec::number(in.s[0].m[static_cast<size_t>(i)]); };
        if constexpr (WIDE != 0) {
            for (int h : hs)
                for (int a = 0; a < n; ++a)
                    for (int i = 0; i < NTYPED; ++i) {
                        typed<WIDE>(i, [&](auto y) {
                            if (defined<S>(W_MUL, plain(a), y)) out.push_back(W::mk(PX_TREAD, h, a, i));
                            for (int w = 0; w < NWRITE; ++w)
                                if (w != W_WIDE && defined<S>(w, plain(a), y) && (i == 0 || w < W_PREI || w > W_POSTD)) out.push_back(W::mk(PX_TWRITE, h, a, i, w));
                        });
                    }
            return;
        } else {
        for (int h : hs)
            for (int a = 0; a < n; ++a) {
                out.push_back(W::mk(PX_READ, h, a, 0));
                for (int w = 0; w < NWRITE; ++w)
                    for (int c = 0; c < (w >= W_PREI && w <= W_POSTD ? 1 : 3); ++c) {
                        if ((w == W_SHL || w == W_SHR) && c == 2) continue;
                        out.push_back(W::mk(PX_WRITE, h, a, c, w));
                    }
                for (int b = 0; b < n; ++b) {
                    out.push_back(W::mk(PX_PAIR, h, a, b, 255));
                    if (h == H_IT || h == H_RIT) out.push_back(W::mk(PX_PAIR, h, a, b, 254));
                    S y = plain(b);
                    for (int w : {W_SET, W_ADD, W_SUB, W_MUL, W_DIV, W_MOD, W_XOR, W_AND, W_OR, W_SHL, W_SHR, W_CHAIN}) {
                        if ((w == W_DIV || w == W_MOD) && y == 0) continue;
                        if ((w == W_SHL || w == W_SHR) && !(y >= 0 && y < 8)) continue;
                        // x op= x with x changing in between is evaluated once only
                        if (w == W_CHAIN && a == b) continue;
                        out.push_back(W::mk(PX_PAIR, h, a, b, w));
                    }
                }
            }
        if constexpr (flat) {
            for (int al = 0; al < NALG; ++al) {
                if (needs_random(al) && !Spec::indexed) continue;
                for (int lo = 0; lo <= n; ++lo)
                    for (int hi = lo; hi <= n; ++hi) {
                        if (al == ALG_ISWAP) {
                            if (hi < n) out.push_back(W::mk(PX_ALG, 0, lo, hi, al, 0));
                            continue;
                        }
                        if (al == ALG_SWAPR) {
                            for (int k = 0; lo + k <= hi && hi + k <= n; ++k) out.push_back(W::mk(PX_ALG, 0, lo, hi, al, k));
                            continue;
                        }
                        bool usesm = al == ALG_ROT || al == ALG_PARTIAL || al == ALG_MERGE || al == ALG_COPY || al == ALG_COPYB || al == ALG_NTH;
                        // the sub-ranges matter where nodes begin and end: all of them
                        for (int mid = usesm ? lo : hi; mid <= hi; ++mid) {
                            if (al == ALG_NTH && mid == hi) continue;
                            out.push_back(W::mk(PX_ALG, 0, lo, hi, al, mid));
                        }
                    }
            }
        }
        }
    }
    std::string describe(Op o) {
        if (o.k < K_USER) return W::describe(o);
        char b[200];
        if (o.k == PX_TREAD || o.k == PX_TWRITE) snprintf(b, sizeof b, "%s at %d: %s with operand %d of another type", hname(o.s), o.a, o.k == PX_TREAD ? "read" : wname(o.v), o.b);
        else if (o.k == PX_READ) snprintf(b, sizeof b, "read %s at %d in all expressions", hname(o.s), o.a);
        else if (o.k == PX_WRITE) snprintf(b, sizeof b, "%s at %d: %s %lld", hname(o.s), o.a, wname(o.v), (long long)consts[o.b]);
        else if (o.k == PX_PAIR) snprintf(b, sizeof b, "%s at %d with %s at %d: %s", hname(o.s), o.a, hname(o.s), o.b, o.v == 255 ? "read" : o.v == 254 ? "swap" : wname(o.v));
        else snprintf(b, sizeof b, "%s on [%d, %d), middle %d", aname(o.v), o.a, o.b, o.d);
        return b;
    }
};
template <class Spec, unsigned Q, unsigned WIDE = 0>
void reg_proxy(std::string name, R r) {
    using W = ProxyWorld<Spec, Q, WIDE>;
    new Register<W>(name, [=] {
        auto w = std::make_unique<W>();
        w->cfg.maxn = opt.thorough ? r.tn : r.qn;
        w->cfg.edits = r.edits;
        w->cfg.conv = r.conv;
        w->cfg.snaps = r.snaps;
        w->bases = r.bases;
        return w;
    }, r.qn ? r.qd : -1, r.td);
}
// elements of class type: strings
struct Words {
    static std::string word(ME const& e) {
        if (e.alpha < 3) return std::string(e.alpha == 0 ? "b" : e.alpha == 1 ? "" : "a string that is too long to be stored inline");
        std::lock_guard<std::mutex> g(mx());
        return table()[e.alpha - 3u];
    }
    static std::mutex& mx() {
        static std::mutex m;
        return m;
    }
    static std::vector<std::string>& table() {
        static std::vector<std::string> t;
        return t;
    }
    static void put(ME& e, std::string const& s) {
        std::lock_guard<std::mutex> g(mx());
        auto& t = table();
        size_t i = static_cast<size_t>(std::find(t.begin(), t.end(), s) - t.begin());
        if (i == t.size()) t.push_back(s);
        e.alpha = static_cast<uint16_t>(i + 3);
    }
};
struct WordElem : SpecBase {
    using Value = std::string;
    using Num = std::string;
    static constexpr bool value_matters = true;
    static constexpr int nalpha = 3;
    static Value make(ME const& e) { return Words::word(e); }
    static Value number(ME const& e) { return Words::word(e); }
    static bool eq(Value const& v, ME const& e) {
        OutLib o;
        return v == make(e);
    }
    static uint64_t canon_value(Value const& v) { return std::hash<std::string>()(v); }
    template <class F>
    static decltype(auto) with(ME const& e, int, F&& f) { return f(make(e)); }
    template <class A>
    static uint64_t bits(A const&) { return 0; }
};
struct WordMap : KeyedBase<IntKey<int>> {
    using KK = IntKey<int>;
    using Num = std::string;
    using Value = std::pair<int, std::string>;
    static constexpr bool value_matters = true;
    static constexpr int nalpha = 3;
    static std::string number(ME const& e) { return Words::word(e); }
    static Value make(ME const& e) { return Value(KK::key(e.ord), number(e)); }
    static int const& key_of(Value const& v) { return v.first; }
    static bool eq(Value const& v, ME const& e) {
        OutLib o;
        return v.second == number(e) && KK::same(v.first, KK::key(e.ord));
    }
    static uint64_t canon_value(Value const& v) { return std::hash<std::string>()(v.second); }
    static bool eq_mapped(std::string const& m, ME const& e) {
        OutLib o;
        return m == number(e);
    }
    static std::string mapped(ME const& e) { return number(e); }
    static std::string subscript_value(ME const& e) { return mapped(e); }
    template <class F>
    static decltype(auto) with(ME const& e, int, F&& f) { return f(make(e)); }
};
template <class X, class Y>
void word_reads(X&& x, Y const& y, std::vector<std::string>& r) {
    auto b = [&](bool v) { r.push_back(v ? "true" : "false"); };
    b(x == y);
    b(x < y);
    b(x <= y);
    b(x > y);
    b(x >= y);
    b(y == x);
    b(y < x);
    b(y <= x);
    b(y > x);
    b(y >= x);
    r.push_back(x + y);
    r.push_back(y + x);
}
enum { WW_SET, WW_ADD, WW_SELF, WW_CHAIN, WW_MOVE, NWW };
template <class X, class Y>
std::string word_write(int w, X&& x, Y const& y) {
    switch (w) {
        case WW_SET: x = y; break;
        case WW_ADD: x += y; break;
        case WW_SELF: x += static_cast<std::string const&>(x); break;
        case WW_CHAIN: (x += y) += y; break;
        case WW_MOVE: {
            std::string t(y);
            x = std::move(t);
            break;
        }
    }
    return static_cast<std::string const&>(x);
}
template <class F>
void word_operand(int i, F&& f) {
    if (i == 0) f("c");
    else if (i == 1) f(std::string("b"));
    else if (i == 2) f("");
    else f(std::string("a string that is too long to be stored inlinf"));
}
template <class Spec, unsigned Q>
struct WordWorld : World<Spec, Q, 2> {
    using W = World<Spec, Q, 2>;
    using P = ProxyWorld<Spec, Q, 0>;
    using Inst = typename W::Inst;
    void apply(Inst& in, Op o) {
        if (o.k < K_USER) return W::apply(in, o);
        auto& t = *in.s[0].t;
        Model& m = in.s[0].m;
        std::string x = Spec::number(m[o.a]), got, want;
        std::vector<std::string> r1, r2;
        if (o.k == PX_READ) {
            word_operand(o.b, [&](auto const& y) {
                P::with_ref(t, m, o.a, o.s, [&](auto&& p) { word_reads(p, y, r1); });
                word_reads(std::as_const(x), y, r2);
            });
            CHECK(r1 == r2, "expressions of %s at %u of %zu differ from those of the plain element", hname(o.s), o.a, m.size());
            return;
        }
        if (o.k == PX_WRITE) {
            word_operand(o.b, [&](auto const& y) {
                P::with_ref(t, m, o.a, o.s, [&](auto&& p) { got = word_write(o.v, p, y); });
                want = word_write(o.v, x, y);
            });
        } else { // two references
            std::string y = Spec::number(m[o.b]);
            P::with_ref(t, m, o.a, o.s, [&](auto&& p) {
                P::with_ref(t, m, o.b, o.s, [&](auto&& q) {
                    // references of different kinds to strings cannot be combined: that does not compile
                    if constexpr (std::is_same_v<std::decay_t<decltype(p)>, std::decay_t<decltype(q)>>)
                    if (o.v == 0) p = q;
                    else if (o.v == 1) p += q;
                    else got = p + q, r1.push_back(p == q ? "1" : "0"), r1.push_back(p < q ? "1" : "0"), r1.push_back(p >= q ? "1" : "0");
                    if (o.v < 2) got = static_cast<std::string const&>(p);
                });
            });
            if (o.v == 0) x = y;
            else if (o.v == 1) x += y;
            else want = x + y, r2.push_back(x == y ? "1" : "0"), r2.push_back(x < y ? "1" : "0"), r2.push_back(x >= y ? "1" : "0");
            if (o.v < 2) want = x;
        }
        Words::put(m[o.a], x);
        CHECK(got == want && r1 == r2, "%s at %u of %zu: a write or expression gives something else than on the plain element", hname(o.s), o.a, m.size());
    }
    void probes(Inst& in, std::vector<Op>& out) {
        if (!in.s[0].t) return;
        int n = static_cast<int>(in.s[0].m.size());
        std::vector<int> hs;
        P::hows(hs);
        for (int h : hs)
            for (int a = 0; a < n; ++a) {
                for (int i = 0; i < 4; ++i) {
                    out.push_back(W::mk(PX_READ, h, a, i));
                    for (int w = 0; w < NWW; ++w) out.push_back(W::mk(PX_WRITE, h, a, i, w));
                }
                for (int b = 0; b < n; ++b)
                    for (int w = 0; w < 3; ++w) out.push_back(W::mk(PX_PAIR, h, a, b, w));
            }
    }
    std::string describe(Op o) {
        if (o.k < K_USER) return W::describe(o);
        char b[160];
        snprintf(b, sizeof b, "strings: %s at %d, %s %d, kind %d", hname(o.s), o.a, o.k == PX_PAIR ? "with the one at" : o.k == PX_READ ? "read with operand" : "write with operand", o.b, o.v);
        return b;
    }
};
template <class Spec, unsigned Q>
void reg_words(std::string name, R r) {
    using W = WordWorld<Spec, Q>;
    new Register<W>(name, [=] {
        auto w = std::make_unique<W>();
        w->cfg.maxn = opt.thorough ? r.tn : r.qn;
        w->cfg.edits = r.edits;
        w->cfg.conv = r.conv;
        w->cfg.snaps = r.snaps;
        w->bases = r.bases;
        return w;
    }, r.qn ? r.qd : -1, r.td);
}
using bpptree::detail::CastingExtractor;
// indexed, summed (in a wider type), minimum and maximum
template <class A, class S, int leaf, int inner, int dl = 6>
struct ISM : WithMax<WithMin<WithSum<FreeNum<A>, typename BppTree<typename A::type, leafb<typename A::type>(leaf), intb(inner, 8 + sizeof(S) + 2 * sizeof(typename A::type)) + 24, dl>::template mixins<IndexedBuilder<>, SummedBuilder<CastingExtractor<S>>, MinBuilder<>, MaxBuilder<>>, Whole, S>, Whole>, Whole> {
    static constexpr bool indexed = true;
    using Size = size_t;
};
template <class A, int leaf, int inner, int dl = 6>
struct PL : Plain<FreeNum<A>, typename BppTree<typename A::type, leafb<typename A::type>(leaf), intb(inner), dl>::template mixins<>> {};
template <class A, class S, int leaf, int inner, int dl = 6>
struct SMN : WithMax<WithMin<WithSum<FreeNum<A>, typename BppTree<typename A::type, leafb<typename A::type>(leaf), intb(inner, sizeof(S) + 2 * sizeof(typename A::type)) + 24, dl>::template mixins<SummedBuilder<CastingExtractor<S>>, MinBuilder<>, MaxBuilder<>>, Whole, S>, Whole>, Whole> {};
// map with sums, minima, maxima of the values
template <class KK, class A, class S, int leaf, int inner, bool bin = false, int dl = 6>
struct MAP : WithMax<WithMin<WithSum<FreeMap<KK, A>, typename BppTree<std::pair<typename KK::K, typename A::type>, leafb<std::pair<typename KK::K, typename A::type>>(leaf), intb(inner, sizeof(typename KK::K) + sizeof(S) + 2 * sizeof(typename A::type)) + 40, dl>::template mixins<typename OrderedBuilder<>::template binary_search<bin>, SummedBuilder<bpptree::detail::WrappedCastingExtractor<PairExtractor<1>, S>>, MinBuilder<>::extractor<PairExtractor<1>>, MaxBuilder<>::extractor<PairExtractor<1>>>, Second, S>, Second>, Second> {};
using U8 = Alphabet<uint8_t, 5, 250>;
using I8 = Alphabet<int8_t, 3, -100>;
using U32 = Alphabet<uint32_t, 2u, 0xFFFFFFF0u>;
using U16 = Alphabet<uint16_t, 7, 65530, 0>;
struct Doubles {
    using type = double;
    static constexpr int n = 2;
    static constexpr double v[2] = {4.5, -0.25};
};
template <int leaf, int inner>
struct DBL : ISM<Doubles, double, leaf, inner> {};
template <int leaf, int inner>
struct WX : Idx<WordElem, size_t, typename BppTree<std::string, leafb<std::string>(leaf), intb(inner, 8) + 8, 6>::template mixins<IndexedBuilder<>>> {};
template <int leaf, int inner>
struct WM : Plain<WordMap, typename BppTree<std::pair<int, std::string>, leafb<std::pair<int, std::string>>(leaf), intb(inner, 4) + 8, 6>::template mixins<OrderedBuilder<>>> {};
constexpr unsigned Q1 = Q_BASE | Q_IDX | Q_SUM | Q_MM;
constexpr uint64_t E1 = bit(PUSHB) | bit(INS) | bit(ERA);
struct Init {
    Init() {
#if CFG == 0
        reg_proxy<ISM<U8, uint32_t, 1, 4>, Q1>("uint8 indexed summed min max, leaf1 inner4", {4, 5, E1, bit(FLAG)});
#elif CFG == 1
        reg_proxy<ISM<I8, int64_t, 2, 4>, Q1>("int8 indexed summed min max, leaf2 inner4", {4, 6, E1, bit(FLAG)});
#elif CFG == 2
        reg_proxy<ISM<U32, uint64_t, 2, 4>, Q1>("uint32 indexed summed min max, leaf2 inner4", {4, 6, E1, bit(FLAG)});
        reg_proxy<PL<U16, 2, 4>, Q_BASE>("uint16 plain, leaf2 inner4", {4, 5, E1, bit(FLAG)});
#elif CFG == 3
        reg_proxy<SMN<I8, int32_t, 1, 4>, Q_BASE | Q_SUM | Q_MM>("int8 summed min max, leaf1 inner4", {4, 5, E1, bit(FLAG)});
#elif CFG == 4
        reg_proxy<MAP<IntKey<int>, U8, uint32_t, 1, 4>, Q_BASE | Q_ORD | Q_SUM | Q_MM>("map of uint8, leaf1 inner4", {4, 5, bit(KINS) | bit(KERA), bit(FLAG)});
#elif CFG == 5
        reg_proxy<MAP<StrKey, I8, int64_t, 2, 4, true>, Q_BASE | Q_ORD | Q_SUM | Q_MM>("map from strings to int8, bisect, leaf2 inner4", {4, 5, bit(KINS) | bit(KERA), bit(FLAG)});
#elif CFG == 6
        reg_proxy<ISM<U8, uint64_t, 1, 4>, Q1>("uint8 indexed summed min max, deep", {99, 99, 0, 0, false, 1, 1, grown({9}, {2}, true), 0, 0});
#elif CFG == 7
        reg_proxy<SMN<I8, int64_t, 2, 4>, Q_BASE | Q_SUM | Q_MM>("int8 summed min max, deep", {99, 99, 0, 0, false, 1, 1, grown({10}, {3}, true), 0, 0});
        reg_proxy<MAP<IntKey<int>, U8, uint32_t, 1, 4>, Q_BASE | Q_ORD | Q_SUM | Q_MM>("map of uint8, deep", {99, 99, 0, 0, false, 1, 1, grown({12}, {2}, true), 0, 0});
#elif CFG == 8
        reg_proxy<ISM<Alphabet<uint64_t, 4, 0xFFFFFFFFFFFFFFF0ull>, uint64_t, 1, 4>, Q1, 0x23B>("uint64 indexed summed min max, leaf1 inner4, operands of other types", {4, 5, E1, bit(FLAG)});
#elif CFG == 9
        reg_proxy<SMN<Alphabet<int, 4, -9>, int64_t, 2, 4>, Q_BASE | Q_SUM | Q_MM, 0x879>("int summed min max, leaf2 inner4, operands of other types", {4, 5, E1, bit(FLAG)});
        reg_proxy<PL<U8, 2, 4>, Q_BASE, 0x42B>("uint8 plain, leaf2 inner4, operands of other types", {4, 5, E1, bit(FLAG)});
#elif CFG == 10
        reg_proxy<MAP<IntKey<int>, U16, uint64_t, 1, 4>, Q_BASE | Q_ORD | Q_SUM | Q_MM, 0x03B>("map of uint16, leaf1 inner4, operands of other types", {4, 5, bit(KINS) | bit(KERA), bit(FLAG)});
#elif CFG == 11
        reg_proxy<DBL<1, 4>, Q1, 0x065>("double indexed summed min max, leaf1 inner4, operands of other types", {4, 5, E1, bit(FLAG)});
#elif CFG == 12
        reg_words<WX<2, 4>, Q_BASE | Q_IDX>("strings, indexed, leaf2 inner4", {4, 5, E1, bit(FLAG)});
        reg_words<WM<1, 4>, Q_BASE | Q_ORD>("map to strings, leaf1 inner4", {4, 5, bit(KINS) | bit(KERA), bit(FLAG)});
#endif
    }
} init;
}
}
