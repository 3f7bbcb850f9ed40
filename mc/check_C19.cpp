// C19: answers do not depend on node sizes, search mode or depth limit; no node is larger than configured.
// CFGS: 12
// THOROUGH_CFGS: 24
#include "world.hpp"
#include "specs.hpp"
namespace mc {
namespace {
// numbers of any width as identities, for all mixins; the number is the identity of the element modulo its width
template <class S_, int pad = 0>
struct Wide {
    S_ v{};
    unsigned char fill[pad] = {};
    Wide() = default;
    Wide(S_ x) : v(x) { memset(fill, static_cast<int>(x & 255), pad); }
    operator S_() const { return v; }
    bool whole() const {
        for (unsigned char c : fill)
            if (c != static_cast<unsigned char>(v & 255)) return false;
        return true;
    }
};
template <class S_>
struct Wide<S_, 0> {
    S_ v{};
    Wide() = default;
    Wide(S_ x) : v(x) {}
    operator S_() const { return v; }
    bool whole() const { return true; }
};
template <class S_>
struct alignas(32) Wide<S_, -32> {
    S_ v{};
    Wide() = default;
    Wide(S_ x) : v(x) {}
    operator S_() const { return v; }
    bool whole() const { return reinterpret_cast<uintptr_t>(this) % 32 == 0; }
};
struct NumOf {
    template <class V>
    auto operator()(V const& v) const { return static_cast<uint64_t>(v.v); }
    template <class V>
    static auto get(V const& v) { return v.v; }
};
template <class S_>
struct NumExtractor {
    template <class V>
    S_ const& operator()(V const& v) const { return v.v; }
};
template <class S_, int pad = 0>
struct WideElem : SpecBase {
    using S = S_;
    using Value = Wide<S, pad>;
    static Value make(ME const& e) { return Value(static_cast<S>(e.id)); }
    static bool eq(Value const& v, ME const& e) { return v.v == static_cast<S>(e.id) && v.whole(); }
    static uint64_t canon_value(Value const& v) { return v.v; }
    template <class F>
    static decltype(auto) with(ME const& e, int form, F&& f) {
        if (form == 1) {
            Value const v = make(e);
            return f(v);
        }
        return f(make(e));
    }
    template <class A>
    static uint64_t bits(A const&) { return 0; }
};
struct SumOf {
    template <class V>
    uint64_t operator()(V const& v) const { return v.v; }
};
struct Num {
    template <class V>
    static auto const& get(V const& v) { return v.v; }
};
// bytes
constexpr int up8(int x) { return (x + 7) & ~7; }

template <class Spec, unsigned Q, int leaf_bytes, int inner_bytes>
struct SizeWorld : World<Spec, Q, 2> {
    using W = World<Spec, Q, 2>;
    using Inst = typename W::Inst;
    using T = typename W::T;
    int stride = 1;
    static inline thread_local size_t deepest = 0; // the model is shared by all threads
    std::unique_ptr<Inst> make() {
        mem.max_block = 0;
        deepest = 0;
        return W::make();
    }
    void apply(Inst& in, Op o) {
        W::apply(in, o);
        size_t d = 0;
        for (auto& x : in.s) d = std::max<size_t>(d, x.t ? x.t->depth() : x.p ? x.p->depth() : 0);
        constexpr size_t most = leaf_bytes > inner_bytes ? leaf_bytes : inner_bytes;
        deepest = d > deepest ? d : deepest;
        if (deepest == 1) { // there has been no inner node so far
            CHECK(mem.max_block <= leaf_bytes, "a leaf of a tree configured for %d bytes occupies %zu bytes", leaf_bytes, mem.max_block);
        }
        CHECK(mem.max_block <= most, "a node of a tree configured for leaves of %d and inner nodes of %d bytes occupies %zu bytes", leaf_bytes, inner_bytes, mem.max_block);
    }
    // the positions at which single edits are tried
    std::vector<int> places(int n) {
        std::vector<int> r;
        for (int i = 0; i <= n; ++i)
            if (i % stride == 0 || i < 3 || i > n - 3 || (i - n / 2 < 2 && n / 2 - i < 2)) r.push_back(i);
        return r;
    }
    void probes(Inst& in, std::vector<Op>& out) {
        std::vector<Op> all;
        W::probes(in, all);
        int n = static_cast<int>(in.s[0].m.size());
        for (Op o : all) {
            int a = o.a;
            if (stride == 1 || a % stride == 0 || a < 3 || a > n - 3 || (a - n / 2 < 2 && n / 2 - a < 2)) {
                o.d = in.s[0].t ? 0 : 1;
                out.push_back(o);
            }
        }
    }
    static constexpr size_t few = 48;
    template <class Tr>
    void light(Tr& t, Model const& m) {
        Tr const& c = t;
        size_t n = m.size();
        if (!n) return;
        std::vector<size_t> at;
        for (size_t i = 0; i <= n; ++i)
            if (n <= few || i % (n / 24) == 0 || i < 2 || i + 2 > n) at.push_back(i);
        if constexpr (Spec::has_min || Spec::has_max) {
            using S = typename Spec::S;
            std::vector<S> v;
            for (auto const& e : m) v.push_back(static_cast<S>(e.id));
            std::vector<decltype(c.cbegin())> its;
            for (size_t i : at) {
                its.push_back(c.cbegin());
                its.back() += static_cast<ssize_t>(i);
            }
            for (size_t x = 0; x < at.size(); ++x) {
                if (at[x] == n) break;
                S lo = v[at[x]], hi = lo;
                size_t k = at[x];
                for (size_t y = x + 1; y < at.size(); ++y) {
                    for (; k < at[y]; ++k) {
                        if (v[k] < lo) lo = v[k];
                        if (v[k] > hi) hi = v[k];
                    }
                    if constexpr (Spec::has_min) {
                        CHECK(c.min(its[x], its[y]) == lo, "min of [%zu, %zu) of %zu is wrong", at[x], at[y], n);
                        CHECK(c.min_element(its[x], its[y]).get().v == lo, "min_element of [%zu, %zu) of %zu is wrong", at[x], at[y], n);
                    }
                    if constexpr (Spec::has_max) {
                        CHECK(c.max(its[x], its[y]) == hi, "max of [%zu, %zu) of %zu is wrong", at[x], at[y], n);
                        CHECK(c.max_element(its[x], its[y]).get().v == hi, "max_element of [%zu, %zu) of %zu is wrong", at[x], at[y], n);
                    }
                }
            }
            if constexpr (Spec::has_min) CHECK(c.min() == *std::min_element(v.begin(), v.end()), "min() of %zu is wrong", n);
            if constexpr (Spec::has_max) CHECK(c.max() == *std::max_element(v.begin(), v.end()), "max() of %zu is wrong", n);
        }
        if constexpr (Spec::summed) {
            using S = typename Spec::Sum;
            std::vector<S> pre{S{}};
            for (auto const& e : m) pre.push_back(pre.back() + Spec::sum_of(Spec::make(e)));
            auto one = [&](S target) {
                size_t e = 0;
                while (e < n && pre[e + 1] < target) ++e;
                auto a = c.sum_lower_bound(target);
                if (e < n) CHECK(a != c.cend() && Spec::eq(a.get(), m[e]), "sum_lower_bound is not position %zu of %zu", e, n);
                else CHECK(a == c.cend(), "sum_lower_bound of a target beyond the total of %zu elements is not the end", n);
            };
            // identities of narrow elements may be equal or zero, so that only the position of the first is checked
            for (size_t i : at) {
                one(pre[i]);
                one(pre[i] + 1);
            }
        }
        // jumps
        for (size_t x : at)
            for (size_t y : at) {
                auto it = c.cbegin();
                it += static_cast<ssize_t>(x);
                it += static_cast<ssize_t>(y) - static_cast<ssize_t>(x);
                if (y < n) CHECK(Spec::eq(it.get(), m[y]), "jumping from %zu to %zu of %zu leads to the wrong element", x, y, n);
                else CHECK(it == c.cend(), "jumping from %zu to the end of %zu does not", x, n);
                if (y > 0) {
                    --it;
                    CHECK(Spec::eq(it.get(), m[y - 1]), "stepping back from %zu of %zu (reached from %zu) leads to the wrong element", y, n, x);
                }
            }
    }
    void verify(Inst& in) {
        W::verify(in);
        for (auto& s : in.s) {
            if (s.t) light(*s.t, s.m);
            if (s.p) light(*s.p, s.m);
        }
    }
    void quick(Inst& in) { W::quick(in); }
};
template <class Spec, unsigned Q, int lb, int ib>
void reg_size(std::string name, uint64_t probe, std::vector<std::vector<Op>> bases, int stride = 1, bool startp = false, bool thorough = false) {
    using W = SizeWorld<Spec, Q, lb, ib>;
    for (bool p : {false, true}) {
        if (p && !startp) continue;
        new Register<W>(name + (p ? ", immutable" : ""), [=] {
            auto w = std::make_unique<W>();
            w->cfg.maxn = 1 << 17;
            w->cfg.probe = probe;
            w->cfg.start_persistent = p;
            w->bases = bases;
            for (auto& h : w->bases)
                for (auto& o : h)
                    if (p && (o.k == TOP || o.k == TOT)) o.k = o.k == TOP ? TOT : TOP;
            w->stride = stride;
            return w;
        }, thorough ? -1 : 0, 0);
    }
}
// sequences with everything but order
template <class S, int pad, int lb, int ib, int dl>
struct Seq : WithMax<WithMin<WithSum<WideElem<S, pad>, typename BppTree<Wide<S, pad>, lb, ib, dl>::template mixins<IndexedBuilder<>, SummedBuilder<bpptree::detail::WrappedCastingExtractor<NumExtractor<S>, uint64_t>>, MinBuilder<NumExtractor<S>>, MaxBuilder<NumExtractor<S>>>, Num, uint64_t>, Num>, Num> {
    static constexpr bool indexed = true;
};
template <class S, int pad, int lb, int ib, int dl>
struct Bare : Plain<WideElem<S, pad>, typename BppTree<Wide<S, pad>, lb, ib, dl>::template mixins<>> {};
template <class E, int lb, int ib, bool bin, int dl>
struct Map : Plain<E, typename BppTree<typename E::Value, lb, ib, dl>::template mixins<typename OrderedBuilder<>::template binary_search<bin>>> {};
template <class E, int lb, int ib, bool bin, int dl>
struct Set : Plain<E, typename BppTree<typename E::Value, lb, ib, dl>::template mixins<typename OrderedBuilder<>::template extractor<ValueExtractor>::template binary_search<bin>>> {};

constexpr uint64_t PE = bit(INS) | bit(ERA) | bit(ASG) | bit(PUSHB) | bit(PUSHF) | bit(POPB) | bit(POPF);
constexpr uint64_t PX = bit(INSX) | bit(ERAX) | bit(UPDX) | bit(PUSHB) | bit(PUSHF);
constexpr uint64_t PK = bit(KINS) | bit(KERA) | bit(KASG) | bit(KIOA);
std::vector<std::vector<Op>> shapes(std::vector<int> sizes, int thin) {
    std::vector<std::vector<Op>> r;
    for (int n : sizes)
        for (int how : {BULKB, BULKF, BULKM}) {
            r.push_back({op(how, n)});
            if (how == BULKM) r.push_back({op(how, n), op(TOP), op(TOT)});
            if (how != BULKF && thin) r.push_back({op(how, n), op(THIN, thin, thin / 2, how == BULKB)});
        }
    return r;
}
// capacities to bytes: an inner node of Seq has 8 (pointer) + 8 (count) + 8 (sum) + 2 * sizeof(S) per child
template <class S>
constexpr int seqb(int k) { return up8(8 + k * (24 + 2 * static_cast<int>(sizeof(S)))); }
template <class S, int leaf, int inner, int dl>
void seq(std::vector<int> extra = {}) {
    std::vector<int> sizes{leaf, leaf + 1, 2 * leaf + 1};
    // until the root splits once more
    int full = leaf * (inner / 2 + 1) * 2;
    if (full < 700) sizes.push_back(full + 1);
    for (int e : extra) sizes.push_back(e);
    constexpr int lb = up8(8 + leaf * static_cast<int>(sizeof(S))), ib = seqb<S>(inner);
    char b[120];
    snprintf(b, sizeof b, "sequence of %zu-byte numbers, leaf %d, inner %d, depth limit %d", sizeof(S), leaf, inner, dl);
    int big = sizes.back();
    reg_size<Seq<S, 0, lb, ib, dl>, Q_BASE | Q_IDX | Q_SUM, lb, ib>(b, PX, shapes(sizes, 3), big > 200 ? big / 20 : big > 60 ? 7 : 1);
}
template <class S, int pad, int lb, int ib, int dl>
void bare(char const* what, std::vector<int> sizes, int stride) {
    char b[160];
    snprintf(b, sizeof b, "%s, %zu-byte elements in leaves of %d and inner nodes of %d bytes, depth limit %d", what, sizeof(Wide<S, pad>), lb, ib, dl);
    reg_size<Bare<S, pad, lb, ib, dl>, Q_BASE, lb, ib>(b, PE, shapes(sizes, 4), stride, true);
}
// the largest nodes there can be
template <class S, int lb, int ib, int dl>
void huge(char const* what, std::vector<int> sizes, std::vector<int> anywhere) {
    char b[160];
    snprintf(b, sizeof b, "%s, %zu-byte elements in leaves of %d and inner nodes of %d bytes, depth limit %d", what, sizeof(Wide<S, 0>), lb, ib, dl);
    std::vector<std::vector<Op>> bases;
    for (int n : sizes) { // numbers in operations have 16 bits
        std::vector<Op> h{op(BULKB, std::min(n, 65535))};
        for (int i = 65535; i < n; i += 30000) h.push_back(op(BULKB, std::min(n - i, 30000)));
        bases.push_back(h);
    }
    for (int n : anywhere) {
        bases.push_back({op(BULKM, n)});
        bases.push_back({op(BULKF, n)});
    }
    reg_size<Bare<S, 0, lb, ib, dl>, Q_BASE, lb, ib>(b, PE, bases, 20000);
}
template <class E, int leaf, int inner, bool bin, int dl>
void map(char const* what, std::vector<int> sizes) {
    constexpr int lb = up8(8 + leaf * static_cast<int>(sizeof(typename E::Value))), ib = up8(8 + inner * (8 + static_cast<int>(sizeof(typename E::K))));
    char b[160];
    snprintf(b, sizeof b, "%s, %s, leaf %d, inner %d, depth limit %d", what, bin ? "bisect" : "linear", leaf, inner, dl);
    int big = sizes.back();
    reg_size<Map<E, lb, ib, bin, dl>, Q_BASE | Q_ORD, lb, ib>(b, PK, shapes(sizes, 3), big > 200 ? big / 16 : big > 60 ? 7 : 1);
}
template <class E, int leaf, int inner, bool bin, int dl>
void set(char const* what, std::vector<int> sizes) {
    constexpr int lb = up8(8 + leaf * static_cast<int>(sizeof(typename E::Value))), ib = up8(8 + inner * (8 + static_cast<int>(sizeof(typename E::K))));
    char b[160];
    snprintf(b, sizeof b, "%s, %s, leaf %d, inner %d, depth limit %d", what, bin ? "bisect" : "linear", leaf, inner, dl);
    int big = sizes.back();
    reg_size<Set<E, lb, ib, bin, dl>, Q_BASE | Q_ORD, lb, ib>(b, PK, shapes(sizes, 3), big > 200 ? big / 16 : big > 60 ? 7 : 1);
}
using MI = PairElem<IntKey<int>, int>;
using ML = PairElem<IntKey<int64_t>, int>;
using SI = SetElem<IntKey<uint32_t>>;
struct Init {
    Init() {
#if CFG == 0
        seq<uint32_t, 1, 4, 8>({40, 90});
        seq<uint32_t, 2, 4, 4>();
#elif CFG == 1
        seq<uint32_t, 3, 5, 16>({100});
        seq<uint16_t, 5, 7, 5>({150});
#elif CFG == 2
        seq<uint32_t, 1, 65, 3>({150});
        seq<uint32_t, 257, 5, 3>({1900});
#elif CFG == 3
        seq<uint16_t, 1, 257, 4>({600});
        seq<uint16_t, 64, 4, 3>();
#elif CFG == 4
        bare<uint8_t, 0, 9, 40, 12>("single byte", {1, 2, 5, 17, 40}, 1);
        bare<uint8_t, 0, 264, 40, 16>("single byte", {255, 256, 257, 600, 1200}, 60);
        bare<uint16_t, 0, 100, 100, 7>("two bytes", {45, 46, 47, 92, 300, 700}, 31);
#elif CFG == 5
        bare<uint64_t, 192, 512, 512, 16>("200 bytes, default nodes", {2, 3, 5, 130, 400}, 23);
        bare<uint32_t, -32, 128, 48, 6>("aligned to 32", {3, 4, 7, 30, 70}, 1);
        bare<uint8_t, 4, 31, 45, 6>("five bytes", {4, 5, 9, 40, 90}, 3);
#elif CFG == 6
        map<MI, 1, 5, true, 6>("map", {1, 2, 6, 17, 40});
        map<ML, 16, 7, false, 4>("map of 8-byte keys", {16, 17, 33, 130});
#elif CFG == 7
        set<SI, 1, 64, true, 3>("set", {64, 65, 66, 130});
        set<SI, 129, 4, true, 3>("set", {128, 129, 130, 259, 700});
#elif CFG == 8
        reg_size<Map<MI, 512, 512, true, 16>, Q_BASE | Q_ORD, 512, 512>("map, bisect, default", PK, shapes({63, 64, 65, 127, 1400, 3000}, 3), 250);
        bare<uint32_t, 0, 512, 512, 16>("default", {126, 127, 253, 4000, 8000}, 1000);
#elif CFG == 9
        reg_size<Seq<uint32_t, 0, 512, 512, 16>, Q_BASE | Q_IDX | Q_SUM, 512, 512>("indexed summed min max, default", PX, shapes({126, 127, 253, 900, 1800}, 3), 150);
#elif CFG == 10
        huge<uint8_t, 8 + 65535, 40, 6>("single byte, largest leaf", {65534, 65535, 65536, 98305}, {});
        huge<uint8_t, 12, 8 + 8 * 600, 6>("single byte, wide inner nodes", {4 * 600, 4 * 600 + 1}, {2405, 4000});
#elif CFG == 11
        huge<uint32_t, 12, 8 + 8 * 65535, 6>("four bytes, largest inner nodes", {65535, 65536, 65537}, {});
        set<SI, 1, 1000, true, 4>("set with wide inner nodes", {1000, 1001, 1503});
#elif CFG == 12
        seq<uint32_t, 4, 6, 3>();
        map<MI, 1, 4, false, 6>("map", {1, 2, 5, 17, 40});
        seq<uint32_t, 31, 4, 3>({300});
        seq<uint16_t, 63, 4, 4>();
#elif CFG == 13
        seq<uint16_t, 7, 8, 3>();
        map<MI, 5, 16, false, 3>("map", {5, 6, 17, 90});
        seq<uint16_t, 128, 4, 3>({1000});
        seq<uint16_t, 256, 4, 3>({1600});
#elif CFG == 14
        seq<uint64_t, 1, 15, 6>({100});
        map<MI, 5, 17, true, 16>("map", {5, 6, 17, 90});
        seq<uint32_t, 1, 17, 4>({60});
        seq<uint16_t, 1, 33, 3>({80});
#elif CFG == 15
        seq<uint32_t, 1, 16, 4>({60});
        map<ML, 16, 7, true, 4>("map of 8-byte keys", {16, 17, 33, 130});
        seq<uint16_t, 1, 128, 3>({300});
        seq<uint32_t, 15, 4, 4>();
#elif CFG == 16
        seq<uint32_t, 1, 64, 16>({150});
        set<SI, 1, 65, false, 3>("set", {64, 65, 66, 130});
        seq<uint16_t, 32, 4, 4>({300});
        seq<uint32_t, 65, 4, 16>({700});
#elif CFG == 17
        seq<uint16_t, 1, 256, 3>({600});
        set<SI, 128, 4, false, 3>("set", {128, 129, 130, 259, 700});
        seq<uint16_t, 129, 4, 3>({1000});
        seq<uint16_t, 600, 6, 3>({1900});
#elif CFG == 18
        seq<uint32_t, 16, 4, 16>();
        set<SI, 1, 129, true, 3>("set", {129, 130, 300});
        seq<uint16_t, 2, 31, 3>({150});
        seq<uint16_t, 1, 63, 3>({150});
#elif CFG == 19
        bare<uint64_t, 0, 100, 90, 5>("eight bytes", {11, 12, 23, 100, 300}, 11);
        set<SI, 300, 33, true, 16>("set", {300, 301, 603});
        seq<uint16_t, 1, 129, 16>({300});
        seq<uint16_t, 17, 5, 4>();
#elif CFG == 20
        bare<uint32_t, 8, 60, 77, 6>("twelve bytes", {4, 5, 9, 40, 100}, 5);
        set<SI, 300, 33, false, 2>("set", {300, 301, 603});
        seq<uint16_t, 33, 4, 4>({300});
        seq<uint16_t, 127, 4, 3>({1000});
#elif CFG == 21
        bare<uint64_t, 16, 120, 64, 6>("24 bytes", {4, 5, 9, 40, 90}, 3);
        reg_size<Map<MI, 512, 512, false, 16>, Q_BASE | Q_ORD, 512, 512>("map, linear, default", PK, shapes({63, 64, 65, 127, 1400, 3000}, 3), 250);
        seq<uint16_t, 255, 4, 3>({1600});
#elif CFG == 22
        bare<uint64_t, 32, 512, 512, 16>("40 bytes, default nodes", {12, 13, 25, 100, 800, 1600}, 97);
        seq<uint16_t, 8, 9, 16>({333});
        seq<uint16_t, 1, 32, 12>({80});
#elif CFG == 23
        bare<uint64_t, 192, 700, 48, 6>("200 bytes", {3, 4, 7, 30, 70}, 1);
        seq<uint16_t, 1, 127, 3>({300});
        seq<uint32_t, 2, 255, 3>({700});
#endif
    }
} init;
}
}
