// C11: iterator arithmetic and comparison agree with positions.
// CFGS: 8
#include "iterworld.hpp"
namespace mc {
namespace {
template <class E, int leaf, int inner, int dl = 6>
using D = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner), dl>::template mixins<>>;
template <class E, class S, int leaf, int inner, int dl = 6>
using X = Idx<E, S, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(S)) + 8, dl>::template mixins<IndexedBuilder<S>>>;
template <class E, int leaf, int inner, int dl = 6>
using O = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(typename E::K)), dl>::template mixins<OrderedBuilder<>>>;
template <class A, int leaf, int inner, int dl = 6>
using S = WithSum<NumElem<A>, typename BppTree<int, leafb<int>(leaf), intb(inner, 4) + 8, dl>::template mixins<SummedBuilder<ValueExtractor>>>;
using PI = PairElem<IntKey<int64_t>, uint64_t>;
using IntD = D<IntElem, 1, 4>;
struct MM : WithMax<WithMin<Plain<NumElem<Alphabet<int, 0, 1>>, typename BppTree<int, leafb<int>(2), intb(4, 8) + 8, 6>::template mixins<MinBuilder<>, MaxBuilder<>>>, Whole>, Whole> {};

// iterators that come from a search can be moved like any other
template <class Spec, class X>
void lookups(X& x, Model const& m) {
    size_t n = m.size();
    auto c2 = [&](auto const& it, size_t p, char const* w) { check_iter<Spec, X, 2>(x, it, m, static_cast<long>(p), w, true); };
    auto c0 = [&](auto const& it, size_t p, char const* w) { check_iter<Spec, X, 0>(x, it, m, static_cast<long>(p), w, true); };
    X const& c = x;
    if (n == 0) return;
    if constexpr (Spec::indexed) {
        for (size_t i = 0; i <= n; ++i) {
            c0(x.find_index(static_cast<typename Spec::Size>(i)), i, "find_index");
            c2(c.find_index(static_cast<typename Spec::Size>(i)), i, "find_index const");
        }
    }
    if constexpr (Spec::ordered) {
        for (size_t i = 0; i < n; ++i) {
            auto k = Spec::key(m[i].ord);
            c0(x.find(k), i, "find");
            c2(c.find(k), i, "find const");
            c0(x.lower_bound(k), i, "lower_bound");
            c2(c.lower_bound(k), i, "lower_bound const");
            c0(x.upper_bound(k), i + 1, "upper_bound");
            c2(c.upper_bound(k), i + 1, "upper_bound const");
        }
        for (size_t g = 0; g <= n; ++g)
            for (uint64_t o : Spec::gap_probes(g ? m[g - 1].ord : 0, g < n ? m[g].ord : Spec::ord_max, g > 0, g < n)) {
                auto k = Spec::key(o);
                c0(x.find(k), n, "find absent");
                c2(c.find(k), n, "find absent const");
                c0(x.lower_bound(k), g, "lower_bound absent");
                c2(c.upper_bound(k), g, "upper_bound absent const");
            }
    }
    if constexpr (Spec::summed) {
        long total = 0;
        for (size_t i = 0; i < n; ++i) {
            long v = static_cast<long>(Spec::sum_of(Spec::make(m[i])));
            if (v > 0) {
                c0(x.sum_lower_bound(static_cast<typename Spec::Sum>(total + v)), i, "sum_lower_bound");
                c2(c.sum_lower_bound(static_cast<typename Spec::Sum>(total + v)), i, "sum_lower_bound const");
            }
            total += v;
        }
        c0(x.sum_lower_bound(static_cast<typename Spec::Sum>(total + 1)), n, "sum_lower_bound beyond the total");
        c2(c.sum_lower_bound(static_cast<typename Spec::Sum>(total + 1)), n, "sum_lower_bound beyond the total const");
    }
    if constexpr (Spec::has_min) {
        auto pos = [&](auto const& it) { size_t p = 0; for (auto j = c.cbegin(); p < n && !(j == it); ++j) ++p; return p; };
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j <= n; ++j) {
                auto b = ItOf<X, 2>::at(x, static_cast<long>(i), static_cast<long>(n), 0), e = ItOf<X, 2>::at(x, static_cast<long>(j), static_cast<long>(n), 0);
                auto it = c.min_element(b, e);
                c2(it, pos(it), "min_element");
                auto mt = x.max_element(ItOf<X, 0>::at(x, static_cast<long>(i), static_cast<long>(n), 0), ItOf<X, 0>::at(x, static_cast<long>(j), static_cast<long>(n), 0));
                c0(mt, pos(mt), "max_element");
            }
    }
}
// iterators of a tree with the same contents (and of a copy, which shares its nodes) are never equal to its own,
// and their order is refused
template <class Spec, class X>
void strangers(X& x, size_t n) {
    X y(x);
    long const hi = static_cast<long>(n);
    auto ne = [&](auto const& a, auto const& b, long p, long q) {
        CHECK(!(a == b) && a != b && !(b == a) && b != a, "iterators of two trees at %ld and %ld of %zu are equal", p, q, n);
        if (p == q) {
            int refused = 0;
            try { (void)(a < b); } catch (std::logic_error const&) { ++refused; }
            try { (void)(a >= b); } catch (std::logic_error const&) { ++refused; }
            CHECK(refused == 2, "iterators of two trees at %ld and %ld of %zu are ordered without complaint", p, q, n);
        }
    };
    for (long p = n ? -1 : 0; p <= hi; ++p)
        for (long q = n ? -1 : 0; q <= hi; ++q) {
            auto a = x.begin();
            auto b = y.begin();
            auto c = std::as_const(x).crbegin();
            auto d = std::as_const(y).crbegin();
            a += p;
            b += q;
            c += p;
            d += q;
            ne(a, b, p, q);
            ne(c, d, p, q);
            auto e = std::as_const(y).cbegin();
            e += q;
            ne(a, e, p, q);
        }
}
template <class Spec>
struct LookWorld : World<Spec, Q_ITER, 1> {
    using W = World<Spec, Q_ITER, 1>;
    void verify(typename W::Inst& in) {
        W::verify(in);
        if (in.s[0].t) lookups<Spec>(*in.s[0].t, in.s[0].m);
        if (in.s[0].p) lookups<Spec>(*in.s[0].p, in.s[0].m);
        if (in.s[0].t) strangers<Spec>(*in.s[0].t, in.s[0].m.size());
        if (in.s[0].p) strangers<Spec>(*in.s[0].p, in.s[0].m.size());
    }
};
template <class Spec>
void both(std::string name, int qn, int tn, uint64_t edits = DEQUE_EDITS & ~(bit(ASG) | bit(UPD)), std::vector<std::vector<Op>> bases = {{}}, int qd = 99, int td = 99) {
    using W = LookWorld<Spec>;
    for (bool p : {false, true})
        new Register<W>(name + (p ? ", immutable" : ", mutable"), [=] {
            auto w = std::make_unique<W>();
            w->cfg.maxn = opt.thorough ? tn : qn;
            w->cfg.edits = edits;
            w->cfg.start_persistent = p;
            w->bases = bases;
            return w;
        }, qd, td);
}
constexpr uint64_t KE = bit(KINS) | bit(KERA) | bit(PUSHB) | bit(PUSHF) | bit(POPB) | bit(POPF);
struct Init {
    Init() {
#if CFG == 0
        both<D<TokElem, 1, 4>>("tok leaf1 inner4", 9, 12);
        both<D<TokElem, 2, 4>>("tok leaf2 inner4", 10, 13);
        // mutable trees: every iterator, fresh or held across edits
        reg_iter<D<TokElem, 1, 4>, 0>("held, tok leaf1 inner4", 5, 6);
        reg_iter<D<TokElem, 2, 4>, 3>("held, tok leaf2 inner4", 5, 6);
#elif CFG == 1
        both<D<IntElem, 3, 5>>("int leaf3 inner5", 10, 14);
        both<D<IntElem, 1, 6>>("int leaf1 inner6", 9, 12);
#elif CFG == 2
        both<X<TokElem, size_t, 1, 4>>("indexed tok leaf1 inner4", 7, 9);
        both<X<IntElem, uint8_t, 2, 4>>("indexed8 int leaf2 inner4", 8, 10);
        reg_iter<X<TokElem, size_t, 1, 4>, 1>("held, indexed tok leaf1 inner4", 5, 6);
#elif CFG == 3
        both<X<IntElem, uint32_t, 1, 5>>("indexed32 int leaf1 inner5", 7, 9);
        both<X<TokElem, int64_t, 3, 4>>("indexed int64 tok leaf3 inner4", 8, 11);
#elif CFG == 4
        both<O<PI, 1, 4>>("ordered leaf1 inner4", 6, 8, KE);
        both<O<PairElem<IntKey<uint16_t>, uint64_t>, 2, 4>>("ordered 16 bit keys leaf2 inner4", 7, 9, KE);
#elif CFG == 5
        both<S<Alphabet<int, 1, 3>, 1, 4>>("summed leaf1 inner4", 5, 7);
        both<S<Alphabet<int, 0, 2>, 2, 4>>("summed leaf2 inner4", 5, 7);
#elif CFG == 6
        both<MM>("min max leaf2 inner4", 5, 6);
#elif CFG == 7
        both<D<TokElem, 1, 4, 8>>("tok leaf1 inner4, deep", 64, 64, DEQUE_EDITS & ~(bit(ASG) | bit(UPD)), grown({17, 22}, {3}, false), 1, 2);
        both<X<TokElem, uint32_t, 1, 4, 8>>("indexed tok leaf1 inner4, deep", 64, 64, DEQUE_EDITS & ~(bit(ASG) | bit(UPD)), grown({17}, {3}, false), 1, 2);
#endif
    }
} init;
}
}
