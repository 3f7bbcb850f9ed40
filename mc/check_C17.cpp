// C17: mixins combine without interfering.
// CFGS: 16
#include "specs.hpp"
namespace mc {
namespace {
// the key comes first, the number that is summed and compared second
template <class KK, class A>
struct Comb : KeyedBase<KK> {
    using K = typename KK::K;
    using S = typename A::type;
    using Value = std::pair<K, S>;
    static constexpr bool value_matters = true;
    static constexpr int nalpha = A::n;
    static Value make(ME const& e) { return Value(KK::key(e.ord), A::v[e.alpha]); }
    static K const& key_of(Value const& v) { return v.first; }
    static bool eq(Value const& v, ME const& e) {
        OutLib o;
        return v.second == A::v[e.alpha] && KK::same(v.first, KK::key(e.ord));
    }
    static uint64_t canon_value(Value const& v) { return static_cast<uint64_t>(v.second); }
    static bool eq_mapped(S const& m, ME const& e) { return m == A::v[e.alpha]; }
    static S mapped(ME const& e) { return A::v[e.alpha]; }
    static S subscript_value(ME const& e) { return mapped(e); }
    template <class F>
    static decltype(auto) with(ME const& e, int form, F&& f) {
        if (form == 1) {
            Value const v = make(e);
            return f(v);
        }
        if (form == 2) return f(KK::key(e.ord), mapped(e));
        return f(make(e));
    }
};
template <class E, int leaf, int inner, int XB, class... Ms>
using Tr = typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, XB) + 8 * static_cast<int>(sizeof...(Ms)), 6>::template mixins<Ms...>;
template <class B, class S>
struct AddIdx : B {
    static constexpr bool indexed = true;
    using Size = S;
};
template <class B, class G>
struct AddSum : B {
    static constexpr bool summed = true;
    using Sum = std::decay_t<decltype(G::get(std::declval<typename B::Value const&>()))>;
    static Sum sum_of(typename B::Value const& v) { return G::get(v); }
};
using KA = Comb<IntKey<int>, Alphabet<int, 0, 1, 5>>;
using KB = Comb<IntKeyDesc<uint16_t>, Alphabet<int64_t, 2, 0>>;
using Ord = OrderedBuilder<>;
using OrdB = OrderedBuilder<>::binary_search<true>;
using OrdD = OrderedBuilder<>::compare<Desc>::binary_search<true>;
using Ix = IndexedBuilder<>;
using Ix32 = IndexedBuilder<uint32_t>;
using Su = SummedBuilder<PairExtractor<1>>;
using Mi = MinBuilder<>::extractor<PairExtractor<1>>;
using Ma = MaxBuilder<>::extractor<PairExtractor<1>>;

template <class E, class S, class Tree>
using AllKeyed = WithMax<WithMin<AddSum<AddIdx<Plain<E, Tree>, S>, Second>, Second>, Second>;
using NA = NumElem<Alphabet<int, 0, 1, 5>>;
template <class E, class S, class Tree>
using AllSeq = WithMax<WithMin<AddSum<AddIdx<Plain<E, Tree>, S>, Whole>, Whole>, Whole>;
constexpr unsigned Q = Q_BASE | Q_IDX | Q_ORD | Q_SUM | Q_SLB | Q_MM;
constexpr uint64_t E_ = (KEY_EDITS & ~bit(KIOA)) | bit(ERA) | bit(ASG) | ENDS | bit(INSX) | bit(ERAX) | bit(ASGX) | bit(UPDX) | bit(INS);
constexpr uint64_t SE_ = INDEX_EDITS | DEQUE_EDITS;
template <class Spec>
void two(std::string n, int q, int t) {
    reg<Spec, Q>(n + ", mutable, frozen at any time", {q - 1, t - 1, E_, FREEZE, false, 1, 1});
    reg<Spec, Q>(n + ", immutable", {q, t, E_, 0, true, 1, 1});
}
struct Init {
    Init() {
#if CFG == 0
        two<AllKeyed<KA, size_t, Tr<KA, 1, 4, 24, Ord, Ix, Su, Mi, Ma>>>("ordered indexed summed min max leaf1 inner4", 6, 7);
#elif CFG == 1
        two<AllKeyed<KA, size_t, Tr<KA, 2, 4, 24, Ix, Su, Mi, Ma, OrdB>>>("indexed summed min max ordered leaf2 inner4", 6, 7);
#elif CFG == 2
        two<AllKeyed<KB, uint32_t, Tr<KB, 2, 4, 32, Su, Mi, Ma, OrdD, Ix32>>>("summed min max ordered(desc) indexed32 leaf2 inner4", 6, 7);
#elif CFG == 3
        two<AllKeyed<KB, size_t, Tr<KB, 1, 4, 40, Mi, Ma, OrdD, Ix, Su>>>("min max ordered(desc) indexed summed leaf1 inner4", 6, 7);
#elif CFG == 4
        two<AllKeyed<KA, size_t, Tr<KA, 3, 4, 24, Ma, Ord, Ix, Su, Mi>>>("max ordered indexed summed min leaf3 inner4", 6, 7);
#elif CFG == 5
        using S = WithMin<AddIdx<Plain<KA, Tr<KA, 2, 4, 16, Mi, Ord, Ix>>, size_t>, Second>;
        two<S>("min ordered indexed leaf2 inner4", 6, 7);
#elif CFG == 6
        using S = AddIdx<Plain<KA, Tr<KA, 1, 4, 16, Ix, OrdB>>, size_t>;
        two<S>("indexed ordered leaf1 inner4", 6, 7);
#elif CFG == 7
        using S = AddSum<Plain<KA, Tr<KA, 2, 4, 8, Su, Ord>>, Second>;
        two<S>("summed ordered leaf2 inner4", 6, 7);
#elif CFG == 8
        using S = WithMax<AddSum<Plain<KA, Tr<KA, 1, 4, 12, Ord, Ma, Su>>, Second>, Second>;
        two<S>("ordered max summed leaf1 inner4", 6, 7);
#elif CFG == 9
        using S = WithMax<WithMin<Plain<KA, Tr<KA, 2, 4, 12, Ma, Mi, Ord>>, Second>, Second>;
        two<S>("max min ordered leaf2 inner4", 6, 7);
#elif CFG == 10
        using S = AllSeq<NA, size_t, Tr<NA, 1, 4, 20, Ix, SummedBuilder<>, MinBuilder<>, MaxBuilder<>>>;
        reg<S, Q>("indexed summed min max leaf1 inner4, mutable, frozen at any time", {4, 5, SE_, FREEZE});
        reg<S, Q>("indexed summed min max leaf1 inner4, immutable", {5, 6, SE_, 0, true});
#elif CFG == 11
        using S = AllSeq<NA, int32_t, Tr<NA, 2, 4, 16, MaxBuilder<>, MinBuilder<>, SummedBuilder<>, IndexedBuilder<int32_t>>>;
        reg<S, Q>("max min summed indexed32 leaf2 inner4, mutable, frozen at any time", {4, 5, SE_, FREEZE});
        reg<S, Q>("max min summed indexed32 leaf2 inner4, immutable", {6, 7, SE_, 0, true});
#elif CFG == 12
        using S = WithMin<Idx<NA, uint8_t, Tr<NA, 1, 4, 5, MinBuilder<>, IndexedBuilder<uint8_t>>>, Whole>;
        reg<S, Q>("min indexed8 leaf1 inner4, mutable, frozen at any time", {4, 5, SE_, FREEZE});
        using S2 = WithMax<Idx<NA, uint8_t, Tr<NA, 1, 4, 5, IndexedBuilder<uint8_t>, MaxBuilder<>>>, Whole>;
        reg<S2, Q>("indexed8 max leaf1 inner4, immutable", {5, 6, SE_, 0, true});
#elif CFG == 13
        using S = AddSum<Idx<NA, size_t, Tr<NA, 2, 4, 12, SummedBuilder<>, IndexedBuilder<>>>, Whole>;
        reg<S, Q>("summed indexed leaf2 inner4, mutable, frozen at any time", {5, 6, SE_, FREEZE});
        using S2 = AddSum<Idx<NA, size_t, Tr<NA, 3, 4, 12, IndexedBuilder<>, SummedBuilder<>>>, Whole>;
        reg<S2, Q>("indexed summed leaf3 inner4, immutable", {6, 7, SE_, 0, true});
#elif CFG == 14
        using S = AddSum<WithMin<Plain<NA, Tr<NA, 1, 4, 8, SummedBuilder<>, MinBuilder<>>>, Whole>, Whole>;
        reg<S, Q>("summed min leaf1 inner4, mutable, frozen at any time", {4, 5, DEQUE_EDITS, FREEZE});
        using S2 = AddSum<WithMax<Plain<NA, Tr<NA, 2, 4, 8, MaxBuilder<>, SummedBuilder<>>>, Whole>, Whole>;
        reg<S2, Q>("max summed leaf2 inner4, immutable", {5, 6, DEQUE_EDITS, 0, true});
#elif CFG == 15
        using SetK = SetElem<IntKey<int>>;
        struct S : WithMax<WithMin<AddSum<AddIdx<Plain<SetK, Tr<SetK, 2, 4, 24, OrdB::extractor<ValueExtractor>, Ix, MaxBuilder<>, MinBuilder<>, SummedBuilder<bpptree::detail::CastingExtractor<uint32_t>>>>, size_t>, Whole>, Whole>, Whole> {
            using Sum = uint32_t;
            static Sum sum_of(int const& v) { return static_cast<uint32_t>(v); }
        };
        // not Q_SLB: the summands wrap
        reg<S, Q & ~Q_SLB>("set ordered indexed max min summed leaf2 inner4, mutable, frozen at any time", {6, 7, E_, FREEZE});
#endif
    }
} init;
}
}
