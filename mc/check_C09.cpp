// C09: conversions, copies, moves and assignments preserve contents and give independent trees.
// CFGS: 7
#include "forest.hpp"
namespace mc {
namespace {
template <class E, int leaf, int inner, int dl = 6>
using D = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner), dl>::template mixins<>>;
template <class E, class S, int leaf, int inner, int dl = 6>
using X = Idx<E, S, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(S)) + 8, dl>::template mixins<IndexedBuilder<S>>>;
template <class E, int leaf, int inner, int dl = 6>
using O = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(typename E::K)), dl>::template mixins<OrderedBuilder<>>>;
using NA = NumElem<Alphabet<int, 1, 0>>;
template <int leaf>
struct SM : WithMax<WithMin<WithSum<NA, typename BppTree<int, leafb<int>(leaf), intb(4, 12) + 8, 6>::template mixins<SummedBuilder<ValueExtractor>, MinBuilder<>, MaxBuilder<>>, Whole>, Whole>, Whole> {};
// everything at once
using AE = PairElem<IntKey<int>, int>;
struct All : WithMax<WithMin<WithSum<AE, typename BppTree<std::pair<int, int>, leafb<std::pair<int, int>>(1), intb(4, 4 + 4 + 8 + 4 + 4) + 8, 6>::template mixins<OrderedBuilder<>, IndexedBuilder<uint32_t>, SummedBuilder<PairExtractor<1>>, MinBuilder<PairExtractor<1>>, MaxBuilder<PairExtractor<1>>>, Second, int>, Second>, Second> {
    static constexpr bool indexed = true;
    using Size = uint32_t;
};
constexpr uint64_t ED = DEQUE_EDITS, EP = DEQUE_EDITS;
constexpr uint64_t FEW = bit(INS) | bit(ERA) | bit(ASG);
constexpr uint64_t CV = bit(SNAP) | bit(THAW) | bit(TOP) | bit(TOT) | bit(COPY) | bit(MOVE) | bit(ASSIGNC) | bit(ASSIGNM) | bit(DROP) | bit(SWAP) | bit(NEWT) | bit(NEWP);
constexpr uint64_t KE = KEY_EDITS | bit(POPB) | bit(POPF) | bit(CLEAR);
constexpr uint64_t XE = INDEX_EDITS | bit(POPF) | bit(CLEAR);
struct Init {
    Init() {
#if CFG == 0
        reg_forest<D<TokElem, 1, 4>, Q_BASE, 2>("tok leaf1 inner4, 2 trees", {5, 6, ED, EP, CV, true});
        reg_forest<D<TokElem, 2, 4>, Q_BASE, 2>("tok leaf2 inner4, 2 trees", {5, 6, ED, EP, CV, true});
#elif CFG == 1
        reg_forest<D<TokElem, 1, 4>, Q_BASE, 3>("tok leaf1 inner4, 3 trees", {3, 4, ED, EP, CV, false});
        reg_forest<D<TokElem, 1, 4, 8>, Q_BASE, 2>("tok leaf1 inner4, 2 deep trees", {64, 64, ED, EP, CV, false, related({6, 17, 22}, {3}, 2), 2, 3});
#elif CFG == 2
        reg_forest<D<IntElem, 1, 4>, Q_BASE, 4>("int leaf1 inner4, 4 trees", {2, 3, FEW, FEW, CV, true, {{}}, 99, 8});
        reg_forest<D<StrElem, 2, 5>, Q_BASE, 2>("string leaf2 inner5, 2 trees", {4, 6, ED, EP, CV, false});
#elif CFG == 3
        reg_forest<X<IntElem, uint32_t, 1, 4>, Q_BASE | Q_IDX, 2>("indexed int leaf1 inner4, 2 trees", {4, 5, XE, XE, CV, true});
        reg_forest<X<IntElem, uint32_t, 2, 4, 8>, Q_BASE | Q_IDX, 2>("indexed int leaf2 inner4, 2 deep trees", {99, 99, XE, XE, CV, false, related({14, 40}, {3}, 2), 1, 2});
#elif CFG == 4
        reg_forest<O<PairElem<TokKey, Tok<0>>, 1, 4>, Q_BASE | Q_ORD, 2>("ordered tok leaf1 inner4, 2 trees", {4, 5, KE, KE, CV, false});
        reg_forest<O<PairElem<StrKey, std::string>, 2, 4, 8>, Q_BASE | Q_ORD, 2>("ordered string leaf2 inner4, 2 deep trees", {64, 64, KE, KE, CV, false, related({9, 30}, {3}, 2), 1, 2});
#elif CFG == 5
        reg_forest<SM<1>, Q_BASE | Q_SUM | Q_MM, 2>("summed min max leaf1 inner4, 2 trees", {3, 4, FEW, FEW, CV, false});
        reg_forest<SM<2>, Q_BASE | Q_SUM | Q_MM, 2>("summed min max leaf2 inner4, 2 trees", {3, 4, FEW | bit(CLEAR), FEW, CV, true});
#elif CFG == 6
        reg_forest<All, Q_BASE | Q_ORD | Q_IDX | Q_SUM | Q_MM, 2>("all mixins leaf1 inner4, 2 trees", {4, 6, KE, KE, CV, false});
        reg_forest<All, Q_BASE | Q_ORD | Q_IDX | Q_SUM | Q_MM, 2>("all mixins leaf1 inner4, 2 deep trees", {64, 64, KE, KE, CV, false, related({6, 11}, {3}, 2), 1, 2});
#endif
    }
} init;
}
}
