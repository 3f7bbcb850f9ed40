// C08: an immutable tree never changes.
// CFGS: 8
#include "forest.hpp"
namespace mc {
namespace {
template <class E, int leaf, int inner, int dl = 6>
using D = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner), dl>::template mixins<>>;
template <class E, class S, int leaf, int inner, int dl = 6>
using X = Idx<E, S, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(S)) + 8, dl>::template mixins<IndexedBuilder<S>>>;
template <class E, int leaf, int inner, int dl = 6>
using O = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(typename E::K)), dl>::template mixins<OrderedBuilder<>>>;
using NA = NumElem<Alphabet<int, 1, 0>>;
template <int leaf>
struct SM : WithMax<WithMin<WithSum<NA, typename BppTree<int, leafb<int>(leaf), intb(4, 12) + 8, 6>::template mixins<SummedBuilder<ValueExtractor>, MinBuilder<>, MaxBuilder<>>, Whole>, Whole>, Whole> {};
constexpr uint64_t ED = DEQUE_EDITS, EP = DEQUE_EDITS;
constexpr uint64_t CV = bit(SNAP) | bit(THAW) | bit(TOP) | bit(TOT) | bit(COPY) | bit(DROP);
constexpr uint64_t KE = KEY_EDITS | bit(ERA) | bit(POPB) | bit(POPF) | bit(CLEAR);
struct Init {
    Init() {
#if CFG == 0
        reg_forest<D<TokElem, 1, 4>, Q_BASE, 3>("tok leaf1 inner4, 3 trees", {3, 4, ED, EP, CV, false, {{}}, 99, 99, true});
        reg_forest<D<TokElem, 1, 4>, Q_BASE, 2>("tok leaf1 inner4, 2 trees", {5, 6, ED, EP, CV, false, {{}}, 99, 99, true});
#elif CFG == 1
        reg_forest<D<TokElem, 2, 4>, Q_BASE, 3>("tok leaf2 inner4, 3 trees", {3, 4, ED, EP, CV, false, {{}}, 99, 99, true});
        reg_forest<D<TokElem, 2, 4>, Q_BASE, 2>("tok leaf2 inner4, 2 trees", {5, 6, ED, EP, CV, true, {{}}, 99, 99, true});
#elif CFG == 2
        reg_forest<D<TokElem, 1, 4>, Q_BASE, 4>("tok leaf1 inner4, 4 trees", {2, 3, ED, EP, CV, true, {{}}, 99, 8, true});
        reg_forest<D<TokElem, 1, 4, 8>, Q_BASE, 3>("tok leaf1 inner4, 3 deep trees", {64, 64, ED, EP, CV, false, related({6, 17, 22}, {3}, 3), 1, 2, true});
#elif CFG == 3
        reg_forest<X<TokElem, size_t, 1, 4>, Q_BASE | Q_IDX, 2>("indexed tok leaf1 inner4, 2 trees", {4, 5, bit(INSX) | bit(ERAX) | bit(ASGX) | bit(UPDX), bit(INSX) | bit(ERAX) | bit(ASGX) | bit(UPDX), CV, true, {{}}, 99, 99, true});
#elif CFG == 4
        reg_forest<O<PairElem<TokKey, Tok<0>>, 2, 4>, Q_BASE | Q_ORD, 2>("ordered tok leaf2 inner4, 2 trees", {5, 6, KE, KE, CV, false, {{}}, 99, 99, false});
        reg_forest<O<PairElem<IntKey<int>, int>, 1, 4>, Q_BASE | Q_ORD, 3>("ordered int leaf1 inner4, 3 trees", {3, 4, KE, KE, CV, false, {{}}, 99, 99, false});
#elif CFG == 5
        reg_forest<SM<1>, Q_BASE | Q_SUM | Q_MM, 2>("summed min max leaf1 inner4, 2 trees", {3, 4, ED, EP, CV, false, {{}}, 99, 99});
        reg_forest<SM<2>, Q_BASE | Q_SUM | Q_MM, 2>("summed min max leaf2 inner4, 2 trees", {3, 4, ED, EP, CV, true, {{}}, 99, 99});
#elif CFG == 6
        reg_forest<D<StrElem, 2, 5>, Q_BASE, 2>("string leaf2 inner5, 2 trees", {4, 6, ED, EP, CV, false});
        reg_forest<D<TokElem, 3, 4, 8>, Q_BASE, 2>("tok leaf3 inner4, 2 deep trees", {99, 99, ED, EP, CV, false, related({14, 30}, {2, 3}, 2), 1, 2, true});
#elif CFG == 7
        reg_forest<SM<1>, Q_BASE | Q_SUM | Q_MM, 2>("summed min max leaf1 inner4, 2 deep trees", {64, 64, bit(INS) | bit(ERA) | bit(ASG), bit(INS) | bit(ERA) | bit(ASG), CV, false, related({6, 9}, {3}, 2), 1, 2});
#endif
    }
} init;
}
}
