// C02: an indexed tree behaves exactly like a vector.
// CFGS: 7
#include "specs.hpp"
namespace mc {
namespace {
template <class E, class S, int leaf, int inner, int dl = 6>
using D = Idx<E, S, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(S)) + 4, dl>::template mixins<IndexedBuilder<S>>>;
template <class E, class S, int leaf, int inner, int dl = 6>
using H = Idx<E, S, typename BppTreeVector<typename E::Value>::template size_type<S>::template leaf_node_bytes<leafb<typename E::Value>(leaf)>
    ::template internal_node_bytes<intb(inner, sizeof(S)) + 4>::template depth_limit<dl>>;
constexpr unsigned Q = Q_BASE | Q_IDX;
constexpr uint64_t E_ = INDEX_EDITS | ENDS | bit(CLEAR), A_ = INDEX_EDITS | DEQUE_EDITS;
struct Init {
    Init() {
#if CFG == 0
        reg<D<TokElem, size_t, 1, 4>, Q>("size_t tok leaf1 inner4, mutable, frozen at any time", {7, 9, E_, FREEZE});
#elif CFG == 1
        reg<D<TokElem, int32_t, 2, 4>, Q>("int32 tok leaf2 inner4, mutable, frozen at any time", {7, 9, A_, FREEZE, false, 1, 3});
        reg<D<TokElem, int32_t, 2, 4>, Q>("int32 tok leaf2 inner4, immutable", {8, 11, E_, 0, true});
#elif CFG == 2
        reg<H<IntElem, uint8_t, 3, 4>, Q>("uint8 int leaf3 inner4, immutable", {7, 9, A_, FREEZE, true, 4, 2});
        reg<H<IntElem, uint8_t, 3, 4>, Q>("uint8 int leaf3 inner4, mutable", {8, 12, A_, 0, false, 4, 2});
#elif CFG == 3
        reg<D<StrElem, int64_t, 2, 5>, Q>("int64 string leaf2 inner5, mutable, frozen at any time", {7, 10, A_, FREEZE, false, 4, 4});
#elif CFG == 4
        reg<H<TokElem, uint16_t, 1, 5>, Q>("uint16 tok leaf1 inner5, mutable, frozen at any time", {7, 9, A_, FREEZE});
#elif CFG == 5
        reg<D<IntElem, uint8_t, 4, 4, 8>, Q>("uint8 index, close to its largest value", {254, 254, INDEX_EDITS | ENDS, 0, false, 1, 1, {{op(BULKB, 253)}, {op(BULKF, 254)}, {op(BULKM, 253), op(FLAG)}}, 1, 1});
        reg<D<IntElem, int8_t, 3, 4, 8>, Q>("int8 index, close to its largest value", {126, 126, INDEX_EDITS | ENDS, 0, false, 1, 1, {{op(BULKB, 125)}, {op(BULKF, 126)}, {op(BULKM, 125), op(FLAG)}}, 1, 1});
#elif CFG == 6
        reg<D<TokElem, uint32_t, 1, 4, 8>, Q>("uint32 tok leaf1 inner4, deep", {64, 64, E_, FREEZE, false, 1, 1, grown({17, 22, 40}, {2, 3, 5}, true), 2, 3});
        reg<D<TokElem, uint32_t, 3, 4, 8>, Q>("uint32 tok leaf3 inner4, deep", {99, 99, E_, FREEZE, false, 1, 1, grown({49, 70}, {2, 7}, true), 2, 3});
#endif
    }
} init;
}
}
