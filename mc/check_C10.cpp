// C10: iterators survive and follow edits exactly as documented.
// CFGS: 8
#include "iterworld.hpp"
namespace mc {
namespace {
template <class E, int leaf, int inner, int dl = 6>
using D = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner), dl>::template mixins<>>;
template <class E, int leaf, int inner, int dl = 6>
using X = Idx<E, size_t, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, 8) + 8, dl>::template mixins<IndexedBuilder<>>>;
template <class E, int leaf, int inner, int dl = 6>
using O = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(typename E::K)), dl>::template mixins<OrderedBuilder<>>>;
using PI = PairElem<IntKey<int64_t>, uint64_t>;
struct Init {
    Init() {
#if CFG == 0
        reg_iter<D<TokElem, 1, 4>, 0>("tok leaf1 inner4", 5, 6);
        reg_piter<D<TokElem, 1, 4>>("tok leaf1 inner4", 8, 11);
#elif CFG == 1
        reg_iter<D<TokElem, 2, 4>, 1>("tok leaf2 inner4", 6, 7);
        reg_piter<D<TokElem, 3, 4>>("tok leaf3 inner4", 8, 11);
#elif CFG == 2
        reg_iter<D<TokElem, 2, 4>, 0>("tok leaf2 inner4", 6, 7);
        reg_iter<D<TokElem, 1, 4>, 3>("tok leaf1 inner4", 5, 6);
#elif CFG == 3
        reg_iter<D<TokElem, 3, 4>, 0>("tok leaf3 inner4", 7, 8, {{}}, 99, 99, 3);
        reg_iter<D<TokElem, 3, 4>, 1>("tok leaf3 inner4", 7, 8, {{}}, 99, 99, 3);
#elif CFG == 4
        reg_iter<X<TokElem, 1, 4>, 0>("indexed tok leaf1 inner4", 5, 6);
        reg_iter<X<TokElem, 2, 4>, 1>("indexed tok leaf2 inner4", 6, 7);
        reg_piter<X<TokElem, 2, 4>>("indexed tok leaf2 inner4", 7, 10);
#elif CFG == 5
        reg_iter<O<PI, 2, 4>, 0>("ordered leaf2 inner4", 6, 7);
        reg_iter<O<PI, 1, 4>, 1>("ordered leaf1 inner4", 5, 6);
#elif CFG == 6
        reg_iter<D<TokElem, 1, 4, 8>, 0>("tok leaf1 inner4, deep", 64, 64, grown({17, 22, 40}, {3}, true), 1, 2);
        reg_iter<D<TokElem, 1, 4, 8>, 1>("tok leaf1 inner4, deep", 64, 64, grown({17, 40}, {3}, true), 1, 2);
        reg_piter<D<TokElem, 1, 4, 8>>("tok leaf1 inner4, deep", 64, 64, 1, grown({17, 40}, {3}, false), 1, 1);
#elif CFG == 7
        reg_iter<D<TokElem, 2, 4>, 2>("tok leaf2 inner4", 6, 7);
        reg_iter<X<StrElem, 2, 5>, 0>("indexed string leaf2 inner5", 6, 7);
        reg_iter<O<PairElem<StrKey, uint32_t>, 2, 5>, 0>("ordered string keys leaf2 inner5", 5, 6);
#endif
    }
} init;
}
}
