// C06: searching by prefix sum finds the first element that reaches the target.
// CFGS: 5
#include "specs.hpp"
namespace mc {
namespace {
template <class E, class X, int leaf, int inner, int SB, int dl = 6>
using Tr = typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, SB) + 8, dl>::template mixins<SummedBuilder<X>>;
template <class A, int leaf, int inner, int dl = 6>
using N = WithSum<NumElem<A>, Tr<NumElem<A>, ValueExtractor, leaf, inner, sizeof(typename A::type), dl>>;
template <class A, int leaf, int inner, int dl = 6>
using G = WithSum<TagElem<A>, Tr<TagElem<A>, PairExtractor<0>, leaf, inner, sizeof(typename A::type), dl>, First>;
constexpr unsigned Q = Q_SLB;
constexpr uint64_t E_ = DEQUE_EDITS;
struct Init {
    Init() {
#if CFG == 0
        reg<G<Alphabet<int, 0, 1, 5>, 1, 4>, Q>("tagged int leaf1 inner4, mutable, frozen at any time", {4, 5, E_, FREEZE});
        reg<G<Alphabet<int, 0, 1, 5>, 1, 4>, Q>("tagged int leaf1 inner4, mutable", {6, 7, E_});
#elif CFG == 1
        reg<N<Alphabet<uint32_t, 0, 1, 3>, 2, 4>, Q>("uint32 leaf2 inner4, immutable", {6, 7, E_, 0, true});
        reg<N<Alphabet<uint32_t, 0, 2>, 2, 4>, Q>("uint32 leaf2 inner4, mutable, frozen at any time", {6, 7, E_, FREEZE});
#elif CFG == 2
        reg<N<Alphabet<uint8_t, 0, 1, 40>, 1, 4>, Q>("uint8 leaf1 inner4, immutable", {6, 6, E_, 0, true});
        reg<G<Alphabet<int8_t, 0, 1, 20>, 3, 4>, Q>("tagged int8 leaf3 inner4, mutable", {6, 6, E_});
#elif CFG == 3
        reg<G<Alphabet<uint64_t, 0, 1, (1ull << 60)>, 2, 5>, Q>("tagged uint64 leaf2 inner5, mutable, frozen at any time", {4, 5, E_, FREEZE});
        reg<N<Alphabet<int64_t, 0, 1>, 1, 4>, Q>("int64 leaf1 inner4, mutable, more elements", {8, 10, E_});
#elif CFG == 4
        reg<G<Alphabet<int, 0, 1, 4>, 1, 4, 8>, Q>("tagged int leaf1 inner4, deep", {99, 99, E_, FREEZE, false, 1, 1, grown({17, 22, 40}, {2, 3, 5}, true), 1, 2});
        reg<G<Alphabet<uint16_t, 0, 0, 1>, 3, 4, 8>, Q>("tagged uint16 leaf3 inner4, deep, mostly zeros", {99, 99, E_, FREEZE, false, 1, 1, grown({49, 70}, {2, 7}, true), 1, 2});
#endif
    }
} init;
}
}
