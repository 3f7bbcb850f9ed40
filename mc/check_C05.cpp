// C05: total and prefix sums always equal the sums of the elements.
// CFGS: 9
#include "specs.hpp"
namespace mc {
namespace {
template <class E, class X, int leaf, int inner, int SB, int dl = 6>
using Tr = typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, SB) + 8, dl>::template mixins<SummedBuilder<X>>;
template <class A, int leaf, int inner, int dl = 6>
using N = WithSum<NumElem<A>, Tr<NumElem<A>, ValueExtractor, leaf, inner, sizeof(typename A::type), dl>>;
template <class A, int leaf, int inner, int dl = 6>
using G = WithSum<TagElem<A>, Tr<TagElem<A>, PairExtractor<0>, leaf, inner, sizeof(typename A::type), dl>, First>;
template <class A, class S, int leaf, int inner, int dl = 6>
using C = WithSum<NumElem<A>, Tr<NumElem<A>, bpptree::detail::CastingExtractor<S>, leaf, inner, sizeof(S), dl>, Whole, S>;
constexpr unsigned Q = Q_SUM;
constexpr uint64_t E_ = DEQUE_EDITS;
using I3 = Alphabet<int, 0, 1, -7>;
using I4 = Alphabet<int64_t, 0, 1, -3, (1ll << 60)>;
using U3 = Alphabet<uint32_t, 0u, 1u, 0xFFFFFFFFu>;
using B3 = Alphabet<uint8_t, 0, 1, 255>;
using S3 = Alphabet<int16_t, 1, -1, 32767>;
using U64 = Alphabet<uint64_t, 1, 0x8000000000000000ull, 0xFFFFFFFFFFFFFFFFull>;
struct Init {
    Init() {
#if CFG == 0
        reg<G<I3, 1, 4>, Q>("tagged int leaf1 inner4, mutable, frozen at any time", {4, 5, E_, FREEZE, false, 1, 3});
        reg<N<I3, 1, 4>, Q>("int leaf1 inner4, mutable", {6, 8, E_});
#elif CFG == 1
        reg<N<U3, 2, 4>, Q>("uint32 leaf2 inner4, mutable, frozen at any time", {5, 6, E_, FREEZE});
        reg<N<U3, 2, 4>, Q>("uint32 leaf2 inner4, immutable", {6, 8, E_, 0, true});
#elif CFG == 2
        reg<N<B3, 1, 4>, Q>("uint8 leaf1 inner4, immutable", {6, 8, E_, 0, true, 3, 3});
        reg<N<S3, 2, 4>, Q>("int16 leaf2 inner4, immutable", {6, 8, E_, 0, true, 3, 2});
#elif CFG == 3
        reg<N<U64, 2, 5>, Q>("uint64 leaf2 inner5, mutable, frozen at any time", {5, 6, E_, FREEZE});
        reg<N<U64, 3, 4>, Q>("uint64 leaf3 inner4, mutable", {6, 8, E_});
#elif CFG == 4
        reg<C<Alphabet<uint8_t, 0, 1, 255>, int64_t, 1, 4>, Q>("uint8 summed as int64, leaf1 inner4, mutable", {6, 8, E_, 0, false, 1, 3});
        reg<C<Alphabet<int64_t, 1, -1, 300>, int8_t, 3, 4>, Q>("int64 summed as int8, leaf3 inner4, mutable, frozen at any time", {5, 6, E_, FREEZE});
#elif CFG == 5
        reg<G<I4, 2, 4>, Q>("tagged int64 leaf2 inner4, mutable, frozen at any time", {4, 5, E_, FREEZE, false, 1, 3});
        reg<N<Alphabet<int, 1, 0>, 1, 4>, Q>("int leaf1 inner4, immutable, more elements", {8, 10, E_, 0, true});
#elif CFG == 6
        reg<N<I3, 1, 4, 8>, Q>("int leaf1 inner4, deep", {99, 99, E_, FREEZE, false, 1, 1, grown({17, 22, 40}, {2, 3, 5}, true), 1, 2});
        reg<N<U3, 3, 4, 8>, Q>("uint32 leaf3 inner4, deep", {99, 99, E_, FREEZE, false, 1, 1, grown({49, 70}, {2, 7}, true), 1, 2});
#elif CFG == 7
        reg<N<I4, 1, 4, 8>, Q>("int64 leaf1 inner4, deep", {99, 99, E_, FREEZE, false, 1, 1, grown({5, 17, 22}, {2, 3}, true), 1, 2});
        reg<N<U64, 1, 4, 8>, Q>("uint64 leaf1 inner4, deep", {99, 99, E_, FREEZE, false, 1, 1, grown({5, 17, 40}, {2, 3}, true), 1, 2});
#elif CFG == 8
        reg<C<Alphabet<int, 1, -1, 3>, double, 1, 4>, Q>("int summed as double, leaf1 inner4, mutable", {5, 6, E_});
        reg<C<Alphabet<int, 1, -1, 1 << 30>, double, 1, 4, 8>, Q>("int summed as double, leaf1 inner4, deep", {99, 99, E_, FREEZE, false, 1, 1, grown({5, 17, 22}, {2, 3}, true), 1, 2});
        reg<C<Alphabet<uint32_t, 1, 5, 0xFFFFFFFFu>, uint64_t, 1, 4, 8>, Q>("uint32 summed as uint64, leaf1 inner4, deep", {99, 99, E_, FREEZE, false, 1, 1, grown({5, 17, 22}, {2, 3}, true), 1, 2});
#endif
    }
} init;
}
}
