// C01: a tree without mixins behaves exactly like a double-ended sequence.
// CFGS: 8
#include "specs.hpp"
namespace mc {
namespace {
template <class E, int leaf, int inner, int dl = 6>
using D = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner), dl>::template mixins<>>;
constexpr uint64_t E_ = DEQUE_EDITS;
struct ByteElem : IntElem {
    using Value = uint8_t;
    static Value make(ME const& e) { return static_cast<Value>(e.id); }
    static bool eq(Value const& v, ME const& e) { return v == static_cast<Value>(e.id); }
    static uint64_t canon_value(Value const& v) { return v; }
    template <class F>
    static decltype(auto) with(ME const& e, int, F&& f) { return f(make(e)); }
};
using Bytes = Plain<ByteElem, typename BppTree<uint8_t>::template mixins<>>;
struct Init {
    Init() {
#if CFG == 0
        reg<D<TokElem, 1, 4>, Q_BASE>("tok leaf1 inner4, mutable, frozen at any time", {7, 10, E_, FREEZE});
        reg<D<TokElem, 1, 4>, Q_BASE>("tok leaf1 inner4, immutable", {9, 12, E_, 0, true});
#elif CFG == 1
        reg<D<TokElem, 2, 4>, Q_BASE>("tok leaf2 inner4, mutable, frozen at any time", {8, 10, E_, FREEZE});
        reg<D<TokElem, 2, 4>, Q_BASE>("tok leaf2 inner4, mutable, all forms and iterators", {6, 10, E_, 0, false, 3, 3});
#elif CFG == 2
        reg<D<TokElem, 3, 4>, Q_BASE>("tok leaf3 inner4, mutable, frozen at any time", {8, 11, E_, FREEZE});
        reg<D<TokElem, 3, 4>, Q_BASE>("tok leaf3 inner4, immutable, all forms and iterators", {9, 14, E_, 0, true, 3, 3});
#elif CFG == 3
        reg<D<TokElem, 1, 5>, Q_BASE>("tok leaf1 inner5, mutable", {10, 14, E_});
        reg<D<TokElem, 1, 5>, Q_BASE>("tok leaf1 inner5, mutable, frozen at any time", {8, 10, E_, FREEZE});
#elif CFG == 4
        reg<D<StrElem, 2, 5>, Q_BASE>("string leaf2 inner5, immutable, all forms", {7, 11, E_, FREEZE, true, 1, 4});
        reg<D<StrElem, 2, 5>, Q_BASE>("string leaf2 inner5, mutable, all forms", {7, 11, E_, FREEZE, false, 1, 4});
#elif CFG == 5
        reg<D<IntElem, 4, 4>, Q_BASE>("int leaf4 inner4, mutable, frozen at any time", {8, 11, E_, FREEZE, false, 1, 2});
        reg<D<IntElem, 5, 6>, Q_BASE>("int leaf5 inner6, immutable", {11, 14, E_, 0, true, 3, 2});
#elif CFG == 6
        reg<D<TokElem, 1, 4, 8>, Q_BASE>("tok leaf1 inner4, deep", {64, 64, E_, FREEZE, false, 1, 1, grown({17, 22, 40}, {2, 3, 5}, true), 2, 3});
        reg<D<TokElem, 3, 4, 8>, Q_BASE>("tok leaf3 inner4, deep", {99, 99, E_, FREEZE, false, 1, 1, grown({49, 70}, {2, 3, 7}, true), 2, 3});
#elif CFG == 7
        // leaves of more than 255 elements
        reg<Bytes, Q_BASE>("bytes, default node sizes", {900, 900, E_, 0, false, 1, 1, {{op(BULKB, 255)}, {op(BULKF, 504)}, {op(BULKM, 560), op(FLAG)}, {op(BULKB, 764)}}, 1, 1});
        // several kinds of leaves one level below the root
        reg<D<ByteElem, 300, 4>, Q_BASE>("bytes leaf300 inner4", {900, 900, E_, 0, false, 1, 1, {{op(BULKF, 301), op(FLAG)}, {op(BULKB, 600)}}, 1, 1});
#endif
    }
} init;
}
}
