// C03: an ordered tree behaves exactly like a sorted map or set.
// CFGS: 10
#include <memory>
#include <string_view>
#include "specs.hpp"
namespace mc {
namespace {
// X: bytes of a key inside an inner node
template <class E, class O, int leaf, int inner, int X, int dl = 6>
using D = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, X) + 8, dl>::template mixins<O>>;
template <class E, class C, bool bin, int leaf, int inner, int X, int dl = 6>
using M = Plain<E, typename BppTreeMap<typename E::K, std::decay_t<decltype(E::mapped(ME()))>>::template compare<C>::template binary_search<bin>
    ::template leaf_node_bytes<leafb<typename E::Value>(leaf)>::template internal_node_bytes<intb(inner, X) + 8>::template depth_limit<dl>>;
template <class E, class C, bool bin, int leaf, int inner, int X, int dl = 6>
using S = Plain<E, typename BppTreeSet<typename E::K>::template compare<C>::template binary_search<bin>
    ::template leaf_node_bytes<leafb<typename E::Value>(leaf)>::template internal_node_bytes<intb(inner, X) + 8>::template depth_limit<dl>>;
// keys that point to what they are compared by (the search prefetches it)
struct PtrKey {
    using K = int const*;
    static constexpr uint64_t ord_max = 65535, ord_step = 2048;
    static int const* at(uint64_t o) {
        static std::vector<int> const v = [] {
            OutLib l;
            std::vector<int> r;
            for (int i = 0; i < 65536; ++i) r.push_back(-i);
            return r;
        }();
        return v.data() + o;
    }
    static K key(uint64_t o) { return at(o); }
    static bool same(K a, K b) { return *a == *b; }
    static bool less(K a, K b) { return *a > *b; }
};
struct SharedKey : PtrKey {
    using K = std::shared_ptr<int const>;
    static K key(uint64_t o) { return K(K(), at(o)); }
    static bool same(K const& a, K const& b) { return *a == *b; }
    static bool less(K const& a, K const& b) { return *a > *b; }
};
struct Deref {
    template <class A>
    bool operator()(A const& a, A const& b) const { return *a > *b; }
};
struct ViewKey {
    using K = std::string_view;
    static constexpr uint64_t ord_max = 65535, ord_step = 2048;
    static K key(uint64_t o) {
        static std::string const s = [] {
            OutLib l;
            std::string r;
            char b[16];
            for (int i = 0; i < 65536; ++i) {
                snprintf(b, sizeof b, "%05d", i);
                r += b;
            }
            return r;
        }();
        return K(s).substr(o * 5, 5);
    }
    static bool same(K a, K b) { return a == b; }
    static bool less(K a, K b) { return a < b; }
};
constexpr unsigned Q = Q_BASE | Q_ORD;
constexpr uint64_t E_ = KEY_EDITS | bit(POPB) | bit(POPF), A_ = KEY_EDITS | DEQUE_EDITS;
struct Init {
    Init() {
#if CFG == 0
        reg<M<PairElem<IntKey<int>, int>, Lt, false, 1, 4, 4>, Q>("map int->int linear leaf1 inner4, mutable, frozen at any time", {7, 9, E_, FREEZE, false, 1, 4});
#elif CFG == 1
        reg<M<PairElem<IntKey<int64_t>, Tok<0>>, Lt, true, 2, 4, 8>, Q>("map int64->tok bisect leaf2 inner4, mutable, frozen at any time", {7, 9, E_, FREEZE, false, 1, 4});
        reg<M<PairElem<IntKey<int64_t>, Tok<0>>, Lt, true, 2, 4, 8>, Q>("map int64->tok bisect leaf2 inner4, immutable, edits by iterator too", {8, 11, A_, 0, true, 1, 3});
#elif CFG == 2
        reg<M<PairElem<StrKeyDesc, std::string>, Desc, false, 3, 4, 32>, Q>("map string->string descending linear leaf3 inner4, mutable, frozen at any time", {6, 8, KEY_EDITS, FREEZE, false, 1, 4});
        reg<M<PairElem<StrKeyDesc, std::string>, Desc, false, 3, 4, 32>, Q>("map string->string descending linear leaf3 inner4, immutable", {7, 9, KEY_EDITS, 0, true, 1, 1});
#elif CFG == 3
        reg<S<SetElem<TokKey>, Lt, true, 2, 4, 16>, Q>("set tok bisect leaf2 inner4, mutable, frozen at any time", {7, 9, E_, FREEZE, false, 1, 2});
#elif CFG == 4
        reg<S<SetElem<IntKeyDesc<uint16_t>>, Desc, false, 4, 4, 2>, Q>("set uint16 descending linear leaf4 inner4, mutable, frozen at any time", {8, 10, E_, FREEZE, false, 1, 2});
        reg<S<SetElem<IntKeyDesc<uint16_t>>, Desc, false, 4, 4, 2>, Q>("set uint16 descending linear leaf4 inner4, immutable", {9, 12, E_, 0, true, 1, 2});
#elif CFG == 5
        using T5 = TupElem<IntKey<uint32_t>, int, 1>;
        reg<D<T5, OrderedBuilder<>::extractor<TupleExtractor<1>>::binary_search<true>, 1, 5, 4>, Q>("tuple with second as key, bisect leaf1 inner5, mutable, frozen at any time", {7, 9, KEY_EDITS, FREEZE, false, 1, 3});
        using T6 = PairElem<IntKey<int>, Tok<0>, 1>;
        reg<D<T6, OrderedBuilder<>::extractor<PairExtractor<1>>, 2, 5, 4>, Q>("pair with second as key, linear leaf2 inner5, mutable, frozen at any time", {6, 8, KEY_EDITS, FREEZE, false, 1, 4});
#elif CFG == 6
        using F = PairElem<FuzzyKey, Tok<0>>;
        reg<M<F, FuzzyKey::Less, true, 2, 4, 8>, Q>("map with keys equal under the comparator only, bisect leaf2 inner4", {6, 8, E_, FREEZE, false, 1, 2});
        reg<M<F, FuzzyKey::Less, false, 3, 4, 8>, Q>("map with keys equal under the comparator only, linear leaf3 inner4", {7, 9, E_, 0, true, 1, 2});
#elif CFG == 7
        reg<M<PairElem<IntKey<int>, int>, Lt, true, 1, 4, 4, 8>, Q>("map int->int bisect leaf1 inner4, deep", {99, 99, KEY_EDITS, FREEZE, false, 1, 1, grown({17, 22, 40}, {2, 3, 5}, true), 1, 3});
        reg<M<PairElem<IntKey<int>, int>, Lt, false, 3, 4, 4, 8>, Q>("map int->int linear leaf3 inner4, deep", {99, 99, KEY_EDITS, FREEZE, false, 1, 1, grown({49, 70}, {2, 3, 7}, true), 1, 2});
#elif CFG == 8
        reg<M<PairElem<IntKey<int>, int>, Lt, true, 16, 16, 4, 6>, Q>("map int->int bisect leaf16 inner16, deep", {999, 999, KEY_EDITS, FREEZE, false, 1, 1, grown({150, 300}, {2, 9}, false), 1, 1});
        reg<M<PairElem<IntKey<int>, int>, Lt, true, 5, 6, 4, 6>, Q>("map int->int bisect leaf5 inner6", {9, 11, KEY_EDITS, FREEZE, false, 1, 1});
#elif CFG == 9
        reg<M<PairElem<PtrKey, int>, Deref, false, 2, 4, 8>, Q>("map pointer->int by what they point to, linear leaf2 inner4, mutable, frozen at any time", {6, 9, E_, FREEZE, false, 1, 2});
        reg<M<PairElem<SharedKey, int>, Deref, true, 1, 4, 16>, Q>("map shared_ptr->int by what they point to, bisect leaf1 inner4, mutable, frozen at any time", {6, 8, E_, FREEZE, false, 1, 2});
        reg<S<SetElem<ViewKey>, Lt, false, 3, 4, 16>, Q>("set string_view linear leaf3 inner4, mutable, frozen at any time", {7, 10, E_, FREEZE, false, 1, 2});
        reg<S<SetElem<ViewKey>, Lt, true, 1, 4, 16, 8>, Q>("set string_view bisect leaf1 inner4, deep", {99, 99, KEY_EDITS, FREEZE, false, 1, 1, grown({17, 30}, {2, 3}, true), 1, 2});
#endif
    }
} init;
}
}
