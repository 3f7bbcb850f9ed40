// C07: minimum and maximum of the tree and of every range are exact.
// CFGS: 8
#include "specs.hpp"
namespace mc {
namespace {
template <class E, int leaf, int inner, int XB, int dl, class... Ms>
using Tr = typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, XB) + 8, dl>::template mixins<Ms...>;
using A3 = Alphabet<int, 1, 2, 3>;
using N3 = Alphabet<int, -5, 0, 4>;
constexpr unsigned Q = Q_MM;
constexpr uint64_t E_ = DEQUE_EDITS;
template <class A, int leaf, int inner, int dl = 6>
using Mn = WithMin<Plain<TagElem<A>, Tr<TagElem<A>, leaf, inner, sizeof(typename A::type), dl, MinBuilder<>::extractor<PairExtractor<0>>>>, First>;
template <class A, int leaf, int inner, int dl = 6>
using Mx = WithMax<Plain<TagElem<A>, Tr<TagElem<A>, leaf, inner, sizeof(typename A::type), dl, MaxBuilder<>::extractor<PairExtractor<0>>>>, First>;
template <class A, int leaf, int inner, int dl = 6>
using Both = WithMax<WithMin<Plain<NumElem<A>, Tr<NumElem<A>, leaf, inner, 2 * sizeof(typename A::type), dl, MinBuilder<>, MaxBuilder<>>>, Whole>, Whole>;
// minimum by a custom comparator, maximum of another field
template <class A, int leaf, int inner, int dl = 6>
using Custom = WithMax<WithMin<Plain<TagElem<A>, Tr<TagElem<A>, leaf, inner, 8, dl, MaxBuilder<>::extractor<PairExtractor<1>>, MinBuilder<>::extractor<PairExtractor<0>>::compare<AbsLt>>>, First, AbsLt>, Second>;
template <class A, int leaf, int inner, int dl = 6>
using MaxCmp = WithMax<Plain<NumElem<A>, Tr<NumElem<A>, leaf, inner, sizeof(typename A::type), dl, MaxBuilder<>::compare<AbsLt>>>, Whole, AbsLt>;
// extremes of owned strings
struct StrNum : SpecBase {
    using Value = std::pair<std::string, uint32_t>;
    static constexpr bool value_matters = true;
    static constexpr int nalpha = 3;
    static std::string str(ME const& e) { return std::string("a common prefix longer than the inline buffer ") + static_cast<char>('a' + e.alpha); }
    static Value make(ME const& e) { return Value(str(e), e.id); }
    static bool eq(Value const& v, ME const& e) {
        OutLib o;
        return v.second == e.id && v.first == str(e);
    }
    static uint64_t canon_value(Value const& v) { return v.first.empty() ? 0 : static_cast<unsigned char>(v.first.back()); }
    template <class F>
    static decltype(auto) with(ME const& e, int form, F&& f) {
        if (form == 2) return f(str(e), static_cast<uint32_t>(e.id));
        return f(make(e));
    }
    template <class X>
    static uint64_t bits(X const& x) {
        if constexpr (std::is_same_v<X, std::string>) return x.empty() ? 0 : static_cast<unsigned char>(x.back());
        else return 0;
    }
};
template <int leaf, int inner, int dl = 6>
using Strs = WithMax<WithMin<Plain<StrNum, Tr<StrNum, leaf, inner, 64, dl, MinBuilder<>::extractor<PairExtractor<0>>, MaxBuilder<>::extractor<PairExtractor<0>>>>, First>, First>;
struct Init {
    Init() {
#if CFG == 0
        reg<Mn<A3, 1, 4>, Q>("min tagged leaf1 inner4, mutable, frozen at any time", {4, 5, E_, FREEZE});
        reg<Mn<A3, 1, 4>, Q>("min tagged leaf1 inner4, mutable", {6, 7, E_});
#elif CFG == 1
        reg<Mx<A3, 2, 4>, Q>("max tagged leaf2 inner4, mutable, frozen at any time", {5, 5, E_, FREEZE});
        reg<Mx<A3, 2, 4>, Q>("max tagged leaf2 inner4, immutable", {6, 7, E_, 0, true});
#elif CFG == 2
        reg<Both<A3, 1, 4>, Q>("min and max leaf1 inner4, immutable", {6, 7, E_, 0, true});
        reg<Both<A3, 1, 4>, Q>("min and max leaf1 inner4, mutable, frozen at any time", {4, 5, E_, FREEZE});
#elif CFG == 3
        reg<Both<Alphabet<uint8_t, 0, 255>, 2, 5>, Q>("min and max uint8 leaf2 inner5, mutable, frozen at any time", {6, 7, E_, FREEZE});
#elif CFG == 4
        reg<Custom<N3, 2, 4>, Q>("custom comparator and two fields leaf2 inner4, mutable", {5, 6, E_});
        reg<Custom<N3, 2, 4>, Q>("custom comparator and two fields leaf2 inner4, immutable", {5, 6, E_, 0, true});
        reg<MaxCmp<N3, 3, 4>, Q>("max by custom comparator leaf3 inner4, mutable, frozen at any time", {5, 6, E_, FREEZE});
#elif CFG == 5
        reg<Strs<2, 4>, Q>("min and max strings leaf2 inner4, mutable, frozen at any time", {4, 5, E_, FREEZE, false, 1, 3});
        reg<Strs<1, 4>, Q>("min and max strings leaf1 inner4, mutable", {5, 6, E_});
#elif CFG == 6
        reg<Both<A3, 1, 4, 8>, Q>("min and max leaf1 inner4, deep", {99, 99, E_, FREEZE, false, 1, 1, grown({17, 22, 40}, {2, 3, 5}, true), 1, 2});
#elif CFG == 7
        reg<Mn<Alphabet<int, 2, 1>, 3, 4, 8>, Q>("min tagged leaf3 inner4, deep", {99, 99, E_, FREEZE, false, 1, 1, grown({30, 49}, {2, 7}, true), 1, 2});
        reg<Mx<Alphabet<int, 2, 1>, 2, 4, 8>, Q>("max tagged leaf2 inner4, deep", {99, 99, E_, FREEZE, false, 1, 1, grown({20, 34}, {2, 5}, true), 1, 2});
#endif
    }
} init;
}
}
