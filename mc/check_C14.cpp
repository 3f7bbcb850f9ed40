// C14: a failed operation never damages other trees.
// CFGS: 8
#include "faultworld.hpp"
namespace mc {
namespace {
template <class E, int leaf, int inner, int dl = 6>
using D = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner), dl>::template mixins<>>;
template <class E, class S, int leaf, int inner, int dl = 6>
using X = Idx<E, S, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(S)) + 8, dl>::template mixins<IndexedBuilder<S>>>;
template <class E, int leaf, int inner, bool bin = false, int dl = 6>
using O = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(typename E::K)) + 8, dl>::template mixins<typename OrderedBuilder<>::template compare<Throwing<Lt>>::template binary_search<bin>>>;
using NA = NumElem<Alphabet<int, 1, 0>>;
template <int leaf>
struct SM : WithMax<WithMin<WithSum<NA, typename BppTree<int, leafb<int>(leaf), intb(4, 12) + 8, 6>::template mixins<SummedBuilder<ValueExtractor>, MinBuilder<>::compare<Throwing<Lt>>, MaxBuilder<>::compare<Throwing<Gt>>>, Whole>, Whole>, Whole> {};
constexpr uint64_t ED = bit(PUSHB) | bit(PUSHF) | bit(INS) | bit(ERA) | bit(ASG), EP = bit(INS) | bit(ERA) | bit(ASG);
constexpr uint64_t CV = bit(SNAP) | bit(THAW) | bit(TOP) | bit(TOT) | bit(DROP);
constexpr uint64_t KE = bit(KINS) | bit(KERA);
constexpr uint64_t XE = bit(INSX) | bit(ERAX);
constexpr uint64_t PD = DEQUE_EDITS, PK = KEY_EDITS | bit(POPB) | bit(INS) | bit(ERA) | bit(UPD), PX = INDEX_EDITS;
constexpr unsigned AL = 1 << FC_ALLOC, CM = 1 << FC_COMPARE, UP = 1 << FC_UPDATE, EL = 1 << FC_ELEMENT;
FR fr(int q, int t, uint64_t e, uint64_t p, bool toks, std::vector<std::vector<Op>> b = {{}}, int qd = 99, int td = 99) {
    FR r{q, t, e, p, CV};
    r.bases = b;
    r.qd = qd;
    r.td = td;
    r.toks = toks;
    return r;
}
struct Init {
    Init() {
#if CFG == 0
        reg_fault<D<TokElem, 1, 4>, Q_BASE, 2>("tok leaf1 inner4, 2 trees", fr(4, 5, ED, EP, true), AL | UP | EL, PD);
        reg_fault<D<TokElem, 2, 4>, Q_BASE, 2>("tok leaf2 inner4, 2 trees", fr(4, 5, ED, EP, true), AL | UP | EL, PD);
#elif CFG == 1
        reg_fault<D<TokElem, 1, 4>, Q_BASE, 3>("tok leaf1 inner4, 3 trees", fr(3, 3, ED, EP, true), AL | EL, PD);
        reg_fault<D<TokElem, 1, 4, 8>, Q_BASE, 2>("tok leaf1 inner4, 2 deep trees", fr(64, 64, ED, EP, true, related({6, 17, 22}, {3}, 2), 0, 1), AL | UP | EL, PD);
#elif CFG == 2
        reg_fault<X<TokElem, uint32_t, 1, 4>, Q_BASE | Q_IDX, 2>("indexed tok leaf1 inner4, 2 trees", fr(4, 5, XE, XE, true), AL | UP | EL, PX);
        reg_fault<X<TokElem, uint32_t, 2, 4, 8>, Q_BASE | Q_IDX, 2>("indexed tok leaf2 inner4, 2 deep trees", fr(99, 99, XE, XE, true, related({14, 40}, {3}, 2), 0, 1), AL | UP | EL, PX);
#elif CFG == 3
        reg_fault<O<PairElem<TokKey, Tok<0>>, 1, 4>, Q_BASE | Q_ORD, 2>("ordered tok leaf1 inner4, 2 trees", fr(4, 5, KE, KE, true), AL | CM | UP | EL, PK);
        reg_fault<O<PairElem<TokKey, Tok<0>>, 2, 4, true>, Q_BASE | Q_ORD, 2>("ordered tok bisect leaf2 inner4, 2 trees", fr(4, 5, KE, KE, true), AL | CM | UP | EL, PK);
#elif CFG == 4
        reg_fault<O<PairElem<IntKey<int>, int>, 1, 4, false, 8>, Q_BASE | Q_ORD, 2>("ordered int leaf1 inner4, 2 deep trees", fr(99, 99, KE, KE, false, related({6, 17, 22}, {3}, 2), 0, 1), AL | CM | UP, PK);
        reg_fault<O<PairElem<IntKey<int>, int>, 2, 4, true, 8>, Q_BASE | Q_ORD, 2>("ordered int bisect leaf2 inner4, 2 deep trees", fr(99, 99, KE, KE, false, related({20, 40}, {3}, 2), 0, 1), AL | CM | UP, PK);
#elif CFG == 5
        reg_fault<SM<1>, Q_BASE | Q_SUM | Q_MM, 2>("summed min max leaf1 inner4, 2 trees", fr(3, 4, EP, EP, false), AL | CM | UP, PD);
        reg_fault<SM<2>, Q_BASE | Q_SUM | Q_MM, 2>("summed min max leaf2 inner4, 2 trees", fr(3, 4, EP, EP, false), AL | CM | UP, PD);
#elif CFG == 6
        reg_fault<SM<1>, Q_BASE | Q_SUM | Q_MM, 2>("summed min max leaf1 inner4, 2 deep trees", fr(64, 64, EP, EP, false, related({6, 17}, {3}, 2), 0, 1), AL | CM | UP, PD);
#elif CFG == 7
        reg_fault<D<TokElem, 3, 5, 8>, Q_BASE, 2>("tok leaf3 inner5, 2 deep trees", fr(99, 99, ED, EP, true, related({17, 30}, {2, 3}, 2), 0, 1), AL | UP | EL, PD);
#endif
    }
} init;
}
}
