// C12: every element, key and node is created once and destroyed once; unreachable elements are gone.
// CFGS: 9
#include "forest.hpp"
namespace mc {
namespace {
template <class E, int leaf, int inner, int dl = 6>
using D = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner), dl>::template mixins<>>;
template <class E, int leaf, int inner, int dl = 6>
using O = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(typename E::K)), dl>::template mixins<OrderedBuilder<>>>;
template <class E, class S, int leaf, int inner, int dl = 6>
using X = Idx<E, S, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(S)) + 8, dl>::template mixins<IndexedBuilder<S>>>;
// minima and maxima whose copies, which the tree keeps in its nodes, notice misuse too
struct TokNum : TokElem {
    static constexpr bool value_matters = true;
    static constexpr int nalpha = 2;
    static Value make(ME const& e) { return Value(e.alpha); }
    static bool eq(Value const& v, ME const& e) {
        v.usable("read an element that does not exist or was moved away");
        return v.id == e.alpha;
    }
    template <class F>
    static decltype(auto) with(ME const& e, int, F&& f) { return f(make(e)); }
    static void check_done() { toks_done(); }
};
struct ToKey {
    Tok<1> operator()(Tok<0> const& t) const {
        t.usable("read an element that does not exist or was moved away");
        return Tok<1>(t.id + 7);
    }
    template <class V>
    static Tok<1> get(V const& v) { return Tok<1>(v.id + 7); }
};
struct More {
    bool operator()(Tok<1> const& a, Tok<1> const& b) const { return b < a; }
};
template <int leaf>
struct MM : WithMax<WithMin<Plain<TokNum, typename BppTree<Tok<0>, leafb<Tok<0>>(leaf), intb(4, 2 * sizeof(Tok<1>)) + 8, 6>::template mixins<MinBuilder<ToKey>, MaxBuilder<ToKey, More>>>, ToKey>, ToKey, More> {};
constexpr uint64_t ED = bit(PUSHB) | bit(PUSHF) | bit(INS) | bit(ERA) | bit(ASG) | bit(UPD) | bit(POPB) | bit(POPF) | bit(CLEAR);
constexpr uint64_t EP = bit(PUSHB) | bit(PUSHF) | bit(INS) | bit(ERA) | bit(ASG) | bit(UPD) | bit(POPB) | bit(POPF);
constexpr uint64_t KE = bit(KINS) | bit(KIOA) | bit(KERA) | bit(KASG) | bit(KUPD) | bit(KSUB) | bit(POPB) | bit(POPF);
constexpr uint64_t XE = bit(INSX) | bit(ERAX) | bit(ASGX) | bit(UPDX) | bit(CLEAR);
constexpr uint64_t CV = bit(SNAP) | bit(THAW) | bit(TOP) | bit(TOT) | bit(COPY) | bit(DROP);
constexpr uint64_t CVA = CV | bit(MOVE) | bit(ASSIGNC) | bit(ASSIGNM) | bit(SWAP) | bit(NEWT);
FR fr(int q, int t, uint64_t e, uint64_t p, uint64_t cv, std::vector<std::vector<Op>> b = {{}}, int qd = 99, int td = 99) {
    FR r{q, t, e, p, cv};
    r.bases = b;
    r.qd = qd;
    r.td = td;
    r.toks = true;
    return r;
}
struct Init {
    Init() {
#if CFG == 0
        reg_forest<D<TokElem, 1, 4>, 0, 1>("tok leaf1 inner4, 1 tree", fr(8, 12, ED, EP, bit(TOP) | bit(TOT)));
        reg_forest<D<TokElem, 2, 4>, 0, 1>("tok leaf2 inner4, 1 tree", fr(8, 13, ED, EP, bit(TOP) | bit(TOT)));
        reg_forest<D<TokElem, 3, 4>, 0, 1>("tok leaf3 inner4, 1 tree", fr(8, 13, ED, EP, bit(TOP) | bit(TOT)));
#elif CFG == 1
        reg_forest<D<TokElem, 1, 4>, 0, 2>("tok leaf1 inner4, 2 trees", fr(5, 6, ED, EP, CVA));
#elif CFG == 2
        reg_forest<D<TokElem, 2, 4>, 0, 2>("tok leaf2 inner4, 2 trees", fr(5, 6, ED, EP, CVA));
        reg_forest<D<TokElem, 1, 4>, 0, 3>("tok leaf1 inner4, 3 trees", fr(3, 4, ED, EP, CVA));
#elif CFG == 3
        reg_forest<D<TokElem, 2, 4>, 0, 3>("tok leaf2 inner4, 3 trees", fr(3, 4, ED, EP, CV));
        reg_forest<D<TokElem, 1, 4, 8>, 0, 3>("tok leaf1 inner4, 3 deep trees", fr(64, 64, ED, EP, CVA, related({6, 17, 22}, {3}, 3), 1, 2));
#elif CFG == 4
        reg_forest<O<PairElem<TokKey, Tok<0>>, 1, 4>, 0, 2>("ordered tok leaf1 inner4, 2 trees", fr(4, 5, KE, KE, CVA));
        reg_forest<O<PairElem<TokKey, Tok<0>>, 2, 4>, 0, 1>("ordered tok leaf2 inner4, 1 tree", fr(7, 12, KE, KE, bit(TOP) | bit(TOT)));
#elif CFG == 5
        reg_forest<O<PairElem<TokKey, Tok<0>>, 1, 4>, 0, 1>("ordered tok leaf1 inner4, 1 tree", fr(7, 11, KE, KE, bit(TOP) | bit(TOT)));
        reg_forest<O<PairElem<TokKey, Tok<0>>, 1, 4, 8>, 0, 2>("ordered tok leaf1 inner4, 2 deep trees", fr(64, 64, KE, KE, CVA, related({6, 17}, {3}, 2), 1, 2));
#elif CFG == 6
        reg_forest<X<TokElem, uint32_t, 1, 4>, 0, 2>("indexed tok leaf1 inner4, 2 trees", fr(4, 5, XE, XE, CVA));
        reg_forest<X<TokElem, uint32_t, 3, 5>, 0, 1>("indexed tok leaf3 inner5, 1 tree", fr(7, 13, XE, XE, bit(TOP) | bit(TOT)));
#elif CFG == 7
        FR r = fr(4, 5, ED, EP, CVA);
        r.toks = false;
        reg_forest<D<StrElem, 1, 4>, 0, 2>("string leaf1 inner4, 2 trees", r);
        r = fr(4, 5, KE, KE, CVA);
        r.toks = false;
        reg_forest<O<PairElem<StrKey, std::string>, 1, 4>, 0, 2>("ordered string leaf1 inner4, 2 trees", r);
        reg_forest<O<PairElem<StrKey, std::string>, 2, 4, 8>, 0, 2>("ordered string leaf2 inner4, 2 deep trees", [&] { FR x = r; x.qn = x.tn = 64; x.bases = related({9, 30}, {3}, 2); x.qd = 1; x.td = 2; return x; }());
#elif CFG == 8
        constexpr uint64_t FE = bit(INS) | bit(ERA) | bit(ASG) | bit(CLEAR);
        reg_forest<MM<1>, Q_MM, 1>("min max of toks leaf1 inner4, 1 tree", fr(6, 8, FE, FE, bit(TOP) | bit(TOT)));
        reg_forest<MM<2>, Q_MM, 2>("min max of toks leaf2 inner4, 2 trees", fr(3, 4, FE, FE, CVA));
        reg_forest<MM<1>, Q_MM, 2>("min max of toks leaf1 inner4, 2 deep trees", fr(64, 64, FE, FE, CVA, related({6, 17}, {3}, 2), 1, 2));
#endif
    }
} init;
}
}
