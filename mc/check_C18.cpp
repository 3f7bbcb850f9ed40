// C18: editing copies only what it must: allocations per edit.
// CFGS: 6
#include "iterworld.hpp"
namespace mc {
namespace {
enum { SWEEP = K_USER, AGAIN };
template <class Spec, unsigned Q = 0>
struct CopyWorld : World<Spec, Q, 2> {
    using W = World<Spec, Q, 2>;
    struct Inst : W::Inst {
        bool unshared = true; // no node of the mutable tree was ever part of an immutable one
    };
    bool sweep = true;
    std::unique_ptr<Inst> make() {
        mem.err = nullptr;
        soft_err = nullptr;
        mem.live = 0;
        auto i = std::make_unique<Inst>();
        this->init(*i);
        i->unshared = !this->cfg.start_persistent;
        return i;
    }
    void finish(std::unique_ptr<Inst> i) { W::finish(std::move(i)); }
    void canon(Inst& in, Canon& c) {
        W::canon(in, c);
        c.put(in.unshared);
    }
    void verify(Inst& in) { W::verify(in); }
    void quick(Inst& in) { W::quick(in); }
    static size_t depth(Inst& in, int s) { return in.s[s].t ? in.s[s].t->depth() : in.s[s].p->depth(); }
    static bool assigns(int k) { return k == ASG || k == UPD || k == ASGX || k == UPDX || k == KASG || k == KUPD; }
    static bool erases(int k) { return k == ERA || k == POPB || k == POPF || k == ERAX || k == KERA; }
    static bool inserts(int k) { return k == INS || k == PUSHB || k == PUSHF || k == INSX || k == KINS || k == KIOA || k == KSUB; }

    void measured(Inst& in, Op o, bool t_only_new) {
        uint64_t n0 = mem.news;
        long l0 = mem.live;
        uint64_t d = depth(in, o.s);
        bool t = static_cast<bool>(in.s[o.s].t);
        size_t sz = in.s[o.s].m.size();
        W::apply(in, o);
        uint64_t n = mem.news - n0;
        long grown = mem.live - l0;
        bool emptied = in.s[o.d].m.empty();
        char const* what = kind_name(o.k);
        bool keyed_present = (o.k == KINS || o.k == KIOA || o.k == KSUB) && (o.b & 1);
        bool fill = inserts(o.k) && !keyed_present;
        if (assigns(o.k) || keyed_present) {
            CHECK(n <= d, "%s in a tree of %zu elements and depth %zu allocated %zu nodes", what, sz, (size_t)d, (size_t)n);
        } else if (erases(o.k)) {
            CHECK(n <= (emptied ? 1 : d), "%s in a tree of %zu elements and depth %zu allocated %zu nodes", what, sz, (size_t)d, (size_t)n);
        } else if (fill) {
            CHECK(n <= 2 * d + 1, "%s in a tree of %zu elements and depth %zu allocated %zu nodes", what, sz, (size_t)d, (size_t)n);
        }
        if (t && t_only_new) {
            if (assigns(o.k) || keyed_present) CHECK(n == 0, "%s in a mutable tree of %zu elements whose nodes it owns allocated %zu nodes", what, sz, (size_t)n);
            if (erases(o.k)) CHECK(n <= (emptied ? 1u : 0u), "%s in a mutable tree of %zu elements whose nodes it owns allocated %zu nodes", what, sz, (size_t)n);
            if (fill) {
                CHECK(n <= d + 1, "%s in a mutable tree of %zu elements whose nodes it owns allocated %zu nodes", what, sz, (size_t)n);
                CHECK(static_cast<long>(n) == grown, "%s in a mutable tree of %zu elements whose nodes it owns allocated %zu nodes but the tree grew by %ld", what, sz, (size_t)n, grown);
            }
        }
    }
    void apply(Inst& in, Op o) {
        switch (o.k) {
            case FLAG: case TOP: case TOT:
                in.unshared = false;
                W::apply(in, o);
                break;
            case BULKB: case BULKF: case BULKM: case BULKA: case THIN: W::apply(in, o); break;
            case CLEAR: {
                uint64_t n0 = mem.news;
                W::apply(in, o);
                CHECK(mem.news - n0 <= 1, "clear allocated %zu nodes", (size_t)(mem.news - n0));
                in.unshared = true;
                break;
            }
            case SWEEP: {
                // freeze, then assign to every element in turn: each node is copied at most once, then none
                int sz = static_cast<int>(in.s[0].m.size());
                if (o.b) W::apply(in, W::mk(SNAP, 0, 0, 0, 0, 1));
                else W::apply(in, W::mk(FLAG, 0, 0, 0));
                long nodes = mem.live;
                long l0 = nodes;
                uint64_t n0 = mem.news;
                for (int i = 0; i < sz; ++i) {
                    int at = o.a == 0 ? i : o.a == 1 ? sz - 1 - i : (i & 1) ? sz - 1 - i / 2 : i / 2;
                    uint64_t b = mem.news;
                    measured(in, W::mk(ASG, 0, at, 0), false);
                    uint64_t first = mem.news - b;
                    b = mem.news;
                    measured(in, W::mk(ASG, 0, at, 0), true);
                    CHECK(mem.news == b, "repeating an assignment to element %d of %d allocated %zu nodes", at, sz, (size_t)(mem.news - b));
                    measured(in, W::mk(UPD, 0, at, 0), true);
                    (void)first;
                }
                CHECK(static_cast<long>(mem.news - n0) <= nodes, "assigning to each of %d elements once copied %zu nodes of a tree of %ld", sz, (size_t)(mem.news - n0), nodes);
                if (o.b) CHECK(mem.live - l0 <= nodes, "assigning to each element left %ld nodes besides the %ld of the snapshot", mem.live - l0, nodes);
                else CHECK(mem.live == nodes, "assigning to each element left %ld nodes instead of %ld", mem.live, nodes);
                n0 = mem.news;
                for (int i = 0; i < sz; ++i) measured(in, W::mk(ASG, 0, i, 0), true);
                CHECK(mem.news == n0, "assigning again to each of %d elements allocated %zu nodes", sz, (size_t)(mem.news - n0));
                // every node has now been copied for this tree
                in.unshared = true;
                break;
            }
            case AGAIN: {
                // freeze, edit at a, then edit next to it
                int at = o.a;
                W::apply(in, W::mk(FLAG, 0, 0, 0));
                measured(in, W::mk(ASG, 0, at, 0), false);
                if (o.b == 0) {
                    measured(in, W::mk(ASG, 0, at, 0, 1), true);
                    measured(in, W::mk(UPD, 0, at, 0), true);
                } else if (o.b == 1) {
                    measured(in, W::mk(ERA, 0, at, 0), true);
                } else {
                    measured(in, W::mk(INS, 0, at, 0), true);
                    if constexpr (!Spec::ordered) {
                        // the new element's path belongs to this tree too
                        measured(in, W::mk(ASG, 0, at, 0), true);
                        measured(in, W::mk(ERA, 0, at, 0), true);
                    }
                }
                break;
            }
            default: measured(in, o, in.unshared && in.s[o.s].t); break;
        }
    }
    void probes(Inst& in, std::vector<Op>& out) {
        if (!in.s[0].t) return;
        int n = static_cast<int>(in.s[0].m.size());
        if (sweep)
            for (int w = 0; w < 3; ++w)
                for (int b = 0; b < 2; ++b) out.push_back(W::mk(SWEEP, 0, w, b));
        for (int i = 0; i < n; ++i)
            for (int b = 0; b < 3; ++b) {
                // in the leaf of element i there may be room before it, but it is only certain that the same leaf is
                // used when the element before it lies in the same leaf: insertion goes before element i's leaf position
                if (b == 2 && !this->gap_ok(in.s[0].m, i)) continue;
                out.push_back(W::mk(AGAIN, 0, i, b));
            }
    }
    std::string describe(Op o) {
        if (o.k == SWEEP) return "freeze and assign to every element, order " + std::to_string(o.a) + (o.b ? ", snapshot kept" : "");
        if (o.k == AGAIN) return "freeze and edit twice at " + std::to_string(o.a) + " kind " + std::to_string(o.b);
        return W::describe(o);
    }
};
template <class Spec, unsigned Q = 0>
void reg_copy(std::string name, R r) {
    using W = CopyWorld<Spec, Q>;
    new Register<W>(name, [=] {
        auto w = std::make_unique<W>();
        w->cfg.maxn = opt.thorough ? r.tn : r.qn;
        w->cfg.edits = r.edits;
        w->cfg.conv = r.conv;
        w->cfg.start_persistent = r.startp;
        w->bases = r.bases;
        return w;
    }, r.qn ? r.qd : -1, r.td);
}
template <class E, int leaf, int inner, int dl = 7>
using D = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner), dl>::template mixins<>>;
template <class E, class S, int leaf, int inner, int dl = 7>
using X = Idx<E, S, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(S)) + 8, dl>::template mixins<IndexedBuilder<S>>>;
template <class E, int leaf, int inner, int dl = 7>
using O = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(typename E::K)), dl>::template mixins<OrderedBuilder<>>>;
using NA = NumElem<Alphabet<int, 1>>;
template <int leaf>
struct SM : WithMax<WithMin<WithSum<NA, typename BppTree<int, leafb<int>(leaf), intb(4, 12) + 8, 7>::template mixins<SummedBuilder<ValueExtractor>, MinBuilder<>, MaxBuilder<>>, Whole>, Whole>, Whole> {};
struct Big : Plain<IntElem, BppTree<int>::mixins<>> {};
struct BigMap : Plain<PairElem<IntKey<int>, int>, BppTreeMap<int, int>> {};
struct Init {
    Init() {
#if CFG == 0
        reg_copy<D<IntElem, 1, 4>>("leaf1 inner4", {8, 11, DEQUE_EDITS, FREEZE});
        reg_copy<D<IntElem, 2, 4>>("leaf2 inner4", {8, 11, DEQUE_EDITS, FREEZE});
#elif CFG == 1
        reg_copy<D<IntElem, 3, 4>>("leaf3 inner4", {8, 12, DEQUE_EDITS, FREEZE});
        reg_copy<D<IntElem, 2, 5>>("leaf2 inner5 immutable", {7, 9, DEQUE_EDITS, FREEZE, true});
#elif CFG == 2
        reg_copy<X<IntElem, uint32_t, 1, 4>>("indexed leaf1 inner4", {7, 10, INDEX_EDITS, FREEZE});
        reg_copy<X<IntElem, uint32_t, 2, 4>>("indexed leaf2 inner4", {7, 10, INDEX_EDITS, FREEZE});
#elif CFG == 3
        reg_copy<O<PairElem<IntKey<int>, int>, 1, 4>>("ordered leaf1 inner4", {7, 9, KEY_EDITS, FREEZE});
        reg_copy<O<PairElem<IntKey<int>, int>, 2, 4>>("ordered leaf2 inner4", {7, 9, KEY_EDITS, FREEZE});
#elif CFG == 4
        reg_copy<SM<1>>("summed min max leaf1 inner4", {7, 9, DEQUE_EDITS, FREEZE});
        reg_copy<D<IntElem, 1, 4, 8>>("deep leaf1 inner4", {99, 99, DEQUE_EDITS, FREEZE, false, 1, 1, grown({17, 22, 40, 64}, {2, 3}, true), 1, 2});
        reg_copy<D<IntElem, 2, 5, 8>>("deep leaf2 inner5 immutable", {199, 199, DEQUE_EDITS, FREEZE, true, 1, 1, grown({30, 60, 100}, {2, 3}, true, true), 1, 2});
#elif CFG == 5
        reg_copy<Big>("default configuration", {2000, 2000, bit(INS) | bit(ERA) | bit(ASG), FREEZE, false, 1, 1, grown({400}, {3}, false), 1, 1});
        reg_copy<BigMap>("default map", {2000, 2000, bit(KINS) | bit(KERA) | bit(KUPD), FREEZE, true, 1, 1, grown({400}, {3}, false, true), 1, 1});
#endif
    }
} init;
}
}
