// C04: a refused keyed operation changes nothing.
// CFGS: 8
#include "iterworld.hpp"
#include <stdexcept>
namespace mc {
namespace {
template <class E, class O, int leaf, int inner, int X, int dl = 6>
using D = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, X) + 8, dl>::template mixins<O>>;
struct Thrown {
    int x;
};
enum : uint8_t {
    RF = K_USER, // key in gap a; v: which call is refused
    RK,          // element a; v: which key-changing or throwing update
    RFH, RKH,    // the same while iterators of every kind are held at every position
};
enum { F_AT, F_SUBC, F_ASG, F_UPD, F_ERA, F_SUBR, F_GET, F_ADD, F_INC, F_POSTDEC, F_ASG1, F_N };
enum { U_UPD, U_UPDK, U_UPDX, U_CHG, U_SUBKV, U_SUBKVC, U_PROXY, U_CHGNEAR, U_N };
template <class A, class = void>
struct HasPlus : std::false_type {};
template <class A>
struct HasPlus<A, std::void_t<decltype(std::declval<A&>() += 1, ++std::declval<A&>(), std::declval<A&>()--)>> : std::bool_constant<std::is_arithmetic_v<A>> {};

template <class Spec, unsigned Q>
struct RefuseWorld : World<Spec, Q, 2> {
    using W = World<Spec, Q, 2>;
    using T = typename W::T;
    using P = typename W::P;
    using V = typename W::V;
    using Inst = typename W::Inst;
    using M = std::decay_t<decltype(Spec::mapped(ME()))>;
    static constexpr bool is_set = std::is_same_v<M, V>;

    template <class F>
    static void refused(char const* what, F&& f) {
        bool thrown = false;
        {
            InLib l;
            try {
                f();
            } catch (std::exception const&) {
                thrown = true;
            } catch (Thrown const& t) {
                thrown = t.x == 42;
            }
        }
        CHECK(thrown, "%s was not refused", what);
    }

    template <class X>
    void absent(X& x, Inst& in, Op o) {
        Model const& m = in.s[o.s].m;
        uint64_t ord = o.b ? (o.a < m.size() ? m[o.a].ord - 1 : m[o.a - 1].ord + 1) : W::gap_ord(m, o.a);
        auto key = Spec::key(ord);
        ME e;
        e.id = 777;
        e.ord = ord;
        constexpr bool mut = std::is_same_v<std::decay_t<X>, T>;
        X const& c = x;
        switch (o.v) {
            case F_AT: refused("at_key of an absent key", [&] { (void)c.at_key(key); }); break;
            case F_SUBC:
                if constexpr (!Spec::indexed) refused("const subscript of an absent key", [&] { (void)c[key]; });
                break;
            case F_ASG: refused("assign_v of an absent key", [&] { Spec::with(e, 0, [&](auto&&... a) { (void)(x.assign_v(std::forward<decltype(a)>(a)...), 0); }); }); break;
            case F_ASG1: refused("assign_v of an absent key", [&] { Spec::with(e, is_set ? 1 : 2, [&](auto&&... a) { (void)(x.assign_v(std::forward<decltype(a)>(a)...), 0); }); }); break;
            case F_UPD: {
                bool called = false;
                refused("update_key of an absent key", [&] { (void)(x.update_key(key, [&](auto const&) { called = true; return Spec::mapped(e); }), 0); });
                CHECK(!called, "update_key of an absent key called the update function");
                break;
            }
            case F_ERA: refused("erase_key of an absent key", [&] { (void)(x.erase_key(key), 0); }); break;
            case F_SUBR:
                if constexpr (mut && !Spec::indexed) refused("reading the subscript of an absent key", [&] { M const& v = x[key]; (void)v; });
                break;
            case F_GET:
                if constexpr (mut && !Spec::indexed) refused("get() of the subscript of an absent key", [&] { (void)x[key].get(); });
                break;
            case F_ADD:
                if constexpr (mut && !Spec::indexed && HasPlus<M>::value && !is_set) refused("+= on the subscript of an absent key", [&] { x[key] += M(1); });
                break;
            case F_INC:
                if constexpr (mut && !Spec::indexed && HasPlus<M>::value && !is_set) refused("++ on the subscript of an absent key", [&] { ++x[key]; });
                break;
            case F_POSTDEC:
                if constexpr (mut && !Spec::indexed && HasPlus<M>::value && !is_set) refused("-- on the subscript of an absent key", [&] { x[key]--; });
                break;
        }
    }
    template <class X>
    void present(X& x, Inst& in, Op o) {
        Model const& m = in.s[o.s].m;
        constexpr bool mut = std::is_same_v<std::decay_t<X>, T>;
        ME old = m[o.a];
        auto key = Spec::key(old.ord);
        // another key: absent, in the next gap (or that of a neighbour)
        ME e;
        e.id = 777;
        e.ord = old.ord + 1;
        if (o.v == U_CHGNEAR) e.ord = m[o.a ? o.a - 1u : m.size() - 1].ord;
        switch (o.v) {
            case U_UPD:
                refused("update with a throwing function", [&] {
                    auto it = W::iter_at(x, o.a, m.size(), 0);
                    (void)(x.update(it, [&](V const&) -> V { throw Thrown{42}; }), 0);
                });
                break;
            case U_UPDK: refused("update_key with a throwing function", [&] { (void)(x.update_key(key, [&](auto const&) -> M { throw Thrown{42}; }), 0); }); break;
            case U_UPDX:
                if constexpr (Spec::indexed) refused("update_index with a throwing function", [&] { (void)(x.update_index(o.a, [&](V const&) -> V { throw Thrown{42}; }), 0); });
                break;
            case U_CHG: case U_CHGNEAR:
                if constexpr (is_set) {
                    if (m.size() > 1 || o.v == U_CHG) refused("update_key to another key", [&] { (void)(x.update_key(key, [&](auto const&) { return Spec::make(e); }), 0); });
                }
                break;
            case U_SUBKV: case U_SUBKVC:
                if constexpr (mut && !Spec::indexed && !is_set) {
                    V v = Spec::make(e);
                    if (o.v == U_SUBKV) refused("assigning an element with another key to a subscript", [&] { x[key] = v; });
                    else refused("assigning an element with another key to a subscript", [&] { x[key] = std::as_const(v); });
                    refused("assigning an element with another key to a subscript", [&] { x[key] = std::move(v); });
                }
                break;
            case U_PROXY:
                if constexpr (mut && is_set && !Spec::indexed) {
                    V v = Spec::make(e);
                    refused("assigning another key to a subscript", [&] { x[key] = v; });
                }
                break;
        }
    }
    template <class X, class F>
    void with_held(X& x, Model const& m, F&& f) {
        long n = static_cast<long>(m.size());
        std::vector<typename ItOf<X, 0>::type> a;
        std::vector<typename ItOf<X, 1>::type> b;
        std::vector<typename ItOf<X, 2>::type> c;
        std::vector<typename ItOf<X, 3>::type> d;
        for (long p = 0; p <= n; ++p) {
            a.push_back(ItOf<X, 0>::at(x, p, n, 0));
            b.push_back(ItOf<X, 1>::at(x, p, n, 0));
            c.push_back(ItOf<X, 2>::at(x, p, n, 0));
            d.push_back(ItOf<X, 3>::at(x, p, n, 0));
        }
        f();
        for (long p = 0; p <= n; ++p) {
            size_t i = static_cast<size_t>(p);
            check_iter<Spec, X, 0>(x, a[i], m, p, "held across a refused operation", false);
            check_iter<Spec, X, 1>(x, b[i], m, p, "held across a refused operation", false);
            check_iter<Spec, X, 2>(x, c[i], m, p, "held across a refused operation", false);
            check_iter<Spec, X, 3>(x, d[i], m, p, "held across a refused operation", false);
        }
    }
    void apply(Inst& in, Op o) {
        if (o.k < K_USER) return W::apply(in, o);
        auto& s = in.s[o.s];
        auto go = [&](auto& x) {
            if (o.k == RF) absent(x, in, o);
            else if (o.k == RK) present(x, in, o);
            else with_held(x, s.m, [&] { o.k == RFH ? absent(x, in, o) : present(x, in, o); });
        };
        if (s.t) go(*s.t);
        else go(*s.p);
    }
    void enabled(Inst& in, std::vector<Op>& out) {
        W::enabled(in, out);
        if (in.s[0].t && !in.s[1].p) out.push_back(W::mk(SNAP, 0, 0, 0, 0, 1));
        if (in.s[1].p) out.push_back(W::mk(DROP, 1, 0, 0, 0, 1));
        refusals(in, out, RF, RK);
    }
    void refusals(Inst& in, std::vector<Op>& out, int rf, int rk) {
        Model const& m = in.s[0].m;
        for (size_t g = 0; g <= m.size(); ++g)
            for (int v = 0; v < F_N; ++v)
                for (int b = 0; b < (m.empty() ? 1 : 2); ++b) {
                    if (b == 0 && !this->gap_ok(m, g)) continue;
                    if (b == 1 && g < m.size() && g > 0 && m[g].ord - m[g - 1].ord < 2) continue;
                    if (b == 1 && g == m.size() && m[g - 1].ord + 1 > Spec::ord_max) continue;
                    if (b == 1 && g == 0 && m[0].ord == 0) continue;
                    out.push_back(W::mk(rf, 0, static_cast<int>(g), b, v));
                }
        for (size_t i = 0; i < m.size(); ++i)
            for (int v = 0; v < U_N; ++v) {
                if (m[i].ord + 1 > Spec::ord_max) continue;
                out.push_back(W::mk(rk, 0, static_cast<int>(i), 0, v));
            }
    }
    void probes(Inst& in, std::vector<Op>& out) { refusals(in, out, RFH, RKH); }
    std::string describe(Op o) {
        static char const* f[] = {"at_key", "const subscript", "assign_v", "update_key", "erase_key", "subscript read", "subscript get", "subscript +=", "subscript ++", "subscript --", "assign_v (other form)"};
        static char const* u[] = {"throwing update(it)", "throwing update_key", "throwing update_index", "update_key to an absent key", "subscript = element with another key", "subscript = const element with another key", "subscript = other key", "update_key to a present key"};
        if (o.k == RF || o.k == RFH) return std::string(f[o.v]) + " of an absent key in gap " + std::to_string(o.a) + (o.b ? " (adjacent)" : "") + (o.k == RFH ? ", iterators held" : "");
        if (o.k == RK || o.k == RKH) return std::string(u[o.v]) + " of element " + std::to_string(o.a) + (o.k == RKH ? ", iterators held" : "");
        return W::describe(o);
    }
};
template <class Spec, unsigned Q>
void ref(std::string name, int qn, int tn, uint64_t edits, uint64_t conv, bool p, std::vector<std::vector<Op>> bases = {{}}, int qd = 99, int td = 99) {
    using W = RefuseWorld<Spec, Q>;
    new Register<W>(name, [=] {
        auto w = std::make_unique<W>();
        w->cfg.maxn = opt.thorough ? tn : qn;
        w->cfg.edits = edits;
        w->cfg.conv = conv;
        w->cfg.start_persistent = p;
        w->bases = bases;
        return w;
    }, qd, td);
}
template <class B, class S>
struct AddIdx : B {
    static constexpr bool indexed = true;
    using Size = S;
};
template <class B>
struct AddSum : B {
    static constexpr bool summed = true;
    using Sum = int;
    static Sum sum_of(typename B::Value const& v) { return static_cast<int>(v.second); }
};
constexpr unsigned Q = Q_BASE | Q_ORD;
constexpr uint64_t KE = bit(KINS) | bit(KERA) | bit(KASG) | bit(KUPD);
using PA = PairElem<IntKey<int>, int>;
using PT = PairElem<TokKey, Tok<0>>;
using PS = PairElem<StrKey, std::string>;
using SI = SetElem<IntKey<int64_t>>;
using ST = SetElem<TokKey>;
struct Init {
    Init() {
#if CFG == 0
        ref<D<PA, OrderedBuilder<>, 1, 4, 4>, Q>("int->int leaf1 inner4, mutable, snapshots", 5, 6, KE, FREEZE, false);
        ref<D<PA, OrderedBuilder<>, 1, 4, 4>, Q>("int->int leaf1 inner4, immutable", 7, 9, KE, 0, true);
#elif CFG == 1
        ref<D<PT, OrderedBuilder<>::binary_search<true>, 2, 4, 16>, Q>("tok->tok bisect leaf2 inner4, mutable, snapshots", 5, 6, KE, FREEZE, false);
        ref<D<PT, OrderedBuilder<>::binary_search<true>, 2, 4, 16>, Q>("tok->tok bisect leaf2 inner4, immutable", 7, 8, KE, 0, true);
#elif CFG == 2
        ref<D<PS, OrderedBuilder<>, 2, 4, 32>, Q>("string->string leaf2 inner4, mutable, snapshots", 4, 6, bit(KINS) | bit(KERA), FREEZE, false);
#elif CFG == 3
        ref<D<SI, OrderedBuilder<>::extractor<ValueExtractor>, 1, 4, 8>, Q>("set int64 leaf1 inner4, mutable, snapshots", 4, 6, KE, FREEZE, false);
        ref<D<SI, OrderedBuilder<>::extractor<ValueExtractor>::binary_search<true>, 3, 4, 8>, Q>("set int64 bisect leaf3 inner4, immutable", 8, 9, KE, 0, true);
#elif CFG == 4
        ref<D<ST, OrderedBuilder<>::extractor<ValueExtractor>, 2, 4, 16>, Q>("set tok leaf2 inner4, mutable, snapshots", 5, 6, KE, FREEZE, false);
#elif CFG == 5
        using B = AddIdx<AddSum<Plain<PA, typename BppTree<std::pair<int, int>, leafb<std::pair<int, int>>(2), intb(4, 16) + 8, 6>::template mixins<OrderedBuilder<>, IndexedBuilder<>, SummedBuilder<PairExtractor<1>>>>>, size_t>;
        // the aggregates too
        ref<B, Q | Q_IDX | Q_SUM>("ordered indexed summed leaf2 inner4, mutable, snapshots", 5, 6, KE | bit(UPDX), FREEZE, false);
#elif CFG == 6
        using B = AddSum<Plain<PA, typename BppTree<std::pair<int, int>, leafb<std::pair<int, int>>(1), intb(4, 8) + 8, 6>::template mixins<OrderedBuilder<>, SummedBuilder<PairExtractor<1>>>>>;
        ref<B, Q | Q_SUM>("ordered summed leaf1 inner4, mutable, snapshots", 5, 6, KE, FREEZE, false);
        ref<B, Q | Q_SUM>("ordered summed leaf1 inner4, immutable", 6, 8, KE, 0, true);
#elif CFG == 7
        ref<D<PA, OrderedBuilder<>, 1, 4, 4, 8>, Q>("int->int leaf1 inner4, deep", 99, 99, KE, FREEZE, false, grown({17}, {3}, true), 1, 2);
        ref<D<SI, OrderedBuilder<>::extractor<ValueExtractor>::binary_search<true>, 3, 4, 8, 8>, Q>("set int64 bisect leaf3 inner4, deep", 99, 99, KE, FREEZE, false, grown({28}, {3}, false), 1, 2);
#endif
    }
} init;
}
}
