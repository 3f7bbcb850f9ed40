// C21: exceeding the depth limit is refused without losing data.
// CFGS: 8
#include "iterworld.hpp"
#include <stdexcept>
namespace mc {
namespace {
enum : uint8_t {
    FILL = K_USER, // append until the tree refuses, with a snapshot taken every o.a appends (0: never)
    HELD,          // insert through an iterator at position a, which is looked at afterwards; v: 0 forward, 1 reverse
    TRY,           // an edit that is expected to be refused (or not) in every state: a = position, v = which
};
enum { T_PUSHB, T_PUSHF, T_EMPB, T_EMPF, T_INS, T_INSX, T_KINS, T_KIOA, T_KSUB, T_KPRES, T_N };

// which nodes on the way to an element are full
struct Room {
    struct Leaf {
        size_t first, count;
        bool full; // the leaf and all nodes above it
    };
    std::vector<Leaf> leaves;
    size_t n = 0;
    bool known = false;
    template <class N>
    void node(N const* p, bool above) {
        if constexpr (has_length<N>::value) {
            if constexpr (has_pointers<N>::value) {
                constexpr size_t cap = sizeof(p->pointers) / sizeof(p->pointers[0]);
                for (size_t i = 0; i < p->length; ++i) node(p->pointers[i].operator->(), above && p->length == cap);
            } else if constexpr (has_values<N>::value) {
                constexpr size_t cap = sizeof(p->values) / sizeof(typename std::decay_t<decltype(p->values[0])>);
                leaves.push_back({n, static_cast<size_t>(p->length), above && p->length == cap});
                n += p->length;
            }
        }
    }
    template <class T>
    explicit Room(T const& t) {
        if constexpr (PeekTree<T>::ok) {
            std::visit([&](auto const& r) { node(r.operator->(), true); }, PeekTree<T>::root(t, 0));
            known = n == t.size() && !leaves.empty();
        }
    }
    // may an insertion in front of element at be refused? at a boundary it may be made at either side
    bool refusable(size_t at) const {
        for (auto const& l : leaves)
            if (l.full && at >= l.first && at <= l.first + l.count) return true;
        return false;
    }
    // must it be refused?
    bool hopeless(size_t at) const {
        for (auto const& l : leaves)
            if (!l.full && at >= l.first && at <= l.first + l.count) return false;
        return true;
    }
};

template <class Spec, unsigned Q, size_t maxsize, int maxdepth>
struct DepthWorld : World<Spec, Q, 3> {
    using W = World<Spec, Q, 3>;
    using T = typename W::T;
    using P = typename W::P;
    using V = typename W::V;
    using Inst = typename W::Inst;

    // slot 0: the tree; slot 1: immutable, related; slot 2: result of an immutable edit
    template <class F>
    bool refused(F&& f) {
        try {
            f();
        } catch (std::exception const&) {
            return true;
        }
        return false;
    }
    template <class X>
    static bool is_t() { return std::is_same_v<std::decay_t<X>, T>; }

    template <class F>
    void with_tree(Inst& in, int s, F&& f) {
        if (in.s[s].t) f(*in.s[s].t);
        else f(*in.s[s].p);
    }
    static size_t at_of(Op o, Model const& m) {
        switch (o.k) {
            case PUSHB: return m.size();
            case PUSHF: return 0;
            default: return o.a;
        }
    }
    static bool inserts(Op o) {
        switch (o.k) {
            case PUSHB: case PUSHF: case INS: case INSX: return true;
            case KINS: case KIOA: case KSUB: return !(o.b & 1);
        }
        return false;
    }
    // every insertion is tried; what the tree did has to be what it was allowed to do
    template <class F>
    void attempt(Inst& in, int s, size_t at, char const* what, F&& f) {
        size_t n = in.s[s].m.size();
        bool may = true, must = false, known = false;
        with_tree(in, s, [&](auto& x) {
            Room r(x);
            known = r.known;
            if (known) {
                bool deepest = x.depth() >= x.max_depth();
                may = deepest && r.refusable(at);
                must = deepest && r.hopeless(at);
            }
        });
        bool no = refused(f);
        if (no) {
            CHECK(may, "%s at %zu of %zu elements was refused although there is room", what, at, n);
            CHECK(known || n > 0, "%s into an empty tree was refused", what);
        } else {
            CHECK(!must, "%s at %zu of %zu elements was not refused although the depth limit is reached", what, at, n);
        }
        with_tree(in, s, [&](auto& x) { CHECK(x.depth() <= static_cast<size_t>(maxdepth) && x.size() <= maxsize, "the tree has %zu elements and depth %zu", x.size(), x.depth()); });
        (void)no;
    }
    void apply(Inst& in, Op o) {
        if (o.k < K_USER) {
            if (o.k >= BULKB) return W::apply(in, o);
            if (!inserts(o)) return W::apply(in, o);
            // an immutable edit stores its result in slot d only if it succeeds
            attempt(in, o.s, at_of(o, in.s[o.s].m), kind_name(o.k), [&] { W::apply(in, o); });
            return;
        }
        switch (o.k) {
            case FILL: {
                CHECK(in.s[o.s].m.empty(), "not empty");
                Model& m = in.s[o.s].m;
                if constexpr (Spec::ordered) (void)0;
                for (size_t i = 0;; ++i) {
                    ME e = W::fresh(in, static_cast<int>(i % static_cast<size_t>(Spec::nalpha)), Spec::ord_max / (maxsize + 4) * (i + 1));
                    if (o.a && i && i % o.a == 0) {
                        if (in.s[o.s].t) W::apply(in, W::mk(SNAP, o.s, 0, 0, 0, 1));
                        else {
                            in.s[1].p.emplace(std::as_const(*in.s[o.s].p));
                            in.s[1].m = m;
                        }
                    }
                    Model nm = m;
                    nm.push_back(e);
                    bool no = refused([&] {
                        this->edit(in, o.s, o.s, std::move(nm), [&](auto& x) {
                            // keys too are inserted at the back
                            if constexpr (Spec::ordered) {
                                if (o.v) return x.insert_v(Spec::make(e));
                            }
                            return x.push_back(Spec::make(e));
                        });
                    });
                    if (no) {
                        CHECK(i == maxsize, "appending element %zu is refused, the maximum size is %zu", i, maxsize);
                        break;
                    }
                    CHECK(i < maxsize, "appending element %zu is not refused, the maximum size is %zu", i, maxsize);
                }
                with_tree(in, o.s, [&](auto& x) {
                    CHECK(x.max_size() == maxsize && x.size() == maxsize, "max_size() is %zu and size() is %zu instead of %zu", x.max_size(), x.size(), maxsize);
                    CHECK(x.max_depth() == maxdepth && x.depth() == maxdepth, "max_depth() is %zu and depth() is %zu instead of %d", x.max_depth(), x.depth(), maxdepth);
                });
                break;
            }
            case HELD: {
                Model nm = in.s[o.s].m;
                size_t n = nm.size();
                ME e = W::fresh(in, 0, W::gap_ord(nm, o.a));
                if (!in.s[o.s].t) {
                    // iterators of an immutable tree are never moved by an edit
                    P& x = *in.s[o.s].p;
                    auto it = x.cbegin();
                    it += static_cast<ssize_t>(o.a);
                    attempt(in, o.s, o.a, "insert(it)", [&] {
                        Box<P> r;
                        r.build([&] { return std::as_const(x).insert(it, Spec::make(e)); });
                        std::swap(r.p, in.s[2].p.p);
                        in.s[2].m = nm;
                        in.s[2].m.insert(in.s[2].m.begin() + o.a, e);
                    });
                    look<false>(x, it, o.a, in.s[o.s].m);
                    break;
                }
                T& x = *in.s[o.s].t;
                auto others = hold(x, n);
                if (o.v == 0) {
                    auto it = x.begin();
                    it += static_cast<ssize_t>(o.a);
                    bool done = false;
                    attempt(in, o.s, o.a, "insert(it)", [&] {
                        InLib l;
                        x.insert(it, Spec::make(e));
                        done = true;
                    });
                    if (done) in.s[o.s].m.insert(in.s[o.s].m.begin() + o.a, e);
                    else check_held(x, others, in.s[o.s].m);
                    look<false>(x, it, o.a, in.s[o.s].m);
                } else {
                    // reverse iterator which refers to element a: an insertion through it is made in front of it in its own direction
                    auto it = x.rbegin();
                    it += static_cast<ssize_t>(n - 1 - o.a);
                    bool done = false;
                    try {
                        InLib l;
                        x.insert(it, Spec::make(e));
                        done = true;
                    } catch (std::exception const&) {
                    }
                    if (done) {
                        size_t at = 0;
                        auto i = std::as_const(x).cbegin();
                        while (at <= n && !Spec::eq(i.get(), e)) ++at, ++i;
                        CHECK(at == o.a || at == o.a + 1u, "insert through a reverse iterator at %u put the element at %zu", o.a, at);
                        in.s[o.s].m.insert(in.s[o.s].m.begin() + static_cast<long>(at), e);
                    } else {
                        CHECK(x.depth() >= static_cast<size_t>(maxdepth), "insert through a reverse iterator was refused at depth %zu", x.depth());
                        check_held(x, others, in.s[o.s].m);
                        look<true>(x, it, o.a, in.s[o.s].m);
                    }
                }
                break;
            }
            case TRY: {
                Model nm = in.s[o.s].m;
                size_t n = nm.size(), at = o.v == T_PUSHB || o.v == T_EMPB ? n : o.v == T_PUSHF || o.v == T_EMPF ? 0 : o.a;
                ME e = W::fresh(in, 0, W::gap_ord(nm, at));
                nm.insert(nm.begin() + static_cast<long>(at), e);
                auto key = Spec::make(e);
                attempt(in, o.s, at, "insertion", [&] {
                    this->edit(in, o.s, in.s[o.s].t ? o.s : 2, std::move(nm), [&](auto& x) {
                        switch (o.v) {
                            case T_EMPB: return x.emplace_back(Spec::make(e));
                            case T_EMPF: return x.emplace_front(Spec::make(e));
                        }
                        return x.push_back(Spec::make(e));
                    });
                });
                break;
            }
        }
    }
    // iterators of every kind at every position, taken before the edit
    struct Held {
        std::vector<typename T::iterator> f;
        std::vector<typename T::reverse_iterator> r;
    };
    static Held hold(T& x, size_t n) {
        Held h;
        for (size_t i = 0; i <= n; ++i) {
            h.f.push_back(x.begin());
            h.f.back() += static_cast<ssize_t>(i);
            h.r.push_back(x.rbegin());
            h.r.back() += static_cast<ssize_t>(i);
        }
        return h;
    }
    static void check_held(T& x, Held const& h, Model const& m) {
        size_t n = m.size();
        for (size_t i = 0; i <= n; ++i) {
            if (i < n) {
                CHECK(h.f[i].valid() && Spec::eq(h.f[i].get(), m[i]), "an iterator at %zu of %zu does not survive a refused insertion", i, n);
                CHECK(h.r[i].valid() && Spec::eq(h.r[i].get(), m[n - 1 - i]), "a reverse iterator at %zu of %zu does not survive a refused insertion", i, n);
            } else {
                CHECK(h.f[i] == x.end(), "the end iterator does not survive a refused insertion (%zu elements)", n);
            }
        }
    }
    template <bool rev, class X, class It>
    static void look(X& x, It it, size_t at, Model const& m) {
        size_t n = m.size();
        if (at == n) {
            CHECK(it == x.end(), "after the insertion the iterator at %zu of %zu is not the end", at, n);
        } else {
            CHECK(Spec::eq(it.get(), m[at]), "after the insertion the iterator at %zu of %zu refers to the wrong element", at, n);
        }
        It k = it;
        if (rev) {
            for (size_t i = at; i-- > 0;) {
                ++k;
                CHECK(Spec::eq(k.get(), m[i]), "moving on from %zu of %zu leads to the wrong element", at, n);
            }
        } else {
            for (size_t i = at + 1; i < n; ++i) {
                ++k;
                CHECK(Spec::eq(k.get(), m[i]), "moving on from %zu of %zu leads to the wrong element", at, n);
            }
            for (size_t i = at; i-- > 0;) {
                --it;
                CHECK(Spec::eq(it.get(), m[i]), "moving back from %zu of %zu leads to the wrong element", at, n);
            }
        }
    }
    void enabled(Inst& in, std::vector<Op>& out) {
        bool t = static_cast<bool>(in.s[0].t);
        auto has = [&](int k) { return (this->cfg.conv >> k) & 1; };
        if (in.s[0].m.empty() && !in.s[1].p && (this->cfg.probe & 1)) {
            for (int k : {0, 1, 3})
                for (int v = 0; v < (Spec::ordered ? 2 : 1); ++v) out.push_back(W::mk(FILL, 0, k, 0, v));
        }
        if (opt.thorough || in.s[0].m.size() <= static_cast<size_t>(this->cfg.maxn)) this->edits(in, out, this->cfg.edits, 0, 0, 9999);
        if (t && has(SNAP) && !in.s[1].p) out.push_back(W::mk(SNAP, 0, 0, 0, 0, 1));
        if (t && has(FLAG)) out.push_back(W::mk(FLAG, 0, 0, 0));
        if (in.s[1].p && has(DROP)) out.push_back(W::mk(DROP, 1, 0, 0));
        if (t && has(TOP)) out.push_back(W::mk(TOP, 0, 0, 0));
        if (!t && has(TOT)) out.push_back(W::mk(TOT, 0, 0, 0));
    }
    void probes(Inst& in, std::vector<Op>& out) {
        int n = static_cast<int>(in.s[0].m.size());
        bool t = static_cast<bool>(in.s[0].t);
        for (int v : {T_EMPB, T_EMPF})
            if (this->gap_ok(in.s[0].m, v == T_EMPB ? static_cast<size_t>(n) : 0)) out.push_back(W::mk(TRY, 0, 0, 0, v));
        for (int a = 0; a <= n; ++a) {
            if (!this->gap_ok(in.s[0].m, static_cast<size_t>(a))) continue;
            out.push_back(W::mk(HELD, 0, a, 0, 0));
            if (t && a < n && !Spec::ordered) out.push_back(W::mk(HELD, 0, a, 0, 1));
        }
        // the edits that are not explored further
        if (this->cfg.probe & ~1ull) this->edits(in, out, this->cfg.probe & ~1ull, 0, t ? 0 : 2, 9999);
    }
    std::string describe(Op o) {
        char b[120];
        if (o.k == FILL) snprintf(b, sizeof b, "append until refused, snapshot after every %d", o.a);
        else if (o.k == HELD) snprintf(b, sizeof b, "insert through %s iterator at %d", o.v ? "a reverse" : "an", o.a);
        else if (o.k == TRY) snprintf(b, sizeof b, "%s", o.v == T_EMPB ? "emplace_back" : "emplace_front");
        else return W::describe(o);
        return b;
    }
};
// leaf and inner: the capacities
constexpr size_t power(size_t a, int b) { return b ? a * power(a, b - 1) : 1; }
template <class Spec, unsigned Q, int leaf, int inner, int depth>
void reg_depth(std::string name, R r) {
    using W = DepthWorld<Spec, Q, leaf * power(inner, depth - 1), depth>;
    new Register<W>(name, [=] {
        auto w = std::make_unique<W>();
        w->cfg.maxn = opt.thorough ? r.tn : r.qn;
        w->cfg.edits = r.edits;
        w->cfg.conv = r.conv;
        w->cfg.probe = r.probe | (r.startp && 0);
        w->cfg.start_persistent = r.startp;
        w->bases = r.bases;
        return w;
    }, r.qn ? r.qd : -1, r.td);
}
template <class E, int leaf, int inner, int dl>
using D = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner), dl>::template mixins<>>;
template <class E, int leaf, int inner, int dl>
using X = Idx<E, uint32_t, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), ((intb(inner, 4) + 7) & ~7), dl>::template mixins<IndexedBuilder<uint32_t>>>;
template <class E, int leaf, int inner, int dl, bool bin = false>
using O = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), ((intb(inner, sizeof(typename E::K)) + 7) & ~7), dl>::template mixins<typename OrderedBuilder<>::template binary_search<bin>>>;
using AE = PairElem<IntKey<int>, int>;
// leaf1 inner4
template <int leaf, int dl>
struct All : WithMax<WithMin<WithSum<AE, typename BppTree<std::pair<int, int>, leafb<std::pair<int, int>>(leaf), intb(4, 4 + 4 + 8 + 4 + 4) + 8, dl>::template mixins<OrderedBuilder<>, IndexedBuilder<uint32_t>, SummedBuilder<PairExtractor<1>>, MinBuilder<PairExtractor<1>>, MaxBuilder<PairExtractor<1>>>, Second, int>, Second>, Second> {
    static constexpr bool indexed = true;
    using Size = uint32_t;
};
constexpr uint64_t ED = bit(PUSHB) | bit(PUSHF) | bit(INS) | bit(ERA);
constexpr uint64_t EX = bit(PUSHB) | bit(INSX) | bit(ERAX);
constexpr uint64_t EK = bit(KINS) | bit(KERA);
constexpr uint64_t F = 1; // FILL
constexpr uint64_t CV = bit(SNAP) | bit(DROP) | bit(FLAG);
std::vector<std::vector<Op>> fills(bool p, std::vector<std::pair<int, int>> thin) {
    std::vector<std::vector<Op>> r;
    for (int k : {0, 1, 3}) {
        std::vector<Op> f{op(FILL, k)};
        (void)p;
        r.push_back(f);
        for (auto [t, rem] : thin) {
            auto g = f;
            g.push_back(op(THIN, t, rem));
            r.push_back(g);
        }
    }
    return r;
}
struct Init {
    Init() {
#if CFG == 0
        reg_depth<D<TokElem, 1, 4, 1>, Q_BASE, 1, 4, 1>("tok leaf1, depth 1", {99, 99, ED | bit(CLEAR), CV | bit(TOP) | bit(TOT), false, 1, 1, {{}}, 99, 99, F});
        reg_depth<D<TokElem, 3, 4, 1>, Q_BASE, 3, 4, 1>("tok leaf3, depth 1", {99, 99, ED | bit(CLEAR), CV | bit(TOP) | bit(TOT), false, 1, 1, {{}}, 99, 99, F});
        reg_depth<D<TokElem, 1, 4, 2>, Q_BASE, 1, 4, 2>("tok leaf1 inner4, depth 2", {99, 99, ED | bit(CLEAR), CV | bit(TOP) | bit(TOT), false, 1, 1, {{}}, 99, 99, F});
        reg_depth<D<TokElem, 2, 4, 2>, Q_BASE, 2, 4, 2>("tok leaf2 inner4, depth 2", {99, 99, ED | bit(CLEAR), CV | bit(TOP) | bit(TOT), false, 1, 1, {{}}, 99, 99, F});
        reg_depth<D<TokElem, 2, 4, 2>, Q_BASE, 2, 4, 2>("tok leaf2 inner4, depth 2, immutable", {99, 99, ED, 0, true, 1, 1, {{}}, 99, 99, F});
#elif CFG == 1
        reg_depth<X<TokElem, 3, 5, 2>, Q_BASE | Q_IDX, 3, 5, 2>("indexed tok leaf3 inner5, depth 2", {15, 15, EX, bit(FLAG), false, 1, 1, {{}}, 99, 99, F});
#elif CFG == 2
        reg_depth<O<PairElem<TokKey, Tok<0>>, 2, 4, 2>, Q_BASE | Q_ORD, 2, 4, 2>("map leaf2 inner4, depth 2", {99, 99, EK, CV, false, 1, 1, {{}}, 99, 99, F | bit(KIOA) | bit(KSUB)});
        reg_depth<O<PairElem<StrKey, std::string>, 2, 5, 2, true>, Q_BASE | Q_ORD, 2, 5, 2>("map of strings, bisect, leaf2 inner5, depth 2", {99, 99, EK, bit(FLAG), false, 1, 1, {{}}, 99, 99, F | bit(KIOA) | bit(KSUB)});
#elif CFG == 3
        reg_depth<All<2, 2>, Q_BASE | Q_IDX | Q_ORD | Q_SUM | Q_MM, 2, 4, 2>("all mixins leaf2 inner4, depth 2", {99, 99, EK, CV, false, 1, 1, {{}}, 99, 99, F | bit(KIOA) | bit(INSX) | bit(PUSHB) | bit(PUSHF)});
#elif CFG == 4
        reg_depth<D<IntElem, 1, 4, 3>, Q_BASE, 1, 4, 3>("int leaf1 inner4, depth 3", {9, 16, bit(INS) | bit(ERA), bit(FLAG), false, 1, 1, {{}}, 99, 99, F | bit(PUSHB) | bit(PUSHF)});
#elif CFG == 5
        reg_depth<D<IntElem, 1, 4, 3>, Q_BASE, 1, 4, 3>("int leaf1 inner4, depth 3, from full", {99, 99, bit(PUSHB) | bit(INS) | bit(ERA), bit(FLAG), false, 1, 1, fills(false, {{2, 0}, {3, 1}, {4, 3}, {5, 0}}), 3, 5, F | bit(PUSHF)});
        reg_depth<X<IntElem, 2, 4, 3>, Q_BASE | Q_IDX, 2, 4, 3>("indexed int leaf2 inner4, depth 3, from full", {99, 99, EX, bit(FLAG), false, 1, 1, fills(false, {{2, 0}, {3, 1}, {7, 3}}), 2, 4, F | bit(PUSHF) | bit(INS)});
#elif CFG == 6
        reg_depth<All<1, 3>, Q_BASE | Q_IDX | Q_ORD | Q_SUM | Q_MM, 1, 4, 3>("all mixins leaf1 inner4, depth 3, from full", {99, 99, EK, bit(FLAG), false, 1, 1, fills(false, {{2, 0}, {3, 1}, {7, 3}}), 1, 3, F | bit(KIOA) | bit(INSX) | bit(PUSHB) | bit(PUSHF)});
        reg_depth<D<TokElem, 1, 4, 4>, Q_BASE, 1, 4, 4>("tok leaf1 inner4, depth 4, immutable, from full", {99, 99, bit(PUSHB) | bit(INS) | bit(ERA), 0, true, 1, 1, fills(true, {{2, 0}, {3, 1}}), 1, 2, F});
#elif CFG == 7
        // larger nodes and deeper trees, filled to the brim
        reg_depth<D<IntElem, 7, 5, 4>, Q_BASE, 7, 5, 4>("int leaf7 inner5, depth 4, filled", {99, 99, 0, 0, false, 1, 1, fills(false, {{2, 0}, {9, 1}}), 0, 0, 0});
        reg_depth<O<AE, 3, 8, 3>, Q_BASE | Q_ORD, 3, 8, 3>("map leaf3 inner8, depth 3, filled", {99, 99, 0, 0, false, 1, 1, fills(false, {{2, 0}, {9, 1}}), 0, 0, bit(KINS)});
        reg_depth<D<IntElem, 1, 4, 6>, Q_BASE, 1, 4, 6>("int leaf1 inner4, depth 6, filled", {0, 99, 0, 0, false, 1, 1, {{op(FILL, 0)}, {op(FILL, 5), op(THIN, 9, 1)}}, 0, 0, 0});
        reg_depth<D<IntElem, 1, 4, 6>, Q_BASE, 1, 4, 6>("int leaf1 inner4, depth 6, immutable, filled", {99, 99, 0, 0, true, 1, 1, {{op(FILL, 0)}, {op(FILL, 100), op(THIN, 9, 1)}}, 0, 0, 0});
#endif
    }
} init;
}
}
