// C16: arguments may refer to elements (or keys and values inside elements) of the tree being edited.
// CFGS: 8
#include "world.hpp"
#include "specs.hpp"
namespace mc {
namespace {
enum {
    A_PUSHB = K_USER, A_PUSHF, A_INS, A_ASG, A_UPD, A_ITSET, // by position
    A_INSX, A_ASGX, A_UPDX, A_SUBX,                          // by index
    A_KINS, A_KIOA, A_KASG, A_KUPD, A_KERA, A_KSUB,          // by key
    A_CKINS, A_CKIOA,                                        // by key, with the mapped value of one element as the key
    A_END
};
inline char const* arg_name(int k) {
    static char const* n[] = {"push_back", "push_front", "insert(it)", "assign(it)", "update(it)", "*it =", "insert_index", "assign_index", "update_index", "tree[i] =", "insert_v", "insert_or_assign", "assign_v", "update_key", "erase_key", "tree[key] =",
                              "insert_v with a value as the key", "insert_or_assign with a value as the key"};
    return n[k - K_USER];
}
// forms of the argument
enum { F_REF, F_PARTS, F_PIECES, F_TIE, F_PROXY, F_SUB, F_SELF, F_RSELF, NFORM };
inline char const* form_name(int f) {
    static char const* n[] = {"reference", "references to both parts", "piecewise references", "pair of references", "*it", "tree[i]", "*it of the same iterator", "*it of the same reverse iterator"};
    return n[f];
}
template <class V>
struct is_pair : std::false_type {};
template <class A, class B>
struct is_pair<std::pair<A, B>> : std::true_type {};

template <class Spec, unsigned Q>
struct ArgWorld : World<Spec, Q, 2> {
    using W = World<Spec, Q, 2>;
    using Inst = typename W::Inst;
    using V = typename Spec::Value;
    using T = typename W::T;
    static constexpr bool pairs = is_pair<V>::value;

    template <class X>
    static V const& elem(X const& x, size_t i) {
        auto it = x.cbegin();
        it += static_cast<ssize_t>(i);
        return it.get();
    }
    // calls f with element r of x as the argument(s) in the given form
    template <class X, class F>
    static decltype(auto) with(X& x, size_t r, int form, F&& f) {
        V const& e = elem(x, r);
        if constexpr (pairs) {
            if (form == F_PARTS) return f(e.first, e.second);
            if (form == F_PIECES) return f(std::piecewise_construct, std::forward_as_tuple(e.first), std::forward_as_tuple(e.second));
            if (form == F_TIE) return f(std::pair<decltype(e.first) const&, decltype(e.second) const&>(e.first, e.second));
        }
        if constexpr (std::is_same_v<X, T>) {
            if (form == F_PROXY) {
                auto it = x.begin();
                it += static_cast<ssize_t>(r);
                return f(*it);
            }
            if constexpr (Spec::indexed && !Spec::ordered) {
                if (form == F_SUB) return f(x[static_cast<typename Spec::Size>(r)]);
            }
        }
        return f(e);
    }
    static bool has_form(bool t, int form) {
        if (form == F_REF) return true;
        if (form == F_PARTS || form == F_PIECES || form == F_TIE) return pairs;
        if (form == F_PROXY) return t;
        if (form == F_SUB) return t && Spec::indexed && !Spec::ordered;
        return t;
    }
    // key from element kr (or a fresh one) and value from element mr, as an entry of the model
    static size_t place(Model const& m, uint64_t ord, bool& present) {
        size_t i = 0;
        while (i < m.size() && m[i].ord < ord) ++i;
        present = i < m.size() && m[i].ord == ord;
        return i;
    }
    void apply(Inst& in, Op o) {
        if (o.k < K_USER) return W::apply(in, o);
        auto& sl = in.s[o.s];
        Model nm = sl.m;
        size_t r = o.b & 255, r2 = o.b >> 8, n = nm.size(), a = o.a;
        ME e = n ? nm[r] : ME{};
        if (o.k <= A_SUBX) {
            if constexpr (!Spec::ordered) {
                using I = typename Spec::Size;
                switch (o.k) {
                    case A_PUSHB: nm.push_back(e); break;
                    case A_PUSHF: nm.insert(nm.begin(), e); break;
                    case A_INS: case A_INSX: if (o.v == F_RSELF) ++o.a; nm.insert(nm.begin() + o.a, e); break;
                    default: nm[o.a] = e;
                }
                this->edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                    constexpr bool isT = std::is_same_v<std::decay_t<decltype(x)>, T>;
                    using Res = std::conditional_t<isT, void, typename W::P>;
                    auto at = [&] {
                        auto it = x.begin();
                        it += static_cast<ssize_t>(a);
                        return it;
                    };
                    if (o.k == A_UPD) return x.update(at(), [&](V const&) -> V const& { return elem(x, r); });
                    if constexpr (isT) {
                        if (o.v == F_RSELF) {
                            auto it = x.rbegin();
                            it += static_cast<ssize_t>(n - 1 - r);
                            if (o.k == A_INS) return x.insert(it, *it);
                            if (o.k == A_ASG) return x.assign(it, *it);
                            *it = *it;
                            return;
                        }
                        if (o.v == F_SELF) {
                            auto it = x.begin();
                            it += static_cast<ssize_t>(r);
                            if (o.k == A_INS) return x.insert(it, *it);
                            if (o.k == A_ASG) return x.assign(it, *it);
                            *it = *it;
                            return;
                        }
                    }
                    return with(x, r, o.v, [&](auto&&... g) -> Res {
                        auto one = [&](auto&&... h) -> V const& {
                            if constexpr (sizeof...(h) == 1) return (static_cast<V const&>(h), ...);
                            else return elem(x, r);
                        };
                        (void)one;
                        switch (o.k) {
                            case A_PUSHB: return x.push_back(std::forward<decltype(g)>(g)...);
                            case A_PUSHF: return x.push_front(std::forward<decltype(g)>(g)...);
                            case A_INS: return x.insert(at(), std::forward<decltype(g)>(g)...);
                            case A_ASG: return x.assign(at(), std::forward<decltype(g)>(g)...);
                        }
                        if constexpr (isT) {
                            if constexpr (sizeof...(g) == 1) {
                                if (o.k == A_ITSET) {
                                    auto it = at();
                                    (void)((*it = std::forward<decltype(g)>(g)), ...);
                                    return;
                                }
                                if constexpr (Spec::indexed) {
                                    if (o.k == A_SUBX) {
                                        (void)((x[static_cast<I>(a)] = std::forward<decltype(g)>(g)), ...);
                                        return;
                                    }
                                }
                            }
                        }
                        if constexpr (Spec::indexed) {
                            if (o.k == A_INSX) return x.insert_index(static_cast<I>(a), std::forward<decltype(g)>(g)...);
                            if (o.k == A_ASGX) return x.assign_index(static_cast<I>(a), std::forward<decltype(g)>(g)...);
                            if (o.k == A_UPDX) return x.update_index(static_cast<I>(a), [&](V const&) -> V const& { return elem(x, r); });
                        }
                        fail("not an operation of this tree");
                    });
                });
            } else {
                fail("not an operation of this tree");
            }
        } else {
            if constexpr (Spec::ordered) {
                // a == 0xFFFF: key of element r, otherwise a fresh key in gap a; value from element r2
                bool isfresh = o.a != 0xFFFF, swapped = o.k == A_CKINS || o.k == A_CKIOA;
                uint64_t ord = isfresh ? W::gap_ord(nm, a) : swapped ? nm[r].id : nm[r].ord;
                auto freshkey = Spec::key(ord);
                ME ne = nm[r2];
                if (swapped) ne.id = static_cast<uint32_t>(nm[r2].ord);
                ne.ord = ord;
                bool present;
                size_t at = place(nm, ord, present);
                if (o.k == A_KERA) nm.erase(nm.begin() + static_cast<long>(at));
                else if (!present) nm.insert(nm.begin() + static_cast<long>(at), ne);
                else if (o.k != A_KINS && o.k != A_CKINS) nm[at] = ne;
                this->edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                    constexpr bool isT = std::is_same_v<std::decay_t<decltype(x)>, T>;
                    using Res = std::conditional_t<isT, void, typename W::P>;
                    V const& kr = elem(x, r);
                    V const& mr = elem(x, r2);
                    using K = typename Spec::K;
                    return [&]() -> Res {
                        auto call = [&](auto&&... g) -> Res {
                            switch (o.k) {
                                case A_KINS: case A_CKINS: return x.insert_v(std::forward<decltype(g)>(g)...);
                                case A_KIOA: case A_CKIOA: return x.insert_or_assign(std::forward<decltype(g)>(g)...);
                                case A_KASG: return x.assign_v(std::forward<decltype(g)>(g)...);
                            }
                            fail("not an operation of this tree");
                        };
                        if constexpr (!pairs) { // a set
                            if (o.k == A_KERA) return x.erase_key(kr);
                            if (o.k == A_KUPD) return x.update_key(kr, [&](V const&) -> V const& { return elem(x, r); });
                            if constexpr (isT) {
                                if (o.k == A_KSUB) {
                                    x[kr] = mr;
                                    return;
                                }
                                if (o.v == F_PROXY) {
                                    auto it = x.begin();
                                    it += static_cast<ssize_t>(r);
                                    return call(it.get());
                                }
                            }
                            return call(kr);
                        } else {
                            K const& key = isfresh ? freshkey : Spec::key_of(kr);
                            auto const& val = Spec::mapped_of(mr);
                            if (o.k == A_KERA) return x.erase_key(key);
                            if (o.k == A_KUPD) return x.update_key(key, [&](auto const&) -> decltype(val) { return val; });
                            if constexpr (std::is_same_v<K, std::decay_t<decltype(val)>>) {
                                if (swapped) {
                                    K const& k2 = Spec::mapped_of(kr);
                                    K const& v2 = Spec::key_of(mr);
                                    if (o.v == F_PIECES) return call(std::piecewise_construct, std::forward_as_tuple(k2), std::forward_as_tuple(v2));
                                    return call(k2, v2);
                                }
                            }
                            if constexpr (isT && !Spec::indexed) {
                                if (o.k == A_KSUB) {
                                    if (o.v == F_REF && r == r2) x[key] = kr; // whole entry
                                    else x[key] = val;
                                    return;
                                }
                            }
                            if (o.v == F_PIECES) return call(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(val));
                            if (o.v == F_PARTS) return call(key, val);
                            if constexpr (isT) {
                                if (o.v == F_PROXY) {
                                    auto it = x.begin();
                                    it += static_cast<ssize_t>(r);
                                    return call(it.get());
                                }
                            }
                            return call(kr);
                        }
                    }();
                });
            } else {
                fail("not an operation of this tree");
            }
        }
    }
    void probes(Inst& in, std::vector<Op>& out) {
        auto& sl = in.s[0];
        bool t = static_cast<bool>(sl.t);
        int n = static_cast<int>(sl.m.size()), d = t ? 0 : 1;
        bool small = n <= 8;
        if constexpr (!Spec::ordered) {
            for (int r = 0; r < n; ++r)
                for (int f = 0; f < NFORM; ++f) {
                    if (!has_form(t, f)) continue;
                    if (!small && f != F_REF && f != F_PARTS && f != F_PROXY) continue;
                    bool one = f == F_REF || f == F_PROXY || f == F_SUB;
                    if (f == F_SELF || f == F_RSELF) {
                        out.push_back(W::mk(A_INS, 0, r, r, f, d));
                        out.push_back(W::mk(A_ASG, 0, r, r, f, d));
                        out.push_back(W::mk(A_ITSET, 0, r, r, f, d));
                        continue;
                    }
                    out.push_back(W::mk(A_PUSHB, 0, 0, r, f, d));
                    out.push_back(W::mk(A_PUSHF, 0, 0, r, f, d));
                    for (int a = 0; a <= n; ++a) {
                        out.push_back(W::mk(A_INS, 0, a, r, f, d));
                        if (Spec::indexed) out.push_back(W::mk(A_INSX, 0, a, r, f, d));
                        if (a == n) continue;
                        out.push_back(W::mk(A_ASG, 0, a, r, f, d));
                        if (f == F_REF) out.push_back(W::mk(A_UPD, 0, a, r, f, d));
                        if (t && one) out.push_back(W::mk(A_ITSET, 0, a, r, f, d));
                        if (Spec::indexed) {
                            out.push_back(W::mk(A_ASGX, 0, a, r, f, d));
                            if (f == F_REF) out.push_back(W::mk(A_UPDX, 0, a, r, f, d));
                            if (t && one) out.push_back(W::mk(A_SUBX, 0, a, r, f, d));
                        }
                    }
                }
        } else {
            for (int r = 0; r < n; ++r)
                for (int r2 = 0; r2 < n; ++r2) {
                    if (!pairs && r != r2) continue;
                    int b = r | r2 << 8;
                    // the whole entry
                    if (r == r2)
                        for (int f : {int(F_REF), int(F_PROXY)}) {
                            if (f == F_PROXY && !t) continue;
                            for (int k : {A_KINS, A_KIOA, A_KASG}) out.push_back(W::mk(k, 0, 0xFFFF, b, f, d));
                            if (t && !Spec::indexed && f == F_REF) out.push_back(W::mk(A_KSUB, 0, 0xFFFF, b, f, d));
                        }
                    if (r == r2) out.push_back(W::mk(A_KERA, 0, 0xFFFF, b, 0, d));
                    out.push_back(W::mk(A_KUPD, 0, 0xFFFF, b, 0, d));
                    if (!pairs) continue;
                    for (int f : {int(F_PARTS), int(F_PIECES)}) {
                        for (int k : {A_KINS, A_KIOA, A_KASG}) out.push_back(W::mk(k, 0, 0xFFFF, b, f, d));
                        if constexpr (pairs) {
                            if constexpr (std::is_same_v<V, std::pair<Tok<1>, Tok<1>>>)
                                for (int k : {A_CKINS, A_CKIOA}) out.push_back(W::mk(k, 0, 0xFFFF, b, f, d));
                        }
                        if (r == 0)
                            for (int g = 0; g <= n; ++g)
                                if (this->gap_ok(sl.m, static_cast<size_t>(g)))
                                    for (int k : {A_KINS, A_KIOA}) out.push_back(W::mk(k, 0, g, b, f, d));
                    }
                    if (t && !Spec::indexed) {
                        out.push_back(W::mk(A_KSUB, 0, 0xFFFF, b, F_PARTS, d));
                        if (r == 0)
                            for (int g = 0; g <= n; ++g)
                                if (this->gap_ok(sl.m, static_cast<size_t>(g))) out.push_back(W::mk(A_KSUB, 0, g, b, F_PARTS, d));
                    }
                }
        }
    }
    std::string describe(Op o) {
        if (o.k < K_USER) return W::describe(o);
        char b[240];
        if (o.k <= A_SUBX) snprintf(b, sizeof b, "%s at %d, argument is element %d as %s", arg_name(o.k), o.a, o.b & 255, form_name(o.v));
        else if (o.a == 0xFFFF) snprintf(b, sizeof b, "%s, key inside element %d, value inside element %d, as %s", arg_name(o.k), o.b & 255, o.b >> 8, form_name(o.v));
        else snprintf(b, sizeof b, "%s, new key in gap %d, value inside element %d, as %s", arg_name(o.k), o.a, o.b >> 8, form_name(o.v));
        return b;
    }
};
template <class Spec, unsigned Q>
void reg_arg(std::string name, R r) {
    using W = ArgWorld<Spec, Q>;
    new Register<W>(name, [=] {
        auto w = std::make_unique<W>();
        w->cfg.maxn = opt.thorough ? r.tn : r.qn;
        w->cfg.edits = r.edits;
        w->cfg.conv = r.conv;
        w->cfg.start_persistent = r.startp;
        w->cfg.snaps = r.snaps;
        w->bases = r.bases;
        return w;
    }, r.qn ? r.qd : -1, r.td);
}
template <class E, int leaf, int inner, int dl = 6>
using D = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner), dl>::template mixins<>>;
template <class E, int leaf, int inner, int dl = 6>
using X = Idx<E, uint32_t, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, 4) + 8, dl>::template mixins<IndexedBuilder<uint32_t>>>;
struct TokVal : TokElem {
    template <class F>
    static decltype(auto) with(ME const& e, int, F&& f) { return f(make(e)); }
};
// elements that own something, with minima and maxima that are copies of them
struct ById {
    template <class V>
    static V const& get(V const& v) { return v; }
};
template <class E, int leaf, int inner, int dl = 6>
struct XM : WithMax<WithMin<Idx<E, size_t, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, 8 + 2 * sizeof(typename E::Value)) + 64, dl>::template mixins<IndexedBuilder<>, MinBuilder<>, MaxBuilder<>>>, ById>, ById> {};
// numbers with every aggregate
using NU = NumElem<Alphabet<uint8_t, 3, 0, 250>>;
template <int leaf, int inner, int dl = 6>
struct NS : WithMax<WithMin<WithSum<NU, typename BppTree<uint8_t, leafb<uint8_t>(leaf), intb(inner, 8 + 4 + 2) + 24, dl>::template mixins<IndexedBuilder<>, SummedBuilder<bpptree::detail::CastingExtractor<uint32_t>>, MinBuilder<>, MaxBuilder<>>, Whole, uint32_t>, Whole>, Whole> {
    static constexpr bool indexed = true;
};
template <class E, int leaf, int inner, bool bin = false, int dl = 6>
using O = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(typename E::K)), dl>::template mixins<typename OrderedBuilder<>::template binary_search<bin>>>;
template <class E, int leaf, int inner, bool bin = false, int dl = 6>
using OS = Plain<E, typename BppTree<typename E::Value, leafb<typename E::Value>(leaf), intb(inner, sizeof(typename E::K)), dl>::template mixins<typename OrderedBuilder<>::template extractor<ValueExtractor>::template binary_search<bin>>>;
using SameElem = PairElem<TokKey, Tok<1>>;
using StrMap = PairElem<StrKey, std::string>;
using StrSet = SetElem<StrKey>;
constexpr uint64_t E1 = bit(PUSHB) | bit(INS) | bit(ERA);
constexpr uint64_t EX = bit(INSX) | bit(ERAX), EK = bit(KINS) | bit(KERA);
}
template <>
struct Mapped<Tok<1>> {
    static Tok<1> make(uint32_t id) { return Tok<1>(id); }
    static uint32_t id(Tok<1> const& m) {
        m.usable("read an element that does not exist or was moved away");
        return m.id;
    }
};
namespace {
struct Init {
    Init() {
        std::vector<std::vector<Op>> g1 = grown({9}, {2}, true), g2 = grown({14}, {3}, true), p1 = grown({9}, {2}, false, true), p2 = grown({14}, {3}, false, true);
        (void)g1, (void)g2, (void)p1, (void)p2;
#if CFG == 0
        reg_arg<D<TokElem, 1, 4>, Q_BASE>("tok leaf1 inner4", {5, 7, E1, FREEZE});
        reg_arg<D<TokElem, 2, 4>, Q_BASE>("tok leaf2 inner4", {6, 9, E1, FREEZE});
        reg_arg<D<TokElem, 3, 4>, Q_BASE>("tok leaf3 inner4", {6, 9, E1, FREEZE});
        reg_arg<D<TokElem, 1, 4, 8>, Q_BASE>("tok leaf1 inner4, deep", {99, 99, 0, 0, false, 1, 1, g1, 0, 0});
        reg_arg<D<TokElem, 2, 4, 8>, Q_BASE>("tok leaf2 inner4, deep", {99, 99, 0, 0, false, 1, 1, g2, 0, 0});
        reg_arg<D<TokElem, 2, 4, 8>, Q_BASE>("tok leaf2 inner4, deep, immutable", {99, 99, 0, 0, true, 1, 1, p2, 0, 0});
#elif CFG == 1
        reg_arg<D<StrElem, 1, 4>, Q_BASE>("pair of string and number leaf1 inner4", {4, 6, E1, FREEZE});
        reg_arg<D<StrElem, 2, 5>, Q_BASE>("pair of string and number leaf2 inner5", {5, 8, E1, FREEZE});
        reg_arg<D<StrElem, 4, 4>, Q_BASE>("pair of string and number leaf4 inner4", {6, 10, E1, FREEZE});
#elif CFG == 2
        reg_arg<X<StrElem, 2, 4>, Q_BASE | Q_IDX>("indexed pair of string and number leaf2 inner4", {5, 8, EX, FREEZE});
        reg_arg<X<TokElem, 3, 4>, Q_BASE | Q_IDX>("indexed tok leaf3 inner4", {6, 9, EX, FREEZE});
        reg_arg<X<TokElem, 2, 4, 8>, Q_BASE | Q_IDX>("indexed tok leaf2 inner4, deep", {99, 99, 0, 0, false, 1, 1, g2, 0, 0});
#elif CFG == 3
        reg_arg<XM<TokVal, 1, 4>, Q_BASE | Q_IDX | Q_MM>("indexed min max tok leaf1 inner4", {4, 6, EX, FREEZE});
        reg_arg<XM<TokVal, 2, 4>, Q_BASE | Q_IDX | Q_MM>("indexed min max tok leaf2 inner4", {4, 7, EX, FREEZE});
#elif CFG == 4
        reg_arg<NS<1, 4>, Q_BASE | Q_IDX | Q_SUM | Q_MM>("indexed sum min max leaf1 inner4", {3, 5, EX, FREEZE});
        reg_arg<NS<2, 4>, Q_BASE | Q_IDX | Q_SUM | Q_MM>("indexed sum min max leaf2 inner4", {4, 6, EX, bit(FLAG)});
#elif CFG == 5
        reg_arg<O<SameElem, 1, 4>, Q_BASE | Q_ORD>("map from tok to tok leaf1 inner4", {4, 6, EK, FREEZE});
        reg_arg<O<SameElem, 2, 4>, Q_BASE | Q_ORD>("map from tok to tok leaf2 inner4", {5, 8, EK, FREEZE});
        reg_arg<O<SameElem, 3, 4, true>, Q_BASE | Q_ORD>("map from tok to tok, bisect, leaf3 inner4", {5, 8, EK, FREEZE});
#elif CFG == 6
        reg_arg<O<StrMap, 2, 4, true>, Q_BASE | Q_ORD>("map from string to string, bisect, leaf2 inner4", {5, 8, EK, FREEZE});
        reg_arg<O<SameElem, 1, 4, false, 8>, Q_BASE | Q_ORD>("map from tok to tok leaf1 inner4, deep", {99, 99, 0, 0, false, 1, 1, g1, 0, 0});
        reg_arg<O<SameElem, 1, 4, false, 8>, Q_BASE | Q_ORD>("map from tok to tok leaf1 inner4, deep, immutable", {99, 99, 0, 0, true, 1, 1, p1, 0, 0});
#elif CFG == 7
        reg_arg<OS<StrSet, 2, 4>, Q_BASE | Q_ORD>("set of strings leaf2 inner4", {6, 9, EK, FREEZE});
        reg_arg<OS<SetElem<TokKey>, 1, 4, true>, Q_BASE | Q_ORD>("set of tok, bisect, leaf1 inner4", {6, 8, EK, FREEZE});
        reg_arg<OS<SetElem<TokKey>, 2, 4, true, 8>, Q_BASE | Q_ORD>("set of tok, bisect, leaf2 inner4, deep", {99, 99, 0, 0, false, 1, 1, g2, 0, 0});
#endif
    }
} init;
}
}
