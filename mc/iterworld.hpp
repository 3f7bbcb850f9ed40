// One tree and a live iterator that is moved and used for edits; the iterator is part of the state.
#pragma once
#include "specs.hpp"
namespace mc {
enum ItOps : uint8_t {
    A_SET = K_USER, // place the iterator at position a (iteration order), acquired in way v
    A_INC, A_DEC, A_POST, A_ADD, A_GET, // moves; reading
    A_INS, A_ERA, A_ASG, A_UPD, A_PROXY, // edits through it
    R_INS, R_ERA,                       // edits through a temporary iterator of kind d at position a
    H_ASG, H_UPD, H_IDX, H_KEY, H_SUB,  // probes: an edit of an existing element while iterators of every kind are held at every position
    A_INSA, A_ERAA,                     // edit through it, then keep editing through it (erase again, insert again)
};

// which: 0 iterator, 1 reverse_iterator, 2 const_iterator, 3 const_reverse_iterator
template <class X, int which>
struct ItOf {
    using type = std::conditional_t<which == 0, typename X::iterator, std::conditional_t<which == 1, typename X::reverse_iterator, std::conditional_t<which == 2, typename X::const_iterator, typename X::const_reverse_iterator>>>;
    static constexpr bool rev = which & 1;
    static type first(X& x) {
        if constexpr (which == 0) return x.begin();
        else if constexpr (which == 1) return x.rbegin();
        else if constexpr (which == 2) return std::as_const(x).cbegin();
        else return std::as_const(x).crbegin();
    }
    static type last(X& x) {
        if constexpr (which == 0) return x.end();
        else if constexpr (which == 1) return x.rend();
        else if constexpr (which == 2) return std::as_const(x).cend();
        else return std::as_const(x).crend();
    }
    static type at(X& x, long p, long n, int way) {
        if (way == 1) {
            type it = last(x);
            for (long i = n; i > p; --i) --it;
            return it;
        }
        if (way == 2) {
            type it = first(x);
            it += p;
            return it;
        }
        type it = first(x);
        for (long i = 0; i < p; ++i) ++it;
        if (p < 0) --it;
        return it;
    }
};

// everything an iterator must be able to do at its position (iteration order, -1 .. n)
template <class Spec, class X, int which>
void check_iter(X& x, typename ItOf<X, which>::type const& it, Model const& m, long p, char const* what, bool jumps) {
    using O = ItOf<X, which>;
    using It = typename O::type;
    long n = static_cast<long>(m.size());
    auto elem = [&](long q) -> ME const& { return m[static_cast<size_t>(O::rev ? n - 1 - q : q)]; };
    auto same = [&](It const& i, long q, char const* how) {
        It f = O::at(x, q, n, 0);
        CHECK(i == f && f == i && !(i != f), "%s: %s from %ld: is not the iterator at position %ld of %ld", what, how, p, q, n);
        CHECK(!(i < f) && !(f < i) && i <= f && i >= f, "%s: %s from %ld: ordering against position %ld of %ld", what, how, p, q, n);
        if (q >= 0 && q < n) {
            CHECK(i.valid(), "%s: %s from %ld: not valid at %ld of %ld", what, how, p, q, n);
            CHECK(Spec::eq(i.get(), elem(q)), "%s: %s from %ld: wrong element at position %ld of %ld", what, how, p, q, n);
            CHECK(Spec::eq(*i.operator->(), elem(q)), "%s: %s from %ld: operator-> at %ld of %ld", what, how, p, q, n);
        } else {
            CHECK(!i.valid(), "%s: %s from %ld: valid at %ld of %ld", what, how, p, q, n);
        }
    };
    {
        It c(it); // copy first: reading may refresh a cached leaf
        same(c, p, "copy");
    }
    if (p < n) {
        It c(it);
        ++c;
        same(c, p + 1, "++");
    }
    if (p >= 0 && n) {
        It c(it);
        --c;
        same(c, p - 1, "--");
    }
    if (jumps && n) {
        for (long k = -n - 2; k <= n + 2; ++k) {
            long q = std::max(-1l, std::min(n, p + k));
            It c(it);
            c += k;
            same(c, q, "+=");
            It d = it - (-k);
            CHECK(d == c, "%s: - %ld from %ld of %ld differs from += %ld", what, -k, p, n, k);
        }
        for (long q = -1; q <= n; ++q) {
            It f = O::at(x, q, n, 0);
            CHECK((it == f) == (p == q) && (f == it) == (p == q), "%s: == of position %ld and %ld of %ld", what, p, q, n);
            CHECK((it < f) == (p < q) && (it > f) == (p > q) && (it <= f) == (p <= q) && (it >= f) == (p >= q), "%s: ordering of position %ld and %ld of %ld", what, p, q, n);
            if constexpr (Spec::indexed)
                if (p >= 0 && q >= 0) CHECK(it - f == p - q && f - it == q - p, "%s: difference of position %ld and %ld of %ld", what, p, q, n);
        }
    }
    if constexpr (Spec::indexed)
        if (p >= 0 && p < n) CHECK(static_cast<long>(x.order(it)) == (O::rev ? n - 1 - p : p), "%s: order() at %ld of %ld", what, p, n);
}

template <class Spec, int which>
struct IterWorld : World<Spec, 0, 1> {
    using W = World<Spec, 0, 1>;
    using T = typename W::T;
    using P = typename W::P;
    using V = typename W::V;
    using O = ItOf<T, which>;
    using It = typename O::type;
    struct Inst : W::Inst {
        Box<It> it;
        long pos = 0;
    };
    int ways = 1;

    std::unique_ptr<typename W::Inst> make_() {
        auto i = std::make_unique<Inst>();
        return i;
    }
    std::unique_ptr<Inst> make() {
        mem.err = nullptr;
        soft_err = nullptr;
        mem.live = 0;
        auto i = std::make_unique<Inst>();
        this->init(*i);
        i->it.emplace(O::first(*i->s[0].t));
        return i;
    }
    void finish(std::unique_ptr<Inst> i) {
        i->it.reset();
        W::finish(std::move(i));
    }
    static long fidx(Inst& in) {
        long n = static_cast<long>(in.s[0].m.size());
        return O::rev ? n - 1 - in.pos : in.pos;
    }
    void verify(Inst& in) {
        W::verify(in);
        check_iter<Spec, T, which>(*in.s[0].t, *in.it, in.s[0].m, in.pos, "iterator", true);
    }
    void quick(Inst& in) {
        W::quick(in);
        // the iterator's own leaf is not resolved here: whether it still is the right one is part of the canonical form
    }
    void canon(Inst& in, Canon& c) {
        Walker<Spec> w(c);
        stats.saw_depth(in.s[0].t->depth());
        w.tree(*in.s[0].t);
        c.put(static_cast<uint64_t>(in.pos + 1));
        It const& it = *in.it;
        bool seen = true;
        if constexpr (has_iter<It>::value) {
            auto f = O::at(*in.s[0].t, in.pos, static_cast<long>(in.s[0].m.size()), 0);
            c.put(it.iter == f.iter ? 0 : 0xBAD00000 + it.iter);
        } else seen = false;
        if constexpr (has_leaf<It>::value) c.put(w.id_of(it.leaf));
        else seen = false;
        if constexpr (has_modc<It>::value) c.put(std::as_const(*in.s[0].t).cbegin().mod_count == it.mod_count);
        else seen = false;
        if (!seen) check_iter<Spec, T, which>(*in.s[0].t, it, in.s[0].m, in.pos, "iterator", false);
        w.end();
    }

    template <int k, class F>
    void temp(Inst& in, long p, F&& f) {
        f(ItOf<T, k>::at(*in.s[0].t, p, static_cast<long>(in.s[0].m.size()), 2));
    }

    template <class F>
    void held(Inst& in, char const* what, F&& f) {
        T& t = *in.s[0].t;
        long n = static_cast<long>(in.s[0].m.size());
        std::tuple<std::vector<typename ItOf<T, 0>::type>, std::vector<typename ItOf<T, 1>::type>, std::vector<typename ItOf<T, 2>::type>, std::vector<typename ItOf<T, 3>::type>> h;
        for (long p = n ? -1 : 0; p <= n; ++p) {
            std::get<0>(h).push_back(ItOf<T, 0>::at(t, p, n, 0));
            std::get<1>(h).push_back(ItOf<T, 1>::at(t, p, n, 0));
            std::get<2>(h).push_back(ItOf<T, 2>::at(t, p, n, 0));
            std::get<3>(h).push_back(ItOf<T, 3>::at(t, p, n, 0));
        }
        f();
        Model const& m = in.s[0].m;
        long p = n ? -1 : 0;
        for (size_t i = 0; p <= n; ++p, ++i) {
            check_iter<Spec, T, 0>(t, std::get<0>(h)[i], m, p, what, false);
            check_iter<Spec, T, 1>(t, std::get<1>(h)[i], m, p, what, false);
            check_iter<Spec, T, 2>(t, std::get<2>(h)[i], m, p, what, false);
            check_iter<Spec, T, 3>(t, std::get<3>(h)[i], m, p, what, false);
        }
    }

    void ins(Inst& in, int alpha) {
        T& t = *in.s[0].t;
        Model& m = in.s[0].m;
        long n = static_cast<long>(m.size());
        long f = O::rev ? n - in.pos : in.pos;
        ME e = W::fresh(in, alpha, W::gap_ord(m, static_cast<size_t>(f)));
        {
            InLib l;
            Spec::with(e, 0, [&](auto&&... a) { t.insert(*in.it, std::forward<decltype(a)>(a)...); });
        }
        m.insert(m.begin() + f, e);
    }
    void era(Inst& in) {
        T& t = *in.s[0].t;
        long f = fidx(in);
        {
            InLib l;
            t.erase(*in.it);
        }
        in.s[0].m.erase(in.s[0].m.begin() + f);
    }

    void apply(Inst& in, Op o) {
        T& t = *in.s[0].t;
        Model& m = in.s[0].m;
        long n = static_cast<long>(m.size());
        It& it = *in.it;
        auto model_assign = [&](long f, int alpha) {
            ME e = W::fresh(in, alpha, m[static_cast<size_t>(f)].ord);
            m[static_cast<size_t>(f)] = e;
            return e;
        };
        switch (o.k) {
            case A_SET:
                in.pos = static_cast<long>(o.a);
                in.it.emplace(O::at(t, in.pos, n, o.v));
                break;
            case A_INC: ++it; ++in.pos; break;
            case A_DEC: --it; --in.pos; break;
            case A_POST:
                if (o.a) it++, ++in.pos;
                else it--, --in.pos;
                break;
            case A_ADD: {
                long k = static_cast<long>(o.a) - 100;
                if (o.v) it -= -k;
                else it += k;
                in.pos = std::max(-1l, std::min(n, in.pos + k));
                break;
            }
            case A_GET:
                CHECK(Spec::eq(it.get(), m[static_cast<size_t>(fidx(in))]), "the iterator at %ld of %zu reads the wrong element", in.pos, m.size());
                break;
            case A_INS: ins(in, o.b); break;
            case A_ERA: era(in); break;
            case A_INSA:
                ins(in, o.b);
                CHECK(Spec::eq(it.get(), m[static_cast<size_t>(fidx(in))]), "after inserting, the iterator at %ld of %zu reads the wrong element", in.pos, m.size());
                era(in);
                ins(in, o.b);
                break;
            case A_ERAA:
                era(in);
                if (in.pos < static_cast<long>(m.size())) {
                    CHECK(Spec::eq(it.get(), m[static_cast<size_t>(fidx(in))]), "after erasing, the iterator at %ld of %zu reads the wrong element", in.pos, m.size());
                    era(in);
                }
                ins(in, o.b);
                break;
            case A_ASG: {
                ME e = model_assign(fidx(in), o.b);
                InLib l;
                Spec::with(e, 0, [&](auto&&... a) { t.assign(it, std::forward<decltype(a)>(a)...); });
                break;
            }
            case A_UPD: {
                ME old = m[static_cast<size_t>(fidx(in))];
                ME e = model_assign(fidx(in), o.b);
                bool good = false;
                InLib l;
                t.update(it, [&](V const& v) {
                    good = Spec::eq(v, old);
                    return Spec::make(e);
                });
                CHECK(good, "update was not called with the element");
                break;
            }
            case A_PROXY:
                if constexpr (which < 2) {
                    ME e = model_assign(fidx(in), o.b);
                    InLib l;
                    *it = Spec::make(e);
                }
                break;
            case R_INS: case R_ERA: {
                bool rev = o.d & 1;
                long p = o.a;
                auto go = [&](auto tmp) {
                    InLib l;
                    if (o.k == R_INS) {
                        long f = rev ? n - p : p;
                        ME e = W::fresh(in, o.b, W::gap_ord(m, static_cast<size_t>(f)));
                        Spec::with(e, 0, [&](auto&&... a) { t.insert(std::move(tmp), std::forward<decltype(a)>(a)...); });
                        OutLib ol;
                        m.insert(m.begin() + f, e);
                    } else {
                        t.erase(std::move(tmp));
                        OutLib ol;
                        m.erase(m.begin() + (rev ? n - 1 - p : p));
                    }
                };
                if (o.d == 0) temp<0>(in, p, go);
                if (o.d == 1) temp<1>(in, p, go);
                if (o.d == 2) temp<2>(in, p, go);
                if (o.d == 3) temp<3>(in, p, go);
                in.pos = 0;
                in.it.emplace(O::first(t));
                break;
            }
            case H_ASG: held(in, "held across assign", [&] { W::apply(in, W::mk(ASG, 0, o.a, o.b)); }); break;
            case H_UPD: held(in, "held across update", [&] { W::apply(in, W::mk(UPD, 0, o.a, o.b)); }); break;
            case H_IDX: held(in, "held across an edit by index", [&] { W::apply(in, W::mk(o.v ? UPDX : ASGX, 0, o.a, o.b)); }); break;
            case H_KEY: held(in, "held across an edit by key", [&] { W::apply(in, W::mk(o.v == 0 ? KASG : o.v == 1 ? KUPD : o.v == 2 ? KIOA : KINS, 0, o.a, o.b * 2 + 1)); }); break;
            case H_SUB: held(in, "held across tree[key]=", [&] { W::apply(in, W::mk(KSUB, 0, o.a, o.b * 2 + 1)); }); break;
            case FLAG: W::apply(in, o); break;
            case BULKB: case BULKF: case BULKM: case BULKA: case THIN:
                W::apply(in, o);
                in.pos = 0;
                in.it.emplace(O::first(t));
                break;
            default: W::apply(in, o); break; // assignments and updates: the iterator stays
        }
    }

    void enabled(Inst& in, std::vector<Op>& out) {
        Model const& m = in.s[0].m;
        long n = static_cast<long>(m.size());
        auto mk = [&](int k, long a = 0, int b = 0, int v = 0) { out.push_back(W::mk(k, 0, static_cast<int>(a), b, v)); };
        int NA = Spec::nalpha;
        for (long p = 0; p <= n; ++p)
            for (int w = 0; w < ways; ++w)
                if (p != in.pos || w || n == 0) mk(A_SET, p, 0, w);
        bool in_range = in.pos >= 0 && in.pos < n;
        if (in.pos < n) mk(A_INC), mk(A_POST, 1);
        if (n && in.pos >= 0) mk(A_DEC), mk(A_POST, 0);
        if (n)
            for (long k : {-3l, -2l, 2l, 3l, -n - 1, n + 1}) mk(A_ADD, 100 + k, 0, k & 1);
        if (in_range) {
            mk(A_GET);
            mk(A_ERA);
            for (int b = 0; b < NA; ++b) {
                mk(A_ASG, 0, b);
                if (which < 2) mk(A_PROXY, 0, b);
                mk(A_UPD, 0, b);
                mk(A_ERAA, 0, b);
            }
        }
        long f = O::rev ? n - in.pos : in.pos;
        if (n < this->cfg.maxn && in.pos >= 0 && this->gap_ok(m, static_cast<size_t>(f)))
            for (int b = 0; b < NA; ++b) mk(A_INS, 0, b), mk(A_INSA, 0, b);
        // edits of existing elements by other means; the iterator stays
        for (long p = 0; p < n; ++p) {
            mk(ASG, p, 0);
            if constexpr (Spec::indexed) mk(ASGX, p, NA - 1);
            if constexpr (Spec::ordered) mk(KASG, p, 1), mk(KIOA, p, 1);
        }
        mk(FLAG);
    }
    void probes(Inst& in, std::vector<Op>& out) {
        Model const& m = in.s[0].m;
        long n = static_cast<long>(m.size());
        auto mk = [&](int k, long a, int b, int v = 0, int d = 0) { out.push_back(W::mk(k, 0, static_cast<int>(a), b, v, d)); };
        for (long p = 0; p < n; ++p) {
            mk(H_ASG, p, 0);
            mk(H_UPD, p, 0);
            if constexpr (Spec::indexed) mk(H_IDX, p, 0, 0), mk(H_IDX, p, 0, 1);
            if constexpr (Spec::ordered) {
                for (int v = 0; v < 4; ++v) mk(H_KEY, p, 0, v);
                mk(H_SUB, p, 0);
            }
        }
        if (in.pos == 0)
            for (int d = 0; d < 4; ++d)
                for (long p = 0; p <= n; ++p) {
                    if (this->gap_ok(m, static_cast<size_t>(d & 1 ? n - p : p))) mk(R_INS, p, 0, 0, d);
                    if (p < n) mk(R_ERA, p, 0, 0, d);
                }
    }
    std::string describe(Op o) {
        static char const* n[] = {"iterator := position", "++it", "--it", "it++/it--", "it += k (a-100)", "read *it", "insert(it)", "erase(it)", "assign(it)", "update(it)", "*it = value",
                                  "insert(temporary)", "erase(temporary)", "assign, iterators held everywhere", "update, iterators held everywhere", "edit by index, iterators held everywhere",
                                  "edit by key, iterators held everywhere", "tree[key]=, iterators held everywhere", "insert(it), erase(it), insert(it)", "erase(it), erase(it), insert(it)"};
        if (o.k < K_USER) return W::describe(o);
        return std::string(n[o.k - K_USER]) + " a=" + std::to_string(o.a) + " b=" + std::to_string(o.b) + " v=" + std::to_string(o.v) + " d=" + std::to_string(o.d);
    }
};

// immutable trees: inserting, erasing, assigning and updating at iterators of every kind
template <class Spec>
struct PIterWorld : World<Spec, 0, 2> {
    using W = World<Spec, 0, 2>;
    using P = typename W::P;
    using V = typename W::V;
    using Inst = typename W::Inst;
    enum { PI = K_USER, PE, PA, PU };
    template <int k>
    void go(Inst& in, Op o) {
        P& src = *in.s[0].p;
        Model nm = in.s[0].m;
        long n = static_cast<long>(nm.size()), p = o.a;
        constexpr bool rev = k & 1;
        // iterators everywhere, to be used after the edit
        std::vector<typename ItOf<P, k>::type> held;
        for (long q = n ? -1 : 0; q <= n; ++q) held.push_back(ItOf<P, k>::at(src, q, n, 0));
        auto it = ItOf<P, k>::at(src, p, n, o.v);
        long f = o.k == PI ? (rev ? n - p : p) : (rev ? n - 1 - p : p);
        Box<P> r;
        if (o.k == PI) {
            ME e = W::fresh(in, o.b, W::gap_ord(nm, static_cast<size_t>(f)));
            nm.insert(nm.begin() + f, e);
            r.build([&] { return Spec::with(e, 0, [&](auto&&... a) { return src.insert(it, std::forward<decltype(a)>(a)...); }); });
        } else if (o.k == PE) {
            nm.erase(nm.begin() + f);
            r.build([&] { return src.erase(it); });
        } else {
            ME old = nm[static_cast<size_t>(f)], e = W::fresh(in, o.b, old.ord);
            nm[static_cast<size_t>(f)] = e;
            if (o.k == PA) r.build([&] { return Spec::with(e, 0, [&](auto&&... a) { return src.assign(it, std::forward<decltype(a)>(a)...); }); });
            else {
                bool good = false;
                r.build([&] {
                    return src.update(it, [&](V const& v) {
                        good = Spec::eq(v, old);
                        return Spec::make(e);
                    });
                });
                CHECK(good, "update was not called with the element");
            }
        }
        check_iter<Spec, P, k>(src, it, in.s[0].m, p, "iterator of an immutable tree after it was edited", true);
        for (size_t i = 0; i < held.size(); ++i) check_iter<Spec, P, k>(src, held[i], in.s[0].m, static_cast<long>(i) - (n ? 1 : 0), "iterator of an immutable tree", false);
        Verify<Spec, Q_BASE, P>::run(src, in.s[0].m);
        std::swap(r.p, in.s[0].p.p);
        in.s[0].m = nm;
    }
    void apply(Inst& in, Op o) {
        if (o.k < K_USER) return W::apply(in, o);
        if (o.d == 0) go<0>(in, o);
        if (o.d == 1) go<1>(in, o);
        if (o.d == 2) go<2>(in, o);
        if (o.d == 3) go<3>(in, o);
    }
    void verify(Inst& in) {
        for (auto& s : in.s)
            if (s.p) Verify<Spec, Q_BASE, P>::run(*s.p, s.m);
    }
    void enabled(Inst& in, std::vector<Op>& out) {
        Model const& m = in.s[0].m;
        long n = static_cast<long>(m.size());
        for (int d : {0, 1, 2, 3})
            for (long p = 0; p <= n; ++p)
                for (int w = 0; w < this->cfg.ways; ++w) {
                    if (n < this->cfg.maxn && this->gap_ok(m, static_cast<size_t>(d & 1 ? n - p : p))) out.push_back(W::mk(PI, 0, static_cast<int>(p), 0, w, d));
                    if (p < n) {
                        out.push_back(W::mk(PE, 0, static_cast<int>(p), 0, w, d));
                        out.push_back(W::mk(PA, 0, static_cast<int>(p), 0, w, d));
                        out.push_back(W::mk(PU, 0, static_cast<int>(p), 0, w, d));
                    }
                }
    }
    void probes(Inst&, std::vector<Op>&) {}
    std::string describe(Op o) {
        if (o.k < K_USER) return W::describe(o);
        static char const* n[] = {"insert", "erase", "assign", "update"};
        static char const* ks[] = {"iterator", "reverse_iterator", "const_iterator", "const_reverse_iterator"};
        return std::string("immutable ") + n[o.k - K_USER] + " at " + ks[o.d] + " position " + std::to_string(o.a) + " way " + std::to_string(o.v);
    }
};

template <class Spec, int which>
void reg_iter(std::string name, int qn, int tn, std::vector<std::vector<Op>> bases = {{}}, int qd = 99, int td = 99, int ways = 1) {
    using W = IterWorld<Spec, which>;
    static char const* ks[] = {"iterator", "reverse_iterator", "const_iterator", "const_reverse_iterator"};
    new Register<W>(name + ", " + ks[which], [=] {
        auto w = std::make_unique<W>();
        w->cfg.maxn = opt.thorough ? tn : qn;
        w->bases = bases;
        w->ways = ways;
        return w;
    }, qn ? qd : -1, td);
}
template <class Spec>
void reg_piter(std::string name, int qn, int tn, int ways = 3, std::vector<std::vector<Op>> bases = {{}}, int qd = 99, int td = 99) {
    using W = PIterWorld<Spec>;
    new Register<W>(name + ", immutable, edits at iterators of all kinds", [=] {
        auto w = std::make_unique<W>();
        w->cfg.maxn = opt.thorough ? tn : qn;
        w->cfg.start_persistent = true;
        w->cfg.ways = ways;
        w->bases = bases;
        return w;
    }, qn ? qd : -1, td);
}
}
