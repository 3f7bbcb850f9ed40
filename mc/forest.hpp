// Several related trees alive at once: every kind of conversion, copy, move, assignment and edit between them.
// Slots are interchangeable, so states that differ only in the order of the slots are the same state.
#pragma once
#include "iterworld.hpp"
#include <set>
namespace mc {
enum { F_REASSIGN = K_USER };
template <class Spec, unsigned Q, int NS_>
struct Forest : World<Spec, Q, NS_> {
    using W = World<Spec, Q, NS_>;
    using T = typename W::T;
    using P = typename W::P;
    static constexpr int NS = NS_;
    struct Held {
        P const* p = nullptr;
        std::vector<typename P::const_iterator> f;
        std::vector<typename P::const_reverse_iterator> r;
    };
    struct Inst : W::Inst {
        Held h[NS_];
        int ops = 0;
        ~Inst() {}
    };
    uint64_t tedits = 0, pedits = 0, conv = 0;
    int maxn = 4;
    bool hold = true, count_toks = false, drop_dead = true;

    std::unique_ptr<Inst> make() {
        mem.err = nullptr;
        soft_err = nullptr;
        mem.live = 0;
        auto i = std::make_unique<Inst>();
        this->init(*i);
        refresh(*i);
        return i;
    }
    void refresh(Inst& in) {
        if (!hold) return;
        for (int k = 0; k < NS; ++k) {
            P const* p = in.s[k].p.p;
            if (in.h[k].p == p) continue;
            // a tree may have changed its slot: its iterators follow
            in.h[k].f.clear();
            in.h[k].r.clear();
            in.h[k].p = p;
            if (!p) continue;
            size_t n = in.s[k].m.size();
            auto it = p->cbegin();
            for (size_t i = 0; i < n; ++i, ++it) in.h[k].f.push_back(it);
            in.h[k].f.push_back(p->cend());
            auto rt = p->crbegin();
            for (size_t i = 0; i < n; ++i, ++rt) in.h[k].r.push_back(rt);
        }
    }
    void finish(std::unique_ptr<Inst> i) {
        for (auto& h : i->h) h = Held();
        if (!drop_dead) return W::finish(std::move(i));
        for (auto& s : i->s) {
            s.clear();
            check_soft();
            elements(*i);
        }
        W::finish(std::move(i));
    }
    // the elements that exist are exactly those reachable from a tree
    void elements(typename W::Inst& in) {
        if (!count_toks) return;
        std::set<void const*> seen;
        for (auto& s : in.s) {
            if (s.t)
                for (auto it = std::as_const(*s.t).cbegin(); it != std::as_const(*s.t).cend(); ++it) seen.insert(&*it);
            if (s.p)
                for (auto it = std::as_const(*s.p).cbegin(); it != std::as_const(*s.p).cend(); ++it) seen.insert(&*it);
        }
        CHECK(TokCount<0>::live == static_cast<long>(seen.size()), "%ld elements exist, %zu are reachable from a tree", TokCount<0>::live, seen.size());
    }
    void verify(Inst& in) {
        W::verify(in);
        for (int k = 0; k < NS; ++k) {
            auto& h = in.h[k];
            if (!h.p || in.s[k].p.p != h.p) continue;
            Model const& m = in.s[k].m;
            size_t n = m.size();
            for (size_t i = 0; i <= n && i < h.f.size(); ++i) check_iter<Spec, P const, 2>(*h.p, h.f[i], m, static_cast<long>(i), "held iterator of an immutable tree", false);
            for (size_t i = 0; i < n && i < h.r.size(); ++i) check_iter<Spec, P const, 3>(*h.p, h.r[i], m, static_cast<long>(i), "held reverse iterator of an immutable tree", false);
        }
        elements(in);
    }
    void quick(Inst& in) {
        W::quick(in);
        elements(in);
    }
    void canon(Inst& in, Canon& c) {
        int perm[NS];
        for (int i = 0; i < NS; ++i) perm[i] = i;
        std::vector<uint64_t> best;
        do {
            Canon x;
            Walker<Spec> w(x);
            for (int i = 0; i < NS; ++i) {
                auto& s = in.s[perm[i]];
                if (s.t) {
                    x.put(1);
                    w.tree(*s.t);
                } else if (s.p) {
                    x.put(2);
                    w.tree(*s.p);
                } else {
                    x.put(3);
                }
            }
            w.end();
            if (best.empty() || x.w < best) best = x.w;
        } while (std::next_permutation(perm, perm + NS));
        for (uint64_t v : best) c.put(v);
    }
    void apply(Inst& in, Op o) {
        if (o.k == F_REASSIGN) { // move-assign s to d, then give s back a copy
            auto &a = in.s[o.s], &b = in.s[o.d];
            InLib l;
            if (a.t) {
                *b.t = std::move(*a.t);
                *a.t = std::as_const(*b.t);
            } else {
                *b.p = std::move(*a.p);
                *a.p = std::as_const(*b.p);
            }
            OutLib ol;
            b.m = a.m;
            in.h[o.s].p = nullptr;
            in.h[o.d].p = nullptr;
        } else {
            // assigned or swapped immutable trees: iterators refer to the tree object, not to its contents
            if (o.k == ASSIGNC || o.k == ASSIGNM || o.k == SWAP) in.h[o.s].p = in.h[o.d].p = nullptr;
            W::apply(in, o);
        }
        refresh(in);
    }
    void enabled(Inst& in, std::vector<Op>& out) {
        auto has = [&](int k) { return (conv >> k) & 1; };
        int free_slot = -1;
        for (int k = NS; k-- > 0;)
            if (!in.s[k].used()) free_slot = k;
        int used = 0;
        for (int k = 0; k < NS; ++k) used += in.s[k].used();
        for (int s = 0; s < NS; ++s) {
            auto& a = in.s[s];
            if (!a.used()) continue;
            if (a.t) {
                this->edits(in, out, tedits, s, s, maxn);
            } else {
                if (free_slot >= 0) this->edits(in, out, pedits, s, free_slot, maxn);
                this->edits(in, out, pedits, s, s, maxn);
            }
            if (free_slot >= 0) {
                if (a.t && has(SNAP)) out.push_back(W::mk(SNAP, s, 0, 0, 0, free_slot));
                if (a.p && has(THAW)) out.push_back(W::mk(THAW, s, 0, 0, 0, free_slot));
                if (has(COPY)) out.push_back(W::mk(COPY, s, 0, 0, 0, free_slot)), out.push_back(W::mk(COPY, s, 0, 0, 1, free_slot));
                if (has(MOVE)) out.push_back(W::mk(MOVE, s, 0, 0, 0, free_slot));
            }
            if (a.t && has(TOP)) out.push_back(W::mk(TOP, s, 0, 0, 0, s));
            if (a.p && has(TOT)) out.push_back(W::mk(TOT, s, 0, 0, 0, s));
            if (has(DROP) && used > 1) out.push_back(W::mk(DROP, s, 0, 0, 0, s));
            for (int d = 0; d < NS; ++d) {
                auto& b = in.s[d];
                if (!b.used() || static_cast<bool>(a.t) != static_cast<bool>(b.t)) continue;
                if (has(ASSIGNC)) out.push_back(W::mk(ASSIGNC, s, 0, 0, 0, d));
                if (d == s) continue;
                if (has(ASSIGNM)) out.push_back(W::mk(ASSIGNM, s, 0, 0, 0, d)), out.push_back(W::mk(F_REASSIGN, s, 0, 0, 0, d));
                if (has(SWAP) && s < d) out.push_back(W::mk(SWAP, s, 0, 0, 0, d));
            }
        }
        if (free_slot >= 0 && has(NEWT)) out.push_back(W::mk(NEWT, free_slot, 0, 0, 0, free_slot));
        if (free_slot >= 0 && has(NEWP)) out.push_back(W::mk(NEWP, free_slot, 0, 0, 0, free_slot));
    }
    void probes(Inst&, std::vector<Op>&) {}
    std::string describe(Op o) {
        if (o.k == F_REASSIGN) return "move assign slot " + std::to_string(o.s) + " -> slot " + std::to_string(o.d) + " and copy assign back";
        return W::describe(o);
    }
};
struct FR {
    int qn, tn;
    uint64_t tedits, pedits, conv;
    bool startp = false;
    std::vector<std::vector<Op>> bases{{}};
    int qd = 99, td = 99;
    bool toks = false;
    uint64_t ts = 1u << 25;
};
template <class Spec, unsigned Q, int NS>
void reg_forest(std::string name, FR r) {
    using W = Forest<Spec, Q, NS>;
    new Register<W>(name, [=] {
        auto w = std::make_unique<W>();
        w->maxn = opt.thorough ? r.tn : r.qn;
        w->tedits = r.tedits;
        w->pedits = r.pedits;
        w->conv = r.conv;
        w->cfg.start_persistent = r.startp;
        w->count_toks = r.toks;
        w->bases = r.bases;
        return w;
    }, r.qn ? r.qd : -1, r.td, 1u << 22, r.ts);
}
// bases: a tree of n elements (grown, thinned) with relatives
inline std::vector<std::vector<Op>> related(std::vector<int> sizes, std::vector<int> thin, int ns) {
    std::vector<std::vector<Op>> r;
    auto mkop = [](int k, int s, int d, int a = 0, int b = 0, int v = 0) {
        Op o = op(k, a, b, v);
        o.s = static_cast<uint8_t>(s);
        o.d = static_cast<uint8_t>(d);
        return o;
    };
    for (auto const& g : grown(sizes, thin, false)) {
        auto add = [&](std::vector<Op> t) {
            auto h = g;
            h.insert(h.end(), t.begin(), t.end());
            r.push_back(h);
        };
        add({});
        add({mkop(SNAP, 0, 1)});
        add({mkop(SNAP, 0, 1), mkop(THAW, 1, 0)});
        add({mkop(COPY, 0, 1)});
        if (ns > 2) add({mkop(SNAP, 0, 1), mkop(THAW, 1, 2)});
        if (ns > 2) add({mkop(SNAP, 0, 1), mkop(ASG, 0, 0, 0), mkop(SNAP, 0, 2)});
    }
    return r;
}
}
