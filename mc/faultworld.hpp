// Every operation in every state, failing at every point where it can fail.
#pragma once
#include "forest.hpp"
#include <stdexcept>
namespace mc {
template <class C>
struct Throwing {
    template <class A, class B>
    bool operator()(A const& a, B const& b) const {
        Fault::point(FC_COMPARE);
        return C()(a, b);
    }
};

template <class Spec, unsigned Q, int NS_>
struct FaultWorld : Forest<Spec, Q, NS_> {
    using W = Forest<Spec, Q, NS_>;
    using T = typename W::T;
    using P = typename W::P;
    static constexpr int NS = NS_;
    struct Inst : W::Inst {
        std::vector<Op> hist;
    };
    unsigned classes = 1u << FC_ALLOC;
    bool toks = false;
    static constexpr int FLT = 0x80;

    std::unique_ptr<Inst> make() {
        mem.err = nullptr;
        soft_err = nullptr;
        mem.live = 0;
        TokCount<0>::live = TokCount<1>::live = 0;
        auto i = std::make_unique<Inst>();
        this->init(*i);
        return i;
    }
    void finish(std::unique_ptr<Inst> i) { W::finish(std::move(i)); }
    void apply(Inst& in, Op o) {
        if (o.k & FLT) return faults(in, o);
        in.hist.push_back(o);
        W::apply(in, o);
    }
    void verify(Inst& in) { W::verify(in); }
    void quick(Inst& in) { W::quick(in); }

    void inner(Inst& in, Op o) {
        if (o.k == UPD || o.k == UPDX || o.k == KUPD) {
            // as World does, with an update function that can throw
            auto& sl = in.s[o.s];
            Model nm = sl.m;
            ME e = W::fresh(in, o.b, nm[o.a].ord);
            if (o.k == KUPD) e.alpha = static_cast<uint16_t>(o.b >> 1);
            auto key = [&] {
                if constexpr (Spec::ordered) return Spec::key(nm[o.a].ord);
                else return 0;
            }();
            size_t n = nm.size();
            nm[o.a] = e;
            this->edit(in, o.s, o.d, std::move(nm), [&](auto& x) {
                auto f = [&](auto const&) {
                    Fault::point(FC_UPDATE);
                    if constexpr (Spec::ordered) {
                        return Spec::make(e);
                    } else {
                        return Spec::make(e);
                    }
                };
                if constexpr (Spec::ordered) {
                    if (o.k == KUPD) return x.update_key(key, [&](auto const&) {
                        Fault::point(FC_UPDATE);
                        return Spec::mapped(e);
                    });
                }
                if constexpr (Spec::indexed) {
                    if (o.k == UPDX) return x.update_index(static_cast<typename Spec::Size>(o.a), f);
                }
                auto it = W::iter_at(x, o.a, n, 0);
                return x.update(it, f);
            });
            return;
        }
        W::apply(in, o);
    }

    void faults(Inst& in, Op o) {
        Op op = o;
        op.k &= 0x7F;
        int cls = o.d >> 4;
        op.d &= 15;
        std::vector<Op> hist = in.hist;
        for (auto& s : in.s) s.clear();
        check_soft();
        long limit = 400;
        for (long k = 1; k <= limit; ++k) {
            auto x = make();
            for (Op h : hist) W::apply(*x, h);
            check_soft();
            bool onP = static_cast<bool>(x->s[op.s].p);
            bool wasT = static_cast<bool>(x->s[op.s].t);
            long live = mem.live, t0 = TokCount<0>::live, t1 = TokCount<1>::live;
            bool failed = false;
            if (cls == FC_ALLOC) {
                mem.fail_at = k;
                mem.failed = false;
            } else {
                Fault::cls = cls;
                Fault::n = k;
                Fault::hit = false;
            }
            auto disarm = [&] {
                mem.fail_at = 0;
                Fault::cls = -1;
                Fault::n = 0;
            };
            char const* how = "";
            try {
                inner(*x, op);
                disarm();
                // an injected failure has to come out of the operation
                CHECK(cls == FC_ALLOC ? !mem.failed : !Fault::hit, "%s swallowed failure %ld of its %s", kind_name(op.k), k, cls_name(cls));
            } catch (std::bad_alloc const&) {
                disarm();
                failed = cls == FC_ALLOC && mem.failed;
                if (!failed) throw;
                how = "allocation";
            } catch (Injected const& i) {
                disarm();
                failed = i.cls == cls;
                if (!failed) fail("%s failed although nothing failed", kind_name(op.k));
                how = cls_name(cls);
            }
            mem.failed = false;
            check_soft();
            if (!failed) {
                W::verify(*x);
                finish(std::move(x));
                check_soft();
                return;
            }
            ++local_queries;
            auto ctx = [&](char const* what) {
                try {
                    check_soft();
                    for (int s = 0; s < NS; ++s)
                        if (x->s[s].p || (x->s[s].t && s != op.s)) this->verify_slot(x->s[s]);
                    check_soft();
                } catch (Violation const& v) {
                    fail("%s, after %s failed at %s %ld: %s", what, kind_name(op.k), how, k, v.msg.c_str());
                }
            };
            if (onP) {
                CHECK(mem.live == live, "%s of an immutable tree leaked %ld blocks when it failed at %s %ld", kind_name(op.k), mem.live - live, how, k);
                if (toks) CHECK(TokCount<0>::live == t0 && TokCount<1>::live == t1, "%s of an immutable tree leaked %ld elements and %ld keys when it failed at %s %ld", kind_name(op.k), TokCount<0>::live - t0, TokCount<1>::live - t1, how, k);
            }
            ctx("before anything else");
            if (wasT) {
                x->s[op.s].t.reset();
                x->s[op.s].m.clear();
                ctx("when the tree on which the operation failed is gone");
            }
            // usable: derive from each tree and edit it
            for (int s = 0; s < NS; ++s) {
                if (!x->s[s].used()) continue;
                try {
                    int n = static_cast<int>(x->s[s].m.size());
                    if (this->gap_ok(x->s[s].m, static_cast<size_t>(n))) W::apply(*x, W::mk(PUSHB, s, 0, 0));
                    if (n) W::apply(*x, W::mk(ASG, s, n / 2, 0));
                    W::apply(*x, W::mk(POPF, s, 0, 0));
                } catch (Violation const& v) {
                    fail("using a tree after %s failed at %s %ld: %s", kind_name(op.k), how, k, v.msg.c_str());
                }
                ctx("using a tree");
            }
            for (auto& s : x->s) s.clear();
            check_soft();
            mem_flush();
            check_soft();
            if (!wasT && mem.live) fail("%ld blocks remain after %s of an immutable tree failed at %s %ld", mem.live, kind_name(op.k), how, k);
            mem.live = 0;
            TokCount<0>::live = TokCount<1>::live = 0;
        }
        fail("%s can fail at more than %ld points", kind_name(op.k), limit);
    }
    static char const* cls_name(int c) { return c == FC_ALLOC ? "allocation" : c == FC_COMPARE ? "comparison" : c == FC_UPDATE ? "update function" : "element copy"; }

    uint64_t pk = 0;
    void probes(Inst& in, std::vector<Op>& out) {
        std::vector<Op> v;
        int free_slot = -1;
        for (int k = NS; k-- > 0;)
            if (!in.s[k].used()) free_slot = k;
        for (int s = 0; s < NS; ++s) {
            if (!in.s[s].used()) continue;
            this->edits(in, v, pk, s, s, 1 << 14);
            if (in.s[s].p && free_slot >= 0) this->edits(in, v, pk, s, free_slot, 1 << 14);
        }
        if (free_slot >= 0 && (classes & 1)) {
            v.push_back(W::mk(NEWT, free_slot, 0, 0, 0, free_slot));
            v.push_back(W::mk(NEWP, free_slot, 0, 0, 0, free_slot));
        }
        for (Op o : v)
            for (int c = 0; c < FC_N; ++c) {
                if (!((classes >> c) & 1)) continue;
                if (c == FC_UPDATE && o.k != UPD && o.k != UPDX && o.k != KUPD) continue;
                if (c != FC_ALLOC && (o.k == CLEAR || o.k == NEWT || o.k == NEWP)) continue;
                Op f = o;
                f.k |= FLT;
                f.d = static_cast<uint8_t>(f.d | (c << 4));
                out.push_back(f);
            }
    }
    std::string describe(Op o) {
        if (o.k & FLT) {
            Op i = o;
            i.k &= 0x7F;
            i.d &= 15;
            return std::string("fail at every ") + cls_name(o.d >> 4) + " of: " + W::describe(i);
        }
        return W::describe(o);
    }
};
template <class Spec, unsigned Q, int NS>
void reg_fault(std::string name, FR r, unsigned classes, uint64_t probe) {
    using W = FaultWorld<Spec, Q, NS>;
    new Register<W>(name, [=] {
        auto w = std::make_unique<W>();
        w->maxn = opt.thorough ? r.tn : r.qn;
        w->tedits = r.tedits;
        w->pedits = r.pedits;
        w->conv = r.conv;
        w->cfg.start_persistent = r.startp;
        w->hold = false;
        w->drop_dead = false;
        w->toks = r.toks;
        w->classes = classes;
        w->pk = probe;
        w->bases = r.bases;
        return w;
    }, r.qn ? r.qd : -1, r.td, 1u << 22, r.ts);
}
}
