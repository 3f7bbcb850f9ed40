// C20: the inverted index of examples/ against a map from terms to sets of documents.
// CFGS: 4
// THOROUGH_CFGS: 6
// FLAGS: -I{REPO}/examples
// CFGFLAGS: -fno-access-control
// PROBES: immutable=probe_C20_immutable.cpp documents-of-term=probe_C20_documents_of_term.cpp
// ASSUMES: the private constructors of the index are called directly (access control is off in this check) since the public conversions do not compile (known finding immutable); insertions of a term that sorts after every listed term and equals the memory behind the last one (0 into an empty index), and of strings that sort after every listed one, are left out (known finding insert-end)
#include <algorithm>
#include <limits>
#include <map>
#include <numeric>
#include <set>
#include <string>
#include "inverted_index.hpp"
#include "peek.hpp"
#include "world.hpp"
namespace mc {
namespace {
// what Walker needs to know of the two lists
template <class T>
uint64_t term_bits(T const& t) {
    if constexpr (std::is_arithmetic_v<T>) return static_cast<uint64_t>(t);
    else {
        uint64_t h = t.size();
        for (unsigned char c : t) h = h * 257 + c + 1;
        return h;
    }
}
template <class Term>
struct TermSpec {
    using Value = std::pair<Term, uint32_t>;
    static constexpr bool value_matters = true, summed = true, ordered = true, has_min = false, has_max = false;
    static uint64_t canon_value(Value const& v) { return term_bits(v.first) * 64 + v.second; }
    static uint32_t sum_of(Value const& v) { return v.second; }
    static Term const& key_of(Value const& v) { return v.first; }
    static bool same_key(Term const& a, Term const& b) { return a == b; }
    static bool key_less(Term const& a, Term const& b) { return a < b; }
    template <class A>
    static uint64_t bits(A const& a) { return term_bits(a); }
};
struct DocSpec {
    using Value = uint32_t;
    static constexpr bool value_matters = true, summed = false, ordered = false, has_min = false, has_max = false;
    static uint64_t canon_value(uint32_t v) { return v; }
    template <class A>
    static uint64_t bits(A const&) { return 0; }
};
template <class I>
auto docs_of(I const& i, int) -> decltype((i.doc_list_)) { return i.doc_list_; }
template <class I>
char docs_of(I const&, long) { return 0; }

enum { INSERT = 100, SAVE, LOAD, SAVE_MOVE, LOAD_MOVE };

template <class Term, size_t lb, size_t ib, size_t dl>
struct IndexWorld {
    using X = InvertedIndex<Term, lb, ib, dl>;
    using T = typename X::Transient;
    using P = typename X::Persistent;
    using Ref = std::map<Term, std::set<uint32_t>>;
    static constexpr int NP = 2;
    struct Inst {
        std::unique_ptr<T> t;
        std::unique_ptr<P> p[NP];
        Ref tm, pm[NP];
    };
    std::vector<Term> terms;
    std::vector<uint32_t> docs;
    int versions = 0;
    std::vector<std::vector<Op>> bases{{}};

    std::unique_ptr<Inst> make() {
        auto i = std::make_unique<Inst>();
        InLib l;
        i->t = std::make_unique<T>();
        return i;
    }
    static Op op(int k, int a = 0, int b = 0) {
        Op o;
        o.k = static_cast<uint8_t>(k);
        o.a = static_cast<uint16_t>(a);
        o.b = static_cast<uint16_t>(b);
        return o;
    }
    std::string describe(Op o) const {
        char b[120];
        if (o.k == INSERT) {
            std::string t;
            if constexpr (std::is_arithmetic_v<Term>) t = std::to_string(terms[o.a]);
            else t = "\"" + terms[o.a] + "\"";
            return "insert(" + t + ", " + std::to_string(docs[o.b]) + ")";
        }
        snprintf(b, sizeof b, o.k == SAVE ? "version %d = index.persistent()" : o.k == SAVE_MOVE ? "version %d = move(index).persistent(); index = version.transient()" : o.k == LOAD ? "index = version %d.transient()" : "index = move(version %d).transient()", o.a);
        return b;
    }
    void apply(Inst& i, Op o) {
        switch (o.k) {
        case INSERT: {
            i.tm[terms[o.a]].insert(docs[o.b]);
            Term const term = terms[o.a];
            InLib l;
            if (o.v) {
                Term t(term);
                i.t->insert(std::move(t), docs[o.b]);
            } else i.t->insert(term, docs[o.b]);
            break;
        }
        case SAVE: {
            i.pm[o.a] = i.tm;
            InLib l;
            i.p[o.a] = std::make_unique<P>(i.t->persistent());
            break;
        }
        case SAVE_MOVE: {
            i.pm[o.a] = i.tm;
            InLib l;
            i.p[o.a] = std::make_unique<P>(std::move(*i.t).persistent());
            P const& p = *i.p[o.a];
            i.t = std::make_unique<T>(p.transient());
            break;
        }
        case LOAD: {
            i.tm = i.pm[o.a];
            InLib l;
            P const& p = *i.p[o.a];
            i.t = std::make_unique<T>(p.transient());
            break;
        }
        case LOAD_MOVE: {
            i.tm = std::move(i.pm[o.a]);
            i.pm[o.a].clear();
            InLib l;
            i.t = std::make_unique<T>(std::move(*i.p[o.a]).transient());
            i.p[o.a].reset();
            break;
        }
        }
    }
    // the known finding insert-end: the term sorts after every listed one, and equals what lies behind the last one
    bool unreadable(Inst& i, Term const& term) {
        if (!i.tm.empty() && !(i.tm.rbegin()->first < term)) return false;
        if constexpr (!std::is_arithmetic_v<Term>) return !i.tm.empty() || term == Term(); // what lies there may not even be comparable
        InLib l;
        auto it = i.t->term_list().lower_bound(term);
        return it == i.t->term_list().end() && it->first == term;
    }
    void enabled(Inst& i, std::vector<Op>& out) {
        for (size_t a = 0; a < terms.size(); ++a)
            if (!unreadable(i, terms[a])) for (size_t b = 0; b < docs.size(); ++b) out.push_back(op(INSERT, static_cast<int>(a), static_cast<int>(b)));
        for (int s = 0; s < versions; ++s) {
            out.push_back(op(SAVE, s));
            if (i.p[s]) {
                out.push_back(op(LOAD, s));
                out.push_back(op(LOAD_MOVE, s));
            } else out.push_back(op(SAVE_MOVE, s));
        }
    }
    void probes(Inst& i, std::vector<Op>& out) {
        for (size_t a = 0; a < terms.size(); ++a)
            if (!unreadable(i, terms[a])) for (size_t b = 0; b < docs.size(); ++b) {
                Op o = op(INSERT, static_cast<int>(a), static_cast<int>(b));
                o.v = 1;
                out.push_back(o);
            }
    }
    template <class I>
    void check(I const& x, Ref const& m) {
        InLib l;
        auto const& tl = x.term_list();
        CHECK(tl.size() == m.size(), "the index lists %zu terms, %zu were inserted", (size_t)tl.size(), m.size());
        auto it = tl.begin();
        auto last = tl.end();
        size_t all = 0;
        for (auto const& [term, set] : m) {
            CHECK(it != last, "the terms end early");
            CHECK(it->first == term, "a listed term is not the expected one");
            CHECK(it->second == set.size(), "the document count of a term is %u, it has %zu documents", it->second, set.size());
            for (int how = 0; how < 2; ++how) {
                auto at = how ? tl.find(term) : it;
                CHECK(at != last && at->first == term, "a term is not found");
                auto [b, e] = x.term_doc_iterator(at);
                for (uint32_t d : set) {
                    CHECK(b != e, "a document is missing from the list of a term");
                    CHECK(*b == d, "a term lists document %u instead of %u", (uint32_t)*b, d);
                    ++b;
                    ++local_queries;
                }
                CHECK(b == e, "a term lists more documents than were inserted");
            }
            all += set.size();
            ++it;
        }
        CHECK(it == last, "the index lists too many terms");
        for (Term const& t : terms)
            if (!m.count(t)) {
                CHECK(!tl.contains(t) && tl.find(t) == last, "a term that was never inserted is listed");
                auto low = tl.lower_bound(t);
                auto r = m.lower_bound(t);
                if (r == m.end()) CHECK(low == last, "lower_bound of an absent term is not the end");
                else CHECK(low != last && low->first == r->first, "lower_bound of an absent term is wrong");
            }
        CHECK(tl.sum() == all, "the document counts sum to %u, there are %zu documents", (uint32_t)tl.sum(), all);
    }
    void quick(Inst& i) { verify(i); }
    void verify(Inst& i) {
        check(*i.t, i.tm);
        for (int s = 0; s < NP; ++s)
            if (i.p[s]) check(*i.p[s], i.pm[s]);
        stats.saw_depth(i.t->term_list().depth());
    }
    template <class I>
    void shape(Walker<TermSpec<Term>>& tw, Walker<DocSpec>& dw, I const& x) {
        tw.tree(x.term_list());
        if constexpr (!std::is_same_v<decltype(docs_of(x, 0)), char>) dw.tree(docs_of(x, 0));
        else {
            for (auto it = x.term_list().begin(); it != x.term_list().end(); ++it) {
                auto [b, e] = x.term_doc_iterator(it);
                for (; b != e; ++b) {
                    if constexpr (has_iter<decltype(b)>::value) dw.out.put(b.iter);
                    dw.out.put(*b);
                }
            }
        }
    }
    void canon(Inst& i, Canon& c) {
        Walker<TermSpec<Term>> tw(c);
        Walker<DocSpec> dw(c);
        shape(tw, dw, *i.t);
        for (int s = 0; s < versions; ++s) {
            c.put(0x9E9E + (i.p[s] != nullptr));
            if (i.p[s]) shape(tw, dw, *i.p[s]);
        }
        tw.end();
        dw.end();
    }
    void finish(std::unique_ptr<Inst> i) {
        i.reset();
        check_soft();
        mem_flush();
        check_soft();
        if (mem.live != 0) fail("%ld blocks of memory remain allocated after every index is gone", mem.live);
    }
};
template <class Term, size_t lb, size_t ib, size_t dl>
void reg_index(std::string name, std::vector<Term> terms, std::vector<uint32_t> docs, int versions, int q, int t, int grown = 0) {
    using W = IndexWorld<Term, lb, ib, dl>;
    new Register<W>(name, [=] {
        auto w = std::make_unique<W>();
        w->terms = terms;
        w->docs = docs;
        w->versions = versions;
        if (grown) {
            // every (term, document) but the last few in several orders, so that both lists have inner nodes
            w->bases.clear();
            int nt = static_cast<int>(terms.size()), nd = static_cast<int>(docs.size()), n = nt * nd;
            for (int step : {1, 5, 7, n - 1}) {
                while (std::gcd(step, n) != 1) ++step;
                std::vector<Op> h{W::op(INSERT, nt - 1, 0)};
                for (int i = 0; i < grown; ++i) {
                    int x = (i * step + (step == n - 1 ? n - 1 : 0)) % n;
                    h.push_back(W::op(INSERT, x / nd, x % nd));
                }
                w->bases.push_back(h);
                if (versions) {
                    h.push_back(W::op(SAVE, 0));
                    w->bases.push_back(h);
                }
            }
        }
        return w;
    }, q, t);
}
constexpr uint32_t MAXD = std::numeric_limits<uint32_t>::max();
// the known finding: a term that happens to equal the memory behind the last one
void insert_end() {
    using X = InvertedIndex<uint32_t, 40, 72, 8>;
    typename X::Transient t;
    {
        InLib l;
        t.insert(0u, 1);
    }
    if (t.term_list().size() != 1) printf("FINDING insert-end a term which equals the memory behind the last term is not listed: insert(0, 1) into an empty index\n");
}
struct Init {
    Init() {
#if CFG == 0
        Exploration e;
        e.name = "known finding insert-end";
        e.run = insert_end;
        e.replay = [](std::vector<Op> const&) {};
        explorations().push_back(e);
        // leaves of 2 terms and 4 documents, inner nodes of 4 terms and 5 documents
        reg_index<uint32_t, 24, 72, 8>("3 terms x 3 documents, smallest nodes", {0, 5, MAXD}, {0, 1, MAXD}, 0, 9, 9);
        reg_index<uint32_t, 24, 72, 8>("2 terms x 3 documents with two versions", {0, MAXD}, {0, 1, MAXD}, 2, 6, 8);
#elif CFG == 1
        reg_index<uint32_t, 16, 72, 8>("4 terms x 4 documents, one term and two documents a leaf", {0, 1, 7, MAXD}, {0, 2, 3, MAXD}, 0, 6, 8);
        reg_index<uint32_t, 16, 72, 8>("7 terms x 5 documents, one term and two documents a leaf, grown, with a version", {0, 1, 2, 3, 4, 7, MAXD}, {0, 2, 3, 4, MAXD}, 1, 3, 5, 27);
#elif CFG == 2
        reg_index<std::string, 88, 200, 8>("3 string terms x 3 documents", {"", "a rather long term which owns memory", "b"}, {0, 1, MAXD}, 1, 6, 8);
        reg_index<std::string, 48, 200, 8>("8 string terms x 4 documents, grown", {"", "a", "a rather long term which owns memory", "aa", "b", "c", "cc", "d"}, {0, 1, 5, MAXD}, 0, 4, 6, 24);
#elif CFG == 3
        reg_index<uint32_t, 512, 512, 16>("default nodes: 40 terms x 40 documents, grown", [] { std::vector<uint32_t> v; for (uint32_t i = 0; i < 40; ++i) v.push_back(i * 3); v.back() = MAXD; return v; }(), [] { std::vector<uint32_t> v; for (uint32_t i = 0; i < 40; ++i) v.push_back(i * 2); v.back() = MAXD; return v; }(), 0, 0, 1, 1400);
        reg_index<uint8_t, 24, 72, 8>("terms of one byte: 3 x 3", {0, 1, 255}, {0, 1, MAXD}, 0, 9, 9);
#elif CFG == 4
        reg_index<uint32_t, 32, 88, 5>("4 terms x 4 documents, leaf of three terms", {0, 1, 7, MAXD}, {0, 2, 3, MAXD}, 0, -1, 8);
#elif CFG == 5
        reg_index<uint32_t, 16, 72, 8>("10 terms x 2 documents, one term a leaf", {0, 1, 2, 3, 4, 5, 6, 7, 8, MAXD}, {0, MAXD}, 1, -1, 7);
#endif
    }
} init;
}
}
