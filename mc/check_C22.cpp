// C22: builder options configure the tree, in any order.
// CFGS: 7
// THOROUGH_CFGS: 14
// CFGFLAGS: -O0
// States are sequences of builder options; what a tree built with a sequence does is compared with what the tree does
// that is declared with all of its parameters at once.
#if CFG % 7 % 2
#define BPPTREE_DISABLE_EXCEPTIONS true
#endif
#include <bpptree/bpptree.hpp>
#include <bpptree/indexed.hpp>
#include <bpptree/max.hpp>
#include <bpptree/min.hpp>
#include <bpptree/ordered.hpp>
#include <bpptree/summed.hpp>
#include <map>
#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>
#include "engine.hpp"
namespace mc {
namespace {
using namespace bpptree;
bool const dflt = CFG % 7 % 2; // whether exceptions are disabled by default
long compares = 0;
bool exploding = false;
// an element whose comparisons are counted and whose copies may fail
struct E {
    int v = 0;
    E() = default;
    E(int v) : v(v) {}
    E(E const& o) : v(o.v) { boom(); }
    E& operator=(E const& o) {
        v = o.v;
        boom();
        return *this;
    }
    static void boom() {
        if (exploding) throw std::runtime_error("copy");
    }
    friend bool operator<(E const& a, E const& b) { return ++compares, a.v < b.v; }
    friend bool operator>(E const& a, E const& b) { return ++compares, a.v > b.v; }
};
struct Greater {
    bool operator()(E const& a, E const& b) const { return ++compares, a.v > b.v; }
    template <class T>
    bool operator()(T const& a, T const& b) const { return a > b; }
};
struct LastDigit { // an order of its own
    static int k(int x) { return x % 10 * 1000 + x / 10; }
    bool operator()(E const& a, E const& b) const { return ++compares, k(a.v) < k(b.v); }
    bool operator()(int a, int b) const { return k(a) < k(b); }
    bool operator()(std::pair<int, int> const& a, std::pair<int, int> const& b) const { return k(a.second) < k(b.second); }
};
constexpr int NOBS = 8;
char const* const obs_name[NOBS] = {"elements when the tree gets its second level", "elements when the tree gets its third level", "the depth limit", "the order of the keys", "comparisons made by a search", "the largest size", "the width of an index", "whether a failing copy can be survived"};
struct Obs {
    long o[NOBS]{};
};
int val(int i) { return i; }
int val(E const& e) { return e.v; }
template <class A, class B>
int val(std::pair<A, B> const& p) { return val(p.first); }

template <class F>
long survives(F&& f) {
    fflush(nullptr);
    int pid = fork();
    if (pid == 0) {
        rlimit r{0, 0};
        setrlimit(RLIMIT_CORE, &r);
        for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE}) signal(s, SIG_DFL);
        fclose(stderr);
        exploding = true;
        try {
            f();
        } catch (std::exception const&) {
            _exit(1);
        }
        _exit(2);
    }
    int st = 0;
    if (pid < 0 || waitpid(pid, &st, 0) < 0) return -1;
    return WIFEXITED(st) ? WEXITSTATUS(st) : 0; // 0: the program was ended, 1: an exception, 2: nothing happened
}

// ordered: maps and sets
template <class T, class K, class MK>
Obs watch_keys(MK make) {
    Obs r;
    {
        T t;
        r.o[2] = static_cast<long>(t.max_depth());
        r.o[5] = static_cast<long>(t.max_size());
        for (long i = 1; i < 5000 && t.depth() < 3; ++i) {
            t.push_back(make(7)); // equal keys, at the end: nothing is compared
            if (t.depth() == 2 && !r.o[0]) r.o[0] = i;
            if (t.depth() == 3 && !r.o[1]) r.o[1] = i;
        }
    }
    T t;
    for (int i : {12, 3, 47, 21, 30, 5, 14}) t.insert_or_assign(make(i));
    for (auto const& x : std::as_const(t)) r.o[3] = r.o[3] * 100 + val(x);
    compares = 0;
    for (int i : {12, 3, 47, 21, 30, 5, 14, 1, 99}) {
        long before = compares;
        bool found = t.contains(K(i));
        r.o[4] = r.o[4] * 11 + (compares - before) + (found ? 0 : 5);
    }
    r.o[7] = survives([&] { t.insert_or_assign(make(13)); });
    return r;
}
template <class T>
Obs watch_vector() {
    Obs r;
    {
        T t;
        r.o[2] = static_cast<long>(t.max_depth());
        r.o[5] = static_cast<long>(t.max_size());
        for (long i = 1; i < 5000 && t.depth() < 3; ++i) {
            t.push_back(E(7));
            if (t.depth() == 2 && !r.o[0]) r.o[0] = i;
            if (t.depth() == 3 && !r.o[1]) r.o[1] = i;
        }
    }
    T t;
    for (int i = 0; i < 30; ++i) t.push_back(E(i));
    for (int i = 0; i < 30; ++i) r.o[3] += t.at_index(static_cast<unsigned char>(i)).v == i;
    r.o[6] = sizeof(t.order(t.begin()));
    r.o[7] = survives([&] { t.emplace_front(13); });
    return r;
}
// ---- families of builders: N options with two values each besides the default (0) ----
struct MapFam {
    static constexpr int N = 6;
    static constexpr char const* names[N] = {"compare", "binary_search", "leaf_node_bytes", "internal_node_bytes", "depth_limit", "disable_exceptions"};
    using Base = BppTreeMap<E, int>;
    template <class B>
    using Build = typename B::template mixins<>;
    template <int v> using Cmp = std::conditional_t<v == 0, bpptree::detail::MinComparator, std::conditional_t<v == 1, Greater, LastDigit>>;
    static constexpr int leaf(int v) { return v == 0 ? 512 : v == 1 ? 72 : 200; }
    static constexpr int inner(int v) { return v == 0 ? 512 : v == 1 ? 136 : 264; }
    static constexpr int deep(int v) { return v == 0 ? 16 : v == 1 ? 5 : 7; }
    static constexpr bool exc(int v) { return v == 0 || v == 2 ? dflt : !dflt; }
    static constexpr bool bs(int v) { return v == 1; }
    template <class B, int o, int v>
    static auto put() {
        if constexpr (o == 0) return typename B::template compare<Cmp<v>>();
        else if constexpr (o == 1) return typename B::template binary_search<bs(v)>();
        else if constexpr (o == 2) return typename B::template leaf_node_bytes<leaf(v)>();
        else if constexpr (o == 3) return typename B::template internal_node_bytes<inner(v)>();
        else if constexpr (o == 4) return typename B::template depth_limit<deep(v)>();
        else return typename B::template disable_exceptions<exc(v)>();
    }
    template <int a, int b, int c, int d, int e, int f>
    using Ref = typename BppTree<std::pair<E, int>, leaf(c), inner(d), deep(e), exc(f)>::template mixins<OrderedBuilder<bpptree::detail::PairExtractor<0>, Cmp<a>, std::bool_constant<bs(b)>>>;
    template <class M>
    static Obs watch() { return watch_keys<typename M::Transient, E>([](int i) { return std::pair<E, int>(E(i), i); }); }
};
struct SetFam : MapFam {
    using Base = BppTreeSet<E>;
    template <int a, int b, int c, int d, int e, int f>
    using Ref = typename BppTree<E, leaf(c), inner(d), deep(e), exc(f)>::template mixins<OrderedBuilder<bpptree::detail::ValueExtractor, Cmp<a>, std::bool_constant<bs(b)>>>;
    template <class M>
    static Obs watch() { return watch_keys<typename M::Transient, E>([](int i) { return E(i); }); }
};
struct VecFam {
    static constexpr int N = 5;
    static constexpr char const* names[N] = {"size_type", "leaf_node_bytes", "internal_node_bytes", "depth_limit", "disable_exceptions"};
    using Base = BppTreeVector<E>;
    template <class B>
    using Build = typename B::template mixins<>;
    template <int v> using Size = std::conditional_t<v == 0, size_t, std::conditional_t<v == 1, uint16_t, uint32_t>>;
    template <class B, int o, int v>
    static auto put() {
        if constexpr (o == 0) return typename B::template size_type<Size<v>>();
        else if constexpr (o == 1) return typename B::template leaf_node_bytes<MapFam::leaf(v)>();
        else if constexpr (o == 2) return typename B::template internal_node_bytes<MapFam::inner(v)>();
        else if constexpr (o == 3) return typename B::template depth_limit<MapFam::deep(v)>();
        else return typename B::template disable_exceptions<MapFam::exc(v)>();
    }
    template <int a, int b, int c, int d, int e, int>
    using Ref = typename BppTree<E, MapFam::leaf(b), MapFam::inner(c), MapFam::deep(d), MapFam::exc(e)>::template mixins<IndexedBuilder<Size<a>>>;
    template <class M>
    static Obs watch() { return watch_vector<typename M::Transient>(); }
};

// builders of mixins
struct OrdFam {
    static constexpr int N = 3;
    static constexpr char const* names[N] = {"compare", "binary_search", "extractor"};
    using Base = OrderedBuilder<>;
    template <class B>
    using Build = typename BppTree<std::pair<E, E>>::template mixins<B>;
    template <int v> using Ext = bpptree::detail::PairExtractor<v == 1>;
    template <class B, int o, int v>
    static auto put() {
        if constexpr (o == 0) return typename B::template compare<MapFam::Cmp<v>>();
        else if constexpr (o == 1) return typename B::template binary_search<MapFam::bs(v)>();
        else return typename B::template extractor<Ext<v>>();
    }
    template <int a, int b, int c, int, int, int>
    using Ref = Build<OrderedBuilder<Ext<c>, MapFam::Cmp<a>, std::bool_constant<MapFam::bs(b)>>>;
    template <class M>
    static Obs watch() {
        Obs r;
        typename M::Transient t;
        for (int i : {12, 3, 47, 21, 30, 5, 14}) t.insert_v(std::pair<E, E>(E(i), E(i * 13 % 50)));
        for (auto const& x : std::as_const(t)) r.o[3] = r.o[3] * 100 + x.first.v;
        compares = 0;
        for (int i : {12, 3, 47, 21, 30, 5, 14, 1, 39}) {
            long before = compares;
            bool found = t.contains(E(i));
            r.o[4] = r.o[4] * 11 + (compares - before) + (found ? 0 : 5);
        }
        return r;
    }
};
template <bool max>
struct ExtFam {
    static constexpr int N = 2;
    static constexpr char const* names[N] = {"compare", "extractor"};
    using Base = std::conditional_t<max, MaxBuilder<>, MinBuilder<>>;
    template <class B>
    using Build = typename BppTree<std::pair<int, int>>::template mixins<B>;
    template <int v> using Ext = std::conditional_t<v == 0, bpptree::detail::ValueExtractor, std::conditional_t<v == 1, bpptree::detail::PairExtractor<0>, bpptree::detail::PairExtractor<1>>>;
    template <int v> using Cmp = std::conditional_t<v == 0, std::conditional_t<max, bpptree::detail::MaxComparator, bpptree::detail::MinComparator>, std::conditional_t<v == 1, std::conditional_t<max, bpptree::detail::MinComparator, Greater>, LastDigit>>;
    template <class B, int o, int v>
    static auto put() {
        if constexpr (o == 0) return typename B::template compare<Cmp<v>>();
        else return typename B::template extractor<Ext<v>>();
    }
    template <int a, int b, int, int, int, int>
    using Ref = Build<std::conditional_t<max, MaxBuilder<Ext<b>, Cmp<a>>, MinBuilder<Ext<b>, Cmp<a>>>>;
    template <class M>
    static Obs watch() {
        Obs r;
        typename M::Transient t;
        for (int i : {12, 3, 47, 21, 30, 5, 14, 29}) t.push_back(std::pair<int, int>(i, i * 13 % 50));
        if constexpr (max) {
            r.o[3] = val(t.max());
            r.o[4] = t.max_element().get().first;
        } else {
            r.o[3] = val(t.min());
            r.o[4] = t.min_element().get().first;
        }
        return r;
    }
};
using MinFam = ExtFam<false>;
using MaxFam = ExtFam<true>;

struct Entry {
    Obs got, want;
};
using Table = std::map<std::vector<int>, Entry>;
template <class Fam, class M>
Obs const& observe() {
    static Obs const r = Fam::template watch<M>();
    return r;
}
// the value an option has after the sequence: how often it was given, at most 2
template <int o, int... seq>
constexpr int times() { return (0 + ... + (seq == o ? 1 : 0)) > 2 ? 2 : (0 + ... + (seq == o ? 1 : 0)); }
template <class Fam, class B, int... seq>
void entry(Table& t) {
    using R = typename Fam::template Ref<times<0, seq...>(), times<1, seq...>(), times<2, seq...>(), times<3, seq...>(), times<4, seq...>(), times<5, seq...>()>;
    t[{seq...}] = {observe<Fam, typename Fam::template Build<B>>(), observe<Fam, R>()};
}
template <class Fam, class B, int D, int o, int... seq>
void branch(Table& t);
template <class Fam, class B, int D, int... seq, int... o>
void expand(Table& t, std::integer_sequence<int, o...>) {
    entry<Fam, B, seq...>(t);
    if constexpr (static_cast<int>(sizeof...(seq)) < D) (branch<Fam, B, D, o, seq...>(t), ...);
}
template <class Fam, class B, int D, int o, int... seq>
void branch(Table& t) {
    using C = decltype(Fam::template put<B, o, times<o, seq..., o>()>());
    expand<Fam, C, D, seq..., o>(t, std::make_integer_sequence<int, Fam::N>());
}
// every rotation of all the options, forwards and backwards: any option comes before any other in some of them
template <class Fam, class B, int start, int step, int i, int... seq>
void chain(Table& t) {
    if constexpr (i == Fam::N) {
        entry<Fam, B, seq...>(t);
    } else {
        constexpr int o = (start + step * i + 2 * Fam::N) % Fam::N;
        chain<Fam, decltype(Fam::template put<B, o, times<o, seq..., o>()>()), start, step, i + 1, seq..., o>(t);
    }
}
template <class Fam, int... s>
void chains(Table& t, std::integer_sequence<int, s...>) {
    (chain<Fam, typename Fam::Base, s, 1, 0>(t), ...);
    (chain<Fam, typename Fam::Base, s, -1 + Fam::N, 0>(t), ...);
}

template <class Fam>
struct Builders {
    struct Inst {
        std::vector<int> seq;
    };
    Table t;
    std::vector<std::vector<Op>> bases{{}};
    std::unique_ptr<Inst> make() { return std::make_unique<Inst>(); }
    void apply(Inst& in, Op o) { in.seq.push_back(o.a); }
    void enabled(Inst& in, std::vector<Op>& out) {
        for (int o = 0; o < Fam::N; ++o) {
            std::vector<int> s = in.seq;
            s.push_back(o);
            auto i = t.lower_bound(s); // a sequence which goes on to one that is observed
            if (i == t.end() || i->first.size() < s.size() || !std::equal(s.begin(), s.end(), i->first.begin())) continue;
            Op op;
            op.a = static_cast<uint16_t>(o);
            out.push_back(op);
        }
    }
    void probes(Inst&, std::vector<Op>&) {}
    void quick(Inst& in) { verify(in); }
    void verify(Inst& in) {
        auto i = t.find(in.seq);
        if (i == t.end()) return;
        local_queries += NOBS;
        for (int k = 0; k < NOBS; ++k)
            if (i->second.got.o[k] != i->second.want.o[k]) fail("%s of a tree built with these options: %ld, declared at once: %ld", obs_name[k], i->second.got.o[k], i->second.want.o[k]);
    }
    void canon(Inst& in, Canon& c) {
        for (int o : in.seq) c.put(static_cast<uint64_t>(o));
    }
    void finish(std::unique_ptr<Inst>) {}
    std::string describe(Op o) { return Fam::names[o.a]; }
};
template <class Fam, int D>
void reg(std::string name) {
    new Register<Builders<Fam>>(name, [] {
        auto b = std::make_unique<Builders<Fam>>();
        expand<Fam, typename Fam::Base, D>(b->t, std::make_integer_sequence<int, Fam::N>());
        chains<Fam>(b->t, std::make_integer_sequence<int, Fam::N>());
        return b;
    }, 99, 99);
}
constexpr int D = CFG < 7 ? 2 : 3;
struct Init {
    Init() {
        std::string const s = std::string(dflt ? ", exceptions disabled by default" : "") + (D == 3 ? ", longer" : "");
#if CFG % 7 / 2 == 0
        reg<MapFam, D>("BppTreeMap" + s);
#elif CFG % 7 / 2 == 1
        reg<SetFam, D>("BppTreeSet" + s);
#elif CFG % 7 / 2 == 2
        reg<VecFam, D>("BppTreeVector" + s);
#else
        reg<OrdFam, D>("OrderedBuilder" + s);
        reg<MinFam, D>("MinBuilder" + s);
        reg<MaxFam, D>("MaxBuilder" + s);
#endif
    }
} init;
}
}
