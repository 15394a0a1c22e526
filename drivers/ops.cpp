// The algorithms of the graph index on small integer data, one event per call:
// pruning, traversal (static and dynamic index, and greedy_search itself), construction,
// insertion of a batch, repair after deletions.
#include "common.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/consolidate.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include "svs/index/vamana/prune.h"

#include <cmath>
#include <memory>
#include <optional>
#include <set>

using namespace svs;
using vd::Rng;
namespace vam = index::vamana;

#ifndef OPS_WHICH
#define OPS_WHICH 0
#endif
#if OPS_WHICH == 0
using T = float; using Dist_ = distance::DistanceL2; static const char* KIND = "L2";
#elif OPS_WHICH == 1
using T = float; using Dist_ = distance::DistanceIP; static const char* KIND = "IP";
#elif OPS_WHICH == 2
using T = int8_t; using Dist_ = distance::DistanceL2; static const char* KIND = "L2";
#elif OPS_WHICH == 3
using T = int8_t; using Dist_ = distance::DistanceIP; static const char* KIND = "IP";
#elif OPS_WHICH == 4
using T = float; using Dist_ = distance::DistanceCosineSimilarity; static const char* KIND = "COS";
#else
using T = int8_t; using Dist_ = distance::DistanceCosineSimilarity; static const char* KIND = "COS";
#endif
// Cosine similarities are multiples of a quarter here, and recorded four-fold.
constexpr bool COS = std::is_same_v<Dist_, distance::DistanceCosineSimilarity>;
constexpr int SC = COS ? 4 : 1;
constexpr bool IS_L2 = std::is_same_v<Dist_, distance::DistanceL2>;
using Data = data::SimpleData<T>;

// The library's graph over a resizable container with a small block size (its own dynamic
// graph reserves a gigabyte).
using GraphData = data::BlockedData<uint32_t, Dynamic, HugepageAllocator<uint32_t>>;
struct SmallGraph : graphs::SimpleGraphBase<uint32_t, GraphData> {
    using P = graphs::SimpleGraphBase<uint32_t, GraphData>;
    static data::Blocked<HugepageAllocator<uint32_t>> alloc() {
        return data::Blocked<HugepageAllocator<uint32_t>>(
            data::BlockingParameters{.blocksize_bytes = lib::prevpow2(1024)});
    }
    SmallGraph(size_t max_degree, size_t n) : P(n, max_degree, alloc()) {}
    void unsafe_resize(size_t n) { P::data_.resize(n); }
    void add_node() { unsafe_resize(P::n_nodes() + 1); }
};

using Vecs = std::vector<std::vector<int>>;
static vd::J rows(const Vecs& v) {
    std::vector<vd::J> o;
    for (auto& x : v) { o.push_back(vd::j(x)); }
    return vd::j(o);
}
static Data make(const Vecs& v, size_t dims) {
    Data d(v.size(), dims);
    for (size_t i = 0; i < v.size(); ++i) {
        std::vector<T> t(v[i].begin(), v[i].end());
        d.set_datum(i, t);
    }
    return d;
}
static data::SimpleData<float> makef(const Vecs& v, size_t dims) {
    data::SimpleData<float> d(v.size(), dims);
    for (size_t i = 0; i < v.size(); ++i) {
        std::vector<float> t(v[i].begin(), v[i].end());
        d.set_datum(i, t);
    }
    return d;
}
static int dist(const std::vector<int>& a, const std::vector<int>& b) {
    int s = 0;
    if (COS) {
        int x = 0, y = 0;
        for (size_t i = 0; i < a.size(); ++i) { s += a[i] * b[i]; x += a[i] * a[i]; y += b[i] * b[i]; }
        return int(std::lround(4 * s / std::sqrt(double(x) * double(y))));
    }
    for (size_t i = 0; i < a.size(); ++i) { s += IS_L2 ? (a[i] - b[i]) * (a[i] - b[i]) : a[i] * b[i]; }
    return s;
}
static Vecs vecs(Rng& r, size_t n, size_t dims, int range, int dup) {
    Vecs v;
    for (size_t i = 0; i < n; ++i) {
        if (i > 0 && r.chance(dup)) { v.push_back(v[size_t(r.in(0, int64_t(i) - 1))]); continue; }
        std::vector<int> x;
        if (COS) {
            // Four dimensions; one component, or all of the same size: a power of two.
            int m = 1 << r.in(0, 3);
            x.assign(4, 0);
            if (r.chance(50)) { x[size_t(r.in(0, 3))] = r.chance(50) ? m : -m; }
            else { for (auto& y : x) { y = r.chance(50) ? m : -m; } }
            v.push_back(x);
            continue;
        }
        for (size_t k = 0; k < dims; ++k) { x.push_back(int(r.in(-range, range))); }
        v.push_back(x);
    }
    return v;
}
using Lists = std::vector<std::vector<uint32_t>>;
static vd::J lists(const Lists& g) {
    std::vector<vd::J> o;
    for (auto& x : g) { o.push_back(vd::j(x)); }
    return vd::j(o);
}
template <typename G> Lists read_graph(const G& g) {
    Lists o;
    for (size_t i = 0; i < g.n_nodes(); ++i) {
        auto n = g.get_node(i);
        o.emplace_back(n.begin(), n.end());
    }
    return o;
}
static Lists random_graph(Rng& r, size_t n, size_t deg) {
    Lists g(n);
    for (auto& l : g) {
        size_t k = size_t(r.in(0, int64_t(deg)));
        for (size_t i = 0; i < k; ++i) {
            auto v = uint32_t(r.in(0, int64_t(n) - 1));
            if (v != size_t(&l - g.data()) && std::find(l.begin(), l.end(), v) == l.end()) { l.push_back(v); }
        }
    }
    return g;
}
template <typename G> G make_graph(const Lists& g, size_t deg) {
    auto make = [&]() {
        if constexpr (std::is_same_v<G, SmallGraph>) { return SmallGraph(deg, g.size()); }
        else { return G(g.size(), deg); }
    };
    G out = make();
    for (size_t i = 0; i < g.size(); ++i) { out.replace_node(uint32_t(i), g[i]); }
    return out;
}
// A graph whose storage the driver keeps a handle on while an index owns it.
struct SharedGraph {
    using G = graphs::SimpleGraph<uint32_t>;
    using index_type = G::index_type;
    using reference = G::reference;
    using const_reference = G::const_reference;
    using value_type = G::value_type;
    using const_value_type = G::const_value_type;
    std::shared_ptr<G> p;
    SharedGraph(size_t n, size_t deg) : p{std::make_shared<G>(n, deg)} {}
    const_reference get_node(uint32_t i) const { return std::as_const(*p).get_node(i); }
    size_t get_node_degree(uint32_t i) const { return p->get_node_degree(i); }
    void prefetch_node(uint32_t i) const { p->prefetch_node(i); }
    void clear_node(uint32_t i) { p->clear_node(i); }
    void replace_node(uint32_t i, const std::vector<uint32_t>& x) { p->replace_node(i, x); }
    void replace_node(uint32_t i, std::span<const uint32_t> x) { p->replace_node(i, x); }
    size_t add_edge(uint32_t a, uint32_t b) { return p->add_edge(a, b); }
    size_t max_degree() const { return p->max_degree(); }
    size_t n_nodes() const { return p->n_nodes(); }
    void reset() { p->reset(); }
};
struct Alpha { int n, d; float f() const { return float(n) / float(d); } };
static Alpha alpha(Rng& r) {
    if (IS_L2) { return r.pick({Alpha{1, 1}, Alpha{5, 4}, Alpha{3, 2}, Alpha{2, 1}}); }
    return r.pick({Alpha{1, 1}, Alpha{3, 4}, Alpha{1, 2}, Alpha{7, 8}});
}
static vd::J frac(Alpha a) { return vd::j(std::vector<int>{a.n, a.d}); }

///// Pruning

static void prune_on(Rng& r, vd::Log& log, const Vecs& v, size_t dims, size_t self, const std::vector<uint32_t>& ids,
    Alpha a, size_t limit, int which) {
    auto d = make(v, dims);
    std::vector<Neighbor<uint32_t>> pool;
    std::vector<vd::J> pj;
    for (auto i : ids) {
        pool.push_back({i, float(dist(v[self], v[i])) / SC});
        vd::Obj o;
        o("id", i)("d", dist(v[self], v[i]));
        pj.push_back(o.done());
    }
    std::string strat;
    auto df = Dist_();
    auto acc = data::GetDatumAccessor();
    bool asn = r.chance(40);
    std::vector<uint32_t> out;
    auto call = [&](auto tag) {
        if (asn) {
            std::vector<Neighbor<uint32_t>> res(size_t(r.in(0, 3)), Neighbor<uint32_t>{77, 3.0F});
            vam::heuristic_prune_neighbors(tag, limit, a.f(), d, acc, df, self, lib::as_const_span(pool), res);
            for (auto& x : res) { out.push_back(x.id()); }
        } else {
            std::vector<uint32_t> res(size_t(r.in(0, 3)), 77);
            vam::heuristic_prune_neighbors(tag, limit, a.f(), d, acc, df, self, lib::as_const_span(pool), res);
            out = res;
        }
    };
    if (which == 0) { strat = "legacy"; call(vam::LegacyPruneStrategy{}); }
    else if (which == 1) { strat = "iterative"; call(vam::IterativePruneStrategy{}); }
    else {
        // What the library pairs with this distance.
        strat = IS_L2 ? "progressive" : "iterative";
        call(vam::prune_strategy(df));
    }
    log(vd::ev("prune")("strat", strat)("kind", KIND)("alpha", frac(a))("limit", limit)("self", self)
        ("vecs", rows(v))("pool", pj)("out", out));
}

static void prune_case(Rng& r, vd::Log& log) {
    size_t n = size_t(r.in(1, 12)), dims = COS ? 4 : size_t(r.in(1, 3));
    auto v = vecs(r, n, dims, int(r.pick({1, 2, 6})), 15);
    size_t self = size_t(r.in(0, int64_t(n) - 1));
    std::vector<uint32_t> ids;
    for (size_t i = 0; i < n; ++i) {
        if (r.chance(80)) { ids.push_back(uint32_t(i)); }
    }
    r.shuffle(ids);
    if (r.chance(5)) { ids.clear(); }
    std::stable_sort(ids.begin(), ids.end(), [&](auto a, auto b) {
        int x = dist(v[self], v[a]), y = dist(v[self], v[b]);
        return IS_L2 ? x < y : x > y;
    });
    auto a = alpha(r);
    size_t limit = size_t(r.in(1, 8));
    prune_on(r, log, v, dims, self, ids, a, limit, int(r.in(0, 2)));
}

// Every arrangement of up to four points on a short line (inner product: a small plane),
// every factor, limit and rule: part i of n.
static void prune_all(Rng& r, vd::Log& log, size_t part, size_t parts) {
    std::vector<Alpha> as = IS_L2 ? std::vector<Alpha>{{1, 1}, {5, 4}, {3, 2}, {2, 1}}
                                  : std::vector<Alpha>{{1, 1}, {3, 4}, {1, 2}};
    std::vector<std::vector<int>> pts;
    if (IS_L2) { pts = {{0}, {1}, {2}, {3}, {5}}; }
    else if (COS) { pts = {{1, 0, 0, 0}, {1, 1, 1, 1}, {-2, 0, 0, 0}, {0, 1, 0, 0}, {1, 1, 1, -1}}; }
    else { pts = {{0, 1}, {1, 0}, {1, 1}, {2, -1}, {1, 2}}; }
    size_t at = 0;
    for (size_t n = 1; n <= 4; ++n) {
        size_t count = 1;
        for (size_t i = 0; i < n; ++i) { count *= pts.size(); }
        for (size_t c = 0; c < count; ++c) {
            if (at++ % parts != part) { continue; }
            Vecs v;
            size_t x = c;
            for (size_t i = 0; i < n; ++i) { v.push_back(pts[x % pts.size()]); x /= pts.size(); }
            std::vector<uint32_t> ids;
            for (size_t i = 0; i < n; ++i) { ids.push_back(uint32_t(i)); }
            std::stable_sort(ids.begin(), ids.end(), [&](auto p, auto q) {
                int s = dist(v[0], v[p]), t = dist(v[0], v[q]);
                return IS_L2 ? s < t : s > t;
            });
            for (auto a : as) {
                for (size_t limit = 1; limit <= 3; ++limit) {
                    for (int which = 0; which < 3; ++which) { prune_on(r, log, v, pts[0].size(), 0, ids, a, limit, which); }
                }
            }
        }
    }
}

///// Traversal

struct LogTracker {
    std::vector<uint32_t>& ids;
    std::vector<size_t>& work;
    template <typename I> void visited(Neighbor<I> n, size_t k) { ids.push_back(n.id()); work.push_back(k); }
};

template <typename Rank> static vd::J answer(const QueryResult<size_t>& res, size_t i, Rank rank) {
    std::vector<int64_t> ids;
    std::vector<float> ds;
    for (size_t k = 0; k < res.n_neighbors(); ++k) {
        auto x = res.index(i, k);
        ids.push_back(x == std::numeric_limits<size_t>::max() || x == std::numeric_limits<uint32_t>::max()
                          ? -1 : rank(x));
        ds.push_back(res.distance(i, k) * SC);
    }
    vd::Obj o;
    o("ids", ids)("ds", ds);
    return o.done();
}

// Where the vertices of a case lie in the id space: side by side, or far apart so that ids
// meet in the table of the visited filter (which has 65536 places). The order is kept, so
// that the specification sees the ranks.
struct Place {
    std::vector<uint32_t> at;
    size_t total = 0;
    explicit Place(size_t n) : total{n} { for (size_t i = 0; i < n; ++i) { at.push_back(uint32_t(i)); } }
    Place(Rng& r, size_t n, size_t heights) : total{heights * 65536} {
        std::vector<uint32_t> low;
        for (int64_t i = 0, m = r.in(1, 4); i < m; ++i) { low.push_back(uint32_t(r.in(0, 65535))); }
        std::set<uint32_t> s;
        while (s.size() < n) {
            auto x = r.chance(70) ? r.pick(low) : uint32_t(r.in(0, 65535));
            s.insert(x + 65536U * uint32_t(r.in(0, int64_t(heights) - 1)));
        }
        at.assign(s.begin(), s.end());
    }
    int64_t rank(size_t id) const {
        auto i = std::lower_bound(at.begin(), at.end(), id);
        return i != at.end() && *i == id ? i - at.begin() : -2;
    }
    template <typename G> G graph(const Lists& g, size_t deg) const {
        auto make = [&]() {
            if constexpr (std::is_same_v<G, SmallGraph>) { return SmallGraph(deg, total); }
            else { return G(total, deg); }
        };
        G out = make();
        for (size_t i = 0; i < g.size(); ++i) {
            std::vector<uint32_t> x;
            for (auto j : g[i]) { x.push_back(at[j]); }
            out.replace_node(at[i], x);
        }
        return out;
    }
    Data data(const Vecs& v, size_t dims) const {
        Data d(total, dims);
        if (total > v.size()) { std::fill_n(d.data(), total * dims, T(0)); }
        for (size_t i = 0; i < v.size(); ++i) {
            std::vector<T> t(v[i].begin(), v[i].end());
            d.set_datum(at[i], t);
        }
        return d;
    }
};

// The visited filter on its own: a key reported as seen was seen since the last reset.
template <typename F> static void filter_ops(Rng& r, vd::Log& log, const char* name, F&& f, uint32_t top) {
    f.clear();
    std::vector<std::vector<int64_t>> ops;
    std::vector<uint32_t> low, seen;
    for (int64_t i = 0, m = r.in(1, 40); i < m; ++i) { low.push_back(uint32_t(r.in(0, 65535))); }
    bool dense = r.chance(50);
    uint32_t base = uint32_t(r.in(0, int64_t(top / 4)));
    size_t n = size_t(r.in(20, 700));
    for (size_t i = 0; i < n; ++i) {
        uint32_t key = 0;
        if (dense) { key = base + uint32_t(r.in(0, 2 * int64_t(n))); }
        else if (!seen.empty() && r.chance(30)) { key = r.pick(seen); }
        else if (r.chance(70)) { key = (r.pick(low) + 65536U * uint32_t(r.in(0, 8))) % top; }
        else { key = uint32_t(r.in(0, int64_t(top) - 1)); }
        if (r.in(0, 999) < 4) { f.clear(); seen.clear(); ops.push_back({0, 0, 0}); continue; }
        if (r.chance(50)) { ops.push_back({1, key, f.emplace(key) ? 1 : 0}); seen.push_back(key); }
        else { ops.push_back({2, key, f.contains(key) ? 1 : 0}); }
    }
    // Every key near one that was put in: the ones it reports.
    uint32_t near = seen.empty() ? base : r.pick(seen);
    uint32_t from = near - near % 65536;
    for (uint32_t key = from, left = 1000; key - from < 65536 && left > 0; ++key) {
        if (f.contains(key)) { ops.push_back({2, key, 1}); --left; }
    }
    std::vector<vd::J> o;
    for (auto& x : ops) { o.push_back(vd::j(x)); }
    log(vd::ev("filter")("what", name)("ops", vd::j(o)));
}
template <size_t N> struct Plain {
    vam::VisitedFilter<uint32_t, N> f{};
    void clear() { f.reset(); }
    bool emplace(uint32_t k) { f.prefetch(k); return f.emplace(k); }
    bool contains(uint32_t k) { return f.contains(k); }
};
template <typename B> struct InBuffer {
    B b{vam::SearchBufferConfig(3, 4), {}, true};
    void clear() { b.clear(); }
    bool emplace(uint32_t k) { b.prefetch_visited(k); return b.emplace_visited(k); }
    bool contains(uint32_t k) { return b.is_visited(k); }
};
static void filter_case(Rng& r, vd::Log& log) {
    // Keys up to 2^31 - 1 (the range of TLC's integers).
    uint32_t top = r.pick({uint32_t(5000), uint32_t(1) << 17, uint32_t(1) << 20, uint32_t(0x7fffffff)});
    static Plain<16> p16; static Plain<18> p18;
    using C = distance::compare_t<Dist_>;
    static InBuffer<vam::SearchBuffer<uint32_t, C>> sb;
    static InBuffer<vam::MutableBuffer<uint32_t, C>> mb;
    switch (r.in(0, 5)) {
        case 0: filter_ops(r, log, "4 bits", Plain<4>(), top); break;
        case 1: filter_ops(r, log, "10 bits", Plain<10>(), top); break;
        case 2: filter_ops(r, log, "16 bits", p16, top); break;
        case 3: filter_ops(r, log, "18 bits", p18, top); break;
        case 4: filter_ops(r, log, "search buffer", sb, top); break;
        default: filter_ops(r, log, "dynamic search buffer", mb, top);
    }
}

static void search_case(Rng& r, vd::Log& log, bool big) {
    size_t n = size_t(big ? r.in(30, 70) : r.in(1, 14)), dims = COS ? 4 : size_t(r.in(1, 4));
    size_t deg = size_t(r.in(1, big ? 8 : 4));
    auto v = vecs(r, n, dims, int(r.pick({2, 6, 9})), 10);
    auto g = random_graph(r, n, deg);
    size_t nq = size_t(r.in(1, 3));
    auto q = vecs(r, nq, dims, 9, 0);
    size_t cap = size_t(r.in(1, big ? 20 : 9));
    size_t w = r.chance(50) ? cap : size_t(r.in(1, int64_t(cap)));
    size_t k = size_t(r.in(1, 7));
    if (r.chance(25)) { w = n; cap = n + size_t(r.in(0, 2)); }
    uint32_t ep = uint32_t(r.in(0, int64_t(n) - 1));
    int dead = r.chance(40) ? 0 : int(r.pick({20, 60, 95}));
    std::vector<bool> ok;
    for (size_t i = 0; i < n; ++i) { ok.push_back(!r.chance(dead)); }
    bool dynamic = r.chance(50);
    bool far = r.chance(dynamic ? 8 : 30);
    auto pl = far ? Place(r, n, dynamic ? 2 : size_t(r.in(2, 8))) : Place(n);
    auto rank = [&](size_t x) { return pl.rank(x); };
    std::vector<std::vector<vd::J>> runs(nq);
    std::vector<std::string> labels;
    auto settings = [&](vam::VamanaSearchParameters& sp, size_t t) {
        sp.buffer_config_ = vam::SearchBufferConfig(w, cap);
        sp.search_buffer_visited_set_ = (t & 1) != 0;
        sp.prefetch_lookahead_ = t == 0 ? 0 : size_t(r.in(0, 9));
        sp.prefetch_step_ = t == 0 ? 0 : size_t(r.in(0, 4));
    };
    auto qd = makef(q, dims);
    if (!dynamic) {
        for (size_t i = 0; i < n; ++i) { ok[i] = true; }
        using G = graphs::SimpleGraph<uint32_t>;
        auto idx = vam::VamanaIndex<G, Data, Dist_>(pl.graph<G>(g, deg), pl.data(v, dims), pl.at[ep], Dist_{}, size_t(r.in(1, 3)));
        for (size_t t = 0; t < 4; ++t) {
            auto sp = idx.get_search_parameters();
            settings(sp, t);
            if (r.chance(30)) { idx.set_num_threads(size_t(r.in(1, 4))); }
            auto res = QueryResult<size_t>(nq, k);
            if (t == 2) {
                // Through scratch space, one query at a time.
                auto sp2 = sp;
                if (cap < k) { sp2.buffer_config_ = vam::SearchBufferConfig(k, k); }
                auto scratch = idx.scratchspace(sp2);
                for (size_t i = 0; i < nq; ++i) {
                    idx.search(qd.get_datum(i), scratch);
                    for (size_t j = 0; j < k; ++j) {
                        bool there = j < scratch.buffer.size();
                        res.index(i, j) = there ? scratch.buffer[j].id() : std::numeric_limits<size_t>::max();
                        res.distance(i, j) = there ? scratch.buffer[j].distance() : 0;
                    }
                }
            } else {
                idx.search(res.view(), qd.cview(), sp);
            }
            for (size_t i = 0; i < nq; ++i) { runs[i].push_back(answer(res, i, rank)); }
        }
    } else {
        std::vector<size_t> ids, del;
        for (size_t i = 0; i < pl.total; ++i) { ids.push_back(i + 100); }
        for (size_t i = 0; i < n; ++i) { if (!ok[i]) { del.push_back(pl.at[i] + 100); } }
        auto idx = vam::MutableVamanaIndex<SmallGraph, Data, Dist_>(
            pl.graph<SmallGraph>(g, deg), pl.data(v, dims), pl.at[ep], Dist_{}, ids, size_t(r.in(1, 3)));
        idx.delete_entries(del);
        for (size_t t = 0; t < 3; ++t) {
            auto sp = idx.get_search_parameters();
            settings(sp, t);
            auto res = QueryResult<size_t>(nq, k);
            idx.search(res.view(), qd.cview(), sp);
            for (size_t i = 0; i < nq; ++i) { runs[i].push_back(answer(res, i, [&](size_t x) { return rank(x - 100); })); }
        }
    }
    for (size_t i = 0; i < nq; ++i) {
        log(vd::ev("search")("kind", KIND)("dynamic", dynamic)("g", lists(g))("vecs", rows(v))("ep", ep)
            ("ok", ok)("q", q[i])("w", w)("cap", cap)("k", k)("runs", runs[i]));
    }
    // The traversal itself, from several entry points at different distances.
    {
        std::vector<uint32_t> eps;
        std::set<int> used;
        for (size_t i = 0; i < n && eps.size() < size_t(r.in(1, 3)); ++i) {
            auto e = uint32_t(r.in(0, int64_t(n) - 1));
            if (used.insert(dist(q[0], v[e])).second) { eps.push_back(e); }
        }
        using G = graphs::SimpleGraph<uint32_t>;
        auto gr = pl.graph<G>(g, deg);
        auto d = pl.data(v, dims);
        for (auto& e : eps) { e = pl.at[e]; }
        auto buf = vam::SearchBuffer<uint32_t, distance::compare_t<Dist_>>(
            vam::SearchBufferConfig(w, cap), {}, r.chance(50));
        auto df = Dist_();
        auto acc = data::GetDatumAccessor();
        std::vector<uint32_t> seq;
        std::vector<size_t> work;
        LogTracker tr{seq, work};
        vam::greedy_search(gr, d, acc, qd.get_datum(0), df, buf, eps, vam::NeighborBuilder(), tr,
            vam::GreedySearchPrefetchParameters{size_t(r.in(0, 5)), size_t(r.in(0, 3))});
        std::vector<uint32_t> out;
        std::vector<float> ds;
        for (size_t i = 0; i < buf.size(); ++i) { out.push_back(buf[i].id()); ds.push_back(buf[i].distance() * SC); }
        for (auto* l : {&eps, &seq, &out}) { for (auto& x : *l) { x = uint32_t(rank(x)); } }
        log(vd::ev("greedy")("kind", KIND)("g", lists(g))("vecs", rows(v))("eps", eps)("q", q[0])("w", w)
            ("cap", cap)("log", seq)("out", out)("ds", ds));
    }
}

///// Construction, insertion, repair

static vd::J params(size_t deg, size_t window, size_t pool, size_t prune_to, bool full, Alpha a) {
    vd::Obj o;
    o("deg", deg)("window", window)("pool", pool)("pruneTo", prune_to)("full", full)("alpha", frac(a));
    return o.done();
}

// wide: more vertices than the groups in which the library handles them, tiny lists.
static void build_case(Rng& r, vd::Log& log, bool big, bool wide = false) {
    size_t n = size_t(wide ? r.in(1001, 1100) : big ? r.in(41, 64) : r.in(1, 13)), dims = COS ? 4 : size_t(r.in(1, 3));
    auto v = vecs(r, n, dims, int(r.pick({1, 4, 9})), 12);
    size_t deg = size_t(r.in(1, big ? 6 : 4));
    size_t prune_to = r.chance(50) ? deg : size_t(r.in(1, int64_t(deg)));
    size_t window = size_t(r.in(1, 8)), pool = size_t(r.in(1, 14));
    bool full = r.chance(50);
    auto a = alpha(r);
    if (wide) {
        v = vecs(r, n, dims, 100, 1);
        deg = size_t(r.in(2, 3)); prune_to = size_t(r.in(1, 2)); window = size_t(r.in(1, 2)); pool = size_t(r.in(2, 4));
        full = false;
    }
    auto prm = vam::VamanaBuildParameters{a.f(), deg, window, pool, prune_to, full};
    size_t threads = wide ? 1 : size_t(r.in(1, 4));
    uint32_t ep = uint32_t(r.in(0, int64_t(n) - 1));
    using G = SharedGraph;
    auto built = G(n, deg);
    auto idx = vam::VamanaIndex<G, Data, Dist_>(prm, built, make(v, dims), ep, Dist_{},
        threads::NativeThreadPool(threads));
    log(vd::ev("build")("kind", KIND)("vecs", rows(v))("ep", ep)("prm", params(deg, window, pool, prune_to, full, a))
        ("threads", threads)("exact", threads == 1 || n <= 40)("g", lists(read_graph(built))));
}

// Many threads, repeated vectors and a full-degree hub: only the bounds are determined.
static void stress_case(Rng& r, vd::Log& log) {
    size_t n = size_t(r.in(200, 500)), dims = COS ? 4 : size_t(r.in(1, 3));
    auto v = vecs(r, n, dims, int(r.pick({1, 3, 9})), 30);
    size_t deg = size_t(r.in(1, 5));
    size_t prune_to = size_t(r.in(1, int64_t(deg)));
    auto a = alpha(r);
    auto prm = vam::VamanaBuildParameters{a.f(), deg, size_t(r.in(1, 10)), size_t(r.in(1, 20)), prune_to, r.chance(50)};
    uint32_t ep = uint32_t(r.in(0, int64_t(n) - 1));
    using G = SharedGraph;
    auto built = G(n, deg);
    auto idx = vam::VamanaIndex<G, Data, Dist_>(prm, built, make(v, dims), ep, Dist_{},
        threads::NativeThreadPool(size_t(r.in(2, 6))));
    log(vd::ev("bounds")("n", n)("deg", deg)("g", lists(read_graph(built))));
}

static void update_case(Rng& r, vd::Log& log) {
    size_t n = size_t(r.in(2, 10)), dims = COS ? 4 : size_t(r.in(1, 3));
    auto v = vecs(r, n, dims, int(r.pick({3, 9})), 8);
    size_t deg = size_t(r.in(1, 4));
    auto g = random_graph(r, n, deg);
    uint32_t ep = uint32_t(r.in(0, int64_t(n) - 1));
    std::vector<size_t> ids;
    for (size_t i = 0; i < n; ++i) { ids.push_back(i + 100); }
    auto idx = vam::MutableVamanaIndex<SmallGraph, Data, Dist_>(
        make_graph<SmallGraph>(g, deg), make(v, dims), ep, Dist_{}, ids, size_t(r.in(1, 3)));
    auto a = alpha(r);
    size_t window = size_t(r.in(1, 8)), pool = size_t(r.in(1, 12));
    bool full = r.chance(50);
    idx.set_alpha(a.f());
    idx.set_construction_window_size(window);
    idx.set_max_candidates(pool);
    idx.set_full_search_history(full);
    auto prm = params(deg, window, pool, deg, full, a);
    size_t next = 100 + n;
    std::vector<bool> dead(n, false), empty(n, false);
    auto content = v;
    for (int step = 0; step < 4; ++step) {
        // Delete some.
        std::vector<size_t> live;
        for (size_t i = 0; i < dead.size(); ++i) { if (!dead[i] && !empty[i]) { live.push_back(i); } }
        std::vector<size_t> del;
        for (auto i : live) { if (r.chance(30) && del.size() + 2 < live.size()) { del.push_back(i); } }
        std::vector<size_t> del_ids;
        for (auto i : del) { del_ids.push_back(idx.translate_internal_id(i)); dead[i] = true; }
        idx.delete_entries(del_ids);
        if (r.chance(60)) {
            auto before = read_graph(idx.view_graph());
            uint32_t e0 = idx.entry_point();
            idx.consolidate();
            log(vd::ev("repair")("kind", KIND)("vecs", rows(content))("prm", prm)("g", lists(before))
                ("dead", dead)("empty", empty)("ep", e0)("after", lists(read_graph(idx.view_graph()))));
            for (size_t i = 0; i < dead.size(); ++i) { if (dead[i]) { dead[i] = false; empty[i] = true; } }
        }
        // Add some.
        size_t k = size_t(r.in(1, 4));
        auto nv = vecs(r, k, dims, 9, 10);
        std::vector<size_t> nid;
        for (size_t i = 0; i < k; ++i) { nid.push_back(next++); }
        auto before = read_graph(idx.view_graph());
        auto slots = idx.add_points(make(nv, dims), nid);
        size_t m = idx.view_data().size();
        content.resize(m, std::vector<int>(dims, 0));
        dead.resize(m, false);
        empty.resize(m, false);
        before.resize(m);
        for (size_t i = 0; i < k; ++i) {
            if (slots[i] < m) { content[slots[i]] = nv[i]; before[slots[i]].clear(); empty[slots[i]] = false; }
        }
        log(vd::ev("insert")("kind", KIND)("vecs", rows(content))("prm", prm)("g", lists(before))
            ("slots", slots)("empty", empty)("ep", size_t(idx.entry_point()))("after", lists(read_graph(idx.view_graph()))));
    }
}

// Consolidation of a graph in several batches.
static void repair_case(Rng& r, vd::Log& log, bool wide = false) {
    size_t n = size_t(wide ? r.in(1001, 1300) : r.in(1, 16)), dims = COS ? 4 : size_t(r.in(2, 3)), deg = size_t(r.in(1, 4));
    auto v = vecs(r, n, dims, wide ? 20 : 9, 3);
    auto g = random_graph(r, n, deg);
    std::vector<bool> dead;
    int p = wide ? 6 : int(r.pick({10, 40, 80}));
    for (size_t i = 0; i < n; ++i) { dead.push_back(r.chance(p)); }
    auto gr = make_graph<SmallGraph>(g, deg);
    auto d = make(v, dims);
    auto a = alpha(r);
    size_t prune_to = size_t(r.in(1, int64_t(deg))), pool = size_t(r.in(1, 10));
    auto tp = threads::NativeThreadPool(size_t(r.in(1, 3)));
    auto df = Dist_();
    size_t batch = r.pick({size_t(1), size_t(2), size_t(5), size_t(200)});
    if (wide) { batch = r.pick({size_t(300), size_t(700), size_t(200'000)}); }
    auto c = vam::GraphConsolidator{gr, d, tp, df, vam::ConsolidationParameters{batch, prune_to, pool, a.f()}};
    auto is_dead = [&](size_t i) { return bool(dead[i]); };
    c(is_dead);
    log(vd::ev("repair")("kind", KIND)("vecs", rows(v))("prm", params(deg, 1, pool, prune_to, false, a))
        ("g", lists(g))("dead", dead)("empty", std::vector<bool>(n, false))("ep", 0)
        ("after", lists(read_graph(gr))));
}

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    vd::Log log(a.str("out", "/dev/stdout"));
    Rng r(uint64_t(a.num("seed", 1)));
    size_t n = size_t(a.num("n", 100));
    auto mode = a.str("mode", "prune");
    if (mode == "prune") { prune_all(r, log, size_t(a.num("part", 0)), size_t(a.num("parts", 1))); }
    for (size_t i = 0; i < n; ++i) {
        if (mode == "prune") { prune_case(r, log); }
        else if (mode == "search") { search_case(r, log, i % 10 == 9); filter_case(r, log); }
        else if (mode == "build") {
            build_case(r, log, i % 8 == 7);
            if (i == 0 && OPS_WHICH == 0 && a.num("part", 0) == 0) { build_case(r, log, false, true); } if (i % 4 == 0) { update_case(r, log); } if (i % 10 == 3) { stress_case(r, log); } }
        else if (mode == "update") { update_case(r, log); repair_case(r, log); if (i % 24 == 0) { repair_case(r, log, true); } }
    }
    return 0;
}
