// Clustering for the inverted index and searching it, on small integer data.
#include "common.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/index/inverted/clustering.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/vamana/index.h"
#include "svs/orchestrators/inverted.h"

#include <filesystem>
#include <map>
#include <set>

using namespace svs;
using vd::Rng;
namespace vam = index::vamana;
namespace inv = index::inverted;
namespace fs = std::filesystem;

#ifndef INV_WHICH
#define INV_WHICH 0
#endif
#if INV_WHICH == 0
using T = float; using Dist_ = distance::DistanceL2; static const char* KIND = "L2";
#elif INV_WHICH == 1
using T = float; using Dist_ = distance::DistanceIP; static const char* KIND = "IP";
#else
using T = int8_t; using Dist_ = distance::DistanceL2; static const char* KIND = "L2";
#endif
constexpr bool IS_L2 = std::is_same_v<Dist_, distance::DistanceL2>;
using Data = data::SimpleData<T>;
using Graph = graphs::SimpleGraph<uint32_t>;
using Ids = std::vector<uint32_t, lib::Allocator<uint32_t>>;
using Vecs = std::vector<std::vector<int>>;

static fs::path scratch;
static fs::path fresh(const char* name) {
    static int n = 0;
    auto p = scratch / (std::string(name) + std::to_string(n++));
    fs::remove_all(p);
    return p;
}

static vd::J rows(const Vecs& v) {
    std::vector<vd::J> o;
    for (auto& x : v) { o.push_back(vd::j(x)); }
    return vd::j(o);
}
template <typename U> data::SimpleData<U> make_as(const Vecs& v, size_t dims) {
    data::SimpleData<U> d(v.size(), dims);
    for (size_t i = 0; i < v.size(); ++i) {
        std::vector<U> t(v[i].begin(), v[i].end());
        d.set_datum(i, t);
    }
    return d;
}
static Data make(const Vecs& v, size_t dims) { return make_as<T>(v, dims); }
static Vecs read(const Data& d) {
    Vecs v;
    for (size_t i = 0; i < d.size(); ++i) {
        std::vector<int> x;
        for (auto y : d.get_datum(i)) { x.push_back(int(y)); }
        v.push_back(x);
    }
    return v;
}
static int dist(const std::vector<int>& a, const std::vector<int>& b) {
    int s = 0;
    for (size_t i = 0; i < a.size(); ++i) { s += IS_L2 ? (a[i] - b[i]) * (a[i] - b[i]) : a[i] * b[i]; }
    return s;
}
static Vecs vecs(Rng& r, size_t n, size_t dims, int range, int dup) {
    Vecs v;
    for (size_t i = 0; i < n; ++i) {
        if (i > 0 && r.chance(dup)) { auto c = v[size_t(r.in(0, int64_t(i) - 1))]; v.push_back(c); continue; }
        std::vector<int> x;
        for (size_t k = 0; k < dims; ++k) { x.push_back(int(r.in(-range, range))); }
        v.push_back(x);
    }
    return v;
}
template <typename G> vd::J read_graph(const G& g) {
    std::vector<vd::J> o;
    for (size_t i = 0; i < g.n_nodes(); ++i) {
        auto n = g.get_node(i);
        o.push_back(vd::j(std::vector<uint32_t>(n.begin(), n.end())));
    }
    return vd::j(o);
}
static Ids some_centroids(Rng& r, size_t n, size_t most) {
    std::set<uint32_t> s;
    size_t m = size_t(r.in(1, int64_t(std::min(n, most))));
    while (s.size() < m) { s.insert(uint32_t(r.in(0, int64_t(n) - 1))); }
    return Ids(s.begin(), s.end());
}
struct Frac { int n, d; double f() const { return double(n) / double(d); } };
static vd::J frac(Frac a) { return vd::j(std::vector<int>{a.n, a.d}); }
static Frac epsilon(Rng& r) { return r.pick({Frac{0, 1}, Frac{0, 1}, Frac{1, 4}, Frac{1, 2}, Frac{1, 1}, Frac{3, 1}, Frac{10, 1}}); }

///// Clustering

static vd::J cluster_rows(const inv::Clustering<uint32_t>& c) {
    std::vector<vd::J> o;
    c.for_each_cluster([&](const auto& cluster) {
        std::vector<vd::J> e;
        for (auto n : cluster) { e.push_back(vd::j(std::vector<double>{double(n.id()), double(n.distance())})); }
        std::vector<vd::J> pair{vd::j(cluster.centroid()), vd::j(e)};
        o.push_back(vd::j(pair));
    });
    return vd::j(o);
}
static void describe(vd::Obj& o, const inv::Clustering<uint32_t>& c, size_t n) {
    std::vector<uint32_t> hist(n, 0);
    for (auto kv : c.leaf_histogram()) { if (kv.first < n) { hist[kv.first] = kv.second; } }
    std::vector<int64_t> packed(n, -1);
    for (auto kv : c.packed_leaf_translation()) { if (kv.first < n) { packed[kv.first] = kv.second; } }
    auto s = c.statistics();
    auto sorted = c.sorted_centroids();
    auto rest = c.complement(n);
    o("clusters", cluster_rows(c))("hist", hist)("packed", packed)("size", c.size())("total", c.total_size());
    o("sorted", vd::jr(sorted))("rest", rest);
    o("stats", std::vector<size_t>{s.min_size_, s.max_size_, s.empty_clusters_, s.num_clusters_, s.num_leaves_});
}

static void cluster_case(Rng& r, vd::Log& log) {
    size_t n = size_t(r.chance(15) ? r.in(1, 4) : r.chance(8) ? r.in(40, 120) : r.in(4, 26));
    size_t dims = size_t(r.in(1, 3));
    auto v = vecs(r, n, dims, int(r.pick({1, 3, 6})), r.pick({0, 10, 30}));
    auto data = make(v, dims);
    auto centroids = some_centroids(r, n, 8);
    auto a = IS_L2 ? r.pick({Frac{1, 1}, Frac{1, 1}, Frac{5, 4}, Frac{2, 1}}) : r.pick({Frac{1, 1}, Frac{3, 4}, Frac{1, 2}});
    auto eps = epsilon(r);
    inv::ClusteringParameters p;
    p.epsilon(eps.f()).refinement_alpha(a.f());
    p.max_replicas(size_t(r.in(0, 5))).num_intermediate_results(size_t(r.in(1, 10)));
    p.search_window_size(size_t(r.chance(70) ? 20 : r.in(1, 4)));
    p.max_cluster_size(r.chance(50) ? 0 : size_t(r.in(1, int64_t(n))));
    auto bp = vam::VamanaBuildParameters{IS_L2 ? 1.2f : 0.95f, size_t(r.in(2, 6)), 10, 20, 2, false};
    auto primary = inv::build_primary_index(data, lib::as_const_span(centroids), bp, Dist_(), threads::NativeThreadPool(1));
    auto o = vd::ev("cluster");
    o("kind", KIND)("vecs", rows(v))("centroids", vd::jr(centroids))("eps", frac(eps))("alpha", frac(a));
    o("replicas", p.max_replicas_)("max", p.max_cluster_size_)("near_k", p.num_intermediate_results_);
    // What the primary index finds for every vector.
    primary.set_search_parameters(vam::VamanaSearchParameters().buffer_config(p.search_window_size_));
    std::vector<vd::J> near;
    {
        QueryResult<size_t> res(n, p.num_intermediate_results_);
        primary.search(res.view(), data.cview(), primary.get_search_parameters());
        for (size_t i = 0; i < n; ++i) {
            std::vector<vd::J> row;
            for (size_t j = 0; j < p.num_intermediate_results_; ++j) {
                if (res.index(i, j) >= centroids.size()) { break; }
                row.push_back(vd::j(std::vector<double>{double(res.index(i, j)), double(res.distance(i, j))}));
            }
            near.push_back(vd::j(row));
        }
    }
    o("near", vd::j(near));
    std::vector<vd::J> runs;
    int m = int(r.in(1, 3));
    for (int i = 0; i < m; ++i) {
        vd::Obj run;
        p.batchsize(r.chance(30) ? 100000 : size_t(r.in(1, int64_t(n))));
        size_t t = size_t(r.in(1, 3));
        primary.set_num_threads(t);
        run("batch", p.batchsize_)("threads", t);
        bool err = false;
        auto c = inv::Clustering<uint32_t>();
        try { c = inv::cluster_with(data, lib::as_const_span(centroids), p, primary); } catch (const std::exception&) { err = true; }
        run("err", err);
        describe(run, c, n);
        if (!err) {
            auto dir = fresh("clustering");
            lib::save_to_disk(c, dir);
            auto again = lib::load_from_disk<inv::Clustering<uint32_t>>(dir);
            run("again", cluster_rows(again))("equal", again == c);
            fs::remove_all(dir);
        } else { run("again", std::vector<int>{})("equal", false); }
        runs.push_back(run.done());
    }
    o("runs", vd::j(runs));
    log(o);
}

// Size reduction of hand-made clusterings.
static void reduce_case(Rng& r, vd::Log& log) {
    size_t leaves = size_t(r.chance(20) ? r.in(20, 80) : r.in(1, 8));
    size_t m = size_t(r.in(1, 6));
    std::vector<uint32_t> ids;
    for (size_t i = 0; i < m; ++i) { ids.push_back(uint32_t(100 + i)); }
    auto c = inv::Clustering<uint32_t>(ids.begin(), ids.end());
    int pc = r.pick({30, 50, 80});
    for (auto id : ids) {
        for (size_t leaf = 0; leaf < leaves; ++leaf) {
            if (r.chance(pc)) { c.insert(id, {uint32_t(leaf), float(r.in(-5, 9))}); }
        }
    }
    bool sorted = r.chance(50);
    auto cmp = distance::comparator(Dist_());
    if (sorted) { c.sort_clusters(cmp); }
    auto o = vd::ev("reduce");
    size_t limit = size_t(r.in(1, int64_t(leaves)));
    if (r.chance(50)) {
        // About the size of one of the clusters.
        size_t which = size_t(r.in(0, int64_t(m) - 1)), size = 0;
        for (auto kv = c.begin(), e = c.end(); kv != e; ++kv) { if (which-- == 0) { size = kv.value().size(); break; } }
        limit = size_t(std::max<int64_t>(1, int64_t(size) - r.in(0, 2)));
    }
    o("kind", KIND)("limit", limit)("before", cluster_rows(c));
    auto copy = c;
    bool dry = sorted ? copy.reduce_maxsize_sorted(limit, true) : copy.reduce_maxsize(limit, cmp, true);
    o("dry", dry)("dryafter", cluster_rows(copy));
    bool err = false;
    bool ret = false;
    try { ret = sorted ? c.reduce_maxsize_sorted(limit) : c.reduce_maxsize(limit, cmp); } catch (const std::exception&) { err = true; }
    o("err", err)("ret", ret)("after", cluster_rows(c));
    log(o);
}

static void pick_case(Rng& r, vd::Log& log) {
    size_t n = size_t(r.in(1, 60));
    size_t k = size_t(r.chance(20) ? int64_t(n) : r.in(0, int64_t(n)));
    auto seed = r.next();
    auto a = inv::randomly_select_centroids(n, k, seed);
    auto b = inv::randomly_select_centroids(n, k, seed);
    log(vd::ev("pick")("n", n)("k", k)("ids", vd::jr(a))("again", vd::jr(b)));
}

///// Searching

static std::vector<int64_t> fields(const inv::InvertedSearchParameters& p) {
    auto& q = p.primary_parameters_;
    return {int64_t(q.buffer_config_.get_search_window_size()), int64_t(q.buffer_config_.get_total_capacity()),
            int64_t(q.search_buffer_visited_set_), int64_t(q.prefetch_lookahead_), int64_t(q.prefetch_step_),
            int64_t(p.refinement_epsilon_ * 4)};
}
static inv::InvertedSearchParameters some_parameters(Rng& r, Frac eps, size_t centroids) {
    size_t w = size_t(r.in(1, int64_t(centroids) + 2));
    size_t cap = r.chance(60) ? w : w + size_t(r.in(0, 3));
    vam::VamanaSearchParameters q;
    if (r.chance(5)) { w = 0; cap = 0; }
    q.buffer_config({w, cap}).search_buffer_visited_set(r.chance(40));
    q.prefetch_lookahead(size_t(r.in(0, 3))).prefetch_step(size_t(r.in(0, 3)));
    return {q, eps.f()};
}

// Runs of searches over anything with the interface of the inverted index.
template <typename Index> static std::vector<vd::J> searches(Rng& r, Index& index, const Vecs& v, size_t dims, size_t centroids, const char* via, int count) {
    std::vector<vd::J> out;
    for (int i = 0; i < count; ++i) {
        if (r.chance(40)) { index.set_num_threads(size_t(r.in(1, 3))); }
        if (r.chance(40)) { index.set_search_parameters(some_parameters(r, epsilon(r), centroids)); }
        auto eps = epsilon(r);
        auto p = some_parameters(r, eps, centroids);
        auto before = fields(index.get_search_parameters());
        bool stored = r.chance(15);
        if (stored) { index.set_search_parameters(p); before = fields(p); p = index.get_search_parameters(); }
        auto queries = vecs(r, size_t(r.in(1, 5)), dims, 6, 0);
        if (r.chance(30)) { queries[0] = v[size_t(r.in(0, int64_t(v.size()) - 1))]; }
        size_t k = size_t(r.chance(15) ? r.in(1, 30) : r.in(1, 6));
        vd::Obj run;
        run("via", via)("queries", rows(queries))("k", k)("eps", frac(eps))("params", fields(p));
        QueryResult<size_t> res(queries.size(), k);
        for (size_t a = 0; a < queries.size(); ++a) { for (size_t b = 0; b < k; ++b) { res.set(Neighbor<size_t>{0, 777.0f}, a, b); } }
        bool err = false;
        auto q = make_as<float>(queries, dims);
        try { index.search(res.view(), q.cview(), p); } catch (const std::exception&) { err = true; }
        run("err", err);
        std::vector<vd::J> ids;
        std::vector<vd::J> ds;
        for (size_t a = 0; a < queries.size(); ++a) {
            std::vector<int64_t> x;
            std::vector<double> y;
            for (size_t b = 0; b < k; ++b) {
                auto id = res.index(a, b);
                x.push_back(id == std::numeric_limits<size_t>::max() ? -1 : id < 1000000 ? int64_t(id) : -2);
                y.push_back(double(res.distance(a, b)));
            }
            ids.push_back(vd::j(x));
            ds.push_back(vd::j(y));
        }
        run("ids", vd::j(ids))("ds", vd::j(ds))("before", before)("after", fields(index.get_search_parameters()));
        out.push_back(run.done());
    }
    return out;
}

// An index put together from a graph and clusters chosen here.
static void made_case(Rng& r, vd::Log& log) {
    size_t n = size_t(r.chance(15) ? r.in(1, 4) : r.chance(8) ? r.in(40, 100) : r.in(4, 24));
    size_t dims = size_t(r.in(1, 3));
    auto v = vecs(r, n, dims, 6, r.pick({0, 10, 30}));
    auto data = make(v, dims);
    auto centroids = some_centroids(r, n, 8);
    size_t m = centroids.size();
    // Graph among the centroids: often complete.
    size_t deg = r.chance(60) ? std::max<size_t>(m - 1, 1) : size_t(r.in(1, 4));
    Graph graph(m, deg);
    for (size_t i = 0; i < m; ++i) {
        std::vector<uint32_t> e;
        for (uint32_t j = 0; j < m; ++j) { if (j != i) { e.push_back(j); } }
        r.shuffle(e);
        e.resize(std::min(e.size(), deg));
        graph.replace_node(uint32_t(i), e);
    }
    auto c = inv::Clustering<uint32_t>(centroids.begin(), centroids.end());
    int pc = r.pick({0, 20, 60});
    for (size_t i = 0; i < n; ++i) {
        if (c.contains(i)) { continue; }
        auto home = centroids[size_t(r.in(0, int64_t(m) - 1))];
        for (auto id : centroids) {
            if (id == home || r.chance(pc)) { c.insert(id, {uint32_t(i), float(dist(v[i], v[id]))}); }
        }
    }
    uint32_t ep = uint32_t(r.in(0, int64_t(m) - 1));
    auto o = vd::ev("inverted");
    o("kind", KIND)("vecs", rows(v))("centroids", vd::jr(centroids))("g", read_graph(graph))("ep", ep)("clusters", cluster_rows(c));
    auto primary_data = [&]() {
        Vecs w;
        for (auto id : centroids) { w.push_back(v[id]); }
        return make(w, dims);
    };
    o("primary", rows(read(primary_data())));
    auto copy_graph = [&]() {
        Graph g(m, deg);
        for (size_t i = 0; i < m; ++i) { g.replace_node(uint32_t(i), std::vector<uint32_t>(graph.get_node(i).begin(), graph.get_node(i).end())); }
        return g;
    };
    auto primary = vam::VamanaIndex(copy_graph(), primary_data(), ep, Dist_(), threads::NativeThreadPool(1));
    std::vector<vd::J> runs;
    if (r.chance(50)) {
        auto packed = inv::SparseStrategy()(data, c, HugepageAllocator<std::byte>());
        packed.set_prefetch_offset(size_t(r.in(0, 4)));
        auto index = inv::InvertedIndex(std::move(primary), std::move(packed), Ids(centroids), threads::NativeThreadPool(size_t(r.in(1, 3))));
        runs = searches(r, index, v, dims, m, "sparse", int(r.in(1, 5)));
    } else {
        auto packed = inv::DenseStrategy()(data, c, HugepageAllocator<std::byte>());
        auto index = inv::InvertedIndex(std::move(primary), std::move(packed), Ids(centroids), threads::NativeThreadPool(size_t(r.in(1, 3))));
        runs = searches(r, index, v, dims, m, "dense", int(r.in(1, 5)));
    }
    o("runs", vd::j(runs));
    log(o);
}

// Built by the library, saved, put together again.
static void built_case(Rng& r, vd::Log& log) {
    size_t n = size_t(r.in(10, 30));
    size_t dims = size_t(r.in(1, 3));
    auto v = vecs(r, n, dims, 6, r.pick({0, 20}));
    auto eps = epsilon(r);
    inv::ClusteringParameters p;
    p.epsilon(eps.f()).refinement_alpha(1.0).max_replicas(size_t(r.in(0, 4))).num_intermediate_results(size_t(r.in(1, 8)));
    p.search_window_size(20).percent_centroids(lib::Percent(double(r.in(11, 40)) / 100)).seed(r.next()).batchsize(size_t(r.in(1, 40)));
    auto bp = vam::VamanaBuildParameters{IS_L2 ? 1.2f : 0.95f, size_t(r.in(2, 6)), 10, 20, 2, false};
    inv::InvertedBuildParameters params(p, bp);
    auto cdir = fresh("clustering");
    auto config = fresh("config");
    auto gdir = fresh("graph");
    auto ddir = fresh("data");
    vd::J clusters;
    Ids centroids;
    auto keep = [&](const auto& c) {
        lib::save_to_disk(c, cdir);
        clusters = cluster_rows(c);
        centroids = c.sorted_centroids();
    };
    auto pick = [&](const auto& data, const auto& parameters, size_t threads) {
        if (r.chance(50)) { return inv::pick_centroids_randomly(data, parameters, threads); }
        return some_centroids(r, data.size(), 8);
    };
    auto o = vd::ev("inverted");
    o("kind", KIND)("vecs", rows(v));
    std::vector<vd::J> runs;
    auto finish = [&](auto& index, const char* via) {
        index.save_primary_index(config, gdir, ddir);
        for (auto& x : searches(r, index, v, dims, centroids.size(), via, int(r.in(1, 3)))) { runs.push_back(x); }
    };
    size_t threads = size_t(r.in(1, 3));
    bool dense = r.chance(50);
    bool orch = r.chance(50);
    auto go = [&](auto strategy) {
        if (orch) {
            auto index = Inverted::build<float>(params, make(v, dims), Dist_(), threads, strategy, pick, keep);
            finish(index, "orchestrator");
        } else {
            auto index = inv::auto_build(params, make(v, dims), Dist_(), threads, strategy, pick, keep);
            finish(index, "built");
        }
        // The saved parts, with the original data.
        if (r.chance(50)) {
            auto index = Inverted::assemble_from_clustering<float>(cdir, make(v, dims), Dist_(), config, gdir, threads, strategy);
            for (auto& x : searches(r, index, v, dims, centroids.size(), "assembled", int(r.in(1, 3)))) { runs.push_back(x); }
        } else {
            auto index = inv::assemble_from_clustering(cdir, make(v, dims), Dist_(), strategy, config, gdir, threads);
            for (auto& x : searches(r, index, v, dims, centroids.size(), "assembled", int(r.in(1, 3)))) { runs.push_back(x); }
        }
    };
    if (dense) { go(inv::DenseStrategy()); } else { go(inv::SparseStrategy()); }
    auto g = lib::load_from_disk<Graph>(gdir);
    auto d = lib::load_from_disk<Data>(ddir);
    auto config_ = lib::load_from_disk<vam::VamanaIndexParameters>(config);
    o("centroids", vd::jr(centroids))("g", read_graph(g))("ep", config_.entry_point)("clusters", clusters)("primary", rows(read(d)))("runs", vd::j(runs));
    log(o);
    for (auto& x : {cdir, config, gdir, ddir}) { fs::remove_all(x); }
}

int main(int argc, char** argv) {
    vd::Args args(argc, argv);
    auto out = args.str("out", "inverted.ndjson");
    vd::Log log(out);
    scratch = fs::absolute(out).string() + ".dir";
    fs::remove_all(scratch);
    fs::create_directories(scratch);
    svs::logging::set_level(svs::logging::Level::Off);
    Rng r(uint64_t(args.num("seed", 1)));
    auto mode = args.str("mode", "cluster");
    int64_t n = args.num("n", 100);
    for (int64_t i = 0; i < n; ++i) {
        if (mode == "cluster") {
            int64_t x = r.in(0, 99);
            if (x < 40) { cluster_case(r, log); } else if (x < 90) { reduce_case(r, log); } else { pick_case(r, log); }
        } else if (r.chance(75)) { made_case(r, log); } else { built_case(r, log); }
    }
    fs::remove_all(scratch);
    return 0;
}
