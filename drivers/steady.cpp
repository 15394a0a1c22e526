// The same questions asked again and again: in other batches, with other numbers of threads,
// after other calls.
#include "common.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/index/flat/flat.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include "svs/orchestrators/dynamic_vamana.h"
#include "svs/orchestrators/exhaustive.h"
#include "svs/orchestrators/inverted.h"
#include "svs/orchestrators/vamana.h"

#include <cstring>
#include <functional>
#include <set>

using namespace svs;
using vd::Rng;
namespace vam = index::vamana;
namespace inv = index::inverted;
namespace fs = std::filesystem;

#ifndef STEADY_WHICH
#define STEADY_WHICH 0
#endif

static fs::path scratch;

struct Stop {};
// Queries that cannot all be read.
struct Broken {
    using value_type = std::span<const float>;
    using const_value_type = std::span<const float>;
    const data::SimpleData<float>* d;
    size_t at;
    size_t size() const { return d->size(); }
    size_t dimensions() const { return d->dimensions(); }
    const_value_type get_datum(size_t i) const { if (i == at) { throw Stop{}; } return d->get_datum(i); }
    void prefetch(size_t) const {}
};

struct Hash {
    uint64_t h = 0xcbf29ce484222325ULL;
    void bytes(const void* p, size_t n) {
        auto c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i) { h = (h ^ c[i]) * 0x100000001b3ULL; }
    }
    template <typename T> void value(T x) { bytes(&x, sizeof(T)); }
    template <typename R> void range(const R& r) { value(size_t(r.size())); for (auto x : r) { value(x); } }
    template <typename D> void data(const D& d) {
        value(size_t(d.size()));
        value(size_t(d.dimensions()));
        for (size_t i = 0; i < d.size(); ++i) { range(d.get_datum(i)); }
    }
    template <typename G> void graph(const G& g) {
        value(size_t(g.n_nodes()));
        for (size_t i = 0; i < g.n_nodes(); ++i) { range(g.get_node(i)); }
    }
    std::string str() const { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }
};

using Res = QueryResultView<size_t>;
using Qs = data::SimpleData<float>;
// One index as the histories below see it. Parameters are named by their position in a list.
struct Subject {
    std::function<void(Res, const Qs&, size_t)> search;
    std::function<void(size_t)> set_params;
    std::function<std::string()> params;
    std::function<void(size_t)> set_threads;
    std::function<size_t()> threads;
    std::function<std::string()> observe;
    // Optional.
    std::function<void(Res, const Qs&, size_t, size_t)> broken; // ..., parameters, where
    std::function<void(Res, const Qs&, size_t)> single;         // one at a time, one scratch space
    std::function<void(const Qs&)> calibrate;
    std::function<void()> save;
    std::function<void(Res, const Qs&, size_t, size_t)> filtered; // ..., parameters, modulus
    std::vector<std::pair<size_t, size_t>> capacity;             // of each parameter set
};

static data::SimpleData<float> pick_rows(const Qs& all, const std::vector<size_t>& which) {
    Qs q(which.size(), all.dimensions());
    for (size_t i = 0; i < which.size(); ++i) { q.set_datum(i, all.get_datum(which[i])); }
    return q;
}
static vd::J row(const QueryResult<size_t>& res, size_t i) {
    std::vector<std::string> out;
    for (size_t j = 0; j < res.n_neighbors(); ++j) {
        char b[64];
        float d = res.distance(i, j);
        uint32_t bits;
        std::memcpy(&bits, &d, 4);
        snprintf(b, sizeof b, "%zu:%08x", size_t(res.index(i, j)), bits);
        out.push_back(b);
    }
    return vd::j(out);
}

static void history(Rng& r, vd::Log& log, const char* kind, Subject& s, const Qs& queries, size_t nparams, int len) {
    auto state = [&](vd::Obj& o) { o("state", s.observe())("inforce", s.params())("threads", s.threads()); };
    {
        auto o = vd::ev("begin");
        o("kind", kind)("params", nparams)("queries", queries.size());
        state(o);
        log(o);
    }
    // A few questions that come up often.
    size_t favourite_p = size_t(r.in(0, int64_t(nparams) - 1));
    size_t favourite_k = size_t(r.in(1, 5));
    for (int i = 0; i < len; ++i) {
        int what = int(r.in(0, 99));
        if (what < 12) {
            size_t t = size_t(r.in(1, 4));
            s.set_threads(t);
            auto o = vd::ev("threads");
            o("set", t);
            state(o);
            log(o);
        } else if (what < 22) {
            size_t p = size_t(r.in(0, int64_t(nparams) - 1));
            s.set_params(p);
            auto o = vd::ev("params");
            o("set", p);
            state(o);
            log(o);
        } else if (what < 28 && s.calibrate) {
            s.calibrate(queries);
            auto o = vd::ev("calibrated");
            state(o);
            log(o);
        } else if (what < 31 && s.save) {
            s.save();
            auto o = vd::ev("saved");
            state(o);
            log(o);
        } else {
            size_t p = r.chance(60) ? favourite_p : size_t(r.in(0, int64_t(nparams) - 1));
            size_t k = r.chance(60) ? favourite_k : size_t(r.chance(15) ? r.in(1, 40) : r.in(1, 6));
            std::vector<size_t> which;
            size_t m = size_t(r.chance(25) ? 1 : r.chance(15) ? r.in(20, 60) : r.in(1, 8));
            for (size_t j = 0; j < m; ++j) { which.push_back(size_t(r.in(0, int64_t(queries.size()) - 1))); }
            auto q = pick_rows(queries, which);
            QueryResult<size_t> res(m, k);
            for (size_t a = 0; a < m; ++a) { for (size_t b = 0; b < k; ++b) { res.set(Neighbor<size_t>{7, 777.0f}, a, b); } }
            if (what < 40 && s.broken) {
                bool err = false;
                try { s.broken(res.view(), q, p, size_t(r.in(0, int64_t(m) - 1))); } catch (...) { err = true; }
                auto o = vd::ev("broken");
                o("err", err);
                state(o);
                log(o);
                continue;
            }
            auto o = vd::ev("search");
            std::string how = "batch";
            if (what < 52 && s.single && k <= s.capacity[p].second) {
                s.single(res.view(), q, p);
                how = "single";
                o("filter", 0);
            } else if (what < 60 && s.filtered) {
                size_t mod = size_t(r.in(2, 4));
                s.filtered(res.view(), q, p, mod);
                how = "filtered";
                o("filter", mod);
            } else {
                s.search(res.view(), q, p);
                o("filter", 0);
            }
            std::vector<vd::J> rows;
            for (size_t a = 0; a < m; ++a) { rows.push_back(row(res, a)); }
            o("how", how)("p", p)("k", k)("which", which)("rows", vd::j(rows));
            state(o);
            log(o);
        }
    }
}

///// Making indexes

// A blocked graph with small blocks.
using GraphData = data::BlockedData<uint32_t, Dynamic, HugepageAllocator<uint32_t>>;
struct SmallGraph : graphs::SimpleGraphBase<uint32_t, GraphData> {
    using P = graphs::SimpleGraphBase<uint32_t, GraphData>;
    static auto alloc() {
        return data::Blocked<HugepageAllocator<uint32_t>>(data::BlockingParameters{.blocksize_bytes = lib::prevpow2(4096)});
    }
    SmallGraph(size_t max_degree, size_t n) : P(n, max_degree, alloc()) {}
    void unsafe_resize(size_t n) { P::data_.resize(n); }
    void add_node() { unsafe_resize(P::n_nodes() + 1); }
};

template <typename T> static data::SimpleData<T> some_data(Rng& r, size_t n, size_t dims, bool dup) {
    data::SimpleData<T> d(n, dims);
    for (size_t i = 0; i < n; ++i) {
        if (dup && i > 0 && r.chance(25)) {
            auto j = size_t(r.in(0, int64_t(i) - 1));
            std::vector<T> c(d.get_datum(j).begin(), d.get_datum(j).end());
            d.set_datum(i, c);
            continue;
        }
        std::vector<T> v;
        for (size_t k = 0; k < dims; ++k) {
            auto x = r.in(-1000, 1000);
            if (k == 0 && x == 0) { x = 1; }
            if constexpr (std::is_integral_v<T>) { v.push_back(T(x % 100 + (k == 0))); } else { v.push_back(T(float(x) / 64.0f)); }
        }
        d.set_datum(i, v);
    }
    return d;
}

static std::string text(const vam::VamanaSearchParameters& p) {
    return fmt::format("{} {} {} {} {}", p.buffer_config_.get_search_window_size(), p.buffer_config_.get_total_capacity(),
        p.search_buffer_visited_set_, p.prefetch_lookahead_, p.prefetch_step_);
}
static std::string text(const inv::InvertedSearchParameters& p) { return text(p.primary_parameters_) + fmt::format(" {}", p.refinement_epsilon_); }
static std::string text(const index::flat::FlatParameters& p) { return fmt::format("{} {}", p.data_batch_size_, p.query_batch_size_); }

static std::vector<vam::VamanaSearchParameters> vamana_params(Rng& r, size_t m) {
    std::vector<vam::VamanaSearchParameters> out;
    for (size_t i = 0; i < m; ++i) {
        size_t w = size_t(r.in(1, 12));
        size_t cap = w + (r.chance(50) ? 0 : size_t(r.in(0, 6)));
        out.push_back(vam::VamanaSearchParameters(
            vam::SearchBufferConfig{w, cap}, r.chance(40), size_t(r.in(0, 3)), size_t(r.in(0, 3))));
    }
    return out;
}

// What all kinds have in common.
template <typename Index, typename P> static void basics(Subject& s, Index& index, const std::vector<P>& params) {
    s.search = [&](Res v, const Qs& q, size_t p) { index::search_batch_into_with(index, v, q.cview(), params[p]); };
    s.set_params = [&](size_t p) { index.set_search_parameters(params[p]); };
    s.params = [&]() { return text(index.get_search_parameters()); };
    s.set_threads = [&](size_t t) { index.set_num_threads(t); };
    s.threads = [&]() { return index.get_num_threads(); };
}
template <typename Manager, typename P> static void managed(Subject& s, Manager& index, const std::vector<P>& params) {
    s.search = [&](Res v, const Qs& q, size_t p) { index.search(v, q.cview(), params[p]); };
    s.set_params = [&](size_t p) { index.set_search_parameters(params[p]); };
    s.params = [&]() { return text(index.get_search_parameters()); };
    s.set_threads = [&](size_t t) { index.set_num_threads(t); };
    s.threads = [&]() { return index.get_num_threads(); };
    s.observe = [&]() { return fmt::format("{} {}", index.size(), index.dimensions()); };
}
template <typename Index> static void calibrated(Subject& s, Index& index, size_t ids) {
    s.calibrate = [&index, ids](const Qs& q) {
        auto before = index.get_search_parameters();
        data::SimpleData<uint32_t> truth(q.size(), 2);
        for (size_t i = 0; i < q.size(); ++i) { truth.set_datum(i, std::vector<uint32_t>{uint32_t(i % ids), uint32_t((i + 1) % ids)}); }
        index.calibrate(q, truth, 2, 0.5);
        index.set_search_parameters(before);
    };
}

template <typename T, typename D> static void flat_case(Rng& r, vd::Log& log, const char* kind, int len) {
    size_t n = size_t(r.chance(20) ? r.in(1, 6) : r.in(7, 120));
    size_t dims = size_t(r.in(1, 20));
    auto queries = some_data<float>(r, size_t(r.in(1, 8)), dims, false);
    auto d = some_data<T>(r, n, dims, r.chance(50));
    std::vector<index::flat::FlatParameters> params;
    size_t m = size_t(r.in(1, 4));
    for (size_t i = 0; i < m; ++i) { params.push_back({size_t(r.chance(30) ? 0 : r.in(1, 60)), size_t(r.chance(30) ? 0 : r.in(1, 9))}); }
    Subject s;
    if (r.chance(25)) {
        auto index = Flat::assemble<float>(std::move(d), D(), size_t(r.in(1, 3)));
        managed(s, index, params);
        history(r, log, kind, s, queries, m, len);
        return;
    }
    const T* base = d.data();
    auto index = index::flat::FlatIndex(std::move(d), D(), threads::NativeThreadPool(size_t(r.in(1, 3))));
    basics(s, index, params);
    s.observe = [&]() {
        Hash h;
        h.value(index.size());
        h.value(index.dimensions());
        h.bytes(base, n * dims * sizeof(T));
        return h.str();
    };
    s.filtered = [&](Res v, const Qs& q, size_t p, size_t mod) { index.search(v, q.cview(), params[p], [mod](size_t i) { return i % mod != 0; }); };
    s.broken = [&](Res v, const Qs& q, size_t p, size_t at) {
        std::atomic<size_t> calls{0};
        index.search(v, q.cview(), params[p], [&](size_t) { if (calls++ == at % n) { throw Stop{}; } return true; });
    };
    history(r, log, kind, s, queries, m, len);
}

template <typename T, typename D> static void static_case(Rng& r, vd::Log& log, const char* kind, int len) {
    size_t n = size_t(r.chance(20) ? r.in(1, 6) : r.in(7, 120));
    size_t dims = size_t(r.in(1, 20));
    auto queries = some_data<float>(r, size_t(r.in(1, 8)), dims, false);
    auto d = some_data<T>(r, n, dims, r.chance(50));
    size_t m = size_t(r.in(1, 4));
    auto params = vamana_params(r, m);
    bool l2 = std::is_same_v<D, distance::DistanceL2>;
    auto bp = vam::VamanaBuildParameters{l2 ? 1.2f : 0.95f, size_t(r.in(2, 8)), 10, 20, 2, r.chance(50)};
    Subject s;
    for (auto& p : params) { s.capacity.push_back({p.buffer_config_.get_search_window_size(), p.buffer_config_.get_total_capacity()}); }
    if (r.chance(25)) {
        auto index = Vamana::build<float>(bp, std::move(d), D(), size_t(r.in(1, 3)));
        managed(s, index, params);
        history(r, log, kind, s, queries, m, len);
        return;
    }
    const T* base = d.data();
    auto index = vam::auto_build(bp, std::move(d), D(), size_t(r.in(1, 3)));
    basics(s, index, params);
    calibrated(s, index, n);
    using Scratch = decltype(index.scratchspace());
    std::vector<Scratch> kept;
    for (auto& p : params) { kept.push_back(index.scratchspace(p)); }
    s.single = [&](Res v, const Qs& q, size_t p) {
        for (size_t i = 0; i < q.size(); ++i) {
            index.search(q.get_datum(i), kept[p]);
            auto& b = kept[p].buffer;
            using Compare = typename std::remove_cvref_t<decltype(b)>::compare_type;
            for (size_t j = 0; j < v.n_neighbors(); ++j) {
                if (j < b.size()) { v.set(b[j], i, j); } else { v.set(type_traits::sentinel_v<Neighbor<size_t>, Compare>, i, j); }
            }
        }
    };
    s.broken = [&](Res v, const Qs& q, size_t p, size_t at) { index.search(v, Broken{&q, at}, params[p]); };
    auto saved = [&]() {
        auto p = scratch / "static";
        fs::remove_all(p);
        fs::create_directories(p);
        index.save(p / "config", p / "graph", p / "data");
        Hash h;
        h.data(lib::load_from_disk<data::SimpleData<T>>(p / "data"));
        h.graph(lib::load_from_disk<graphs::SimpleGraph<uint32_t>>(p / "graph"));
        h.value(lib::load_from_disk<vam::VamanaIndexParameters>(p / "config").entry_point);
        fs::remove_all(p);
        return h.str();
    };
    std::string graph;
    s.observe = [&]() {
        Hash h;
        h.value(index.size());
        h.value(index.dimensions());
        h.bytes(base, n * dims * sizeof(T));
        h.value(index.get_alpha());
        h.value(index.get_max_candidates());
        h.value(index.get_construction_window_size());
        h.value(index.get_full_search_history());
        if (graph.empty() || r.chance(10)) { graph = saved(); }
        return h.str() + graph;
    };
    s.save = [&]() { graph = saved(); };
    history(r, log, kind, s, queries, m, len);
}

template <typename T, typename D> static void dynamic_case(Rng& r, vd::Log& log, const char* kind, int len) {
    size_t n = size_t(r.chance(20) ? r.in(1, 6) : r.in(7, 120));
    size_t dims = size_t(r.in(1, 20));
    auto queries = some_data<float>(r, size_t(r.in(1, 8)), dims, false);
    auto plain = some_data<T>(r, n, dims, r.chance(50));
    data::BlockedData<T> d(n, dims, data::Blocked<lib::Allocator<T>>(data::BlockingParameters{.blocksize_bytes = lib::prevpow2(4096)}));
    std::vector<size_t> ids;
    for (size_t i = 0; i < n; ++i) { d.set_datum(i, plain.get_datum(i)); ids.push_back(r.chance(50) ? 10 * i + 1 : 1000000007ULL * (i + 1)); }
    size_t m = size_t(r.in(1, 4));
    auto params = vamana_params(r, m);
    bool l2 = std::is_same_v<D, distance::DistanceL2>;
    auto bp = vam::VamanaBuildParameters{l2 ? 1.2f : 0.95f, size_t(r.in(2, 8)), 10, 20, 2, r.chance(50)};
    vam::MutableVamanaIndex<SmallGraph, data::BlockedData<T>, D> index{bp, std::move(d), ids, D(), size_t(r.in(1, 3))};
    auto gone = ids;
    r.shuffle(gone);
    gone.resize(r.chance(30) ? 0 : size_t(r.in(0, int64_t(n) / 2)));
    index.delete_entries(gone);
    if (r.chance(30)) { index.consolidate(); }
    Subject s;
    auto observe = [&](auto& x) {
        Hash h;
        h.value(x.size());
        h.value(x.dimensions());
        auto e = x.external_ids();
        std::sort(e.begin(), e.end());
        h.range(e);
        for (auto id : e) { h.range(x.get_datum(id)); h.value(size_t(x.translate_external_id(id))); }
        h.graph(x.view_graph());
        h.value(size_t(x.entry_point()));
        for (size_t i = 0; i < x.view_data().size(); ++i) { h.value(x.is_deleted(i)); }
        return h.str();
    };
    for (auto& p : params) { s.capacity.push_back({p.buffer_config_.get_search_window_size(), p.buffer_config_.get_total_capacity()}); }
    basics(s, index, params);
    calibrated(s, index, n);
    s.broken = [&](Res v, const Qs& q, size_t p, size_t at) { index.search(v, Broken{&q, at}, params[p]); };
    s.observe = [&]() { return observe(index); };
    history(r, log, kind, s, queries, m, len);
}

template <typename T, typename D> static void inverted_case(Rng& r, vd::Log& log, const char* kind, int len) {
    size_t n = size_t(r.in(10, 100));
    size_t dims = size_t(r.in(1, 12));
    auto queries = some_data<float>(r, size_t(r.in(1, 8)), dims, false);
    bool l2 = std::is_same_v<D, distance::DistanceL2>;
    inv::ClusteringParameters p;
    p.epsilon(0.5).refinement_alpha(1.0).max_replicas(size_t(r.in(0, 4))).num_intermediate_results(size_t(r.in(1, 8)));
    p.search_window_size(20).percent_centroids(lib::Percent(double(r.in(11, 40)) / 100)).seed(r.next());
    auto bp = vam::VamanaBuildParameters{l2 ? 1.2f : 0.95f, size_t(r.in(2, 6)), 10, 20, 2, false};
    inv::InvertedBuildParameters build(p, bp);
    size_t m = size_t(r.in(1, 4));
    std::vector<inv::InvertedSearchParameters> params;
    for (auto& q : vamana_params(r, m)) { params.push_back({q, r.pick({0.0, 0.25, 1.0, 4.0})}); }
    Subject s;
    auto d = some_data<T>(r, n, dims, r.chance(30));
    size_t threads = size_t(r.in(1, 3));
    auto go = [&](auto strategy) {
        if (r.chance(25)) {
            auto index = Inverted::build<float>(build, std::move(d), D(), threads, strategy);
            managed(s, index, params);
            history(r, log, kind, s, queries, m, len);
            return;
        }
        auto index = inv::auto_build(build, std::move(d), D(), threads, strategy);
        basics(s, index, params);
        s.broken = [&](Res v, const Qs& q, size_t p, size_t at) { index.search(v, Broken{&q, at}, params[p]); };
        auto saved = [&]() {
            auto p = scratch / "inverted";
            fs::remove_all(p);
            fs::create_directories(p);
            index.save_primary_index(p / "config", p / "graph", p / "data");
            Hash h;
            h.data(lib::load_from_disk<data::SimpleData<T>>(p / "data"));
            h.graph(lib::load_from_disk<graphs::SimpleGraph<uint32_t>>(p / "graph"));
            fs::remove_all(p);
            return h.str();
        };
        s.observe = [&]() { return fmt::format("{}", index.dimensions()); };
        auto first = saved();
        s.observe = [&, saved]() { return fmt::format("{} {}", index.dimensions(), r.chance(10) ? saved() : first); };
        history(r, log, kind, s, queries, m, len);
    };
    if (r.chance(50)) { go(inv::SparseStrategy()); } else { go(inv::DenseStrategy()); }
}

int main(int argc, char** argv) {
    vd::Args args(argc, argv);
    vd::Log log(args.str("out", "steady.ndjson"));
    svs::logging::set_level(svs::logging::Level::Off);
    vd::Rng r(uint64_t(args.num("seed", 1)));
    scratch = fs::path(args.str("out", "steady.ndjson") + ".dir");
    fs::create_directories(scratch);
    int64_t n = args.num("n", 10);
    int len = int(args.num("len", 30));
    for (int64_t i = 0; i < n; ++i) {
        int which = int(r.in(0, 2));
#if STEADY_WHICH == 0
        if (which == 0) { flat_case<float, distance::DistanceL2>(r, log, "flat L2", len); }
        else if (which == 1) { flat_case<float, distance::DistanceIP>(r, log, "flat IP", len); }
        else { flat_case<float, distance::DistanceCosineSimilarity>(r, log, "flat cosine", len); }
#elif STEADY_WHICH == 1
        if (which == 0) { static_case<float, distance::DistanceL2>(r, log, "static L2", len); }
        else if (which == 1) { static_case<int8_t, distance::DistanceIP>(r, log, "static int8 IP", len); }
        else { static_case<float, distance::DistanceCosineSimilarity>(r, log, "static cosine", len); }
#elif STEADY_WHICH == 2
        if (which == 0) { dynamic_case<float, distance::DistanceL2>(r, log, "dynamic L2", len); }
        else if (which == 1) { dynamic_case<Float16, distance::DistanceIP>(r, log, "dynamic float16 IP", len); }
        else { dynamic_case<float, distance::DistanceCosineSimilarity>(r, log, "dynamic cosine", len); }
#else
        if (which == 0) { inverted_case<float, distance::DistanceL2>(r, log, "inverted L2", len); }
        else { inverted_case<float, distance::DistanceIP>(r, log, "inverted IP", len); }
#endif
    }
    fs::remove_all(scratch);
    return 0;
}
