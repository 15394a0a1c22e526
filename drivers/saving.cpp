// Saving, loading, moving, copying, spoiling and interrupting. SAVE_WHICH 0: single objects;
// 1: whole indexes.
#include "common.h"
#include "faults.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/core/translation.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/inverted/memory_build_params.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include "svs/lib/saveload.h"
#if SAVE_WHICH == 1
#include "svs/orchestrators/dynamic_vamana.h"
#include "svs/orchestrators/inverted.h"
#include "svs/orchestrators/vamana.h"
#endif

#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sys/wait.h>

using namespace svs;
using vd::Rng;
namespace vam = index::vamana;
namespace inv = index::inverted;
namespace fs = std::filesystem;

#ifndef SAVE_WHICH
#define SAVE_WHICH 0
#endif

struct Hash {
    uint64_t h = 0xcbf29ce484222325ULL;
    void bytes(const void* p, size_t n) {
        auto c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i) { h = (h ^ c[i]) * 0x100000001b3ULL; }
    }
    template <typename T> void value(const T& x) { bytes(&x, sizeof(T)); }
    template <typename R> void range(const R& r) { value(size_t(r.size())); for (auto x : r) { value(x); } }
    void text(const std::string& s) { range(s); }
    std::string str() const { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }
};

// One way of reading a path back; the content read, as text.
using Load = std::function<std::string(const fs::path&, Rng&)>;
static std::map<std::string, Load> loaders;
static std::vector<std::string> loader_names;
static void loader(const std::string& name, Load f) { loaders[name] = std::move(f); loader_names.push_back(name); }

struct Thing {
    std::string accepts;                        // the loader it is meant for
    std::string also;                           // another one that fits
    std::function<std::string()> content;       // what it holds
    std::function<std::string()> whole;         // what a loaded copy must show (after saving)
    std::function<void(const fs::path&)> save;
    bool file = false;                          // saves to one file
    bool raw = false;                           // a file that says nothing about its type
    std::string suffix;
};

// The three ways to name a saved directory.
template <typename T, typename... A> static T from_disk(const fs::path& p, Rng& r, A&&... a) {
    if (r.chance(30)) { return lib::load_from_disk<T>(p / "svs_config.toml", a...); }
    return lib::load_from_disk<T>(p, a...);
}

///// Datasets

template <typename T> static const char* el() { return name<datatype_v<T>>().data(); }
template <typename D> static std::string text_of(const D& d) {
    Hash h;
    for (size_t i = 0; i < d.size(); ++i) { h.range(d.get_datum(i)); }
    return fmt::format("{} {}x{} {}", el<std::remove_const_t<typename D::element_type>>(), d.size(), d.dimensions(), h.str());
}
template <typename T> static T element(Rng& r) {
    if constexpr (std::is_integral_v<T>) {
        if (r.chance(10)) { return std::numeric_limits<T>::max(); }
        if (r.chance(10)) { return std::numeric_limits<T>::min(); }
        return T(r.next());
    } else {
        if (r.chance(5)) { return T(0.0f); }
        if (r.chance(5)) { return T(-0.0f); }
        if (r.chance(5)) { return T(float(r.in(-3, 3)) / 65536.0f); }
        if (r.chance(5)) { return T(std::numeric_limits<float>::infinity()); }
        return T(float(r.in(-100000, 100000)) / 3.0f);
    }
}
template <typename D> static void fill(D& d, Rng& r) {
    using T = std::remove_const_t<typename D::element_type>;
    for (size_t i = 0; i < d.size(); ++i) {
        std::vector<T> v;
        for (size_t k = 0; k < d.dimensions(); ++k) { v.push_back(element<T>(r)); }
        d.set_datum(i, v);
    }
}
static size_t some_size(Rng& r) { return size_t(r.chance(8) ? 0 : r.chance(10) ? 1 : r.chance(6) ? r.in(1500, 4000) : r.in(2, 40)); }
static data::BlockingParameters small_blocks(Rng& r) { return data::BlockingParameters{.blocksize_bytes = lib::prevpow2(size_t(r.in(128, 1024)))}; }

template <typename T> static Thing data_thing(Rng& r) {
    size_t n = some_size(r), dims = size_t(r.chance(30) ? 3 : r.chance(20) ? 4 : r.in(1, 9));
    Thing t;
    t.accepts = std::string("data ") + el<T>();
    int how = int(r.in(0, 4));
    if (how == 1) { dims = 3; }
    if (dims == 3) { t.also = std::string("data3 ") + el<T>(); }
    auto finish = [&](auto d) {
        fill(*d, r);
        t.content = [d]() { return text_of(*d); };
        t.save = [d](const fs::path& p) { lib::save_to_disk(*d, p); };
    };
    if (how == 0) {
        finish(std::make_shared<data::BlockedData<T>>(n, dims, data::Blocked<lib::Allocator<T>>(small_blocks(r))));
    } else if (how == 1) {
        finish(std::make_shared<data::SimpleData<T, 3>>(n, 3));
    } else if (how == 2) {
        // Saved through a view.
        auto d = std::make_shared<data::SimpleData<T>>(n, dims);
        fill(*d, r);
        t.content = [d]() { return text_of(*d); };
        t.save = [d](const fs::path& p) { lib::save_to_disk(d->cview(), p); };
    } else if (how == 3) {
        // Larger underneath than what it holds.
        auto d = std::make_shared<data::BlockedData<T>>(n + 7, dims, data::Blocked<lib::Allocator<T>>(small_blocks(r)));
        fill(*d, r);
        d->resize(n);
        t.content = [d]() { return text_of(*d); };
        t.save = [d](const fs::path& p) { lib::save_to_disk(*d, p); };
    } else {
        finish(std::make_shared<data::SimpleData<T>>(n, dims));
    }
    return t;
}
template <typename T> static Thing raw_thing(Rng& r) {
    size_t n = size_t(r.chance(5) ? r.in(1500, 2500) : r.in(1, 12)), dims = size_t(r.in(1, 9));
    int how = int(r.in(0, 2));
    if (how != 1 && r.chance(6)) { n = 0; }
    auto d = std::make_shared<data::SimpleData<T>>(n, dims);
    fill(*d, r);
    Thing t;
    t.accepts = std::string("data ") + el<T>();
    if (dims == 3) { t.also = std::string("data3 ") + el<T>(); }
    t.content = [d]() { return text_of(*d); };
    t.file = true;
    t.raw = true;
    t.suffix = how == 0 ? ".svs" : how == 1 ? "vecs" : ".bin";
    t.save = [d, how](const fs::path& p) {
        if (how == 0) {
            io::save(*d, io::NativeFile(p));
        } else if (how == 1) {
            io::save_vecs(*d, p);
        } else {
            auto w = io::binary::BinaryFile(p).writer<T>(d->size(), d->dimensions());
            for (size_t i = 0; i < d->size(); ++i) { w << d->get_datum(i); }
            w.close();
        }
    };
    return t;
}
template <typename T> static void data_loaders() {
    loader(std::string("data ") + el<T>(), [](const fs::path& p, Rng& r) {
        switch (r.in(0, 4)) {
            case 0: return text_of(data::SimpleData<T>::load(p));
            case 1: return text_of(VectorDataLoader<T>(p).load());
            case 2: return text_of(data::BlockedData<T>::load(p, data::Blocked<lib::Allocator<T>>(small_blocks(r))));
            case 3:
                if (!fs::is_regular_file(p)) {
                    return text_of(from_disk<data::BlockedData<T>>(p, r, data::Blocked<lib::Allocator<T>>(small_blocks(r))));
                }
                [[fallthrough]];
            default:
                if (fs::is_regular_file(p)) { return text_of(data::SimpleData<T>::load(p)); }
                return text_of(from_disk<data::SimpleData<T>>(p, r));
        }
    });
    loader(std::string("data3 ") + el<T>(), [](const fs::path& p, Rng& r) {
        if (r.chance(30)) { return text_of(VectorDataLoader<T, 3>(p).load()); }
        if (r.chance(30)) { return text_of(data::BlockedData<T, 3>::load(p, data::Blocked<lib::Allocator<T>>(small_blocks(r)))); }
        return text_of(data::SimpleData<T, 3>::load(p));
    });
}

///// Graphs, translations, clusterings, parameters

template <typename G> static std::string graph_text(const G& g) {
    Hash h;
    for (size_t i = 0; i < g.n_nodes(); ++i) { h.range(g.get_node(i)); }
    return fmt::format("graph {} {} {}", g.n_nodes(), g.max_degree(), h.str());
}
template <typename G> static void fill_graph(G& g, Rng& r) {
    using I = typename G::index_type;
    auto n = int64_t(g.n_nodes());
    g.reset();
    for (int64_t i = 0; i < n; ++i) {
        auto e = r.in(0, int64_t(g.max_degree()));
        for (int64_t j = 0; j < e; ++j) { g.add_edge(I(i), I(r.in(0, n - 1))); }
    }
}
template <typename G> static Thing graph_thing(Rng& r, const char* accepts) {
    auto g = std::make_shared<G>(size_t(r.chance(6) ? 0 : r.chance(6) ? r.in(800, 1500) : r.in(1, 40)), size_t(r.in(1, 6)));
    fill_graph(*g, r);
    Thing t;
    t.accepts = accepts;
    t.content = [g]() { return graph_text(*g); };
    t.save = [g](const fs::path& p) { lib::save_to_disk(*g, p); };
    return t;
}
static std::string trans_text(const IDTranslator& t) {
    std::map<uint64_t, uint64_t> m;
    for (auto kv : t) { m[kv.first] = kv.second; }
    Hash h;
    for (auto& kv : m) {
        h.value(kv.first);
        h.value(kv.second);
        h.value(uint64_t(t.get_external(uint32_t(kv.second))));
    }
    return fmt::format("ids {} {}", t.size(), h.str());
}
static void fill_trans(IDTranslator& t, Rng& r, size_t n) {
    std::vector<size_t> e;
    std::vector<uint32_t> i;
    uint64_t at = uint64_t(r.in(0, 5)), slot = uint64_t(r.in(0, 5));
    for (size_t k = 0; k < n; ++k) {
        e.push_back(at);
        i.push_back(uint32_t(slot));
        at += uint64_t(r.chance(20) ? r.in(1, 1LL << 40) : r.in(1, 4));
        slot += uint64_t(r.in(1, 3));
    }
    r.shuffle(i);
    t.insert(e, i);
}
template <typename I> static std::string clus_text(const inv::Clustering<I>& c) {
    std::map<uint64_t, std::vector<std::pair<uint64_t, float>>> m;
    c.for_each_cluster([&](const auto& cluster) {
        auto& v = m[cluster.centroid()];
        for (auto n : cluster) { v.push_back({uint64_t(n.id()), n.distance()}); }
    });
    Hash h;
    for (auto& kv : m) {
        h.value(kv.first);
        h.value(kv.second.size());
        for (auto& e : kv.second) { h.value(e.first); h.value(e.second); }
    }
    return fmt::format("clustering {} {}", c.size(), h.str());
}
template <typename I> static Thing clus_thing(Rng& r, const char* accepts) {
    std::vector<I> ids;
    size_t n = size_t(r.chance(8) ? 0 : r.in(1, 12));
    for (size_t i = 0; i < n; ++i) { ids.push_back(I(3 * i + size_t(r.in(0, 2)))); }
    auto c = std::make_shared<inv::Clustering<I>>(ids.begin(), ids.end());
    if (n > 0) {
        auto m = r.chance(8) ? r.in(500, 1200) : r.in(0, 30);
        for (int64_t i = 0; i < m; ++i) { c->insert(r.pick(ids), Neighbor<I>(I(100 + r.in(0, 1000)), float(r.in(-1000, 1000)) / 7.0f)); }
    }
    Thing t;
    t.accepts = accepts;
    t.content = [c]() { return clus_text(*c); };
    t.save = [c](const fs::path& p) { lib::save_to_disk(*c, p); };
    return t;
}
static std::string num(double x) { uint64_t b; std::memcpy(&b, &x, 8); return fmt::format("{:x}", b); }
static double real(Rng& r) {
    switch (r.in(0, 5)) {
        case 0: return double(r.in(0, 100)) / 10.0;
        case 1: return 1.0;
        case 2: return 0.0;
        case 3: return double(r.in(1, 1000000)) * 1e-13;
        case 4: return -double(r.in(1, 1000000)) / 7.0;
        default: return double(r.next()) / 3.0;
    }
}
static size_t whole_number(Rng& r) { return size_t(r.chance(20) ? r.in(0, 3) : r.chance(15) ? r.in(1LL << 40, 1LL << 62) : r.in(1, 500)); }
static std::string text(const vam::VamanaSearchParameters& p) {
    return fmt::format("search {} {} {} {} {}", p.buffer_config_.get_search_window_size(), p.buffer_config_.get_total_capacity(),
        p.search_buffer_visited_set_, p.prefetch_lookahead_, p.prefetch_step_);
}
static std::string text(const vam::VamanaBuildParameters& p) {
    return fmt::format("build {} {} {} {} {} {}", num(p.alpha), p.graph_max_degree, p.window_size, p.max_candidate_pool_size, p.prune_to, p.use_full_search_history);
}
static std::string text(const vam::VamanaIndexParameters& p) { return fmt::format("index {} {} {}", p.entry_point, text(p.build_parameters), text(p.search_parameters)); }
static std::string text(const inv::InvertedSearchParameters& p) { return fmt::format("isearch {} {}", text(p.primary_parameters_), num(p.refinement_epsilon_)); }
static std::string text(const inv::ClusteringParameters& p) {
    return fmt::format("clusp {} {} {} {} {} {} {} {} {}", num(p.percent_centroids_.value()), num(p.epsilon_), p.max_replicas_, p.max_cluster_size_, p.seed_,
        p.batchsize_, p.search_window_size_, p.num_intermediate_results_, num(p.refinement_alpha_));
}
static std::string text(const inv::InvertedBuildParameters& p) { return fmt::format("ibuild {} {}", text(p.clustering_parameters_), text(p.primary_parameters_)); }
static std::string text(const DistanceL2&) { return "L2"; }
static std::string text(const DistanceIP&) { return "IP"; }
static std::string text(const DistanceCosineSimilarity&) { return "Cosine"; }
static vam::VamanaSearchParameters search_params(Rng& r) {
    size_t w = size_t(r.in(1, 200));
    return {vam::SearchBufferConfig{w, w + size_t(r.in(0, 50))}, r.chance(50), size_t(r.in(0, 9)), size_t(r.in(0, 9))};
}
static vam::VamanaBuildParameters build_params(Rng& r) {
    return {float(real(r)), whole_number(r), whole_number(r), whole_number(r), whole_number(r), r.chance(50)};
}
static inv::ClusteringParameters clus_params(Rng& r) {
    return {lib::Percent(double(r.in(0, 1000)) / 1000.0), real(r), whole_number(r), whole_number(r), r.next(), whole_number(r), whole_number(r), whole_number(r), real(r)};
}
template <typename P> static Thing param_thing(Rng& r, const char* accepts, P p) {
    Thing t;
    auto s = std::make_shared<P>(std::move(p));
    t.accepts = accepts;
    t.content = [s]() { return text(*s); };
    t.file = r.chance(50);
    t.suffix = ".toml";
    if (t.file) {
        t.save = [s](const fs::path& p) { lib::save_to_file(*s, p); };
    } else {
        t.save = [s](const fs::path& p) { lib::save_to_disk(*s, p); };
    }
    return t;
}
template <typename P> static void param_loader(const char* name) {
    loader(name, [](const fs::path& p, Rng& r) {
        if (!fs::is_directory(p)) { return text(lib::load_from_file<P>(p)); }
        return text(from_disk<P>(p, r));
    });
}

///// Several objects in one directory

struct Composite {
    data::SimpleData<float> a{0, 1}, b{0, 1};
    data::BlockedData<uint8_t> c{0, 1, blocks()};
    static data::Blocked<lib::Allocator<uint8_t>> blocks() { return data::Blocked<lib::Allocator<uint8_t>>(data::BlockingParameters{.blocksize_bytes = lib::prevpow2(64)}); }
    graphs::SimpleGraph<uint32_t> g{0, 1};
    IDTranslator t, u;
    vam::VamanaSearchParameters p;
    inv::Clustering<uint32_t> k;
    std::string s;
    std::vector<size_t> v;
    bool f = false;
    double d = 0;
    uint64_t w = 0;
    std::vector<uint16_t> blob;
    std::string text() const {
        return fmt::format("{} | {} | {} | {} | {} | {} | {} | {} | {} {} {} {} {} | {}", text_of(a), text_of(b), text_of(c), graph_text(g),
            trans_text(t), trans_text(u), ::text(p), clus_text(k), s, fmt::join(v, ","), f, num(d), w, fmt::join(blob, ","));
    }
    static constexpr lib::Version save_version = lib::Version(0, 3, 0);
    static constexpr std::string_view serialization_schema = "verif_composite";
    lib::SaveTable save(const lib::SaveContext& ctx) const {
        return lib::SaveTable(serialization_schema, save_version,
            {{"a", lib::save(a, ctx)}, {"b", lib::save(b, ctx)}, {"c", lib::save(c, ctx)}, {"g", lib::save(g, ctx)},
             {"t", lib::save(t, ctx)}, {"u", lib::save(u, ctx)}, {"p", lib::save(p, ctx)}, {"k", lib::save(k, ctx)},
             {"s", lib::save(s)}, {"v", lib::save(v)}, {"f", lib::save(f)}, {"d", lib::save(d)}, {"w", lib::save(lib::FullUnsigned(w))},
             {"blob", lib::save(lib::BinaryBlobSaver<uint16_t>(blob), ctx)}});
    }
    static Composite load(const lib::LoadTable& table) {
        Composite x;
        x.a = lib::load_at<data::SimpleData<float>>(table, "a");
        x.b = lib::load_at<data::SimpleData<float>>(table, "b");
        x.c = lib::load_at<data::BlockedData<uint8_t>>(table, "c", blocks());
        x.g = lib::load_at<graphs::SimpleGraph<uint32_t>>(table, "g");
        x.t = lib::load_at<IDTranslator>(table, "t");
        x.u = lib::load_at<IDTranslator>(table, "u");
        x.p = lib::load_at<vam::VamanaSearchParameters>(table, "p");
        x.k = lib::load_at<inv::Clustering<uint32_t>>(table, "k");
        x.s = lib::load_at<std::string>(table, "s");
        x.v = lib::load_at<std::vector<size_t>>(table, "v");
        x.f = lib::load_at<bool>(table, "f");
        x.d = lib::load_at<double>(table, "d");
        x.w = lib::load_at<lib::FullUnsigned>(table, "w");
        x.blob = std::vector<uint16_t>(lib::load_at<lib::BinaryBlobLoader<uint16_t>>(table, "blob"));
        return x;
    }
};
static Thing composite_thing(Rng& r) {
    auto x = std::make_shared<Composite>();
    size_t dims = size_t(r.in(1, 5));
    x->a = data::SimpleData<float>(size_t(r.in(0, 9)), dims);
    x->b = data::SimpleData<float>(r.chance(50) ? x->a.size() : size_t(r.in(0, 9)), dims);
    x->c = data::BlockedData<uint8_t>(size_t(r.in(0, 9)), size_t(r.in(1, 5)), Composite::blocks());
    fill(x->a, r);
    fill(x->b, r);
    fill(x->c, r);
    x->g = graphs::SimpleGraph<uint32_t>(size_t(r.in(1, 9)), 3);
    fill_graph(x->g, r);
    fill_trans(x->t, r, size_t(r.in(0, 9)));
    fill_trans(x->u, r, size_t(r.in(0, 9)));
    x->p = search_params(r);
    std::vector<uint32_t> ids{uint32_t(r.in(0, 5)), uint32_t(r.in(6, 9))};
    x->k = inv::Clustering<uint32_t>(ids.begin(), ids.end());
    for (int i = 0; i < 5; ++i) { x->k.insert(r.pick(ids), Neighbor<uint32_t>(uint32_t(r.in(20, 50)), float(r.in(0, 50)))); }
    x->s = r.pick(std::vector<std::string>{"", "plain", "two words", "[brackets] = 1", "back\\slash", "a.b.c", "\xc3\xa9"});
    for (int64_t i = r.in(0, 4); i > 0; --i) { x->v.push_back(whole_number(r)); }
    x->f = r.chance(50);
    x->d = real(r);
    x->w = r.next();
    for (int64_t i = r.in(0, 20); i > 0; --i) { x->blob.push_back(uint16_t(r.next())); }
    Thing t;
    t.accepts = "composite";
    t.content = [x]() { return x->text(); };
    t.save = [x](const fs::path& p) { lib::save_to_disk(*x, p); };
    return t;
}

static fs::path scratch;
#if SAVE_WHICH == 0
static void all_loaders() {
    data_loaders<float>();
    data_loaders<double>();
    data_loaders<Float16>();
    data_loaders<int8_t>();
    data_loaders<uint8_t>();
    data_loaders<uint32_t>();
    data_loaders<int64_t>();
    loader("graph uint32", [](const fs::path& p, Rng& r) {
        if (r.chance(3)) { return graph_text(graphs::SimpleBlockedGraph<uint32_t>::load(p)); }
        if (r.chance(30)) { return graph_text(GraphLoader<uint32_t>(p).load()); }
        return graph_text(graphs::SimpleGraph<uint32_t>::load(p));
    });
    loader("graph uint64", [](const fs::path& p, Rng&) { return graph_text(graphs::SimpleGraph<uint64_t>::load(p)); });
    loader("ids", [](const fs::path& p, Rng& r) { return trans_text(from_disk<IDTranslator>(p, r)); });
    loader("clustering uint32", [](const fs::path& p, Rng& r) { return clus_text(from_disk<inv::Clustering<uint32_t>>(p, r)); });
    loader("clustering uint64", [](const fs::path& p, Rng& r) { return clus_text(from_disk<inv::Clustering<uint64_t>>(p, r)); });
    param_loader<vam::VamanaSearchParameters>("search parameters");
    param_loader<vam::VamanaBuildParameters>("build parameters");
    param_loader<vam::VamanaIndexParameters>("index parameters");
    param_loader<inv::InvertedSearchParameters>("inverted search parameters");
    param_loader<inv::ClusteringParameters>("clustering parameters");
    param_loader<inv::InvertedBuildParameters>("inverted build parameters");
    param_loader<DistanceL2>("distance L2");
    param_loader<DistanceIP>("distance IP");
    param_loader<DistanceCosineSimilarity>("distance Cosine");
    loader("composite", [](const fs::path& p, Rng& r) { return from_disk<Composite>(p, r).text(); });
}
static Thing some_thing(Rng& r) {
    switch (r.in(0, 20)) {
        case 0: return data_thing<float>(r);
        case 1: return data_thing<double>(r);
        case 2: return data_thing<Float16>(r);
        case 3: return data_thing<int8_t>(r);
        case 4: return data_thing<uint8_t>(r);
        case 5: return data_thing<uint32_t>(r);
        case 6: return data_thing<int64_t>(r);
        case 7: {
            switch (r.in(0, 5)) {
                case 0: return raw_thing<float>(r);
                case 1: return raw_thing<Float16>(r);
                case 2: return raw_thing<uint8_t>(r);
                case 3: return raw_thing<int8_t>(r);
                case 4: return raw_thing<uint32_t>(r);
                default: return raw_thing<double>(r);
            }
        }
        case 8: return graph_thing<graphs::SimpleGraph<uint32_t>>(r, "graph uint32");
        case 9: return r.chance(90) ? graph_thing<graphs::SimpleGraph<uint64_t>>(r, "graph uint64") : graph_thing<graphs::SimpleBlockedGraph<uint32_t>>(r, "graph uint32");
        case 10:
        case 11: {
            auto x = std::make_shared<IDTranslator>();
            fill_trans(*x, r, size_t(r.chance(10) ? 0 : r.chance(10) ? r.in(800, 1500) : r.in(1, 30)));
            Thing t;
            t.accepts = "ids";
            t.content = [x]() { return trans_text(*x); };
            t.save = [x](const fs::path& p) { lib::save_to_disk(*x, p); };
            return t;
        }
        case 12:
        case 13: return r.chance(65) ? clus_thing<uint32_t>(r, "clustering uint32") : clus_thing<uint64_t>(r, "clustering uint64");
        case 14:
        case 15:
        case 16: return composite_thing(r);
        case 17: return param_thing(r, "search parameters", search_params(r));
        case 18: return param_thing(r, "build parameters", build_params(r));
        case 19:
            switch (r.in(0, 2)) {
                case 0: return param_thing(r, "distance L2", DistanceL2());
                case 1: return param_thing(r, "distance IP", DistanceIP());
                default: return param_thing(r, "distance Cosine", DistanceCosineSimilarity());
            }
        default:
            switch (r.in(0, 3)) {
                case 0: return param_thing(r, "index parameters", vam::VamanaIndexParameters{whole_number(r), build_params(r), search_params(r)});
                case 1: return param_thing(r, "inverted search parameters", inv::InvertedSearchParameters{search_params(r), real(r)});
                case 2: return param_thing(r, "clustering parameters", clus_params(r));
                default: return param_thing(r, "inverted build parameters", inv::InvertedBuildParameters{clus_params(r), build_params(r)});
            }
    }
}
#else
///// Indexes

using Qs = data::SimpleData<float>;
static const size_t DIMS = 5;
static Qs questions() {
    Qs q(6, DIMS);
    Rng r(12345);
    for (size_t i = 0; i < q.size(); ++i) {
        std::vector<float> v;
        for (size_t k = 0; k < DIMS; ++k) { v.push_back(float(r.in(-40, 40)) / 4.0f); }
        q.set_datum(i, v);
    }
    return q;
}
template <typename T> static data::SimpleData<T> some_data(Rng& r, size_t n) {
    data::SimpleData<T> d(n, DIMS);
    for (size_t i = 0; i < n; ++i) {
        std::vector<T> v;
        for (size_t k = 0; k < DIMS; ++k) { v.push_back(T(float(r.in(-40, 40)))); }
        d.set_datum(i, v);
    }
    return d;
}
template <typename Index> static std::string answers(Index& index) {
    auto q = questions();
    Hash h;
    for (size_t k : {1, 4}) {
        QueryResult<size_t> res(q.size(), k);
        index::search_batch_into_with(index, res.view(), q.cview(), index.get_search_parameters());
        for (size_t i = 0; i < q.size(); ++i) { for (size_t j = 0; j < k; ++j) { h.value(size_t(res.index(i, j))); h.value(float(res.distance(i, j))); } }
    }
    return h.str();
}
template <typename M> static std::string manager_answers(M& index) {
    auto q = questions();
    Hash h;
    for (size_t k : {1, 4}) {
        QueryResult<size_t> res(q.size(), k);
        index.search(res.view(), q.cview(), index.get_search_parameters());
        for (size_t i = 0; i < q.size(); ++i) { for (size_t j = 0; j < k; ++j) { h.value(size_t(res.index(i, j))); h.value(float(res.distance(i, j))); } }
    }
    return h.str();
}
static vam::VamanaBuildParameters built(Rng& r, bool l2) {
    auto degree = size_t(r.in(2, 8));
    return vam::VamanaBuildParameters{l2 ? 1.2f : 0.95f, degree, size_t(r.in(5, 15)), size_t(r.in(10, 30)), size_t(r.in(1, int64_t(degree))), r.chance(50)};
}
template <typename Index> static std::string shown(Index& x) {
    return fmt::format("{} {} | {} {} {} | {}", x.size(), x.dimensions(), num(x.get_alpha()), x.get_max_candidates(),
        x.get_construction_window_size(), text(x.get_search_parameters()));
}
static vam::VamanaSearchParameters search_some(Rng& r) {
    size_t w = size_t(r.in(1, 12));
    return {vam::SearchBufferConfig{w, w + size_t(r.in(0, 6))}, r.chance(40), size_t(r.in(0, 3)), size_t(r.in(0, 3))};
}
// What a loaded index says it was built with, when saved again.
template <bool Dynamic_, typename Index> static std::string again(Index& x) {
    auto d = scratch / fmt::format("again-{}", getpid());
    fs::create_directories(d);
    x.save(d / "c", d / "g", d / "d");
    std::string s;
    if constexpr (Dynamic_) {
        auto [p, t] = lib::load_from_disk<vam::detail::VamanaStateLoader>(d / "c", false, x.size());
        s = text(p.build_parameters);
    } else {
        s = text(lib::load_from_disk<vam::VamanaIndexParameters>(d / "c").build_parameters);
    }
    fs::remove_all(d);
    return s;
}
template <typename T, typename D> static Thing static_thing(Rng& r, const char* accepts) {
    bool l2 = std::is_same_v<D, DistanceL2>;
    auto bp = built(r, l2);
    auto d = some_data<T>(r, size_t(r.chance(10) ? 1 : r.in(2, 60)));
    Thing t;
    t.accepts = accepts;
    if (r.chance(35)) {
        auto x = std::make_shared<Vamana>(Vamana::build<float>(bp, std::move(d), D(), 1));
        x->set_search_parameters(search_some(r));
        t.content = [x, bp]() { return fmt::format("static {} {} {}", shown(*x), manager_answers(*x), text(bp)); };
        t.save = [x](const fs::path& p) { x->save(p / "config", p / "graph", p / "data"); };
        return t;
    }
    using Index = decltype(vam::auto_build(bp, std::move(d), D(), size_t(1)));
    auto x = std::make_shared<Index>(vam::auto_build(bp, std::move(d), D(), size_t(1)));
    x->set_search_parameters(search_some(r));
    t.content = [x, bp]() { return fmt::format("static {} {} {}", shown(*x), answers(*x), text(bp)); };
    t.save = [x](const fs::path& p) { x->save(p / "config", p / "graph", p / "data"); };
    return t;
}
template <typename T, typename D> static void static_loader(const char* name) {
    loader(name, [](const fs::path& p, Rng& r) {
        if (r.chance(35)) {
            auto x = Vamana::assemble<float>(p / "config", GraphLoader<uint32_t>(p / "graph"), VectorDataLoader<T>(p / "data"), D(), 1);
            return fmt::format("static {} {} {}", shown(x), manager_answers(x), again<false>(x));
        }
        auto x = vam::auto_assemble(p / "config", GraphLoader<uint32_t>(p / "graph"), VectorDataLoader<T>(p / "data"), D(), size_t(r.in(1, 2)));
        return fmt::format("static {} {} {}", shown(x), answers(x), again<false>(x));
    });
}
// Small blocks; the classes users have come with large ones.
using GraphData = data::BlockedData<uint32_t, Dynamic, HugepageAllocator<uint32_t>>;
struct SmallGraph : graphs::SimpleGraphBase<uint32_t, GraphData> {
    using P = graphs::SimpleGraphBase<uint32_t, GraphData>;
    static auto alloc() { return data::Blocked<HugepageAllocator<uint32_t>>(data::BlockingParameters{.blocksize_bytes = lib::prevpow2(4096)}); }
    SmallGraph(size_t max_degree, size_t n) : P(n, max_degree, alloc()) {}
    explicit SmallGraph(GraphData d) : P(std::move(d)) {}
    void unsafe_resize(size_t n) { P::data_.resize(n); }
    void add_node() { unsafe_resize(P::n_nodes() + 1); }
    static SmallGraph load(const lib::LoadTable& table) {
        return P::load(table, lib::Lazy([](GraphData d) { return SmallGraph(std::move(d)); }), alloc());
    }
};
template <typename T> static auto few() { return data::Blocked<lib::Allocator<T>>(data::BlockingParameters{.blocksize_bytes = lib::prevpow2(512)}); }
template <typename Index> static std::string held(Index& x) {
    Hash h;
    auto e = x.external_ids();
    std::sort(e.begin(), e.end());
    h.range(e);
    for (auto id : e) { h.range(x.get_datum(id)); }
    return fmt::format("dynamic {} {}", shown(x), h.str());
}
template <typename T, typename D> static Thing dynamic_thing(Rng& r, const char* accepts) {
    bool l2 = std::is_same_v<D, DistanceL2>;
    auto bp = built(r, l2);
    auto plain = some_data<T>(r, size_t(r.chance(10) ? 1 : r.in(2, 60)));
    using Data = data::BlockedData<T>;
    Data d(plain.size(), DIMS, few<T>());
    std::vector<size_t> ids;
    for (size_t i = 0; i < plain.size(); ++i) { d.set_datum(i, plain.get_datum(i)); ids.push_back(r.chance(50) ? 10 * i + 1 : 1000000007ULL * (i + 1)); }
    using Index = vam::MutableVamanaIndex<SmallGraph, Data, D>;
    auto x = std::make_shared<Index>(bp, std::move(d), ids, D(), size_t(1));
    x->set_search_parameters(search_some(r));
    auto gone = ids;
    r.shuffle(gone);
    gone.resize(r.chance(30) ? 0 : size_t(r.in(0, int64_t(ids.size()) - 1)));
    x->delete_entries(gone);
    if (r.chance(25)) { x->consolidate(); }
    Thing t;
    t.accepts = accepts;
    t.content = [x]() { return held(*x); };
    // Saving tidies the index up first, which may change how it answers.
    t.whole = [x, bp]() { return fmt::format("{} {} {}", held(*x), answers(*x), text(bp)); };
    t.save = [x](const fs::path& p) { x->save(p / "config", p / "graph", p / "data"); };
    return t;
}
template <typename T, typename D> static void dynamic_loader(const char* name) {
    loader(name, [](const fs::path& p, Rng& r) {
        if (r.chance(3)) {
            auto x = vam::auto_dynamic_assemble(p / "config",
                SVS_LAZY(graphs::SimpleBlockedGraph<uint32_t>::load(p / "graph")),
                SVS_LAZY(data::BlockedData<T>::load(p / "data")), D(), size_t(1));
            auto h = held(x), a = answers(x);
            return fmt::format("{} {} {}", h, a, again<true>(x));
        }
        auto x = vam::auto_dynamic_assemble(p / "config", SVS_LAZY(lib::load_from_disk<SmallGraph>(p / "graph")),
            SVS_LAZY(data::BlockedData<T>::load(p / "data", few<T>())), D(), size_t(r.in(1, 2)));
        auto h = held(x), a = answers(x);
            return fmt::format("{} {} {}", h, a, again<true>(x));
    });
}
static std::string text_inverted(auto& x) {
    return fmt::format("inverted {} {} {} {}", x.size(), x.dimensions(), text(x.get_search_parameters()), answers(x));
}
template <typename D> static Thing inverted_thing(Rng& r, const char* accepts) {
    bool l2 = std::is_same_v<D, DistanceL2>;
    auto bp = vam::VamanaBuildParameters{l2 ? 1.2f : 0.95f, size_t(r.in(2, 8)), 10, 20, 2, r.chance(50)};
    auto cp = inv::ClusteringParameters();
    cp.percent_centroids(lib::Percent(0.3)).epsilon(0.2).max_replicas(size_t(r.in(1, 3))).max_cluster_size(1000).batchsize(7).search_window_size(10).num_intermediate_results(5);
    auto d = std::make_shared<data::SimpleData<float>>(some_data<float>(r, size_t(r.in(10, 50))));
    auto c = std::make_shared<inv::Clustering<uint32_t>>();
    auto make = [&]() {
        return inv::auto_build(inv::InvertedBuildParameters{cp, bp}, data::SimpleData<float>(*d), D(), size_t(1),
            inv::SparseStrategy(), inv::PickRandomly(), [&](const auto& clustering) { *c = clustering; });
    };
    using Index = decltype(make());
    auto x = std::make_shared<Index>(make());
    Thing t;
    t.accepts = accepts;
    t.content = [x]() { return text_inverted(*x); };
    t.save = [x, c, d](const fs::path& p) {
        lib::save_to_disk(*d, p / "original");
        x->save_primary_index(p / "iconfig", p / "igraph", p / "idata");
        lib::save_to_disk(*c, p / "clustering");
    };
    return t;
}
template <typename D> static void inverted_loader(const char* name) {
    loader(name, [](const fs::path& p, Rng& r) {
        auto x = inv::assemble_from_clustering(p / "clustering", VectorDataLoader<float>(p / "original"), D(), inv::SparseStrategy(), p / "iconfig", p / "igraph", size_t(r.in(1, 2)));
        return text_inverted(x);
    });
}
static void all_loaders() {
    static_loader<float, DistanceL2>("static float L2");
    static_loader<int8_t, DistanceIP>("static int8 IP");
    dynamic_loader<float, DistanceL2>("dynamic float L2");
    dynamic_loader<Float16, DistanceIP>("dynamic float16 IP");
    inverted_loader<DistanceL2>("inverted float L2");
}
static Thing some_thing(Rng& r) {
    switch (r.in(0, 8)) {
        case 0:
        case 1:
        case 2: return static_thing<float, DistanceL2>(r, "static float L2");
        case 3: return static_thing<int8_t, DistanceIP>(r, "static int8 IP");
        case 4:
        case 5:
        case 6: return dynamic_thing<float, DistanceL2>(r, "dynamic float L2");
        case 7: return dynamic_thing<Float16, DistanceIP>(r, "dynamic float16 IP");
        default: return inverted_thing<DistanceL2>(r, "inverted float L2");
    }
}
#endif

///// Histories

static std::vector<fs::path> referenced(const fs::path& dir);
// All tables with a schema.
static void tables(toml::table& t, std::vector<toml::table*>& out) {
    if (t.contains("__schema__")) { out.push_back(&t); }
    for (auto&& kv : t) { if (auto* s = kv.second.as_table()) { tables(*s, out); } }
}
static fs::path config_of(const fs::path& p) { return fs::is_directory(p) ? p / "svs_config.toml" : p; }
static std::vector<fs::path> referenced(const fs::path& dir) {
    std::vector<fs::path> out;
    auto t = toml::parse_file(config_of(dir).string());
    std::vector<toml::table*> all;
    tables(t, all);
    for (auto* x : all) {
        for (const char* key : {"binary_file", "filename", "filepath"}) {
            if (auto v = (*x)[key].value<std::string>()) {
                // Nothing is read from these.
                if ((*x)["num_points"].value_or(int64_t(1)) == 0 || (*x)["filesize"].value_or(int64_t(1)) == 0 || (*x)["num_elements"].value_or(int64_t(1)) == 0) { continue; }
                out.push_back(dir / *v);
            }
        }
    }
    return out;
}

// Runs f in a child. 0: it returned; 1: it raised an error; 77: stopped at the point chosen;
// anything else: it died.
template <typename F> static int in_child(F&& f) {
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        alarm(20);
        if (FILE* f = fopen("/dev/null", "w")) { dup2(fileno(f), 2); }
        int rc = 0;
        try { f(); } catch (const std::exception&) { rc = 1; } catch (...) { rc = 1; }
        faults::mode = faults::off;
        _exit(rc);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

struct Where { bool exists = false; bool raw = false; bool file = false; bool sure = false; std::string accepts, also, suffix; };
// Saved by several calls, one of which says nothing about the others.
static bool several(const std::string& accepts) { return accepts.starts_with("inverted float"); }
static std::vector<std::string> fits(const Thing& t) {
    std::vector<std::string> v{t.accepts};
    if (!t.also.empty()) { v.push_back(t.also); }
    return v;
}

// Mostly one that reads something similar.
static std::string another(Rng& r, const std::string& accepts) {
    std::vector<std::string> near;
    for (auto& n : loader_names) { if (n.substr(0, 4) == accepts.substr(0, 4) && n != accepts) { near.push_back(n); } }
    return !near.empty() && r.chance(60) ? r.pick(near) : r.pick(loader_names);
}
static void remove_tree(const fs::path& p) { fs::remove_all(p); }

static void history(Rng& r, vd::Log& log, const fs::path& root, int len, bool breaking) {
    std::map<std::string, Where> at;
    const std::vector<std::string> names{"a", "b", "c"};
    std::vector<Thing> things;
    std::string next;
    log(vd::ev("begin"));
    auto path_for = [&](const std::string& n) { return root / (n + at[n].suffix); };
    auto prepare = [&](const fs::path& p) { if (SAVE_WHICH == 1) { fs::create_directories(p); } };
    for (int step = 0; step < len; ++step) {
        auto n = r.pick(names);
        int what = int(r.in(0, 99));
        if (what >= 70 && !breaking) { what = int(r.in(0, 59)); }
        if (!next.empty()) {
            if (r.chance(70)) { n = next; what = 40; }
            next.clear();
        }
        auto& w = at[n];
        auto gone = [&]() {
            if (!w.exists) { return; }
            remove_tree(path_for(n));
            log(vd::ev("gone")("path", n));
            w = Where();
        };
        if (what < 30 || what >= 70) {
            bool broken = what >= 70;
            Thing t;
            if (!things.empty() && r.chance(15)) { t = r.pick(things); } else { t = some_thing(r); }
            if (things.size() < 4) { things.push_back(t); } else if (r.chance(30)) { things[size_t(r.in(0, 3))] = t; }
            if (broken && t.raw) { continue; }
            if (w.exists && (w.file != t.file || w.suffix != t.suffix || several(w.accepts) || several(t.accepts) || r.chance(15))) { gone(); }
            w.suffix = t.suffix;
            auto p = path_for(n);
            auto before = t.content();
            auto whole = t.whole ? t.whole : t.content;
            if (!broken) {
                prepare(p);
                bool ok = true;
                std::string why;
                try { t.save(p); } catch (const std::exception& e) { ok = false; why = e.what(); }
                log(vd::ev("save")("path", n)("ok", ok)("accepts", fits(t))("before", before)("after", t.content())("whole", whole())("why", why.substr(0, 120)));
                w = Where{true, t.raw, t.file, true, t.accepts, t.also, t.suffix};
                continue;
            }
            // What the save does, on a copy; then again, stopped or refused somewhere.
            auto copy = root / "copy";
            fs::create_directories(copy);
            auto cp = copy / p.filename();
            if (w.exists && fs::exists(p)) { fs::copy(p, cp, fs::copy_options::recursive); } else { prepare(cp); }
            int fds[2];
            if (pipe(fds) != 0) { _exit(3); }
            int dry = in_child([&]() {
                faults::mode = faults::count;
                t.save(cp);
                faults::mode = faults::off;
                auto w = t.whole ? t.whole() : t.content();
                long m = long(faults::calls.size()), l = long(w.size());
                faults_raw(fds[1], &m, sizeof m);
                faults_raw(fds[1], &l, sizeof l);
                faults_raw(fds[1], faults::calls.data(), sizeof(long) * size_t(std::min(m, 2000L)));
                faults_raw(fds[1], w.data(), w.size());
            });
            close(fds[1]);
            long m = 0, l = 0;
            std::vector<long> calls;
            std::string expect;
            if (dry == 0 && read(fds[0], &m, sizeof m) == sizeof m && read(fds[0], &l, sizeof l) == sizeof l) {
                calls.resize(size_t(std::min(m, 2000L)));
                auto all = [&](void* b, size_t n) { size_t d = 0; while (d < n) { auto x = read(fds[0], (char*)b + d, n - d); if (x <= 0) { break; } d += size_t(x); } };
                all(calls.data(), calls.size() * sizeof(long));
                expect.resize(size_t(l));
                all(expect.data(), expect.size());
            }
            close(fds[0]);
            remove_tree(copy);
            if (calls.empty()) { log(vd::ev("lost")("dry", dry)("accepts", fits(t))); continue; }
            size_t c = size_t(r.in(0, int64_t(calls.size()) - 1));
            long lo = c == 0 ? 0 : calls[c - 1], hi = calls[c];
            long b = r.pick({lo, lo, lo + 1, (lo + hi) / 2, hi - 1, hi - 2, hi - 3, long(hi - r.in(1, 8)), long(r.in(lo, hi - 1))});
            b = std::min(std::max(b, lo), hi - 1);
            auto mode = r.chance(60) ? faults::crash : r.chance(50) ? faults::full : faults::once;
            prepare(p);
            int rc = in_child([&]() {
                faults::budget = b;
                faults::mode = mode;
                t.save(p);
            });
            auto o = vd::ev("interrupted");
            o("path", n)("accepts", fits(t))("whole", expect)("mode", mode == faults::crash ? "crash" : mode == faults::full ? "full" : "once");
            o("status", rc == 0 ? "returned" : rc == 1 ? "error" : rc == 77 ? "stopped" : "died")("rc", rc)("call", c)("of", calls.size());
            log(o);
            next = n;
            w = Where{true, t.raw, t.file, false, t.accepts, t.also, t.suffix};
            continue;
        }
        if (!w.exists) { continue; }
        auto p = path_for(n);
        if (what < 55) {
            auto as = !w.also.empty() && r.chance(30) ? w.also : r.chance(70) || w.raw ? w.accepts : another(r, w.accepts);
            bool ok = true, died = false;
            std::string content;
            auto load = [&]() { try { content = loaders[as](p, r); } catch (const std::exception& e) { ok = false; content = e.what(); } };
            if (w.sure && (as == w.accepts || as == w.also)) {
                load();
            } else {
                // What is there may be anything.
                auto file = root / "answer";
                int rc = in_child([&]() {
                    load();
                    std::ofstream(file, std::ios::binary) << (ok ? "1" : "0") << content;
                });
                died = rc != 0;
                std::ifstream in(file, std::ios::binary);
                content.assign(std::istreambuf_iterator<char>(in), {});
                fs::remove(file);
                ok = !died && !content.empty() && content[0] == '1';
                content = content.empty() ? content : content.substr(1);
                r.next();
            }
            log(vd::ev("load")("path", n)("as", as)("ok", ok)("died", died)("content", ok ? content : std::string())("why", ok ? std::string() : content.substr(0, 120)));
        } else if (what < 59) {
            auto m = r.pick(names);
            if (m == n) { continue; }
            if (at[m].exists) { remove_tree(path_for(m)); at[m] = Where(); }
            at[m].suffix = w.suffix;
            bool copy = r.chance(50);
            if (fs::exists(p)) {
                if (copy) { fs::copy(p, path_for(m), fs::copy_options::recursive); } else { fs::rename(p, path_for(m)); }
            }
            at[m] = w;
            if (!copy) { w = Where(); }
            log(vd::ev(copy ? "copy" : "move")("path", n)("to", m));
        } else if (what < 62) {
            if (w.file || !fs::is_directory(p)) { continue; }
            // Something that has nothing to do with it.
            auto d = SAVE_WHICH == 1 ? p / r.pick({"config", "graph", "data"}) : p;
            if (!fs::is_directory(d)) { continue; }
            auto kind = r.in(0, 3);
            auto f = d / fmt::format("0stray{}", r.in(0, 99));
            if (fs::exists(f)) { continue; }
            if (kind == 0) { std::ofstream(f).flush(); }
            if (kind == 1) { std::ofstream(f) << "abc"; }
            if (kind == 2) { fs::create_directories(f); }
            if (kind == 3) { std::ofstream(f) << std::string(200, 'x'); }
            log(vd::ev("noise")("path", n)("kind", kind));
        } else if (what < 70) {
            // Changed so that it cannot be read faithfully any more.
            if (w.raw || !w.sure || w.suffix == "vecs") { continue; }
            auto d = SAVE_WHICH == 0 ? p : p / r.pick(w.accepts.starts_with("inverted") ? std::vector<std::string>{"iconfig", "igraph", "original", "clustering"} : std::vector<std::string>{"config", "graph", "data"});
            std::string kind;
            try {
                int which = int(r.in(0, 5));
                if (which >= 4) {
                    auto files = w.file ? std::vector<fs::path>() : referenced(d);
                    if (files.empty()) { continue; }
                    auto f = r.pick(files);
                    if (which == 4) {
                        kind = "removed";
                        fs::remove(f);
                    } else {
                        kind = "shortened";
                        auto s = int64_t(fs::file_size(f));
                        fs::resize_file(f, uintmax_t(r.chance(30) ? s - 1 : r.in(0, s - 1)));
                    }
                } else {
                    auto c = config_of(d);
                    auto t = toml::parse_file(c.string());
                    std::vector<toml::table*> all;
                    tables(t, all);
                    if (all.empty()) { continue; }
                    auto* x = r.pick(all);
                    if (which == 0) {
                        kind = "schema";
                        x->insert_or_assign("__schema__", "x" + (*x)["__schema__"].value_or(std::string()));
                    } else if (which == 1) {
                        kind = "version";
                        x->insert_or_assign("__version__", "v99.0.0");
                    } else if (which == 2) {
                        const char* key = x->contains("eltype") ? "eltype" : x->contains("integer_type") ? "integer_type" : x->contains("external_id_type") ? "external_id_type" : nullptr;
                        if (key == nullptr) { continue; }
                        kind = "eltype";
                        x->insert_or_assign(key, "int16");
                    } else {
                        if (!x->contains("uuid")) { continue; }
                        kind = "uuid";
                        x->insert_or_assign("uuid", lib::UUID{}.str());
                    }
                    std::ofstream(c) << t << "\n";
                }
            } catch (const std::exception& e) { continue; }
            w.sure = false;
            log(vd::ev("spoiled")("path", n)("kind", kind));
        }
    }
    for (auto& n : names) { if (at[n].exists) { remove_tree(path_for(n)); } }
}

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    vd::Log log(a.str("out", "/dev/stdout"));
    Rng r(uint64_t(a.num("seed", 1)));
    auto base = fs::path(a.str("out", "/tmp/x")).parent_path() / fmt::format("saving-{}", getpid());
    fs::create_directories(base);
    scratch = base;
    all_loaders();
    int64_t n = a.num("n", 10);
    for (int64_t i = 0; i < n; ++i) { history(r, log, base, int(a.num("len", 60)), a.num("breaking", 1) != 0); }
    fs::remove_all(base);
    return 0;
}
