// Random histories of the dynamic index (build / assemble, add, delete, consolidate, compact,
// save, reload, search), with the observable state recorded after every call.
#include "common.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/flat/flat.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/lib/float16.h"

#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>

using namespace svs;
using vd::Rng;
namespace fs = std::filesystem;

// The library's graph over blocked storage, with a block size small enough for a graph of a
// few vertices to span several blocks.
static size_t g_graph_block = 64;
using GraphData = data::BlockedData<uint32_t, Dynamic, HugepageAllocator<uint32_t>>;
struct SmallGraph : graphs::SimpleGraphBase<uint32_t, GraphData> {
    using P = graphs::SimpleGraphBase<uint32_t, GraphData>;
    static data::Blocked<HugepageAllocator<uint32_t>> alloc() {
        return data::Blocked<HugepageAllocator<uint32_t>>(
            data::BlockingParameters{.blocksize_bytes = lib::prevpow2(g_graph_block)});
    }
    SmallGraph(size_t max_degree, size_t n) : P(n, max_degree, alloc()) {}
    explicit SmallGraph(data_type d) : P(std::move(d)) {}
    void unsafe_resize(size_t n) { P::data_.resize(n); }
    void add_node() { unsafe_resize(P::n_nodes() + 1); }
    static SmallGraph load(const lib::LoadTable& table) {
        auto lazy = lib::Lazy([](data_type d) { return SmallGraph(std::move(d)); });
        return P::load(table, lazy, alloc());
    }
    static SmallGraph load(const fs::path& p) { return lib::load_from_disk<SmallGraph>(p); }
};

template <typename Data> struct MakeData;
template <typename T> struct MakeData<data::SimpleData<T>> {
    static data::SimpleData<T> make(size_t n, size_t d, size_t) { return data::SimpleData<T>(n, d); }
    static data::SimpleData<T> load(const fs::path& p, size_t) {
        return lib::load_from_disk<data::SimpleData<T>>(p);
    }
};
template <typename T> struct MakeData<data::BlockedData<T>> {
    static auto alloc(size_t bytes) {
        return data::Blocked<lib::Allocator<T>>(
            data::BlockingParameters{.blocksize_bytes = lib::prevpow2(bytes)});
    }
    static data::BlockedData<T> make(size_t n, size_t d, size_t bytes) {
        return data::BlockedData<T>(n, d, alloc(bytes));
    }
    static data::BlockedData<T> load(const fs::path& p, size_t bytes) {
        return lib::load_from_disk<data::BlockedData<T>>(p, alloc(bytes));
    }
};

struct Cfg {
    std::string dist;
    std::string type;
    bool blocked;
    size_t dims, deg, block;
    int lo, hi;
    // Larger histories: more points, longer vectors and batches, more threads.
    bool big = false;
    int64_t scale(int64_t little, int64_t large) const { return big ? large : little; }
};

static std::string idstr(size_t id) {
    return id == std::numeric_limits<size_t>::max() ? std::string("-") : std::to_string(id);
}

template <typename Graph, typename Data, typename Dist> struct History {
    using T = typename Data::element_type;
    using Index = index::vamana::MutableVamanaIndex<Graph, Data, Dist>;
    Rng& r;
    vd::Log& log;
    Cfg c;
    fs::path dir;
    std::optional<Index> idx;
    std::set<size_t> live;
    std::set<size_t> deleted; // since the last consolidation
    std::vector<size_t> pool;
    std::vector<std::vector<float>> probes;
    std::vector<std::string> probe_ids;
    size_t saves = 0;

    History(Rng& rng, vd::Log& l, Cfg cfg, fs::path d)
        : r{rng}, log{l}, c{cfg}, dir{d} {
        // Candidate external ids: a few small ones, some extremes.
        int mode = int(r.in(0, 2));
        for (size_t i = 0; i < size_t(c.scale(14, 120)); ++i) { pool.push_back(mode == 0 ? i : mode == 1 ? 1000 + 7 * i : i * 0x100000001ULL + i); }
        pool.push_back(0xFFFFFFFFULL);
        pool.push_back(0x100000000ULL);
        pool.push_back(0xFFFFFFFFFFFFFFFEULL);
        for (int i = 0; i < 3; ++i) { probes.push_back(vec()); }
    }

    std::vector<float> vec() {
        for (;;) {
            std::vector<float> v;
            double norm = 0;
            for (size_t i = 0; i < c.dims; ++i) {
                v.push_back(float(r.in(c.lo, c.hi)));
                norm += v.back() * v.back();
            }
            if (c.dist != "cos") { return v; }
            // The specification computes cosines of vectors whose length is an integer.
            norm = std::sqrt(norm);
            if (norm > 0 && norm == std::floor(norm)) { return v; }
        }
    }
    float shown(float d) { return c.dist == "cos" ? std::round(d * 65536.0f) : d; }
    data::SimpleData<float> queries(const std::vector<std::vector<float>>& vs) {
        auto d = data::SimpleData<float>(vs.size(), c.dims);
        for (size_t i = 0; i < vs.size(); ++i) { d.set_datum(i, vs[i]); }
        return d;
    }
    template <typename D> void fill(D& d, const std::vector<std::vector<float>>& vs) {
        for (size_t i = 0; i < vs.size(); ++i) {
            std::vector<T> t;
            for (auto x : vs[i]) { t.push_back(T(x)); }
            d.set_datum(i, t);
        }
    }
    static vd::J rows(const std::vector<std::vector<float>>& vs) {
        std::vector<vd::J> out;
        for (auto& v : vs) { out.push_back(vd::j(v)); }
        return vd::j(out);
    }

    struct Found { std::vector<std::vector<std::string>> ids; std::vector<std::vector<float>> ds; };
    Found found(QueryResult<size_t>& res) {
        Found f;
        for (size_t i = 0; i < res.n_queries(); ++i) {
            f.ids.emplace_back(); f.ds.emplace_back();
            for (size_t j = 0; j < res.n_neighbors(); ++j) {
                f.ids.back().push_back(idstr(res.index(i, j)));
                f.ds.back().push_back(idstr(res.index(i, j)) == "-" ? 0 : shown(res.distance(i, j)));
            }
        }
        return f;
    }
    Found search(const std::vector<std::vector<float>>& qs, size_t k, size_t w, size_t cap) {
        auto res = QueryResult<size_t>(qs.size(), k);
        auto sp = idx->get_search_parameters();
        sp.buffer_config_ = index::vamana::SearchBufferConfig(w, cap);
        auto q = queries(qs);
        idx->search(res.view(), q.cview(), sp);
        return found(res);
    }

    // Everything observable about the index.
    vd::J snap() {
        vd::Obj o;
        auto ids = idx->external_ids();
        std::sort(ids.begin(), ids.end());
        std::vector<std::string> sids, back, has;
        std::vector<size_t> slots;
        std::vector<vd::J> vecs, recs, g;
        const auto& gr = idx->view_graph();
        size_t n = idx->view_data().size();
        bool sane = true;
        for (auto id : ids) {
            sids.push_back(idstr(id));
            auto s = size_t(idx->translate_external_id(id));
            slots.push_back(s);
            back.push_back(idstr(idx->translate_internal_id(s)));
            if (s < n) { vecs.push_back(vd::jr(idx->get_datum(id))); } else { sane = false; }
        }
        std::vector<size_t> probe_set(pool);
        probe_set.push_back(424242);
        for (auto p : probe_set) { if (idx->has_id(p)) { has.push_back(idstr(p)); } }
        if (!ids.empty() && sane) {
            auto dst = data::SimpleData<float>(ids.size(), c.dims);
            std::vector<uint64_t> u(ids.begin(), ids.end());
            idx->reconstruct_at(dst.view(), std::span<const uint64_t>(u.data(), u.size()));
            for (size_t i = 0; i < ids.size(); ++i) { recs.push_back(vd::jr(dst.get_datum(i))); }
        }
        std::vector<size_t> routed;
        for (size_t i = 0; i < std::min(n, gr.n_nodes()); ++i) { g.push_back(vd::jr(gr.get_node(i))); }
        std::vector<bool> isdel;
        for (size_t i = 0; i < n; ++i) { isdel.push_back(idx->is_deleted(i)); }
        bool dbg = true;
        try { idx->debug_check_invariants(true); } catch (const std::exception&) { dbg = false; }
        auto sp = idx->get_search_parameters();
        o("n", n)("gn", gr.n_nodes())("ids", sids)("slots", slots)("back", back)("vecs", vecs)
         ("recs", recs)("has", has)("size", idx->size())("g", g)("ep", size_t(idx->entry_point()))
         ("isdel", isdel)("dbg", dbg)("dims", idx->dimensions())("deg", gr.max_degree());
        std::vector<std::string> par{
            std::to_string(idx->get_alpha()), std::to_string(idx->get_construction_window_size()),
            std::to_string(idx->get_max_candidates()), std::to_string(idx->get_full_search_history()),
            std::to_string(idx->max_degree()),
            std::to_string(sp.buffer_config_.get_search_window_size()),
            std::to_string(sp.buffer_config_.get_total_capacity()),
            std::to_string(sp.search_buffer_visited_set_), std::to_string(sp.prefetch_lookahead_),
            std::to_string(sp.prefetch_step_)};
        o("par", par)("maxcand", idx->get_max_candidates());
        // The answers to fixed probe queries with fixed parameters.
        std::vector<vd::J> pr;
        if (n > 0) {
            auto f = search(probes, 4, 5, 7);
            for (size_t i = 0; i < probes.size(); ++i) {
                vd::Obj q; q("ids", f.ids[i])("ds", f.ds[i]); pr.push_back(q.done());
            }
        }
        o("probe", pr);
        return o.done();
    }

    std::vector<size_t> fresh(size_t k) {
        std::vector<size_t> f;
        for (auto p : pool) { if (!live.count(p)) { f.push_back(p); } }
        r.shuffle(f);
        if (f.size() > k) { f.resize(k); }
        return f;
    }
    std::vector<std::string> strs(const std::vector<size_t>& v) {
        std::vector<std::string> o;
        for (auto x : v) { o.push_back(idstr(x)); }
        return o;
    }

    float alpha() { return c.dist == "L2" ? r.pick({1.0f, 1.2f, 1.5f}) : r.pick({1.0f, 0.95f, 0.8f}); }

    void create() {
        auto ids = fresh(size_t(r.in(1, r.chance(30) ? 2 : c.scale(9, 80))));
        std::vector<std::vector<float>> vs;
        for (size_t i = 0; i < ids.size(); ++i) { vs.push_back(i > 0 && r.chance(15) ? vs[0] : vec()); }
        auto d = MakeData<Data>::make(ids.size(), c.dims, c.block);
        fill(d, vs);
        size_t nthreads = size_t(r.in(1, c.big && r.chance(20) ? 9 : 4));
        size_t prune_to = r.chance(50) ? c.deg : size_t(r.in(1, int64_t(c.deg)));
        float a = alpha();
        auto params = index::vamana::VamanaBuildParameters{
            a, c.deg, size_t(r.in(1, c.scale(12, 40))), size_t(r.in(1, c.scale(20, 60))), prune_to, r.chance(50)};
        bool assembled = r.chance(25);
        if (assembled) {
            // Put together from a graph built elsewhere.
            auto g = Graph(c.deg, ids.size());
            for (size_t i = 0; i < ids.size(); ++i) {
                for (size_t k = 0; k < c.deg; ++k) {
                    g.add_edge(uint32_t(i), uint32_t(r.in(0, int64_t(ids.size()) - 1)));
                }
            }
            idx.emplace(std::move(g), std::move(d), uint32_t(r.in(0, int64_t(ids.size()) - 1)), Dist{}, ids, nthreads);
            idx->set_alpha(a);
        } else {
            idx.emplace(params, std::move(d), ids, Dist{}, nthreads);
        }
        live.insert(ids.begin(), ids.end());
        deleted.clear();
        log(vd::ev("build")("ids", strs(ids))("vecs", rows(vs))("deg", c.deg)("dist", c.dist)
            ("dims", c.dims)("kind", assembled ? "assemble" : "build")("type", c.type)
            ("blocked", c.blocked)("threads", nthreads)
            ("probeq", rows(probes))("s", snap()));
    }

    void add() {
        size_t k = size_t(r.in(0, r.chance(20) ? 0 : c.scale(5, 40)));
        auto ids = fresh(k);
        bool bad_count = false;
        int what = int(r.in(0, 9));
        if (what == 0 && !live.empty()) {              // an id that is present
            std::vector<size_t> l(live.begin(), live.end());
            ids.insert(ids.begin() + r.in(0, int64_t(ids.size())), r.pick(l));
        } else if (what == 1 && !ids.empty()) {        // an id repeated in the batch
            ids.insert(ids.begin() + r.in(0, int64_t(ids.size())), r.pick(ids));
        } else if (what == 2) { bad_count = true; }
        std::vector<std::vector<float>> vs;
        for (size_t i = 0; i < ids.size(); ++i) { vs.push_back(vec()); }
        if (bad_count) { vs.push_back(vec()); }
        bool ok = true;
        auto d = data::SimpleData<T>(vs.size(), c.dims);
        fill(d, vs);
        std::vector<size_t> slots;
        try {
            slots = idx->add_points(d, ids);
        } catch (const std::exception& e) { ok = false; }
        if (ok) { live.insert(ids.begin(), ids.end()); }
        log(vd::ev("add")("ids", strs(ids))("vecs", rows(vs))("ok", ok)("ret", slots)("s", snap()));
    }

    void del() {
        std::vector<size_t> l(live.begin(), live.end());
        r.shuffle(l);
        size_t k = r.chance(8) ? l.size() : std::min(l.size(), size_t(r.in(0, c.scale(3, 30))));
        l.resize(k);
        if (r.chance(12)) {
            auto f = fresh(1);
            size_t unknown = f.empty() ? 424242 : f[0];
            l.insert(l.begin() + r.in(0, int64_t(l.size())), unknown);
        }
        bool ok = true;
        try { idx->delete_entries(l); } catch (const std::exception&) { ok = false; }
        if (ok) { for (auto x : l) { live.erase(x); } }
        log(vd::ev("del")("ids", strs(l))("ok", ok)("s", snap()));
    }

    void consolidate() {
        idx->consolidate();
        log(vd::ev("consolidate")("s", snap()));
    }
    void compact() {
        size_t b = r.pick({size_t(1), size_t(2), size_t(3), size_t(5), size_t(c.scale(7, 32)), size_t(1000)});
        if (b == 1000 && r.chance(50)) { idx->compact(); } else { idx->compact(uint32_t(b)); }
        log(vd::ev("compact")("batch", b)("s", snap()));
    }
    void save() {
        auto base = dir / ("s" + std::to_string(saves++));
        fs::remove_all(base);
        fs::create_directories(base);
        bool ok = true;
        bool same = false;
        try {
            idx->save(base / "config", base / "graph", base / "data");
        } catch (const std::exception&) { ok = false; }
        log(vd::ev("save")("ok", ok)("s", snap()));
        if (!ok || r.chance(30)) { return; }
        // Continue with the reloaded index.
        if (r.chance(30)) {
            auto moved = dir / ("m" + std::to_string(saves));
            fs::remove_all(moved);
            fs::rename(base, moved);
            base = moved;
        }
        size_t nthreads = size_t(r.in(1, c.big && r.chance(20) ? 9 : 3));
        bool rok = true;
        std::string what;
        try {
            auto re = index::vamana::auto_dynamic_assemble(
                base / "config",
                SVS_LAZY(Graph::load(base / "graph")),
                lib::Lazy([&]() { return MakeData<Data>::load(base / "data", c.block); }),
                Dist{}, nthreads);
            idx.reset();
            idx.emplace(std::move(re));
        } catch (const std::exception& e) { rok = false; what = e.what(); }
        log(vd::ev("reload")("ok", rok)("what", what)("s", snap()));
        fs::remove_all(base);
    }
    void find() {
        size_t nq = size_t(r.in(1, 4));
        std::vector<std::vector<float>> qs;
        for (size_t i = 0; i < nq; ++i) {
            // Sometimes ask for a vector that is stored.
            qs.push_back(vec());
            if (r.chance(30) && !live.empty()) {
                std::vector<size_t> l(live.begin(), live.end());
                auto v = idx->get_datum(r.pick(l));
                qs.back().assign(v.begin(), v.end());
            }
        }
        size_t k = size_t(r.in(1, c.scale(6, 20)));
        size_t n = idx->view_data().size();
        size_t w = r.chance(40) ? n + size_t(r.in(0, 3)) : size_t(r.in(1, c.scale(6, 30)));
        size_t cap = w + (r.chance(50) ? 0 : size_t(r.in(0, 6)));
        auto f = search(qs, k, w, cap);
        for (size_t i = 0; i < nq; ++i) {
            log(vd::ev("search")("q", qs[i])("k", k)("w", w)("cap", cap)("ids", f.ids[i])("ds", f.ds[i])("ex", false));
        }
        if (r.chance(30)) {
            auto res = QueryResult<size_t>(nq, k);
            auto q = queries(qs);
            idx->exhaustive_search(q.cview(), k, res.view());
            auto g = found(res);
            for (size_t i = 0; i < nq; ++i) {
                log(vd::ev("search")("q", qs[i])("k", k)("w", 0)("cap", 0)("ids", g.ids[i])("ds", g.ds[i])("ex", true));
            }
        }
    }
    void params() {
        if (r.chance(40)) { idx->set_num_threads(size_t(r.in(1, c.big && r.chance(20) ? 9 : 4))); }
        if (r.chance(40)) { idx->set_alpha(alpha()); }
        if (r.chance(40)) { idx->set_construction_window_size(size_t(r.in(1, c.scale(12, 40)))); }
        if (r.chance(40)) { idx->set_max_candidates(size_t(r.in(1, 20))); }
        if (r.chance(40)) { idx->set_full_search_history(r.chance(50)); }
        if (r.chance(40)) {
            size_t w = size_t(r.in(1, 9));
            auto sp = index::vamana::VamanaSearchParameters{
                index::vamana::SearchBufferConfig(w, w + size_t(r.in(0, 4))), r.chance(50),
                size_t(r.in(0, 6)), size_t(r.in(0, 3))};
            idx->set_search_parameters(sp);
        }
        log(vd::ev("params")("s", snap()));
    }

    void run(size_t steps) {
        create();
        find();
        for (size_t i = 0; i < steps; ++i) {
            int p = int(r.in(0, 99));
            if (p < 24) { add(); }
            else if (p < 44) { del(); }
            else if (p < 58) { consolidate(); }
            else if (p < 68) { compact(); }
            else if (p < 76) { save(); }
            else if (p < 80) { params(); }
            find();
        }
    }
};

// Built once per configuration (DYN_WHICH), so that configurations compile in parallel.
#ifndef DYN_WHICH
#define DYN_WHICH 0
#endif
#if DYN_WHICH == 0
using D_ = data::BlockedData<float>; using Dist_ = distance::DistanceL2;
static void conf(Cfg& c) { c.dist = "L2"; c.type = "float"; c.blocked = true; }
#elif DYN_WHICH == 1
using D_ = data::BlockedData<float>; using Dist_ = distance::DistanceIP;
static void conf(Cfg& c) { c.dist = "IP"; c.type = "float"; c.blocked = true; }
#elif DYN_WHICH == 2
using D_ = data::SimpleData<uint8_t>; using Dist_ = distance::DistanceL2;
static void conf(Cfg& c) { c.dist = "L2"; c.type = "uint8"; c.blocked = false; c.lo = 0; c.hi = 15; }
#elif DYN_WHICH == 3
using D_ = data::BlockedData<Float16>; using Dist_ = distance::DistanceL2;
static void conf(Cfg& c) { c.dist = "L2"; c.type = "float16"; c.blocked = true; }
#elif DYN_WHICH == 4
using D_ = data::SimpleData<int8_t>; using Dist_ = distance::DistanceIP;
static void conf(Cfg& c) { c.dist = "IP"; c.type = "int8"; c.blocked = false; }
#elif DYN_WHICH == 6
using D_ = data::BlockedData<float>; using Dist_ = distance::DistanceCosineSimilarity;
static void conf(Cfg& c) { c.dist = "cos"; c.type = "float"; c.blocked = true; c.dims = 2 + c.dims % 4; }
#else
using D_ = data::SimpleData<float>; using Dist_ = distance::DistanceL2;
static void conf(Cfg& c) { c.dist = "L2"; c.type = "float"; c.blocked = false; }
#endif

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    size_t seed = size_t(a.num("seed", 1)), hist = size_t(a.num("hist", 10)), steps = size_t(a.num("steps", 25));
    vd::Log log(a.str("out", "/dev/stdout"));
    auto dir = fs::path(a.str("dir", ".")) / ("dyn" + std::to_string(getpid()));
    fs::create_directories(dir);
    for (size_t h = 0; h < hist; ++h) {
        Rng r(seed * 100003 + h);
        Cfg c;
        c.big = h % 5 == 4;
        c.dims = size_t(r.in(1, c.scale(5, 40)));
        c.deg = size_t(r.in(2, c.scale(6, 14)));
        c.block = size_t(r.pick({int64_t(32), int64_t(64), int64_t(128), int64_t(4096)}));
        g_graph_block = size_t(r.pick({int64_t(32), int64_t(64), int64_t(256), int64_t(4096)}));
        c.lo = -9; c.hi = 9;
        conf(c);
        c.block = std::max<size_t>(c.block, lib::prevpow2(8 * c.dims).value() * 2);
        g_graph_block = std::max<size_t>(g_graph_block, lib::prevpow2(4 * (c.deg + 1)).value() * 2);
        History<SmallGraph, D_, Dist_> h_(r, log, c, dir);
        h_.run(c.big ? steps / 2 : steps);
    }
    fs::remove_all(dir);
    return 0;
}
