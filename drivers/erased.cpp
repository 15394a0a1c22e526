// Type-erased indexes next to the indexes they wrap: the same calls on both, one after another.
#include "common.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/lib/float16.h"
#include "svs/index/flat/flat.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include "svs/orchestrators/dynamic_vamana.h"
#include "svs/orchestrators/exhaustive.h"
#include "svs/orchestrators/inverted.h"
#include "svs/orchestrators/vamana.h"

#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <set>

using namespace svs;
using vd::Rng;
namespace vam = index::vamana;
namespace inv = index::inverted;
namespace fs = std::filesystem;

#ifndef ERASED_WHICH
#define ERASED_WHICH 0
#endif

static fs::path scratch;

using Rows = std::vector<std::vector<float>>;
static Rows some_rows(Rng& r, size_t n, size_t dims, int lo, int hi) {
    Rows out;
    for (size_t i = 0; i < n; ++i) {
        out.emplace_back();
        for (size_t k = 0; k < dims; ++k) { out.back().push_back(float(r.in(lo, hi))); }
        if (out.back()[0] == 0) { out.back()[0] = 1; }
    }
    return out;
}
template <typename T> static data::SimpleData<T> as_data(const Rows& rows, size_t dims) {
    data::SimpleData<T> d(rows.size(), dims);
    for (size_t i = 0; i < rows.size(); ++i) {
        std::vector<T> v;
        for (auto x : rows[i]) { v.push_back(T(x)); }
        d.set_datum(i, v);
    }
    return d;
}
static vd::J answer(const QueryResult<size_t>& res) {
    std::vector<vd::J> rows;
    for (size_t i = 0; i < res.n_queries(); ++i) {
        std::vector<std::string> out;
        for (size_t j = 0; j < res.n_neighbors(); ++j) {
            float d = res.distance(i, j);
            uint32_t bits;
            std::memcpy(&bits, &d, 4);
            char b[64];
            snprintf(b, sizeof b, "%zu:%08x", size_t(res.index(i, j)), bits);
            out.push_back(b);
        }
        rows.push_back(vd::j(out));
    }
    return vd::j(rows);
}
static vd::J table(const data::SimpleData<float>& d) {
    std::vector<vd::J> rows;
    for (size_t i = 0; i < d.size(); ++i) { rows.push_back(vd::jr(d.get_datum(i))); }
    return vd::j(rows);
}
static std::string text(double x) { return fmt::format("{:.6g}", x); }
static vd::J text(const vam::VamanaSearchParameters& p) {
    return vd::j(std::vector<size_t>{p.buffer_config_.get_search_window_size(), p.buffer_config_.get_total_capacity(),
        size_t(p.search_buffer_visited_set_), p.prefetch_lookahead_, p.prefetch_step_});
}
static vd::J text(const inv::InvertedSearchParameters& p) {
    auto& q = p.primary_parameters_;
    return vd::j(std::vector<size_t>{q.buffer_config_.get_search_window_size(), q.buffer_config_.get_total_capacity(),
        size_t(q.search_buffer_visited_set_), q.prefetch_lookahead_, q.prefetch_step_, size_t(p.refinement_epsilon_ * 16)});
}
static vd::J text(const index::flat::FlatParameters& p) { return vd::j(std::vector<size_t>{p.data_batch_size_, p.query_batch_size_}); }

// Some parameters to search with.
static void make(Rng& r, vam::VamanaSearchParameters& p) {
    size_t w = size_t(r.in(1, 12));
    p = vam::VamanaSearchParameters(vam::SearchBufferConfig{w, w + (r.chance(50) ? 0 : size_t(r.in(0, 6)))},
        r.chance(40), size_t(r.in(0, 5)), size_t(r.in(0, 3)));
}
static void make(Rng& r, inv::InvertedSearchParameters& p) {
    make(r, p.primary_parameters_);
    p.refinement_epsilon_ = r.pick({0.0, 0.25, 1.0, 4.0});
}
static void make(Rng& r, index::flat::FlatParameters& p) { p = {size_t(r.in(0, 30)), size_t(r.in(0, 5))}; }

// Both sides of a comparison.
struct Pair {
    vd::J erased, direct;
    bool eok = true, dok = true;
    template <typename E, typename D> Pair(E&& e, D&& d) {
        try { erased = e(); } catch (const std::exception&) { eok = false; erased = vd::j(std::vector<int>{}); }
        try { direct = d(); } catch (const std::exception&) { dok = false; direct = vd::j(std::vector<int>{}); }
    }
    void into(vd::Obj& o) { o("erased", erased)("direct", direct)("eok", eok)("dok", dok); }
};

template <typename M> constexpr bool is_static = std::is_same_v<M, Vamana>;
template <typename M> constexpr bool is_dynamic = std::is_same_v<M, DynamicVamana>;
template <typename M> constexpr bool is_graph = is_static<M> || is_dynamic<M>;

template <typename M, typename I, typename Ts> struct Run {
    Rng& r;
    vd::Log& log;
    M& m;
    I& x;
    size_t dims;
    int lo, hi;
    std::set<size_t> ids;   // present (dynamic), all (others)
    std::function<void(Run&)> reload;

    // What can be seen through the erased interface.
    void seen(vd::Obj& o) {
        vd::Obj s;
        s("size", m.size())("dims", m.dimensions())("threads", m.get_num_threads())("change", m.can_change_threads());
        s("params", text(m.get_search_parameters()));
        std::vector<std::string> t;
        for (auto q : m.query_types()) { t.push_back(std::string(name(q))); }
        s("types", t);
        if constexpr (is_graph<M>) {
            s("alpha", text(m.get_alpha()))("window", m.get_construction_window_size())("w", m.get_search_window_size());
        } else {
            s("alpha", "-")("window", 0)("w", 0);
        }
        if constexpr (is_static<M>) {
            s("cand", m.get_max_candidates())("visited", m.visited_set_enabled());
        } else {
            s("cand", 0)("visited", false);
        }
        std::vector<std::string> there, listed;
        if constexpr (is_dynamic<M>) {
            auto l = m.all_ids();
            std::sort(l.begin(), l.end());
            for (auto i : l) { listed.push_back(std::to_string(i)); }
            for (size_t i = 0; i < 30; ++i) { if (m.has_id(i * 7)) { there.push_back(std::to_string(i * 7)); } }
        }
        s("listed", listed)("there", there);
        o("s", s.done());
    }
    void put(vd::Obj o) { seen(o); log(o); }
    template <typename T> void search_as(const Rows& rows, size_t k) {
        auto q = as_data<T>(rows, dims);
        bool defaults = r.chance(40);
        auto sp = m.get_search_parameters();
        if (!defaults) { make(r, sp); }
        constexpr bool known = lib::in(datatype_v<T>, Ts{});
        Pair p([&]() {
            if (defaults) { return answer(m.search(q, k)); }
            QueryResult<size_t> res(rows.size(), k);
            m.search(res.view(), q.cview(), sp);
            return answer(res);
        }, [&]() -> vd::J {
            if constexpr (known) {
                if (defaults) { return answer(index::search_batch(x, q.cview(), k)); }
                QueryResult<size_t> res(rows.size(), k);
                x.search(res.view(), q.cview(), sp);
                return answer(res);
            } else { throw std::runtime_error("not offered"); }
        });
        auto o = vd::ev("search");
        o("type", std::string(name(datatype_v<T>)))("defaults", defaults);
        p.into(o);
        put(o);
    }
    void search() {
        auto rows = some_rows(r, size_t(r.in(0, 10) == 0 ? 0 : r.in(1, 5)), dims, lo, hi);
        size_t k = size_t(r.in(1, 8));
        switch (r.in(0, 5)) {
            case 0: search_as<Float16>(rows, k); break;
            case 1: search_as<int8_t>(rows, k); break;
            case 2: for (auto& v : rows) { for (auto& c : v) { c = std::abs(c); } } search_as<uint8_t>(rows, k); break;
            default: search_as<float>(rows, k); break;
        }
    }
    std::vector<size_t> some_ids(size_t n) {
        std::vector<size_t> v;
        if (ids.empty()) { return v; }
        std::vector<size_t> all(ids.begin(), ids.end());
        for (size_t i = 0; i < n; ++i) { v.push_back(r.pick(all)); }
        return v;
    }
    void rebuilt() {
        auto v = some_ids(size_t(r.in(0, 5)));
        if (r.chance(20)) { v.push_back(123456789); }
        size_t extra = r.chance(15) ? 1 : 0;
        size_t dd = dims + (r.chance(10) ? 1 : 0);
        auto once = [&](auto& index) {
            data::SimpleData<float> dst(v.size() + extra, dd);
            for (size_t i = 0; i < dst.size(); ++i) { dst.set_datum(i, std::vector<float>(dd, -77.0f)); }
            std::vector<uint64_t> u(v.begin(), v.end());
            bool ok = true;
            try { index.reconstruct_at(dst.view(), std::span<const uint64_t>(u.data(), u.size())); } catch (const std::exception&) { ok = false; }
            vd::Obj o;
            o("ok", ok)("rows", table(dst));
            return o.done();
        };
        Pair p([&]() { return once(m); }, [&]() { return once(x); });
        auto o = vd::ev("reconstruct");
        p.into(o);
        put(o);
    }
    void calibrate() {
        if constexpr (is_graph<M>) {
            auto rows = some_rows(r, size_t(r.in(1, 5)), dims, lo, hi);
            auto q = as_data<float>(rows, dims);
            size_t k = size_t(r.in(1, 3));
            data::SimpleData<uint32_t> truth(q.size(), k);
            for (size_t i = 0; i < q.size(); ++i) {
                std::vector<uint32_t> t;
                auto v = some_ids(k);
                v.resize(k, 0);
                for (auto id : v) { t.push_back(uint32_t(id)); }
                truth.set_datum(i, t);
            }
            double target = r.pick({0.2, 0.5, 0.9});
            auto c = vam::CalibrationParameters();
            c.train_prefetchers_ = false;
            c.search_window_size_upper_ = size_t(r.in(5, 30));
            c.search_window_capacity_upper_ = c.search_window_size_upper_;
            Pair p([&]() { return text(m.experimental_calibrate(q, truth, k, target, c)); },
                   [&]() { return text(x.calibrate(q.cview(), truth.cview(), k, target, c)); });
            auto o = vd::ev("calibrate");
            p.into(o);
            put(o);
        }
    }
    void set() {
        auto o = vd::ev("set");
        if constexpr (is_graph<M>) {
            int what = int(r.in(0, is_static<M> ? 6 : 4));
            if (what == 0) {
                float a = r.pick({1.0f, 1.2f, 1.75f, 0.95f, 0.5f});
                m.set_alpha(a); x.set_alpha(a);
                o("what", "alpha")("text", text(a))("n", 0); put(o); return;
            }
            if (what == 1) {
                size_t w = size_t(r.in(1, 20));
                m.set_construction_window_size(w); x.set_construction_window_size(w);
                o("what", "window")("text", "")("n", w); put(o); return;
            }
            if (what == 2) {
                size_t w = size_t(r.in(1, 20));
                m.set_search_window_size(w);
                auto sp = x.get_search_parameters();
                sp.buffer_config_ = vam::SearchBufferConfig{w};
                x.set_search_parameters(sp);
                o("what", "w")("text", "")("n", w); put(o); return;
            }
            if constexpr (is_static<M>) {
                if (what == 5) {
                    size_t w = size_t(r.in(1, 20));
                    m.set_max_candidates(w); x.set_max_candidates(w);
                    o("what", "cand")("text", "")("n", w); put(o); return;
                }
                if (what == 6) {
                    bool on = r.chance(50);
                    if (on) { m.enable_visited_set(); } else { m.disable_visited_set(); }
                    auto sp = x.get_search_parameters();
                    sp.search_buffer_visited_set_ = on;
                    x.set_search_parameters(sp);
                    o("what", "visited")("text", "")("n", size_t(on)); put(o); return;
                }
            }
            if (what == 3) {
                m.experimental_reset_performance_parameters();
                x.reset_performance_parameters();
                o("what", "reset")("text", "")("n", 0);
                o("direct", text(x.get_search_parameters()));
                put(o);
                return;
            }
        }
        if (r.chance(40)) {
            size_t t = size_t(r.in(0, 4));
            m.set_num_threads(t); x.set_num_threads(std::max<size_t>(t, 1));
            o("what", "threads")("text", "")("n", t); put(o); return;
        }
        auto sp = m.get_search_parameters();
        make(r, sp);
        m.set_search_parameters(sp); x.set_search_parameters(sp);
        o("what", "params")("text", "")("n", 0)("direct", text(sp));
        put(o);
    }
    void change() {
        if constexpr (is_dynamic<M>) {
            auto o = vd::ev("change");
            int what = int(r.in(0, 9));
            std::vector<std::string> sids;
            if (what < 4) {
                std::vector<size_t> fresh;
                size_t n = size_t(r.in(0, 4));
                for (size_t i = 0; i < 60 && fresh.size() < n; ++i) {
                    size_t id = 7 * size_t(r.in(0, 29));
                    if (!r.chance(5) && (ids.count(id) || std::count(fresh.begin(), fresh.end(), id))) { continue; }
                    fresh.push_back(id);
                }
                auto rows = some_rows(r, fresh.size(), dims, lo, hi);
                // The erased interface takes vectors of float.
                auto d = as_data<float>(rows, dims);
                Pair p([&]() { m.add_points(d.cview(), fresh); return vd::j(1); }, [&]() { x.add_points(d.cview(), fresh); return vd::j(1); });
                if (p.dok) { ids.insert(fresh.begin(), fresh.end()); }
                for (auto i : fresh) { sids.push_back(std::to_string(i)); }
                o("what", "add")("ids", sids);
                p.into(o);
            } else if (what < 7) {
                std::set<size_t> gone;
                for (auto i : some_ids(size_t(r.in(0, 3)))) { gone.insert(i); }
                if (gone.size() == ids.size()) { gone.clear(); }
                if (r.chance(10)) { gone.insert(123456789); }
                std::vector<size_t> v(gone.begin(), gone.end());
                Pair p([&]() { m.delete_points(v); return vd::j(1); }, [&]() { x.delete_entries(v); return vd::j(1); });
                if (p.dok) { for (auto i : v) { ids.erase(i); } }
                for (auto i : v) { sids.push_back(std::to_string(i)); }
                o("what", "delete")("ids", sids);
                p.into(o);
            } else if (what < 8) {
                Pair p([&]() { m.consolidate(); return vd::j(1); }, [&]() { x.consolidate(); return vd::j(1); });
                o("what", "consolidate")("ids", sids);
                p.into(o);
            } else {
                size_t b = size_t(r.in(1, 9));
                bool plain = r.chance(1);
                Pair p([&]() { if (plain) { m.compact(); } else { m.compact(b); } return vd::j(1); },
                       [&]() { if (plain) { x.compact(); } else { x.compact(uint32_t(b)); } return vd::j(1); });
                o("what", "compact")("ids", sids);
                p.into(o);
            }
            put(o);
        }
    }
    void operator()(const char* kind, int len) {
        auto o = vd::ev("begin");
        std::vector<std::string> sids;
        for (auto i : ids) { sids.push_back(std::to_string(i)); }
        std::vector<std::string> t;
        for (auto q : Ts::data_types()) { t.push_back(std::string(name(q))); }
        o("kind", kind)("ids", sids)("types", t)("size", x.size())("dims", dims)("threads", x.get_num_threads())
         ("params", text(x.get_search_parameters()));
        if constexpr (is_graph<M>) {
            o("alpha", text(x.get_alpha()))("window", x.get_construction_window_size())("cand", x.get_max_candidates());
        } else { o("alpha", "-")("window", 0)("cand", 0); }
        put(o);
        for (int i = 0; i < len; ++i) {
            int what = int(r.in(0, 99));
            if (what < 25) { set(); }
            else if (what < 35) { if constexpr (is_graph<M>) { rebuilt(); } }
            else if (what < 40) { calibrate(); }
            else if (what < 58) { change(); }
            else if (what < 63) { if (reload) { reload(*this); } }
            else { search(); }
        }
    }
};

template <typename D> struct Enum { static constexpr DistanceType value = distance_type_v<D>; };

template <typename T, typename D, typename Ts> static void static_case(Rng& r, vd::Log& log, const char* kind, int len) {
    int lo = std::is_unsigned_v<T> ? 0 : -9, hi = 9;
    size_t dims = size_t(r.in(1, 9));
    size_t n = size_t(r.in(1, 40));
    auto rows = some_rows(r, n, dims, lo, hi);
    float alpha = std::is_same_v<D, DistanceL2> ? 1.2f : 0.9f;
    auto bp = vam::VamanaBuildParameters{alpha, size_t(r.in(2, 6)), size_t(r.in(1, 15)), size_t(r.in(1, 20)), 2, r.chance(50)};
    size_t threads = 1;
    auto x = std::optional(vam::auto_build(bp, as_data<T>(rows, dims), D(), threads));
    auto m = r.chance(50) ? Vamana::build<Ts>(bp, as_data<T>(rows, dims), Enum<D>::value, threads)
                          : Vamana::build<Ts>(bp, as_data<T>(rows, dims), D(), threads);
    using I = typename std::remove_cvref_t<decltype(x)>::value_type;
    Run<Vamana, I, Ts> run{r, log, m, *x, dims, lo, hi, {}, {}};
    for (size_t i = 0; i < n; ++i) { run.ids.insert(i); }
    run.reload = [&](auto& self) {
        auto base = scratch / "static";
        fs::remove_all(base);
        fs::create_directories(base / "m");
        fs::create_directories(base / "x");
        bool ok = true;
        size_t t = size_t(r.in(1, 3));
        try {
            m.save(base / "m" / "config", base / "m" / "graph", base / "m" / "data");
            // Each side loads what the other one saved.
            x->save(base / "x" / "config", base / "x" / "graph", base / "x" / "data");
            auto mm = r.chance(50)
                ? Vamana::assemble<Ts>(base / "x" / "config", GraphLoader(base / "x" / "graph"), VectorDataLoader<T>(base / "x" / "data"), Enum<D>::value, t)
                : Vamana::assemble<Ts>(base / "x" / "config", GraphLoader(base / "x" / "graph"), VectorDataLoader<T>(base / "x" / "data"), D(), t);
            auto xx = vam::auto_assemble(base / "m" / "config", GraphLoader(base / "m" / "graph"), VectorDataLoader<T>(base / "m" / "data"), D(), t);
            m = std::move(mm);
            if constexpr (std::is_same_v<decltype(xx), I>) { x.reset(); x.emplace(std::move(xx)); }
        } catch (const std::exception&) { ok = false; }
        auto o = vd::ev("reload");
        o("ok", ok)("threads", t);
        self.put(o);
        fs::remove_all(base);
    };
    run(kind, len);
}

// A graph over small blocks: the default block takes 1 GiB.
using GraphData = data::BlockedData<uint32_t, Dynamic, HugepageAllocator<uint32_t>>;
struct SmallGraph : graphs::SimpleGraphBase<uint32_t, GraphData> {
    using P = graphs::SimpleGraphBase<uint32_t, GraphData>;
    static auto alloc() {
        return data::Blocked<HugepageAllocator<uint32_t>>(data::BlockingParameters{.blocksize_bytes = lib::prevpow2(512)});
    }
    SmallGraph(size_t max_degree, size_t n) : P(n, max_degree, alloc()) {}
    explicit SmallGraph(data_type d) : P(std::move(d)) {}
    void unsafe_resize(size_t n) { P::data_.resize(n); }
    void add_node() { unsafe_resize(P::n_nodes() + 1); }
    static SmallGraph load(const lib::LoadTable& table) {
        auto lazy = lib::Lazy([](data_type d) { return SmallGraph(std::move(d)); });
        return P::load(table, lazy, alloc());
    }
    static SmallGraph load(const fs::path& p) { return lib::load_from_disk<SmallGraph>(p); }
};

template <typename T, typename D, typename Ts, typename Graph> static void dynamic_case(Rng& r, vd::Log& log, const char* kind, int len) {
    int lo = std::is_unsigned_v<T> ? 0 : -9, hi = 9;
    size_t dims = size_t(r.in(1, 9));
    size_t n = size_t(r.in(1, 20));
    auto rows = some_rows(r, n, dims, lo, hi);
    float alpha = std::is_same_v<D, DistanceL2> ? 1.2f : 0.9f;
    auto bp = vam::VamanaBuildParameters{alpha, size_t(r.in(2, 6)), size_t(r.in(1, 15)), size_t(r.in(1, 20)), 2, r.chance(50)};
    std::vector<size_t> ids;
    for (size_t i = 0; i < n; ++i) { ids.push_back(i * 7); }
    r.shuffle(ids);
    auto alloc = data::Blocked<lib::Allocator<T>>(data::BlockingParameters{.blocksize_bytes = lib::prevpow2(128)});
    auto blocked = [&]() {
        data::BlockedData<T> d(n, dims, alloc);
        auto s = as_data<T>(rows, dims);
        for (size_t i = 0; i < n; ++i) { d.set_datum(i, s.get_datum(i)); }
        return d;
    };
    using I = vam::MutableVamanaIndex<Graph, data::BlockedData<T>, D>;
    auto x = std::optional<I>();
    x.emplace(bp, blocked(), ids, D(), 1);
    auto m = [&]() {
        if constexpr (std::is_same_v<Graph, SmallGraph>) {
            return DynamicVamana(DynamicVamana::AssembleTag(), Ts(), I(bp, blocked(), ids, D(), 1));
        } else {
            return DynamicVamana::build<Ts>(bp, blocked(), std::span<const size_t>(ids), D(), 1);
        }
    }();
    Run<DynamicVamana, I, Ts> run{r, log, m, *x, dims, lo, hi, {}, {}};
    run.ids.insert(ids.begin(), ids.end());
    run.reload = [&](auto& self) {
        auto base = scratch / "dynamic";
        fs::remove_all(base);
        fs::create_directories(base / "m");
        fs::create_directories(base / "x");
        bool ok = true;
        size_t t = size_t(r.in(1, 3));
        try {
            m.save(base / "m" / "config", base / "m" / "graph", base / "m" / "data");
            x->save(base / "x" / "config", base / "x" / "graph", base / "x" / "data");
            auto graph = [](fs::path p) { return lib::Lazy([p]() { return Graph::load(p); }); };
            auto load = [alloc](fs::path p) { return lib::Lazy([p, alloc]() { return lib::load_from_disk<data::BlockedData<T>>(p, alloc); }); };
            auto mm = DynamicVamana::assemble<Ts>(base / "x" / "config", graph(base / "x" / "graph"), load(base / "x" / "data"), D(), t);
            auto xx = vam::auto_dynamic_assemble(base / "m" / "config", graph(base / "m" / "graph"), load(base / "m" / "data"), D(), t);
            m = std::move(mm);
            x.reset();
            x.emplace(std::move(xx));
        } catch (const std::exception&) { ok = false; }
        auto o = vd::ev("reload");
        o("ok", ok)("threads", t);
        self.put(o);
        fs::remove_all(base);
    };
    run(kind, len);
}

template <typename T, typename D, typename Ts> static void flat_case(Rng& r, vd::Log& log, const char* kind, int len) {
    int lo = std::is_unsigned_v<T> ? 0 : -9, hi = 9;
    size_t dims = size_t(r.in(1, 9));
    size_t n = size_t(r.in(1, 40));
    size_t threads = size_t(r.in(1, 3));
    auto rows = some_rows(r, n, dims, lo, hi);
    auto x = index::flat::FlatIndex(as_data<T>(rows, dims), D(), threads::NativeThreadPool(threads));
    auto m = r.chance(50) ? Flat::assemble<Ts>(as_data<T>(rows, dims), Enum<D>::value, threads)
                          : Flat::assemble<Ts>(as_data<T>(rows, dims), D(), threads);
    Run<Flat, decltype(x), Ts> run{r, log, m, x, dims, lo, hi, {}, {}};
    for (size_t i = 0; i < n; ++i) { run.ids.insert(i); }
    run(kind, len);
}

template <typename T, typename D, typename Ts> static void inverted_case(Rng& r, vd::Log& log, const char* kind, int len) {
    int lo = std::is_unsigned_v<T> ? 0 : -9, hi = 9;
    size_t dims = size_t(r.in(1, 9));
    size_t n = size_t(r.in(10, 60));
    auto rows = some_rows(r, n, dims, lo, hi);
    inv::ClusteringParameters p;
    p.epsilon(0.5).refinement_alpha(1.0).max_replicas(size_t(r.in(0, 4))).num_intermediate_results(size_t(r.in(1, 8)));
    p.search_window_size(20).percent_centroids(lib::Percent(double(r.in(11, 40)) / 100)).seed(r.next());
    auto bp = vam::VamanaBuildParameters{std::is_same_v<D, DistanceL2> ? 1.2f : 0.9f, size_t(r.in(2, 6)), 10, 20, 2, false};
    inv::InvertedBuildParameters build(p, bp);
    auto go = [&](auto strategy) {
        auto x = inv::auto_build(build, as_data<T>(rows, dims), D(), size_t(1), strategy);
        auto m = Inverted::build<Ts>(build, as_data<T>(rows, dims), D(), size_t(1), strategy);
        Run<Inverted, decltype(x), Ts> run{r, log, m, x, dims, lo, hi, {}, {}};
        for (size_t i = 0; i < n; ++i) { run.ids.insert(i); }
        run(kind, len);
    };
    if (r.chance(50)) { go(inv::SparseStrategy()); } else { go(inv::DenseStrategy()); }
}

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    size_t seed = size_t(a.num("seed", 1)), n = size_t(a.num("n", 10));
    int len = int(a.num("len", 30));
    vd::Log log(a.str("out", "/dev/stdout"));
    scratch = fs::path(a.str("dir", ".")) / ("erased" + std::to_string(getpid()));
    fs::create_directories(scratch);
    using One = lib::Types<float>;
    using Two = lib::Types<float, Float16>;
    using Ints = lib::Types<int8_t, float>;
    using Bytes = lib::Types<uint8_t>;
    for (size_t i = 0; i < n; ++i) {
        Rng r(seed * 100003 + i);
#if ERASED_WHICH == 0
        switch (i % 4) {
            case 0: static_case<float, DistanceL2, Two>(r, log, "static", len); break;
            case 1: static_case<float, DistanceIP, One>(r, log, "static", len); break;
            case 2: static_case<int8_t, DistanceL2, Ints>(r, log, "static", len); break;
            default: static_case<float, DistanceCosineSimilarity, One>(r, log, "static", len); break;
        }
#elif ERASED_WHICH == 1
        if (i == n - 1) { dynamic_case<float, DistanceL2, Two, graphs::SimpleBlockedGraph<uint32_t>>(r, log, "dynamic", 6); break; }
        switch (i % 3) {
            case 0: dynamic_case<float, DistanceL2, Two, SmallGraph>(r, log, "dynamic", len); break;
            case 1: dynamic_case<float, DistanceIP, One, SmallGraph>(r, log, "dynamic", len); break;
            default: dynamic_case<Float16, DistanceL2, Two, SmallGraph>(r, log, "dynamic", len); break;
        }
#else
        switch (i % 5) {
            case 0: flat_case<float, DistanceL2, Two>(r, log, "flat", len); break;
            case 1: flat_case<uint8_t, DistanceIP, Bytes>(r, log, "flat", len); break;
            case 2: flat_case<float, DistanceCosineSimilarity, One>(r, log, "flat", len); break;
            case 3: inverted_case<float, DistanceL2, One>(r, log, "inverted", len); break;
            default: inverted_case<float, DistanceIP, Two>(r, log, "inverted", len); break;
        }
#endif
    }
    fs::remove_all(scratch);
    return 0;
}
