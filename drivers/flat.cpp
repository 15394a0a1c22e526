// Exhaustive search on small integer data with every kind of batching, and the bounded
// collections it is built from.
#include "common.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/query_result.h"
#include "svs/index/flat/flat.h"
#include "svs/lib/float16.h"
#include "svs/orchestrators/exhaustive.h"

#include <optional>

using namespace svs;
using vd::Rng;
namespace flat = index::flat;
using Vecs = std::vector<std::vector<int>>;

static vd::J rows(const Vecs& v) {
    std::vector<vd::J> o;
    for (auto& x : v) { o.push_back(vd::j(x)); }
    return vd::j(o);
}
template <typename T, typename D = data::SimpleData<T>> D make(const Vecs& v, size_t dims) {
    D d(v.size(), dims);
    for (size_t i = 0; i < v.size(); ++i) {
        std::vector<T> t;
        for (auto x : v[i]) { t.push_back(T(x)); }
        d.set_datum(i, t);
    }
    return d;
}
// Vectors whose cosine similarities are multiples of a quarter, exactly.
static std::vector<int> cosine_vector(Rng& r) {
    int m = 1 << r.in(0, 3);
    std::vector<int> v(4, 0);
    if (r.chance(50)) {
        v[size_t(r.in(0, 3))] = r.chance(50) ? m : -m;
    } else {
        for (auto& x : v) { x = r.chance(50) ? m : -m; }
    }
    return v;
}
struct Problem {
    std::string kind;
    size_t dims;
    Vecs vecs;
    Vecs queries;
};
static Problem problem(Rng& r, const std::string& kind, bool is_unsigned) {
    Problem p;
    p.kind = kind;
    p.dims = kind == "COS" ? 4 : size_t(r.in(1, 4));
    int lo = is_unsigned ? 0 : -5;
    auto one = [&]() {
        if (kind == "COS") { return cosine_vector(r); }
        std::vector<int> v;
        for (size_t i = 0; i < p.dims; ++i) { v.push_back(int(r.in(lo, 5))); }
        return v;
    };
    auto n = r.chance(10) ? r.in(0, 2) : r.chance(10) ? r.in(30, 70) : r.in(1, 16);
    for (int64_t i = 0; i < n; ++i) {
        if (i > 0 && r.chance(15)) { auto c = p.vecs[size_t(r.in(0, i - 1))]; p.vecs.push_back(c); }
        else { p.vecs.push_back(one()); }
    }
    auto q = r.chance(5) ? 0 : r.in(1, 9);
    for (int64_t i = 0; i < q; ++i) { p.queries.push_back(one()); }
    return p;
}
static double scale(const std::string& kind) { return kind == "COS" ? 4 : 1; }
static void answers(vd::Obj& o, const QueryResult<size_t>& res, double s) {
    std::vector<vd::J> ids;
    std::vector<vd::J> ds;
    for (size_t i = 0; i < res.n_queries(); ++i) {
        std::vector<int64_t> a;
        std::vector<double> b;
        for (size_t j = 0; j < res.n_neighbors(); ++j) {
            auto x = res.index(i, j);
            a.push_back(x == std::numeric_limits<size_t>::max() ? -1 : x < 1000000 ? int64_t(x) : -2);
            b.push_back(double(res.distance(i, j)) * s);
        }
        ids.push_back(vd::j(a));
        ds.push_back(vd::j(b));
    }
    o("ids", vd::j(ids))("ds", vd::j(ds));
}
static std::vector<size_t> settings(const flat::FlatParameters& p) {
    return {p.data_batch_size_, p.query_batch_size_};
}
static size_t some_batch(Rng& r, size_t n) {
    return r.chance(20) ? 0 : r.chance(15) ? n : r.chance(10) ? n + size_t(r.in(1, 5)) : size_t(r.in(1, std::max<int64_t>(1, int64_t(n))));
}

// Search an index a few times; `search` takes result, queries, parameters and filter.
template <typename Q, typename Index, typename Search>
static void use(Rng& r, vd::Log& log, const Problem& p, const char* via, Index& index, bool filters, Search&& search) {
    auto queries = make<Q>(p.queries, p.dims);
    auto o = vd::ev("flat");
    o("kind", p.kind)("via", via)("d", p.dims)("vecs", rows(p.vecs))("queries", rows(p.queries));
    std::vector<vd::J> runs;
    int m = int(r.in(1, 4));
    for (int i = 0; i < m; ++i) {
        if (r.chance(50)) { index.set_num_threads(size_t(r.in(1, 4))); }
        flat::FlatParameters fp{some_batch(r, p.vecs.size()), some_batch(r, p.queries.size())};
        if (r.chance(30)) { index.set_search_parameters(flat::FlatParameters{some_batch(r, p.vecs.size()), some_batch(r, p.queries.size())}); }
        auto before = settings(index.get_search_parameters());
        auto k = size_t(r.chance(15) ? r.in(1, int64_t(p.vecs.size()) + 4) : r.in(1, 6));
        std::vector<bool> filter;
        if (filters && r.chance(50)) {
            int pc = r.pick({0, 20, 50, 90, 100});
            for (size_t j = 0; j < p.vecs.size(); ++j) { filter.push_back(r.chance(pc)); }
        }
        vd::Obj run;
        run("k", k)("db", fp.data_batch_size_)("qb", fp.query_batch_size_)("threads", index.get_num_threads())("filter", filter);
        QueryResult<size_t> res(p.queries.size(), k);
        for (size_t a = 0; a < p.queries.size(); ++a) { for (size_t b = 0; b < k; ++b) { res.set(Neighbor<size_t>{777, 777.0f}, a, b); } }
        bool err = false;
        try { search(res, queries, fp, filter); } catch (const std::exception&) { err = true; }
        run("err", err);
        answers(run, res, scale(p.kind));
        run("before", before)("after", settings(index.get_search_parameters()));
        runs.push_back(run.done());
    }
    o("runs", vd::j(runs))("size", index.size())("dims", index.dimensions());
    log(o);
}

template <typename T, typename Q, typename Dist> static void one(Rng& r, vd::Log& log, const std::string& kind) {
    auto p = problem(r, kind, std::is_unsigned_v<T> || std::is_unsigned_v<Q>);
    auto with_filter = [&](auto& index) {
        return [&](auto& res, const auto& queries, const auto& fp, const std::vector<bool>& f) {
            if (f.empty()) {
                index.search(res.view(), queries.cview(), fp);
            } else {
                index.search(res.view(), queries.cview(), fp, [&](size_t i) { return f.at(i); });
            }
        };
    };
    switch (r.in(0, 3)) {
        case 0: {
            auto index = flat::FlatIndex(make<T>(p.vecs, p.dims), Dist(), size_t(r.in(1, 3)));
            use<Q>(r, log, p, "index", index, true, with_filter(index));
            break;
        }
        case 1: {
            auto d = make<T>(p.vecs, p.dims);
            auto pool = threads::NativeThreadPool(size_t(r.in(1, 3)));
            auto index = flat::temporary_flat_index(d, Dist(), pool);
            use<Q>(r, log, p, "temporary", index, true, with_filter(index));
            break;
        }
        case 2: {
            auto index = flat::FlatIndex(make<T, data::BlockedData<T>>(p.vecs, p.dims), Dist(), size_t(r.in(1, 3)));
            use<Q>(r, log, p, "blocked", index, true, with_filter(index));
            break;
        }
        default: {
            auto index = r.chance(50)
                ? Flat::assemble<lib::Types<Q>>(make<T>(p.vecs, p.dims), Dist(), size_t(r.in(1, 3)))
                : Flat::assemble<lib::Types<Q>>(make<T>(p.vecs, p.dims), p.kind == "L2" ? DistanceType::L2 : p.kind == "IP" ? DistanceType::MIP : DistanceType::Cosine, size_t(r.in(1, 3)));
            use<Q>(r, log, p, "orchestrator", index, false, [&](auto& res, const auto& queries, const auto& fp, const auto&) {
                index.search(res.view(), queries.cview(), fp);
            });
        }
    }
}

template <typename Cmp> static void bulk(Rng& r, vd::Log& log, const char* kind) {
    size_t batch = size_t(r.in(1, 3));
    size_t k = size_t(r.in(1, 6));
    auto s = flat::BulkInserter<Neighbor<size_t>, Cmp>(r.chance(50) ? batch : 1, r.chance(50) ? k : 2, Cmp());
    for (int round = 0; round < 3; ++round) {
        if (round > 0 && r.chance(50)) { batch = size_t(r.in(1, 3)); k = size_t(r.in(1, 6)); }
        switch (r.in(0, 1)) {
            case 0: s.resize(batch, k); break;
            default: s.resize_batch(batch); s.resize_neighbors(k);
        }
        s.prepare();
        bool linear = r.chance(40);
        auto own = std::vector<Neighbor<size_t>>(k);
        auto lin = flat::LinearInserter(own.begin(), own.end(), Cmp());
        lin.prepare();
        if (linear) { batch = 1; }
        std::vector<std::vector<int>> ins;
        int m = int(r.in(0, 14));
        for (int i = 0; i < m; ++i) {
            int b = int(r.in(0, int64_t(batch) - 1));
            int d = int(r.in(-4, 4));
            ins.push_back({b, i * 3 + 1, d});
            auto x = Neighbor<size_t>{size_t(i * 3 + 1), float(d)};
            if (linear) { lin.insert(x); } else { s.insert(size_t(b), x); }
        }
        std::vector<vd::J> out;
        auto row = [&](auto range) {
            std::vector<vd::J> o;
            for (const auto& x : range) {
                std::vector<int64_t> pair{x.id() == std::numeric_limits<size_t>::max() ? -1 : int64_t(x.id()), int64_t(0)};
                if (pair[0] != -1) { pair[1] = int64_t(x.distance()); }
                o.push_back(vd::j(pair));
            }
            return vd::j(o);
        };
        size_t reported = 1;
        if (linear) { lin.cleanup(); out.push_back(row(own)); }
        else {
            s.cleanup();
            reported = s.batch_size();
            for (size_t b = 0; b < s.batch_size(); ++b) { out.push_back(row(s.result(b))); }
        }
        auto o = vd::ev("bulk");
        o("kind", kind)("batch", linear ? reported : batch)("k", k)("ins", rows(ins))("rows", vd::j(out));
        log(o);
        if (linear) { batch = s.batch_size(); k = s.num_neighbors(); }
    }
}

int main(int argc, char** argv) {
    vd::Args args(argc, argv);
    vd::Log log(args.str("out", "flat.ndjson"));
    Rng r(uint64_t(args.num("seed", 1)));
    int64_t n = args.num("n", 200);
    for (int64_t i = 0; i < n; ++i) {
        switch (r.in(0, 7)) {
            case 0: one<float, float, distance::DistanceL2>(r, log, "L2"); break;
            case 1: one<float, float, distance::DistanceIP>(r, log, "IP"); break;
            case 2: one<float, float, distance::DistanceCosineSimilarity>(r, log, "COS"); break;
            case 3: one<int8_t, float, distance::DistanceL2>(r, log, "L2"); break;
            case 4: one<uint8_t, uint8_t, distance::DistanceIP>(r, log, "IP"); break;
            case 5: one<Float16, float, distance::DistanceL2>(r, log, "L2"); break;
            case 6: one<int8_t, int8_t, distance::DistanceIP>(r, log, "IP"); break;
            default: bulk<std::less<>>(r, log, "L2"); bulk<std::greater<>>(r, log, "IP");
        }
    }
    return 0;
}
