// Calibration (index/vamana/calibrate.h): with a synthetic recall measure over a stand-in for
// an index, and through the static and the dynamic index.
#include "common.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/recall.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"

using namespace svs;
namespace vam = svs::index::vamana;

// Two kinds of data, of which one claims to rerank.
struct PlainData {};
struct RerankingData {};
namespace svs::index::vamana::extensions {
constexpr bool svs_invoke(UsesReranking<RerankingData>) { return true; }
} // namespace svs::index::vamana::extensions
template <typename D> struct StandIn {
    using data_type = D;
    vam::VamanaSearchParameters preset;
    size_t degree;
    vam::VamanaSearchParameters get_search_parameters() const { return preset; }
    size_t max_degree() const { return degree; }
};
static std::vector<int64_t> fields(const vam::VamanaSearchParameters& p) {
    return {int64_t(p.buffer_config_.get_search_window_size()), int64_t(p.buffer_config_.get_total_capacity()), p.search_buffer_visited_set_ ? 1 : 0, int64_t(p.prefetch_lookahead_), int64_t(p.prefetch_step_)};
}
static vd::J rows(const std::vector<std::vector<int64_t>>& m) {
    std::string s = "[";
    for (size_t i = 0; i < m.size(); ++i) { s += (i ? "," : "") + vd::j(m[i]).s; }
    return vd::J::raw(s + "]");
}
using SBO = vam::CalibrationParameters::SearchBufferOptimization;
static const std::vector<std::pair<SBO, const char*>> MODES = {{SBO::Disable, "Disable"}, {SBO::All, "All"}, {SBO::ROIOnly, "ROIOnly"}, {SBO::ROITuneUp, "ROITuneUp"}};

struct Setup {
    vam::CalibrationParameters cp;
    vam::VamanaSearchParameters preset;
    const char* mode;
    size_t k;
};
static Setup setup(vd::Rng& r, bool wide, size_t kmax) {
    Setup s;
    s.k = size_t(r.in(1, int64_t(kmax)));
    if (wide && r.chance(50)) {
        // The default ranges.
    } else {
        int64_t most = wide ? 60 : int64_t(kmax) + 6;
        s.cp.search_window_size_upper_ = size_t(r.in(int64_t(s.k), most));
        s.cp.search_window_capacity_upper_ = size_t(r.in(int64_t(s.k), most));
    }
    // All is the mode with most to it.
    auto m = r.chance(40) ? MODES[1] : r.pick(MODES);
    s.cp.search_buffer_optimization_ = m.first;
    s.mode = m.second;
    s.cp.timing_iterations_ = size_t(r.in(1, 2));
    s.cp.train_prefetchers_ = r.chance(50);
    s.cp.use_existing_parameter_values_ = r.chance(70);
    s.cp.prefetch_steps_.clear();
    for (int i = int(r.in(0, 3)); i > 0; --i) { s.cp.prefetch_steps_.push_back(size_t(r.in(1, 6))); }
    size_t w = size_t(r.in(1, int64_t(kmax) + 3));
    size_t c = w + size_t(r.in(0, 6));
    s.preset = vam::VamanaSearchParameters{{w, c}, r.chance(50), size_t(r.in(0, 9)), size_t(r.in(0, 5))};
    return s;
}
static void common(vd::Obj& o, const Setup& s, bool rerank, size_t degree) {
    o("mode", s.mode)("k", s.k)("wu", s.cp.search_window_size_upper_)("cu", s.cp.search_window_capacity_upper_);
    o("rerank", rerank)("train", s.cp.train_prefetchers_)("existing", s.cp.use_existing_parameter_values_);
    o("preset", fields(s.preset))("default", fields(vam::VamanaSearchParameters()));
    o("steps", s.cp.prefetch_steps_)("degree", degree);
}

template <typename D> static void synthetic(vd::Rng& r, vd::Log& log, bool rerank) {
    auto s = setup(r, r.chance(30), 6);
    StandIn<D> index{s.preset, size_t(r.in(0, 20))};
    // Recall as a monotone function of window and capacity, in parts of 1000.
    int64_t scale = int64_t(s.cp.search_window_size_upper_);
    int64_t a = r.in(0, 3);
    int64_t b = r.in(0, 3);
    int64_t d = r.in(1, std::max<int64_t>(1, scale / r.in(1, 12)));
    int64_t top = r.in(1, 30);
    int64_t target = r.in(1, r.chance(70) ? top : top + 3);
    auto value = [&](const vam::VamanaSearchParameters& p) {
        auto f = fields(p);
        return std::min(top, (a * f[0] + b * f[1]) / d);
    };
    std::vector<std::vector<int64_t>> measured;
    std::vector<std::vector<int64_t>> searched;
    volatile int sink = 0;
    auto recall = [&](const vam::VamanaSearchParameters& p) {
        measured.push_back(fields(p));
        return double(value(p)) / 1000.0;
    };
    auto search = [&](const vam::VamanaSearchParameters& p) {
        searched.push_back(fields(p));
        for (int i = 0, n = int(r.in(0, 300)); i < n; ++i) { sink = sink + 1; }
    };
    auto o = vd::ev("calibrate");
    common(o, s, rerank, index.degree);
    o("a", a)("b", b)("d", d)("top", top)("target", target);
    std::vector<int64_t> got(5, -1);
    bool err = false;
    try {
        got = fields(vam::calibrate(s.cp, index, s.k, double(target) / 1000.0, recall, search));
    } catch (const std::exception&) { err = true; }
    o("err", err)("got", got)("measured", rows(measured))("searched", rows(searched));
    log(o);
}

template <typename Index>
static void with_index(vd::Rng& r, vd::Log& log, Index& index, const data::SimpleData<float>& queries, const data::SimpleData<uint32_t>& truth, size_t kmax, const char* kind) {
    auto s = setup(r, false, kmax);
    index.set_search_parameters(s.preset);
    int64_t all = int64_t(s.k * queries.size());
    int64_t target = r.in(1, all);
    auto o = vd::ev("index");
    o("kind", kind);
    common(o, s, false, index.max_degree());
    std::vector<int64_t> got(5, -1);
    std::vector<int64_t> inforce(5, -2);
    bool err = false;
    int64_t hits = -1;
    try {
        auto p = index.calibrate(queries, truth, s.k, double(target) / double(all), s.cp);
        got = fields(p);
        inforce = fields(index.get_search_parameters());
        QueryResult<size_t> result(queries.size(), s.k);
        index.search(result.view(), queries.cview(), p);
        hits = int64_t(std::round(k_recall_at_n(truth, result, s.k, s.k) * double(all)));
    } catch (const std::exception&) { err = true; }
    o("target", target)("err", err)("got", got)("inforce", inforce)("hits", hits);
    log(o);
}

static void indexes(vd::Rng& r, vd::Log& log, int64_t n) {
    size_t size = 150;
    size_t dims = 3;
    size_t kmax = 6;
    auto vectors = [&](size_t m) {
        data::SimpleData<float> d(m, dims);
        for (size_t i = 0; i < m; ++i) {
            std::vector<float> v;
            for (size_t j = 0; j < dims; ++j) { v.push_back(float(r.in(0, 40))); }
            d.set_datum(i, v);
        }
        return d;
    };
    auto data = vectors(size);
    auto queries = vectors(8);
    data::SimpleData<uint32_t> truth(queries.size(), kmax);
    for (size_t q = 0; q < queries.size(); ++q) {
        std::vector<std::pair<float, uint32_t>> d;
        for (size_t i = 0; i < size; ++i) {
            float s = 0;
            for (size_t j = 0; j < dims; ++j) {
                float x = queries.get_datum(q)[j] - data.get_datum(i)[j];
                s += x * x;
            }
            d.emplace_back(s, uint32_t(i));
        }
        std::sort(d.begin(), d.end());
        std::vector<uint32_t> ids;
        for (size_t j = 0; j < kmax; ++j) { ids.push_back(d[j].second); }
        truth.set_datum(q, ids);
    }
    // A sparse graph, so that small windows miss something.
    vam::VamanaBuildParameters bp{1.0f, 3, 6, 8, 3, false};
    auto copy = data::SimpleData<float>(size, dims);
    auto blocked = data::BlockedData<float>(size, dims);
    std::vector<size_t> ids;
    for (size_t i = 0; i < size; ++i) { copy.set_datum(i, data.get_datum(i)); blocked.set_datum(i, data.get_datum(i)); ids.push_back(i); }
    auto fixed = vam::auto_build(bp, std::move(copy), distance::DistanceL2(), size_t(1));
    vam::MutableVamanaIndex dynamic{bp, std::move(blocked), ids, distance::DistanceL2(), 1};
    for (int64_t i = 0; i < n; ++i) {
        if (r.chance(50)) {
            with_index(r, log, fixed, queries, truth, kmax, "static");
        } else {
            with_index(r, log, dynamic, queries, truth, kmax, "dynamic");
        }
    }
}

int main(int argc, char** argv) {
    vd::Args args(argc, argv);
    vd::Log log(args.str("out", "calib.ndjson"));
    svs::logging::set_level(svs::logging::Level::Off);
    vd::Rng r(uint64_t(args.num("seed", 1)));
    int64_t n = args.num("n", 500);
    for (int64_t i = 0; i < n; ++i) {
        if (r.chance(50)) { synthetic<PlainData>(r, log, false); } else { synthetic<RerankingData>(r, log, true); }
    }
    indexes(r, log, args.num("index", 40));
    return 0;
}
