// Recall (core/recall.h) and the medioid (core/medioid.h).
#include "common.h"
#include "svs/core/data.h"
#include "svs/core/medioid.h"
#include "svs/core/query_result.h"
#include "svs/core/recall.h"
#include "svs/lib/threads.h"

#include <algorithm>
#include <cmath>
#include <numeric>

using namespace svs;
using Rows = std::vector<std::vector<int64_t>>;

static vd::J rows(const Rows& m) {
    std::string s = "[";
    for (size_t i = 0; i < m.size(); ++i) { s += (i ? "," : "") + vd::j(m[i]).s; }
    return vd::J::raw(s + "]");
}
template <typename T> static data::SimpleData<T> as_data(const Rows& m, size_t cols) {
    data::SimpleData<T> d(m.size(), cols);
    for (size_t i = 0; i < m.size(); ++i) {
        std::vector<T> v;
        for (auto x : m[i]) { v.push_back(T(int(x))); }
        d.set_datum(i, v);
    }
    return d;
}
template <typename T> static QueryResult<T> as_result(const Rows& m, size_t cols) {
    QueryResult<T> q(m.size(), cols);
    for (size_t i = 0; i < m.size(); ++i) {
        for (size_t j = 0; j < cols; ++j) { q.index(i, j) = T(m[i][j]); q.distance(i, j) = float(j); }
    }
    return q;
}
template <typename G, typename R>
static void recall_with(vd::Log& log, const G& gt, const R& res, const Rows& a, size_t ca, const Rows& b, size_t cb, size_t k, size_t n, const char* how) {
    auto o = vd::ev("recall");
    o("gt", rows(a))("res", rows(b))("gcols", ca)("rcols", cb)("k", k)("n", n)("how", how);
    try {
        double x = k_recall_at_n(gt, res, k, n);
        // As a count of hits: exact when the value is that count divided by all.
        double all = double(k == 0 ? cb : k) * double(a.size());
        double hits = std::round(x * all);
        o("ok", true)("hits", std::isfinite(hits) && hits / all == x ? hits : -1.0);
    } catch (const std::exception&) { o("ok", false)("hits", 0); }
    log(o);
}
static void recall(vd::Rng& r, vd::Log& log, const Rows& a, size_t ca, const Rows& b, size_t cb, size_t k, size_t n, int how) {
    switch (how) {
        case 0: recall_with(log, as_data<uint32_t>(a, ca), as_data<uint32_t>(b, cb), a, ca, b, cb, k, n, "data"); break;
        case 1: recall_with(log, as_data<uint32_t>(a, ca), as_result<size_t>(b, cb), a, ca, b, cb, k, n, "result"); break;
        case 2: recall_with(log, as_result<uint32_t>(a, ca), as_result<uint32_t>(b, cb), a, ca, b, cb, k, n, "results"); break;
        default: {
            auto x = as_result<size_t>(a, ca);
            auto y = as_data<size_t>(b, cb);
            recall_with(log, x.indices(), y, a, ca, b, cb, k, n, "array");
        }
    }
}
static Rows matrix(vd::Rng& r, size_t n, size_t cols, int64_t universe, bool distinct) {
    Rows m;
    for (size_t i = 0; i < n; ++i) {
        std::vector<int64_t> row;
        if (distinct) {
            std::vector<int64_t> u(universe);
            std::iota(u.begin(), u.end(), 0);
            r.shuffle(u);
            row.assign(u.begin(), u.begin() + cols);
        } else {
            for (size_t j = 0; j < cols; ++j) { row.push_back(r.in(0, universe - 1)); }
        }
        m.push_back(row);
    }
    return m;
}
// Every ground truth of distinct ids and every result over {0, 1, 2} with up to 2 columns,
// for every k and n up to 3.
static void recall_all(vd::Rng& r, vd::Log& log, int64_t part, int64_t parts) {
    std::vector<std::vector<int64_t>> lists;
    for (int64_t a = 0; a < 3; ++a) {
        lists.push_back({a});
        for (int64_t b = 0; b < 3; ++b) { lists.push_back({a, b}); }
    }
    int64_t i = 0;
    for (auto& g : lists) {
        if (g.size() == 2 && g[0] == g[1]) { continue; }
        for (auto& x : lists) {
            for (size_t k = 0; k <= 3; ++k) {
                for (size_t n = 0; n <= 3; ++n) {
                    if (i++ % parts == part) { recall(r, log, {g}, g.size(), {x}, x.size(), k, n, int(i % 4)); }
                }
            }
        }
    }
}
static void recall_random(vd::Rng& r, vd::Log& log) {
    size_t nq = r.in(1, 4);
    size_t ca = r.in(1, 6), cb = r.in(1, 6);
    int64_t universe = r.in(6, 14);
    auto a = matrix(r, nq, ca, universe, true);
    auto b = matrix(r, r.chance(92) ? nq : size_t(r.in(1, 5)), cb, universe, r.chance(80));
    size_t k, n;
    if (r.chance(60)) {
        n = r.in(0, cb);
        k = r.in(0, std::min(ca, n == 0 ? cb : n));
    } else {
        k = r.in(0, 8);
        n = r.in(0, 8);
    }
    recall(r, log, a, ca, b, cb, k, n, int(r.in(0, 3)));
}

// Three vectors, the two nearest to the mean differing in their squared distance by less than
// single precision can tell.
static Rows near_tie(vd::Rng& r) {
    while (true) {
        int64_t u[3], v[3], n = 0;
        for (auto& x : u) { x = r.in(-6000, 6000); n += x * x; }
        n -= r.pick({1, 2, 1, -1});
        bool found = false;
        for (int tries = 0; tries < 100000 && !found; ++tries) {
            v[0] = r.in(-6000, 6000);
            v[1] = r.in(-6000, 6000);
            int64_t rest = n - v[0] * v[0] - v[1] * v[1];
            if (rest < 0) { continue; }
            v[2] = int64_t(std::llround(std::sqrt(double(rest))));
            found = v[2] * v[2] == rest;
        }
        int64_t w[3], nw = 0;
        for (int j = 0; j < 3; ++j) { w[j] = -u[j] - v[j]; nw += w[j] * w[j]; }
        if (!found || n < 34000000 || nw <= n + 2 || nw > 230000000) { continue; }
        int64_t m[3] = {r.in(-2, 2), r.in(-2, 2), 0};
        Rows rows{{}, {}, {}};
        for (int j = 0; j < 3; ++j) {
            rows[0].push_back(m[j] + u[j]);
            rows[1].push_back(m[j] + v[j]);
            rows[2].push_back(m[j] + w[j]);
        }
        r.shuffle(rows);
        return rows;
    }
}

template <typename T> static void medioid(vd::Rng& r, vd::Log& log, bool tie = false) {
    size_t n = r.in(1, r.chance(70) ? 12 : 40), dims = r.in(1, 4);
    // Large components make near ties that single precision cannot tell apart.
    int64_t top = std::is_same_v<T, int8_t> ? 20 : r.pick({3, 20, 100});
    // N^2 * (2 top)^2 * dims must stay below 2^31.
    while (int64_t(n) * n * 4 * top * top * int64_t(dims) > 1500000000) { n = n * 3 / 4; if (n < 2) { break; } }
    Rows m = matrix(r, n, dims, 2 * top + 1, false);
    for (auto& row : m) { for (auto& x : row) { x -= top; } }
    if (r.chance(30)) { // mirrored: many ties and near ties
        for (size_t i = 0; i + 1 < n; i += 2) {
            for (size_t j = 0; j < dims; ++j) { m[i + 1][j] = -m[i][j]; }
            if (r.chance(30)) { m[i + 1][0] += m[i + 1][0] < top; }
        }
    }
    if (r.chance(15)) { for (size_t i = 1; i < n; ++i) { if (r.chance(60)) { m[i] = m[r.in(0, i - 1)]; } } }
    if (tie) { m = near_tie(r); n = m.size(); dims = 3; top = 4000; }
    std::vector<bool> admit(n, true);
    int64_t kind = tie ? 3 : r.in(0, 3);
    for (size_t i = 0; i < n; ++i) {
        if (kind == 0) { admit[i] = r.chance(50); }
        if (kind == 1) { admit[i] = r.chance(15); }
    }
    if (std::none_of(admit.begin(), admit.end(), [](bool b) { return b; })) { admit[r.in(0, n - 1)] = true; }
    bool all = std::all_of(admit.begin(), admit.end(), [](bool b) { return b; });
    auto d = as_data<T>(m, dims);
    // A power of two common to all components changes nothing.
    double scale = 1;
    if (std::is_same_v<T, float> && r.chance(40)) {
        scale = std::ldexp(1.0, int(r.pick({-60, 20, 70, 90})));
        for (size_t i = 0; i < n; ++i) {
            for (auto& x : d.get_datum(i)) { x = T(float(double(float(x)) * scale)); }
        }
    }
    size_t nt = r.in(1, 6);
    utils::PairwiseSumParameters p{size_t(r.pick({1, 2, 3, 7, 100})), size_t(r.pick({1, 2, 3, 5, 100}))};
    auto pred = [&](size_t i) { return bool(admit[i]); };
    bool shifted = r.chance(30) && top <= 20 && scale == 1;
    auto shift = [](const auto& v) { std::vector<float> w; for (auto x : v) { w.push_back(float(x) * 2 + 1); } return w; };
    std::vector<double> mean;
    size_t got = 0;
    std::string how;
    auto go = [&](auto& pool) {
        if (shifted) {
            how = "mapped";
            mean = utils::compute_medioid(d, pool, pred, shift, p);
            got = utils::find_medioid(d, pool, pred, shift, p);
        } else if (all && r.chance(50)) {
            how = "all";
            mean = utils::compute_medioid(d, pool);
            got = utils::find_medioid(d, pool);
        } else {
            how = "filter";
            mean = utils::compute_medioid(d, pool, pred, lib::identity(), p);
            got = utils::find_medioid(d, pool, pred, lib::identity(), p);
        }
    };
    if (r.chance(20)) { threads::SequentialThreadPool pool; go(pool); } else { threads::NativeThreadPool pool(nt); go(pool); }
    size_t count = std::count(admit.begin(), admit.end(), true);
    // The mean as the sum it came from (exactly divided, when it is).
    std::vector<double> sums;
    for (auto x : mean) {
        x /= scale;
        double s = std::round(x * double(count));
        sums.push_back(std::abs(s / double(count) - x) <= 1e-12 * (1 + std::abs(x)) ? s : double(vd::BIG));
    }
    std::vector<size_t> admitted;
    for (size_t i = 0; i < n; ++i) { if (admit[i]) { admitted.push_back(i); } }
    auto o = vd::ev("medioid");
    o("data", rows(m))("admitted", admitted)("nt", nt)("how", how)("sums", sums)("got", got);
    log(o);
}

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    vd::Rng r(a.num("seed", 1));
    vd::Log log(a.str("out", "/tmp/w/small.nd"));
    if (a.str("what", "recall") == "recall") {
        recall_all(r, log, a.num("part", 0), a.num("parts", 1));
        for (int64_t i = 0; i < a.num("n", 500); ++i) { recall_random(r, log); }
    } else {
        for (int64_t i = 0; i < a.num("ties", 15); ++i) { medioid<float>(r, log, true); }
        for (int64_t i = 0; i < a.num("n", 500); ++i) {
            switch (r.in(0, 3)) {
                case 0: medioid<int8_t>(r, log); break;
                case 1: medioid<svs::Float16>(r, log); break;
                default: medioid<float>(r, log);
            }
        }
    }
    return 0;
}
