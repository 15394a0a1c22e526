// Distances between vectors of every pair of element types and many lengths, fixed at compile
// time or not.
#include "common.h"
#include "svs/core/distance.h"
#include "svs/concepts/distance.h"
#include "svs/lib/float16.h"

#include <cmath>
#include <cstring>
#include <limits>

using namespace svs;
using vd::Rng;

static vd::Log* g_log;
static Rng* g_rng;

template <typename T> std::string tname() { return std::string(name(datatype_v<T>)); }
template <typename T> constexpr bool real = std::is_same_v<T, float> || std::is_same_v<T, double> || std::is_same_v<T, Float16>;

// A vector inside a larger array, whose other elements must play no part.
template <typename T> struct Padded {
    std::vector<T> all;
    size_t from, n;
    Padded(const std::vector<int>& units, int unit, Rng& r) : from(size_t(16 + r.in(0, 17))), n(units.size()) {
        T junk;
        if constexpr (real<T>) { junk = T(std::numeric_limits<float>::quiet_NaN()); } else { junk = std::numeric_limits<T>::max(); }
        all.assign(from + n + 96, junk);
        for (size_t i = 0; i < n; ++i) { all[from + i] = T(float(units[i]) / float(unit)); }
    }
    template <size_t N> std::span<const T, N> span() const { return std::span<const T, N>(all.data() + from, n); }
};

// The largest number of units an element of type T takes.
template <typename T> std::pair<int, int> range(int unit) {
    if constexpr (std::is_same_v<T, Float16>) { return {-1000, 1000}; }
    else if constexpr (real<T>) { return {-100000, 100000}; }
    else {
        int lo = std::is_signed_v<T> ? (sizeof(T) == 1 ? -128 : -1000) : 0;
        int hi = sizeof(T) == 1 ? (std::is_signed_v<T> ? 127 : 255) : 1000;
        return {lo * unit, hi * unit};
    }
}
template <typename T> std::vector<int> values(size_t n, int unit, int most) {
    auto& r = *g_rng;
    auto [lo, hi] = range<T>(unit);
    lo = std::max(lo, -most);
    hi = std::min(hi, most);
    int step = real<T> ? 1 : unit;
    int mode = int(r.in(0, 4));
    size_t only = n == 0 ? 0 : size_t(r.in(0, int64_t(n) - 1));
    std::vector<int> v;
    for (size_t i = 0; i < n; ++i) {
        int x = int(r.in(lo / step, hi / step)) * step;
        if (mode == 0) { x = (r.chance(50) ? hi : lo) / step * step; }     // extremes
        if (mode == 1 && i != only) { x = 0; }                             // one position counts
        v.push_back(x);
    }
    return v;
}
static double length(const std::vector<int>& v) {
    double s = 0;
    for (auto x : v) { s += double(x) * x; }
    return std::sqrt(s);
}
// A vector whose length is a whole number of units.
template <typename T> std::vector<int> round_values(size_t n, int unit) {
    auto& r = *g_rng;
    auto [lo, hi] = range<T>(unit);
    int step = real<T> ? 1 : unit;
    int most = std::max(3 * step, int(std::sqrt((n < 20 ? 1e6 : 40000.0) / double(n))) * step / (step > 1 ? 2 : 1));
    for (;;) {
        std::vector<int> v;
        for (size_t i = 0; i < n; ++i) {
            v.push_back(int(r.in(std::max(lo, -most) / step, std::min(hi, most) / step)) * step);
        }
        if (r.chance(50)) { for (size_t i = 0; i < n; ++i) { if (r.chance(70)) { v[i] = 0; } } }
        auto s = length(v);
        if (s > 0 && s < 2800 && s == std::floor(s)) { return v; }
    }
}

static vd::Obj& common(vd::Obj& o, const char* kind, const std::string& types, bool fixed, int unit,
                       const std::vector<int>& a, const std::vector<int>& b) {
    return o("kind", kind)("types", types)("fixed", fixed)("n", a.size())("unit", unit)("a", a)("b", b);
}

template <typename A, typename B, size_t N, typename Dist>
void one(const char* kind, size_t n) {
    auto& r = *g_rng;
    constexpr bool integral = !real<A> && !real<B>;
    constexpr bool cosine = std::is_same_v<Dist, DistanceCosineSimilarity>;
    int unit = integral ? 1 : r.pick({1, 4});
    if (std::is_same_v<A, Float16> || std::is_same_v<B, Float16>) { unit = r.pick({1, 4, 16}); }
    bool rough = integral && !cosine && sizeof(A) == 1 && sizeof(B) == 1 && r.chance(10);
    std::vector<int> va, vb;
    if constexpr (cosine) {
        if (n == 0) { return; }
        va = round_values<A>(n, unit);
        vb = round_values<B>(n, unit);
    } else {
        // |a - b| <= 2 most, so that every partial sum stays below 2^24.
        int most = n == 0 ? 1 : int(std::sqrt(double(1 << 22) / double(n)));
        if (most < unit) { unit = 1; }
        if (rough) { most = 1000; }
        va = values<A>(n, unit, most);
        vb = values<B>(n, unit, most);
    }
    auto a = Padded<A>(va, unit, r);
    auto b = Padded<B>(vb, unit, r);
    auto a0 = a.all;
    auto b0 = b.all;
    Dist dist;
    auto sa = a.template span<N>();
    auto sb = b.template span<N>();
    if (r.chance(30)) {
        // Used for another argument before.
        auto other = Padded<A>(values<A>(n, unit, 50), unit, r);
        distance::maybe_fix_argument(dist, other.template span<N>());
    }
    distance::maybe_fix_argument(dist, sa);
    float d = distance::compute(dist, sa, sb);
    bool same = std::memcmp(a0.data(), a.all.data(), a0.size() * sizeof(A)) == 0 &&
                std::memcmp(b0.data(), b.all.data(), b0.size() * sizeof(B)) == 0;
    double shown = cosine ? std::round(double(d) * 65536.0) : double(d) * unit * unit;
    bool whole = std::isfinite(shown) && shown == std::floor(shown) && std::abs(shown) < 2e9;
    if (!std::isfinite(shown) || std::abs(shown) >= 2e9) { shown = -2000000000.0; }
    auto o = vd::ev("dist");
    common(o, kind, tname<A>() + " " + tname<B>(), N != Dynamic, unit, va, vb);
    o("na", cosine ? int64_t(length(va)) : 0)("nb", cosine ? int64_t(length(vb)) : 0);
    o("rough", rough)("whole", whole)("same", same)("d", int64_t(shown));
    (*g_log)(o);
}
template <typename A, size_t N> void norms(size_t n) {
    auto& r = *g_rng;
    int most = n == 0 ? 1 : int(std::sqrt(double(1 << 22) / double(n)));
    auto v = values<A>(n, 1, most);
    auto a = Padded<A>(v, 1, r);
    double d = double(distance::norm_square(a.template span<N>()));
    double s = double(distance::norm(a.template span<N>()));
    auto o = vd::ev("dist");
    common(o, "norm", tname<A>(), N != Dynamic, 1, v, v);
    o("na", 0)("nb", 0)("rough", false)("whole", std::abs(s * s - d) <= d / 100000 && d == std::floor(d))("same", true)("d", int64_t(d));
    (*g_log)(o);
}

template <typename A, typename B, size_t N> void pair(size_t n) {
    one<A, B, N, DistanceL2>("L2", n);
    one<A, B, N, DistanceIP>("IP", n);
    one<A, B, N, DistanceCosineSimilarity>("cos", n);
}
static size_t some_length(Rng& r) {
    if (r.chance(5)) { return 0; }
    if (r.chance(70)) { return size_t(r.in(1, 70)); }
    if (r.chance(70)) { return size_t(r.in(60, 300)); }
    return size_t(r.pick({int64_t(512), int64_t(768), int64_t(960), int64_t(1000), int64_t(1023), int64_t(1100)}));
}
template <typename A, typename B> void dynamic_pair() { pair<A, B, Dynamic>(some_length(*g_rng)); }
template <typename A, typename B, size_t... Ns> void static_pair() { (pair<A, B, Ns>(Ns), ...); }

// Element types with code of their own come first.
#define PAIRS(F) F(float, float) F(float, Float16) F(Float16, float) F(Float16, Float16) \
    F(float, int8_t) F(float, uint8_t) F(int8_t, int8_t) F(uint8_t, uint8_t) \
    F(int8_t, float) F(uint8_t, float) F(uint8_t, int8_t) F(int8_t, uint8_t) F(Float16, int8_t) F(uint8_t, Float16) \
    F(double, float) F(float, double) F(int32_t, int32_t) F(uint16_t, float)
#define STATIC_PAIRS(F) F(float, float) F(float, Float16) F(Float16, float) F(Float16, Float16) \
    F(float, int8_t) F(float, uint8_t) F(int8_t, int8_t) F(uint8_t, uint8_t) F(uint8_t, int8_t)

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    size_t seed = size_t(a.num("seed", 1)), n = size_t(a.num("n", 20)), st = size_t(a.num("static", 2));
    vd::Log log(a.str("out", "/dev/stdout"));
    Rng r(seed);
    g_log = &log;
    g_rng = &r;
    for (auto t : {DistanceType::L2, DistanceType::MIP, DistanceType::Cosine}) {
        DistanceDispatcher{DistanceType(t)}([&](auto dist) {
            using D = decltype(dist);
            auto text = std::string(name(t));
            auto cmp = distance::comparator(dist);
            std::string parsed = "-";
            try { parsed = std::string(name(parse_distance_type(text))); } catch (const std::exception&) {}
            log(vd::ev("selector")("types", text)("n", 0)("functor", std::string(D::name))
                ("first", cmp(1.0f, 2.0f) && !cmp(2.0f, 1.0f) && !cmp(1.0f, 1.0f) ? "small"
                          : cmp(2.0f, 1.0f) && !cmp(1.0f, 2.0f) && !cmp(1.0f, 1.0f) ? "large" : "neither")
                ("parsed", parsed)("back", std::string(name(distance_type_v<D>))));
        });
    }
    for (auto s : {"", "l2", "L", "L22", "IP", "cosine", "MIP "}) {
        bool ok = true;
        try { parse_distance_type(s); } catch (const std::exception&) { ok = false; }
        log(vd::ev("wrong")("types", s)("n", 0)("ok", ok));
    }
    for (size_t i = 0; i < n; ++i) {
#define GO(A, B) dynamic_pair<A, B>();
        PAIRS(GO)
#undef GO
        norms<float, Dynamic>(some_length(r));
        norms<Float16, Dynamic>(some_length(r));
        norms<int8_t, Dynamic>(some_length(r));
        norms<uint8_t, 40>(40);
    }
    for (size_t i = 0; i < st; ++i) {
#define GO(A, B) static_pair<A, B, 1, 8, 15, 16, 33, 63, 64, 100, 161>();
        STATIC_PAIRS(GO)
#undef GO
    }
    return 0;
}
