// Conversions of numbers: half precision both ways, checked conversions, versions.
#include "common.h"
#include "svs/lib/float16.h"
#include "svs/lib/narrow.h"
#include "svs/lib/version.h"

#include <cmath>
#include <cstring>

using namespace svs;
using vd::Rng;
using Row = std::vector<int64_t>;

static vd::J rows(const std::vector<Row>& v) {
    std::vector<vd::J> o;
    for (auto& x : v) { o.push_back(vd::j(x)); }
    return vd::j(o);
}
static uint32_t bits(float x) { uint32_t u; std::memcpy(&u, &x, 4); return u; }
static float number(uint32_t u) { float x; std::memcpy(&x, &u, 4); return x; }

// Every pattern of `count` from `from`: <<upper, lower half of the float>>.
static void decode(vd::Log& log, uint32_t from, uint32_t count) {
    std::vector<Row> got;
    for (uint32_t h = from; h < from + count; ++h) {
        volatile uint16_t in = uint16_t(h);
        auto u = bits(float(Float16::from_raw(in)));
        got.push_back({int64_t(u >> 16), int64_t(u & 65535)});
    }
    log(vd::ev("decode")("from", from)("got", rows(got)));
}
static Row encode_one(Rng& r, uint32_t u) {
    volatile float x = number(u);
    Float16 h;
    if (r.chance(50)) { h = Float16(x); } else { h = x; }
    return {int64_t(u >> 16), int64_t(u & 65535), int64_t(h.raw())};
}
static void encode(Rng& r, vd::Log& log, int64_t n) {
    std::vector<Row> got;
    for (int64_t i = 0; i < n; ++i) {
        uint32_t u = uint32_t(r.next());
        int style = int(r.in(0, 5));
        // Mostly near the range of half precision.
        if (style > 0) { u = (u & 0x807FFFFF) | (uint32_t(r.in(100, 145)) << 23); }
        if (style == 2) { u &= ~0x1FFFU; u |= uint32_t(r.pick({0, 0x1000, 0xFFF, 0x1001, 1, 0x1FFF})); }
        if (style == 3) {
            // Half way between two subnormal numbers, and next to it.
            float x = float(2 * r.in(0, 1030) + 1) * 0x1p-25f;
            u = bits(r.chance(50) ? x : -x) + uint32_t(r.in(-1, 1));
        }
        if (style == 4) { u = bits(r.chance(50) ? 1.0f : -1.0f) + (uint32_t(r.in(110, 145)) - 127) * (1U << 23) - uint32_t(r.in(0, 0x2000)); }
        if (style == 5 && r.chance(20)) { u = r.pick({0U, 0x80000000U, 0x7F800000U, 0xFF800000U, 0x7FC00000U, 0x00000001U, 0x007FFFFFU, 0x7F7FFFFFU}); }
        got.push_back(encode_one(r, u));
    }
    log(vd::ev("encode")("got", rows(got)));
}

// A number as sign and four limbs of 16 bits, of a magnitude below 2^64.
template <typename T> static Row limbs(T x) {
    bool neg = x < T(0);
    uint64_t m;
    if constexpr (std::is_floating_point_v<T>) {
        if (!(std::abs(x) < T(18446744073709551616.0))) { return {neg ? 1 : 0, 65536, 0, 0, 0}; }
    }
    if constexpr (std::is_floating_point_v<T>) { m = uint64_t(neg ? -x : x); }
    else { m = neg ? uint64_t(0) - uint64_t(x) : uint64_t(x); }
    return {neg ? 1 : 0, int64_t(m >> 48), int64_t((m >> 32) & 65535), int64_t((m >> 16) & 65535), int64_t(m & 65535)};
}
template <typename T> static std::string kind() {
    if constexpr (std::is_floating_point_v<T>) { return "f" + std::to_string(std::numeric_limits<T>::digits); }
    else { return (std::is_signed_v<T> ? "i" : "u") + std::to_string(8 * sizeof(T)); }
}
template <typename T, typename U> static void narrow_one(vd::Log& log, U x) {
    volatile U in = x;
    bool ok = true;
    T y{};
    try { y = lib::narrow<T>(U(in)); } catch (const lib::narrowing_error&) { ok = false; }
    bool part = false;
    if constexpr (std::is_floating_point_v<U>) { part = x != std::trunc(x); }
    log(vd::ev("narrow")("from", kind<U>())("to", kind<T>())("x", limbs(x))("part", part)("ok", ok)("y", ok ? limbs(y) : Row{}));
}
template <typename U> static U some(Rng& r) {
    if constexpr (std::is_floating_point_v<U>) {
        // Integers, near powers of two or not, and numbers with a fraction.
        double x = double(r.next() >> r.in(0, 63));
        if (r.chance(50)) { x = std::ldexp(1.0, int(r.in(0, 65))) - double(r.in(-1, 1)); }
        if (r.chance(30)) { x = std::ldexp(x, -int(r.in(1, 9))); }
        U y = U(r.chance(50) ? x : -x);
        return r.chance(30) ? std::nextafter(y, U(r.chance(50) ? 0 : 1e30)) : y;
    } else {
        uint64_t x = r.next() >> r.in(0, 63);
        if (r.chance(50)) { x = (uint64_t(1) << r.in(0, 63)) - uint64_t(r.in(-2, 2)); }
        if (r.chance(40)) { x = uint64_t(0) - x; }
        return U(x);
    }
}
template <typename U> static void narrow_from(Rng& r, vd::Log& log) {
    U x = some<U>(r);
    if constexpr (std::is_integral_v<U>) {
        if (r.chance(20)) { narrow_one<float>(log, x); return; }
        if (r.chance(20)) { narrow_one<double>(log, x); return; }
    }
    switch (r.in(0, 7)) {
        case 0: narrow_one<int8_t>(log, x); break;
        case 1: narrow_one<uint8_t>(log, x); break;
        case 2: narrow_one<int16_t>(log, x); break;
        case 3: narrow_one<uint16_t>(log, x); break;
        case 4: narrow_one<int32_t>(log, x); break;
        case 5: narrow_one<int64_t>(log, x); break;
        default:
            if (r.chance(50)) { narrow_one<uint32_t>(log, x); } else { narrow_one<uint64_t>(log, x); }
    }
}

static void versions(Rng& r, vd::Log& log) {
    auto some_version = [&] { return Row{r.in(0, 2), r.in(0, 2), r.chance(30) ? r.in(0, 1000000) : r.in(0, 2)}; };
    auto a = some_version(), b = some_version();
    auto make = [](const Row& x) { return lib::Version(size_t(x[0]), size_t(x[1]), size_t(x[2])); };
    auto x = make(a), y = make(b);
    auto text = x.str();
    auto back = lib::Version(std::string_view(text));
    bool refused = false;
    try { auto z = lib::Version(std::string_view(text).substr(1)); (void)z; } catch (const std::exception&) { refused = true; }
    log(vd::ev("version")("a", a)("b", b)("text", text)("back", Row{int64_t(back.major), int64_t(back.minor), int64_t(back.patch)})
            ("refused", refused)("less", x < y)("equal", x == y)("greater", x > y)("atmost", x <= y)("atleast", x >= y));
}

// Texts that may or may not be versions.
static void version_text(Rng& r, vd::Log& log) {
    std::string s = r.chance(85) ? "v" : "";
    for (int k = 0; k < 3; ++k) {
        if (k > 0 && !r.chance(6)) { s += "."; }
        if (!r.chance(8)) { s += std::to_string(r.in(0, r.chance(70) ? 9 : 12000)); }
        if (r.chance(8)) { s += r.pick({std::string(" "), std::string("x"), std::string("."), std::string("-1"), std::string("+"), std::string("e2")}); }
    }
    bool ok = true;
    Row got;
    try {
        auto v = lib::Version(std::string_view(s));
        got = {int64_t(v.major), int64_t(v.minor), int64_t(v.patch)};
    } catch (const std::exception&) { ok = false; }
    // One entry per character: a digit as itself, '.' as 10, 'v' as 11, others as 12.
    Row chars;
    for (char c : s) { chars.push_back(c >= '0' && c <= '9' ? c - '0' : c == '.' ? 10 : c == 'v' ? 11 : 12); }
    log(vd::ev("text")("text", s)("chars", chars)("ok", ok)("got", got));
}

int main(int argc, char** argv) {
    vd::Args args(argc, argv);
    vd::Log log(args.str("out", "/dev/stdout"));
    Rng r(uint64_t(args.num("seed", 1)));
    uint32_t part = uint32_t(args.num("part", 0)), parts = uint32_t(args.num("parts", 1));
    for (uint32_t k = part; k < 256; k += parts) { decode(log, 256 * k, 256); }
    for (int64_t i = 0, n = args.num("n", 100); i < n; ++i) {
        encode(r, log, 40);
        for (int k = 0; k < 10; ++k) {
            switch (r.in(0, 9)) {
                case 0: narrow_from<int8_t>(r, log); break;
                case 1: narrow_from<uint8_t>(r, log); break;
                case 2: narrow_from<int16_t>(r, log); break;
                case 3: narrow_from<uint16_t>(r, log); break;
                case 4: narrow_from<int32_t>(r, log); break;
                case 5: narrow_from<uint32_t>(r, log); break;
                case 6: narrow_from<int64_t>(r, log); break;
                case 7: narrow_from<uint64_t>(r, log); break;
                case 8: narrow_from<float>(r, log); break;
                default: narrow_from<double>(r, log);
            }
        }
        versions(r, log);
        version_text(r, log);
    }
    return 0;
}
