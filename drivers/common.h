// Helpers shared by the conformance drivers: a small deterministic random generator and a
// writer of newline-delimited JSON events. Nothing here judges anything: the drivers run the
// library and record what they see, and the TLA+ specifications decide.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <initializer_list>
#include <limits>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace vd {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL} { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    // Uniform in [lo, hi].
    int64_t in(int64_t lo, int64_t hi) {
        return lo + int64_t(next() % uint64_t(hi - lo + 1));
    }
    bool chance(int percent) { return in(0, 99) < percent; }
    template <typename T> const T& pick(const std::vector<T>& v) {
        return v[size_t(in(0, int64_t(v.size()) - 1))];
    }
    template <typename T> T pick(std::initializer_list<T> v) {
        return *(v.begin() + in(0, int64_t(v.size()) - 1));
    }
    template <typename T> void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) {
            std::swap(v[i - 1], v[size_t(in(0, int64_t(i) - 1))]);
        }
    }
};

// A JSON value under construction.
struct J {
    std::string s;
    static J raw(std::string x) { J j; j.s = std::move(x); return j; }
};

inline std::string quote(const std::string& x) {
    std::string out = "\"";
    for (char c : x) {
        switch (c) {
            case '"': out += "\\\""; break;
            case '\\': out += "\\\\"; break;
            case '\n': out += "\\n"; break;
            default:
                if (static_cast<unsigned char>(c) < 0x20) { out += ' '; } else { out += c; }
        }
    }
    return out + "\"";
}

constexpr int64_t BIG = 2000000000;

// Numbers that TLC's 32-bit integers cannot hold, and reals that are not integers, are
// written as numbers no specification expects (always as integers, so that comparisons in
// TLC stay well typed).
constexpr int64_t NOT_INT = 2000000001;
constexpr int64_t TOO_BIG = 2000000002;
inline std::string num(double v) {
    if (std::isfinite(v) && std::abs(v) > double(BIG)) {
        return std::to_string(v > 0 ? TOO_BIG : -TOO_BIG);
    }
    if (std::isinf(v)) { return std::to_string(v > 0 ? TOO_BIG : -TOO_BIG); }
    if (v != std::floor(v)) { return std::to_string(NOT_INT); }
    return std::to_string(int64_t(v));
}
inline std::string num_u(uint64_t v) {
    return std::to_string(v <= uint64_t(BIG) ? int64_t(v) : TOO_BIG);
}
inline std::string num_i(int64_t v) {
    return std::to_string(v > BIG ? TOO_BIG : v < -BIG ? -TOO_BIG : v);
}

inline J j(const J& x) { return x; }
inline J j(bool b) { return J::raw(b ? "true" : "false"); }
inline J j(const std::string& x) { return J::raw(quote(x)); }
inline J j(const char* x) { return J::raw(quote(x)); }
template <typename T>
    requires(std::is_arithmetic_v<T> && !std::is_same_v<T, bool>)
J j(T x) {
    if constexpr (std::is_floating_point_v<T>) {
        return J::raw(num(double(x)));
    } else if constexpr (std::is_signed_v<T>) {
        return J::raw(num_i(int64_t(x)));
    } else {
        return J::raw(num_u(uint64_t(x)));
    }
}
template <typename T, typename A> J j(const std::vector<T, A>& v) {
    std::string out = "[";
    bool first = true;
    for (size_t i = 0; i < v.size(); ++i) {
        if (!first) { out += ","; }
        first = false;
        if constexpr (std::is_same_v<T, bool>) {
            out += v[i] ? "true" : "false";
        } else {
            out += j(v[i]).s;
        }
    }
    return J::raw(out + "]");
}
// Any range of numbers.
template <typename R> J jr(const R& r) {
    std::string out = "[";
    bool first = true;
    for (const auto& x : r) {
        if (!first) { out += ","; }
        first = false;
        if constexpr (std::is_arithmetic_v<std::remove_cvref_t<decltype(x)>>) {
            out += j(x).s;
        } else {
            out += j(float(x)).s; // Float16
        }
    }
    return J::raw(out + "]");
}

struct Obj {
    std::string s = "{";
    template <typename T> Obj& operator()(const char* key, const T& value) {
        if (s.size() > 1) { s += ","; }
        s += quote(key) + ":" + j(value).s;
        return *this;
    }
    J done() const { return J::raw(s + "}"); }
};

// One event per line, flushed at once so that a crash keeps everything before it.
struct Log {
    FILE* f = nullptr;
    size_t lines = 0;
    explicit Log(const std::string& path) : f{fopen(path.c_str(), "w")} {
        if (f == nullptr) { perror(path.c_str()); exit(3); }
    }
    ~Log() { if (f) { fclose(f); } }
    void operator()(const Obj& o) {
        auto d = o.done();
        fwrite(d.s.data(), 1, d.s.size(), f);
        fputc('\n', f);
        fflush(f);
        ++lines;
    }
};

inline Obj ev(const char* name) { Obj o; o("e", name); return o; }

// Command line: --key value
struct Args {
    std::vector<std::pair<std::string, std::string>> kv;
    Args(int argc, char** argv) {
        for (int i = 1; i + 1 < argc; i += 2) { kv.emplace_back(argv[i], argv[i + 1]); }
    }
    std::string str(const std::string& key, const std::string& dflt) const {
        for (auto& p : kv) { if (p.first == "--" + key) { return p.second; } }
        return dflt;
    }
    int64_t num(const std::string& key, int64_t dflt) const {
        auto s = str(key, "");
        return s.empty() ? dflt : std::stoll(s);
    }
};

} // namespace vd
