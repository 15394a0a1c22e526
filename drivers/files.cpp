// Vector files of every format and element type: written, cut, extended, read in every way,
// mapped into memory, found by their identifiers. All of it in the directory given.
#include "common.h"
#include "svs/core/allocator.h"
#include "svs/core/data.h"
#include "svs/core/data/io.h"
#include "svs/core/io.h"
#include "svs/lib/float16.h"
#include "svs/lib/uuid.h"

#include <algorithm>
#include <array>
#include <cctype>
#include <cstring>
#include <numeric>

using namespace svs;
using vd::Rng;
namespace fs = std::filesystem;
using Bytes = std::vector<int>;

static vd::J rows(const std::vector<Bytes>& v) {
    std::vector<vd::J> o;
    for (auto& x : v) { o.push_back(vd::j(x)); }
    return vd::j(o);
}
static vd::J rows64(const std::vector<std::vector<int64_t>>& v) {
    std::vector<vd::J> o;
    for (auto& x : v) { o.push_back(vd::j(x)); }
    return vd::j(o);
}
static Bytes slurp(const fs::path& p) {
    std::ifstream s(p, std::ios::binary);
    std::string t((std::istreambuf_iterator<char>(s)), {});
    Bytes b;
    for (unsigned char x : t) { b.push_back(x); }
    return b;
}
static void spill(const fs::path& p, const Bytes& b) {
    std::ofstream s(p, std::ios::binary | std::ios::trunc);
    for (auto x : b) { s.put(char(x)); }
}
static std::array<uint8_t, 16> raw_uuid(Rng& r) {
    std::array<uint8_t, 16> u{};
    for (auto& x : u) { x = uint8_t(r.in(0, 255)); }
    return u;
}
static Bytes bytes_of(const lib::UUID& u) { return Bytes(u.raw().begin(), u.raw().end()); }
static Bytes little(uint64_t n, int k) {
    Bytes b;
    for (int i = 0; i < k; ++i) { b.push_back(int(n & 255)); n >>= 8; }
    return b;
}
static void put(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }

template <typename T> Bytes raw(std::span<const T> v) {
    Bytes b(v.size() * sizeof(T));
    auto p = reinterpret_cast<const unsigned char*>(v.data());
    std::copy(p, p + b.size(), b.begin());
    return b;
}
template <typename T> std::vector<T> cooked(const Bytes& b) {
    std::vector<unsigned char> c(b.begin(), b.end());
    std::vector<T> v(b.size() / sizeof(T));
    if (!v.empty()) { std::memcpy(v.data(), c.data(), c.size()); }
    return v;
}

static size_t head_size(const std::string& fmt) {
    return fmt == "v1" ? 1024 : fmt == "vtest" ? 64 : fmt == "bin" ? 8 : 0;
}

template <typename T> struct Case {
    Rng& r;
    vd::Log& log;
    fs::path dir;
    std::string fmt = {};
    size_t d = 0;
    std::vector<Bytes> vs = {};
    lib::UUID uuid = lib::ZeroUUID;
    fs::path path = {};

    bool native() const { return fmt == "v1" || fmt == "vtest"; }

    Bytes vec() {
        Bytes b;
        int style = int(r.in(0, 3));
        for (size_t i = 0; i < d * sizeof(T); ++i) {
            // Bytes that look like dimensions, and arbitrary ones.
            b.push_back(style == 0 ? int(r.in(0, 255)) : style == 1 ? int(r.pick({0, int(d & 255)}))
                        : style == 2 ? int(r.in(0, 2)) : int(r.in(128, 255)));
        }
        return b;
    }
    // A pattern of a signalling NaN is not copied faithfully by every assignment of floats.
    static void tame(Bytes& b) {
        if constexpr (std::is_floating_point_v<T>) {
            auto v = cooked<T>(b);
            for (auto& x : v) { if (x != x) { x = T(3.25); } }
            b = raw<T>(std::span<const T>(v));
        }
    }

    // Vectors whose file has the dimensions also where shorter elements would put them.
    void mistakable() {
        size_t s = sizeof(T) == 2 ? 1 : r.chance(50) ? sizeof(T) / 2 : size_t(1);
        d = size_t(r.pick({4, 8}));
        size_t line = 4 + d * sizeof(T), other = 4 + d * s, g = std::gcd(line, other);
        size_t n = other / g * (r.chance(30) ? 2 : 1);
        if (n > 24) { return; }
        Bytes b(n * line, 0);
        for (auto& x : b) { x = int(r.in(0, 2)); }
        size_t stop = r.chance(60) ? b.size() : other * size_t(r.in(2, 12));
        for (size_t at = 0; at < b.size(); at += 4) {
            if (at % line == 0 || (at % other == 0 && at < stop)) { auto h = little(d, 4); std::copy(h.begin(), h.end(), b.begin() + int64_t(at)); }
        }
        vs.clear();
        for (size_t at = 0; at < b.size(); at += line) {
            vs.emplace_back(b.begin() + int64_t(at + 4), b.begin() + int64_t(at + line));
            tame(vs.back());
        }
    }

    template <typename W> void append_all(W&& w) {
        for (auto& b : vs) {
            auto v = cooked<T>(b);
            w << v;
            if (r.chance(20)) { w.flush(); }
        }
    }
    data::SimpleData<T> dataset() {
        data::SimpleData<T> s(vs.size(), d);
        for (size_t i = 0; i < vs.size(); ++i) { s.set_datum(i, cooked<T>(vs[i])); }
        return s;
    }

    void write() {
        fmt = r.pick({std::string("vecs"), std::string("vecs"), std::string("bin"), std::string("v1"), std::string("vtest")});
        bool wide = r.chance(4), many = !wide && r.chance(4);
        d = size_t(wide ? r.in(256, 300) : r.in(1, r.chance(50) ? 3 : 7));
        size_t n = size_t(many ? r.in(256, 270) : wide ? r.in(0, 2) : r.chance(15) ? r.in(10, 13) : r.in(0, 6));
        if (many) { d = 1; }
        vs.clear();
        for (size_t i = 0; i < n; ++i) { vs.push_back(vec()); tame(vs.back()); }
        if (fmt == "vecs" && sizeof(T) > 1 && r.chance(25)) { mistakable(); }
        uuid = r.chance(20) ? lib::ZeroUUID : lib::UUID(raw_uuid(r));
        std::string ext = native() ? ".svs" : fmt == "bin" ? ".bin"
                          : r.pick({std::string(".fvecs"), std::string(".ivecs"), std::string(".bvecs"), std::string(".vecs")});
        path = dir / (r.pick({std::string("a"), std::string("b")}) + ext);
        bool ok = true;
        std::string via;
        try {
            if (fmt == "vecs") {
                if (r.chance(30)) { via = "save_vecs"; io::save_vecs(dataset(), path); }
                else {
                    via = "writer";
                    auto w = io::vecs::VecsFile(path).writer<T>(d);
                    append_all(w);
                    if (r.chance(70)) { w.close(); }
                }
            } else if (fmt == "bin") {
                via = "writer";
                auto w = io::binary::BinaryFile(path).writer<T>(n, d);
                append_all(w);
                if (r.chance(70)) { w.close(); }
            } else if (fmt == "v1") {
                int how = int(r.in(0, 3));
                if (how == 0) { via = "save"; io::save(dataset(), io::NativeFile(path), uuid); }
                else if (how == 1) {
                    via = "typed";
                    auto w = io::NativeFile(path).writer(lib::Type<T>(), d, uuid);
                    append_all(w);
                } else if (how == 2) {
                    via = "headers"; // the header may be brought up to date in between
                    auto w = io::v1::NativeFile(path).writer(d, uuid);
                    for (auto& b : vs) { w << cooked<T>(b); if (r.chance(40)) { w.writeheader(); } }
                    w.close();
                } else {
                    via = "untyped";
                    auto w = io::NativeFile(path).writer(d, uuid);
                    append_all(w);
                    if (r.chance(70)) { w.close(); }
                }
            } else {
                via = "foreign";
                auto b = Bytes{4, 79, 67, 29, 144, 212, 58, 248};
                put(b, little(n, 8));
                put(b, little(d, 8));
                put(b, bytes_of(uuid));
                b.resize(64, 0);
                for (auto& v : vs) { put(b, v); }
                spill(path, b);
            }
        } catch (const std::exception&) { ok = false; }
        auto all = slurp(path);
        auto bytes = all;
        int pad = 0;
        if (native()) {
            size_t head = std::min(all.size(), head_size(fmt));
            for (size_t i = 40; i < head; ++i) { pad += all[i] != 0; }
            bytes.erase(bytes.begin() + int64_t(std::min<size_t>(40, all.size())), bytes.begin() + int64_t(head));
        }
        log(vd::ev("write")("fmt", fmt)("via", via)("d", d)("es", sizeof(T))("vs", rows(vs))
                ("uuid", bytes_of(uuid))("ok", ok)("size", all.size())("pad", pad)("bytes", bytes));
    }

    struct Got {
        bool ok = true;
        size_t n = 0, d = 0, asked = 0;
        std::vector<Bytes> vs = {}, again = {};
    };
    template <typename File> void by_reader(const File& f, int64_t max, Got& g) {
        auto reader = max < 0 ? f.reader(lib::Type<T>()) : f.reader(lib::Type<T>(), size_t(max));
        g.d = reader.ndims();
        for (auto v : reader) { g.vs.push_back(raw<T>(std::span<const T>(v.data(), v.size()))); }
        g.n = g.vs.size();
        if (r.chance(50)) { reader.resize(size_t(r.in(0, int64_t(g.n)))); }
        g.asked = size_t(r.in(0, int64_t(g.n)));
        reader.resize(g.asked);
        for (auto v : reader) { g.again.push_back(raw<T>(std::span<const T>(v.data(), v.size()))); }
    }
    template <typename D> void from(const D& x, Got& g) {
        g.n = x.size();
        g.d = x.dimensions();
        for (size_t i = 0; i < x.size(); ++i) {
            auto v = x.get_datum(i);
            g.vs.push_back(raw<T>(std::span<const T>(v.data(), v.size())));
        }
    }
    void read() {
        Got g;
        int64_t max = -1;
        std::string via = r.pick({std::string("reader"), std::string("reader"), std::string("auto"), std::string("load"),
                                  std::string("vdl"), std::string("file")});
        if (via == "reader" && r.chance(40)) { max = r.in(0, int64_t(vs.size()) + 2); }
        auto lazy = lib::Lazy([](size_t n, size_t dims) { return data::SimpleData<T>(n, dims); });
        try {
            if (via == "reader") {
                if (fmt == "vecs") { by_reader(io::vecs::VecsFile(path), max, g); }
                else if (fmt == "bin") { by_reader(io::binary::BinaryFile(path), max, g); }
                else if (fmt == "v1") { by_reader(io::v1::NativeFile(path), max, g); }
                else { by_reader(io::vtest::NativeFile(path), max, g); }
            } else if (via == "auto") { from(io::auto_load<T>(path, lazy), g); }
            else if (via == "load") { from(data::SimpleData<T>::load(path), g); }
            else if (via == "vdl") { from(VectorDataLoader<T>(path).load(), g); }
            else if (fmt == "bin") { from(io::load_dataset(io::binary::BinaryFile(path), lazy), g); }
            else if (native()) { from(io::load_dataset(io::NativeFile(path), lazy), g); }
            else { via = "auto"; from(io::auto_load<T>(path, lazy), g); }
        } catch (const std::exception&) { g.ok = false; }
        log(vd::ev("read")("via", via)("size", size_t(fs::file_size(path)))("max", max)("ok", g.ok)
                ("n", g.n)("d", g.d)("vs", rows(g.vs))("asked", g.asked)("again", rows(g.again)));
    }
    // A reader that has failed, then asked for less.
    void recover() {
        auto all = slurp(path);
        auto b = all;
        size_t line = d * sizeof(T), keep = size_t(r.in(0, int64_t(vs.size()) - 1));
        b.resize(head_size(fmt) + keep * line + size_t(r.in(0, int64_t(line) - 1)));
        spill(path, b);
        bool failed = false, ok = true;
        std::vector<Bytes> got;
        auto go = [&](const auto& f) {
            auto reader = f.reader(lib::Type<T>());
            try { for (auto v : reader) { (void)v; } } catch (const std::exception&) { failed = true; }
            try {
                reader.resize(keep);
                for (auto v : reader) { got.push_back(raw<T>(std::span<const T>(v.data(), v.size()))); }
            } catch (const std::exception&) { ok = false; }
        };
        if (fmt == "v1") { go(io::v1::NativeFile(path)); } else { go(io::vtest::NativeFile(path)); }
        log(vd::ev("recover")("size", size_t(fs::file_size(path)))("failed", failed)("ok", ok)("keep", keep)("vs", rows(got)));
        spill(path, all);
    }
    void dims() {
        int64_t n = -1, dd = -1;
        bool ok = true;
        size_t hint = r.chance(40) ? 0 : r.chance(60) ? sizeof(T) : r.pick({size_t(1), size_t(2), size_t(4), size_t(8)});
        std::string via = r.chance(30) ? "deduce" : "dims";
        try {
            if (via == "deduce") { hint = 0; dd = int64_t(io::deduce_dimensions(path)); }
            else {
                std::pair<size_t, size_t> p;
                if (fmt == "vecs") { p = io::vecs::VecsFile(path).get_dims(hint); }
                else if (fmt == "bin") { p = io::binary::BinaryFile(path).get_dims(hint); }
                else { hint = sizeof(T); p = io::NativeFile(path).get_dims(); }
                n = int64_t(p.first);
                dd = int64_t(p.second);
            }
        } catch (const std::exception&) { ok = false; }
        log(vd::ev("dims")("via", via)("hint", hint)("size", size_t(fs::file_size(path)))("ok", ok)("n", n)("d", dd));
    }
    // The same file shorter or longer, and back.
    void disturbed() {
        auto all = slurp(path);
        auto b = all;
        size_t line = d * sizeof(T) + (fmt == "vecs" ? 4 : 0);
        if (r.chance(75)) {
            size_t at = all.empty() ? 0 : r.chance(30) && !vs.empty()
                            ? std::min(all.size(), head_size(fmt) + line * size_t(r.in(0, int64_t(vs.size()) - 1)))
                            : size_t(r.in(0, int64_t(all.size()) - 1));
            if (r.chance(30) && !all.empty()) { at = all.size() - 1; }
            b.resize(at);
        } else if (line > 1) {
            for (int64_t k = r.in(1, int64_t(line) - 1); k > 0; --k) { b.push_back(int(r.in(0, 3))); }
        }
        spill(path, b);
        read();
        if (r.chance(40)) { read(); }
        spill(path, all);
    }
    void map() {
        if (!native() || vs.empty()) { return; }
        size_t total = vs.size() * d * sizeof(T);
        size_t want = r.chance(15) ? total + size_t(r.in(1, 5000)) : r.chance(50) ? total : sizeof(T) * size_t(r.in(1, int64_t(vs.size() * d)));
        bool rw = r.chance(60), ok = true;
        Bytes got;
        auto stored = vs;
        try {
            auto mapper = MemoryMapper(rw ? MemoryMapper::ReadWrite : MemoryMapper::ReadOnly);
            auto go = [&](const auto& f) {
                auto p = f.mmap(lib::Type<T>(), lib::Bytes(want), mapper);
                got = raw<T>(std::span<const T>(p.data(), want / sizeof(T)));
                if (p.uuid() != uuid) { got.push_back(-1); }
                if (rw) {
                    for (int k = 0; k < 3; ++k) {
                        size_t at = size_t(r.in(0, int64_t(want) - 1));
                        int x = int(r.in(0, 100));
                        reinterpret_cast<unsigned char*>(p.data())[at] = (unsigned char)(x);
                        stored[at / (d * sizeof(T))][at % (d * sizeof(T))] = x;
                    }
                    auto q = std::move(p);
                    auto h = f.header();
                    q.save(h);
                }
            };
            if (fmt == "v1") { go(io::v1::NativeFile(path)); } else { go(io::vtest::NativeFile(path)); }
        } catch (const std::exception&) { ok = false; }
        auto all = slurp(path);
        std::vector<Bytes> now;
        for (size_t i = head_size(fmt); i + d * sizeof(T) <= all.size(); i += d * sizeof(T)) {
            now.emplace_back(all.begin() + int64_t(i), all.begin() + int64_t(i + d * sizeof(T)));
        }
        log(vd::ev("map")("ok", ok)("rw", rw)("want", want)("got", got)("stored", rows(stored))("now", rows(now)));
        vs = now;
        if constexpr (std::is_floating_point_v<T>) {
            for (auto& b : vs) { auto c = b; tame(c); if (c != b) { write(); break; } }
        }
    }
    void run() {
        write();
        for (int64_t k = r.in(3, 8); k > 0; --k) {
            int what = int(r.in(0, 99));
            if (what < 35) { read(); }
            else if (what < 55) { dims(); }
            else if (what < 77) { disturbed(); }
            else if (what < 82) { if (native() && !vs.empty()) { recover(); } }
            else if (what < 92) { map(); }
            else { write(); }
        }
    }
};

// Values of one type written to a file of another.
template <typename U> static U as(int64_t x) {
    if constexpr (std::is_same_v<U, Float16>) { return U(float(x)); } else { return U(x); }
}
template <typename T, typename U>
static void convert(Rng& r, vd::Log& log, const fs::path& dir, int64_t low, int64_t high, std::vector<int64_t> outside) {
    std::vector<std::vector<U>> in;
    size_t d = size_t(r.in(1, 4)), n = size_t(r.in(1, 4));
    std::vector<int64_t> edge{low, high, low + 1, high - 1};
    for (size_t i = 0; i < n; ++i) {
        std::vector<U> v;
        for (size_t j = 0; j < d; ++j) {
            v.push_back(as<U>(r.chance(40) ? r.pick(edge) : r.in(low < -100 ? -100 : low, 100)));
        }
        in.push_back(v);
    }
    if (!outside.empty() && r.chance(40)) { in[size_t(r.in(0, int64_t(n) - 1))][size_t(r.in(0, int64_t(d) - 1))] = as<U>(r.pick(outside)); }
    bool ok = true, part = false;
    if constexpr (std::is_integral_v<T> && std::is_floating_point_v<U>) {
        if (r.chance(40)) { part = true; in[size_t(r.in(0, int64_t(n) - 1))][size_t(r.in(0, int64_t(d) - 1))] = U(double(r.in(-200, 200)) / 2 + 0.25); }
    }
    auto fmt = r.pick({std::string("vecs"), std::string("bin"), std::string("v1")});
    auto path = dir / ("c." + (fmt == "v1" ? "svs" : fmt));
    try {
        if (fmt == "vecs") { auto w = io::vecs::VecsFile(path).writer<T>(d); for (auto& v : in) { w << v; } w.close(); }
        else if (fmt == "bin") { auto w = io::binary::BinaryFile(path).writer<T>(n, d); for (auto& v : in) { w << v; } w.close(); }
        else { auto w = io::NativeFile(path).writer(lib::Type<T>(), d); for (auto& v : in) { w << v; } w.close(); }
    } catch (const std::exception&) { ok = false; }
    std::vector<vd::J> values, back;
    for (auto& v : in) {
        std::vector<int64_t> a;
        for (auto x : v) { a.push_back(int64_t(x)); }
        values.push_back(vd::j(a));
    }
    if (ok) {
        auto x = io::auto_load<T>(path, lib::Lazy([](size_t a, size_t b) { return data::SimpleData<T>(a, b); }));
        for (size_t i = 0; i < x.size(); ++i) {
            std::vector<double> a;
            for (auto y : x.get_datum(i)) { a.push_back(double(y)); }
            back.push_back(vd::j(a));
        }
    }
    log(vd::ev("convert")("fmt", fmt)("low", low)("high", high)("part", part)("values", vd::j(values))("ok", ok)("back", vd::j(back)));
}

static void find_case(Rng& r, vd::Log& log, const fs::path& dir) {
    auto sub = dir / "find";
    fs::remove_all(sub);
    fs::create_directories(sub / "inner");
    std::vector<std::string> kinds, schemas;
    std::vector<Bytes> uuids, read;
    std::vector<fs::path> paths;
    for (int64_t k = r.in(0, 6), i = 0; i < k; ++i) {
        auto kind = r.pick({std::string("v1"), std::string("vtest"), std::string("database"), std::string("junk"), std::string("tiny"), std::string("short")});
        auto u = raw_uuid(r);
        if (i > 0 && r.chance(30)) { auto& o = uuids[size_t(r.in(0, i - 1))]; if (o.size() == 16) { std::copy(o.begin(), o.end(), u.begin()); if (r.chance(70)) { u[size_t(r.in(0, 15))] ^= 1; } } }
        Bytes ub(u.begin(), u.end());
        auto p = sub / ("f" + std::to_string(i));
        Bytes b;
        if (kind == "v1") {
            auto w = io::NativeFile(p).writer(size_t(2), lib::UUID(u));
            if (r.chance(50)) { w << std::vector<float>{1, 2}; }
            w.close();
        } else if (kind == "vtest") {
            b = {4, 79, 67, 29, 144, 212, 58, 248};
            b.resize(24, 0);
            put(b, ub);
            b.resize(64, 0);
        } else if (kind == "database") {
            b = {163, 195, 56, 184, 74, 100, 176, 38};
            put(b, ub);
            b.resize(64 + size_t(r.in(0, 5)), 0);
        } else if (kind == "short") {
            b = r.chance(50) ? Bytes{4, 79, 67, 29, 144, 212, 58, 248} : Bytes{254, 128, 153, 87, 178, 166, 212, 202};
            put(b, ub);
            b.resize(size_t(r.in(8, 63)), 0);
        } else {
            size_t len = kind == "tiny" ? size_t(r.in(0, 7)) : size_t(r.in(8, 1100));
            for (size_t q = 0; q < len; ++q) { b.push_back(int(r.in(0, 255))); }
            if (len > 0) { b[0] = 1; }
        }
        if (kind != "v1") { spill(p, b); }
        kinds.push_back(kind);
        uuids.push_back(ub);
        paths.push_back(p);
        std::string schema = "none";
        if (kind != "short") {
            try { auto s = io::classify(p); if (s) { schema = std::string(io::name(*s)); } } catch (const std::exception&) {}
            if (schema == "V1") { schema = "v1"; } else if (schema == "Vtest") { schema = "vtest"; }
            else if (schema == "Database") { schema = "database"; }
        }
        schemas.push_back(schema);
        auto got = io::get_uuid(p);
        read.push_back(got ? bytes_of(*got) : Bytes{});
    }
    Bytes wanted = !uuids.empty() && r.chance(70) ? uuids[size_t(r.in(0, int64_t(uuids.size()) - 1))] : bytes_of(lib::UUID(raw_uuid(r)));
    std::array<uint8_t, 16> a{};
    std::copy(wanted.begin(), wanted.end(), a.begin());
    auto hit = io::find_uuid(sub, lib::UUID(a));
    size_t found = 0;
    if (hit) { for (size_t i = 0; i < paths.size(); ++i) { if (fs::equivalent(paths[i], *hit)) { found = i + 1; } } if (found == 0) { found = 1000; } }
    log(vd::ev("find")("kinds", kinds)("schemas", schemas)("uuids", rows(uuids))("read", rows(read))("wanted", wanted)("found", found));
    fs::remove_all(sub);
}

static void policy_case(Rng& r, vd::Log& log, const fs::path& dir) {
    auto p = dir / "mapped";
    fs::remove(p);
    bool there = r.chance(50), ok = true, rw = r.chance(70);
    size_t want = size_t(r.chance(30) ? r.in(4090, 9000) : r.in(1, 60)), before = 0;
    if (there) { before = r.chance(25) ? want - size_t(r.in(1, int64_t(want))) : want + size_t(r.in(0, 30)); spill(p, Bytes(before, 7)); }
    auto name = r.pick({std::string("existing"), std::string("new"), std::string("either")});
    Bytes stored, back;
    try {
        auto policy = name == "existing" ? MemoryMapper::MustUseExisting : name == "new" ? MemoryMapper::MustCreate : MemoryMapper::MayCreate;
        MemoryMapper m(rw ? MemoryMapper::ReadWrite : MemoryMapper::ReadOnly);
        m.setpolicy(policy);
        MMapPtr<unsigned char> q = m.mmap(p, lib::Bytes(want));
        if (q.size() != want) { stored.push_back(-1); }
        if (rw) {
            for (size_t i = 0; i < want; i += 1 + want / 20) { q.data()[i] = (unsigned char)(i * 5); stored.push_back(int((i * 5) & 255)); }
        } else {
            // Nothing can be stored; what is there can be read.
            stored.push_back(q.data()[want - 1]);
        }
    } catch (const std::exception&) { ok = false; }
    auto all = slurp(p);
    if (ok) {
        if (rw) { for (size_t i = 0; i < want && i < all.size(); i += 1 + want / 20) { back.push_back(all[i]); } }
        else if (all.size() >= want) { back.push_back(all[want - 1]); }
    }
    log(vd::ev("policy")("policy", name)("rw", rw)("there", there)("before", before)("want", want)("ok", ok)("size", all.size())("stored", stored)("back", back));
    fs::remove(p);
}

static void text_case(Rng& r, vd::Log& log) {
    auto u = lib::UUID(raw_uuid(r));
    auto s = u.str();
    Bytes digits, hyphens;
    for (size_t i = 0; i < s.size(); ++i) {
        char ch = s[i];
        if (ch == '-') { hyphens.push_back(int(i)); }
        else { digits.push_back(ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : 99); }
    }
    auto up = s;
    for (auto& ch : up) { ch = char(std::toupper(ch)); }
    log(vd::ev("text")("uuid", bytes_of(u))("digits", digits)("hyphens", hyphens)("back", bytes_of(lib::UUID(s)))
            ("upper", bytes_of(lib::UUID(up))));
}

// Files of many vectors: a few of them as read.
static void bulk_case(Rng& r, vd::Log& log, const fs::path& dir) {
    size_t d = size_t(r.in(1, 300)), n = size_t(r.in(70000, 90000)) / d + 1;
    auto fmt = r.pick({std::string("vecs"), std::string("bin"), std::string("v1")});
    auto p = dir / ("bulk." + (fmt == "v1" ? "svs" : fmt));
    data::SimpleData<uint8_t> x(n, d);
    std::vector<uint8_t> v(d);
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < d; ++j) { v[j] = uint8_t((7 * i + j) % 256); }
        x.set_datum(i, v);
    }
    bool ok = true;
    size_t rn = 0, rd = 0;
    std::vector<std::vector<int64_t>> probes;
    try {
        if (fmt == "vecs") { io::save_vecs(x, p); }
        else if (fmt == "v1") { io::save(x, io::NativeFile(p)); }
        else {
            auto w = io::binary::BinaryFile(p).writer<uint8_t>(n, d);
            for (size_t i = 0; i < n; ++i) { w << x.get_datum(i); }
            w.close();
        }
        auto y = io::auto_load<uint8_t>(p, lib::Lazy([](size_t a, size_t b) { return data::SimpleData<uint8_t>(a, b); }));
        rn = y.size();
        rd = y.dimensions();
        for (int k = 0; k < 60 && rn > 0 && rd > 0; ++k) {
            size_t i = k == 0 ? rn - 1 : size_t(r.in(0, int64_t(rn) - 1)), j = size_t(r.in(0, int64_t(rd) - 1));
            probes.push_back({int64_t(i), int64_t(j), y.get_datum(i)[j]});
        }
    } catch (const std::exception&) { ok = false; }
    log(vd::ev("bulk")("fmt", fmt)("n", n)("d", d)("ok", ok)("rn", rn)("rd", rd)("size", fs::exists(p) ? size_t(fs::file_size(p)) : size_t(0))("probes", rows64(probes)));
    fs::remove(p);
}

static void unknown_case(Rng& r, vd::Log& log, const fs::path& dir) {
    auto p = dir / r.pick({std::string("x.dat"), std::string("x"), std::string("x.npy"), std::string("vecs.txt")});
    spill(p, Bytes(40, 1));
    bool ok = true;
    try { auto x = io::auto_load<float>(p, lib::Lazy([](size_t a, size_t b) { return data::SimpleData<float>(a, b); })); (void)x; }
    catch (const std::exception&) { ok = false; }
    log(vd::ev("unknown")("name", p.filename().string())("ok", ok));
    fs::remove(p);
}

template <typename T> static void one(Rng& r, vd::Log& log, const fs::path& dir) { Case<T>{r, log, dir}.run(); }

int main(int argc, char** argv) {
    vd::Args args(argc, argv);
    vd::Log log(args.str("out", "/dev/stdout"));
    auto dir = fs::path(args.str("dir", ".")) / ("files-" + std::to_string(getpid()));
    fs::create_directories(dir);
    Rng r(uint64_t(args.num("seed", 1)));
    for (int64_t i = 0, n = args.num("n", 100); i < n; ++i) {
        switch (r.in(0, 8)) {
            case 0: one<float>(r, log, dir); break;
            case 1: one<Float16>(r, log, dir); break;
            case 2: one<int8_t>(r, log, dir); break;
            case 3: one<uint8_t>(r, log, dir); break;
            case 4: one<uint32_t>(r, log, dir); break;
            case 5: one<double>(r, log, dir); break;
            case 6: one<int16_t>(r, log, dir); break;
            case 7: one<uint64_t>(r, log, dir); break;
            default: one<int32_t>(r, log, dir);
        }
        switch (r.in(0, 7)) {
            case 0: convert<int8_t, int32_t>(r, log, dir, -128, 127, {128, -129, 256, 100000}); break;
            case 1: convert<uint8_t, int64_t>(r, log, dir, 0, 255, {256, -1, 257, 65536}); break;
            case 2: convert<float, int64_t>(r, log, dir, -16777216, 16777216, {16777217, -16777217, 33554433}); break;
            case 3: convert<uint32_t, int64_t>(r, log, dir, 0, 2000000000, {-1, -200}); break;
            case 4: convert<Float16, float>(r, log, dir, -2048, 2048, {}); break;
            case 5: convert<float, Float16>(r, log, dir, -2048, 2048, {}); break;
            case 6: convert<uint8_t, double>(r, log, dir, 0, 255, {256, -1}); break;
            default: convert<int8_t, float>(r, log, dir, -128, 127, {128, 300, -129});
        }
        if (r.chance(40)) { find_case(r, log, dir); }
        if (r.chance(40)) { policy_case(r, log, dir); }
        if (r.chance(30)) { text_case(r, log); }
        if (r.chance(4)) { bulk_case(r, log, dir); }
        if (r.chance(10)) { unknown_case(r, log, dir); }
    }
    fs::remove_all(dir);
    return 0;
}
