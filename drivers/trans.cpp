// The id map (core/translation.h): random histories over small sets of ids, with the whole
// map read back both ways after every call.
#include "common.h"
#include "svs/core/translation.h"
#include "svs/lib/saveload.h"

#include <algorithm>
#include <set>

using namespace svs;
namespace fs = std::filesystem;

static std::string dec(uint64_t x) { return std::to_string(x); }
template <typename V> static std::vector<std::string> decs(const V& v) {
    std::vector<std::string> s;
    for (auto x : v) { s.push_back(dec(x)); }
    return s;
}
static vd::J lists(const std::vector<std::vector<std::string>>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { s += (i ? "," : "") + vd::j(v[i]).s; }
    return vd::J::raw(s + "]");
}

struct World {
    vd::Rng& r;
    vd::Log& log;
    std::vector<uint64_t> E;
    std::vector<uint32_t> I;
    IDTranslator t;

    void emit(vd::Obj& o) {
        std::vector<std::vector<std::string>> pairs, e2i, i2e;
        for (auto it = t.begin(); it != t.end(); ++it) { pairs.push_back({dec(it->first), dec(it->second)}); }
        for (auto e : E) {
            if (t.has_external(e)) { e2i.push_back({dec(e), dec(t.get_internal(e))}); }
        }
        for (auto i : I) {
            if (t.has_internal(i)) { i2e.push_back({dec(i), dec(t.get_external(i))}); }
        }
        // Absent ids must not be found by the accessors either.
        size_t found = 0;
        for (auto e : E) {
            if (!t.has_external(e)) { try { t.get_internal(e); ++found; } catch (const std::exception&) {} }
        }
        for (auto i : I) {
            if (!t.has_internal(i)) { try { t.get_external(i); ++found; } catch (const std::exception&) {} }
        }
        uint64_t size = vd::TOO_BIG;
        try { size = t.size(); } catch (const std::exception&) {}
        o("size", size)("pairs", lists(pairs))("e2i", lists(e2i))("i2e", lists(i2e))("found", found);
        log(o);
    }
    template <typename T> std::vector<T> some(const std::vector<T>& from, size_t n, bool unique) {
        std::vector<T> v;
        if (unique) {
            auto c = from;
            r.shuffle(c);
            c.resize(std::min(n, c.size()));
            return c;
        }
        for (size_t i = 0; i < n; ++i) { v.push_back(r.pick(from)); }
        return v;
    }
    template <typename Ex, typename In>
    bool call_insert(const Ex& e, const In& i, bool check) {
        try {
            if (r.chance(50)) { t.insert(e, i, check); } else { t.insert(e.begin(), e.end(), i.begin(), i.end(), check); }
            return true;
        } catch (const std::exception&) { return false; }
    }
    void insert() {
        size_t n = r.in(0, 4);
        size_t m = r.chance(90) ? n : size_t(r.in(0, 4));
        auto e = some(E, n, r.chance(75));
        auto i = some(I, m, r.chance(75));
        if (r.chance(60)) { // prefer free ones
            std::vector<uint64_t> ef;
            std::vector<uint32_t> in;
            for (auto x : E) { if (!t.has_external(x)) { ef.push_back(x); } }
            for (auto x : I) { if (!t.has_internal(x)) { in.push_back(x); } }
            if (!ef.empty() && r.chance(80)) { e = some(ef, n, r.chance(90)); }
            if (!in.empty() && r.chance(80)) { i = some(in, e.size(), r.chance(90)); }
            if (r.chance(20) && !e.empty() && e.size() == i.size()) { // a spoiled last element
                auto& b = e.back();
                b = r.pick(E);
            }
            if (r.chance(20) && !i.empty() && e.size() == i.size()) { i.back() = r.pick(I); }
        }
        bool valid = e.size() == i.size() && std::set<uint64_t>(e.begin(), e.end()).size() == e.size() &&
                     std::set<uint32_t>(i.begin(), i.end()).size() == i.size();
        for (auto x : e) { valid = valid && !t.has_external(x); }
        for (auto x : i) { valid = valid && !t.has_internal(x); }
        bool lengths = e.size() == i.size();
        bool check = !((valid || !lengths) && r.chance(30));
        bool ok;
        switch (r.in(0, 2)) {
            case 0: ok = call_insert(e, i, check); break;
            case 1: { std::vector<size_t> w(i.begin(), i.end()); ok = call_insert(e, w, check); break; }
            default: {
                bool small = std::all_of(e.begin(), e.end(), [](uint64_t x) { return x <= 0xFFFFFFFFu; });
                if (small) { std::vector<uint32_t> w(e.begin(), e.end()); ok = call_insert(w, i, check); }
                else { ok = call_insert(e, i, check); }
            }
        }
        auto o = vd::ev("insert");
        o("ext", decs(e))("int", decs(i))("check", check)("ok", ok);
        emit(o);
    }
    template <typename T, typename Has, typename F>
    void erase(const char* what, const std::vector<T>& all, Has has, F f) {
        std::vector<T> present;
        for (auto x : all) { if (has(x)) { present.push_back(x); } }
        auto v = r.chance(70) ? some(present, r.in(0, 3), true) : some(all, r.in(0, 3), true);
        if (r.chance(25) && !present.empty()) { // all but the last present
            v = some(present, 2, true);
            auto x = r.pick(all);
            if (std::find(v.begin(), v.end(), x) == v.end()) { v.push_back(x); }
        }
        bool valid = std::all_of(v.begin(), v.end(), has);
        bool check = !(valid && r.chance(30));
        bool ok = true;
        try { f(v, check); } catch (const std::exception&) { ok = false; }
        auto o = vd::ev(what);
        o("ids", decs(v))("check", check)("ok", ok);
        emit(o);
    }
    void remap() {
        std::vector<uint32_t> present, absent;
        for (auto x : I) { (t.has_internal(x) ? present : absent).push_back(x); }
        if (present.empty() || absent.empty()) { return; }
        auto a = r.pick(present), b = r.pick(absent);
        t.remap_internal_id(a, b);
        auto o = vd::ev("remap");
        o("from", dec(a))("to", dec(b));
        emit(o);
    }
    void queries() {
        auto e = some(E, r.in(0, 3), false);
        auto i = some(I, r.in(0, 3), false);
        auto yes = [&](auto f) { try { f(); return true; } catch (const std::exception&) { return false; } };
        auto o = vd::ev("checks");
        o("ext", decs(e))("int", decs(i));
        o("efree", yes([&] { t.check_external_free(e.begin(), e.end()); }));
        o("eexist", yes([&] { t.check_external_exist(e.begin(), e.end()); }));
        o("ifree", yes([&] { t.check_internal_free(i.begin(), i.end()); }));
        o("iexist", yes([&] { t.check_internal_exist(i.begin(), i.end()); }));
        emit(o);
    }
    void reload(const fs::path& dir) {
        fs::remove_all(dir);
        fs::create_directories(dir);
        lib::save_to_disk(t, dir);
        auto before = vd::ev("saved"); // saving alters nothing
        emit(before);
        t = lib::load_from_disk<IDTranslator>(dir);
        fs::remove_all(dir);
        auto o = vd::ev("loaded");
        emit(o);
    }
    void start() {
        auto o = vd::ev("new");
        if (r.chance(50)) {
            t = IDTranslator();
            o("n", 0);
        } else {
            size_t n = r.in(0, E.size() == 4 ? 4 : 6);
            t = IDTranslator(IDTranslator::Identity(n));
            o("n", n);
        }
        std::vector<std::string> ids;
        for (size_t k = 0; k < 8; ++k) { ids.push_back(dec(k)); }
        o("first", ids);
        emit(o);
    }
};

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    vd::Rng r(a.num("seed", 1));
    vd::Log log(a.str("out", "/tmp/w/trans.nd"));
    fs::path dir = a.str("out", "/tmp/w/trans.nd") + ".dir";
    for (int64_t h = 0; h < a.num("n", 50); ++h) {
        std::vector<uint64_t> E{0, 1, 2, 3, 4, 5};
        std::vector<uint32_t> I{0, 1, 2, 3, 4, 5};
        switch (r.in(0, 2)) {
            case 0: // far apart and at the limits
                for (auto x : {0xFFFFFFFFFFFFFFFEULL, 0x8000000000000000ULL, 0x100000000ULL, 0x100000001ULL, 0xFFFFFFFFULL, 0xFFFFFFFFFFFFFFFFULL}) { E.push_back(x); }
                for (auto x : {0xFFFFFFFEu, 0x80000000u, 0xFFFFFFFFu, 70000u}) { I.push_back(x); }
                break;
            case 1: // many
                for (int k = 0; k < 30; ++k) { E.push_back(6 + k); I.push_back(6 + k); }
                break;
            default: E.resize(4); I.resize(4);
        }
        World w{r, log, E, I, {}};
        w.start();
        int64_t len = r.in(3, E.size() > 12 ? 60 : 25);
        for (int64_t k = 0; k < len; ++k) {
            switch (r.in(0, 11)) {
                case 0: case 1: case 2: case 3: w.insert(); break;
                case 4: case 5: w.erase("dele", E, [&](auto x) { return w.t.has_external(x); }, [&](auto& v, bool c) { w.t.delete_external(v, c); }); break;
                case 6: w.erase("deli", I, [&](auto x) { return w.t.has_internal(x); }, [&](auto& v, bool c) { w.t.delete_internal(v, c); }); break;
                case 7: case 8: w.remap(); break;
                case 9: case 10: w.queries(); break;
                default: if (r.chance(40)) { w.reload(dir); }
            }
        }
    }
    return 0;
}
