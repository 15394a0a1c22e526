// Every short sequence (and many long random ones) of calls on the two search buffers. Each
// step is written as one event: what the buffer showed before, the call, what it returned
// and what the buffer shows after. Identical events are written once.
#include "common.h"
#include "svs/index/vamana/dynamic_search_buffer.h"
#include "svs/index/vamana/search_buffer.h"

#include <functional>
#include <optional>
#include <unordered_set>

using namespace svs;
using vd::Rng;
using index::vamana::SearchBufferConfig;

struct Cand { uint32_t id; int d; bool ok; };

static std::unordered_set<std::string> g_seen;
static vd::Log* g_log;
static size_t g_budget = 0;
static void emit(const vd::Obj& o) {
    auto s = o.done().s;
    if (g_seen.size() < g_budget && g_seen.insert(s).second) { (*g_log)(o); }
}

template <typename Cmp> struct Static {
    static constexpr bool mut = false;
    using B = index::vamana::SearchBuffer<uint32_t, Cmp>;
    static SearchNeighbor<uint32_t> mk(const Cand& c) { return {c.id, float(c.d)}; }
    static bool ok(const SearchNeighbor<uint32_t>&) { return true; }
};
template <typename Cmp> struct Mutable {
    static constexpr bool mut = true;
    using B = index::vamana::MutableBuffer<uint32_t, Cmp>;
    static PredicatedSearchNeighbor<uint32_t> mk(const Cand& c) { return {c.id, float(c.d), c.ok}; }
    static bool ok(const PredicatedSearchNeighbor<uint32_t>& n) { return n.valid(); }
};

template <typename K, typename B> vd::J show(const B& b) {
    std::vector<vd::J> out;
    for (size_t i = 0; i < b.size(); ++i) {
        const auto& n = b[i];
        vd::Obj o;
        o("id", n.id())("d", n.distance())("vis", n.visited())("ok", K::ok(n));
        out.push_back(o.done());
    }
    return vd::j(out);
}

template <typename K> struct Session {
    using B = typename K::B;
    B b;
    const char* cmp;
    size_t w, cap;
    std::vector<uint32_t> emplaced; // since the last clear, while the visited set was on
    Session(const char* c, size_t w_, size_t cap_, bool vis)
        : b(SearchBufferConfig{w_, cap_}, {}, vis), cmp{c}, w{w_}, cap{cap_} {}

    vd::Obj start(const char* what) {
        auto o = vd::ev(what);
        o("m", K::mut)("cmp", cmp)("w", w)("cap", cap)("pre", show<K>(b));
        return o;
    }
    void finish(vd::Obj& o) {
        size_t live = 0;
        if constexpr (K::mut) { live = b.valid(); } else { live = b.size(); }
        o("post", show<K>(b))("size", b.size())("full", b.full())("live", live)("done", b.done());
        emit(o);
    }
    void push(const Cand& c) {
        auto o = start("push");
        b.push_back(K::mk(c));
        o("id", c.id)("d", c.d)("ok", c.ok);
        // The cursor means nothing until the buffer is sorted.
        o("post", show<K>(b))("size", b.size())("full", b.full());
        emit(o);
    }
    void sort() {
        auto o = start("sort");
        b.sort();
        finish(o);
    }
    void insert(const Cand& c) {
        auto o = start("ins");
        bool skip = false;
        if (b.size() > 0) { skip = b.can_skip(float(c.d)); }
        size_t ret = b.insert(K::mk(c));
        o("id", c.id)("d", c.d)("ok", c.ok)("skip", skip)("ret", ret);
        finish(o);
    }
    bool done() const { return b.done(); }
    void next() {
        auto o = start("next");
        auto n = b.next();
        o("id", n.id())("d", n.distance());
        finish(o);
    }
    void clear() {
        auto o = start("clear");
        b.clear();
        emplaced.clear();
        finish(o);
    }
    void shrink(size_t n) {
        auto o = start("resize");
        b.change_maxsize(n);
        w = n;
        cap = n;
        o("to", n)("post", show<K>(b))("size", b.size())("toW", b.config().get_search_window_size())
         ("toCap", b.config().get_total_capacity());
        emit(o);
        clear();
    }
    void reconf(size_t w_, size_t cap_) {
        clear();
        auto o = start("reconf");
        b.change_maxsize(SearchBufferConfig{w_, cap_});
        b.clear();
        w = w_;
        cap = cap_;
        o("nw", w_)("ncap", cap_)("cw", b.config().get_search_window_size())("cc", b.config().get_total_capacity());
        finish(o);
    }
    void copy() {
        auto o = start("copy");
        auto c = b.shallow_copy();
        o("csize", c.size())("cw", c.config().get_search_window_size())
         ("cc", c.config().get_total_capacity())("cv", c.visited_set_enabled())
         ("v", b.visited_set_enabled())("cdone", c.done());
        finish(o);
        B full{b}; // an ordinary copy shows the same and takes over
        b = full;
    }
    void emplace(uint32_t id) {
        bool on = b.visited_set_enabled();
        bool ret = b.emplace_visited(id);
        bool now = b.is_visited(id);
        auto o = vd::ev("emp");
        bool was = std::find(emplaced.begin(), emplaced.end(), id) != emplaced.end();
        if (on) { emplaced.push_back(id); }
        o("on", on)("was", was)("ret", ret)("now", now);
        emit(o);
    }
    void isv(uint32_t id) {
        auto o = vd::ev("isv");
        bool was = std::find(emplaced.begin(), emplaced.end(), id) != emplaced.end();
        o("on", b.visited_set_enabled())("was", was)("ret", b.is_visited(id));
        emit(o);
    }
    void toggle(bool on) {
        if (on) { b.enable_visited_set(); } else { b.disable_visited_set(); emplaced.clear(); }
        auto o = vd::ev("tog");
        o("on", on)("ret", b.visited_set_enabled());
        emit(o);
    }
    void cleanup() {
        if constexpr (K::mut) {
            auto o = start("cleanup");
            b.cleanup();
            o("post", show<K>(b))("size", b.size());
            emit(o);
        }
    }
};

// All sequences of calls up to a depth.
template <typename K>
void explore(Session<K>& s, const std::vector<Cand>& u, size_t depth) {
    { Session<K> t{s}; t.cleanup(); }
    if (depth == 0) { return; }
    for (auto& c : u) {
        Session<K> t{s};
        t.insert(c);
        explore(t, u, depth - 1);
    }
    if (!s.done()) {
        Session<K> t{s};
        t.next();
        explore(t, u, depth - 1);
    }
}

template <typename K> void exhaustive(const char* cmp, Rng& r, size_t n, size_t maxcap, size_t depth, size_t rounds) {
    for (size_t k = 0; k < rounds; ++k) {
        std::vector<Cand> u;
        for (uint32_t i = 0; i < n; ++i) {
            u.push_back({i, int(r.in(-1, 2)), K::mut ? r.chance(55) : true});
        }
        size_t cap = size_t(r.in(1, int64_t(maxcap)));
        size_t w = size_t(r.in(1, int64_t(cap)));
        Session<K> s{cmp, w, cap, false};
        s.clear();
        s.push(u[size_t(r.in(0, int64_t(n) - 1))]);
        s.sort();
        explore(s, u, depth);
    }
}

template <typename K> void random_runs(const char* cmp, Rng& r, size_t runs, size_t steps) {
    for (size_t k = 0; k < runs; ++k) {
        size_t n = size_t(r.in(3, 40));
        int spread = int(r.pick({2, 5, 50}));
        std::vector<Cand> u;
        int livep = int(r.pick({0, 20, 60, 95, 100}));
        for (uint32_t i = 0; i < n; ++i) {
            uint32_t id = r.chance(50) ? i : i + 65536 * uint32_t(r.in(0, 3));
            if (r.chance(10)) { id = uint32_t(r.in(0, 3)) * 65536 + 7; }
            if (r.chance(5)) { id = 1999999999u - i; }
            bool dup = false;
            for (auto& c : u) { dup = dup || c.id == id; }
            if (dup) { id = 1000000 + i; }
            u.push_back({id, int(r.in(-spread, spread)), K::mut ? r.chance(livep) : true});
        }
        size_t cap = size_t(r.in(1, r.chance(50) ? 4 : 14));
        size_t w = r.chance(40) ? cap : size_t(r.in(1, int64_t(cap)));
        Session<K> s{cmp, w, cap, r.chance(50)};
        s.clear();
        auto fill = [&]() {
            auto v = u;
            r.shuffle(v);
            size_t e = size_t(r.in(1, std::min<int64_t>(3, int64_t(n))));
            for (size_t i = 0; i < e; ++i) { s.push(v[i]); }
            s.sort();
        };
        fill();
        for (size_t i = 0; i < steps; ++i) {
            int p = int(r.in(0, 99));
            if (p < 62) { s.insert(r.pick(u)); }
            else if (p < 88) { if (!s.done()) { s.next(); } }
            else if (p < 90) { s.clear(); fill(); }
            else if (p < 91) { s.shrink(size_t(r.in(1, 12))); fill(); }
            else if (p < 92) {
                size_t c = size_t(r.in(1, 12));
                s.reconf(size_t(r.in(1, int64_t(c))), c);
                fill();
            }
            else if (p < 93) { s.copy(); }
            else if (p < 97) { s.emplace(r.pick(u).id); }
            else if (p < 99) { s.isv(r.pick(u).id); }
            else { s.toggle(r.chance(60)); }
            if (r.chance(4)) { Session<K> t{s}; t.cleanup(); }
        }
    }
}

// A chain of n deleted candidates with l live ones behind them.
static void chain(uint32_t n, uint32_t l, size_t w, size_t cap) {
    using K = Mutable<std::less<>>;
    typename K::B b(SearchBufferConfig{w, cap});
    b.clear();
    b.push_back(K::mk({0, 0, n == 0}));
    b.sort();
    size_t steps = 0;
    while (!b.done() && steps <= size_t(n) + l + 5) {
        auto id = b.next().id();
        ++steps;
        if (id + 1 < n + l) { b.insert(K::mk({id + 1, int(id + 1), id + 1 >= n})); }
    }
    auto o = vd::ev("chain");
    o("n", n)("l", l)("w", w)("cap", cap)("steps", steps)("size", b.size())("done", b.done());
    b.cleanup();
    std::vector<uint32_t> left;
    for (size_t i = 0; i < b.size(); ++i) { left.push_back(b[i].id()); }
    o("left", left);
    emit(o);
}

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    vd::Log log(a.str("out", "/dev/stdout"));
    g_log = &log;
    g_budget = size_t(a.num("budget", 8000));
    Rng r(uint64_t(a.num("seed", 1)));
    size_t n = size_t(a.num("n", 4)), depth = size_t(a.num("depth", 6)), rounds = size_t(a.num("rounds", 6));
    size_t runs = size_t(a.num("runs", 10)), steps = size_t(a.num("steps", 120));
    bool mut = a.num("mutable", 0) == 1;
    if (mut) {
        for (uint32_t l : {0u, 1u, 3u, 9u}) {
            for (uint32_t n : {0u, 1u, 5u, 300u, 65533u, 65535u, 65536u, 70001u}) {
                if (n + l == 0) { continue; }
                size_t cap = size_t(r.in(1, 8));
                chain(n, l, size_t(r.in(1, int64_t(cap))), cap);
            }
        }
        exhaustive<Mutable<std::less<>>>("L2", r, n, 3, depth, rounds);
        g_budget += size_t(a.num("budget", 8000));
        random_runs<Mutable<std::less<>>>("L2", r, runs, steps);
        random_runs<Mutable<std::greater<>>>("IP", r, runs, steps);
    } else {
        exhaustive<Static<std::less<>>>("L2", r, n, 3, depth, rounds);
        g_budget += size_t(a.num("budget", 8000));
        random_runs<Static<std::less<>>>("L2", r, runs, steps);
        random_runs<Static<std::greater<>>>("IP", r, runs, steps);
    }
    return 0;
}
