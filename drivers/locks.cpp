// Spin lock, read-write protected value and reverse-edge buffer under the controlled
// scheduler (vsched.h).
#include "vsched.h"
#include "svs/lib/preprocessor.h"
#include "svs/lib/spinlock.h"
#include "svs/lib/concurrency/readwrite_protected.h"
#include "svs/index/vamana/vamana_build.h"

#include "explore.h"

using namespace svs;

static void note(const char* e, const std::function<void(vd::Obj&)>& more = {}) {
    auto o = vd::ev(e);
    o("t", vs::me->id);
    if (more) { more(o); }
    vs::record(o);
}

template <typename F> static void in_parallel(size_t n, F&& f) {
    std::vector<std::thread> ts;
    for (size_t i = 1; i < n; ++i) { ts.emplace_back([&f, i]() { f(i); }); }
    f(0);
    for (auto& t : ts) { t.join(); }
}

/////////////////////////////////////// spin lock
struct Step { int kind; int which; };
struct Plan { size_t threads = 2; std::vector<std::vector<Step>> steps; };

static void spin_scenario(const Plan& p) {
    std::vector<SpinLock> locks(2);
    in_parallel(p.threads, [&](size_t me) {
        for (auto& s : p.steps[me]) {
            auto& l = locks[size_t(s.which)];
            bool in = true;
            if (s.kind == 0) {
                l.lock();
            } else if (s.kind == 1) {
                in = l.try_lock();
            } else {
                std::lock_guard guard{l};
                note("enter", [&](vd::Obj& o) { o("l", s.which); });
                vs::yield();
                note("leave", [&](vd::Obj& o) { o("l", s.which)("seen", l.islocked()); });
                continue;
            }
            if (!in) { continue; }
            note("enter", [&](vd::Obj& o) { o("l", s.which); });
            vs::yield();
            note("leave", [&](vd::Obj& o) { o("l", s.which)("seen", l.islocked()); });
            l.unlock();
        }
    });
    for (int i = 0; i < 2; ++i) { note("free", [&](vd::Obj& o) { o("l", i)("seen", locks[size_t(i)].islocked()); }); }
}

/////////////////////////////////////// read-write protected value
struct Blob {
    int a = 0, b = 0, c = 0;
    Blob() = default;
    explicit Blob(int v) : a{v}, b{v}, c{v} {}
    Blob(const Blob& o) { take(o); }
    Blob(Blob&& o) { take(o); }
    Blob& operator=(const Blob& o) { take(o); return *this; }
    Blob& operator=(Blob&& o) { take(o); return *this; }
    void take(const Blob& o) {
        a = o.a;
        vs::yield();
        b = o.b;
        vs::yield();
        c = o.c;
    }
};
using Cell = lib::ReadWriteProtected<Blob>;

// 0: get, 1: set const&, 2: set &&, 3: copy-construct and read, 4: assign from another cell
static void cell_scenario(const Plan& p) {
    std::deque<Cell> cells;
    cells.emplace_back(Blob{1});
    cells.emplace_back();
    cells[1].set(Blob{2});
    int next = 3;
    in_parallel(p.threads, [&](size_t me) {
        for (auto& s : p.steps[me]) {
            int x = s.which;
            auto call = [&](const char* what, int v) {
                note("call", [&](vd::Obj& o) { o("x", x)("op", what)("v", v); });
            };
            auto ret = [&](const char* what, const Blob& b) {
                note("ret", [&](vd::Obj& o) { o("x", x)("op", what)("v", std::vector<int>{b.a, b.b, b.c}); });
            };
            int v = next++;
            if (s.kind == 0) {
                call("get", 0);
                auto b = cells[size_t(x)].get();
                ret("get", b);
            } else if (s.kind == 1) {
                const Blob b{v};
                call("set", v);
                cells[size_t(x)].set(b);
                ret("set", b);
            } else if (s.kind == 2) {
                Blob b{v};
                call("set", v);
                cells[size_t(x)].set(std::move(b));
                ret("set", Blob{v});
            } else if (s.kind == 3) {
                call("get", 0);
                Cell copy{cells[size_t(x)]};
                ret("get", copy.get());
            } else {
                // x takes the value of the other cell: a read of one, then a write of the other.
                call("assign", 0);
                cells[size_t(x)] = cells[size_t(1 - x)];
                ret("assign", Blob{0});
            }
        }
    });
    for (int x = 0; x < 2; ++x) {
        note("call", [&](vd::Obj& o) { o("x", x)("op", "get")("v", 0); });
        // Alone now: moving a value out, and self-assignment before it.
        auto& self = cells[size_t(x)];
        self = cells[size_t(x)];
        Blob b = x == 0 ? cells[0].get() : Cell{std::move(cells[1])}.get();
        note("ret", [&](vd::Obj& o) { o("x", x)("op", "get")("v", std::vector<int>{b.a, b.b, b.c}); });
    }
}

/////////////////////////////////////// reverse edges
struct Vertex {
    uint32_t v = 0;
    Vertex() = default;
    Vertex(uint32_t x) : v{x} {}
    operator uint32_t() const { return v; }
    bool operator==(const Vertex& o) const { vs::yield(); return v == o.v; }
};
template <> struct std::hash<Vertex> {
    size_t operator()(const Vertex& x) const { vs::yield(); return std::hash<uint32_t>{}(x.v); }
};
struct Edges {
    size_t vertices = 6, bucket = 2;
    std::vector<std::vector<std::pair<int, int>>> rounds[2];
    size_t threads = 2;
};
static void edges_scenario(const Edges& p) {
    index::vamana::BackedgeBuffer<Vertex> buffer(p.vertices, p.bucket);
    for (auto& round : p.rounds) {
        buffer.reset();
        note("reset");
        in_parallel(p.threads, [&](size_t me) {
            for (auto& e : round[me]) {
                note("edge", [&](vd::Obj& o) { o("u", e.first)("v", e.second); });
                buffer.add_edge(Vertex(uint32_t(e.first)), Vertex(uint32_t(e.second)));
            }
        });
        std::string s = "[";
        for (auto& b : buffer.buckets()) {
            for (auto& kv : b) {
                std::vector<uint32_t> to;
                for (auto& d : kv.second) { to.push_back(d.v); }
                s += (s.size() > 1 ? ",[" : "[") + std::to_string(kv.first.v) + "," + vd::j(to).s + "]";
            }
        }
        note("buckets", [&](vd::Obj& o) { o("all", vd::J::raw(s + "]")); });
    }
}

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    vd::Log log(a.str("out", "/dev/stdout"));
    ex::Explorer x(log, a);
    vd::Rng r(uint64_t(a.num("seed", 1)));
    auto kind = [](const char* k) { return [k](vd::Obj& o) { o("kind", k); }; };
    int bound = int(a.num("bound", 2));
    size_t budget = size_t(a.num("budget", 400));
    if (a.num("part", 0) == 0) {
        for (auto& s : std::vector<std::vector<std::vector<Step>>>{
                 {{{0, 0}}, {{0, 0}}}, {{{0, 0}, {0, 0}}, {{0, 0}}}, {{{0, 0}}, {{1, 0}, {1, 0}}},
                 {{{0, 0}}, {{0, 0}}, {{0, 0}}}, {{{2, 0}}, {{1, 0}, {2, 0}}}}) {
            Plan p{s.size(), s};
            x.search([&]() { spin_scenario(p); }, kind("spin"), bound, budget);
        }
        for (auto& s : std::vector<std::vector<std::vector<Step>>>{
                 {{{1, 0}}, {{0, 0}, {0, 0}}}, {{{2, 0}}, {{0, 0}}}, {{{1, 0}}, {{2, 0}}}, {{{1, 0}}, {{3, 0}}},
                 {{{4, 0}}, {{1, 1}}}, {{{4, 0}}, {{0, 0}}}, {{{4, 0}}, {{4, 1}}}, {{{1, 0}}, {{0, 0}}, {{0, 0}}}}) {
            Plan p{s.size(), s};
            x.search([&]() { cell_scenario(p); }, kind("cell"), bound, budget);
        }
    }
    for (int64_t i = 0; i < a.num("plans", 60); ++i) {
        Plan p;
        p.threads = size_t(r.in(2, 4));
        bool cell = r.chance(60);
        for (size_t t = 0; t < p.threads; ++t) {
            p.steps.push_back({});
            for (int k = int(r.in(1, cell ? 3 : 4)); k > 0; --k) {
                p.steps.back().push_back({int(cell ? r.in(0, 4) : r.in(0, 2)), int(r.chance(30))});
            }
        }
        if (cell) { x.random([&]() { cell_scenario(p); }, kind("cell"), r, size_t(a.num("runs", 10)), true); }
        else { x.random([&]() { spin_scenario(p); }, kind("spin"), r, size_t(a.num("runs", 10)), true); }
        if (i % 2 == 0) {
            Edges e;
            e.vertices = size_t(r.in(2, 9));
            e.bucket = size_t(r.in(1, 5));
            e.threads = size_t(r.in(2, 4));
            for (auto& round : e.rounds) {
                for (size_t t = 0; t < e.threads; ++t) {
                    round.push_back({});
                    for (int k = int(r.in(0, 8)); k > 0; --k) {
                        round.back().push_back({int(r.in(0, int64_t(e.vertices) - 1)), int(r.in(0, 12))});
                    }
                }
            }
            x.random([&]() { edges_scenario(e); }, kind("edges"), r, size_t(a.num("runs", 10)), false);
        }
    }
    return 0;
}
