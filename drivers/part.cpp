// Partitioning of work: static splits through a pool that only calls what it is given (in
// any order), balance() for large ranges, and dynamic ones through the real pool under the
// controlled scheduler (vsched.h).
#include "vsched.h"
#include "svs/lib/preprocessor.h"
#include "svs/lib/threads.h"

#include "explore.h"

using namespace svs;

// Calls every worker's share one after the other.
struct Listed {
    size_t n;
    std::vector<size_t> order;
    size_t size() const { return n; }
    void run(threads::FunctionRef f) { for (auto i : order) { f(i); } }
};

static std::vector<int64_t> pair_of(uint64_t x) {
    return {int64_t(x / 1000000000ULL), int64_t(x % 1000000000ULL)};
}
template <typename P> static std::vector<int64_t> values(const P& is) {
    std::vector<int64_t> v;
    for (auto i : is) { v.push_back(int64_t(i)); }
    return v;
}
static std::string lists(const std::vector<std::pair<size_t, std::vector<int64_t>>>& calls) {
    std::string s = "[";
    for (size_t i = 0; i < calls.size(); ++i) {
        s += (i ? ",[" : "[") + std::to_string(calls[i].first) + "," + vd::j(calls[i].second).s + "]";
    }
    return s + "]";
}

template <typename Space> static void one_static(vd::Log& log, vd::Rng& r, size_t nt, const Space& space, std::vector<int64_t> vals, const char* what) {
    Listed pool{nt, {}};
    for (size_t i = 0; i < nt; ++i) { pool.order.push_back(i); }
    r.shuffle(pool.order);
    std::vector<std::pair<size_t, std::vector<int64_t>>> calls;
    threads::run(pool, space, [&](const auto& is, uint64_t tid) { calls.push_back({tid, values(is)}); });
    auto o = vd::ev("static");
    o("what", what)("nt", nt)("space", vals)("calls", vd::J::raw(lists(calls)));
    log(o);
}

static std::vector<int64_t> seq(int64_t a, int64_t b) {
    std::vector<int64_t> v;
    for (; a < b; ++a) { v.push_back(a); }
    return v;
}

template <typename T, typename U> static void one_balance(vd::Log& log, T n, U nt) {
    std::string s = "[";
    for (U t = 0; t < nt; ++t) {
        auto r = threads::balance(n, nt, t);
        uint64_t size = 0;
        size = r.size();
        s += std::string(t ? "," : "") + "[" + vd::j(pair_of(uint64_t(r.start()))).s + "," +
             vd::j(pair_of(uint64_t(r.stop()))).s + "," + vd::j(pair_of(size)).s + "]";
    }
    auto o = vd::ev("balance");
    o("nt", nt)("n", pair_of(uint64_t(n)))("shares", vd::J::raw(s + "]"));
    log(o);
}

struct Plan {
    int kind = 0;
    size_t threads = 2, n = 3;
    int64_t start = 0;
    size_t grain = 1;
    std::vector<int64_t> list;
    std::vector<int64_t> space() const { return kind == 2 ? list : seq(start, start + int64_t(n)); }
};

static void scenario(const Plan& p) {
    threads::NativeThreadPoolBase<threads::DefaultBuilder> pool(p.threads, 2);
    auto body = [&](const auto& is, uint64_t tid) {
        auto o = vd::ev("chunk");
        o("t", vs::me->id)("w", tid)("vals", values(is));
        vs::record(o);
        vs::yield();
    };
    switch (p.kind) {
        case 0: threads::run(pool, threads::DynamicPartition<threads::IndexIterator<size_t>>(p.n, p.grain), body); break;
        case 1: threads::run(pool, threads::DynamicPartition{p.start, p.start + int64_t(p.n), p.grain}, body); break;
        case 2: threads::run(pool, threads::DynamicPartition{p.list, p.grain}, body); break;
        case 3: threads::run(pool, threads::DynamicPartition{threads::UnitRange<uint32_t>(uint32_t(p.start), uint32_t(p.start) + uint32_t(p.n)), p.grain}, body); break;
        case 4: threads::run(pool, threads::StaticPartition<threads::IndexIterator<size_t>>(p.n), body); break;
        case 5: threads::run(pool, threads::StaticPartition{p.start, p.start + int64_t(p.n)}, body); break;
    }
}

static Plan plan(int kind, size_t threads, size_t n, size_t grain, int64_t start) {
    Plan p{kind, threads, n, kind == 0 || kind == 4 ? 0 : start, grain, {}};
    for (size_t i = 0; i < n; ++i) { p.list.push_back(int64_t(i * 7 % 101)); }
    return p;
}

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    vd::Log log(a.str("out", "/dev/stdout"));
    ex::Explorer x(log, a);
    x.full = 0; // nothing here is about memory orders
    vd::Rng r(uint64_t(a.num("seed", 1)));
    auto begin = [](const Plan& p) {
        return [p](vd::Obj& o) { o("workers", p.threads)("n", p.n)("grain", p.grain)("kind", p.kind)("space", p.space()); };
    };
    size_t part = size_t(a.num("part", 0)), parts = size_t(a.num("parts", 1));
    // Every small static split.
    size_t k = 0;
    for (size_t n = 0; n <= size_t(a.num("most", 26)); ++n) {
        for (size_t nt = 1; nt <= 12; ++nt) {
            if (k++ % parts != part) { continue; }
            one_static(log, r, nt, threads::StaticPartition<threads::IndexIterator<size_t>>(n), seq(0, int64_t(n)), "length");
            one_static(log, r, nt, threads::StaticPartition(int32_t(-3), int32_t(n) - 3), seq(-3, int64_t(n) - 3), "interval");
            one_static(log, r, nt, threads::StaticPartition(threads::UnitRange<uint32_t>(7, uint32_t(7 + n))), seq(7, 7 + int64_t(n)), "unitrange");
            std::vector<int64_t> v;
            for (size_t i = 0; i < n; ++i) { v.push_back(int64_t(i * 37 % 101)); }
            one_static(log, r, nt, threads::StaticPartition(v), v, "vector");
            // A share that is split again.
            std::vector<std::pair<size_t, std::vector<int64_t>>> calls;
            Listed pool{nt, {}};
            for (size_t i = 0; i < nt; ++i) { pool.order.push_back(nt - 1 - i); }
            threads::run(pool, threads::StaticPartition(size_t(n)), [&](const auto& is, uint64_t tid) {
                threads::UnitRange again(is);
                calls.push_back({tid, values(again)});
            });
            auto o = vd::ev("static");
            o("what", "unitrange of share")("nt", nt)("space", seq(0, int64_t(n)))("calls", vd::J::raw(lists(calls)));
            log(o);
        }
    }
    for (size_t i = 0; i < size_t(a.num("large", 300)); ++i) {
        uint64_t n = r.next() >> r.in(2, 60);
        if (n == 0) { continue; }
        if (r.chance(40)) { n = (uint64_t(1) << r.in(0, 61)) + uint64_t(r.in(-1, 1)); if (n == 0) { continue; } }
        size_t nt = size_t(r.chance(70) ? r.in(1, 9) : r.in(1, 130));
        one_balance<size_t, size_t>(log, n, nt);
        if (n <= 2000000000) {
            one_balance<int32_t, int32_t>(log, int32_t(n), int32_t(nt));
            one_balance<uint32_t, size_t>(log, uint32_t(n), nt);
        }
        if (n <= (uint64_t(1) << 61)) { one_balance<int64_t, uint64_t>(log, int64_t(n), nt); }
    }
    // Dynamic: every schedule with few preemptions of small plans, random ones of larger.
    k = 0;
    for (size_t threads = 1; threads <= 3; ++threads) {
        for (size_t n = 0; n <= 4; ++n) {
            for (size_t grain : {size_t(1), size_t(2), size_t(3), size_t(5)}) {
                for (int kind : {0, 2}) {
                    if (k++ % parts != part) { continue; }
                    auto p = plan(kind, threads, n, grain, 0);
                    x.search([&]() { scenario(p); }, begin(p), int(a.num("bound", 2)), size_t(a.num("budget", 150)));
                }
            }
        }
    }
    for (int64_t i = 0; i < a.num("plans", 150); ++i) {
        size_t n = size_t(r.in(0, 24));
        size_t grain = size_t(r.chance(70) ? r.in(1, 5) : r.in(1, 40));
        if (r.chance(10)) { grain = r.pick({SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 2 + 1, (SIZE_MAX >> 2) + 1, size_t(1) << 32}); }
        auto p = plan(int(r.in(0, 5)), size_t(r.in(1, 5)), n, grain, r.in(0, 50));
        x.random([&]() { scenario(p); }, begin(p), r, size_t(a.num("runs", 6)), false);
    }
    return 0;
}
