// Thread pools under the controlled scheduler (vsched.h).
#include "vsched.h"
#include "svs/lib/preprocessor.h"
#include "svs/lib/threads/threadpool.h"

#include "explore.h"

using namespace svs;

struct Plan {
    size_t n = 2;              // workers at the start
    size_t spin = 3;
    struct Step { int kind; size_t arg; std::vector<int> throws; }; // 0: run, 1: resize
    std::vector<Step> steps;
    std::vector<Step> other;   // a second submitting thread
};

static void event(const char* e, int j, size_t w, const std::function<void(vd::Obj&)>& more = {}) {
    auto o = vd::ev(e);
    o("t", vs::me->id)("j", j);
    if (w != SIZE_MAX) { o("w", w); }
    if (more) { more(o); }
    vs::record(o);
}

template <typename Pool> void do_steps(Pool& pool, const std::vector<Plan::Step>& steps, int first_job) {
    int j = first_job;
    for (auto& s : steps) {
        if (s.kind == 1) {
            auto o = vd::ev("resize");
            o("t", vs::me->id)("n", s.arg);
            vs::record(o);
            pool.resize(s.arg);
            auto o2 = vd::ev("resized");
            o2("t", vs::me->id)("n", s.arg)("size", pool.size());
            vs::record(o2);
            continue;
        }
        auto body = [&, j](size_t w) {
            event("start", j, w);
            vs::yield();
            int how = w < s.throws.size() ? s.throws[w] : 0;
            event("end", j, w, [&](vd::Obj& o) { o("thrown", how != 0); });
            if (how == 1) { throw std::runtime_error("job failed"); }
            if (how == 2) { throw 42; }
            if (how == 3) { throw ANNEXCEPTION("job failed"); }
        };
        event("call", j, SIZE_MAX);
        bool err = false;
        std::string kind = "none";
        try {
            pool.run(threads::FunctionRef(body));
        } catch (const threads::ThreadingException&) {
            err = true;
            kind = "ThreadingException";
        } catch (...) {
            err = true;
            kind = "other";
        }
        event("ret", j, SIZE_MAX, [&](vd::Obj& o) { o("err", err)("kind", kind); });
        ++j;
    }
}

static int jobs_in(const std::vector<Plan::Step>& s) {
    int n = 0;
    for (auto& x : s) { n += x.kind == 0; }
    return n;
}

static void scenario(const Plan& p) {
    threads::NativeThreadPoolBase<threads::DefaultBuilder> pool(p.n, p.spin);
    if (p.other.empty()) {
        do_steps(pool, p.steps, 1);
    } else {
        int first = 1 + jobs_in(p.steps);
        std::thread helper([&]() { do_steps(pool, p.other, first); });
        do_steps(pool, p.steps, 1);
        helper.join();
    }
}

static Plan random_plan(vd::Rng& r) {
    Plan p;
    p.n = size_t(r.in(1, 4));
    p.spin = size_t(r.in(1, 4));
    auto steps = [&](int most, bool may_resize) {
        std::vector<Plan::Step> out;
        int k = int(r.in(1, most));
        for (int i = 0; i < k; ++i) {
            if (may_resize && r.chance(30)) {
                out.push_back({1, size_t(r.in(0, 4)), {}});
            } else {
                Plan::Step s{0, 0, {}};
                for (size_t w = 0; w < 4; ++w) { s.throws.push_back(r.chance(30) ? int(r.in(1, 3)) : 0); }
                if (r.chance(40)) { s.throws.clear(); }
                out.push_back(s);
            }
        }
        return out;
    };
    p.steps = steps(4, true);
    // Only one thread resizes, so that the size in force is known.
    if (r.chance(40)) { p.other = steps(2, false); }
    return p;
}

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    vd::Log log(a.str("out", "/dev/stdout"));
    ex::Explorer x(log, a);
    auto begin = [](const Plan& p) {
        return [p](vd::Obj& o) { o("n", p.n)("jobs", jobs_in(p.steps) + jobs_in(p.other)); };
    };
    if (a.num("part", 0) == 0) {
        // Every schedule with one (two) preemptions of small plans.
        std::vector<Plan> plans;
        for (size_t n : {1, 2, 3}) {
            for (int mask = 0; mask < (1 << n); ++mask) {
                if (n == 3 && mask % 3 == 2) { continue; }
                Plan p;
                p.n = n;
                p.spin = 2;
                Plan::Step s{0, 0, {}};
                for (size_t w = 0; w < n; ++w) { s.throws.push_back((mask >> w) & 1 ? 1 + int(w) % 2 : 0); }
                p.steps = {s, Plan::Step{0, 0, {}}};
                plans.push_back(p);
            }
        }
        for (auto& p : plans) {
            x.search([&]() { scenario(p); }, begin(p), p.n <= 2 ? int(a.num("bound", 1)) : 1, size_t(a.num("budget", 400)));
        }
    }
    vd::Rng r(uint64_t(a.num("seed", 1)));
    for (int64_t i = 0; i < a.num("plans", 100); ++i) {
        auto p = random_plan(r);
        x.random([&]() { scenario(p); }, begin(p), r, size_t(a.num("runs", 10)), true);
    }
    return 0;
}
