// One worker thread and its controller under the controlled scheduler (vsched.h).
#include "vsched.h"
#include "svs/lib/preprocessor.h"
#include "svs/lib/threads/thread.h"

#include "explore.h"

using namespace svs;
using Worker = threads::ThreadImpl<threads::telemetry::NoTelemetry>;

struct Step { char op; int how; };
struct Plan { size_t spin = 2; std::vector<Step> steps; };

static void job(int j, int how) {
    auto o = vd::ev("start");
    o("t", vs::me->id)("j", j);
    vs::record(o);
    vs::yield();
    auto o2 = vd::ev("end");
    o2("t", vs::me->id)("j", j)("thrown", how != 0);
    vs::record(o2);
    if (how == 1) { throw std::runtime_error("job " + std::to_string(j)); }
    if (how == 2) { throw j; }
}

static size_t live() {
    size_t n = 0;
    for (auto& t : vs::S.threads) { n += !t->finished && t->id != 0; }
    return n;
}

static void scenario(const Plan& p) {
    Worker w(p.spin);
    int next = 1, thrower = 0;
    bool failed = false, taken = false, down = false;
    // The bodies outlive the loop: a job may still be running when the next step is taken.
    std::vector<std::unique_ptr<std::function<void(size_t)>>> bodies;
    for (auto& s : p.steps) {
        if (s.op == 'A' || s.op == 'B') {
            int j = next++;
            // Whether an earlier job failed is known here only after waiting; an exception
            // can be taken once.
            if (failed && taken) { continue; }
            bodies.push_back(std::make_unique<std::function<void(size_t)>>([j, how = s.how](size_t) { job(j, how); }));
            auto o = vd::ev("assign");
            o("t", vs::me->id)("j", j);
            vs::record(o);
            bool err = false;
            try {
                if (s.op == 'A') { w.assign({threads::FunctionRef(*bodies.back()), 1}); }
                else {
                    w.unsafe_assign_blocking({threads::FunctionRef(*bodies.back()), 1});
                }
            } catch (...) {
                err = true;
            }
            auto o2 = vd::ev("assigned");
            o2("t", vs::me->id)("j", j)("err", err)("took", s.op == 'A');
            vs::record(o2);
            if (err) {
                failed = true;
                if (s.op == 'A') { taken = true; }
            } else if (s.how != 0) {
                thrower = j;
            }
            if (s.op == 'B' && !err) {
                auto o3 = vd::ev("waited");
                o3("t", vs::me->id)("ok", w.is_okay());
                vs::record(o3);
            }
        } else if (s.op == 'W') {
            w.wait();
            bool ok = w.is_okay();
            failed = failed || !ok;
            auto o = vd::ev("waited");
            o("t", vs::me->id)("ok", ok);
            vs::record(o);
        }
        if (s.op == 'X' || (s.op == 'B' && failed && !taken && !down)) {
            w.wait();
            if (w.is_okay() || taken) { continue; }
            failed = taken = true;
            bool same = false;
            try { w.unsafe_get_exception(); }
            catch (const std::runtime_error& e) { same = std::string(e.what()).find("job " + std::to_string(thrower)) != std::string::npos; }
            catch (int j) { same = j == thrower; }
            catch (...) {}
            auto o = vd::ev("except");
            o("t", vs::me->id)("same", same);
            vs::record(o);
        }
        if (s.op == 'S') {
            bool err = false;
            try { w.shutdown(); } catch (...) { err = true; }
            taken = taken || err;
            down = true;
            auto o = vd::ev("shut");
            o("t", vs::me->id)("err", err)("live", live());
            vs::record(o);
        }
    }
    if (!down) {
        bool err = false;
        try { w.shutdown(); } catch (...) { err = true; }
        auto o = vd::ev("shut");
        o("t", vs::me->id)("err", err)("live", live());
        vs::record(o);
    }
}

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    vd::Log log(a.str("out", "/dev/stdout"));
    ex::Explorer x(log, a);
    auto none = [](vd::Obj&) {};
    if (a.num("part", 0) == 0) {
        std::vector<std::vector<Step>> plans{
            {}, {{'A', 0}}, {{'A', 1}, {'W', 0}}, {{'A', 0}, {'W', 0}, {'A', 0}, {'W', 0}}, {{'A', 0}, {'A', 0}},
            {{'A', 0}, {'A', 1}, {'A', 0}}, {{'A', 2}, {'X', 0}}, {{'B', 0}, {'A', 0}}, {{'S', 0}, {'S', 0}},
            {{'A', 0}, {'W', 0}, {'S', 0}, {'A', 0}}};
        for (auto& steps : plans) {
            for (size_t spin : {1, 2}) {
                Plan p{spin, steps};
                x.search([&]() { scenario(p); }, none, int(a.num("bound", 2)), size_t(a.num("budget", 500)));
            }
        }
    }
    vd::Rng r(uint64_t(a.num("seed", 1)));
    for (int64_t i = 0; i < a.num("plans", 100); ++i) {
        Plan p;
        p.spin = size_t(r.in(1, 4));
        int k = int(r.in(0, 6));
        for (int q = 0; q < k; ++q) {
            char op = r.pick({'A', 'A', 'A', 'W', 'W', 'B', 'X', 'S'});
            p.steps.push_back({op, (op == 'A' || op == 'B') && r.chance(25) ? int(r.in(1, 2)) : 0});
            if (op == 'S') {
                if (r.chance(50)) { p.steps.push_back({'A', 0}); }
                break;
            }
        }
        x.random([&]() { scenario(p); }, none, r, size_t(a.num("runs", 10)), true);
    }
    return 0;
}
