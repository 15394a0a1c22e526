// Runs scenarios under many schedules and logs each distinct execution once.
#pragma once
namespace ex {

struct Explorer {
    vd::Log& log;
    std::set<size_t> known;
    size_t runs = 0;
    size_t full; // executions logged with every synchronisation operation
    using More = std::function<void(vd::Obj&)>;

    Explorer(vd::Log& l, const vd::Args& a) : log{l}, full{size_t(a.num("full", 40))} {}

    void emit(const More& begin, bool ops) {
        auto o = vd::ev("begin");
        o("nt", vs::S.threads.size())("nv", vs::S.next_var + 1)("ops", ops);
        begin(o);
        auto head = o.done().s;
        // Only the order of what can be seen from outside tells executions apart.
        std::string all = head;
        for (auto& e : vs::S.events) { all += e; }
        if (!known.insert(std::hash<std::string>{}(all)).second) { return; }
        fprintf(log.f, "%s\n", head.c_str());
        for (auto& e : vs::S.events) { fprintf(log.f, "%s\n", e.c_str()); }
        fflush(log.f);
    }

    template <typename F> void once(F&& scenario, const More& begin, bool ops) {
        ++runs;
        vs::S.log_ops = ops;
        vs::S.on_stuck = [&](const char* why) {
            auto o = vd::ev("stuck");
            o("why", why);
            vs::record(o);
            emit(begin, ops);
        };
        vs::run_once([&]() {
            scenario();
            size_t live = 0;
            for (auto& t : vs::S.threads) { live += !t->finished && t->id != 0; }
            auto o = vd::ev("done");
            o("live", live);
            vs::record(o);
        });
        emit(begin, ops);
    }

    // Every schedule with at most `bound` preemptions, up to a budget of executions. The
    // first few, and one in ten after, are logged with every operation; the others only
    // with what can be seen from outside (which is what makes them repeat).
    template <typename F> void search(F&& scenario, const More& begin, int bound, size_t budget) {
        vs::S.mode = vs::Sched::Dfs;
        vs::S.bound = bound;
        vs::S.path.clear();
        vs::S.spurious = 0;
        for (size_t i = 0; i < budget; ++i) {
            once(scenario, begin, full > 0 && (i < 3 || i % (1 + budget / std::max<size_t>(full, 1)) == 0));
            if (!vs::advance()) { return; }
        }
    }

    template <typename F> void random(F&& scenario, const More& begin, vd::Rng& r, size_t count, bool ops) {
        vs::S.mode = vs::Sched::Random;
        for (size_t i = 0; i < count; ++i) {
            vs::S.rng = vd::Rng(r.next());
            vs::S.switch_pct = int(r.pick({2, 10, 30, 60, 90}));
            vs::S.spurious = r.chance(30) ? 2 : 0;
            once(scenario, begin, ops && i == 0);
        }
    }
};

} // namespace ex
