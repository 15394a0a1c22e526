// Graph construction with several threads under the controlled scheduler (vsched.h): the
// same input under many schedules, the distinct graphs recorded.
#include "vsched.h"
#include "svs/lib/preprocessor.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/index.h"

#include "explore.h"

using namespace svs;
using vd::Rng;
namespace vam = index::vamana;
using Dist_ = distance::DistanceL2;
using Data = data::SimpleData<float>;
using Lists = std::vector<std::vector<uint32_t>>;

// Adding an edge reads the list, lets the others run, and writes the list back: additions to
// one vertex that are not kept apart lose edges here as they may in memory.
struct SlowGraph {
    using G = graphs::SimpleGraph<uint32_t>;
    using index_type = G::index_type;
    using reference = G::reference;
    using const_reference = G::const_reference;
    using value_type = G::value_type;
    using const_value_type = G::const_value_type;
    std::shared_ptr<G> p;
    SlowGraph(size_t n, size_t deg) : p{std::make_shared<G>(n, deg)} {}
    const_reference get_node(uint32_t i) const { return std::as_const(*p).get_node(i); }
    size_t get_node_degree(uint32_t i) const { vs::yield(); return p->get_node_degree(i); }
    bool has_edge(uint32_t a, uint32_t b) const { return p->has_edge(a, b); }
    void prefetch_node(uint32_t) const {}
    void clear_node(uint32_t i) { p->clear_node(i); }
    void replace_node(uint32_t i, const std::vector<uint32_t>& x) { vs::yield(); p->replace_node(i, x); }
    void replace_node(uint32_t i, std::span<const uint32_t> x) { vs::yield(); p->replace_node(i, x); }
    size_t add_edge(uint32_t a, uint32_t b) {
        auto now = get_node(a);
        std::vector<uint32_t> copy(now.begin(), now.end());
        vs::yield();
        p->replace_node(a, copy);
        return p->add_edge(a, b);
    }
    size_t max_degree() const { return p->max_degree(); }
    size_t n_nodes() const { return p->n_nodes(); }
    void reset() { p->reset(); }
};

template <typename V> static vd::J rows(const V& v) {
    std::vector<vd::J> o;
    for (auto& x : v) { o.push_back(vd::j(x)); }
    return vd::j(o);
}
static bool tie_free(const std::vector<std::vector<int>>& v) {
    for (auto& a : v) {
        std::set<int> seen;
        for (auto& b : v) {
            int s = 0;
            for (size_t i = 0; i < a.size(); ++i) { s += (a[i] - b[i]) * (a[i] - b[i]); }
            if (!seen.insert(s).second) { return false; }
        }
    }
    return true;
}

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    vd::Log log(a.str("out", "/dev/stdout"));
    Rng r(uint64_t(a.num("seed", 1)));
    for (int64_t c = 0; c < a.num("n", 6); ++c) {
        bool exact = r.chance(60);
        size_t n = size_t(exact ? r.in(41, 60) : r.in(90, 160));
        std::vector<std::vector<int>> v;
        do {
            v.clear();
            for (size_t i = 0; i < n; ++i) {
                int range = exact ? 124 : 3;
                v.push_back({int(r.in(0, range)), int(r.in(0, range)), int(r.in(0, range))});
            }
        } while (exact && !tie_free(v));
        size_t deg = exact ? n : size_t(r.in(1, 4));
        size_t prune_to = exact ? size_t(r.in(1, 4)) : deg;
        size_t window = size_t(r.in(2, 6)), pool = size_t(r.in(2, 12));
        bool full = r.chance(50);
        std::vector<int> al = r.pick({std::vector<int>{1, 1}, std::vector<int>{5, 4}, std::vector<int>{3, 2}});
        uint32_t ep = uint32_t(r.in(0, int64_t(n) - 1));
        size_t threads = size_t(r.in(2, 4));
        auto prm = vam::VamanaBuildParameters{float(al[0]) / float(al[1]), deg, window, pool, prune_to, full};
        std::vector<Lists> graphs;
        bool stuck = false;
        for (int64_t k = 0; k < a.num("runs", 10) && !stuck; ++k) {
            vs::S.mode = vs::Sched::Random;
            vs::S.max_steps = 20000000;
            vs::S.rng = Rng(r.next());
            vs::S.switch_pct = int(r.pick({5, 20, 50, 90}));
            vs::S.on_stuck = [&](const char* why) { log(vd::ev("stuck")("why", why)); };
            Lists out;
            vs::run_once([&]() {
                Data d(n, 3);
                for (size_t i = 0; i < n; ++i) { d.set_datum(i, std::vector<float>(v[i].begin(), v[i].end())); }
                SlowGraph g(n, deg);
                auto idx = vam::VamanaIndex<SlowGraph, Data, Dist_>(prm, g, std::move(d), ep, Dist_{}, threads::NativeThreadPool(threads));
                for (size_t i = 0; i < n; ++i) {
                    auto s = g.get_node(uint32_t(i));
                    out.emplace_back(s.begin(), s.end());
                }
            });
            if (exact) { for (auto& l : out) { std::sort(l.begin(), l.end()); } }
            if (std::find(graphs.begin(), graphs.end(), out) == graphs.end()) { graphs.push_back(out); }
        }
        std::vector<vd::J> gs;
        for (auto& g : graphs) { gs.push_back(rows(g)); }
        vd::Obj p;
        p("deg", deg)("window", window)("pool", pool)("pruneTo", prune_to)("full", full)("alpha", al);
        log(vd::ev("builds")("kind", "L2")("vecs", rows(v))("ep", ep)("prm", p.done())("threads", threads)("exact", exact)("gs", gs));
    }
    return 0;
}
