// Contents of datasets and graphs (core/data/simple.h, core/data/view.h, core/compact.h,
// core/graph/graph.h): random histories, everything read back after each call.
#include "common.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/lib/threads.h"

#include <algorithm>
#include <numeric>

using namespace svs;

template <typename D> static vd::J rows(const D& d) {
    std::string s = "[";
    for (size_t i = 0; i < d.size(); ++i) { s += (i ? "," : "") + vd::jr(d.get_datum(i)).s; }
    return vd::J::raw(s + "]");
}
template <typename D> static constexpr bool blocked = requires(D& d) { d.num_blocks(); };

template <typename D> struct DataWorld {
    using T = typename D::element_type;
    vd::Rng& r;
    vd::Log& log;
    size_t dims;
    std::vector<D> keep; // one element
    std::vector<bool> known;

    D& d() { return keep.front(); }
    int value() {
        if (std::is_unsigned_v<T>) { return r.in(0, 120); }
        return r.in(-100, 100);
    }
    template <typename U> std::vector<U> vec() {
        std::vector<U> v;
        for (size_t i = 0; i < dims; ++i) { v.push_back(U(value())); }
        return v;
    }
    void emit(vd::Obj& o) {
        std::string s = "[";
        for (size_t i = 0; i < d().size(); ++i) {
            s += (i ? "," : "") + (known[i] ? vd::jr(d().get_datum(i)).s : std::string("[]"));
        }
        const D& c = d();
        o("size", c.size())("dims", c.dimensions())("content", vd::J::raw(s + "]"));
        o("each", c.eachindex().size())("fits", c.capacity() >= c.size());
        log(o);
    }
    bool blank = false;
    template <typename U> void set_as(size_t i, const char* what) {
        auto v = vec<U>();
        if constexpr (std::is_same_v<U, T>) {
            if (r.chance(50)) { d().set_datum(i, v); } else { d().set_datum(i, lib::as_const_span(v)); }
        } else {
            d().set_datum(i, v);
        }
        known[i] = true;
        auto o = vd::ev("set");
        o("i", i)("v", vd::jr(v));
        o("as", what);
        emit(o);
    }
    void set(size_t i) {
        if constexpr (std::is_same_v<T, svs::Float16>) {
            if (r.chance(50)) { return set_as<float>(i, "float"); }
        } else if constexpr (std::is_same_v<T, float>) {
            if (r.chance(30)) { return set_as<svs::Float16>(i, "half"); }
            if (r.chance(30)) { return set_as<int8_t>(i, "int8"); }
        } else if constexpr (std::is_same_v<T, int8_t>) {
            if (r.chance(30)) { return set_as<int16_t>(i, "int16"); }
        }
        set_as<T>(i, "same");
    }
    void fill_unknown(int percent) {
        for (size_t i = 0; i < d().size(); ++i) {
            if (!known[i] && r.chance(percent)) { set(i); }
        }
    }
    void wrong_dims() {
        auto v = vec<T>();
        if (r.chance(50)) { v.push_back(T(1)); } else { v.pop_back(); }
        if (d().size() == 0) { return; }
        size_t i = r.in(0, d().size() - 1);
        bool ok = true;
        try { d().set_datum(i, v); } catch (const std::exception&) { ok = false; }
        auto o = vd::ev("wrongdims");
        o("i", i)("given", v.size())("ok", ok);
        emit(o);
    }
    void resize() {
        size_t n = d().size();
        size_t m;
        switch (r.in(0, 3)) {
            case 0: m = r.in(0, n); break;
            case 1: m = n + r.in(0, 9); break;
            case 2: m = n > 0 ? n - 1 : 1; break;
            default: m = n + 1;
        }
        d().resize(m);
        known.resize(m, false);
        auto o = vd::ev("resize");
        o("n", m);
        emit(o);
    }
    void fit() {
        d().shrink_to_fit();
        auto o = vd::ev("fit");
        emit(o);
    }
    void compact() {
        size_t n = d().size();
        std::vector<size_t> all(n);
        std::iota(all.begin(), all.end(), 0);
        r.shuffle(all);
        all.resize(r.chance(30) ? n : size_t(r.in(0, n)));
        std::sort(all.begin(), all.end());
        size_t batch = r.pick({1, 2, 3, 5, 8, 100});
        size_t nt = r.in(1, 3);
        if (n == 0) { return; }
        auto run = [&](auto idx) {
            using I = decltype(idx);
            std::vector<I> map(all.begin(), all.end());
            if (r.chance(30)) {
                d().compact(lib::as_const_span(map), batch);
                nt = 0;
            } else {
                auto pool = threads::NativeThreadPool(nt);
                d().compact(lib::as_const_span(map), pool, batch);
            }
        };
        if (r.chance(50)) { run(uint32_t(0)); } else { run(size_t(0)); }
        auto was = known;
        std::fill(known.begin(), known.end(), false);
        for (size_t i = 0; i < all.size(); ++i) { known[i] = was[all[i]]; }
        auto o = vd::ev("compact");
        o("map", all)("batch", batch)("nt", nt);
        emit(o);
    }
    D duplicate() {
        if constexpr (blocked<D>) {
            if (r.chance(70)) { return d().copy(); }
            return D(d());
        } else {
            return D(d());
        }
    }
    bool all_known() { return std::all_of(known.begin(), known.end(), [](bool b) { return b; }); }
    // The copy carries on (or the original does while the copy is overwritten).
    void copy() {
        auto c = duplicate();
        bool swap = r.chance(50);
        if (swap) { std::swap(c, d()); }
        for (size_t i = 0; i < c.size(); ++i) {
            if (r.chance(50)) { c.set_datum(i, vec<T>()); }
        }
        auto o = vd::ev("copy");
        emit(o);
        if (r.chance(30)) { // assigning over an existing one
            D other(r.in(0, 5), dims, d().get_allocator());
            other = d();
            std::swap(other, d());
            auto p = vd::ev("copy");
            emit(p);
        }
    }
    void compare() {
        if constexpr (!blocked<D>) {
            if (!all_known() || std::is_same_v<T, svs::Float16>) { return; }
            auto c = duplicate();
            bool change = r.chance(60) && c.size() > 0;
            std::vector<T> v;
            size_t i = 0;
            if (change) {
                i = r.in(0, c.size() - 1);
                v.assign(c.get_datum(i).begin(), c.get_datum(i).end());
                if (r.chance(80)) { v[r.in(0, dims - 1)] = T(value()); }
                c.set_datum(i, v);
            }
            auto o = vd::ev("equal");
            o("other", rows(c))("eq", d() == c);
            emit(o);
        }
    }
    void view() {
        size_t n = d().size();
        if (n == 0) { return; }
        std::vector<size_t> ids;
        size_t k = r.in(0, 6);
        for (size_t i = 0; i < k; ++i) { ids.push_back(r.in(0, n - 1)); }
        bool bad = r.chance(15);
        if (bad) {
            ids.push_back(n + r.in(0, 2));
            r.shuffle(ids);
        }
        std::string got = "[]";
        size_t size = 0;
        std::vector<size_t> parents;
        bool ok = true;
        try {
            auto v = data::make_const_view(d(), ids);
            size = v.size();
            got = "[";
            for (size_t i = 0; i < v.size(); ++i) {
                got += (i ? "," : "") + (ids[i] < n && known[ids[i]] ? vd::jr(v.get_datum(i)).s : std::string("[]"));
                parents.push_back(v.parent_id(i));
            }
            got += "]";
        } catch (const std::exception&) { ok = false; got = "[]"; }
        auto o = vd::ev("view");
        o("ids", ids)("ok", ok)("got", vd::J::raw(got))("vsize", size)("parents", parents);
        emit(o);
        if (!bad && !ids.empty()) {
            auto v = data::make_view(d(), ids);
            size_t j = r.in(0, ids.size() - 1);
            auto x = vec<T>();
            v.set_datum(j, x);
            known[ids[j]] = true;
            auto p = vd::ev("set");
            p("i", ids[j])("v", vd::jr(x))("as", "view");
            emit(p);
        }
    }
    void run(int64_t len) {
        auto o = vd::ev("data");
        known.assign(d().size(), false);
        o("n", d().size())("d", dims);
        emit(o);
        fill_unknown(90);
        for (int64_t k = 0; k < len; ++k) {
            switch (r.in(0, 11)) {
                case 0: case 1: case 2: resize(); fill_unknown(60); break;
                case 3: fit(); break;
                case 4: case 5: case 6: compact(); break;
                case 7: copy(); break;
                case 8: compare(); break;
                case 9: view(); break;
                case 10: wrong_dims(); break;
                default: if (d().size() > 0) { set(r.in(0, d().size() - 1)); }
            }
        }
    }
};

template <typename T, size_t E> static void simple(vd::Rng& r, vd::Log& log, int64_t len) {
    size_t dims = E == Dynamic ? size_t(r.in(1, 5)) : E;
    using D = data::SimpleData<T, E>;
    DataWorld<D> w{r, log, dims, {}, {}};
    w.keep.emplace_back(size_t(r.in(0, 12)), dims);
    w.run(len);
}
template <typename T, size_t E> static void blocks(vd::Rng& r, vd::Log& log, int64_t len) {
    size_t dims = E == Dynamic ? size_t(r.in(1, 5)) : E;
    using A = lib::Allocator<T>;
    using D = data::BlockedData<T, E, A>;
    // Room for 1 to 16 vectors in a block.
    size_t bytes = sizeof(T) * dims * r.pick({1, 2, 3, 4, 8, 16});
    data::BlockingParameters p;
    p.blocksize_bytes = lib::prevpow2(2 * bytes - 1);
    if (r.chance(10)) { p.blocksize_bytes = lib::PowerOfTwo(12); }
    DataWorld<D> w{r, log, dims, {}, {}};
    w.keep.emplace_back(size_t(r.in(0, 20)), dims, data::Blocked<A>(p));
    w.run(len);
}

template <typename G> struct GraphWorld {
    using I = typename G::index_type;
    vd::Rng& r;
    vd::Log& log;
    size_t degree;
    G g;

    void emit(vd::Obj& o) {
        std::string s = "[";
        std::vector<size_t> degrees;
        for (size_t i = 0; i < g.n_nodes(); ++i) {
            s += (i ? "," : "") + vd::jr(g.get_node(I(i))).s;
            degrees.push_back(g.get_node_degree(I(i)));
        }
        o("n", g.n_nodes())("max", g.max_degree())("lists", vd::J::raw(s + "]"))("degrees", degrees);
        // Membership of every pair.
        std::vector<std::vector<size_t>> has;
        s = "[";
        for (size_t i = 0; i < g.n_nodes(); ++i) {
            std::vector<size_t> v;
            for (size_t j = 0; j < g.n_nodes(); ++j) {
                if (g.has_edge(I(i), I(j))) { v.push_back(j); }
            }
            s += (i ? "," : "") + vd::j(v).s;
        }
        o("has", vd::J::raw(s + "]"));
        log(o);
    }
    void step() {
        size_t n = g.n_nodes();
        if (n == 0) { return; }
        size_t src = r.in(0, n - 1), dst = r.in(0, n - 1);
        switch (r.in(0, 9)) {
            case 0: case 1: case 2: case 3: case 4: {
                size_t ret = g.add_edge(I(src), I(dst));
                auto o = vd::ev("add");
                o("src", src)("dst", dst)("ret", ret);
                return emit(o);
            }
            case 5: case 6: case 7: {
                std::vector<I> all;
                for (size_t i = 0; i < n; ++i) { if (i != src) { all.push_back(I(i)); } }
                r.shuffle(all);
                all.resize(r.in(0, all.size()));
                if (r.chance(50)) { g.replace_node(I(src), all); } else { g.replace_node(I(src), lib::as_const_span(all)); }
                auto o = vd::ev("replace");
                o("src", src)("list", all);
                return emit(o);
            }
            case 8: {
                g.clear_node(I(src));
                auto o = vd::ev("clear");
                o("src", src);
                return emit(o);
            }
            default: {
                if constexpr (requires { g.add_node(); }) {
                    if (r.chance(70)) { // grow or shrink; what is new is cleared before use
                        size_t m = r.chance(50) ? n + r.in(1, 3) : r.in(1, n);
                        // Edges to nodes that go away have to go first.
                        for (size_t i = 0; i < m && i < n; ++i) {
                            auto l = g.get_node(I(i));
                            bool beyond = std::any_of(l.begin(), l.end(), [&](auto x) { return x >= m; });
                            if (beyond) {
                                g.clear_node(I(i));
                                auto o = vd::ev("clear");
                                o("src", i);
                                emit(o);
                            }
                        }
                        if (m == n + 1) { g.add_node(); } else { g.unsafe_resize(m); }
                        for (size_t i = n; i < m; ++i) { g.clear_node(I(i)); }
                        auto o = vd::ev("nodes");
                        o("m", m);
                        return emit(o);
                    }
                }
                if (r.chance(20)) {
                    g.reset();
                    auto o = vd::ev("reset");
                    return emit(o);
                }
                if constexpr (requires { g == g; }) {
                    G h = g;
                    auto what = vd::ev("geq");
                    size_t j = r.in(0, 2);
                    if (j == 1) { h.clear_node(I(src)); }
                    if (j == 2) { h.add_edge(I(src), I(dst)); }
                    std::string s = "[";
                    for (size_t i = 0; i < h.n_nodes(); ++i) { s += (i ? "," : "") + vd::jr(h.get_node(I(i))).s; }
                    what("other", vd::J::raw(s + "]"))("eq", r.chance(50) ? g == h : h == g);
                    return emit(what);
                }
            }
        }
    }
    void run(int64_t len) {
        auto o = vd::ev("graph");
        o("nodes", g.n_nodes())("deg", degree);
        emit(o);
        for (int64_t k = 0; k < len; ++k) { step(); }
    }
};

template <typename I> static void graph(vd::Rng& r, vd::Log& log, int64_t len) {
    size_t n = r.in(1, 9), deg = r.in(0, 6);
    using G = graphs::SimpleGraph<I, lib::Allocator<I>>;
    GraphWorld<G> w{r, log, deg, G(n, deg)};
    w.run(len);
}
template <typename I> static void bgraph(vd::Rng& r, vd::Log& log, int64_t len) {
    size_t n = r.in(1, 9), deg = r.in(0, 6);
    using G = graphs::SimpleBlockedGraph<I>;
    data::BlockingParameters p;
    p.blocksize_bytes = lib::prevpow2(2 * sizeof(I) * (deg + 1) * r.in(1, 4));
    typename G::data_type d(n, deg + 1, data::Blocked<HugepageAllocator<I>>(p));
    for (size_t i = 0; i < n; ++i) { d.get_datum(i).front() = 0; }
    GraphWorld<G> w{r, log, deg, G(std::move(d))};
    w.run(len);
}

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    vd::Rng r(a.num("seed", 1));
    vd::Log log(a.str("out", "/tmp/w/contents.nd"));
    int64_t len = a.num("len", 15);
    for (int64_t h = 0; h < a.num("n", 50); ++h) {
        switch (r.in(0, 13)) {
            case 0: simple<float, Dynamic>(r, log, len); break;
            case 1: simple<float, 3>(r, log, len); break;
            case 2: simple<int8_t, Dynamic>(r, log, len); break;
            case 3: simple<uint8_t, 5>(r, log, len); break;
            case 4: simple<svs::Float16, Dynamic>(r, log, len); break;
            case 5: simple<uint32_t, 2>(r, log, len); break;
            case 6: blocks<float, Dynamic>(r, log, len); break;
            case 7: blocks<float, 3>(r, log, len); break;
            case 8: blocks<int8_t, Dynamic>(r, log, len); break;
            case 9: blocks<svs::Float16, 4>(r, log, len); break;
            case 10: graph<uint32_t>(r, log, len * 2); break;
            case 11: r.chance(50) ? graph<uint8_t>(r, log, len * 2) : graph<uint64_t>(r, log, len * 2); break;
            case 12: bgraph<uint32_t>(r, log, len * 2); break;
            default: r.chance(50) ? bgraph<uint16_t>(r, log, len * 2) : bgraph<uint64_t>(r, log, len * 2);
        }
    }
    return 0;
}
