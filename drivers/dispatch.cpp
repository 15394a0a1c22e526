// The dispatcher (lib/dispatcher.h): random sets of methods in random order, arguments whose
// match scores are chosen at run time, plus the library's own conversions.
#include "common.h"
#include "svs/lib/dispatcher.h"

#include <algorithm>
#include <optional>

using namespace svs;

// An argument that matches Target<k> with a score of its own choosing.
struct Scored {
    int64_t payload = 0;
    std::array<int64_t, 3> score{};
    bool flag = false;
};
template <int K> struct Target { int64_t payload; };
struct Yes { int64_t payload; }; // matched by a bool
static int64_t forced_calls = 0; // conversions of arguments that do not match

template <int K> struct lib::DispatchConverter<Scored, Target<K>> {
    static int64_t match(const Scored& x) { return x.score[K]; }
    static Target<K> convert(Scored x) { forced_calls += x.score[K] < 0; return {x.payload}; }
    static std::string description() { return "scored"; }
};
template <int K> struct lib::DispatchConverter<const Scored&, Target<K>> {
    static int64_t match(const Scored& x) { return x.score[K]; }
    static Target<K> convert(const Scored& x) { forced_calls += x.score[K] < 0; return {x.payload}; }
};
template <> struct lib::DispatchConverter<Scored, Yes> {
    static bool match(const Scored& x) { return x.flag; }
    static Yes convert(Scored x) { forced_calls += !x.flag; return {x.payload}; }
};
template <> struct lib::DispatchConverter<const Scored&, Yes> {
    static bool match(const Scored& x) { return x.flag; }
    static Yes convert(const Scored& x) { forced_calls += !x.flag; return {x.payload}; }
};

using Union = std::variant<Scored, int64_t, std::string>;

static std::vector<std::string> seen; // what the method called was given
static int64_t called = -1;

template <int K> static std::string show(const Target<K>& x) { return "T" + std::to_string(K) + ":" + std::to_string(x.payload); }
static std::string show(const Yes& x) { return "Y:" + std::to_string(x.payload); }
static std::string show(const Scored& x) { return "S:" + std::to_string(x.payload); }
static std::string show(int64_t x) { return "I:" + std::to_string(x); }
static std::string show(const std::string& x) { return "R:" + x; }
template <size_t N> static std::string show(lib::ExtentTag<N>) { return N == Dynamic ? std::string("E:dyn") : "E:" + std::to_string(N); }

template <typename T> struct Name;
template <int K> struct Name<Target<K>> { static std::string get() { return "T" + std::to_string(K); } };
template <> struct Name<Yes> { static std::string get() { return "Y"; } };
template <> struct Name<Scored> { static std::string get() { return "S"; } };
template <> struct Name<int64_t> { static std::string get() { return "I"; } };
template <> struct Name<std::string> { static std::string get() { return "R"; } };
template <size_t N> struct Name<lib::ExtentTag<N>> { static std::string get() { return N == Dynamic ? std::string("Edyn") : "E" + std::to_string(N); } };

template <typename... Ts> struct List {};
// By value, scored arguments may be moved to the method as they are; by reference they may not
// be copied, so that target does not exist there (a const reference does).
template <bool ByValue> struct Targets;
template <> struct Targets<true> {
    using First = List<Target<0>, Target<1>, Target<2>, Yes, Scored>;
    using Second = List<lib::ExtentTag<3>, lib::ExtentTag<5>, lib::ExtentTag<Dynamic>>;
    using Third = List<Target<0>, Target<1>, Target<2>, int64_t, std::string>;
};
template <> struct Targets<false> {
    using First = List<Target<0>, Target<1>, Target<2>, Yes, const Scored&>;
    using Second = List<lib::ExtentTag<3>, lib::ExtentTag<5>, lib::ExtentTag<Dynamic>>;
    using Third = List<Target<0>, Target<1>, Target<2>, const int64_t&, const std::string&>;
};

template <typename D> struct Maker {
    std::vector<std::string> name;
    std::function<void(D&, int64_t, bool)> add;
};
template <typename D, typename A, typename B, typename C> static Maker<D> maker() {
    return {{Name<std::remove_cvref_t<A>>::get(), Name<B>::get(), Name<std::remove_cvref_t<C>>::get()},
            [](D& d, int64_t id, bool docs) {
                auto f = [id](A a, B b, C c) -> int64_t {
                    called = id;
                    seen = {show(a), show(b), show(c)};
                    return 1000 + id;
                };
                if constexpr (std::is_same_v<A, Target<0>>) {
                    if (docs) { d.register_target(lib::dispatcher_build_docs, f); return; }
                }
                d.register_target(f);
            }};
}
template <typename D, typename... As, typename... Bs, typename... Cs>
static std::vector<Maker<D>> makers(List<As...>, List<Bs...>, List<Cs...>) {
    std::vector<Maker<D>> v;
    auto third = [&]<typename A, typename B>() { (v.push_back(maker<D, A, B, Cs>()), ...); };
    auto second = [&]<typename A>() { (third.template operator()<A, Bs>(), ...); };
    (second.template operator()<As>(), ...);
    return v;
}

static vd::J names(const std::vector<std::vector<std::string>>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { s += (i ? "," : "") + vd::j(v[i]).s; }
    return vd::J::raw(s + "]");
}
static Scored scored(vd::Rng& r) {
    Scored s;
    s.payload = r.in(0, 999);
    for (auto& x : s.score) { x = r.pick<int64_t>({-1, -7, 0, 0, 1, 2, 3, 9999, 10000, 10001, 1900000000}); }
    if (r.chance(40)) { for (auto& x : s.score) { x = r.in(0, 1); } }
    s.flag = r.chance(50);
    return s;
}
static vd::J show_arg(const Scored& s) {
    vd::Obj o;
    o("p", std::to_string(s.payload))("s", std::vector<int64_t>(s.score.begin(), s.score.end()))("flag", s.flag);
    return o.done();
}

template <bool ByValue, typename D> static void run(vd::Rng& r, vd::Log& log, const std::vector<Maker<D>>& all, int64_t calls) {
    D d;
    std::vector<std::vector<std::string>> methods;
    size_t n = r.chance(5) ? 0 : size_t(r.in(1, r.chance(50) ? 6 : 25));
    for (size_t i = 0; i < n; ++i) {
        const auto& m = r.pick(all);
        m.add(d, int64_t(i), r.chance(50));
        methods.push_back(m.name);
    }
    auto b = vd::ev("methods");
    b("methods", names(methods))("size", d.size());
    log(b);
    for (int64_t c = 0; c < calls; ++c) {
        Scored a = scored(r);
        lib::ExtentArg x(r.pick<size_t>({3, 3, 5, 5, 7, Dynamic}), r.chance(20));
        Union u;
        vd::Obj third;
        switch (r.in(0, 2)) {
            case 0: { auto s = scored(r); u = s; third("alt", "S")("val", show_arg(s)); break; }
            case 1: { int64_t v = r.in(0, 99); u = v; third("alt", "I")("val", std::to_string(v)); break; }
            default: { std::string v = "text" + std::to_string(r.in(0, 99)); u = v; third("alt", "R")("val", v); }
        }
        auto o = vd::ev("call");
        o("a", show_arg(a));
        {
            vd::Obj e;
            e("v", x.value_ == Dynamic ? std::string("dyn") : std::to_string(x.value_))("force", x.force_);
            o("b", e.done());
        }
        o("c", third.done());
        forced_calls = 0;
        auto [idx, score] = d.best_match(a, x, u);
        o("best", idx ? int64_t(*idx) : int64_t(-1));
        o("score", idx ? std::vector<int64_t>(score.begin(), score.end()) : std::vector<int64_t>{});
        o("has", d.has_match(a, x, u));
        called = -1;
        seen.clear();
        bool error = false;
        int64_t ret = -1;
        try {
            if constexpr (ByValue) { ret = d.invoke(Scored(a), lib::ExtentArg(x), Union(u)); }
            else { ret = d.invoke(a, x, u); }
        } catch (const std::exception&) { error = true; }
        o("called", called)("ret", ret)("error", error)("seen", seen)("forced", forced_calls);
        log(o);
    }
}

int main(int argc, char** argv) {
    vd::Args a(argc, argv);
    vd::Rng r(a.num("seed", 1));
    vd::Log log(a.str("out", "/tmp/w/dispatch.nd"));
    using V = lib::Dispatcher<int64_t, Scored, lib::ExtentArg, Union>;
    using C = lib::Dispatcher<int64_t, const Scored&, lib::ExtentArg, const Union&>;
    auto v = makers<V>(Targets<true>::First{}, Targets<true>::Second{}, Targets<true>::Third{});
    auto c = makers<C>(Targets<false>::First{}, Targets<false>::Second{}, Targets<false>::Third{});
    for (int64_t i = 0; i < a.num("n", 100); ++i) {
        if (r.chance(50)) { run<true>(r, log, v, 8); } else { run<false>(r, log, c, 8); }
    }
    return 0;
}
