// A controlled scheduler for the library's concurrent code. Included before any library
// header, it replaces std::atomic, std::mutex, std::shared_mutex, std::condition_variable,
// std::thread, std::promise and std::future, as named by the library's sources, with
// versions that hand control to a scheduler at every operation: one thread runs at a time,
// and which one goes next is decided by a search (bounded preemptions) or by a seeded
// random choice. Every operation is recorded with its memory order. Nothing depends on how
// the library arranges these operations, only on what it does with them.
//
// The scheduler is sequentially consistent; weaker memory orders are judged afterwards by
// the specification, which computes happens-before from the recorded orders.
#pragma once
// Everything that may mention the real types comes first.
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <barrier>
#include <bit>
#include <cassert>
#include <charconv>
#include <chrono>
#include <cmath>
#include <complex>
#include <concepts>
#include <condition_variable>
#include <coroutine>
#include <cstring>
#include <deque>
#include <exception>
#include <execution>
#include <filesystem>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <latch>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <ranges>
#include <regex>
#include <semaphore>
#include <set>
#include <shared_mutex>
#include <span>
#include <sstream>
#include <stop_token>
#include <string>
#include <string_view>
#include <syncstream>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <fmt/ranges.h>
#include <fmt/std.h>
#include <spdlog/sinks/basic_file_sink.h>
#include <spdlog/sinks/callback_sink.h>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/sinks/stdout_sinks.h>
#include <spdlog/spdlog.h>
#include <toml++/toml.h>
#include <immintrin.h>
#include <unistd.h>

#include "common.h"

namespace vs {

constexpr int SPIN_LIMIT = 16;

struct Th {
    int id = 0;
    std::binary_semaphore sem{0};
    std::function<bool()> enabled;
    bool finished = false;
    int stale = 0;                 // consecutive operations that showed nothing new
    uint64_t stale_at = 0;         // the global write count then
    std::unordered_map<int, uint64_t> seen; // variable -> version last seen
    std::set<std::tuple<int, uint64_t, int>> logged;
    std::vector<std::function<void()>> at_exit;
};

struct Choice { int chosen, n; };

struct Sched {
    bool active = false;
    bool log_ops = false;
    std::vector<std::unique_ptr<Th>> threads;
    int current = 0;
    uint64_t writes = 0;
    int next_var = 0;
    int run = 0;
    size_t steps = 0;
    size_t max_steps = 400000;
    // Strategy
    enum Mode { Dfs, Random } mode = Random;
    std::vector<Choice> path; // Dfs: choices made; a prefix is replayed
    size_t depth = 0;
    int preemptions = 0, bound = 0;
    vd::Rng rng{1};
    int switch_pct = 30;
    int spurious = 0; // spurious wake-ups still allowed
    std::function<void(const char*)> on_stuck;
    std::vector<std::string> events;
};
inline Sched S;
inline thread_local Th* me = nullptr;

inline bool on() { return S.active && me != nullptr; }

inline void record(const vd::Obj& o) { S.events.push_back(o.done().s); }

[[noreturn]] inline void stuck(const char* why) {
    S.on_stuck(why);
    _exit(0); // the threads cannot be unwound
}

// Choose who goes next; `self_ok` says whether the calling thread can.
inline int choose(const std::vector<int>& options, bool self_ok) {
    if (options.size() == 1) { return options[0]; }
    if (S.mode == Sched::Random) {
        if (self_ok && !S.rng.chance(S.switch_pct)) { return S.current; }
        return options[size_t(S.rng.in(0, int64_t(options.size()) - 1))];
    }
    // The running thread first.
    std::vector<int> opts;
    if (self_ok) { opts.push_back(S.current); }
    for (int o : options) { if (!self_ok || o != S.current) { opts.push_back(o); } }
    int n = int(opts.size());
    if (self_ok && S.preemptions >= S.bound) { n = 1; }
    int c = 0;
    if (n > 1) {
        if (S.depth < S.path.size()) { c = S.path[S.depth].chosen; }
        else { S.path.push_back({0, n}); }
        S.depth++;
    }
    if (c >= n) { c = 0; }
    if (self_ok && c > 0) { S.preemptions++; }
    return opts[size_t(c)];
}

inline void hand_over(bool self_ok_possible) {
    std::vector<int> options;
    bool self_ok = false;
    for (auto& t : S.threads) {
        if (t->finished) { continue; }
        if (t->id == S.current && !self_ok_possible) { continue; }
        if (!t->enabled || t->enabled()) {
            options.push_back(t->id);
            if (t->id == S.current) { self_ok = true; }
        }
    }
    if (options.empty()) { stuck("no thread can go on"); }
    if (++S.steps > S.max_steps) { stuck("no end"); }
    int next = choose(options, self_ok);
    if (next == S.current) { return; }
    Th* mine = me;
    S.current = next;
    S.threads[size_t(next)]->sem.release();
    if (!mine->finished) { mine->sem.acquire(); }
}

inline bool fresh_possible(Th* t) { return t->stale < SPIN_LIMIT || S.writes != t->stale_at; }

// A scheduling point: returns when this thread may go on and `enabled` holds.
template <typename F> void point(F&& enabled) {
    Th* t = me;
    t->enabled = [t, enabled]() { return fresh_possible(t) && enabled(); };
    hand_over(true);
    t->enabled = nullptr;
}
inline void point() { point([]() { return true; }); }
inline void yield() { if (on()) { point(); } }

inline void progressed() { me->stale = 0; }
inline void wrote() { S.writes++; progressed(); }

inline const char* order_name(std::memory_order o) {
    switch (o) {
        case std::memory_order_relaxed: return "rlx";
        case std::memory_order_consume:
        case std::memory_order_acquire: return "acq";
        case std::memory_order_release: return "rel";
        case std::memory_order_acq_rel: return "ar";
        default: return "sc";
    }
}
inline void op(const char* k, int v, std::memory_order o) {
    if (!S.log_ops) { return; }
    vd::Obj x;
    x("e", "op")("t", me->id)("k", k)("v", v)("o", order_name(o));
    record(x);
}
inline void op(const char* k, int v) {
    if (!S.log_ops) { return; }
    vd::Obj x;
    x("e", "op")("t", me->id)("k", k)("v", v)("o", "sc");
    record(x);
}

struct Var {
    int id = -1;
    int run = -1;
    uint64_t version = 0;
    int name() {
        if (id < 0 || run != S.run) { id = S.next_var++; run = S.run; }
        return id;
    }
    // A read that found this version.
    void seen(std::memory_order o) {
        auto it = me->seen.find(name());
        bool known = it != me->seen.end() && it->second == version;
        me->seen[id] = version;
        if (known) {
            if (me->stale == 0 || S.writes != me->stale_at) { me->stale = 0; me->stale_at = S.writes; }
            me->stale++;
        } else {
            progressed();
        }
        if (me->logged.insert({id, version, int(o)}).second) { op("load", id, o); }
    }
    void changed(const char* k, std::memory_order o) {
        version++;
        me->seen[name()] = version;
        wrote();
        op(k, id, o);
    }
};

inline std::memory_order load_part(std::memory_order o) {
    switch (o) {
        case std::memory_order_acq_rel: return std::memory_order_acquire;
        case std::memory_order_release: return std::memory_order_relaxed;
        default: return o;
    }
}

} // namespace vs

namespace std {

template <typename T> class verif_atomic {
    std::atomic<T> v_;
    mutable vs::Var var_;

  public:
    using value_type = T;
    static constexpr bool is_always_lock_free = std::atomic<T>::is_always_lock_free;
    verif_atomic() noexcept : v_{T()} {}
    verif_atomic(T x) noexcept : v_{x} {}
    verif_atomic(const verif_atomic&) = delete;
    verif_atomic& operator=(const verif_atomic&) = delete;
    bool is_lock_free() const { return v_.is_lock_free(); }

    T load(std::memory_order o = std::memory_order_seq_cst) const {
        if (!vs::on()) { return v_.load(o); }
        vs::point();
        T x = v_.load();
        var_.seen(o);
        return x;
    }
    void store(T x, std::memory_order o = std::memory_order_seq_cst) {
        if (!vs::on()) { v_.store(x, o); return; }
        vs::point();
        v_.store(x);
        var_.changed("store", o);
        vs::point();
    }
    template <typename F> T rmw(F&& f, std::memory_order o) {
        vs::point();
        T old = v_.load();
        T x = f(old);
        v_.store(x);
        if (std::memcmp(&old, &x, sizeof(T)) == 0) {
            // The same value again: nothing for anyone to notice, but it synchronises.
            auto s = me_stale();
            var_.changed("rmw", o);
            restore(s);
        } else {
            var_.changed("rmw", o);
        }
        vs::point();
        return old;
    }
    T exchange(T x, std::memory_order o = std::memory_order_seq_cst) {
        if (!vs::on()) { return v_.exchange(x, o); }
        return rmw([x](T) { return x; }, o);
    }
    bool compare_exchange_strong(T& e, T x, std::memory_order o = std::memory_order_seq_cst) {
        return cas(e, x, o, vs::load_part(o));
    }
    bool compare_exchange_strong(T& e, T x, std::memory_order s, std::memory_order f) { return cas(e, x, s, f); }
    bool compare_exchange_weak(T& e, T x, std::memory_order o = std::memory_order_seq_cst) {
        return cas(e, x, o, vs::load_part(o));
    }
    bool compare_exchange_weak(T& e, T x, std::memory_order s, std::memory_order f) { return cas(e, x, s, f); }
    T fetch_add(T d, std::memory_order o = std::memory_order_seq_cst) {
        if (!vs::on()) { T old = v_.load(); while (!v_.compare_exchange_weak(old, T(old + d))) {} return old; }
        return rmw([d](T a) { return T(a + d); }, o);
    }
    T fetch_sub(T d, std::memory_order o = std::memory_order_seq_cst) {
        if (!vs::on()) { T old = v_.load(); while (!v_.compare_exchange_weak(old, T(old - d))) {} return old; }
        return rmw([d](T a) { return T(a - d); }, o);
    }
    T operator++() { return T(fetch_add(1) + 1); }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return T(fetch_sub(1) - 1); }
    T operator--(int) { return fetch_sub(1); }
    T operator+=(T d) { return T(fetch_add(d) + d); }
    T operator-=(T d) { return T(fetch_sub(d) - d); }
    operator T() const { return load(); }
    T operator=(T x) { store(x); return x; }
    // Waiting on a value.
    void wait(T old, std::memory_order o = std::memory_order_seq_cst) const {
        if (!vs::on()) { v_.wait(old, o); return; }
        while (load(o) == old) {}
    }
    void notify_one() { if (!vs::on()) { v_.notify_one(); } }
    void notify_all() { if (!vs::on()) { v_.notify_all(); } }

  private:
    static std::pair<int, uint64_t> me_stale() { return {vs::me->stale, vs::me->stale_at}; }
    static void restore(std::pair<int, uint64_t> s) {
        vs::S.writes--;
        if (s.first == 0 || s.second != vs::S.writes) { s = {0, vs::S.writes}; }
        vs::me->stale = s.first + 1;
        vs::me->stale_at = s.second;
    }
    bool cas(T& e, T x, std::memory_order s, std::memory_order f) {
        if (!vs::on()) { return v_.compare_exchange_strong(e, x, s, f); }
        vs::point();
        T cur = v_.load();
        if (std::memcmp(&cur, &e, sizeof(T)) == 0) {
            v_.store(x);
            var_.changed("rmw", s);
            vs::point();
            return true;
        }
        e = cur;
        var_.seen(f);
        return false;
    }
};

class verif_mutex {
    std::mutex m_;
    int owner_ = -1;
    vs::Var var_;
    friend class verif_condition_variable;

  public:
    constexpr verif_mutex() = default;
    verif_mutex(const verif_mutex&) = delete;
    verif_mutex& operator=(const verif_mutex&) = delete;
    void lock() {
        if (!vs::on()) { m_.lock(); return; }
        vs::point([this]() { return owner_ == -1; });
        take();
    }
    bool try_lock() {
        if (!vs::on()) { return m_.try_lock(); }
        vs::point();
        if (owner_ != -1) { var_.seen(std::memory_order_relaxed); return false; }
        take();
        return true;
    }
    void unlock() {
        if (!vs::on()) { m_.unlock(); return; }
        drop();
        vs::point();
    }

  private:
    void take() {
        owner_ = vs::me->id;
        var_.version++;
        vs::wrote();
        vs::op("lock", var_.name());
    }
    void drop() {
        owner_ = -1;
        var_.version++;
        vs::wrote();
        vs::op("unlock", var_.name());
    }
};

class verif_shared_mutex {
    std::shared_mutex m_;
    int writer_ = -1;
    int readers_ = 0;
    vs::Var var_;

  public:
    void lock() {
        if (!vs::on()) { m_.lock(); return; }
        vs::point([this]() { return writer_ == -1 && readers_ == 0; });
        writer_ = vs::me->id;
        vs::wrote();
        vs::op("lock", var_.name());
    }
    bool try_lock() {
        if (!vs::on()) { return m_.try_lock(); }
        vs::point();
        if (writer_ != -1 || readers_ > 0) { return false; }
        writer_ = vs::me->id;
        vs::wrote();
        vs::op("lock", var_.name());
        return true;
    }
    void unlock() {
        if (!vs::on()) { m_.unlock(); return; }
        writer_ = -1;
        vs::wrote();
        vs::op("unlock", var_.name());
        vs::point();
    }
    void lock_shared() {
        if (!vs::on()) { m_.lock_shared(); return; }
        vs::point([this]() { return writer_ == -1; });
        readers_++;
        vs::wrote();
        vs::op("rlock", var_.name());
    }
    bool try_lock_shared() {
        if (!vs::on()) { return m_.try_lock_shared(); }
        vs::point();
        if (writer_ != -1) { return false; }
        readers_++;
        vs::wrote();
        vs::op("rlock", var_.name());
        return true;
    }
    void unlock_shared() {
        if (!vs::on()) { m_.unlock_shared(); return; }
        readers_--;
        vs::wrote();
        vs::op("runlock", var_.name());
        vs::point();
    }
};

class verif_condition_variable {
    std::condition_variable_any c_;
    struct Waiter { int id; bool woken; };
    std::list<std::shared_ptr<Waiter>> waiters_;

  public:
    void notify_one() {
        if (!vs::on()) { c_.notify_one(); return; }
        vs::point();
        if (!waiters_.empty()) { waiters_.front()->woken = true; waiters_.pop_front(); }
        vs::wrote();
        vs::point();
    }
    void notify_all() {
        if (!vs::on()) { c_.notify_all(); return; }
        vs::point();
        for (auto& w : waiters_) { w->woken = true; }
        waiters_.clear();
        vs::wrote();
        vs::point();
    }
    template <typename L> void wait(L& lock) {
        if (!vs::on()) { c_.wait(lock); return; }
        vs::point();
        auto w = std::make_shared<Waiter>(Waiter{vs::me->id, false});
        waiters_.push_back(w);
        auto* m = lock.mutex();
        m->drop();
        vs::progressed();
        bool spurious = vs::S.spurious > 0 && vs::S.mode == vs::Sched::Random && vs::S.rng.chance(20);
        if (spurious) { vs::S.spurious--; }
        vs::point([w, m, spurious]() { return (w->woken || spurious) && m->owner_ == -1; });
        waiters_.remove(w);
        m->take();
    }
    template <typename L, typename P> void wait(L& lock, P pred) {
        while (!pred()) { wait(lock); }
    }
    template <typename L, typename D> std::cv_status wait_for(L& lock, const D& d) {
        if (!vs::on()) { return c_.wait_for(lock, d); }
        lock.unlock();
        vs::point();
        lock.lock();
        return std::cv_status::timeout;
    }
    template <typename L, typename D, typename P> bool wait_for(L& lock, const D& d, P pred) {
        if (!vs::on()) { return c_.wait_for(lock, d, pred); }
        if (pred()) { return true; }
        wait_for(lock, d);
        return pred();
    }
};

class verif_thread {
    std::thread t_;
    vs::Th* th_ = nullptr;

  public:
    using id = std::thread::id;
    using native_handle_type = std::thread::native_handle_type;
    verif_thread() noexcept = default;
    template <typename F, typename... A>
        requires(!std::is_same_v<std::remove_cvref_t<F>, verif_thread>)
    explicit verif_thread(F&& f, A&&... args) {
        if (!vs::on()) {
            t_ = std::thread(std::forward<F>(f), std::forward<A>(args)...);
            return;
        }
        auto fresh = std::make_unique<vs::Th>();
        th_ = fresh.get();
        th_->id = int(vs::S.threads.size());
        vs::S.threads.push_back(std::move(fresh));
        vs::op("create", th_->id);
        auto body = [th = th_](auto fn, auto... a) {
            vs::me = th;
            th->sem.acquire();
            vs::op("begin", th->id);
            std::invoke(std::move(fn), std::move(a)...);
            for (auto& e : th->at_exit) { e(); }
            th->at_exit.clear();
            vs::op("exit", th->id);
            th->finished = true;
            vs::wrote();
            vs::hand_over(false);
            vs::me = nullptr;
        };
        t_ = std::thread(body, std::decay_t<F>(std::forward<F>(f)), std::decay_t<A>(std::forward<A>(args))...);
        vs::wrote();
        vs::point();
    }
    verif_thread(verif_thread&& o) noexcept : t_{std::move(o.t_)}, th_{std::exchange(o.th_, nullptr)} {}
    verif_thread& operator=(verif_thread&& o) noexcept {
        t_ = std::move(o.t_);
        th_ = std::exchange(o.th_, nullptr);
        return *this;
    }
    bool joinable() const noexcept { return t_.joinable(); }
    void join() {
        if (vs::on() && th_ != nullptr) {
            auto* th = th_;
            vs::point([th]() { return th->finished; });
            vs::op("join", th->id);
        }
        t_.join();
        th_ = nullptr;
    }
    void detach() { t_.detach(); th_ = nullptr; }
    std::thread::id get_id() const noexcept { return t_.get_id(); }
    void swap(verif_thread& o) noexcept { std::swap(t_, o.t_); std::swap(th_, o.th_); }
    static unsigned hardware_concurrency() noexcept { return std::thread::hardware_concurrency(); }
};

namespace verif_detail {
template <typename T> struct FutState {
    using V = std::conditional_t<std::is_void_v<T>, char, T>;
    std::optional<V> value;
    std::exception_ptr error;
    bool ready = false, set = false;
    vs::Var var;
    std::mutex m;
    std::condition_variable c;
    void publish() {
        {
            std::lock_guard l{m};
            ready = true;
        }
        c.notify_all();
        if (vs::on()) { vs::wrote(); vs::op("store", var.name(), std::memory_order_release); }
    }
};
} // namespace verif_detail

template <typename T> class verif_future {
    std::shared_ptr<verif_detail::FutState<T>> s_;
    template <typename> friend class verif_promise;

  public:
    verif_future() = default;
    verif_future(verif_future&&) = default;
    verif_future& operator=(verif_future&&) = default;
    bool valid() const { return s_ != nullptr; }
    void wait() const {
        if (!s_) { throw std::future_error(std::future_errc::no_state); }
        if (vs::on()) {
            auto s = s_;
            vs::point([s]() { return s->ready; });
            vs::progressed();
            vs::op("load", s->var.name(), std::memory_order_acquire);
        } else {
            std::unique_lock l{s_->m};
            s_->c.wait(l, [&] { return s_->ready; });
        }
    }
    T get() {
        wait();
        auto s = std::move(s_);
        s_.reset();
        if (s->error) { std::rethrow_exception(s->error); }
        if constexpr (!std::is_void_v<T>) { return std::move(*s->value); }
    }
};

template <typename T> class verif_promise {
    std::shared_ptr<verif_detail::FutState<T>> s_ = std::make_shared<verif_detail::FutState<T>>();
    void claim() {
        if (!s_) { throw std::future_error(std::future_errc::no_state); }
        if (s_->set) { throw std::future_error(std::future_errc::promise_already_satisfied); }
        s_->set = true;
    }
    void at_exit() {
        if (vs::on()) { vs::me->at_exit.push_back([s = s_]() { s->publish(); }); }
        else { s_->publish(); }
    }

  public:
    verif_promise() = default;
    verif_promise(verif_promise&& o) noexcept = default;
    verif_promise& operator=(verif_promise&& o) noexcept { abandon(); s_ = std::move(o.s_); return *this; }
    ~verif_promise() { abandon(); }
    void abandon() {
        if (s_ && !s_->set) {
            s_->set = true;
            s_->error = std::make_exception_ptr(std::future_error(std::future_errc::broken_promise));
            s_->publish();
        }
        s_.reset();
    }
    verif_future<T> get_future() { verif_future<T> f; f.s_ = s_; return f; }
    void set_value() requires(std::is_void_v<T>) { claim(); s_->publish(); }
    void set_value_at_thread_exit() requires(std::is_void_v<T>) { claim(); at_exit(); }
    template <typename U> void set_value(U&& u) requires(!std::is_void_v<T>) { claim(); s_->value.emplace(std::forward<U>(u)); s_->publish(); }
    void set_exception(std::exception_ptr e) { claim(); s_->error = e; s_->publish(); }
    void set_exception_at_thread_exit(std::exception_ptr e) { claim(); s_->error = e; at_exit(); }
};

} // namespace std

#define atomic verif_atomic
#define mutex verif_mutex
#define shared_mutex verif_shared_mutex
#define condition_variable verif_condition_variable
#define thread verif_thread
#define promise verif_promise
#define future verif_future

namespace vs {

// Run a scenario once under the current strategy. The caller is thread 0. The scenario must
// join whatever it starts.
template <typename F> void run_once(F&& scenario) {
    S.threads.clear();
    S.threads.push_back(std::make_unique<Th>());
    me = S.threads[0].get();
    S.current = 0;
    S.writes = 0;
    S.next_var = 0;
    S.run++;
    S.steps = 0;
    S.depth = 0;
    S.preemptions = 0;
    S.events.clear();
    S.active = true;
    scenario();
    S.active = false;
    me = nullptr;
}

// The next schedule of the search, or false when there is none.
inline bool advance() {
    while (!S.path.empty()) {
        auto& c = S.path.back();
        if (c.chosen + 1 < c.n) {
            c.chosen++;
            return true;
        }
        S.path.pop_back();
    }
    return false;
}

} // namespace vs
