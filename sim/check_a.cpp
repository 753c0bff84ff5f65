// A01: operations during which an allocation fails.  I01: histories of complete
// and interrupted initialisations.  One thread; operator new is the seam.
#include "t_common.hpp"
#include <libff/common/profiling.hpp>
#include <fcntl.h>
#include <gmp.h>
#include <new>
#ifdef SIM_MT
#include "simrt.hpp"
static bool busy() { return simrt::inside(); }
static void fresh(void *p, size_t n) { simrt::forget_memory(p, n); }
#else
static bool busy() { return false; }
static void fresh(void *, size_t) {}
#endif

// ------------------------------------------------------ simulated allocator
// g_fail_at: which allocation of the window fails (1 is the first; 0: none);
// with g_from, every later one fails too.
static uint64_t g_n, g_fail_at, g_failed; static bool g_from, g_on, g_calm; static int64_t g_live, g_gmp_live;
static bool refuse() { if (!g_on || g_calm || busy()) return false; ++g_n; if (g_fail_at && (g_n == g_fail_at || (g_from && g_n > g_fail_at))) { ++g_failed; return true; } return false; }
// Blocks of the thread runtime itself neither fail nor count.
static void *obtain(size_t n) {
#ifdef SIM_MT
    uint64_t *p = (uint64_t *)malloc(n + 16); if (!p) return nullptr; p[0] = !busy(); p[1] = n; if (p[0]) ++g_live; fresh(p + 2, n); return p + 2;
#else
    void *p = malloc(n ? n : 1); if (p) ++g_live; return p;
#endif
}
static void give_back(void *v) {
    if (!v) return;
#ifdef SIM_MT
    uint64_t *p = (uint64_t *)v - 2; if (p[0]) --g_live; fresh(v, p[1]); free(p);
#else
    --g_live; free(v);
#endif
}
void *operator new(size_t n) { if (refuse()) throw std::bad_alloc(); void *p = obtain(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return refuse() ? nullptr : obtain(n); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { give_back(p); }
void operator delete[](void *p) noexcept { give_back(p); }
void operator delete(void *p, size_t) noexcept { give_back(p); }
void operator delete[](void *p, size_t) noexcept { give_back(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { give_back(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { give_back(p); }
static void *g_alloc(size_t n) { void *p = malloc(n); if (!p) abort(); ++g_gmp_live; return p; }
static void *g_realloc(void *p, size_t, size_t n) { p = realloc(p, n); if (!p) abort(); return p; }
static void g_free(void *p, size_t) { --g_gmp_live; free(p); }
#ifndef SIM_MT
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:print_stats=0:handle_abort=0"; }
#endif

namespace {
using namespace titems;
std::vector<std::string> raw;
void toggle(bool c) { g_calm = c; }
struct CalmInit { CalmInit() { calm = toggle; } } calm_init;
struct Window {         // the stretch in which allocations are counted and may fail
    Window(uint64_t at, bool from) { g_n = 0; g_failed = 0; g_fail_at = at; g_from = from; g_on = true; }
    ~Window() { g_on = false; }
};
// "k" result, "b" an allocation failure, "s" a failed stream, "x" another exception
std::string guarded(const Op &op, const P &p, uint64_t at, bool from) {
    std::string r; int how = 0; char what[200] = "";
    {   Window w(at, from);
        try { std::string s = op.f(p); r.swap(s); } catch (const std::bad_alloc &) { how = 1; } catch (const StreamFailed &) { how = 2; } catch (const std::exception &e) { how = 3; snprintf(what, sizeof what, "%s", e.what()); }
    }
    return how == 0 ? "k" + r : how == 1 ? "b" : how == 2 ? "s" : std::string("x") + what;
}
std::string digest(const Params &v) { std::string s; for (auto &k : v) { put(s, k.first); put(s, k.second); } return s; }
std::string params_of(const Curve &c) { return digest(c.params()); }
// the first parameter that differs
std::string difference(const std::string &a, const std::string &b) {
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) { std::string n = get(a, i), v = get(a, i), m = get(b, j), w = get(b, j); if (n != m || v != w) return n; }
    return "?";
}
void quiet() { libff::inhibit_profiling_info = true; libff::inhibit_profiling_counters = true; }
void plain_output() { text_device(); }

// ------------------------------------------------------------------- A01
std::string all_params; std::vector<const Op *> heavy, light, parallel;
std::string every_param() { std::string s; for (auto &c : curves()) s += params_of(c); return s; }
void prepare_a(int, char **) {
    mp_set_memory_functions(g_alloc, g_realloc, g_free); quiet();
    enroll_all(); for (auto &c : curves()) c.init();
    load_operands(raw); all_params = every_param();
    // which operations allocate at all (with some arguments)
    bool ok; std::string s = aside([] { plain_output(); std::string o; for (auto &op : ops()) { uint64_t m = 0; if (op.level == 1 || op.cost < 3) { sim::Rng g(5); P p; for (auto &w : p.w) w = g.next(); { std::string r = guarded(op, p, 0, false); } m = g_n; } else m = 9; o += m > 2 ? '1' : '0'; } return o; }, ok);
    if (!ok || s.size() != ops().size() + 1) sim::harness_error("the operations could not be tried (%s)", s.substr(0, 100).c_str());
    for (auto &op : ops()) if (op.level == 4 && (op.name.find(".multi_exp") != std::string::npos || op.name.find(".batch_exp") != std::string::npos)) parallel.push_back(&op);
    for (size_t i = 0; i < ops().size(); ++i) (s[i + 1] == '1' ? heavy : light).push_back(&ops()[i]);
}
struct Clean { std::string r; uint64_t n; int64_t live, gmp; };
Clean clean(const Op &op, const P &p) {
    bool ok; std::string s = aside([&] { int64_t l0 = g_live, m0 = g_gmp_live; std::string r = guarded(op, p, 0, false); uint64_t n = g_n; bool k = r[0] == 'k'; (void)k; size_t z = r.size(); int64_t l1 = g_live - (z > 15), m1 = g_gmp_live; std::string o; put(o, r); int64_t t[3] = {(int64_t)n, l1 - l0, m1 - m0}; o.append((char *)t, sizeof t); return o; }, ok);
    if (!ok) sim::violate("crash", "%s ended its process without any failing allocation", op.name.c_str());
    size_t i = 1; Clean c; c.r = get(s, i); int64_t t[3]; memcpy(t, s.data() + i, sizeof t); c.n = t[0]; c.live = t[1]; c.gmp = t[2]; return c;
}
const char *kind(const std::string &r) { return r[0] == 'k' ? "a result" : r[0] == 'b' ? "an allocation failure" : r[0] == 's' ? "a failed stream" : r.c_str() + 1; }
void unchanged(const Op &op, const char *when) {
    std::string now = every_param(); if (now != all_params) sim::violate("parameter-changed", "parameter %s changed by %s %s", difference(all_params, now).c_str(), op.name.c_str(), when);
    for (size_t i = 0; i < shared().size(); ++i) if (shared()[i]->dump() != raw[i]) sim::violate("operand-changed", "an operand changed by %s %s", op.name.c_str(), when);
}
void run_a() {
    plain_output(); sim::Budget budget(4000000000ull);
    unsigned rounds = 1 + sim::choose_w({5, 3, 1}); uint64_t total_failed = 0;
#ifdef SIM_MT
    simrt::Options o; o.max_threads = 1; simrt::configure(o); simrt::sim_clock().on_read = nullptr; unsigned threads = 2 + sim::choose(3);
#endif
    const Op *last = nullptr; std::vector<const Op *> plan; std::vector<P> with; std::vector<Clean> alone;
    for (unsigned r = 0; r < rounds; ++r) {
        const Op *op = last && sim::chance(1, 3) ? last : sim::choose_w({5, 1}) ? sim::pick(light) : sim::pick(heavy); last = op;
#ifdef SIM_MT
        if (sim::choose_w({4, 1}) == 0) op = sim::pick(parallel);
#endif
        P p; { sim::Rng g(sim::word32()); for (auto &w : p.w) w = g.next(); }
        plan.push_back(op); with.push_back(p); alone.push_back(clean(*op, p));
    }
#ifdef SIM_MT
    simrt::set_threads(threads);
#endif
    for (unsigned r = 0; r < rounds; ++r) {
        const Op *op = plan[r]; const P &p = with[r]; const Clean &c = alone[r];
        sim::ev("%s %llx: %llu allocations", op->name.c_str(), (unsigned long long)p.w[0], (unsigned long long)c.n);
        if (c.r[0] != 'k') sim::violate("failure", "%s failed without any failing allocation (%s)", op->name.c_str(), kind(c.r));
        if (!c.n) { sim::count("operations_without_allocation"); continue; }
        int64_t live0 = g_live, gmp0 = g_gmp_live; unsigned attempts = 1 + sim::choose_w({4, 2, 1, 1});
        for (unsigned a = 0; a < attempts; ++a) {
            uint64_t at = 1 + sim::choose(c.n); bool from = sim::chance(1, 3);
            sim::ev("allocation %llu fails%s", (unsigned long long)at, from ? ", and all after it" : "");
            std::string got = guarded(*op, p, at, from); total_failed += g_failed;
            sim::count(from ? "fault.allocations_fail_from_here_on" : "fault.allocation_fails", g_failed ? 1 : 0);
            sim::count(got[0] == 'k' ? "outcome.result" : got[0] == 'b' ? "outcome.bad_alloc" : got[0] == 's' ? "outcome.stream" : "outcome.other_exception");
            sim::ev("gave %s", kind(got));
            if (got[0] == 'k' && !same_outcome(*op, c.r, got)) sim::violate("wrong-result", "%s returned a wrong result when allocation %llu of %llu failed%s", op->name.c_str(), (unsigned long long)at, (unsigned long long)c.n, from ? " and all after it" : "");
            if (damaged) sim::violate("operand-lost", "%s: an allocation failed and %s of the caller no longer holds what it held", op->name.c_str(), damaged);
            unchanged(*op, "when an allocation failed");
        }
        { std::string again = guarded(*op, p, 0, false);
          if (!same_outcome(*op, c.r, again)) sim::violate("lasting-damage", "%s, repeated after an allocation failure, gave %s other than at first", op->name.c_str(), kind(again));
          sim::hash_bytes(again.data(), again.size()); }
        int64_t l1 = g_live - live0, m1 = g_gmp_live - gmp0;
        { std::string again = guarded(*op, p, 0, false); if (!same_outcome(*op, c.r, again)) sim::violate("lasting-damage", "%s, repeated twice after an allocation failure, gave %s other than at first", op->name.c_str(), kind(again)); }
        int64_t l2 = g_live - live0, m2 = g_gmp_live - gmp0;
        if (l2 > l1 || m2 > m1) sim::violate("leak", "%s: every call keeps %lld blocks and %lld of GMP's", op->name.c_str(), (long long)(l2 - l1), (long long)(m2 - m1));
        if (r == 0 && (l1 > c.live || m1 > c.gmp)) sim::violate("leak", "%s: %lld blocks and %lld of GMP's are left after an allocation failure", op->name.c_str(), (long long)(l1 - c.live), (long long)(m1 - c.gmp));
        unchanged(*op, "");
    }
#ifdef SIM_MT
    simrt::finish_counts(); sim::note_state(simrt::schedule_hash()); sim::hash_event(simrt::schedule_hash());
#endif
    sim::count("operations", rounds); sim::set_signature(sim::event_hash());
    if (total_failed) sim::nontrivial();
}
sim::Register ra({"A01", prepare_a, run_a});

// ------------------------------------------------------------------- I01
// In this check the parent never touches the library.
struct Base { std::string params; uint64_t allocs; };
std::vector<Base> base; std::vector<std::vector<const Op *>> ops_of; std::vector<std::string> operands;
void prepare_i(int, char **) {
    mp_set_memory_functions(g_alloc, g_realloc, g_free); quiet(); enroll_all();
    for (size_t k = 0; k < curves().size(); ++k) {
        Curve &c = curves()[k]; bool ok;
        std::string s = aside([&] { { Window w(0, false); c.init(); } uint64_t n = g_n; std::string o; put(o, std::to_string(n)); put(o, params_of(c)); for (size_t i = c.shared_from; i < c.shared_to; ++i) { shared()[i]->make(); put(o, shared()[i]->dump()); } return o; }, ok);
        if (!ok || s.empty() || s[0] != 'k') sim::harness_error("%s could not be initialised alone (%s)", c.name.c_str(), s.substr(0, 100).c_str());
        size_t i = 1; Base b; b.allocs = std::stoull(get(s, i)); b.params = get(s, i); base.push_back(b);
        for (size_t j = c.shared_from; j < c.shared_to; ++j) operands.push_back(get(s, i));
        std::vector<const Op *> v; for (auto &op : ops()) if (op.name.compare(0, c.name.size(), c.name) == 0) v.push_back(&op); ops_of.push_back(v);
    }
}
// operands, made in a process with this curve alone
void load(size_t k) { for (size_t i = curves()[k].shared_from; i < curves()[k].shared_to; ++i) shared()[i]->load(operands[i]); }
void run_i() {
    plain_output(); sim::Budget budget(4000000000ull);
    size_t C = curves().size(); std::vector<unsigned> st(C, 0); unsigned inits = 0, faults = 0, uses = 0;
    for (size_t k = 0; k < C; ++k) if (curves()[k].name == "gf") st[k] = 1;
    // some runs concern two curves, others all
    std::vector<size_t> cast; unsigned ncast = sim::choose_w({3, 2, 2}); for (unsigned k = 0; k < (ncast == 0 ? 2 : ncast == 1 ? 3 : C); ++k) cast.push_back(ncast == 2 ? k : sim::choose(C));
    std::vector<bool> loaded(C, false);
    // The whole history is drawn first: what an operation gives in a process with one curve alone
    // is found in children of this process while it has initialised nothing.
    struct Act { size_t k; unsigned what; uint64_t at; bool from; const Op *op; P p; std::string want; };
    std::vector<Act> acts(1 + sim::choose(9));
    for (auto &x : acts) {
        x.k = sim::pick(cast); x.what = sim::choose_w({4, 3, 3}); x.op = nullptr; const Curve &c = curves()[x.k];
        if (c.name == "gf") x.what = 2;
        if (x.what == 1) { x.at = 1 + sim::choose(base[x.k].allocs ? base[x.k].allocs : 1); x.from = sim::chance(1, 3); }
        if (x.what == 2) {
            x.op = sim::pick(ops_of[x.k]); sim::Rng g(sim::word32()); for (auto &w : x.p.w) w = g.next();
            bool ok; std::string s = aside([&] { c.init(); load(x.k); std::string o; put(o, attempt(*x.op, x.p)); return o; }, ok);
            if (!ok || s[0] != 'k') sim::violate("crash", "%s ended its process where only %s is initialised", x.op->name.c_str(), c.name.c_str());
            size_t i = 1; x.want = get(s, i);
        }
    }
    for (auto &x : acts) {
        size_t k = x.k; Curve &c = curves()[k];
        if (x.what == 2 && st[k] != 1) x.what = 0;
        if (x.what == 1) {
            bool threw = false, other = false;
            { Window w(x.at, x.from); try { c.init(); } catch (const std::bad_alloc &) { threw = true; } catch (const std::exception &) { other = true; } }
            sim::ev("init %s, allocation %llu fails%s: %s", c.name.c_str(), (unsigned long long)x.at, x.from ? " with all after it" : "", threw ? "bad_alloc" : other ? "exception" : "completed");
            if (g_failed) { ++faults; sim::count("fault.interrupted_initialisation"); }
            st[k] = threw || other ? 2 : 1; ++inits;
        } else if (x.what == 0) {
            sim::ev("init %s", c.name.c_str());
            try { c.init(); } catch (const std::exception &e) { sim::violate("failure", "initialising %s failed: %s", c.name.c_str(), e.what()); }
            st[k] = 1; ++inits;
        } else {
            if (!loaded[k]) { load(k); loaded[k] = true; }
            std::string got = attempt(*x.op, x.p); ++uses;
            sim::ev("%s %llx", x.op->name.c_str(), (unsigned long long)x.p.w[0]); sim::hash_bytes(got.data(), got.size());
            if (!same_outcome(*x.op, x.want, got)) sim::violate("other-result", "%s gave another result than where only %s is initialised", x.op->name.c_str(), c.name.c_str());
        }
        for (size_t j = 0; j < C; ++j) if (st[j] == 1) {
            std::string now = params_of(curves()[j]);
            if (now != base[j].params) sim::violate("other-parameters", "after this, parameter %s of %s is not that of a process that initialised only %s", difference(base[j].params, now).c_str(), curves()[j].name.c_str(), curves()[j].name.c_str());
        }
        uint64_t s = 0; for (size_t j = 0; j < C; ++j) s = s * 3 + st[j]; sim::note_state(s * 7 + k);
    }
    sim::count("initialisations", inits); sim::count("operations", uses);
    sim::set_signature(sim::event_hash()); if (inits > 1 || faults) sim::nontrivial();
}
sim::Register ri({"I01", prepare_i, run_i});
}
