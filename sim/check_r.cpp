// R01, R02: random draws from a simulated entropy source.
#include "r_items.hpp"
#include "simrt.hpp"
#include <libff/common/profiling.hpp>
#include <openssl/evp.h>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <stdexcept>
#include <unistd.h>
namespace ritems {
uint64_t prior = 1;
std::vector<Item *> &items() { static std::vector<Item *> v; return v; }
std::vector<Init> &inits() { static std::vector<Init> v; return v; }
std::vector<uint64_t> sha512_words(uint64_t idx, uint64_t iter) {
    unsigned char in[16], out[64]; memcpy(in, &idx, 8); memcpy(in + 8, &iter, 8); unsigned n = 64;
    EVP_Digest(in, 16, out, &n, EVP_sha512(), nullptr);
    std::vector<uint64_t> w(8); memcpy(w.data(), out, 64); return w;
}
}
namespace {
// What the entropy source delivers: 32-bit words from segments, then random ones.
struct Seg { unsigned kind; size_t len; uint32_t w; uint64_t seed; std::vector<uint32_t> words; };
struct Feed {
    std::vector<Seg> segs; uint64_t tail = 1; std::map<uint64_t, uint32_t> flips;
    uint64_t fail_at = ~0ull; bool fail_on = false;     // failure at that word (and every later one)
    uint64_t limit = 1u << 20;
    uint64_t used = 0, failed = 0, calls = 0;
    uint32_t at(uint64_t i) const {
        uint64_t k = i; uint32_t f = 0; auto it = flips.find(i); if (it != flips.end()) f = it->second;
        for (auto &s : segs) {
            if (k < s.len) {
                if (s.kind == 0) return s.w ^ f;
                if (s.kind == 1) return s.words[k % s.words.size()] ^ f;
                sim::Rng g(s.seed + (k << 20)); return (uint32_t)g.next() ^ f;
            }
            k -= s.len;
        }
        sim::Rng g(tail * 0x9E3779B97F4A7C15ull + i); return (uint32_t)(g.next() >> 13) ^ f;
    }
    uint32_t next() {
        ++calls;
        if (used >= fail_at && (fail_on || !failed)) { ++failed; throw std::runtime_error("simulated entropy failure"); }
        if (used >= limit) sim::violate("no-progress", "a draw asked for more than %llu words although acceptable ones had been delivered", (unsigned long long)limit);
        return at(used++);
    }
    void rewind() { used = failed = calls = 0; }
};
Feed *feeds[64]; Feed idle;
Feed &feed() { Feed *f = feeds[simrt::self()]; return f ? *f : idle; }
uint64_t prng_calls = 0; uint64_t prng_state = 1;
void take(void *p, size_t n) { unsigned char *c = (unsigned char *)p; while (n) { uint32_t w = feed().next(); size_t k = n < 4 ? n : 4; memcpy(c, &w, k); c += k; n -= k; } simrt::touch_write(p, 0); }
}
// ------------------------------------------------------------------ the seams
extern "C" {
unsigned _ZNSt13random_device9_M_getvalEv(void *) { return feed().next(); }
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const std::string &) {}
void _ZNSt13random_device7_M_finiEv(void *) {}
double _ZNKSt13random_device13_M_getentropyEv(const void *) { return 32; }
void randombytes_buf(void *p, size_t n) { take(p, n); }
uint32_t randombytes_random() { return feed().next(); }
uint32_t randombytes_uniform(uint32_t u) { if (u < 2) return 0; uint32_t m = (1u + ~u) % u, r; do r = feed().next(); while (r < m); return r % u; }
ssize_t getrandom(void *p, size_t n, unsigned) { try { take(p, n); } catch (...) { errno = EIO; return -1; } return n; }
int getentropy(void *p, size_t n) { try { take(p, n); } catch (...) { errno = EIO; return -1; } return 0; }
uint32_t arc4random() { return feed().next(); }
void arc4random_buf(void *p, size_t n) { take(p, n); }
int RAND_bytes(unsigned char *p, int n) { try { take(p, n); } catch (...) { return 0; } return 1; }
int RAND_priv_bytes(unsigned char *p, int n) { return RAND_bytes(p, n); }
// generators of the process: not entropy
int rand() noexcept { ++prng_calls; prng_state = prng_state * 6364136223846793005ull + 1442695040888963407ull; return (int)(prng_state >> 33); }
long random() noexcept { return rand(); }
void srand(unsigned s) noexcept { prng_state = s; }
void srandom(unsigned s) noexcept { prng_state = s; }
double drand48() noexcept { return rand() / 2147483648.0; }
long lrand48() noexcept { return rand(); }
int rand_r(unsigned *s) noexcept { ++prng_calls; *s = *s * 1103515245 + 12345; return *s & 0x7fffffff; }
}
namespace {
using namespace ritems;
void prepare(int, char **) {
    libff::inhibit_profiling_info = true; libff::inhibit_profiling_counters = true;
    for (auto i : inits()) i();
}
Item *pick_item(bool cheap_only = false) {
    for (;;) { Item *i = sim::pick(items()); if (!i->group()) return i; if (cheap_only) continue; return i; }
}
size_t cand_words(Item *it) { return it->comps() * it->comp_words(); }
std::string draw(Item *it, unsigned form, const std::string &ex) {
    std::string bad; std::string s = it->draw(form, ex, bad);
    if (!bad.empty()) sim::violate("invalid-element", "%s (form %u): %s", it->name().c_str(), form, bad.c_str());
    return s;
}
uint32_t special_word() { static const uint32_t w[] = {0xffffffffu, 0, 1, 0x80000000u, 0x7fffffffu, 0x55555555u, 0xfffffffeu}; unsigned k = sim::choose(9); return k < 7 ? w[k] : (uint32_t)sim::word32(); }
Seg constant(uint32_t w, size_t n) { Seg s; s.kind = 0; s.len = n; s.w = w; s.seed = 0; return s; }
Seg words(const std::vector<uint32_t> &v, size_t n) { Seg s; s.kind = 1; s.len = n; s.w = 0; s.seed = 0; s.words = v; return s; }
Seg noise(uint64_t seed, size_t n) { Seg s; s.kind = 2; s.len = n; s.w = 0; s.seed = seed; return s; }
// an arbitrary history of the source, boundary values included
Feed draw_feed(Item *it, size_t draws) {
    Feed f; f.tail = 1 + sim::word32(); unsigned n = sim::choose(5); auto b = it->boundary(); size_t total = 0;
    std::vector<uint32_t> pool; for (auto &c : b) for (auto w : c) pool.push_back(w);
    for (unsigned i = 0; i < n; ++i) {
        size_t cw = it->comp_words();
        switch (sim::choose(5)) {
        case 0: { size_t k = 1 + sim::choose_log(2000); f.segs.push_back(constant(special_word(), k)); break; }
        case 1: { auto &c = b[sim::choose(b.size())]; f.segs.push_back(words(c, cw * (1 + sim::choose_log(40)))); break; }
        case 2: { std::vector<uint32_t> v; size_t k = cw * (1 + sim::choose(6)); sim::Rng g(sim::word32()); for (size_t j = 0; j < k; ++j) v.push_back(pool[g.next() % pool.size()]); f.segs.push_back(words(v, k)); break; }
        case 3: f.segs.push_back(noise(sim::word32(), 1 + sim::choose(3 * cw))); break;
        default: { auto c = b[sim::choose(b.size())]; size_t i = sim::choose(c.size()); c[i] ^= 1u << sim::choose(32); f.segs.push_back(words(c, cw)); break; }
        }
        total += f.segs.back().len;
    }
    f.limit = total + 400 * cand_words(it) * draws + 4096;
    return f;
}
const char *forms[] = {"random_element", "randomize", "non_zero", "non_zero_one", "exclude"};

// ------------------------------------------------------------------------ R01
// Any history: the elements are valid, and the draw ends soon after acceptable words come.
void history() {
    Item *it = pick_item(); unsigned n = it->group() ? 1 : 1 + sim::choose(6); Feed f = draw_feed(it, n + 2); feeds[0] = &f;
    std::string ex; { Feed g; g.tail = 77; feeds[0] = &g; ex = draw(it, 0, ""); feeds[0] = &f; }
    // sometimes the excluded element is one the source is about to give
    if (it->has(4) && sim::chance(1, 3)) { auto c = it->constant(special_word()); if (!c.empty()) ex = c[sim::choose(c.size())]; }
    sim::ev("history %s segs=%zu", it->name().c_str(), f.segs.size());
    for (unsigned i = 0; i < n; ++i) {
        unsigned form = sim::choose(5); if (!it->has(form)) form = 0;
        std::string s = draw(it, form, ex); sim::ev("%s used=%llu", forms[form], (unsigned long long)f.used); sim::hash_bytes(s.data(), s.size());
        if (sim::chance(1, 3)) ex = s;
        sim::count("elements_drawn");
    }
    for (auto &s : f.segs) sim::count(s.kind == 0 ? "fault.entropy_stuck_at_a_word" : s.kind == 1 ? "fault.entropy_boundary_words" : "entropy_random_words");
    if (!f.segs.empty()) sim::nontrivial();
}
// A source that repeats one word: the candidate is known whatever order words are used in.
void stuck() {
    Item *it = pick_item(); uint32_t w = special_word(), w2 = special_word(); size_t c = cand_words(it);
    auto e = it->constant(w), e2 = it->constant(w2);
    sim::ev("stuck %s w=%08x then %08x", it->name().c_str(), w, w2);
    Feed f; f.tail = 5; feeds[0] = &f;
    if (!e.empty()) {
        f.segs.push_back(constant(w, 8 * c)); f.limit = 8 * c;
        std::string s = draw(it, 0, ""); bool ok = false; for (auto &x : e) ok |= x == s;
        if (!ok) sim::violate("candidate-altered", "%s: from a source repeating %08x the element is not that acceptable candidate", it->name().c_str(), w);
        if (f.used > 2 * c) sim::violate("candidate-skipped", "%s: %llu words used although the first %zu were an acceptable candidate", it->name().c_str(), (unsigned long long)f.used, c);
        sim::count("acceptable_stuck_words"); sim::nontrivial();
    } else {
        // unacceptable for k words, then (if acceptable) the second word
        size_t k = it->comp_words() * (1 + sim::choose_log(300)) + sim::choose(3);
        f.segs.push_back(constant(w, k)); f.limit = k + 400 * c + 4096; if (!e2.empty()) { f.segs.push_back(constant(w2, 8 * c)); f.limit = k + 4 * c; }
        std::string s = draw(it, 0, "");
        if (f.used + it->comp_words() <= k) sim::violate("unacceptable-used", "%s: a draw ended after %llu words, all of them unacceptable candidates", it->name().c_str(), (unsigned long long)f.used);
        (void)s; sim::count("fault.entropy_unacceptable_run"); sim::nontrivial();
    }
    sim::hash_event(f.used);
}
// The source fails at a drawn word.
void failing() {
    Item *it = nullptr; for (;;) { it = pick_item(); if (it->prime()) break; }
    Feed f = draw_feed(it, 2); feeds[0] = &f;
    std::string ex; { Feed g; g.tail = 78; feeds[0] = &g; ex = draw(it, 0, ""); feeds[0] = &f; }
    unsigned form = sim::choose(5); if (!it->has(form)) form = 0;
    std::string a = draw(it, form, ex); uint64_t need = f.calls;
    f.rewind(); f.fail_at = sim::choose(need); f.fail_on = sim::chance(1, 2);
    sim::ev("failing %s form=%s at %llu of %llu %s", it->name().c_str(), forms[form], (unsigned long long)f.fail_at, (unsigned long long)need, f.fail_on ? "for good" : "once");
    bool thrown = false; std::string bad;
    try { it->draw(form, ex, bad); } catch (const std::exception &) { thrown = true; }
    if (f.failed == 0) sim::harness_error("the failure was not met");
    if (!bad.empty()) sim::violate("element-after-failure", "%s: %s", it->name().c_str(), bad.c_str());
    if (!thrown) sim::violate("failure-hidden", "%s: the entropy source failed and the draw delivered an element", it->name().c_str());
    sim::count("fault.entropy_failure"); sim::nontrivial();
    // and once it works again, so do draws
    f.rewind(); f.fail_at = ~0ull; std::string b = draw(it, form, ex);
    if (b != a) sim::violate("draw-depends-on-history", "%s: after a failure of the source the same entropy gave another element", it->name().c_str());
}
// Every usable bit of the source matters.
void bits() {
    Item *it = pick_item(); size_t c = cand_words(it); Feed f; f.tail = 1 + sim::word32(); f.limit = 1000 * c + 4096; feeds[0] = &f;
    std::string a = draw(it, 0, ""); uint64_t used = f.used;
    size_t tries = it->group() ? 4 : it->comps() > 4 ? 24 : 64; size_t dead = 0, allowed = 0;
    // words of one component at a time: all bits of some words
    bool whole = !it->group() && used == c && it->comps() == 1;
    sim::ev("bits %s used=%llu", it->name().c_str(), (unsigned long long)used);
    if (whole) {
        for (uint64_t w = 0; w < used; ++w) for (unsigned b = 0; b < 32; ++b) { f.rewind(); f.flips.clear(); f.flips[w] = 1u << b; if (draw(it, 0, "") == a) ++dead; }
        allowed = 32 * it->comp_words() - it->comp_bits();
        if (dead > allowed) sim::violate("entropy-ignored", "%s: %zu bits of the source do not matter, %zu may", it->name().c_str(), dead, allowed);
        sim::count("entropy_bits_flipped", used * 32);
    } else if (used == c) {
        std::set<std::pair<uint64_t, unsigned>> seen;
        for (size_t k = 0; k < tries; ++k) { uint64_t w = sim::choose(used); unsigned b = sim::choose(32); if (!seen.insert({w, b}).second) continue; f.rewind(); f.flips.clear(); f.flips[w] = 1u << b; if (draw(it, 0, "") == a) ++dead; }
        allowed = it->comps() * (32 * it->comp_words() - it->comp_bits());
        if (dead > allowed) sim::violate("entropy-ignored", "%s: %zu of %zu bits of the source do not matter", it->name().c_str(), dead, seen.size());
        sim::count("entropy_bits_flipped", seen.size());
    }
    sim::nontrivial(); sim::hash_bytes(a.data(), a.size());
}
// No region of the field is favoured.
void spread() {
    Item *it = nullptr; do it = pick_item(true); while (it->comps() > 1);
    Feed f; f.tail = 1 + sim::word32(); f.limit = ~0ull; feeds[0] = &f;
    unsigned form = sim::choose_w({4, 1, 1, 1}); const unsigned n = 1600; double cnt[2][16] = {}; std::set<std::string> seen;
    std::string ex = draw(it, 0, "");
    sim::ev("spread %s %s", it->name().c_str(), forms[form]);
    for (unsigned i = 0; i < n; ++i) {
        std::string s = draw(it, form, ex); if (it->comp_bits() > 100 && !seen.insert(s).second) sim::violate("repeated-element", "%s: distinct entropy gave the same element twice", it->name().c_str());
        for (unsigned h = 0; h < 2; ++h) cnt[h][it->bin(s, h) & 15] += 1;
    }
    for (unsigned h = 0; h < 2; ++h) {
        double chi = 0, e = n / 16.0; for (double x : cnt[h]) chi += (x - e) * (x - e) / e;
        sim::note_state((uint64_t)chi * 64 + h);
        if (chi > 130) sim::violate("favoured-region", "%s: the %s of %u elements from uniform entropy are spread with chi-squared %.0f over 16 regions", it->name().c_str(), h ? "values" : "internal forms", n, chi);
    }
    sim::count("elements_drawn", n); sim::nontrivial(); sim::hash_event(f.used);
}
void run_r01() {
    switch (sim::choose_w({8, 5, 5, 2, 1})) { case 0: history(); break; case 1: stuck(); break; case 2: failing(); break; case 3: bits(); break; default: spread(); }
}
// ------------------------------------------------------------------------ R02
struct Step { Item *it; unsigned form; bool sha; uint64_t idx; };
std::vector<Step> program(size_t n, bool groups) {
    std::vector<Step> p; for (size_t i = 0; i < n; ++i) {
        Step s; s.sha = sim::chance(1, 3); s.idx = 0; s.form = 0;
        if (s.sha) { do s.it = pick_item(true); while (!s.it->prime() || s.it->comps() > 1); static const uint64_t sp[] = {0, 1, ~0ull, 1ull << 63, 1ull << 32, 0xffffffffull}; s.idx = sim::chance(1, 2) ? sim::word() : sp[sim::choose(6)] + sim::choose(3); }
        else { s.it = pick_item(!groups || !sim::chance(1, 3)); s.form = sim::choose(5); if (!s.it->has(s.form)) s.form = 0; }
        p.push_back(s);
    }
    return p;
}
std::map<Item *, std::string> exes;
std::vector<std::string> execute(const std::vector<Step> &p, Feed &f) {
    std::vector<std::string> out;
    for (auto &s : p) {
        uint64_t before = f.used;
        if (s.sha) {
            std::string r = s.it->sha(s.idx); if (f.used != before) sim::violate("hash-generator-entropy", "the hash-based generator over %s used the entropy source", s.it->name().c_str());
            out.push_back(r);
        } else {
            std::string bad; std::string r = s.it->draw(s.form, exes[s.it], bad);
            if (!bad.empty()) sim::violate("invalid-element", "%s (form %u): %s", s.it->name().c_str(), s.form, bad.c_str());
            size_t need = (s.it->comps() * s.it->comp_bits() + 7) / 8;
            if ((f.used - before) * 4 < need) sim::violate("stale-entropy", "%s: a draw used %llu bytes of entropy, the element has %zu", s.it->name().c_str(), (unsigned long long)(f.used - before) * 4, need);
            out.push_back(r);
        }
    }
    return out;
}
void check_sha(const std::vector<Step> &p, const std::vector<std::string> &o) {
    for (size_t i = 0; i < p.size(); ++i) if (p[i].sha) { sim::count("hash_generator_calls"); if (o[i] != p[i].it->sha_model(p[i].idx)) sim::violate("hash-generator", "the hash-based generator over %s gave another element for index %llu than its definition", p[i].it->name().c_str(), (unsigned long long)p[i].idx); }
}
__attribute__((noinline)) void dirty_stack(uint64_t seed) { volatile uint64_t a[4096]; sim::Rng g(seed); for (auto &x : a) x = g.next(); }
std::vector<void *> held;
void disturb() {      // everything that must not matter
    auto &c = simrt::sim_clock(); c.real_ns += ((int64_t)sim::choose(3) - 1) * 86400000000000ll * (1 + sim::choose(1000)); c.mono_ns += sim::choose_log(1ull << 40); c.cpu_ns += sim::choose_log(1ull << 36); c.pid = 2 + sim::choose(1u << 22);
    srand((unsigned)sim::word32()); for (unsigned k = sim::choose(4); k--;) rand();
    dirty_stack(sim::word32()); ritems::prior = sim::word32();
    unsigned n = sim::choose(20); sim::Rng g(sim::word32()); for (unsigned i = 0; i < n; ++i) { size_t z = 16 << (g.next() % 8); void *p = operator new(z); memset(p, (int)g.next(), z); if (g.next() % 3) operator delete(p); else held.push_back(p); }
    for (unsigned k = sim::choose(4); k--;) { Item *it = pick_item(true); std::string s = it->work(sim::word32()); sim::hash_bytes(s.data(), s.size()); }
    sim::count("fault.environment_changed");
}
void run_r02() {
    simrt::Options o; o.max_threads = 2 + sim::choose(3); simrt::configure(o);
    simrt::sim_clock().on_read = nullptr;
    { Feed g; g.tail = 3; feeds[0] = &g; for (auto it : items()) if (it->has(4)) { exes[it] = draw(it, 0, ""); } }
    unsigned mode = sim::choose_w({1, 2});
    unsigned nt = mode == 0 ? 1 : 2 + sim::choose(3);
    std::vector<std::vector<Step>> ps; std::vector<Feed> fs(nt); std::vector<std::vector<std::string>> solo(nt), again(nt);
    for (unsigned t = 0; t < nt; ++t) {
        ps.push_back(program(1 + sim::choose(mode ? 4 : 8), mode == 0));
        Item *b = pick_item(true); fs[t] = draw_feed(b, 8); fs[t].limit = 1u << 22;
        // without endless runs of unacceptable words: the point here is who uses what
        if (mode) { fs[t].segs.clear(); fs[t].tail = 1 + sim::word32(); }
        sim::ev("thread %u: %zu draws", t, ps[t].size());
        for (auto &s : ps[t]) sim::hash_event(sim::fnv(s.it->name()) ^ s.form * 7 ^ s.idx);
    }
    for (unsigned t = 0; t < nt; ++t) { feeds[0] = &fs[t]; solo[t] = execute(ps[t], fs[t]); check_sha(ps[t], solo[t]); for (auto &r : solo[t]) sim::hash_bytes(r.data(), r.size()); }
    // distinct entropy, distinct elements
    for (unsigned t = 0; t < nt && mode; ++t) for (unsigned u = t + 1; u < nt; ++u) for (size_t i = 0; i < ps[t].size(); ++i) for (size_t j = 0; j < ps[u].size(); ++j)
        if (!ps[t][i].sha && !ps[u][j].sha && ps[t][i].it == ps[u][j].it && ps[t][i].it->comp_bits() > 100 && solo[t][i] == solo[u][j]) sim::violate("repeated-element", "%s: draws from distinct entropy gave the same element", ps[t][i].it->name().c_str());
    if (mode == 0) {
        for (unsigned r = 1 + sim::choose(2); r--;) {
            disturb(); fs[0].rewind(); feeds[0] = &fs[0]; again[0] = execute(ps[0], fs[0]);
            for (size_t i = 0; i < ps[0].size(); ++i) if (again[0][i] != solo[0][i]) sim::violate("not-from-entropy", "%s: the same entropy gave another element when clock, memory, generators and earlier work differed", ps[0][i].it->name().c_str());
            check_sha(ps[0], again[0]);
        }
        sim::nontrivial();
    } else {
        std::vector<std::function<void()>> th;
        for (unsigned t = 0; t < nt; ++t) { fs[t].rewind(); th.push_back([&, t] { feeds[simrt::self()] = &fs[t]; again[t] = execute(ps[t], fs[t]); }); }
        simrt::run_threads(th);
        for (unsigned t = 0; t < nt; ++t) { for (size_t i = 0; i < ps[t].size(); ++i) if (again[t][i] != solo[t][i]) sim::violate("threads-mixed-up", "%s: drawn concurrently, the same entropy gave another element", ps[t][i].it->name().c_str()); check_sha(ps[t], again[t]); }
        if (simrt::switches() > 1) sim::nontrivial();
    }
    simrt::finish_counts(); sim::note_state(simrt::schedule_hash()); sim::hash_event(simrt::schedule_hash());
}
sim::Register r1({"R01", prepare, run_r01}), r2({"R02", prepare, run_r02, "two runs of the same history of entropy and environment differ: the elements depend on something that is not the entropy source"});
}
