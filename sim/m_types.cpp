// M01, M02: the batch and parallel routines, over the toy groups and one curve.
// Built with the library's flags and instrumentation.
#include "curves.hpp"
#include "toy.hpp"
#ifndef SIM_TOY
#include "refgroup.hpp"
#endif
#include "m_items.hpp"
#include "simrt.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#include <libff/algebra/scalar_multiplication/wnaf.hpp>
#include <libff/algebra/field_utils/field_utils.hpp>
#ifdef SIM_TOY
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>
#endif
using namespace libff;
namespace {
using mitems::Group;
// raw bytes of a vector, to see that inputs stay as they were
template<class T> uint64_t raw(const std::vector<T> &v) { return sim::fnv(v.data(), v.size() * sizeof(T)); }

// ------------------------------------------------------- kinds of groups
template<class T> struct Kind;      // scalar field, making elements, the sum of multiples
#ifdef SIM_TOY
template<class F> struct Kind<toy::Toy<F>> {
    typedef toy::Toy<F> T; typedef F S; static const bool cheap = true; static const size_t maxn = 70;
    static T make(bool special) { unsigned k = sim::choose_w({6, 1, 2}); uint64_t s = sim::word32(); F v = k == 1 ? F::zero() : k == 2 ? F((long)(s % 7)) : gen::Value<F>::from(3, s | 1); return T(v, special ? 0 : s % 5); }
    static T sum(const std::vector<T> &b, const std::vector<F> &s) { F r = F::zero(); for (size_t i = 0; i < b.size(); ++i) r = r + b[i].v * s[i]; return T(r, 0); }
    static T mul(const T &b, const F &s) { return T(b.v * s, 0); }
    typedef T R; static bool same(const T &t, const R &r) { return t == r; }
    static T tospecial(T t) { t.rep = 0; return t; }
    static T neg(const T &t) { return T(-t.v, t.rep); }
    static std::string bad(const T &) { return ""; }
};
#else
template<class G> struct Kind {
    typedef G T; typedef typename G::scalar_field S; static const bool cheap = false; static const size_t maxn = 14;
    static T make(bool special) { T p = gen::make_point<G>(); if (special) p.to_special(); return p; }
    typedef ref::Pt<G> R;
    static R mul(const T &b, const S &s) { return ref::times(R(b), s.as_bigint()); }
    static R sum(const std::vector<T> &b, const std::vector<S> &s) { R r; for (size_t i = 0; i < b.size(); ++i) r = r + mul(b[i], s[i]); return r; }
    static bool same(const T &t, const R &r) { return R(t) == r; }
    static T tospecial(T t) { t.to_special(); return t; }
    static T neg(const T &t) { return -t; }
    static std::string bad(const T &t) { return t.is_well_formed() ? "" : "result is not on the curve"; }
};
#endif

template<class S> std::vector<S> scalars(size_t n) {
    unsigned style = sim::choose_w({4, 2, 2, 2, 2});
    std::vector<S> v; uint64_t seed = sim::word32(); sim::Rng g(seed);
    S base = gen::Value<S>::from(3, g.next() >> 32);
    for (size_t i = 0; i < n; ++i) {
        switch (style) {
        case 0: { unsigned k = g.next() % 8; v.push_back(gen::Value<S>::from(k == 0 ? 1 : k, g.next() >> 32)); break; }      // mixed boundary values
        case 1: v.push_back(gen::Value<S>::from(3, g.next() >> 32)); break;                                              // random
        case 2: v.push_back(S((long)(g.next() % 5))); break;                                                             // tiny, many equal
        case 3: v.push_back(base + S((long)(g.next() % 3))); break;                                                      // close together
        default: { uint64_t w = g.next() >> (g.next() % 64); v.push_back(S(bigint<S::num_limbs>(w))); break; }           // very different lengths
        }
    }
    for (unsigned k = sim::choose(4); k--;) if (n) { size_t i = sim::choose(n); switch (sim::choose(4)) { case 0: v[i] = S::zero(); break; case 1: v[i] = S::one(); break; case 2: v[i] = -S::one(); break; default: v[i] = v[sim::choose(n)]; } }
    return v;
}
template<class T> std::vector<T> bases(size_t n, bool special) {
    std::vector<T> v; unsigned style = sim::choose_w({5, 2, 1});
    for (size_t i = 0; i < n; ++i) {
        if (style == 1 && i && sim::chance(1, 2)) v.push_back(v[sim::choose(i)]);         // repeated
        else if (style == 2 && i) v.push_back(sim::chance(1, 2) ? Kind<T>::neg(v[0]) : v[0]);
        else v.push_back(Kind<T>::make(special));
    }
    return v;
}
template<class T> size_t length() {
    static const unsigned small[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
    return sim::choose_w({3, 2}) ? sim::choose(Kind<T>::maxn) : small[sim::choose(10)];
}
// where an element costs little: long ones too
template<class T> size_t length_of_cheap() { if (Kind<T>::cheap && sim::chance(1, 150)) return sim::choose_w({12, 2, 1}) == 0 ? sim::choose(2500) : 2500 + sim::choose(sim::chance(1, 3) ? 67500 : 8000); return sim::chance(1, 8) ? sim::choose(Kind<T>::cheap ? 300 : 70) : length<T>(); }
#ifdef USE_MIXED_ADDITION
const bool mixed = true;
#else
const bool mixed = false;
#endif

template<class T> struct Impl : Group {
    typedef Kind<T> K; typedef typename K::S S; typedef typename K::R R;
    std::string nm;
    Impl(const std::string &n) : nm(n) {}
    std::string name() const override { return nm; }
    bool cheap() const override { return K::cheap; }
    size_t scalar_bits() const override { return S::ceil_size_in_bits(); }

    void settings() {
#ifdef SIM_TOY
        // the window tables are settings of the group; drawn anew
        static const std::vector<size_t> w[] = {{}, {1, 5, 16}, {11, 24, 60, 127}, {0}, {300}};
        T::wnaf_window_table = w[sim::choose(5)];
#endif
    }
    // -------------------------------------------------------------- M01
    struct Job { std::vector<T> b; std::vector<S> s; size_t chunks; unsigned method, form; T out; };
    static T call(const Job &j) {
        auto b0 = j.b.begin(), b1 = j.b.end(); auto s0 = j.s.begin(), s1 = j.s.end();
#define CALL(M) (j.form == 0 ? multi_exp<T, S, M>(b0, b1, s0, s1, j.chunks) : multi_exp_with_mixed_addition<T, S, M>(b0, b1, s0, s1, j.chunks))
        switch (j.method) {
        case 0: return CALL(multi_exp_method_naive);
        case 1: return CALL(multi_exp_method_naive_plain);
        case 2: return CALL(multi_exp_method_bos_coster);
        default: return CALL(multi_exp_method_BDLO12);
        }
#undef CALL
    }
    void multiexp() override {
        settings();
        unsigned callers = K::cheap ? 1 + sim::choose_w({6, 1, 1}) : 1 + sim::choose_w({12, 1});
        std::vector<Job> jobs;
        for (unsigned c = 0; c < callers; ++c) {
            Job j; size_t n = K::cheap ? length_of_cheap<T>() : length<T>();
            j.method = sim::choose(4); if (n > 1000) callers = 1;
            if (n > 2500) { j.method = 3; n = 2500 + n % 6000; } j.form = sim::choose(2);
            j.b = bases<T>(n, mixed); j.s = scalars<S>(n);
            j.chunks = 1 + (sim::choose_w({3, 2}) ? sim::choose(n + 3) : sim::choose(8));
            jobs.push_back(j);
            sim::ev("multiexp %s n=%zu chunks=%zu method=%u form=%u", nm.c_str(), n, j.chunks, j.method, j.form);
        }
        if (callers > 1 && sim::chance(1, 2)) for (auto &j : jobs) { j.b = jobs[0].b; j.s = jobs[0].s; }
        size_t all = 0; for (auto &j : jobs) all += j.b.size();
        sim::Budget budget(400000000ull + all * 400000ull);
        // sometimes again in the same storage, with little changed
        unsigned rounds = sim::choose_w({5, 1, 1}); if (!K::cheap && rounds > 1) rounds = 1;
        if (jobs[0].b.size() > 600) rounds = 0;
        round_of(jobs);
        for (unsigned r = 0; r < rounds; ++r) { for (auto &j : jobs) change(j); sim::ev("again"); round_of(jobs); sim::count("multiexp_repeats"); }
        if (sim::chance(1, 6)) {       // inner product of scalars
            size_t n = sim::choose(12); std::vector<S> a = scalars<S>(n), b = scalars<S>(n); S w = S::zero(); for (size_t i = 0; i < n; ++i) w = w + a[i] * b[i];
            S r = inner_product<S>(a.begin(), a.end(), b.begin(), b.end()); if (!(r == w)) sim::violate("wrong-sum", "inner product over %s", nm.c_str());
            sim::count("inner_products");
        }
    }
    static void change(Job &j) {
        size_t n = j.b.size();
        if (n) { size_t i = sim::choose(n); switch (sim::choose(5)) { case 0: j.b[i] = K::make(mixed); break; case 1: j.b[i] = K::neg(j.b[i]); break; case 2: j.s[i] = -j.s[i]; break; case 3: j.s[i] = scalars<S>(1)[0]; break; default: break; } }
        if (n <= 2500 && sim::chance(1, 2)) j.method = sim::choose(4);
        if (sim::chance(1, 2)) j.chunks = 1 + sim::choose(8);
        if (sim::chance(1, 4)) j.form ^= 1;
    }
    void round_of(std::vector<Job> &jobs) {
        std::vector<uint64_t> before; for (auto &j : jobs) before.push_back(raw(j.b) ^ raw(j.s) * 3);
        mitems::start();
        if (jobs.size() == 1) jobs[0].out = call(jobs[0]);
        else {
            std::vector<std::function<void()>> fs; for (auto &j : jobs) { Job *p = &j; fs.push_back([p] { p->out = call(*p); }); }
            simrt::run_threads(fs);
        }
        mitems::stop();
        for (size_t c = 0; c < jobs.size(); ++c) {
            Job &j = jobs[c];
            if ((raw(j.b) ^ raw(j.s) * 3) != before[c]) sim::violate("inputs-changed", "multi-exponentiation over %s changed its inputs", nm.c_str());
            R want = K::sum(j.b, j.s);
            if (!K::same(j.out, want)) sim::violate("wrong-sum", "multi-exponentiation over %s (method %u, form %u, %zu elements, %zu chunks) is not the sum", nm.c_str(), j.method, j.form, j.b.size(), j.chunks);
            std::string b = K::bad(j.out); if (!b.empty()) sim::violate("wrong-sum", "%s: %s", nm.c_str(), b.c_str());
        }
        sim::count("multiexps", jobs.size());
    }
    // -------------------------------------------------------------- M02
    void fixed_base() override {
        settings();
#ifdef SIM_TOY
        static const std::vector<size_t> ft[] = {{}, {1, 4, 10, 30}, {1, 0, 5, 0, 17}, {0}, {1000}};
        T::fixed_base_exp_window_table = ft[sim::choose(5)];
#endif
        size_t full = S::ceil_size_in_bits();
        size_t bits = sim::choose_w({4, 2, 1}) == 0 ? full : sim::choose(2) ? 1 + sim::choose(full) : 1 + sim::choose(20);
        if (!K::cheap && bits > 40 && !sim::chance(1, 3)) bits = 1 + bits % 40;
        size_t n = K::cheap ? length_of_cheap<T>() : length<T>();
        size_t window = 1 + sim::choose(K::cheap ? 9 : 5); if (n > 2500) { window += 4; bits = 1 + bits % 48; }
        if (sim::chance(1, 4)) { size_t w = get_exp_window_size<T>(n); if (w >= 1 && w <= 9) window = w; }
        if (K::cheap && sim::chance(1, 250)) { window = 10 + sim::choose(9); bits = window + sim::choose(window + 1); n = n % 40; }      // large tables
        sim::Budget budget(400000000ull + n * 100000ull);
        if (window > bits) { if (sim::chance(1, 2)) window = bits; }
        T g = K::make(false); std::vector<S> v = scalars<S>(n); S coeff = scalars<S>(1)[0]; bool with_coeff = sim::chance(1, 2);
        if (bits < full) {
            auto cut = [bits](const S &x) { auto b = x.as_bigint(); for (size_t i = bits; i < (size_t)b.max_bits(); ++i) b.data[i / 64] &= ~(1ul << (i % 64)); return S(b); };
            for (auto &x : v) x = cut(x);
            if (with_coeff) { if (bits < 4) with_coeff = false; else { auto one = [bits](S x) { auto b = x.as_bigint(); for (auto &d : b.data) d = 0; b.data[0] = x.as_bigint().data[0] & ((1ul << (bits / 2 > 60 ? 60 : bits / 2)) - 1); return S(b); }; coeff = one(coeff); for (auto &x : v) x = one(x); } }
        }
        // sometimes another batch afterwards: another base, same or nearly the same scalars
        for (unsigned rounds = 1 + sim::choose_w({5, 1, 1}); rounds--;) {
            batch_of(bits, window, g, v, coeff, with_coeff);
            if (!rounds) break;
            switch (sim::choose(4)) { case 0: g = K::neg(g); break; case 1: g = K::make(false); break; case 2: g = g + g; break; default: break; }
            if (n && sim::chance(1, 2)) { S t = v[0]; v[0] = v[n - 1]; v[n - 1] = t; }
            if (n && sim::chance(1, 3)) v[sim::choose(n)] = S::zero();
            if (window > 1 && sim::chance(1, 3)) --window;
            sim::ev("again"); sim::count("batch_repeats");
        }
    }
    void batch_of(size_t bits, size_t window, const T &g, const std::vector<S> &v, const S &coeff, bool with_coeff) {
        size_t n = v.size();
        sim::ev("fixed base %s n=%zu bits=%zu window=%zu coeff=%d", nm.c_str(), n, bits, window, with_coeff);
        // 0 alone; 1 two callers share a table; 2 each makes its own, of its own base
        unsigned callers = sim::choose_w({8, 2, K::cheap ? 2u : 1u});
        T h = callers == 2 ? sim::chance(1, 2) ? K::neg(g) : K::make(false) : g;
        uint64_t before = raw(v);
        auto sum = [](const window_table<T> &t) { uint64_t x = 0; for (auto &r : t) x = x * 31 + raw(r); return x; };
        window_table<T> tab, tab2; uint64_t tb = 0, tb2 = 0;
        std::vector<T> res, res2;
        mitems::start();
        if (callers < 2) { tab = get_window_table<T>(bits, window, g); tb = sum(tab); }
        if (callers == 0) res = with_coeff ? batch_exp_with_coeff<T, S>(bits, window, tab, coeff, v) : batch_exp<T, S>(bits, window, tab, v);
        else if (callers == 1) simrt::run_threads({[&] { res = with_coeff ? batch_exp_with_coeff<T, S>(bits, window, tab, coeff, v) : batch_exp<T, S>(bits, window, tab, v); }, [&] { res2 = batch_exp_with_coeff<T, S>(bits, window, tab, S::one(), v); }});
        else simrt::run_threads({[&] { tab = get_window_table<T>(bits, window, g); tb = sum(tab); res = with_coeff ? batch_exp_with_coeff<T, S>(bits, window, tab, coeff, v) : batch_exp<T, S>(bits, window, tab, v); },
                                 [&] { tab2 = get_window_table<T>(bits, window, h); tb2 = sum(tab2); res2 = batch_exp<T, S>(bits, window, tab2, v); }});
        mitems::stop();
        if (sum(tab) != tb || (callers == 2 && sum(tab2) != tb2) || raw(v) != before) sim::violate("inputs-changed", "batch exponentiation over %s changed its inputs", nm.c_str());
        if (res.size() != n) sim::violate("wrong-batch", "batch exponentiation over %s returned %zu results for %zu scalars", nm.c_str(), res.size(), n);
        if (callers && res2.size() != n) sim::violate("wrong-batch", "batch exponentiation over %s returned %zu results for %zu scalars", nm.c_str(), res2.size(), n);
        for (size_t i = 0; i < n; ++i) {
            if (!K::same(res[i], K::mul(g, with_coeff ? coeff * v[i] : v[i]))) sim::violate("wrong-batch", "batch exponentiation over %s: result %zu of %zu is wrong (bits %zu, window %zu, coeff %d)", nm.c_str(), i, n, bits, window, with_coeff);
            if (callers && !K::same(res2[i], K::mul(h, v[i]))) sim::violate("wrong-batch", "concurrent batch exponentiation over %s: result %zu of %zu is wrong", nm.c_str(), i, n);
        }
        sim::count("batches"); sim::count("batch_elements", n);
    }
    void batch_special() override {
        size_t n = length_of_cheap<T>(); if (n > 2500) n = 2500 + n % 3000;
        std::vector<T> v = bases<T>(n, false);
        unsigned callers = 1 + sim::choose(3);
        std::vector<std::vector<T>> vs(callers, v);
        sim::ev("batch special %s n=%zu callers=%u", nm.c_str(), n, callers);
        mitems::start();
        std::vector<std::function<void()>> fs; for (auto &x : vs) { auto *p = &x; fs.push_back([p] { batch_to_special<T>(*p); }); }
        if (callers == 1) fs[0](); else simrt::run_threads(fs);
        mitems::stop();
        if (sim::chance(1, 4)) {    // and another batch in the storage of the first
            v = bases<T>(n, false); for (size_t i = 0; i < n; ++i) vs[0][i] = v[i];
            mitems::start(); fs[0](); mitems::stop(); vs.resize(1); sim::count("batch_repeats");
        }
        for (auto &x : vs) {
            if (x.size() != v.size()) sim::violate("wrong-batch", "batch normalisation over %s changed the length", nm.c_str());
            for (size_t i = 0; i < n; ++i) {
                if (!(x[i] == v[i]) || !K::same(x[i], R(v[i]))) sim::violate("wrong-batch", "batch normalisation over %s changed element %zu of %zu", nm.c_str(), i, n);
                if (!x[i].is_special()) sim::violate("wrong-batch", "batch normalisation over %s left element %zu of %zu as it was", nm.c_str(), i, n);
            }
        }
        sim::count("batch_specials");
    }
    void batch_inv() override {
        size_t n = length_of_cheap<T>(); std::vector<S> v = scalars<S>(n); for (auto &x : v) if (x.is_zero()) x = S::one();
        std::vector<S> w(v); sim::ev("batch invert %s n=%zu", nm.c_str(), n);
        mitems::start();
        std::vector<S> w2(v); bool two = sim::chance(1, 3);
        if (two) simrt::run_threads({[&] { batch_invert<S>(w); }, [&] { batch_invert<S>(w2); }}); else batch_invert<S>(w);
        mitems::stop();
        if (sim::chance(1, 4)) { two = false; v = scalars<S>(n); for (auto &x : v) if (x.is_zero()) x = S::one(); for (size_t i = 0; i < n; ++i) w[i] = v[i]; mitems::start(); batch_invert<S>(w); mitems::stop(); sim::count("batch_repeats"); }
        for (size_t i = 0; i < n; ++i) { if (!(w[i] * v[i] == S::one()) || !(w[i] == v[i].inverse())) sim::violate("wrong-batch", "batch inversion (%s scalars): element %zu of %zu is wrong", nm.c_str(), i, n); if (two && !(w2[i] == w[i])) sim::violate("wrong-batch", "concurrent batch inversion: element %zu of %zu", i, n); }
        sim::count("batch_inverts");
    }
};
template<class T> void add(const std::string &n, std::vector<mitems::Group *> &v) { v.push_back(new Impl<T>(n)); }

void init() {
#ifdef SIM_TOY
    init_alt_bn128_params(); init_bls12_381_params(); init_edwards_params(); init_mnt4_params(); init_mnt6_params();
    add<toy::Toy<alt_bn128_Fr>>("toy4", mitems::groups()); add<toy::Toy<edwards_Fr>>("toy3", mitems::groups()); add<toy::Toy<mnt4_Fr>>("toy5", mitems::groups()); add<toy::Toy<bls12_381_Fq>>("toy6", mitems::groups());
#else
    SIM_PP::init_public_params();
    typedef SIM_PP::G1_type G1; typedef SIM_PP::G2_type G2;
    gen::Pool<G1>::fill(14); gen::Pool<G2>::fill(10);
    add<G1>(SIM_CURVE ".G1", mitems::groups()); add<G2>(SIM_CURVE ".G2", mitems::groups());
#endif
}
mitems::RegInit reg(init);
}
