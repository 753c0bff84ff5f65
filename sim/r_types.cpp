// R01, R02: everything that can be drawn at random.  Built with the library's flags.
#include "r_items.hpp"
#include "curves.hpp"
#include <libff/common/rng.hpp>
#include <libff/common/utils.hpp>
#include <cstring>
using namespace libff;
using ritems::Item;
namespace {
template<class T> std::string bytes(const T &t) { return std::string((const char *)&t, sizeof t); }
template<class T> T of(const std::string &s) { T t; memcpy((void *)&t, s.data(), sizeof t); return t; }

template<class F> struct Parts;      // components over the base field
template<mp_size_t n, const bigint<n> &m> struct Parts<Fp_model<n, m>> { typedef Fp_model<n, m> B; enum { N = 1 }; };
#define PARTS(M, k) template<mp_size_t n, const bigint<n> &m> struct Parts<M<n, m>> { typedef Fp_model<n, m> B; enum { N = k }; };
PARTS(Fp2_model, 2) PARTS(Fp3_model, 3) PARTS(Fp4_model, 4) PARTS(Fp6_2over3_model, 6) PARTS(Fp6_3over2_model, 6) PARTS(Fp12_2over3over2_model, 12)

template<class B> bigint<B::num_limbs> repeated(uint32_t w) {
    bigint<B::num_limbs> r; for (auto &x : r.data) x = (uint64_t)w << 32 | w;
    for (size_t i = B::ceil_size_in_bits(); i < 64 * (size_t)B::num_limbs; ++i) r.data[i / 64] &= ~(1ul << (i % 64));
    return r;
}
template<class B> std::vector<std::vector<uint32_t>> around() {
    std::vector<std::vector<uint32_t>> v; const mp_size_t n = B::num_limbs;
    auto put = [&](const mp_limb_t *d) { std::vector<uint32_t> w; for (mp_size_t i = 0; i < n; ++i) { w.push_back((uint32_t)d[i]); w.push_back((uint32_t)(d[i] >> 32)); } v.push_back(w); };
    bigint<n> x = B::mod; put(x.data);
    mpn_sub_1(x.data, B::mod.data, n, 1); put(x.data);
    mpn_add_1(x.data, B::mod.data, n, 1); put(x.data);
    bigint<n> z; put(z.data); for (auto &d : z.data) d = ~0ul; put(z.data);
    put(B::one().mont_repr.data); bigint<n> one(1ul); put(one.data);
    // the top limb of the modulus with everything below it set: above it by most of a limb
    x = B::mod; for (mp_size_t i = 0; i + 1 < n; ++i) x.data[i] = ~0ul; put(x.data);
    x = B::mod; for (mp_size_t i = 0; i + 1 < n; ++i) x.data[i] = 0; put(x.data);
    // the modulus with bits set above its top bit: masked, it is the modulus
    x = B::mod; for (size_t i = B::ceil_size_in_bits(); i < 64 * (size_t)n; ++i) x.data[i / 64] |= 1ul << (i % 64); put(x.data);
    return v;
}
template<class B> unsigned region(const bigint<B::num_limbs> &v) {      // floor(16 v / p)
    mpz_t a, p; mpz_init(a); mpz_init(p); mpz_import(a, B::num_limbs, -1, 8, 0, 0, v.data); mpz_import(p, B::num_limbs, -1, 8, 0, 0, B::mod.data);
    mpz_mul_ui(a, a, 16); mpz_fdiv_q(a, a, p); unsigned r = mpz_get_ui(a); mpz_clear(a); mpz_clear(p); return r & 31;
}
template<class F> struct Field : Item {
    typedef typename Parts<F>::B B; enum { N = Parts<F>::N };
    std::string nm; Field(const std::string &n) : nm(n) {}
    std::string name() const override { return nm; } bool group() const override { return false; } bool prime() const override { return true; }
    unsigned comps() const override { return N; } size_t comp_bits() const override { return B::ceil_size_in_bits(); } size_t comp_words() const override { return 2 * B::num_limbs; }
    bool has(unsigned) const override { return true; }
    static std::string invalid(const F &x) {
        const mp_limb_t *d = (const mp_limb_t *)&x;
        for (int i = 0; i < N; ++i) if (mpn_cmp(d + i * B::num_limbs, B::mod.data, B::num_limbs) >= 0) return "component " + std::to_string(i) + " is not below the modulus";
        return "";
    }
    std::string draw(unsigned form, const std::string &ex, std::string &bad) override {
        F x = F::zero();
        switch (form) {
        case 0: x = F::random_element(); break;
        case 1: { F y = of<F>(ex) + gen::Value<F>::from(3, ritems::prior); const std::string was = bytes(y); try { y.randomize(); } catch (...) { if (bytes(y) != was) bad = "an element was delivered although the source failed"; throw; } x = y; break; }
        case 2: x = random_element_non_zero<F>(); if (x == F::zero()) bad = "zero drawn as a non-zero element"; break;
        case 3: x = random_element_non_zero_one<F>(); if (x == F::zero() || x == F::one()) bad = "zero or one drawn"; break;
        default: { F e = of<F>(ex); x = random_element_exclude<F>(e); if (x == e) bad = "the excluded element was drawn"; break; }
        }
        if (bad.empty()) bad = invalid(x);
        return bytes(x);
    }
    std::vector<std::string> constant(uint32_t w) const override {
        bigint<B::num_limbs> r = repeated<B>(w); std::vector<std::string> v;
        if (mpn_cmp(r.data, B::mod.data, B::num_limbs) >= 0) return v;
        B a; a.mont_repr = r; B b(r); std::string sa, sb; for (int i = 0; i < N; ++i) { sa += bytes(a); sb += bytes(b); }
        v.push_back(sa); v.push_back(sb); return v;
    }
    std::vector<std::vector<uint32_t>> boundary() const override { return around<B>(); }
    template<class T> static std::string do_sha(uint64_t idx, T *) { return ""; }
    template<mp_size_t n, const bigint<n> &m> static std::string do_sha(uint64_t idx, Fp_model<n, m> *) { return bytes(SHA512_rng<Fp_model<n, m>>(idx)); }
    std::string sha(uint64_t idx) const override { return do_sha(idx, (F *)nullptr); }
    std::string sha_model(uint64_t idx) const override {
        for (uint64_t it = 0;; ++it) {
            std::vector<uint64_t> h = ritems::sha512_words(idx, it); bigint<B::num_limbs> r; for (mp_size_t i = 0; i < B::num_limbs; ++i) r.data[i] = h[i];
            for (size_t i = B::ceil_size_in_bits(); i < 64 * (size_t)B::num_limbs; ++i) r.data[i / 64] &= ~(1ul << (i % 64));
            if (mpn_cmp(r.data, B::mod.data, B::num_limbs) < 0) return bytes(B(r));
        }
    }
    unsigned bin(const std::string &s, unsigned how) const override { B b = of<B>(s); return how ? region<B>(b.as_bigint()) : region<B>(b.mont_repr); }
    std::string work(uint64_t seed) const override { F x = gen::Value<F>::from(3, seed), y = gen::Value<F>::from(2, seed); for (int i = 0; i < 3; ++i) x = x * y + x.squared(); return bytes(x); }
};
template<class G> struct Grp : Item {
    typedef typename G::scalar_field B;
    std::string nm; Grp(const std::string &n) : nm(n) {}
    std::string name() const override { return nm; } bool group() const override { return true; } bool prime() const override { return true; }
    unsigned comps() const override { return 1; } size_t comp_bits() const override { return B::ceil_size_in_bits(); } size_t comp_words() const override { return 2 * B::num_limbs; }
    bool has(unsigned f) const override { return f == 0; }
    static std::string norm(G g) { if (g.is_zero()) g = G::zero(); g.to_special(); return bytes(g); }
    static G times(const bigint<B::num_limbs> &k) { G r = G::zero(), b = G::one(); bool on = false; for (long i = (long)k.max_bits() - 1; i >= 0; --i) { if (on) r = r.dbl(); if (k.test_bit(i)) { on = true; r = r + b; } } return r; }
    std::string draw(unsigned, const std::string &, std::string &bad) override {
        G g = G::random_element();
        if (!g.is_well_formed()) bad = "the drawn element is not on the curve";
        else if (!(G::order() * g).is_zero()) bad = "the drawn element is not in the group of prime order";
        return norm(g);
    }
    std::vector<std::string> constant(uint32_t w) const override {
        bigint<B::num_limbs> r = repeated<B>(w); std::vector<std::string> v;
        if (mpn_cmp(r.data, B::mod.data, B::num_limbs) >= 0) return v;
        B a; a.mont_repr = r; v.push_back(norm(times(r))); v.push_back(norm(times(a.as_bigint()))); return v;
    }
    std::vector<std::vector<uint32_t>> boundary() const override { return around<B>(); }
    std::string sha(uint64_t) const override { return ""; } std::string sha_model(uint64_t) const override { return ""; }
    unsigned bin(const std::string &, unsigned) const override { return 0; }
    std::string work(uint64_t seed) const override { return norm(times(bigint<B::num_limbs>((unsigned long)(seed & 0xffff)))); }
};
template<class F> struct Bin : Item {
    std::string nm; Bin(const std::string &n) : nm(n) {}
    std::string name() const override { return nm; } bool group() const override { return false; } bool prime() const override { return false; }
    unsigned comps() const override { return 1; } size_t comp_bits() const override { return F::extension_degree(); } size_t comp_words() const override { return (F::extension_degree() + 31) / 32; }
    bool has(unsigned) const override { return true; }
    static std::string enc(const F &x) { auto w = x.to_words(); return std::string((const char *)w.data(), 8 * w.size()); }
    static F dec(const std::string &s) { F x = F::zero(); std::vector<uint64_t> w(s.size() / 8); memcpy(w.data(), s.data(), s.size()); if (!w.empty()) x.from_words(w); return x; }
    std::string draw(unsigned form, const std::string &ex, std::string &bad) override {
        F x = F::zero();
        switch (form) {
        case 0: x = F::random_element(); break;
        case 1: x = gen::Value<F>::from(3, ritems::prior); x.randomize(); break;
        case 2: x = random_element_non_zero<F>(); if (x == F::zero()) bad = "zero drawn as a non-zero element"; break;
        case 3: x = random_element_non_zero_one<F>(); if (x == F::zero() || x == F::one()) bad = "zero or one drawn"; break;
        default: { F e = dec(ex); x = random_element_exclude<F>(e); if (x == e) bad = "the excluded element was drawn"; break; }
        }
        return enc(x);
    }
    std::vector<std::string> constant(uint32_t w) const override {
        std::string s(8 * ((F::extension_degree() + 63) / 64), 0); for (size_t i = 0; i < (size_t)F::extension_degree() / 32; ++i) memcpy(&s[4 * i], &w, 4); return {s};
    }
    std::vector<std::vector<uint32_t>> boundary() const override { size_t k = comp_words(); return {std::vector<uint32_t>(k, 0), std::vector<uint32_t>(k, ~0u), [&] { std::vector<uint32_t> o(k, 0); o[0] = 1; return o; }()}; }
    std::string sha(uint64_t) const override { return ""; } std::string sha_model(uint64_t) const override { return ""; }
    unsigned bin(const std::string &s, unsigned how) const override { size_t top = F::extension_degree() / 8 - 1; return how ? (unsigned char)s[0] & 15 : (unsigned char)s[top] >> 4; }
    std::string work(uint64_t seed) const override { F x = gen::Value<F>::from(3, seed); x = x * x + F::one(); return enc(x); }
};
void init() {
    auto &v = ritems::items();
#ifdef SIM_GF
    v.push_back(new Bin<gf32>("gf32")); v.push_back(new Bin<gf64>("gf64")); v.push_back(new Bin<gf128>("gf128")); v.push_back(new Bin<gf192>("gf192")); v.push_back(new Bin<gf256>("gf256"));
#else
    typedef SIM_PP PP; PP::init_public_params();
    std::string c = SIM_CURVE ".";
    v.push_back(new Field<typename PP::Fp_type>(c + "Fr")); v.push_back(new Field<typename PP::Fq_type>(c + "Fq")); v.push_back(new Field<typename PP::Fqe_type>(c + "Fqe")); v.push_back(new Field<typename PP::Fqk_type>(c + "Fqk"));
#if defined(SIM_ALT)
    v.push_back(new Field<alt_bn128_Fq6>(c + "Fq6"));
#elif defined(SIM_BLS)
    v.push_back(new Field<bls12_381_Fq6>(c + "Fq6"));
#endif
    v.push_back(new Grp<typename PP::G1_type>(c + "G1")); v.push_back(new Grp<typename PP::G2_type>(c + "G2"));
#endif
}
ritems::RegInit reg(init);
}
