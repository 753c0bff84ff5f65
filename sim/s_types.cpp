// Registers the serialisable types of one curve (SIM_ALT, SIM_BLS, ...) or of
// the binary fields (SIM_GF).  Built once per output mode.
#include "curves.hpp"
#include "s_items.hpp"
#include "refgroup.hpp"

using namespace libff;
namespace {
using namespace sitems;

template<class T> std::string bad(const T &);
// canonical members of their field
template<mp_size_t n, const bigint<n> &m> std::string badf(const Fp_model<n, m> &x) { return mpn_cmp(x.mont_repr.data, m.data, n) < 0 ? "" : "residue not reduced"; }
template<mp_size_t n, const bigint<n> &m> std::string badf(const Fp2_model<n, m> &x) { return badf(x.c0) + badf(x.c1); }
template<mp_size_t n, const bigint<n> &m> std::string badf(const Fp3_model<n, m> &x) { return badf(x.c0) + badf(x.c1) + badf(x.c2); }
template<mp_size_t n, const bigint<n> &m> std::string badf(const Fp4_model<n, m> &x) { return badf(x.c0) + badf(x.c1); }
template<mp_size_t n, const bigint<n> &m> std::string badf(const Fp6_2over3_model<n, m> &x) { return badf(x.c0) + badf(x.c1); }
template<mp_size_t n, const bigint<n> &m> std::string badf(const Fp6_3over2_model<n, m> &x) { return badf(x.c0) + badf(x.c1) + badf(x.c2); }
template<mp_size_t n, const bigint<n> &m> std::string badf(const Fp12_2over3over2_model<n, m> &x) { return badf(x.c0) + badf(x.c1); }

#ifndef SIM_GF
typedef SIM_PP PP;
typedef PP::G1_type G1; typedef PP::G2_type G2;
typedef PP::G1_precomp_type PC1; typedef PP::G2_precomp_type PC2;

#if defined(SIM_EDW)
bool on_curve(const G1 &p) { if (p.is_zero()) return true; G1 c(p); edwards_Fq x, y;
    // inverted coordinates: x = Z/X, y = Z/Y, checked without division
    edwards_Fq X2 = p.X * p.X, Y2 = p.Y * p.Y, Z2 = p.Z * p.Z; return Z2 * (Y2 + X2 - edwards_coeff_d * Z2) == X2 * Y2; }
bool on_curve(const G2 &p) { if (p.is_zero()) return true;
    edwards_Fq3 X2 = p.X * p.X, Y2 = p.Y * p.Y, Z2 = p.Z * p.Z;
    return Z2 * (edwards_twist_coeff_a * Y2 + X2 - edwards_twist_coeff_d * Z2) == X2 * Y2; }
#else
#if defined(SIM_ALT)
#define A1 alt_bn128_Fq::zero()
#define B1 alt_bn128_coeff_b
#define A2 alt_bn128_Fq2::zero()
#define B2 alt_bn128_twist_coeff_b
#elif defined(SIM_BLS)
#define A1 bls12_381_Fq::zero()
#define B1 bls12_381_coeff_b
#define A2 bls12_381_Fq2::zero()
#define B2 bls12_381_twist_coeff_b
#elif defined(SIM_MNT4)
#define A1 mnt4_G1::coeff_a
#define B1 mnt4_G1::coeff_b
#define A2 mnt4_twist_coeff_a
#define B2 mnt4_twist_coeff_b
#elif defined(SIM_MNT6)
#define A1 mnt6_G1::coeff_a
#define B1 mnt6_G1::coeff_b
#define A2 mnt6_twist_coeff_a
#define B2 mnt6_twist_coeff_b
#endif
template<class G, class F> bool weier(const G &p, const F &a, const F &b) {
    if (p.is_zero()) return true;
    G c(p); c.to_affine_coordinates();
    return c.Y * c.Y == (c.X * c.X + a) * c.X + b;
}
bool on_curve(const G1 &p) { return weier(p, A1, B1); }
bool on_curve(const G2 &p) { return weier(p, A2, B2); }
#endif
template<class G> std::string badg(const G &p) {
    std::string s = badf(p.X) + badf(p.Y) + badf(p.Z);
    if (!s.empty()) return s;
    bool oc = on_curve(p), wf = p.is_well_formed();
    if (!oc && wf) return "point off its curve passes the well-formedness check";
    if (oc && !wf) return "point on its curve fails the well-formedness check";
#ifndef NO_PT_COMPRESSION
    if (!oc) return "decompressed point is not on its curve";
#endif
    return "";
}
std::string badf(const G1 &p) { return badg(p); }
std::string badf(const G2 &p) { return badg(p); }
#if defined(SIM_EDW)
std::string badf(const edwards_Fq_conic_coefficients &c) { return badf(c.c_ZZ) + badf(c.c_XY) + badf(c.c_XZ); }
std::string badf(const edwards_Fq3_conic_coefficients &c) { return badf(c.c_ZZ) + badf(c.c_XY) + badf(c.c_XZ); }
std::string badf(const edwards_tate_G2_precomp &c) { return badf(c.y0) + badf(c.eta); }
std::string badf(const PC1 &c) { return badf(c.P_XY) + badf(c.P_XZ) + badf(c.P_ZZplusYZ); }
#elif defined(SIM_ALT) || defined(SIM_BLS)
#if defined(SIM_ALT)
typedef alt_bn128_ate_ell_coeffs Ell;
#else
typedef bls12_381_ate_ell_coeffs Ell;
#endif
std::string badf(const Ell &c) { return badf(c.ell_0) + badf(c.ell_VW) + badf(c.ell_VV); }
std::string badf(const PC1 &c) { return badf(c.PX) + badf(c.PY); }
std::string badf(const PC2 &c) { std::string s = badf(c.QX) + badf(c.QY); for (auto &e : c.coeffs) s += badf(e); return s; }
#else
std::string badf(const PC1 &c) { return badf(c.PX) + badf(c.PY) + badf(c.PX_twist) + badf(c.PY_twist); }
std::string badf(const PC2 &c) { std::string s = badf(c.QX) + badf(c.QY) + badf(c.QY2) + badf(c.QX_over_twist) + badf(c.QY_over_twist);
    for (auto &e : c.dbl_coeffs) s += badf(e.c_H) + badf(e.c_4C) + badf(e.c_J) + badf(e.c_L);
    for (auto &e : c.add_coeffs) s += badf(e.c_L1) + badf(e.c_RZ); return s; }
#endif
#endif // SIM_GF

std::string badf(const gf32 &) { return ""; }
std::string badf(const gf64 &) { return ""; }
std::string badf(const gf128 &) { return ""; }
std::string badf(const gf192 &) { return ""; }
std::string badf(const gf256 &) { return ""; }
std::string badf(const size_t &) { return ""; }
template<mp_size_t n> std::string badf(const bigint<n> &) { return ""; }
template<class T> std::string badf(const std::vector<T> &v);
template<class K, class V> std::string badf(const std::map<K, V> &v) { for (auto &e : v) { std::string s = badf(e.second); if (!s.empty()) return s; } return ""; }
template<class T> std::string badf(const std::set<T> &v) { for (auto &e : v) { std::string s = badf(e); if (!s.empty()) return s; } return ""; }
template<class T> std::string badf(const std::vector<T> &v) { for (auto &e : v) { std::string s = badf(e); if (!s.empty()) return s; } return ""; }

// how to draw a value
template<class T> struct Make { static T make() { return gen::Value<T>::make(); } static T respell(const T &v, unsigned) { return v; } };
template<> struct Make<size_t> { static size_t make() { return sim::choose_log(~0ull); } static size_t respell(size_t v, unsigned) { return v; } };
size_t len() { static const unsigned w[] = {0, 1, 2, 3, 4, 5, 9, 10, 11, 17, 32, 33, 64, 65, 100, 129, 257, 520, 1030}; size_t n = w[sim::choose_w({32, 64, 80, 64, 32, 32, 16, 32, 16, 16, 4, 4, 4, 4, 4, 4, 2, 2, 1})]; return sim::decisions() > 8000 && n > 5 ? n % 5 : n; }   // nested ones stay small
size_t long_len() { static const unsigned w[] = {4095, 32767, 65535, 66000}; return w[sim::choose(4)] + sim::choose(4); }
template<class T> struct Make<std::vector<T>> {
    static std::vector<T> make() { std::vector<T> v; for (size_t n = len(); n--;) v.push_back(Make<T>::make()); return v; }
    static std::vector<T> respell(const std::vector<T> &v, unsigned h) { std::vector<T> r; for (auto &e : v) r.push_back(Make<T>::respell(e, h)); return r; }
};
#ifdef SIM_GF
template<> struct Make<std::vector<gf32>> {
    static std::vector<gf32> make() {
        std::vector<gf32> v; if (!sim::chance(1, 24)) { for (size_t n = len(); n--;) v.push_back(Make<gf32>::make()); return v; }
        size_t n = long_len(); sim::Rng g(sim::word32()); for (size_t i = 0; i < n; ++i) v.push_back(gf32((uint32_t)g.next())); return v;
    }
    static std::vector<gf32> respell(const std::vector<gf32> &v, unsigned) { return v; }
};
#endif
template<class K, class V> struct Make<std::map<K, V>> {
    static std::map<K, V> make() { std::map<K, V> v; for (size_t n = len(); n--;) { K k = Make<K>::make(); v[k] = Make<V>::make(); } return v; }
    static std::map<K, V> respell(const std::map<K, V> &v, unsigned h) { std::map<K, V> r; for (auto &e : v) r[e.first] = Make<V>::respell(e.second, h); return r; }
};
template<class T> struct Make<std::set<T>> {
    static std::set<T> make() { std::set<T> v; for (size_t n = len(); n--;) v.insert(Make<T>::make()); return v; }
    static std::set<T> respell(const std::set<T> &v, unsigned) { return v; }
};
#ifndef SIM_GF
std::vector<PC1> pc1s; std::vector<PC2> pc2s;
#define GROUPMAKE(G) template<> struct Make<G> { static G make() { return gen::make_point<G>(); } static G respell(const G &v, unsigned h) { return gen::other_rep<G>(v, h); } };
#if defined(SIM_ALT) || defined(SIM_MNT4) || defined(SIM_MNT6)
// Points of G1, which is the whole curve here, whose X is at a boundary.
std::vector<G1> edges;
void make_edges() {
    typedef PP::Fq_type F; std::vector<F> xs;
    for (long i = 0; i < 12; ++i) { xs.push_back(F(i)); xs.push_back(-F(i)); F f; f.mont_repr = bigint<F::num_limbs>((unsigned long)i); xs.push_back(f); }
    for (mp_size_t l = 1; l < F::num_limbs; ++l) for (int i = 0; i < 3; ++i) { bigint<F::num_limbs> b((unsigned long)i); b.data[l] = 1; xs.push_back(F(b)); }
    for (F x : xs) for (int k = 0; k < 2; ++k) { F r = x * x * x + ref::Curve<G1>::a() * x + ref::Curve<G1>::b(); if ((r ^ F::euler) == F::one()) { F y = r.sqrt(); edges.push_back(G1(x, k ? -y : y, F::one())); } }
}
template<> struct Make<G1> { static G1 make() { return sim::chance(1, 8) ? gen::other_rep(sim::pick(edges), gen::some_rep()) : gen::make_point<G1>(); } static G1 respell(const G1 &v, unsigned h) { return gen::other_rep<G1>(v, h); } };
#else
void make_edges() {}
GROUPMAKE(G1)
#endif
GROUPMAKE(G2)
template<> struct Make<PC1> { static PC1 make() { return sim::pick(pc1s); } static PC1 respell(const PC1 &v, unsigned) { return v; } };
template<> struct Make<PC2> { static PC2 make() { return sim::pick(pc2s); } static PC2 respell(const PC2 &v, unsigned) { return v; } };
#if defined(SIM_ALT) || defined(SIM_BLS)
template<> struct Make<Ell> { static Ell make() { return sim::pick(sim::pick(pc2s).coeffs); } static Ell respell(const Ell &v, unsigned) { return v; } };
#endif
#if defined(SIM_EDW)
template<> struct Make<edwards_Fq_conic_coefficients> { typedef edwards_Fq_conic_coefficients T; static T make() { T t; t.c_ZZ = Make<edwards_Fq>::make(); t.c_XY = Make<edwards_Fq>::make(); t.c_XZ = Make<edwards_Fq>::make(); return t; } static T respell(const T &v, unsigned) { return v; } };
template<> struct Make<edwards_Fq3_conic_coefficients> { typedef edwards_Fq3_conic_coefficients T; static T make() { T t; t.c_ZZ = Make<edwards_Fq3>::make(); t.c_XY = Make<edwards_Fq3>::make(); t.c_XZ = Make<edwards_Fq3>::make(); return t; } static T respell(const T &v, unsigned) { return v; } };
template<> struct Make<edwards_tate_G2_precomp> { typedef edwards_tate_G2_precomp T; static T make() { T t; t.y0 = Make<edwards_Fq3>::make(); t.eta = Make<edwards_Fq3>::make(); return t; } static T respell(const T &v, unsigned) { return v; } };
#endif
#endif

template<class T> bool eq(const T &a, const T &b) { return a == b; }

// the library's own round trip through a string
template<class T> T again1(const T &v) { return libff::reserialize<T>(v); }
template<class T> std::vector<T> again1(const std::vector<T> &v) { return v; }   // not instantiable
template<class T> size_t count_of(const T &) { return Item::none; }
template<class T> size_t count_of(const std::vector<T> &v) { return v.size(); }
template<class K, class V> size_t count_of(const std::map<K, V> &v) { return v.size(); }
template<class T> size_t count_of(const std::set<T> &v) { return v.size(); }
template<class T> bool inside(const T &) { return false; }
template<class T> std::string raw_of(const T &) { return ""; }
#ifndef SIM_GF
#if defined(SIM_EDW)
bool inside(const PC2 &) { return false; }     // Edwards: a vector
#elif defined(SIM_ALT) || defined(SIM_BLS)
size_t count_of(const PC2 &v) { return v.coeffs.size(); }
bool inside(const PC2 &) { return true; }
#else
size_t count_of(const PC2 &v) { return sim::choose(2) ? v.dbl_coeffs.size() : v.add_coeffs.size(); }
bool inside(const PC2 &) { return true; }
#endif
std::string raw_of(const G1 &v) { return std::string((const char *)&v, sizeof v); }
std::string raw_of(const G2 &v) { return std::string((const char *)&v, sizeof v); }
std::string raw_of(const std::vector<G1> &v) { return std::string((const char *)v.data(), v.size() * sizeof(G1)); }
std::string raw_of(const std::vector<G2> &v) { return std::string((const char *)v.data(), v.size() * sizeof(G2)); }
#endif
template<class T> struct Typed : Item {
    T v;
    size_t count() const override { return count_of(v); }
    bool count_inside() const override { return inside(v); }
    std::string raw() const override { return raw_of(v); }
    Typed() : v() {}
    explicit Typed(const T &x) : v(x) {}
    void write(std::ostream &o) const override { o << v; }
    void read(std::istream &i) override { i >> v; }
    ItemP again() const override { return ItemP(new Typed(again1(v))); }
    bool equal(const Item &o) const override { return eq(v, static_cast<const Typed &>(o).v); }
    ItemP clone() const override { return ItemP(new Typed(v)); }
    ItemP respell(unsigned h) const override { return ItemP(new Typed(Make<T>::respell(v, h))); }
    std::string invalid() const override { return badf(v); }
};
template<class T> void add1(const std::string &name, bool term, unsigned w) {
    Type t; t.name = name; t.terminated = term; t.weight = w;
    t.make = [] { return ItemP(new Typed<T>(Make<T>::make())); };
    t.blank = [] { return ItemP(new Typed<T>()); };
    types().push_back(t);
}
template<class T> void addv(const std::string &name) {
    add1<T>(name, false, 1);
    add1<std::vector<T>>("vector<" + name + ">", true, 2);
}
template<class T> void addvm(const std::string &name) { addv<T>(name); add1<std::map<size_t, T>>("map<size," + name + ">", true, 2); }

// machine words
// canonical(d): are the bits used those of an element; clears the bits that are not used
template<class T> void addw(const std::string &name, std::function<bool(std::vector<uint64_t> &)> canonical) {
    WordsType w; w.name = name;
    w.run = [name, canonical] {
        T x = Make<T>::make();
        std::vector<uint64_t> ws = x.to_words();
        T y; if (!y.from_words(ws)) sim::violate("words-refused", "%s refuses its own words", name.c_str());
        if (!(y == x)) sim::violate("words-roundtrip", "%s: words do not decode to the element", name.c_str());
        // damage
        std::vector<uint64_t> d(ws);
        unsigned n = 1 + sim::choose(3);
        for (unsigned i = 0; i < n; ++i) { size_t p = sim::choose(d.size());
            switch (sim::choose(4)) { case 0: d[p] ^= 1ull << sim::choose(64); break; case 1: d[p] = ~0ull; break; case 2: d[p] = sim::word(); break; default: d[p] += 1; } }
        sim::count("fault.word_damage", n);
        T z; bool ok = z.from_words(d), want = canonical(d);   // d: unused bits cleared now
        sim::ev("words %s accepted=%d canonical=%d", name.c_str(), ok, want);
        if (ok != want) sim::violate("words-verdict", "%s: decoding %s words that are %scanonical", name.c_str(), ok ? "accepts" : "refuses", want ? "" : "not ");
        if (ok) { if (z.to_words() != d) sim::violate("words-value", "%s: accepted words are not those of the element", name.c_str()); 
                  std::string b = badf(z); if (!b.empty()) sim::violate("words-value", "%s: %s", name.c_str(), b.c_str()); }
        sim::nontrivial();
    };
    words_types().push_back(w);
}
template<mp_size_t n> std::function<bool(std::vector<uint64_t> &)> below(const bigint<n> &m) {
    return [&m](std::vector<uint64_t> &w) {
        bool ok = true; unsigned spare = __builtin_clzll(m.data[n - 1]);
        for (size_t i = 0; i + n <= w.size(); i += n) {
            w[i + n - 1] = w[i + n - 1] << spare >> spare;
            if (mpn_cmp((const mp_limb_t *)&w[i], m.data, n) >= 0) ok = false;
        }
        return ok;
    };
}

#ifndef SIM_GF
void init() {
    PP::init_public_params();
    gen::Pool<G1>::fill(20); gen::Pool<G2>::fill(14); make_edges();
    for (int i = 0; i < 3; ++i) {
        pc1s.push_back(PP::precompute_G1(gen::Pool<G1>::pts[i == 0 ? 0 : 3 + i]));
        pc2s.push_back(PP::precompute_G2(gen::Pool<G2>::pts[i == 0 ? 0 : 3 + i]));
    }
    std::string c = SIM_CURVE ".";
    addvm<PP::Fp_type>(c + "Fr"); addv<PP::Fq_type>(c + "Fq"); addvm<PP::Fqe_type>(c + "Fqe"); addv<PP::Fqk_type>(c + "GT");
    addvm<G1>(c + "G1"); addvm<G2>(c + "G2");
    add1<std::vector<std::vector<G1>>>("vector<vector<" + c + "G1>>", true, 3);
    add1<std::map<size_t, std::vector<PP::Fp_type>>>("map<size,vector<" + c + "Fr>>", true, 3);
    add1<PC1>(c + "G1_precomp", false, 1);
#if defined(SIM_EDW)
    add1<PC2>(c + "G2_precomp", true, 6);
    addv<edwards_tate_G2_precomp>(c + "tate_G2_precomp");
    add1<std::vector<edwards_Fq_conic_coefficients>>(c + "tate_G1_precomp", true, 2);
    addv<edwards_Fq3>(c + "Fq3"); 
#else
    add1<PC2>(c + "G2_precomp", true, 6);
    add1<std::vector<PC1>>("vector<" + c + "G1_precomp>", true, 2);
#endif
#if defined(SIM_ALT)
    addv<Ell>(c + "ell_coeffs"); addv<alt_bn128_Fq6>(c + "Fq6");
    addvm<bigint<4>>("bigint4"); add1<std::set<bigint<4>>>("set<bigint4>", true, 2); addv<bigint<1>>("bigint1");
    add1<std::map<bigint<4>, G2>>("map<bigint4," + c + "G2>", true, 3);
#elif defined(SIM_BLS)
    addv<Ell>(c + "ell_coeffs"); addv<bls12_381_Fq6>(c + "Fq6"); addv<bigint<6>>("bigint6");
#elif defined(SIM_MNT6)
    addv<mnt6_Fq3>(c + "Fq3"); addv<bigint<5>>("bigint5"); add1<std::set<bigint<5>>>("set<bigint5>", true, 2);
#endif
    addw<PP::Fp_type>(c + "Fr", below(PP::Fp_type::mod)); addw<PP::Fq_type>(c + "Fq", below(PP::Fq_type::mod));
    addw<PP::Fqe_type>(c + "Fqe", below(PP::Fq_type::mod)); addw<PP::Fqk_type>(c + "Fqk", below(PP::Fq_type::mod));
}
#else
struct Bits : Item {     // bit sequences, by two encoders
    bit_vector v; int how; bool one;
    Bits(int h) : how(h), one(false) {}
    size_t count() const override { return how < 2 ? v.size() : none; }
    void write(std::ostream &o) const override { if (how == 0) serialize_bit_vector(o, v); else if (how == 1) output_bool_vector(o, v); else output_bool(o, one); }
    void read(std::istream &i) override { if (how == 0) deserialize_bit_vector(i, v); else if (how == 1) input_bool_vector(i, v); else input_bool(i, one); }
    bool equal(const Item &o) const override { auto &b = static_cast<const Bits &>(o); return v == b.v && one == b.one; }
    ItemP clone() const override { return ItemP(new Bits(*this)); }
    ItemP respell(unsigned) const override { return clone(); }
    std::string invalid() const override { return ""; }
};
void bits(const std::string &name, int how) {
    Type t; t.name = name; t.terminated = true; t.weight = 1;
    t.blank = [how] { return ItemP(new Bits(how)); };
    t.make = [how] { Bits *b = new Bits(how); b->one = sim::choose(2); if (how < 2) { size_t n = sim::chance(1, 24) ? long_len() : len() * (1 + sim::choose(4)); uint64_t s = sim::word32(); sim::Rng g(s); for (size_t i = 0; i < n; ++i) b->v.push_back(g.next() & 1); b->one = false; } return ItemP(b); };
    types().push_back(t);
}
void init() {
    addvm<gf32>("gf32"); addvm<gf64>("gf64"); addvm<gf128>("gf128"); addvm<gf192>("gf192"); addvm<gf256>("gf256");
    add1<size_t>("size", false, 1); types().back().plain = true;
    add1<std::set<size_t>>("set<size>", true, 1); add1<std::map<size_t, size_t>>("map<size,size>", true, 1);
    add1<std::vector<std::vector<gf128>>>("vector<vector<gf128>>", true, 2);
    bits("bit_vector", 0); bits("bool_vector", 1); bits("bool", 2);
    auto any = [](std::vector<uint64_t> &) { return true; };
    addw<gf64>("gf64", any); addw<gf128>("gf128", any); addw<gf192>("gf192", any); addw<gf256>("gf256", any);
    addw<gf32>("gf32", [](std::vector<uint64_t> &w) { w[0] &= 0xffffffffu; return true; });
}
#endif
RegInit reg(init);
}
