// T01-T03: the operations of one curve's fields, groups and pairing, or of the
// binary fields.  Built with the library's flags and instrumentation.
#include "t_items.hpp"
#include "curves.hpp"
#include <libff/algebra/field_utils/algorithms.hpp>
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/algebra/scalar_multiplication/wnaf.hpp>
#include <libff/common/rng.hpp>
#include <libff/common/utils.hpp>
#include <libff/common/double.hpp>
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#include <cstring>
using namespace libff;
using titems::P;
#ifdef SIM_A
#define KEEP(v) titems::Kept<typename std::remove_reference<decltype(v)>::type> kept_##v(v, #v)
#else
#define KEEP(v) do { } while (0)
#endif
namespace {
template<class T> std::string bytes(const T &t) { return std::string((const char *)&t, sizeof t); }
std::string vbytes(const std::vector<bool> &v) { std::string s; for (bool b : v) s += b ? '1' : '0'; return s; }
template<class T> std::string vbytes(const std::vector<T> &v) { return std::string((const char *)v.data(), v.size() * sizeof(T)); }
template<class T> T of(const std::string &s) { T t; memcpy((void *)&t, s.data(), sizeof t); return t; }
template<class T> std::string text(const T &t) { std::ostringstream o; o << t; if (!o) throw titems::StreamFailed(); return o.str(); }
void check(const std::istream &i) { if (!i) throw titems::StreamFailed(); }

template<class T> struct Pool : titems::Shared {
    static std::vector<T> v; std::function<T(size_t)> mk; size_t n;
    Pool(size_t n, std::function<T(size_t)> mk) : mk(mk), n(n) { titems::shared().push_back(this); }
    void make() override { v.clear(); for (size_t i = 0; i < n; ++i) v.push_back(mk(i)); }
    std::string dump() const override { return vbytes(v); }
    void load(const std::string &s) override { v.clear(); for (size_t i = 0; i < n; ++i) v.push_back(of<T>(s.substr(i * sizeof(T), sizeof(T)))); }
};
template<class T> std::vector<T> Pool<T>::v;

unsigned g_level, g_cost; std::string g_prefix;
void add(const char *name, unsigned cost, std::function<std::string(const P &)> f, std::function<bool(const std::string &, const std::string &)> same = nullptr) {
    titems::ops().push_back({g_prefix + "." + name, g_level, cost > 3 ? 3 : cost, f, same});
}
// What f prints.
template<class Fn> std::string printed(Fn f) {
    struct Catch { Catch() { titems::catch_text(true); } ~Catch() { titems::catch_text(false); } };
    { Catch c; f(); }
    const char *b; size_t n = titems::caught_text(b); return std::string(b, n);
}
// ---------------------------------------------------------------- fields
// An operand: the shared object itself or, so that one address holds several
// values in turn, a copy in a place of the thread's own.
template<class T> const T &operand(size_t i, uint64_t w) {
    const T &t = Pool<T>::v[i]; if ((w >> 44 & 3) != 1) return t;
    alignas(T) static thread_local char own[8][sizeof(T)]; char *o = own[titems::place++ % 8]; memcpy(o, (const void *)&t, sizeof t); return *(const T *)o;
}
template<class F> const F &any(uint64_t w) { return operand<F>(w % Pool<F>::v.size(), w); }
template<class F> const F &nz(uint64_t w) { return operand<F>(1 + w % (Pool<F>::v.size() - 1), w); }
bigint<4> big(uint64_t w) { bigint<4> b; b.data[0] = w; b.data[1] = w * 0x9E3779B97F4A7C15ull >> (w & 63); return b; }

#define OPT(fn, cost, expr) \
template<class F> auto opt_##fn(int c, int) -> decltype((void)(std::declval<const F &>().fn())) { add(#fn, c + cost, [](const P &p) { const F &a = nz<F>(p[0]); (void)a; return bytes(expr); }); } \
template<class F> void opt_##fn(int, long) {}
OPT(squared_karatsuba, 0, a.squared_karatsuba())
OPT(squared_complex, 0, a.squared_complex())
OPT(unitary_inverse, 0, a.unitary_inverse())
OPT(cyclotomic_squared, 0, a.cyclotomic_squared())
#define OPT2(fn, cost, proto, expr) \
template<class F> auto opt_##fn(int c, int) -> decltype((void)(proto)) { add(#fn, c + cost, [](const P &p) { const F &a = nz<F>(p[0]), &b = any<F>(p[1]); (void)a; (void)b; return bytes(expr); }); } \
template<class F> void opt_##fn(int, long) {}
template<class F> F sparse023(F b) { b.c0.c1 = decltype(b.c0.c1)::zero(); return b; }
template<class F> F sparse2345(F b) { b.c0.c0 = b.c0.c1 = decltype(b.c0.c0)::zero(); return b; }
OPT2(mul_by_023, 0, std::declval<const F &>().mul_by_023(std::declval<F>()), a.mul_by_023(sparse023<F>(b)))
OPT2(mul_by_2345, 0, std::declval<const F &>().mul_by_2345(std::declval<F>()), a.mul_by_2345(sparse2345<F>(b)))
OPT2(mul_by_024, 0, std::declval<const F &>().mul_by_024(std::declval<const F &>().c0.c0, std::declval<const F &>().c0.c0, std::declval<const F &>().c0.c0), a.mul_by_024(b.c0.c0, b.c1.c1, b.c0.c2))
OPT2(mul_by_045, 0, std::declval<const F &>().mul_by_045(std::declval<const F &>().c0.c0, std::declval<const F &>().c0.c0, std::declval<const F &>().c0.c0), a.mul_by_045(b.c0.c0, b.c1.c1, b.c0.c2))
OPT2(mul_by_non_residue, 0, F::mul_by_non_residue(std::declval<const F &>().c0), F::mul_by_non_residue(a.c0))
OPT2(cyclotomic_exp, 2, std::declval<const F &>().cyclotomic_exp(bigint<4>()), a.cyclotomic_exp(big(p[2])))
OPT2(Frobenius_map, 0, std::declval<const F &>().Frobenius_map(1ul), a.Frobenius_map(p[2] % (2 * F::extension_degree())))

template<class F> void basic(int c) {       // every field
    add("add", 0, [](const P &p) { return bytes(any<F>(p[0]) + any<F>(p[1])); });
    add("sub", 0, [](const P &p) { return bytes(any<F>(p[0]) - any<F>(p[1])); });
    add("mul", 0, [](const P &p) { return bytes(any<F>(p[0]) * any<F>(p[1])); });
    add("neg", 0, [](const P &p) { return bytes(-any<F>(p[0])); });
    add("squared", 0, [](const P &p) { return bytes(any<F>(p[0]).squared()); });
    add("inverse", c + 1, [](const P &p) { return bytes(nz<F>(p[0]).inverse()); });
    add("power", c + 1, [](const P &p) { return bytes(any<F>(p[0]) ^ (unsigned long)(p[2] >> (p[3] % 64))); });
    add("power_big", c + 2, [](const P &p) { return bytes(any<F>(p[0]) ^ big(p[2])); });
    add("compare", 0, [](const P &p) { const F &a = any<F>(p[0]), &b = any<F>(p[1]); std::string s; s += a == b ? '1' : '0'; s += a != b ? '1' : '0'; s += a.is_zero() ? '1' : '0'; s += a == F::one() ? '1' : '0'; s += b == F::zero() ? '1' : '0'; return s; });
    add("in_place", c + 1, [](const P &p) { F x = nz<F>(p[0]); const F &b = nz<F>(p[1]); x += b; x *= b; x -= any<F>(p[2]); x.square(); if (!x.is_zero()) x.invert(); x ^= (unsigned long)(p[3] % 13); return bytes(x); });
    add("words", 0, [](const P &p) { auto w = any<F>(p[0]).to_words(); F x = any<F>(p[1]); bool ok = x.from_words(w); return vbytes(w) + (ok ? "1" : "0") + bytes(x); });
    add("stream", 1, [](const P &p) { std::string s = text(any<F>(p[0])); std::istringstream i(s); F x = any<F>(p[1]); i >> x; check(i); return s + bytes(x); });
    add("constants", 0, [](const P &) { return bytes(F::zero()) + bytes(F::one()) + bytes(F::one() + F::one()) + std::to_string(F::ceil_size_in_bits()) + "/" + std::to_string(F::floor_size_in_bits()); });
    add("print", 1, [](const P &p) { return printed([&] { any<F>(p[0]).print(); }); });
    add("clear", 0, [](const P &p) { F x = any<F>(p[0]); x.clear(); return bytes(x); });
    add("batch_invert", c + 1, [](const P &p) { std::vector<F> v; for (uint64_t i = 0; i < 1 + p[1] % 5; ++i) v.push_back(nz<F>(p[0] + i)); { KEEP(v); batch_invert<F>(v); } return vbytes(v); });
    add("chain", c + 1, [](const P &p) { F x = any<F>(p[0]); for (uint64_t i = 0; i < 6; ++i) { x = x * any<F>(p[1] + i) + any<F>(p[2] + i); if (p[3] >> i & 1) x = x.squared(); else x = x - any<F>(p[4] + i); } return bytes(x); });
}
template<class F> void ext(int c) {
    opt_squared_karatsuba<F>(c, 0); opt_squared_complex<F>(c, 0); opt_unitary_inverse<F>(c, 0); opt_cyclotomic_squared<F>(c, 0); opt_cyclotomic_exp<F>(c, 0);
    opt_mul_by_023<F>(c, 0); opt_mul_by_2345<F>(c, 0); opt_mul_by_024<F>(c, 0); opt_mul_by_045<F>(c, 0); opt_mul_by_non_residue<F>(c, 0); opt_Frobenius_map<F>(c, 0);
}
template<class F> void root(int c) {
    add("sqrt", c, [](const P &p) { const F &a = any<F>(p[0]); F s = a.squared().sqrt(); return bytes(s); }, [](const std::string &x, const std::string &y) { return of<F>(x) == of<F>(y) || of<F>(x) == -of<F>(y); });
}
template<class F> void prime() {
    const mp_size_t n = F::num_limbs; (void)n;
    add("as_bigint", 0, [](const P &p) { return bytes(any<F>(p[0]).as_bigint()) + std::to_string(any<F>(p[1]).as_ulong()); });
    add("from_bigint", 0, [](const P &p) { return bytes(F(any<F>(p[0]).as_bigint())) + bytes(F(any<F>(p[1]).mont_repr)); });
    add("from_long", 0, [](const P &p) { return bytes(F((long)p[0])) + bytes(F((long)p[1], true)) + bytes(F(-(long)(p[2] % 9))); });
    add("from_text", 1, [](const P &p) { return bytes(F(std::to_string(p[0]).append(std::to_string(p[1])).c_str())); });
    add("bits", 1, [](const P &p) { auto b = convert_field_element_to_bit_vector<F>(any<F>(p[0])); F x = convert_bit_vector_to_field_element<F>(b); return vbytes(b) + bytes(x); });
    add("pack", 1, [](const P &p) { bit_vector b; for (int i = 0; i < 90; ++i) b.push_back(p[0] >> (i % 64) & 1); return vbytes(pack_bit_vector_into_field_element_vector<F>(b)) + vbytes(pack_bit_vector_into_field_element_vector<F>(b, 7)) + vbytes(convert_bit_vector_to_field_element_vector<F>(b)); });
    add("root_of_unity", 1, [](const P &p) { return bytes(get_root_of_unity<F>(1ul << (p[0] % (F::s < 12 ? F::s : 12)))) + bytes(coset_shift<F>()); });
    add("generators", 0, [](const P &) { return bytes(F::geometric_generator()) + bytes(F::arithmetic_generator()) + bytes(F::multiplicative_generator) + bytes(F::nqr); });
    add("hash_rng", 1, [](const P &p) { return bytes(SHA512_rng<F>(p[0] % 1000)); });
    add("print_hex", 1, [](const P &p) { return printed([&] { any<F>(p[0]).mont_repr.print_hex(); any<F>(p[1]).as_bigint().print(); }); });
    add("wnaf", 1, [](const P &p) { return vbytes(find_wnaf(1 + p[1] % 7, any<F>(p[0]).as_bigint())); });
    add("bigint", 1, [](const P &p) {
        auto b = any<F>(p[0]).as_bigint(); auto c = any<F>(p[1]).mont_repr; std::string s = std::to_string(b.num_bits()) + (b < c ? "<" : ">") + (b == c ? "=" : "!") + (b.is_even() ? "e" : "o") + (b.test_bit(p[2] % 400) ? "1" : "0");
        s += text(b); mpz_t z; mpz_init(z); b.to_mpz(z); decltype(b) d(z); mpz_clear(z); std::istringstream i(text(c)); decltype(b) e; i >> e; check(i); return s + bytes(d) + bytes(e); });
    add("bigint_text", 1, [](const P &p) { std::string d = std::to_string(p[0]) + std::to_string(p[1]); bigint<F::num_limbs> b(d.c_str()); return bytes(b); });
}
template<class F> void field(const std::string &nm, int c, size_t n, int sqrtc) {
    g_level = 1; g_prefix = nm;
    // The last ones differ from one before them in some limbs only.
    new Pool<F>(n + 4, [n](size_t i) {
        if (i >= n) {
            F f = Pool<F>::v[n - 1 - (i - n) / 2]; char *b = (char *)&f; size_t z = sizeof f, k = sizeof f >= 16 ? 8 : sizeof f / 2;
            if (i == n) memset(b + z - k, 0, k); else if (i == n + 1) memset(b, 0, k); else if (i == n + 2) memset(b + z / 2 / k * k, 0, z - z / 2 / k * k); else memset(b, 0, z / 2 / k * k);
            return f.is_zero() ? F::one() : f;
        }
        return i == 0 ? F::zero() : i == 1 ? F::one() : i == 2 ? -F::one() : gen::Value<F>::from(i % 4 == 3 ? 2 : 3, i * 7919 + (i & 1)) + F::one() + (gen::Value<F>::from(3, i * 31) + F::one()); });
    basic<F>(c); ext<F>(c); if (sqrtc >= 0) root<F>(sqrtc);
}
// ---------------------------------------------------------------- groups
#if defined(SIM_ALT) || defined(SIM_BLS)
// Another point with the same Y and Z.
template<class G> G image(G g) {
    typedef SIM_PP::Fq_type Fq; static const Fq beta = [] { auto e = Fq::euler; mpn_mul_1(e.data, e.data, Fq::num_limbs, 2); mpn_divrem_1(e.data, 0, e.data, Fq::num_limbs, 3); for (Fq x = Fq(2);; x += Fq::one()) { Fq b = x ^ e; if (b != Fq::one()) return b; } }();
    g.X = beta * g.X; return g;
}
#else
template<class G> G image(G g) { return gen::other_rep(g, 2); }
#endif
template<class G> bool gsame(const std::string &a, const std::string &b) { if (a.size() != b.size() || a.size() % sizeof(G)) return false; for (size_t i = 0; i < a.size(); i += sizeof(G)) if (!(of<G>(a.substr(i, sizeof(G))) == of<G>(b.substr(i, sizeof(G))))) return false; return true; }
template<class F> F halved_field(F f, uint64_t w) { size_t h = sizeof f / 2; memset((char *)&f + (w & 1 ? h : 0), 0, h); return f; }
template<class G> auto opt_cof(int) -> decltype((void)std::declval<const G &>().mul_by_cofactor()) { add("mul_by_cofactor", 2, [](const P &p) { return bytes(any<G>(p[0]).mul_by_cofactor()); }, gsame<G>); }
template<class G> void opt_cof(long) {}
// Coordinates that share some of their coefficients with a point's (on no curve).
template<class G> G halved(G g, uint64_t w) { if (w & 2) g.X = halved_field(g.X, w); else g.Y = halved_field(g.Y, w); return g; }
template<class G> auto opt_mbq(int) -> decltype((void)std::declval<const G &>().mul_by_q()) { add("mul_by_q", 1, [](const P &p) { return bytes(any<G>(p[0]).mul_by_q()); }, gsame<G>);
    add("mul_by_q_halves", 1, [](const P &p) { return bytes(halved(any<G>(p[0]), p[1]).mul_by_q()); }); }
template<class G> void opt_mbq(long) {}
template<class G> void group(const std::string &nm) {
    g_level = 2; g_prefix = nm; typedef typename G::scalar_field S;
    // The last ones share coordinates with one another.
    new Pool<G>(16, [](size_t i) { gen::Pool<G>::fill(12); if (i >= 10) { G g = gen::Pool<G>::pts[4]; if (i / 2 == 6) g = image(g); if (i >= 14) g.to_special(); return i & 1 ? -g : g; } G g = gen::Pool<G>::pts[(i + 1) % 12]; if (i >= 4) g = gen::other_rep(g, i == 0 ? 0 : i % 3 ? i : 2 * i - 10); if (i == 5) g.to_special(); return g; });
    // the same points in special form
    struct Sp { G g; };
    new Pool<Sp>(6, [](size_t i) { gen::Pool<G>::fill(12); G g = gen::Pool<G>::pts[i + 2]; g.to_special(); return Sp{g}; });
    auto gs = gsame<G>;
    add("plus", 0, [](const P &p) { return bytes(any<G>(p[0]) + any<G>(p[1])); }, gs);
    add("minus", 0, [](const P &p) { return bytes(any<G>(p[0]) - any<G>(p[1])); }, gs);
    add("add", 0, [](const P &p) { const G &a = any<G>(p[0]), &b = any<G>(p[1]); return a == b || a.is_zero() || b.is_zero() ? bytes(a + b) : bytes(a.add(b)); }, gs);
    add("mixed_add", 0, [](const P &p) { return bytes(any<G>(p[0]).mixed_add(Pool<Sp>::v[p[1] % 6].g)); }, gs);
    add("dbl", 0, [](const P &p) { return bytes(any<G>(p[0]).dbl()); }, gs);
    add("neg", 0, [](const P &p) { return bytes(-any<G>(p[0])); }, gs);
    add("compare", 0, [](const P &p) { const G &a = any<G>(p[0]), &b = any<G>(p[1]); std::string s; s += a == b ? '1' : '0'; s += a != b ? '1' : '0'; s += a.is_zero() ? '1' : '0'; s += a == G::zero() ? '1' : '0'; s += b == G::one() ? '1' : '0'; return s; });
    add("well_formed", 0, [](const P &p) { return std::string(any<G>(p[0]).is_well_formed() ? "1" : "0") + (any<G>(p[1]).is_special() ? "1" : "0"); });
    add("ill_formed", 0, [](const P &p) { G g = any<G>(p[0]); g.X = g.X + g.Z; g.Y = g.Y + g.X; return std::string(g.is_well_formed() ? "1" : "0"); });
    add("affine", 1, [](const P &p) { G a = any<G>(p[0]), b = any<G>(p[1]); a.to_affine_coordinates(); b.to_special(); return bytes(a) + bytes(b); }, gs);
    opt_cof<G>(0); opt_mbq<G>(0);
    add("print", 1, [](const P &p) { return printed([&] { any<G>(p[0]).print(); }); });
    add("print_coordinates", 1, [](const P &p) { return printed([&] { any<G>(p[0]).print_coordinates(); }); });
    add("times_scalar", 3, [](const P &p) { return bytes(any<S>(p[0]) * any<G>(p[1])); }, gs);
    add("times_small", 1, [](const P &p) { return bytes(bigint<1>((unsigned long)(p[0] >> (p[2] % 64))) * any<G>(p[1])); }, gs);
    add("wnaf_fixed", 2, [](const P &p) { bigint<1> k((unsigned long)(p[0] >> (p[2] % 40))); return bytes(fixed_window_wnaf_exp<G, 1>(1 + p[3] % 4, any<G>(p[1]), k)); }, gs);
    add("wnaf_opt", 3, [](const P &p) { bigint<2> k; k.data[0] = p[0]; k.data[1] = p[4] >> (p[2] % 64); return bytes(opt_window_wnaf_exp<G, 2>(any<G>(p[1]), k, k.num_bits())); }, gs);
    add("in_order", 3, [](const P &p) { return std::string((G::order() * any<G>(p[0])).is_zero() ? "1" : "0"); });
    add("stream", 2, [](const P &p) { std::string s = text(any<G>(p[0])); std::istringstream i(s); G g = any<G>(p[1]); i >> g; check(i); return bytes(g); }, gs);
    add("write", 1, [](const P &p) { return text(any<G>(p[0])) + "|" + text(G::one()); });
    add("vector_stream", 3, [](const P &p) { std::vector<G> v{any<G>(p[0]), any<G>(p[1])}, w; std::string s = text(v); std::istringstream i(s); i >> w; check(i); return vbytes(w); }, gs);
    add("constants", 0, [](const P &) { return bytes(G::zero()) + bytes(G::one()) + bytes(G::order()) + std::to_string(G::size_in_bits()); });
    add("chain", 1, [](const P &p) { G x = any<G>(p[0]); for (int i = 0; i < 5; ++i) { x = x + any<G>(p[1] + i); x = p[2] >> i & 1 ? x.dbl() : x - any<G>(p[3] + i); } return bytes(x); }, gs);
    add("batch_special", 2, [](const P &p) { std::vector<G> v; for (uint64_t i = 0; i < 1 + p[1] % 4; ++i) v.push_back(any<G>(p[0] + i)); std::vector<G> w; for (auto &g : v) if (!g.is_zero()) w.push_back(g); if (w.empty()) return std::string(); { KEEP(w); G::batch_to_special_all_non_zeros(w); } return vbytes(w); }, gs);
}
// -------------------------------------------------------------- pairings
#ifndef SIM_GF
typedef SIM_PP PP; typedef PP::G1_type G1; typedef PP::G2_type G2; typedef PP::Fqk_type Fk;
template<class G> const G &finite(uint64_t w) { size_t i = w % Pool<G>::v.size(); while (Pool<G>::v[i].is_zero()) i = (i + 1) % Pool<G>::v.size(); return operand<G>(i, w); }
const G1 &p1(uint64_t w) { return finite<G1>(w); }
const G2 &p2(uint64_t w) { return finite<G2>(w); }
struct Pre : titems::Precomps {
    std::vector<PP::G1_precomp_type> a; std::vector<PP::G2_precomp_type> b;
    void make(unsigned n) override { for (unsigned i = 0; i < n; ++i) { a.push_back(PP::precompute_G1(p1(i))); b.push_back(PP::precompute_G2(p2(2 * i + 1))); } }
    bool ready() const override { return !a.empty(); }
    uint64_t digest() const override { uint64_t h = 7; for (auto &x : a) h = h * 31 + sim::fnv(text(x)); for (auto &x : b) h = h * 31 + sim::fnv(text(x)); return h; }
} *pre;
template<class Q> void affine(int, decltype((void)Q::affine_ate_precompute_G1(std::declval<G1>())) * = nullptr) {
    add("affine_pairing", 3, [](const P &p) { return bytes(Q::affine_reduced_pairing(p1(p[0]), p2(p[1]))); });
    add("affine_miller", 3, [](const P &p) { return bytes(Q::affine_ate_miller_loop(Q::affine_ate_precompute_G1(p1(p[0])), Q::affine_ate_precompute_G2(p2(p[1])))); });
    add("affine_e_over_e", 3, [](const P &p) { auto a = Q::affine_ate_precompute_G1(p1(p[0])), c = Q::affine_ate_precompute_G1(p1(p[2])); auto b = Q::affine_ate_precompute_G2(p2(p[1])); return bytes(Q::affine_ate_e_over_e_miller_loop(a, b, c, b)); });
    add("affine_e_times_e_over_e", 3, [](const P &p) { auto a = Q::affine_ate_precompute_G1(p1(p[0])), c = Q::affine_ate_precompute_G1(p1(p[2])); auto b = Q::affine_ate_precompute_G2(p2(p[1])); return bytes(Q::affine_ate_e_times_e_over_e_miller_loop(a, b, c, b, c, b)); });
}
template<class Q> void affine(long) {}
void pairing(const std::string &nm) {
    g_level = 3; g_prefix = nm; pre = new Pre; titems::precomps().push_back(pre);
    add("precompute_G1", 0, [](const P &p) { return text(PP::precompute_G1(p1(p[0]))); });
    add("precompute_G2", 2, [](const P &p) { return text(PP::precompute_G2(p2(p[0]))); });
    add("miller_loop", 2, [](const P &p) { if (pre->ready()) return bytes(PP::miller_loop(pre->a[p[0] % pre->a.size()], pre->b[p[1] % pre->b.size()])); return bytes(PP::miller_loop(PP::precompute_G1(p1(p[0])), PP::precompute_G2(p2(p[1])))); });
    add("double_miller_loop", 3, [](const P &p) { if (pre->ready()) return bytes(PP::double_miller_loop(pre->a[p[0] % pre->a.size()], pre->b[p[1] % pre->b.size()], pre->a[p[2] % pre->a.size()], pre->b[p[3] % pre->b.size()])); return bytes(PP::double_miller_loop(PP::precompute_G1(p1(p[0])), PP::precompute_G2(p2(p[1])), PP::precompute_G1(p1(p[2])), PP::precompute_G2(p2(p[3])))); });
    add("final_exponentiation", 2, [](const P &p) { return bytes(PP::final_exponentiation(nz<Fk>(p[0]))); });
    add("pairing", 3, [](const P &p) { return bytes(PP::pairing(p1(p[0]), p2(p[1]))); });
    add("reduced_pairing", 3, [](const P &p) { return bytes(PP::reduced_pairing(p1(p[0]), p2(p[1]))); });
    add("precomp_stream", 2, [](const P &p) { PP::G2_precomp_type q, r = pre->ready() ? pre->b[p[0] % pre->b.size()] : PP::precompute_G2(p2(p[0])); std::string s = text(r); std::istringstream i(s); i >> q; check(i); return s + (q == r ? "1" : "0"); });
#ifdef SIM_EDW
    add("tate_pairing", 3, [](const P &p) { return bytes(edwards_tate_reduced_pairing(p1(p[0]), p2(p[1]))); });
#endif
    affine<PP>(0);
}
#endif
#ifdef SIM_A
// ------------------------------------- further operations that allocate
template<class T> std::vector<T> some(uint64_t w, uint64_t n) { std::vector<T> v; for (uint64_t i = 0; i < n; ++i) v.push_back(any<T>(w + i * (w >> 40 | 1))); return v; }
template<class T, class F> void reread(const char *name, F make) { add(name, 2, [make](const P &p) { T t = make(p), u; std::string s = text(t); std::istringstream i(s); i >> u; check(i); return s + "|" + text(u); }); }
template<class F> void containers(const std::string &nm) {
    g_level = 4; g_prefix = nm;
    reread<std::vector<F>>("vector", [](const P &p) { return some<F>(p[0], p[1] % 6); });
    reread<std::map<bigint<4>, F>>("map", [](const P &p) { std::map<bigint<4>, F> m; for (uint64_t i = 0; i < p[1] % 5; ++i) m[big(p[0] + i)] = any<F>(p[2] + i); return m; });
    reread<std::set<bigint<4>>>("set", [](const P &p) { std::set<bigint<4>> m; for (uint64_t i = 0; i < p[1] % 5; ++i) m.insert(big(p[0] + i)); return m; });
}
template<class F> void packing(const std::string &nm) {
    g_level = 4; g_prefix = nm;
    add("pack_ints", 1, [](const P &p) { std::vector<size_t> v; for (uint64_t i = 0; i < 1 + p[1] % 40; ++i) v.push_back((p[0] * (2 * i + 1)) >> 40); return vbytes(pack_int_vector_into_field_element_vector<F>(v, 24)); });
    add("to_bits", 1, [](const P &p) { return vbytes(convert_field_element_vector_to_bit_vector<F>(some<F>(p[0], p[1] % 5))) + vbytes(convert_field_element_to_bit_vector<F>(any<F>(p[0]), 1 + p[2] % F::num_bits)); });
    add("reserialize", 2, [](const P &p) { return bytes(reserialize<F>(any<F>(p[0]))) + vbytes(reserialize<std::vector<F>>(some<F>(p[1], p[2] % 4))); });
    add("inner_product", 1, [](const P &p) { auto a = some<F>(p[0], p[2] % 7), b = some<F>(p[1], p[2] % 7); KEEP(a); KEEP(b); return bytes(inner_product<F>(a.begin(), a.end(), b.begin(), b.end())); });
}
template<class G> void special(std::vector<G> &v) {     // what mixed addition asks of its inputs
#ifdef USE_MIXED_ADDITION
    for (auto &b : v) b.to_special();
#endif
}
template<class G> void batches(const std::string &nm) {
    typedef typename G::scalar_field S; g_level = 4; g_prefix = nm; auto gs = gsame<G>;
#define MEX(N, FN, M) add(N, 3, [](const P &p) { auto b = some<G>(p[0], p[2] % 7); auto s = some<S>(p[1], b.size()); special(b); KEEP(b); KEEP(s); return bytes(FN<G, S, M>(b.begin(), b.end(), s.begin(), s.end(), 1 + p[3] % 3)); }, gs);
    MEX("multi_exp_naive", multi_exp, multi_exp_method_naive) MEX("multi_exp_plain", multi_exp, multi_exp_method_naive_plain)
    MEX("multi_exp_bos_coster", multi_exp, multi_exp_method_bos_coster) MEX("multi_exp_BDLO12", multi_exp, multi_exp_method_BDLO12)
    MEX("multi_exp_mixed", multi_exp_with_mixed_addition, multi_exp_method_bos_coster) MEX("multi_exp_mixed_BDLO12", multi_exp_with_mixed_addition, multi_exp_method_BDLO12)
#undef MEX
    add("window_table", 3, [](const P &p) { auto t = get_window_table<G>(1 + p[0] % 24, 1 + p[1] % 4, any<G>(p[2])); std::string s; for (auto &r : t) s += vbytes(r); return s; }, gs);
    add("batch_exp", 3, [](const P &p) { size_t w = 1 + p[1] % 4, n = S::ceil_size_in_bits(); auto t = get_window_table<G>(n, w, any<G>(p[2])); auto v = some<S>(p[0], p[3] % 5); KEEP(t); KEEP(v); return vbytes(batch_exp<G, S>(n, w, t, v)); }, gs);
    add("batch_exp_with_coeff", 3, [](const P &p) { size_t w = 1 + p[1] % 4, n = S::ceil_size_in_bits(); auto t = get_window_table<G>(n, w, any<G>(p[2])); auto v = some<S>(p[0], p[3] % 5); KEEP(t); KEEP(v); return vbytes(batch_exp_with_coeff<G, S>(n, w, t, any<S>(p[4]), v)); }, gs);
    add("batch_to_special", 2, [](const P &p) { auto v = some<G>(p[0], p[1] % 7); { KEEP(v); batch_to_special<G>(v); } return vbytes(v); }, gs);
    add("curve_size", 1, [](const P &p) { return std::to_string(curve_size_in_bits<G>(some<G>(p[0], p[1] % 7))); });
    reread<std::vector<G>>("vector_of", [](const P &p) { return some<G>(p[0], p[1] % 6); });
    add("reserialize", 2, [](const P &p) { return bytes(reserialize<G>(any<G>(p[0]))); }, gs);
}
#ifdef SIM_GF
void utilities() {
    g_level = 4; g_prefix = "gf.utils";
    add("int_list_to_bits", 1, [](const P &p) { return vbytes(int_list_to_bits({p[0], p[1], p[2], p[3]}, 1 + p[4] % 64)); });
    add("FORMAT", 1, [](const P &p) { return FORMAT(std::string(p[0] % 60, 'a'), "%llx %s", (unsigned long long)p[1], std::string(p[2] % 90, 'b').c_str()); });
    add("bit_vector", 2, [](const P &p) { bit_vector v, u; for (uint64_t i = 0; i < p[1] % 200; ++i) v.push_back(p[0] >> (i % 64) & 1); std::ostringstream o; serialize_bit_vector(o, v); if (!o) throw titems::StreamFailed(); std::istringstream i(o.str()); deserialize_bit_vector(i, u); check(i); return o.str() + vbytes(u); });
    add("bool_vector", 2, [](const P &p) { bit_vector v, u; for (uint64_t i = 0; i < p[1] % 50; ++i) v.push_back(p[0] >> (i % 64) & 1); std::ostringstream o; output_bool_vector(o, v); if (!o) throw titems::StreamFailed(); std::istringstream i(o.str()); input_bool_vector(i, u); check(i); return o.str() + vbytes(u); });
    add("nested", 2, [](const P &p) { typedef std::vector<std::vector<bigint<3>>> V; V v, u; for (uint64_t i = 0; i < p[1] % 4; ++i) { v.emplace_back(); for (uint64_t k = 0; k < p[2] % 3; ++k) { bigint<3> b; b.data[0] = p[0] * (k + 1); b.data[2] = i; v.back().push_back(b); } } std::string s = text(v); std::istringstream i(s); i >> u; check(i); return s + "|" + text(u); });
}
#endif
#endif
#ifdef SIM_GF
void numbers() {
    g_level = 1; g_prefix = "gf.numbers";
    add("words", 0, [](const P &p) { size_t n = p[0] >> (p[1] % 64); std::string s; for (size_t k : {libff::log2(n), get_power_of_two(n >> 1 | 1), n ? round_to_next_power_of_2(n >> 1 | 1) : 0, (size_t)is_power_of_2(n), libff::exp2(p[2] % 63), bitreverse(p[2] % (1ul << (1 + p[3] % 40)), 1 + p[3] % 40)}) s += std::to_string(k) + " "; return s; });
    add("twos_complement", 0, [](const P &p) { size_t w = 2 + p[1] % 30; long h = 1l << (w - 1); int i = (int)((long)(p[0] % (2 * h)) - h); size_t t = to_twos_complement(i, w); return std::to_string(t) + "/" + std::to_string(from_twos_complement(t, w)); });
    add("int_list_to_bits", 1, [](const P &p) { return vbytes(int_list_to_bits({p[0], p[1], p[2], p[3]}, 1 + p[4] % 64)); });
    add("div_ceil", 0, [](const P &p) { return std::to_string(div_ceil(p[0] >> 2, 1 + (p[1] >> 3))) + (is_little_endian() ? "l" : "b"); });
    add("FORMAT", 1, [](const P &p) { return FORMAT(std::string(p[0] % 60, 'a'), "%llx %s", (unsigned long long)p[1], std::string(p[2] % 90, 'b').c_str()); });
    add("double", 0, [](const P &p) { Double a((double)(p[0] % 1000) + 1, (double)(p[1] % 7)), b((double)(p[2] % 999) + 1); Double c = a * b - b + a.squared() - Double::one(); c += a; c *= b; c -= Double::zero(); Double d = (-c + a.inverse()) ^ (size_t)(p[3] % 5); return bytes(c.val) + bytes(d.val) + (a == b ? "=" : "!") + (a < b ? "<" : ">") + std::to_string(b.as_ulong()); });
}
#endif
void enroll() {
#ifdef SIM_GF
    numbers();
    field<gf32>("gf32", 0, 9, 0); field<gf64>("gf64", 0, 9, 1); field<gf128>("gf128", 0, 9, 1); field<gf192>("gf192", 0, 9, 1); field<gf256>("gf256", 1, 9, 2);
#ifdef SIM_A
    containers<gf128>("gf.gf128"); containers<gf192>("gf.gf192"); utilities();
#endif
#else
    std::string c = SIM_CURVE ".";
    field<PP::Fp_type>(c + "Fr", 0, 10, 2); prime<PP::Fp_type>();
    field<PP::Fq_type>(c + "Fq", 0, 10, 2); prime<PP::Fq_type>();
    field<PP::Fqe_type>(c + "Fqe", 0, 8, 3);
    #if defined(SIM_MNT4) || defined(SIM_EDW)
    field<PP::Fqk_type>(c + "Fqk", 1, 8, 4);
#else
    field<PP::Fqk_type>(c + "Fqk", 1, 8, -1);       // their roots take seconds here
#endif
#if defined(SIM_ALT)
    field<alt_bn128_Fq6>(c + "Fq6", 1, 8, -1);
#elif defined(SIM_BLS)
    field<bls12_381_Fq6>(c + "Fq6", 1, 8, -1);
#elif defined(SIM_MNT4)
    // the quartic field squares roots through its own parameters
#endif
    group<G1>(c + "G1"); group<G2>(c + "G2");
    pairing(c + "pairing");
#ifdef SIM_A
    containers<PP::Fp_type>(c + "Fr"); packing<PP::Fp_type>(c + "Fr"); packing<PP::Fq_type>(c + "Fq");
    batches<G1>(c + "G1"); batches<G2>(c + "G2");
#endif
#endif
}
// ------------------------------------------------------------ parameters
struct Dig { titems::Params v; std::string pre;
    template<class T> void put(const char *n, const T &t) { v.emplace_back(pre + n, bytes(t)); }
    void put(const char *n, const std::vector<size_t> &t) { v.emplace_back(pre + n, vbytes(t)); } };
#define MEMBER(name) template<class F> auto m_##name(Dig &d, int) -> decltype((void)F::name) { d.put(#name, F::name); } template<class F> void m_##name(Dig &, long) {}
#define SCALAR(name) template<class F> auto m_##name(Dig &d, int) -> decltype((void)F::name) { d.v.emplace_back(d.pre + #name, std::to_string(F::name)); } template<class F> void m_##name(Dig &, long) {}
SCALAR(num_bits) SCALAR(modulus_)
#define MEMBERS X(euler) X(s) X(t) X(t_minus_1_over_2) X(nqr) X(nqr_to_t) X(multiplicative_generator) X(root_of_unity) X(inv) X(Rsquared) X(Rcubed) X(mod) X(non_residue) \
    X(Frobenius_coeffs_c1) X(Frobenius_coeffs_c2) X(G1_zero) X(G1_one) X(G2_zero) X(G2_one) X(h) X(coeff_a) X(coeff_b) X(twist) X(wnaf_window_table) X(fixed_base_exp_window_table) X(initialized)
#define X(n) MEMBER(n)
MEMBERS
#undef X
template<class F> void members(Dig &d, const std::string &pre) {
    d.pre = pre + "."; m_num_bits<F>(d, 0); m_modulus_<F>(d, 0);
#define X(n) m_##n<F>(d, 0);
    MEMBERS
#undef X
}
#define V(n) d.put(#n, libff::n);
titems::Params params() {
    Dig d;
#ifdef SIM_GF
    members<gf32>(d, "gf32"); members<gf64>(d, "gf64"); members<gf128>(d, "gf128"); members<gf192>(d, "gf192"); members<gf256>(d, "gf256");
#else
    std::string c = SIM_CURVE ".";
    members<PP::Fp_type>(d, c + "Fr"); members<PP::Fq_type>(d, c + "Fq"); members<PP::Fqe_type>(d, c + "Fqe"); members<PP::Fqk_type>(d, c + "Fqk"); members<G1>(d, c + "G1"); members<G2>(d, c + "G2");
#endif
    d.pre = "";
#if defined(SIM_ALT)
    members<alt_bn128_Fq6>(d, c + "Fq6"); d.pre = "";
    V(alt_bn128_coeff_b) V(alt_bn128_twist) V(alt_bn128_twist_coeff_b) V(alt_bn128_twist_mul_by_b_c0) V(alt_bn128_twist_mul_by_b_c1) V(alt_bn128_twist_mul_by_q_X) V(alt_bn128_twist_mul_by_q_Y) V(alt_bn128_ate_loop_count) V(alt_bn128_ate_is_loop_count_neg) V(alt_bn128_final_exponent_z) V(alt_bn128_final_exponent_is_z_neg) V(alt_bn128_modulus_r) V(alt_bn128_modulus_q)
#elif defined(SIM_BLS)
    members<bls12_381_Fq6>(d, c + "Fq6"); d.pre = "";
    V(bls12_381_coeff_b) V(bls12_381_twist) V(bls12_381_twist_coeff_b) V(bls12_381_twist_mul_by_b_c0) V(bls12_381_twist_mul_by_b_c1) V(bls12_381_twist_mul_by_q_X) V(bls12_381_twist_mul_by_q_Y) V(bls12_381_ate_loop_count) V(bls12_381_ate_is_loop_count_neg) V(bls12_381_final_exponent) V(bls12_381_final_exponent_z) V(bls12_381_final_exponent_is_z_neg) V(bls12_381_modulus_r) V(bls12_381_modulus_q)
#elif defined(SIM_EDW)
    V(edwards_coeff_a) V(edwards_coeff_d) V(edwards_twist) V(edwards_twist_coeff_a) V(edwards_twist_coeff_d) V(edwards_twist_mul_by_a_c0) V(edwards_twist_mul_by_a_c1) V(edwards_twist_mul_by_a_c2) V(edwards_twist_mul_by_d_c0) V(edwards_twist_mul_by_d_c1) V(edwards_twist_mul_by_d_c2) V(edwards_twist_mul_by_q_Y) V(edwards_twist_mul_by_q_Z) V(edwards_ate_loop_count) V(edwards_final_exponent_last_chunk_abs_of_w0) V(edwards_final_exponent_last_chunk_is_w0_neg) V(edwards_final_exponent_last_chunk_w1) V(edwards_modulus_r) V(edwards_modulus_q)
#elif defined(SIM_MNT4)
    V(mnt4_twist) V(mnt4_twist_coeff_a) V(mnt4_twist_coeff_b) V(mnt4_twist_mul_by_a_c0) V(mnt4_twist_mul_by_a_c1) V(mnt4_twist_mul_by_b_c0) V(mnt4_twist_mul_by_b_c1) V(mnt4_twist_mul_by_q_X) V(mnt4_twist_mul_by_q_Y) V(mnt4_ate_loop_count) V(mnt4_ate_is_loop_count_neg) V(mnt4_final_exponent) V(mnt4_final_exponent_last_chunk_abs_of_w0) V(mnt4_final_exponent_last_chunk_is_w0_neg) V(mnt4_final_exponent_last_chunk_w1) V(mnt46_modulus_A) V(mnt46_modulus_B)
#elif defined(SIM_MNT6)
    V(mnt6_twist) V(mnt6_twist_coeff_a) V(mnt6_twist_coeff_b) V(mnt6_twist_mul_by_a_c0) V(mnt6_twist_mul_by_a_c1) V(mnt6_twist_mul_by_a_c2) V(mnt6_twist_mul_by_b_c0) V(mnt6_twist_mul_by_b_c1) V(mnt6_twist_mul_by_b_c2) V(mnt6_twist_mul_by_q_X) V(mnt6_twist_mul_by_q_Y) V(mnt6_ate_loop_count) V(mnt6_ate_is_loop_count_neg) V(mnt6_final_exponent) V(mnt6_final_exponent_last_chunk_abs_of_w0) V(mnt6_final_exponent_last_chunk_is_w0_neg) V(mnt6_final_exponent_last_chunk_w1) V(mnt46_modulus_A) V(mnt46_modulus_B)
#endif
    return d.v;
}
#ifdef SIM_GF
void no_init() {}
titems::RegCurve reg({"gf", enroll, no_init, params});
#else
titems::RegCurve reg({SIM_CURVE, enroll, PP::init_public_params, params});
#endif
}
