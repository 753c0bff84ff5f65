// Generation of library values from decisions (used by every harness).
#pragma once
#include "core.hpp"
#include <cstring>
#include <gmp.h>
#include <map>
#include <set>
#include <sstream>
#include <vector>
#include <libff/common/serialization.hpp>
#include <libff/common/profiling.hpp>
#include <libff/common/utils.hpp>
#include <libff/algebra/field_utils/bigint.hpp>
#include <libff/algebra/fields/prime_base/fp.hpp>
#include <libff/algebra/fields/prime_extension/fp2.hpp>
#include <libff/algebra/fields/prime_extension/fp3.hpp>
#include <libff/algebra/fields/prime_extension/fp4.hpp>
#include <libff/algebra/fields/prime_extension/fp6_2over3.hpp>
#include <libff/algebra/fields/prime_extension/fp6_3over2.hpp>
#include <libff/algebra/fields/prime_extension/fp12_2over3over2.hpp>
#include <libff/algebra/fields/binary/gf32.hpp>
#include <libff/algebra/fields/binary/gf64.hpp>
#include <libff/algebra/fields/binary/gf128.hpp>
#include <libff/algebra/fields/binary/gf192.hpp>
#include <libff/algebra/fields/binary/gf256.hpp>

namespace gen {
using libff::bigint;

// value classes, chosen by decisions; 0 is the simplest
template<mp_size_t n> bigint<n> limbs_below(const bigint<n> *mod, unsigned kind, uint64_t seed) {
    bigint<n> r;   // zero
    sim::Rng g(seed);
    auto sub1 = [&](uint64_t k) { r = *mod; mpn_sub_1(r.data, r.data, n, k); };
    switch (kind) {
    case 0: r = bigint<n>((unsigned long)(1 + seed % 9)); break;
    case 1: break;                                                     // 0
    case 2: if (mod) sub1(1 + seed % 3); else for (auto &x : r.data) x = ~0ul; break;
    case 3: for (auto &x : r.data) x = g.next(); break;                // random
    case 4: r.data[g.next() % n] = g.next(); break;                    // one limb
    case 5: { unsigned b = g.next() % (64 * n); r.data[b / 64] = 1ul << (b % 64); break; }
    case 6: for (auto &x : r.data) { switch (g.next() % 4) { case 0: x = 0; break; case 1: x = ~0ul; break; case 2: x = 1ul << 63; break; default: x = g.next(); } } break;
    default: r = bigint<n>((unsigned long)(g.next() % 1000)); break;
    }
    if (mod && mpn_cmp(r.data, mod->data, n) >= 0) {
        mp_limb_t q[2]; mp_limb_t rem[n]; mp_limb_t num[n]; (void)q;
        mpn_copyi(num, r.data, n);
        mp_size_t mn = n; while (mod->data[mn - 1] == 0) --mn;
        mp_limb_t qq[n + 1]; for (mp_size_t i = 0; i < n; ++i) rem[i] = 0;
        mpn_tdiv_qr(qq, rem, 0, num, n, mod->data, mn);
        for (mp_size_t i = 0; i < n; ++i) r.data[i] = rem[i];
    }
    return r;
}
inline unsigned kind() { return sim::choose_w({6, 3, 3, 8, 2, 2, 3, 1}); }

template<class T> struct Value;     // Value<T>::make() draws a value from decisions

template<mp_size_t n> struct Value<bigint<n>> {
    static bigint<n> make() { unsigned k = kind(); uint64_t s = sim::word32(); return limbs_below<n>(nullptr, k, s); }
};
template<mp_size_t n, const bigint<n> &m> struct Value<libff::Fp_model<n, m>> {
    typedef libff::Fp_model<n, m> F;
    static F from(unsigned k, uint64_t s) {
        bigint<n> b = limbs_below<n>(&m, k, s);
        if (s & 1) { F f; f.mont_repr = b; return f; }       // boundary values of the internal form too
        return F(b);
    }
    static F make() { unsigned k = kind(); uint64_t s = sim::word32(); return from(k, s); }
};
#define EXT2(M, SUB) template<mp_size_t n, const bigint<n> &m> struct Value<libff::M<n, m>> { \
    typedef libff::M<n, m> F; typedef libff::SUB<n, m> B; \
    static F from(unsigned k, uint64_t s) { sim::Rng g(s); unsigned k0 = k == 3 ? g.next() % 8 : k, k1 = k == 3 ? g.next() % 8 : k == 0 ? 1 : k; \
        B a = Value<B>::from(k0, g.next() >> 32), b = Value<B>::from(k1, g.next() >> 32); return F(a, b); } \
    static F make() { unsigned k = sim::choose_w({3, 2, 2, 6}); uint64_t s = sim::word32(); return from(k, s); } };
#define EXT3(M, SUB) template<mp_size_t n, const bigint<n> &m> struct Value<libff::M<n, m>> { \
    typedef libff::M<n, m> F; typedef libff::SUB<n, m> B; \
    static F from(unsigned k, uint64_t s) { sim::Rng g(s); unsigned k0 = k == 3 ? g.next() % 8 : k, k1 = k == 3 ? g.next() % 8 : k == 0 ? 1 : k, k2 = k == 3 ? g.next() % 8 : k == 0 ? 1 : k; \
        B a = Value<B>::from(k0, g.next() >> 32), b = Value<B>::from(k1, g.next() >> 32), c = Value<B>::from(k2, g.next() >> 32); return F(a, b, c); } \
    static F make() { unsigned k = sim::choose_w({3, 2, 2, 6}); uint64_t s = sim::word32(); return from(k, s); } };
EXT2(Fp2_model, Fp_model)
EXT3(Fp3_model, Fp_model)
EXT2(Fp4_model, Fp2_model)
EXT2(Fp6_2over3_model, Fp3_model)
EXT3(Fp6_3over2_model, Fp2_model)
EXT2(Fp12_2over3over2_model, Fp6_3over2_model)

inline uint64_t gfword(unsigned k, sim::Rng &g) {
    switch (k) { case 0: return 1; case 1: return 0; case 2: return ~0ull; case 3: return g.next(); case 4: return 1ull << (g.next() % 64); case 5: return g.next() & 0xff; case 6: return 1ull << 63; default: return g.next() >> (g.next() % 64); }
}
#define GFV(T, EXPR) template<> struct Value<libff::T> { static libff::T from(unsigned k, uint64_t s) { sim::Rng g(s); (void)k; return EXPR; } \
    static libff::T make() { unsigned k = kind(); uint64_t s = sim::word32(); return from(k, s); } };
GFV(gf32, libff::gf32((uint32_t)gfword(k, g)))
GFV(gf64, libff::gf64(gfword(k, g)))
inline uint64_t W(unsigned k, sim::Rng &g, int i) { return gfword(k == 0 ? (i ? 1 : 0) : k == 3 ? 3 : (k == 2 || k == 1) ? k : g.next() % 8, g); }
inline libff::gf128 mk128(unsigned k, sim::Rng &g) { uint64_t a = W(k, g, 1), b = W(k, g, 0); return libff::gf128(a, b); }
inline libff::gf192 mk192(unsigned k, sim::Rng &g) { uint64_t a = W(k, g, 1), b = W(k, g, 1), c = W(k, g, 0); return libff::gf192(a, b, c); }
inline libff::gf256 mk256(unsigned k, sim::Rng &g) { uint64_t a = W(k, g, 1), b = W(k, g, 1), c = W(k, g, 1), d = W(k, g, 0); return libff::gf256(a, b, c, d); }
GFV(gf128, mk128(k, g))
GFV(gf192, mk192(k, g))
GFV(gf256, mk256(k, g))

// Group elements come from a pool made once per process (so that making them
// does not depend on the run), in several internal representations.
template<class G> struct Pool {
    static std::vector<G> pts;           // pts[i] = logs[i] * G
    static std::vector<unsigned long> logs;
    // negative logs are recorded as neg[i]
    static void fill(size_t count) {
        if (!pts.empty()) return;
        G one = G::one(), acc = G::zero();
        sim::Rng g(99);
        auto put = [&](const G &p, unsigned long l) { pts.push_back(p); logs.push_back(l); };
        put(G::one(), 1); put(G::zero(), 0);
        G two = one.dbl(); put(two, 2); put(two + one, 3);
        while (pts.size() < count) {
            unsigned long k = g.next() & 0xfffffff; G r = G::zero();
            for (int i = 28; i >= 0; --i) { r = r.dbl(); if ((k >> i) & 1) r = r + one; }
            put(r, k);
            if (pts.size() % 3 == 0) { G s = r; s.to_affine_coordinates(); }
        }
    }
};
template<class G> std::vector<G> Pool<G>::pts;
template<class G> std::vector<unsigned long> Pool<G>::logs;

// A factor for the coordinates: random, or one, minus one or small, in the base
// field, with one as its first coefficient, sparse, or of zeros, ones, minus ones
// and random coefficients.
template<class F> F factor(unsigned how) {
    sim::Rng g(77 + how); F r, one = F::one(); size_t part = sizeof(F) / F::extension_degree();
    if (how >= 8) {
        F minus = -one, any = Value<F>::from(3, g.next() >> 32 | 1);
        for (size_t i = 0; i < sizeof(F) / part; ++i) switch (g.next() % 4) {
            case 0: memset((char *)&r + i * part, 0, part); break;
            case 1: memcpy((char *)&r + i * part, &one, part); break;
            case 2: memcpy((char *)&r + i * part, &minus, part); break;
            default: memcpy((char *)&r + i * part, (char *)&any + i * part, part); break;
        }
    }
    else switch (how % 6) {
    case 0: r = -F::one(); break;
    case 1: r = Value<F>::from(3, g.next() >> 32 | 1); memcpy((void *)&r, (const void *)&one, part); break;
    case 2: r = one + one; break;
    case 3: r = Value<F>::from(3, g.next() >> 32 | 1); memset((char *)&r + part, 0, sizeof(F) - part); break;
    case 4: r = Value<F>::from(3, g.next() >> 32 | 1); if (part < sizeof(F)) memset((void *)&r, 0, part); break;
    default: r = Value<F>::from(3, g.next() >> 32 | 1); break;
    }
    return r.is_zero() ? one + one : r;
}
template<class G> G scaled(const G &p, unsigned how) {
    auto l = factor<decltype(p.X)>(how); G q = p; q.X = p.X * l; q.Y = p.Y * l; q.Z = p.Z * l;
    if (q == p) return q;
    q.X = p.X * l * l; q.Y = p.Y * l * l * l; return q == p ? q : p;
}
// the same element in another representation
template<class G> G other_rep(const G &p, unsigned how) {
    if (how == 0) return p;
    G q = Pool<G>::pts[4 + how % (Pool<G>::pts.size() - 4)];
    if (p.is_zero()) { G z = q - scaled(q, how); return z.is_zero() ? z : p; }
    if (how % 2 == 0) { G a = p; if (how & 4) a.to_special(); return scaled(a, how / 2); }
    if (q == p || q == -p) return p;
    G a = p + q; if (a.is_zero() || a == -q || a == q) return p;
    return a - q;
}
inline unsigned some_rep() { return sim::chance(1, 3) ? 16 + 2 * sim::choose(512) : sim::choose(13); }
template<class G> G make_point() {
    size_t i = sim::choose(Pool<G>::pts.size());
    bool neg = sim::chance(1, 3); unsigned rep = some_rep();
    G p = Pool<G>::pts[i];
    if (neg) p = -p;
    return other_rep(p, rep);
}
} // namespace gen
