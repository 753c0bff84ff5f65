// Group arithmetic of its own, from the curve equations: textbook formulas
// over the library's fields, nothing of the library's groups but the stored
// coordinates of a point.
#pragma once
#include "curves.hpp"
namespace ref {
#ifndef SIM_GF
typedef SIM_PP PP; typedef PP::G1_type G1; typedef PP::G2_type G2;
#if defined(SIM_EDW)
// a x^2 + y^2 = 1 + d x^2 y^2; stored inverted: x = Z/X, y = Z/Y
template<class G> struct Curve;
template<> struct Curve<G1> { typedef libff::edwards_Fq F; static F a() { return F::one(); } static F d() { return libff::edwards_coeff_d; } };
template<> struct Curve<G2> { typedef libff::edwards_Fq3 F; static F a() { return libff::edwards_twist_coeff_a; } static F d() { return libff::edwards_twist_coeff_d; } };
template<class G> struct Pt {
    typedef Curve<G> C; typedef typename C::F F; F X, Y, Z;
    Pt() : X(F::zero()), Y(F::one()), Z(F::one()) {}
    explicit Pt(const G &g) : Pt() { if (!(g.Y.is_zero() && g.Z.is_zero())) { X = g.Y * g.Z; Y = g.X * g.Z; Z = g.X * g.Y; } }
    Pt operator+(const Pt &o) const {
        Pt r; F A = Z * o.Z, B = A * A, Cc = X * o.X, D = Y * o.Y, E = C::d() * Cc * D, Ff = B - E, Gg = B + E;
        r.X = A * Ff * ((X + Y) * (o.X + o.Y) - Cc - D); r.Y = A * Gg * (D - C::a() * Cc); r.Z = Ff * Gg; return r;
    }
    Pt dbl() const { return *this + *this; }
    bool operator==(const Pt &o) const { return X * o.Z == o.X * Z && Y * o.Z == o.Y * Z; }
};
#else
// y^2 = x^3 + a x + b
template<class G> struct Curve;
#if defined(SIM_ALT)
template<> struct Curve<G1> { typedef libff::alt_bn128_Fq F; static F a() { return F::zero(); } static F b() { return libff::alt_bn128_coeff_b; } };
template<> struct Curve<G2> { typedef libff::alt_bn128_Fq2 F; static F a() { return F::zero(); } static F b() { return libff::alt_bn128_twist_coeff_b; } };
#define REF_JACOBIAN 1
#elif defined(SIM_BLS)
template<> struct Curve<G1> { typedef libff::bls12_381_Fq F; static F a() { return F::zero(); } static F b() { return libff::bls12_381_coeff_b; } };
template<> struct Curve<G2> { typedef libff::bls12_381_Fq2 F; static F a() { return F::zero(); } static F b() { return libff::bls12_381_twist_coeff_b; } };
#define REF_JACOBIAN 1
#elif defined(SIM_MNT4)
template<> struct Curve<G1> { typedef libff::mnt4_Fq F; static F a() { return libff::mnt4_G1::coeff_a; } static F b() { return libff::mnt4_G1::coeff_b; } };
template<> struct Curve<G2> { typedef libff::mnt4_Fq2 F; static F a() { return libff::mnt4_twist_coeff_a; } static F b() { return libff::mnt4_twist_coeff_b; } };
#elif defined(SIM_MNT6)
template<> struct Curve<G1> { typedef libff::mnt6_Fq F; static F a() { return libff::mnt6_G1::coeff_a; } static F b() { return libff::mnt6_G1::coeff_b; } };
template<> struct Curve<G2> { typedef libff::mnt6_Fq3 F; static F a() { return libff::mnt6_twist_coeff_a; } static F b() { return libff::mnt6_twist_coeff_b; } };
#endif
template<class G> struct Pt {           // Jacobian: x = X/Z^2, y = Y/Z^3
    typedef Curve<G> C; typedef typename C::F F; F X, Y, Z;
    Pt() : X(F::one()), Y(F::one()), Z(F::zero()) {}
    explicit Pt(const G &g) : Pt() {
        if (g.Z.is_zero()) return;
#ifdef REF_JACOBIAN
        X = g.X; Y = g.Y; Z = g.Z;
#else
        X = g.X * g.Z; Y = g.Y * g.Z * g.Z; Z = g.Z;
#endif
    }
    Pt dbl() const {
        if (Z.is_zero() || Y.is_zero()) return Pt();
        Pt r; F YY = Y * Y, S = X * YY; S = S + S; S = S + S; F XX = X * X, M = XX + XX + XX; F a = C::a(); if (!a.is_zero()) { F ZZ = Z * Z; M = M + a * ZZ * ZZ; }
        r.X = M * M - S - S; F q = YY * YY; q = q + q; q = q + q; q = q + q; r.Y = M * (S - r.X) - q; r.Z = Y * Z; r.Z = r.Z + r.Z; return r;
    }
    Pt operator+(const Pt &o) const {
        if (Z.is_zero()) return o;
        if (o.Z.is_zero()) return *this;
        F ZZ = Z * Z, OO = o.Z * o.Z, U = X * OO, V = o.X * ZZ, S = Y * OO * o.Z, T = o.Y * ZZ * Z;
        if (U == V) return S == T ? dbl() : Pt();
        Pt r; F H = V - U, R = T - S, HH = H * H, HHH = H * HH, W = U * HH;
        r.X = R * R - HHH - W - W; r.Y = R * (W - r.X) - S * HHH; r.Z = Z * o.Z * H; return r;
    }
    bool operator==(const Pt &o) const {
        if (Z.is_zero() || o.Z.is_zero()) return Z.is_zero() && o.Z.is_zero();
        F ZZ = Z * Z, OO = o.Z * o.Z; return X * OO == o.X * ZZ && Y * OO * o.Z == o.Y * ZZ * Z;
    }
};
#endif
template<class G, mp_size_t n> Pt<G> times(const Pt<G> &b, const libff::bigint<n> &k) {
    Pt<G> r; bool on = false;
    for (long i = 64 * n - 1; i >= 0; --i) { if (on) r = r.dbl(); if (k.data[i / 64] >> (i % 64) & 1) { on = true; r = r + b; } }
    return r;
}
#endif
}
