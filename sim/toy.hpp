// An additive group with known structure: elements are their own logarithms
// in Z_r (r the order of the scalar field), carried in several representations.
// Operations that the library may only apply to special representations record
// a breach when they are not special.
#pragma once
#include "gen.hpp"
#include <cstdio>
namespace toy {
using libff::bigint; using gen::Value;
extern "C" void toy_breach(const char *what);       // not instrumented
template<class F> struct Toy {
    typedef F scalar_field;
    F v; unsigned long rep;      // rep 0: special
    static std::vector<size_t> wnaf_window_table, fixed_base_exp_window_table;
    static const mp_size_t h_bitcount = 1, h_limbs = 1; static bigint<1> h;
    Toy() : v(F::zero()), rep(0) {}
    Toy(const F &x, unsigned long r) : v(x), rep(r) {}
    static Toy zero() { return Toy(F::zero(), 0); }
    static Toy one() { return Toy(F::one(), 0); }
    static Toy random_element() { return Toy(F::random_element(), 1); }
    Toy operator+(const Toy &o) const { return Toy(v + o.v, rep * 3 + o.rep + 1); }
    Toy operator-() const { return Toy(-v, rep); }
    Toy operator-(const Toy &o) const { return Toy(v - o.v, rep * 3 + o.rep + 2); }
    Toy &operator+=(const Toy &o) { return *this = *this + o; }
    Toy add(const Toy &o) const { return *this + o; }
    Toy mixed_add(const Toy &o) const { if (!o.is_special()) toy_breach("mixed_add of an element not in special form"); return Toy(v + o.v, rep * 5 + 3); }
    Toy dbl() const { return Toy(v + v, rep * 2 + 1); }
    Toy mul_by_q() const { return *this; }
    Toy mul_by_cofactor() const { return *this; }
    bool is_zero() const { return v.is_zero(); }
    bool operator==(const Toy &o) const { return v == o.v; }
    bool operator!=(const Toy &o) const { return !(v == o.v); }
    bool is_special() const { return rep == 0; }
    bool is_well_formed() const { return true; }
    void to_special() { rep = 0; }
    void to_affine_coordinates() { rep = 0; }
    void print() const {} void print_coordinates() const {}
    static size_t size_in_bits() { return F::ceil_size_in_bits() + 1; }
    static bigint<F::num_limbs> field_char() { return F::field_char(); }
    static bigint<F::num_limbs> order() { return F::field_char(); }
    static void batch_to_special_all_non_zeros(std::vector<Toy> &vec) {
        for (auto &e : vec) { if (e.is_zero()) toy_breach("batch_to_special_all_non_zeros of a zero"); e.rep = 0; }
    }
};
template<class F> std::vector<size_t> Toy<F>::wnaf_window_table;
template<class F> std::vector<size_t> Toy<F>::fixed_base_exp_window_table;
template<class F> bigint<1> Toy<F>::h = bigint<1>(1ul);
template<class F, mp_size_t m> Toy<F> operator*(const bigint<m> &s, const Toy<F> &b) {
    Toy<F> r = Toy<F>::zero(); bool one = false;
    for (long i = (long)s.max_bits() - 1; i >= 0; --i) { if (one) r = r.dbl(); if (s.test_bit(i)) { one = true; r = r + b; } }
    return r;
}
template<class F, mp_size_t n, const bigint<n> &m> Toy<F> operator*(const libff::Fp_model<n, m> &s, const Toy<F> &b) { return s.as_bigint() * b; }
}
