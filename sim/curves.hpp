// The curves of the library, by one interface.
#pragma once
#include "gen.hpp"
#include <libff/algebra/curves/public_params.hpp>
#if defined(SIM_ALT)
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/algebra/curves/alt_bn128/alt_bn128_pairing.hpp>
#define SIM_PP libff::alt_bn128_pp
#define SIM_CURVE "alt_bn128"
#elif defined(SIM_BLS)
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_pairing.hpp>
#define SIM_PP libff::bls12_381_pp
#define SIM_CURVE "bls12_381"
#elif defined(SIM_MNT4)
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_pairing.hpp>
#define SIM_PP libff::mnt4_pp
#define SIM_CURVE "mnt4"
#elif defined(SIM_MNT6)
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_pairing.hpp>
#define SIM_PP libff::mnt6_pp
#define SIM_CURVE "mnt6"
#elif defined(SIM_EDW)
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#include <libff/algebra/curves/edwards/edwards_pairing.hpp>
#define SIM_PP libff::edwards_pp
#define SIM_CURVE "edwards"
#endif
