// Legendre symbols, square roots and roots of unity.
#include "vh/fieldutil.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fq.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fq.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "vh/f12289.h"
#include "vh/p127.h"
#include "vh/vgoldi.h"
using namespace vh;
using namespace tachyon::math;

template <typename F> constexpr uint64_t SmallBase() { if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) return F::Config::kSmallSubgroupBase; else return 0; }
template <typename F> constexpr uint64_t SmallAd() { if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) return F::Config::kSmallSubgroupAdicity; else return 0; }

template <typename F, bool kSqrt = true>
void Run(const char* name, int n) {
  F::Init();
  T().Shard(name);
  T().Doing(name);
  { Ev e("Field"); e.s("name", name).raw("p", L(Modulus<F>())).i("base", SmallBase<F>()).i("ad", SmallAd<F>()); }
  for (int i = 0; i < n; ++i) {
    F a = RandF<F>();
    switch (Rn(5)) { case 0: a.SquareInPlace(); break; case 1: { F b = a.Square(); a = b.Square(); break; } case 2: if (Rn(2)) a = F(Rn(40) % 7); break; default: break; }
    if constexpr (F::Config::kModulusBits > 1) {
      Ev e("Leg");
      e.raw("a", FL(a)).i("v", static_cast<int>(a.Legendre()));
    }
    if constexpr (kSqrt) {
      F y = F::Zero();
      bool ok; if (Rn(3)) ok = a.SquareRoot(&y); else { y = a; ok = y.SquareRoot(&y); if (!ok) y = F::Zero(); }
      Ev e("Sqrt");
      e.raw("a", FL(a)).b("ok", ok).raw("v", FL(y));
    }
  }
  if constexpr (F::HasRootOfUnity()) {
    auto root = [&](uint64_t k) {
      F w = F::Zero();
      T().Doing(std::string(name) + " root " + std::to_string(k));
      bool ok = F::GetRootOfUnity(k, &w);
      Ev e("Root");
      e.raw("n", Limbs(k)).b("ok", ok).raw("v", FL(w));
    };
    for (uint64_t k = 1; k <= 40; ++k) root(k);
    for (int s = 0; s < 64; ++s) {
      uint64_t p2 = uint64_t{1} << s;
      root(p2);
      if (s > 3) { root(p2 + 1); root(p2 - 1); root(p2 + p2 / 2); root(p2 + (uint64_t{1} << Rn(s))); }
      if (uint64_t q = SmallBase<F>(); q) {
        unsigned __int128 m = p2;
        for (int j = 0; j < 6; ++j) { m *= q; if (m >> 64) break; root(static_cast<uint64_t>(m)); }
      }
    }
  }
}
int main(int argc, char** argv) {
  T().Init(argc, argv);
  int k = T().thorough() ? 20 : 1;
  Run<bn254::Fq>("bn254_fq", 300 * k);
  Run<bn254::Fr>("bn254_fr", 300 * k);
  Run<bls12_381::Fq>("bls12_381_fq", 300 * k);
  Run<bls12_381::Fr>("bls12_381_fr", 300 * k);
  Run<pallas::Fq>("pallas_fq", 300 * k);
  Run<vesta::Fq>("vesta_fq", 300 * k);
  Run<secp256k1::Fq>("secp256k1_fq", 300 * k);
  Run<bn384_small_two_adicity::Fq>("bn384_fq", 200 * k);
  Run<bn384_small_two_adicity::Fr>("bn384_fr", 200 * k);
  Run<BabyBear>("baby_bear", 400 * k);
  Run<KoalaBear>("koala_bear", 400 * k);
  Run<Mersenne31, true>("mersenne31", 400 * k);
  if (Goldilocks::One() == Goldilocks::FromBigInt(BigInt<1>(1))) Run<Goldilocks>("goldilocks", 300 * k);
  Run<vhf::VGoldi>("vgoldi", 400 * k);
  Run<vhf::P127>("p127", 300 * k);
  Run<GF7, true>("gf7", 200 * k);
  Run<vhf::F12289>("f12289", 300 * k);
}
