#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fq.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "vh/vgoldi.h"
#include "vh/p64.h"
#include "vh/p127.h"
#include "vh/p128.h"
#include "vh/f12289.h"
#include "vh/field.h"
using namespace tachyon::math;
int main(int argc, char** argv) {
  vh::T().Init(argc, argv);
  int n = vh::T().thorough() ? 20000 : 1600;
  vh::FieldMachine<BabyBear>().Run("baby_bear", n);
  vh::FieldMachine<KoalaBear>().Run("koala_bear", n);
  vh::FieldMachine<Mersenne31>().Run("mersenne31", n);
  vh::FieldMachine<Goldilocks>().Run("goldilocks", Goldilocks::One() == Goldilocks::FromBigInt(BigInt<1>(1)) ? n : 0);
  vh::FieldMachine<tachyon::math::vhf::VGoldi>().Run("vgoldi", n);
  vh::FieldMachine<tachyon::math::vhf::P64>().Run("p64", n);
  vh::FieldMachine<tachyon::math::vhf::P127>().Run("p127", n);
  vh::FieldMachine<tachyon::math::vhf::P128>().Run("p128", n);
  vh::FieldMachine<tachyon::math::vhf::F12289>().Run("f12289", n);
  vh::FieldMachine<bn254::Fq>().Run("bn254_fq", n);
  vh::FieldMachine<bn254::Fr>().Run("bn254_fr", n);
  vh::FieldMachine<bls12_381::Fq>().Run("bls12_381_fq", n);
  vh::FieldMachine<bls12_381::Fr>().Run("bls12_381_fr", n);
  vh::FieldMachine<secp256k1::Fq>().Run("secp256k1_fq", n);
  vh::FieldMachine<secp256k1::Fr>().Run("secp256k1_fr", n);
  vh::FieldMachine<pallas::Fq>().Run("pallas_fq", n);
  vh::FieldMachine<vesta::Fq>().Run("vesta_fq", n);
  vh::FieldMachine<bn384_small_two_adicity::Fq>().Run("bn384_fq", n);
  vh::FieldMachine<bn384_small_two_adicity::Fr>().Run("bn384_fr", n);
  vh::FieldMachine<GF7>().Run("gf7", n / 2);
}
