From 40bb19a68360d477f9c603a71e65c01dd8c22eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:53 +0000
Subject: [PATCH 01/85] fix: include the KoalaBear4 headers from
 koala_bear/internal

koala_bear4.h and packed_koala_bear4.h included files of baby_bear/internal
that do not exist, so neither header could be compiled.
---
 tachyon/math/finite_fields/koala_bear/koala_bear4.h        | 4 ++--
 tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/koala_bear/koala_bear4.h b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
index 7371e9a..caa10f9 100644
--- a/tachyon/math/finite_fields/koala_bear/koala_bear4.h
+++ b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
@@ -1,8 +1,8 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 
-#include "tachyon/math/finite_fields/baby_bear/internal/koala_bear4.h"
-#include "tachyon/math/finite_fields/baby_bear/internal/packed_koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
 
 namespace tachyon::math {
 
diff --git a/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h b/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
index 09e3c97..7a6f451 100644
--- a/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
+++ b/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
@@ -1,7 +1,7 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_PACKED_KOALA_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_PACKED_KOALA_BEAR4_H_
 
-#include "tachyon/math/finite_fields/baby_bear/internal/packed_koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
 
 namespace tachyon::math {
 
-- 
2.43.0


From 6635802e78cf1d8db23ab5b18f1a09c5e91bd51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 02/85] fix: Frobenius map of a quartic extension over a
 quadratic one

Fp4 over Fp2 computed x^(p^k) as u^((p^k - 1) / 4), which holds only when the
extension adjoins a root of u itself and 4 divides p - 1. m31::Fq4 adjoins a
root of 2 + u over p = 3 mod 4, so its Frobenius map was not the p-th power.
The coefficient is now kNonResidue^((p^k - 1) / 2), an element of Fp2.
---
 tachyon/math/finite_fields/fp4.h              | 25 +++++++++----------
 .../ext_field_generator.cc                    |  3 +--
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/tachyon/math/finite_fields/fp4.h b/tachyon/math/finite_fields/fp4.h
index 82e3508..6d41be2 100644
--- a/tachyon/math/finite_fields/fp4.h
+++ b/tachyon/math/finite_fields/fp4.h
@@ -43,8 +43,7 @@ class Fp4<Config, std::enable_if_t<Config::kDegreeOverBaseField == 2>> final
 
  private:
   static void DoInit() {
-    using BaseFieldConfig = typename BaseField::Config;
-    // x⁴ = q = |BaseFieldConfig::kNonResidue|
+    // x² = q = |Config::kNonResidue|
 
     Config::Init();
 
@@ -52,8 +51,8 @@ class Fp4<Config, std::enable_if_t<Config::kDegreeOverBaseField == 2>> final
     //    = α₀ᴾ + α₁ᴾxᴾ
     //    = ᾱ₀ + ᾱ₁xᴾ <- conjugate
     //    = ᾱ₀ + ᾱ₁xᴾ⁻¹x
-    //    = ᾱ₀ + ᾱ₁(x⁴)^((p - 1) / 4) * x
-    //    = ᾱ₀ - ᾱ₁ωx, where ω is a quartic root of unity.
+    //    = ᾱ₀ + ᾱ₁(x²)^((p - 1) / 2) * x
+    //    = ᾱ₀ + ᾱ₁q^((p - 1) / 2) * x
 
     using UnpackedBasePrimeField = MaybeUnpack<BasePrimeField>;
 
@@ -75,29 +74,29 @@ class Fp4<Config, std::enable_if_t<Config::kDegreeOverBaseField == 2>> final
 
 #undef SET_M
 
-#define SET_EXP_GMP(d) mpz_class exp##d##_gmp = (m##d - 1) / mpz_class(4)
+#define SET_EXP_GMP(d) mpz_class exp##d##_gmp = (m##d - 1) / mpz_class(2)
 
-    // exp₁ = (m₁ - 1) / 4 = (P¹ - 1) / 4
+    // exp₁ = (m₁ - 1) / 2 = (P¹ - 1) / 2
     SET_EXP_GMP(1);
-    // exp₂ = (m₂ - 1) / 4 = (P² - 1) / 4
+    // exp₂ = (m₂ - 1) / 2 = (P² - 1) / 2
     SET_EXP_GMP(2);
-    // exp₃ = (m₃ - 1) / 4 = (P³ - 1) / 4
+    // exp₃ = (m₃ - 1) / 2 = (P³ - 1) / 2
     SET_EXP_GMP(3);
 
 #undef SET_EXP_GMP
 
-    // |kFrobeniusCoeffs[0]| = q^((P⁰ - 1) / 4) = 1
+    // |kFrobeniusCoeffs[0]| = q^((P⁰ - 1) / 2) = 1
     Config::kFrobeniusCoeffs[0] = FrobeniusCoefficient::One();
 #define SET_FROBENIUS_COEFF(d)                \
   BigInt<d * N> exp##d(0);                    \
   gmp::CopyLimbs(exp##d##_gmp, exp##d.limbs); \
-  Config::kFrobeniusCoeffs[d] = BaseFieldConfig::kNonResidue.Pow(exp##d)
+  Config::kFrobeniusCoeffs[d] = Config::kNonResidue.Pow(exp##d)
 
-    // |kFrobeniusCoeffs[1]| = q^(exp₁) = q^((P¹ - 1) / 4) = ω
+    // |kFrobeniusCoeffs[1]| = q^(exp₁) = q^((P¹ - 1) / 2)
     SET_FROBENIUS_COEFF(1);
-    // |kFrobeniusCoeffs[2]| = q^(exp₂) = q^((P² - 1) / 4)
+    // |kFrobeniusCoeffs[2]| = q^(exp₂) = q^((P² - 1) / 2)
     SET_FROBENIUS_COEFF(2);
-    // |kFrobeniusCoeffs[3]| = q^(exp₃) = q^((P³ - 1) / 4)
+    // |kFrobeniusCoeffs[3]| = q^(exp₃) = q^((P³ - 1) / 2)
     SET_FROBENIUS_COEFF(3);
 
 #undef SET_FROBENIUS_COEFF
diff --git a/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc b/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc
index 1860e2f..f302de2 100644
--- a/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc
+++ b/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc
@@ -119,8 +119,7 @@ int GenerationConfig::GenerateConfigHdr() const {
   }
 
   replacements["%{frobenius_coefficient}"] =
-      ((degree == 4 && base_field_degree == 2) ||
-       (degree == 6 && base_field_degree == 3) || degree == 12)
+      ((degree == 6 && base_field_degree == 3) || degree == 12)
           ? "typename BaseField::BaseField"
           : "BaseField";
 
-- 
2.43.0


From da6afcb7cd79684a3c168ee9cd6c6d094f6fa0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 03/85] fix: keep the carry of BigInt::ToNAF

The digits of the largest value need one digit more than it has bits; the
carry out of v + 1 was dropped, so 2^(64N) - 1 became -1.
---
 tachyon/math/base/big_int.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 881af7a..448c863 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -881,6 +881,7 @@ struct BigInt {
     ret.reserve(8 * sizeof(uint64_t) * N);
     while (!v.IsZero()) {
       int8_t z;
+      uint64_t carry = 0;
       // v = v₀ * 2⁰ + v₁ * 2¹ + v₂ * 2² + ... + vₙ₋₁ * 2ⁿ⁻¹
       // if v₀ == 0:
       //   z = 0
@@ -896,13 +897,14 @@ struct BigInt {
         if (z >= 0) {
           v -= BigInt(z);
         } else {
-          v += BigInt(-z);
+          v.AddInPlace(BigInt(-z), carry);
         }
       } else {
         z = 0;
       }
       ret.push_back(z);
       v.DivBy2InPlace();
+      if (carry) v.biggest_limb() |= uint64_t{1} << 63;
     }
     return ret;
   }
-- 
2.43.0


From 450bdfdfee0ebc4533587818e13439709e3f5ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:26 +0000
Subject: [PATCH 04/85] fix: multiplication of a quadratic extension element by
 itself in place

x *= x (and x.MulInPlace(x)) read b.c1 after c.c1, the same object, had been
overwritten, so Fp4, Fp6 and Fp12 over an extension returned a wrong product.
---
 tachyon/math/finite_fields/quadratic_extension_field.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/finite_fields/quadratic_extension_field.h b/tachyon/math/finite_fields/quadratic_extension_field.h
index 2887478..997b92f 100644
--- a/tachyon/math/finite_fields/quadratic_extension_field.h
+++ b/tachyon/math/finite_fields/quadratic_extension_field.h
@@ -344,11 +344,14 @@ class QuadraticExtensionField
       // v1 = a.c1 * b.c1
       BaseField v1 = a.c1_ * b.c1_;
 
+      // v2 = b.c0 + b.c1
+      // NOTE: |c| may be |a| or |b|, so this is read before |c| is written.
+      BaseField v2 = b.c0_ + b.c1_;
       // c.c1 = a.c0 + a.c1
       c.c1_ = a.c0_ + a.c1_;
       // c.c1 = (a.c0 + a.c1) * (b.c0 + b.c1)
       // c.c1 = a.c0 * b.c0 + a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
-      c.c1_ *= (b.c0_ + b.c1_);
+      c.c1_ *= v2;
       // c.c1 = a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
       c.c1_ -= v0;
       // c.c1 = a.c0 * b.c1 + a.c1 * b.c0
-- 
2.43.0


From b6c98572d271d11db39a0849ed350f1ad9a1c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 05/85] fix: BigInt::ExtractBits of a whole limb

Extracting 64 (or 32) bits shifted by the width of the type, which is
undefined, and returned 0 or garbage.
---
 tachyon/math/base/big_int.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 448c863..c7e1f37 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -1028,12 +1028,13 @@ struct BigInt {
     size_t bit_idx = bit_offset % bits;
 
     T ret;
-    if (bit_idx < bits - bit_count || limb_idx == nums - 1) {
+    if (bit_idx <= bits - bit_count || limb_idx == nums - 1) {
       ret = limbs_ptr[limb_idx] >> bit_idx;
     } else {
       ret = (limbs_ptr[limb_idx] >> bit_idx) |
             (limbs_ptr[1 + limb_idx] << (bits - bit_idx));
     }
+    if (bit_count == bits) return ret;
     T mask = (T{1} << bit_count) - T{1};
     return ret & mask;
   }
-- 
2.43.0


From eec8fefd520eb6b6ebfcd9a55dc4d758a2623e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:54 +0000
Subject: [PATCH 06/85] fix: write subgroup constants in plain form for
 non-Montgomery prime fields

---
 .../prime_field_generator/prime_field_generator.cc   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
index 7400ef2..4a63115 100644
--- a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
+++ b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
@@ -266,11 +266,17 @@ int GenerationConfig::GenerateConfigHdr() const {
       base::BoolToString(has_two_adic_root_of_unity);
   RemoveOptionalLines(tpl_lines, "kHasTwoAdicRootOfUnity",
                       has_two_adic_root_of_unity);
+  // The constants are read back as they are when the field isn't in montgomery
+  // form.
+  auto to_value_string = [this, &m](const mpz_class& v) {
+    return use_montgomery ? math::MpzClassToMontString(v, m)
+                          : math::MpzClassToString(v);
+  };
   mpz_class subgroup_generator_mpz;
   if (has_two_adic_root_of_unity) {
     subgroup_generator_mpz = math::gmp::FromDecString(subgroup_generator);
     replacements["%{subgroup_generator}"] =
-        math::MpzClassToMontString(subgroup_generator_mpz, m);
+        to_value_string(subgroup_generator_mpz);
 
     // 1) 2ˢ * t = m - 1,
     // According to Fermat's Little Theorem, the following equations hold:
@@ -286,7 +292,7 @@ int GenerationConfig::GenerateConfigHdr() const {
     replacements["%{two_adicity}"] =
         base::NumberToString(math::ComputeAdicity(2, m - mpz_class(1)));
     replacements["%{two_adic_root_of_unity}"] =
-        math::MpzClassToMontString(two_adic_root_of_unity, m);
+        to_value_string(two_adic_root_of_unity);
   }
 
   bool has_large_subgroup_root_of_unity = !small_subgroup_base.empty();
@@ -318,7 +324,7 @@ int GenerationConfig::GenerateConfigHdr() const {
     replacements["%{small_subgroup_base}"] = small_subgroup_base;
     replacements["%{small_subgroup_adicity}"] = small_subgroup_adicity;
     replacements["%{large_subgroup_root_of_unity}"] =
-        math::MpzClassToMontString(large_subgroup_root_of_unity, m);
+        to_value_string(large_subgroup_root_of_unity);
   }
 
   tpl_content = absl::StrJoin(tpl_lines, "\n");
-- 
2.43.0


From e422934489e503f9ff0bb123a794670738c3647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 07/85] fix: generate compilable headers for curves without GLV
 coefficients

---
 .../elliptic_curves/short_weierstrass/generator/cpu.h.tpl   | 6 +++---
 .../short_weierstrass/generator/generator.cc                | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl b/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
index b7884f6..a9678c7 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
@@ -37,9 +37,9 @@ class %{class}CurveConfig {
   static Point2<BaseField> kGenerator;
 %{if HasGLVCoefficients}
   static BaseField kEndomorphismCoefficient;
-%{endif HasGLVCoefficients}
   static ScalarField kLambda;
   static mpz_class kGLVCoeffs[4];
+%{endif HasGLVCoefficients}
 
   static void Init() {
     static absl::once_flag once;
@@ -58,9 +58,9 @@ class %{class}CurveConfig {
 %{y_init}
 %{if HasGLVCoefficients}
 %{endomorphism_coefficient_init_code}
-%{endif HasGLVCoefficients}
 %{lambda_init_code}
 %{glv_coeffs_init_code}
+%{endif HasGLVCoefficients}
     VLOG(1) << "%{namespace}::%{class} initialized";
   }
 };
@@ -74,11 +74,11 @@ Point2<BaseField> %{class}CurveConfig<BaseField, ScalarField>::kGenerator;
 %{if HasGLVCoefficients}
 template <typename BaseField, typename ScalarField>
 BaseField %{class}CurveConfig<BaseField, ScalarField>::kEndomorphismCoefficient;
-%{endif HasGLVCoefficients}
 template <typename BaseField, typename ScalarField>
 ScalarField %{class}CurveConfig<BaseField, ScalarField>::kLambda;
 template <typename BaseField, typename ScalarField>
 mpz_class %{class}CurveConfig<BaseField, ScalarField>::kGLVCoeffs[4];
+%{endif HasGLVCoefficients}
 
 using %{class}Curve = SWCurve<%{class}CurveConfig<%{base_field}, %{scalar_field}>>;
 using %{class}AffinePoint = AffinePoint<%{class}Curve>;
diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
index 345203d..6f2ae53 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
@@ -126,9 +126,8 @@ int GenerationConfig::GenerateConfigHdr() const {
                                  glv_coefficients[i]);
                            }),
         "\n");
-
-    RemoveOptionalLines(tpl_lines, "HasGLVCoefficients", has_glv_coefficients);
   }
+  RemoveOptionalLines(tpl_lines, "HasGLVCoefficients", has_glv_coefficients);
   tpl_content = absl::StrJoin(tpl_lines, "\n");
   std::string content = absl::StrReplaceAll(tpl_content, replacements);
   return WriteHdr(content, false);
-- 
2.43.0


From 7b4d96efe7891a8224192804cf68dbc71157684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 08/85] fix: generate MulByA() for curves whose a is a non-zero
 constant

---
 .../elliptic_curves/short_weierstrass/generator/generator.cc   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
index 6f2ae53..9cec0c3 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
@@ -16,7 +16,8 @@ std::string GenerateMulByAFunc(bool mul_by_a_fast, int64_t a_value) {
   if (a_value == 0) return "    return BaseField::Zero();";
   if (mul_by_a_fast) {
     std::stringstream ss;
-    ss << "    return ";
+    ss << "    BaseField ret = v;\n";
+    ss << "    return ret";
     ss << math::GenerateFastMultiplication(a_value) << ";";
     return ss.str();
   }
-- 
2.43.0


From cd228dd548bda671194af10cbed97b236ca14092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:39 +0000
Subject: [PATCH 09/85] fix: doubling of Jacobian points when a is not zero

---
 .../elliptic_curves/short_weierstrass/jacobian_point_impl.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
index 658e880..a3c2fb6 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
@@ -298,7 +298,7 @@ constexpr void CLASS::DoDoubleImpl(const JacobianPoint& a, JacobianPoint& b) {
 
     // Z3 = (Y1 + Z1)² - YY - ZZ
     // Can be calculated as Z3 = 2 * Y1 * Z1, and this is faster.
-    b.z_ = a.y_ + a.z_;
+    b.z_ = a.y_ * a.z_;
     b.z_.DoubleInPlace();
 
     // Y3 = M * (S - X3) - 8 * YYYY
-- 
2.43.0


From d2f5e6bc8e6a02ccb8aa906a9efa116699fd6a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:39 +0000
Subject: [PATCH 10/85] fix: conversions of extended Jacobian points with ZZ =
 1 and ZZZ = -1

---
 .../math/elliptic_curves/short_weierstrass/point_xyzz.h   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
index 80333cf..e2709ad 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
@@ -149,7 +149,7 @@ class PointXYZZ<_Curve,
       const PointXYZZ& point_xyzz = point_xyzzs[i];
       if (point_xyzz.zz_.IsZero()) {
         (*affine_points)[i] = AffinePoint<Curve>::Zero();
-      } else if (point_xyzz.zz_.IsOne()) {
+      } else if (point_xyzz.zz_.IsOne() && point_xyzz.zzz_.IsOne()) {
         (*affine_points)[i] = {point_xyzz.x_, point_xyzz.y_};
       } else {
         const BaseField& z_inv_cubic = zzz_inverses[i];
@@ -199,7 +199,7 @@ class PointXYZZ<_Curve,
   constexpr AffinePoint<Curve> ToAffine() const {
     if (IsZero()) {
       return AffinePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_};
     } else {
       // NOTE(ashjeong): if |zzz_| is 0, |IsZero()| will also evaluate to true,
@@ -216,7 +216,7 @@ class PointXYZZ<_Curve,
   constexpr ProjectivePoint<Curve> ToProjective() const {
     if (IsZero()) {
       return ProjectivePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       return {x_ * zzz_, y_ * zz_, zz_ * zzz_};
@@ -228,7 +228,7 @@ class PointXYZZ<_Curve,
   constexpr JacobianPoint<Curve> ToJacobian() const {
     if (IsZero()) {
       return JacobianPoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       BaseField z = zz_ * zzz_;
-- 
2.43.0


From a3037df54bae4b4d5bb4cafa7a63390b3abec922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:55 +0000
Subject: [PATCH 11/85] fix: GLV multiplication when the two halves differ in
 length

---
 tachyon/math/elliptic_curves/msm/glv.h | 33 +++++++++++---------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/tachyon/math/elliptic_curves/msm/glv.h b/tachyon/math/elliptic_curves/msm/glv.h
index a9925d2..e9b3be4 100644
--- a/tachyon/math/elliptic_curves/msm/glv.h
+++ b/tachyon/math/elliptic_curves/msm/glv.h
@@ -6,6 +6,10 @@
 #ifndef TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 #define TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 
+#include <stddef.h>
+
+#include <algorithm>
+
 #include "tachyon/math/base/bit_iterator.h"
 #include "tachyon/math/base/gmp/bit_traits.h"
 #include "tachyon/math/base/gmp/signed_value.h"
@@ -84,36 +88,27 @@ class GLV {
 
     RetPoint b1b2 = b1 + b2;
 
-    auto k1_begin = BitIteratorBE<mpz_class>::begin(&result.k1.abs_value);
-    auto k1_end = BitIteratorBE<mpz_class>::end(&result.k1.abs_value);
-    auto k2_begin = BitIteratorBE<mpz_class>::begin(&result.k2.abs_value);
+    // NOTE: |k1| and |k2| can have different numbers of limbs, so both are read
+    // from the top of the longer one.
+    using Bits = BitTraits<mpz_class>;
+    const mpz_class& k1 = result.k1.abs_value;
+    const mpz_class& k2 = result.k2.abs_value;
 
     RetPoint ret = RetPoint::Zero();
-    bool skip_zeros = true;
-    auto k1_it = k1_begin;
-    auto k2_it = k2_begin;
-    while (k1_it != k1_end) {
-      if (skip_zeros && !(*k1_it) && !(*k2_it)) {
-        skip_zeros = false;
-        ++k1_it;
-        ++k2_it;
-        continue;
-      }
-      skip_zeros = false;
+    for (size_t i = std::max(Bits::GetNumBits(k1), Bits::GetNumBits(k2));
+         i-- > 0;) {
       ret.DoubleInPlace();
-      if ((*k1_it)) {
-        if (*(k2_it)) {
+      if (Bits::TestBit(k1, i)) {
+        if (Bits::TestBit(k2, i)) {
           ret += b1b2;
         } else {
           ret += b1;
         }
       } else {
-        if (*(k2_it)) {
+        if (Bits::TestBit(k2, i)) {
           ret += b2;
         }
       }
-      ++k1_it;
-      ++k2_it;
     }
     return ret;
   }
-- 
2.43.0


From 2c2783afea5f434b634258d555394f886bb95ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:08 +0000
Subject: [PATCH 12/85] fix: zero the higher coefficients of an extension
 element built from an integer

---
 tachyon/math/finite_fields/cubic_extension_field.h     | 3 ++-
 tachyon/math/finite_fields/quadratic_extension_field.h | 3 ++-
 tachyon/math/finite_fields/quartic_extension_field.h   | 6 +++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/cubic_extension_field.h b/tachyon/math/finite_fields/cubic_extension_field.h
index a094e52..bc3e441 100644
--- a/tachyon/math/finite_fields/cubic_extension_field.h
+++ b/tachyon/math/finite_fields/cubic_extension_field.h
@@ -34,7 +34,8 @@ class CubicExtensionField : public CyclotomicMultiplicativeSubgroup<Derived>,
   constexpr CubicExtensionField() = default;
   // NOTE(chokobole): This is needed by Eigen matrix.
   template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr>
-  constexpr explicit CubicExtensionField(T value) : c0_(value) {}
+  constexpr explicit CubicExtensionField(T value)
+      : c0_(value), c1_(BaseField::Zero()), c2_(BaseField::Zero()) {}
   constexpr explicit CubicExtensionField(const BaseField& c0)
       : c0_(c0), c1_(BaseField::Zero()), c2_(BaseField::Zero()) {}
   constexpr explicit CubicExtensionField(BaseField&& c0)
diff --git a/tachyon/math/finite_fields/quadratic_extension_field.h b/tachyon/math/finite_fields/quadratic_extension_field.h
index 997b92f..aeeab0c 100644
--- a/tachyon/math/finite_fields/quadratic_extension_field.h
+++ b/tachyon/math/finite_fields/quadratic_extension_field.h
@@ -35,7 +35,8 @@ class QuadraticExtensionField
   constexpr QuadraticExtensionField() = default;
   // NOTE(chokobole): This is needed by Eigen matrix.
   template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr>
-  constexpr explicit QuadraticExtensionField(T value) : c0_(value) {}
+  constexpr explicit QuadraticExtensionField(T value)
+      : c0_(value), c1_(BaseField::Zero()) {}
   constexpr explicit QuadraticExtensionField(const BaseField& c0)
       : c0_(c0), c1_(BaseField::Zero()) {}
   constexpr explicit QuadraticExtensionField(BaseField&& c0)
diff --git a/tachyon/math/finite_fields/quartic_extension_field.h b/tachyon/math/finite_fields/quartic_extension_field.h
index 346a584..3a4b357 100644
--- a/tachyon/math/finite_fields/quartic_extension_field.h
+++ b/tachyon/math/finite_fields/quartic_extension_field.h
@@ -30,7 +30,11 @@ class QuarticExtensionField : public CyclotomicMultiplicativeSubgroup<Derived>,
   constexpr QuarticExtensionField() = default;
   // NOTE(chokobole): This is needed by Eigen matrix.
   template <typename T, std::enable_if_t<std::is_integral_v<T>>* = nullptr>
-  constexpr explicit QuarticExtensionField(T value) : c0_(value) {}
+  constexpr explicit QuarticExtensionField(T value)
+      : c0_(value),
+        c1_(BaseField::Zero()),
+        c2_(BaseField::Zero()),
+        c3_(BaseField::Zero()) {}
   constexpr explicit QuarticExtensionField(const BaseField& c0)
       : c0_(c0),
         c1_(BaseField::Zero()),
-- 
2.43.0


From a7a710b8688c03a2cf04185033df3e1a9faf86d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:29 +0000
Subject: [PATCH 13/85] fix: make UnivariatePolynomial::operator%= compile

---
 tachyon/math/polynomials/univariate/univariate_polynomial.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_polynomial.h b/tachyon/math/polynomials/univariate/univariate_polynomial.h
index b5ba41f..7d16103 100644
--- a/tachyon/math/polynomials/univariate/univariate_polynomial.h
+++ b/tachyon/math/polynomials/univariate/univariate_polynomial.h
@@ -281,7 +281,8 @@ class UnivariatePolynomial final
   }
 
   template <typename Coefficients2>
-  constexpr auto& operator%=(const UnivariatePolynomial<Coefficients2>& other) {
+  [[nodiscard]] constexpr auto operator%=(
+      const UnivariatePolynomial<Coefficients2>& other) {
     return ModInPlace(other);
   }
 
-- 
2.43.0


From 162a38024a1275937f7fb7c3b648e2199c085b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:29 +0000
Subject: [PATCH 14/85] fix: do not read past the coefficients when folding an
 odd number of them

---
 .../math/polynomials/univariate/univariate_dense_coefficients.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index 0f60684..0c79a9a 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -184,7 +184,7 @@ class UnivariateDenseCoefficients {
     std::vector<F> coefficients((size + 1) >> 1);
     base::ParallelizeFill(coefficients, F::Zero(),
                           /*threshold=*/ParallelizeThreshold::kFieldInit);
-    OMP_PARALLEL_FOR(size_t i = 0; i < size; i += 2) {
+    OMP_PARALLEL_FOR(size_t i = 0; i < size - size % 2; i += 2) {
       coefficients[i >> 1] = coefficients_[i + 1] * r;
       coefficients[i >> 1] += coefficients_[i];
     }
-- 
2.43.0


From 10af2ed365318bc4b4e969dec84f02965fa80a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:29 +0000
Subject: [PATCH 15/85] fix: refuse to divide a zero sparse polynomial by zero

---
 .../polynomials/univariate/univariate_polynomial_ops.h | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h b/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
index ed8e669..665476e 100644
--- a/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
@@ -741,9 +741,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<UnivariatePolynomial<D>> Div(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return UnivariatePolynomial<D>::Zero();
-    }
     return self.ToDense() / other;
   }
 
@@ -751,9 +748,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<UnivariatePolynomial<D>> Mod(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return other.ToDense();
-    }
     return self.ToDense() % other;
   }
 
@@ -761,10 +755,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<DivResult<UnivariatePolynomial<D>>> DivMod(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return DivResult<UnivariatePolynomial<D>>{UnivariatePolynomial<D>::Zero(),
-                                                other.ToDense()};
-    }
     return self.ToDense().DivMod(other);
   }
 
-- 
2.43.0


From 82b4fa70a3b676f08f358a7d69020285050d52f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:29 +0000
Subject: [PATCH 16/85] fix: interpolate no points at all

---
 tachyon/math/polynomials/univariate/lagrange_interpolation.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tachyon/math/polynomials/univariate/lagrange_interpolation.h b/tachyon/math/polynomials/univariate/lagrange_interpolation.h
index 098b9ca..06a457a 100644
--- a/tachyon/math/polynomials/univariate/lagrange_interpolation.h
+++ b/tachyon/math/polynomials/univariate/lagrange_interpolation.h
@@ -30,6 +30,11 @@ bool LagrangeInterpolate(
     return false;
   }
 
+  if (points.size() == 0) {
+    *ret = Poly::Zero();
+    return true;
+  }
+
   if (points.size() == 1) {
     *ret = Poly(Coeffs({evals[0]}, true));
     return true;
-- 
2.43.0


From 99a2ac939f0e3cc09325de1ec5f2553f56ab1e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:19 +0000
Subject: [PATCH 17/85] fix: evaluate sparse polynomials whose degree is not
 below the modulus

---
 .../polynomials/univariate/univariate_sparse_coefficients.h    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
index 4748e1d..364c6d7 100644
--- a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
@@ -26,6 +26,7 @@
 #include "tachyon/base/optional.h"
 #include "tachyon/base/ranges/algorithm.h"
 #include "tachyon/base/strings/string_util.h"
+#include "tachyon/math/base/big_int.h"
 #include "tachyon/math/polynomials/univariate/support_poly_operators.h"
 
 namespace tachyon {
@@ -219,7 +220,7 @@ class UnivariateSparseCoefficients {
 
     F sum = F::Zero();
     for (const Term& term : terms_) {
-      sum += F::PowWithTable(powers_of_2, F(term.degree).ToBigInt()) *
+      sum += F::PowWithTable(powers_of_2, BigInt<1>(term.degree)) *
              term.coefficient;
     }
     return sum;
-- 
2.43.0


From 27722261f391fe67203fbb87be3515dcb752e7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 18/85] fix: honour reverse_at_last in the copying overload of
 CosetLDEBatch

---
 tachyon/math/polynomials/univariate/radix2_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
index aafcf3e..c4e78c7 100644
--- a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
@@ -123,7 +123,7 @@ class Radix2EvaluationDomain
       const Eigen::MatrixBase<Derived>& mat, size_t added_bits, F shift,
       Eigen::MatrixBase<Derived>& out, bool reverse_at_last = true) const {
     Derived mat_tmp = mat;
-    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out);
+    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out, reverse_at_last);
   }
 
   template <typename Derived>
-- 
2.43.0


From 4d7c9453584d6d0749db524bd2472d8549bb94a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 19/85] fix: scale filter polynomials by the coset offsets

---
 .../polynomials/univariate/univariate_evaluation_domain.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
index e911a35..4d62c42 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
@@ -404,7 +404,8 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
                                          subdomain.offset_pow_size_}}));
     SparsePoly subdomain_vanishing_poly =
         subdomain.GetVanishingPolynomial() *
-        SparsePoly(SparseCoeffs({{0, size_as_field_element_}}));
+        SparsePoly(
+            SparseCoeffs({{0, size_as_field_element_ * offset_pow_size_}}));
     std::optional<DivResult<DensePoly>> result =
         domain_vanishing_poly.DivMod(subdomain_vanishing_poly);
     CHECK(result);
@@ -424,9 +425,10 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
     } else {
       const std::optional<F> div =
           EvaluateVanishingPolynomial(tau) /
-          (size_as_field_element_ * v_subdomain_of_tau);
+          (size_as_field_element_ * offset_pow_size_ * v_subdomain_of_tau);
       if (LIKELY(div)) {
-        return subdomain.size_as_field_element_ * *div;
+        return subdomain.size_as_field_element_ * subdomain.offset_pow_size_ *
+               *div;
       }
       return std::nullopt;
     }
-- 
2.43.0


From 8b0bd899f48e6cc05ccb63309ae876a86410ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 20/85] fix: compute the default maximum degree of mixed radix
 domains

---
 .../math/polynomials/univariate/mixed_radix_evaluation_domain.h | 2 +-
 .../univariate/univariate_evaluation_domain_factory.h           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 5331a8b..7ed3204 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -39,7 +39,7 @@ namespace tachyon::math {
 template <typename F>
 constexpr size_t MaxDegreeForMixedRadixEvaluationDomain() {
   size_t i = 1;
-  for (size_t i = 0; i <= F::Config::kSmallSubgroupAdicity; ++i) {
+  for (size_t j = 0; j < F::Config::kSmallSubgroupAdicity; ++j) {
     i *= F::Config::kSmallSubgroupBase;
   }
   return i * (size_t{1} << F::Config::kTwoAdicity) - 1;
diff --git a/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h b/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h
index c82ee5f..f557415 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h
@@ -17,7 +17,7 @@ template <typename F>
 constexpr size_t MaxDegreeForEvaluationDomainFactory() {
   size_t i = 1;
   if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) {
-    for (size_t i = 0; i <= F::Config::kSmallSubgroupAdicity; ++i) {
+    for (size_t j = 0; j < F::Config::kSmallSubgroupAdicity; ++j) {
       i *= F::Config::kSmallSubgroupBase;
     }
   }
-- 
2.43.0


From 50c4de04777f31d733508f7b93bfad8906e0f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:47 +0000
Subject: [PATCH 21/85] fix: copy the base term before the mixed radix
 butterfly overwrites it

---
 .../math/polynomials/univariate/mixed_radix_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 7ed3204..c8d946a 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -249,7 +249,7 @@ class MixedRadixEvaluationDomain
         for (size_t k = 0; k < n; k += q * m) {
           F w_j = F::One();  // ωⱼ is ωₘʲ
           for (size_t j = 0; j < m; ++j) {
-            const F& base_term = a[k + j];
+            const F base_term = a[k + j];
             F w_j_i = w_j;
             for (size_t i = 1; i < q; ++i) {
               terms[i - 1] = a[k + j + i * m];
-- 
2.43.0


From bae7a1fb7bf44726a5e23efb293d76a65e901c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 22/85] fix: order literals that differ below their greatest
 variable

---
 .../multivariate/multivariate_sparse_coefficients.h    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 4aa522e..90a3a7c 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -81,11 +81,15 @@ class MultivariateSparseCoefficients {
     }
 
     bool operator<(const Literal& other) const {
-      if (elements.back() == other.elements.back()) {
-        return elements.size() < other.elements.size();
-      } else {
+      if (elements.back() != other.elements.back()) {
         return elements.back() < other.elements.back();
       }
+      if (elements.size() != other.elements.size()) {
+        return elements.size() < other.elements.size();
+      }
+      return std::lexicographical_compare(elements.rbegin(), elements.rend(),
+                                          other.elements.rbegin(),
+                                          other.elements.rend());
     }
     bool operator==(const Literal& other) const {
       return (Degree() == 0 && other.Degree() == 0) ||
-- 
2.43.0


From 52f7628b7548f134489a9ad7cd0a0e29c0ae7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 23/85] fix: take the greatest degree over all terms of a
 multivariate polynomial

---
 .../multivariate/multivariate_sparse_coefficients.h        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 90a3a7c..a27ceee 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -267,8 +267,11 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr size_t Degree() const {
-    if (IsConstant()) return 0;
-    return terms_.back().Degree();
+    size_t degree = 0;
+    for (const Term& term : terms_) {
+      degree = std::max(degree, term.Degree());
+    }
+    return degree;
   }
 
   constexpr F Evaluate(const Point& points) const {
-- 
2.43.0


From 9c4b5dcb377bbae0f4f96994b59f01c9ec310e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 24/85] fix: compact a multivariate polynomial without terms

---
 .../polynomials/multivariate/multivariate_sparse_coefficients.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index a27ceee..645a86e 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -308,6 +308,7 @@ class MultivariateSparseCoefficients {
   }
 
   void Compact() {
+    if (terms_.empty()) return;
     auto write_itr = terms_.begin();
     for (auto read_itr = terms_.begin() + 1; read_itr != terms_.end();
          ++read_itr) {
-- 
2.43.0


From f021a274ec030509db57ff690da600d3d0a4e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 25/85] fix: give sums of multivariate polynomials their number
 of variables

---
 .../polynomials/multivariate/multivariate_polynomial_ops.h    | 2 ++
 .../multivariate/multivariate_sparse_coefficients.h           | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
index c821869..201fc98 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
@@ -149,6 +149,8 @@ class MultivariatePolynomialOp<MultivariateSparseCoefficients<F, MaxDegree>> {
       }
     }
 
+    c.coefficients_.num_vars_ =
+        std::max(a.coefficients_.num_vars_, b.coefficients_.num_vars_);
     c.coefficients_.terms_ = std::move(c_terms);
     c.coefficients_.Compact();
   }
diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 645a86e..aff2573 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -275,10 +275,10 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr F Evaluate(const Point& points) const {
-    CHECK_LE(points.size(), num_vars_) << "Invalid evaluation domain";
     if (IsZero()) {
       return F::Zero();
     }
+    CHECK_LE(points.size(), num_vars_) << "Invalid evaluation domain";
     std::vector<F> results =
         base::ParallelizeMap(terms_, [&points](absl::Span<const Term> chunk) {
           return EvaluateSerial(chunk, points);
@@ -354,7 +354,7 @@ class MultivariateSparseCoefficients {
         });
   }
 
-  size_t num_vars_;
+  size_t num_vars_ = 0;
   std::vector<Term> terms_;
 };
 
-- 
2.43.0


From 1c60a1e59fc934ebf3a762f837d96b8548549590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 26/85] fix: treat the evaluations of an empty multilinear
 polynomial as zeros

---
 .../math/polynomials/multivariate/linear_combination_term.h   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/linear_combination_term.h b/tachyon/math/polynomials/multivariate/linear_combination_term.h
index 6e2026b..96a7c4a 100644
--- a/tachyon/math/polynomials/multivariate/linear_combination_term.h
+++ b/tachyon/math/polynomials/multivariate/linear_combination_term.h
@@ -56,9 +56,7 @@ struct LinearCombinationTerm {
             sum += std::accumulate(
                 indexes.begin(), indexes.end(), F::One(),
                 [&flattened_ml_evaluations, i](F& acc, size_t index) {
-                  const std::vector<F>& evals =
-                      flattened_ml_evaluations[index]->evaluations();
-                  return (i < evals.size()) ? (acc *= evals[i]) : acc;
+                  return acc *= (*flattened_ml_evaluations[index])[i];
                 });
           }
           return sum;
-- 
2.43.0


From 91a070eb4da7d400e763bdb46e4bf6f9c5b3ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:26 +0000
Subject: [PATCH 27/85] fix: size the product of a matrix and a vector by the
 rows of the matrix

---
 tachyon/math/matrix/matrix_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/matrix/matrix_operations.h b/tachyon/math/matrix/matrix_operations.h
index 19fe5a6..b47b2a8 100644
--- a/tachyon/math/matrix/matrix_operations.h
+++ b/tachyon/math/matrix/matrix_operations.h
@@ -42,7 +42,7 @@ math::Vector<F> MulMatVec(const Eigen::MatrixBase<Derived>& matrix,
                           const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -57,7 +57,7 @@ math::Vector<F> MulMatVecSerial(const Eigen::MatrixBase<Derived>& matrix,
                                 const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -73,7 +73,7 @@ math::Vector<F> MulMatVec(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
@@ -99,7 +99,7 @@ math::Vector<F> MulMatVecSerial(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
-- 
2.43.0


From 780053e5d71334817ca781fced76e7bdf09bb5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:26 +0000
Subject: [PATCH 28/85] fix: count the columns of sparse matrices with empty
 rows

---
 tachyon/math/matrix/sparse/sparse_matrix.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/matrix/sparse/sparse_matrix.h b/tachyon/math/matrix/sparse/sparse_matrix.h
index ae4f9bc..61271c5 100644
--- a/tachyon/math/matrix/sparse/sparse_matrix.h
+++ b/tachyon/math/matrix/sparse/sparse_matrix.h
@@ -97,11 +97,12 @@ class ELLSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
-    auto it = std::max_element(elements_list_.begin(), elements_list_.end(),
-                               [](const Elements& a, const Elements& b) {
-                                 return a.back().index < b.back().index;
-                               });
-    return it->back().index + 1;
+    size_t max_cols = 0;
+    for (const Elements& elements : elements_list_) {
+      if (elements.empty()) continue;
+      max_cols = std::max(max_cols, elements.back().index + 1);
+    }
+    return max_cols;
   }
 
   size_t NonZeros() const {
@@ -247,6 +248,7 @@ class CSRSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
+    if (elements_.empty()) return 0;
     auto it = std::max_element(
         elements_.begin(), elements_.end(),
         [](const Element& a, const Element& b) { return a.index < b.index; });
-- 
2.43.0


From 6a24a1ef8bffd77e4bec782e37f5b73a10fbbac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:16 +0000
Subject: [PATCH 29/85] fix: generate Poseidon parameters for the whole state
 when the capacity is not one

---
 tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h     | 5 +++--
 .../hashes/sponge/poseidon/poseidon_config_entry_base.h     | 4 ++--
 tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h   | 6 ++++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h
index 2996fd7..cdf9ac6 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_config.h
@@ -100,8 +100,9 @@ struct PoseidonConfig : public PoseidonConfigBase<Params> {
                                      Params::kFullRounds,
                                      Params::kPartialRounds, skip_matrices);
     PoseidonConfig ret = config_entry.ToPoseidonConfig<Params>();
-    FindPoseidonARKAndMDS<F>(config_entry.ToPoseidonGrainLFSRConfig<F>(),
-                             skip_matrices, ret.ark, ret.mds);
+    FindPoseidonARKAndMDS<F>(
+        config_entry.ToPoseidonGrainLFSRConfig<F>(Params::kCapacity),
+        skip_matrices, ret.ark, ret.mds);
     OptimizeARK<Params::kFullRounds, Params::kPartialRounds>(ret.mds, ret.ark);
     ComputeSparseMatrices<Params::kPartialRounds>(ret.mds, ret.pre_sparse_mds,
                                                   ret.sparse_mds_matrices);
diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_config_entry_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_config_entry_base.h
index 84249a6..deb0600 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_config_entry_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_config_entry_base.h
@@ -37,12 +37,12 @@ struct TACHYON_EXPORT PoseidonConfigEntryBase {
         partial_rounds(partial_rounds) {}
 
   template <typename F>
-  PoseidonGrainLFSRConfig ToPoseidonGrainLFSRConfig() const {
+  PoseidonGrainLFSRConfig ToPoseidonGrainLFSRConfig(size_t capacity = 1) const {
     using PrimeField = math::MaybeUnpack<F>;
 
     PoseidonGrainLFSRConfig config;
     config.prime_num_bits = PrimeField::kModulusBits;
-    config.state_len = rate + 1;
+    config.state_len = rate + capacity;
     config.num_full_rounds = full_rounds;
     config.num_partial_rounds = partial_rounds;
     return config;
diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index ca0dfea..9c452a8 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -100,7 +100,8 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
         ret.internal_diagonal_minus_one[i] = internal_diagonal_minus_one[i];
       }
     }
-    FindPoseidon2ARK(config_entry.ToPoseidonGrainLFSRConfig<F>(), ret.ark);
+    FindPoseidon2ARK(
+        config_entry.ToPoseidonGrainLFSRConfig<F>(Params::kCapacity), ret.ark);
     return ret;
   }
 
@@ -110,7 +111,8 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
                                       Params::kFullRounds,
                                       Params::kPartialRounds);
     math::Matrix<F> ark;
-    FindPoseidon2ARK(config_entry.ToPoseidonGrainLFSRConfig<F>(), ark);
+    FindPoseidon2ARK(
+        config_entry.ToPoseidonGrainLFSRConfig<F>(Params::kCapacity), ark);
     return Create(config_entry, internal_shifts, std::move(ark));
   }
 
-- 
2.43.0


From 575f77fab274e26bfc865b1008acd0860025dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:21 +0000
Subject: [PATCH 30/85] fix: compare the internal layers of Poseidon2
 configurations

---
 .../hashes/sponge/poseidon2/poseidon2_config.h       | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index 9c452a8..3e8c03e 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -127,6 +127,18 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
     return Create(config_entry, internal_shifts, std::move(ark));
   }
 
+  bool operator==(const Poseidon2Config& other) const {
+    return PoseidonConfigBase<Params>::operator==(other) &&
+           internal_diagonal_minus_one.size() ==
+               other.internal_diagonal_minus_one.size() &&
+           internal_diagonal_minus_one == other.internal_diagonal_minus_one &&
+           internal_shifts.size() == other.internal_shifts.size() &&
+           internal_shifts == other.internal_shifts;
+  }
+  bool operator!=(const Poseidon2Config& other) const {
+    return !operator==(other);
+  }
+
  private:
   constexpr static Poseidon2Config Create(
       const Poseidon2ConfigEntry& config_entry,
-- 
2.43.0


From 03fd6d446ad64cf19c482ba1172df5464bd87e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:21 +0000
Subject: [PATCH 31/85] fix: serialize the internal shifts of Poseidon2
 configurations

---
 .../hashes/sponge/poseidon2/poseidon2_config.h      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index 3e8c03e..5c277f5 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -180,25 +180,30 @@ class Copyable<crypto::Poseidon2Config<Params>> {
                       Buffer* buffer) {
     return Copyable<crypto::PoseidonConfigBase<Params>>::WriteTo(config,
                                                                  buffer) &&
-           buffer->WriteMany(config.internal_diagonal_minus_one);
+           buffer->WriteMany(config.internal_diagonal_minus_one,
+                             config.internal_shifts);
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
                        crypto::Poseidon2Config<Params>* config) {
     crypto::PoseidonConfigBase<Params> base;
-    math::Matrix<F> internal_diagonal_minus_one;
-    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one)) {
+    math::Vector<F> internal_diagonal_minus_one;
+    math::Vector<uint8_t> internal_shifts;
+    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one,
+                         &internal_shifts)) {
       return false;
     }
 
     *config = {std::move(base), std::move(internal_diagonal_minus_one)};
+    config->internal_shifts = std::move(internal_shifts);
     return true;
   }
 
   static size_t EstimateSize(const crypto::Poseidon2Config<Params>& config) {
     const crypto::PoseidonConfigBase<Params>& base =
         static_cast<const crypto::PoseidonConfigBase<Params>&>(config);
-    return base::EstimateSize(base, config.internal_diagonal_minus_one);
+    return base::EstimateSize(base, config.internal_diagonal_minus_one,
+                              config.internal_shifts);
   }
 };
 
-- 
2.43.0


From fdd17ba87b2d90fff41f131d12816d8d273d6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:35 +0000
Subject: [PATCH 32/85] fix: take as many Poseidon2 internal shifts as the
 state needs

---
 .../crypto/hashes/sponge/poseidon2/poseidon2_config.h  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index 5c277f5..9179050 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -106,7 +106,7 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
   }
 
   constexpr static Poseidon2Config Create(
-      const std::array<uint8_t, Params::kRate>& internal_shifts) {
+      const std::array<uint8_t, Params::kWidth - 1>& internal_shifts) {
     Poseidon2ConfigEntry config_entry(Params::kRate, Params::kAlpha,
                                       Params::kFullRounds,
                                       Params::kPartialRounds);
@@ -119,7 +119,7 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
   // NOTE(chokobole): If another variant method that accepts ark is added,
   // remember to update the code in icicle_poseidon2_holder.h as well.
   constexpr static Poseidon2Config Create(
-      const std::array<uint8_t, Params::kRate>& internal_shifts,
+      const std::array<uint8_t, Params::kWidth - 1>& internal_shifts,
       math::Matrix<F>&& ark) {
     Poseidon2ConfigEntry config_entry(Params::kRate, Params::kAlpha,
                                       Params::kFullRounds,
@@ -142,7 +142,7 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
  private:
   constexpr static Poseidon2Config Create(
       const Poseidon2ConfigEntry& config_entry,
-      const std::array<uint8_t, Params::kRate>& internal_shifts,
+      const std::array<uint8_t, Params::kWidth - 1>& internal_shifts,
       math::Matrix<F>&& ark) {
     Poseidon2Config ret = config_entry.ToPoseidon2Config<Params>();
     if constexpr (math::FiniteFieldTraits<F>::kIsPackedPrimeField) {
@@ -153,8 +153,8 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
             F(uint32_t{1} << internal_shifts[i - 1]);
       }
     } else {
-      ret.internal_shifts = math::Vector<uint8_t>(Params::kRate);
-      for (size_t i = 0; i < Params::kRate; ++i) {
+      ret.internal_shifts = math::Vector<uint8_t>(Params::kWidth - 1);
+      for (size_t i = 0; i < Params::kWidth - 1; ++i) {
         ret.internal_shifts[i] = internal_shifts[i];
       }
     }
-- 
2.43.0


From aeac49cec2fd80750bbdf1915c13e3e60b886916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:55 +0000
Subject: [PATCH 33/85] fix: permute between the blocks of every squeeze

---
 tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
index e68f8b3..68c7ca4 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
@@ -227,9 +227,7 @@ struct PoseidonSpongeBase : public FieldBasedCryptographicSponge<Derived> {
             state[Params::kCapacity + rate_start_index + i];
       }
 
-      if (output_remaining_size != Params::kRate) {
-        derived.Permute(state);
-      }
+      derived.Permute(state);
       output_idx += num_elements_squeezed;
       rate_start_index = 0;
     }
-- 
2.43.0


From d05f1220001e6d3112972c5588e2448d1cb7b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:55 +0000
Subject: [PATCH 34/85] fix: squeeze the usable bytes and bits of each element

---
 .../hashes/sponge/poseidon/poseidon_sponge_base.h     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
index 68c7ca4..d43c40f 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
@@ -63,14 +63,15 @@ struct PoseidonSpongeBase : public FieldBasedCryptographicSponge<Derived> {
     std::vector<F> src_elements =
         SqueezeNativeFieldElements(state, num_elements);
 
-    std::vector<F> bytes;
+    std::vector<uint8_t> bytes;
     bytes.reserve(usable_bytes * num_elements);
     for (const F& elem : src_elements) {
       auto elem_bytes = elem.ToBigInt().ToBytesLE();
-      bytes.insert(bytes.end(), elem_bytes.begin(), elem_bytes.end());
+      bytes.insert(bytes.end(), elem_bytes.begin(),
+                   elem_bytes.begin() + usable_bytes);
     }
 
-    bytes.resize(num_bytes, F::Zero());
+    bytes.resize(num_bytes);
     return bytes;
   }
 
@@ -86,7 +87,9 @@ struct PoseidonSpongeBase : public FieldBasedCryptographicSponge<Derived> {
     for (const F& elem : src_elements) {
       std::bitset<F::kModulusBits> elem_bits =
           elem.ToBigInt().template ToBitsLE<F::kModulusBits>();
-      bits.insert(bits.end(), elem_bits.begin(), elem_bits.end());
+      for (size_t i = 0; i < usable_bits; ++i) {
+        bits.push_back(elem_bits[i]);
+      }
     }
     bits.resize(num_bits);
     return bits;
-- 
2.43.0


From 4b947a1bb5a2a1a39f9ff2cea86034c9c382f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:13 +0000
Subject: [PATCH 35/85] fix: refuse serialized prime field elements not below
 the modulus

---
 tachyon/math/finite_fields/prime_field_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/math/finite_fields/prime_field_base.h b/tachyon/math/finite_fields/prime_field_base.h
index 210045d..a7be962 100644
--- a/tachyon/math/finite_fields/prime_field_base.h
+++ b/tachyon/math/finite_fields/prime_field_base.h
@@ -215,6 +215,7 @@ class Copyable<
   static bool ReadFrom(const ReadOnlyBuffer& buffer, T* prime_field) {
     value_type v;
     if (!buffer.Read(&v)) return false;
+    if (v >= T::Config::kModulus) return false;
     if constexpr (T::Config::kUseMontgomery) {
       if (s_is_in_montgomery) {
         *prime_field = T::FromMontgomery(v);
-- 
2.43.0


From 4e32b368f00753bc5199ddf72e709291c0cf35bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:13 +0000
Subject: [PATCH 36/85] fix: refuse non-canonical encodings of proof points

---
 tachyon/zk/plonk/halo2/proof_serializer.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tachyon/zk/plonk/halo2/proof_serializer.h b/tachyon/zk/plonk/halo2/proof_serializer.h
index 6f290b8..b79be85 100644
--- a/tachyon/zk/plonk/halo2/proof_serializer.h
+++ b/tachyon/zk/plonk/halo2/proof_serializer.h
@@ -54,13 +54,17 @@ class ProofSerializer<math::AffinePoint<Curve>> {
     uint8_t bytes[kByteSize];
     if (!buffer.Read(bytes)) return false;
 
+    BigInt x_bigint;
     BaseField x;
     bool is_odd;
     if (s_use_legacy_serialization) {
       is_odd = bytes[kByteSize - 1] >> 7;
       bytes[kByteSize - 1] &= 0b01111111;
-      x = BaseField::FromBigInt(BigInt::FromBytesLE(bytes));
+      x_bigint = BigInt::FromBytesLE(bytes);
+      if (x_bigint >= BaseField::Config::kModulus) return false;
+      x = BaseField::FromBigInt(x_bigint);
       if (x.IsZero()) {
+        if (is_odd) return false;
         *point_out = math::AffinePoint<Curve>::Zero();
         return true;
       }
@@ -68,8 +72,11 @@ class ProofSerializer<math::AffinePoint<Curve>> {
       bool is_inf = bytes[kByteSize - 1] >> 7;
       is_odd = (bytes[kByteSize - 1] >> 6) & 1;
       bytes[kByteSize - 1] &= 0b00111111;
-      x = BaseField::FromBigInt(BigInt::FromBytesLE(bytes));
-      if (x.IsZero() && is_inf) {
+      x_bigint = BigInt::FromBytesLE(bytes);
+      if (x_bigint >= BaseField::Config::kModulus) return false;
+      x = BaseField::FromBigInt(x_bigint);
+      if (is_inf) {
+        if (!x.IsZero() || is_odd) return false;
         *point_out = math::AffinePoint<Curve>::Zero();
         return true;
       }
-- 
2.43.0


From e2ed5ad962068665d77025e0095aa67690696063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:13 +0000
Subject: [PATCH 37/85] fix: refuse proof points off the curve in the SHA-256
 transcript

---
 tachyon/zk/plonk/halo2/sha256_transcript.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/halo2/sha256_transcript.h b/tachyon/zk/plonk/halo2/sha256_transcript.h
index 0e4ad45..05a7509 100644
--- a/tachyon/zk/plonk/halo2/sha256_transcript.h
+++ b/tachyon/zk/plonk/halo2/sha256_transcript.h
@@ -126,8 +126,11 @@ class Sha256Reader : public crypto::TranscriptReader<AffinePoint>,
     math::BigInt<4> x;
     math::BigInt<4> y;
     if (!this->buffer_.ReadMany(&x, &y)) return false;
+    if (x >= BaseField::Config::kModulus || y >= BaseField::Config::kModulus) {
+      return false;
+    }
     *point = {BaseField(std::move(x)), BaseField(std::move(y))};
-    return true;
+    return point->IsZero() || point->IsOnCurve();
   }
 
   bool DoReadFromProof(ScalarField* scalar) const override {
-- 
2.43.0


From 3dae08b51c09973b93b0fcfba5b8ef619a4ae1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 38/85] fix: reduce the digits of a split field element into
 the small field

---
 tachyon/crypto/challenger/multi_field32_conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/challenger/multi_field32_conversions.h b/tachyon/crypto/challenger/multi_field32_conversions.h
index 9a3e44a..572326b 100644
--- a/tachyon/crypto/challenger/multi_field32_conversions.h
+++ b/tachyon/crypto/challenger/multi_field32_conversions.h
@@ -61,7 +61,7 @@ std::array<SmallF, N> Split(const BigF& value) {
     if constexpr (SmallF::Config::kUseMontgomery) {
       ret[i] = SmallF::FromMontgomery(SmallF::Config::ToMontgomery(digit));
     } else {
-      ret[i] = SmallF(digit);
+      ret[i] = SmallF(digit % SmallF::Config::kModulus);
     }
     value_bigint >>= 64;
   }
-- 
2.43.0


From 5200c43a6821877ce292d508ab493b7104bdffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:59 +0000
Subject: [PATCH 39/85] fix: commit to a single leaf and refuse to open leaves
 which do not exist

---
 .../merkle_tree/binary_merkle_tree/binary_merkle_tree.h   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
index 7b5036f..7f9e1ae 100644
--- a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
+++ b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
@@ -67,7 +67,9 @@ class BinaryMerkleTree final
     //
     // Finally, the remaining tree should be constructed from leaves 1 and 2.
     size_t leaves_size = std::size(leaves);
-    if (leaves_size > leaves_size_for_parallelization_) {
+    if (leaves_size == 1) {
+      // The only leaf is the root.
+    } else if (leaves_size > leaves_size_for_parallelization_) {
       OMP_PARALLEL_FOR(size_t i = 0; i < leaves_size;
                        i += leaves_size_for_parallelization_) {
         size_t from = leaves_size - 1 + i;
@@ -89,6 +91,10 @@ class BinaryMerkleTree final
   [[nodiscard]] bool DoCreateOpeningProof(size_t index,
                                           BinaryMerkleProof<Hash>* proof) {
     size_t size = storage_->GetSize();
+    if (index > (size >> 1)) {
+      LOG(ERROR) << "index(" << index << ") is out of range";
+      return false;
+    }
     index = (size >> 1) + index;
     proof->paths.resize(base::bits::Log2Floor(size));
     size_t i = 0;
-- 
2.43.0


From e793d328c942984bee82d7a206da65e809234dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:59 +0000
Subject: [PATCH 40/85] fix: refuse to open or verify mixed matrix rows of the
 wrong shape

---
 .../merkle_tree/field_merkle_tree/BUILD.bazel |  1 +
 .../field_merkle_tree_mmcs.h                  | 33 ++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/BUILD.bazel b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/BUILD.bazel
index 97c80f9..8a10be1 100644
--- a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/BUILD.bazel
+++ b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/BUILD.bazel
@@ -36,6 +36,7 @@ tachyon_cc_library(
     deps = [
         ":field_merkle_tree",
         "//tachyon/base:bits",
+        "//tachyon/base:logging",
         "//tachyon/base:profiler",
         "//tachyon/base:sort",
         "//tachyon/crypto/commitments:mixed_matrix_commitment_scheme",
diff --git a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
index 20829be..9c310dc 100644
--- a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
+++ b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
@@ -15,6 +15,7 @@
 
 #include "tachyon/base/bits.h"
 #include "tachyon/base/containers/container_util.h"
+#include "tachyon/base/logging.h"
 #include "tachyon/base/profiler.h"
 #include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h"
 #include "tachyon/crypto/commitments/mixed_matrix_commitment_scheme.h"
@@ -139,6 +140,17 @@ class FieldMerkleTreeMMCS final
     size_t max_row_size = this->GetMaxRowSize(prover_data);
     uint32_t log_max_row_size = base::bits::Log2Ceiling(max_row_size);
 
+    for (const Eigen::Map<const math::RowMajorMatrix<F>>& matrix :
+         prover_data.leaves()) {
+      size_t row_size = static_cast<size_t>(matrix.rows());
+      uint32_t bits_reduced =
+          log_max_row_size - base::bits::Log2Ceiling(row_size);
+      if ((index >> bits_reduced) >= row_size) {
+        LOG(ERROR) << "index(" << index << ") is out of range";
+        return false;
+      }
+    }
+
     // TODO(chokobole): Is it able to be parallelized?
     *openings = base::Map(
         prover_data.leaves(),
@@ -171,7 +183,21 @@ class FieldMerkleTreeMMCS final
       const Proof& proof) const {
     TRACE_EVENT("ProofVerification",
                 "FieldMerkleTreeMMCS::DoVerifyOpeningProof");
-    CHECK_EQ(dimensions_list.size(), opened_values.size());
+    if (dimensions_list.empty() ||
+        dimensions_list.size() != opened_values.size()) {
+      LOG(ERROR) << "number of opened values doesn't match "
+                 << opened_values.size() << " vs " << dimensions_list.size();
+      return false;
+    }
+    for (size_t i = 0; i < dimensions_list.size(); ++i) {
+      // NOTE: |width| can be zero when the caller doesn't know it.
+      size_t width = static_cast<size_t>(dimensions_list[i].width);
+      if (width != 0 && opened_values[i].size() != width) {
+        LOG(ERROR) << "width of opened values doesn't match "
+                   << opened_values[i].size() << " vs " << width;
+        return false;
+      }
+    }
 
     std::vector<IndexedDimensions> sorted_dimensions_list = base::Map(
         dimensions_list, [](size_t index, math::Dimensions dimensions) {
@@ -186,6 +212,11 @@ class FieldMerkleTreeMMCS final
 
     size_t next_layer =
         absl::bit_ceil(remaining_dimensions_list.front().dimensions.height);
+    if (proof.size() != base::bits::Log2Ceiling(next_layer) ||
+        index >= next_layer) {
+      LOG(ERROR) << "path doesn't match the height or the index";
+      return false;
+    }
     size_t next_layer_size = CountLayers(next_layer, remaining_dimensions_list);
     Digest root = hasher_.Hash(GetOpenedValuesAsPrimeFieldVectors(
         opened_values, remaining_dimensions_list.subspan(0, next_layer_size)));
-- 
2.43.0


From 823b5e69144eded03351f2f611360869f6730a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:17 +0000
Subject: [PATCH 41/85] fix: keep byte order, storage and bounds of buffers

Values wider than a character lost bytes, floating point values were
converted instead of copied, a moved buffer forgot its byte order or
kept pointing into the old object, several values written at an offset
all landed on it, and a hostile length overflowed or exhausted memory.
---
 tachyon/base/buffer/BUILD.bazel        |  5 ++++-
 tachyon/base/buffer/buffer.h           |  7 ++++---
 tachyon/base/buffer/copyable.h         | 16 +++++++++++-----
 tachyon/base/buffer/read_only_buffer.h | 21 ++++++++++++++-------
 tachyon/base/buffer/string_buffer.h    | 22 +++++++++++++++++++---
 tachyon/math/matrix/matrix_types.h     | 10 ++++++++++
 6 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/tachyon/base/buffer/BUILD.bazel b/tachyon/base/buffer/BUILD.bazel
index 1acf218..1838c87 100644
--- a/tachyon/base/buffer/BUILD.bazel
+++ b/tachyon/base/buffer/BUILD.bazel
@@ -6,7 +6,10 @@ tachyon_cc_library(
     name = "buffer",
     srcs = ["buffer.cc"],
     hdrs = ["buffer.h"],
-    deps = [":read_only_buffer"],
+    deps = [
+        ":read_only_buffer",
+        "//tachyon/base:bit_cast",
+    ],
 )
 
 tachyon_cc_library(
diff --git a/tachyon/base/buffer/buffer.h b/tachyon/base/buffer/buffer.h
index 29daf9d..c38721f 100644
--- a/tachyon/base/buffer/buffer.h
+++ b/tachyon/base/buffer/buffer.h
@@ -1,6 +1,7 @@
 #ifndef TACHYON_BASE_BUFFER_BUFFER_H_
 #define TACHYON_BASE_BUFFER_BUFFER_H_
 
+#include "tachyon/base/bit_cast.h"
 #include "tachyon/base/buffer/read_only_buffer.h"
 
 namespace tachyon::base {
@@ -86,9 +87,9 @@ class TACHYON_EXPORT Buffer : public ReadOnlyBuffer {
   [[nodiscard]] bool WriteAt(size_t buffer_offset, T value) {             \
     switch (endian_) {                                                    \
       case Endian::kBig:                                                  \
-        return Write##bits##BEAt(buffer_offset, value);                   \
+        return Write##bits##BEAt(buffer_offset, bit_cast<type>(value));   \
       case Endian::kLittle:                                               \
-        return Write##bits##LEAt(buffer_offset, value);                   \
+        return Write##bits##LEAt(buffer_offset, bit_cast<type>(value));   \
       case Endian::kNative:                                               \
         return WriteAt(buffer_offset,                                     \
                        reinterpret_cast<const uint8_t*>(&value), bytes);  \
@@ -128,7 +129,7 @@ class TACHYON_EXPORT Buffer : public ReadOnlyBuffer {
   [[nodiscard]] bool WriteManyAt(size_t buffer_offset, const T& value,
                                  const Args&... args) {
     if (!WriteAt(buffer_offset, value)) return false;
-    return WriteManyAt(buffer_offset, args...);
+    return WriteMany(args...);
   }
 
   [[nodiscard]] virtual bool Grow(size_t size) { return false; }
diff --git a/tachyon/base/buffer/copyable.h b/tachyon/base/buffer/copyable.h
index 398e299..8b3a16a 100644
--- a/tachyon/base/buffer/copyable.h
+++ b/tachyon/base/buffer/copyable.h
@@ -47,7 +47,7 @@ class Copyable<std::basic_string_view<CharTy>> {
                       Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -57,7 +57,7 @@ class Copyable<std::basic_string_view<CharTy>> {
   }
 
   static size_t EstimateSize(const std::basic_string_view<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
@@ -67,19 +67,22 @@ class Copyable<std::basic_string<CharTy>> {
   static bool WriteTo(const std::basic_string<CharTy>& value, Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
                        std::basic_string<CharTy>* value) {
     size_t size;
     if (!buffer.Read(&size)) return false;
+    // NOTE: |size| comes from the buffer, so it is not to be trusted.
+    if (size > buffer.Remaining() / sizeof(CharTy)) return false;
     value->resize(size);
-    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()), size);
+    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()),
+                       size * sizeof(CharTy));
   }
 
   static size_t EstimateSize(const std::basic_string<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
@@ -147,6 +150,9 @@ class Copyable<std::vector<T>> {
   static bool ReadFrom(const ReadOnlyBuffer& buffer, std::vector<T>* values) {
     size_t size;
     if (!buffer.Read(&size)) return false;
+    // NOTE: |size| comes from the buffer, so it is not to be trusted. Every
+    // value takes at least a byte.
+    if (size > buffer.Remaining()) return false;
     values->resize(size);
     for (T& value : (*values)) {
       if (!buffer.Read(&value)) return false;
diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 1b39223..5cb5cf5 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -45,10 +45,12 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   ReadOnlyBuffer(const ReadOnlyBuffer& other) = delete;
   ReadOnlyBuffer& operator=(const ReadOnlyBuffer& other) = delete;
   ReadOnlyBuffer(ReadOnlyBuffer&& other)
-      : buffer_(std::exchange(other.buffer_, nullptr)),
+      : endian_(other.endian_),
+        buffer_(std::exchange(other.buffer_, nullptr)),
         buffer_offset_(std::exchange(other.buffer_offset_, 0)),
         buffer_len_(std::exchange(other.buffer_len_, 0)) {}
   ReadOnlyBuffer& operator=(ReadOnlyBuffer&& other) {
+    endian_ = other.endian_;
     buffer_ = std::exchange(other.buffer_, nullptr);
     buffer_offset_ = std::exchange(other.buffer_offset_, 0);
     buffer_len_ = std::exchange(other.buffer_len_, 0);
@@ -72,6 +74,11 @@ class TACHYON_EXPORT ReadOnlyBuffer {
 
   size_t buffer_len() const { return buffer_len_; }
 
+  // Returns the number of bytes left after |buffer_offset()|.
+  size_t Remaining() const {
+    return buffer_offset_ < buffer_len_ ? buffer_len_ - buffer_offset_ : 0;
+  }
+
   [[nodiscard]] bool Done() const { return buffer_offset_ == buffer_len_; }
 
   // Returns false when either
@@ -137,16 +144,16 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   template <typename T>
   [[nodiscard]] bool ReadPtrAt(size_t buffer_offset, T** ptr,
                                size_t ptr_num) const {
-    size_t size = sizeof(T) * ptr_num;
-    base::CheckedNumeric<size_t> len = buffer_offset;
+    base::CheckedNumeric<size_t> len = ptr_num;
+    len *= sizeof(T);
     size_t size_needed;
-    if (!(len + size).AssignIfValid(&size_needed)) return false;
+    if (!(len + buffer_offset).AssignIfValid(&size_needed)) return false;
     if (size_needed > buffer_len_) {
       return false;
     }
     const char* buffer = reinterpret_cast<const char*>(buffer_);
     *ptr = const_cast<T*>(reinterpret_cast<const T*>(&buffer[buffer_offset]));
-    buffer_offset_ = buffer_offset + size;
+    buffer_offset_ = size_needed;
     return true;
   }
 
@@ -199,7 +206,7 @@ class TACHYON_EXPORT ReadOnlyBuffer {
     return ReadMany(std::forward<Args>(args)...);
   }
 
-  template <typename T, size_t N>
+  template <typename T>
   [[nodiscard]] bool ReadManyAt(size_t buffer_offset, T&& value) const {
     return ReadAt(buffer_offset, std::forward<T>(value));
   }
@@ -208,7 +215,7 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   [[nodiscard]] bool ReadManyAt(size_t buffer_offset, T&& value,
                                 Args&&... args) const {
     if (!ReadAt(buffer_offset, std::forward<T>(value))) return false;
-    return ReadManyAt(buffer_offset, std::forward<Args>(args)...);
+    return ReadMany(std::forward<Args>(args)...);
   }
 
  protected:
diff --git a/tachyon/base/buffer/string_buffer.h b/tachyon/base/buffer/string_buffer.h
index e26b543..8d29941 100644
--- a/tachyon/base/buffer/string_buffer.h
+++ b/tachyon/base/buffer/string_buffer.h
@@ -15,10 +15,16 @@ class TACHYON_EXPORT StringBuffer : public Buffer {
   StringBuffer& operator=(const StringBuffer& other) = delete;
   StringBuffer(StringBuffer&& other)
       : Buffer(std::move(other)),
-        owned_buffer_(std::move(other.owned_buffer_)) {}
+        owned_buffer_(std::move(other.owned_buffer_)) {
+    // NOTE: A short string moves its characters, not its storage.
+    UpdateBuffer();
+    other.Release();
+  }
   StringBuffer& operator=(StringBuffer&& other) {
     Buffer::operator=(std::move(other));
     owned_buffer_ = std::move(other.owned_buffer_);
+    UpdateBuffer();
+    other.Release();
     return *this;
   }
   ~StringBuffer() override = default;
@@ -29,12 +35,22 @@ class TACHYON_EXPORT StringBuffer : public Buffer {
 
   [[nodiscard]] bool Grow(size_t size) override {
     owned_buffer_.resize(size);
-    buffer_ = owned_buffer_.data();
-    buffer_len_ = owned_buffer_.size();
+    UpdateBuffer();
     return true;
   }
 
  protected:
+  void UpdateBuffer() {
+    buffer_ = owned_buffer_.data();
+    buffer_len_ = owned_buffer_.size();
+  }
+
+  void Release() {
+    owned_buffer_.clear();
+    buffer_ = nullptr;
+    buffer_len_ = 0;
+  }
+
   std::string owned_buffer_;
 };
 
diff --git a/tachyon/math/matrix/matrix_types.h b/tachyon/math/matrix/matrix_types.h
index 20f468a..6e72a95 100644
--- a/tachyon/math/matrix/matrix_types.h
+++ b/tachyon/math/matrix/matrix_types.h
@@ -71,6 +71,13 @@ class Copyable<Eigen::Matrix<Field, Rows, Cols, Options, MaxRows, MaxCols>> {
     Eigen::Index rows, cols;
     Matrix matrix_tmp;
     if (!buffer.ReadMany(&rows, &cols)) return false;
+    // NOTE: |rows| and |cols| come from the buffer, so they are not to be
+    // trusted. Every element takes at least a byte.
+    if (rows < 0 || cols < 0) return false;
+    if (rows > 0 && static_cast<size_t>(cols) >
+                        buffer.Remaining() / static_cast<size_t>(rows)) {
+      return false;
+    }
     if (Rows != Eigen::Dynamic && Cols != Eigen::Dynamic) {
       if (rows != Rows || cols != Cols) return false;
     } else if (Rows != Eigen::Dynamic) {
@@ -132,6 +139,9 @@ class Copyable<Eigen::DiagonalMatrix<Field, Size, MaxSize>> {
     Eigen::Index size;
     DiagonalVector vector_tmp;
     if (!buffer.ReadMany(&size)) return false;
+    if (size < 0 || static_cast<size_t>(size) > buffer.Remaining()) {
+      return false;
+    }
     if (Size != Eigen::Dynamic) {
       if (size != Size) return false;
     } else {
-- 
2.43.0


From b83e007b1f8a341e3ee5a287d597ff920b27b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:40 +0000
Subject: [PATCH 42/85] fix: initialize the unused Poseidon2 round constants

---
 tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index 9179050..4f8eddc 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -30,8 +30,10 @@ template <typename F>
 void FindPoseidon2ARK(const PoseidonGrainLFSRConfig& config,
                       math::Matrix<F>& ark) {
   PoseidonGrainLFSR<F> lfsr(config);
-  ark = math::Matrix<F>(config.num_full_rounds + config.num_partial_rounds,
-                        config.state_len);
+  // NOTE: A partial round only adds to the first element of the state.
+  ark = math::Matrix<F>::Constant(
+      config.num_full_rounds + config.num_partial_rounds, config.state_len,
+      F::Zero());
   size_t partial_rounds_start = config.num_full_rounds / 2;
   size_t partial_rounds_end =
       config.num_full_rounds / 2 + config.num_partial_rounds;
-- 
2.43.0


From 14cc7a7439aa5e2888c8040cac8bb25afd2f34b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:50 +0000
Subject: [PATCH 43/85] fix: keep the chunk size of copied adapters and shrink
 with ParallelizeResize

---
 tachyon/base/containers/adapters.h | 3 ++-
 tachyon/base/parallelize.h         | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/containers/adapters.h b/tachyon/base/containers/adapters.h
index 1c94d89..77afb31 100644
--- a/tachyon/base/containers/adapters.h
+++ b/tachyon/base/containers/adapters.h
@@ -43,7 +43,8 @@ template <typename T>
 class ChunkedAdapter {
  public:
   ChunkedAdapter(T& t, size_t chunk_size) : t_(t), chunk_size_(chunk_size) {}
-  ChunkedAdapter(const ChunkedAdapter& ca) : t_(ca.t_) {}
+  ChunkedAdapter(const ChunkedAdapter& ca)
+      : t_(ca.t_), chunk_size_(ca.chunk_size_) {}
 
   ChunkedAdapter& operator=(const ChunkedAdapter& ca) = delete;
 
diff --git a/tachyon/base/parallelize.h b/tachyon/base/parallelize.h
index 281898d..2be208d 100644
--- a/tachyon/base/parallelize.h
+++ b/tachyon/base/parallelize.h
@@ -311,6 +311,7 @@ void ParallelizeResize(Container& container, size_t size,
   if (container.capacity() > size) {
     size_t old_size = container.size();
     container.resize(size);
+    if (size <= old_size) return;
     auto init_span = absl::MakeSpan(container).last(size - old_size);
     Parallelize(
         init_span,
-- 
2.43.0


From e062f4eeacc3d2f5324fc0f41426aafe278a55c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:01 +0000
Subject: [PATCH 44/85] fix: report the negation of non-zero unsigned checked
 numbers as invalid

---
 tachyon/base/numerics/checked_math.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/numerics/checked_math.h b/tachyon/base/numerics/checked_math.h
index 6da2122..1c986ea 100644
--- a/tachyon/base/numerics/checked_math.h
+++ b/tachyon/base/numerics/checked_math.h
@@ -148,11 +148,15 @@ class CheckedNumeric {
         std::is_floating_point<T>::value) {
       return FastRuntimeNegate();
     }
-    // The negation of two's complement int min is int min.
+    // The negation of two's complement int min is int min, and zero is the only
+    // unsigned value whose negation is representable.
     const bool is_valid =
         IsValid() &&
-        (!std::is_signed<T>::value || std::is_floating_point<T>::value ||
-         NegateWrapper(state_.value()) != std::numeric_limits<T>::lowest());
+        (std::is_floating_point<T>::value ||
+         (std::is_signed<T>::value
+              ? NegateWrapper(state_.value()) !=
+                    std::numeric_limits<T>::lowest()
+              : state_.value() == T(0)));
     return CheckedNumeric<T>(NegateWrapper(state_.value()), is_valid);
   }
 
-- 
2.43.0


From 116c2ac7b180850b98cd2e869a8d70d69c8c3b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:01 +0000
Subject: [PATCH 45/85] fix: divide and reduce checked integers of mixed
 signedness exactly

---
 tachyon/base/numerics/checked_math_impl.h | 35 ++++++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/tachyon/base/numerics/checked_math_impl.h b/tachyon/base/numerics/checked_math_impl.h
index 4f14430..5c06a44 100644
--- a/tachyon/base/numerics/checked_math_impl.h
+++ b/tachyon/base/numerics/checked_math_impl.h
@@ -213,6 +213,24 @@ struct CheckedMulOp<T,
   }
 };
 
+// Stores the integer with the given |magnitude| and sign if it is in range.
+template <typename V>
+constexpr bool CheckedSignedMagnitude(uintmax_t magnitude, bool is_negative,
+                                      V* result) {
+  if (!is_negative || magnitude == 0) {
+    if (!IsValueInRangeForNumericType<V>(magnitude))
+      return false;
+    *result = static_cast<V>(magnitude);
+    return true;
+  }
+  // The lowest signed value is one further from zero than the largest.
+  if (!std::is_signed<V>::value ||
+      magnitude - 1 > static_cast<uintmax_t>(std::numeric_limits<V>::max()))
+    return false;
+  *result = static_cast<V>(-static_cast<intmax_t>(magnitude - 1) - 1);
+  return true;
+}
+
 // Division just requires a check for a zero denominator or an invalid negation
 // on signed min/-1.
 template <typename T, typename U, class Enable = void>
@@ -242,10 +260,11 @@ struct CheckedDivOp<T,
     }
 
     // This branch always compiles away if the above branch wasn't removed.
-    if (BASE_NUMERICS_UNLIKELY((!IsValueInRangeForNumericType<Promotion>(x) ||
-                                !IsValueInRangeForNumericType<Promotion>(y)) &&
-                               x)) {
-      return false;
+    if (BASE_NUMERICS_UNLIKELY(!IsValueInRangeForNumericType<Promotion>(x) ||
+                               !IsValueInRangeForNumericType<Promotion>(y))) {
+      return CheckedSignedMagnitude(
+          static_cast<uintmax_t>(SafeUnsignedAbs(x)) / SafeUnsignedAbs(y),
+          IsValueNegative(x) != IsValueNegative(y), result);
     }
 
     const Promotion presult = Promotion(x) / Promotion(y);
@@ -281,6 +300,14 @@ struct CheckedModOp<T,
       return true;
     }
 
+    // The remainder has the sign of the dividend.
+    if (BASE_NUMERICS_UNLIKELY(!IsValueInRangeForNumericType<Promotion>(x) ||
+                               !IsValueInRangeForNumericType<Promotion>(y))) {
+      return CheckedSignedMagnitude(
+          static_cast<uintmax_t>(SafeUnsignedAbs(x)) % SafeUnsignedAbs(y),
+          IsValueNegative(x), result);
+    }
+
     const Promotion presult =
         static_cast<Promotion>(x) % static_cast<Promotion>(y);
     if (!IsValueInRangeForNumericType<V>(presult))
-- 
2.43.0


From a6b1c136f475ee96d1025cadddd27e0e1fa3f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:01 +0000
Subject: [PATCH 46/85] fix: saturate mixed-sign clamped sums and remainders to
 the right bound

---
 tachyon/base/numerics/clamped_math_impl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/numerics/clamped_math_impl.h b/tachyon/base/numerics/clamped_math_impl.h
index 31292f5..082ddc5 100644
--- a/tachyon/base/numerics/clamped_math_impl.h
+++ b/tachyon/base/numerics/clamped_math_impl.h
@@ -87,7 +87,10 @@ struct ClampedAddOp<T,
                       IsTypeInRangeForNumericType<U, V>::value,
                   "The saturation result cannot be determined from the "
                   "provided types.");
-    const V saturated = CommonMaxOrMin<V>(IsValueNegative(y));
+    // A sum of operands of opposite signs can only be too small, when the result
+    // is unsigned.
+    const V saturated =
+        CommonMaxOrMin<V>(IsValueNegative(x) || IsValueNegative(y));
     V result = {};
     return BASE_NUMERICS_LIKELY((CheckedAddOp<T, U>::Do(x, y, &result)))
                ? result
@@ -178,7 +181,7 @@ struct ClampedModOp<T,
     V result = {};
     return BASE_NUMERICS_LIKELY((CheckedModOp<T, U>::Do(x, y, &result)))
                ? result
-               : x;
+               : saturated_cast<V>(x);
   }
 };
 
-- 
2.43.0


From ef5ad2c52c479af4ddc681e507ecc1edb389eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:06 +0000
Subject: [PATCH 47/85] fix: parse only the given view and reject negative text
 as a big integer

---
 tachyon/math/base/big_int.cc      | 4 ++++
 tachyon/math/base/gmp/gmp_util.cc | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.cc b/tachyon/math/base/big_int.cc
index a5c10e3..f310dbd 100644
--- a/tachyon/math/base/big_int.cc
+++ b/tachyon/math/base/big_int.cc
@@ -18,6 +18,10 @@ bool DoStringToLimbs(std::string_view str, uint64_t* limbs, size_t limb_nums) {
                << ")";
     return false;
   }
+  if (gmp::IsNegative(out)) {
+    LOG(ERROR) << "negative string(" << str << ") with base(" << Base << ")";
+    return false;
+  }
   size_t actual_limb_nums = gmp::GetLimbSize(out);
   if (actual_limb_nums > limb_nums) {
     LOG(ERROR) << "actual limb nums(" << actual_limb_nums
diff --git a/tachyon/math/base/gmp/gmp_util.cc b/tachyon/math/base/gmp/gmp_util.cc
index c0ecea5..0f71b64 100644
--- a/tachyon/math/base/gmp/gmp_util.cc
+++ b/tachyon/math/base/gmp/gmp_util.cc
@@ -34,7 +34,8 @@ bool ParseIntoMpz(std::string_view str, int base, mpz_class* out) {
     base::ConsumePrefix0x(&str);
   }
 
-  return out->set_str(str.data(), base) == 0;
+  // |str| is not necessarily null-terminated.
+  return out->set_str(std::string(str), base) == 0;
 }
 
 void MustParseIntoMpz(std::string_view str, int base, mpz_class* out) {
-- 
2.43.0


From 41751e8d049c6dc6db24380cca2571821bbe10a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:02 +0000
Subject: [PATCH 48/85] fix: convert any duration to and from timespec and
 timeval without wrapping

---
 tachyon/base/time/time_conversion_posix.cc | 34 ++++++++++++++++------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/tachyon/base/time/time_conversion_posix.cc b/tachyon/base/time/time_conversion_posix.cc
index 8865613..6f58079 100644
--- a/tachyon/base/time/time_conversion_posix.cc
+++ b/tachyon/base/time/time_conversion_posix.cc
@@ -10,21 +10,38 @@
 
 namespace tachyon::base {
 
+namespace {
+
+// Saturates instead of overflowing.
+int64_t ToMicroseconds(int64_t seconds, int64_t microseconds) {
+  // Terms of the same sign saturate to the same end.
+  if (seconds < 0 && microseconds > 0) {
+    ++seconds;
+    microseconds -= Time::kMicrosecondsPerSecond;
+  }
+  return ClampAdd(ClampMul(seconds, Time::kMicrosecondsPerSecond),
+                  microseconds);
+}
+
+}  // namespace
+
 // static
 TimeDelta TimeDelta::FromTimeSpec(const timespec& ts) {
-  return TimeDelta(ts.tv_sec * Time::kMicrosecondsPerSecond +
-                   ts.tv_nsec / Time::kNanosecondsPerMicrosecond);
+  return TimeDelta(ToMicroseconds(
+      ts.tv_sec, ts.tv_nsec / Time::kNanosecondsPerMicrosecond));
 }
 
 struct timespec TimeDelta::ToTimeSpec() const {
   int64_t microseconds = InMicroseconds();
-  time_t seconds = 0;
-  if (microseconds >= Time::kMicrosecondsPerSecond) {
-    seconds = static_cast<time_t>(InSeconds());
-    microseconds -= seconds * Time::kMicrosecondsPerSecond;
+  int64_t seconds = microseconds / Time::kMicrosecondsPerSecond;
+  microseconds %= Time::kMicrosecondsPerSecond;
+  // |tv_nsec| is never negative.
+  if (microseconds < 0) {
+    --seconds;
+    microseconds += Time::kMicrosecondsPerSecond;
   }
   struct timespec result = {
-      seconds,
+      static_cast<time_t>(seconds),
       static_cast<long>(microseconds * Time::kNanosecondsPerMicrosecond)};
   return result;
 }
@@ -37,8 +54,7 @@ Time Time::FromTimeVal(struct timeval t) {
   if (t.tv_usec == static_cast<suseconds_t>(Time::kMicrosecondsPerSecond) - 1 &&
       t.tv_sec == std::numeric_limits<time_t>::max())
     return Max();
-  return Time((static_cast<int64_t>(t.tv_sec) * Time::kMicrosecondsPerSecond) +
-              t.tv_usec);
+  return Time(ToMicroseconds(t.tv_sec, t.tv_usec));
 }
 
 struct timeval Time::ToTimeVal() const {
-- 
2.43.0


From eac6e922bbf861174087b25863381e28e5800952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:29 +0000
Subject: [PATCH 49/85] fix: convert chrono time points and timespecs to times
 exactly

---
 tachyon/base/time/time.cc | 3 +--
 tachyon/base/time/time.h  | 6 ++++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/tachyon/base/time/time.cc b/tachyon/base/time/time.cc
index 43e7a99..a4455f8 100644
--- a/tachyon/base/time/time.cc
+++ b/tachyon/base/time/time.cc
@@ -154,8 +154,7 @@ double Time::ToDoubleT() const {
 #if BUILDFLAG(IS_POSIX) || BUILDFLAG(IS_FUCHSIA)
 // static
 Time Time::FromTimeSpec(const timespec& ts) {
-  return FromDoubleT(ts.tv_sec +
-                     static_cast<double>(ts.tv_nsec) / kNanosecondsPerSecond);
+  return Time() + TimeDelta::FromTimeSpec(ts);
 }
 #endif
 
diff --git a/tachyon/base/time/time.h b/tachyon/base/time/time.h
index 72e690e..25307c4 100644
--- a/tachyon/base/time/time.h
+++ b/tachyon/base/time/time.h
@@ -674,8 +674,10 @@ namespace time_internal {
 template <std::intmax_t N>
 constexpr TimeDelta FromInt64(int64_t v, std::ratio<1, N>) {
   static_assert(0 < N && N <= 1000 * 1000 * 1000, "Unsupported ratio");
-  return TimeDelta::FromInternalValue(saturated_cast<int64_t>(
-      static_cast<double>(v) / N * Time::kMicrosecondsPerSecond));
+  // The remainder is less than 1e9, so its product cannot overflow.
+  return TimeDelta::FromInternalValue(
+      int64_t{ClampAdd(ClampMul(v / N, Time::kMicrosecondsPerSecond),
+                       v % N * Time::kMicrosecondsPerSecond / N)});
 }
 
 constexpr TimeDelta FromInt64(int64_t v, std::ratio<60>) {
-- 
2.43.0


From a861b344fc469e9a72d1c4a68c5935726fcd0db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 50/85] fix: report a flag whose value is missing at the end of
 the arguments

---
 tachyon/base/flag/flag_parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/flag/flag_parser.cc b/tachyon/base/flag/flag_parser.cc
index 19c76f2..c80890d 100644
--- a/tachyon/base/flag/flag_parser.cc
+++ b/tachyon/base/flag/flag_parser.cc
@@ -120,6 +120,7 @@ bool FlagParserBase::Context::ConsumeEqualOrProceed(std::string_view* arg) {
   if (ConsumePrefix(arg, "=")) return true;
   if (!arg->empty()) return false;
   Proceed();
+  if (!HasArg()) return false;
   *arg = current();
   return true;
 }
-- 
2.43.0


From 90af494ef5284f181d265cc5cfe9f0234a6132ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 51/85] fix: let ParseKnown fail when parsing or validation
 fails

---
 tachyon/base/flag/flag_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/base/flag/flag_parser.cc b/tachyon/base/flag/flag_parser.cc
index c80890d..1d075db 100644
--- a/tachyon/base/flag/flag_parser.cc
+++ b/tachyon/base/flag/flag_parser.cc
@@ -470,7 +470,7 @@ bool FlagParser::ParseKnownWithForward(int* argc, char** argv,
   Context ctx(this, 1, *argc, argv);
   ctx.unknown_argc = argc;
   ctx.forward_argv = forward;
-  if (!FlagParserBase::Parse(ctx, error) && Validate(error)) return false;
+  if (!(FlagParserBase::Parse(ctx, error) && Validate(error))) return false;
   ctx.FillUnknownArgs();
   return true;
 }
-- 
2.43.0


From d1dc243ddcbb23a2e5a765964bc2094eeb58ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 52/85] fix: check required flags and fallbacks also after "--"
 or a subparser

---
 tachyon/base/flag/flag_parser.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/flag/flag_parser.cc b/tachyon/base/flag/flag_parser.cc
index 1d075db..bb73686 100644
--- a/tachyon/base/flag/flag_parser.cc
+++ b/tachyon/base/flag/flag_parser.cc
@@ -236,6 +236,7 @@ bool FlagParserBase::Parse(Context& ctx, std::string* error) {
         return flag->is_positional();
       });
   bool has_subparser = false;
+  bool subparser_parsed = false;
   if (positional_argument > 0) {
     has_subparser = flags_[0]->IsSubParser();
   }
@@ -249,7 +250,7 @@ bool FlagParserBase::Parse(Context& ctx, std::string* error) {
           ctx.forward_argv->emplace_back(ctx.argv[i]);
         }
       }
-      return true;
+      break;
     }
 
     if (arg == "--help" || arg == "-h") {
@@ -329,7 +330,9 @@ bool FlagParserBase::Parse(Context& ctx, std::string* error) {
         SubParser* sub_parser = target_flag->ToSubParser();
         if (sub_parser->is_set_) *sub_parser->is_set_ = true;
         ctx.Proceed();
-        return target_flag->ToSubParser()->Parse(ctx, error);
+        if (!sub_parser->Parse(ctx, error)) return false;
+        subparser_parsed = true;
+        break;
       } else if (target_flag->is_positional()) {
         parsed = target_flag->ParseValue(arg, &reason);
         positional_parsed++;
@@ -392,6 +395,7 @@ bool FlagParserBase::Parse(Context& ctx, std::string* error) {
   }
 
   for (auto& flag : flags_) {
+    if (subparser_parsed && flag->IsSubParser()) continue;
     if (!flag->is_set()) {
       if (flag->is_required()) {
         *error = absl::Substitute("\"$0\" is required, but not set.",
-- 
2.43.0


From 3293e36e7e0ecfd257c31f650e0c7cab0aab37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 53/85] fix: do not accept a lone "-" as an argument

---
 tachyon/base/flag/flag_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/base/flag/flag_parser.cc b/tachyon/base/flag/flag_parser.cc
index bb73686..dad7f14 100644
--- a/tachyon/base/flag/flag_parser.cc
+++ b/tachyon/base/flag/flag_parser.cc
@@ -286,7 +286,7 @@ bool FlagParserBase::Parse(Context& ctx, std::string* error) {
     } else {
       std::string_view new_arg = arg;
       if (ConsumePrefix(&new_arg, "-")) {
-        if ((ContainsOnlyAlpha(new_arg))) {
+        if (!new_arg.empty() && ContainsOnlyAlpha(new_arg)) {
           // Flags can be passed like '-ab' if '-a' and '-b' are valid short
           // names and don't need values. For this special case, we have to
           // treat differently.
-- 
2.43.0


From b4c30101b0b1641ef211b90d651d1d9fc9372b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 54/85] fix: do not match a long flag name followed by the
 short one

---
 tachyon/base/flag/flag.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/flag/flag.cc b/tachyon/base/flag/flag.cc
index 7dc7b09..41508bc 100644
--- a/tachyon/base/flag/flag.cc
+++ b/tachyon/base/flag/flag.cc
@@ -78,6 +78,7 @@ bool FlagBase::ConsumeNamePrefix(FlagParserBase& parser,
       }
     }
   }
+  input = *arg;
   if (!short_name_.empty()) {
     if (ConsumePrefix(&input, short_name_)) {
       if (input.empty() || input[0] == '=') {
-- 
2.43.0


From cd024ff28ab06fc8a45b97fa05df639f9b5627eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:14 +0000
Subject: [PATCH 55/85] fix: set bundled flags only when every letter names a
 flag, and report their errors

---
 tachyon/base/flag/flag_parser.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/tachyon/base/flag/flag_parser.cc b/tachyon/base/flag/flag_parser.cc
index dad7f14..e4d6d28 100644
--- a/tachyon/base/flag/flag_parser.cc
+++ b/tachyon/base/flag/flag_parser.cc
@@ -3,7 +3,6 @@
 #include <iostream>
 #include <limits>
 #include <string>
-#include <tuple>
 #include <utility>
 
 namespace tachyon::base {
@@ -290,23 +289,32 @@ bool FlagParserBase::Parse(Context& ctx, std::string* error) {
           // Flags can be passed like '-ab' if '-a' and '-b' are valid short
           // names and don't need values. For this special case, we have to
           // treat differently.
-          bool all_parsed =
-              std::all_of(new_arg.begin(), new_arg.end(), [this](char c) {
+          // No flag is set unless every letter names such a flag.
+          std::vector<FlagBase*> bundled_flags;
+          bool all_found = std::all_of(
+              new_arg.begin(), new_arg.end(), [this, &bundled_flags](char c) {
                 for (auto& flag : flags_) {
                   if (flag->is_positional()) continue;
                   if (flag->NeedsValue()) continue;
                   if (flag->short_name().length() == 2 &&
                       c == flag->short_name()[1]) {
-                    bool parsed = flag->ParseValue("", nullptr);
-                    std::ignore = parsed;
-                    DCHECK(parsed);
+                    bundled_flags.push_back(flag.get());
                     return true;
                   }
                 }
 
                 return false;
               });
-          if (all_parsed) {
+          if (all_found) {
+            for (FlagBase* flag : bundled_flags) {
+              std::string reason;
+              if (!flag->ParseValue("", &reason)) {
+                *error = absl::Substitute(
+                    "\"$0\" is failed to parse: (reason: $1).",
+                    flag->display_name(), reason.empty() ? "unknown" : reason);
+                return false;
+              }
+            }
             ctx.Proceed();
             continue;
           }
-- 
2.43.0


From deddbc3b137354c060f1ce9f8cf20073460bc0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:42 +0000
Subject: [PATCH 56/85] fix: keep an empty path empty when stripping its
 separators

---
 tachyon/base/files/file_path.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/files/file_path.cc b/tachyon/base/files/file_path.cc
index a056934..63dba31 100644
--- a/tachyon/base/files/file_path.cc
+++ b/tachyon/base/files/file_path.cc
@@ -295,6 +295,7 @@ FilePath FilePath::StripTrailingSeparators() const {
 }
 
 void FilePath::StripTrailingSeparatorsInternal() {
+  if (path_.empty()) return;
   size_t pos = path_.find_last_not_of(kSeparators);
   if (pos == std::string::npos) {
     path_.resize(1);
-- 
2.43.0


From e70c145991625030f064be01bac1975e94f32b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:42 +0000
Subject: [PATCH 57/85] fix: agree on what the extension of a path is

---
 tachyon/base/files/file_path.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tachyon/base/files/file_path.cc b/tachyon/base/files/file_path.cc
index 63dba31..e3ba039 100644
--- a/tachyon/base/files/file_path.cc
+++ b/tachyon/base/files/file_path.cc
@@ -188,11 +188,9 @@ FilePath FilePath::BaseName() const {
 
 std::string FilePath::Extension() const {
   FilePath base(BaseName());
-  std::string_view p = base.value();
-  size_t last_separator =
-      p.find_last_of(kExtensionSeparator, std::string::npos);
-  if (last_separator == std::string::npos) return EmptyString();
-  return std::string(p.substr(last_separator, p.length() - last_separator));
+  const std::string::size_type dot = ExtensionSeparatorPosition(base.path_);
+  if (dot == std::string::npos) return std::string();
+  return base.path_.substr(dot, std::string::npos);
 }
 
 std::string FilePath::FinalExtension() const {
-- 
2.43.0


From c6c74746caf012a27900c7a9a4fc013e912fe58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:42 +0000
Subject: [PATCH 58/85] fix: only a ".." component references the parent
 directory

---
 tachyon/base/files/file_path.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/files/file_path.cc b/tachyon/base/files/file_path.cc
index e3ba039..b819f09 100644
--- a/tachyon/base/files/file_path.cc
+++ b/tachyon/base/files/file_path.cc
@@ -303,7 +303,10 @@ void FilePath::StripTrailingSeparatorsInternal() {
 }
 
 bool FilePath::ReferencesParent() const {
-  return path_.find(kParentDirectory) != std::string::npos;
+  for (const std::string& component : GetComponents()) {
+    if (component == kParentDirectory) return true;
+  }
+  return false;
 }
 
 std::ostream& operator<<(std::ostream& out, const FilePath& file_path) {
-- 
2.43.0


From 32a2fa6f199fde45a121054177e1179772446cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:42 +0000
Subject: [PATCH 59/85] fix: create directories named by a relative path

---
 tachyon/base/files/file_util_posix.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/files/file_util_posix.cc b/tachyon/base/files/file_util_posix.cc
index 4e1be38..e5f1469 100644
--- a/tachyon/base/files/file_util_posix.cc
+++ b/tachyon/base/files/file_util_posix.cc
@@ -780,7 +780,8 @@ bool CreateDirectoryAndGetError(const FilePath& full_path,
   FilePath last_path = full_path;
   subpaths.push_back(full_path);
   for (FilePath path = full_path.DirName();
-       path.value() != last_path.value(); path = path.DirName()) {
+       !path.empty() && path.value() != last_path.value();
+       path = path.DirName()) {
     subpaths.push_back(path);
     last_path = path;
   }
-- 
2.43.0


From c6dc963030f4e62e7344ad8e0b3fa7603332e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:42 +0000
Subject: [PATCH 60/85] fix: copy directories named by a single relative
 component

---
 tachyon/base/files/file_util_posix.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/files/file_util_posix.cc b/tachyon/base/files/file_util_posix.cc
index e5f1469..1267e79 100644
--- a/tachyon/base/files/file_util_posix.cc
+++ b/tachyon/base/files/file_util_posix.cc
@@ -150,7 +150,10 @@ bool DoCopyDirectory(const FilePath& from_path,
   if (PathExists(real_to_path))
     real_to_path = MakeAbsoluteFilePath(real_to_path);
   else
-    real_to_path = MakeAbsoluteFilePath(real_to_path.DirName());
+    real_to_path = MakeAbsoluteFilePath(
+        real_to_path.DirName().empty()
+            ? FilePath(FilePath::kCurrentDirectory)
+            : real_to_path.DirName());
   if (real_to_path.empty())
     return false;
 
@@ -190,8 +193,11 @@ bool DoCopyDirectory(const FilePath& from_path,
     // current is the source path, including from_path, so append
     // the suffix after from_path to to_path to create the target_path.
     FilePath target_path(to_path);
-    if (from_path_base != current &&
-        !from_path_base.AppendRelativePath(current, &target_path)) {
+    if (from_path_base.empty()) {
+      // |from_path| is a single relative component.
+      target_path = to_path.Append(current);
+    } else if (from_path_base != current &&
+               !from_path_base.AppendRelativePath(current, &target_path)) {
       return false;
     }
 
-- 
2.43.0


From 7350d2cf58be7b259a209e566227f56a02873f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:10 +0000
Subject: [PATCH 61/85] fix: never copy a file or directory onto itself

---
 tachyon/base/files/file_util_posix.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tachyon/base/files/file_util_posix.cc b/tachyon/base/files/file_util_posix.cc
index 1267e79..2787a49 100644
--- a/tachyon/base/files/file_util_posix.cc
+++ b/tachyon/base/files/file_util_posix.cc
@@ -129,6 +129,14 @@ bool AdvanceEnumeratorWithStat(FileEnumerator* traversal,
   return true;
 }
 
+// Returns true if |path| exists and is what |file_info| describes.
+bool IsSameFile(const FilePath& path, const stat_wrapper_t& file_info) {
+  stat_wrapper_t path_info;
+  return File::Stat(path.value().c_str(), &path_info) == 0 &&
+         path_info.st_dev == file_info.st_dev &&
+         path_info.st_ino == file_info.st_ino;
+}
+
 bool DoCopyDirectory(const FilePath& from_path,
                      const FilePath& to_path,
                      bool recursive,
@@ -201,6 +209,13 @@ bool DoCopyDirectory(const FilePath& from_path,
       return false;
     }
 
+    // Copying anything onto itself would truncate it.
+    if (IsSameFile(target_path, from_stat)) {
+      DLOG(ERROR) << "CopyDirectory() can't copy onto itself: "
+                  << current.value();
+      return false;
+    }
+
     if (S_ISDIR(from_stat.st_mode)) {
       mode_t mode = (from_stat.st_mode & 01777) | S_IRUSR | S_IXUSR | S_IWUSR;
       if (mkdir(target_path.value().c_str(), mode) == 0)
@@ -1266,6 +1281,13 @@ bool CopyFile(const FilePath& from_path, const FilePath& to_path) {
   if (!infile.IsValid())
     return false;
 
+  // Opening |to_path| truncates it, which must neither destroy |from_path| nor
+  // happen when there is nothing to copy.
+  stat_wrapper_t in_file_info;
+  if (File::Fstat(infile.GetPlatformFile(), &in_file_info) != 0 ||
+      S_ISDIR(in_file_info.st_mode) || IsSameFile(to_path, in_file_info))
+    return false;
+
   File outfile(to_path, File::FLAG_WRITE | File::FLAG_CREATE_ALWAYS);
   if (!outfile.IsValid())
     return false;
-- 
2.43.0


From 44cde1c1a11f4b82040e9d8a81a74a27a37d9609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:10 +0000
Subject: [PATCH 62/85] fix: fail to copy a directory over a file

---
 tachyon/base/files/file_util_posix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/base/files/file_util_posix.cc b/tachyon/base/files/file_util_posix.cc
index 2787a49..78db17e 100644
--- a/tachyon/base/files/file_util_posix.cc
+++ b/tachyon/base/files/file_util_posix.cc
@@ -220,7 +220,7 @@ bool DoCopyDirectory(const FilePath& from_path,
       mode_t mode = (from_stat.st_mode & 01777) | S_IRUSR | S_IXUSR | S_IWUSR;
       if (mkdir(target_path.value().c_str(), mode) == 0)
         continue;
-      if (errno == EEXIST && !open_exclusive)
+      if (errno == EEXIST && !open_exclusive && DirectoryExists(target_path))
         continue;
 
       DPLOG(ERROR) << "CopyDirectory() couldn't create directory: "
-- 
2.43.0


From b3a8eac02de2f8278f034c45650ed173259205ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:10 +0000
Subject: [PATCH 63/85] fix: do not loop forever comparing unreadable files

---
 tachyon/base/files/file_util.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/files/file_util.cc b/tachyon/base/files/file_util.cc
index 89205f2..e65d5d6 100644
--- a/tachyon/base/files/file_util.cc
+++ b/tachyon/base/files/file_util.cc
@@ -245,6 +245,7 @@ bool ContentsEqual(const FilePath& filename1, const FilePath& filename2) {
     file2.read(buffer2, BUFFER_SIZE);
 
     if ((file1.eof() != file2.eof()) ||
+        file1.bad() || file2.bad() ||
         (file1.gcount() != file2.gcount()) ||
         (memcmp(buffer1, buffer2, static_cast<size_t>(file1.gcount())))) {
       file1.close();
-- 
2.43.0


From 47b6535defcf054210981b76697631c8a0be05af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:54 +0000
Subject: [PATCH 64/85] fix: assigning a ScopedGeneric receiver returned
 nothing and left its owner receiving forever

---
 tachyon/base/scoped_generic.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/tachyon/base/scoped_generic.h b/tachyon/base/scoped_generic.h
index 8f88e9f..3007d21 100644
--- a/tachyon/base/scoped_generic.h
+++ b/tachyon/base/scoped_generic.h
@@ -210,16 +210,14 @@ class ScopedGeneric {
     Receiver& operator=(Receiver&& move) {
       CHECK(!used_);       // Moving into already-used Receiver.
       CHECK(!move.used_);  // Moving from already-used Receiver.
-      scoped_generic_ = move.scoped_generic_;
-      move.scoped_generic_ = nullptr;
-    }
-    ~Receiver() {
-      if (scoped_generic_) {
-        CHECK(scoped_generic_->receiving_);
-        scoped_generic_->reset(value_);
-        scoped_generic_->receiving_ = false;
+      if (this != &move) {
+        Finish();
+        scoped_generic_ = move.scoped_generic_;
+        move.scoped_generic_ = nullptr;
       }
+      return *this;
     }
+    ~Receiver() { Finish(); }
     // We hand out a pointer to a field in Receiver instead of directly to
     // ScopedGeneric's internal storage in order to make it so that users can't
     // accidentally silently break ScopedGeneric's invariants. This way, an
@@ -232,6 +230,14 @@ class ScopedGeneric {
     }
 
    private:
+    void Finish() {
+      if (scoped_generic_) {
+        CHECK(scoped_generic_->receiving_);
+        scoped_generic_->reset(value_);
+        scoped_generic_->receiving_ = false;
+      }
+    }
+
     T value_ = Traits::InvalidValue();
     // raw_ptr<ScopedGeneric<T, Traits>> scoped_generic_;
     ScopedGeneric<T, Traits>* scoped_generic_;
-- 
2.43.0


From c8bc45ce22e2150a98a263b9fe51fb7219b0f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:15 +0000
Subject: [PATCH 65/85] fix: move assignment of an AutoReset never restored the
 variable it had replaced

---
 tachyon/base/auto_reset.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/auto_reset.h b/tachyon/base/auto_reset.h
index 688f370..f5e31ad 100644
--- a/tachyon/base/auto_reset.h
+++ b/tachyon/base/auto_reset.h
@@ -45,8 +45,11 @@ class [[maybe_unused, nodiscard]] AutoReset {
         original_value_(std::move(other.original_value_)) {}
 
   AutoReset& operator=(AutoReset&& rhs) {
-    scoped_variable_ = std::exchange(rhs.scoped_variable_, nullptr);
-    original_value_ = std::move(rhs.original_value_);
+    if (this != &rhs) {
+      if (scoped_variable_) *scoped_variable_ = std::move(original_value_);
+      scoped_variable_ = std::exchange(rhs.scoped_variable_, nullptr);
+      original_value_ = std::move(rhs.original_value_);
+    }
     return *this;
   }
 
-- 
2.43.0


From d54634f2f8c888559403835d2d65334e17aba04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:31 +0000
Subject: [PATCH 66/85] fix: a fraction with numerator one (or minus one) was
 reported to be one (or minus one)

---
 tachyon/math/base/rational_field.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index eb1bc8f..5506088 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -81,11 +81,11 @@ class RationalField : public Field<RationalField<F>> {
   constexpr bool IsZero() const { return numerator_.IsZero(); }
 
   constexpr bool IsOne() const {
-    return numerator_.IsOne() || numerator_ == denominator_;
+    return numerator_ == denominator_;
   }
 
   constexpr bool IsMinusOne() const {
-    return numerator_.IsMinusOne() || (numerator_ + denominator_).IsZero();
+    return (numerator_ + denominator_).IsZero();
   }
 
   std::string ToString() const {
-- 
2.43.0


From 19b2d05ac0e040d80fc813b6843cb52589fa08bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:31 +0000
Subject: [PATCH 67/85] fix: comparing two values for inequality recursed
 forever

---
 tachyon/zk/base/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/base/value.h b/tachyon/zk/base/value.h
index 2f9fca2..90aaa2d 100644
--- a/tachyon/zk/base/value.h
+++ b/tachyon/zk/base/value.h
@@ -62,7 +62,7 @@ class Value : public math::Field<Value<T>> {
     return *value_ == *other.value_;
   }
   constexpr bool operator!=(const Value& other) const {
-    return operator!=(other);
+    return !operator==(other);
   }
 
   const T& value() const { return *value_; }
-- 
2.43.0


From 653d4d53379998e30ead3d38ed39ac1ba911e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:40 +0000
Subject: [PATCH 68/85] fix: BatchEvaluate of fractions ignored its coefficient

---
 tachyon/math/base/rational_field.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index 5506088..c55d39d 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -61,13 +61,14 @@ class RationalField : public Field<RationalField<F>> {
       return false;
     }
     base::Parallelize(*results,
-                      [&ration_fields](absl::Span<F> chunk, size_t chunk_offset,
-                                       size_t chunk_size) {
+                      [&ration_fields, &coeff](absl::Span<F> chunk,
+                                               size_t chunk_offset,
+                                               size_t chunk_size) {
                         size_t start = chunk_offset * chunk_size;
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] = ration_fields[start + i].denominator_;
                         }
-                        CHECK(F::BatchInverseInPlaceSerial(chunk));
+                        CHECK(F::BatchInverseInPlaceSerial(chunk, coeff));
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] *= ration_fields[start + i].numerator_;
                         }
-- 
2.43.0


From 774196b8584961007dcc88b00d1a2798a67b2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:12 +0000
Subject: [PATCH 69/85] fix: copying to the row just past the end wrote outside
 the permutation

---
 tachyon/zk/plonk/permutation/permutation_assembly.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/plonk/permutation/permutation_assembly.h b/tachyon/zk/plonk/permutation/permutation_assembly.h
index 6fa67d0..8bf0f27 100644
--- a/tachyon/zk/plonk/permutation/permutation_assembly.h
+++ b/tachyon/zk/plonk/permutation/permutation_assembly.h
@@ -59,8 +59,8 @@ class TACHYON_EXPORT PermutationAssembly {
 
   void Copy(const AnyColumnKey& left_column, RowIndex left_row,
             const AnyColumnKey& right_column, RowIndex right_row) {
-    CHECK_LE(left_row, rows_);
-    CHECK_LE(right_row, rows_);
+    CHECK_LT(left_row, rows_);
+    CHECK_LT(right_row, rows_);
 
     // Get indices of each column.
     size_t left_col_idx = GetColumnIndex(left_column);
-- 
2.43.0


From 407488f6f52b627af7703895f5cfe59f82da4594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:12 +0000
Subject: [PATCH 70/85] fix: GetAllLabels listed the base of the cycle twice

---
 tachyon/zk/plonk/permutation/cycle_store.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/permutation/cycle_store.cc b/tachyon/zk/plonk/permutation/cycle_store.cc
index ee72132..bbb8417 100644
--- a/tachyon/zk/plonk/permutation/cycle_store.cc
+++ b/tachyon/zk/plonk/permutation/cycle_store.cc
@@ -42,10 +42,10 @@ std::vector<Label> CycleStore::GetAllLabels(const Label& label) const {
   ret.push_back(l);
   while (true) {
     l = mapping_[l];
-    ret.push_back(l);
     if (l == base) {
       break;
     }
+    ret.push_back(l);
   }
   return ret;
 }
-- 
2.43.0


From 13b1db2d2ecdb9d8b842106a90c98e828e0f6c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:05 +0000
Subject: [PATCH 71/85] fix: the identifier of a scaled expression left out the
 expression

---
 tachyon/zk/plonk/expressions/evaluator/identifier.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/zk/plonk/expressions/evaluator/identifier.h b/tachyon/zk/plonk/expressions/evaluator/identifier.h
index ee471b4..678c5ea 100644
--- a/tachyon/zk/plonk/expressions/evaluator/identifier.h
+++ b/tachyon/zk/plonk/expressions/evaluator/identifier.h
@@ -50,6 +50,7 @@ class Identifier : public Evaluator<F, void> {
         ss_ << ")";
         return;
       case ExpressionType::kScaled:
+        Evaluate(input->ToScaled()->expr());
         ss_ << "*";
         ss_ << input->ToScaled()->scale().ToString();
         return;
-- 
2.43.0


From 127057b7e51f982507e292d8c36f5923da04e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:05 +0000
Subject: [PATCH 72/85] fix: selector compression ignored the degree of the
 joining selector

---
 tachyon/zk/plonk/constraint_system/selector_compressor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/plonk/constraint_system/selector_compressor.h b/tachyon/zk/plonk/constraint_system/selector_compressor.h
index 923e744..8c27b1a 100644
--- a/tachyon/zk/plonk/constraint_system/selector_compressor.h
+++ b/tachyon/zk/plonk/constraint_system/selector_compressor.h
@@ -218,9 +218,9 @@ class SelectorCompressor {
         if (excluded) continue;
 
         // Can the new selector join the combination? Reminder: we use
-        // |selector.max_degree() - 1| to omit the influence of the virtual
+        // |selectors_[j].max_degree() - 1| to omit the influence of the virtual
         // selector on the degree, as it will be substituted.
-        size_t new_d = std::max(d, selector.max_degree() - 1);
+        size_t new_d = std::max(d, selectors_[j].max_degree() - 1);
         if (new_d + combination.size() + 1 > max_degree) {
           // Guess not.
           continue;
-- 
2.43.0


From ae8bf728e998147dc59e649db0e425b767ce80db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:05 +0000
Subject: [PATCH 73/85] fix: chunking lookups put inputs of one table into the
 argument of another

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 61fc823..1ff6594 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -307,6 +307,8 @@ class ConstraintSystem {
           Expression<F>::CloneExpressions(lookup_tracker.inputs[0]);
       std::vector<std::unique_ptr<Expression<F>>> cloned_table =
           Expression<F>::CloneExpressions(lookup_tracker.table);
+      // Only the arguments of this table can take its inputs.
+      size_t first_argument = lookups_.size();
       lookups_.emplace_back(lookup_tracker.name, std::move(cloned_input),
                             std::move(cloned_table));
 
@@ -316,8 +318,9 @@ class ConstraintSystem {
         size_t cur_input_degree = ComputeColumnDegree(*input);
 
         bool added = false;
-        for (lookup::Argument<F>& lookup_argument : lookups_) {
+        for (size_t i = first_argument; i < lookups_.size(); ++i) {
           // Try to fit input into one of the |lookup_arguments|.
+          lookup::Argument<F>& lookup_argument = lookups_[i];
           size_t cur_argument_degree = lookup_argument.RequiredDegree();
           size_t new_potential_degree = cur_argument_degree + cur_input_degree;
           if (new_potential_degree <= minimum_degree) {
-- 
2.43.0


From 941a05e923f2e82521ae2315415168bd75a2b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:30 +0000
Subject: [PATCH 74/85] fix: degree and blinding factors computed early were
 kept after the configuration changed

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 1ff6594..daa1ca0 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -143,6 +143,7 @@ class ConstraintSystem {
   // larger amount than actually needed. This can be used, for example, to
   // force the permutation argument to involve more columns in the same set.
   void set_minimum_degree(size_t degree) {
+    cached_degree_.reset();
     if (minimum_degree_) {
       minimum_degree_ = std::max(minimum_degree_.value(), degree);
     } else {
@@ -178,6 +179,7 @@ class ConstraintSystem {
     VirtualCells cells(this);
     lookup::Pairs<std::unique_ptr<Expression<F>>, LookupTableColumn> pairs =
         std::move(callback).Run(cells);
+    cached_degree_.reset();
 
     switch (lookup_type_) {
       case lookup::Type::kHalo2: {
@@ -225,6 +227,7 @@ class ConstraintSystem {
     VirtualCells cells(this);
     lookup::Pairs<std::unique_ptr<Expression<F>>> pairs =
         std::move(callback).Run(cells);
+    cached_degree_.reset();
 
     switch (lookup_type_) {
       case lookup::Type::kHalo2: {
@@ -350,6 +353,7 @@ class ConstraintSystem {
     VirtualCells cells(this);
     shuffle::Pairs<std::unique_ptr<Expression<F>>> pairs =
         std::move(callback).Run(cells);
+    cached_degree_.reset();
 
     std::vector<std::unique_ptr<Expression<F>>> input_expressions;
     std::vector<std::unique_ptr<Expression<F>>> shuffle_expressions;
@@ -385,6 +389,7 @@ class ConstraintSystem {
     // Make a new query
     advice_queries_.emplace_back(at, column);
     ++num_advice_queries_[column.index()];
+    cached_blinding_factors_.reset();
     return advice_queries_.size() - 1;
   }
 
@@ -470,6 +475,7 @@ class ConstraintSystem {
     }
     CHECK(!polys.empty()) << "Gates must contain at least one constraint.";
 
+    cached_degree_.reset();
     gates_.emplace_back(name, std::move(constraint_names), std::move(polys),
                         std::move(queried_selectors), std::move(queried_cells));
   }
@@ -948,6 +954,7 @@ class ConstraintSystem {
 
   std::optional<size_t> minimum_degree_;
 
+  // These are reset whenever what they are computed from changes.
   mutable std::optional<size_t> cached_degree_;
   mutable std::optional<RowIndex> cached_blinding_factors_;
 };
-- 
2.43.0


From 18b0b68d28d53c03fc20615e8c7152b5dbb3a952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:18 +0000
Subject: [PATCH 75/85] fix: lookups into different tables were merged when
 their identifiers ran together alike

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index daa1ca0..0eb9bdd 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -800,7 +800,8 @@ class ConstraintSystem {
       std::vector<std::unique_ptr<Expression<F>>>&& table_expressions) {
     std::stringstream table_expressions_ss;
     for (const std::unique_ptr<Expression<F>>& expr : table_expressions) {
-      table_expressions_ss << GetIdentifier(expr.get());
+      // The separator keeps the boundaries between the identifiers.
+      table_expressions_ss << GetIdentifier(expr.get()) << ";";
     }
 
     std::string table_expressions_identifier = table_expressions_ss.str();
-- 
2.43.0


From d8aafe1d1cb07dc7b58c676bc0be7feb6f52e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:02 +0000
Subject: [PATCH 76/85] fix: reseeding ChaCha20RNG went on with the old block
 and counter

---
 tachyon/crypto/random/cha_cha20/cha_cha20_rng.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
index 044293c..9c18156 100644
--- a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
+++ b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
@@ -59,6 +59,11 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
     for (size_t i = 0; i < 8; ++i) {
       input_[i + 4] = absl::little_endian::Load32(&seed[4 * i]);
     }
+    // The stream of the seed starts at the first word of the first block.
+    for (size_t i = 12; i < 16; ++i) {
+      input_[i] = 0;
+    }
+    index_ = kMaxIndex;
     return true;
   }
 
@@ -92,12 +97,6 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
 
     // seed
     CHECK(SetSeed(absl::Span<const uint8_t>(seed, kSeedSize)));
-
-    // counter
-    input_[12] = 0;
-    input_[13] = 0;
-    input_[14] = 0;
-    input_[15] = 0;
   }
 
   ChaCha20RNG(size_t index, const uint8_t input[kInputSize],
-- 
2.43.0


From e42e870d5164c81c30cf8e2b9890492db0ed742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:02 +0000
Subject: [PATCH 77/85] fix: ChaCha20RNG accepted a state whose index is
 outside its block

---
 tachyon/crypto/random/cha_cha20/cha_cha20_rng.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
index 9c18156..bb1f8a9 100644
--- a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
+++ b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
@@ -74,6 +74,7 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
     uint8_t output[kOutputSize];
     base::EndianAutoReset auto_reset(buffer, base::Endian::kLittle);
     if (!buffer.ReadMany(&index, input, output)) return false;
+    if (index > kMaxIndex) return false;
     index_ = index;
     memcpy(input_, input, kInputSize);
     memcpy(output_, output, kOutputSize);
-- 
2.43.0


From c66aa3b4d0cf73c1030b95d5d0f96895417c1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:55 +0000
Subject: [PATCH 78/85] fix: packed powers of BabyBear4 and KoalaBear4 were
 wrong unless the base field's header was included too

---
 tachyon/math/finite_fields/baby_bear/BUILD.bazel    | 1 +
 tachyon/math/finite_fields/baby_bear/baby_bear4.h   | 1 +
 tachyon/math/finite_fields/koala_bear/BUILD.bazel   | 1 +
 tachyon/math/finite_fields/koala_bear/koala_bear4.h | 1 +
 4 files changed, 4 insertions(+)

diff --git a/tachyon/math/finite_fields/baby_bear/BUILD.bazel b/tachyon/math/finite_fields/baby_bear/BUILD.bazel
index ad392cd..78e19a0 100644
--- a/tachyon/math/finite_fields/baby_bear/BUILD.bazel
+++ b/tachyon/math/finite_fields/baby_bear/BUILD.bazel
@@ -19,6 +19,7 @@ tachyon_cc_library(
     name = "baby_bear4",
     hdrs = ["baby_bear4.h"],
     deps = [
+        ":baby_bear",
         "//tachyon/math/finite_fields/baby_bear/internal:baby_bear4",
         "//tachyon/math/finite_fields/baby_bear/internal:packed_baby_bear4",
     ],
diff --git a/tachyon/math/finite_fields/baby_bear/baby_bear4.h b/tachyon/math/finite_fields/baby_bear/baby_bear4.h
index f991284..abf744e 100644
--- a/tachyon/math/finite_fields/baby_bear/baby_bear4.h
+++ b/tachyon/math/finite_fields/baby_bear/baby_bear4.h
@@ -1,6 +1,7 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_BABY_BEAR_BABY_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_BABY_BEAR_BABY_BEAR4_H_
 
+#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
 #include "tachyon/math/finite_fields/baby_bear/internal/baby_bear4.h"
 #include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear4.h"
 
diff --git a/tachyon/math/finite_fields/koala_bear/BUILD.bazel b/tachyon/math/finite_fields/koala_bear/BUILD.bazel
index 877f17b..50571f3 100644
--- a/tachyon/math/finite_fields/koala_bear/BUILD.bazel
+++ b/tachyon/math/finite_fields/koala_bear/BUILD.bazel
@@ -19,6 +19,7 @@ tachyon_cc_library(
     name = "koala_bear4",
     hdrs = ["koala_bear4.h"],
     deps = [
+        ":koala_bear",
         "//tachyon/math/finite_fields/koala_bear/internal:koala_bear4",
         "//tachyon/math/finite_fields/koala_bear/internal:packed_koala_bear4",
     ],
diff --git a/tachyon/math/finite_fields/koala_bear/koala_bear4.h b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
index caa10f9..7871807 100644
--- a/tachyon/math/finite_fields/koala_bear/koala_bear4.h
+++ b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
@@ -1,6 +1,7 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 
+#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
 #include "tachyon/math/finite_fields/koala_bear/internal/koala_bear4.h"
 #include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
 
-- 
2.43.0


From ccd1442af82e2bb8cc995920273d9331bfd5674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:39 +0000
Subject: [PATCH 79/85] fix: sumcheck proving keys compared equal whatever
 their polynomials were

---
 tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
index 9e91e95..599a7ad 100644
--- a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
+++ b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
@@ -29,7 +29,7 @@ struct SumcheckProvingKey {
 
   bool operator==(const SumcheckProvingKey& other) const {
     return verifying_key == other.verifying_key && terms == other.terms &&
-           flattened_ml_evaluations == flattened_ml_evaluations;
+           flattened_ml_evaluations == other.flattened_ml_evaluations;
   }
   bool operator!=(const SumcheckProvingKey& other) const {
     return !operator==(other);
-- 
2.43.0


From f48cd8114b04a107df20301081a068501a249e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:58 +0000
Subject: [PATCH 80/85] fix: the sumcheck verifier read past the single
 evaluation of a constant message

---
 tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h b/tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h
index 3d1f2ff..60e1df6 100644
--- a/tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h
+++ b/tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h
@@ -93,7 +93,8 @@ class SumcheckVerifier {
       CHECK_EQ(evaluations.size(), max_evaluations_ + 1);
 
       const F& p0 = evaluations[0];
-      const F& p1 = evaluations[1];
+      // A constant message carries a single evaluation.
+      const F& p1 = max_evaluations_ == 0 ? p0 : evaluations[1];
 
       F sum = p0 + p1;
 
-- 
2.43.0


From 7a784dc3709905a157cff0080279c842d09820dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:39 +0000
Subject: [PATCH 81/85] fix: GWC and SHPlonk schemes read back or built from
 [tau]_2 rejected honest proofs

---
 tachyon/crypto/commitments/kzg/gwc.h     | 4 ++--
 tachyon/crypto/commitments/kzg/shplonk.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/kzg/gwc.h b/tachyon/crypto/commitments/kzg/gwc.h
index bb6ebb9..ec51448 100644
--- a/tachyon/crypto/commitments/kzg/gwc.h
+++ b/tachyon/crypto/commitments/kzg/gwc.h
@@ -55,8 +55,8 @@ class GWC final : public UnivariatePolynomialCommitmentScheme<
   GWC(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
diff --git a/tachyon/crypto/commitments/kzg/shplonk.h b/tachyon/crypto/commitments/kzg/shplonk.h
index 41950c9..9c4d82b 100644
--- a/tachyon/crypto/commitments/kzg/shplonk.h
+++ b/tachyon/crypto/commitments/kzg/shplonk.h
@@ -56,8 +56,8 @@ class SHPlonk final : public UnivariatePolynomialCommitmentScheme<
   SHPlonk(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
-- 
2.43.0


From 3da897257015a702a7a24e8838a363e7ae84d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:18 +0000
Subject: [PATCH 82/85] fix: SHPlonk accepted two contradictory values of a
 commitment at a point

---
 tachyon/crypto/commitments/kzg/shplonk.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tachyon/crypto/commitments/kzg/shplonk.h b/tachyon/crypto/commitments/kzg/shplonk.h
index 9c4d82b..7a54d99 100644
--- a/tachyon/crypto/commitments/kzg/shplonk.h
+++ b/tachyon/crypto/commitments/kzg/shplonk.h
@@ -231,6 +231,18 @@ class SHPlonk final : public UnivariatePolynomialCommitmentScheme<
       TranscriptReader<Commitment>* reader) const {
     using G1JacobianPoint = math::JacobianPoint<typename G1Point::Curve>;
 
+    // NOTE: only one of the claims about a commitment and a point takes part in
+    // the check below. No commitment can satisfy two that disagree.
+    for (size_t i = 1; i < poly_openings.size(); ++i) {
+      for (size_t j = 0; j < i; ++j) {
+        if (poly_openings[i].poly_oracle == poly_openings[j].poly_oracle &&
+            poly_openings[i].point == poly_openings[j].point &&
+            poly_openings[i].opening != poly_openings[j].opening) {
+          return false;
+        }
+      }
+    }
+
     Field y = reader->SqueezeChallenge();
     VLOG(2) << "SHPlonk(y): " << y.ToHexString(true);
     Field v = reader->SqueezeChallenge();
-- 
2.43.0


From ef405e39006dc86a7df815d673066d7939950640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:41 +0000
Subject: [PATCH 83/85] fix: R1CS matrices read an absent column index for the
 constant zero

---
 tachyon/zk/r1cs/constraint_system/constraint_system.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/r1cs/constraint_system/constraint_system.h b/tachyon/zk/r1cs/constraint_system/constraint_system.h
index 5950f87..7986f63 100644
--- a/tachyon/zk/r1cs/constraint_system/constraint_system.h
+++ b/tachyon/zk/r1cs/constraint_system/constraint_system.h
@@ -78,7 +78,8 @@ class ConstraintSystem {
   std::vector<Cell<F>> MakeRow(const LinearCombination<F>& lc) const {
     std::vector<Cell<F>> row;
     for (const Term<F>& term : lc.terms()) {
-      if (!term.coefficient.IsZero()) {
+      // The constant "zero" has no column.
+      if (!term.coefficient.IsZero() && !term.variable.IsZero()) {
         row.push_back({term.coefficient,
                        *term.variable.GetIndex(num_instance_variables_)});
       }
-- 
2.43.0


From 88adbf971357ffdbab906d7963fc0c3301da694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:23 +0000
Subject: [PATCH 84/85] fix: finalizing an R1CS constraint system again counted
 uses out of bounds

---
 tachyon/zk/r1cs/constraint_system/constraint_system.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/r1cs/constraint_system/constraint_system.h b/tachyon/zk/r1cs/constraint_system/constraint_system.h
index 7986f63..51df843 100644
--- a/tachyon/zk/r1cs/constraint_system/constraint_system.h
+++ b/tachyon/zk/r1cs/constraint_system/constraint_system.h
@@ -161,7 +161,8 @@ class ConstraintSystem {
   // constraint system
   std::vector<size_t> ComputeLCNumTimesUsed(bool count_sinks) const {
     std::vector<size_t> num_times_used;
-    num_times_used.resize(lc_map_.size());
+    // |lc_map_| may have lost the linear combinations that were inlined.
+    num_times_used.resize(num_linear_combinations_);
 
     for (const std::pair<const size_t, LinearCombination<F>>& entry : lc_map_) {
       num_times_used[entry.first] += size_t{count_sinks};
-- 
2.43.0


From e22c9c443d464baf30eb0bfccd16e426933d3889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:34 +0000
Subject: [PATCH 85/85] fix: a radix-2 domain got roots meant for batched
 transforms only

---
 .../univariate/radix2_twiddle_cache.h         | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
index d3ae1d9..3ea4116 100644
--- a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
+++ b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
@@ -57,10 +57,10 @@ class Radix2TwiddleCache {
     template <typename Domain>
     Item(const Domain* domain, bool packed_vec_only) {
       TRACE_EVENT("Utils", "Radix2TwiddleCache<F>::Item::Init");
-      if (domain->log_size_of_group() == 0) return;
-
       this->packed_vec_only = packed_vec_only;
 
+      if (domain->log_size_of_group() == 0) return;
+
       roots_vec.resize(domain->log_size_of_group());
       inv_roots_vec.resize(domain->log_size_of_group());
 
@@ -126,22 +126,22 @@ class Radix2TwiddleCache {
     static base::NoDestructor<Radix2TwiddleCache> twiddle_cache;
 
     absl::MutexLock lock(&twiddle_cache->mutex_);
-    auto it = twiddle_cache->items_.find(
-        std::make_pair(domain->size(), domain->group_gen()));
-    if (it == twiddle_cache->items_.end() ||
-        (it->second->packed_vec_only && !packed_vec_only)) {
-      it = twiddle_cache->items_.insert(
-          it,
-          std::make_pair(std::make_pair(domain->size(), domain->group_gen()),
-                         std::make_unique<Item>(domain, packed_vec_only)));
+    // An item with packed vectors only can't serve a request for all of them
+    // and might be in use, so the item for the latter is kept along with it.
+    std::vector<std::unique_ptr<Item>>& items =
+        twiddle_cache
+            ->items_[std::make_pair(domain->size(), domain->group_gen())];
+    for (const std::unique_ptr<Item>& item : items) {
+      if (packed_vec_only || !item->packed_vec_only) return item.get();
     }
-    return it->second.get();
+    items.push_back(std::make_unique<Item>(domain, packed_vec_only));
+    return items.back().get();
   }
 
  private:
   absl::Mutex mutex_;
-  absl::flat_hash_map<std::pair<size_t, F>, std::unique_ptr<Item>> items_
-      ABSL_GUARDED_BY(mutex_);
+  absl::flat_hash_map<std::pair<size_t, F>, std::vector<std::unique_ptr<Item>>>
+      items_ ABSL_GUARDED_BY(mutex_);
 };
 
 }  // namespace tachyon::math
-- 
2.43.0

