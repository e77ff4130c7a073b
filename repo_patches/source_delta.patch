From e46e316694b0bfd1e8a3838c87db4e0639d8e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 01/35] fix: rescaling by a scale exponent beyond the lookup
 tables silently used factor 1

---
 proc-macros/src/pow_lookup_macro.rs | 31 +++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/proc-macros/src/pow_lookup_macro.rs b/proc-macros/src/pow_lookup_macro.rs
index 3c99528..893f51f 100644
--- a/proc-macros/src/pow_lookup_macro.rs
+++ b/proc-macros/src/pow_lookup_macro.rs
@@ -86,7 +86,7 @@ impl PowLookupInput {
 
         // Add default case
         match_arms.push(quote! {
-            _ => (1, 1), // fallback for out-of-range values
+            _ => panic!("scale exponent difference is out of range for integer rescaling"),
         });
 
         let func_name = &self.name;
@@ -124,9 +124,7 @@ impl PowLookupInput {
         }
 
         // Add default case
-        match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
-        });
+        match_arms.push(float_power_fallback(&quote! { #base }));
 
         let func_name = &self.name;
 
@@ -140,6 +138,25 @@ impl PowLookupInput {
     }
 }
 
+/// Match arm computing powers that are not in a float lookup table
+fn float_power_fallback(base: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
+    quote! {
+        _ => {
+            let mut power = 1.0;
+            let mut i = 0;
+            while i < exp.unsigned_abs() {
+                power *= #base;
+                i += 1;
+            }
+            if exp < 0 {
+                1.0 / power
+            } else {
+                power
+            }
+        }
+    }
+}
+
 /// Convert a base expression to a power expression for rational numbers
 fn base_to_power(base: &Expr, exp: i32) -> proc_macro2::TokenStream {
     match exp {
@@ -240,7 +257,7 @@ impl PiPowLookupInput {
 
         // Add default case
         match_arms.push(quote! {
-            _ => (1, 1), // fallback for out-of-range values
+            _ => panic!("scale exponent difference is out of range for integer rescaling"),
         });
 
         let func_name = &self.name;
@@ -291,9 +308,7 @@ impl PiPowLookupInput {
         }
 
         // Add default case
-        match_arms.push(quote! {
-            _ => 1.0, // fallback for out-of-range values
-        });
+        match_arms.push(float_power_fallback(&quote! { core::f64::consts::PI }));
 
         let func_name = &self.name;
 
-- 
2.43.0


From 767b3b06ac63d0d7533a60c4a596b4c9e8161115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 02/35] fix: integer rescaling was wrong when the factor
 exceeds the storage type or the product overflows below zero

---
 src/scale_conversion.rs | 44 +++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/scale_conversion.rs b/src/scale_conversion.rs
index 9f9118c..2db22f1 100644
--- a/src/scale_conversion.rs
+++ b/src/scale_conversion.rs
@@ -185,9 +185,10 @@ macro_rules! _define_int_rescale {
         /// Rescale a quantity to a different unit of the same dimension.
         ///
         /// This function uses pure integer math - conversion factors are computed as rational numbers
-        /// (numerator/denominator) and reduced via GCD (π is approximated as 355/113). To avoid overflow,
-        /// the calculation order is chosen heuristically: if `value * num` would overflow, we compute
-        /// `(value / den) * num`; otherwise `(value * num) / den`.
+        /// (numerator/denominator) and reduced via GCD (π is approximated as 355/113). The calculation is
+        /// done in 128 bits, and to avoid overflow its order is chosen heuristically: if `value * num` would
+        /// overflow, we compute `(value / den) * num`; otherwise `(value * num) / den`. A result that does
+        /// not fit in the storage type panics (or fails to compile, in const contexts).
         ///
         /// Rescale works robustly with type inference, and it is not necessary to explicitly specify the
         /// const generic parameters (of which there are many).  Instead, specify the target type with
@@ -232,17 +233,40 @@ macro_rules! _define_int_rescale {
             let (num, den) = aggregate_scale_factor(
                 $($int_rescale_aggregate_args)*
             );
-            let num = num as $T;
-            let den = den as $T;
+            let (num, den) = (num.unsigned_abs(), den.unsigned_abs());
+
+            // Compute on the magnitude in 128 bits: the factors need not fit in the storage type
+            #[allow(unused_comparisons)]
+            let negative = quantity.unsafe_value < 0;
+            let magnitude = if negative {
+                (quantity.unsafe_value as i128).unsigned_abs()
+            } else {
+                quantity.unsafe_value as u128
+            };
 
             // Numerical stability: check for potential overflow on multiplication
             // If value * num would overflow, divide first; otherwise multiply first
-            let result = if quantity.unsafe_value > <$T>::max_value() / num {
-                // Potential overflow: divide first to reduce intermediate value
-                (quantity.unsafe_value / den) * num
+            let scaled = match magnitude.checked_mul(num) {
+                Some(product) => product / den,
+                // Overflow: divide first to reduce intermediate value
+                None => match (magnitude / den).checked_mul(num) {
+                    Some(scaled) => scaled,
+                    None => panic!("rescaled value overflows the storage type"),
+                },
+            };
+
+            let limit = if negative {
+                <$T>::MIN.abs_diff(0)
+            } else {
+                <$T>::MAX.abs_diff(0)
+            };
+            if scaled > limit as u128 {
+                panic!("rescaled value overflows the storage type");
+            }
+            let result = if negative {
+                (scaled as $T).wrapping_neg()
             } else {
-                // Safe to multiply first
-                (quantity.unsafe_value * num) / den
+                scaled as $T
             };
 
             Quantity::<
-- 
2.43.0


From d22ba8ab4daf7c02b71a0ef20b1c7b44b3632b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 03/35] fix: gradian, arcminute and arcsecond had wrong scales

---
 src/quantity.rs               | 2 +-
 whippyunits-core/src/units.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index cf1ef5e..32d928c 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -117,7 +117,7 @@ pub struct _A<const EXP: i16 = 0>;
 /// Angular units can involve "all of the above", plus a possible factor of π:
 ///  - revolution: `2π = _2<1>, _3<0>, _5<0>, _Pi<1>`
 ///  - degree: `π/180 = _2<-2>, _3<-2>, _5<-1>, _Pi<1>`
-///  - arcminute: `π/10800 = _2<-4>, _3<-2>, _5<-2>, _Pi<1>`
+///  - arcminute: `π/10800 = _2<-4>, _3<-3>, _5<-2>, _Pi<1>`
 #[allow(dead_code)]
 #[derive(PartialEq)]
 pub struct Scale<P2 = _2<0>, P3 = _3<0>, P5 = _5<0>, PI = _Pi<0>> {
diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 249a52b..d4de3ba 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -598,7 +598,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const GRADIAN: Self = Self {
         name: "gradian",
         symbols: &["grad"],
-        scale: ScaleExponents([-3, -1, -1, 1]),
+        scale: ScaleExponents([-3, 0, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -618,7 +618,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCMINUTE: Self = Self {
         name: "arcminute",
         symbols: &["arcmin"],
-        scale: ScaleExponents([-4, -2, -2, 1]),
+        scale: ScaleExponents([-4, -3, -2, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
@@ -628,7 +628,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 0, 0, 0, 1])> {
     pub const ARCSECOND: Self = Self {
         name: "arcsecond",
         symbols: &["arcsec"],
-        scale: ScaleExponents([-6, -2, -2, 1]),
+        scale: ScaleExponents([-6, -4, -3, 1]),
         conversion_factor: IDENTITY,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From d42e63f3636a6e23335b45970f2fbbcb60c84ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 04/35] fix: one foot-pound was stored as 13.56 joules

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index d4de3ba..84db765 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -717,7 +717,7 @@ impl Unit<crate::dimension_exponents!([1, 2, -2, 0, 0, 0, 0, 0])> {
     pub const FOOT_POUND: Self = Self {
         name: "foot_pound",
         symbols: &["ft_lb"],
-        scale: ScaleExponents::_10(1),
+        scale: ScaleExponents::IDENTITY,
         conversion_factor: 1.3558179483314004,
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 1678da01210c5989f249472eb99e13f8a03a10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 05/35] fix: zero degrees Fahrenheit is 459.67 degrees Rankine

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 84db765..62f8ebd 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -554,7 +554,7 @@ impl Unit<crate::dimension_exponents!([0, 0, 0, 0, 1, 0, 0, 0])> {
         symbols: &["degF"],
         scale: ScaleExponents([0, -2, 1, 0]),
         conversion_factor: IDENTITY,
-        affine_offset: 459.7,
+        affine_offset: 459.67,
         exponents: TypeDimensionExponents::new(),
         system: System::Imperial,
     };
-- 
2.43.0


From bfb3fa414b00e1a39ac10a1d005b7d2b79671c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 06/35] fix: dynamic viscosity had a positive time exponent

---
 whippyunits-core/src/dimensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index dba7cb2..f70d9fd 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -550,7 +550,7 @@ impl Dimension<crate::dimension_exponents!([1, -1, 0, 0, 0, 0, 0, 0])> {
     });
 }
 
-impl Dimension<crate::dimension_exponents!([1, -1, 1, 0, 0, 0, 0, 0])> {
+impl Dimension<crate::dimension_exponents!([1, -1, -1, 0, 0, 0, 0, 0])> {
     pub const DYNAMIC_VISCOSITY: Self = __dim!(Self {
         name: "Dynamic Viscosity",
         symbol: "ML⁻¹T⁻¹",
-- 
2.43.0


From 5a3215efaf13e32a625a095a2b5785a99a2bf101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 07/35] fix: an acre was a tenth of its size

---
 whippyunits-core/src/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/units.rs b/whippyunits-core/src/units.rs
index 62f8ebd..f438a48 100644
--- a/whippyunits-core/src/units.rs
+++ b/whippyunits-core/src/units.rs
@@ -999,7 +999,7 @@ impl Unit<crate::dimension_exponents!([0, 2, 0, 0, 0, 0, 0, 0])> {
     pub const ACRE: Self = Self {
         name: "acre",
         symbols: &["acre"],
-        scale: ScaleExponents::_10(3),
+        scale: ScaleExponents::_10(4),
         conversion_factor: 0.40468564224, // 1 acre = 4046.8564224 m²
         affine_offset: NONE,
         exponents: TypeDimensionExponents::new(),
-- 
2.43.0


From 5f8dad2b932bef410a9a231955ed67ce8cdc3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 08/35] fix: liters, hectares and stokes were declared at the
 scale of the coherent SI unit

---
 .../src/generate_default_declarators_macro.rs | 27 +++++--------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/proc-macros/src/generate_default_declarators_macro.rs b/proc-macros/src/generate_default_declarators_macro.rs
index f61f445..49d1cdc 100644
--- a/proc-macros/src/generate_default_declarators_macro.rs
+++ b/proc-macros/src/generate_default_declarators_macro.rs
@@ -352,13 +352,7 @@ impl DefaultDeclaratorsInput {
                 let base_fn_name = unit_suffix.to_string();
 
                 // Calculate scale factors for base unit
-                let (base_p2, base_p3, base_p5, base_pi) = if dimension.name == "Mass" {
-                    // Gram has inherent -3 scale factor
-                    (-3i16, 0i16, -3i16, 0i16)
-                } else {
-                    // Other units have 0 inherent scale factor
-                    (0i16, 0i16, 0i16, 0i16)
-                };
+                let (base_p2, base_p3, base_p5, base_pi) = Self::extract_scale_factors(unit);
 
                 let base_scale_name_ident = syn::parse_str::<Ident>(&base_scale_name).unwrap();
                 let base_fn_name_ident = syn::parse_str::<Ident>(&base_fn_name).unwrap();
@@ -375,19 +369,12 @@ impl DefaultDeclaratorsInput {
                     let fn_name = format!("{}{}", prefix.name(), unit_suffix);
 
                     // Calculate scale factors
-                    let (p2, p3, p5, pi) = if dimension.name == "Mass" {
-                        // Gram has inherent -3 scale factor, so we add the prefix scale factor
-                        let total_scale = -3 + prefix.factor_log10();
-                        (total_scale as i16, 0i16, total_scale as i16, 0i16)
-                    } else {
-                        // Other units have 0 inherent scale factor
-                        (
-                            prefix.factor_log10() as i16,
-                            0i16,
-                            prefix.factor_log10() as i16,
-                            0i16,
-                        )
-                    };
+                    let (p2, p3, p5, pi) = (
+                        base_p2 + prefix.factor_log10(),
+                        base_p3,
+                        base_p5 + prefix.factor_log10(),
+                        base_pi,
+                    );
 
                     let scale_name_ident = syn::parse_str::<Ident>(&scale_name).unwrap();
                     let fn_name_ident = syn::parse_str::<Ident>(&fn_name).unwrap();
-- 
2.43.0


From 9215158c3ddd85426b4cbc283a71a88ce84b71c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:39 +0000
Subject: [PATCH 09/35] fix: quantity! ignored the storage type and brand given
 with a converted unit

---
 proc-macros/src/quantity_macro.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 19b95a0..5cdc6a2 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -53,8 +53,10 @@ impl QuantityMacroInput {
         let doc_structs = generate_unit_documentation_for_expr(&self.unit_expr, true);
 
         // Check if this is a simple atomic unit that's nonstorage/affine
-        // For these, we can dispatch directly to the declarator
-        if let UnitExpr::Unit(unit) = &self.unit_expr {
+        // For these, we can dispatch directly to the declarator, unless a storage type or
+        // brand was requested (the declarators know neither)
+        let default_type = self.storage_type.is_none() && self.brand_type.is_none();
+        if let (true, UnitExpr::Unit(unit)) = (default_type, &self.unit_expr) {
             if let Some(unit_info) = get_unit_info(&unit.name.to_string()) {
                 // Check if it's nonstorage or affine
                 let is_nonstorage = unit_info.conversion_factor != 1.0;
-- 
2.43.0


From c2dc3428ed8a985c3842928c51558d90dcb377ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:18 +0000
Subject: [PATCH 10/35] fix: value! read fahrenheit as kelvin when named in
 full and was not the inverse of quantity! for compound affine units

---
 proc-macros/src/value_macro.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 8a7213a..885537c 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -138,6 +138,7 @@ impl ValueMacroInput {
             // Find the storage unit (same scale, no offset, conversion_factor == 1.0)
             let storage_unit_symbol = if let Some((unit, dimension)) =
                 Dimension::find_unit_by_symbol(&unit_name)
+                    .or_else(|| Dimension::find_unit_by_name(&unit_name))
             {
                 // Find a storage unit with the same scale
                 if let Some(storage_unit) = dimension.units.iter().find(|u| {
@@ -178,14 +179,14 @@ impl ValueMacroInput {
 
             if is_nonstorage {
                 // Target is nonstorage: rescale to target scale, then apply inverse conversion
-                // Going FROM storage TO nonstorage: divide by conversion_factor, subtract affine_offset
+                // Going FROM storage TO nonstorage: subtract affine_offset, divide by conversion_factor
                 quote! {
                     {
                         const _: () = {
                             #doc_structs
                         };
                         let scaled_value = (whippyunits::api::#rescale_fn(#quantity) as #target_unit_type).unsafe_value;
-                        ((scaled_value as f64 / #conversion_factor) - #affine_offset) as #storage_type_ty
+                        ((scaled_value as f64 - #affine_offset) / #conversion_factor) as #storage_type_ty
                     }
                 }
             } else {
-- 
2.43.0


From aa9c2ca63da0f7333b491e61dbf8f1e2ca863821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:15 +0000
Subject: [PATCH 11/35] fix: an unknown unit in unit!, quantity!, value! and
 the from_json! family counted as the number one

---
 .../src/compute_unit_dimensions_macro.rs      |  4 +++
 proc-macros/src/quantity_macro.rs             |  6 +++-
 proc-macros/src/unit_macro.rs                 |  6 +++-
 proc-macros/src/utils/shared_utils.rs         | 28 +++++++++++++++++++
 proc-macros/src/value_macro.rs                |  6 +++-
 5 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/proc-macros/src/compute_unit_dimensions_macro.rs b/proc-macros/src/compute_unit_dimensions_macro.rs
index f5edf6a..3f437a0 100644
--- a/proc-macros/src/compute_unit_dimensions_macro.rs
+++ b/proc-macros/src/compute_unit_dimensions_macro.rs
@@ -9,6 +9,10 @@ use syn::parse;
 pub fn compute_unit_dimensions(input: TokenStream) -> TokenStream {
     let unit_expr: whippyunits_core::UnitExpr = parse(input).expect("Expected unit expression");
 
+    if let Some(error) = crate::utils::shared_utils::unknown_unit_error(&unit_expr) {
+        return error.into();
+    }
+
     // Use tolerant mode to allow nonstorage units (for quantity!, value!, serialization)
     let result = unit_expr.evaluate_with_mode(whippyunits_core::EvaluationMode::Tolerant);
 
diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 5cdc6a2..83fb4da 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -5,7 +5,7 @@ use syn::token::Comma;
 use syn::{Expr, Type};
 use whippyunits_core::{calculate_unit_conversion_factors, get_unit_info, Dimension, UnitExpr};
 
-use crate::utils::shared_utils::generate_unit_documentation_for_expr;
+use crate::utils::shared_utils::{generate_unit_documentation_for_expr, unknown_unit_error};
 
 /// Input for the quantity macro
 pub struct QuantityMacroInput {
@@ -48,6 +48,10 @@ impl Parse for QuantityMacroInput {
 
 impl QuantityMacroInput {
     pub fn expand(self) -> TokenStream {
+        if let Some(error) = unknown_unit_error(&self.unit_expr) {
+            return error;
+        }
+
         // Generate documentation structs for unit identifiers
         // For quantity! macro, use storage type for affine/nonstorage units
         let doc_structs = generate_unit_documentation_for_expr(&self.unit_expr, true);
diff --git a/proc-macros/src/unit_macro.rs b/proc-macros/src/unit_macro.rs
index afaa138..75cb722 100644
--- a/proc-macros/src/unit_macro.rs
+++ b/proc-macros/src/unit_macro.rs
@@ -5,7 +5,7 @@ use syn::token::Comma;
 use syn::Type;
 use whippyunits_core::UnitExpr;
 
-use crate::utils::shared_utils::generate_unit_documentation_for_expr;
+use crate::utils::shared_utils::{generate_unit_documentation_for_expr, unknown_unit_error};
 
 /// Input for the unit macro
 pub struct UnitMacroInput {
@@ -44,6 +44,10 @@ impl Parse for UnitMacroInput {
 
 impl UnitMacroInput {
     pub fn expand(self) -> TokenStream {
+        if let Some(error) = unknown_unit_error(&self.unit_expr) {
+            return error;
+        }
+
         // Validate that no nonstorage units are used (strict mode requirement)
         if let Some(error_msg) = self.unit_expr.validate_strict() {
             return quote! {
diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 6db0ed6..7ddb666 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -255,6 +255,34 @@ pub fn collect_identifiers_from_expr(expr: &UnitExpr, identifiers: &mut Vec<Iden
     }
 }
 
+/// A compile error for the first identifier of a unit expression that names no unit.
+/// Such an identifier would otherwise count as the number one.
+pub fn unknown_unit_error(expr: &UnitExpr) -> Option<TokenStream> {
+    let mut identifiers = Vec::new();
+    collect_identifiers_from_expr(expr, &mut identifiers);
+
+    let unknown = identifiers.into_iter().find(|ident| {
+        let name = ident.to_string();
+        name != "power_of_10"
+            && name != "dimensionless"
+            && whippyunits_core::get_unit_info(&name).is_none()
+    })?;
+
+    let name = unknown.to_string();
+    let suggestions = super::unit_suggestions::find_similar_units(&name, 0.7);
+    let message = if suggestions.is_empty() {
+        format!("Unknown unit '{}'. No similar units found.", name)
+    } else {
+        let suggestion_list = suggestions
+            .iter()
+            .map(|(suggestion, _)| format!("'{}'", suggestion))
+            .collect::<Vec<_>>()
+            .join(", ");
+        format!("Unknown unit '{}'. Did you mean: {}?", name, suggestion_list)
+    };
+    Some(syn::Error::new(unknown.span(), message).to_compile_error())
+}
+
 /// Generate documentation comment for a unit
 pub fn generate_unit_doc_comment(unit_name: &str) -> TokenStream {
     let doc_text = get_unit_documentation_text(unit_name);
diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 885537c..2d84197 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -7,7 +7,7 @@ use whippyunits_core::{
     calculate_unit_conversion_factors, get_unit_info, Dimension, EvaluationMode, UnitExpr,
 };
 
-use crate::utils::shared_utils::generate_unit_documentation_for_expr;
+use crate::utils::shared_utils::{generate_unit_documentation_for_expr, unknown_unit_error};
 
 /// Input for the value! macro
 /// Syntax: value!(quantity, unit_expr) or value!(quantity, unit_expr, type) or value!(quantity, unit_expr, type, brand)
@@ -49,6 +49,10 @@ impl Parse for ValueMacroInput {
 
 impl ValueMacroInput {
     pub fn expand(self) -> TokenStream {
+        if let Some(error) = unknown_unit_error(&self.unit_expr) {
+            return error;
+        }
+
         // Generate documentation structs for unit identifiers
         // For value! macro, use storage type for affine/nonstorage units (like quantity!)
         let doc_structs = generate_unit_documentation_for_expr(&self.unit_expr, true);
-- 
2.43.0


From 758bd20fee957f51e9a798ac80fc73ba633d99ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:15 +0000
Subject: [PATCH 12/35] fix: an implicit exponent after a non-ASCII unit symbol
 was not read

---
 whippyunits-core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index b09ad63..23a7464 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -177,7 +177,7 @@ impl UnitExpr {
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
-- 
2.43.0


From cd16e53a885f7292474e641e4e53f2a6ecab34e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:15 +0000
Subject: [PATCH 13/35] fix: numbers other than 1 and 10 in a unit expression
 were dropped

---
 whippyunits-core/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 23a7464..4b0ae7d 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -130,6 +130,12 @@ impl UnitExpr {
             // Handle numeric literals like "1" in "1 / m" or "10" in "10^4 m"
             let lit: syn::LitInt = input.parse()?;
             let base_value: i32 = lit.base10_parse()?;
+            if base_value != 1 && base_value != 10 {
+                return Err(syn::Error::new(
+                    lit.span(),
+                    "the only numbers allowed in a unit expression are 1 and powers of 10",
+                ));
+            }
 
             // Check if this is followed by a caret (^) for power notation
             if input.peek(Caret) {
-- 
2.43.0


From e5d4bf949079a149cd0a4be12594bfedb24dfd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:04 +0000
Subject: [PATCH 14/35] fix: units whose symbol is a keyword (in, as) could not
 be written in a unit expression

---
 proc-macros/src/utils/shared_utils.rs | 4 ++++
 whippyunits-core/src/parser.rs        | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 7ddb666..90fdae7 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -446,6 +446,10 @@ pub fn generate_unit_documentation_for_expr(
             };
 
             let doc_comment = generate_unit_doc_comment(&unit_name);
+            let ident = match syn::parse_str::<Ident>(&unit_name) {
+                Ok(_) => ident,
+                Err(_) => Ident::new_raw(&unit_name, ident.span()),
+            };
 
             quote! {
                 const _: () = {
diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 4b0ae7d..5148d55 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -1,6 +1,7 @@
 #[cfg(not(test))]
 extern crate alloc;
 
+use syn::ext::IdentExt;
 use syn::parse::{Parse, ParseStream, Result};
 use syn::token::{Caret, Dot, Slash, Star};
 use syn::{Ident, LitInt};
@@ -179,7 +180,8 @@ impl UnitExpr {
                 }
             }
         } else {
-            let ident: Ident = input.parse()?;
+            // Some unit symbols are keywords (`in`, `as`)
+            let ident = Ident::parse_any(input)?;
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-- 
2.43.0


From 42a3913ae312bec41e6cae8a7636933e59d5dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:19 +0000
Subject: [PATCH 15/35] fix: quantity! ignored the implicit exponent of a
 converted unit (ft2 meant ft)

---
 proc-macros/src/quantity_macro.rs | 5 +++--
 proc-macros/src/value_macro.rs    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/proc-macros/src/quantity_macro.rs b/proc-macros/src/quantity_macro.rs
index 83fb4da..4e27df1 100644
--- a/proc-macros/src/quantity_macro.rs
+++ b/proc-macros/src/quantity_macro.rs
@@ -58,10 +58,11 @@ impl QuantityMacroInput {
 
         // Check if this is a simple atomic unit that's nonstorage/affine
         // For these, we can dispatch directly to the declarator, unless a storage type or
-        // brand was requested (the declarators know neither)
+        // brand was requested (the declarators know neither), or the unit carries an implicit
+        // exponent ("ft2")
         let default_type = self.storage_type.is_none() && self.brand_type.is_none();
         if let (true, UnitExpr::Unit(unit)) = (default_type, &self.unit_expr) {
-            if let Some(unit_info) = get_unit_info(&unit.name.to_string()) {
+            if let (1, Some(unit_info)) = (unit.exponent, get_unit_info(&unit.name.to_string())) {
                 // Check if it's nonstorage or affine
                 let is_nonstorage = unit_info.conversion_factor != 1.0;
                 let is_affine = unit_info.affine_offset != 0.0;
diff --git a/proc-macros/src/value_macro.rs b/proc-macros/src/value_macro.rs
index 2d84197..43f47f2 100644
--- a/proc-macros/src/value_macro.rs
+++ b/proc-macros/src/value_macro.rs
@@ -61,7 +61,7 @@ impl ValueMacroInput {
 
         // Check if this is a simple atomic unit that's affine
         let is_affine = if let UnitExpr::Unit(unit) = &self.unit_expr {
-            if let Some(unit_info) = get_unit_info(&unit.name.to_string()) {
+            if let (1, Some(unit_info)) = (unit.exponent, get_unit_info(&unit.name.to_string())) {
                 unit_info.affine_offset != 0.0
             } else {
                 false
-- 
2.43.0


From c3fa39b32799780fca5958b62529e3911b54591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:39 +0000
Subject: [PATCH 16/35] fix: local_unit! counted an unknown unit in a compound
 expression as the number one

---
 proc-macros/src/local_unit_type_macro.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 29ec65e..941bd6b 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -205,6 +205,10 @@ impl Parse for LocalQuantityMacroInput {
 
 impl LocalQuantityMacroInput {
     pub fn expand(self) -> TokenStream {
+        if let Some(error) = crate::utils::shared_utils::unknown_unit_error(&self.unit_expr) {
+            return error;
+        }
+
         // Generate the lift trace docstring
         let input_expr_decomposed = self.generate_input_unit_expression_decomposed_string();
         let output_expr = self.generate_output_unit_expression_string();
-- 
2.43.0


From b65a53c9a1a2801d846738471ad77919417aa945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:31 +0000
Subject: [PATCH 17/35] fix: a power-of-ten exponent beyond 16 bits wrapped
 around

---
 whippyunits-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 5148d55..46830d6 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -142,7 +142,7 @@ impl UnitExpr {
             if input.peek(Caret) {
                 let _caret: Caret = input.parse()?;
                 let exponent_lit: LitInt = input.parse()?;
-                let exponent: i32 = exponent_lit.base10_parse()?;
+                let exponent: i16 = exponent_lit.base10_parse()?;
 
                 // Handle power-of-10 expressions like "10^4"
                 if base_value == 10 {
@@ -151,7 +151,7 @@ impl UnitExpr {
                     // For now, we'll create a unit with the appropriate scale factor
                     Ok(UnitExpr::Unit(UnitExprUnit {
                         name: syn::Ident::new("power_of_10", proc_macro2::Span::call_site()),
-                        exponent: exponent as i16,
+                        exponent,
                     }))
                 } else {
                     // For other bases, treat as regular power expression
-- 
2.43.0


From 6efe8f5c4a905af646eb5efe7993711459870e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:41 +0000
Subject: [PATCH 18/35] fix: local_unit! lost the implicit exponent of a single
 unit and ignored unprefixed base scales in compound units

---
 proc-macros/src/local_unit_type_macro.rs | 53 ++++++++++++------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 941bd6b..7896969 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -7,7 +7,7 @@ use syn::{
 };
 use whippyunits_core::dimension_exponents::DynDimensionExponents;
 use whippyunits_core::scale_exponents::ScaleExponents;
-use whippyunits_core::{Dimension, Unit};
+use whippyunits_core::{CapitalizedFmt, Dimension, Unit};
 
 // Import the helper functions from lift_trace
 use crate::utils::lift_trace::{is_prefixed_base_unit, is_prefixed_compound_unit};
@@ -17,17 +17,13 @@ use crate::utils::lift_trace::{is_prefixed_base_unit, is_prefixed_compound_unit}
 fn scale_type_to_actual_unit_symbol(scale_type: &str) -> Option<String> {
     use whippyunits_core::SiPrefix;
 
-    // Try to find a unit that matches the scale type name directly
-    for unit in Unit::BASES.iter() {
-        if unit.name == scale_type {
-            return Some(unit.symbols[0].to_string());
-        }
-    }
-
-    // Try to find in all dimensions
+    // Try to find a unit whose declarator type has this name ("Hour" is the unit "hour").
+    // Units that are not an exact power-scale of their base unit have no exact type of their own.
     for dimension in Dimension::ALL {
         for unit in dimension.units {
-            if unit.name == scale_type {
+            if unit.conversion_factor == 1.0
+                && CapitalizedFmt(unit.name).to_string() == scale_type
+            {
                 return Some(unit.symbols[0].to_string());
             }
         }
@@ -230,18 +226,23 @@ impl LocalQuantityMacroInput {
         let lift_trace_doc_shadows =
             self.generate_lift_trace_doc_shadows_for_expr(&lift_trace, &storage_type);
 
-        // Check if this is a single unit (not an algebraic expression)
-        if let UnitExpr::Unit(unit) = &self.unit_expr {
-            let unit_name = unit.name.to_string();
-            self.handle_single_unit(
-                &unit_name,
+        match &self.unit_expr {
+            // A single unit (not an algebraic expression)
+            UnitExpr::Unit(unit) if unit.exponent == 1 => {
+                let unit_name = unit.name.to_string();
+                self.handle_single_unit(
+                    &unit_name,
+                    &storage_type,
+                    &brand_type,
+                    &lift_trace_doc_shadows,
+                )
+            }
+            // It's an algebraic expression (like J/s, m*s, m2, etc.)
+            _ => self.handle_algebraic_expression(
                 &storage_type,
                 &brand_type,
                 &lift_trace_doc_shadows,
-            )
-        } else {
-            // It's an algebraic expression (like J/s, m*s, etc.)
-            self.handle_algebraic_expression(&storage_type, &brand_type, &lift_trace_doc_shadows)
+            ),
         }
     }
 
@@ -563,13 +564,13 @@ impl LocalQuantityMacroInput {
 
     /// Generate the output unit expression string for the lift trace
     pub fn generate_output_unit_expression_string(&self) -> String {
-        // Check if this is a single unit (not an algebraic expression)
-        if let UnitExpr::Unit(unit) = &self.unit_expr {
-            let unit_name = unit.name.to_string();
-            self.generate_single_unit_expression_string(&unit_name)
-        } else {
-            // It's an algebraic expression (like J/s, m*s, etc.)
-            self.generate_algebraic_expression_string()
+        match &self.unit_expr {
+            // A single unit (not an algebraic expression)
+            UnitExpr::Unit(unit) if unit.exponent == 1 => {
+                self.generate_single_unit_expression_string(&unit.name.to_string())
+            }
+            // It's an algebraic expression (like J/s, m*s, m2, etc.)
+            _ => self.generate_algebraic_expression_string(),
         }
     }
 
-- 
2.43.0


From 9e775c3fe257adbf8b785a38911e19ae0e3aef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:25 +0000
Subject: [PATCH 19/35] fix: local_unit! and local quantity! refused units
 written by name and the dimensionless unit

---
 proc-macros/src/local_unit_type_macro.rs | 150 +----------------------
 1 file changed, 3 insertions(+), 147 deletions(-)

diff --git a/proc-macros/src/local_unit_type_macro.rs b/proc-macros/src/local_unit_type_macro.rs
index 7896969..78786ee 100644
--- a/proc-macros/src/local_unit_type_macro.rs
+++ b/proc-macros/src/local_unit_type_macro.rs
@@ -226,24 +226,7 @@ impl LocalQuantityMacroInput {
         let lift_trace_doc_shadows =
             self.generate_lift_trace_doc_shadows_for_expr(&lift_trace, &storage_type);
 
-        match &self.unit_expr {
-            // A single unit (not an algebraic expression)
-            UnitExpr::Unit(unit) if unit.exponent == 1 => {
-                let unit_name = unit.name.to_string();
-                self.handle_single_unit(
-                    &unit_name,
-                    &storage_type,
-                    &brand_type,
-                    &lift_trace_doc_shadows,
-                )
-            }
-            // It's an algebraic expression (like J/s, m*s, m2, etc.)
-            _ => self.handle_algebraic_expression(
-                &storage_type,
-                &brand_type,
-                &lift_trace_doc_shadows,
-            ),
-        }
+        self.handle_unit_expression(&storage_type, &brand_type, &lift_trace_doc_shadows)
     }
 
     /// Generate lift trace doc shadows for each unit identifier in the expression
@@ -718,100 +701,8 @@ impl LocalQuantityMacroInput {
         result
     }
 
-    /// Handle prefixed compound unit logic for a single unit
-    fn handle_prefixed_compound_unit(
-        &self,
-        unit_name: &str,
-        storage_type: &Type,
-        brand_type: &Type,
-        lift_trace_doc_shadows: &TokenStream,
-    ) -> Option<TokenStream> {
-        if let Some((base_symbol, _prefix)) = is_prefixed_compound_unit(unit_name) {
-            if let Some((_unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                let dimensions = dimension.exponents;
-                let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-                let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr)
-                    .unwrap_or_else(|_| syn::parse_str::<syn::Expr>(&base_symbol).unwrap());
-                return Some(self.generate_compound_unit_quote(
-                    &unit_expr_parsed,
-                    storage_type,
-                    brand_type,
-                    lift_trace_doc_shadows,
-                ));
-            }
-        }
-        None
-    }
-
-    /// Handle single unit logic (both prefixed and non-prefixed)
-    fn handle_single_unit(
-        &self,
-        unit_name: &str,
-        storage_type: &Type,
-        brand_type: &Type,
-        lift_trace_doc_shadows: &TokenStream,
-    ) -> TokenStream {
-        // First try to handle as prefixed compound unit
-        if let Some(quote_result) = self.handle_prefixed_compound_unit(
-            unit_name,
-            storage_type,
-            brand_type,
-            lift_trace_doc_shadows,
-        ) {
-            return quote_result;
-        }
-
-        // Handle as regular unit - first try direct lookup, then try prefixed units
-        let (_unit, dimension) =
-            if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(unit_name) {
-                (unit, dimension)
-            } else if let Some((base_symbol, _prefix)) = is_prefixed_base_unit(unit_name) {
-                // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                    (unit, dimension)
-                } else {
-                    // Unknown unit, generate error with suggestions
-                    return self.generate_unknown_unit_error(unit_name);
-                }
-            } else if let Some((base_symbol, _prefix)) = is_prefixed_compound_unit(unit_name) {
-                // If not found directly, try to find the base unit
-                if let Some((unit, dimension)) = Dimension::find_unit_by_symbol(&base_symbol) {
-                    (unit, dimension)
-                } else {
-                    // Unknown unit, generate error with suggestions
-                    return self.generate_unknown_unit_error(unit_name);
-                }
-            } else {
-                // Unknown unit, generate error with suggestions
-                return self.generate_unknown_unit_error(unit_name);
-            };
-
-        let dimensions = dimension.exponents;
-
-        // Check if it's a simple base unit
-        if let Some(scale_ident) = self.get_scale_for_dimensions(dimensions) {
-            self.generate_simple_base_unit_quote(
-                &scale_ident,
-                storage_type,
-                brand_type,
-                lift_trace_doc_shadows,
-            )
-        } else {
-            // It's a compound unit - generate the unit expression
-            let unit_expr = self.generate_unit_expression_from_dimensions(dimensions);
-            let unit_expr_parsed = syn::parse_str::<syn::Expr>(&unit_expr)
-                .unwrap_or_else(|_| syn::parse_str::<syn::Expr>(unit_name).unwrap());
-            self.generate_compound_unit_quote(
-                &unit_expr_parsed,
-                storage_type,
-                brand_type,
-                lift_trace_doc_shadows,
-            )
-        }
-    }
-
-    /// Handle algebraic expression logic
-    fn handle_algebraic_expression(
+    /// Handle a unit expression (J, kPa, J/s, m*s, etc.)
+    fn handle_unit_expression(
         &self,
         storage_type: &Type,
         brand_type: &Type,
@@ -843,41 +734,6 @@ impl LocalQuantityMacroInput {
         }
     }
 
-    /// Generate error for unknown unit with suggestions
-    fn generate_unknown_unit_error(&self, unit_name: &str) -> TokenStream {
-        use crate::utils::unit_suggestions::find_similar_units;
-
-        let suggestions = find_similar_units(unit_name, 0.7);
-        let error_message = if suggestions.is_empty() {
-            format!("Unknown unit '{}'. No similar units found.", unit_name)
-        } else {
-            let suggestion_list = suggestions
-                .iter()
-                .map(|(suggestion, _)| format!("'{}'", suggestion))
-                .collect::<Vec<_>>()
-                .join(", ");
-
-            format!(
-                "Unknown unit '{}'. Did you mean: {}?",
-                unit_name, suggestion_list
-            )
-        };
-
-        // Generate a doc shadow that shows the error
-        let doc_ident_name = format!("Local{}", unit_name.to_uppercase());
-        let doc_ident = syn::Ident::new(&doc_ident_name, proc_macro2::Span::call_site());
-
-        quote! {
-            const _: () = {
-                #[doc = #error_message]
-                #[allow(dead_code, non_camel_case_types)]
-                type #doc_ident = ();
-
-                compile_error!(#error_message);
-            };
-        }
-    }
-
     /// Get the local target type for a single unit identifier (reuses existing lift logic)
     fn get_local_target_type_for_unit(&self, unit_name: &str, storage_type: &Type) -> TokenStream {
         // Check if this is a time unit that needs conversion (like h → s)
-- 
2.43.0


From af2ce5b87cb0a3a5d330125e4e7ac7caed58d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 20/35] fix: local_unit! and local quantity! did not compile
 for units that need a conversion

---
 proc-macros/src/utils/shared_utils.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/proc-macros/src/utils/shared_utils.rs b/proc-macros/src/utils/shared_utils.rs
index 90fdae7..1bfc988 100644
--- a/proc-macros/src/utils/shared_utils.rs
+++ b/proc-macros/src/utils/shared_utils.rs
@@ -25,6 +25,14 @@ pub fn generate_scale_name(prefix_name: &str, unit_name: &str) -> String {
     whippyunits_core::CapitalizedFmt(&combined_name).to_string()
 }
 
+/// Whether `default_declarators` has a type for the unit (alone, or with an SI prefix).
+/// Units that need a conversion have none: their quantities are stored in another unit.
+fn has_declarator_type(unit: &whippyunits_core::Unit, prefixed: bool) -> bool {
+    unit.conversion_factor == 1.0
+        && (!prefixed
+            || (unit.system == whippyunits_core::System::Metric && unit.affine_offset == 0.0))
+}
+
 /// Shared helper function to get the corresponding default declarator type for a unit
 /// This is used by both the unit! macro and local_unit! macro to avoid code duplication
 pub fn get_declarator_type_for_unit(unit_name: &str) -> Option<TokenStream> {
@@ -39,7 +47,7 @@ pub fn get_declarator_type_for_unit(unit_name: &str) -> Option<TokenStream> {
         if let Some(unit) = dimension
             .units
             .iter()
-            .find(|u| u.symbols.contains(&unit_name))
+            .find(|u| u.symbols.contains(&unit_name) && has_declarator_type(u, false))
         {
             let type_name = whippyunits_core::CapitalizedFmt(unit.name).to_string();
             let type_ident = syn::Ident::new(&type_name, proc_macro2::Span::call_site());
@@ -53,7 +61,9 @@ pub fn get_declarator_type_for_unit(unit_name: &str) -> Option<TokenStream> {
     let (prefix_opt, base) = parse_unit_with_prefix_core(unit_name);
     if let Some(prefix) = prefix_opt {
         // Find the base unit
-        if let Some((base_unit, _)) = whippyunits_core::Dimension::find_unit_by_symbol(&base) {
+        if let Some((base_unit, _)) = whippyunits_core::Dimension::find_unit_by_symbol(&base)
+            .filter(|(base_unit, _)| has_declarator_type(base_unit, true))
+        {
             // Generate the prefixed type name by combining prefix name with base unit name
             // Use the same logic as generate_scale_name to ensure consistency
             let type_name = generate_scale_name(prefix.name(), base_unit.name);
@@ -65,7 +75,9 @@ pub fn get_declarator_type_for_unit(unit_name: &str) -> Option<TokenStream> {
     }
 
     // Check if it's a unit literal (like min, h, hr, d, etc.)
-    if let Some((_dimension, unit)) = lookup_unit_literal_direct(unit_name) {
+    if let Some((_dimension, unit)) =
+        lookup_unit_literal_direct(unit_name).filter(|(_, unit)| has_declarator_type(unit, false))
+    {
         let type_name = whippyunits_core::CapitalizedFmt(unit.name).to_string();
         let type_ident = syn::Ident::new(&type_name, proc_macro2::Span::call_site());
         return Some(quote::quote! {
@@ -98,7 +110,7 @@ pub fn get_declarator_type_for_exponents(
     // Look for a unit in this dimension that matches the scale exponents
     // We need to find a unit that has the same scale exponents
     for unit in matching_dimension.units {
-        if unit.scale == scale_exponents {
+        if unit.scale == scale_exponents && has_declarator_type(unit, false) {
             // Found a matching unit - generate type name using same logic as default declarators
             let type_name = if unit.system == System::Metric {
                 // For metric units, use the same logic as generate_default_declarators_macro
-- 
2.43.0


From c7f3c6eeb4f16080dcbaaa001430fef0a296131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 21/35] fix: an unknown unit in a deserialized or fmt() unit
 string counted as the number one

---
 src/serialization.rs           |  7 +++++++
 whippyunits-core/src/parser.rs | 22 ++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/serialization.rs b/src/serialization.rs
index eefb8a0..f58d9f6 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -624,6 +624,13 @@ pub fn parse_ucum_unit(ucum_string: &str) -> Result<UnitDimensions, UcumError> {
         UcumError::UnknownDimension(DynDimensionExponents([0, 0, 0, 0, 0, 0, 0, 0]))
     })?;
 
+    // An unknown unit would evaluate to the number one
+    if unit_expr.find_unknown_unit().is_some() {
+        return Err(UcumError::UnknownDimension(DynDimensionExponents([
+            0, 0, 0, 0, 0, 0, 0, 0,
+        ])));
+    }
+
     // Evaluate the unit expression to get dimensions and scales (use tolerant mode for serialization)
     let result: UnitEvaluationResult =
         unit_expr.evaluate_with_mode(whippyunits_core::EvaluationMode::Tolerant);
diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 46830d6..2337b23 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -110,6 +110,28 @@ impl UnitExpr {
         }
     }
 
+    /// The first identifier in this expression that names no unit, if any.
+    /// Evaluation counts such an identifier as the number one.
+    pub fn find_unknown_unit(&self) -> Option<Ident> {
+        match self {
+            UnitExpr::Unit(unit) => {
+                let name = unit.name.to_string();
+                if name == "power_of_10"
+                    || name == "dimensionless"
+                    || get_unit_info(&name).is_some()
+                {
+                    None
+                } else {
+                    Some(unit.name.clone())
+                }
+            }
+            UnitExpr::Mul(a, b) | UnitExpr::Div(a, b) => {
+                a.find_unknown_unit().or_else(|| b.find_unknown_unit())
+            }
+            UnitExpr::Pow(base, _) => base.find_unknown_unit(),
+        }
+    }
+
     fn parse_power(input: ParseStream) -> Result<Self> {
         let base = Self::parse_atom(input)?;
 
-- 
2.43.0


From 7b2cb0b8306a051f42363fb792729e5ae4e58ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 22/35] fix: an exponent beyond 16 bits or a raw identifier in
 a runtime unit string panicked

---
 whippyunits-core/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whippyunits-core/src/parser.rs b/whippyunits-core/src/parser.rs
index 2337b23..ae444fb 100644
--- a/whippyunits-core/src/parser.rs
+++ b/whippyunits-core/src/parser.rs
@@ -138,6 +138,7 @@ impl UnitExpr {
         if input.peek(Caret) {
             let _caret: Caret = input.parse()?;
             let exponent: LitInt = input.parse()?;
+            exponent.base10_parse::<i16>()?;
             Ok(UnitExpr::Pow(Box::new(base), exponent))
         } else {
             Ok(base)
@@ -203,7 +204,7 @@ impl UnitExpr {
             }
         } else {
             // Some unit symbols are keywords (`in`, `as`)
-            let ident = Ident::parse_any(input)?;
+            let ident = Ident::parse_any(input)?.unraw();
 
             // Check for implicit exponent notation (UCUM format like "s2" instead of "s^2")
             let ident_str = ident.to_string();
-- 
2.43.0


From fa86dd738536eca7a6e97cff19cfb784a9e4adf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 23/35] fix: fmt() in degrees Fahrenheit subtracted the offset
 after the division

---
 src/quantity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quantity.rs b/src/quantity.rs
index 32d928c..5fb8e1e 100644
--- a/src/quantity.rs
+++ b/src/quantity.rs
@@ -544,10 +544,10 @@ impl<
         let value_with_scale: f64 = self.unsafe_value.into() * scale_conversion_factor;
 
         // 2. Apply inverse of nonstorage conversion (if target is nonstorage)
-        //    Going FROM storage TO nonstorage: divide by conversion_factor, subtract affine_offset
+        //    Going FROM storage TO nonstorage: subtract affine_offset, divide by conversion_factor
         let converted_value = if target_unit_cf != 1.0 || target_unit_af != 0.0 {
             // Target is nonstorage: apply inverse conversion
-            (value_with_scale / target_unit_cf) - target_unit_af
+            (value_with_scale - target_unit_af) / target_unit_cf
         } else {
             // Target is storage unit: no additional conversion needed
             value_with_scale
-- 
2.43.0


From 7fea48b86abb0947c8de3ac4b63f69b8856132c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 24/35] fix: serialized quantities lost their scale and named
 units that could not be read back

---
 src/serialization.rs | 47 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index f58d9f6..cb65040 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -38,8 +38,6 @@
 //! for sufficiently resource-constrained environments.
 
 use crate::api::aggregate_scale_factor_float;
-use crate::print::name_lookup::generate_systematic_unit_name_with_format;
-use crate::print::prettyprint::UnitFormat;
 use crate::quantity::Quantity;
 use crate::quantity::{_2, _3, _5, _A, _I, _J, _L, _M, _N, _Pi, _T, _Θ, Dimension, Scale};
 use whippyunits_core::{
@@ -53,13 +51,14 @@ pub type UnitDimensions = (
     whippyunits_core::scale_exponents::ScaleExponents,
 );
 
-use crate::alloc::{String, ToString, Vec, format, vec};
+use crate::alloc::{String, ToString, Vec, format};
 use proc_macro2::TokenStream;
 use syn::parse_str;
 
 use serde::{Deserialize, Deserializer, Serialize, Serializer, de::Visitor};
 
-/// Convert a whippyunits quantity to UCUM unit string
+/// The coherent SI unit of a quantity's dimension, whatever its scale, as a UCUM unit string
+/// (e.g. `kg.m/s2`)
 pub fn to_ucum_unit<
     const MASS_EXPONENT: i16,
     const LENGTH_EXPONENT: i16,
@@ -93,7 +92,8 @@ pub fn to_ucum_unit<
 where
     T: Into<f64> + Copy,
 {
-    let exponents = vec![
+    const SYMBOLS: [&str; 8] = ["kg", "m", "s", "A", "K", "mol", "cd", "rad"];
+    let exponents = [
         MASS_EXPONENT,
         LENGTH_EXPONENT,
         TIME_EXPONENT,
@@ -103,7 +103,34 @@ where
         LUMINOSITY_EXPONENT,
         ANGLE_EXPONENT,
     ];
-    generate_systematic_unit_name_with_format(exponents, false, UnitFormat::Ucum)
+
+    let mut unit = String::new();
+    for i in 0..SYMBOLS.len() {
+        let (symbol, exponent) = (SYMBOLS[i], exponents[i]);
+        if exponent > 0 {
+            if !unit.is_empty() {
+                unit.push('.');
+            }
+            unit.push_str(symbol);
+            if exponent > 1 {
+                unit.push_str(&exponent.to_string());
+            }
+        }
+    }
+    if unit.is_empty() {
+        unit.push('1');
+    }
+    for i in 0..SYMBOLS.len() {
+        let (symbol, exponent) = (SYMBOLS[i], exponents[i]);
+        if exponent < 0 {
+            unit.push('/');
+            unit.push_str(symbol);
+            if exponent < -1 {
+                unit.push_str(&exponent.unsigned_abs().to_string());
+            }
+        }
+    }
+    unit
 }
 
 /// Errors that can occur during UCUM serialization/deserialization
@@ -249,7 +276,9 @@ where
     {
         use serde::ser::SerializeMap;
 
-        let value = self.unsafe_value.into();
+        // The unit written is the coherent one, so the value is too
+        let value = self.unsafe_value.into()
+            * aggregate_scale_factor_float(SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI, 0, 0, 0, 0);
         // Create a temporary quantity with Brand = () to pass to to_ucum_unit
         // (Brand is a phantom type and doesn't affect unit calculation)
         let temp_value = self.unsafe_value; // T: Copy from trait bounds
@@ -593,7 +622,9 @@ pub fn serialize_to_json<
 where
     T: Into<f64> + Copy,
 {
-    let value = quantity.unsafe_value.into();
+    // The unit written is the coherent one, so the value is too
+    let value = quantity.unsafe_value.into()
+        * aggregate_scale_factor_float(SCALE_P2, SCALE_P3, SCALE_P5, SCALE_PI, 0, 0, 0, 0);
     let unit = to_ucum_unit(quantity);
     serde_json::to_string(&serde_json::json!({
         "value": value,
-- 
2.43.0


From 6c84561093baa1ec81eb123ddd2b8f43cc113b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 25/35] fix: a prefixed or otherwise scaled hertz was printed
 as plain Hz

---
 whippyunits-core/src/storage_unit.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 693547d..43f57ba 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -49,8 +49,13 @@ pub fn generate_unit_literal(
     );
 
     // Check if we found a unit literal match - if so, use it directly without conversion factor
-    let pure_systematic = generate_systematic_unit_name(exponents_vec.clone(), config.verbose);
-    let found_unit_literal = base_systematic_literal != pure_systematic;
+    // (the name at identity scale is the fallback when there is no match)
+    let unscaled_literal = generate_systematic_unit_name_with_scale_factors(
+        exponents_vec.clone(),
+        ScaleExponents::IDENTITY,
+        config.verbose,
+    );
+    let found_unit_literal = base_systematic_literal != unscaled_literal;
     let systematic_literal = if found_unit_literal {
         // We found a unit literal match, use it directly
         base_systematic_literal
-- 
2.43.0


From 19d1c938b980994309566966b7bd04277a03dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 26/35] fix: a unit matching the overall scale was printed to
 the wrong power or more than once

---
 whippyunits-core/src/storage_unit.rs | 32 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 43f57ba..26da7c5 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -612,6 +612,8 @@ pub fn generate_systematic_composite_unit_name_with_scale(
     // Generate unit parts for each dimension using simple string concatenation
     let mut result = String::new();
     let mut first = true;
+    // The aggregate scale can come from at most one unit, and only to the first power
+    let mut scale_to_match = scale_factors;
 
     for (index, &exp) in exponents.iter().enumerate() {
         if exp == 0 {
@@ -623,24 +625,24 @@ pub fn generate_systematic_composite_unit_name_with_scale(
         let (unit_name, unit_symbol, base_scale_offset) =
             if let Some(dimension) = Dimension::BASIS.get(index) {
                 // If scale factors are provided, try to find a matching unit
-                let matched_unit = if let Some(scale) = scale_factors {
+                let matched_unit = if scale_factors.is_some() {
                     // For compound units, try to match the aggregate scale factors
                     // This works when the scale factors come from a single dimension (e.g., deg/m where deg has the scale)
-                    dimension
-                        .units
-                        .iter()
-                        .find(|unit| unit.scale == scale && unit.conversion_factor == 1.0)
-                        // If no exact match, try identity scale (for cases like deg/m where meter has identity scale)
-                        .or_else(|| {
-                            if scale == ScaleExponents::IDENTITY {
-                                None // Already tried identity above
-                            } else {
-                                dimension.units.iter().find(|unit| {
-                                    unit.scale == ScaleExponents::IDENTITY
-                                        && unit.conversion_factor == 1.0
-                                })
-                            }
+                    let exact_unit = scale_to_match.filter(|_| exp == 1).and_then(|scale| {
+                        dimension
+                            .units
+                            .iter()
+                            .find(|unit| unit.scale == scale && unit.conversion_factor == 1.0)
+                    });
+                    if exact_unit.is_some() {
+                        scale_to_match = None;
+                    }
+                    // If no exact match, try identity scale (for cases like deg/m where meter has identity scale)
+                    exact_unit.or_else(|| {
+                        dimension.units.iter().find(|unit| {
+                            unit.scale == ScaleExponents::IDENTITY && unit.conversion_factor == 1.0
                         })
+                    })
                 } else {
                     None
                 };
-- 
2.43.0


From ed232f0e8dd712cbe7c3f851bf89529fba89c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 27/35] fix: powers of kilograms were printed as powers of
 grams

---
 whippyunits-core/src/storage_unit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 26da7c5..75e4d5e 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -660,8 +660,8 @@ pub fn generate_systematic_composite_unit_name_with_scale(
         // For compound units, convert g to kg for mass terms
         let is_compound_unit = exponents.iter().filter(|&&exp| exp != 0).count() > 1;
         let (adjusted_unit_name, adjusted_unit_symbol) =
-            if is_compound_unit && base_scale_offset != 0 && index == 0 {
-                // This is a compound unit with mass dimension (index 0) that has a scale offset
+            if (is_compound_unit || exp != 1) && base_scale_offset != 0 && index == 0 {
+                // This is a compound unit or a power with mass dimension (index 0) that has a scale offset
                 if long_name {
                     match unit_name {
                         "gram" => ("kilogram", unit_symbol),
-- 
2.43.0


From 4210595c28a3a71abd1dc5c0ae37ab899189492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 28/35] fix: a prefix on a negative or high power of a unit
 read as part of the power

---
 whippyunits-core/src/storage_unit.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 75e4d5e..0cd6ead 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -385,9 +385,7 @@ pub fn generate_prefixed_systematic_unit(
 
     if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
         // For pure powers of base units, add disambiguating parentheses
-        if !base_unit.contains("·")
-            && (base_unit.contains("^") || base_unit.contains("²") || base_unit.contains("³"))
-        {
+        if !base_unit.contains("·") && has_exponent(base_unit) {
             format!("{}({})", prefix, base_unit)
         } else {
             format!("{}{}", prefix, base_unit)
@@ -448,11 +446,7 @@ pub fn generate_prefixed_si_unit(
 
     if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
         // For pure powers of base units, add disambiguating parentheses
-        if !base_si_unit.contains("·")
-            && (base_si_unit.contains("^")
-                || base_si_unit.contains("²")
-                || base_si_unit.contains("³"))
-        {
+        if !base_si_unit.contains("·") && has_exponent(base_si_unit) {
             format!("{}({})", prefix, base_si_unit)
         } else {
             format!("{}{}", prefix, base_si_unit)
@@ -481,6 +475,11 @@ pub fn generate_prefixed_si_unit(
     }
 }
 
+/// Whether a unit is raised to a power, so that a prefix would read as part of the power
+fn has_exponent(unit: &str) -> bool {
+    unit.contains(|c: char| "^⁻⁰¹²³⁴⁵⁶⁷⁸⁹".contains(c))
+}
+
 /// Calculate total power of 10 using whippyunits-core ScaleExponents
 fn calculate_total_scale_p10(scale_p2: i16, scale_p3: i16, scale_p5: i16, scale_pi: i16) -> i16 {
     let scale_exponents = ScaleExponents([scale_p2, scale_p3, scale_p5, scale_pi]);
-- 
2.43.0


From d9d04da26b380a843ed16b28103a0f35b4a17a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 29/35] fix: a mass or kinematic viscosity at a non-decimal
 scale was printed without or with a wrong factor

---
 whippyunits-core/src/storage_unit.rs | 88 +++++++++-------------------
 1 file changed, 29 insertions(+), 59 deletions(-)

diff --git a/whippyunits-core/src/storage_unit.rs b/whippyunits-core/src/storage_unit.rs
index 0cd6ead..5a0ace1 100644
--- a/whippyunits-core/src/storage_unit.rs
+++ b/whippyunits-core/src/storage_unit.rs
@@ -354,36 +354,24 @@ pub fn generate_prefixed_systematic_unit(
     base_unit: &str,
     long_name: bool,
 ) -> String {
-    let total_scale_p10 = calculate_total_scale_p10(
-        scale_factors.0[0],
-        scale_factors.0[1],
-        scale_factors.0[2],
-        scale_factors.0[3],
-    );
-
     // Check if this is a pure unit (not compound)
     let is_pure_unit = !base_unit.contains("·");
 
     // For pure units, check if we need to apply base scale offset
-    let effective_scale_p10 = if is_pure_unit {
-        // Find the base scale offset by looking up the unit's scale from whippyunits-core
+    let relative_scale = if is_pure_unit {
         // The base_unit comes from systematic unit name generation, so it should always be valid
-        let base_scale_offset = Dimension::find_unit_by_symbol(base_unit)
-            .or_else(|| Dimension::find_unit_by_name(base_unit))
-            .map(|(_unit, _dimension)| _unit.scale.log10().unwrap_or(0))
-            .unwrap_or(0);
-
-        // Apply the base scale offset to the scale calculation
         // The base scale offset represents the offset of the base unit (e.g., gram = -3)
         // We need to subtract it from the total scale to get the effective scale
-        total_scale_p10 - base_scale_offset
+        scale_relative_to(scale_factors, base_unit)
     } else {
         // For compound units, don't apply base scale offset to the aggregate prefix
         // The individual parts already have their base scale offsets applied
-        total_scale_p10
+        scale_factors
     };
 
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
+    let effective_scale_p10 = relative_scale.log10();
+
+    if let Some(prefix) = effective_scale_p10.and_then(|p10| get_si_prefix(p10, long_name)) {
         // For pure powers of base units, add disambiguating parentheses
         if !base_unit.contains("·") && has_exponent(base_unit) {
             format!("{}({})", prefix, base_unit)
@@ -392,18 +380,16 @@ pub fn generate_prefixed_systematic_unit(
         }
     } else {
         // Check if this is a pure power of 10 using whippyunits-core
-        let is_pure_power_of_10 = scale_factors.log10().is_some();
-
-        if is_pure_power_of_10 {
+        if let Some(effective_scale_p10) = effective_scale_p10 {
             // Fall back to SI unit with 10^n notation when SI prefix lookup fails
             generate_si_unit_with_scale(effective_scale_p10, base_unit, long_name)
         } else {
             // Not a pure power of 10, show the scale factors explicitly
             let scale_factors_str = format_scale_factors(
-                scale_factors.0[0],
-                scale_factors.0[1],
-                scale_factors.0[2],
-                scale_factors.0[3],
+                relative_scale.0[0],
+                relative_scale.0[1],
+                relative_scale.0[2],
+                relative_scale.0[3],
             );
             if scale_factors_str.is_empty() {
                 base_unit.to_string()
@@ -420,31 +406,12 @@ pub fn generate_prefixed_si_unit(
     base_si_unit: &str,
     long_name: bool,
 ) -> String {
-    let total_scale_p10 = calculate_total_scale_p10(
-        scale_factors.0[0],
-        scale_factors.0[1],
-        scale_factors.0[2],
-        scale_factors.0[3],
-    );
-
     // Apply base scale offset for mass units (same logic as generate_prefixed_systematic_unit)
-    let effective_scale_p10 =
-        if let Some((_unit, _dimension)) = Dimension::find_unit_by_symbol(base_si_unit) {
-            // Get the base scale offset from the unit's scale (systematic approach)
-            let base_scale_offset = _unit.scale.log10().unwrap_or(0);
-            total_scale_p10 - base_scale_offset
-        } else {
-            // Fallback: try to find by name if symbol lookup fails
-            if let Some((_unit, _dimension)) = Dimension::find_unit_by_name(base_si_unit) {
-                let base_scale_offset = _unit.scale.log10().unwrap_or(0);
-                total_scale_p10 - base_scale_offset
-            } else {
-                // No base scale offset found, use total scale as-is
-                total_scale_p10
-            }
-        };
+    let relative_scale = scale_relative_to(scale_factors, base_si_unit);
 
-    if let Some(prefix) = get_si_prefix(effective_scale_p10, long_name) {
+    let effective_scale_p10 = relative_scale.log10();
+
+    if let Some(prefix) = effective_scale_p10.and_then(|p10| get_si_prefix(p10, long_name)) {
         // For pure powers of base units, add disambiguating parentheses
         if !base_si_unit.contains("·") && has_exponent(base_si_unit) {
             format!("{}({})", prefix, base_si_unit)
@@ -453,18 +420,16 @@ pub fn generate_prefixed_si_unit(
         }
     } else {
         // Check if this is a pure power of 10 using whippyunits-core
-        let is_pure_power_of_10 = scale_factors.log10().is_some();
-
-        if is_pure_power_of_10 {
+        if let Some(effective_scale_p10) = effective_scale_p10 {
             // Fall back to SI unit with 10^n notation when SI prefix lookup fails
             generate_si_unit_with_scale(effective_scale_p10, base_si_unit, long_name)
         } else {
             // Not a pure power of 10, show the scale factors explicitly
             let scale_factors_str = format_scale_factors(
-                scale_factors.0[0],
-                scale_factors.0[1],
-                scale_factors.0[2],
-                scale_factors.0[3],
+                relative_scale.0[0],
+                relative_scale.0[1],
+                relative_scale.0[2],
+                relative_scale.0[3],
             );
             if scale_factors_str.is_empty() {
                 base_si_unit.to_string()
@@ -480,10 +445,15 @@ fn has_exponent(unit: &str) -> bool {
     unit.contains(|c: char| "^⁻⁰¹²³⁴⁵⁶⁷⁸⁹".contains(c))
 }
 
-/// Calculate total power of 10 using whippyunits-core ScaleExponents
-fn calculate_total_scale_p10(scale_p2: i16, scale_p3: i16, scale_p5: i16, scale_pi: i16) -> i16 {
-    let scale_exponents = ScaleExponents([scale_p2, scale_p3, scale_p5, scale_pi]);
-    scale_exponents.log10().unwrap_or(0)
+/// The scale left over when the scale of the named unit (if any) is taken out
+fn scale_relative_to(scale_factors: ScaleExponents, base_unit: &str) -> ScaleExponents {
+    let base_scale = Dimension::find_unit_by_symbol(base_unit)
+        .or_else(|| Dimension::find_unit_by_name(base_unit))
+        .map(|(unit, _dimension)| unit.scale)
+        .unwrap_or(ScaleExponents::IDENTITY);
+    ScaleExponents(core::array::from_fn(|i| {
+        scale_factors.0[i].saturating_sub(base_scale.0[i])
+    }))
 }
 
 /// Generate SI unit with 10^n notation when no standard prefix is available
-- 
2.43.0


From 25383f2e776c50bd766d8a0ee9730b122fec4bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 30/35] fix: infinite and tiny values were displayed as NaN

---
 src/print/prettyprint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/print/prettyprint.rs b/src/print/prettyprint.rs
index 3850bd8..93fc98d 100644
--- a/src/print/prettyprint.rs
+++ b/src/print/prettyprint.rs
@@ -447,6 +447,11 @@ fn format_float_with_sig_figs(value: f64, sig_figs: usize) -> String {
     let magnitude = abs_value.log10().floor() as i32;
     let scale_factor = 10_f64.powi(sig_figs as i32 - 1 - magnitude as i32);
 
+    // Infinite, not-a-number and the very smallest values cannot be rounded this way
+    if !value.is_finite() || !scale_factor.is_finite() {
+        return format!("{}", value);
+    }
+
     let rounded = (value * scale_factor).round() / scale_factor;
 
     // Format with appropriate precision
-- 
2.43.0


From 7f1c41113f5899c1f7b145512bf5b12b17249cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 31/35] fix: subtracting type level dimension exponents added
 them

---
 whippyunits-core/src/dimension_exponents.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/whippyunits-core/src/dimension_exponents.rs b/whippyunits-core/src/dimension_exponents.rs
index fa5458f..ac1574f 100644
--- a/whippyunits-core/src/dimension_exponents.rs
+++ b/whippyunits-core/src/dimension_exponents.rs
@@ -449,14 +449,14 @@ macro_rules! __exponents_impl_op {
             const ANGLE_EXP2: i16,
         > $op<__exponents!(@rhs)> for __exponents!(@lhs)
 where
-    N<MASS_EXP1>: Add<N<MASS_EXP2>, Output = N<MASS_EXP>>,
-    N<LENGTH_EXP1>: Add<N<LENGTH_EXP2>, Output = N<LENGTH_EXP>>,
-    N<TIME_EXP1>: Add<N<TIME_EXP2>, Output = N<TIME_EXP>>,
-    N<CURRENT_EXP1>: Add<N<CURRENT_EXP2>, Output = N<CURRENT_EXP>>,
-    N<TEMPERATURE_EXP1>: Add<N<TEMPERATURE_EXP2>, Output = N<TEMPERATURE_EXP>>,
-    N<AMOUNT_EXP1>: Add<N<AMOUNT_EXP2>, Output = N<AMOUNT_EXP>>,
-    N<LUMINOSITY_EXP1>: Add<N<LUMINOSITY_EXP2>, Output = N<LUMINOSITY_EXP>>,
-    N<ANGLE_EXP1>: Add<N<ANGLE_EXP2>, Output = N<ANGLE_EXP>>,
+    N<MASS_EXP1>: $op<N<MASS_EXP2>, Output = N<MASS_EXP>>,
+    N<LENGTH_EXP1>: $op<N<LENGTH_EXP2>, Output = N<LENGTH_EXP>>,
+    N<TIME_EXP1>: $op<N<TIME_EXP2>, Output = N<TIME_EXP>>,
+    N<CURRENT_EXP1>: $op<N<CURRENT_EXP2>, Output = N<CURRENT_EXP>>,
+    N<TEMPERATURE_EXP1>: $op<N<TEMPERATURE_EXP2>, Output = N<TEMPERATURE_EXP>>,
+    N<AMOUNT_EXP1>: $op<N<AMOUNT_EXP2>, Output = N<AMOUNT_EXP>>,
+    N<LUMINOSITY_EXP1>: $op<N<LUMINOSITY_EXP2>, Output = N<LUMINOSITY_EXP>>,
+    N<ANGLE_EXP1>: $op<N<ANGLE_EXP2>, Output = N<ANGLE_EXP>>,
 {
             $($t)*
         }
-- 
2.43.0


From b62498ae64cf4f1af25005dbb4fabb01bc96cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 32/35] =?UTF-8?q?fix:=20define=5Fgeneric=5Fdimension!=20pa?=
 =?UTF-8?q?nicked=20at=20=CE=982?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 proc-macros/src/define_generic_dimension_macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc-macros/src/define_generic_dimension_macro.rs b/proc-macros/src/define_generic_dimension_macro.rs
index f3c8c3b..7df8370 100644
--- a/proc-macros/src/define_generic_dimension_macro.rs
+++ b/proc-macros/src/define_generic_dimension_macro.rs
@@ -83,7 +83,7 @@ impl DimensionExpr {
 
             // Check for implicit exponent notation (UCUM format like "L2" instead of "L^2")
             let ident_str = ident.to_string();
-            if let Some(pos) = ident_str.chars().position(|c| c.is_ascii_digit()) {
+            if let Some(pos) = ident_str.find(|c: char| c.is_ascii_digit()) {
                 let base_name = &ident_str[..pos];
                 let exp_str = &ident_str[pos..];
                 if let Ok(exp) = exp_str.parse::<i16>() {
-- 
2.43.0


From 4804ad66e80602cfd08517ac3c7faac3213b37cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 33/35] =?UTF-8?q?fix:=20define=5Fgeneric=5Fdimension!=20re?=
 =?UTF-8?q?jected=20the=20documented=20symbols=20=CE=98=20and=20J?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 whippyunits-core/src/dimensions.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/whippyunits-core/src/dimensions.rs b/whippyunits-core/src/dimensions.rs
index f70d9fd..11a2bbf 100644
--- a/whippyunits-core/src/dimensions.rs
+++ b/whippyunits-core/src/dimensions.rs
@@ -1,5 +1,5 @@
 use crate::dimension_exponents::{
-    DimensionExponents, DynDimensionExponents, TypeDimensionExponents,
+    DimensionBasis, DimensionExponents, DynDimensionExponents, TypeDimensionExponents,
 };
 use crate::prefix::SiPrefix;
 use crate::units::Unit;
@@ -23,10 +23,18 @@ pub struct Dimension<ExponentsType: 'static = DynDimensionExponents> {
 
 impl Dimension {
     /// Find a dimension by its name or symbol.
+    ///
+    /// An atomic dimension is also found by the symbol of its basis (`Θ`, `J`).
     pub fn find_dimension(name_or_symbol: &str) -> Option<&'static Self> {
         Self::ALL
             .iter()
             .find(|dim| dim.symbol == name_or_symbol || dim.name == name_or_symbol)
+            .or_else(|| {
+                DimensionBasis::ALL
+                    .iter()
+                    .find(|basis| basis.symbol() == name_or_symbol)
+                    .and_then(|basis| Self::find_dimension_by_exponents(basis.exponents()))
+            })
     }
 
     /// Find a unit by its symbol across all dimensions.
-- 
2.43.0


From 8b02b95c825db3d6b83bf28fdd1fce909cd56288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:02 +0000
Subject: [PATCH 34/35] fix: Display and Debug without std named neither the
 storage type nor the brand

---
 src/print/display_traits.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/print/display_traits.rs b/src/print/display_traits.rs
index 452615f..be85acc 100644
--- a/src/print/display_traits.rs
+++ b/src/print/display_traits.rs
@@ -20,14 +20,8 @@ macro_rules! define_display_traits {
             fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                 let value_f64 = <f64 as num_traits::NumCast>::from(self.unsafe_value)
                     .expect("unable to convert numeric value to f64 for display");
-                #[cfg(feature = "std")]
-                let brand_name = std::any::type_name::<Brand>();
-                #[cfg(not(feature = "std"))]
-                let brand_name = "<unknown>";
-                #[cfg(feature = "std")]
-                let type_name = std::any::type_name::<T>();
-                #[cfg(not(feature = "std"))]
-                let type_name = "<T>";
+                let brand_name = core::any::type_name::<Brand>();
+                let type_name = core::any::type_name::<T>();
                 let pretty = pretty_print_quantity_value(
                     value_f64,
                     whippyunits_core::dimension_exponents::DynDimensionExponents([$($dimension_args)*]),
@@ -59,14 +53,8 @@ macro_rules! define_display_traits {
             fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                 let value_f64 = <f64 as num_traits::NumCast>::from(self.unsafe_value)
                     .expect("unable to convert numeric value to f64 for debug");
-                #[cfg(feature = "std")]
-                let brand_name = std::any::type_name::<Brand>();
-                #[cfg(not(feature = "std"))]
-                let brand_name = "<unknown>";
-                #[cfg(feature = "std")]
-                let type_name = std::any::type_name::<T>();
-                #[cfg(not(feature = "std"))]
-                let type_name = "<T>";
+                let brand_name = core::any::type_name::<Brand>();
+                let type_name = core::any::type_name::<T>();
                 let pretty = pretty_print_quantity_value(
                     value_f64,
                     whippyunits_core::dimension_exponents::DynDimensionExponents([$($dimension_args)*]),
-- 
2.43.0


From e279032f0687435d60821b824aa10a8380ba23dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 35/35] fix: the LSP proxy dropped hover actions and added null
 members to responses

---
 lsp-proxy/src/lsp_structures.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lsp-proxy/src/lsp_structures.rs b/lsp-proxy/src/lsp_structures.rs
index 722d71c..a31735d 100644
--- a/lsp-proxy/src/lsp_structures.rs
+++ b/lsp-proxy/src/lsp_structures.rs
@@ -5,10 +5,15 @@ use serde_json::Value;
 #[derive(Debug, Serialize, Deserialize)]
 pub struct LspMessage {
     pub jsonrpc: String,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub id: Option<Value>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub method: Option<String>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub params: Option<Value>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub result: Option<Value>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub error: Option<Value>,
 }
 
@@ -16,7 +21,11 @@ pub struct LspMessage {
 #[derive(Debug, Serialize, Deserialize)]
 pub struct HoverContent {
     pub contents: HoverContents,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub range: Option<Value>,
+    /// Members this proxy does not interpret (e.g. rust-analyzer's `actions`)
+    #[serde(flatten)]
+    pub other: serde_json::Map<String, Value>,
 }
 
 #[derive(Debug, Serialize, Deserialize)]
@@ -28,7 +37,9 @@ pub enum HoverContents {
 
 #[derive(Debug, Serialize, Deserialize)]
 pub struct HoverContentItem {
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub language: Option<String>,
     pub value: String,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub kind: Option<String>,
 }
-- 
2.43.0

