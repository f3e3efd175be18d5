From 07f59a43a414099f28ecf9a4aa38083b4c075075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 01/10] fix: make the generated code and the order of errors
 deterministic

The fields of the generated dimension literals and the errors about
multiply defined identifiers and symbols were emitted in the iteration
order of a randomly seeded HashMap.
---
 crates/diman_unit_system/src/dimension_math.rs        | 10 ++++++----
 crates/diman_unit_system/src/resolve/ident_storage.rs |  5 +++--
 crates/diman_unit_system/src/resolve/mod.rs           |  5 +++--
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/diman_unit_system/src/dimension_math.rs b/crates/diman_unit_system/src/dimension_math.rs
index e39482f..ae129b3 100644
--- a/crates/diman_unit_system/src/dimension_math.rs
+++ b/crates/diman_unit_system/src/dimension_math.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use diman_lib::{dimension_exponent::DimensionExponent, magnitude::Magnitude};
 use proc_macro2::Ident;
@@ -10,7 +10,9 @@ use crate::{
 
 #[derive(Clone)]
 pub struct BaseDimensions {
-    fields: HashMap<BaseDimension, Exponent>,
+    // BTreeMap, so that the generated code and the error messages
+    // are deterministic
+    fields: BTreeMap<BaseDimension, Exponent>,
 }
 
 #[derive(Clone)]
@@ -33,12 +35,12 @@ impl PartialEq for BaseDimensions {
 impl BaseDimensions {
     pub fn none() -> Self {
         Self {
-            fields: HashMap::default(),
+            fields: BTreeMap::default(),
         }
     }
 
     pub fn for_base_dimension(base_dim: BaseDimension) -> Self {
-        let mut fields = HashMap::new();
+        let mut fields = BTreeMap::new();
         fields.insert(base_dim, Exponent::one());
         Self { fields }
     }
diff --git a/crates/diman_unit_system/src/resolve/ident_storage.rs b/crates/diman_unit_system/src/resolve/ident_storage.rs
index 5d7cdd3..0425471 100644
--- a/crates/diman_unit_system/src/resolve/ident_storage.rs
+++ b/crates/diman_unit_system/src/resolve/ident_storage.rs
@@ -231,10 +231,11 @@ impl IdentStorage {
     }
 
     pub(crate) fn filter_multiply_defined(&mut self) {
-        let num_definitions: HashMap<_, usize> =
+        // BTreeMap to make sure that the order of the errors is deterministic
+        let num_definitions: BTreeMap<_, usize> =
             self.unresolved
                 .iter()
-                .fold(HashMap::default(), |mut acc, item| {
+                .fold(BTreeMap::default(), |mut acc, item| {
                     *acc.entry(item.ident()).or_insert(0) += 1;
                     acc
                 });
diff --git a/crates/diman_unit_system/src/resolve/mod.rs b/crates/diman_unit_system/src/resolve/mod.rs
index ace7061..bd95690 100644
--- a/crates/diman_unit_system/src/resolve/mod.rs
+++ b/crates/diman_unit_system/src/resolve/mod.rs
@@ -1,7 +1,7 @@
 mod error;
 mod ident_storage;
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use proc_macro2::Span;
 use syn::Ident;
@@ -109,7 +109,8 @@ fn check_for_base_units_without_symbol(units: &[Unit]) {
 }
 
 fn check_multiply_defined_symbols(units: &[UnitEntry]) {
-    let mut units_by_symbol: HashMap<&Ident, Vec<&Ident>> = HashMap::new();
+    // BTreeMap to make sure that the order of the errors is deterministic
+    let mut units_by_symbol: BTreeMap<&Ident, Vec<&Ident>> = BTreeMap::new();
     for unit in units {
         if let Some(ref symbol) = unit.symbol {
             units_by_symbol
-- 
2.43.0


From 051946b94a08f778c46e04678cb22b23840eb370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 02/10] fix: compare all base dimensions when checking
 annotations

The comparison only looked at the base dimensions of the annotation, so
that expressions with additional dimensions (such as a speed annotated
as a length) were accepted, and it treated an exponent of zero as
different from an absent one.
---
 crates/diman_unit_system/src/dimension_math.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/diman_unit_system/src/dimension_math.rs b/crates/diman_unit_system/src/dimension_math.rs
index ae129b3..903e993 100644
--- a/crates/diman_unit_system/src/dimension_math.rs
+++ b/crates/diman_unit_system/src/dimension_math.rs
@@ -23,13 +23,13 @@ pub struct DimensionsAndMagnitude {
 
 impl PartialEq for BaseDimensions {
     fn eq(&self, other: &Self) -> bool {
-        self.fields.iter().all(|(dimension, value)| {
-            if let Some(corresponding_value) = other.fields.get(dimension) {
-                value == corresponding_value
-            } else {
-                false
-            }
-        })
+        // A base dimension that does not appear has an exponent of zero.
+        let exponent =
+            |dims: &Self, dim| dims.fields.get(dim).copied().unwrap_or(Exponent::zero());
+        self.fields
+            .keys()
+            .chain(other.fields.keys())
+            .all(|dim| exponent(self, dim) == exponent(other, dim))
     }
 }
 impl BaseDimensions {
-- 
2.43.0


From c0131c93aea07641e12e3f726521c668f3d06b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 03/10] fix: do not flush small magnitudes to zero

2^exponent underflows for magnitudes below about 1e-292, so that these
were converted to zero.
---
 crates/diman_lib/src/magnitude.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/magnitude.rs b/crates/diman_lib/src/magnitude.rs
index b31c8bb..0c30587 100644
--- a/crates/diman_lib/src/magnitude.rs
+++ b/crates/diman_lib/src/magnitude.rs
@@ -44,7 +44,11 @@ impl Magnitude {
     }
 
     pub fn into_f64(self) -> f64 {
-        self.sign as f64 * self.mantissa as f64 * 2.0f64.powi(self.exponent as i32)
+        // Multiply in two steps: 2^exponent itself underflows for magnitudes
+        // that are small, but well within the range of f64.
+        let exponent = self.exponent as i32;
+        let (exponent_1, exponent_2) = (exponent / 2, exponent - exponent / 2);
+        self.sign as f64 * self.mantissa as f64 * 2.0f64.powi(exponent_1) * 2.0f64.powi(exponent_2)
     }
 
     pub fn into_f32(self) -> f32 {
-- 
2.43.0


From 86e6fd2cedb2aa3dcc153e8f550864083427c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 04/10] fix: reject characters in front of the bracket of a
 vector

"7 (1 2) m" was deserialized as "(1 2) m".
---
 crates/diman_unit_system/src/codegen/serde.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 05cc3a9..5a29a15 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -237,6 +237,9 @@ impl Codegen {
                     let bracket_begin = vector_part
                         .find('(')
                         .ok_or_else(|| E::custom("No opening bracket in vector string"))?;
+                    if bracket_begin != 0 {
+                        return Err(E::custom(format!("Unexpected characters before opening bracket in vector string: {}", value)));
+                    }
                     let vector_part = vector_part[bracket_begin + 1..vector_part.len() - 1].to_string();
                     let vector_components = &vector_part.split_whitespace().collect::<Vec<_>>();
                     if vector_components.len() != #num_dims {
-- 
2.43.0


From 26b2a737289331e6a977f9bc9489b58104687807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 05/10] fix: reject zero and normalize negative denominators of
 exponents

The exponent (1/0) was accepted, (0/0) made the macro panic, and
(1/-2) was different from (-1/2).
---
 crates/diman_lib/src/ratio.rs             | 8 +++++++-
 crates/diman_unit_system/src/parse/mod.rs | 7 +++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index 7dd57b7..4562fe7 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -36,7 +36,13 @@ impl Ratio {
     }
 
     pub const fn new(num: i64, denom: i64) -> Self {
-        let gcd = gcd(num, denom);
+        // Keep the denominator positive, so that equal ratios have
+        // equal representations.
+        let gcd = if denom < 0 {
+            -gcd(num, denom)
+        } else {
+            gcd(num, denom)
+        };
         Self {
             num: num / gcd,
             denom: denom / gcd,
diff --git a/crates/diman_unit_system/src/parse/mod.rs b/crates/diman_unit_system/src/parse/mod.rs
index 4407f10..265a116 100644
--- a/crates/diman_unit_system/src/parse/mod.rs
+++ b/crates/diman_unit_system/src/parse/mod.rs
@@ -130,7 +130,14 @@ impl Parse for Exponent {
             let _: token::Paren = parenthesized!(content in input);
             let num: Int = content.parse()?;
             let _: DivisionToken = content.parse()?;
+            let denom_span = content.span();
             let denom: Int = content.parse()?;
+            if denom.int == 0 {
+                return Err(Error::new(
+                    denom_span,
+                    "The denominator of an exponent cannot be zero.".to_string(),
+                ));
+            }
             Ok(Self {
                 num,
                 denom: Some(denom),
-- 
2.43.0


From e95b985c7f8fa0fa6af21bfb28d73fe224428d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 06/10] fix: report attributes that do not belong to a unit

Attributes on dimensions, constants and type declarations were silently
ignored.
---
 crates/diman_unit_system/src/parse/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/diman_unit_system/src/parse/mod.rs b/crates/diman_unit_system/src/parse/mod.rs
index 265a116..2f0fa77 100644
--- a/crates/diman_unit_system/src/parse/mod.rs
+++ b/crates/diman_unit_system/src/parse/mod.rs
@@ -311,18 +311,22 @@ impl Parse for Entry {
         let attributes = Attributes::parse_all(input)?;
         let lookahead = input.lookahead1();
         if lookahead.peek(kw::quantity_type) {
+            attributes.check_none_left_over()?;
             let _: kw::quantity_type = input.parse()?;
             Ok(Self::QuantityType(input.parse()?))
         } else if lookahead.peek(kw::dimension_type) {
+            attributes.check_none_left_over()?;
             let _: kw::dimension_type = input.parse()?;
             Ok(Self::DimensionType(input.parse()?))
         } else if lookahead.peek(kw::dimension) {
+            attributes.check_none_left_over()?;
             Ok(Self::Dimension(input.parse()?))
         } else if lookahead.peek(kw::unit) {
             Ok(Self::Unit(UnitTemplate::parse_with_attributes(
                 input, attributes,
             )?))
         } else if lookahead.peek(kw::constant) {
+            attributes.check_none_left_over()?;
             Ok(Self::Constant(input.parse()?))
         } else {
             Err(lookahead.error())
-- 
2.43.0


From e4bd2126da6d31085e74511ba4aecaac71506b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 07/10] fix: do not panic when formatting a dimension without a
 base unit

Nothing requires a base dimension to have a base unit, but the Debug
implementation unwrapped its symbol.
---
 .../src/codegen/debug_trait.rs                | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/debug_trait.rs b/crates/diman_unit_system/src/codegen/debug_trait.rs
index 51214b7..11ee85c 100644
--- a/crates/diman_unit_system/src/codegen/debug_trait.rs
+++ b/crates/diman_unit_system/src/codegen/debug_trait.rs
@@ -76,14 +76,22 @@ impl Codegen {
 
     fn get_base_dimension_symbol(&self, base_dim: &BaseDimension) -> TokenStream {
         let dim = self.get_dimension_expr(&BaseDimensions::for_base_dimension(base_dim.clone()));
-        // We know that symbols exist for base dimensions, so we can unwrap here.
         let base_dim = &base_dim.0;
+        // A base dimension does not need to have a base unit. In that case,
+        // there is no symbol, so use the name of the dimension.
+        let base_dim_name = base_dim.to_string();
         quote! {
-            if D.#base_dim == Exponent::one() {
-                write!(f, " {}", units.get_first_unit_for_dimension(#dim).unwrap().symbol)?;
-            }
-            else if D.#base_dim != Exponent::zero() {
-                write!(f, " {}^{}", units.get_first_unit_for_dimension(#dim).unwrap().symbol, D.#base_dim)?;
+            if D.#base_dim != Exponent::zero() {
+                let symbol = units
+                    .get_first_unit_for_dimension(#dim)
+                    .map(|unit| unit.symbol)
+                    .unwrap_or(#base_dim_name);
+                if D.#base_dim == Exponent::one() {
+                    write!(f, " {}", symbol)?;
+                }
+                else {
+                    write!(f, " {}^{}", symbol, D.#base_dim)?;
+                }
             }
         }
     }
-- 
2.43.0


From 0703d51bfb0a5e5ace86d0b09a5e321dd2761748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 08/10] fix: read back quantities with rational exponents

With rational-dimensions, quantities serialize to e.g. "1 m^1/2", but
only integer exponents could be deserialized. Exponents that are too
large are now an error instead of an arithmetic overflow.
---
 crates/diman_lib/src/ratio.rs                 | 32 +++++++++++++
 crates/diman_unit_system/src/codegen/serde.rs | 46 +++++++++++++++++--
 2 files changed, 73 insertions(+), 5 deletions(-)

diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index 4562fe7..6c452b9 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -78,6 +78,19 @@ impl Ratio {
         Self::new(num, denom)
     }
 
+    pub fn checked_add(self, rhs: Self) -> Option<Self> {
+        let lhs_num = self.num.checked_mul(rhs.denom)?;
+        let rhs_num = rhs.num.checked_mul(self.denom)?;
+        let denom = self.denom.checked_mul(rhs.denom)?;
+        Some(Self::new(lhs_num.checked_add(rhs_num)?, denom))
+    }
+
+    pub fn checked_mul(self, rhs: Self) -> Option<Self> {
+        let num = self.num.checked_mul(rhs.num)?;
+        let denom = self.denom.checked_mul(rhs.denom)?;
+        Some(Self::new(num, denom))
+    }
+
     pub const fn div(self, rhs: Self) -> Self {
         self.mul(rhs.inv())
     }
@@ -108,6 +121,25 @@ impl DimensionExponent for Ratio {
     }
 }
 
+pub struct ParseRatioError;
+
+/// Parses the representation written by the `Display` implementation.
+impl core::str::FromStr for Ratio {
+    type Err = ParseRatioError;
+
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        let parse_int = |s: &str| s.parse::<i32>().map_err(|_| ParseRatioError);
+        let (num, denom) = match s.split_once('/') {
+            Some((num, denom)) => (parse_int(num)?, parse_int(denom)?),
+            None => (parse_int(s)?, 1),
+        };
+        if denom <= 0 {
+            return Err(ParseRatioError);
+        }
+        Ok(Self::new(num as i64, denom as i64))
+    }
+}
+
 impl core::fmt::Display for Ratio {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
         if self.denom == 1 {
diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 5a29a15..920781e 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -20,6 +20,17 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         let all_units_storage = self.runtime_unit_storage(self.defs.units.iter());
+        let parse_exponent = self.serde_parse_exponent();
+        let (add_fields, mul_fields): (TokenStream, TokenStream) = self
+            .defs
+            .base_dimensions()
+            .map(|ident| {
+                (
+                    quote! { #ident: self.#ident.checked_add(other.#ident)?, },
+                    quote! { #ident: self.#ident.checked_mul(exponent)?, },
+                )
+            })
+            .unzip();
 
         quote! {
             use core::marker::PhantomData;
@@ -30,6 +41,16 @@ impl Codegen {
             #[derive(Default)]
             struct QuantityVisitor<S, const D: #dimension_type>(PhantomData<S>);
 
+            impl #dimension_type {
+                fn checked_add(self, other: Self) -> Option<Self> {
+                    Some(Self { #add_fields })
+                }
+
+                fn checked_mul(self, exponent: Exponent) -> Option<Self> {
+                    Some(Self { #mul_fields })
+                }
+            }
+
             fn get_quantity_if_dimensions_match<S, const D: #dimension_type, E: de::Error>(
                 context: &str,
                 numerical_value: S,
@@ -50,7 +71,9 @@ impl Codegen {
                 let mut total_factor = 1.0;
                 for unit in split {
                     let (dimension, factor) = read_single_unit_str(unit)?;
-                    total_dimension = total_dimension.add(dimension.clone());
+                    total_dimension = total_dimension
+                        .checked_add(dimension)
+                        .ok_or_else(|| E::custom(format!("unit exponent out of range: {}", unit)))?;
                     total_factor *= factor;
                 }
                 Ok((total_dimension, total_factor))
@@ -67,25 +90,38 @@ impl Codegen {
                     }
                     (
                         split[0],
-                        split[1].parse::<i32>().map_err(|_| {
+                        #parse_exponent(split[1]).map_err(|_| {
                             E::custom(format!("unable to parse unit exponent: {}", split[1]))
                         })?,
                     )
                 } else {
-                    (unit_str, 1)
+                    (unit_str, Exponent::one())
                 };
                 #all_units_storage
                 let unit = units
                     .get_unit_by_symbol(unit)
                     .ok_or_else(|| E::custom(format!("unknown unit: {}", &unit)))?;
                 Ok((
-                    unit.dimension.clone().mul(exponent),
-                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), Exponent::from_int(exponent)).into_f64(),
+                    unit.dimension
+                        .clone()
+                        .checked_mul(exponent)
+                        .ok_or_else(|| E::custom(format!("unit exponent out of range: {}", unit_str)))?,
+                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), exponent).into_f64(),
                 ))
             }
         }
     }
 
+    #[cfg(feature = "rational-dimensions")]
+    fn serde_parse_exponent(&self) -> TokenStream {
+        quote! { str::parse::<Exponent> }
+    }
+
+    #[cfg(not(feature = "rational-dimensions"))]
+    fn serde_parse_exponent(&self) -> TokenStream {
+        quote! { (|s: &str| s.parse::<i32>().map(Exponent::from_int)) }
+    }
+
     fn serde_floats_impl(&self) -> TokenStream {
         self.float_types()
             .iter()
-- 
2.43.0


From 6574424c1dc42b23cc760e7f509cd10ff3bd0b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 09/10] fix: allow names other than Quantity and Dimension for
 the types

The names given to quantity_type and dimension_type were ignored in some
of the generated code, so that any other name failed to compile.
---
 crates/diman_unit_system/src/codegen/serde.rs          |  4 ++--
 crates/diman_unit_system/src/codegen/unit_type.rs      |  5 ++---
 .../src/codegen/units_and_constants.rs                 | 10 ++++++----
 crates/diman_unit_system/src/codegen/vector_methods.rs |  4 ++--
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 920781e..c7c3f19 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -215,7 +215,7 @@ impl Codegen {
                 }
             }
 
-            impl<const D: Dimension> serde::Serialize for #quantity_type<#float_type, D> {
+            impl<const D: #dimension_type> serde::Serialize for #quantity_type<#float_type, D> {
                 fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
@@ -299,7 +299,7 @@ impl Codegen {
                 }
             }
 
-            impl<const D: Dimension> serde::Serialize for #quantity_type<#vector_type, D> {
+            impl<const D: #dimension_type> serde::Serialize for #quantity_type<#vector_type, D> {
                 fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 3475966..f2f67ae 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -6,12 +6,11 @@ use super::Codegen;
 
 impl Codegen {
     pub fn gen_unit_type(&self) -> TokenStream {
-        let dimension_type = &self.defs.dimension_type;
         let trait_impls = self.gen_unit_trait_impls();
         let storage_type_impls = self.gen_unit_trait_impls_for_storage_types();
         quote! {
-            pub struct Unit<const D: #dimension_type, const F: Magnitude>;
-            pub struct RuntimeUnit<const D: #dimension_type>(Magnitude);
+            pub struct Unit<const D: Dimension, const F: Magnitude>;
+            pub struct RuntimeUnit<const D: Dimension>(Magnitude);
             #trait_impls
             #storage_type_impls
         }
diff --git a/crates/diman_unit_system/src/codegen/units_and_constants.rs b/crates/diman_unit_system/src/codegen/units_and_constants.rs
index f3c098e..84be135 100644
--- a/crates/diman_unit_system/src/codegen/units_and_constants.rs
+++ b/crates/diman_unit_system/src/codegen/units_and_constants.rs
@@ -31,12 +31,14 @@ impl Codegen {
             })
             .collect();
         let path_prefix = self.caller_type.path_prefix();
+        let dimension_type = &self.defs.dimension_type;
+        let quantity_type = &self.defs.quantity_type;
         quote! {
             pub use #path_prefix::magnitude::Magnitude;
             mod unit_type {
-                use super::Dimension;
+                use super::#dimension_type as Dimension;
                 use super::Magnitude;
-                use super::Quantity;
+                use super::#quantity_type as Quantity;
                 #def_unit_type
             }
             #[allow(unused)]
@@ -46,7 +48,7 @@ impl Codegen {
             pub mod units {
                 use super::Magnitude;
                 use super::Unit;
-                use super::Dimension;
+                use super::#dimension_type;
                 use super::Exponent;
                 #units
             }
@@ -54,7 +56,7 @@ impl Codegen {
             pub mod constants {
                 use super::Magnitude;
                 use super::Unit;
-                use super::Dimension;
+                use super::#dimension_type;
                 use super::Exponent;
                 #constants
             }
diff --git a/crates/diman_unit_system/src/codegen/vector_methods.rs b/crates/diman_unit_system/src/codegen/vector_methods.rs
index da73e96..b3986e7 100644
--- a/crates/diman_unit_system/src/codegen/vector_methods.rs
+++ b/crates/diman_unit_system/src/codegen/vector_methods.rs
@@ -136,9 +136,9 @@ impl Codegen {
                     #quantity_type::<#vector_type_name, { #dimension_type::none() }>(self.0.normalize())
                 }
 
-                pub fn dot<const DR: Dimension>(
+                pub fn dot<const DR: #dimension_type>(
                     self,
-                    rhs: Quantity<#vector_type_name, DR>,
+                    rhs: #quantity_type<#vector_type_name, DR>,
                 ) -> #quantity_type<#float_type, { D.add(DR) }> {
                     #quantity_type(self.0.dot(rhs.0))
                 }
-- 
2.43.0


From 4f4710b9e8d543f22e5615746d6f8efcfc5695a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:23 +0000
Subject: [PATCH 10/10] fix: allow raw identifiers and names that are keywords
 in snake case

Prefixes and symbols of units with raw identifiers were made into invalid
identifiers, and base dimensions like Type into fields that are keywords.
---
 crates/diman_unit_system/src/codegen/debug_trait.rs  |  3 ++-
 crates/diman_unit_system/src/parse/attributes.rs     | 11 +++++++----
 crates/diman_unit_system/src/types/base_dimension.rs | 10 ++++++++--
 crates/diman_unit_system/src/types/mod.rs            |  3 ++-
 4 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/debug_trait.rs b/crates/diman_unit_system/src/codegen/debug_trait.rs
index 11ee85c..d7fffd1 100644
--- a/crates/diman_unit_system/src/codegen/debug_trait.rs
+++ b/crates/diman_unit_system/src/codegen/debug_trait.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::{
     codegen::CallerType,
@@ -79,7 +80,7 @@ impl Codegen {
         let base_dim = &base_dim.0;
         // A base dimension does not need to have a base unit. In that case,
         // there is no symbol, so use the name of the dimension.
-        let base_dim_name = base_dim.to_string();
+        let base_dim_name = base_dim.unraw().to_string();
         quote! {
             if D.#base_dim != Exponent::zero() {
                 let symbol = units
diff --git a/crates/diman_unit_system/src/parse/attributes.rs b/crates/diman_unit_system/src/parse/attributes.rs
index 0ebce2c..05fb3f6 100644
--- a/crates/diman_unit_system/src/parse/attributes.rs
+++ b/crates/diman_unit_system/src/parse/attributes.rs
@@ -1,8 +1,10 @@
 use proc_macro2::Span;
 use syn::{
-    bracketed, parenthesized,
+    bracketed,
+    ext::IdentExt,
+    parenthesized,
     parse::{Parse, ParseBuffer, ParseStream},
-    Error, Result, Token,
+    Error, Ident, Result, Token,
 };
 
 use crate::{
@@ -164,8 +166,9 @@ impl FromAttribute for Symbol {
 
     fn from_attribute(attribute: &Attribute) -> Result<Self> {
         let inner = attribute.inner_or_err()?;
-        let name = inner.parse()?;
-        Ok(Symbol(name))
+        let name: Ident = inner.parse()?;
+        // Symbols only appear in text, never in the generated code.
+        Ok(Symbol(name.unraw()))
     }
 }
 
diff --git a/crates/diman_unit_system/src/types/base_dimension.rs b/crates/diman_unit_system/src/types/base_dimension.rs
index 925cf17..da51dcb 100644
--- a/crates/diman_unit_system/src/types/base_dimension.rs
+++ b/crates/diman_unit_system/src/types/base_dimension.rs
@@ -1,4 +1,5 @@
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 #[derive(PartialEq, Eq, Hash, Clone, PartialOrd, Ord)]
 pub struct BaseDimension(pub Ident);
@@ -20,8 +21,13 @@ fn str_to_snakecase(s: &str) -> String {
 }
 
 fn to_snakecase(dim: &Ident) -> Ident {
-    let snake_case = str_to_snakecase(&dim.to_string());
-    Ident::new(&snake_case, dim.span())
+    let snake_case = str_to_snakecase(&dim.unraw().to_string());
+    // The name might be a keyword in snake case
+    if syn::parse_str::<Ident>(&snake_case).is_ok() {
+        Ident::new(&snake_case, dim.span())
+    } else {
+        Ident::new_raw(&snake_case, dim.span())
+    }
 }
 
 #[cfg(test)]
diff --git a/crates/diman_unit_system/src/types/mod.rs b/crates/diman_unit_system/src/types/mod.rs
index 7c68a27..d1cc687 100644
--- a/crates/diman_unit_system/src/types/mod.rs
+++ b/crates/diman_unit_system/src/types/mod.rs
@@ -4,6 +4,7 @@ pub mod prefixes;
 
 use diman_lib::magnitude::Magnitude;
 use proc_macro2::Span;
+use syn::ext::IdentExt;
 use syn::*;
 
 use self::{
@@ -104,7 +105,7 @@ impl UnitTemplate {
         };
         match prefix {
             None => name,
-            Some(prefix) => Ident::new(&format!("{}{}", prefix.name(), name), name.span()),
+            Some(prefix) => Ident::new(&format!("{}{}", prefix.name(), name.unraw()), name.span()),
         }
     }
 
-- 
2.43.0

