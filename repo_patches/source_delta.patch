From 517a6b64d8c2a80992ce8d2876ebc5a9e81afe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 01/69] fix: print a single minus sign in the decimal
 representation of negative numbers

---
 layouts/src/value/mod.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index ae8347a..679211b 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -91,13 +91,8 @@ impl Number {
 		let mut fraction = String::new();
 		let mut map = std::collections::HashMap::new();
 
-		let mut rem = if self.0.is_negative() {
-			-self.0.numer()
-		} else {
-			self.0.numer().clone()
-		};
-
-		rem %= self.0.denom();
+		let numer = self.0.numer().abs();
+		let mut rem = &numer % self.0.denom();
 		while !rem.is_zero() && !map.contains_key(&rem) {
 			map.insert(rem.clone(), fraction.len());
 			rem *= TEN.clone();
@@ -111,7 +106,7 @@ impl Number {
 			String::new()
 		};
 
-		output.push_str(&(self.0.numer() / self.0.denom()).to_string());
+		output.push_str(&(numer / self.0.denom()).to_string());
 
 		if rem.is_zero() {
 			if !fraction.is_empty() {
-- 
2.43.0


From 9b2e06b2c3ad0e2e94e0f709034364413de47da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:03 +0000
Subject: [PATCH 02/69] fix: convert zero and i64::MIN to native numbers

---
 layouts/src/value/mod.rs | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index 679211b..d761e23 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -3,7 +3,7 @@ use std::{collections::BTreeMap, str::FromStr};
 
 use json_syntax::{array::JsonArray, TryFromJson};
 use lazy_static::lazy_static;
-use num_bigint::{BigInt, Sign};
+use num_bigint::BigInt;
 use num_rational::BigRational;
 use num_traits::{Signed, ToPrimitive, Zero};
 use xsd_types::ParseXsd;
@@ -56,28 +56,17 @@ impl Number {
 	}
 
 	pub fn as_native(&self) -> NativeNumber {
-		if self.0.is_integer() {
-			let n = self.0.numer();
-			match n.sign() {
-				Sign::Minus => {
-					if n.bits() < 64 {
-						let unsigned = n.iter_u64_digits().next().unwrap() as i64;
-						NativeNumber::I64(-unsigned)
-					} else {
-						NativeNumber::F64(self.0.to_f64().unwrap())
-					}
-				}
-				Sign::NoSign | Sign::Plus => {
-					if n.bits() <= 64 {
-						NativeNumber::U64(n.iter_u64_digits().next().unwrap())
-					} else {
-						NativeNumber::F64(self.0.to_f64().unwrap())
-					}
-				}
+		if let Some(n) = self.as_integer() {
+			if let Some(u) = n.to_u64() {
+				return NativeNumber::U64(u);
+			}
+
+			if let Some(i) = n.to_i64() {
+				return NativeNumber::I64(i);
 			}
-		} else {
-			NativeNumber::F64(self.0.to_f64().unwrap())
 		}
+
+		NativeNumber::F64(self.to_f64())
 	}
 
 	pub fn to_f64(&self) -> f64 {
-- 
2.43.0


From 6642baf651cc1fb3107e77e83388778b8fccf873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 03/69] fix: parse negative fractions and exponents of JSON
 numbers and decimal literals

---
 layouts/src/distill/hy/data.rs | 16 ++++-----
 layouts/src/value/mod.rs       | 63 ++++++++++++++++++++++++----------
 2 files changed, 52 insertions(+), 27 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index b377bf9..4a8ce74 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -236,15 +236,15 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 
 fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>> {
 	match xsd_types::Datatype::from_iri(type_) {
-		Some(xsd_types::Datatype::Decimal(_t)) => match xsd_types::lexical::Decimal::parse(value) {
-			Ok(value) => {
-				let decimal = value.value();
-				Ok(decimal.into_big_rational().into())
-			}
-			Err(_) => {
-				todo!()
+		Some(xsd_types::Datatype::Decimal(_t)) => {
+			match xsd_types::lexical::Decimal::parse(value)
+				.ok()
+				.and_then(|_| Number::parse_decimal(value))
+			{
+				Some(number) => Ok(number),
+				None => Err(Error::NoMatchingLiteral),
 			}
-		},
+		}
 		_ => Err(Error::UnknownNumberDatatype(type_.to_owned())),
 	}
 }
diff --git a/layouts/src/value/mod.rs b/layouts/src/value/mod.rs
index d761e23..630aa8e 100644
--- a/layouts/src/value/mod.rs
+++ b/layouts/src/value/mod.rs
@@ -6,7 +6,6 @@ use lazy_static::lazy_static;
 use num_bigint::BigInt;
 use num_rational::BigRational;
 use num_traits::{Signed, ToPrimitive, Zero};
-use xsd_types::ParseXsd;
 
 use crate::{
 	layout::{
@@ -73,6 +72,47 @@ impl Number {
 		self.0.to_f64().unwrap()
 	}
 
+	/// Parses a decimal number, with an optional sign, fraction and exponent.
+	///
+	/// This covers the lexical space of both JSON numbers and XSD decimals.
+	pub fn parse_decimal(value: &str) -> Option<Self> {
+		let (mantissa, exponent) = match value.find(['e', 'E']) {
+			Some(i) => (&value[..i], value[(i + 1)..].parse::<i32>().ok()?),
+			None => (value, 0),
+		};
+
+		let (is_negative, digits) = match mantissa.strip_prefix('-') {
+			Some(digits) => (true, digits),
+			None => (false, mantissa.strip_prefix('+').unwrap_or(mantissa)),
+		};
+
+		let (integer, fraction) = digits.split_once('.').unwrap_or((digits, ""));
+
+		let mut numer = BigInt::zero();
+		let mut is_empty = true;
+		for c in integer.chars().chain(fraction.chars()) {
+			numer = numer * TEN.clone() + c.to_digit(10)?;
+			is_empty = false;
+		}
+
+		if is_empty {
+			return None;
+		}
+
+		if is_negative {
+			numer = -numer;
+		}
+
+		let exponent = exponent.checked_sub(fraction.len().try_into().ok()?)?;
+		let scale = TEN.pow(exponent.unsigned_abs());
+
+		Some(Self(if exponent < 0 {
+			BigRational::new(numer, scale)
+		} else {
+			BigRational::from_integer(numer * scale)
+		}))
+	}
+
 	/// Returns the decimal representation of this number, if there is one.
 	pub fn decimal_representation(&self) -> Option<String> {
 		use std::fmt::Write;
@@ -171,34 +211,19 @@ impl fmt::Display for Number {
 
 impl From<serde_json::Number> for Number {
 	fn from(value: serde_json::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(&value.to_string())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::parse_decimal(&value.to_string()).unwrap()
 	}
 }
 
 impl From<json_syntax::NumberBuf> for Number {
 	fn from(value: json_syntax::NumberBuf) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::parse_decimal(value.as_str()).unwrap()
 	}
 }
 
 impl<'a> From<&'a json_syntax::Number> for Number {
 	fn from(value: &'a json_syntax::Number) -> Self {
-		Self(
-			xsd_types::Decimal::parse_xsd(value.as_str())
-				.ok()
-				.unwrap()
-				.into(),
-		)
+		Self::parse_decimal(value.as_str()).unwrap()
 	}
 }
 
-- 
2.43.0


From 7d2ec17a77941a608121354e51f4ff301902304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 04/69] fix: write negative numbers as valid decimal literals

---
 layouts/src/distill/de/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index dc639fc..5e1a57e 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -44,10 +44,10 @@ where
 	for i in rdf.interpretation.iris_of(type_) {
 		let iri = rdf.vocabulary.iri(i).unwrap();
 		if let Some(xsd_types::Datatype::Decimal(_)) = xsd_types::Datatype::from_iri(iri) {
-			if let Ok(decimal) = xsd_types::Decimal::try_from(value.as_big_rational().clone()) {
+			if let Some(decimal) = value.decimal_representation() {
 				// TODO better support for XSD decimal datatype.
 				return Ok(rdf_types::Literal::new(
-					decimal.to_string(),
+					decimal,
 					LiteralType::Any(i.clone()),
 				));
 			}
-- 
2.43.0


From 903ad69b59ef023e359b915e326ae6ce3ba854fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:56 +0000
Subject: [PATCH 05/69] fix: encode zero and negative big integers in CBOR

---
 layouts/src/value/cbor/serde_cbor.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index c8b9e2a..2e9bc3e 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -1,4 +1,4 @@
-use num_traits::{Signed, ToBytes};
+use num_traits::{Signed, ToPrimitive};
 use rdf_types::{
 	interpretation::{IriInterpretation, ReverseLiteralInterpretation},
 	Interpretation, Vocabulary,
@@ -141,15 +141,18 @@ impl From<Number> for serde_cbor::Value {
 		match value.as_integer() {
 			Some(i) => {
 				if i.bits() <= 64 {
-					let unsigned = i.iter_u64_digits().next().unwrap() as i128;
-
-					let signed = if i.is_positive() { unsigned } else { -unsigned };
-
-					serde_cbor::Value::Integer(signed)
+					serde_cbor::Value::Integer(i.to_i128().unwrap())
 				} else {
-					let tag = if i.is_positive() { 2 } else { 3 };
-
-					serde_cbor::Value::Tag(tag, Box::new(serde_cbor::Value::Bytes(i.to_be_bytes())))
+					let (tag, n) = if i.is_positive() {
+						(2, i.clone())
+					} else {
+						(3, -(i + 1u32))
+					};
+
+					serde_cbor::Value::Tag(
+						tag,
+						Box::new(serde_cbor::Value::Bytes(n.magnitude().to_bytes_be())),
+					)
 				}
 			}
 			None => serde_cbor::Value::Float(value.to_f64()),
-- 
2.43.0


From 9d875a7eb77ae1f88308b2423f4cefd02e79b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:57 +0000
Subject: [PATCH 06/69] fix: keep the constant of unit layouts when converting
 to CBOR

---
 layouts/src/value/cbor/serde_cbor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layouts/src/value/cbor/serde_cbor.rs b/layouts/src/value/cbor/serde_cbor.rs
index 2e9bc3e..bc1e0bb 100644
--- a/layouts/src/value/cbor/serde_cbor.rs
+++ b/layouts/src/value/cbor/serde_cbor.rs
@@ -55,7 +55,7 @@ impl<R> TypedValue<R> {
 	{
 		let (value, ty) = match self {
 			Self::Always(value) => (value.into(), None),
-			Self::Literal(TypedLiteral::Unit(_, ty)) => (serde_cbor::Value::Null, Some(ty.cast())),
+			Self::Literal(TypedLiteral::Unit(value, ty)) => (value.into(), Some(ty.cast())),
 			Self::Literal(TypedLiteral::Boolean(b, ty)) => {
 				(serde_cbor::Value::Bool(b), Some(ty.cast()))
 			}
@@ -119,7 +119,7 @@ impl<R> From<TypedValue<R>> for serde_cbor::Value {
 	fn from(value: TypedValue<R>) -> Self {
 		match value {
 			TypedValue::Always(value) => value.into(),
-			TypedValue::Literal(TypedLiteral::Unit(_, _)) => Self::Null,
+			TypedValue::Literal(TypedLiteral::Unit(value, _)) => value.into(),
 			TypedValue::Literal(TypedLiteral::Boolean(b, _)) => Self::Bool(b),
 			TypedValue::Literal(TypedLiteral::Number(n, _)) => n.into(),
 			TypedValue::Literal(TypedLiteral::ByteString(b, _)) => Self::Bytes(b),
-- 
2.43.0


From f381f201274f9363c125a46396bf5908769f8c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 07/69] fix: use the declared inputs of literal layouts as
 their input count

---
 layouts/src/layout/literal/data.rs | 10 ++++++++++
 layouts/src/layout/literal/mod.rs  |  7 +++++++
 layouts/src/layout/mod.rs          |  2 +-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/layouts/src/layout/literal/data.rs b/layouts/src/layout/literal/data.rs
index c70ab4f..dca15d0 100644
--- a/layouts/src/layout/literal/data.rs
+++ b/layouts/src/layout/literal/data.rs
@@ -33,6 +33,16 @@ pub enum DataLayout<R> {
 }
 
 impl<R> DataLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Unit(l) => l.input,
+			Self::Boolean(l) => l.input,
+			Self::Number(l) => l.input,
+			Self::ByteString(l) => l.input,
+			Self::TextString(l) => l.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Unit(l) => &l.extra_properties,
diff --git a/layouts/src/layout/literal/mod.rs b/layouts/src/layout/literal/mod.rs
index 284574c..63da1aa 100644
--- a/layouts/src/layout/literal/mod.rs
+++ b/layouts/src/layout/literal/mod.rs
@@ -26,6 +26,13 @@ pub enum LiteralLayout<R> {
 }
 
 impl<R> LiteralLayout<R> {
+	pub fn input_count(&self) -> u32 {
+		match self {
+			Self::Data(d) => d.input_count(),
+			Self::Id(d) => d.input,
+		}
+	}
+
 	pub fn extra_properties(&self) -> &BTreeMap<R, R> {
 		match self {
 			Self::Data(d) => d.extra_properties(),
diff --git a/layouts/src/layout/mod.rs b/layouts/src/layout/mod.rs
index 83eb72c..9cf21b7 100644
--- a/layouts/src/layout/mod.rs
+++ b/layouts/src/layout/mod.rs
@@ -164,7 +164,7 @@ impl<R> Layout<R> {
 	pub fn input_count(&self) -> Option<u32> {
 		match self {
 			Self::Never => None,
-			Self::Literal(_) => Some(1),
+			Self::Literal(l) => Some(l.input_count()),
 			Self::Product(p) => Some(p.input),
 			Self::List(l) => Some(l.input_count()),
 			Self::Sum(s) => Some(s.input),
-- 
2.43.0


From 498e8429050032d65a09fb98f0932a6a6d6b03dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:39 +0000
Subject: [PATCH 08/69] fix: declare the variables introduced by sum variants
 when matching them

---
 layouts/src/distill/hy/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 43d7117..4b50aa6 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -263,7 +263,7 @@ where
 
 				let variant_substitution = Matching::new(
 					dataset,
-					substitution.clone(),
+					variant_substitution,
 					variant.dataset.quads().with_default_graph(current_graph),
 				)
 				.into_unique()
-- 
2.43.0


From 4ef9c3c7950ffa31e12240f399481c2572798ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:41 +0000
Subject: [PATCH 09/69] fix: report undecodable, missing or ambiguous literals,
 identifiers and variants as hydration errors

---
 layouts/src/distill/hy/data.rs | 38 +++++++++++++++++-----------------
 layouts/src/distill/hy/mod.rs  | 18 +++++++++-------
 2 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index 4a8ce74..c2c6c55 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -72,16 +72,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_boolean_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -115,16 +115,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_number_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -158,16 +158,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_byte_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -201,16 +201,16 @@ where
 				let literal = vocabulary.literal(l).unwrap();
 				let i = match literal.type_ {
 					LiteralTypeRef::Any(i) => i,
-					LiteralTypeRef::LangString(_) => {
-						todo!() // Lang string
-					}
+					LiteralTypeRef::LangString(_) => continue,
 				};
 
 				if interpretation.iris_of(&layout.datatype).any(|j| i == j) {
 					let v = hydrate_text_string_value(literal.value, vocabulary.iri(i).unwrap())?;
 
 					if value.replace(v).is_some() {
-						todo!() // Ambiguity
+						return Err(Error::DataAmbiguity(Box::new(DataFragment::Discriminant(
+							layout_ref.cast(),
+						))));
 					}
 				}
 			}
@@ -228,9 +228,9 @@ fn hydrate_boolean_value<R>(value: &str, type_: &Iri) -> Result<bool, Error<R>>
 	if type_ == xsd_types::XSD_BOOLEAN {
 		Boolean::parse_xsd(value)
 			.map(Boolean::into)
-			.map_err(|_| todo!())
+			.map_err(|_| Error::NoMatchingLiteral)
 	} else {
-		todo!() // unknown boolean type.
+		Err(Error::NoMatchingLiteral) // unknown boolean type.
 	}
 }
 
@@ -250,7 +250,7 @@ fn hydrate_number_value<R>(value: &str, type_: &Iri) -> Result<Number, Error<R>>
 }
 
 fn hydrate_byte_string_value<R>(_value: &str, _type_: &Iri) -> Result<Vec<u8>, Error<R>> {
-	todo!()
+	Err(Error::NoMatchingLiteral) // no supported byte string datatype.
 }
 
 fn hydrate_text_string_value<R>(value: &str, _type_: &Iri) -> Result<String, Error<R>> {
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 4b50aa6..ecff4b7 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -227,7 +227,9 @@ where
 						// TODO check automaton.
 
 						if selected.replace(iri).is_some() {
-							todo!() // Error: IRI ambiguity
+							return Err(Error::DataAmbiguity(Box::new(
+								DataFragment::Discriminant(layout_ref.clone()),
+							)));
 						}
 					}
 
@@ -236,9 +238,7 @@ where
 							iri.to_string(),
 							layout_ref.casted(),
 						))),
-						None => {
-							todo!() // Error no IRI matching the layout
-						}
+						None => Err(Error::NoMatchingLiteral),
 					}
 				}
 			}
@@ -297,7 +297,9 @@ where
 							Ok(value) => {
 								match selected.take() {
 									Some((_j, _other_value)) => {
-										todo!() // Error: variant ambiguity
+										return Err(Error::DataAmbiguity(Box::new(
+											DataFragment::Discriminant(layout_ref.clone()),
+										)));
 									}
 									None => selected = Some((i, value)),
 								}
@@ -315,9 +317,9 @@ where
 					layout_ref.casted(),
 					i as u32,
 				)),
-				None => {
-					todo!() // Error: no variant found
-				}
+				None => Err(Error::MissingData(Box::new(DataFragment::Discriminant(
+					layout_ref.clone(),
+				)))),
 			}
 		}
 		Layout::Product(layout) => {
-- 
2.43.0


From 4e5466720939a7dacf79586451e917ceb8ccec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 10/69] fix: report unbound variables as missing data when
 hydrating

---
 layouts/src/distill/hy/data.rs |  30 ++-----
 layouts/src/distill/hy/mod.rs  | 152 ++++++++++++++++++++-------------
 2 files changed, 103 insertions(+), 79 deletions(-)

diff --git a/layouts/src/distill/hy/data.rs b/layouts/src/distill/hy/data.rs
index c2c6c55..e51191d 100644
--- a/layouts/src/distill/hy/data.rs
+++ b/layouts/src/distill/hy/data.rs
@@ -13,7 +13,7 @@ use rdf_types::{
 };
 use xsd_types::{lexical::Lexical, ParseXsd};
 
-use super::{DataFragment, Error, MatchingForFragment};
+use super::{select_resource, DataFragment, Error, MatchingForFragment};
 
 pub fn hydrate_data<V, I, D>(
 	vocabulary: &V,
@@ -60,11 +60,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = select_resource(&layout.resource, &substitution)
+				.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
 			let mut value = None;
 
@@ -103,11 +100,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = select_resource(&layout.resource, &substitution)
+				.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
 			let mut value = None;
 
@@ -146,11 +140,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = select_resource(&layout.resource, &substitution)
+				.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
 			let mut value = None;
 
@@ -189,11 +180,8 @@ where
 			.into_required_unique()
 			.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
-			let resource = layout
-				.resource
-				.apply(&substitution)
-				.into_resource()
-				.unwrap();
+			let resource = select_resource(&layout.resource, &substitution)
+				.for_fragment(|| DataFragment::Discriminant(layout_ref.clone().cast()))?;
 
 			let mut value = None;
 
diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index ecff4b7..01dff7d 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -213,11 +213,8 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let resource = layout
-						.resource
-						.apply(&substitution)
-						.into_resource()
-						.unwrap();
+					let resource = select_resource(&layout.resource, &substitution)
+						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 					let mut selected = None;
 
@@ -274,36 +271,41 @@ where
 
 				match variant_substitution {
 					Some(variant_substitution) => {
-						let variant_inputs =
-							select_inputs(&variant.value.input, &variant_substitution);
-
-						let variant_graph = select_graph(
-							current_graph,
-							&variant.value.graph,
-							&variant_substitution,
-						);
-
-						let value = hydrate_with_ref(
-							vocabulary,
-							interpretation,
-							context,
-							dataset,
-							variant_graph.as_ref(),
-							&variant.value.layout,
-							&variant_inputs,
-						);
+						let value = select_inputs(&variant.value.input, &variant_substitution)
+							.and_then(|variant_inputs| {
+								let variant_graph = select_graph(
+									current_graph,
+									&variant.value.graph,
+									&variant_substitution,
+								)?;
+
+								Ok((variant_inputs, variant_graph))
+							})
+							.for_fragment(|| DataFragment::Variant {
+								layout: layout_ref.clone().cast(),
+								variant_name: variant.name.clone(),
+							})
+							.and_then(|(variant_inputs, variant_graph)| {
+								hydrate_with_ref(
+									vocabulary,
+									interpretation,
+									context,
+									dataset,
+									variant_graph.as_ref(),
+									&variant.value.layout,
+									&variant_inputs,
+								)
+							});
 
 						match value {
-							Ok(value) => {
-								match selected.take() {
-									Some((_j, _other_value)) => {
-										return Err(Error::DataAmbiguity(Box::new(
-											DataFragment::Discriminant(layout_ref.clone()),
-										)));
-									}
-									None => selected = Some((i, value)),
+							Ok(value) => match selected.take() {
+								Some((_j, _other_value)) => {
+									return Err(Error::DataAmbiguity(Box::new(
+										DataFragment::Discriminant(layout_ref.clone()),
+									)));
 								}
-							}
+								None => selected = Some((i, value)),
+							},
 							Err(e) => failures.push(Some(e)),
 						}
 					}
@@ -353,10 +355,17 @@ where
 
 				match field_substitution {
 					Some(field_substitution) => {
-						let field_inputs = select_inputs(&field.value.input, &field_substitution);
+						let fragment = || DataFragment::Key {
+							layout: layout_ref.clone().cast(),
+							key: key.clone(),
+						};
+
+						let field_inputs = select_inputs(&field.value.input, &field_substitution)
+							.for_fragment(fragment)?;
 
 						let item_graph =
-							select_graph(current_graph, &field.value.graph, &field_substitution);
+							select_graph(current_graph, &field.value.graph, &field_substitution)
+								.for_fragment(fragment)?;
 
 						let value = hydrate_with_ref(
 							vocabulary,
@@ -412,13 +421,15 @@ where
 
 					for item_substitution in matching {
 						let item_inputs =
-							select_inputs(&layout.item.value.input, &item_substitution);
+							select_inputs(&layout.item.value.input, &item_substitution)
+								.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 						let item_graph = select_graph(
 							current_graph,
 							&layout.item.value.graph,
 							&item_substitution,
-						);
+						)
+						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -449,12 +460,20 @@ where
 					.into_required_unique()
 					.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
-					let mut head = layout.head.apply(&substitution).into_resource().unwrap();
-					let tail = layout.tail.apply(&substitution).into_resource().unwrap();
+					let mut head = select_resource(&layout.head, &substitution)
+						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
+					let tail = select_resource(&layout.tail, &substitution)
+						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 					let mut items = Vec::new();
 
 					while head != tail {
+						let fragment = || DataFragment::OrderedListNode {
+							layout: layout_ref.clone().cast(),
+							head: head.clone(),
+							tail: tail.clone(),
+						};
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head.clone())); // the head
 						let rest = item_substitution.intro(1 + layout.node.intro); // the rest, and other intro variables.
@@ -469,20 +488,18 @@ where
 								.with_default_graph(current_graph),
 						)
 						.into_required_unique()
-						.for_fragment(|| DataFragment::OrderedListNode {
-							layout: layout_ref.clone().cast(),
-							head,
-							tail: tail.clone(),
-						})?;
+						.for_fragment(fragment)?;
 
 						let item_inputs =
-							select_inputs(&layout.node.value.input, &item_substitution);
+							select_inputs(&layout.node.value.input, &item_substitution)
+								.for_fragment(fragment)?;
 
 						let item_graph = select_graph(
 							current_graph,
 							&layout.node.value.graph,
 							&item_substitution,
-						);
+						)
+						.for_fragment(fragment)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -496,7 +513,8 @@ where
 
 						items.push(item);
 
-						head = item_substitution.get(rest).unwrap().clone();
+						head = select_resource(&Pattern::Var(rest), &item_substitution)
+							.for_fragment(fragment)?;
 					}
 
 					Ok(TypedValue::List(items, layout_ref.casted()))
@@ -530,9 +548,16 @@ where
 							index,
 						})?;
 
-						let item_inputs = select_inputs(&item.value.input, &item_substitution);
+						let fragment = || DataFragment::SizedListItem {
+							layout: layout_ref.clone().cast(),
+							index,
+						};
+
+						let item_inputs = select_inputs(&item.value.input, &item_substitution)
+							.for_fragment(fragment)?;
 						let item_graph =
-							select_graph(current_graph, &item.value.graph, &item_substitution);
+							select_graph(current_graph, &item.value.graph, &item_substitution)
+								.for_fragment(fragment)?;
 
 						let item = hydrate_with_ref(
 							vocabulary,
@@ -555,10 +580,23 @@ where
 	}
 }
 
-fn select_inputs<R: Clone>(inputs: &[Pattern<R>], substitution: &Substitution<R>) -> Vec<R> {
+fn select_resource<R: Clone>(
+	pattern: &Pattern<R>,
+	substitution: &Substitution<R>,
+) -> Result<R, matching::Error> {
+	pattern
+		.apply(substitution)
+		.into_resource()
+		.ok_or(matching::Error::Empty)
+}
+
+fn select_inputs<R: Clone>(
+	inputs: &[Pattern<R>],
+	substitution: &Substitution<R>,
+) -> Result<Vec<R>, matching::Error> {
 	inputs
 		.iter()
-		.map(|p| p.apply(substitution).into_resource().unwrap())
+		.map(|p| select_resource(p, substitution))
 		.collect()
 }
 
@@ -566,12 +604,10 @@ fn select_graph<R: Clone>(
 	current_graph: Option<&R>,
 	graph_pattern: &Option<Option<Pattern<R>>>,
 	substitution: &Substitution<R>,
-) -> Option<R> {
-	graph_pattern
-		.as_ref()
-		.map(|g| {
-			g.as_ref()
-				.map(|p| p.apply(substitution).into_resource().unwrap())
-		})
-		.unwrap_or_else(|| current_graph.cloned())
+) -> Result<Option<R>, matching::Error> {
+	match graph_pattern {
+		Some(Some(p)) => select_resource(p, substitution).map(Some),
+		Some(None) => Ok(None),
+		None => Ok(current_graph.cloned()),
+	}
 }
-- 
2.43.0


From db3d212b99ba3faa5dece3b6d9002f0ebb5d1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 11/69] fix: report cyclic ordered lists instead of following
 them forever

---
 layouts/src/distill/hy/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 01dff7d..419dd76 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use crate::{
 	abs::syntax::{OrderedListLayoutType, SizedListLayoutType},
@@ -466,6 +466,7 @@ where
 						.for_fragment(|| DataFragment::Discriminant(layout_ref.clone()))?;
 
 					let mut items = Vec::new();
+					let mut visited = BTreeSet::new();
 
 					while head != tail {
 						let fragment = || DataFragment::OrderedListNode {
@@ -474,6 +475,11 @@ where
 							tail: tail.clone(),
 						};
 
+						if !visited.insert(head.clone()) {
+							// cyclic list, the tail is never reached.
+							return Err(Error::MissingData(Box::new(fragment())));
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head.clone())); // the head
 						let rest = item_substitution.intro(1 + layout.node.intro); // the rest, and other intro variables.
-- 
2.43.0


From 2d97b290b7c53e224efa1d221914c51ca862b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 12/69] fix: report data without finite tree instead of
 overflowing the stack when hydrating

---
 layouts/src/distill/hy/mod.rs | 46 +++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/layouts/src/distill/hy/mod.rs b/layouts/src/distill/hy/mod.rs
index 419dd76..a9e6e9e 100644
--- a/layouts/src/distill/hy/mod.rs
+++ b/layouts/src/distill/hy/mod.rs
@@ -153,9 +153,38 @@ where
 		current_graph,
 		layout_ref,
 		inputs,
+		None,
 	)
 }
 
+/// Enclosing value being hydrated.
+#[derive(Clone, Copy)]
+struct Enclosing<'a, R> {
+	graph: Option<&'a R>,
+	layout_ref: &'a Ref<LayoutType, R>,
+	inputs: &'a [R],
+	parent: Option<&'a Enclosing<'a, R>>,
+}
+
+impl<R: PartialEq> Enclosing<'_, R> {
+	/// Checks if this value is also one of its own enclosing values, in which
+	/// case it has no finite tree representation.
+	fn is_cyclic(&self) -> bool {
+		let mut parent = self.parent;
+
+		while let Some(p) = parent {
+			if p.layout_ref == self.layout_ref && p.graph == self.graph && p.inputs == self.inputs {
+				return true;
+			}
+
+			parent = p.parent
+		}
+
+		false
+	}
+}
+
+#[allow(clippy::too_many_arguments)]
 fn hydrate_with_ref<V, I, D>(
 	vocabulary: &V,
 	interpretation: &I,
@@ -164,6 +193,7 @@ fn hydrate_with_ref<V, I, D>(
 	current_graph: Option<&I::Resource>,
 	layout_ref: &Ref<LayoutType, I::Resource>,
 	inputs: &[I::Resource],
+	parent: Option<&Enclosing<I::Resource>>,
 ) -> Result<TypedValue<I::Resource>, Error<I::Resource>>
 where
 	V: Vocabulary,
@@ -185,6 +215,17 @@ where
 		});
 	}
 
+	let enclosing = Enclosing {
+		graph: current_graph,
+		layout_ref,
+		inputs,
+		parent,
+	};
+
+	if enclosing.is_cyclic() {
+		return Err(Error::IncompatibleLayout);
+	}
+
 	match layout {
 		Layout::Never => Err(Error::IncompatibleLayout),
 		Layout::Literal(layout) => {
@@ -294,6 +335,7 @@ where
 									variant_graph.as_ref(),
 									&variant.value.layout,
 									&variant_inputs,
+									Some(&enclosing),
 								)
 							});
 
@@ -375,6 +417,7 @@ where
 							item_graph.as_ref(),
 							&field.value.layout,
 							&field_inputs,
+							Some(&enclosing),
 						)?;
 
 						record.insert(key.clone(), value);
@@ -439,6 +482,7 @@ where
 							item_graph.as_ref(),
 							&layout.item.value.layout,
 							&item_inputs,
+							Some(&enclosing),
 						)?;
 
 						items.push(item);
@@ -515,6 +559,7 @@ where
 							item_graph.as_ref(),
 							&layout.node.value.layout,
 							&item_inputs,
+							Some(&enclosing),
 						)?;
 
 						items.push(item);
@@ -573,6 +618,7 @@ where
 							item_graph.as_ref(),
 							&item.value.layout,
 							&item_inputs,
+							Some(&enclosing),
 						)?;
 
 						items.push(item)
-- 
2.43.0


From 45aea97ecd470250782bade968333bb720f13c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:46 +0000
Subject: [PATCH 13/69] fix: report unsupported datatypes as dehydration errors

---
 layouts/src/distill/de/data.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/layouts/src/distill/de/data.rs b/layouts/src/distill/de/data.rs
index 5e1a57e..1b08b09 100644
--- a/layouts/src/distill/de/data.rs
+++ b/layouts/src/distill/de/data.rs
@@ -28,7 +28,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout) // no supported datatype.
 }
 
 pub fn dehydrate_number<V, I, Q>(
@@ -54,7 +54,7 @@ where
 		}
 	}
 
-	todo!()
+	Err(Error::IncompatibleLayout) // no supported datatype.
 }
 
 pub fn dehydrate_byte_string<V, I, Q>(
@@ -67,7 +67,7 @@ where
 	V::Iri: Clone,
 	I: ReverseIriInterpretation<Iri = V::Iri>,
 {
-	todo!()
+	Err(Error::IncompatibleLayout) // no supported datatype.
 }
 
 pub fn dehydrate_text_string<V, I, Q>(
@@ -85,6 +85,6 @@ where
 			value.to_owned(),
 			LiteralType::Any(i.clone()),
 		)),
-		None => todo!(),
+		None => Err(Error::IncompatibleLayout), // no datatype IRI.
 	}
 }
-- 
2.43.0


From 884c1bfb5b27c0b82620a4e7966dca0c5f181d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:48 +0000
Subject: [PATCH 14/69] fix: write statements without explicit graph in the
 current graph when dehydrating

---
 layouts/src/distill/de/mod.rs | 40 ++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index 77fcf55..be2cf74 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -576,7 +576,7 @@ where
 			if *value == layout.const_ =>
 		{
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 			Ok(())
 		}
 		Layout::Literal(layout) => match value {
@@ -584,7 +584,7 @@ where
 				LiteralLayout::Data(layout) => match (layout, value) {
 					(DataLayout::Boolean(layout), Literal::Boolean(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -598,7 +598,7 @@ where
 					}
 					(DataLayout::Number(layout), Literal::Number(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal =
@@ -612,7 +612,7 @@ where
 					}
 					(DataLayout::ByteString(layout), Literal::ByteString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_byte_string(
@@ -629,7 +629,7 @@ where
 					}
 					(DataLayout::TextString(layout), Literal::TextString(value)) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						let literal = data::dehydrate_text_string(
@@ -649,7 +649,7 @@ where
 				LiteralLayout::Id(layout) => match value {
 					Literal::TextString(value) => {
 						let env = env.intro(rdf, layout.intro);
-						env.instantiate_dataset(&layout.dataset, output)?;
+						env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 						let resource = env.instantiate_pattern(&layout.resource)?;
 
 						match IriBuf::new(value.to_owned()) {
@@ -668,14 +668,14 @@ where
 		},
 		Layout::Sum(layout) => {
 			let env = env.intro(rdf, layout.intro);
-			env.instantiate_dataset(&layout.dataset, output)?;
+			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 			let mut selection = None;
 			for variant in &layout.variants {
 				let mut variant_dataset = BTreeDataset::new();
 
 				let env = env.intro(rdf, variant.intro);
-				env.instantiate_dataset(&variant.dataset, &mut variant_dataset)?;
+				env.instantiate_dataset(&variant.dataset, current_graph, &mut variant_dataset)?;
 
 				if dehydrate_sub_value(
 					rdf,
@@ -706,13 +706,13 @@ where
 		Layout::Product(layout) => match value {
 			Value::Map(value) => {
 				let env = env.intro(rdf, layout.intro);
-				env.instantiate_dataset(&layout.dataset, output)?;
+				env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 				for (key, value) in value {
 					match layout.fields.get(key) {
 						Some(field) => {
 							let env = env.intro(rdf, field.intro);
-							env.instantiate_dataset(&field.dataset, output)?;
+							env.instantiate_dataset(&field.dataset, current_graph, output)?;
 							dehydrate_sub_value(
 								rdf,
 								layouts,
@@ -745,11 +745,11 @@ where
 			Value::List(value) => match layout {
 				ListLayout::Unordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					for item in value {
 						let env = env.intro(rdf, layout.item.intro);
-						env.instantiate_dataset(&layout.item.dataset, output)?;
+						env.instantiate_dataset(&layout.item.dataset, current_graph, output)?;
 						dehydrate_sub_value(
 							rdf,
 							layouts,
@@ -765,7 +765,7 @@ where
 				}
 				ListLayout::Ordered(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
@@ -778,7 +778,7 @@ where
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, layout.node.intro);
-						env.instantiate_dataset(&layout.node.dataset, output)?;
+						env.instantiate_dataset(&layout.node.dataset, current_graph, output)?;
 
 						let item = &value[i];
 						dehydrate_sub_value(
@@ -798,7 +798,7 @@ where
 				}
 				ListLayout::Sized(layout) => {
 					let env = env.intro(rdf, layout.intro);
-					env.instantiate_dataset(&layout.dataset, output)?;
+					env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
 					let mut items = value.iter();
 					let mut item_layouts = layout.items.iter();
@@ -807,7 +807,11 @@ where
 						match (items.next(), item_layouts.next()) {
 							(Some(item), Some(item_layout)) => {
 								let env = env.intro(rdf, item_layout.intro);
-								env.instantiate_dataset(&item_layout.dataset, output)?;
+								env.instantiate_dataset(
+									&item_layout.dataset,
+									current_graph,
+									output,
+								)?;
 								dehydrate_sub_value(
 									rdf,
 									layouts,
@@ -955,6 +959,7 @@ impl<R: Clone> Environment<'_, R> {
 	pub fn instantiate_dataset<Q, D>(
 		&self,
 		input: &BTreeDataset<Pattern<Q>>,
+		current_graph: Option<&R>,
 		output: &mut D,
 	) -> Result<(), Error<Q>>
 	where
@@ -962,7 +967,8 @@ impl<R: Clone> Environment<'_, R> {
 		D: TraversableDataset<Resource = R> + DatasetMut,
 	{
 		for quad in input.quads() {
-			output.insert(self.instantiate_quad(quad)?);
+			let Quad(s, p, o, g) = self.instantiate_quad(quad)?;
+			output.insert(Quad(s, p, o, g.or_else(|| current_graph.cloned())));
 		}
 
 		Ok(())
-- 
2.43.0


From f996d91d40242b51214b78ce1eb4ca4f7e737997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:50 +0000
Subject: [PATCH 15/69] fix: tie the head of an empty ordered list to its tail
 when dehydrating

---
 layouts/src/distill/de/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index be2cf74..c873014 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -769,6 +769,23 @@ where
 
 					let mut head = env.instantiate_pattern(&layout.head)?;
 
+					if value.is_empty() {
+						// The head and the tail are the same resource.
+						let tail = env.instantiate_pattern(&layout.tail)?;
+
+						if head != tail {
+							let iris: Vec<_> = rdf.interpretation.iris_of(&tail).cloned().collect();
+
+							if iris.is_empty() {
+								return Err(Error::IncompatibleLayout);
+							}
+
+							for i in iris {
+								rdf.interpretation.assign_iri(&head, i);
+							}
+						}
+					}
+
 					for i in 0..value.len() {
 						let rest = if i == value.len() - 1 {
 							env.instantiate_pattern(&layout.tail)?
-- 
2.43.0


From db1088bce84cefe2ad6c935cdeb174b6cce78bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 16/69] fix: discard the statements and terms of rejected sum
 variants when dehydrating

---
 layouts/src/distill/de/mod.rs | 77 +++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index c873014..e2e4222 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -527,6 +527,8 @@ where
 	Q: Clone + Ord + Into<I::Resource>,
 	D: TraversableDataset<Resource = I::Resource> + DatasetMut,
 {
+	let mut terms = Vec::new();
+
 	dehydrate_with_ref(
 		rdf,
 		&layouts,
@@ -535,9 +537,26 @@ where
 		layout_ref,
 		inputs,
 		output,
-	)
+		&mut terms,
+	)?;
+
+	for (resource, term) in terms {
+		match term {
+			ResourceTerm::Iri(iri) => rdf.interpretation.assign_iri(&resource, iri),
+			ResourceTerm::Literal(literal) => rdf.interpretation.assign_literal(&resource, literal),
+		};
+	}
+
+	Ok(())
+}
+
+/// Term to assign to a resource once the dehydration succeeds.
+enum ResourceTerm<V: VocabularyMut> {
+	Iri(V::Iri),
+	Literal(V::Literal),
 }
 
+#[allow(clippy::too_many_arguments)]
 fn dehydrate_with_ref<V, I, Q, D>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -546,6 +565,7 @@ fn dehydrate_with_ref<V, I, Q, D>(
 	layout_ref: &Ref<LayoutType, Q>,
 	inputs: &[I::Resource],
 	output: &mut D,
+	terms: &mut Vec<(I::Resource, ResourceTerm<V>)>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -589,10 +609,10 @@ where
 
 						let literal =
 							data::dehydrate_boolean(rdf, *value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						terms.push((
+							resource,
+							ResourceTerm::Literal(rdf.vocabulary.insert_owned_literal(literal)),
+						));
 
 						Ok(())
 					}
@@ -603,10 +623,10 @@ where
 
 						let literal =
 							data::dehydrate_number(rdf, value, &layout.datatype.clone().into())?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						terms.push((
+							resource,
+							ResourceTerm::Literal(rdf.vocabulary.insert_owned_literal(literal)),
+						));
 
 						Ok(())
 					}
@@ -620,10 +640,10 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						terms.push((
+							resource,
+							ResourceTerm::Literal(rdf.vocabulary.insert_owned_literal(literal)),
+						));
 
 						Ok(())
 					}
@@ -637,10 +657,10 @@ where
 							value,
 							&layout.datatype.clone().into(),
 						)?;
-						rdf.interpretation.assign_literal(
-							&resource,
-							rdf.vocabulary.insert_owned_literal(literal),
-						);
+						terms.push((
+							resource,
+							ResourceTerm::Literal(rdf.vocabulary.insert_owned_literal(literal)),
+						));
 
 						Ok(())
 					}
@@ -655,7 +675,7 @@ where
 						match IriBuf::new(value.to_owned()) {
 							Ok(iri) => {
 								let i = rdf.vocabulary.insert_owned(iri);
-								rdf.interpretation.assign_iri(&resource, i);
+								terms.push((resource, ResourceTerm::Iri(i)));
 								Ok(())
 							}
 							Err(_) => Err(Error::IncompatibleLayout), // not an IRI
@@ -673,6 +693,7 @@ where
 			let mut selection = None;
 			for variant in &layout.variants {
 				let mut variant_dataset = BTreeDataset::new();
+				let mut variant_terms = Vec::new();
 
 				let env = env.intro(rdf, variant.intro);
 				env.instantiate_dataset(&variant.dataset, current_graph, &mut variant_dataset)?;
@@ -684,20 +705,25 @@ where
 					current_graph,
 					&variant.value,
 					&env,
-					output,
+					&mut variant_dataset,
+					&mut variant_terms,
 				)
-				.is_ok() && selection.replace(variant_dataset).is_some()
+				.is_ok() && selection
+					.replace((variant_dataset, variant_terms))
+					.is_some()
 				{
 					return Err(Error::DataAmbiguity);
 				}
 			}
 
 			match selection {
-				Some(variant_dataset) => {
+				Some((variant_dataset, variant_terms)) => {
 					for quad in variant_dataset {
 						output.insert(quad);
 					}
 
+					terms.extend(variant_terms);
+
 					Ok(())
 				}
 				None => Err(Error::IncompatibleLayout),
@@ -721,6 +747,7 @@ where
 								&field.value,
 								&env,
 								output,
+								terms,
 							)?;
 						}
 						None => return Err(Error::IncompatibleLayout),
@@ -758,6 +785,7 @@ where
 							&layout.item.value,
 							&env,
 							output,
+							terms,
 						)?;
 					}
 
@@ -781,7 +809,7 @@ where
 							}
 
 							for i in iris {
-								rdf.interpretation.assign_iri(&head, i);
+								terms.push((head.clone(), ResourceTerm::Iri(i)));
 							}
 						}
 					}
@@ -806,6 +834,7 @@ where
 							&layout.node.value,
 							&env,
 							output,
+							terms,
 						)?;
 
 						head = rest;
@@ -837,6 +866,7 @@ where
 									&item_layout.value,
 									&env,
 									output,
+									terms,
 								)?;
 							}
 							(None, None) => break,
@@ -853,6 +883,7 @@ where
 	}
 }
 
+#[allow(clippy::too_many_arguments)]
 fn dehydrate_sub_value<V, I, Q, D>(
 	rdf: &mut RdfContextMut<V, I>,
 	layouts: &impl LayoutRegistry<Q>,
@@ -861,6 +892,7 @@ fn dehydrate_sub_value<V, I, Q, D>(
 	format: &ValueFormat<Q>,
 	env: &Environment<I::Resource>,
 	output: &mut D,
+	terms: &mut Vec<(I::Resource, ResourceTerm<V>)>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -887,6 +919,7 @@ where
 		&format.layout,
 		&inputs,
 		output,
+		terms,
 	)
 }
 
-- 
2.43.0


From 588954e321859b6c077d936dcf805d1028ccb48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:07 +0000
Subject: [PATCH 17/69] fix: reject sum layouts recursing on the same value
 instead of overflowing the stack when dehydrating

---
 layouts/src/distill/de/mod.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/layouts/src/distill/de/mod.rs b/layouts/src/distill/de/mod.rs
index e2e4222..4c86af9 100644
--- a/layouts/src/distill/de/mod.rs
+++ b/layouts/src/distill/de/mod.rs
@@ -538,6 +538,7 @@ where
 		inputs,
 		output,
 		&mut terms,
+		None,
 	)?;
 
 	for (resource, term) in terms {
@@ -556,6 +557,18 @@ enum ResourceTerm<V: VocabularyMut> {
 	Literal(V::Literal),
 }
 
+/// Sum layout whose variants are being tried on the current value.
+struct EnclosingSum<'a, Q> {
+	layout_ref: &'a Ref<LayoutType, Q>,
+	parent: Option<&'a EnclosingSum<'a, Q>>,
+}
+
+impl<Q: PartialEq> EnclosingSum<'_, Q> {
+	fn contains(&self, layout_ref: &Ref<LayoutType, Q>) -> bool {
+		self.layout_ref == layout_ref || self.parent.is_some_and(|p| p.contains(layout_ref))
+	}
+}
+
 #[allow(clippy::too_many_arguments)]
 fn dehydrate_with_ref<V, I, Q, D>(
 	rdf: &mut RdfContextMut<V, I>,
@@ -566,6 +579,7 @@ fn dehydrate_with_ref<V, I, Q, D>(
 	inputs: &[I::Resource],
 	output: &mut D,
 	terms: &mut Vec<(I::Resource, ResourceTerm<V>)>,
+	parent: Option<&EnclosingSum<Q>>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -687,6 +701,13 @@ where
 			_ => Err(Error::IncompatibleLayout),
 		},
 		Layout::Sum(layout) => {
+			if parent.is_some_and(|p| p.contains(layout_ref)) {
+				// The sum is defined in terms of itself for this same value.
+				return Err(Error::IncompatibleLayout);
+			}
+
+			let enclosing = EnclosingSum { layout_ref, parent };
+
 			let env = env.intro(rdf, layout.intro);
 			env.instantiate_dataset(&layout.dataset, current_graph, output)?;
 
@@ -707,6 +728,7 @@ where
 					&env,
 					&mut variant_dataset,
 					&mut variant_terms,
+					Some(&enclosing),
 				)
 				.is_ok() && selection
 					.replace((variant_dataset, variant_terms))
@@ -748,6 +770,7 @@ where
 								&env,
 								output,
 								terms,
+								None,
 							)?;
 						}
 						None => return Err(Error::IncompatibleLayout),
@@ -786,6 +809,7 @@ where
 							&env,
 							output,
 							terms,
+							None,
 						)?;
 					}
 
@@ -835,6 +859,7 @@ where
 							&env,
 							output,
 							terms,
+							None,
 						)?;
 
 						head = rest;
@@ -867,6 +892,7 @@ where
 									&env,
 									output,
 									terms,
+									None,
 								)?;
 							}
 							(None, None) => break,
@@ -893,6 +919,7 @@ fn dehydrate_sub_value<V, I, Q, D>(
 	env: &Environment<I::Resource>,
 	output: &mut D,
 	terms: &mut Vec<(I::Resource, ResourceTerm<V>)>,
+	parent: Option<&EnclosingSum<Q>>,
 ) -> Result<(), Error<Q>>
 where
 	V: VocabularyMut,
@@ -920,6 +947,7 @@ where
 		&inputs,
 		output,
 		terms,
+		parent,
 	)
 }
 
-- 
2.43.0


From 45b448ae3bdb25d316994792a1e7fdae119c3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:02 +0000
Subject: [PATCH 18/69] fix: read the language of literal patterns and the
 default literal type in layout definitions

---
 layouts/src/abs/syntax/pattern/literal.rs | 67 +++++++++++++++++++----
 1 file changed, 55 insertions(+), 12 deletions(-)

diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index b7e967f..3ad5ed5 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -1,14 +1,13 @@
 use iref::IriBuf;
 use langtag::LangTagBuf;
 use rdf_types::XSD_STRING;
+use serde::Deserialize;
 
 use crate::abs::syntax::{get_entry, require_entry, BuildError, Error, ObjectUnusedEntries, Scope};
 
 use super::CompactIri;
 
-#[derive(
-	Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize,
-)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize)]
 pub struct LiteralValue {
 	pub value: String,
 
@@ -24,16 +23,15 @@ impl LiteralValue {
 	) -> Result<Self, Error> {
 		let mut unused_entries = ObjectUnusedEntries::new(object, code_map, offset);
 		let type_ = match get_entry(object, "type", &mut unused_entries, code_map, offset)? {
-			Some(ty) => {
-				// TODO check if language is present.
-				LiteralType::Iri(LiteralTypeIri { type_: ty })
-			}
+			// In this case, the `language` entry is left unused and reported.
+			Some(ty) => LiteralType::Iri(LiteralTypeIri { type_: ty }),
 			None => {
-				let language: String =
-					require_entry(object, "language", &mut unused_entries, code_map, offset)?;
-				match LangTagBuf::new(language) {
-					Ok(language) => LiteralType::Language(LiteralTypeLanguage { language }),
-					Err(e) => return Err(Error::InvalidLangTag(offset, e.0)),
+				let language: Option<String> =
+					get_entry(object, "language", &mut unused_entries, code_map, offset)?;
+				match language.map(LangTagBuf::new) {
+					Some(Ok(language)) => LiteralType::Language(LiteralTypeLanguage { language }),
+					Some(Err(e)) => return Err(Error::InvalidLangTag(offset, e.0)),
+					None => LiteralType::default(),
 				}
 			}
 		};
@@ -45,6 +43,51 @@ impl LiteralValue {
 	}
 }
 
+impl<'de> serde::Deserialize<'de> for LiteralValue {
+	fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+	where
+		D: serde::Deserializer<'de>,
+	{
+		use serde::de::Error;
+
+		#[derive(Deserialize)]
+		#[serde(deny_unknown_fields)]
+		struct Entries {
+			value: String,
+
+			#[serde(default, deserialize_with = "some")]
+			r#type: Option<CompactIri>,
+
+			#[serde(default, deserialize_with = "some")]
+			language: Option<LangTagBuf>,
+		}
+
+		/// Rejects `null`.
+		fn some<'de, T: Deserialize<'de>, D: serde::Deserializer<'de>>(
+			deserializer: D,
+		) -> Result<Option<T>, D::Error> {
+			T::deserialize(deserializer).map(Some)
+		}
+
+		let entries = Entries::deserialize(deserializer)?;
+		let type_ = match (entries.r#type, entries.language) {
+			(Some(type_), None) => LiteralType::Iri(LiteralTypeIri { type_ }),
+			(None, Some(language)) => LiteralType::Language(LiteralTypeLanguage { language }),
+			(None, None) => LiteralType::default(),
+			(Some(_), Some(_)) => {
+				return Err(D::Error::custom(
+					"literal value cannot have both a `type` and a `language`",
+				))
+			}
+		};
+
+		Ok(Self {
+			value: entries.value,
+			type_,
+		})
+	}
+}
+
 impl From<rdf_types::Literal> for LiteralValue {
 	fn from(value: rdf_types::Literal) -> Self {
 		Self {
-- 
2.43.0


From d5f4e8857ba3713bf2d561c38af0c28ab4a940a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 19/69] fix: accept boolean layouts in layout references read
 from JSON values

---
 layouts/src/abs/syntax/layout/list.rs | 3 ++-
 layouts/src/abs/syntax/layout/mod.rs  | 9 ++++++++-
 layouts/src/abs/syntax/layout/sum.rs  | 3 ++-
 layouts/src/abs/syntax/mod.rs         | 3 ++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/list.rs b/layouts/src/abs/syntax/layout/list.rs
index b8f727f..ec69273 100644
--- a/layouts/src/abs/syntax/layout/list.rs
+++ b/layouts/src/abs/syntax/layout/list.rs
@@ -161,6 +161,7 @@ impl TryFromJson for ListNodeOrLayout {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(value) => Ok(Self::Layout((*value).into())),
 			json_syntax::Value::String(value) => {
 				LayoutRef::try_from_json_string_at(value, offset).map(Self::Layout)
 			}
@@ -175,7 +176,7 @@ impl TryFromJson for ListNodeOrLayout {
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index 8908a05..8b53dab 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -305,13 +305,14 @@ impl TryFromJson for LayoutRef {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(value) => Ok((*value).into()),
 			json_syntax::Value::String(value) => Self::try_from_json_string_at(value, offset),
 			json_syntax::Value::Object(value) => {
 				Self::try_from_json_object_at(value, code_map, offset)
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
@@ -333,6 +334,12 @@ where
 	}
 }
 
+impl From<bool> for LayoutRef {
+	fn from(value: bool) -> Self {
+		Self::Layout(Box::new(Layout::Boolean(value)))
+	}
+}
+
 impl From<IriBuf> for LayoutRef {
 	fn from(value: IriBuf) -> Self {
 		Self::Ref(value.into())
diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index a24085a..eaea3d1 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -164,6 +164,7 @@ impl TryFromJson for VariantFormatOrLayout {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(value) => Ok(Self::Layout((*value).into())),
 			json_syntax::Value::String(value) => {
 				LayoutRef::try_from_json_string_at(value, offset).map(Self::Layout)
 			}
@@ -176,7 +177,7 @@ impl TryFromJson for VariantFormatOrLayout {
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 8a92e29..5181df8 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -458,6 +458,7 @@ impl TryFromJson for ValueFormatOrLayout {
 		offset: usize,
 	) -> Result<Self, Self::Error> {
 		match json {
+			json_syntax::Value::Boolean(value) => Ok(Self::Layout((*value).into())),
 			json_syntax::Value::String(value) => {
 				LayoutRef::try_from_json_string_at(value, offset).map(Self::Layout)
 			}
@@ -470,7 +471,7 @@ impl TryFromJson for ValueFormatOrLayout {
 			}
 			other => Err(Error::Unexpected {
 				offset,
-				expected: Kind::String | Kind::Object,
+				expected: Kind::Boolean | Kind::String | Kind::Object,
 				found: other.kind(),
 			}),
 		}
-- 
2.43.0


From ae8620ed649d42b8b9f13b6eaaa1202c7143862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 20/69] fix: distinguish the explicit default graph from the
 inherited one in layout definitions

---
 layouts/src/abs/syntax/layout/sum.rs      |  9 ++++++---
 layouts/src/abs/syntax/mod.rs             | 20 +++++++++++++++++---
 layouts/src/abs/syntax/pattern/literal.rs | 15 +++++----------
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index eaea3d1..57c6217 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -210,7 +210,11 @@ pub struct VariantFormat {
 	#[serde(default, skip_serializing_if = "VariantInput::is_default")]
 	pub input: VariantInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "crate::abs::syntax::deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
@@ -240,8 +244,7 @@ impl TryFromJsonObject for VariantFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 		unused_entries.check()?;
 		Ok(result)
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 5181df8..ded96be 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -376,6 +376,17 @@ pub(crate) fn check_type(
 	}
 }
 
+/// Deserializes an entry that is present, even if its value is `null`.
+///
+/// Used to distinguish an explicit `null` from a missing entry.
+pub(crate) fn deserialize_some<'de, T, D>(deserializer: D) -> Result<Option<T>, D::Error>
+where
+	T: Deserialize<'de>,
+	D: serde::Deserializer<'de>,
+{
+	T::deserialize(deserializer).map(Some)
+}
+
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
 #[serde(untagged)]
 pub enum OneOrMany<T> {
@@ -504,7 +515,11 @@ pub struct ValueFormat {
 	#[serde(default, skip_serializing_if = "ValueInput::is_default")]
 	pub input: ValueInput,
 
-	#[serde(default, skip_serializing_if = "Option::is_none")]
+	#[serde(
+		default,
+		deserialize_with = "deserialize_some",
+		skip_serializing_if = "Option::is_none"
+	)]
 	pub graph: Option<Option<Pattern>>,
 }
 
@@ -521,8 +536,7 @@ impl TryFromJsonObject for ValueFormat {
 			layout: require_entry(object, "layout", &mut unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?
-				.unwrap_or_default(),
+			graph: get_entry(object, "graph", &mut unused_entries, code_map, offset)?,
 		};
 
 		unused_entries.check()?;
diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index 3ad5ed5..9fce143 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -3,7 +3,9 @@ use langtag::LangTagBuf;
 use rdf_types::XSD_STRING;
 use serde::Deserialize;
 
-use crate::abs::syntax::{get_entry, require_entry, BuildError, Error, ObjectUnusedEntries, Scope};
+use crate::abs::syntax::{
+	deserialize_some, get_entry, require_entry, BuildError, Error, ObjectUnusedEntries, Scope,
+};
 
 use super::CompactIri;
 
@@ -55,20 +57,13 @@ impl<'de> serde::Deserialize<'de> for LiteralValue {
 		struct Entries {
 			value: String,
 
-			#[serde(default, deserialize_with = "some")]
+			#[serde(default, deserialize_with = "deserialize_some")]
 			r#type: Option<CompactIri>,
 
-			#[serde(default, deserialize_with = "some")]
+			#[serde(default, deserialize_with = "deserialize_some")]
 			language: Option<LangTagBuf>,
 		}
 
-		/// Rejects `null`.
-		fn some<'de, T: Deserialize<'de>, D: serde::Deserializer<'de>>(
-			deserializer: D,
-		) -> Result<Option<T>, D::Error> {
-			T::deserialize(deserializer).map(Some)
-		}
-
 		let entries = Entries::deserialize(deserializer)?;
 		let type_ = match (entries.r#type, entries.language) {
 			(Some(type_), None) => LiteralType::Iri(LiteralTypeIri { type_ }),
-- 
2.43.0


From da5a709d0d4cbff883ada2d94363604c963a7336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:10 +0000
Subject: [PATCH 21/69] fix: do not read arrays of strings as literal values in
 layout definitions

---
 layouts/src/abs/syntax/mod.rs             | 23 +++++++++++++++++++++++
 layouts/src/abs/syntax/pattern/literal.rs |  5 +++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index ded96be..f60cbcd 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -387,6 +387,29 @@ where
 	T::deserialize(deserializer).map(Some)
 }
 
+/// Deserializer accepting objects only.
+///
+/// Derived structure implementations also accept arrays by default, which must
+/// not be confused with their object form.
+pub(crate) struct ObjectDeserializer<D>(pub D);
+
+impl<'de, D: serde::Deserializer<'de>> serde::Deserializer<'de> for ObjectDeserializer<D> {
+	type Error = D::Error;
+
+	fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+	where
+		V: serde::de::Visitor<'de>,
+	{
+		self.0.deserialize_map(visitor)
+	}
+
+	serde::forward_to_deserialize_any! {
+		bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
+		bytes byte_buf option unit unit_struct newtype_struct seq tuple
+		tuple_struct map struct enum identifier ignored_any
+	}
+}
+
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
 #[serde(untagged)]
 pub enum OneOrMany<T> {
diff --git a/layouts/src/abs/syntax/pattern/literal.rs b/layouts/src/abs/syntax/pattern/literal.rs
index 9fce143..4f39f2d 100644
--- a/layouts/src/abs/syntax/pattern/literal.rs
+++ b/layouts/src/abs/syntax/pattern/literal.rs
@@ -4,7 +4,8 @@ use rdf_types::XSD_STRING;
 use serde::Deserialize;
 
 use crate::abs::syntax::{
-	deserialize_some, get_entry, require_entry, BuildError, Error, ObjectUnusedEntries, Scope,
+	deserialize_some, get_entry, require_entry, BuildError, Error, ObjectDeserializer,
+	ObjectUnusedEntries, Scope,
 };
 
 use super::CompactIri;
@@ -64,7 +65,7 @@ impl<'de> serde::Deserialize<'de> for LiteralValue {
 			language: Option<LangTagBuf>,
 		}
 
-		let entries = Entries::deserialize(deserializer)?;
+		let entries = Entries::deserialize(ObjectDeserializer(deserializer))?;
 		let type_ = match (entries.r#type, entries.language) {
 			(Some(type_), None) => LiteralType::Iri(LiteralTypeIri { type_ }),
 			(None, Some(language)) => LiteralType::Language(LiteralTypeLanguage { language }),
-- 
2.43.0


From 6b9ede49e6547225a910c4787aa39e369a10ffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:57 +0000
Subject: [PATCH 22/69] fix: read absent optional entries written as null in
 layout definitions

---
 layouts/src/abs/syntax/dataset.rs        |  5 ++--
 layouts/src/abs/syntax/layout/list.rs    | 16 +++++++----
 layouts/src/abs/syntax/layout/literal.rs | 35 ++++++++++++++++--------
 layouts/src/abs/syntax/layout/mod.rs     | 10 +++----
 layouts/src/abs/syntax/layout/product.rs | 13 +++++++--
 layouts/src/abs/syntax/mod.rs            | 15 ++++++++++
 6 files changed, 68 insertions(+), 26 deletions(-)

diff --git a/layouts/src/abs/syntax/dataset.rs b/layouts/src/abs/syntax/dataset.rs
index 8a2fdb6..bc4e1a3 100644
--- a/layouts/src/abs/syntax/dataset.rs
+++ b/layouts/src/abs/syntax/dataset.rs
@@ -82,8 +82,9 @@ impl TryFromJson for Quad {
 		component_offset += code_map.get(component_offset).unwrap().volume;
 		let g = array
 			.get(3)
-			.map(|g| Pattern::try_from_json_at(g, code_map, component_offset))
-			.transpose()?;
+			.map(|g| Option::<Pattern>::try_from_json_at(g, code_map, component_offset))
+			.transpose()?
+			.flatten();
 
 		Ok(Self(s, p, o, g))
 	}
diff --git a/layouts/src/abs/syntax/layout/list.rs b/layouts/src/abs/syntax/layout/list.rs
index ec69273..6564a34 100644
--- a/layouts/src/abs/syntax/layout/list.rs
+++ b/layouts/src/abs/syntax/layout/list.rs
@@ -5,9 +5,9 @@ use serde::{Deserialize, Serialize};
 use crate::abs::{
 	self,
 	syntax::{
-		check_type, expect_object, get_entry, require_entry, require_type, Build, BuildError,
-		CompactIri, Context, Dataset, Error, ExpectedType, ObjectUnusedEntries, Pattern, Scope,
-		ValueFormatOrLayout, ValueIntro,
+		check_type, expect_object, get_entry, get_optional_entry, require_entry, require_type,
+		Build, BuildError, CompactIri, Context, Dataset, Error, ExpectedType, ObjectUnusedEntries,
+		Pattern, Scope, ValueFormatOrLayout, ValueIntro,
 	},
 };
 
@@ -295,7 +295,7 @@ impl TryFromJsonObject for ListNode {
 			intro: get_entry(object, "intro", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
 			value: require_entry(object, "value", &mut unused_entries, code_map, offset)?,
-			dataset: get_entry(object, "dataset", &mut unused_entries, code_map, offset)?,
+			dataset: get_optional_entry(object, "dataset", &mut unused_entries, code_map, offset)?,
 		};
 		unused_entries.check()?;
 		Ok(result)
@@ -446,7 +446,13 @@ impl TryFromJsonObject for ListItem {
 			value: require_entry(object, "value", &mut unused_entries, code_map, offset)?,
 			dataset: get_entry(object, "dataset", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			property: get_entry(object, "property", &mut unused_entries, code_map, offset)?,
+			property: get_optional_entry(
+				object,
+				"property",
+				&mut unused_entries,
+				code_map,
+				offset,
+			)?,
 		};
 		unused_entries.check()?;
 		Ok(result)
diff --git a/layouts/src/abs/syntax/layout/literal.rs b/layouts/src/abs/syntax/layout/literal.rs
index 4d053d5..34d9d29 100644
--- a/layouts/src/abs/syntax/layout/literal.rs
+++ b/layouts/src/abs/syntax/layout/literal.rs
@@ -5,8 +5,9 @@ use crate::{
 	abs::{
 		self,
 		syntax::{
-			check_type, expect_object, get_entry, require_entry, require_type, Build, BuildError,
-			CompactIri, Context, Error, ExpectedType, ObjectUnusedEntries, Pattern, Scope,
+			check_type, expect_object, get_entry, get_optional_entry, require_entry, require_type,
+			Build, BuildError, CompactIri, Context, Error, ExpectedType, ObjectUnusedEntries,
+			Pattern, Scope,
 		},
 		RegExp,
 	},
@@ -253,6 +254,7 @@ pub struct BooleanLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "Option::is_none")]
@@ -325,8 +327,10 @@ impl TryFromJsonObject for BooleanLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
-		let datatype = get_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_optional_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let datatype =
+			get_optional_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
 		unused_entries.check()?;
 		Ok(Self {
 			type_: BooleanLayoutType,
@@ -346,6 +350,7 @@ pub struct NumberLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -394,7 +399,8 @@ impl TryFromJsonObject for NumberLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_optional_entry(object, "resource", &mut unused_entries, code_map, offset)?;
 		let datatype = require_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
 		unused_entries.check()?;
 		Ok(Self {
@@ -415,6 +421,7 @@ pub struct ByteStringLayout {
 	#[serde(flatten)]
 	pub header: LayoutHeader,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	pub datatype: CompactIri,
@@ -463,7 +470,8 @@ impl TryFromJsonObject for ByteStringLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_optional_entry(object, "resource", &mut unused_entries, code_map, offset)?;
 		let datatype = require_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
 		unused_entries.check()?;
 		Ok(Self {
@@ -487,6 +495,7 @@ pub struct TextStringLayout {
 	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub pattern: Option<RegExp>,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 
 	#[serde(default, skip_serializing_if = "Option::is_none")]
@@ -511,9 +520,11 @@ impl TryFromJsonObject for TextStringLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let pattern = get_entry(object, "pattern", &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
-		let datatype = get_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
+		let pattern = get_optional_entry(object, "pattern", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_optional_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let datatype =
+			get_optional_entry(object, "datatype", &mut unused_entries, code_map, offset)?;
 		unused_entries.check()?;
 		Ok(Self {
 			type_: TextStringLayoutType,
@@ -568,6 +579,7 @@ pub struct IdLayout {
 	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub pattern: Option<RegExp>,
 
+	#[serde(default, skip_serializing_if = "Option::is_none")]
 	pub resource: Option<Pattern>,
 }
 
@@ -589,8 +601,9 @@ impl TryFromJsonObject for IdLayout {
 		)?;
 		let header =
 			LayoutHeader::try_from_json_object_at(object, &mut unused_entries, code_map, offset)?;
-		let pattern = get_entry(object, "pattern", &mut unused_entries, code_map, offset)?;
-		let resource = get_entry(object, "resource", &mut unused_entries, code_map, offset)?;
+		let pattern = get_optional_entry(object, "pattern", &mut unused_entries, code_map, offset)?;
+		let resource =
+			get_optional_entry(object, "resource", &mut unused_entries, code_map, offset)?;
 		unused_entries.check()?;
 		Ok(Self {
 			type_: IdLayoutType,
diff --git a/layouts/src/abs/syntax/layout/mod.rs b/layouts/src/abs/syntax/layout/mod.rs
index 8b53dab..4e4adeb 100644
--- a/layouts/src/abs/syntax/layout/mod.rs
+++ b/layouts/src/abs/syntax/layout/mod.rs
@@ -30,9 +30,9 @@ use crate::{
 };
 
 use super::{
-	get_entry, require_type, Build, BuildError, CompactIri, Context, Dataset, Error, ExpectedType,
-	InvalidCompactIri, ObjectUnusedEntries, OneOrMany, Pattern, Resource, Scope, ValueFormat,
-	VariableName,
+	get_entry, get_optional_entry, require_type, Build, BuildError, CompactIri, Context, Dataset,
+	Error, ExpectedType, InvalidCompactIri, ObjectUnusedEntries, OneOrMany, Pattern, Resource,
+	Scope, ValueFormat, VariableName,
 };
 
 /// Abstract syntax layout.
@@ -426,10 +426,10 @@ impl LayoutHeader {
 		offset: usize,
 	) -> Result<Self, Error> {
 		Ok(Self {
-			base: get_entry(object, "base", unused_entries, code_map, offset)?,
+			base: get_optional_entry(object, "base", unused_entries, code_map, offset)?,
 			prefixes: get_entry(object, "prefixes", unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			id: get_entry(object, "id", unused_entries, code_map, offset)?,
+			id: get_optional_entry(object, "id", unused_entries, code_map, offset)?,
 			input: get_entry(object, "input", unused_entries, code_map, offset)?
 				.unwrap_or_default(),
 			intro: get_entry(object, "intro", unused_entries, code_map, offset)?
diff --git a/layouts/src/abs/syntax/layout/product.rs b/layouts/src/abs/syntax/layout/product.rs
index bcba6c2..033d7bb 100644
--- a/layouts/src/abs/syntax/layout/product.rs
+++ b/layouts/src/abs/syntax/layout/product.rs
@@ -7,8 +7,9 @@ use crate::{
 	abs::{
 		self,
 		syntax::{
-			check_type, expect_object, get_entry, require_entry, Build, BuildError, Context,
-			Dataset, Error, ObjectUnusedEntries, Pattern, Scope, ValueFormatOrLayout, ValueIntro,
+			check_type, expect_object, get_entry, get_optional_entry, require_entry, Build,
+			BuildError, Context, Dataset, Error, ObjectUnusedEntries, Pattern, Scope,
+			ValueFormatOrLayout, ValueIntro,
 		},
 	},
 	Value,
@@ -178,7 +179,13 @@ impl TryFromJsonObject for Field {
 			value: require_entry(object, "value", &mut unused_entries, code_map, offset)?,
 			dataset: get_entry(object, "dataset", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
-			property: get_entry(object, "property", &mut unused_entries, code_map, offset)?,
+			property: get_optional_entry(
+				object,
+				"property",
+				&mut unused_entries,
+				code_map,
+				offset,
+			)?,
 			required: get_entry(object, "required", &mut unused_entries, code_map, offset)?
 				.unwrap_or_default(),
 		};
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index f60cbcd..5f1244f 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -303,6 +303,21 @@ where
 	}
 }
 
+/// Reads an optional entry, `null` meaning that the entry has no value.
+pub(crate) fn get_optional_entry<T: json_syntax::TryFromJson>(
+	object: &json_syntax::Object,
+	key: &str,
+	unused_entries: &mut ObjectUnusedEntries,
+	code_map: &json_syntax::CodeMap,
+	offset: usize,
+) -> Result<Option<T>, Error>
+where
+	T::Error: Into<Error>,
+{
+	let entry: Option<Option<T>> = get_entry(object, key, unused_entries, code_map, offset)?;
+	Ok(entry.flatten())
+}
+
 pub(crate) fn require_entry<T: json_syntax::TryFromJson>(
 	object: &json_syntax::Object,
 	key: &str,
-- 
2.43.0


From a00b008bde65bbf0808929d08fbb7f2dc2d052c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:37 +0000
Subject: [PATCH 23/69] fix: do not read arrays as objects in layout
 definitions

---
 layouts/src/abs/syntax/layout/list.rs    |  8 +++++--
 layouts/src/abs/syntax/layout/product.rs |  4 +++-
 layouts/src/abs/syntax/layout/sum.rs     |  8 +++++--
 layouts/src/abs/syntax/mod.rs            | 30 +++++++++++++++++++++++-
 layouts/src/abs/syntax/resource.rs       |  3 +++
 5 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/layouts/src/abs/syntax/layout/list.rs b/layouts/src/abs/syntax/layout/list.rs
index 6564a34..05b93e7 100644
--- a/layouts/src/abs/syntax/layout/list.rs
+++ b/layouts/src/abs/syntax/layout/list.rs
@@ -237,7 +237,7 @@ where
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(remote = "Self", deny_unknown_fields)]
 pub struct ListNode {
 	#[serde(
 		default = "ListNode::default_head",
@@ -260,6 +260,8 @@ pub struct ListNode {
 	pub dataset: Option<Dataset>,
 }
 
+crate::abs::syntax::object_serde!(ListNode);
+
 impl ListNode {
 	pub fn default_head() -> String {
 		"head".to_string()
@@ -404,7 +406,7 @@ impl TryFromJsonObject for UnorderedListLayout {
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(remote = "Self", deny_unknown_fields)]
 pub struct ListItem {
 	#[serde(default, skip_serializing_if = "ValueIntro::is_default")]
 	pub intro: ValueIntro,
@@ -418,6 +420,8 @@ pub struct ListItem {
 	pub property: Option<Pattern>,
 }
 
+crate::abs::syntax::object_serde!(ListItem);
+
 impl TryFromJson for ListItem {
 	type Error = Error;
 
diff --git a/layouts/src/abs/syntax/layout/product.rs b/layouts/src/abs/syntax/layout/product.rs
index 033d7bb..46a470f 100644
--- a/layouts/src/abs/syntax/layout/product.rs
+++ b/layouts/src/abs/syntax/layout/product.rs
@@ -134,7 +134,7 @@ where
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(remote = "Self", deny_unknown_fields)]
 pub struct Field {
 	#[serde(default, skip_serializing_if = "ValueIntro::is_default")]
 	pub intro: ValueIntro,
@@ -151,6 +151,8 @@ pub struct Field {
 	pub required: bool,
 }
 
+crate::abs::syntax::object_serde!(Field);
+
 impl TryFromJson for Field {
 	type Error = Error;
 
diff --git a/layouts/src/abs/syntax/layout/sum.rs b/layouts/src/abs/syntax/layout/sum.rs
index 57c6217..91c63bc 100644
--- a/layouts/src/abs/syntax/layout/sum.rs
+++ b/layouts/src/abs/syntax/layout/sum.rs
@@ -72,7 +72,7 @@ impl TryFromJsonObject for SumLayout {
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(remote = "Self", deny_unknown_fields)]
 pub struct Variant {
 	#[serde(default, skip_serializing_if = "OneOrMany::is_empty")]
 	pub intro: OneOrMany<String>,
@@ -83,6 +83,8 @@ pub struct Variant {
 	pub dataset: Dataset,
 }
 
+crate::abs::syntax::object_serde!(Variant);
+
 impl TryFromJson for Variant {
 	type Error = Error;
 
@@ -203,7 +205,7 @@ where
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(remote = "Self", deny_unknown_fields)]
 pub struct VariantFormat {
 	pub layout: LayoutRef,
 
@@ -218,6 +220,8 @@ pub struct VariantFormat {
 	pub graph: Option<Option<Pattern>>,
 }
 
+crate::abs::syntax::object_serde!(VariantFormat);
+
 impl TryFromJson for VariantFormat {
 	type Error = Error;
 
diff --git a/layouts/src/abs/syntax/mod.rs b/layouts/src/abs/syntax/mod.rs
index 5f1244f..ec213f9 100644
--- a/layouts/src/abs/syntax/mod.rs
+++ b/layouts/src/abs/syntax/mod.rs
@@ -425,6 +425,32 @@ impl<'de, D: serde::Deserializer<'de>> serde::Deserializer<'de> for ObjectDeseri
 	}
 }
 
+/// Implements `Serialize` and `Deserialize` for a structure deriving both with
+/// `#[serde(remote = "Self")]` so that it is only read from objects.
+macro_rules! object_serde {
+	($ty:ident) => {
+		impl serde::Serialize for $ty {
+			fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+			where
+				S: serde::Serializer,
+			{
+				Self::serialize(self, serializer)
+			}
+		}
+
+		impl<'de> serde::Deserialize<'de> for $ty {
+			fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+			where
+				D: serde::Deserializer<'de>,
+			{
+				Self::deserialize(crate::abs::syntax::ObjectDeserializer(deserializer))
+			}
+		}
+	};
+}
+
+pub(crate) use object_serde;
+
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
 #[serde(untagged)]
 pub enum OneOrMany<T> {
@@ -546,7 +572,7 @@ where
 }
 
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
-#[serde(deny_unknown_fields)]
+#[serde(remote = "Self", deny_unknown_fields)]
 pub struct ValueFormat {
 	pub layout: LayoutRef,
 
@@ -561,6 +587,8 @@ pub struct ValueFormat {
 	pub graph: Option<Option<Pattern>>,
 }
 
+object_serde!(ValueFormat);
+
 impl TryFromJsonObject for ValueFormat {
 	type Error = Error;
 
diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index dc85340..92b16fd 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -89,6 +89,7 @@ impl<C: Context> Build<C> for Resource {
 
 /// Typed string literal.
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
+#[serde(remote = "Self", deny_unknown_fields)]
 pub struct TypedString {
 	/// Literal value.
 	pub value: String,
@@ -98,6 +99,8 @@ pub struct TypedString {
 	pub type_: CompactIri,
 }
 
+crate::abs::syntax::object_serde!(TypedString);
+
 impl TypedString {
 	fn try_from_json_object_at(
 		object: &json_syntax::Object,
-- 
2.43.0


From 2241c6a627786ccea2d8ded86754c848196b07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:37 +0000
Subject: [PATCH 24/69] fix: never bind a graph variable to the default graph
 instead of crashing when hydrating

---
 layouts/src/pattern.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layouts/src/pattern.rs b/layouts/src/pattern.rs
index 8136960..6eee447 100644
--- a/layouts/src/pattern.rs
+++ b/layouts/src/pattern.rs
@@ -174,7 +174,7 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			let g = value.3?; // the default graph is not a resource.
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
-- 
2.43.0


From dac4af2985f56b6254439bf71833490f44286b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:08 +0000
Subject: [PATCH 25/69] fix: give anonymous layouts built in the same builder
 distinct identifiers

---
 layouts/src/abs/syntax/build.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/syntax/build.rs b/layouts/src/abs/syntax/build.rs
index 1c82250..c3b9780 100644
--- a/layouts/src/abs/syntax/build.rs
+++ b/layouts/src/abs/syntax/build.rs
@@ -87,7 +87,14 @@ where
 	}
 
 	fn anonymous_resource(&mut self) -> Self::Resource {
-		Term::Id(self.generator.next(&mut ()))
+		loop {
+			let term = Term::Id(self.generator.next(&mut ()));
+
+			// The builder may already contain layouts named by another generator.
+			if !self.builder.layouts.contains_key(&term) {
+				break term;
+			}
+		}
 	}
 }
 
-- 
2.43.0


From e723b166e2a47d7588818a6814e776e32e316929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:21 +0000
Subject: [PATCH 26/69] fix: report union and intersection layouts as
 unsupported instead of crashing when building them

---
 layouts/src/abs/syntax/build.rs               | 3 +++
 layouts/src/abs/syntax/layout/intersection.rs | 4 +++-
 layouts/src/abs/syntax/layout/union.rs        | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/layouts/src/abs/syntax/build.rs b/layouts/src/abs/syntax/build.rs
index c3b9780..dedfc23 100644
--- a/layouts/src/abs/syntax/build.rs
+++ b/layouts/src/abs/syntax/build.rs
@@ -36,6 +36,9 @@ pub enum BuildError {
 
 	#[error("no property object")]
 	NoPropertyObject,
+
+	#[error("unsupported layout type `{0}`")]
+	UnsupportedLayoutType(&'static str),
 }
 
 pub trait Context {
diff --git a/layouts/src/abs/syntax/layout/intersection.rs b/layouts/src/abs/syntax/layout/intersection.rs
index 3e26017..3277b88 100644
--- a/layouts/src/abs/syntax/layout/intersection.rs
+++ b/layouts/src/abs/syntax/layout/intersection.rs
@@ -53,6 +53,8 @@ impl<C: Context> Build<C> for IntersectionLayout {
 	type Target = Vec<Ref<LayoutType, C::Resource>>;
 
 	fn build(&self, _context: &mut C, _scope: &Scope) -> Result<Self::Target, BuildError> {
-		unimplemented!()
+		Err(BuildError::UnsupportedLayoutType(
+			IntersectionLayoutType::NAME,
+		))
 	}
 }
diff --git a/layouts/src/abs/syntax/layout/union.rs b/layouts/src/abs/syntax/layout/union.rs
index a1a5a2c..ad0d13e 100644
--- a/layouts/src/abs/syntax/layout/union.rs
+++ b/layouts/src/abs/syntax/layout/union.rs
@@ -53,6 +53,6 @@ impl<C: Context> Build<C> for UnionLayout {
 	type Target = Vec<Ref<LayoutType, C::Resource>>;
 
 	fn build(&self, _context: &mut C, _scope: &Scope) -> Result<Self::Target, BuildError> {
-		unimplemented!()
+		Err(BuildError::UnsupportedLayoutType(UnionLayoutType::NAME))
 	}
 }
-- 
2.43.0


From 6a8c8f5a1ff8aff9dc859d1482b72b49f46618b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:10 +0000
Subject: [PATCH 27/69] fix: write the lexical form of negative numbers in
 extra properties

---
 layouts/src/abs/syntax/resource.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/syntax/resource.rs b/layouts/src/abs/syntax/resource.rs
index 92b16fd..3495877 100644
--- a/layouts/src/abs/syntax/resource.rs
+++ b/layouts/src/abs/syntax/resource.rs
@@ -74,10 +74,8 @@ impl<C: Context> Build<C> for Resource {
 				let value: xsd_types::Decimal = n.into();
 				let type_ = value.decimal_type();
 
-				Ok(context.literal_resource(
-					value.lexical_representation(),
-					LexicalLiteralTypeRef::Any(type_.iri()),
-				))
+				Ok(context
+					.literal_resource(&n.to_string(), LexicalLiteralTypeRef::Any(type_.iri())))
 			}
 			Self::String(value) => {
 				Ok(context.literal_resource(value, LexicalLiteralTypeRef::Any(XSD_STRING)))
-- 
2.43.0


From 409f9b2d71628e966368d1865c4022666d8a4155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:04 +0000
Subject: [PATCH 28/69] fix: regular expression sequences skip all their items
 when compiled

---
 layouts/src/abs/regexp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index ec11022..aa32233 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -268,16 +268,17 @@ impl RegExp {
 			}
 			Self::Repeat(exp, min, max) => exp.build_repeat_into(new_state, automaton, *min, *max),
 			Self::Sequence(exps) => {
-				let mut a = new_state();
+				let a = new_state();
+				let mut end = a;
 
 				for e in exps {
 					let (ea, eb) = e.build_into(new_state, automaton);
-					automaton.add(a, None, ea);
-					a = eb;
+					automaton.add(end, None, ea);
+					end = eb;
 				}
 
 				let b = new_state();
-				automaton.add(a, None, b);
+				automaton.add(end, None, b);
 
 				(a, b)
 			}
-- 
2.43.0


From 225f571115a6a910014f2c8993238a18a6c22ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:09 +0000
Subject: [PATCH 29/69] fix: dot is not parsed as the any character expression

---
 layouts/src/abs/regexp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index aa32233..a48f2b3 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -189,6 +189,10 @@ impl RegExp {
 					charset.insert(c);
 					options.last_mut().unwrap().push(RegExp::Set(charset))
 				}
+				'.' => {
+					let options = stack.last_mut().unwrap();
+					options.last_mut().unwrap().push(RegExp::Any)
+				}
 				'?' => {
 					let options = stack.last_mut().unwrap();
 					options.last_mut().unwrap().repeat(0, 1)
@@ -558,6 +562,7 @@ fn fmt_range(range: btree_range_map::AnyRange<char>, f: &mut fmt::Formatter) ->
 
 fn fmt_char(c: char, f: &mut fmt::Formatter) -> fmt::Result {
 	match c {
+		'.' => write!(f, "\\."),
 		'(' => write!(f, "\\("),
 		')' => write!(f, "\\)"),
 		'[' => write!(f, "\\["),
-- 
2.43.0


From 34ef4404238bbdc53cbc00690c2a2481ca26ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 30/69] fix: repetition operators apply to the whole preceding
 sequence

---
 layouts/src/abs/regexp.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index a48f2b3..f42dc2a 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -158,16 +158,37 @@ impl RegExp {
 	}
 
 	pub fn parse(s: &str) -> Result<Self, ParseError> {
-		let mut stack = vec![vec![RegExp::empty()]];
+		/// Builds the expression of a group from its options, each of them
+		/// given by the list of its items.
+		fn group(options: Vec<Vec<RegExp>>) -> RegExp {
+			let options = options
+				.into_iter()
+				.map(|mut items| match items.len() {
+					1 => items.remove(0),
+					_ => RegExp::Sequence(items),
+				})
+				.collect();
+
+			RegExp::Union(options).simplified()
+		}
+
+		/// Repeats the last item of the sequence.
+		fn repeat_last(items: &mut Vec<RegExp>, min: u32, max: u32) {
+			let mut item = items.pop().unwrap_or_else(RegExp::empty);
+			item.repeat(min, max);
+			items.push(item)
+		}
+
+		let mut stack = vec![vec![Vec::new()]];
 		let mut chars = s.chars();
 
 		while let Some(c) = chars.next() {
 			match c {
 				'(' => {
-					stack.push(vec![RegExp::empty()]);
+					stack.push(vec![Vec::new()]);
 				}
 				')' => {
-					let sub_exp = RegExp::Union(stack.pop().unwrap()).simplified();
+					let sub_exp = group(stack.pop().unwrap());
 					let options = stack
 						.last_mut()
 						.ok_or(ParseError::UnmatchedClosingParenthesis)?;
@@ -175,7 +196,7 @@ impl RegExp {
 				}
 				'|' => {
 					let options = stack.last_mut().unwrap();
-					options.push(RegExp::empty());
+					options.push(Vec::new());
 				}
 				'[' => {
 					let options = stack.last_mut().unwrap();
@@ -195,15 +216,15 @@ impl RegExp {
 				}
 				'?' => {
 					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(0, 1)
+					repeat_last(options.last_mut().unwrap(), 0, 1)
 				}
 				'*' => {
 					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(0, u32::MAX)
+					repeat_last(options.last_mut().unwrap(), 0, u32::MAX)
 				}
 				'+' => {
 					let options = stack.last_mut().unwrap();
-					options.last_mut().unwrap().repeat(1, u32::MAX)
+					repeat_last(options.last_mut().unwrap(), 1, u32::MAX)
 				}
 				c => {
 					let options = stack.last_mut().unwrap();
@@ -216,7 +237,7 @@ impl RegExp {
 
 		match stack.len() {
 			0 => unreachable!(),
-			1 => Ok(RegExp::Union(stack.into_iter().next().unwrap()).simplified()),
+			1 => Ok(group(stack.pop().unwrap())),
 			_ => Err(ParseError::MissingClosingParenthesis),
 		}
 	}
-- 
2.43.0


From 8b18b387dca6dab60b49723f7fdf6e88b4a8e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:31 +0000
Subject: [PATCH 31/69] fix: empty character sets are dropped or crash instead
 of matching nothing

---
 layouts/src/abs/regexp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index f42dc2a..a7da6ce 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -101,9 +101,11 @@ impl RegExp {
 		}
 	}
 
+	/// Checks if this regular expression only matches the empty string.
 	pub fn is_empty(&self) -> bool {
 		match self {
-			Self::Set(set) => set.is_empty(),
+			// Even empty, a character set does not match the empty string.
+			Self::Set(_) => false,
 			Self::Sequence(seq) => seq.iter().all(Self::is_empty),
 			Self::Union(items) => items.iter().all(Self::is_empty),
 			Self::Repeat(r, min, max) => r.is_empty() || (*min == 0 && *max == 0),
@@ -245,7 +247,6 @@ impl RegExp {
 	pub fn build(&self) -> DetAutomaton<usize> {
 		let nd = self.build_non_deterministic();
 		let dt = nd.determinize();
-		debug_assert!(!dt.final_states().is_empty());
 
 		let mut n = 0;
 		dt.map(
-- 
2.43.0


From 1a45a8de0e5425117dc0db25f17d92412885a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:37 +0000
Subject: [PATCH 32/69] fix: the singleton string of a repetition only contains
 one occurrence

---
 layouts/src/abs/regexp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index a7da6ce..95ee6de 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -137,7 +137,11 @@ impl RegExp {
 					e.build_singleton(s)
 				}
 			}
-			Self::Repeat(e, _, _) => e.build_singleton(s),
+			Self::Repeat(e, min, _) => {
+				for _ in 0..*min {
+					e.build_singleton(s)
+				}
+			}
 			Self::Union(items) => items[0].build_singleton(s),
 		}
 	}
-- 
2.43.0


From 4c8d329e09cc121f59cac5e049d3efb792d9c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:33 +0000
Subject: [PATCH 33/69] fix: the full character set is printed as the empty one

---
 layouts/src/abs/regexp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 95ee6de..803730f 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -507,7 +507,12 @@ impl fmt::Display for RegExp {
 					if charset.len() > CHAR_COUNT / 2 {
 						write!(f, "^")?;
 						for range in charset.gaps() {
-							fmt_range(range.cloned(), f)?
+							let range = range.cloned();
+
+							// `gaps` may return the full range on full sets.
+							if !range.first().is_some_and(|c| charset.contains(c)) {
+								fmt_range(range, f)?
+							}
 						}
 					} else {
 						for range in charset {
-- 
2.43.0


From 6b2c838fe3d58bee6abed3b0d68c54cc8ddd612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:21 +0000
Subject: [PATCH 34/69] fix: repeated sequences and single item sequences are
 printed without parenthesis

---
 layouts/src/abs/regexp.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 803730f..6462736 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -525,25 +525,21 @@ impl fmt::Display for RegExp {
 			}
 			Self::Sequence(seq) => {
 				for item in seq {
-					if seq.len() > 1 {
-						item.display_sub().fmt(f)?
-					} else {
-						item.fmt(f)?
-					}
+					item.display_sub().fmt(f)?
 				}
 
 				Ok(())
 			}
-			Self::Repeat(e, 0, 1) => write!(f, "{}?", e.display_sub()),
-			Self::Repeat(e, 0, u32::MAX) => write!(f, "{}*", e.display_sub()),
-			Self::Repeat(e, 1, u32::MAX) => write!(f, "{}+", e.display_sub()),
-			Self::Repeat(e, min, u32::MAX) => write!(f, "{}{{{},}}", e.display_sub(), min),
-			Self::Repeat(e, 0, max) => write!(f, "{}{{,{}}}", e.display_sub(), max),
+			Self::Repeat(e, 0, 1) => write!(f, "{}?", DisplayRepeated(e)),
+			Self::Repeat(e, 0, u32::MAX) => write!(f, "{}*", DisplayRepeated(e)),
+			Self::Repeat(e, 1, u32::MAX) => write!(f, "{}+", DisplayRepeated(e)),
+			Self::Repeat(e, min, u32::MAX) => write!(f, "{}{{{},}}", DisplayRepeated(e), min),
+			Self::Repeat(e, 0, max) => write!(f, "{}{{,{}}}", DisplayRepeated(e), max),
 			Self::Repeat(e, min, max) => {
 				if min == max {
-					write!(f, "{}{{{}}}", e.display_sub(), min)
+					write!(f, "{}{{{}}}", DisplayRepeated(e), min)
 				} else {
-					write!(f, "{}{{{},{}}}", e.display_sub(), min, max)
+					write!(f, "{}{{{},{}}}", DisplayRepeated(e), min, max)
 				}
 			}
 			Self::Union(items) => {
@@ -576,6 +572,21 @@ impl fmt::Display for DisplaySub<'_> {
 	}
 }
 
+/// Display the inner regular expression as the operand of a repetition.
+///
+/// Contrarily to [`DisplaySub`], this will also enclose sequences between
+/// parenthesis.
+struct DisplayRepeated<'a>(&'a RegExp);
+
+impl fmt::Display for DisplayRepeated<'_> {
+	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		match self.0 {
+			RegExp::Any | RegExp::Set(_) => self.0.fmt(f),
+			_ => write!(f, "({})", self.0),
+		}
+	}
+}
+
 fn fmt_range(range: btree_range_map::AnyRange<char>, f: &mut fmt::Formatter) -> fmt::Result {
 	if range.len() == 1 {
 		fmt_char(range.first().unwrap(), f)
-- 
2.43.0


From 225ed65a688e24d3e8cf9b0e8dfbc51242f38dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:13 +0000
Subject: [PATCH 35/69] fix: printed bounded repetitions cannot be parsed back

---
 layouts/src/abs/regexp.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index 6462736..c628229 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -234,6 +234,16 @@ impl RegExp {
 				}
 				c => {
 					let options = stack.last_mut().unwrap();
+
+					if c == '{' {
+						let mut rest = chars.clone();
+						if let Some((min, max)) = parse_repetition(&mut rest) {
+							chars = rest;
+							repeat_last(options.last_mut().unwrap(), min, max);
+							continue;
+						}
+					}
+
 					let mut charset = RangeSet::new();
 					charset.insert(c);
 					options.last_mut().unwrap().push(RegExp::Set(charset))
@@ -384,6 +394,33 @@ pub enum ParseError {
 	IncompleteCharacterSet,
 }
 
+/// Parses the bounds of a repetition, after the opening `{`.
+///
+/// Returns `None` if this is not a repetition, in which case the `{` stands for
+/// itself.
+fn parse_repetition(chars: &mut impl Iterator<Item = char>) -> Option<(u32, u32)> {
+	let mut bounds = String::new();
+	loop {
+		match chars.next()? {
+			'}' => break,
+			c @ ('0'..='9' | ',') => bounds.push(c),
+			_ => return None,
+		}
+	}
+
+	let (min, max) = match bounds.split_once(',') {
+		None => {
+			let n = bounds.parse().ok()?;
+			(n, n)
+		}
+		Some((min, "")) => (min.parse().ok()?, u32::MAX),
+		Some(("", max)) => (0, max.parse().ok()?),
+		Some((min, max)) => (min.parse().ok()?, max.parse().ok()?),
+	};
+
+	(min <= max).then_some((min, max))
+}
+
 fn parse_charset(chars: &mut impl Iterator<Item = char>) -> Result<RangeSet<char>, ParseError> {
 	#[derive(PartialEq, Eq)]
 	enum State {
-- 
2.43.0


From b6c4e86ca9fb1700ff02c38738ab783a7c53c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:22 +0000
Subject: [PATCH 36/69] fix: nested repetitions accept strings they should not

---
 layouts/src/abs/regexp.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/layouts/src/abs/regexp.rs b/layouts/src/abs/regexp.rs
index c628229..a232407 100644
--- a/layouts/src/abs/regexp.rs
+++ b/layouts/src/abs/regexp.rs
@@ -371,10 +371,17 @@ impl RegExp {
 			automaton.add(b, None, c);
 			(a, d)
 		} else {
+			// Use fresh states: looping directly between the endpoints of the
+			// repeated expression would mix both loops if it is itself a
+			// repetition.
+			let start = new_state();
+			let end = new_state();
 			let (a, b) = self.build_into(new_state, automaton);
-			automaton.add(a, None, b);
+			automaton.add(start, None, a);
+			automaton.add(start, None, end);
 			automaton.add(b, None, a);
-			(a, b)
+			automaton.add(b, None, end);
+			(start, end)
 		}
 	}
 }
-- 
2.43.0


From 89f50526127310b7040cbeb160ba78a4a14735c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:35 +0000
Subject: [PATCH 37/69] fix: automata product only follows simultaneous epsilon
 transitions

---
 layouts/src/utils/automaton.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 534d814..9fa0642 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -237,22 +237,26 @@ impl<Q: Ord> Automaton<Q> {
 							}
 						}
 						None => {
-							if let Some(b_successors) =
-								other.transitions.get(b).and_then(|s| s.get(&None))
-							{
-								let successors = transitions.entry(None).or_default();
-
-								for sa in a_successors {
-									for sb in b_successors {
-										let s = f(sa, sb);
-										stack.push((s.clone(), sa, sb));
-										successors.insert(s);
-									}
-								}
+							let successors = transitions.entry(None).or_default();
+
+							for sa in a_successors {
+								let s = f(sa, b);
+								stack.push((s.clone(), sa, b));
+								successors.insert(s);
 							}
 						}
 					}
 				}
+
+				if let Some(b_successors) = other.transitions.get(b).and_then(|s| s.get(&None)) {
+					let successors = transitions.entry(None).or_default();
+
+					for sb in b_successors {
+						let s = f(a, sb);
+						stack.push((s.clone(), a, sb));
+						successors.insert(s);
+					}
+				}
 			}
 		}
 
-- 
2.43.0


From 68fea07833a56a19d22f3684663f3ae382ee4877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:40 +0000
Subject: [PATCH 38/69] fix: minimized automata have no final states

---
 layouts/src/utils/automaton.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 9fa0642..b5fe559 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -509,6 +509,10 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 			}
 		}
 
+		for q in &self.final_states {
+			result.add_final_state(map[q].clone());
+		}
+
 		result
 	}
 
-- 
2.43.0


From 2ea6f4ff7696e093ffea27f42d4e46ca4815b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:45 +0000
Subject: [PATCH 39/69] fix: minimizing an automaton with unreachable states
 panics

---
 layouts/src/utils/automaton.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index b5fe559..bc6d1a3 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -504,13 +504,20 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 
 		let mut result = DetAutomaton::new(map[&self.initial_state].clone());
 		for (source, transitions) in &self.transitions.0 {
+			// Unreachable states may not be part of the partition.
+			let Some(source) = map.get(source) else {
+				continue;
+			};
+
 			for (range, target) in transitions {
-				result.add(map[source].clone(), range, map[target].clone());
+				result.add(source.clone(), range, map[target].clone());
 			}
 		}
 
 		for q in &self.final_states {
-			result.add_final_state(map[q].clone());
+			if let Some(q) = map.get(q) {
+				result.add_final_state(q.clone());
+			}
 		}
 
 		result
-- 
2.43.0


From d8efce69b35f3619dd6752ee431dcff8e5bfd985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:51 +0000
Subject: [PATCH 40/69] fix: fallible automata mapping drops the final states

---
 layouts/src/utils/automaton.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index bc6d1a3..406c627 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -597,6 +597,15 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 			}
 		}
 
+		for q in &self.final_states {
+			let q = match map.entry(q) {
+				Entry::Occupied(entry) => entry.get().clone(),
+				Entry::Vacant(entry) => entry.insert(f(q)?).clone(),
+			};
+
+			result.add_final_state(q);
+		}
+
 		Ok(result)
 	}
 
-- 
2.43.0


From 4b80b3122b3441f9272f92183be909c315c24e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:16 +0000
Subject: [PATCH 41/69] fix: compressed automata only keep the transitions of
 the initial state

---
 layouts/src/utils/automaton.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index 406c627..bbc1611 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -693,6 +693,7 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 					}
 
 					q_transitions.insert(compact_label, r.clone());
+					stack.push(r);
 				}
 
 				transitions.insert(q.clone(), q_transitions);
-- 
2.43.0


From c7662367c25a02b28e31d6ddadb67c0b2a4f4e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:20 +0000
Subject: [PATCH 42/69] fix: endless loop when compressing a cyclic automaton

---
 layouts/src/utils/automaton.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/layouts/src/utils/automaton.rs b/layouts/src/utils/automaton.rs
index bbc1611..40f0531 100644
--- a/layouts/src/utils/automaton.rs
+++ b/layouts/src/utils/automaton.rs
@@ -683,7 +683,13 @@ impl<Q: Ord, L: Ord> DetAutomaton<Q, L> {
 					let mut compact_label = M::default();
 					append(&mut compact_label, label);
 
+					// Stop before following a cycle forever.
+					let mut visited = BTreeSet::from([q]);
 					while let Some((label, s)) = self.single_transition_of(r) {
+						if !visited.insert(r) {
+							break;
+						}
+
 						if self.is_final_state(r) {
 							q_transitions.insert(compact_label.clone(), r.clone());
 						}
-- 
2.43.0


From f03efaa3ffd7a6aec862975ad75b60294a20ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:48 +0000
Subject: [PATCH 43/69] fix: report numbers out of the range of doubles when
 serializing values

---
 layouts/src/value/ser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/layouts/src/value/ser.rs b/layouts/src/value/ser.rs
index 263f75f..acd561d 100644
--- a/layouts/src/value/ser.rs
+++ b/layouts/src/value/ser.rs
@@ -42,7 +42,8 @@ impl serde::Serialize for Literal {
 			Self::Number(n) => match n.as_native() {
 				NativeNumber::U64(u) => serializer.serialize_u64(u),
 				NativeNumber::I64(i) => serializer.serialize_i64(i),
-				NativeNumber::F64(f) => serializer.serialize_f64(f),
+				NativeNumber::F64(f) if f.is_finite() => serializer.serialize_f64(f),
+				NativeNumber::F64(_) => Err(serde::ser::Error::custom("number out of range")),
 			},
 			Self::TextString(s) => serializer.serialize_str(s),
 			Self::ByteString(b) => serializer.serialize_bytes(b),
-- 
2.43.0


From 95855f42b8300809c254d6b90a6cb116493b0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:49 +0000
Subject: [PATCH 44/69] fix: write no partial CBOR document when a value cannot
 be encoded

---
 src/format/tree.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/format/tree.rs b/src/format/tree.rs
index 67fae78..4cc3f89 100644
--- a/src/format/tree.rs
+++ b/src/format/tree.rs
@@ -96,7 +96,8 @@ impl TreeFormat {
 				let cbor = value
 					.try_into_tagged_serde_cbor(layouts)
 					.map_err(WriteError::CborTag)?;
-				serde_cbor::to_writer(output, &cbor).map_err(WriteError::Cbor)
+				let bytes = serde_cbor::to_vec(&cbor).map_err(WriteError::Cbor)?;
+				output.write_all(&bytes).map_err(WriteError::IO)
 			}
 		}
 	}
@@ -117,7 +118,10 @@ impl TreeFormat {
 					write!(output, "{}", json.compact_print()).map_err(WriteError::IO)
 				}
 			}
-			Self::Cbor => serde_cbor::to_writer(output, &value).map_err(WriteError::Cbor),
+			Self::Cbor => {
+				let bytes = serde_cbor::to_vec(&value).map_err(WriteError::Cbor)?;
+				output.write_all(&bytes).map_err(WriteError::IO)
+			}
 		}
 	}
 }
-- 
2.43.0


From b535d848e47b1843856d1654ee1b203d125ef8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:03 +0000
Subject: [PATCH 45/69] fix: derived serializers assert statements in the
 current graph

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 34 +++++++++----------
 .../rust/treeldr-rs/src/ser/environment.rs    | 15 +++++---
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index f23fd05..9afaa9d 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -58,7 +58,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
@@ -81,7 +81,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 						Ok(())
 					}
 				}
@@ -93,7 +93,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -111,7 +111,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -129,7 +129,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal_owned(::treeldr::rdf_types::Literal::new(
 							self.0.to_string(),
@@ -147,7 +147,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					quote! {
 						let env = env.intro(rdf, #intro);
-						env.instantiate_dataset(&#dataset, output);
+						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
 							::std::convert::AsRef::<str>::as_ref(&self.0),
@@ -193,7 +193,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							{
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
@@ -207,7 +207,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						Ok(quote! {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
-								env.instantiate_dataset(&#field_dataset, output);
+								env.instantiate_dataset(&#field_dataset, current_graph, output);
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
@@ -223,7 +223,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset(&#dataset, current_graph, output);
 				#(#fields)*
 				Ok(())
 			}
@@ -255,7 +255,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 				quote! {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
-						env.instantiate_dataset(&#variant_dataset, output);
+						env.instantiate_dataset(&#variant_dataset, current_graph, output);
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
@@ -269,7 +269,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 			quote! {
 				let env = env.intro(rdf, #intro);
-				env.instantiate_dataset(&#dataset, output);
+				env.instantiate_dataset(&#dataset, current_graph, output);
 				match self {
 					#(#variants)*
 				}
@@ -301,11 +301,11 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					for item in self.0.iter() {
 						let env = env.intro(rdf, #item_intro);
-						env.instantiate_dataset(&#item_dataset, output);
+						env.instantiate_dataset(&#item_dataset, current_graph, output);
 
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -347,7 +347,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					let mut head = env.instantiate_pattern(&#head);
 
@@ -360,7 +360,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						let env = env.bind([head, rest.clone()]);
 						let env = env.intro(rdf, #node_intro);
-						env.instantiate_dataset(&#node_dataset, output);
+						env.instantiate_dataset(&#node_dataset, current_graph, output);
 
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
@@ -404,7 +404,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					quote! {
 						{
 							let env = env.intro(rdf, #item_intro);
-							env.instantiate_dataset(&#item_dataset, output);
+							env.instantiate_dataset(&#item_dataset, current_graph, output);
 
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
@@ -419,7 +419,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 				quote! {
 					let env = env.intro(rdf, #intro);
-					env.instantiate_dataset(&#dataset, output);
+					env.instantiate_dataset(&#dataset, current_graph, output);
 
 					#(#items)*
 
diff --git a/generators/rust/treeldr-rs/src/ser/environment.rs b/generators/rust/treeldr-rs/src/ser/environment.rs
index 7500f7f..32f676e 100644
--- a/generators/rust/treeldr-rs/src/ser/environment.rs
+++ b/generators/rust/treeldr-rs/src/ser/environment.rs
@@ -69,6 +69,7 @@ where
 	pub fn instantiate_quad(
 		&self,
 		quad: Quad<&Pattern<R>, &Pattern<R>, &Pattern<R>, &Pattern<R>>,
+		current_graph: Option<&R>,
 	) -> Quad<R, R, R, R>
 where
 		// Q: Clone + Into<R>,
@@ -77,17 +78,23 @@ where
 			self.instantiate_pattern(quad.0),
 			self.instantiate_pattern(quad.1),
 			self.instantiate_pattern(quad.2),
-			quad.3.map(|g| self.instantiate_pattern(g)),
+			quad.3
+				.map(|g| self.instantiate_pattern(g))
+				.or_else(|| current_graph.cloned()),
 		)
 	}
 
-	pub fn instantiate_dataset<D>(&self, input: &[PatternQuad<R>], output: &mut D)
-	where
+	pub fn instantiate_dataset<D>(
+		&self,
+		input: &[PatternQuad<R>],
+		current_graph: Option<&R>,
+		output: &mut D,
+	) where
 		// Q: Clone + Into<R>,
 		D: DatasetMut<Resource = R>,
 	{
 		for quad in input {
-			output.insert(self.instantiate_quad(quad.as_ref()));
+			output.insert(self.instantiate_quad(quad.as_ref(), current_graph));
 		}
 	}
 }
-- 
2.43.0


From 95d2b0611497900dab8baa834ab9dc26b6213005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:51 +0000
Subject: [PATCH 46/69] fix: derived serializers with explicit graphs or
 constant inputs do not compile

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 92 ++++++++-----------
 1 file changed, 40 insertions(+), 52 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 9afaa9d..dd89d7c 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -178,14 +178,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						.get(field.value.layout.id().as_iri().unwrap())
 						.unwrap();
 					let field_inputs = inputs_to_array(&field.value.input);
-					let field_graph = match &field.value.graph {
-						Some(None) => quote!(None),
-						Some(Some(g)) => {
-							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
-						}
-						None => quote!(current_graph.cloned()),
-					};
+					let field_graph = generate_graph(&field.value.graph);
 
 					let m = field.value.input.len();
 
@@ -194,11 +187,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							{
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, current_graph, output);
+								let value_inputs = env.instantiate_patterns(&#field_inputs);
+								let value_graph: Option<I::Resource> = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									&self.#field_ident,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&value_inputs,
+									value_graph.as_ref(),
 									output
 								)?;
 							}
@@ -208,11 +203,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							if let Some(value) = &self.#field_ident {
 								let env = env.intro(rdf, #field_intro);
 								env.instantiate_dataset(&#field_dataset, current_graph, output);
+								let value_inputs = env.instantiate_patterns(&#field_inputs);
+								let value_graph: Option<I::Resource> = #field_graph;
 								<#field_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 									value,
 									rdf,
-									&env.instantiate_patterns(&#field_inputs),
-									#field_graph.as_ref(),
+									&value_inputs,
+									value_graph.as_ref(),
 									output
 								)?;
 							}
@@ -241,14 +238,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					.get(variant.value.layout.id().as_iri().unwrap())
 					.unwrap();
 				let variant_inputs = inputs_to_array(&variant.value.input);
-				let variant_graph = match &variant.value.graph {
-					Some(None) => quote!(None),
-					Some(Some(g)) => {
-						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
-					}
-					None => quote!(current_graph.cloned()),
-				};
+				let variant_graph = generate_graph(&variant.value.graph);
 
 				let m = variant.value.input.len();
 
@@ -256,11 +246,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					Self::#variant_ident(value) => {
 						let env = env.intro(rdf, #variant_intro);
 						env.instantiate_dataset(&#variant_dataset, current_graph, output);
+						let value_inputs = env.instantiate_patterns(&#variant_inputs);
+						let value_graph: Option<I::Resource> = #variant_graph;
 						<#variant_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							value,
 							rdf,
-							&env.instantiate_patterns(&#variant_inputs),
-							#variant_graph.as_ref(),
+							&value_inputs,
+							value_graph.as_ref(),
 							output
 						)
 					}
@@ -288,14 +280,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					.get(layout.item.value.layout.id().as_iri().unwrap())
 					.unwrap();
 				let item_value_inputs = inputs_to_array(&layout.item.value.input);
-				let item_value_graph = match &layout.item.value.graph {
-					Some(None) => quote!(None),
-					Some(Some(g)) => {
-						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
-					}
-					None => quote!(current_graph.cloned()),
-				};
+				let item_value_graph = generate_graph(&layout.item.value.graph);
 
 				let m = layout.item.value.input.len();
 
@@ -307,11 +292,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #item_intro);
 						env.instantiate_dataset(&#item_dataset, current_graph, output);
 
+						let value_inputs = env.instantiate_patterns(&#item_value_inputs);
+						let value_graph: Option<I::Resource> = #item_value_graph;
 						<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#item_value_inputs),
-							#item_value_graph.as_ref(),
+							&value_inputs,
+							value_graph.as_ref(),
 							output
 						)?;
 					}
@@ -334,14 +321,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					.get(layout.node.value.layout.id().as_iri().unwrap())
 					.unwrap();
 				let node_value_inputs = inputs_to_array(&layout.node.value.input);
-				let node_value_graph = match &layout.node.value.graph {
-					Some(None) => quote!(None),
-					Some(Some(g)) => {
-						let g = generate_pattern(g);
-						quote!(Some(env.instantiate_pattern(#g)))
-					}
-					None => quote!(current_graph.cloned()),
-				};
+				let node_value_graph = generate_graph(&layout.node.value.graph);
 
 				let m = layout.node.value.input.len();
 
@@ -362,11 +342,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						let env = env.intro(rdf, #node_intro);
 						env.instantiate_dataset(&#node_dataset, current_graph, output);
 
+						let value_inputs = env.instantiate_patterns(&#node_value_inputs);
+						let value_graph: Option<I::Resource> = #node_value_graph;
 						<#node_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 							item,
 							rdf,
-							&env.instantiate_patterns(&#node_value_inputs),
-							#node_value_graph.as_ref(),
+							&value_inputs,
+							value_graph.as_ref(),
 							output
 						)?;
 
@@ -389,14 +371,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						.get(item.value.layout.id().as_iri().unwrap())
 						.unwrap();
 					let item_value_inputs = inputs_to_array(&item.value.input);
-					let item_value_graph = match &item.value.graph {
-						Some(None) => quote!(None),
-						Some(Some(g)) => {
-							let g = generate_pattern(g);
-							quote!(Some(env.instantiate_pattern(#g)))
-						}
-						None => quote!(current_graph.cloned()),
-					};
+					let item_value_graph = generate_graph(&item.value.graph);
 
 					let m = item.value.input.len();
 					let index: syn::Index = i.into();
@@ -406,11 +381,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							let env = env.intro(rdf, #item_intro);
 							env.instantiate_dataset(&#item_dataset, current_graph, output);
 
+							let value_inputs = env.instantiate_patterns(&#item_value_inputs);
+							let value_graph: Option<I::Resource> = #item_value_graph;
 							<#item_value_layout as ::treeldr::SerializeLd<#m, V, I>>::serialize_ld_with(
 								&self.#index,
 								rdf,
-								&env.instantiate_patterns(&#item_value_inputs),
-								#item_value_graph.as_ref(),
+								&value_inputs,
+								value_graph.as_ref(),
 								output
 							)?;
 						}
@@ -537,6 +514,17 @@ fn inputs_to_array(inputs: &[Pattern<Term>]) -> TokenStream {
 	quote!([#(#items),*])
 }
 
+fn generate_graph(graph: &Option<Option<Pattern<Term>>>) -> TokenStream {
+	match graph {
+		Some(None) => quote!(None),
+		Some(Some(g)) => {
+			let g = generate_pattern(g);
+			quote!(Some(env.instantiate_pattern(&#g)))
+		}
+		None => quote!(current_graph.cloned()),
+	}
+}
+
 fn generate_pattern(pattern: &Pattern<Term>) -> TokenStream {
 	match pattern {
 		Pattern::Var(i) => quote!(::treeldr::Pattern::Var(#i)),
-- 
2.43.0


From 1e5f3d855fbb19942ef18b8c8bc95a242f42d4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 47/69] fix: derived serializers of identifiers and literals
 ignore the target resource

---
 .../treeldr-rs-macros/src/generate/ser.rs     | 66 +++++--------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index dd89d7c..2f8366f 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -55,20 +55,22 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			LiteralLayout::Id(layout) => {
 				let intro = layout.intro;
 				let dataset = dataset_to_array(&layout.dataset);
+				let target = generate_pattern(&layout.resource);
 
 				quote! {
 					let env = env.intro(rdf, #intro);
 					env.instantiate_dataset(&#dataset, current_graph, output);
+					let target = env.instantiate_pattern(&#target);
 
 					match ::treeldr::AsId::as_id(self) {
 						::treeldr::rdf_types::Id::Iri(value) => {
 							let id = rdf.vocabulary.insert(value);
-							rdf.interpretation.assign_iri(&inputs[0], id);
+							rdf.interpretation.assign_iri(&target, id);
 							Ok(())
 						}
 						::treeldr::rdf_types::Id::Blank(value) => {
 							let id = rdf.vocabulary.insert_blank_id(value);
-							rdf.interpretation.assign_blank_id(&inputs[0], id);
+							rdf.interpretation.assign_blank_id(&target, id);
 							Ok(())
 						}
 					}
@@ -89,7 +91,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -99,7 +101,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -107,7 +110,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -117,7 +120,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -125,7 +129,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype_owned(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -135,7 +139,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							self.0.to_string(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -143,7 +148,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let intro = layout.intro;
 					let dataset = dataset_to_array(&layout.dataset);
 					let datatype = term_to_datatype(&layout.datatype)?;
-					let target = pattern_interpretation(&layout.resource);
+					let target = generate_pattern(&layout.resource);
 
 					quote! {
 						let env = env.intro(rdf, #intro);
@@ -153,7 +158,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 							::std::convert::AsRef::<str>::as_ref(&self.0),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
-						rdf.interpretation.assign_literal(#target, literal);
+						let target = env.instantiate_pattern(&#target);
+						rdf.interpretation.assign_literal(&target, literal);
 						Ok(())
 					}
 				}
@@ -430,46 +436,6 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 	})
 }
 
-fn term_interpretation(term: &Term) -> TokenStream {
-	match term {
-		Term::Id(Id::Iri(iri)) => {
-			let iri = iri.as_str();
-			quote!(rdf.interpret_iri(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-		}
-		Term::Id(Id::Blank(blank_id)) => {
-			let blank_id = blank_id.as_str();
-			quote!(rdf.interpret_blank_id(unsafe { ::treeldr::rdf_types::BlankId::new_unchecked(#blank_id) }))
-		}
-		Term::Literal(literal) => {
-			let value = &literal.value;
-			let ty = match &literal.type_ {
-				LiteralType::Any(iri) => {
-					let iri = iri.as_str();
-					quote!(::treeldr::rdf_types::LiteralType::Any(unsafe { ::treeldr::iref::Iri::new_unchecked(#iri) }))
-				}
-				LiteralType::LangString(_tag) => {
-					todo!("lang string support")
-				}
-			};
-
-			quote!(rdf.interpret_literal(#value, #ty))
-		}
-	}
-}
-
-fn pattern_interpretation(pattern: &Pattern<Term>) -> TokenStream {
-	match pattern {
-		Pattern::Var(i) => {
-			let i = *i as usize;
-			quote!(&inputs[#i])
-		}
-		Pattern::Resource(term) => {
-			let term = term_interpretation(term);
-			quote!(&#term)
-		}
-	}
-}
-
 fn term_to_datatype(term: &Term) -> Result<TokenStream, Error> {
 	match term {
 		Term::Id(Id::Iri(iri)) => {
-- 
2.43.0


From 3f6fdaaf299ba918927e930e17943452ca0a62b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 48/69] fix: tie the head of an empty ordered list to its tail
 in derived serializers

---
 .../treeldr-rs-macros/src/generate/ser.rs     |  6 ++++
 generators/rust/treeldr-rs/src/ser/mod.rs     | 35 +++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 2f8366f..4ec0678 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -337,6 +337,12 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					let mut head = env.instantiate_pattern(&#head);
 
+					if self.0.is_empty() {
+						// The head and the tail are the same resource.
+						let tail = env.instantiate_pattern(&#tail);
+						::treeldr::ser::unify(rdf, &head, &tail)?;
+					}
+
 					for (i, item) in self.0.iter().enumerate() {
 						let rest = if i == self.0.len() - 1 {
 							env.instantiate_pattern(&#tail)
diff --git a/generators/rust/treeldr-rs/src/ser/mod.rs b/generators/rust/treeldr-rs/src/ser/mod.rs
index 3191e2d..1a9ba21 100644
--- a/generators/rust/treeldr-rs/src/ser/mod.rs
+++ b/generators/rust/treeldr-rs/src/ser/mod.rs
@@ -11,6 +11,41 @@ use crate::RdfContextMut;
 
 pub enum Error {
 	InvalidId(String),
+
+	/// Empty list whose tail is not identified by any IRI.
+	UnidentifiedTail,
+}
+
+/// Makes the `head` of an empty list denote its `tail`.
+pub fn unify<V, I>(
+	rdf: &mut RdfContextMut<V, I>,
+	head: &I::Resource,
+	tail: &I::Resource,
+) -> Result<(), Error>
+where
+	V: VocabularyMut,
+	I: TermInterpretationMut<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretationMut<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Ord,
+{
+	if head != tail {
+		let iris: Vec<_> = rdf
+			.interpretation
+			.iris_of(tail)
+			.filter_map(|i| rdf.vocabulary.iri(i).map(ToOwned::to_owned))
+			.collect();
+
+		if iris.is_empty() {
+			return Err(Error::UnidentifiedTail);
+		}
+
+		for iri in iris {
+			let i = rdf.vocabulary.insert(&iri);
+			rdf.interpretation.assign_iri(head, i);
+		}
+	}
+
+	Ok(())
 }
 
 pub trait SerializeLd<const N: usize, V, I>: Sized
-- 
2.43.0


From 3dfe34118e41abb546ea27bf2bc0a8ebe64e54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 49/69] fix: report unbound variables instead of crashing in
 derived deserializers

---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 30 ++++++++--------
 generators/rust/treeldr-rs/src/de/mod.rs      | 35 +++++++++++--------
 2 files changed, 35 insertions(+), 30 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 5a7c6dc..f70e2bb 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -76,7 +76,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+					let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().ok_or(::treeldr::DeserializeError::MissingData)?;
 
 					let mut selected = None;
 
@@ -210,10 +210,10 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					.into_unique()?;
 
 					if let Some(field_substitution) = field_substitution {
-						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
+						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution)?;
 
 						let item_graph =
-							::treeldr::de::select_graph(current_graph, &#field_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution);
+							::treeldr::de::select_graph(current_graph, &#field_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution)?;
 
 						let value = <#field_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -301,10 +301,10 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					.into_unique()?;
 
 					if let Some(variant_substitution) = variant_substitution {
-						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
+						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
 
 						let variant_graph =
-							::treeldr::de::select_graph(current_graph, &#variant_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution);
+							::treeldr::de::select_graph(current_graph, &#variant_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
 
 						let value = <#variant_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -395,13 +395,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 					for item_substitution in matching {
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -452,8 +452,8 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let mut head = #head.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
-					let tail = #tail.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+					let mut head = #head.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().ok_or(::treeldr::DeserializeError::MissingData)?;
+					let tail = #tail.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().ok_or(::treeldr::DeserializeError::MissingData)?;
 					let mut items = Vec::new();
 
 					while head != tail {
@@ -475,13 +475,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						.into_required_unique()?;
 
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -492,7 +492,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 
 						items.push(item);
 
-						head = item_substitution.get(rest).unwrap().clone();
+						head = item_substitution.get(rest).ok_or(::treeldr::DeserializeError::MissingData)?.clone();
 					}
 
 					Ok(Self(items))
@@ -532,13 +532,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						).into_required_unique()?;
 
 						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution);
+							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
 						let item_graph = ::treeldr::de::select_graph(
 							current_graph,
 							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
 							&item_substitution,
-						);
+						)?;
 
 						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
 							rdf,
@@ -723,7 +723,7 @@ fn generate_data(
 		)
 		.into_required_unique()?;
 
-		let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().unwrap();
+		let resource = #resource.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().ok_or(::treeldr::DeserializeError::MissingData)?;
 
 		let mut result = None;
 
diff --git a/generators/rust/treeldr-rs/src/de/mod.rs b/generators/rust/treeldr-rs/src/de/mod.rs
index b0d9951..ada1f5b 100644
--- a/generators/rust/treeldr-rs/src/de/mod.rs
+++ b/generators/rust/treeldr-rs/src/de/mod.rs
@@ -12,28 +12,33 @@ use crate::{pattern::Substitution, Pattern, RdfContext};
 pub fn select_inputs<R: Clone, const N: usize>(
 	inputs: &[Pattern<R>; N],
 	substitution: &Substitution<R>,
-) -> [R; N] {
-	inputs
+) -> Result<[R; N], Error> {
+	let resources = inputs
 		.iter()
-		.map(|p| p.apply(substitution).into_resource().unwrap())
-		.collect::<Vec<_>>()
-		.try_into()
-		.ok()
-		.unwrap()
+		.map(|p| {
+			p.apply(substitution)
+				.into_resource()
+				.ok_or(Error::MissingData)
+		})
+		.collect::<Result<Vec<_>, _>>()?;
+
+	Ok(resources.try_into().ok().unwrap())
 }
 
 pub fn select_graph<R: Clone>(
 	current_graph: Option<&R>,
 	graph_pattern: &Option<Option<Pattern<R>>>,
 	substitution: &Substitution<R>,
-) -> Option<R> {
-	graph_pattern
-		.as_ref()
-		.map(|g| {
-			g.as_ref()
-				.map(|p| p.apply(substitution).into_resource().unwrap())
-		})
-		.unwrap_or_else(|| current_graph.cloned())
+) -> Result<Option<R>, Error> {
+	match graph_pattern {
+		Some(Some(p)) => p
+			.apply(substitution)
+			.into_resource()
+			.map(Some)
+			.ok_or(Error::MissingData),
+		Some(None) => Ok(None),
+		None => Ok(current_graph.cloned()),
+	}
 }
 
 #[derive(Debug, thiserror::Error)]
-- 
2.43.0


From 099e654464bed70bcb52faff1256228e6fe2b22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:57 +0000
Subject: [PATCH 50/69] fix: never bind a graph variable to the default graph
 instead of crashing in derived deserializers

---
 generators/rust/treeldr-rs/src/pattern.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs/src/pattern.rs b/generators/rust/treeldr-rs/src/pattern.rs
index 190e878..72b4569 100644
--- a/generators/rust/treeldr-rs/src/pattern.rs
+++ b/generators/rust/treeldr-rs/src/pattern.rs
@@ -133,7 +133,8 @@ impl<R> Substitution<R> {
 		}
 
 		if let Some(Pattern::Var(x)) = pattern.3 {
-			let g = value.3.unwrap();
+			// The default graph is not a resource.
+			let g = value.3?;
 			if let Some(old_value) = result.set(x, Some(g.clone())) {
 				if old_value != *g {
 					return None;
-- 
2.43.0


From 1e77de9b02a907e2e9b0158730b202e8daf01ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:00 +0000
Subject: [PATCH 51/69] fix: report cyclic lists instead of following them
 forever in derived deserializers

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index f70e2bb..17971e6 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -456,7 +456,13 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let tail = #tail.ok_or(::treeldr::DeserializeError::MissingData)?.apply(&substitution).into_resource().ok_or(::treeldr::DeserializeError::MissingData)?;
 					let mut items = Vec::new();
 
+					let mut visited = ::std::collections::BTreeSet::new();
+
 					while head != tail {
+						if !visited.insert(head.clone()) {
+							return Err(::treeldr::DeserializeError::MissingData)
+						}
+
 						let mut item_substitution = substitution.clone();
 						item_substitution.push(Some(head));
 						let rest = item_substitution.intro(1 + #node_intro);
-- 
2.43.0


From 61fd236c41f95fd9467ebf474f459b458e50e427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:04 +0000
Subject: [PATCH 52/69] fix: derived deserializers of single item sized lists
 do not compile

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 17971e6..08152f8 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -579,7 +579,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					)
 					.into_required_unique()?;
 
-					let mut result = (#(#init_items),*);
+					let mut result = (#(#init_items,)*);
 
 					#(#items)*
 
-- 
2.43.0


From 1e0bd912ddc2977e044245c877e097d5cda281f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:08 +0000
Subject: [PATCH 53/69] fix: a sum variant that cannot be read hides the other
 variants in derived deserializers

---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 08152f8..799a123 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -301,20 +301,25 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					.into_unique()?;
 
 					if let Some(variant_substitution) = variant_substitution {
-						let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
+						let value: Result<#variant_ty, ::treeldr::DeserializeError> = (|| {
+							let variant_inputs = ::treeldr::de::select_inputs(&#variant_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
 
-						let variant_graph =
-							::treeldr::de::select_graph(current_graph, &#variant_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
+							let variant_graph =
+								::treeldr::de::select_graph(current_graph, &#variant_graph.ok_or(::treeldr::DeserializeError::MissingData)?, &variant_substitution)?;
 
-						let value = <#variant_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
-							rdf,
-							dataset,
-							variant_graph.as_ref(),
-							&variant_inputs
-						)?;
+							<#variant_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
+								rdf,
+								dataset,
+								variant_graph.as_ref(),
+								&variant_inputs
+							)
+						})();
 
-						if let Some(other) = result.replace(Self::#variant_ident(value)) {
-							return Err(::treeldr::DeserializeError::DataAmbiguity)
+						// A variant whose value cannot be read is not a candidate.
+						if let Ok(value) = value {
+							if result.replace(Self::#variant_ident(value)).is_some() {
+								return Err(::treeldr::DeserializeError::DataAmbiguity)
+							}
 						}
 					}
 				}
-- 
2.43.0


From dfb8d2884c8979c36f4fd9f71c595f0b9f8ad3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:31 +0000
Subject: [PATCH 54/69] fix: terms missing from the vocabulary prevent derived
 deserializers from reading the rest

---
 .../rust/treeldr-rs-macros/src/generate/de.rs | 105 +++++++++---------
 1 file changed, 54 insertions(+), 51 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 799a123..57e056b 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -196,18 +196,19 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut field_substitution = substitution.clone();
 					field_substitution.intro(#field_intro);
 
-					let field_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						field_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#field_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					let field_substitution = match #field_dataset {
+						Some(quads) => ::treeldr::de::Matching::new(
+							dataset,
+							field_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								quads.iter().map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						// Unknown terms do not occur in the dataset.
+						None => None
+					};
 
 					if let Some(field_substitution) = field_substitution {
 						let field_inputs = ::treeldr::de::select_inputs(&#field_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &field_substitution)?;
@@ -287,18 +288,19 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut variant_substitution = substitution.clone();
 					variant_substitution.intro(#variant_intro);
 
-					let variant_substitution = ::treeldr::de::Matching::new(
-						dataset,
-						variant_substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							#variant_dataset
-								.ok_or(::treeldr::DeserializeError::MissingData)?
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						),
-					)
-					.into_unique()?;
+					let variant_substitution = match #variant_dataset {
+						Some(quads) => ::treeldr::de::Matching::new(
+							dataset,
+							variant_substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								quads.iter().map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							),
+						)
+						.into_unique()?,
+						// Unknown terms do not occur in the dataset.
+						None => None
+					};
 
 					if let Some(variant_substitution) = variant_substitution {
 						let value: Result<#variant_ty, ::treeldr::DeserializeError> = (|| {
@@ -385,37 +387,38 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let mut items = Vec::new();
 
 					substitution.intro(#node_intro);
-					let matching_dataset = #node_dataset
-						.ok_or(::treeldr::DeserializeError::MissingData)?;
-					let matching = ::treeldr::de::Matching::new(
-						dataset,
-						substitution,
-						::treeldr::utils::QuadsExt::with_default_graph(
-							matching_dataset
-								.iter()
-								.map(::treeldr::rdf_types::Quad::as_ref),
-							current_graph
-						)
-					);
+					// Unknown terms do not occur in the dataset.
+					if let Some(matching_dataset) = #node_dataset {
+						let matching = ::treeldr::de::Matching::new(
+							dataset,
+							substitution,
+							::treeldr::utils::QuadsExt::with_default_graph(
+								matching_dataset
+									.iter()
+									.map(::treeldr::rdf_types::Quad::as_ref),
+								current_graph
+							)
+						);
 
-					for item_substitution in matching {
-						let item_inputs =
-							::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
+						for item_substitution in matching {
+							let item_inputs =
+								::treeldr::de::select_inputs(&#node_inputs.ok_or(::treeldr::DeserializeError::MissingData)?, &item_substitution)?;
 
-						let item_graph = ::treeldr::de::select_graph(
-							current_graph,
-							&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
-							&item_substitution,
-						)?;
+							let item_graph = ::treeldr::de::select_graph(
+								current_graph,
+								&#node_graph.ok_or(::treeldr::DeserializeError::MissingData)?,
+								&item_substitution,
+							)?;
 
-						let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
-							rdf,
-							dataset,
-							item_graph.as_ref(),
-							&item_inputs
-						)?;
+							let item = <#node_ty as ::treeldr::DeserializeLd<#m, V, I>>::deserialize_ld_with(
+								rdf,
+								dataset,
+								item_graph.as_ref(),
+								&item_inputs
+							)?;
 
-						items.push(item);
+							items.push(item);
+						}
 					}
 
 					Ok(Self(items))
-- 
2.43.0


From c8ebfffbfb5790c7069461732b06e474ca167fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:53 +0000
Subject: [PATCH 55/69] fix: report ambiguous strings in the Rust runtime

---
 generators/rust/treeldr-rs/src/datatypes.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/datatypes.rs b/generators/rust/treeldr-rs/src/datatypes.rs
index 39e6513..8e9543e 100644
--- a/generators/rust/treeldr-rs/src/datatypes.rs
+++ b/generators/rust/treeldr-rs/src/datatypes.rs
@@ -119,17 +119,19 @@ where
 	where
 		D: Dataset<Resource = I::Resource>,
 	{
+		let mut result = None;
+
 		for l in rdf.interpretation.literals_of(&inputs[0]) {
 			let literal = rdf.vocabulary.literal(l).unwrap();
 			if let LiteralTypeRef::Any(i) = literal.type_ {
 				let iri = rdf.vocabulary.iri(i).unwrap();
-				if iri == XSD_STRING {
-					return Ok(literal.value.to_owned());
+				if iri == XSD_STRING && result.replace(literal.value.to_owned()).is_some() {
+					return Err(DeserializeError::AmbiguousLiteralValue);
 				}
 			}
 		}
 
-		Err(DeserializeError::MissingData)
+		result.ok_or(DeserializeError::MissingData)
 	}
 }
 
-- 
2.43.0


From 9faadde454d11e5f6ca173039dd856cdde238165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 56/69] fix: derive macros crash on raw identifiers

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs  | 8 ++++----
 generators/rust/treeldr-rs-macros/src/generate/mod.rs | 8 ++++++++
 generators/rust/treeldr-rs-macros/src/generate/ser.rs | 4 ++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 57e056b..6454fe0 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -171,7 +171,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 				.collect::<Result<_, _>>()?;
 
 			let opt_fields = layout_fields.iter().copied().map(|(name, field)| {
-				let ident = syn::Ident::new(name, Span::call_site());
+				let ident = super::component_ident(name);
 				let ty = input
 					.type_map
 					.get(field.value.layout.id().as_iri().unwrap())
@@ -180,7 +180,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			});
 
 			let deserialize_fields = layout_fields.iter().copied().map(|(name, field)| {
-				let field_ident = syn::Ident::new(name, Span::call_site());
+				let field_ident = super::component_ident(name);
 				let field_ty = input
 					.type_map
 					.get(field.value.layout.id().as_iri().unwrap())
@@ -229,7 +229,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			});
 
 			let unwrap_fields = layout_fields.iter().copied().map(|(name, f)| {
-				let ident = syn::Ident::new(name, Span::call_site());
+				let ident = super::component_ident(name);
 				if f.required {
 					quote!(#ident: data.#ident.ok_or_else(|| ::treeldr::DeserializeError::MissingField(#name.to_owned()))?)
 				} else {
@@ -273,7 +273,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			let dataset = dataset_to_array(&layout.dataset);
 
 			let variants = layout.variants.iter().map(|variant| {
-				let variant_ident = syn::Ident::new(&variant.name, Span::call_site());
+				let variant_ident = super::component_ident(&variant.name);
 				let variant_ty = input
 					.type_map
 					.get(variant.value.layout.id().as_iri().unwrap())
diff --git a/generators/rust/treeldr-rs-macros/src/generate/mod.rs b/generators/rust/treeldr-rs-macros/src/generate/mod.rs
index 2e6ab62..3266043 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/mod.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/mod.rs
@@ -1,2 +1,10 @@
 pub mod de;
 pub mod ser;
+
+/// Identifier of the field or variant with the given name.
+fn component_ident(name: &str) -> syn::Ident {
+	match name.strip_prefix("r#") {
+		Some(raw) => syn::Ident::new_raw(raw, proc_macro2::Span::call_site()),
+		None => syn::Ident::new(name, proc_macro2::Span::call_site()),
+	}
+}
diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index 4ec0678..b417d16 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -176,7 +176,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 					let name = key
 						.as_str()
 						.ok_or_else(|| Error::InvalidFieldIdent(key.clone()))?;
-					let field_ident = syn::Ident::new(name, Span::call_site());
+					let field_ident = super::component_ident(name);
 					let field_intro = field.intro;
 					let field_dataset = dataset_to_array(&field.dataset);
 					let field_layout = input
@@ -236,7 +236,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 			let dataset = dataset_to_array(&layout.dataset);
 
 			let variants = layout.variants.iter().map(|variant| {
-				let variant_ident = syn::Ident::new(&variant.name, Span::call_site());
+				let variant_ident = super::component_ident(&variant.name);
 				let variant_intro = variant.intro;
 				let variant_dataset = dataset_to_array(&variant.dataset);
 				let variant_layout = input
-- 
2.43.0


From 5296123271ae09045f9fbf825f770f6b210bfcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:49 +0000
Subject: [PATCH 57/69] fix: derived serializers of text strings do not compile

---
 generators/rust/treeldr-rs-macros/src/generate/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/ser.rs b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
index b417d16..bc294fe 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/ser.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/ser.rs
@@ -155,7 +155,7 @@ pub fn generate(input: DeriveInput) -> Result<TokenStream, Error> {
 						env.instantiate_dataset(&#dataset, current_graph, output);
 
 						let literal = rdf.vocabulary_literal(::treeldr::rdf_types::Literal::new(
-							::std::convert::AsRef::<str>::as_ref(&self.0),
+							::std::convert::AsRef::<str>::as_ref(&self.0).to_owned(),
 							::treeldr::rdf_types::LiteralType::Any(#datatype)
 						));
 						let target = env.instantiate_pattern(&#target);
-- 
2.43.0


From 6b9c9337bdb40c2c1df3ac0e117fd390cb4b3b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 58/69] fix: derived deserializers skip ill-typed literals

---
 generators/rust/treeldr-rs-macros/src/generate/de.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/generate/de.rs b/generators/rust/treeldr-rs-macros/src/generate/de.rs
index 6454fe0..af71dab 100644
--- a/generators/rust/treeldr-rs-macros/src/generate/de.rs
+++ b/generators/rust/treeldr-rs-macros/src/generate/de.rs
@@ -756,9 +756,14 @@ fn generate_data(
 			};
 
 			if ty_iri == expected_ty_iri {
-				if let Ok(value) = ::treeldr::de::FromRdfLiteral::from_rdf_literal(literal.value) {
-					if result.replace(value).is_some() {
-						return Err(::treeldr::DeserializeError::AmbiguousLiteralValue)
+				match ::treeldr::de::FromRdfLiteral::from_rdf_literal(literal.value) {
+					Ok(value) => {
+						if result.replace(value).is_some() {
+							return Err(::treeldr::DeserializeError::AmbiguousLiteralValue)
+						}
+					}
+					Err(_) => {
+						return Err(::treeldr::DeserializeError::InvalidLiteralValue)
 					}
 				}
 			}
-- 
2.43.0


From 79c63551ed293817d719634acec52e561dc321e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:01 +0000
Subject: [PATCH 59/69] fix: generated Rust literals lose their kind, resource
 and datatype

---
 generators/rust/generator/src/lib.rs | 42 +++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 214818b..13daa60 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -229,6 +229,33 @@ where
 	Ok(quote!(dataset(#(#quads),*)))
 }
 
+pub fn generate_resource_attribute<V, I>(
+	rdf: RdfContext<V, I>,
+	resource: &Pattern<I::Resource>,
+) -> Result<TokenStream, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+{
+	let resource = pattern_to_id(rdf, resource)?.to_string();
+
+	Ok(quote!(resource(#resource)))
+}
+
+pub fn generate_datatype_attribute<V, I>(
+	rdf: RdfContext<V, I>,
+	datatype: &I::Resource,
+) -> Result<TokenStream, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+	I::Resource: Clone,
+{
+	let datatype = pattern_to_id(rdf, &Pattern::Resource(datatype.clone()))?.to_string();
+
+	Ok(quote!(datatype(#datatype)))
+}
+
 pub fn generate_value_input_attribute<V, I>(
 	rdf: RdfContext<V, I>,
 	input: &[Pattern<I::Resource>],
@@ -304,10 +331,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(boolean, #input, #intro, #dataset, #resource, #datatype)]
 						pub struct #ident(bool);
 					})
 				}
@@ -326,10 +355,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(string, #input, #intro, #dataset, #resource, #datatype)]
 						pub struct #ident(String);
 					})
 				}
@@ -337,10 +368,12 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
+						#[tldr(bytes, #input, #intro, #dataset, #resource, #datatype)]
 						pub struct #ident(Vec<u8>);
 					})
 				}
@@ -349,10 +382,11 @@ where
 				let input = generate_input_attribute(layout.input);
 				let intro = generate_intro_attribute(layout.intro, layout.input);
 				let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+				let resource = generate_resource_attribute(rdf, &layout.resource)?;
 
 				Ok(quote! {
 					#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-					#[tldr(id, #input, #intro, #dataset)]
+					#[tldr(id, #input, #intro, #dataset, #resource)]
 					pub struct #ident(Id);
 				})
 			}
-- 
2.43.0


From b12bd39e10f433633945aad0385616df67d19503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:03 +0000
Subject: [PATCH 60/69] fix: generated Rust numbers have an undefined type

---
 generators/rust/generator/src/lib.rs | 38 ++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 13daa60..9d73515 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -34,6 +34,9 @@ pub enum Error<R = Term> {
 
 	#[error("no IRI representation")]
 	NoIriRepresentation,
+
+	#[error("no Rust type for numbers with the datatype {0}")]
+	UnsupportedNumberDatatype(R),
 }
 
 #[derive(Debug, thiserror::Error)]
@@ -256,6 +259,34 @@ where
 	Ok(quote!(datatype(#datatype)))
 }
 
+/// Rust type of the numbers with the given datatype.
+pub fn number_type<V, I>(
+	rdf: RdfContext<V, I>,
+	datatype: &I::Resource,
+) -> Result<TokenStream, Error<I::Resource>>
+where
+	V: IriVocabulary,
+	I: ReverseIriInterpretation<Iri = V::Iri>,
+	I::Resource: Clone,
+{
+	const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
+
+	rdf.interpretation
+		.iris_of(datatype)
+		.find_map(|i| match rdf.vocabulary.iri(i)?.strip_prefix(XSD)? {
+			"unsignedByte" => Some(quote!(u8)),
+			"unsignedShort" => Some(quote!(u16)),
+			"unsignedInt" => Some(quote!(u32)),
+			"unsignedLong" => Some(quote!(u64)),
+			"byte" => Some(quote!(i8)),
+			"short" => Some(quote!(i16)),
+			"int" => Some(quote!(i32)),
+			"long" => Some(quote!(i64)),
+			_ => None,
+		})
+		.ok_or_else(|| Error::UnsupportedNumberDatatype(datatype.clone()))
+}
+
 pub fn generate_value_input_attribute<V, I>(
 	rdf: RdfContext<V, I>,
 	input: &[Pattern<I::Resource>],
@@ -344,11 +375,14 @@ where
 					let input = generate_input_attribute(layout.input);
 					let intro = generate_intro_attribute(layout.intro, layout.input);
 					let dataset = generate_dataset_attribute(rdf, &layout.dataset)?;
+					let resource = generate_resource_attribute(rdf, &layout.resource)?;
+					let datatype = generate_datatype_attribute(rdf, &layout.datatype)?;
+					let number = number_type(rdf, &layout.datatype)?;
 
 					Ok(quote! {
 						#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
-						#[tldr(#input, #intro, #dataset)]
-						pub struct #ident(Number);
+						#[tldr(number, #input, #intro, #dataset, #resource, #datatype)]
+						pub struct #ident(#number);
 					})
 				}
 				DataLayout::TextString(layout) => {
-- 
2.43.0


From 70d833c866c7be103d98902463259b4e1013e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:04 +0000
Subject: [PATCH 61/69] fix: generated Rust identifiers do not compile

---
 generators/rust/generator/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index 9d73515..d54dc71 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -421,7 +421,15 @@ where
 				Ok(quote! {
 					#[derive(treeldr::SerializeLd, treeldr::DeserializeLd)]
 					#[tldr(id, #input, #intro, #dataset, #resource)]
-					pub struct #ident(Id);
+					pub struct #ident(::treeldr::rdf_types::Id);
+
+					impl ::treeldr::AsId for #ident {
+						fn as_id(
+							&self
+						) -> ::treeldr::rdf_types::Id<&::treeldr::iref::Iri, &::treeldr::rdf_types::BlankId> {
+							::treeldr::AsId::as_id(&self.0)
+						}
+					}
 				})
 			}
 		},
-- 
2.43.0


From 517ff7865df395de6815c474ba1fec1ea08d29f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:06 +0000
Subject: [PATCH 62/69] fix: optional fields are required in generated Rust
 structs

---
 generators/rust/generator/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index d54dc71..ddb6439 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -450,10 +450,15 @@ where
 						let input = generate_value_input_attribute(rdf, &f.value.input)?;
 						let graph = generate_value_graph_attribute(rdf, &f.value.graph)?;
 						let layout = options.layout_ref(rdf, &f.value.layout)?;
+						let ty = if f.required {
+							quote!(#layout)
+						} else {
+							quote!(Option<#layout>)
+						};
 
 						Ok(quote! {
 							#[tldr(#intro, #dataset, #input, #graph)]
-							#f_ident : #layout
+							#f_ident : #ty
 						})
 					}
 					other => Err(Error::InvalidFieldIdent(other.clone())),
-- 
2.43.0


From d2dcad210ba7adaa0d4cf612f910ff801d4ee7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:08 +0000
Subject: [PATCH 63/69] fix: generated Rust sets do not compile

---
 generators/rust/generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/rust/generator/src/lib.rs b/generators/rust/generator/src/lib.rs
index ddb6439..e4dbd04 100644
--- a/generators/rust/generator/src/lib.rs
+++ b/generators/rust/generator/src/lib.rs
@@ -523,7 +523,7 @@ where
 					#[tldr(set, #intro, #dataset, #input)]
 					pub struct #ident(
 						#[tldr(#item_intro, #item_dataset, #item_input, #item_graph)]
-						::std::collection::BTreeSet<#item_layout>
+						Vec<#item_layout>
 					);
 				})
 			}
-- 
2.43.0


From 789d166808f1904a7f7e908ed21d1dc7e2e399f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 64/69] fix: Rust types of the unit and boolean presets cannot
 be read or written

---
 generators/rust/treeldr-rs/src/datatypes.rs | 46 +++++++++++++++++++--
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs/src/datatypes.rs b/generators/rust/treeldr-rs/src/datatypes.rs
index 8e9543e..eaf20d1 100644
--- a/generators/rust/treeldr-rs/src/datatypes.rs
+++ b/generators/rust/treeldr-rs/src/datatypes.rs
@@ -9,7 +9,8 @@ use rdf_types::{
 };
 
 use crate::{
-	DeserializeError, DeserializeLd, RdfContext, RdfContextMut, SerializeError, SerializeLd,
+	de::FromRdfLiteral, DeserializeError, DeserializeLd, RdfContext, RdfContextMut, SerializeError,
+	SerializeLd,
 };
 
 impl<V, I> SerializeLd<1, V, I> for rdf_types::Id
@@ -82,6 +83,45 @@ where
 	}
 }
 
+impl<const N: usize, V, I> SerializeLd<N, V, I> for ()
+where
+	V: VocabularyMut,
+	I: InterpretationMut<V>
+		+ TermInterpretationMut<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretationMut<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Clone + Ord,
+{
+	fn serialize_ld_with(
+		&self,
+		_rdf: &mut RdfContextMut<V, I>,
+		_inputs: &[I::Resource; N],
+		_current_graph: Option<&I::Resource>,
+		_output: &mut BTreeDataset<I::Resource>,
+	) -> Result<(), SerializeError> {
+		Ok(())
+	}
+}
+
+impl<const N: usize, V, I> DeserializeLd<N, V, I> for ()
+where
+	V: Vocabulary,
+	I: TermInterpretation<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretation<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Clone + Ord,
+{
+	fn deserialize_ld_with<D>(
+		_rdf: RdfContext<V, I>,
+		_dataset: &D,
+		_graph: Option<&I::Resource>,
+		_inputs: &[I::Resource; N],
+	) -> Result<Self, DeserializeError>
+	where
+		D: PatternMatchingDataset<Resource = I::Resource>,
+	{
+		Ok(())
+	}
+}
+
 impl<V, I> SerializeLd<1, V, I> for String
 where
 	V: VocabularyMut,
@@ -175,7 +215,6 @@ macro_rules! xsd_datatypes {
 				where
 					D: PatternMatchingDataset<Resource = I::Resource>,
 				{
-					use xsd_types::ParseXsd;
 					let mut result = None;
 					let mut has_literal = false;
 					for l in rdf.interpretation.literals_of(&inputs[0]) {
@@ -184,7 +223,7 @@ macro_rules! xsd_datatypes {
 						if let LiteralTypeRef::Any(i) = literal.type_ {
 							let iri = rdf.vocabulary.iri(i).unwrap();
 							if iri == xsd_types::$xsd_iri {
-								match Self::parse_xsd(&literal.value) {
+								match Self::from_rdf_literal(literal.value) {
 									Ok(value) => {
 										if result.replace(value).is_some() {
 											return Err(DeserializeError::AmbiguousLiteralValue)
@@ -213,6 +252,7 @@ macro_rules! xsd_datatypes {
 }
 
 xsd_datatypes! {
+	bool: XSD_BOOLEAN,
 	u8: XSD_UNSIGNED_BYTE,
 	u16: XSD_UNSIGNED_SHORT,
 	u32: XSD_UNSIGNED_INT,
-- 
2.43.0


From b90dd93e3815d8e26283e708885ad949457b377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:47 +0000
Subject: [PATCH 65/69] fix: Rust types of the never and always layouts are not
 defined

---
 generators/rust/treeldr-rs/src/lib.rs     |  2 +
 generators/rust/treeldr-rs/src/trivial.rs | 98 +++++++++++++++++++++++
 2 files changed, 100 insertions(+)
 create mode 100644 generators/rust/treeldr-rs/src/trivial.rs

diff --git a/generators/rust/treeldr-rs/src/lib.rs b/generators/rust/treeldr-rs/src/lib.rs
index 3c8be9e..8c840a7 100644
--- a/generators/rust/treeldr-rs/src/lib.rs
+++ b/generators/rust/treeldr-rs/src/lib.rs
@@ -40,12 +40,14 @@ pub mod de;
 pub mod pattern;
 mod rdf;
 pub mod ser;
+mod trivial;
 pub mod utils;
 
 pub use de::{DeserializeLd, Error as DeserializeError};
 pub use pattern::Pattern;
 pub use rdf::{RdfContext, RdfContextMut};
 pub use ser::{Error as SerializeError, SerializeLd};
+pub use trivial::{Always, Never};
 
 pub trait AsId {
 	fn as_id(&self) -> rdf_types::Id<&Iri, &BlankId>;
diff --git a/generators/rust/treeldr-rs/src/trivial.rs b/generators/rust/treeldr-rs/src/trivial.rs
new file mode 100644
index 0000000..d9a1627
--- /dev/null
+++ b/generators/rust/treeldr-rs/src/trivial.rs
@@ -0,0 +1,98 @@
+use rdf_types::{
+	dataset::{BTreeDataset, PatternMatchingDataset},
+	interpretation::{
+		ReverseTermInterpretation, ReverseTermInterpretationMut, TermInterpretation,
+		TermInterpretationMut,
+	},
+	InterpretationMut, Vocabulary, VocabularyMut,
+};
+
+use crate::{
+	DeserializeError, DeserializeLd, RdfContext, RdfContextMut, SerializeError, SerializeLd,
+};
+
+/// Type of the `never` layout, without values.
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
+pub enum Never {}
+
+/// Type of the `always` layout, representing any data.
+#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
+pub struct Always;
+
+impl<const N: usize, V, I> SerializeLd<N, V, I> for Never
+where
+	V: VocabularyMut,
+	I: InterpretationMut<V>
+		+ TermInterpretationMut<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretationMut<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Clone + Ord,
+{
+	fn serialize_ld_with(
+		&self,
+		_rdf: &mut RdfContextMut<V, I>,
+		_inputs: &[I::Resource; N],
+		_current_graph: Option<&I::Resource>,
+		_output: &mut BTreeDataset<I::Resource>,
+	) -> Result<(), SerializeError> {
+		match *self {}
+	}
+}
+
+impl<const N: usize, V, I> DeserializeLd<N, V, I> for Never
+where
+	V: Vocabulary,
+	I: TermInterpretation<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretation<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Clone + Ord,
+{
+	fn deserialize_ld_with<D>(
+		_rdf: RdfContext<V, I>,
+		_dataset: &D,
+		_graph: Option<&I::Resource>,
+		_inputs: &[I::Resource; N],
+	) -> Result<Self, DeserializeError>
+	where
+		D: PatternMatchingDataset<Resource = I::Resource>,
+	{
+		Err(DeserializeError::MissingData)
+	}
+}
+
+impl<const N: usize, V, I> SerializeLd<N, V, I> for Always
+where
+	V: VocabularyMut,
+	I: InterpretationMut<V>
+		+ TermInterpretationMut<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretationMut<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Clone + Ord,
+{
+	fn serialize_ld_with(
+		&self,
+		_rdf: &mut RdfContextMut<V, I>,
+		_inputs: &[I::Resource; N],
+		_current_graph: Option<&I::Resource>,
+		_output: &mut BTreeDataset<I::Resource>,
+	) -> Result<(), SerializeError> {
+		Ok(())
+	}
+}
+
+impl<const N: usize, V, I> DeserializeLd<N, V, I> for Always
+where
+	V: Vocabulary,
+	I: TermInterpretation<V::Iri, V::BlankId, V::Literal>
+		+ ReverseTermInterpretation<Iri = V::Iri, BlankId = V::BlankId, Literal = V::Literal>,
+	I::Resource: Clone + Ord,
+{
+	fn deserialize_ld_with<D>(
+		_rdf: RdfContext<V, I>,
+		_dataset: &D,
+		_graph: Option<&I::Resource>,
+		_inputs: &[I::Resource; N],
+	) -> Result<Self, DeserializeError>
+	where
+		D: PatternMatchingDataset<Resource = I::Resource>,
+	{
+		Ok(Self)
+	}
+}
-- 
2.43.0


From d7cf9c2f064ad3b6918332e02f2c2e028a48a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 66/69] fix: refuse unknown words in tldr attributes

---
 .../rust/treeldr-rs-macros/src/parse.rs       | 64 +++++++------------
 1 file changed, 22 insertions(+), 42 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/parse.rs b/generators/rust/treeldr-rs-macros/src/parse.rs
index b225e2e..9ca4491 100644
--- a/generators/rust/treeldr-rs-macros/src/parse.rs
+++ b/generators/rust/treeldr-rs-macros/src/parse.rs
@@ -463,73 +463,59 @@ impl TypeAttributes {
 												ident.span(),
 											)?;
 											replace(&mut result.base, value, span)?;
-										}
-
-										if ident == "prefix" {
+										} else if ident == "prefix" {
 											let values = expect_binding_list_argument(
 												&mut tokens,
 												ident.span(),
 											)?
 											.0;
 											result.prefixes.extend(values)
-										}
-
-										if ident == "id" {
+										} else if ident == "id" {
 											let (value, span) = expect_compact_iri_argument(
 												&mut tokens,
 												ident.span(),
 											)?;
 											replace(&mut result.id, value, span)?;
-										}
-
-										if ident == "head" {
+										} else if ident == "head" {
 											let (value, span) =
 												expect_pattern_argument(&mut tokens, ident.span())?;
 											replace(&mut result.head, value, span)?;
-										}
-
-										if ident == "tail" {
+										} else if ident == "tail" {
 											let (value, span) =
 												expect_pattern_argument(&mut tokens, ident.span())?;
 											replace(&mut result.tail, value, span)?;
-										}
-
-										if ident == "resource" {
+										} else if ident == "resource" {
 											let (value, span) =
 												expect_pattern_argument(&mut tokens, ident.span())?;
 											replace(&mut result.resource, value, span)?;
-										}
-
-										if ident == "datatype" {
+										} else if ident == "datatype" {
 											let (value, span) = expect_compact_iri_argument(
 												&mut tokens,
 												ident.span(),
 											)?;
 											replace(&mut result.datatype, value, span)?;
-										}
-
-										if ident == "input" {
+										} else if ident == "input" {
 											let (value, span) = expect_string_list_argument(
 												&mut tokens,
 												ident.span(),
 											)?;
 											replace(&mut result.input, value, span)?;
-										}
-
-										if ident == "intro" {
+										} else if ident == "intro" {
 											let (value, span) = expect_string_list_argument(
 												&mut tokens,
 												ident.span(),
 											)?;
 											replace(&mut result.intro, value, span)?;
-										}
-
-										if ident == "dataset" {
+										} else if ident == "dataset" {
 											let (value, span) = expect_quad_list_argument(
 												&mut tokens,
 												ident.span(),
 											)?;
 											replace(&mut result.dataset, value, span)?;
+										} else {
+											return Err(Error::UnexpectedToken(TokenTree::Ident(
+												ident,
+											)));
 										}
 									}
 								},
@@ -587,41 +573,35 @@ impl ComponentAttributes {
 										let (value, span) =
 											expect_string_argument(&mut tokens, ident.span())?;
 										replace(&mut result.head, value, span)?;
-									}
-
-									if ident == "rest" {
+									} else if ident == "rest" {
 										let (value, span) =
 											expect_string_argument(&mut tokens, ident.span())?;
 										replace(&mut result.rest, value, span)?;
-									}
-
-									if ident == "intro" {
+									} else if ident == "intro" {
 										let (value, span) =
 											expect_string_list_argument(&mut tokens, ident.span())?;
 										replace(&mut result.intro, value, span)?;
-									}
-
-									if ident == "dataset" {
+									} else if ident == "dataset" {
 										let (value, span) =
 											expect_quad_list_argument(&mut tokens, ident.span())?;
 										replace(&mut result.dataset, value, span)?;
-									}
-
-									if ident == "input" {
+									} else if ident == "input" {
 										let (value, span) = expect_pattern_list_argument(
 											&mut tokens,
 											ident.span(),
 										)?;
 										replace(&mut result.input, value, span)?;
-									}
-
-									if ident == "graph" {
+									} else if ident == "graph" {
 										let (value, span) = expect_argument(
 											&mut tokens,
 											ident.span(),
 											parse_graph_value,
 										)?;
 										replace(&mut result.graph, value, span)?;
+									} else {
+										return Err(Error::UnexpectedToken(TokenTree::Ident(
+											ident,
+										)));
 									}
 								}
 								other => return Err(Error::UnexpectedToken(other)),
-- 
2.43.0


From 37f47a763499204835ef3fa32d51edcd6f27eac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:21 +0000
Subject: [PATCH 67/69] fix: refuse what follows the graph in tldr attributes

---
 generators/rust/treeldr-rs-macros/src/parse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/parse.rs b/generators/rust/treeldr-rs-macros/src/parse.rs
index 9ca4491..ad653d8 100644
--- a/generators/rust/treeldr-rs-macros/src/parse.rs
+++ b/generators/rust/treeldr-rs-macros/src/parse.rs
@@ -806,6 +806,11 @@ fn quad_token(token: TokenTree) -> Result<(Quad, Span), Error> {
 										match tokens.next() {
 											Some(t) => {
 												let g = pattern_token(t)?.0;
+												if parse_opt_comma(&mut tokens)? {
+													if let Some(t) = tokens.next() {
+														return Err(Error::UnexpectedToken(t));
+													}
+												}
 												Some(g)
 											}
 											None => None,
@@ -959,6 +964,9 @@ fn parse_graph_value(tokens: TokenStream, span: Span) -> Result<(GraphValue, Spa
 						match tokens.next() {
 							Some(t) => {
 								let (pattern, span) = pattern_token(t)?;
+								if let Some(t) = tokens.next() {
+									return Err(Error::UnexpectedToken(t));
+								}
 								Ok((GraphValue::Some(pattern), span))
 							}
 							None => Err(Error::MissingToken(span)),
-- 
2.43.0


From 971e68ac3bead29130e7d7f6c5d28bf1f08e1b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:26 +0000
Subject: [PATCH 68/69] fix: read the id argument of derived types

---
 generators/rust/treeldr-rs-macros/src/parse.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generators/rust/treeldr-rs-macros/src/parse.rs b/generators/rust/treeldr-rs-macros/src/parse.rs
index ad653d8..a04aa92 100644
--- a/generators/rust/treeldr-rs-macros/src/parse.rs
+++ b/generators/rust/treeldr-rs-macros/src/parse.rs
@@ -450,13 +450,17 @@ impl TypeAttributes {
 			if attr.path().is_ident("tldr") {
 				match attr.meta {
 					syn::Meta::List(meta) => {
-						let mut tokens = meta.tokens.into_iter();
+						let mut tokens = meta.tokens.into_iter().peekable();
 
 						while let Some(token) = tokens.next() {
 							match token {
 								TokenTree::Ident(ident) => match Kind::from_ident(&ident) {
-									Some(k) => replace(&mut result.kind, k, ident.span())?,
-									None => {
+									Some(k)
+										if !matches!(tokens.peek(), Some(TokenTree::Group(_))) =>
+									{
+										replace(&mut result.kind, k, ident.span())?
+									}
+									_ => {
 										if ident == "base" {
 											let (value, span) = expect_compact_iri_argument(
 												&mut tokens,
-- 
2.43.0


From e05b38faebdf263fb532f7e8bc7036ccde6833c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:17 +0000
Subject: [PATCH 69/69] fix: refuse what follows `Some(..)` in tldr attributes

---
 generators/rust/treeldr-rs-macros/src/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generators/rust/treeldr-rs-macros/src/parse.rs b/generators/rust/treeldr-rs-macros/src/parse.rs
index a04aa92..be9e024 100644
--- a/generators/rust/treeldr-rs-macros/src/parse.rs
+++ b/generators/rust/treeldr-rs-macros/src/parse.rs
@@ -964,6 +964,9 @@ fn parse_graph_value(tokens: TokenStream, span: Span) -> Result<(GraphValue, Spa
 				match tokens.next() {
 					Some(TokenTree::Group(g)) => {
 						let span = g.span();
+						if let Some(t) = tokens.next() {
+							return Err(Error::UnexpectedToken(t));
+						}
 						let mut tokens = g.stream().into_iter();
 						match tokens.next() {
 							Some(t) => {
-- 
2.43.0

