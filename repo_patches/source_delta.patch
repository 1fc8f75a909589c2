From be5d156f678cc7c081f17650b2dd144f7a021a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 01/20] fix: report dangling references as an error instead of
 panicking while verifying

---
 ifc_rs/src/meta/datamap/mod.rs    |  9 +++++++++
 ifc_rs_verify_derive/src/field.rs | 24 ++++++++++++------------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/ifc_rs/src/meta/datamap/mod.rs b/ifc_rs/src/meta/datamap/mod.rs
index 73531d6..3dca525 100644
--- a/ifc_rs/src/meta/datamap/mod.rs
+++ b/ifc_rs/src/meta/datamap/mod.rs
@@ -55,6 +55,15 @@ impl DataMap {
         &**self.0.get(&id.into()).unwrap()
     }
 
+    /// same as [`Self::get_untyped`] but reports an unknown id as an error
+    pub(crate) fn try_get_untyped(&self, id: impl Into<Id>) -> anyhow::Result<&dyn IfcType> {
+        let id = id.into();
+        self.0
+            .get(&id)
+            .map(|ifc_type| &**ifc_type)
+            .ok_or_else(|| anyhow::anyhow!("referenced id {id} doesn't exist"))
+    }
+
     pub fn get_mut<T: IfcType>(&mut self, typed_id: TypedId<T>) -> &mut T {
         self.0
             .get_mut(&typed_id.id())
diff --git a/ifc_rs_verify_derive/src/field.rs b/ifc_rs_verify_derive/src/field.rs
index bfbd6bd..ac62678 100644
--- a/ifc_rs_verify_derive/src/field.rs
+++ b/ifc_rs_verify_derive/src/field.rs
@@ -149,7 +149,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name;
-                        let t = ifc.data.get_untyped(id);
+                        let t = ifc.data.try_get_untyped(id)?;
                         #multiple
 
                     }
@@ -160,7 +160,7 @@ impl ToTokens for Field {
                     quote! {
 
                         self.#var_name.0.iter().try_for_each(|id| {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = ifc.data.try_get_untyped(*id)?;
                             #multiple
 
                             Ok(())
@@ -174,7 +174,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name.id();
-                        let t = ifc.data.get_untyped(id);
+                        let t = ifc.data.try_get_untyped(id)?;
                         #single
 
                     }
@@ -186,7 +186,7 @@ impl ToTokens for Field {
 
                         self.#var_name.0.iter().try_for_each(|typed_id| {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.try_get_untyped(id)?;
                             #single
 
                             Ok(())
@@ -201,7 +201,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.id() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.try_get_untyped(id)?;
                             #single
                         }
 
@@ -215,7 +215,7 @@ impl ToTokens for Field {
                         self.#var_name.0.iter().try_for_each(|id_or| {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.try_get_untyped(id)?;
                                 #single
                             }
 
@@ -232,7 +232,7 @@ impl ToTokens for Field {
                     quote! {
 
                         if let Some(id) = self.#var_name.custom() {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = ifc.data.try_get_untyped(*id)?;
                             #multiple
                         }
 
@@ -245,7 +245,7 @@ impl ToTokens for Field {
 
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|id| {
-                                let t = ifc.data.get_untyped(*id);
+                                let t = ifc.data.try_get_untyped(*id)?;
                                 #multiple
 
                                 Ok(())
@@ -261,7 +261,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.custom() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.try_get_untyped(id)?;
                             #single
                         }
 
@@ -275,7 +275,7 @@ impl ToTokens for Field {
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|typed_id| {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.try_get_untyped(id)?;
                                 #single
 
                                 Ok(())
@@ -292,7 +292,7 @@ impl ToTokens for Field {
                         if let Some(id_or) = self.#var_name.custom() {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.try_get_untyped(id)?;
                                 #single
                             }
                         }
@@ -308,7 +308,7 @@ impl ToTokens for Field {
                             #var_name.0.iter().try_for_each(|id_or| {
                                 if let Some(typed_id) = id_or.id() {
                                     let id = typed_id.id();
-                                    let t = ifc.data.get_untyped(id);
+                                    let t = ifc.data.try_get_untyped(id)?;
                                     #single
                                 }
 
-- 
2.43.0


From f8585c013e1c3566243d80f7675660c82ffe2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 02/20] fix: reject unreadable timestamps instead of panicking

---
 ifc_rs/src/meta/header/deserialize.rs | 7 +++----
 ifc_rs/src/parser/timestamp.rs        | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 16c42fe..0d9e689 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -114,18 +114,17 @@ impl Header {
     }
 
     fn p_name<'a>() -> impl IFCParser<'a, FileDetails> {
-        // TODO: Better ideas for failing here
-        fn time_from_string(s: String) -> DateTime<Utc> {
+        fn time_from_string(s: String) -> Option<DateTime<Utc>> {
             let date_res = DateTime::parse_from_rfc3339(s.as_str())
                 .or_else(|_| DateTime::parse_from_rfc3339(format!("{s}Z").as_str()));
-            date_res.unwrap().into()
+            date_res.ok().map(Into::into)
         }
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
             "$".map(|_| FileName::default()),
             p_quote_word().map(FileName),
         ));
-        let mut p_time = p_quote_word().map(time_from_string).map(TimeStamp);
+        let mut p_time = p_quote_word().verify_map(time_from_string).map(TimeStamp);
         let mut p_author = delimited(
             "(",
             separated(
diff --git a/ifc_rs/src/parser/timestamp.rs b/ifc_rs/src/parser/timestamp.rs
index 1548461..c2a6c67 100644
--- a/ifc_rs/src/parser/timestamp.rs
+++ b/ifc_rs/src/parser/timestamp.rs
@@ -24,7 +24,7 @@ impl IFCParse for IfcTimestamp {
     where
         Self: Sized,
     {
-        dec_int.map(|i| Self(chrono::DateTime::from_timestamp(i, 0).unwrap()))
+        dec_int.verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
     }
 }
 
-- 
2.43.0


From 1368846e36b875fa7c4e26d0c6f5db99455e9b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 03/20] fix: double apostrophes in written strings and accept
 them in the header

---
 ifc_rs/src/meta/header/deserialize.rs | 28 +++++++++++++++++++--------
 ifc_rs/src/meta/header/serialize.rs   | 14 ++++++++------
 ifc_rs/src/parser/mod.rs              |  5 +++++
 ifc_rs/src/parser/string.rs           |  4 ++--
 4 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 0d9e689..22fe6cc 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -4,7 +4,7 @@ use chrono::{DateTime, Utc};
 use strum::VariantNames;
 use winnow::combinator::{alt, delimited, preceded, repeat, separated};
 use winnow::prelude::*;
-use winnow::token::none_of;
+use winnow::token::{none_of, take_while};
 
 use super::description::{FileDescription, ImplementationLevel, ViewDefinition};
 use super::details::{
@@ -36,6 +36,18 @@ impl IFCParse for Header {
     }
 }
 
+/// a string literal of the header, apostrophes inside of it are doubled
+fn p_header_string<'a>() -> impl IFCParser<'a, String> {
+    delimited(
+        "'",
+        repeat(
+            ..,
+            alt((take_while(1.., |c: char| c != '\''), "''".value("'"))),
+        ),
+        "'",
+    )
+}
+
 impl Header {
     fn p_version<'a>() -> impl IFCParser<'a, Version> {
         let variants: [&str; Version::VARIANTS.len()] =
@@ -122,14 +134,14 @@ impl Header {
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
             "$".map(|_| FileName::default()),
-            p_quote_word().map(FileName),
+            p_header_string().map(FileName),
         ));
-        let mut p_time = p_quote_word().verify_map(time_from_string).map(TimeStamp);
+        let mut p_time = p_header_string().verify_map(time_from_string).map(TimeStamp);
         let mut p_author = delimited(
             "(",
             separated(
                 ..,
-                p_space_or_comment_surrounded(p_quote_word()).map(Author),
+                p_space_or_comment_surrounded(p_header_string()).map(Author),
                 ",",
             )
             .map(|v: Vec<_>| AuthorList(v)),
@@ -139,7 +151,7 @@ impl Header {
             "(",
             separated(
                 ..,
-                p_space_or_comment_surrounded(p_quote_word()).map(Organization),
+                p_space_or_comment_surrounded(p_header_string()).map(Organization),
                 ",",
             )
             .map(|v: Vec<_>| OrganizationList(v)),
@@ -156,11 +168,11 @@ impl Header {
                 _: Comma::parse(),
                 organization: p_org,
                 _: Comma::parse(),
-                preprocessor_version: p_quote_word().map(PreprocessorVersion),
+                preprocessor_version: p_header_string().map(PreprocessorVersion),
                 _: Comma::parse(),
-                originating_system: p_quote_word().map(OriginatingSystem),
+                originating_system: p_header_string().map(OriginatingSystem),
                 _: Comma::parse(),
-                authorization: p_quote_word().map(Authorization),
+                authorization: p_header_string().map(Authorization),
                 _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";"))
             }
         }
diff --git a/ifc_rs/src/meta/header/serialize.rs b/ifc_rs/src/meta/header/serialize.rs
index a59bea5..8123b6b 100644
--- a/ifc_rs/src/meta/header/serialize.rs
+++ b/ifc_rs/src/meta/header/serialize.rs
@@ -2,6 +2,8 @@ use std::fmt::Display;
 
 use itertools::Itertools;
 
+use crate::parser::quote_word;
+
 use super::{
     description::{FileDescription, ViewDefinition},
     details::FileDetails,
@@ -54,7 +56,7 @@ impl Display for ViewDefinition {
 
 impl Display for FileDetails {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{name}'", name = self.name.0)?;
+        write!(f, "{name}", name = quote_word(&self.name.0))?;
         write!(f, ",")?;
         write!(
             f,
@@ -68,7 +70,7 @@ impl Display for FileDetails {
             authors = self
                 .author
                 .iter()
-                .map(|author| format!("'{a}'", a = author.0))
+                .map(|author| quote_word(&author.0))
                 .join(",")
         )?;
         write!(f, ",")?;
@@ -78,15 +80,15 @@ impl Display for FileDetails {
             orgs = self
                 .organization
                 .iter()
-                .map(|org| format!("'{o}'", o = org.0))
+                .map(|org| quote_word(&org.0))
                 .join(",")
         )?;
         write!(f, ",")?;
-        write!(f, "'{prep_v}'", prep_v = self.preprocessor_version.0)?;
+        write!(f, "{prep_v}", prep_v = quote_word(&self.preprocessor_version.0))?;
         write!(f, ",")?;
-        write!(f, "'{sys}'", sys = self.originating_system.0)?;
+        write!(f, "{sys}", sys = quote_word(&self.originating_system.0))?;
         write!(f, ",")?;
-        write!(f, "'{auth}'", auth = self.authorization.0)?;
+        write!(f, "{auth}", auth = quote_word(&self.authorization.0))?;
         Ok(())
     }
 }
diff --git a/ifc_rs/src/parser/mod.rs b/ifc_rs/src/parser/mod.rs
index 0322e8d..8ac4957 100644
--- a/ifc_rs/src/parser/mod.rs
+++ b/ifc_rs/src/parser/mod.rs
@@ -59,6 +59,11 @@ pub(crate) fn p_quote_word<'a>() -> impl IFCParser<'a, String> {
     delimited("'", p_word_until('\''), "'")
 }
 
+/// writes a string literal, apostrophes inside of it are doubled
+pub(crate) fn quote_word(s: &str) -> String {
+    format!("'{s}'", s = s.replace('\'', "''"))
+}
+
 pub(crate) fn p_comment<'a>() -> impl IFCParser<'a, ()> {
     preceded(
         "/*",
diff --git a/ifc_rs/src/parser/string.rs b/ifc_rs/src/parser/string.rs
index 74a0e3e..dcd90e7 100644
--- a/ifc_rs/src/parser/string.rs
+++ b/ifc_rs/src/parser/string.rs
@@ -2,7 +2,7 @@ use std::fmt::Display;
 
 use winnow::Parser;
 
-use crate::parser::{p_quote_word, IFCParse, IFCParser};
+use crate::parser::{p_quote_word, quote_word, IFCParse, IFCParser};
 
 // IFC doesn't support UTF8 in all versions and uses a special encoding for things like
 // german umlaute. The easiest thing to use it `\X2\<unicode sequence>\X0\`
@@ -58,6 +58,6 @@ impl IFCParse for StringPrimitive {
 
 impl Display for StringPrimitive {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{label}'", label = translate_encode(self.0.as_str()))
+        write!(f, "{}", quote_word(&translate_encode(self.0.as_str())))
     }
 }
-- 
2.43.0


From e6cb6f7f8a4e6cd18bacc3f04dcd00dd145194c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 04/20] fix: keep semicolons inside strings and comments of
 unsupported records

---
 ifc_rs/src/parser/dummy.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ifc_rs/src/parser/dummy.rs b/ifc_rs/src/parser/dummy.rs
index 823b343..8f01e32 100644
--- a/ifc_rs/src/parser/dummy.rs
+++ b/ifc_rs/src/parser/dummy.rs
@@ -18,10 +18,21 @@ impl IFCParse for Dummy {
     where
         Self: Sized,
     {
-        use super::p_space_or_comment_surrounded;
-        use winnow::{combinator::repeat_till, token::any, Parser};
-
-        repeat_till(.., any, p_space_or_comment_surrounded(";"))
+        use super::{p_comment, p_quote_word, p_space_or_comment_surrounded};
+        use winnow::{
+            combinator::{alt, repeat_till},
+            token::any,
+            Parser,
+        };
+
+        // semicolons inside of strings and comments don't terminate the record
+        let p_chunk = alt((
+            p_quote_word().take(),
+            p_comment().take(),
+            any.take(),
+        ));
+
+        repeat_till(.., p_chunk, p_space_or_comment_surrounded(";"))
             .map(|(s, _): (String, _)| Self { s })
     }
 }
-- 
2.43.0


From 34f9375f979488ca97681459e71b29d8f44e04d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 05/20] fix: write reals with all the digits needed to read
 them back exactly

---
 ifc_rs/src/parser/real.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/parser/real.rs b/ifc_rs/src/parser/real.rs
index d34b0d5..7006b30 100644
--- a/ifc_rs/src/parser/real.rs
+++ b/ifc_rs/src/parser/real.rs
@@ -135,7 +135,13 @@ pub(crate) fn format_real_primitive(d: f64) -> String {
 }
 
 pub(crate) fn format_sci_double(d: f64) -> String {
-    format!("{0:.1$E}", d, 14)
+    let s = format!("{0:.1$E}", d, 14);
+    // 15 significant digits don't identify every double
+    if s.parse() == Ok(d) {
+        s
+    } else {
+        format!("{d:E}")
+    }
 }
 
 pub(crate) fn format_non_sci_double(d: f64) -> String {
-- 
2.43.0


From cb10bb37ea1cea8be5dc14399ec1ce73d51ba884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 06/20] fix: spell unit and role enumeration literals as the
 IFC schema does

---
 ifc_rs/src/objects/actor_role/mod.rs |  2 +-
 ifc_rs/src/units/name.rs             |  2 +-
 ifc_rs/src/units/unit_enum.rs        | 12 ++++++------
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ifc_rs/src/objects/actor_role/mod.rs b/ifc_rs/src/objects/actor_role/mod.rs
index 500a923..bb2f890 100644
--- a/ifc_rs/src/objects/actor_role/mod.rs
+++ b/ifc_rs/src/objects/actor_role/mod.rs
@@ -65,7 +65,7 @@ pub enum Role {
     FacilitiesManager,
     #[strum(to_string = ".CIVILENGINEER.")]
     CivilEngineer,
-    #[strum(to_string = ".COMISSIONENGINEER.")]
+    #[strum(to_string = ".COMMISSIONINGENGINEER.")]
     ComissionEngineer,
     #[strum(to_string = ".ENGINEER.")]
     Engineer,
diff --git a/ifc_rs/src/units/name.rs b/ifc_rs/src/units/name.rs
index 570943e..76f7069 100644
--- a/ifc_rs/src/units/name.rs
+++ b/ifc_rs/src/units/name.rs
@@ -24,7 +24,7 @@ pub enum IfcUnitName {
     Candela,
 
     /// Unit for electric charge.
-    #[strum(to_string = ".COULOUMB.")]
+    #[strum(to_string = ".COULOMB.")]
     Couloumb,
 
     /// Unit for volume.
diff --git a/ifc_rs/src/units/unit_enum.rs b/ifc_rs/src/units/unit_enum.rs
index 39ea217..b95904c 100644
--- a/ifc_rs/src/units/unit_enum.rs
+++ b/ifc_rs/src/units/unit_enum.rs
@@ -28,27 +28,27 @@ pub enum IfcUnitEnum {
     DoseEquivalentUnit,
 
     /// Represents units of electric capacitance, such as "Farad"
-    #[strum(to_string = ".ELCTRICCAPACITANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCAPACITANCEUNIT.")]
     ElectricCapacitanceUnit,
 
     /// Represents units of electric charge, such as "Coulomb"
-    #[strum(to_string = ".ELCTRICCHARGEUNIT.")]
+    #[strum(to_string = ".ELECTRICCHARGEUNIT.")]
     ElectricChargeUnit,
 
     /// Represents units of electric conductance, such as "Siemens"
-    #[strum(to_string = ".ELCTRICCONDUCTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCONDUCTANCEUNIT.")]
     ElectricConductanceUnit,
 
     /// Represents units of electric current, such as "Ampere"
-    #[strum(to_string = ".ELCTRICCURRENTUNIT.")]
+    #[strum(to_string = ".ELECTRICCURRENTUNIT.")]
     ElectricCurrentUnit,
 
     /// Represents units of electric resistance, such as "Ohm"
-    #[strum(to_string = ".ELCTRICRESISTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICRESISTANCEUNIT.")]
     ElectricResistanceUnit,
 
     /// Represents units of electric voltage, such as "Volt"
-    #[strum(to_string = ".ELCTRICVOLTAGEUNIT.")]
+    #[strum(to_string = ".ELECTRICVOLTAGEUNIT.")]
     ElectricVoltageUnit,
 
     /// Represents units of energy, such as "Joule"
-- 
2.43.0


From 9073df9f7852500ca3fe55c210d114972fcd5ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 07/20] fix: don't alter global ids that exceed 128 bits

---
 ifc_rs/src/id/ifc_uuid.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ifc_rs/src/id/ifc_uuid.rs b/ifc_rs/src/id/ifc_uuid.rs
index 8bbc6ef..6826322 100644
--- a/ifc_rs/src/id/ifc_uuid.rs
+++ b/ifc_rs/src/id/ifc_uuid.rs
@@ -80,6 +80,8 @@ impl IFCParse for IfcGloballyUniqueId {
         winnow::combinator::delimited(
             "'",
             take_while(22..=22, |c: char| ALPHABET.contains(c))
+                // the first character only holds the two topmost bits
+                .verify(|x: &str| x.starts_with(['0', '1', '2', '3']))
                 .map(|x: &str| {
                     x.chars()
                         .filter_map(|c| ALPHABET.find(c))
-- 
2.43.0


From 4a5f1e86d5256580ece3cb060ec4a706f1542c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 08/20] fix: accept space and comments after the opening
 parenthesis of a list

---
 ifc_rs/src/parser/list.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ifc_rs/src/parser/list.rs b/ifc_rs/src/parser/list.rs
index 972bb21..d7ef246 100644
--- a/ifc_rs/src/parser/list.rs
+++ b/ifc_rs/src/parser/list.rs
@@ -8,7 +8,7 @@ use winnow::{
 
 use crate::parser::IFCParse;
 
-use super::p_space_or_comment_surrounded;
+use super::{p_space_or_comment, p_space_or_comment_surrounded};
 
 #[derive(Debug, Clone)]
 pub struct IfcList<T>(pub Vec<T>);
@@ -30,7 +30,7 @@ impl<T: IFCParse> IFCParse for IfcList<T> {
     {
         let p_t_opt_comma = terminated(T::parse(), p_space_or_comment_surrounded(opt(",")));
         preceded(
-            "(",
+            ("(", p_space_or_comment()),
             repeat_till(.., p_t_opt_comma, ")").map(|(v, _): (Vec<_>, _)| v),
         )
         .map(Self)
-- 
2.43.0


From 0cf6f23d002b14760dc42432198a9c4f9f963990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 09/20] fix: don't read reals beyond the double range as
 infinities

---
 ifc_rs/src/parser/geometry.rs | 13 +++++++------
 ifc_rs/src/parser/real.rs     |  7 ++++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/ifc_rs/src/parser/geometry.rs b/ifc_rs/src/parser/geometry.rs
index 640c277..f2c2951 100644
--- a/ifc_rs/src/parser/geometry.rs
+++ b/ifc_rs/src/parser/geometry.rs
@@ -1,7 +1,8 @@
 use bevy_math::{DVec2, DVec3};
-use winnow::{ascii::float, Parser};
+use winnow::Parser;
 
 use super::IFCParser;
+use crate::parser::real::p_finite;
 use crate::parser::IFCParse;
 use crate::parser::{comma::Comma, p_space_or_comment_surrounded};
 
@@ -9,9 +10,9 @@ pub fn p_vec2<'a>() -> impl IFCParser<'a, DVec2> {
     winnow::seq! {
         (
             _: p_space_or_comment_surrounded("("),
-            float,
+            p_finite(),
             _: Comma::parse(),
-            float,
+            p_finite(),
             _: p_space_or_comment_surrounded(")")
         )
     }
@@ -22,11 +23,11 @@ pub fn p_vec3<'a>() -> impl IFCParser<'a, DVec3> {
     winnow::seq! {
         (
             _: p_space_or_comment_surrounded("("),
-            float,
+            p_finite(),
             _: Comma::parse(),
-            float,
+            p_finite(),
             _: Comma::parse(),
-            float,
+            p_finite(),
             _: p_space_or_comment_surrounded(")")
         )
     }
diff --git a/ifc_rs/src/parser/real.rs b/ifc_rs/src/parser/real.rs
index 7006b30..c107c27 100644
--- a/ifc_rs/src/parser/real.rs
+++ b/ifc_rs/src/parser/real.rs
@@ -17,7 +17,7 @@ impl IFCParse for RealPrimitive {
     where
         Self: Sized,
     {
-        float.map(Self)
+        p_finite().map(Self)
     }
 }
 
@@ -115,6 +115,11 @@ impl From<DVec3> for IfcDVec3 {
     }
 }
 
+/// reals which a double can't represent (`1E999`, `inf`, `nan`) are not accepted
+pub(crate) fn p_finite<'a>() -> impl IFCParser<'a, f64> {
+    float.verify(|d: &f64| d.is_finite())
+}
+
 pub(crate) fn format_real_primitive(d: f64) -> String {
     // might need tuning 10 decimals allowed
     let is_scientific = d
-- 
2.43.0


From 173c000798a4e96ab2c4f6438fcdcb40ab84b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 10/20] fix: accept shading devices as contained elements of a
 spatial structure

---
 .../relations/rel_contained_in_spatial_structure.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index f10d7b5..6d0532e 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -23,7 +23,18 @@ pub struct RelContainedInSpatialStructure {
 
     /// Set of products, which are contained within this level of the
     /// spatial structure hierarchy.
-    #[ifc_types(Site, Building, Storey, OpeningElement, Slab, Roof, Wall, Window, Door)]
+    #[ifc_types(
+        Site,
+        Building,
+        Storey,
+        OpeningElement,
+        Slab,
+        Roof,
+        Wall,
+        Window,
+        Door,
+        ShadingDevice
+    )]
     pub related_elements: IfcList<Id>,
 
     /// Spatial structure element, within which the element is
-- 
2.43.0


From 19507cd1328379c36c7b05f71b9705e9790680e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 11/20] fix: relate spaces to their types in built files

---
 ifc_rs/src/ifc_builder/storey.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ifc_rs/src/ifc_builder/storey.rs b/ifc_rs/src/ifc_builder/storey.rs
index e557af4..310dd1d 100644
--- a/ifc_rs/src/ifc_builder/storey.rs
+++ b/ifc_rs/src/ifc_builder/storey.rs
@@ -286,6 +286,25 @@ impl<'a> Drop for IfcStoreyBuilder<'a> {
         // insert all spatial relations of this story
         self.project.ifc.data.insert_new(spatial_relation);
 
+        // spaces ----------------------
+
+        // relate space type to spaces
+        for (index, (space_type, spaces)) in self.space_type_to_space.iter().enumerate() {
+            let mut space_space_type_relation = RelDefinesByType::new(
+                format!("SpaceTypeToSpace{index}"),
+                *space_type,
+                &mut self.project.ifc,
+            )
+            .owner_history(self.owner_history, &mut self.project.ifc);
+
+            for space in spaces {
+                space_space_type_relation =
+                    space_space_type_relation.relate_obj(*space, &mut self.project.ifc)
+            }
+
+            self.project.ifc.data.insert_new(space_space_type_relation);
+        }
+
         // rel aggregates ----------------------
         let rel_agg = RelAggregates::new(
             "StoreySpacesLink",
-- 
2.43.0


From 0fa3d7bce07fed0dbb27ed121f753db302dd58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 12/20] fix: accept space and comments just inside the
 parentheses of every record

---
 ifc_rs/src/geometry/axis/deserialize.rs             | 13 ++++++++-----
 .../src/geometry/indexed_poly_curve/deserialize.rs  |  9 ++++++---
 ifc_rs/src/geometry/point_list/deserialize.rs       | 13 ++++++++-----
 .../geometry/representation_context/deserialize.rs  |  9 ++++++---
 .../representation_subcontext/deserialize.rs        |  9 ++++++---
 ifc_rs/src/objects/actor_role/deserialize.rs        |  9 ++++++---
 ifc_rs/src/objects/address/deserialize.rs           | 13 ++++++++-----
 ifc_rs/src/objects/application/deserialize.rs       |  8 +++++---
 ifc_rs/src/objects/organization/deserialize.rs      |  7 ++++---
 ifc_rs/src/objects/owner_history/deserialize.rs     |  7 ++++---
 ifc_rs/src/objects/person/deserialize.rs            |  9 ++++++---
 ifc_rs/src/objects/person_and_org/deserialize.rs    |  9 ++++++---
 12 files changed, 73 insertions(+), 42 deletions(-)

diff --git a/ifc_rs/src/geometry/axis/deserialize.rs b/ifc_rs/src/geometry/axis/deserialize.rs
index 48cecf4..e673d8b 100644
--- a/ifc_rs/src/geometry/axis/deserialize.rs
+++ b/ifc_rs/src/geometry/axis/deserialize.rs
@@ -6,15 +6,18 @@ use winnow::{
 use super::{Axis2D, Axis3D};
 use crate::{
     id::TypedId,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for Axis2D {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCAXIS2PLACEMENT2D(",
+            p_space_or_comment_surrounded("IFCAXIS2PLACEMENT2D("),
             separated_pair(TypedId::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(location, local_x)| Self { location, local_x })
     }
@@ -23,7 +26,7 @@ impl IFCParse for Axis2D {
 impl IFCParse for Axis3D {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCAXIS2PLACEMENT3D(",
+            p_space_or_comment_surrounded("IFCAXIS2PLACEMENT3D("),
             (
                 TypedId::parse(),
                 Comma::parse(),
@@ -31,7 +34,7 @@ impl IFCParse for Axis3D {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(location, _, local_z, _, local_x)| Self {
             location,
diff --git a/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs b/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
index 9082733..21cc0d2 100644
--- a/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
+++ b/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
@@ -3,13 +3,16 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     geometry::indexed_poly_curve::IndexedPolyCurve,
     id::Id,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for IndexedPolyCurve {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCINDEXEDPOLYCURVE(",
+            p_space_or_comment_surrounded("IFCINDEXEDPOLYCURVE("),
             (
                 Id::parse(),
                 Comma::parse(),
@@ -17,7 +20,7 @@ impl IFCParse for IndexedPolyCurve {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(points, _, segments, _, self_intersect)| Self {
             points,
diff --git a/ifc_rs/src/geometry/point_list/deserialize.rs b/ifc_rs/src/geometry/point_list/deserialize.rs
index 03b613d..e853344 100644
--- a/ifc_rs/src/geometry/point_list/deserialize.rs
+++ b/ifc_rs/src/geometry/point_list/deserialize.rs
@@ -2,7 +2,10 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     geometry::point_list::{PointList2D, PointList3D},
-    parser::{comma::Comma, list::IfcList, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, list::IfcList, optional::OptionalParameter, p_space_or_comment_surrounded,
+        IFCParse, IFCParser,
+    },
 };
 
 impl IFCParse for PointList2D {
@@ -11,9 +14,9 @@ impl IFCParse for PointList2D {
         Self: Sized,
     {
         delimited(
-            "IFCCARTESIANPOINTLIST2D(",
+            p_space_or_comment_surrounded("IFCCARTESIANPOINTLIST2D("),
             (IfcList::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(coord_list, _, tag_list)| Self {
             coord_list,
@@ -28,9 +31,9 @@ impl IFCParse for PointList3D {
         Self: Sized,
     {
         delimited(
-            "IFCCARTESIANPOINTLIST3D(",
+            p_space_or_comment_surrounded("IFCCARTESIANPOINTLIST3D("),
             (IfcList::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(coord_list, _, tag_list)| Self {
             coord_list,
diff --git a/ifc_rs/src/geometry/representation_context/deserialize.rs b/ifc_rs/src/geometry/representation_context/deserialize.rs
index 1c3bde4..f24532c 100644
--- a/ifc_rs/src/geometry/representation_context/deserialize.rs
+++ b/ifc_rs/src/geometry/representation_context/deserialize.rs
@@ -2,14 +2,17 @@ use super::GeometricRepresentationContext;
 use crate::{
     geometry::dimension_count::DimensionCount,
     id::Id,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for GeometricRepresentationContext {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             GeometricRepresentationContext {
-                _: "IFCGEOMETRICREPRESENTATIONCONTEXT(",
+                _: p_space_or_comment_surrounded("IFCGEOMETRICREPRESENTATIONCONTEXT("),
                 context_identifier: OptionalParameter::parse(),
                 _: Comma::parse(),
                 context_type: OptionalParameter::parse(),
@@ -21,7 +24,7 @@ impl IFCParse for GeometricRepresentationContext {
                 world_coord_system: Id::parse(),
                 _: Comma::parse(),
                 true_north: OptionalParameter::parse(),
-                _: ");",
+                _: p_space_or_comment_surrounded(");"),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/representation_subcontext/deserialize.rs b/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
index 33463a6..d96dc67 100644
--- a/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
+++ b/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
@@ -6,14 +6,17 @@ use crate::{
         representation_subcontext::GeometricRepresentationSubContext,
     },
     id::{Id, TypedId},
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for GeometricRepresentationSubContext {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             GeometricRepresentationSubContext {
-                _: "IFCGEOMETRICREPRESENTATIONSUBCONTEXT(",
+                _: p_space_or_comment_surrounded("IFCGEOMETRICREPRESENTATIONSUBCONTEXT("),
                 context_identifier: OptionalParameter::parse(),
                 _: Comma::parse(),
                 context_type: OptionalParameter::parse(),
@@ -33,7 +36,7 @@ impl IFCParse for GeometricRepresentationSubContext {
                 target_view: GeometricProjection::parse(),
                 _: Comma::parse(),
                 user_defined_target_view: OptionalParameter::parse(),
-                _: ");"
+                _: p_space_or_comment_surrounded(");")
             }
         }
     }
diff --git a/ifc_rs/src/objects/actor_role/deserialize.rs b/ifc_rs/src/objects/actor_role/deserialize.rs
index 6931a29..eda0d4c 100644
--- a/ifc_rs/src/objects/actor_role/deserialize.rs
+++ b/ifc_rs/src/objects/actor_role/deserialize.rs
@@ -2,13 +2,16 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     objects::actor_role::{ActorRole, Role},
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for ActorRole {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCACTORROLE(",
+            p_space_or_comment_surrounded("IFCACTORROLE("),
             (
                 Role::parse(),
                 Comma::parse(),
@@ -16,7 +19,7 @@ impl IFCParse for ActorRole {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(role, _, user_defined_role, _, description)| Self {
             role,
diff --git a/ifc_rs/src/objects/address/deserialize.rs b/ifc_rs/src/objects/address/deserialize.rs
index 90d1a22..43f7335 100644
--- a/ifc_rs/src/objects/address/deserialize.rs
+++ b/ifc_rs/src/objects/address/deserialize.rs
@@ -2,13 +2,16 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     objects::address::{PostalAddress, TelecomAddress},
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for TelecomAddress {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCTELECOMADDRESS(",
+            p_space_or_comment_surrounded("IFCTELECOMADDRESS("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -26,7 +29,7 @@ impl IFCParse for TelecomAddress {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
@@ -62,7 +65,7 @@ impl IFCParse for TelecomAddress {
 impl IFCParse for PostalAddress {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCPOSTALADDRESS(",
+            p_space_or_comment_surrounded("IFCPOSTALADDRESS("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -84,7 +87,7 @@ impl IFCParse for PostalAddress {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/application/deserialize.rs b/ifc_rs/src/objects/application/deserialize.rs
index 596ee75..ce48ebf 100644
--- a/ifc_rs/src/objects/application/deserialize.rs
+++ b/ifc_rs/src/objects/application/deserialize.rs
@@ -1,14 +1,16 @@
 use crate::{
     id::TypedId,
     objects::application::Application,
-    parser::{comma::Comma, string::StringPrimitive, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, p_space_or_comment_surrounded, string::StringPrimitive, IFCParse, IFCParser,
+    },
 };
 
 impl IFCParse for Application {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             Application {
-                _ : "IFCAPPLICATION(",
+                _ : p_space_or_comment_surrounded("IFCAPPLICATION("),
                 application_developer: TypedId::parse(),
                 _: Comma::parse(),
                 version: StringPrimitive::parse(),
@@ -16,7 +18,7 @@ impl IFCParse for Application {
                 application_full_name: StringPrimitive::parse(),
                 _: Comma::parse(),
                 application_identifier: StringPrimitive::parse(),
-                _: ");",
+                _: p_space_or_comment_surrounded(");"),
             }
         }
     }
diff --git a/ifc_rs/src/objects/organization/deserialize.rs b/ifc_rs/src/objects/organization/deserialize.rs
index b853465..fc35516 100644
--- a/ifc_rs/src/objects/organization/deserialize.rs
+++ b/ifc_rs/src/objects/organization/deserialize.rs
@@ -3,14 +3,15 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     objects::organization::Organization,
     parser::{
-        comma::Comma, optional::OptionalParameter, string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
+        string::StringPrimitive, IFCParse, IFCParser,
     },
 };
 
 impl IFCParse for Organization {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCORGANIZATION(",
+            p_space_or_comment_surrounded("IFCORGANIZATION("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -22,7 +23,7 @@ impl IFCParse for Organization {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(id, _, name, _, description, _, roles, _, addresses)| Self {
diff --git a/ifc_rs/src/objects/owner_history/deserialize.rs b/ifc_rs/src/objects/owner_history/deserialize.rs
index ece44d9..0b43011 100644
--- a/ifc_rs/src/objects/owner_history/deserialize.rs
+++ b/ifc_rs/src/objects/owner_history/deserialize.rs
@@ -3,14 +3,15 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     objects::{change_action::ChangeAction, owner_history::OwnerHistory},
     parser::{
-        comma::Comma, optional::OptionalParameter, timestamp::IfcTimestamp, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
+        timestamp::IfcTimestamp, IFCParse, IFCParser,
     },
 };
 
 impl IFCParse for OwnerHistory {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCOWNERHISTORY(",
+            p_space_or_comment_surrounded("IFCOWNERHISTORY("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -28,7 +29,7 @@ impl IFCParse for OwnerHistory {
                 Comma::parse(),
                 IfcTimestamp::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/person/deserialize.rs b/ifc_rs/src/objects/person/deserialize.rs
index c235276..c72f47d 100644
--- a/ifc_rs/src/objects/person/deserialize.rs
+++ b/ifc_rs/src/objects/person/deserialize.rs
@@ -2,13 +2,16 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     objects::person::Person,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for Person {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCPERSON(",
+            p_space_or_comment_surrounded("IFCPERSON("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -26,7 +29,7 @@ impl IFCParse for Person {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/person_and_org/deserialize.rs b/ifc_rs/src/objects/person_and_org/deserialize.rs
index 860315c..33170d0 100644
--- a/ifc_rs/src/objects/person_and_org/deserialize.rs
+++ b/ifc_rs/src/objects/person_and_org/deserialize.rs
@@ -3,13 +3,16 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     id::Id,
     objects::person_and_org::PersonAndOrganization,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for PersonAndOrganization {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCPERSONANDORGANIZATION(",
+            p_space_or_comment_surrounded("IFCPERSONANDORGANIZATION("),
             (
                 Id::parse(),
                 Comma::parse(),
@@ -17,7 +20,7 @@ impl IFCParse for PersonAndOrganization {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(the_person, _, the_organization, _, roles)| Self {
             the_person: the_person.into(),
-- 
2.43.0


From 9b9c93cff9fd703ff4fb58ef85a11d3f6f8e1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 13/20] fix: read signed zeros and leading zeros of integers

---
 ifc_rs/src/geometry/dimension_count.rs    |  4 ++--
 ifc_rs/src/parser/integer.rs              | 14 ++++++++++++--
 ifc_rs/src/parser/timestamp.rs            |  5 ++---
 ifc_rs/src/units/dimensional_exponents.rs | 16 ++++++++--------
 4 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/ifc_rs/src/geometry/dimension_count.rs b/ifc_rs/src/geometry/dimension_count.rs
index 149a2f9..3f27433 100644
--- a/ifc_rs/src/geometry/dimension_count.rs
+++ b/ifc_rs/src/geometry/dimension_count.rs
@@ -1,9 +1,9 @@
 use std::str::FromStr;
 
+use integer::p_int;
 use optional::OptionalParameter;
 use place_holder::Inherited;
 use strum::{Display, EnumString, VariantNames};
-use winnow::ascii::dec_int;
 use winnow::combinator::{alt, delimited};
 use winnow::Parser;
 
@@ -49,7 +49,7 @@ impl IFCParse for DimensionCount {
     where
         Self: Sized,
     {
-        dec_int.map(|_: i32| OptionalParameter::Inherited(Inherited))
+        p_int().map(|_: i32| OptionalParameter::Inherited(Inherited))
     }
 }
 
diff --git a/ifc_rs/src/parser/integer.rs b/ifc_rs/src/parser/integer.rs
index 9269bdf..743b2f0 100644
--- a/ifc_rs/src/parser/integer.rs
+++ b/ifc_rs/src/parser/integer.rs
@@ -1,6 +1,9 @@
 use std::fmt::Display;
+use std::str::FromStr;
 
-use winnow::ascii::dec_int;
+use winnow::ascii::digit1;
+use winnow::combinator::opt;
+use winnow::token::one_of;
 use winnow::Parser;
 
 use crate::parser::{IFCParse, IFCParser};
@@ -13,7 +16,7 @@ impl IFCParse for IntegerPrimitive {
     where
         Self: Sized,
     {
-        dec_int.map(Self)
+        p_int().map(Self)
     }
 }
 
@@ -28,3 +31,10 @@ impl From<i64> for IntegerPrimitive {
         Self(value)
     }
 }
+
+/// integers may be signed and may have leading zeros (`+0`, `-0`, `007`)
+pub(crate) fn p_int<'a, T: FromStr>() -> impl IFCParser<'a, T> {
+    (opt(one_of(['+', '-'])), digit1)
+        .take()
+        .verify_map(|s: &str| s.parse().ok())
+}
diff --git a/ifc_rs/src/parser/timestamp.rs b/ifc_rs/src/parser/timestamp.rs
index c2a6c67..9906b42 100644
--- a/ifc_rs/src/parser/timestamp.rs
+++ b/ifc_rs/src/parser/timestamp.rs
@@ -1,10 +1,9 @@
 use std::fmt::Display;
 
 use chrono::Utc;
-use winnow::ascii::dec_int;
 use winnow::Parser;
 
-use crate::parser::{IFCParse, IFCParser};
+use crate::parser::{integer::p_int, IFCParse, IFCParser};
 
 /// An indication of date and time by measuring the number of seconds which
 /// have elapsed since the beginning of the year 1970.
@@ -24,7 +23,7 @@ impl IFCParse for IfcTimestamp {
     where
         Self: Sized,
     {
-        dec_int.verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
+        p_int().verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
     }
 }
 
diff --git a/ifc_rs/src/units/dimensional_exponents.rs b/ifc_rs/src/units/dimensional_exponents.rs
index b554f3c..0055865 100644
--- a/ifc_rs/src/units/dimensional_exponents.rs
+++ b/ifc_rs/src/units/dimensional_exponents.rs
@@ -1,9 +1,9 @@
 use std::fmt::Display;
 
 use ifc_rs_verify_derive::IfcVerify;
-use winnow::ascii::dec_int;
 
 use crate::{
+    parser::integer::p_int,
     prelude::*,
     units::{comma::Comma, p_space_or_comment_surrounded},
 };
@@ -72,19 +72,19 @@ impl IFCParse for DimensionalExponents {
         winnow::seq! {
             DimensionalExponents {
                 _: p_space_or_comment_surrounded("IFCDIMENSIONALEXPONENTS("),
-                length: dec_int,
+                length: p_int(),
                 _: Comma::parse(),
-                mass: dec_int,
+                mass: p_int(),
                 _: Comma::parse(),
-                time: dec_int,
+                time: p_int(),
                 _: Comma::parse(),
-                electric_current: dec_int,
+                electric_current: p_int(),
                 _: Comma::parse(),
-                thermodynamic_temperature: dec_int,
+                thermodynamic_temperature: p_int(),
                 _: Comma::parse(),
-                amount_of_substance: dec_int,
+                amount_of_substance: p_int(),
                 _: Comma::parse(),
-                luminouse_intensity: dec_int,
+                luminouse_intensity: p_int(),
                 _: p_space_or_comment_surrounded(");"),
             }
         }
-- 
2.43.0


From 38b50e2a2b4776e5629dabbe7a7cb2d0a60b6fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 14/20] fix: accept space and comments inside typed values

---
 ifc_rs/src/values/bool.rs                  | 7 +++++--
 ifc_rs/src/values/identifier.rs            | 7 +++++--
 ifc_rs/src/values/label.rs                 | 7 +++++--
 ifc_rs/src/values/real.rs                  | 7 +++++--
 ifc_rs/src/values/thermal_transmittance.rs | 4 ++--
 5 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/ifc_rs/src/values/bool.rs b/ifc_rs/src/values/bool.rs
index 9d5a781..f977a7c 100644
--- a/ifc_rs/src/values/bool.rs
+++ b/ifc_rs/src/values/bool.rs
@@ -16,9 +16,12 @@ impl IFCParse for BoolValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCBOOLEAN", "IfcBoolean")), "("),
+            (
+                alt(("IFCBOOLEAN", "IfcBoolean")),
+                p_space_or_comment_surrounded("("),
+            ),
             BoolPrimitive::parse(),
-            ")",
+            p_space_or_comment_surrounded(")"),
         )
         .map(Self)
     }
diff --git a/ifc_rs/src/values/identifier.rs b/ifc_rs/src/values/identifier.rs
index 70229fc..5ab34eb 100644
--- a/ifc_rs/src/values/identifier.rs
+++ b/ifc_rs/src/values/identifier.rs
@@ -16,9 +16,12 @@ impl IFCParse for IdentifierValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCIDENTIFIER", "IfcIdentifier")), "("),
+            (
+                alt(("IFCIDENTIFIER", "IfcIdentifier")),
+                p_space_or_comment_surrounded("("),
+            ),
             StringPrimitive::parse(),
-            ")",
+            p_space_or_comment_surrounded(")"),
         )
         .map(Self)
     }
diff --git a/ifc_rs/src/values/label.rs b/ifc_rs/src/values/label.rs
index c380be8..47faee8 100644
--- a/ifc_rs/src/values/label.rs
+++ b/ifc_rs/src/values/label.rs
@@ -16,9 +16,12 @@ impl IFCParse for LabelValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCLABEL", "IfcLabel")), "("),
+            (
+                alt(("IFCLABEL", "IfcLabel")),
+                p_space_or_comment_surrounded("("),
+            ),
             StringPrimitive::parse(),
-            ")",
+            p_space_or_comment_surrounded(")"),
         )
         .map(Self)
     }
diff --git a/ifc_rs/src/values/real.rs b/ifc_rs/src/values/real.rs
index 990c66f..1edc5d4 100644
--- a/ifc_rs/src/values/real.rs
+++ b/ifc_rs/src/values/real.rs
@@ -17,9 +17,12 @@ impl IFCParse for RealValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCREAL", "IfcReal")), "("),
+            (
+                alt(("IFCREAL", "IfcReal")),
+                p_space_or_comment_surrounded("("),
+            ),
             RealPrimitive::parse(),
-            ")",
+            p_space_or_comment_surrounded(")"),
         )
         .map(Self)
     }
diff --git a/ifc_rs/src/values/thermal_transmittance.rs b/ifc_rs/src/values/thermal_transmittance.rs
index a8047d1..b1d276f 100644
--- a/ifc_rs/src/values/thermal_transmittance.rs
+++ b/ifc_rs/src/values/thermal_transmittance.rs
@@ -21,10 +21,10 @@ impl IFCParse for ThermalTransmittanceValue {
                     "IFCTHERMALTRANSMITTANCEMEASURE",
                     "IfcThermaltransmittancemeasure",
                 )),
-                "(",
+                p_space_or_comment_surrounded("("),
             ),
             RealPrimitive::parse(),
-            ")",
+            p_space_or_comment_surrounded(")"),
         )
         .map(Self)
     }
-- 
2.43.0


From e7f6ca6bfdffa617baf208d89ad366c3cf5314bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 15/20] fix: don't split a text with a doubled apostrophe into
 two list items

---
 ifc_rs/src/parser/string.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/parser/string.rs b/ifc_rs/src/parser/string.rs
index dcd90e7..3073046 100644
--- a/ifc_rs/src/parser/string.rs
+++ b/ifc_rs/src/parser/string.rs
@@ -1,5 +1,6 @@
 use std::fmt::Display;
 
+use winnow::combinator::{not, terminated};
 use winnow::Parser;
 
 use crate::parser::{p_quote_word, quote_word, IFCParse, IFCParser};
@@ -52,7 +53,8 @@ impl IFCParse for StringPrimitive {
     where
         Self: Sized,
     {
-        p_quote_word().map(Self::from)
+        // a doubled apostrophe neither ends the string nor starts another one
+        terminated(p_quote_word(), not("'")).map(Self::from)
     }
 }
 
-- 
2.43.0


From aeb7cbda1cecf0e3fb32a2189ccccb011d477dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 16/20] fix: double apostrophes in the items of the file
 description

---
 ifc_rs/src/meta/header/deserialize.rs | 3 ++-
 ifc_rs/src/meta/header/serialize.rs   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 22fe6cc..7625b3d 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -90,7 +90,8 @@ impl Header {
         //
         // so spaces, braces and anything is allowed, we just take anything and clean it up a bit
         // via trim
-        let p_item = repeat(.., none_of([',', ']'])).map(|s: String| s.trim().to_owned());
+        let p_char = alt(("''".value('\''), none_of([',', ']', '\''])));
+        let p_item = repeat(.., p_char).map(|s: String| s.trim().to_owned());
         let p_items = delimited('[', separated(.., p_item, ','), ']');
         // apparently, some applications like archicad support lists with leading comma which
         // result in empty items. Since this doesn't provide any value, we filter it out
diff --git a/ifc_rs/src/meta/header/serialize.rs b/ifc_rs/src/meta/header/serialize.rs
index 8123b6b..e490047 100644
--- a/ifc_rs/src/meta/header/serialize.rs
+++ b/ifc_rs/src/meta/header/serialize.rs
@@ -33,7 +33,7 @@ impl Display for FileDescription {
             } else {
                 self.descriptions
                     .iter()
-                    .map(|desc| format!("'{desc}'"))
+                    .map(|desc| quote_word(&desc.to_string()))
                     .join(",")
             }
         )?;
-- 
2.43.0


From 34607d7d0db753c42fd9c02c71ba9eacf8bf6d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 17/20] fix: don't swallow the next instance when a record
 terminator is missing

---
 ifc_rs/src/parser/dummy.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ifc_rs/src/parser/dummy.rs b/ifc_rs/src/parser/dummy.rs
index 8f01e32..9fb0427 100644
--- a/ifc_rs/src/parser/dummy.rs
+++ b/ifc_rs/src/parser/dummy.rs
@@ -21,15 +21,16 @@ impl IFCParse for Dummy {
         use super::{p_comment, p_quote_word, p_space_or_comment_surrounded};
         use winnow::{
             combinator::{alt, repeat_till},
-            token::any,
+            token::none_of,
             Parser,
         };
 
-        // semicolons inside of strings and comments don't terminate the record
+        // semicolons inside of strings and comments don't terminate the record, an equals sign outside
+        // of them belongs to the next instance, i.e. the terminator is missing
         let p_chunk = alt((
             p_quote_word().take(),
             p_comment().take(),
-            any.take(),
+            none_of('=').take(),
         ));
 
         repeat_till(.., p_chunk, p_space_or_comment_surrounded(";"))
-- 
2.43.0


From cce06dd547ae5db3db0599174623f00f18f6e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 18/20] fix: don't panic on records of unsupported kinds in
 extractor queries

---
 ifc_rs/src/ifc_extractor/mod.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ifc_rs/src/ifc_extractor/mod.rs b/ifc_rs/src/ifc_extractor/mod.rs
index c90084c..9bec07c 100644
--- a/ifc_rs/src/ifc_extractor/mod.rs
+++ b/ifc_rs/src/ifc_extractor/mod.rs
@@ -13,6 +13,11 @@ pub struct IfcExtractor {
 }
 
 impl IfcExtractor {
+    /// The instance with the given id, if it isn't a record of an unsupported kind.
+    fn get_supported<T: IfcType>(&self, id: TypedId<T>) -> Option<&T> {
+        self.ifc.data.get_untyped(id.id()).downcast_ref()
+    }
+
     pub fn projects(&self) -> impl Iterator<Item = (TypedId<Project>, &Project)> {
         self.ifc.data.find_all_of_type::<Project>()
     }
@@ -77,7 +82,7 @@ impl IfcExtractor {
             .data
             .find_all_of_type::<RelVoidsElement>()
             .filter(move |&(_, rel_voids)| (rel_voids.relating_building_element == id.id()))
-            .map(|(_, rel_voids)| self.ifc.data.get(rel_voids.related_opening_element))
+            .filter_map(|(_, rel_voids)| self.get_supported(rel_voids.related_opening_element))
     }
 
     pub fn related_materials<S>(&self, id: TypedId<S>) -> impl Iterator<Item = &MaterialLayer>
@@ -100,15 +105,9 @@ impl IfcExtractor {
                     .get_untyped(rel_material.relating_material)
                     .downcast_ref::<MaterialLayerSetUsage>()
             })
-            .flat_map(|set_usage| {
-                self.ifc
-                    .data
-                    .get(set_usage.spatial_element_structure)
-                    .material_layers
-                    .0
-                    .iter()
-            })
-            .map(|material_layer_id| self.ifc.data.get(*material_layer_id))
+            .filter_map(|set_usage| self.get_supported(set_usage.spatial_element_structure))
+            .flat_map(|layer_set| layer_set.material_layers.0.iter())
+            .filter_map(|material_layer_id| self.get_supported(*material_layer_id))
     }
 
     pub fn related_constiuents<S>(
@@ -135,7 +134,7 @@ impl IfcExtractor {
                     .downcast_ref::<MaterialConstituentSet>()
             })
             .flat_map(|constituent_set| constituent_set.material_constituents.0.iter())
-            .map(|constituent_id| self.ifc.data.get(*constituent_id))
+            .filter_map(|constituent_id| self.get_supported(*constituent_id))
     }
 }
 
-- 
2.43.0


From 057caf7c6e7a8b64fceaeda4892662773ca2eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 19/20] fix: give the axis of a wall extruded vertically a
 direction

---
 ifc_rs/src/ifc_builder/walls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/walls.rs b/ifc_rs/src/ifc_builder/walls.rs
index f56067b..b18d99f 100644
--- a/ifc_rs/src/ifc_builder/walls.rs
+++ b/ifc_rs/src/ifc_builder/walls.rs
@@ -222,7 +222,12 @@ impl<'a> IfcStoreyBuilder<'a> {
     ) -> IfcWallBuilder<'a, 'b> {
         let wall_thickness = self.calculate_material_layer_set_thickness(material);
 
-        let curve_axis_dir = wall_information.direction.cross(DVec3::Z).normalize();
+        // a vertical extrusion leaves the axis undetermined
+        let curve_axis_dir = wall_information
+            .direction
+            .cross(DVec3::Z)
+            .try_normalize()
+            .unwrap_or(DVec3::X);
         let curve_axis_representation = ShapeRepresentation::new(
             self.sub_context,
             RepresentationIdentifier::Axis,
-- 
2.43.0


From bf708223e04949edcb8b34cafcbae39ec1ee76d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 20/20] fix: keep the representation identifier when a storey
 transforms an element

---
 ifc_rs/src/ifc_builder/transforms.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/transforms.rs b/ifc_rs/src/ifc_builder/transforms.rs
index d79639b..82ebb9d 100644
--- a/ifc_rs/src/ifc_builder/transforms.rs
+++ b/ifc_rs/src/ifc_builder/transforms.rs
@@ -173,9 +173,19 @@ impl<'a> IfcStoreyBuilder<'a> {
                         shape_repr,
                         &mut self.project.ifc,
                     );
+                    let shape_repr_identifier = self
+                        .project
+                        .ifc
+                        .data
+                        .get(shape_repr)
+                        .representation_identifier
+                        .custom()
+                        .copied()
+                        .unwrap_or(RepresentationIdentifier::Body);
+
                     let r = ShapeRepresentation::new(
                         self.sub_context,
-                        RepresentationIdentifier::Body,
+                        shape_repr_identifier,
                         RepresentationType::MappedRepresentation,
                         &mut self.project.ifc,
                     )
-- 
2.43.0

