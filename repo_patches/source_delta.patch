From b73cec1306471de08bebf6e8e1630c0ceb913b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 01/35] fix: refuse short or non-ASCII text in exfil instead of
 panicking

---
 src/cesr/core/counter/mod.rs |  8 ++++----
 src/cesr/core/indexer/mod.rs | 12 ++++++------
 src/cesr/core/matter/mod.rs  | 10 +++++-----
 src/cesr/core/util.rs        |  9 +++++++++
 4 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/cesr/core/counter/mod.rs b/src/cesr/core/counter/mod.rs
index b94ef26..f297633 100644
--- a/src/cesr/core/counter/mod.rs
+++ b/src/cesr/core/counter/mod.rs
@@ -217,8 +217,8 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        // the text may be shorter than a code or hold characters wider than one byte
+        let first = util::slice(qb64, ..2)?;
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -229,7 +229,7 @@ impl Counter {
         }
 
         // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, ..hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +240,7 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let count_b64 = util::slice(qb64, szg.hs as usize..cs as usize)?;
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index d6f5e97..ade1d53 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -394,7 +394,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, ..hs)?;
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -408,8 +408,8 @@ pub trait Indexer: Default {
             )));
         }
 
-        let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
-        let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
+        let index = util::b64_to_u32(util::slice(qb64, hs..(hs + ms as usize))?)?;
+        let odx = util::slice(qb64, (hs + ms as usize)..(hs + (ms + szg.os) as usize))?;
 
         let mut ondex: Option<u32> = None;
         if CurrentSigCodex::has_code(hard) {
@@ -458,13 +458,13 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let qb64 = util::slice(qb64, ..fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
         let raw = if ps != 0 {
             let mut buf = "A".repeat(ps as usize);
-            buf.push_str(&qb64[(cs as usize)..]);
+            buf.push_str(util::slice(qb64, (cs as usize)..)?);
 
             let mut paw = Vec::<u8>::new();
             base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
@@ -480,7 +480,7 @@ pub trait Indexer: Default {
 
             paw[ps as usize..].to_owned()
         } else {
-            let buf = &qb64[cs as usize..];
+            let buf = util::slice(qb64, cs as usize..)?;
             let mut paw = Vec::<u8>::new();
             base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
 
diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index fe9f663..42b1caf 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -330,7 +330,7 @@ pub trait Matter: Default {
         }
 
         // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, ..hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -349,7 +349,7 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let soft = util::slice(qb64, szg.hs as usize..cs as usize)?;
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -363,12 +363,12 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let trim = util::slice(qb64, ..fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
         let mut raw = if ps != 0 {
-            let mut buf = "A".repeat(ps as usize) + &trim[(cs as usize)..];
+            let mut buf = "A".repeat(ps as usize) + util::slice(trim, cs as usize..)?;
 
             // decode base to leave pre-padded raw
             let mut paw = Vec::<u8>::new();
@@ -390,7 +390,7 @@ pub trait Matter: Default {
             raw
         } else {
             let mut paw = Vec::<u8>::new();
-            b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
+            b64_engine::URL_SAFE.decode_vec(util::slice(trim, cs as usize..)?, &mut paw)?;
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index 40fee97..22393c6 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -2,6 +2,15 @@ use crate::error::{err, Error, Result};
 
 pub const REB64_STRING: &str = "^[A-Za-z0-9\\-_]*$";
 
+/// Part of a text between byte positions. Text from the outside may hold characters wider than one
+/// byte, so positions that are out of range or inside a character are an error.
+pub fn slice<R: std::slice::SliceIndex<str, Output = str>>(text: &str, range: R) -> Result<&str> {
+    match text.get(range) {
+        Some(part) => Ok(part),
+        None => err!(Error::ParseQb64("text is not sliceable as Base64".to_string())),
+    }
+}
+
 pub fn b64_char_to_index(c: char) -> Result<u8> {
     Ok(match c {
         'A' => 0,
-- 
2.43.0


From 7b416ed129f65a93576a0791f87a379e6aa829e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 02/35] fix: refuse material too short to hold its lead bytes
 instead of panicking

---
 src/cesr/core/matter/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 42b1caf..fd40fbe 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -393,6 +393,13 @@ pub trait Matter: Default {
             b64_engine::URL_SAFE.decode_vec(util::slice(trim, cs as usize..)?, &mut paw)?;
 
             let mut li: u32 = 0;
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for lead bytes: size = {}, ls = {}",
+                    paw.len(),
+                    szg.ls
+                )));
+            }
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
             }
@@ -487,6 +494,14 @@ pub trait Matter: Default {
             }
         }
 
+        if trim.len() < (bcs + szg.ls) as usize {
+            return err!(Error::Shortage(format!(
+                "insufficient material for lead bytes: size = {}, ls = {}",
+                trim.len(),
+                szg.ls
+            )));
+        }
+
         let mut raw = trim[(bcs + szg.ls) as usize..].to_vec();
         if raw.len() != (trim.len() - bcs as usize) - szg.ls as usize {
             // unreachable. rust prevents this by the definition of `raw` above.
-- 
2.43.0


From 4da201a33f768d9bc8a7993198269e8a19042fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 03/35] fix: count ECDSA_256r1N among the non-transferable
 codes

---
 src/cesr/core/matter/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index fd40fbe..6a3d3de 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -171,8 +171,12 @@ pub trait Matter: Default {
     }
 
     fn transferable(&self) -> bool {
-        const CODES: &[&str] =
-            &[tables::Codex::Ed25519N, tables::Codex::ECDSA_256k1N, tables::Codex::Ed448N];
+        const CODES: &[&str] = &[
+            tables::Codex::Ed25519N,
+            tables::Codex::ECDSA_256k1N,
+            tables::Codex::ECDSA_256r1N,
+            tables::Codex::Ed448N,
+        ];
 
         !CODES.contains(&self.code().as_str())
     }
-- 
2.43.0


From 6eb35eb2b8f5b055a33e77202098eea9a1723580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 04/35] fix: bound index and ondex of an Indexer in binfil as
 infil does

---
 src/cesr/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index ade1d53..ad8b26d 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -293,13 +293,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os > 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
-- 
2.43.0


From 23216a9693f76696bcc4642ee5d9e4b228827373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 05/35] fix: leave lead bytes out of the raw material of
 indexed codes

---
 src/cesr/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index ad8b26d..b75c034 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -131,7 +131,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -497,7 +497,7 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         self.set_code(hard);
-- 
2.43.0


From 3ee26c698c2dd1d5bb3f3fc8596e28546c95f7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 06/35] fix: refuse qualified material that is not a salt in
 Salter

---
 src/cesr/core/salter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cesr/core/salter.rs b/src/cesr/core/salter.rs
index e8984a2..4f2cf65 100644
--- a/src/cesr/core/salter.rs
+++ b/src/cesr/core/salter.rs
@@ -54,6 +54,7 @@ impl Salter {
             } else {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
+        validate_code(&salter.code())?;
 
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
         Ok(salter)
-- 
2.43.0


From 2f47c50ec07f6c09db4744cfd064d896a7330862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 07/35] fix: refuse qualified material that is not an
 identifier prefix in Prefixer

---
 src/prefexing/prefixer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index ed1ce86..6f98188 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -268,7 +268,9 @@ impl Prefixer {
             || qb2.is_some()
         {
             validate_code(code.unwrap_or(matter::Codex::Ed25519N))?;
-            Matter::new(code, raw, qb64b, qb64, qb2)?
+            let prefixer: Prefixer = Matter::new(code, raw, qb64b, qb64, qb2)?;
+            validate_code(&prefixer.code())?;
+            prefixer
         } else {
             let ked = if let Some(ked) = ked {
                 if code.is_none() && !ked.to_map()?.contains_key(Ids::i) {
-- 
2.43.0


From e582f14ae8a98fcdb27d566decc53fa241554072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 08/35] fix: refuse qualified material that is not a number in
 Number

---
 src/cesr/core/number.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cesr/core/number.rs b/src/cesr/core/number.rs
index d5a27f9..4a1a48f 100644
--- a/src/cesr/core/number.rs
+++ b/src/cesr/core/number.rs
@@ -89,6 +89,7 @@ impl Number {
             validate_code(code)?;
             Matter::new(Some(code), raw, qb64b, qb64, qb2)?
         };
+        validate_code(&number.code())?;
 
         Ok(number)
     }
-- 
2.43.0


From 1ef78195d8bb86d74376a70f8cd233b4adb4564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 09/35] fix: refuse padded base64 that falls short of the size
 its code promises

---
 src/cesr/core/indexer/mod.rs | 16 ++++++++++++++++
 src/cesr/core/matter/mod.rs  |  9 +++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/cesr/core/indexer/mod.rs b/src/cesr/core/indexer/mod.rs
index b75c034..8ee594f 100644
--- a/src/cesr/core/indexer/mod.rs
+++ b/src/cesr/core/indexer/mod.rs
@@ -485,6 +485,13 @@ pub trait Indexer: Default {
             base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
 
             let mut li: u32 = 0;
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for lead bytes: size = {}, ls = {}",
+                    paw.len(),
+                    szg.ls
+                )));
+            }
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
             }
@@ -500,6 +507,15 @@ pub trait Indexer: Default {
             paw[szg.ls as usize..].to_owned()
         };
 
+        // base64 padding decodes to less than the code promises
+        let rize = ((fs - cs) * 3 / 4 - szg.ls) as usize;
+        if raw.len() != rize {
+            return err!(Error::Conversion(format!(
+                "improperly qualified material: raw size = {}, rize = {rize}",
+                raw.len()
+            )));
+        }
+
         self.set_code(hard);
         self.set_raw(&raw);
         self.set_index(index);
diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 6a3d3de..896607b 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -419,6 +419,15 @@ pub trait Matter: Default {
             raw
         };
 
+        // base64 padding decodes to less than the code promises
+        let rize = ((fs - cs) * 3 / 4 - szg.ls) as usize;
+        if raw.len() != rize {
+            return err!(Error::Conversion(format!(
+                "improperly qualified material: raw size = {}, rize = {rize}",
+                raw.len()
+            )));
+        }
+
         self.set_code(hard);
         self.set_size(size);
         self.set_raw(&raw);
-- 
2.43.0


From 821b1e4641a1f3372a413a8c13b8a49491bcab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 10/35] fix: ignore indices beyond the weights of a threshold
 instead of panicking

---
 src/cesr/core/tholder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index c3dfdfc..4e9ac12 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -224,7 +224,10 @@ impl Tholder {
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            // an index beyond the weights carries no weight
+            if let Some(sat) = sats.get_mut(index as usize) {
+                *sat = true
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
-- 
2.43.0


From f988576846660ed3140626938c782bc2e93342ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 11/35] fix: count each index once against a numeric threshold

---
 src/cesr/core/tholder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index 4e9ac12..e016662 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -206,6 +206,11 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        // several signatures with the same index still come from one key
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
-- 
2.43.0


From d4822e2aa271a377d526367093ae3e49a22264ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 12/35] fix: sum threshold weights exactly and refuse a zero
 denominator

---
 src/cesr/core/tholder.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index e016662..7a602e2 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -9,7 +9,7 @@ use crate::{
 };
 
 use lazy_static::lazy_static;
-use num_rational::Rational32;
+use num_rational::BigRational;
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Tholder {
@@ -26,13 +26,13 @@ impl Default for Tholder {
     }
 }
 
-fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
+fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
     let threshold = value.to_vec()?;
     let separator = "/";
-    let mut clauses: Vec<Vec<Rational32>> = Vec::new();
+    let mut clauses: Vec<Vec<BigRational>> = Vec::new();
 
     for _clause in threshold {
-        let mut clause: Vec<Rational32> = Vec::new();
+        let mut clause: Vec<BigRational> = Vec::new();
         let _clause = _clause.to_vec()?;
         for weight in _clause {
             let weight = weight.to_string()?;
@@ -40,9 +40,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
             if parts.len() != 2 {
                 // must be 0 or 1
                 if parts[0] == "0" {
-                    clause.push(Rational32::new(0, 1));
+                    clause.push(BigRational::from_integer(0.into()));
                 } else if parts[0] == "1" {
-                    clause.push(Rational32::new(1, 1));
+                    clause.push(BigRational::from_integer(1.into()));
                 } else {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
                 }
@@ -52,23 +52,26 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
+                if denom == 0 {
+                    return err!(Error::Value(format!("weight {numer}/{denom} is not a number")));
+                }
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
-                clause.push(Rational32::new(numer, denom));
+                clause.push(BigRational::new(numer.into(), denom.into()));
             }
         }
         clauses.push(clause);
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
+        let mut sum = BigRational::from_integer(0.into());
 
         for weight in clause {
             sum += weight;
         }
 
-        if sum < Rational32::new(1, 1) {
+        if sum < BigRational::from_integer(1.into()) {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -79,12 +82,12 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     Ok(clauses)
 }
 
-fn rationals_to_bext(clauses: &Vec<Vec<Rational32>>) -> String {
+fn rationals_to_bext(clauses: &Vec<Vec<BigRational>>) -> String {
     let mut envelope: Vec<String> = Vec::new();
     for clause in clauses {
         let mut text_clause: Vec<String> = Vec::new();
         for weight in clause {
-            if *weight.denom() == 1 {
+            if weight.is_integer() {
                 text_clause.push(format!("{n}", n = weight.numer()));
             } else {
                 text_clause.push(format!("{n}s{d}", n = weight.numer(), d = weight.denom()));
@@ -220,7 +223,7 @@ impl Tholder {
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
         lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
+            static ref RATIONAL_ONE: BigRational = BigRational::from_integer(1.into());
         }
 
         let mut indices = indices.to_vec();
@@ -239,7 +242,7 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
+            let mut cw = BigRational::from_integer(0.into());
             for weight in clause {
                 if sats[wio] {
                     cw += weight;
@@ -378,7 +381,7 @@ impl Tholder {
         for clause in threshold {
             let mut inner: Vec<Value> = Vec::new();
             for weight in clause {
-                if *weight.denom() == 1 {
+                if weight.is_integer() {
                     inner.push(dat!(&format!("{n}", n = weight.numer())));
                 } else {
                     inner.push(dat!(&weight.to_string()));
-- 
2.43.0


From cb3c22f4b7479e74af820f42b5b899481147c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 13/35] fix: refuse a threshold weight with more than one
 fraction bar

---
 src/cesr/core/tholder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index 7a602e2..d6c81a2 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -39,6 +39,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
             let parts: Vec<&str> = weight.split(separator).collect();
             if parts.len() != 2 {
                 // must be 0 or 1
+                if parts.len() > 2 {
+                    return err!(Error::Value(format!("malformed weight {weight}")));
+                }
                 if parts[0] == "0" {
                     clause.push(BigRational::from_integer(0.into()));
                 } else if parts[0] == "1" {
-- 
2.43.0


From b295add9701a72871f80d3d31ae8a7248fe98bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 14/35] fix: refuse a limen shorter than its code instead of
 panicking

---
 src/cesr/core/tholder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index d6c81a2..4149e75 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -3,6 +3,7 @@ use crate::{
         bexter::{tables as bexter, Bext, Bexter},
         matter::{tables as matter, Matter},
         number::{tables as number, Number},
+        util,
     },
     data::{dat, Array, Value},
     error::{err, Error, Result},
@@ -280,7 +281,7 @@ impl Tholder {
         let limen = String::from_utf8(limen.to_vec())?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = util::slice(&limen, ..hs)?;
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
-- 
2.43.0


From 0205acab426fc5b7eb8750f56ec4390b529b0e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 15/35] fix: refuse a threshold without clauses, which no
 signature at all would satisfy

---
 src/cesr/core/tholder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cesr/core/tholder.rs b/src/cesr/core/tholder.rs
index 4149e75..afefd5b 100644
--- a/src/cesr/core/tholder.rs
+++ b/src/cesr/core/tholder.rs
@@ -377,6 +377,9 @@ impl Tholder {
 
     fn process_weighted(&mut self, thold: &Value) -> Result<()> {
         let threshold = &values_to_rationals(thold)?;
+        if threshold.is_empty() {
+            return err!(Error::Value("empty weight list".to_string()));
+        }
         let mut size = 0;
         for clause in threshold {
             size += clause.len() as u32;
-- 
2.43.0


From 3254a989e0853d3ba7967147644c15b354bd1984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:01 +0000
Subject: [PATCH 16/35] fix: keep every JSON number in data::Value instead of
 panicking on some

---
 src/data.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index b96be4d..fe3c355 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -16,7 +16,8 @@ pub type Object = IndexMap<String, Value>;
 #[derive(Debug, PartialEq, Clone)]
 pub struct Number {
     f: f64,
-    i: i64,
+    // wide enough for every JSON integer, of either sign
+    i: i128,
     float: bool,
 }
 
@@ -28,6 +29,12 @@ impl From<f64> for Number {
 
 impl From<i64> for Number {
     fn from(i: i64) -> Self {
+        Self::from(i as i128)
+    }
+}
+
+impl From<i128> for Number {
+    fn from(i: i128) -> Self {
         Self { f: 0.0, i, float: false }
     }
 }
@@ -67,7 +74,7 @@ impl Value {
                     ));
                 }
 
-                Ok(number.i)
+                Ok(i64::try_from(number.i)?)
             }
             _ => err!(CESRError::Conversion("cannot convert to integer".to_string())),
         }
@@ -110,7 +117,7 @@ impl Value {
                 if n.float {
                     json!(n.f).to_string()
                 } else {
-                    json!(n.i).to_string()
+                    n.i.to_string()
                 }
             }
             Self::String(s) => json!(s).to_string(),
@@ -284,10 +291,12 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
+                } else if let Some(u) = n.as_u64() {
+                    Self::Number(Number::from(u as i128))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    Self::Number(Number::from(n.as_f64().unwrap()))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
@@ -338,7 +347,7 @@ impl TryFrom<&Value> for i64 {
         match v {
             Value::Number(n) => {
                 if !n.float {
-                    Ok(n.i)
+                    Ok(i64::try_from(n.i)?)
                 } else {
                     Ok(n.f as i64)
                 }
-- 
2.43.0


From cc33b7b5327a945f95c30dc42198a09365a18fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 17/35] fix: refuse a message shorter than its declared size
 instead of panicking

---
 src/cesr/core/common.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index bac8701..f456a71 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -244,10 +244,18 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     let kind = kind.unwrap_or(Serialage::JSON);
 
     if let Some(size) = size {
+        let size = size as usize;
+        if raw.len() < size {
+            return err!(Error::Shortage(format!(
+                "need {size} bytes of serialization, have {len}",
+                len = raw.len()
+            )));
+        }
+
         match kind {
             Serialage::JSON => {
                 let v: serde_json::Value =
-                    serde_json::from_str(&String::from_utf8(raw[..(size as usize)].to_vec())?)?;
+                    serde_json::from_str(&String::from_utf8(raw[..size].to_vec())?)?;
                 Ok(Value::from(&v))
             }
             _ => err!(Error::Validation(format!("invalid serialization kind {kind}"))),
-- 
2.43.0


From 3130e63efced67edda4543e208bed66eab2a3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 18/35] fix: answer with an error for a missing field instead
 of panicking

---
 src/cesr/core/creder.rs |  4 ++--
 src/cesr/core/sadder.rs |  6 +++---
 src/cesr/core/saider.rs | 10 +++++++---
 src/cesr/core/serder.rs |  6 +++---
 src/data.rs             | 11 +++++++++++
 5 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/cesr/core/creder.rs b/src/cesr/core/creder.rs
index c95215e..0d2a99a 100644
--- a/src/cesr/core/creder.rs
+++ b/src/cesr/core/creder.rs
@@ -57,11 +57,11 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        self.ked().get(Ids::i)?.to_string()
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        self.ked().get(Ids::s)?.to_string()
     }
 
     pub fn subject(&self) -> Value {
diff --git a/src/cesr/core/sadder.rs b/src/cesr/core/sadder.rs
index ea3018a..36d52ba 100644
--- a/src/cesr/core/sadder.rs
+++ b/src/cesr/core/sadder.rs
@@ -114,7 +114,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.get(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -144,7 +144,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.get(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -174,7 +174,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.get(Ids::d)?.to_string()?),
             None,
         )?);
 
diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index 272cc74..30ba0aa 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -61,7 +61,8 @@ fn derive(
     validate_code(code)?;
 
     let szg = matter::sizage(code)?;
-    let mut sad = sad.clone();
+    // only a map has a field for the digest
+    let mut sad = dat!(&sad.to_map()?);
 
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
 
@@ -233,8 +234,11 @@ impl Saider {
             return Ok(false);
         }
 
-        if prefixed && sad[label].to_string()? != self.qb64()? {
-            return Ok(false);
+        if prefixed {
+            match sad.get(label).and_then(|said| said.to_string()) {
+                Ok(said) if said == self.qb64()? => {}
+                _ => return Ok(false),
+            }
         }
 
         Ok(true)
diff --git a/src/cesr/core/serder.rs b/src/cesr/core/serder.rs
index 75445f1..de51a62 100644
--- a/src/cesr/core/serder.rs
+++ b/src/cesr/core/serder.rs
@@ -133,7 +133,7 @@ impl Serder {
     pub fn sner(&self) -> Result<Number> {
         let label = Ids::s;
 
-        Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
+        Number::new(None, Some(&self.ked.get(label)?.to_string()?), None, None, None, None, None)
     }
 
     pub fn sn(&self) -> Result<u128> {
@@ -173,7 +173,7 @@ impl Serder {
 
     pub fn pre(&self) -> Result<String> {
         let label = Ids::i;
-        self.ked[label].to_string()
+        self.ked.get(label)?.to_string()
     }
 
     pub fn preb(&self) -> Result<Vec<u8>> {
@@ -184,7 +184,7 @@ impl Serder {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
         let label = Ids::t;
-        let ilk = self.ked[label].to_string()?;
+        let ilk = self.ked.get(label)?.to_string()?;
 
         Ok(ILKS.contains(&ilk.as_str()))
     }
diff --git a/src/data.rs b/src/data.rs
index fe3c355..ad999bd 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -109,6 +109,17 @@ impl Value {
         }
     }
 
+    /// The field of an object with the given label; an error if there is none.
+    pub fn get(&self, label: &str) -> Result<&Value> {
+        match self {
+            Self::Object(map) => match map.get(label) {
+                Some(value) => Ok(value),
+                None => err!(CESRError::Value(format!("missing field {label}"))),
+            },
+            _ => err!(CESRError::Conversion("cannot convert to map".to_string())),
+        }
+    }
+
     pub fn to_json(&self) -> Result<String> {
         Ok(match self {
             Self::Null => "null".to_string(),
-- 
2.43.0


From 0eefbe7466a9fa6191775cfcfded97107daed45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 19/35] fix: keep the order of fields when leaving ignored ones
 out of a SAID

---
 src/cesr/core/saider.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cesr/core/saider.rs b/src/cesr/core/saider.rs
index 30ba0aa..573c3c6 100644
--- a/src/cesr/core/saider.rs
+++ b/src/cesr/core/saider.rs
@@ -76,9 +76,8 @@ fn derive(
 
     let mut map = sad.to_map()?;
     for key in ignore.unwrap_or(&[]) {
-        if map.contains_key(*key) {
-            map.remove(*key);
-        }
+        // the remaining fields keep their order
+        map.shift_remove(*key);
     }
     let ser = dat!(&map);
 
-- 
2.43.0


From d09d66e1e3c3043ffbc1f12075c045b497f3f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 20/35] fix: let a credential without a subject answer with
 null instead of panicking

---
 src/cesr/core/creder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/creder.rs b/src/cesr/core/creder.rs
index 0d2a99a..6a6cad6 100644
--- a/src/cesr/core/creder.rs
+++ b/src/cesr/core/creder.rs
@@ -65,7 +65,8 @@ impl Creder {
     }
 
     pub fn subject(&self) -> Value {
-        self.ked()[Ids::a].clone()
+        // an ACDC may come without an attribute section
+        self.ked().get(Ids::a).cloned().unwrap_or(Value::Null)
     }
 
     pub fn status(&self) -> Result<Option<String>> {
-- 
2.43.0


From 64654a9e2b1e28574db9d8981035c2ba80064e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 21/35] fix: cut pretty output between characters instead of
 panicking

---
 src/cesr/core/sadder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/sadder.rs b/src/cesr/core/sadder.rs
index 36d52ba..b7be161 100644
--- a/src/cesr/core/sadder.rs
+++ b/src/cesr/core/sadder.rs
@@ -199,8 +199,12 @@ pub trait Sadder: Default + Clone {
         let v: serde_json::Value = serde_json::from_str(&self.ked().to_json()?)?;
         match serde_json::to_string_pretty(&v) {
             Ok(s) => {
-                let size = size.unwrap_or(1024);
+                let mut size = size.unwrap_or(1024);
                 if s.len() > size {
+                    // do not cut a character in two
+                    while !s.is_char_boundary(size) {
+                        size -= 1;
+                    }
                     Ok(s[..size].to_string())
                 } else {
                     Ok(s)
-- 
2.43.0


From 776b3cf8cb59c5231b0bb4bb1af71b639f527620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 22/35] fix: refuse a version string with something before or
 after it

---
 src/cesr/core/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index f456a71..33a90fc 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -136,7 +136,8 @@ pub fn deversify(vs: &str) -> Result<DeversifyResult> {
         static ref REVER: Regex = Regex::new(REVER_STRING).unwrap();
     };
 
-    if REVER.is_match(vs) {
+    // nothing but a version string
+    if vs.len() == VERSION_FULL_SIZE && REVER.is_match(vs) {
         let ident = REVER.replace_all(vs, "$ident").to_string();
         let major = u8::from_str_radix(&REVER.replace_all(vs, "$major"), 16)?;
         let minor = u8::from_str_radix(&REVER.replace_all(vs, "$minor"), 16)?;
-- 
2.43.0


From c6e85046579f7cb1a742f6a7827bc3fca411aed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 23/35] fix: refuse to make a version string its fields do not
 fit in

---
 src/cesr/core/common.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 33a90fc..48d8f59 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -234,6 +234,14 @@ pub fn versify(
         return err!(Error::Validation(format!("invalid serialization kind {kind}")));
     }
 
+    if version.major > 0xf || version.minor > 0xf {
+        return err!(Error::Validation(format!("version does not fit {version:?}")));
+    }
+
+    if size > 0xffffff {
+        return err!(Error::Validation(format!("size does not fit {size}")));
+    }
+
     Ok(format!(
         "{ident}{major:01x}{minor:01x}{kind}{size:06x}_",
         major = version.major,
-- 
2.43.0


From d5cc3338f102d30955b3edb998e7e9baa300d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 24/35] fix: sniff a message whatever bytes follow it, and
 refuse unknown protocols

---
 src/cesr/core/common.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 48d8f59..86f55e1 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -290,7 +290,7 @@ pub(crate) fn dumps(ked: &Value, kind: Option<&str>) -> Result<Vec<u8>> {
 
 pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
     lazy_static! {
-        static ref REVER: Regex = Regex::new(REVER_STRING).unwrap();
+        static ref REVER: regex::bytes::Regex = regex::bytes::Regex::new(REVER_STRING).unwrap();
     };
 
     if raw.len() < MINIMUM_SNIFF_SIZE {
@@ -300,9 +300,9 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
-    let start = match REVER.shortest_match(raw) {
-        Some(m) => m - VERSION_FULL_SIZE,
+    // what follows the message need not be text
+    let start = match REVER.find(raw) {
+        Some(m) => m.start(),
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
     };
 
@@ -312,18 +312,8 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let vs = &raw[start..(start + VERSION_FULL_SIZE)];
-
-    let ident = REVER.replace_all(vs, "$ident").to_string();
-    let major = u8::from_str_radix(&REVER.replace_all(vs, "$major"), 16)?;
-    let minor = u8::from_str_radix(&REVER.replace_all(vs, "$minor"), 16)?;
-    let kind = REVER.replace_all(vs, "$kind").to_string();
-    let size = u32::from_str_radix(&REVER.replace_all(vs, "$size"), 16)?;
-    let version = Version { major, minor };
-
-    if !SERIALS.contains(&kind.as_str()) {
-        return err!(Error::Validation(format!("invalid serialization kind {kind}")));
-    }
+    let vs = std::str::from_utf8(&raw[start..(start + VERSION_FULL_SIZE)])?;
+    let DeversifyResult { ident, kind, version, size } = deversify(vs)?;
 
     Ok(SniffResult { ident, kind, version, size })
 }
-- 
2.43.0


From b92c47a9069047aa8fb8a61c9a037b2afa1f7467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 25/35] fix: refuse to size a message where something else
 poses as its version field

---
 src/cesr/core/common.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cesr/core/common.rs b/src/cesr/core/common.rs
index 86f55e1..658072c 100644
--- a/src/cesr/core/common.rs
+++ b/src/cesr/core/common.rs
@@ -212,6 +212,11 @@ pub fn sizeify(ked: &Value, kind: Option<&str>) -> Result<SizeifyResult> {
     let mut ked = ked.clone();
     ked["v"] = dat!(&vs);
 
+    // what looked like a version string may have been something else than the version field
+    if raw != dumps(&ked, Some(&kind))? {
+        return err!(Error::Value("version string is not the version field".to_string()));
+    }
+
     Ok(SizeifyResult { raw, ident: result.ident, kind, ked, version: result.version })
 }
 
-- 
2.43.0


From f5e33646ca579bd8f85be916401d6e0475ef2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 26/35] fix: never replace a malformed digest by the digest of
 a serialization

---
 src/cesr/core/diger.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cesr/core/diger.rs b/src/cesr/core/diger.rs
index 6f334f3..e5ed991 100644
--- a/src/cesr/core/diger.rs
+++ b/src/cesr/core/diger.rs
@@ -64,9 +64,10 @@ impl Diger {
         qb64: Option<&str>,
         qb2: Option<&[u8]>,
     ) -> Result<Self> {
-        let result = Matter::new(code, raw, qb64b, qb64, qb2);
-        if result.is_ok() {
-            let diger: Self = result?;
+        // a digest given, even a malformed one, is never replaced by the digest of something else
+        let given = raw.is_some() || qb64b.is_some() || qb64.is_some() || qb2.is_some();
+        if given {
+            let diger: Self = Matter::new(code, raw, qb64b, qb64, qb2)?;
             validate_code(&diger.code())?;
             Ok(diger)
         } else if let Some(ser) = ser {
-- 
2.43.0


From 99496ac02038fe5444ab0965763be6f7b46f2c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 27/35] fix: derive the keys of a SaltyCreator at the tier it
 was made with

---
 src/signify/creating.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index 5b4c116..e28da40 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -54,8 +54,9 @@ impl SaltyCreator {
         if let Some(s) = salter {
             salty_creator.salter = s;
         } else {
-            salty_creator.salter = Salter::new(tier, None, None, None, salt, None).unwrap();
+            salty_creator.salter = Salter::new(tier, None, None, None, salt, None)?;
         }
+        salty_creator.tier = salty_creator.salter.tier();
 
         Ok(salty_creator)
     }
-- 
2.43.0


From 0d9e959098f2d6edc0b967a93dce1019c8c8918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 28/35] fix: do not wrap key indices around in SaltyCreator

---
 src/signify/creating.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signify/creating.rs b/src/signify/creating.rs
index e28da40..22b5985 100644
--- a/src/signify/creating.rs
+++ b/src/signify/creating.rs
@@ -104,7 +104,7 @@ impl SaltyCreator {
 
         let mut signers = vec![];
         for (i, c) in codes.iter().enumerate() {
-            let path = format!("{}{:x}{:x}", stem, &ridx, kidx + i as u16);
+            let path = format!("{}{:x}{:x}", stem, &ridx, kidx as usize + i);
             signers.push(
                 self.salter
                     .signer(Some(c), Some(transferable), Some(&path), Some(&self.tier), Some(temp))
-- 
2.43.0


From 00b8b15735f1df31a6e8eead2fe6cbf7050ddadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 29/35] fix: strip a root off a path by position, and only if
 the path starts with it

---
 src/pathing/pather.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/pathing/pather.rs b/src/pathing/pather.rs
index 71a5cbe..76fe95b 100644
--- a/src/pathing/pather.rs
+++ b/src/pathing/pather.rs
@@ -134,22 +134,14 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
-        if root_path.len() > path.len() {
+        if !path.starts_with(&root_path) {
             return Ok(self.clone());
         }
 
-        root_path.reverse();
-        for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
-        }
-
-        Pather::new_with_path(&dat!(path.as_slice()))
+        Pather::new_with_path(&dat!(&path[root_path.len()..]))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-- 
2.43.0


From d8a2cfdf9df1611c084f7bff274f7e8d59d0d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 30/35] fix: refuse path elements that read back as something
 else

---
 src/pathing/pather.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pathing/pather.rs b/src/pathing/pather.rs
index 76fe95b..afb6f1b 100644
--- a/src/pathing/pather.rs
+++ b/src/pathing/pather.rs
@@ -178,7 +178,8 @@ impl Pather {
             let p = e.to_string();
             let p = if let Ok(p) = p { p } else { e.to_i64()?.to_string() };
 
-            if !REB64.is_match(&p) {
+            // an empty element or one with a separator in it would read back as another path
+            if !REB64.is_match(&p) || p.is_empty() || p.contains('-') {
                 return err!(Error::Value("invalid base64".to_string()));
             }
 
-- 
2.43.0


From 972a347c17350835bf7bb8ff8d2c35c491a5c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 31/35] fix: derive and verify a non-transferable prefix under
 the same conditions

---
 src/prefexing/prefixer.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index 6f98188..fbd8993 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -87,6 +87,15 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+/// Whether a field of an event, a list or a text, holds nothing.
+fn is_empty(value: &Value) -> bool {
+    match value {
+        Value::String(string) => string.is_empty(),
+        Value::Array(array) => array.is_empty(),
+        _ => false,
+    }
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -112,17 +121,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label]) {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
@@ -195,14 +204,9 @@ fn verify_nontransferable(ked: &Value, pre: &str, prefixed: bool) -> Result<bool
         return Ok(false);
     }
 
-    let label = Ids::n;
-    if map.contains_key(label) {
-        if ked[label].to_vec().is_ok() && !ked[label].to_vec()?.is_empty() {
-            return Ok(false);
-        }
-
-        // unsure if 'n' can be a single key. if it can't we can simplify all this
-        if ked[label].to_string().is_ok() && !ked[label].to_string()?.is_empty() {
+    // an identifier that can never be rotated has no next keys, no witnesses and no anchors
+    for label in [Ids::n, Ids::b, Ids::a] {
+        if map.contains_key(label) && !is_empty(&ked[label]) {
             return Ok(false);
         }
     }
-- 
2.43.0


From 1829a1e2615de6ac3e5c6939d00dc157460f5eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:04 +0000
Subject: [PATCH 32/35] fix: answer with an error for an event without a type
 instead of panicking

---
 src/prefexing/prefixer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/prefexing/prefixer.rs b/src/prefexing/prefixer.rs
index fbd8993..755a7e1 100644
--- a/src/prefexing/prefixer.rs
+++ b/src/prefexing/prefixer.rs
@@ -58,7 +58,7 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
     let label = Ids::t;
-    let ilk = ked[label].to_string()?;
+    let ilk = ked.get(label)?.to_string()?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
     }
@@ -338,7 +338,7 @@ impl Prefixer {
 
         let prefixed = prefixed.unwrap_or(false);
         let label = Ids::t;
-        let ilk = ked[label].to_string()?;
+        let ilk = ked.get(label)?.to_string()?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
                 "non-incepting ilk {ilk} found for prefix verification"
-- 
2.43.0


From 99aad9fc5f698e005aec94aab41c2309dc33d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:03 +0000
Subject: [PATCH 33/35] fix: refuse a date-time that would read back
 differently in Dater

---
 src/cesr/core/dater.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cesr/core/dater.rs b/src/cesr/core/dater.rs
index b4f1cc6..d0ab5ec 100644
--- a/src/cesr/core/dater.rs
+++ b/src/cesr/core/dater.rs
@@ -54,7 +54,15 @@ impl Dater {
         let dater: Self = if raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() {
             let b64 = if let Some(dts) = dts { iso_8601_to_b64(dts) } else { now_as_b64() };
             let qb64 = format!("{}{}", matter::Codex::DateTime, &b64);
-            Matter::new(code, raw, qb64b, Some(&qb64), qb2)?
+            let dater: Self = Matter::new(code, raw, qb64b, Some(&qb64), qb2)?;
+            if let Some(dts) = dts {
+                // longer than the code holds, or not spelled like a date-time
+                validate_code(&dater.code())?;
+                if dater.dts()? != dts {
+                    return err!(Error::Value("date-time would read back differently".to_string()));
+                }
+            }
+            dater
         } else {
             Matter::new(code, raw, qb64b, qb64, qb2)?
         };
-- 
2.43.0


From ccb58246176d844d6181c54de34b78cd906e9971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:36 +0000
Subject: [PATCH 34/35] fix: refuse unknown codes of variable length material
 instead of panicking

---
 src/cesr/core/matter/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cesr/core/matter/mod.rs b/src/cesr/core/matter/mod.rs
index 896607b..32bc819 100644
--- a/src/cesr/core/matter/mod.rs
+++ b/src/cesr/core/matter/mod.rs
@@ -48,6 +48,9 @@ pub trait Matter: Default {
             return err!(Error::EmptyMaterial("empty code".to_string()));
         }
 
+        // refuse a code we do not know, whatever it begins with
+        tables::sizage(code)?;
+
         let mut size: u32 = 0;
         // this unwrap can stay since we have validated that code is not empty, above
         let first = code.chars().next().unwrap();
-- 
2.43.0


From 84d3a3eeef457230599e0eb2bd28a6bfa166b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:46 +0000
Subject: [PATCH 35/35] fix: a Base64 number too large for its integer is
 refused

count_b64 of seven or more characters wrapped around, so that a count code
silently stood for another count than the one it was made with.
---
 src/cesr/core/util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cesr/core/util.rs b/src/cesr/core/util.rs
index 22393c6..0384a82 100644
--- a/src/cesr/core/util.rs
+++ b/src/cesr/core/util.rs
@@ -155,6 +155,9 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
+        if out > u32::MAX >> 6 {
+            return err!(Error::Conversion(format!("Base64 number too large: b64 = '{b64}'")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u32);
     }
 
@@ -165,6 +168,9 @@ pub fn b64_to_u64(b64: &str) -> Result<u64> {
     let mut out: u64 = 0;
 
     for c in b64.chars() {
+        if out > u64::MAX >> 6 {
+            return err!(Error::Conversion(format!("Base64 number too large: b64 = '{b64}'")));
+        }
         out = (out << 6) + (b64_char_to_index(c)? as u64);
     }
 
-- 
2.43.0

