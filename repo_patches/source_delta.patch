From a4ce7d2835af5326ee25b84ad2277b8f47367142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:30 +0000
Subject: [PATCH 01/26] fix: trim bitRange text, reject malformed and
 overflowing bit ranges without panicking

---
 svd-parser/src/bitrange.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index 0fb8ec4..265cbb6 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -18,19 +18,18 @@ impl Parse for BitRange {
     fn parse(tree: &Node, _config: &Self::Config) -> Result<Self, Self::Error> {
         let (end, start, range_type): (u32, u32, BitRangeType) =
             if let Some(range) = tree.get_child("bitRange") {
-                let text = range.text().ok_or_else(|| {
+                let text = range.text().map(str::trim).ok_or_else(|| {
                     SVDError::InvalidBitRange(InvalidBitRange::Empty).at(tree.id())
                 })?;
-                if !text.starts_with('[') {
-                    return Err(SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id()));
-                    // TODO: Maybe have a MissingOpen/MissingClosing variant
-                }
-                if !text.ends_with(']') {
-                    return Err(SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id()));
-                    // TODO: Maybe have a MissingOpen/MissingClosing variant
-                }
+                // TODO: Maybe have a MissingOpen/MissingClosing variant
+                let text = text
+                    .strip_prefix('[')
+                    .and_then(|text| text.strip_suffix(']'))
+                    .ok_or_else(|| {
+                        SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id())
+                    })?;
 
-                let mut parts = text[1..text.len() - 1].split(':');
+                let mut parts = text.splitn(2, ':');
                 (
                     parts
                         .next()
@@ -87,9 +86,12 @@ impl Parse for BitRange {
         if start > end {
             return Err(SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()));
         }
+        let width = (end - start)
+            .checked_add(1)
+            .ok_or_else(|| SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()))?;
         Ok(Self {
             offset: start,
-            width: end - start + 1,
+            width,
             range_type,
         })
     }
-- 
2.43.0


From f5940dd5fc78446470ec9aa9988bd4a9de9c1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:30 +0000
Subject: [PATCH 02/26] fix: BitRange::from_bit_range and deserialization
 reject reversed, overflowing and malformed ranges

---
 svd-rs/src/bitrange.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 5741899..fde00da 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -62,15 +62,13 @@ impl BitRange {
     }
     /// Construct a [`BitRange`] from a string in the format `[<msb>:<lsb>]`
     pub fn from_bit_range(text: &str) -> Option<Self> {
-        if !text.starts_with('[') || !text.ends_with(']') {
-            return None;
-        }
-        let mut parts = text[1..text.len() - 1].split(':');
+        let text = text.strip_prefix('[')?.strip_suffix(']')?;
+        let mut parts = text.splitn(2, ':');
         let msb = parts.next()?.parse::<u32>().ok()?;
         let lsb = parts.next()?.parse::<u32>().ok()?;
         Some(Self {
             offset: lsb,
-            width: msb - lsb + 1,
+            width: msb.checked_sub(lsb)?.checked_add(1)?,
             range_type: BitRangeType::BitRange,
         })
     }
@@ -139,7 +137,11 @@ mod ser_de {
                     bit_offset,
                     bit_width,
                 } => Ok(BitRange::from_offset_width(bit_offset, bit_width)),
-                SerBitRange::MsbLsb { msb, lsb } => Ok(BitRange::from_msb_lsb(msb, lsb)),
+                SerBitRange::MsbLsb { msb, lsb } => msb
+                    .checked_sub(lsb)
+                    .and_then(|d| d.checked_add(1))
+                    .map(|_| BitRange::from_msb_lsb(msb, lsb))
+                    .ok_or_else(|| serde::de::Error::custom("Invalid msb and lsb")),
             }
         }
     }
-- 
2.43.0


From d0d467b96fe2d865b9d95364e6b3309753d0c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:30 +0000
Subject: [PATCH 03/26] fix: FieldInfoBuilder::bit_offset combines with the
 stored bit width

---
 svd-rs/src/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/field.rs b/svd-rs/src/field.rs
index 7fe336f..5919969 100644
--- a/svd-rs/src/field.rs
+++ b/svd-rs/src/field.rs
@@ -163,7 +163,7 @@ impl FieldInfoBuilder {
     pub fn bit_offset(mut self, value: u32) -> Self {
         if let Some(bit_range) = self.bit_range.as_mut() {
             bit_range.offset = value;
-        } else if let Some(width) = self.bit_offset {
+        } else if let Some(width) = self.bit_width {
             self.bit_range = Some(BitRange::from_offset_width(value, width));
             self.bit_width = None;
         } else {
-- 
2.43.0


From 120c5f35c2f3143dcf861b9df6641a863f46c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:50 +0000
Subject: [PATCH 04/26] fix: writeConstraint without content is an error, not a
 panic

---
 svd-parser/src/writeconstraint.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/writeconstraint.rs b/svd-parser/src/writeconstraint.rs
index 38f46ac..3d63f6a 100644
--- a/svd-parser/src/writeconstraint.rs
+++ b/svd-parser/src/writeconstraint.rs
@@ -7,7 +7,9 @@ impl Parse for WriteConstraint {
     type Config = Config;
 
     fn parse(tree: &Node, _config: &Self::Config) -> Result<Self, Self::Error> {
-        let child = tree.first_element_child().unwrap();
+        let child = tree
+            .first_element_child()
+            .ok_or_else(|| SVDError::UnknownWriteConstraint.at(tree.id()))?;
         if child.next_sibling_element().is_some() {
             return Err(SVDError::MoreThanOneWriteConstraint.at(tree.id()));
         }
-- 
2.43.0


From daf1950f2209661c9431c2bacc954c84483076cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:50 +0000
Subject: [PATCH 05/26] fix: a tag with only white space is empty, as a tag
 without content

---
 svd-parser/src/elementext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svd-parser/src/elementext.rs b/svd-parser/src/elementext.rs
index 63f2ad1..2de3c69 100644
--- a/svd-parser/src/elementext.rs
+++ b/svd-parser/src/elementext.rs
@@ -71,11 +71,11 @@ impl ElementExt for Node<'_, '_> {
     fn get_text(&self) -> Result<&str, SVDErrorAt> {
         match self.text() {
             // TODO: return error on `strict`
-            Some(s) => Ok(s.trim()),
+            Some(s) if !s.trim().is_empty() => Ok(s.trim()),
             // FIXME: Doesn't look good because SVDError doesn't format by itself. We already
             // capture the element and this information can be used for getting the name
             // This would fix ParseError
-            None => Err(SVDError::EmptyTag(self.tag_name().name().to_string()).at(self.id())),
+            _ => Err(SVDError::EmptyTag(self.tag_name().name().to_string()).at(self.id())),
         }
     }
 
-- 
2.43.0


From 8951c3acc5f61436b1061e8789825eaad76d1f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:50 +0000
Subject: [PATCH 06/26] fix: accept an upper case don't care digit in 0b
 literals

---
 svd-parser/src/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/svd-parser/src/types.rs b/svd-parser/src/types.rs
index 878897e..6345302 100644
--- a/svd-parser/src/types.rs
+++ b/svd-parser/src/types.rs
@@ -27,7 +27,10 @@ impl Parse for u32 {
             // Handle strings in the binary form of:
             // 0b01101x1
             // along with don't care character x (replaced with 0)
-            u32::from_str_radix(&str::replace(&text["0b".len()..], "x", "0"), 2)
+            u32::from_str_radix(
+                &str::replace(&text.to_lowercase()["0b".len()..], "x", "0"),
+                2,
+            )
         } else {
             text.parse::<u32>()
         })
@@ -57,7 +60,10 @@ impl Parse for u64 {
             // Handle strings in the binary form of:
             // 0b01101x1
             // along with don't care character x (replaced with 0)
-            u64::from_str_radix(&str::replace(&text["0b".len()..], "x", "0"), 2)
+            u64::from_str_radix(
+                &str::replace(&text.to_lowercase()["0b".len()..], "x", "0"),
+                2,
+            )
         } else {
             text.parse::<u64>()
         })
-- 
2.43.0


From 6de361f8fc8932f25c4236810f6ba1545359428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:36 +0000
Subject: [PATCH 07/26] fix: reject a reversed write constraint range on fields
 of 64 bits and more

---
 svd-rs/src/field.rs           | 1 +
 svd-rs/src/writeconstraint.rs | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/svd-rs/src/field.rs b/svd-rs/src/field.rs
index 5919969..f9b2c1d 100644
--- a/svd-rs/src/field.rs
+++ b/svd-rs/src/field.rs
@@ -342,6 +342,7 @@ impl FieldInfo {
                 Some(WriteConstraint::Range(constraint)) if self.bit_range.width < 64 => {
                     constraint.check_range(0..2_u64.pow(self.bit_range.width))?;
                 }
+                Some(WriteConstraint::Range(constraint)) => constraint.check_order()?,
                 _ => (),
             }
         }
diff --git a/svd-rs/src/writeconstraint.rs b/svd-rs/src/writeconstraint.rs
index aaf1377..0505412 100644
--- a/svd-rs/src/writeconstraint.rs
+++ b/svd-rs/src/writeconstraint.rs
@@ -40,10 +40,14 @@ pub enum Error {
 }
 
 impl WriteConstraintRange {
-    pub(crate) fn check_range(&self, range: core::ops::Range<u64>) -> Result<(), SvdError> {
+    pub(crate) fn check_order(&self) -> Result<(), SvdError> {
         if self.min > self.max {
             return Err(Error::ReversedRange(self.min, self.max).into());
         }
+        Ok(())
+    }
+    pub(crate) fn check_range(&self, range: core::ops::Range<u64>) -> Result<(), SvdError> {
+        self.check_order()?;
         for v in [&self.min, &self.max] {
             if !range.contains(v) {
                 return Err(Error::OutOfRange(*v, range).into());
-- 
2.43.0


From f834a613e737be8ea6ae9b8a54cc78ecf726acb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:36 +0000
Subject: [PATCH 08/26] fix: bitmask of fields and field arrays does not
 overflow its shifts

---
 svd-rs/src/field.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/svd-rs/src/field.rs b/svd-rs/src/field.rs
index f9b2c1d..bff89e6 100644
--- a/svd-rs/src/field.rs
+++ b/svd-rs/src/field.rs
@@ -379,7 +379,12 @@ impl FieldInfo {
     /// Get bits which is affected by field
     pub fn bitmask(&self) -> u64 {
         let BitRange { offset, width, .. } = self.bit_range;
-        (!0u64 >> (64 - width)) << offset
+        let mask = match width {
+            0 => 0,
+            1..=63 => !0u64 >> (64 - width),
+            _ => !0u64,
+        };
+        mask.checked_shl(offset).unwrap_or(0)
     }
 
     /// Get enumeratedValues cluster by usage
@@ -421,8 +426,9 @@ impl Field {
             Field::Array(f, d) => {
                 let mask = f.bitmask();
                 let mut bits = 0;
-                for i in 0..d.dim {
-                    bits |= mask << (i * d.dim_increment);
+                for i in 0..d.dim.min(64) {
+                    let shift = i.saturating_mul(d.dim_increment);
+                    bits |= mask.checked_shl(shift).unwrap_or(0);
                 }
                 bits
             }
-- 
2.43.0


From de7f616a369296f9fbd62a467273111ae9a33faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 09/26] fix: reversed sorting by address or bit offset works
 for the whole range of values

---
 svd-encoder/src/device.rs     | 2 +-
 svd-encoder/src/peripheral.rs | 2 +-
 svd-encoder/src/register.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/svd-encoder/src/device.rs b/svd-encoder/src/device.rs
index 378e653..7d73705 100644
--- a/svd-encoder/src/device.rs
+++ b/svd-encoder/src/device.rs
@@ -99,7 +99,7 @@ fn sort_peripherals(refs: &mut [&Peripheral], sorting: Option<Sorting>) {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|p| p.base_address),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|p| -(p.base_address as i32));
+                refs.sort_by_key(|p| std::cmp::Reverse(p.base_address));
             }
             Sorting::Name => refs.sort_by_key(|p| &p.name),
         }
diff --git a/svd-encoder/src/peripheral.rs b/svd-encoder/src/peripheral.rs
index f464961..156331e 100644
--- a/svd-encoder/src/peripheral.rs
+++ b/svd-encoder/src/peripheral.rs
@@ -144,7 +144,7 @@ fn sort_register_cluster(refs: &mut [&RegisterCluster], sorting: Option<Sorting>
         match sorting {
             Sorting::Offset => refs.sort_by_key(|r| r.address_offset()),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|r| -(r.address_offset() as i32));
+                refs.sort_by_key(|r| std::cmp::Reverse(r.address_offset()));
             }
             Sorting::Name => refs.sort_by_key(|r| r.name()),
         }
diff --git a/svd-encoder/src/register.rs b/svd-encoder/src/register.rs
index b4b4aa8..2418c97 100644
--- a/svd-encoder/src/register.rs
+++ b/svd-encoder/src/register.rs
@@ -116,7 +116,7 @@ fn sort_fields(refs: &mut [&Field], sorting: Option<Sorting>) {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|f| f.bit_offset()),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|f| -(f.bit_offset() as i32));
+                refs.sort_by_key(|f| std::cmp::Reverse(f.bit_offset()));
             }
             Sorting::Name => refs.sort_by_key(|f| &f.name),
         }
-- 
2.43.0


From 72f13ecb97305a34beb23894b36193de10af0a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:29 +0000
Subject: [PATCH 10/26] fix: EnumeratedValues::modify_from sets derivedFrom

---
 svd-rs/src/enumeratedvalues.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/enumeratedvalues.rs b/svd-rs/src/enumeratedvalues.rs
index aff085f..7446546 100644
--- a/svd-rs/src/enumeratedvalues.rs
+++ b/svd-rs/src/enumeratedvalues.rs
@@ -114,6 +114,7 @@ impl EnumeratedValues {
         lvl: ValidateLevel,
     ) -> Result<(), SvdError> {
         if builder.derived_from.is_some() {
+            self.derived_from = builder.derived_from;
             self.name = None;
             self.usage = None;
             self.values = Vec::new();
-- 
2.43.0


From 73b5fbd3b54f176682644a1682dbce80e7f6bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:29 +0000
Subject: [PATCH 11/26] fix: deserialize arrays without dimIndex as arrays

---
 svd-rs/src/dimelement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index b351f05..5dfedc6 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -22,6 +22,7 @@ pub struct DimElement {
     #[cfg_attr(
         feature = "serde",
         serde(
+            default,
             deserialize_with = "ser_de::deserialize_dim_index",
             serialize_with = "ser_de::serialize_dim_index",
             skip_serializing_if = "Option::is_none"
-- 
2.43.0


From c244dd5eef9dd28ae2b4e545f3aefe640322a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:29 +0000
Subject: [PATCH 12/26] fix: indexes_as_range does not overflow on extreme
 indexes

---
 svd-rs/src/dimelement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index 5dfedc6..7fabccb 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -179,7 +179,7 @@ impl DimElement {
         }
         let min = *integers.iter().min()?;
         let max = *integers.iter().max()?;
-        if max - min + 1 != self.dim {
+        if (max - min).checked_add(1) != Some(self.dim) {
             return None;
         }
         for (&i, r) in integers.iter().zip(min..=max) {
-- 
2.43.0


From 87b0074b71636576bf5e8dfa2cb089c33bb8834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:29 +0000
Subject: [PATCH 13/26] fix: white space between dimIndex items is not part of
 the indexes

---
 svd-rs/src/dimelement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index 7fabccb..277ba7b 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -161,7 +161,7 @@ impl DimElement {
                 }
             }
         } else {
-            Some(text.split(',').map(|s| s.to_string()).collect())
+            Some(text.split(',').map(|s| s.trim().to_string()).collect())
         })
         .filter(|v| !v.is_empty())
     }
-- 
2.43.0


From 25b58c97944a9c2f912936082400a4f42582706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:41 +0000
Subject: [PATCH 14/26] fix: derived clusters inherit the description and
 derived registers the data type

---
 svd-rs/src/derive_from.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svd-rs/src/derive_from.rs b/svd-rs/src/derive_from.rs
index 9578852..55ee833 100644
--- a/svd-rs/src/derive_from.rs
+++ b/svd-rs/src/derive_from.rs
@@ -13,6 +13,7 @@ pub trait DeriveFrom {
 impl DeriveFrom for ClusterInfo {
     fn derive_from(&self, other: &Self) -> Self {
         let mut derived = self.clone();
+        derived.description = derived.description.or_else(|| other.description.clone());
         derived.default_register_properties = derived
             .default_register_properties
             .derive_from(&other.default_register_properties);
@@ -72,6 +73,7 @@ impl DeriveFrom for RegisterInfo {
         derived.description = derived.description.or_else(|| other.description.clone());
         derived.properties = derived.properties.derive_from(&other.properties);
         derived.fields = derived.fields.or_else(|| other.fields.clone());
+        derived.datatype = derived.datatype.or(other.datatype);
         derived.write_constraint = derived.write_constraint.or(other.write_constraint);
         derived.read_action = derived.read_action.or(other.read_action);
         derived.modified_write_values = derived
-- 
2.43.0


From 78e8d35ab64f66811cab9c1d4a3a4bae1054b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:41 +0000
Subject: [PATCH 15/26] fix: content inherited through a chain of references is
 resolved where it was written

---
 svd-parser/src/expand.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 73f418f..7236c32 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -412,7 +412,7 @@ pub fn derive_cluster(
     }
     *c = c.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        cpath = derive_cluster(c, dpath, &rdpath, index)?;
+        cpath = derive_cluster(c, dpath, &rdpath, index)?.or(cpath);
     }
     Ok(cpath)
 }
@@ -447,7 +447,7 @@ pub fn derive_register(
     }
     *r = r.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        rpath = derive_register(r, dpath, &rdpath, index)?;
+        rpath = derive_register(r, dpath, &rdpath, index)?.or(rpath);
     }
     Ok(rpath)
 }
@@ -482,7 +482,7 @@ pub fn derive_field(
     }
     *f = f.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        fpath = derive_field(f, dpath, &rdpath, index)?;
+        fpath = derive_field(f, dpath, &rdpath, index)?.or(fpath);
     }
     Ok(fpath)
 }
@@ -647,7 +647,7 @@ pub fn derive_peripheral(
     }
     *p = p.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        path = derive_peripheral(p, dpath, index)?;
+        path = derive_peripheral(p, dpath, index)?.or(path);
     }
     Ok(path)
 }
-- 
2.43.0


From b67b71a99550899a2a3c3cf3d4f66617e5383cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:41 +0000
Subject: [PATCH 16/26] fix: a field reference without a full path is an error,
 not a panic

---
 svd-parser/src/expand.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 7236c32..c7bf3f4 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -458,6 +458,9 @@ pub fn derive_field(
     rpath: &RegisterPath,
     index: &Index,
 ) -> Result<Option<FieldPath>> {
+    if dpath.split('.').count() == 2 {
+        return Err(anyhow!("field {} not found: full path is expected", dpath));
+    }
     let (dregister, dname) = FieldPath::parse_str(dpath);
     let rdpath;
     let field_path;
-- 
2.43.0


From c74c00168d983641d9993fff39f4384f487f773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:41 +0000
Subject: [PATCH 17/26] fix: BlockPath::name of a peripheral path is the name
 of the peripheral

---
 svd-parser/src/expand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index c7bf3f4..8f1fe1c 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -47,7 +47,7 @@ impl BlockPath {
         (block, name)
     }
     pub fn name(&self) -> &String {
-        self.path.last().unwrap()
+        self.path.last().unwrap_or(&self.peripheral)
     }
     pub fn parent(&self) -> Option<Self> {
         let mut p = self.clone();
-- 
2.43.0


From 93b511ca8da9f095d55708cf8bfad92e5bdd5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:00 +0000
Subject: [PATCH 18/26] fix: cycles of references are errors, and only cycles
 are reported as self-derived

---
 svd-parser/src/expand.rs | 103 +++++++++++++++++++++++++++++++--------
 1 file changed, 83 insertions(+), 20 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 8f1fe1c..ecce607 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -387,6 +387,18 @@ pub fn derive_cluster(
     dpath: &str,
     path: &BlockPath,
     index: &Index,
+) -> Result<Option<BlockPath>> {
+    let own = index.clusters.get(&path.new_cluster(&c.name));
+    derive_cluster_from(c, dpath, path, index, own.copied().into_iter().collect())
+}
+
+/// `seen` are the elements on the way here: meeting one again means a cycle of references
+fn derive_cluster_from<'a>(
+    c: &mut Cluster,
+    dpath: &str,
+    path: &BlockPath,
+    index: &Index<'a>,
+    mut seen: Vec<&'a Cluster>,
 ) -> Result<Option<BlockPath>> {
     let (dparent, dname) = BlockPath::parse_str(dpath);
     let rdpath;
@@ -398,13 +410,14 @@ pub fn derive_cluster(
         cluster_path = path.new_cluster(dname);
         rdpath = path.clone();
     }
-    if &rdpath == path && dname == &c.name {
-        return Err(anyhow!("Cluster {cluster_path} is self-derived"));
-    }
     let d = index
         .clusters
         .get(&cluster_path)
         .ok_or_else(|| anyhow!("cluster {} not found", dpath))?;
+    if seen.iter().any(|s| std::ptr::eq(*s, *d)) {
+        return Err(anyhow!("Cluster {cluster_path} is self-derived"));
+    }
+    seen.push(*d);
 
     let mut cpath = None;
     if c.children.is_empty() {
@@ -412,7 +425,7 @@ pub fn derive_cluster(
     }
     *c = c.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        cpath = derive_cluster(c, dpath, &rdpath, index)?.or(cpath);
+        cpath = derive_cluster_from(c, dpath, &rdpath, index, seen)?.or(cpath);
     }
     Ok(cpath)
 }
@@ -422,6 +435,18 @@ pub fn derive_register(
     dpath: &str,
     path: &BlockPath,
     index: &Index,
+) -> Result<Option<RegisterPath>> {
+    let own = index.registers.get(&path.new_register(&r.name));
+    derive_register_from(r, dpath, path, index, own.copied().into_iter().collect())
+}
+
+/// `seen` are the elements on the way here: meeting one again means a cycle of references
+fn derive_register_from<'a>(
+    r: &mut Register,
+    dpath: &str,
+    path: &BlockPath,
+    index: &Index<'a>,
+    mut seen: Vec<&'a Register>,
 ) -> Result<Option<RegisterPath>> {
     let (dblock, dname) = RegisterPath::parse_str(dpath);
     let rdpath;
@@ -433,13 +458,14 @@ pub fn derive_register(
         reg_path = path.new_register(dname);
         rdpath = path.clone();
     }
-    if &rdpath == path && dname == &r.name {
-        return Err(anyhow!("Register {reg_path} is self-derived"));
-    }
     let d = index
         .registers
         .get(&reg_path)
         .ok_or_else(|| anyhow!("register {} not found", dpath))?;
+    if seen.iter().any(|s| std::ptr::eq(*s, *d)) {
+        return Err(anyhow!("Register {reg_path} is self-derived"));
+    }
+    seen.push(*d);
 
     let mut rpath = None;
     if r.fields.is_none() {
@@ -447,7 +473,7 @@ pub fn derive_register(
     }
     *r = r.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        rpath = derive_register(r, dpath, &rdpath, index)?.or(rpath);
+        rpath = derive_register_from(r, dpath, &rdpath, index, seen)?.or(rpath);
     }
     Ok(rpath)
 }
@@ -457,6 +483,18 @@ pub fn derive_field(
     dpath: &str,
     rpath: &RegisterPath,
     index: &Index,
+) -> Result<Option<FieldPath>> {
+    let own = index.fields.get(&rpath.new_field(&f.name));
+    derive_field_from(f, dpath, rpath, index, own.copied().into_iter().collect())
+}
+
+/// `seen` are the elements on the way here: meeting one again means a cycle of references
+fn derive_field_from<'a>(
+    f: &mut Field,
+    dpath: &str,
+    rpath: &RegisterPath,
+    index: &Index<'a>,
+    mut seen: Vec<&'a Field>,
 ) -> Result<Option<FieldPath>> {
     if dpath.split('.').count() == 2 {
         return Err(anyhow!("field {} not found: full path is expected", dpath));
@@ -471,13 +509,14 @@ pub fn derive_field(
         field_path = rpath.new_field(dname);
         rdpath = rpath.clone();
     }
-    if &rdpath == rpath && dname == &f.name {
-        return Err(anyhow!("Field {field_path} is self-derived"));
-    }
     let d = index
         .fields
         .get(&field_path)
         .ok_or_else(|| anyhow!("field {} not found", dpath))?;
+    if seen.iter().any(|s| std::ptr::eq(*s, *d)) {
+        return Err(anyhow!("Field {field_path} is self-derived"));
+    }
+    seen.push(*d);
 
     let mut fpath = None;
     if f.enumerated_values.is_empty() {
@@ -485,7 +524,7 @@ pub fn derive_field(
     }
     *f = f.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        fpath = derive_field(f, dpath, &rdpath, index)?.or(fpath);
+        fpath = derive_field_from(f, dpath, &rdpath, index, seen)?.or(fpath);
     }
     Ok(fpath)
 }
@@ -574,6 +613,18 @@ pub fn derive_enumerated_values(
     if Some(dpath) == ev.name.as_deref() {
         return Err(anyhow!("EnumeratedValues {fpath}.{dpath} is self-derived"));
     }
+    let own = ev.name.as_ref().map(|name| fpath.new_enum(name));
+    let own = own.and_then(|own| index.evs.get(&own));
+    derive_enumerated_values_from(ev, dpath, fpath, index, own.copied().into_iter().collect())
+}
+
+fn derive_enumerated_values_from<'a>(
+    ev: &mut EnumeratedValues,
+    dpath: &str,
+    fpath: &FieldPath,
+    index: &Index<'a>,
+    mut seen: Vec<&'a EnumeratedValues>,
+) -> Result<EnumPath> {
     let mut v: Vec<&str> = dpath.split('.').collect();
     let dname = v.pop().unwrap();
     let d = if v.is_empty() {
@@ -608,17 +659,18 @@ pub fn derive_enumerated_values(
             };
             FieldPath::new(rdpath, fdname)
         };
-        if &fdpath == fpath && Some(dname) == ev.name.as_deref() {
-            return Err(anyhow!("EnumeratedValues {fpath}.{dname} is self-derived"));
-        }
         let epath = EnumPath::new(fdpath, dname);
         index.evs.get(&epath).map(|d| (d, epath))
     };
 
     if let Some((d, epath)) = d {
+        if seen.iter().any(|s| std::ptr::eq(*s, *d)) {
+            return Err(anyhow!("EnumeratedValues {epath} is self-derived"));
+        }
+        seen.push(*d);
         *ev = ev.derive_from(d);
         if let Some(dpath) = d.derived_from.as_ref() {
-            derive_enumerated_values(ev, dpath, &epath.field, index)
+            derive_enumerated_values_from(ev, dpath, &epath.field, index, seen)
         } else {
             Ok(epath)
         }
@@ -636,21 +688,32 @@ pub fn derive_peripheral(
     dpath: &str,
     index: &Index,
 ) -> Result<Option<BlockPath>> {
-    if dpath == &p.name {
-        return Err(anyhow!("Peripheral {dpath} is self-derived"));
-    }
+    let own = index.peripherals.get(&BlockPath::new(&p.name));
+    derive_peripheral_from(p, dpath, index, own.copied().into_iter().collect())
+}
+
+fn derive_peripheral_from<'a>(
+    p: &mut Peripheral,
+    dpath: &str,
+    index: &Index<'a>,
+    mut seen: Vec<&'a Peripheral>,
+) -> Result<Option<BlockPath>> {
     let mut path = None;
     let derpath = BlockPath::new(dpath);
     let d = index
         .peripherals
         .get(&derpath)
         .ok_or_else(|| anyhow!("peripheral {} not found", dpath))?;
+    if seen.iter().any(|s| std::ptr::eq(*s, *d)) {
+        return Err(anyhow!("Peripheral {dpath} is self-derived"));
+    }
+    seen.push(*d);
     if p.registers.is_none() {
         path = Some(derpath);
     }
     *p = p.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        path = derive_peripheral(p, dpath, index)?.or(path);
+        path = derive_peripheral_from(p, dpath, index, seen)?.or(path);
     }
     Ok(path)
 }
-- 
2.43.0


From 52ea6befb8b50b9c1ac055ad7cee212429b10ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:01 +0000
Subject: [PATCH 19/26] fix: a cluster derived from a cluster around it is an
 error, not endless recursion

---
 svd-parser/src/expand.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index ecce607..039e386 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -341,24 +341,27 @@ impl<'a> Index<'a> {
     }
 }
 
-fn expand_register_cluster(
+/// `stack` are the clusters whose content is being expanded
+fn expand_register_cluster<'a>(
     regs: &mut Vec<RegisterCluster>,
     rc: RegisterCluster,
     path: &BlockPath,
-    index: &Index,
+    index: &Index<'a>,
+    stack: &mut Vec<&'a Cluster>,
 ) -> Result<()> {
     match rc {
-        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index)?,
+        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index, stack)?,
         RegisterCluster::Register(r) => expand_register_array(regs, r, path, index)?,
     }
     Ok(())
 }
 
-fn expand_cluster_array(
+fn expand_cluster_array<'a>(
     regs: &mut Vec<RegisterCluster>,
     mut c: Cluster,
     path: &BlockPath,
-    index: &Index,
+    index: &Index<'a>,
+    stack: &mut Vec<&'a Cluster>,
 ) -> Result<()> {
     let mut cpath = None;
     let dpath = c.derived_from.take();
@@ -367,8 +370,18 @@ fn expand_cluster_array(
     }
     let cpath = cpath.unwrap_or_else(|| path.new_cluster(&c.name));
 
+    let source = index.clusters.get(&cpath).copied();
+    if let Some(source) = source {
+        if stack.iter().any(|s| std::ptr::eq(*s, source)) {
+            return Err(anyhow!("Cluster {cpath} is derived from itself inside of it"));
+        }
+        stack.push(source);
+    }
     for rc in take(&mut c.children) {
-        expand_register_cluster(&mut c.children, rc, &cpath, index)?;
+        expand_register_cluster(&mut c.children, rc, &cpath, index, stack)?;
+    }
+    if source.is_some() {
+        stack.pop();
     }
 
     match c {
@@ -735,7 +748,7 @@ pub fn expand(indevice: &Device) -> Result<Device> {
         let path = path.unwrap_or_else(|| BlockPath::new(&p.name));
         if let Some(regs) = p.registers.as_mut() {
             for rc in take(regs) {
-                expand_register_cluster(regs, rc, &path, &index)?;
+                expand_register_cluster(regs, rc, &path, &index, &mut Vec::new())?;
             }
         }
         match p {
-- 
2.43.0


From e2835789e8faae552c695b62138905ed5688dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:16 +0000
Subject: [PATCH 20/26] fix: addresses and bit positions beyond their range are
 errors when expanding

---
 svd-parser/src/expand.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 039e386..99b2264 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -6,7 +6,8 @@ use std::fmt;
 use std::mem::take;
 use svd_rs::{
     array::names, cluster, field, peripheral, register, Cluster, ClusterInfo, DeriveFrom, Device,
-    EnumeratedValues, Field, Peripheral, Register, RegisterCluster, RegisterProperties,
+    DimElement, EnumeratedValues, Field, Peripheral, Register, RegisterCluster,
+    RegisterProperties,
 };
 
 /// Path to `peripheral` or `cluster` element
@@ -385,10 +386,11 @@ fn expand_cluster_array<'a>(
     }
 
     match c {
-        Cluster::Single(c) => expand_cluster(regs, c),
+        Cluster::Single(c) => expand_cluster(regs, c)?,
         Cluster::Array(info, dim) => {
+            check_array(&info.name, info.address_offset as u64, &dim, u32::MAX as u64)?;
             for c in cluster::expand(&info, &dim) {
-                expand_cluster(regs, c);
+                expand_cluster(regs, c)?;
             }
         }
     }
@@ -542,17 +544,30 @@ fn derive_field_from<'a>(
     Ok(fpath)
 }
 
-fn expand_cluster(regs: &mut Vec<RegisterCluster>, c: ClusterInfo) {
+/// Addresses and bit positions of array instances must be representable
+fn check_array(name: &str, start: u64, dim: &DimElement, max: u64) -> Result<()> {
+    let last = dim.dim.saturating_sub(1) as u64 * dim.dim_increment as u64;
+    match start.checked_add(last) {
+        Some(last) if last <= max => Ok(()),
+        _ => Err(anyhow!("array {name} exceeds the address range")),
+    }
+}
+
+fn expand_cluster(regs: &mut Vec<RegisterCluster>, c: ClusterInfo) -> Result<()> {
     for rc in c.children {
         match rc {
             RegisterCluster::Cluster(_) => unreachable!(),
             RegisterCluster::Register(mut r) => {
                 r.name = format!("{}_{}", c.name, r.name);
-                r.address_offset += c.address_offset;
+                r.address_offset = r
+                    .address_offset
+                    .checked_add(c.address_offset)
+                    .ok_or_else(|| anyhow!("register {} exceeds the address range", r.name))?;
                 regs.push(r.into());
             }
         }
     }
+    Ok(())
 }
 
 fn expand_register_array(
@@ -579,6 +594,7 @@ fn expand_register_array(
             regs.push(r.into());
         }
         Register::Array(info, dim) => {
+            check_array(&info.name, info.address_offset as u64, &dim, u32::MAX as u64)?;
             regs.extend(register::expand(&info, &dim).map(|r| r.single().into()));
         }
     }
@@ -610,6 +626,7 @@ fn expand_field(
             fields.push(f);
         }
         Field::Array(info, dim) => {
+            check_array(&info.name, info.bit_offset() as u64, &dim, u32::MAX as u64)?;
             fields.extend(field::expand(&info, &dim).map(Field::Single));
         }
     }
@@ -756,6 +773,7 @@ pub fn expand(indevice: &Device) -> Result<Device> {
                 device.peripherals.push(p);
             }
             Peripheral::Array(info, dim) => {
+                check_array(&info.name, info.base_address, &dim, u64::MAX)?;
                 device
                     .peripherals
                     .extend(peripheral::expand(&info, &dim).map(Peripheral::Single));
-- 
2.43.0


From d522a8ef2f69f6bd6ecea5034ecfbb757320643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:17 +0000
Subject: [PATCH 21/26] fix: text in isDefault which is not a boolean is an
 error, as in the other boolean elements

---
 svd-parser/src/enumeratedvalue.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/enumeratedvalue.rs b/svd-parser/src/enumeratedvalue.rs
index e83856e..effdb0e 100644
--- a/svd-parser/src/enumeratedvalue.rs
+++ b/svd-parser/src/enumeratedvalue.rs
@@ -1,5 +1,6 @@
 use super::*;
 use crate::svd::EnumeratedValue;
+use crate::types::BoolParse;
 
 impl Parse for EnumeratedValue {
     type Object = Self;
@@ -15,7 +16,7 @@ impl Parse for EnumeratedValue {
             .name(tree.get_child_text("name")?)
             .description(tree.get_child_text_opt("description")?)
             .value(optional::<u64>("value", tree, &())?)
-            .is_default(tree.get_child_bool("isDefault").ok())
+            .is_default(optional::<BoolParse>("isDefault", tree, &())?)
             .build(config.validate_level)
             .map_err(|e| SVDError::from(e).at(tree.id()))
     }
-- 
2.43.0


From 49894ceb6fbdeb79505cd3cc7ccde3da51076e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:27 +0000
Subject: [PATCH 22/26] fix: BitRange::msb does not overflow for a field which
 ends at the last representable bit

---
 svd-rs/src/bitrange.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index fde00da..5a9ab58 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -37,7 +37,7 @@ impl BitRange {
     }
     /// Get the position of the most significant bit
     pub fn msb(&self) -> u32 {
-        self.offset + self.width - 1
+        self.offset.wrapping_add(self.width).wrapping_sub(1)
     }
     /// Get the bit range in the format `[<msb>:<lsb>]`
     pub fn bit_range(&self) -> String {
-- 
2.43.0


From dee586a50003403f14117f447eb1d1264275dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:41 +0000
Subject: [PATCH 23/26] fix: carriage returns in texts survive encoding

---
 svd-encoder/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svd-encoder/src/lib.rs b/svd-encoder/src/lib.rs
index 7f53142..964cff8 100644
--- a/svd-encoder/src/lib.rs
+++ b/svd-encoder/src/lib.rs
@@ -57,7 +57,8 @@ pub fn encode_with_config(d: &Device, config: &Config) -> Result<String, EncodeE
     cfg.perform_indent = true;
     cfg.pad_self_closing = false;
     root.write_with_config(&mut wr, cfg).unwrap();
-    Ok(String::from_utf8(wr).unwrap())
+    // An XML reader turns a literal carriage return into a line feed
+    Ok(String::from_utf8(wr).unwrap().replace('\r', "&#xD;"))
 }
 
 /// Defines extensions for implementation over xmltree::Element
-- 
2.43.0


From 873fcef0e1a62ddc9d189408228741bb8d0b5081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:04 +0000
Subject: [PATCH 24/26] fix: case options convert each name of a derivedFrom
 path in the way of its element

---
 svd-encoder/src/cluster.rs          |  4 ++--
 svd-encoder/src/config.rs           | 20 ++++++++++++++++++++
 svd-encoder/src/enumeratedvalues.rs | 15 +++++++++++++--
 svd-encoder/src/field.rs            |  4 ++--
 svd-encoder/src/register.rs         |  4 ++--
 5 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/svd-encoder/src/cluster.rs b/svd-encoder/src/cluster.rs
index 34d4806..2d8ecbd 100644
--- a/svd-encoder/src/cluster.rs
+++ b/svd-encoder/src/cluster.rs
@@ -3,7 +3,7 @@ use super::{
 };
 
 use crate::{
-    config::{change_case, format_number},
+    config::{change_case, change_path_case, format_number},
     svd::{Cluster, ClusterInfo},
 };
 
@@ -67,7 +67,7 @@ impl Encode for ClusterInfo {
         if let Some(v) = &self.derived_from {
             e.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.cluster_name),
+                change_path_case(v, &[config.cluster_name], config),
             );
         }
 
diff --git a/svd-encoder/src/config.rs b/svd-encoder/src/config.rs
index a78dbbb..d3b12e7 100644
--- a/svd-encoder/src/config.rs
+++ b/svd-encoder/src/config.rs
@@ -63,6 +63,26 @@ pub fn change_case(s: &str, case: Option<IdentifierFormat>) -> String {
     }
 }
 
+/// Changes the case of a `derivedFrom` path, each name in the way of the element it belongs to.
+///
+/// `last` are the formats of the last names of the path, the names before them
+/// are those of a peripheral and of the clusters in it.
+pub fn change_path_case(path: &str, last: &[Option<IdentifierFormat>], config: &Config) -> String {
+    let n = path.split('.').count();
+    path.split('.')
+        .enumerate()
+        .map(|(i, name)| {
+            let format = match (last.len() + i).checked_sub(n) {
+                Some(i) => last[i],
+                None if i == 0 => config.peripheral_name,
+                None => config.cluster_name,
+            };
+            change_case(name, format)
+        })
+        .collect::<Vec<_>>()
+        .join(".")
+}
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum NumberFormat {
     /// `UpperHex` format
diff --git a/svd-encoder/src/enumeratedvalues.rs b/svd-encoder/src/enumeratedvalues.rs
index 2a23795..e147e0b 100644
--- a/svd-encoder/src/enumeratedvalues.rs
+++ b/svd-encoder/src/enumeratedvalues.rs
@@ -1,6 +1,9 @@
 use super::{new_node, Config, Element, Encode, EncodeError};
 
-use crate::{config::change_case, svd::EnumeratedValues};
+use crate::{
+    config::{change_case, change_path_case},
+    svd::EnumeratedValues,
+};
 
 impl Encode for EnumeratedValues {
     type Error = EncodeError;
@@ -22,7 +25,15 @@ impl Encode for EnumeratedValues {
         if let Some(v) = &self.derived_from {
             base.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.enumerated_values_name),
+                change_path_case(
+                    v,
+                    &[
+                        config.register_name,
+                        config.field_name,
+                        config.enumerated_values_name,
+                    ],
+                    config,
+                ),
             );
         }
 
diff --git a/svd-encoder/src/field.rs b/svd-encoder/src/field.rs
index 1d080af..cd6ddf3 100644
--- a/svd-encoder/src/field.rs
+++ b/svd-encoder/src/field.rs
@@ -1,7 +1,7 @@
 use super::{new_node, Config, Element, ElementMerge, Encode, EncodeError, XMLNode};
 use crate::bitrange::encode_bitrange;
 
-use crate::config::change_case;
+use crate::config::{change_case, change_path_case};
 use crate::svd::{Field, FieldInfo};
 
 impl Encode for Field {
@@ -63,7 +63,7 @@ impl Encode for FieldInfo {
         if let Some(v) = &self.derived_from {
             elem.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.field_name),
+                change_path_case(v, &[config.register_name, config.field_name], config),
             );
         }
 
diff --git a/svd-encoder/src/register.rs b/svd-encoder/src/register.rs
index 2418c97..8bd0e49 100644
--- a/svd-encoder/src/register.rs
+++ b/svd-encoder/src/register.rs
@@ -5,7 +5,7 @@ use super::{
 };
 
 use crate::{
-    config::{change_case, format_number, DerivableSorting, Sorting},
+    config::{change_case, change_path_case, format_number, DerivableSorting, Sorting},
     svd::{Register, RegisterInfo},
 };
 
@@ -103,7 +103,7 @@ impl Encode for RegisterInfo {
         if let Some(v) = &self.derived_from {
             elem.attributes.insert(
                 String::from("derivedFrom"),
-                change_case(v, config.register_name),
+                change_path_case(v, &[config.register_name], config),
             );
         }
 
-- 
2.43.0


From 09d23ead4a21b9f672444227618afdf7c1ca6be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:14 +0000
Subject: [PATCH 25/26] fix: malformed dimension data in JSON or YAML is an
 error, not an element without dimension

---
 svd-rs/src/array.rs      | 28 ++++++++++++++++++++++++----
 svd-rs/src/dimelement.rs |  2 +-
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/svd-rs/src/array.rs b/svd-rs/src/array.rs
index d302b4b..0e96e4c 100644
--- a/svd-rs/src/array.rs
+++ b/svd-rs/src/array.rs
@@ -97,7 +97,8 @@ pub fn descriptions<'a, T: Description>(
 #[cfg(feature = "serde")]
 mod ser_de {
     use super::*;
-    use serde::{Deserialize, Deserializer, Serialize, Serializer};
+    use crate::dimelement::{ser_de::deserialize_dim_index, DimArrayIndex};
+    use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
 
     #[derive(serde::Serialize)]
     struct SerArray<'a, T> {
@@ -107,10 +108,22 @@ mod ser_de {
         info: &'a T,
     }
 
+    // `Option<DimElement>` would take a malformed `DimElement` for an absent one
+    #[derive(serde::Deserialize)]
+    #[serde(rename_all = "camelCase")]
+    struct DeserDim {
+        dim: Option<u32>,
+        dim_increment: Option<u32>,
+        #[serde(default, deserialize_with = "deserialize_dim_index")]
+        dim_index: Option<Vec<String>>,
+        dim_name: Option<String>,
+        dim_array_index: Option<DimArrayIndex>,
+    }
+
     #[derive(serde::Deserialize)]
     struct DeserArray<T> {
-        #[serde(flatten, default)]
-        dim: Option<DimElement>,
+        #[serde(flatten)]
+        dim: DeserDim,
         #[serde(flatten)]
         info: T,
     }
@@ -139,7 +152,14 @@ mod ser_de {
             D: Deserializer<'de>,
         {
             let DeserArray { dim, info } = DeserArray::<T>::deserialize(deserializer)?;
-            if let Some(dim) = dim {
+            if let Some(dim_increment) = dim.dim_increment {
+                let dim = DimElement {
+                    dim: dim.dim.ok_or_else(|| D::Error::missing_field("dim"))?,
+                    dim_increment,
+                    dim_index: dim.dim_index,
+                    dim_name: dim.dim_name,
+                    dim_array_index: dim.dim_array_index,
+                };
                 Ok(Self::Array(info, dim))
             } else {
                 Ok(Self::Single(info))
diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index 277ba7b..c41dbbf 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -255,7 +255,7 @@ impl<'a> Iterator for Indexes<'a> {
 }
 
 #[cfg(feature = "serde")]
-mod ser_de {
+pub(crate) mod ser_de {
     use super::*;
     use serde::{de, Deserialize, Deserializer, Serializer};
     #[derive(serde::Serialize, serde::Deserialize)]
-- 
2.43.0


From abdd10912bc529e5e499415cd79716c50aa7b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:26 +0000
Subject: [PATCH 26/26] fix: a JSON or YAML array whose dimIndex does not have
 dim elements is an error

---
 svd-rs/src/array.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svd-rs/src/array.rs b/svd-rs/src/array.rs
index 0e96e4c..3a3025f 100644
--- a/svd-rs/src/array.rs
+++ b/svd-rs/src/array.rs
@@ -160,6 +160,11 @@ mod ser_de {
                     dim_name: dim.dim_name,
                     dim_array_index: dim.dim_array_index,
                 };
+                if let Some(indexes) = &dim.dim_index {
+                    if indexes.len() != dim.dim as usize {
+                        return Err(D::Error::custom("Incorrect count of dimIndex elements"));
+                    }
+                }
                 Ok(Self::Array(info, dim))
             } else {
                 Ok(Self::Single(info))
-- 
2.43.0

