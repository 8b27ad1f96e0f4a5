From dca19a17438ddcef19e9863be40cd748b09bf294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 01/15] fix: return an overflow error for duration values
 larger than u64::MAX

duration::parse() panicked on values with too many digits.
---
 src/duration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 72c2a8c..8a92cc6 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -98,7 +98,6 @@ fn push_value(string: &mut String, value: u64, unit: &str) {
 /// Returns an error if the input is an empty string, does not contain ASCII digits (0-9), contains
 /// an invalid unit (valid units: "h", "m", "s", "ms", "us"), or the value is too large for a
 /// [`Duration`].
-#[allow(clippy::missing_panics_doc)]
 pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
     if s.is_empty() {
         return Err(ParseDurationError::Empty);
@@ -114,7 +113,8 @@ pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
         if value.is_empty() {
             return Err(ParseDurationError::NoDigits(s.to_owned()));
         }
-        let value: u64 = value.parse().expect("value is ASCII digits only");
+        // `value` only contains ASCII digits, parsing only fails if it doesn't fit in a `u64`.
+        let value: u64 = value.parse().or(Err(ParseDurationError::Overflow))?;
 
         let (unit, rest) = rest
             .find(|char: char| char.is_ascii_digit())
-- 
2.43.0


From ee3fca19430f0394f5a115f7726eada7309319c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 02/15] fix: reject port ranges with a start greater than their
 end when parsing

Range::from_str() did not enforce the documented invariant, and a reversed host
or container range caused a subtraction overflow panic in ShortRanges::new().
---
 src/service/ports.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index 4afe19f..7fc9955 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -780,10 +780,10 @@ impl FromStr for Range {
             .split_once('-')
             .map_or((s, None), |(start, end)| (start, Some(end)));
 
-        Ok(Self {
-            start: parse_range_int(start)?,
-            end: end.map(parse_range_int).transpose()?,
-        })
+        let start = parse_range_int(start)?;
+        let end = end.map(parse_range_int).transpose()?;
+
+        Self::new(start, end).map_err(Into::into)
     }
 }
 
-- 
2.43.0


From e68a2d9a6f741d3066a80a76226dfb911e5e3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 03/15] fix: overflow for the port range containing all ports

Range::size() overflowed for 0-65535, panicking when a short port used it.
---
 src/service/ports.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index 7fc9955..6505451 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -474,12 +474,10 @@ impl ShortRanges {
 /// Returns an error if the range sizes are not equal.
 fn range_size_eq(host: Option<Range>, container: Range) -> Result<(), ShortRangesError> {
     if let Some(host) = host {
-        let host_size = host.size();
-        let container_size = container.size();
-        if host_size != container_size {
+        if host.span() != container.span() {
             return Err(ShortRangesError {
-                host_size,
-                container_size,
+                host_size: host.size(),
+                container_size: container.size(),
             });
         }
     }
@@ -661,6 +659,9 @@ impl Range {
 
     /// Size of the port range.
     ///
+    /// The range of all ports (0-65535) has one more port than fits in a [`u16`], its size is given
+    /// as [`u16::MAX`].
+    ///
     /// # Examples
     ///
     /// ```
@@ -678,7 +679,12 @@ impl Range {
     /// ```
     #[must_use]
     pub fn size(&self) -> u16 {
-        self.end.map_or(1, |end| end - self.start + 1)
+        self.span().saturating_add(1)
+    }
+
+    /// Difference between the start and end of the port range.
+    fn span(&self) -> u16 {
+        self.end.map_or(0, |end| end - self.start)
     }
 }
 
-- 
2.43.0


From 90d752432c9ffe618458a17ff42fb385707292a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 04/15] fix: start of the tag or digest in Image::from_parts()

The start was computed after the tag or digest was pushed, so tag(), digest(),
and name() panicked or returned the wrong part.
---
 src/service/image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service/image.rs b/src/service/image.rs
index 25588b4..27790b4 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -142,8 +142,9 @@ impl Image {
         inner.push_str(name);
 
         let tag_or_digest_start = tag_or_digest.map(|tag_or_digest| {
+            let start = tag_or_digest.as_start(inner.len());
             tag_or_digest.push_to_string(&mut inner);
-            tag_or_digest.as_start(inner.len())
+            start
         });
 
         Self {
-- 
2.43.0


From 6676012a38957e531b2859c32ee83c1da5f158fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 05/15] fix: removing the registry of an image whose name is
 only a registry

Image::set_registry(None) removed one byte too many, panicking or corrupting the
image ("quay.io:tag" became "tag" with the start of the tag out of place).
---
 src/service/image.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/service/image.rs b/src/service/image.rs
index 27790b4..7a454ce 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -189,6 +189,8 @@ impl Image {
 
     /// Set the registry portion of the image name, use [`None`] to remove it.
     ///
+    /// If the registry is the entire image name, it is not removed as names cannot be empty.
+    ///
     /// # Examples
     ///
     /// ```
@@ -225,6 +227,8 @@ impl Image {
                 self.registry_end = Some(registry.len());
                 self.update_tag_or_digest_start(0, registry.len() + 1);
             }
+            // The registry is the entire name, removing it would leave an empty name
+            (None, Some(end)) if end == self.name_end() => {}
             // Remove registry
             (None, Some(mut end)) => {
                 // Add one to end for '/' separator.
-- 
2.43.0


From 5798414e570cfa756e04e2f37220bc90bd70d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 06/15] fix: pad the first octet in the string form of
 MacAddress

Display wrote an octet below 0x10 with one digit in the first position only.
---
 src/service/network_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/service/network_config.rs b/src/service/network_config.rs
index 4e93f24..3c47d0f 100644
--- a/src/service/network_config.rs
+++ b/src/service/network_config.rs
@@ -3,7 +3,7 @@
 
 use std::{
     borrow::Cow,
-    fmt::{self, Display, Formatter, LowerHex},
+    fmt::{self, Display, Formatter},
     net::{IpAddr, Ipv4Addr, Ipv6Addr},
     num::ParseIntError,
     str::{FromStr, Split},
@@ -559,7 +559,7 @@ impl Display for MacAddress {
         let mut iter = self.0.iter();
 
         if let Some(byte) = iter.next() {
-            LowerHex::fmt(byte, f)?;
+            write!(f, "{byte:02x}")?;
         }
 
         for byte in iter {
-- 
2.43.0


From 36552e7b0a1e437032ede6a2d0623a6a9c09aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 07/15] fix: mount::Volume::into_short() lost read_only for
 anonymous volumes

The short syntax cannot represent a read-only anonymous volume.
---
 src/service/volumes/mount.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service/volumes/mount.rs b/src/service/volumes/mount.rs
index d289dd1..9cf70c3 100644
--- a/src/service/volumes/mount.rs
+++ b/src/service/volumes/mount.rs
@@ -283,7 +283,11 @@ impl Volume {
                         consistency: None,
                         extensions,
                     },
-            } if volume.as_ref().map_or(true, VolumeOptions::is_empty) && extensions.is_empty() => {
+            } if volume.as_ref().map_or(true, VolumeOptions::is_empty)
+                && extensions.is_empty()
+                // Anonymous volumes cannot be read-only in the short syntax.
+                && !(source.is_none() && read_only) =>
+            {
                 Ok(ShortVolume {
                     container_path,
                     options: source.map(|source| ShortOptions {
-- 
2.43.0


From 095a2f59ac7d52901943d4150bc031cc1ce0bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 08/15] fix: string form of VolumesFrom for containers named ro
 or rw

A read-write source of the container "ro" was written as "container:ro" which is
parsed as read-only volumes from the service "container".
---
 src/service.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 363a613..5829213 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -1441,6 +1441,19 @@ impl VolumesFrom {
     /// Suffix which marks the source volumes as read-only.
     const READ_ONLY_SUFFIX: &'static str = ":ro";
 
+    /// Suffix which marks the source volumes as read-write, the default.
+    const READ_WRITE_SUFFIX: &'static str = ":rw";
+
+    /// Returns `true` if [`READ_WRITE_SUFFIX`](Self::READ_WRITE_SUFFIX) cannot be left out of the
+    /// string form because the container's name would be parsed as the access mode.
+    fn requires_read_write_suffix(&self) -> bool {
+        !self.read_only
+            && matches!(
+                &self.source,
+                VolumesFromSource::Container(container) if matches!(container.as_str(), "ro" | "rw")
+            )
+    }
+
     /// Parse a [`VolumesFrom`] from a string in the format `[container:]{identifier}[:ro|rw]`.
     ///
     /// # Errors
@@ -1464,7 +1477,7 @@ impl VolumesFrom {
             .unwrap_or_else(|| {
                 volumes_from
                     .as_ref()
-                    .strip_suffix(":rw")
+                    .strip_suffix(Self::READ_WRITE_SUFFIX)
                     .map(str::parse)
                     .unwrap_or_else(|| VolumesFromSource::parse(volumes_from))
                     .map(Into::into)
@@ -1482,6 +1495,8 @@ impl Display for VolumesFrom {
 
         if *read_only {
             f.write_str(Self::READ_ONLY_SUFFIX)?;
+        } else if self.requires_read_write_suffix() {
+            f.write_str(Self::READ_WRITE_SUFFIX)?;
         }
 
         Ok(())
@@ -1499,7 +1514,7 @@ impl From<VolumesFromSource> for VolumesFrom {
 
 impl From<VolumesFrom> for String {
     fn from(value: VolumesFrom) -> Self {
-        if value.read_only {
+        if value.read_only || value.requires_read_write_suffix() {
             value.to_string()
         } else {
             value.source.into()
-- 
2.43.0


From d896614bcaded718cd000ab95783ea8e6a3c59e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 09/15] fix: keep the order of fields when deserializing a
 Resource

Collecting the fields in a HashMap gave extensions in a random order, different
in each run.
---
 src/common.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 7d4cd6e..a6695da 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -5,7 +5,6 @@ mod short_or_long;
 
 use std::{
     borrow::Cow,
-    collections::HashMap,
     fmt::{self, Display, Formatter, LowerExp, UpperExp},
     hash::Hash,
     num::{ParseFloatError, ParseIntError, TryFromIntError},
@@ -965,10 +964,10 @@ impl<T: Serialize> Serialize for Resource<T> {
 
 impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        let mut map = HashMap::<String, YamlValue>::deserialize(deserializer)?;
+        let mut map = IndexMap::<String, YamlValue>::deserialize(deserializer)?;
 
         let external = map
-            .remove(Self::EXTERNAL)
+            .shift_remove(Self::EXTERNAL)
             .map(bool::deserialize)
             .transpose()
             .map_err(de::Error::custom)?
@@ -976,7 +975,7 @@ impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
 
         if external {
             let name = map
-                .remove(Self::NAME)
+                .shift_remove(Self::NAME)
                 .map(String::deserialize)
                 .transpose()
                 .map_err(de::Error::custom)?;
-- 
2.43.0


From e055f240f497d6b1d4680dac84e040d67da910ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 10/15] fix: parse cache options which only have a type

The documented format "type=TYPE" without options was parsed as an image and
rejected, and so was the string form of such a Cache.
---
 src/service/build/cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service/build/cache.rs b/src/service/build/cache.rs
index b42afb9..ee0e8d2 100644
--- a/src/service/build/cache.rs
+++ b/src/service/build/cache.rs
@@ -44,7 +44,8 @@ impl Cache {
     where
         T: AsRef<str> + Into<String>,
     {
-        if cache.as_ref().contains(',') {
+        // Images cannot contain an equals sign (=), except in their digest.
+        if cache.as_ref().contains(',') || cache.as_ref().starts_with("type=") {
             Self::parse_str(cache.as_ref())
         } else {
             Image::parse(cache)
-- 
2.43.0


From aa10d01c3fdeacb0df362735c2fd8bd8a01bf30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 11/15] fix: deserialize Cpus from integers

Self-describing formats give integers as u64 or i64, so "cpus: 2" was rejected.
---
 src/service/deploy/resources.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/service/deploy/resources.rs b/src/service/deploy/resources.rs
index 8af32bd..6e0ab33 100644
--- a/src/service/deploy/resources.rs
+++ b/src/service/deploy/resources.rs
@@ -315,6 +315,14 @@ impl<'de> Visitor<'de> for CpusVisitor {
         Ok(v.into())
     }
 
+    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Self::Value, E> {
+        self.visit_u32(v.try_into().map_err(E::custom)?)
+    }
+
+    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Self::Value, E> {
+        self.visit_i32(v.try_into().map_err(E::custom)?)
+    }
+
     forward_visitor! {
         visit_f64,
         visit_i8: i8,
-- 
2.43.0


From 34da3fd88314a5a6ea7023a36b7e0e49bdf4e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 12/15] fix: validate_volumes() for a service using the same
 volume multiple times

An undefined named volume mounted twice by a single service was reported as used
across multiple services.
---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba62b45..d04188c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -115,7 +115,7 @@ use std::{
 };
 
 use ::serde::{Deserialize, Serialize};
-use indexmap::IndexMap;
+use indexmap::{IndexMap, IndexSet};
 
 pub use self::{
     common::{
@@ -299,10 +299,10 @@ impl Compose {
     ///
     /// Only the first undefined named volume is listed in the error's [`Display`] output.
     pub fn validate_volumes(&self) -> Result<(), ValidationError> {
-        let volumes = self
-            .services
-            .values()
-            .flat_map(|service| service::volumes::named_volumes_iter(&service.volumes));
+        // A volume used multiple times by one service is not used across multiple services.
+        let volumes = self.services.values().flat_map(|service| {
+            service::volumes::named_volumes_iter(&service.volumes).collect::<IndexSet<_>>()
+        });
 
         let mut seen_volumes = HashMap::new();
         for volume in volumes {
-- 
2.43.0


From 2077eddc5a6f54f6d385bdaa4941ed31d6723542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 13/15] fix: keep the text of additional build contexts given
 as a list

The items of the list syntax were converted with ListOrMap::into_map(), which parses values as
numbers or booleans, so the context in `name=1.10` became the path `1.1`.
---
 src/service/build.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/service/build.rs b/src/service/build.rs
index d42e1bb..5ab9310 100644
--- a/src/service/build.rs
+++ b/src/service/build.rs
@@ -257,15 +257,29 @@ fn additional_contexts<'de, D>(deserializer: D) -> Result<IndexMap<MapKey, Conte
 where
     D: Deserializer<'de>,
 {
-    Ok(ListOrMap::deserialize(deserializer)?
-        .into_map()
-        .map_err(de::Error::custom)?
-        .into_iter()
-        .map(|(key, value)| {
-            let value = value
-                .map(String::from)
-                .map_or_else(Context::default, Context::from);
-            (key, value)
-        })
-        .collect())
+    match ListOrMap::deserialize(deserializer)? {
+        // Contexts in a list are kept as written, `ListOrMap::into_map()` would parse their text as
+        // a `Value`, e.g. turn "1.10" into "1.1".
+        ListOrMap::List(list) => list
+            .into_iter()
+            .map(|item| {
+                let (key, context) = item.split_once('=').unwrap_or((item.as_str(), ""));
+                let context = if context.is_empty() {
+                    Context::default()
+                } else {
+                    Context::from(context)
+                };
+                Ok((key.parse().map_err(de::Error::custom)?, context))
+            })
+            .collect(),
+        ListOrMap::Map(map) => Ok(map
+            .into_iter()
+            .map(|(key, value)| {
+                let value = value
+                    .map(String::from)
+                    .map_or_else(Context::default, Context::from);
+                (key, value)
+            })
+            .collect()),
+    }
 }
-- 
2.43.0


From b650edc6108938946bd4b21413490ed4d68e61f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 14/15] fix: merge the `<<` keys of mappings which are merged
 themselves

---
 src/options.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/options.rs b/src/options.rs
index 4844aea..661c122 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -101,8 +101,29 @@ impl Options {
     /// Returns an error if deserialization fails.
     pub fn from_yaml_value(&self, mut value: YamlValue) -> serde_yaml::Result<Compose> {
         if self.apply_merge {
-            value.apply_merge()?;
+            apply_merge(&mut value)?;
         }
         serde_yaml::from_value(value)
     }
 }
+
+/// Merge `<<` keys into their surrounding mappings, innermost first.
+///
+/// [`YamlValue::apply_merge()`] alone does not merge the `<<` keys of mappings which are themselves
+/// merged into another mapping.
+fn apply_merge(value: &mut YamlValue) -> serde_yaml::Result<()> {
+    match value {
+        YamlValue::Mapping(mapping) => {
+            mapping.values_mut().try_for_each(apply_merge)?;
+            if mapping.contains_key("<<") {
+                value.apply_merge()?;
+            }
+            Ok(())
+        }
+        YamlValue::Sequence(sequence) => sequence.iter_mut().try_for_each(apply_merge),
+        YamlValue::Tagged(tagged) => apply_merge(&mut tagged.value),
+        YamlValue::Null | YamlValue::Bool(_) | YamlValue::Number(_) | YamlValue::String(_) => {
+            Ok(())
+        }
+    }
+}
-- 
2.43.0


From 2106e0e719826905bd9793fcdef69aed8aed3157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 15/15] fix: accept a healthcheck with `test: NONE` and
 `disable: false` in either order

---
 src/service/healthcheck.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/service/healthcheck.rs b/src/service/healthcheck.rs
index 630ef11..45c7ca6 100644
--- a/src/service/healthcheck.rs
+++ b/src/service/healthcheck.rs
@@ -69,6 +69,7 @@ impl<'de> de::Visitor<'de> for Visitor {
 
     fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Self::Value, A::Error> {
         let mut disable = None;
+        let mut test_none = false;
         let mut test = None;
         let mut interval = None;
         let mut timeout = None;
@@ -86,7 +87,7 @@ impl<'de> de::Visitor<'de> for Visitor {
                 Field::Test => {
                     check_duplicate(&test, "test")?;
                     map.next_value_seed(DisableOrTest {
-                        disable: &mut disable,
+                        test_none: &mut test_none,
                         test: &mut test,
                     })?;
                 }
@@ -118,7 +119,13 @@ impl<'de> de::Visitor<'de> for Visitor {
             }
         }
 
-        if disable.unwrap_or_default() {
+        if test_none && disable == Some(true) {
+            return Err(de::Error::custom(
+                "cannot set `disable` to `true` and `test` to `NONE`",
+            ));
+        }
+
+        if disable.unwrap_or_default() || test_none {
             if test.is_none()
                 && interval.is_none()
                 && timeout.is_none()
@@ -189,8 +196,8 @@ enum Field {
 ///
 /// If `test` is set to `NONE`, then [`Healthcheck::Disable`] is deserialized.
 struct DisableOrTest<'a> {
-    /// `disable` field.
-    disable: &'a mut Option<bool>,
+    /// Whether the `test` field is `NONE`.
+    test_none: &'a mut bool,
 
     /// `test` field.
     test: &'a mut Option<Test>,
@@ -248,13 +255,12 @@ impl<'a, 'de> de::Visitor<'de> for DisableOrTest<'a> {
                 }
             }
             TestKind::None => {
-                if self.disable.unwrap_or_default() {
+                if *self.test_none {
                     Err(de::Error::custom(
-                        "cannot set `disable` to `true` and `test` to `NONE` \
-                            or set `test` to `NONE` multiple times",
+                        "cannot set `test` to `NONE` multiple times",
                     ))
                 } else {
-                    *self.disable = Some(true);
+                    *self.test_none = true;
 
                     if seq.next_element::<String>()?.is_none() {
                         Ok(())
-- 
2.43.0

