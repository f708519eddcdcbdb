From 780ac5b52b20a3838dedede8fd4f0101c7c87cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 01/11] fix: Image::from_parts() records where the tag or
 digest starts, not where it ends

---
 src/service/image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service/image.rs b/src/service/image.rs
index 25588b4..27790b4 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -142,8 +142,9 @@ impl Image {
         inner.push_str(name);
 
         let tag_or_digest_start = tag_or_digest.map(|tag_or_digest| {
+            let start = tag_or_digest.as_start(inner.len());
             tag_or_digest.push_to_string(&mut inner);
-            tag_or_digest.as_start(inner.len())
+            start
         });
 
         Self {
-- 
2.43.0


From 9b1b05620ac5fb57de4282495753bcb10a7a7a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 02/11] fix: duration::parse() returns an overflow error for
 values larger than u64 instead of panicking

---
 src/duration.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 72c2a8c..d907da7 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -98,7 +98,6 @@ fn push_value(string: &mut String, value: u64, unit: &str) {
 /// Returns an error if the input is an empty string, does not contain ASCII digits (0-9), contains
 /// an invalid unit (valid units: "h", "m", "s", "ms", "us"), or the value is too large for a
 /// [`Duration`].
-#[allow(clippy::missing_panics_doc)]
 pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
     if s.is_empty() {
         return Err(ParseDurationError::Empty);
@@ -114,7 +113,10 @@ pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
         if value.is_empty() {
             return Err(ParseDurationError::NoDigits(s.to_owned()));
         }
-        let value: u64 = value.parse().expect("value is ASCII digits only");
+        // The value is ASCII digits only, so parsing can only fail if it is too large.
+        let value: u64 = value
+            .parse()
+            .map_err(|_| ParseDurationError::Overflow)?;
 
         let (unit, rest) = rest
             .find(|char: char| char.is_ascii_digit())
-- 
2.43.0


From 833a6e3a5b73e7056966bde281de2ce971a1e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 03/11] fix: validate the start and end of a port Range when
 parsing it from a string

---
 src/service/ports.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index 4afe19f..7fc9955 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -780,10 +780,10 @@ impl FromStr for Range {
             .split_once('-')
             .map_or((s, None), |(start, end)| (start, Some(end)));
 
-        Ok(Self {
-            start: parse_range_int(start)?,
-            end: end.map(parse_range_int).transpose()?,
-        })
+        let start = parse_range_int(start)?;
+        let end = end.map(parse_range_int).transpose()?;
+
+        Self::new(start, end).map_err(Into::into)
     }
 }
 
-- 
2.43.0


From 643fcf2106a39a7102592490ee1b2530ce8c0df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 04/11] fix: the size of the port Range 0-65535 no longer
 overflows

---
 src/service/ports.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index 7fc9955..93c34c9 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -474,12 +474,10 @@ impl ShortRanges {
 /// Returns an error if the range sizes are not equal.
 fn range_size_eq(host: Option<Range>, container: Range) -> Result<(), ShortRangesError> {
     if let Some(host) = host {
-        let host_size = host.size();
-        let container_size = container.size();
-        if host_size != container_size {
+        if host.span() != container.span() {
             return Err(ShortRangesError {
-                host_size,
-                container_size,
+                host_size: host.size(),
+                container_size: container.size(),
             });
         }
     }
@@ -661,6 +659,8 @@ impl Range {
 
     /// Size of the port range.
     ///
+    /// Saturates at [`u16::MAX`] for the range of all ports (0-65535).
+    ///
     /// # Examples
     ///
     /// ```
@@ -678,7 +678,12 @@ impl Range {
     /// ```
     #[must_use]
     pub fn size(&self) -> u16 {
-        self.end.map_or(1, |end| end - self.start + 1)
+        self.span().saturating_add(1)
+    }
+
+    /// Difference between the end and the start of the port range.
+    fn span(&self) -> u16 {
+        self.end.map_or(0, |end| end - self.start)
     }
 }
 
-- 
2.43.0


From 8301de5ef42a85ae01b74a051d2361f33f49da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 05/11] fix: keep the order of keys when deserializing a
 Resource

---
 src/common.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 7d4cd6e..a6695da 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -5,7 +5,6 @@ mod short_or_long;
 
 use std::{
     borrow::Cow,
-    collections::HashMap,
     fmt::{self, Display, Formatter, LowerExp, UpperExp},
     hash::Hash,
     num::{ParseFloatError, ParseIntError, TryFromIntError},
@@ -965,10 +964,10 @@ impl<T: Serialize> Serialize for Resource<T> {
 
 impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        let mut map = HashMap::<String, YamlValue>::deserialize(deserializer)?;
+        let mut map = IndexMap::<String, YamlValue>::deserialize(deserializer)?;
 
         let external = map
-            .remove(Self::EXTERNAL)
+            .shift_remove(Self::EXTERNAL)
             .map(bool::deserialize)
             .transpose()
             .map_err(de::Error::custom)?
@@ -976,7 +975,7 @@ impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
 
         if external {
             let name = map
-                .remove(Self::NAME)
+                .shift_remove(Self::NAME)
                 .map(String::deserialize)
                 .transpose()
                 .map_err(de::Error::custom)?;
-- 
2.43.0


From a865118d8b92cf5e3a5d47c59aa5a1cecece73e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 06/11] fix: deserialize Cpus from any integer

---
 src/service/deploy/resources.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/service/deploy/resources.rs b/src/service/deploy/resources.rs
index 8af32bd..30ba768 100644
--- a/src/service/deploy/resources.rs
+++ b/src/service/deploy/resources.rs
@@ -322,6 +322,18 @@ impl<'de> Visitor<'de> for CpusVisitor {
         visit_i32: i32,
     }
 
+    // `Cpus` are stored as a `f64`, the same value as when the integer is written with a decimal
+    // point.
+    #[allow(clippy::cast_precision_loss, clippy::as_conversions)]
+    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Self::Value, E> {
+        self.visit_f64(v as f64)
+    }
+
+    #[allow(clippy::cast_precision_loss, clippy::as_conversions)]
+    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Self::Value, E> {
+        self.visit_f64(v as f64)
+    }
+
     fn visit_f64<E: de::Error>(self, v: f64) -> Result<Self::Value, E> {
         v.try_into().map_err(E::custom)
     }
-- 
2.43.0


From cca943f0ea009077b77a84edf5891f62104421d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 07/11] fix: accept null for optional durations

---
 src/serde/duration_option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde/duration_option.rs b/src/serde/duration_option.rs
index 338b7bf..9fd733c 100644
--- a/src/serde/duration_option.rs
+++ b/src/serde/duration_option.rs
@@ -30,7 +30,7 @@ pub(crate) fn deserialize<'de, D>(deserializer: D) -> Result<Option<Duration>, D
 where
     D: Deserializer<'de>,
 {
-    deserializer.deserialize_any(Visitor)
+    deserializer.deserialize_option(Visitor)
 }
 
 /// [`de::Visitor`] for deserializing an [`Option<Duration>`].
-- 
2.43.0


From edd7d657846165c4bea97a1bcf102935ae38b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 08/11] fix: Volume::into_short() no longer drops read_only of
 anonymous volumes

---
 src/service/volumes/mount.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service/volumes/mount.rs b/src/service/volumes/mount.rs
index d289dd1..b68a9df 100644
--- a/src/service/volumes/mount.rs
+++ b/src/service/volumes/mount.rs
@@ -283,7 +283,11 @@ impl Volume {
                         consistency: None,
                         extensions,
                     },
-            } if volume.as_ref().map_or(true, VolumeOptions::is_empty) && extensions.is_empty() => {
+            } if volume.as_ref().map_or(true, VolumeOptions::is_empty)
+                && extensions.is_empty()
+                // Anonymous volumes cannot have options in the short syntax.
+                && (source.is_some() || !read_only) =>
+            {
                 Ok(ShortVolume {
                     container_path,
                     options: source.map(|source| ShortOptions {
-- 
2.43.0


From c60a63c1cd42e2c706ddb79f6a0c2efdb9559730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 09/11] fix: a volume mounted twice in one service is not used
 across multiple services

---
 src/lib.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba62b45..e7a49f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -108,7 +108,7 @@ pub mod service;
 mod volume;
 
 use std::{
-    collections::{hash_map::Entry, HashMap},
+    collections::HashMap,
     error::Error,
     fmt::{self, Display, Formatter},
     path::PathBuf,
@@ -299,27 +299,20 @@ impl Compose {
     ///
     /// Only the first undefined named volume is listed in the error's [`Display`] output.
     pub fn validate_volumes(&self) -> Result<(), ValidationError> {
-        let volumes = self
-            .services
-            .values()
-            .flat_map(|service| service::volumes::named_volumes_iter(&service.volumes));
+        let volumes = self.services.iter().flat_map(|(name, service)| {
+            service::volumes::named_volumes_iter(&service.volumes).map(move |volume| (name, volume))
+        });
 
+        // Name of the first service each volume is used in.
         let mut seen_volumes = HashMap::new();
-        for volume in volumes {
-            match seen_volumes.entry(volume) {
-                Entry::Occupied(mut entry) => {
-                    if !entry.get() && !self.volumes.contains_key(volume) {
-                        return Err(ValidationError {
-                            service: None,
-                            resource: volume.clone(),
-                            kind: ResourceKind::Volume,
-                        });
-                    }
-                    *entry.get_mut() = true;
-                }
-                Entry::Vacant(entry) => {
-                    entry.insert(false);
-                }
+        for (name, volume) in volumes {
+            let first = *seen_volumes.entry(volume).or_insert(name);
+            if first != name && !self.volumes.contains_key(volume) {
+                return Err(ValidationError {
+                    service: None,
+                    resource: volume.clone(),
+                    kind: ResourceKind::Volume,
+                });
             }
         }
 
-- 
2.43.0


From 4d8b09314995a2a020916a5326be69dcdc16f877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 10/11] fix: zero-pad the first byte of a displayed MacAddress

---
 src/service/network_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/service/network_config.rs b/src/service/network_config.rs
index 4e93f24..3c47d0f 100644
--- a/src/service/network_config.rs
+++ b/src/service/network_config.rs
@@ -3,7 +3,7 @@
 
 use std::{
     borrow::Cow,
-    fmt::{self, Display, Formatter, LowerHex},
+    fmt::{self, Display, Formatter},
     net::{IpAddr, Ipv4Addr, Ipv6Addr},
     num::ParseIntError,
     str::{FromStr, Split},
@@ -559,7 +559,7 @@ impl Display for MacAddress {
         let mut iter = self.0.iter();
 
         if let Some(byte) = iter.next() {
-            LowerHex::fmt(byte, f)?;
+            write!(f, "{byte:02x}")?;
         }
 
         for byte in iter {
-- 
2.43.0


From 172201d15ccdeb2665b0cd0feb6cdad545ab2d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 11/11] fix: parse a Cache type without options

---
 src/service/build/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/service/build/cache.rs b/src/service/build/cache.rs
index b42afb9..51da1ee 100644
--- a/src/service/build/cache.rs
+++ b/src/service/build/cache.rs
@@ -44,7 +44,7 @@ impl Cache {
     where
         T: AsRef<str> + Into<String>,
     {
-        if cache.as_ref().contains(',') {
+        if cache.as_ref().starts_with("type=") || cache.as_ref().contains(',') {
             Self::parse_str(cache.as_ref())
         } else {
             Image::parse(cache)
-- 
2.43.0

