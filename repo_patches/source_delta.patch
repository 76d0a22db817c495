From f59ddf843540b3ffa81225a9bb92de47065b9b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:13 +0000
Subject: [PATCH 01/24] fix: load archives without trusting the counts they
 announce

Counts read from an archive were used to allocate memory before any of the
data was read, so a corrupted or truncated archive could abort the process
(capacity overflow, unchecked null allocation) instead of returning an
error. An empty skeleton archive, which ends after its joint count, failed
to load because a character count was expected.
---
 src/animation.rs | 99 ++++++++++++++++++++++++++++--------------------
 src/archive.rs   |  6 ++-
 src/skeleton.rs  | 22 +++++------
 src/track.rs     |  2 +-
 4 files changed, 73 insertions(+), 56 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index c7e08c4..85e830a 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -361,50 +361,67 @@ impl Animation {
     /// Reads an `Animation` from an `Archive`.
     pub fn from_archive(archive: &mut Archive<impl Read>) -> Result<Animation, OzzError> {
         let meta = Animation::read_meta(archive)?;
-        let mut animation = Animation::new(meta);
-
-        archive.read_slice(animation.timepoints_mut())?;
-        let is_ratio_u8 = animation.timepoints().len() <= (u8::MAX as usize);
-
-        if is_ratio_u8 {
-            for i in 0..animation.t_ratios().len() {
-                animation.t_ratios_mut()[i] = archive.read::<u8>()? as u16;
-            }
-        } else {
-            archive.read_slice(animation.t_ratios_mut())?;
-        }
-        archive.read_slice(animation.t_previouses_mut())?;
-        archive.read_slice(animation.t_iframe_entries_mut())?;
-        archive.read_slice(animation.t_iframe_desc_mut())?;
-        animation.t_iframe_interval = archive.read()?;
-        archive.read_slice(animation.translations_mut())?;
-
-        if is_ratio_u8 {
-            for i in 0..animation.r_ratios().len() {
-                animation.r_ratios_mut()[i] = archive.read::<u8>()? as u16;
-            }
-        } else {
-            archive.read_slice(animation.r_ratios_mut())?;
-        }
-        archive.read_slice(animation.r_previouses_mut())?;
-        archive.read_slice(animation.r_iframe_entries_mut())?;
-        archive.read_slice(animation.r_iframe_desc_mut())?;
-        animation.r_iframe_interval = archive.read()?;
-        archive.read_slice(animation.rotations_mut())?;
-
+        let timepoints: Vec<f32> = archive.read_vec(meta.timepoints_count as usize)?;
+        let is_ratio_u8 = timepoints.len() <= (u8::MAX as usize);
+
+        let t_ratios = Self::read_ratios(archive, meta.translations_count, is_ratio_u8)?;
+        let t_previouses = archive.read_vec(meta.translations_count as usize)?;
+        let t_iframe_entries = archive.read_vec(meta.t_iframe_entries_count as usize)?;
+        let t_iframe_desc = archive.read_vec(meta.t_iframe_desc_count as usize)?;
+        let t_iframe_interval = archive.read()?;
+        let translations = archive.read_vec(meta.translations_count as usize)?;
+
+        let r_ratios = Self::read_ratios(archive, meta.rotations_count, is_ratio_u8)?;
+        let r_previouses = archive.read_vec(meta.rotations_count as usize)?;
+        let r_iframe_entries = archive.read_vec(meta.r_iframe_entries_count as usize)?;
+        let r_iframe_desc = archive.read_vec(meta.r_iframe_desc_count as usize)?;
+        let r_iframe_interval = archive.read()?;
+        let rotations = archive.read_vec(meta.rotations_count as usize)?;
+
+        let s_ratios = Self::read_ratios(archive, meta.scales_count, is_ratio_u8)?;
+        let s_previouses = archive.read_vec(meta.scales_count as usize)?;
+        let s_iframe_entries = archive.read_vec(meta.s_iframe_entries_count as usize)?;
+        let s_iframe_desc = archive.read_vec(meta.s_iframe_desc_count as usize)?;
+        let s_iframe_interval = archive.read()?;
+        let scales = archive.read_vec(meta.scales_count as usize)?;
+
+        // The buffers are only allocated once all the data announced by the meta has been read.
+        Ok(Animation::from_raw(&AnimationRaw {
+            duration: meta.duration,
+            num_tracks: meta.num_tracks,
+            name: meta.name,
+            timepoints,
+
+            translations,
+            t_ratios,
+            t_previouses,
+            t_iframe_interval,
+            t_iframe_entries,
+            t_iframe_desc,
+
+            rotations,
+            r_ratios,
+            r_previouses,
+            r_iframe_interval,
+            r_iframe_entries,
+            r_iframe_desc,
+
+            scales,
+            s_ratios,
+            s_previouses,
+            s_iframe_interval,
+            s_iframe_entries,
+            s_iframe_desc,
+        }))
+    }
+
+    fn read_ratios(archive: &mut Archive<impl Read>, count: u32, is_ratio_u8: bool) -> Result<Vec<u16>, OzzError> {
         if is_ratio_u8 {
-            for i in 0..animation.s_ratios().len() {
-                animation.s_ratios_mut()[i] = archive.read::<u8>()? as u16;
-            }
+            let ratios: Vec<u8> = archive.read_vec(count as usize)?;
+            Ok(ratios.into_iter().map(|ratio| ratio as u16).collect())
         } else {
-            archive.read_slice(animation.s_ratios_mut())?;
+            archive.read_vec(count as usize)
         }
-        archive.read_slice(animation.s_previouses_mut())?;
-        archive.read_slice(animation.s_iframe_entries_mut())?;
-        archive.read_slice(animation.s_iframe_desc_mut())?;
-        animation.s_iframe_interval = archive.read()?;
-        archive.read_slice(animation.scales_mut())?;
-        Ok(animation)
     }
 
     /// Reads an `Animation` from a file path.
diff --git a/src/archive.rs b/src/archive.rs
index 528133e..15a28f1 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -120,6 +120,9 @@ impl Archive<Cursor<&[u8]>> {
     }
 }
 
+/// The maximum number of elements allocated before any of them was read from the archive.
+const MAX_PREALLOCATION: usize = 4096;
+
 /// Implements `ArchiveRead` to read `T` from Archive.
 pub trait ArchiveRead<T> {
     /// Reads `T` from the archive.
@@ -129,7 +132,8 @@ pub trait ArchiveRead<T> {
     /// * `count` - The number of elements to read.
     #[inline]
     fn read_vec<R: Read>(archive: &mut Archive<R>, count: usize) -> Result<Vec<T>, OzzError> {
-        let mut buffer = Vec::with_capacity(count);
+        // `count` comes from the archive, so it can't be trusted to allocate memory upfront.
+        let mut buffer = Vec::with_capacity(count.min(MAX_PREALLOCATION));
         for _ in 0..count {
             buffer.push(Self::read(archive)?);
         }
diff --git a/src/skeleton.rs b/src/skeleton.rs
index 9e675d9..b5752ba 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -8,7 +8,7 @@ use std::io::Read;
 use std::{mem, slice};
 
 use crate::archive::Archive;
-use crate::base::{DeterministicState, OzzError, OzzIndex};
+use crate::base::{DeterministicState, OzzError, OzzIndex, SKELETON_MAX_JOINTS};
 use crate::math::SoaTransform;
 
 /// Rexported `BiHashMap` in bimap crate.
@@ -102,7 +102,7 @@ impl Skeleton {
 
         let _char_count: u32 = archive.read()?;
         let mut joint_names = BiHashMap::with_capacity_and_hashers(
-            num_joints as usize,
+            num_joints.min(SKELETON_MAX_JOINTS as u32) as usize,
             DeterministicState::new(),
             DeterministicState::new(),
         );
@@ -122,17 +122,13 @@ impl Skeleton {
 
     /// Reads a `Skeleton` from a reader.
     pub fn from_archive(archive: &mut Archive<impl Read>) -> Result<Skeleton, OzzError> {
-        let meta = Skeleton::read_meta(archive, false)?;
-        let mut skeleton = Skeleton::new(meta);
-
-        let _char_count: u32 = archive.read()?;
-        for idx in 0..skeleton.num_joints() {
-            skeleton.joint_names.insert(archive.read::<String>()?, idx as i16);
-        }
-
-        archive.read_slice(skeleton.joint_parents_mut())?;
-        archive.read_slice(skeleton.joint_rest_poses_mut())?;
-        Ok(skeleton)
+        let meta = Skeleton::read_meta(archive, true)?;
+        let joint_rest_poses = archive.read_vec(meta.num_joints.div_ceil(4) as usize)?;
+        Ok(Skeleton::from_raw(&SkeletonRaw {
+            joint_rest_poses,
+            joint_parents: meta.joint_parents,
+            joint_names: meta.joint_names,
+        }))
     }
 
     /// Reads a `Skeleton` from a file.
diff --git a/src/track.rs b/src/track.rs
index efdbdd4..e8d36aa 100644
--- a/src/track.rs
+++ b/src/track.rs
@@ -166,7 +166,7 @@ impl<V: TrackValue> Track<V> {
 
         let ratios: Vec<f32> = archive.read_vec(key_count as usize)?;
         let values: Vec<V> = archive.read_vec(key_count as usize)?;
-        let steps: Vec<u8> = archive.read_vec((key_count + 7) as usize / 8)?;
+        let steps: Vec<u8> = archive.read_vec(key_count.div_ceil(8) as usize)?;
 
         let mut name = String::new();
         if name_len != 0 {
-- 
2.43.0


From 3d4d96a93494c7b5febbf754e5d0232a9cb0e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:11 +0000
Subject: [PATCH 02/24] fix: sample animations smaller than the context

The cache was initialised for the capacity of the context instead of the
tracks of the animation, and outdated flags left by a larger animation (or
never initialised) were processed for tracks the animation doesn't have:
sampling failed assertions or read keys out of bounds.
---
 src/sampling_job.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index a87a9de..64296d1 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -1170,7 +1170,7 @@ where
             }
 
             if iframe >= 0 {
-                next = Self::initialize_cache(ctrl, iframe as usize, args.entries);
+                next = Self::initialize_cache(ctrl, iframe as usize, &mut args.entries[..args.num_soa_tracks * 4]);
                 assert!(next >= args.num_tracks * 2 && next <= num_keys);
                 Self::outdate_cache(args.outdated, args.num_soa_tracks);
             }
@@ -1234,6 +1234,7 @@ where
             i += 1;
         }
         outdated[i] = 0xFF >> (num_outdated_flags * 8 - num_soa_tracks);
+        outdated[i + 1..].fill(0); // the context can be larger than the animation
     }
 
     #[inline]
-- 
2.43.0


From 29986a084c69d5c0dd931730053fd2f822a849df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:12 +0000
Subject: [PATCH 03/24] fix: initialise the memory of a new SamplingContext

Comparing, cloning or serialising a context that had not sampled yet read
uninitialised memory, so two new contexts could differ.
---
 src/sampling_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 64296d1..a09ca12 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -307,7 +307,7 @@ impl SamplingContext {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(size, mem::size_of::<f32x4>());
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = alloc::alloc_zeroed(layout);
             let mut ctx = SamplingContext(ptr as *mut SamplingContextInner);
             let inner = ctx.inner_mut();
             *inner = SamplingContextInner::default();
-- 
2.43.0


From 9061fccd36bdc8342c45a4ea8f435afb9aabe89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:13 +0000
Subject: [PATCH 04/24] fix: decode the largest half-float (65504) as a number

0x7BFF was taken for an infinity/NaN by the four-at-once decoder.
---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 04afc31..d2629d0 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -930,7 +930,7 @@ pub(crate) fn simd_f16_to_f32(half4: [u16; 4]) -> f32x4 {
     let expmant = MASK_NO_SIGN & int4;
     let shifted = expmant << 13;
     let scaled = fx4(shifted) * MAGIC;
-    let was_infnan = i32x4::simd_ge(expmant, WAS_INFNAN).to_int();
+    let was_infnan = i32x4::simd_gt(expmant, WAS_INFNAN).to_int();
     let sign = (int4 ^ expmant) << 16;
     let infnanexp = was_infnan & EXP_INFNAN;
     let sign_inf = sign | infnanexp;
-- 
2.43.0


From 43f4d97ac508a5a44511f0503303f4449896070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:16 +0000
Subject: [PATCH 05/24] fix: accept archived sampling contexts at their own
 alignment

The check required a 16-byte alignment the serializer doesn't provide to an
archived context, so valid bytes were refused depending on their layout.
---
 src/sampling_job.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index a09ca12..46d51a6 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -782,8 +782,8 @@ const _: () = {
 
         #[inline]
         unsafe fn check_bytes<'a>(value: *const Self, _: &mut C) -> Result<&'a Self, Self::Error> {
-            if value as usize % mem::align_of::<f32x4>() != 0 {
-                return Err(Error::new(ErrorKind::InvalidData, "must be aligned to 16 bytes"));
+            if value as usize % mem::align_of::<ArchivedSamplingContext>() != 0 {
+                return Err(Error::new(ErrorKind::InvalidData, "must be aligned"));
             }
             Ok(&*value)
         }
-- 
2.43.0


From 53bd3da5e3dc1516c984e3d889600b89c844c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:33 +0000
Subject: [PATCH 06/24] fix: deserialize a SamplingContext from any serde input

Keys were read as borrowed strings, which only in-memory text can provide:
reading from a reader or from a value failed.
---
 src/sampling_job.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 46d51a6..a9a7dd1 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -838,7 +838,7 @@ const _: () = {
 
         fn visit_map<V: MapAccess<'de>>(self, mut map: V) -> Result<Self::Value, V::Error> {
             let mut max_tracks: Option<usize> = None;
-            while let Some(key) = map.next_key::<&str>()? {
+            while let Some(key) = map.next_key::<String>()? {
                 if key == "max_tracks" {
                     max_tracks = Some(map.next_value()?);
                     break;
@@ -851,8 +851,8 @@ const _: () = {
                 None => return Err(de::Error::custom("Miss field max_tracks")),
             };
 
-            while let Some(key) = map.next_key()? {
-                match key {
+            while let Some(key) = map.next_key::<String>()? {
+                match key.as_str() {
                     "animation_id" => ctx.set_animation_id(map.next_value()?),
                     "ratio" => ctx.set_ratio(map.next_value()?),
                     "translations" => {
-- 
2.43.0


From c3aba4449539577cd4c7fa721b5130ac28e41461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:16 +0000
Subject: [PATCH 07/24] fix: identify the animation of a context by its
 content, not its address

When an animation was freed or replaced and another one took its address, a
context kept using the keys cached for the former.
---
 src/animation.rs    | 34 +++++++++++++++++++++++++++++++++-
 src/sampling_job.rs |  4 ++--
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 85e830a..686e440 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -4,13 +4,14 @@
 
 use glam::{Quat, Vec3, Vec4};
 use std::alloc::{self, Layout};
+use std::hash::{BuildHasher, Hash, Hasher};
 use std::io::Read;
 use std::simd::prelude::*;
 use std::simd::*;
 use std::{mem, slice};
 
 use crate::archive::{Archive, ArchiveRead};
-use crate::base::{align_ptr, align_usize, OzzError};
+use crate::base::{align_ptr, align_usize, DeterministicState, OzzError};
 use crate::math::{f16_to_f32, fx4, ix4, simd_f16_to_f32, SoaQuat, SoaVec3, ONE, ZERO};
 
 /// Float3 key for `Animation` track.
@@ -181,6 +182,7 @@ impl ArchiveRead<QuaternionKey> for QuaternionKey {
 ///
 #[derive(Debug)]
 pub struct Animation {
+    id: u64,
     size: usize,
     duration: f32,
     num_tracks: u32,
@@ -478,6 +480,7 @@ impl Animation {
         animation.s_iframe_interval = raw.s_iframe_interval;
         animation.s_iframe_entries_mut().copy_from_slice(&raw.s_iframe_entries);
         animation.s_iframe_desc_mut().copy_from_slice(&raw.s_iframe_desc);
+        animation.id = animation.content_id();
         animation
     }
 
@@ -513,6 +516,7 @@ impl Animation {
 
     fn new(meta: AnimationMeta) -> Animation {
         let mut animation = Animation {
+            id: 0,
             size: 0,
             duration: meta.duration,
             num_tracks: meta.num_tracks,
@@ -624,6 +628,33 @@ impl Animation {
     }
 }
 
+impl Animation {
+    /// Identifies the keyframes of the animation. Unlike its address, the identifier isn't shared with an
+    /// animation that is later loaded at the same place.
+    #[inline]
+    pub(crate) fn id(&self) -> u64 {
+        self.id
+    }
+
+    // Hashes everything sampling depends on. 0 is reserved to contexts that aren't bound to an animation.
+    fn content_id(&self) -> u64 {
+        let mut hasher = DeterministicState::new().build_hasher();
+        self.num_tracks.hash(&mut hasher);
+        self.timepoints().iter().for_each(|t| t.to_bits().hash(&mut hasher));
+        self.translations().iter().for_each(|k| k.0.hash(&mut hasher));
+        self.rotations().iter().for_each(|k| k.0.hash(&mut hasher));
+        self.scales().iter().for_each(|k| k.0.hash(&mut hasher));
+        for ctrl in [self.translations_ctrl(), self.rotations_ctrl(), self.scales_ctrl()] {
+            ctrl.ratios.hash(&mut hasher);
+            ctrl.previouses.hash(&mut hasher);
+            ctrl.iframe_entries.hash(&mut hasher);
+            ctrl.iframe_desc.hash(&mut hasher);
+            ctrl.iframe_interval.to_bits().hash(&mut hasher);
+        }
+        hasher.finish().max(1)
+    }
+}
+
 /// Animation keyframes control structure.
 #[derive(Debug, Default)]
 pub struct KeyframesCtrl<'t> {
@@ -1081,6 +1112,7 @@ const _: () = {
                 .copy_from_slice(archived.s_iframe_desc.as_slice());
             animation.s_iframe_interval = archived.s_iframe_interval;
 
+            animation.id = animation.content_id();
             Ok(animation)
         }
     }
diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index a9a7dd1..f0cc95a 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -355,7 +355,7 @@ impl SamplingContext {
     /// * `animation` - The animation to sample. Use `animation.num_tracks()` as max_tracks.
     pub fn from_animation(animation: &Animation) -> SamplingContext {
         let mut ctx = SamplingContext::new(animation.num_tracks());
-        ctx.inner_mut().animation_id = animation as *const _ as u64;
+        ctx.inner_mut().animation_id = animation.id();
         ctx
     }
 
@@ -1134,7 +1134,7 @@ where
 
     #[inline]
     fn step_context(ctx: &mut SamplingContext, animation: &Animation, ratio: f32) -> f32 {
-        let animation_id = animation as *const _ as u64;
+        let animation_id = animation.id();
         if ctx.animation_id() != animation_id {
             ctx.set_animation_id(animation_id);
             ctx.set_translation_next(0);
-- 
2.43.0


From 439a92ab62e0e2f3263494573c18f4cfa8b81a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:57 +0000
Subject: [PATCH 08/24] fix: deserialize a SamplingContext whatever the order
 of its fields

Fields met before max_tracks were skipped, losing for instance the animation
id when reading from a value whose keys are sorted.
---
 src/sampling_job.rs | 120 ++++++++++++++++++--------------------------
 1 file changed, 48 insertions(+), 72 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index f0cc95a..60964c9 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -792,7 +792,7 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::de::{self, MapAccess, Visitor};
+    use serde::de;
     use serde::ser::SerializeMap;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
@@ -821,82 +821,58 @@ const _: () = {
         }
     }
 
-    impl<'de> Deserialize<'de> for SamplingContext {
-        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SamplingContext, D::Error> {
-            deserializer.deserialize_map(SamplingContextVisitor)
-        }
-    }
+    #[derive(serde::Deserialize)]
+    struct SamplingContextRaw {
+        max_tracks: usize,
+        animation_id: u64,
+        ratio: f32,
+
+        translations: Vec<InterpSoaFloat3>,
+        translation_entries: Vec<u32>,
+        translation_outdated: Vec<u8>,
+        translation_next: usize,
 
-    struct SamplingContextVisitor;
+        rotations: Vec<InterpSoaQuaternion>,
+        rotation_entries: Vec<u32>,
+        rotation_outdated: Vec<u8>,
+        rotation_next: usize,
 
-    impl<'de> Visitor<'de> for SamplingContextVisitor {
-        type Value = SamplingContext;
+        scales: Vec<InterpSoaFloat3>,
+        scale_entries: Vec<u32>,
+        scale_outdated: Vec<u8>,
+        scale_next: usize,
+    }
 
-        fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-            formatter.write_str("struct SamplingContext")
+    fn copy<T: Copy, E: de::Error>(field: &'static str, dst: &mut [T], src: &[T]) -> Result<(), E> {
+        if dst.len() != src.len() {
+            return Err(E::custom(format_args!("Invalid length of field {}", field)));
         }
+        dst.copy_from_slice(src);
+        Ok(())
+    }
 
-        fn visit_map<V: MapAccess<'de>>(self, mut map: V) -> Result<Self::Value, V::Error> {
-            let mut max_tracks: Option<usize> = None;
-            while let Some(key) = map.next_key::<String>()? {
-                if key == "max_tracks" {
-                    max_tracks = Some(map.next_value()?);
-                    break;
-                } else {
-                    map.next_value::<serde::de::IgnoredAny>()?;
-                }
-            }
-            let mut ctx: SamplingContext = match max_tracks {
-                Some(max_tracks) => SamplingContext::new(max_tracks),
-                None => return Err(de::Error::custom("Miss field max_tracks")),
-            };
-
-            while let Some(key) = map.next_key::<String>()? {
-                match key.as_str() {
-                    "animation_id" => ctx.set_animation_id(map.next_value()?),
-                    "ratio" => ctx.set_ratio(map.next_value()?),
-                    "translations" => {
-                        ctx.translations_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaFloat3>>()?);
-                    }
-                    "translation_entries" => {
-                        ctx.translation_entries_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "translation_outdated" => {
-                        ctx.translation_outdated_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "translation_next" => ctx.set_translation_next(map.next_value()?),
-                    "rotations" => {
-                        ctx.rotations_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaQuaternion>>()?);
-                    }
-                    "rotation_entries" => {
-                        ctx.rotation_entries_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "rotation_outdated" => {
-                        ctx.rotation_outdated_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "rotation_next" => ctx.set_rotation_next(map.next_value()?),
-                    "scales" => {
-                        ctx.scales_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaFloat3>>()?);
-                    }
-                    "scale_entries" => {
-                        ctx.scale_entries_mut().copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "scale_outdated" => {
-                        ctx.scale_outdated_mut().copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "scale_next" => ctx.set_scale_next(map.next_value()?),
-                    _ => {
-                        map.next_value::<serde::de::IgnoredAny>()?;
-                    }
-                }
-            }
+    impl<'de> Deserialize<'de> for SamplingContext {
+        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SamplingContext, D::Error> {
+            // The fields can come in any order, the context is created once `max_tracks` is known.
+            let raw = SamplingContextRaw::deserialize(deserializer)?;
+            let mut ctx = SamplingContext::new(raw.max_tracks);
+            ctx.set_animation_id(raw.animation_id);
+            ctx.set_ratio(raw.ratio);
+
+            copy("translations", ctx.translations_mut(), &raw.translations)?;
+            copy("translation_entries", ctx.translation_entries_mut(), &raw.translation_entries)?;
+            copy("translation_outdated", ctx.translation_outdated_mut(), &raw.translation_outdated)?;
+            ctx.set_translation_next(raw.translation_next);
+
+            copy("rotations", ctx.rotations_mut(), &raw.rotations)?;
+            copy("rotation_entries", ctx.rotation_entries_mut(), &raw.rotation_entries)?;
+            copy("rotation_outdated", ctx.rotation_outdated_mut(), &raw.rotation_outdated)?;
+            ctx.set_rotation_next(raw.rotation_next);
+
+            copy("scales", ctx.scales_mut(), &raw.scales)?;
+            copy("scale_entries", ctx.scale_entries_mut(), &raw.scale_entries)?;
+            copy("scale_outdated", ctx.scale_outdated_mut(), &raw.scale_outdated)?;
+            ctx.set_scale_next(raw.scale_next);
             Ok(ctx)
         }
     }
-- 
2.43.0


From eacbfb16be0b4b626cdda2252ffac22d28e93622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:35 +0000
Subject: [PATCH 09/24] fix: serialize SoA vectors and quaternions with the
 shape they are read with

---
 src/math.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index d2629d0..3d0b8f7 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -220,12 +220,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::ser::SerializeSeq;
+    use serde::ser::SerializeTuple;
     use serde::{Deserialize, Serialize, Serializer};
 
     impl Serialize for SoaVec3 {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
+            let mut seq = serializer.serialize_tuple(3)?;
             seq.serialize_element(&self.x.as_array())?;
             seq.serialize_element(&self.y.as_array())?;
             seq.serialize_element(&self.z.as_array())?;
@@ -459,12 +459,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::ser::SerializeSeq;
+    use serde::ser::SerializeTuple;
     use serde::{Deserialize, Serialize, Serializer};
 
     impl Serialize for SoaQuat {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
+            let mut seq = serializer.serialize_tuple(4)?;
             seq.serialize_element(&self.x.as_array())?;
             seq.serialize_element(&self.y.as_array())?;
             seq.serialize_element(&self.z.as_array())?;
-- 
2.43.0


From c8d5172759f211fb92b3f3c1b18663f5fbe34050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:35 +0000
Subject: [PATCH 10/24] fix: accept any joint index as local-to-model range
 bound

---
 src/local_to_model_job.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/local_to_model_job.rs b/src/local_to_model_job.rs
index 8e31875..59ecd04 100644
--- a/src/local_to_model_job.rs
+++ b/src/local_to_model_job.rs
@@ -229,8 +229,8 @@ where
             return Err(OzzError::InvalidJob);
         }
 
-        let begin = i32::max(0, self.from + (self.from_excluded as i32)) as usize;
-        let end = i32::max(0, i32::min(self.to + 1, skeleton.num_joints() as i32)) as usize;
+        let begin = i32::max(0, self.from.saturating_add(self.from_excluded as i32)) as usize;
+        let end = i32::max(0, i32::min(self.to.saturating_add(1), skeleton.num_joints() as i32)) as usize;
 
         let mut idx = begin;
         let mut process = idx < end && (!self.from_excluded || skeleton.joint_parent(idx) as i32 >= self.from);
-- 
2.43.0


From 990fea728eee8ac1102e878f319b9c61a9240327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:29 +0000
Subject: [PATCH 11/24] fix: refuse in SkinningJob::run what
 SkinningJob::validate refuses

---
 src/skinning_job.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/skinning_job.rs b/src/skinning_job.rs
index 9b51d3c..5b101ca 100644
--- a/src/skinning_job.rs
+++ b/src/skinning_job.rs
@@ -343,11 +343,11 @@ where
             ok &= !self.joint_matrices.as_ref()?.buf().ok()?.is_empty();
 
             let joint_indices = self.joint_indices.as_ref()?.buf().ok()?;
-            ok &= joint_indices.len() >= self.vertex_count * self.influences_count;
+            ok &= joint_indices.len() >= self.vertex_count.saturating_mul(self.influences_count);
 
             if self.influences_count > 1 {
                 let joint_weights = self.joint_weights.as_ref()?.buf().ok()?;
-                ok &= joint_weights.len() >= self.vertex_count * (self.influences_count - 1);
+                ok &= joint_weights.len() >= self.vertex_count.saturating_mul(self.influences_count - 1);
             }
 
             ok &= self.in_positions.as_ref()?.buf().ok()?.len() >= self.vertex_count;
@@ -413,7 +413,7 @@ macro_rules! pnt {
 macro_rules! skinning_1 {
     ($fn:ident, $it:tt, $pnt:tt) => {
         fn $fn(&mut self) -> Result<(), OzzError> {
-            let matrices = self.joint_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;
+            let matrices = unpack_buf(&self.joint_matrices, 1)?;
             it!($it, let it_matrices = self.joint_it_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?);
             let indices = unpack_buf(&self.joint_indices, self.vertex_count)?;
 
@@ -447,10 +447,10 @@ macro_rules! skinning_1 {
 
 macro_rules! skinning_impl {
     ($self:expr, $n:expr, $it:tt, $pnt:tt) => {
-        let matrices = $self.joint_matrices.as_ref().unwrap().buf()?;
+        let matrices = unpack_buf(&$self.joint_matrices, 1)?;
         it!($it, let it_matrices = $self.joint_it_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?);
-        let indices = unpack_buf(&$self.joint_indices, $self.vertex_count * $n)?;
-        let weights = unpack_buf(&$self.joint_weights, $self.vertex_count * ($n - 1))?;
+        let indices = unpack_buf(&$self.joint_indices, $self.vertex_count.saturating_mul($n))?;
+        let weights = unpack_buf(&$self.joint_weights, $self.vertex_count.saturating_mul($n - 1))?;
 
         pnt!($pnt,
             let in_positions = unpack_buf(&$self.in_positions, $self.vertex_count)?;
@@ -532,6 +532,9 @@ where
         if self.influences_count == 0 {
             return Err(OzzError::InvalidJob);
         }
+        if self.in_tangents.is_some() && self.in_normals.is_none() {
+            return Err(OzzError::InvalidJob);
+        }
 
         let mut branch = (self.influences_count - 1).min(4) * 5;
         if self.in_normals.is_some() {
-- 
2.43.0


From 833537dbb030b820517ad64c7d48d9bc677998d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:29 +0000
Subject: [PATCH 12/24] fix: blend no layer into an output longer than the rest
 pose

---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 0113f78..252feb9 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -390,7 +390,7 @@ where
             if bp_weight > 0.0 {
                 if ctx.num_passes == 0 {
                     ctx.accumulated_weight = 1.0;
-                    output.copy_from_slice(joint_rest_poses);
+                    output[..joint_rest_poses.len()].copy_from_slice(joint_rest_poses);
                 } else {
                     ctx.accumulated_weight = threshold;
                     let simd_bp_weight = f32x4::splat(bp_weight);
-- 
2.43.0


From 04473962fb12c0428dc185c6b53fe0c9154f0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:31 +0000
Subject: [PATCH 13/24] fix: refuse an invalid blending layer before writing
 any output

---
 src/blending_job.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 252feb9..89cc0a5 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -309,6 +309,9 @@ where
         if !ok {
             return Err(OzzError::InvalidJob);
         }
+        for layer in self.layers.iter().chain(&self.additive_layers) {
+            Self::check_layer(skeleton, layer, &layer.transform.buf()?)?;
+        }
 
         ctx.num_partial_passes = 0;
         ctx.num_passes = 0;
@@ -324,6 +327,20 @@ where
         Ok(())
     }
 
+    fn check_layer(
+        skeleton: &Skeleton,
+        layer: &BlendingLayer<I>,
+        transform: &[SoaTransform],
+    ) -> Result<(), OzzError> {
+        if transform.len() < skeleton.num_soa_joints() {
+            return Err(OzzError::InvalidJob);
+        }
+        if !layer.joint_weights.is_empty() && layer.joint_weights.len() < skeleton.num_soa_joints() {
+            return Err(OzzError::InvalidJob);
+        }
+        Ok(())
+    }
+
     fn blend_layers(
         skeleton: &Skeleton,
         ctx: &mut BlendingContext,
@@ -334,12 +351,7 @@ where
 
         for layer in layers {
             let transform = layer.transform.buf()?;
-            if transform.len() < skeleton.num_soa_joints() {
-                return Err(OzzError::InvalidJob);
-            }
-            if !layer.joint_weights.is_empty() && layer.joint_weights.len() < skeleton.num_soa_joints() {
-                return Err(OzzError::InvalidJob);
-            }
+            Self::check_layer(skeleton, layer, &transform)?;
 
             if layer.weight <= 0.0 {
                 continue;
@@ -438,12 +450,7 @@ where
 
         for layer in layers {
             let transform = layer.transform.buf()?;
-            if transform.len() < skeleton.num_soa_joints() {
-                return Err(OzzError::InvalidJob);
-            }
-            if !layer.joint_weights.is_empty() && layer.joint_weights.len() < skeleton.num_soa_joints() {
-                return Err(OzzError::InvalidJob);
-            }
+            Self::check_layer(skeleton, layer, &transform)?;
 
             if layer.weight > 0.0 {
                 let layer_weight = f32x4::splat(layer.weight);
-- 
2.43.0


From a7dc397727b7224fa2ea1ce77e620b232935f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:47 +0000
Subject: [PATCH 14/24] fix: make BlendingJobRef a usable type

---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 89cc0a5..f8e5496 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -127,7 +127,7 @@ where
     output: Option<O>,
 }
 
-pub type BlendingJobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut SoaTransform>;
+pub type BlendingJobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut [SoaTransform]>;
 pub type BlendingJobRc<'t> = BlendingJob<Rc<Skeleton>, Rc<RefCell<Vec<SoaTransform>>>, Rc<RefCell<Vec<SoaTransform>>>>;
 pub type BlendingJobArc = BlendingJob<Arc<Skeleton>, Arc<RwLock<Vec<SoaTransform>>>, Arc<RwLock<Vec<SoaTransform>>>>;
 
-- 
2.43.0


From 3549050f21535d21b68e91a40e623e9a95e4c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:11 +0000
Subject: [PATCH 15/24] fix: end track triggering when loops can no longer be
 counted

---
 src/track_triggering_job.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/track_triggering_job.rs b/src/track_triggering_job.rs
index f2cc700..3b1e650 100644
--- a/src/track_triggering_job.rs
+++ b/src/track_triggering_job.rs
@@ -267,6 +267,9 @@ where
                     self.inner += 1;
                 }
                 self.inner = 0;
+                if self.outer + 1.0 == self.outer {
+                    break; // loops can not be told apart any more
+                }
                 self.outer += 1.0;
             }
         } else {
@@ -290,6 +293,9 @@ where
                     self.inner -= 1;
                 }
                 self.inner = key_count - 1;
+                if self.outer - 1.0 == self.outer {
+                    break; // loops can not be told apart any more
+                }
                 self.outer -= 1.0;
             }
         }
-- 
2.43.0


From c1aab3f5386129723caea3a8ed0af6507db02b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:17 +0000
Subject: [PATCH 16/24] fix: convert the quadrant of sine and cosine the same
 way on every target

The unchecked conversion is undefined for angles beyond the integer range: native
and WebAssembly builds gave different results.
---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 3d0b8f7..e4d0468 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -1143,7 +1143,7 @@ pub(crate) fn fx4_sin_cos(v: f32x4) -> (f32x4, f32x4) {
     // XXX11b	-cos(x')	 sin(x')
     //
     // So: sin_sign = bit2, cos_sign = bit1 ^ bit2, bit1 determines if we use sin or cos Taylor expansion
-    let quadrant_int: i32x4 = unsafe { quadrant.to_int_unchecked() };
+    let quadrant_int: i32x4 = quadrant.cast();
     let bit1 = quadrant_int << 31;
     let bit2 = (quadrant_int << 30) & SIGN;
 
-- 
2.43.0


From 8082697ce9e67fa783274d02d8e40bc56ba92585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:17 +0000
Subject: [PATCH 17/24] fix: give an animation the same identifier on every
 platform

Slice lengths were hashed with the target's pointer width, so a context saved on
one platform never fitted its animation on another.
---
 src/animation.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 686e440..1617143 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -637,18 +637,22 @@ impl Animation {
     }
 
     // Hashes everything sampling depends on. 0 is reserved to contexts that aren't bound to an animation.
+    // Slices are hashed with 64 bits lengths, so that a saved context fits the animation on every platform.
     fn content_id(&self) -> u64 {
         let mut hasher = DeterministicState::new().build_hasher();
         self.num_tracks.hash(&mut hasher);
         self.timepoints().iter().for_each(|t| t.to_bits().hash(&mut hasher));
-        self.translations().iter().for_each(|k| k.0.hash(&mut hasher));
-        self.rotations().iter().for_each(|k| k.0.hash(&mut hasher));
-        self.scales().iter().for_each(|k| k.0.hash(&mut hasher));
+        self.translations().iter().for_each(|k| u16::hash_slice(&k.0, &mut hasher));
+        self.rotations().iter().for_each(|k| u16::hash_slice(&k.0, &mut hasher));
+        self.scales().iter().for_each(|k| u16::hash_slice(&k.0, &mut hasher));
         for ctrl in [self.translations_ctrl(), self.rotations_ctrl(), self.scales_ctrl()] {
-            ctrl.ratios.hash(&mut hasher);
-            ctrl.previouses.hash(&mut hasher);
-            ctrl.iframe_entries.hash(&mut hasher);
-            ctrl.iframe_desc.hash(&mut hasher);
+            (ctrl.ratios.len() as u64).hash(&mut hasher);
+            u16::hash_slice(ctrl.ratios, &mut hasher);
+            u16::hash_slice(ctrl.previouses, &mut hasher);
+            (ctrl.iframe_entries.len() as u64).hash(&mut hasher);
+            u8::hash_slice(ctrl.iframe_entries, &mut hasher);
+            (ctrl.iframe_desc.len() as u64).hash(&mut hasher);
+            u32::hash_slice(ctrl.iframe_desc, &mut hasher);
             ctrl.iframe_interval.to_bits().hash(&mut hasher);
         }
         hasher.finish().max(1)
-- 
2.43.0


From 13b785a5bdde0267efa3a8d74627aa5eec3625d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:58 +0000
Subject: [PATCH 18/24] fix: never request a zero-sized allocation

Loading an animation without tracks or a skeleton without joints asked the
allocator for a block of zero bytes, which is undefined behaviour.
---
 src/animation.rs | 4 ++--
 src/skeleton.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 1617143..863877a 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -225,7 +225,7 @@ impl Drop for Animation {
     fn drop(&mut self) {
         if !self.timepoints.is_null() {
             unsafe {
-                let layout = Layout::from_size_align_unchecked(self.size, mem::size_of::<f32>());
+                let layout = Layout::from_size_align_unchecked(self.size.max(1), mem::size_of::<f32>());
                 alloc::dealloc(self.timepoints as *mut u8, layout);
             }
             self.timepoints = std::ptr::null_mut();
@@ -580,7 +580,7 @@ impl Animation {
         animation.size += animation.s_iframe_desc_count as usize * mem::size_of::<u32>(); // s_iframe_desc
 
         unsafe {
-            let layout = Layout::from_size_align_unchecked(animation.size, mem::size_of::<f32>());
+            let layout = Layout::from_size_align_unchecked(animation.size.max(1), mem::size_of::<f32>());
             let mut ptr = alloc::alloc(layout);
 
             animation.timepoints = ptr as *mut f32;
diff --git a/src/skeleton.rs b/src/skeleton.rs
index b5752ba..48704b2 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -42,7 +42,7 @@ impl Drop for Skeleton {
     fn drop(&mut self) {
         if !self.joint_rest_poses.is_null() {
             unsafe {
-                let layout = Layout::from_size_align_unchecked(self.size, mem::align_of::<SoaTransform>());
+                let layout = Layout::from_size_align_unchecked(self.size.max(1), mem::align_of::<SoaTransform>());
                 alloc::dealloc(self.joint_rest_poses as *mut u8, layout);
             }
             self.joint_rest_poses = std::ptr::null_mut();
@@ -185,7 +185,7 @@ impl Skeleton {
             mem::size_of::<SoaTransform>() * skeleton.num_soa_joints() + mem::size_of::<i16>() * skeleton.num_joints();
 
         unsafe {
-            let layout = Layout::from_size_align_unchecked(skeleton.size, ALIGN);
+            let layout = Layout::from_size_align_unchecked(skeleton.size.max(1), ALIGN);
             let mut ptr = alloc::alloc(layout);
 
             skeleton.joint_rest_poses = ptr as *mut SoaTransform;
-- 
2.43.0


From f37168945469976fc57e2a3611a5881a43d04d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 19/24] fix: refuse animation documents whose keys, ratios and
 previouses differ in length

---
 src/animation.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/animation.rs b/src/animation.rs
index 863877a..8f7f866 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -1124,6 +1124,7 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
+    use serde::de::Error;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
     impl Serialize for Animation {
@@ -1136,6 +1137,15 @@ const _: () = {
     impl<'de> Deserialize<'de> for Animation {
         fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Animation, D::Error> {
             let raw = AnimationRaw::deserialize(deserializer)?;
+            let is_valid = raw.t_ratios.len() == raw.translations.len()
+                && raw.t_previouses.len() == raw.translations.len()
+                && raw.r_ratios.len() == raw.rotations.len()
+                && raw.r_previouses.len() == raw.rotations.len()
+                && raw.s_ratios.len() == raw.scales.len()
+                && raw.s_previouses.len() == raw.scales.len();
+            if !is_valid {
+                return Err(D::Error::custom("Animation keys, ratios and previouses have different lengths"));
+            }
             Ok(Animation::from_raw(&raw))
         }
     }
-- 
2.43.0


From d25b51eb5bc0a46f4a06142736b93c827d06bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 20/24] fix: refuse skeleton documents whose rest poses do not
 match the joints

---
 src/skeleton.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skeleton.rs b/src/skeleton.rs
index 48704b2..bde05ff 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -389,6 +389,7 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
+    use serde::de::Error;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
     impl Serialize for Skeleton {
@@ -401,6 +402,9 @@ const _: () = {
     impl<'de> Deserialize<'de> for Skeleton {
         fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Skeleton, D::Error> {
             let raw = SkeletonRaw::deserialize(deserializer)?;
+            if raw.joint_rest_poses.len() != raw.joint_parents.len().div_ceil(4) {
+                return Err(D::Error::custom("Skeleton rest poses and parents have different lengths"));
+            }
             Ok(Skeleton::from_raw(&raw))
         }
     }
-- 
2.43.0


From 017f21e2dac3378e57a8eb2bc71ad80597bab6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 21/24] fix: refuse track documents whose parts do not match
 the key count

---
 src/track.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/track.rs b/src/track.rs
index e8d36aa..1d23eae 100644
--- a/src/track.rs
+++ b/src/track.rs
@@ -117,6 +117,7 @@ impl TrackValue for Quat {
 #[derive(Debug, Default)]
 #[cfg_attr(feature = "rkyv", derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize))]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "TrackRaw<V>"))]
 pub struct Track<V: TrackValue> {
     key_count: u32,
     ratios: Vec<f32>,
@@ -125,6 +126,35 @@ pub struct Track<V: TrackValue> {
     name: String,
 }
 
+#[cfg(feature = "serde")]
+#[derive(serde::Deserialize)]
+struct TrackRaw<V> {
+    key_count: u32,
+    ratios: Vec<f32>,
+    values: Vec<V>,
+    steps: Vec<u8>,
+    name: String,
+}
+
+#[cfg(feature = "serde")]
+impl<V: TrackValue> TryFrom<TrackRaw<V>> for Track<V> {
+    type Error = &'static str;
+
+    fn try_from(raw: TrackRaw<V>) -> Result<Track<V>, &'static str> {
+        let key_count = raw.key_count as usize;
+        if raw.ratios.len() != key_count || raw.values.len() != key_count || raw.steps.len() != key_count.div_ceil(8) {
+            return Err("Track ratios, values and steps do not match its key count");
+        }
+        Ok(Track {
+            key_count: raw.key_count,
+            ratios: raw.ratios,
+            values: raw.values,
+            steps: raw.steps,
+            name: raw.name,
+        })
+    }
+}
+
 impl<V: TrackValue> Track<V> {
     /// `Track` resource file tag for `Archive`.
     #[inline]
-- 
2.43.0


From d4b375a0ff1a6f0746dec9b0d0b56ea95194031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 22/24] fix: check the size announced by a context document
 before allocating

---
 src/sampling_job.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 60964c9..4bd5563 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -855,6 +855,9 @@ const _: () = {
         fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<SamplingContext, D::Error> {
             // The fields can come in any order, the context is created once `max_tracks` is known.
             let raw = SamplingContextRaw::deserialize(deserializer)?;
+            if raw.max_tracks > raw.translation_entries.len() {
+                return Err(de::Error::custom("Invalid length of field translation_entries"));
+            }
             let mut ctx = SamplingContext::new(raw.max_tracks);
             ctx.set_animation_id(raw.animation_id);
             ctx.set_ratio(raw.ratio);
-- 
2.43.0


From 3d1337796ef5495687487629bc8aea8355dd6787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:28 +0000
Subject: [PATCH 23/24] fix: do not reserve the number of joint names a
 document announces

---
 src/skeleton.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/skeleton.rs b/src/skeleton.rs
index bde05ff..f569057 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -65,9 +65,38 @@ pub struct SkeletonMeta {
 pub(crate) struct SkeletonRaw {
     pub joint_rest_poses: Vec<SoaTransform>,
     pub joint_parents: Vec<i16>,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_joint_names"))]
     pub joint_names: JointHashMap,
 }
 
+/// Deserializes joint names without trusting the number of names the document announces.
+#[cfg(feature = "serde")]
+fn deserialize_joint_names<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<JointHashMap, D::Error> {
+    struct NamesVisitor;
+
+    impl<'de> serde::de::Visitor<'de> for NamesVisitor {
+        type Value = JointHashMap;
+
+        fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
+            formatter.write_str("a map of joint names")
+        }
+
+        fn visit_map<M: serde::de::MapAccess<'de>>(self, mut entries: M) -> Result<JointHashMap, M::Error> {
+            let mut names = BiHashMap::with_capacity_and_hashers(
+                entries.size_hint().unwrap_or(0).min(SKELETON_MAX_JOINTS as usize),
+                DeterministicState::new(),
+                DeterministicState::new(),
+            );
+            while let Some((name, joint)) = entries.next_entry()? {
+                names.insert(name, joint);
+            }
+            Ok(names)
+        }
+    }
+
+    deserializer.deserialize_map(NamesVisitor)
+}
+
 impl Skeleton {
     /// `Skeleton` resource file tag for `Archive`.
     #[inline]
-- 
2.43.0


From 44fc3ec0c8794fd69988116f440f6473e0f2ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 24/24] fix: serialize interpolated soa values as the tuples
 they are read back from

---
 src/sampling_job.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 4bd5563..c29290d 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -122,12 +122,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 mod serde_interp {
-    use serde::ser::SerializeSeq;
+    use serde::ser::SerializeTuple;
     use serde::{Deserialize, Deserializer, Serializer};
     use std::simd::prelude::*;
 
     pub(crate) fn serialize<S: Serializer>(value: &[f32x4; 2], serializer: S) -> Result<S::Ok, S::Error> {
-        let mut seq = serializer.serialize_seq(Some(2))?;
+        let mut seq = serializer.serialize_tuple(2)?;
         seq.serialize_element(value[0].as_array())?;
         seq.serialize_element(value[1].as_array())?;
         seq.end()
-- 
2.43.0

