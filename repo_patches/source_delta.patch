From 56780a3b015cc566bb09a70cba9758aff1693abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 01/21] fix: honour shifted_by_one on fields when reading from
 cache files

---
 src/ringhopper-structs-codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-structs-codegen/src/lib.rs b/src/ringhopper-structs-codegen/src/lib.rs
index 1925a35..fee7061 100644
--- a/src/ringhopper-structs-codegen/src/lib.rs
+++ b/src/ringhopper-structs-codegen/src/lib.rs
@@ -506,7 +506,7 @@ impl ToTokenStream for Struct {
                     let field_name = &fields_with_names[i];
                     let field_type = &fields_with_types[i];
 
-                    let read_map_code = if self.flags.shifted_by_one {
+                    let read_map_code = if self.fields[i].flags.shifted_by_one {
                         "(u16::read_from_map(map, _pos, domain_type)?.wrapping_add(1)).try_into()?".to_owned()
                     }
                     else if field_type == "BSPVertexData" {
-- 
2.43.0


From d0e2653cae339ba2f6cc2c57f7a8278b4bd6c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 02/21] fix: write the DataC address at the offset it is read
 from

---
 src/ringhopper-primitives/src/primitive/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index fe2f049..5e6cbb3 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -1003,8 +1003,8 @@ impl SimpleTagData for DataC {
         self.size.write::<B>(data, at, struct_end)?;
         self.flags.write::<B>(data, at + 0x4, struct_end)?;
         self.file_offset.write::<B>(data, at + 0x8, struct_end)?;
-        self.padding.write::<B>(data, at + 0xC, struct_end)?;
-        self.address.write::<B>(data, at + 0x10, struct_end)?;
+        self.address.write::<B>(data, at + 0xC, struct_end)?;
+        self.padding.write::<B>(data, at + 0x10, struct_end)?;
         Ok(())
     }
 }
-- 
2.43.0


From 93cd230986c9e3cfb84de1312a1a71896559b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 03/21] fix: report the stored size of planes, not their
 in-memory size

---
 src/ringhopper-primitives/src/primitive/plane.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/plane.rs b/src/ringhopper-primitives/src/primitive/plane.rs
index 9b2dbc0..d30c109 100644
--- a/src/ringhopper-primitives/src/primitive/plane.rs
+++ b/src/ringhopper-primitives/src/primitive/plane.rs
@@ -36,7 +36,7 @@ impl Plane for Plane2D {
 
 impl SimpleTagData for Plane2D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector2D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector2D::read::<B>(data, at, struct_end)?;
@@ -77,7 +77,7 @@ impl Plane for Plane3D {
 
 impl SimpleTagData for Plane3D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector3D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector3D::read::<B>(data, at, struct_end)?;
-- 
2.43.0


From 665b226b7d11806fcb787c8d8bcb33e85cc70ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 04/21] fix: find the wind tag group by name

---
 src/ringhopper-primitives/src/primitive/group.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/group.rs b/src/ringhopper-primitives/src/primitive/group.rs
index 160c457..37d9d8a 100644
--- a/src/ringhopper-primitives/src/primitive/group.rs
+++ b/src/ringhopper-primitives/src/primitive/group.rs
@@ -116,6 +116,8 @@ impl PartialOrd for TagGroup {
 }
 
 /// All tag groups for CE sorted alphabetically to allow for efficient binary searching.
+///
+/// The last entry, [`TagGroup::_Unset`], is not an actual group and does not take part in the ordering.
 const ALL_GROUPS: &'static [(&'static str, TagGroup, FourCC)] = &[
     ("actor", TagGroup::Actor, 0x61637472),
     ("actor_variant", TagGroup::ActorVariant, 0x61637476),
@@ -215,7 +217,7 @@ impl TagGroup {
     ///
     /// Returns an error `Error::NoSuchTagGroup` if `str` doesn't correspond to a group.
     pub fn from_str(str: &str) -> RinghopperResult<TagGroup> {
-        ALL_GROUPS.binary_search_by(|probe| probe.0.cmp(str))
+        ALL_GROUPS[..ALL_GROUPS.len() - 1].binary_search_by(|probe| probe.0.cmp(str))
             .map(|n| ALL_GROUPS[n].1)
             .map_err(|_| Error::InvalidFourCC)
     }
-- 
2.43.0


From a21a089a8ed74808532354fb16990e90146ecff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 05/21] fix: return None for out of range indices of arrays and
 reflexives

---
 src/ringhopper-primitives/src/primitive/array.rs | 4 ++--
 src/ringhopper-primitives/src/primitive/data.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/array.rs b/src/ringhopper-primitives/src/primitive/array.rs
index c30c063..c2b7173 100644
--- a/src/ringhopper-primitives/src/primitive/array.rs
+++ b/src/ringhopper-primitives/src/primitive/array.rs
@@ -240,11 +240,11 @@ impl<T: DynamicTagData + SimpleTagData + Sized, const U: usize> SimpleTagData fo
 
 impl<T: DynamicTagData + SimpleTagData + Sized, const U: usize> DynamicTagDataArray for [T; U] {
     fn get_at_index(&self, index: usize) -> Option<&dyn DynamicTagData> {
-        Some(&self[index])
+        self.get(index).map(|i| i as &dyn DynamicTagData)
     }
 
     fn get_at_index_mut(&mut self, index: usize) -> Option<&mut dyn DynamicTagData> {
-        Some(&mut self[index])
+        self.get_mut(index).map(|i| i as &mut dyn DynamicTagData)
     }
 
     fn len(&self) -> usize {
diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 5e6cbb3..6dfdeed 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -868,11 +868,11 @@ impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagData for Reflexive<T
 
 impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagDataArray for Reflexive<T> {
     fn get_at_index(&self, index: usize) -> Option<&dyn DynamicTagData> {
-        Some(&self.items[index])
+        self.items.get(index).map(|i| i as &dyn DynamicTagData)
     }
 
     fn get_at_index_mut(&mut self, index: usize) -> Option<&mut dyn DynamicTagData> {
-        Some(&mut self.items[index])
+        self.items.get_mut(index).map(|i| i as &mut dyn DynamicTagData)
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 31eecc37b5e51615035197b3d2bb569b6ef705e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 06/21] fix: default the radius animation of particles instead
 of undoing it

---
 src/ringhopper/src/tag/default/particle.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ringhopper/src/tag/default/particle.rs b/src/ringhopper/src/tag/default/particle.rs
index 2a0f139..196cdbd 100644
--- a/src/ringhopper/src/tag/default/particle.rs
+++ b/src/ringhopper/src/tag/default/particle.rs
@@ -4,11 +4,11 @@ use ringhopper_structs::Particle;
 pub fn unset_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
     let particle: &mut Particle = tag.as_any_mut().downcast_mut().unwrap();
 
-    if particle.radius_animation.lower == 0.0 {
-        particle.radius_animation.lower = 1.0;
+    if particle.radius_animation.lower == 1.0 {
+        particle.radius_animation.lower = 0.0;
     }
-    if particle.radius_animation.upper == 0.0 {
-        particle.radius_animation.upper = 1.0;
+    if particle.radius_animation.upper == 1.0 {
+        particle.radius_animation.upper = 0.0;
     }
 
     if (particle.fade_start_size == 5.0 || particle.fade_start_size == 0.0) && (particle.fade_end_size == 4.0 || particle.fade_end_size == 0.0) {
@@ -20,11 +20,11 @@ pub fn unset_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
 pub fn set_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
     let particle: &mut Particle = tag.as_any_mut().downcast_mut().unwrap();
 
-    if particle.radius_animation.lower == 1.0 {
-        particle.radius_animation.lower = 0.0;
+    if particle.radius_animation.lower == 0.0 {
+        particle.radius_animation.lower = 1.0;
     }
-    if particle.radius_animation.upper == 1.0 {
-        particle.radius_animation.upper = 0.0;
+    if particle.radius_animation.upper == 0.0 {
+        particle.radius_animation.upper = 1.0;
     }
 
     // This is a weird behavior with tool.exe, since it can unset values you might've wanted, so the verification step
-- 
2.43.0


From a2547a445e3c8d073fc8ff7d8394cf02e29641ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 07/21] fix: do not open a tag file whose header is of another
 group than its path

---
 src/ringhopper/src/tag/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 2989d79..a87eaf6 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -665,6 +665,9 @@ impl TagTree for VirtualTagsDirectory {
         let hash = Self::hash_file(file.as_slice());
         let mut tag = ringhopper_structs::read_any_tag_from_file_buffer(&file, self.strictness)
             .map_err(|e| Error::FailedToReadTag(path.clone(), vec![e]))?;
+        if tag.group() != path.group() {
+            return Err(Error::FailedToReadTag(path.clone(), vec![Error::TagHeaderGroupTypeMismatch]))
+        }
         tag.metadata_mut().hash = Some(hash);
         Ok(tag)
     }
-- 
2.43.0


From 54f5f49c38215c0498662cad81f3575706b9d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 08/21] fix: return an error for compressed maps that claim to
 be smaller than their header

---
 src/ringhopper/src/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper/src/map.rs b/src/ringhopper/src/map.rs
index a4ddb4f..a14b776 100644
--- a/src/ringhopper/src/map.rs
+++ b/src/ringhopper/src/map.rs
@@ -193,6 +193,10 @@ fn decompress_map_data(data: Vec<u8>, header: &ParsedCacheFileHeader, engine: &E
         return Err(Error::MapParseFailure("decompression failed: bad padding size in header - larger than uncompressed data".to_owned()))
     }
 
+    if header.decompressed_size < compressed_start {
+        return Err(Error::MapParseFailure("decompression failed: bad decompressed size in header - smaller than the header".to_owned()))
+    }
+
     let mut result = Vec::with_capacity(header.decompressed_size);
     result.extend_from_slice(&data[..compressed_start]);
     result.resize(header.decompressed_size, 0);
-- 
2.43.0


From 55c9042dce1cf082f9d04380af722d019dd70d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 09/21] fix: return an error for maps with an invalid scenario
 tag ID

---
 src/ringhopper/src/map/gearbox.rs | 4 ++++
 src/ringhopper/src/map/xbox.rs    | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index 25b29fc..bd11b52 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -94,6 +94,10 @@ impl GearboxCacheFile {
         map.ids = ids;
         map.tags = tags;
 
+        if map.get_tag_by_id(map.scenario_tag).is_none() {
+            return Err(Error::MapParseFailure("the map does not have a valid scenario tag ID".to_owned()))
+        }
+
         // Get the scenario tag to get the BSP data
         let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
         map.bsp_data = bsps;
diff --git a/src/ringhopper/src/map/xbox.rs b/src/ringhopper/src/map/xbox.rs
index 995688d..5e1943c 100644
--- a/src/ringhopper/src/map/xbox.rs
+++ b/src/ringhopper/src/map/xbox.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use definitions::{CacheFileTagDataHeaderInternalModels, Scenario, ScenarioType};
 use primitives::engine::Engine;
-use primitives::error::{OverflowCheck, RinghopperResult};
+use primitives::error::{Error, OverflowCheck, RinghopperResult};
 use primitives::map::{DomainType, Map, Tag};
 use primitives::parse::{SimpleTagData, TagData};
 use primitives::primitive::{ID, TagPath};
@@ -67,6 +67,10 @@ impl XboxCacheFile {
         map.ids = ids;
         map.tags = tags;
 
+        if map.get_tag_by_id(map.scenario_tag).is_none() {
+            return Err(Error::MapParseFailure("the map does not have a valid scenario tag ID".to_owned()))
+        }
+
         // Get the scenario tag to get the BSP data
         let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
         map.bsp_data = bsps;
-- 
2.43.0


From 7331055c123d6259f042e5a84ed0e8a9874edd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 10/21] fix: return an error for maps with BSPs too short to
 hold their header

---
 src/ringhopper/src/map/gearbox.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index bd11b52..9a0a1b5 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -165,8 +165,7 @@ impl GearboxCacheFile {
         self.bsp_vertex_data.reserve(bsp_count);
 
         for bsp_index in 0..bsp_count {
-            let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))
-                .expect("should have the bsp here");
+            let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))?;
 
             let start = bsp_data.lightmap_vertices as usize;
             let end = start.add_overflow_checked(bsp_data.lightmap_vertex_size as usize)?;
-- 
2.43.0


From 44a7b17f474e0610530457007a974cced6ca4c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 11/21] fix: do not allocate memory for an unverified number of
 reflexive elements

---
 src/ringhopper-primitives/src/primitive/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 6dfdeed..9a37998 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -597,7 +597,7 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         let item_size = T::size();
         let total_length = count.mul_overflow_checked(item_size)?;
         let mut result = Reflexive {
-            items: Vec::with_capacity(count)
+            items: Vec::new() // not reserved up front, since count is not verified
         };
 
         let mut item_offset = *extra_data_cursor;
@@ -642,7 +642,7 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         count.mul_overflow_checked(item_size)?.add_overflow_checked(address)?;
 
         let mut result = Reflexive {
-            items: Vec::with_capacity(count)
+            items: Vec::new() // not reserved up front, since count is not verified
         };
 
         for _ in 0..count {
-- 
2.43.0


From 9d73ce461fa8047870dea4217a4c1bbbeb07a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 12/21] fix: do not allocate memory for an unverified number of
 resources

---
 src/ringhopper/src/map/resource.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/map/resource.rs b/src/ringhopper/src/map/resource.rs
index 0e37130..f76cb99 100644
--- a/src/ringhopper/src/map/resource.rs
+++ b/src/ringhopper/src/map/resource.rs
@@ -26,7 +26,7 @@ impl ResourceMap {
 
         let mut current_offset = header.array_offset as usize;
         let array_len = header.count as usize;
-        let mut resources = Vec::with_capacity(array_len);
+        let mut resources = Vec::new(); // not reserved up front, since array_len is not verified
         let resource_len = ResourceMapResource::simple_size();
 
         for i in 0..array_len {
-- 
2.43.0


From aff0ee66d663fc0a194bf4362d7922155c86e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 13/21] fix: do not reserve memory for BSP vertices before they
 are known to be in the map

---
 src/ringhopper-primitives/src/primitive/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 9a37998..b9bf189 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -445,7 +445,7 @@ impl BSPVertexData {
         let rendered_size = rendered_count.mul_overflow_checked(if compressed { 32 } else { 56 })?;
         let lightmap_size = lightmap_count.mul_overflow_checked(if compressed { 8 } else { 20 })?;
         let total_size = rendered_size.add_overflow_checked(lightmap_size)?;
-        let mut data: Vec<u8> = Vec::with_capacity(total_size);
+        let mut data: Vec<u8> = Vec::new();
 
         if !map.get_engine().external_bsps || p_address != 0 {
             match map.get_data_at_address(p_address, domain_type, total_size) {
-- 
2.43.0


From 2058984661de691eeefe1aca8275a292222022e5 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 14/21] fix: Hold references read from tag files to the rules
 for tag paths

---
 src/ringhopper-primitives/src/primitive/path.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/path.rs b/src/ringhopper-primitives/src/primitive/path.rs
index 7645310..606eebb 100644
--- a/src/ringhopper-primitives/src/primitive/path.rs
+++ b/src/ringhopper-primitives/src/primitive/path.rs
@@ -483,12 +483,8 @@ impl TagData for TagReference {
 
         *extra_data_cursor = end;
 
-        Ok(TagReference::Set(
-            TagPath {
-                path: std::str::from_utf8(&data[start..null_byte_index]).map_err(|_| Error::InvalidTagPath)?.to_owned(),
-                group
-            }
-        ))
+        let path = std::str::from_utf8(&data[start..null_byte_index]).map_err(|_| Error::InvalidTagPath)?;
+        Ok(TagReference::Set(TagPath::new(path, group)?))
     }
 
     fn write_to_tag_file(&self, data: &mut Vec<u8>, at: usize, struct_end: usize) -> RinghopperResult<()> {
-- 
2.43.0


From f76d5e2e2f5069815edffad5c14c12d30ef7cdd7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 15/21] fix: List items that are in several tags directories
 only once

---
 src/ringhopper/src/tag/tree.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index a87eaf6..7729cf7 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -1,5 +1,5 @@
 use std::borrow::Cow;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 use crc64::crc64;
@@ -719,9 +719,9 @@ impl TagTree for VirtualTagsDirectory {
             }
         }
 
-        result.dedup_by(|a, b| {
-            a.item_type == b.item_type && a.tag_group == b.tag_group && a.path == b.path
-        });
+        // directories may have the same item, and what is the same is not necessarily adjacent
+        let mut found = HashSet::new();
+        result.retain(|f: &TagTreeItem| found.insert((f.path.clone(), f.tag_group)));
 
         if !success {
             return None
-- 
2.43.0


From 0e1724ff4dd8272d0083d12ac72960b12a9f7e8a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 16/21] fix: Do not list files as tags if their names cannot be
 tag paths

---
 src/ringhopper/src/tag/tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 7729cf7..e751f6d 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -696,6 +696,10 @@ impl TagTree for VirtualTagsDirectory {
                         let extension = path.rfind('.')?;
                         let tag_group = TagGroup::from_str(&path[extension + 1..]).ok()?;
                         path.truncate(extension);
+
+                        // it can't be a tag if it can't have a tag path
+                        TagPath::new(&path, tag_group).ok()?;
+
                         Some(TagTreeItem::new(
                             TagTreeItemType::Tag,
                             Cow::Owned(path),
-- 
2.43.0


From f892009230ad141870b7f12fb30003d8381d7e9f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 17/21] fix: Report from cached tag trees whether the tag was
 actually saved

---
 src/ringhopper/src/tag/tree.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index e751f6d..04c76bf 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -534,11 +534,12 @@ impl<T: TagTree> TagTree for CachingTagTree<T> {
         self.inner.files_in_path(path)
     }
     fn write_tag(&mut self, path: &TagPath, tag: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> {
-        if self.strategy == CachingTagTreeWriteStrategy::Instant {
-            self.inner.write_tag(path, tag)?;
-        }
+        let saved = match self.strategy {
+            CachingTagTreeWriteStrategy::Instant => self.inner.write_tag(path, tag)?,
+            CachingTagTreeWriteStrategy::Manual => true
+        };
         self.tag_cache.lock().unwrap().insert(path.to_owned(), Arc::new(Mutex::new(tag.clone_inner())));
-        Ok(true)
+        Ok(saved)
     }
     fn contains(&self, path: &TagPath) -> bool {
         self.inner.contains(path)
-- 
2.43.0


From c4e74693736a71f090fee724bc412a6080e96310 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 18/21] fix: Do not panic on tags that cannot be opened when
 refactoring paths

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 7240892..4e17e6e 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -340,7 +340,7 @@ pub fn refactor_paths_for_tag_tree(
                 Ok(n) => n,
                 Err(e) => {
                     let mut l = context.results.lock().unwrap();
-                    l.get_mut(tag).unwrap().errors.push(format!("Can't open {tag}: {e}"));
+                    l.entry(tag.to_owned()).or_default().errors.push(format!("Can't open {tag}: {e}"));
                     continue;
                 }
             };
-- 
2.43.0


From d9391c979d231a39fd80a373e283d02b4ea2b884 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 19/21] fix: Move tags back in reverse and report it when
 refactoring fails

---
 src/ringhopper/src/tag/dependency.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 4e17e6e..d881c2a 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -279,8 +279,15 @@ pub fn refactor_paths_for_tag_tree(
         }
 
         if undo_history.len() != tags_to_rename.len() {
-            for i in undo_history {
-                std::fs::rename(&i.1, &i.0).unwrap();
+            for ((actual_path, new_actual_path), (old_path, _)) in undo_history.into_iter().zip(&tags_to_rename).rev() {
+                // the old directory may have been removed if moving the tag left it empty
+                let moved_back = match actual_path.parent() {
+                    Some(parent) => std::fs::create_dir_all(parent),
+                    None => Ok(())
+                }.and_then(|_| std::fs::rename(&new_actual_path, &actual_path));
+                if let Err(e) = moved_back {
+                    results.entry(old_path.to_owned()).or_default().errors.push(format!("Couldn't move {} back to {}: {e:?}", new_actual_path.display(), actual_path.display()));
+                }
             }
             return Err((Error::Other("Filesystem errors occurred".to_owned()), results));
         }
-- 
2.43.0


From 94a3b54ec6781356aed21fe46c5c8e1251b91d19 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 20/21] fix: Return an error if a tag cannot be opened for
 reverse dependencies

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index d881c2a..5e9f77c 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -130,7 +130,7 @@ pub fn get_reverse_dependencies_for_tag<T: TagTree>(tag: &TagPath, tag_tree: &T)
             continue
         }
 
-        let t = tag_tree.open_tag_shared(&i).unwrap();
+        let t = tag_tree.open_tag_shared(&i)?;
         let t = t.lock().unwrap();
         if get_tag_dependencies_for_block(t.as_ref().as_dynamic()).contains(tag) {
             result.insert(i);
-- 
2.43.0


From 7a2fa537ef9b0b2523146443a7afccdf6cbff9f2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 21/21] fix: Do not rename a reference again after it was
 already renamed

---
 src/ringhopper/src/tag/dependency.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 5e9f77c..5029a29 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -359,6 +359,7 @@ pub fn refactor_paths_for_tag_tree(
                     if r.path() == Some(old_path) {
                         *r = TagReference::Set(new_path.to_owned());
                         changes_made = true;
+                        break;
                     }
                 }
             });
-- 
2.43.0

