From b952bdb8b1504143c25d7d386d24df1395b6bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 01/14] fix: give a component set the same identifier however
 it is built

ComponentGroupDescriptor::new hashed the component array including its padding while
ArchetypeDescriptor::add_component/remove_component hash only the components in use, so one
set of components ended up in different archetypes depending on how an entity reached it.
---
 src/descriptors/component_group_descriptor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/component_group_descriptor.rs b/src/descriptors/component_group_descriptor.rs
index 0e73ef4..f294d45 100644
--- a/src/descriptors/component_group_descriptor.rs
+++ b/src/descriptors/component_group_descriptor.rs
@@ -60,7 +60,9 @@ impl ComponentGroupDescriptor {
 
         let sorted_descriptors = Self::compute_sorted_descriptors(descriptors);
 
-        let id = ArchetypeDescriptor::compute_archetype_id(&sorted_descriptors);
+        // Only the actual components are part of the identity, the padding after them is not.
+        let (used_descriptors, _) = sorted_descriptors.split_at(N);
+        let id = ArchetypeDescriptor::compute_archetype_id(used_descriptors);
         if !id.is_valid() {
             return Self::INVALID;
         }
-- 
2.43.0


From be13b9d62c76f4904b7d6af8c779fd694417d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 02/14] fix: never treat different component sets with
 colliding ids as one archetype

Archetype ids are 32-bit hashes; two sets of equal length with the same hash were looked up as
the same archetype, mixing rows of different types. Compare the components as well.
---
 src/archetype_registry/mod.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 9f645b7..3c09191 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -68,15 +68,31 @@ impl Default for ArchetypeRegistry {
 }
 
 impl ArchetypeRegistry {
+    /// Searches the mappings of the descriptor's length for the given (valid) descriptor.
+    /// Returns the position in that level, or where it must be inserted to keep the level sorted.
+    /// Archetype ids are hashes, so descriptors with equal ids are told apart by their components.
+    fn search_level(&self, archetype_descriptor: &ArchetypeDescriptor) -> Result<usize, usize> {
+        let level = &self.sorted_mappings[archetype_descriptor.len() as usize - 1];
+        level.binary_search_by(|e| {
+            e.id.cmp(&archetype_descriptor.archetype_id())
+                .then_with(|| {
+                    let existing = self.archetypes[e.archetype_index as usize].descriptor();
+                    let existing = existing.components().iter();
+                    let wanted = archetype_descriptor.components().iter();
+                    existing
+                        .map(|c| c.component_type_id())
+                        .cmp(wanted.map(|c| c.component_type_id()))
+                })
+        })
+    }
+
     #[allow(dead_code)]
     pub fn find_archetype(&self, archetype_descriptor: &ArchetypeDescriptor) -> Option<&Archetype> {
         let len = archetype_descriptor.len() as usize;
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        match self.search_level(archetype_descriptor) {
             Ok(found_index) => Some(
                 &self.archetypes
                     [self.sorted_mappings[len - 1][found_index].archetype_index as usize],
@@ -94,9 +110,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        match self.search_level(archetype_descriptor) {
             Ok(found_index) => Some(
                 &mut self.archetypes
                     [self.sorted_mappings[len - 1][found_index].archetype_index as usize],
@@ -169,9 +183,7 @@ impl ArchetypeRegistry {
         if len > MAX_COMPONENTS_PER_ENTITY || !archetype_descriptor.is_valid() {
             return None;
         }
-        return match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
-        {
+        return match self.search_level(archetype_descriptor) {
             Ok(found_index) => Some((
                 self.sorted_mappings[len - 1][found_index].archetype_index,
                 &mut self.archetypes
-- 
2.43.0


From 3517fadf0594ff951686f1e7fe2f05a0333f02d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 03/14] fix: do not reject component sets whose hash is the
 reserved archetype id

A valid set hashing to u32::MAX got the invalid id and was refused by every operation.
---
 src/descriptors/archetype_descriptor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index 89da7ef..bdce3d4 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -65,7 +65,12 @@ impl ArchetypeDescriptor {
             }
             i += 1;
         }
-        ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())))
+        let hash = fnv1a_hash_32(&bytes, Some(bytes.len()));
+        if hash == ArchetypeId::INVALID.into_u32() {
+            // This value is reserved, a valid combination of components must not end up with it.
+            return ArchetypeId::from_u32(hash - 1);
+        }
+        ArchetypeId::from_u32(hash)
     }
 
     /// Returns whether the descriptor provided is contained in self. (i.e. subset inclusion)
-- 
2.43.0


From 66ffec830a26aa2a45397b010d9c2ab5ff972e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 04/14] fix: adding the 14th and removing from 14 components no
 longer panics

The shift loops touched one element past the components in use, which is out of bounds when the
result (or source) uses all MAX_COMPONENTS_PER_ENTITY slots.
---
 src/descriptors/archetype_descriptor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index bdce3d4..4d30569 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -142,7 +142,7 @@ impl ArchetypeDescriptor {
             Ok(_) => None, // Current archetype already contains given component.
             Err(insertion_index) => {
                 let mut v = self.clone();
-                for i in insertion_index..self.len() as usize + 1 {
+                for i in insertion_index..self.len() as usize {
                     v.components[i + 1] = self.components[i].clone();
                 }
                 v.components[insertion_index] = component_descriptor.clone();
@@ -164,11 +164,12 @@ impl ArchetypeDescriptor {
         {
             Ok(found_index) => {
                 let mut v = self.clone();
-                for i in found_index..self.len() as usize {
+                for i in found_index..self.len() as usize - 1 {
                     v.components[i] = self.components[i + 1].clone();
                 }
 
                 v.len -= 1;
+                v.components[v.len as usize] = ComponentDescriptor::INVALID;
                 v.archetype_id =
                     ArchetypeDescriptor::compute_archetype_id(&v.components[0..v.len() as usize]);
                 Some(v)
-- 
2.43.0


From f085b8b727fb86cbd6175e66f1df7546f5dcaa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 05/14] fix: remove_entity returns None unless the group
 matches the entity exactly

The documented check was missing: a mismatching group read other components' memory as its own.
---
 src/registry/registry.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 768f614..f57e315 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -74,6 +74,14 @@ impl Registry {
             Some(v) => v,
         };
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
+        if !G::DESCRIPTOR.is_valid()
+            || archetype.descriptor().len() != G::DESCRIPTOR.len()
+            || !archetype
+                .descriptor()
+                .contains_subset(G::DESCRIPTOR.archetype())
+        {
+            return None;
+        }
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
             return match archetype.swap_remove_unchecked::<G>(index_in_archetype.value()) {
-- 
2.43.0


From 8ae22e17545e76703a6ce3244f5ca69696bfb31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 06/14] fix: groups naming a component twice are rejected by
 every operation

has_components said yes, get_components(_mut) dereferenced null pointers and the iterators
underflowed, because the (empty) descriptor of a malformed group is a subset of every set.
---
 src/archetype_registry/iterators/archetype_iter.rs       | 2 +-
 src/archetype_registry/iterators/archetype_iter_mut.rs   | 2 +-
 .../iterators/filter_archetype_iter.rs                   | 2 +-
 .../iterators/filter_archetype_iter_mut.rs               | 2 +-
 src/registry/registry.rs                                 | 9 +++++++++
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/archetype_registry/iterators/archetype_iter.rs b/src/archetype_registry/iterators/archetype_iter.rs
index e8aa85a..2dce05a 100644
--- a/src/archetype_registry/iterators/archetype_iter.rs
+++ b/src/archetype_registry/iterators/archetype_iter.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIter<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/archetype_iter_mut.rs b/src/archetype_registry/iterators/archetype_iter_mut.rs
index fdca428..de027c5 100644
--- a/src/archetype_registry/iterators/archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/archetype_iter_mut.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIterMut<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/filter_archetype_iter.rs b/src/archetype_registry/iterators/filter_archetype_iter.rs
index 9e25a72..aa44f75 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter.rs
@@ -22,7 +22,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
index 7c8ce0e..4cd40f6 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
@@ -23,7 +23,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index f57e315..e2b163c 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -121,6 +121,9 @@ impl Registry {
     /// Returns false if entity is invalid or does not have all of the specified components.
     /// If you need to check for only a single components, prefer to use [`Registry::has_component`] instead.
     pub fn has_components<'registry, G: ComponentGroup>(&'registry self, entity: Entity) -> bool {
+        if !G::DESCRIPTOR.is_valid() {
+            return false;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return false,
             Some(v) => v,
@@ -155,6 +158,9 @@ impl Registry {
         &'registry self,
         entity: Entity,
     ) -> Option<G::RefTuple<'registry>> {
+        if !G::DESCRIPTOR.is_valid() {
+            return None;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return None,
             Some(v) => v,
@@ -196,6 +202,9 @@ impl Registry {
         &'registry mut self,
         entity: Entity,
     ) -> Option<G::MutRefTuple<'registry>> {
+        if !G::DESCRIPTOR.is_valid() {
+            return None;
+        }
         let entry = match self.entities.entity_entry(entity) {
             None => return None,
             Some(v) => v,
-- 
2.43.0


From f4b5d38bfa3f66b8ffc2aec3ed5d21f0bee60183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 07/14] fix: growing an archetype past 8,388,608 entities no
 longer frees its storage

Doubling the capacity from 2^23 reached MAX_ENTITIES_PER_ARCHETYPE, which resize_capacity answers
by deallocating everything. Grow to the maximum instead.
---
 src/archetype/data_access.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 7bacce3..0c1f9b9 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -420,7 +420,7 @@ impl Archetype {
     pub(super) unsafe fn resize_capacity(&mut self, change_in_entity_count: isize) {
         let old_capacity = self.capacity();
         let new_capacity = old_capacity as isize + change_in_entity_count;
-        if new_capacity <= 0 || new_capacity >= MAX_ENTITIES_PER_ARCHETYPE as isize {
+        if new_capacity <= 0 || new_capacity > MAX_ENTITIES_PER_ARCHETYPE as isize {
             self.dealloc();
             return;
         }
@@ -502,10 +502,18 @@ impl Archetype {
     /// Resizes the backing memory by the default amount if necessary.
     unsafe fn resize_if_necessary(&mut self) {
         if self.is_full() {
+            assert!(
+                self.capacity() < MAX_ENTITIES_PER_ARCHETYPE,
+                "archetype holds the maximum number of entities"
+            );
             let additional_capacity = if self.capacity() == 0 {
                 DEFAULT_ARCHETYPE_ALLOCATION_SIZE
             } else {
-                self.capacity() as usize
+                // Doubling, but not beyond the maximum.
+                core::cmp::min(
+                    self.capacity(),
+                    MAX_ENTITIES_PER_ARCHETYPE - self.capacity(),
+                ) as usize
             };
             self.resize_capacity(additional_capacity as isize);
         }
-- 
2.43.0


From f8c02e49bd77010eba6192e8b3628c729e60b3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 08/14] fix: reaching the entity limit is reported and released
 slots can be used again

create_entity panicked when the archetype held 16,777,215 entities, and refused to reuse free slots
once the slot table had its maximum length.
---
 src/entity_registry/mod.rs | 5 +++--
 src/registry/registry.rs   | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/entity_registry/mod.rs b/src/entity_registry/mod.rs
index 255cdc4..ad4c52f 100644
--- a/src/entity_registry/mod.rs
+++ b/src/entity_registry/mod.rs
@@ -30,11 +30,12 @@ impl EntityRegistry {
     pub const MAX_ENTITY_COUNT: usize = crate::MAX_ENTITY_HANDLE_VALUE as usize;
 
     pub fn can_register_new_entity(&self) -> bool {
-        self.entities.len() < Self::MAX_ENTITY_COUNT
+        self.next_free_slot != IndexInArchetype::INVALID_VALUE
+            || self.entities.len() < Self::MAX_ENTITY_COUNT
     }
 
     pub fn create_entity(&mut self, index_in_archetype: IndexInArchetype, archetype_index: ArchetypeIndex) -> Option<Entity> {
-        if self.entities.len() >= Self::MAX_ENTITY_COUNT {
+        if !self.can_register_new_entity() {
             return None;
         }
         let (entity, entry) = if self.next_free_slot == IndexInArchetype::INVALID_VALUE {
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index e2b163c..bfa5368 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -29,7 +29,10 @@ impl Registry {
             Some(v) => v,
             None => return Err(components),
         };
-        let index_in_archetype = IndexInArchetype::new(archetype.len()).unwrap();
+        let index_in_archetype = match IndexInArchetype::new(archetype.len()) {
+            Some(v) => v,
+            None => return Err(components),
+        };
         let entity = match self.entities.create_entity(index_in_archetype, ArchetypeIndex::new(archetype_index).unwrap()) {
             Some(v) => v,
             None => return Err(components),
-- 
2.43.0


From d23b08de2e39c91bf3abdda45a3764b7d1828774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 09/14] fix: no zero-sized allocations and no null slices from
 archetypes

Zero-sized components requested zero-sized blocks from the global allocator (undefined behaviour),
growing from capacity 0 resized a null block, and empty archetypes handed out null slices.
---
 src/archetype/data_access.rs | 30 ++++++++++++++++++------------
 src/archetype/mod.rs         | 32 ++++++++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 0c1f9b9..6295128 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -1,10 +1,19 @@
-use super::Archetype;
+use super::{allocate_block, dangling_block, deallocate_block, Archetype};
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
-use alloc::alloc::{dealloc, realloc, Layout};
+use alloc::alloc::{realloc, Layout};
 use core::mem::{align_of, size_of};
-use core::ptr::{slice_from_raw_parts, slice_from_raw_parts_mut};
+use core::ptr::{slice_from_raw_parts, slice_from_raw_parts_mut, NonNull};
+
+/// Resizes a block obtained with the given layout. At least one of the sizes may be zero.
+unsafe fn reallocate_block(pointer: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
+    if layout.size() == 0 || new_size == 0 {
+        deallocate_block(pointer, layout);
+        return allocate_block(Layout::from_size_align_unchecked(new_size, layout.align()));
+    }
+    realloc(pointer, layout, new_size)
+}
 
 impl Archetype {
     /// Returns a reference to a specific component.
@@ -430,7 +439,7 @@ impl Archetype {
             size_of::<Entity>() * old_capacity as usize,
             align_of::<Entity>(),
         );
-        self.entity_associations = realloc(
+        self.entity_associations = reallocate_block(
             self.entity_associations as *mut u8,
             layout,
             size_of::<Entity>() * new_capacity,
@@ -445,7 +454,7 @@ impl Archetype {
                 component_type.size as usize * old_capacity as usize,
                 component_type.align as usize,
             );
-            *pointer = realloc(
+            *pointer = reallocate_block(
                 *pointer,
                 layout,
                 component_type.size as usize * new_capacity,
@@ -463,23 +472,20 @@ impl Archetype {
             .iter_mut()
             .enumerate()
         {
-            if pointer.is_null() {
-                return;
-            }
             let component_type = &self.descriptor.components()[index];
             let layout = Layout::from_size_align_unchecked(
                 component_type.size as usize * self.capacity as usize,
                 component_type.align as usize,
             );
-            dealloc(*pointer, layout);
-            *pointer = core::ptr::null_mut();
+            deallocate_block(*pointer, layout);
+            *pointer = dangling_block(layout.align());
         }
         let layout = Layout::from_size_align_unchecked(
             size_of::<Entity>() * self.capacity() as usize,
             align_of::<Entity>(),
         );
-        dealloc(self.entity_associations as *mut u8, layout);
-        self.entity_associations = core::ptr::null_mut();
+        deallocate_block(self.entity_associations as *mut u8, layout);
+        self.entity_associations = NonNull::dangling().as_ptr();
         self.capacity = 0;
     }
 
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 9f35968..36c9705 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -1,8 +1,9 @@
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
 use crate::descriptors::archetype_descriptor::ArchetypeDescriptor;
 use crate::*;
-use alloc::alloc::{alloc, Layout};
+use alloc::alloc::{alloc, dealloc, Layout};
 use core::mem::{align_of, size_of};
+use core::ptr::NonNull;
 
 mod data_access;
 #[cfg(test)]
@@ -17,6 +18,26 @@ pub struct Archetype {
     capacity: u32,
 }
 
+/// The pointer to a block without any bytes: not null, suitably aligned and never allocated.
+fn dangling_block(align: usize) -> *mut u8 {
+    core::ptr::null_mut::<u8>().wrapping_add(align)
+}
+
+/// Allocates a block. The allocator is not involved if the block has no bytes.
+unsafe fn allocate_block(layout: Layout) -> *mut u8 {
+    if layout.size() == 0 {
+        return dangling_block(layout.align());
+    }
+    alloc(layout)
+}
+
+/// Deallocates a block obtained from [`allocate_block`] with the same layout.
+unsafe fn deallocate_block(pointer: *mut u8, layout: Layout) {
+    if layout.size() != 0 {
+        dealloc(pointer, layout);
+    }
+}
+
 unsafe impl Send for Archetype {}
 unsafe impl Sync for Archetype {}
 
@@ -42,10 +63,13 @@ impl Archetype {
         let mut archetype = Self {
             descriptor: archetype_descriptor.clone(),
             pointers: [core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY],
-            entity_associations: core::ptr::null_mut(),
+            entity_associations: NonNull::dangling().as_ptr(),
             entity_count: 0,
             capacity: 0,
         };
+        for (index, component) in archetype.descriptor.components().iter().enumerate() {
+            archetype.pointers[index] = dangling_block(component.align as usize);
+        }
         // Allocate
         if capacity > 0 && capacity <= MAX_ENTITIES_PER_ARCHETYPE {
             unsafe {
@@ -53,7 +77,7 @@ impl Archetype {
                     size_of::<Entity>() * capacity as usize,
                     align_of::<Entity>(),
                 );
-                archetype.entity_associations = alloc(layout) as *mut Entity;
+                archetype.entity_associations = allocate_block(layout) as *mut Entity;
                 assert_ne!(archetype.entity_associations, core::ptr::null_mut());
 
                 for (index, component) in archetype.descriptor.components().iter().enumerate() {
@@ -61,7 +85,7 @@ impl Archetype {
                         component.size as usize * capacity as usize,
                         component.align as usize,
                     );
-                    archetype.pointers[index] = alloc(layout);
+                    archetype.pointers[index] = allocate_block(layout);
                     assert_ne!(archetype.pointers[index], core::ptr::null_mut());
                 }
                 archetype.capacity = capacity;
-- 
2.43.0


From f9ffc8311288f21d45092dca4bd34cb9ff2219b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 10/14] fix: a failed allocation no longer corrupts the
 registry

resize_capacity overwrote its pointers with null or left columns of different sizes behind, blocks
obtained before the failing one leaked, and create_entity, add_component and remove_component had
already changed the entity table when the storage turned out not to be available.
---
 src/archetype/data_access.rs | 56 ++++++++-------------------
 src/archetype/mod.rs         | 75 +++++++++++++++++++++++-------------
 src/registry/registry.rs     | 16 ++++----
 3 files changed, 75 insertions(+), 72 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 6295128..2bbd364 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -1,20 +1,11 @@
-use super::{allocate_block, dangling_block, deallocate_block, Archetype};
+use super::{dangling_block, deallocate_block, Archetype};
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
-use alloc::alloc::{realloc, Layout};
+use alloc::alloc::Layout;
 use core::mem::{align_of, size_of};
 use core::ptr::{slice_from_raw_parts, slice_from_raw_parts_mut, NonNull};
 
-/// Resizes a block obtained with the given layout. At least one of the sizes may be zero.
-unsafe fn reallocate_block(pointer: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
-    if layout.size() == 0 || new_size == 0 {
-        deallocate_block(pointer, layout);
-        return allocate_block(Layout::from_size_align_unchecked(new_size, layout.align()));
-    }
-    realloc(pointer, layout, new_size)
-}
-
 impl Archetype {
     /// Returns a reference to a specific component.
     /// # Safety:
@@ -423,7 +414,7 @@ impl Archetype {
     /// deallocates all memory.
     /// # Safety:
     /// - Does not call drop on the entities in the backing storage.
-    /// - Panics if resizing fails for whatever reason. This leaves the archetype in an undefined state.
+    /// - Panics if resizing fails for whatever reason. This leaves the archetype unchanged.
     /// - Deallocates if the new capacity is smaller or equal to zero.
     /// - Deallocates if the new capacity exceeds [`MAX_ENTITIES_PER_ARCHETYPE`]. TODO: This is weird?
     pub(super) unsafe fn resize_capacity(&mut self, change_in_entity_count: isize) {
@@ -433,34 +424,21 @@ impl Archetype {
             self.dealloc();
             return;
         }
-        let new_capacity = new_capacity as usize;
-
-        let layout = Layout::from_size_align_unchecked(
-            size_of::<Entity>() * old_capacity as usize,
-            align_of::<Entity>(),
-        );
-        self.entity_associations = reallocate_block(
-            self.entity_associations as *mut u8,
-            layout,
-            size_of::<Entity>() * new_capacity,
-        ) as *mut Entity;
-        assert_ne!(self.entity_associations, core::ptr::null_mut());
-        for (index, pointer) in self.pointers[0..self.descriptor.len() as usize]
-            .iter_mut()
-            .enumerate()
-        {
-            let component_type = &self.descriptor.components()[index];
-            let layout = Layout::from_size_align_unchecked(
-                component_type.size as usize * old_capacity as usize,
-                component_type.align as usize,
-            );
-            *pointer = reallocate_block(
-                *pointer,
-                layout,
-                component_type.size as usize * new_capacity,
+        // Only once all of the new memory has been obtained, the old memory is given up.
+        let (entity_associations, pointers) =
+            Self::allocate_storage(&self.descriptor, new_capacity as u32);
+        let len = core::cmp::min(self.len() as usize, new_capacity as usize);
+        core::ptr::copy_nonoverlapping(self.entity_associations, entity_associations, len);
+        for (index, component) in self.descriptor.components().iter().enumerate() {
+            core::ptr::copy_nonoverlapping(
+                self.pointers[index],
+                pointers[index],
+                component.size as usize * len,
             );
-            assert_ne!(*pointer, core::ptr::null_mut());
         }
+        self.dealloc();
+        self.entity_associations = entity_associations;
+        self.pointers = pointers;
         self.capacity = new_capacity as u32;
     }
 
@@ -506,7 +484,7 @@ impl Archetype {
     }
 
     /// Resizes the backing memory by the default amount if necessary.
-    unsafe fn resize_if_necessary(&mut self) {
+    pub(crate) unsafe fn resize_if_necessary(&mut self) {
         if self.is_full() {
             assert!(
                 self.capacity() < MAX_ENTITIES_PER_ARCHETYPE,
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 36c9705..f85aafa 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -1,9 +1,9 @@
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
 use crate::descriptors::archetype_descriptor::ArchetypeDescriptor;
+use crate::descriptors::component_descriptor::ComponentDescriptor;
 use crate::*;
 use alloc::alloc::{alloc, dealloc, Layout};
 use core::mem::{align_of, size_of};
-use core::ptr::NonNull;
 
 mod data_access;
 #[cfg(test)]
@@ -60,38 +60,61 @@ impl Archetype {
     /// Panics in case of allocation failures.
     pub fn with_capacity(archetype_descriptor: &ArchetypeDescriptor, capacity: u32) -> Archetype {
         assert!(archetype_descriptor.is_valid());
-        let mut archetype = Self {
+        // Does not allocate for these capacities.
+        let capacity = if capacity <= MAX_ENTITIES_PER_ARCHETYPE {
+            capacity
+        } else {
+            0
+        };
+        let (entity_associations, pointers) =
+            unsafe { Self::allocate_storage(archetype_descriptor, capacity) };
+        Self {
             descriptor: archetype_descriptor.clone(),
-            pointers: [core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY],
-            entity_associations: NonNull::dangling().as_ptr(),
+            pointers,
+            entity_associations,
             entity_count: 0,
-            capacity: 0,
-        };
-        for (index, component) in archetype.descriptor.components().iter().enumerate() {
-            archetype.pointers[index] = dangling_block(component.align as usize);
+            capacity,
         }
-        // Allocate
-        if capacity > 0 && capacity <= MAX_ENTITIES_PER_ARCHETYPE {
-            unsafe {
-                let layout = Layout::from_size_align_unchecked(
-                    size_of::<Entity>() * capacity as usize,
-                    align_of::<Entity>(),
-                );
-                archetype.entity_associations = allocate_block(layout) as *mut Entity;
-                assert_ne!(archetype.entity_associations, core::ptr::null_mut());
+    }
 
-                for (index, component) in archetype.descriptor.components().iter().enumerate() {
-                    let layout = Layout::from_size_align_unchecked(
-                        component.size as usize * capacity as usize,
-                        component.align as usize,
-                    );
-                    archetype.pointers[index] = allocate_block(layout);
-                    assert_ne!(archetype.pointers[index], core::ptr::null_mut());
+    /// Allocates memory for the handles and the components of `capacity` entities.
+    /// Panics in case of allocation failures, without keeping hold of any memory.
+    unsafe fn allocate_storage(
+        descriptor: &ArchetypeDescriptor,
+        capacity: u32,
+    ) -> (*mut Entity, [*mut u8; MAX_COMPONENTS_PER_ENTITY]) {
+        let entities_layout = Layout::from_size_align_unchecked(
+            size_of::<Entity>() * capacity as usize,
+            align_of::<Entity>(),
+        );
+        let component_layout = |component: &ComponentDescriptor| {
+            Layout::from_size_align_unchecked(
+                component.size as usize * capacity as usize,
+                component.align as usize,
+            )
+        };
+        let components = descriptor.components();
+        let mut pointers = [core::ptr::null_mut(); MAX_COMPONENTS_PER_ENTITY];
+        let entities = allocate_block(entities_layout) as *mut Entity;
+        let mut complete = !entities.is_null();
+        for (index, component) in components.iter().enumerate() {
+            if complete {
+                pointers[index] = allocate_block(component_layout(component));
+                complete = !pointers[index].is_null();
+            }
+        }
+        if !complete {
+            for (index, component) in components.iter().enumerate() {
+                if !pointers[index].is_null() {
+                    deallocate_block(pointers[index], component_layout(component));
                 }
-                archetype.capacity = capacity;
             }
+            if !entities.is_null() {
+                deallocate_block(entities as *mut u8, entities_layout);
+            }
+            panic!("allocation of archetype storage failed");
         }
-        archetype
+        (entities, pointers)
     }
 
     pub fn descriptor(&self) -> &ArchetypeDescriptor {
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index bfa5368..701c9c5 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -19,7 +19,7 @@ impl Registry {
     /// Returns Err if the provided component group is invalid or an internal limit is exceeded.
     /// Panics in case of allocation failure.
     pub fn create_entity<'c, G: ComponentGroup>(&mut self, components: G) -> Result<Entity, G> {
-        if !G::DESCRIPTOR.is_valid() {
+        if !G::DESCRIPTOR.is_valid() || !self.entities.can_register_new_entity() {
             return Err(components);
         }
         let (archetype_index, archetype) = match self
@@ -33,6 +33,8 @@ impl Registry {
             Some(v) => v,
             None => return Err(components),
         };
+        // Allocates before anything is modified, as a failing allocation panics.
+        unsafe { archetype.resize_if_necessary() };
         let entity = match self.entities.create_entity(index_in_archetype, ArchetypeIndex::new(archetype_index).unwrap()) {
             Some(v) => v,
             None => return Err(components),
@@ -245,6 +247,9 @@ impl Registry {
             None => return Err(component),
         };
 
+        // Make space in the destination archetype. Comes first, as a failing allocation panics.
+        unsafe { destination_archetype.push_uninitialized_entity() };
+
         // Make sure the entity we move is at the end of it's archetype (so data stays contiguous).
         if unsafe { source_archetype.swap_to_last_unchecked(entry.index_in_archetype().value()) } {
             // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
@@ -258,9 +263,6 @@ impl Registry {
         }
 
         unsafe {
-            // Make space in the destination archetype.
-            destination_archetype.push_uninitialized_entity();
-
             // copy from end to end.
             let new_source_entity_index_in_archetype = source_archetype.len() - 1;
             let destination_entity_index_in_archetype = destination_archetype.len() - 1;
@@ -313,6 +315,9 @@ impl Registry {
             None => return Err(()),
         };
 
+        // Make space in the destination archetype. Comes first, as a failing allocation panics.
+        unsafe { destination_archetype.push_uninitialized_entity() };
+
         // Make sure the entity we move is at the end of it's archetype (so data stays contiguous).
         if unsafe { source_archetype.swap_to_last_unchecked(entry.index_in_archetype().value()) } {
             // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
@@ -326,9 +331,6 @@ impl Registry {
         }
 
         unsafe {
-            // Make space in the destination archetype.
-            destination_archetype.push_uninitialized_entity();
-
             // copy from end to end.
             let new_source_entity_index_in_archetype = source_archetype.len() - 1;
             let destination_entity_index_in_archetype = destination_archetype.len() - 1;
-- 
2.43.0


From ad8db36a326d5a40b5cc133006381359235378dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 11/14] fix: a destructor that panics in destroy_entity no
 longer causes double drops

The components were dropped while the entity and its row were still registered, so unwinding left
a live entity with dropped components.
---
 src/archetype/data_access.rs | 6 +++---
 src/registry/registry.rs     | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 2bbd364..e40c3a3 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -313,14 +313,14 @@ impl Archetype {
     pub unsafe fn swap_drop_unchecked(&mut self, index: u32) -> bool {
         debug_assert!(index < self.len());
         if index == self.len() - 1 {
-            // Is the last one, so just drop it.
-            self.drop_entity(index);
+            // Is the last one, so just drop it. It's no longer counted then, as dropping may panic.
             self.entity_count -= 1;
+            self.drop_entity(index);
             false
         } else {
             self.swap_entities(index, self.len() - 1);
-            self.drop_entity(self.len() - 1);
             self.entity_count -= 1;
+            self.drop_entity(self.len());
             true
         }
     }
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 701c9c5..fe26f4e 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -53,7 +53,7 @@ impl Registry {
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
-            if archetype.swap_drop_unchecked(index_in_archetype.value()) {
+            if archetype.swap_to_last_unchecked(index_in_archetype.value()) {
                 // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
                 // We retrieve the entity handle using the metadata, which is now at the old entity's position.
                 let swapped_entity = *archetype
@@ -64,9 +64,12 @@ impl Registry {
                     .unwrap()
                     .set_index_in_archetype(index_in_archetype);
             }
+            let _v = self.entities.destroy_entity(entity);
+            debug_assert!(_v);
+            // The entity is gone before its components are dropped, as dropping them may panic.
+            archetype.decrement_len_unchecked();
+            archetype.drop_entity(archetype.len());
         };
-        let _v = self.entities.destroy_entity(entity);
-        debug_assert!(_v);
         true
     }
 
-- 
2.43.0


From e96cfd1b96660fe797a0c3d61f89b69b2f2c78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 12/14] fix: an archetype index just past the end is refused
 instead of panicking

---
 src/archetype_registry/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 3c09191..8dc9081 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -127,7 +127,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
         // create new archetype
@@ -155,7 +155,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
 
-- 
2.43.0


From d9ac67cdae0d10c4e091dcd7bd80b4c28b334713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:33 +0000
Subject: [PATCH 13/14] fix: derive(Component) accepts items whose fields or
 variants contain arbitrary expressions

The macro parsed the whole item and failed on array lengths and discriminants
that are not among the few expressions syn supports without its full parser,
although it only needs the name, the generics and the where clause.
---
 shard_ecs_derive/src/lib.rs | 47 ++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/shard_ecs_derive/src/lib.rs b/shard_ecs_derive/src/lib.rs
index e46ad93..d2a7722 100644
--- a/shard_ecs_derive/src/lib.rs
+++ b/shard_ecs_derive/src/lib.rs
@@ -1,10 +1,51 @@
 use proc_macro::*;
-use syn::{DeriveInput, parse_macro_input};
+use syn::parse::{Parse, ParseStream};
+use syn::{parse_macro_input, token, Attribute, Generics, Ident, Token, Visibility};
 use quote::quote;
 
+/// The part of an item an implementation of the trait needs. The fields and variants are skipped, as they
+/// may contain arbitrary expressions (array lengths, discriminants).
+struct ItemHead {
+    ident: Ident,
+    generics: Generics,
+}
+
+impl Parse for ItemHead {
+    fn parse(input: ParseStream) -> syn::Result<Self> {
+        input.call(Attribute::parse_outer)?;
+        input.parse::<Visibility>()?;
+        let is_struct = input.peek(Token![struct]);
+        if is_struct {
+            input.parse::<Token![struct]>()?;
+        } else if input.peek(Token![enum]) {
+            input.parse::<Token![enum]>()?;
+        } else {
+            input.parse::<Token![union]>()?;
+        }
+        let ident = input.parse()?;
+        let mut generics: Generics = input.parse()?;
+        if is_struct && input.peek(token::Paren) {
+            // Tuple structs have their where clause behind the fields.
+            skip_token_tree(input)?;
+        }
+        generics.where_clause = input.parse()?;
+        while !input.is_empty() {
+            skip_token_tree(input)?;
+        }
+        Ok(Self { ident, generics })
+    }
+}
+
+fn skip_token_tree(input: ParseStream) -> syn::Result<()> {
+    input.step(|cursor| match cursor.token_tree() {
+        Some((_, rest)) => Ok(((), rest)),
+        None => Err(cursor.error("unexpected end of item")),
+    })
+}
+
 #[proc_macro_derive(Component)]
 pub fn derive_component(input: TokenStream) -> TokenStream {
-    let input = parse_macro_input!(input as DeriveInput);
+    let input = parse_macro_input!(input as ItemHead);
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let name = input.ident;
     let expanded = quote! {
@@ -13,4 +54,4 @@ pub fn derive_component(input: TokenStream) -> TokenStream {
         }
     };
     proc_macro::TokenStream::from(expanded)
-}
\ No newline at end of file
+}
-- 
2.43.0


From a23372ad0b5190e6c7989d0832e52d0c3f592cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:42 +0000
Subject: [PATCH 14/14] fix: names in scope at the item do not change what
 derive(Component) generates

A macro named stringify or a type named str in scope was picked up by the
generated implementation.
---
 shard_ecs_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shard_ecs_derive/src/lib.rs b/shard_ecs_derive/src/lib.rs
index d2a7722..a383f00 100644
--- a/shard_ecs_derive/src/lib.rs
+++ b/shard_ecs_derive/src/lib.rs
@@ -50,7 +50,7 @@ pub fn derive_component(input: TokenStream) -> TokenStream {
     let name = input.ident;
     let expanded = quote! {
         impl #impl_generics Component for #name #ty_generics #where_clause {
-            const NAME: &'static str = stringify!(#name);
+            const NAME: &'static ::core::primitive::str = ::core::stringify!(#name);
         }
     };
     proc_macro::TokenStream::from(expanded)
-- 
2.43.0

