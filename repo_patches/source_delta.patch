From f35798d17d5a01539e6992937cbe49ff55a5d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:13 +0000
Subject: [PATCH 01/54] fix: popping from a top tier re-links its neighbours

Hierarchies made by custom_classes(), Word/Phone and every class cloned into
an AlignedTextGrid have their own subclass of Top, so `superset_class is Top`
was never true and the interval after a fused or popped one kept pointing back
at the removed interval.
---
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index f68a872..ca6c8a9 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -171,7 +171,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
-            if self.superset_class is Top:
+            if issubclass(self.superset_class, Top):
                 self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
-- 
2.43.0


From 2345de5bcebe45f3fd335bf48f83cb46a77d13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:16 +0000
Subject: [PATCH 02/54] fix: iterating a SequenceInterval no longer keeps its
 cursor on the interval

Two iterations over the same interval (nested loops, or two threads reading
one grid) shared `self.current` and skipped or repeated entries.
---
 src/aligned_textgrid/sequences/sequences.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 5bde7fe..3461467 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -417,20 +417,11 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         return self.subset_list[idx]
 
     def __iter__(self):
-        self.current = 0
-        return self
+        return iter(self.subset_list)
     
     def __len__(self)->int:
         return len(self.subset_list)
     
-    def __next__(self):
-        if self.current < len(self.subset_list):
-            this_seg = self.subset_list[self.current]
-            self.current+=1
-            return this_seg
-        else:
-            raise StopIteration
-        
     def index(
             self,
             subset_instance:'SequenceInterval'
-- 
2.43.0


From b545372c4eb6f2eb386f0df9188a5108bbfa9155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:20 +0000
Subject: [PATCH 03/54] fix: default-constructed groups no longer share one
 tier object

`TierGroup()` and `PointsGroup()` used a mutable default argument, so every
default-constructed group held the very same tier.
---
 src/aligned_textgrid/points/tiers.py    | 4 +++-
 src/aligned_textgrid/sequences/tiers.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index cdbf1f3..c04c98d 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -242,8 +242,10 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """    
     def __init__(
             self,
-            tiers: list[SequencePointTier]|Self = [SequencePointTier()]
+            tiers: list[SequencePointTier]|Self = None
     ):
+        if tiers is None:
+            tiers = [SequencePointTier()]
         if isinstance(tiers, PointsGroup):
             tiers = [tier for tier in tiers]
         self.tier_list = tiers
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index ca6c8a9..61c55ea 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -366,9 +366,11 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     """
     def __init__(
         self,
-        tiers: list[SequenceTier]|Self = [SequenceTier()],
+        tiers: list[SequenceTier]|Self = None,
         delay_cleanup = False
     ):
+        if tiers is None:
+            tiers = [SequenceTier()]
         name = None        
         if hasattr(tiers, "name"):
             name = tiers.name
-- 
2.43.0


From 48d3415ce578bea0a51cd7f62bd321062c58d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 04/54] fix: save_as_tg() of a tier no longer always raises
 TypeError

praatio's Textgrid.save() requires includeBlankSpaces.
---
 src/aligned_textgrid/points/tiers.py    | 2 +-
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index c04c98d..c2df59b 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -225,7 +225,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         point_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = point_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces = True)
 
 class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """A collection of point tiers
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 61c55ea..c1954be 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -337,7 +337,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         interval_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = interval_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces = True)
 
 
 class TierGroup(Sequence,TierGroupMixins, WithinMixins):
-- 
2.43.0


From 02e5857a62babd964f166c66ddca857d5b19339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:27 +0000
Subject: [PATCH 05/54] fix: a failing label_fun no longer leaves intervals
 half fused

The label callback ran after the times and links had been changed.
---
 src/aligned_textgrid/sequences/sequences.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 3461467..8d36cc8 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -585,9 +585,10 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
         if not fusee.label == "#":
 
+            new_label = label_fun(fuser.label, fusee.label)
             fuser.end = fusee.end
             fuser.fol = fusee.fol
-            fuser.label = label_fun(fuser.label, fusee.label)
+            fuser.label = new_label
 
             new_list = fuser._subset_list + fusee.subset_list
             fuser.subset_list = new_list
@@ -616,9 +617,10 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
         if not fusee.label == "#":
 
+            new_label = label_fun(fusee.label, fuser.label)
             fuser.start = fusee.start
             fuser.prev = fusee.prev
-            fuser.label = label_fun(fusee.label, fuser.label)
+            fuser.label = new_label
 
             new_list = fusee.subset_list + fuser._subset_list
 
-- 
2.43.0


From 4d2f7b2e2a62f17ef1611dad3304c6c31a9819cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:30 +0000
Subject: [PATCH 06/54] fix: SequenceList.append keeps the list sorted when a
 start time is 0

The guard `all(self.starts)` is false as soon as one entry starts at 0, and
the new entry was then put last whatever its time. Ties keep insertion order.
---
 src/aligned_textgrid/sequence_list.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 5cf3b9e..e840fe1 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -201,8 +201,9 @@ class SequenceList(Sequence):
         elif hasattr(value, "time"):
             this_time = value.time
         
-        if len(self.starts) > 0 and all(self.starts):
-            insert_idx = self.starts.searchsorted(this_time)
+        starts = self.starts
+        if this_time is not None and not any(s is None for s in starts):
+            insert_idx = starts.searchsorted(this_time, side = "right")
             self._values.insert(insert_idx, value)
             return
         
-- 
2.43.0


From 62a4347a67adc55e4be4eafd056867f366abfcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:59 +0000
Subject: [PATCH 07/54] fix: PointsGroup.xmax is the time of the last point

It took the maximum of the tiers' xmin.
---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index c2df59b..ca02f32 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -320,7 +320,7 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     @property    
     def xmax(self):
         times = np.array(
-            [t.xmin for t in self.tier_list]
+            [t.xmax for t in self.tier_list]
         )
         return times.max()
     
-- 
2.43.0


From e3d7dbd0e9d16e1e675cd4ee6d9bdb37909d2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:02 +0000
Subject: [PATCH 08/54] fix: points appended to a tier are linked to it and
 survive a rebuild

SequencePointTier.sequence_list was a plain attribute, so append() left the
new point without intier, prev or fol, and building a tier from another tier
used the entries it was first created with, dropping appended points.
---
 src/aligned_textgrid/points/tiers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index ca02f32..a59785d 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -91,7 +91,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             name = tier.name
 
         if isinstance(tier, SequencePointTier):
-            entries = tier.entry_list
+            entries = tier.sequence_list
             if tier.name != tier.entry_class.__name__:
                 name = tier.name
         
@@ -136,6 +136,15 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
     def __repr__(self):
         return f"Sequence Point tier of {self.entry_class.__name__};"
 
+    @property
+    def sequence_list(self)->SequenceList:
+        return self._sequence_list
+    
+    @sequence_list.setter
+    def sequence_list(self, new:Sequence):
+        self._sequence_list = SequenceList(*new)
+        self.__set_precedence()
+
     @property
     def times(self):
         return self.sequence_list.starts
-- 
2.43.0


From a94457340178715ae2fa24108b482bc83c344c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 09/54] fix: concatenating groups keeps entries that equal an
 existing one

An incoming entry with the same times and label as one already there (two
recordings that both open with the same silence, say) was dropped because it
was compared before being shifted; and PointsGroup.concat raised
AttributeError, since points have no super_instance.
---
 src/aligned_textgrid/mixins/tiermixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index a2d4abf..f3f5148 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -297,9 +297,9 @@ class TierGroupMixins:
         increment = self.xmax
         for t1, t2 in zip(self, new):
             for interval in t2:
-                if interval.super_instance is not None:
+                if getattr(interval, "super_instance", None) is not None:
                     continue
-                if interval in t1:
+                if any(interval is existing for existing in t1):
                     continue
                 interval._shift(increment)
                 t1.append(interval)
-- 
2.43.0


From e206ef51f94423c1a0547672f1d86774a6b8ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:09 +0000
Subject: [PATCH 10/54] fix: interleave_class and pop_class refresh the named
 group accessors

atg.<group name> kept returning the group from before the change.
---
 src/aligned_textgrid/aligned_textgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 44706f1..5b3b67f 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -648,6 +648,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for tgr in self.tier_groups:
             tgr.within = self
         self.contains = self.tier_groups
+        self._set_group_names()
 
     def pop_class(
             self, 
@@ -731,6 +732,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for tgr in self.tier_groups:
             tgr.within = self
         self.contains = self.tier_groups            
+        self._set_group_names()
             
     def get_class_by_name(
             self, 
-- 
2.43.0


From 32fa10419d43967b7eda64941940d32b9f16b488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:12 +0000
Subject: [PATCH 11/54] fix: interleave_class refuses timing from a missing
 level before changing anything

It raised IndexError only after the class hierarchy had been rewired.
---
 src/aligned_textgrid/aligned_textgrid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 5b3b67f..1a19f86 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -611,6 +611,11 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 "Must be either 'above' or 'below'."
             )
 
+        if not issubclass(copy_class, SequenceInterval):
+            raise ValueError(
+                f"There is no tier {timing_from} {name} to draw timing from."
+            )
+
         new_class.set_superset_class(up_class)
         new_class.set_subset_class(down_class)
         
-- 
2.43.0


From b895211a6a3547e382aecaace86a65695f851c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:15 +0000
Subject: [PATCH 12/54] fix: return_textgrid picks a suffix that is not taken

Tiers named "Word", "Word_0" and "Word" could not be saved: the generated
name collided and praatio raised.
---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 1a19f86..0c44bfc 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -806,8 +806,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for group in self.tier_groups:
             for tier in group:
                 name = tier.name
-                if name in tier_names:
-                    name = f"{name}_{dup_idx}"
+                while name in tier_names:
+                    name = f"{tier.name}_{dup_idx}"
                     dup_idx += 1 
                 tier_names += [name]
                 out_tg.addTier(tier = tier.return_tier(name))
-- 
2.43.0


From b3640badbded4c27e8ec11fc84c8cd4a67acca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:18 +0000
Subject: [PATCH 13/54] fix: an entry appended to an empty tier gets the tier's
 entry class

SequenceList takes the class of its first entry, so an empty tier of a grid
accepted a Word that did not belong to the grid's own classes and later
hierarchy operations failed on it.
---
 src/aligned_textgrid/mixins/tiermixins.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index f3f5148..818a864 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -106,6 +106,7 @@ class TierMixins:
         if new in self:
             return
         
+        new = self.entry_class._cast(new)
         ## triggers precedence resetting
         self.sequence_list += [new]
         if hasattr(new, "subset_list") \
-- 
2.43.0


From 7690f3b6a17b6c4a8717106b1b16a67ae1606dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:28 +0000
Subject: [PATCH 14/54] fix: a refused concat no longer shifts the other
 group's first entry

TierGroup.concat(group of another AlignedTextGrid) is refused because the
classes belong to different grids, but only after the first incoming interval
had been moved in time inside the grid it belongs to.
---
 src/aligned_textgrid/mixins/tiermixins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 818a864..885c82e 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -295,6 +295,10 @@ class TierGroupMixins:
                 A TierGroup or PointsGroup to append.
         """
         self._class_check(new)
+        for t1, t2 in zip(self, new):
+            if not (issubclass(t1.entry_class, t2.entry_class)
+                    or issubclass(t2.entry_class, t1.entry_class)):
+                raise ValueError("Entry class must match for concatenated tiers.")
         increment = self.xmax
         for t1, t2 in zip(self, new):
             for interval in t2:
-- 
2.43.0


From 2ffa13203e05d5837f6093e23106ff6b99790ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:32 +0000
Subject: [PATCH 15/54] fix: re-relating a PointsGroup keeps its name, as a
 TierGroup does

Appending a point to a tier reset a name the user had given the group.
---
 src/aligned_textgrid/points/tiers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index a59785d..7f88316 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -255,12 +255,17 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     ):
         if tiers is None:
             tiers = [SequencePointTier()]
+        name = None
         if isinstance(tiers, PointsGroup):
+            name = tiers.name
             tiers = [tier for tier in tiers]
         self.tier_list = tiers
         self.contains = self.tier_list
         self._set_tier_names()
-        self._name = self.make_name()
+        if name:
+            self._name = name
+        else:
+            self._name = self.make_name()
 
     def __getitem__(
             self,
-- 
2.43.0


From 3ae8bd92729b167cfde4e63574406b583e4aa0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:35 +0000
Subject: [PATCH 16/54] fix: appending a group to a grid keeps the names of its
 tiers

The tiers were rebuilt from bare entries and renamed after their class.
---
 src/aligned_textgrid/aligned_textgrid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 0c44bfc..447fea6 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -447,8 +447,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self._reclone_classes(tier_group.entry_classes)
         new_classes = self._swap_classes(tier_group.entry_classes, self._cloned_classes)
         for cl, tier in zip(new_classes, tier_group):
-            entries = [cl._cast(i) for i in tier]
-            tier.__init__(entries, entry_class = cl)
+            tier.__init__(tier, entry_class = cl)
         
         tier_group.__init__(tier_group)
      
-- 
2.43.0


From 7cd7aca56e639a205920d9e1626248883434c28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 17/54] fix: a TextGrid with only point tiers can be loaded

cleanup() took the minimum of an empty list of interval tier groups.
---
 src/aligned_textgrid/aligned_textgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 447fea6..79df554 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -472,6 +472,9 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tg.cleanup()
             
             interval_tgs = [tg for tg in self if isinstance(tg, TierGroup)]
+            if len(interval_tgs) < 1:
+                return
+
             tg_starts = np.array([tg.xmin for tg in interval_tgs])
             tg_ends = np.array([tg.xmax for tg in interval_tgs])
 
-- 
2.43.0


From 171c3c943cb2d94ab5dd19729ddc1c17f845fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 18/54] fix: cleanup() pads groups of different extents
 correctly

It compared a group's end with the latest *start*, so it added zero-length
intervals at the end of groups that needed nothing; it built intervals for
point tiers; and the intervals it added were never related to each other.
---
 src/aligned_textgrid/aligned_textgrid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 79df554..59224b3 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -482,7 +482,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
             np.allclose(tg_ends.min(), tg_ends.max()):
                 return
             
-            for tg in self.tier_groups:
+            for tg in interval_tgs:
                 if np.allclose(tg.xmin, tg_starts.min()):
                     continue
 
@@ -496,8 +496,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tier.append(interval, re_relate = False)
 
                 
-            for tg in self.tier_groups:
-                if np.allclose(tg.xmax, tg_starts.max()):
+            for tg in interval_tgs:
+                if np.allclose(tg.xmax, tg_ends.max()):
                     continue
 
                 start = tg.xmax
@@ -509,8 +509,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 for tier, interval in zip(tg, empty_intervals):
                     tier.append(interval, re_relate = False)
             
-            # for tg in self.tier_groups:
-            #     tg.re_relate()
+            for tg in interval_tgs:
+                tg.re_relate()
                 
     def shift(
             self,
-- 
2.43.0


From 8e69c4612582e8efd1c3e77329e763906db1fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:33 +0000
Subject: [PATCH 19/54] fix: appending to an interval inside a group keeps
 precedence within parents

Adding the new entry to its tier linked the whole tier in sequence, so the
last phone of a word got the first phone of the next word as its `fol`.
---
 src/aligned_textgrid/sequences/sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 8d36cc8..f9fce62 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -112,6 +112,10 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             if self.intier and self.intier.within:
                 self_tier_idx = self.intier.within_index
                 self.intier.within[self_tier_idx+1].append(other, re_relate = False)
+                # appending to a tier links its neighbours tier-wise
+                for tier in self.intier.within:
+                    for interval in tier:
+                        interval._set_subset_precedence()
             return
         raise ValueError("Appended SequenceInterval must be the subset class of the original.")
 
-- 
2.43.0


From 2216a859007dbbe43e8753d24ff0a445bacfcb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:36 +0000
Subject: [PATCH 20/54] fix: set_super_instance takes the entry out of its
 previous parent

The old parent kept listing an entry that had been moved to another parent.
---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index f9fce62..818be1d 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -131,6 +131,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if super_instance is None:
             warnings.warn("No superset instance provided")   
         elif isinstance(super_instance, self.superset_class) and not super_instance is self.super_instance:
+            self.remove_superset()
             self.super_instance = super_instance
             self.super_instance.append_subset_list(self)
         else:
-- 
2.43.0


From 890b25fd58c591971fab1e04bafd0e58d2ee4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:39 +0000
Subject: [PATCH 21/54] fix: append_subset_list and set_super_instance set
 `within`

The entry had a super_instance but no `within`, so its path and id were
wrong.
---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 818be1d..bccfc0e 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -184,6 +184,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
                 subset_instance.remove_superset()
             self._subset_list.append(subset_instance)
             self._set_subset_precedence()
+            self._set_within()
             # avoid recursion
             if not self is subset_instance.super_instance:
                 subset_instance.set_super_instance(self)
-- 
2.43.0


From c6fb86b8bd55131864a461182ca217df4f2e5189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:44 +0000
Subject: [PATCH 22/54] fix: pop_class of the top level re-links the tier below
 it

The intervals of the tier that became the top tier kept the precedence
within (and `within` pointers to) the popped intervals.
---
 src/aligned_textgrid/aligned_textgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 59224b3..3847814 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -729,6 +729,9 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 tier.superset_class = tier.entry_class.superset_class
                 tier.subset_class = tier.entry_class.subset_class
             new_tg = TierGroup(keep_tiers)
+            # what is now the top tier has no parents left to
+            # set the precedence of its intervals
+            new_tg[0].sequence_list = new_tg[0].sequence_list
             for seq in new_tg[-1]:
                 seq.subset_list = []
                 seq.contains = []
-- 
2.43.0


From d957e50a8801b24bff6014d82314f6a1af9447e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:35 +0000
Subject: [PATCH 23/54] fix: the distance to a point at time 0 is not None

---
 src/aligned_textgrid/points/points.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 83e6f96..6a81b46 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -139,10 +139,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
 
     @property
     def fol_distance(self):
-        if self.fol and self.fol.time:
+        if self.fol and self.fol.time is not None:
             return self.fol.time - self.time
         
-        if self.fol and not self.fol.time:
+        if self.fol and self.fol.time is None:
             warnings.warn("Final point")
             return None
 
@@ -152,10 +152,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
         
     @property
     def prev_distance(self):
-        if self.prev and self.prev.time:
+        if self.prev and self.prev.time is not None:
             return self.prev.time - self.time
         
-        if self.prev and not self.prev.time:
+        if self.prev and self.prev.time is None:
             warnings.warn("initial point")
             return None
 
-- 
2.43.0


From b28dc7b570f7659fecdf5737cd8ced30279bbc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 24/54] fix: get_interval_at_point returns None where there is
 no interval

A point at the end of a tier, or outside of it, raised TypeError.
---
 src/aligned_textgrid/points/points.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 6a81b46..278e8b7 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -222,7 +222,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
                 The SequenceInterval within which the current point falls
         """
         if tier and isinstance(tier, SequenceTier):
-            return tier[self.get_interval_index_at_time(tier)]
+            int_idx = self.get_interval_index_at_time(tier)
+            if int_idx is None:
+                return None
+            return tier[int_idx]
 
     
 SequencePoint._set_seq_type(SequencePoint)
\ No newline at end of file
-- 
2.43.0


From d50884633fc476dbc83a56814cbd459472c9549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:45 +0000
Subject: [PATCH 25/54] fix: PointsGroup has tier_names, as TierGroup does

AlignedTextGrid.tier_names raised AttributeError on a grid with points.
---
 src/aligned_textgrid/points/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 7f88316..7fb0117 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -324,6 +324,10 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     def entry_classes(self):
         return [x.entry_class for x in self.tier_list]
     
+    @property
+    def tier_names(self)->list[str]:
+        return [x.name for x in self.tier_list]
+    
     @property
     def xmin(self):
         times = np.array(
-- 
2.43.0


From 880a32c0d2d4337aa5a8d6e5e0bb65bc11f2e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:48 +0000
Subject: [PATCH 26/54] fix: setting the same super_instance again is not an
 error

The exception claimed that the class of the instance was wrong.
---
 src/aligned_textgrid/sequences/sequences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index bccfc0e..b35a835 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -130,6 +130,8 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
 
         if super_instance is None:
             warnings.warn("No superset instance provided")   
+        elif super_instance is self.super_instance:
+            return
         elif isinstance(super_instance, self.superset_class) and not super_instance is self.super_instance:
             self.remove_superset()
             self.super_instance = super_instance
-- 
2.43.0


From 4b32cd2637933c218798ba16a2d39916b2e65109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:56 +0000
Subject: [PATCH 27/54] fix: entry classes can be given as tuples, as
 documented

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 3847814..4878048 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -187,7 +187,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         flat_classes = entry_classes
 
-        if type(entry_classes[0]) is list:
+        if type(entry_classes[0]) in [list, tuple]:
             flat_classes = [c for tg in entry_classes for c in tg]
         
         unique_classes = list(set(flat_classes))
@@ -324,7 +324,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self._reclone_classes(entry_classes)
         # This check seems overly cautious, since 
         # _nestify_tiers should always return a list of lists.
-        if type(entry_classes[0]) is list:
+        if type(entry_classes[0]) in [list, tuple]:
             entry_classes = [self._swap_classes(ecs, self._cloned_classes) for ecs in entry_classes]
         else:
             entry_classes = self._swap_classes(entry_classes, self._cloned_classes)
-- 
2.43.0


From 2f05067f371dcf7a994af091227b8cdc6baf5cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:59 +0000
Subject: [PATCH 28/54] fix: custom_classes returns the classes in the order
 named by return_order

---
 src/aligned_textgrid/custom_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 1669264..48af75d 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -146,7 +146,7 @@ def custom_classes(
         if type(return_order[0]) is int:
             return_list = [class_out_list[idx] for idx in return_order]
         elif type(return_order[0]) is str:
-            return_idx = [return_order.index(x) for x in class_list]
+            return_idx = [class_list.index(x) for x in return_order]
             return_list = [class_out_list[idx] for idx in return_idx] 
         return return_list
 
-- 
2.43.0


From 0aec3afc6be3cdc99e0eb25e3b6a3753130f58aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:55 +0000
Subject: [PATCH 29/54] fix: blank intervals that fill gaps are linked to their
 neighbours and their tier

---
 src/aligned_textgrid/sequences/tiers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index c1954be..1cbd6f4 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -247,6 +247,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         for s,e in zip(new_starts, new_ends):
             new = self.entry_class((s, e, ""))
             self.sequence_list.append(new)
+        self.__set_precedence()
 
         if issubclass(self.subset_class, Bottom):
             if self.within:
-- 
2.43.0


From d2af6cc0e6f3d76d20d8aff2d0d36ad7f398321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:24 +0000
Subject: [PATCH 30/54] fix: adding a second interval to an interval with + no
 longer drops the first

---
 src/aligned_textgrid/sequences/sequences.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index b35a835..75819d8 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -98,9 +98,16 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         self_copy.__dict__ = self.__dict__
 
         if issubclass(self.entry_class, other.superset_class):
+            # the existing subset list now belongs to the copy
+            for element in self_copy.subset_list:
+                element.super_instance = self_copy
+                element.within = self_copy
             self_copy.subset_list += [other]
             return self_copy
         if issubclass(self.entry_class, other.subset_class):
+            for element in self_copy.subset_list:
+                element.super_instance = self_copy
+                element.within = self_copy
             other.subset_list += [self_copy]
             return self_copy
         
-- 
2.43.0


From 73f03e443f47931ee712e8ab489813546405972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:41 +0000
Subject: [PATCH 31/54] fix: blank intervals that close gaps when tiers are
 related are in the tier too

---
 src/aligned_textgrid/sequences/tiers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 1cbd6f4..d70ae25 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -471,9 +471,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                         new_starts = boundaries[:-1][~np.isin(boundaries[:-1], lowers.starts)]
                         new_ends = boundaries[1:][~np.isin(boundaries[1:], lowers.ends)]
                         for s, e in zip(new_starts, new_ends):
-                            lowers.append(
-                                lowers[0].entry_class((s, e, ""))
-                            )
+                            new = lowers[0].entry_class((s, e, ""))
+                            lowers.append(new)
+                            lower_tier.append(new, re_relate = False)
 
                 u_durs = np.array([
                     u.end - u.start
-- 
2.43.0


From 369ba9db4e06812ef5f781a27b7981df0fb412fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:04 +0000
Subject: [PATCH 32/54] fix: a group without the lowest levels of its hierarchy
 contains its tiers

_arrange_tiers() returned before setting `contains` when a subset class had no
tier (e.g. entry_classes = [[Word, Phone], [Word]]), so that tier had no group,
and its entries had paths and ids that were not unique.
---
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index d70ae25..a00e3c8 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -571,7 +571,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 try:
                     next_idx = [x.entry_class for x in tiers].index(curr.subset_class)
                 except ValueError:
-                    return top_to_bottom
+                    break
                 
                 top_to_bottom.append(tiers[next_idx])
         self.contains = top_to_bottom
-- 
2.43.0


From 341b25fb32cfc3d975df57694d02f335af0d9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:35 +0000
Subject: [PATCH 33/54] fix: cleanup of a group without the lowest levels of
 its hierarchy

Filling gaps in the last tier of such a group looked for a tier below it and
raised IndexError.
---
 src/aligned_textgrid/sequences/sequences.py | 5 +++++
 src/aligned_textgrid/sequences/tiers.py     | 7 +++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 75819d8..b940383 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -544,6 +544,11 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         # If at Bottom, don't build down
         if issubclass(self.subset_class, Bottom):
             return
+
+        # Neither if the group has no tier below
+        group = self.intier.within if self.intier else None
+        if group and self.intier is group[-1]:
+            return
         
         # If empty subset list,
         # create co-terminous interval and append.
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index a00e3c8..64b4cc3 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -249,10 +249,9 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
             self.sequence_list.append(new)
         self.__set_precedence()
 
-        if issubclass(self.subset_class, Bottom):
-            if self.within:
-                self.within.re_relate()
-                return
+        if self.within and self is self.within.tier_list[-1]:
+            self.within.re_relate()
+            return
         
         if self.within:
             next_tier = self.within[self.within_index+1]
-- 
2.43.0


From 3892c58a5aa20c23de1d3c0af3e878ef488467c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:40 +0000
Subject: [PATCH 34/54] fix: level changes reach the tiers of groups that lack
 the level

When a level is added or removed next to a level that a group has, but the
group lacks the level itself, the group's tiers kept the old superset and
subset class.
---
 src/aligned_textgrid/aligned_textgrid.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 4878048..56a0204 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -626,6 +626,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for tg in self.tier_groups:
             if not specified_class in tg.entry_classes:
                 new_tiergoups.append(tg)
+                self._refresh_tier_classes(tg)
             else:
                 copy_tier = [tier for tier in tg if tier.entry_class is copy_class][0]
                 new_tier = SequenceTier(
@@ -740,10 +741,28 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         self.tier_groups = new_tier_groups
         for tgr in self.tier_groups:
+            self._refresh_tier_classes(tgr)
             tgr.within = self
         self.contains = self.tier_groups            
         self._set_group_names()
             
+    def _refresh_tier_classes(
+            self,
+            tier_group: TierGroup|PointsGroup
+        ):
+        """Update the superset and subset class of the tiers in a group
+        after the entry classes have changed.
+
+        Args:
+            tier_group (TierGroup | PointsGroup): The group
+        """
+        if isinstance(tier_group, PointsGroup):
+            return
+
+        for tier in tier_group:
+            tier.superset_class = tier.entry_class.superset_class
+            tier.subset_class = tier.entry_class.subset_class
+
     def get_class_by_name(
             self, 
             class_name: str
-- 
2.43.0


From 863d83a3a58d3c2a55ae2a28552da3a2ff4bfa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:44 +0000
Subject: [PATCH 35/54] fix: interleave_class refuses timing from a level that
 a group lacks

It raised IndexError after the class hierarchy had been changed.
---
 src/aligned_textgrid/aligned_textgrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 56a0204..1fb0df8 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -613,7 +613,11 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 "Must be either 'above' or 'below'."
             )
 
-        if not issubclass(copy_class, SequenceInterval):
+        if not issubclass(copy_class, SequenceInterval) or any(
+            copy_class not in tg.entry_classes
+            for tg in self.tier_groups
+            if specified_class in tg.entry_classes
+        ):
             raise ValueError(
                 f"There is no tier {timing_from} {name} to draw timing from."
             )
-- 
2.43.0


From 73a0085862fcb4ee52298ea9e14d2b9caf66a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:42 +0000
Subject: [PATCH 36/54] fix: get_tierwise() before the start of a tier raises
 IndexError

As documented. A negative index was taken from the end of the tier, so that
the entry before the first one was the last one.
---
 src/aligned_textgrid/mixins/mixins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/mixins.py b/src/aligned_textgrid/mixins/mixins.py
index 8e03039..bf16dc7 100644
--- a/src/aligned_textgrid/mixins/mixins.py
+++ b/src/aligned_textgrid/mixins/mixins.py
@@ -178,7 +178,10 @@ class InTierMixins:
             (SequenceInterval|SequencePoint): The entry at the relative index
         """
         if not self.intier is None:
-            return self.intier[self.tier_index + idx]
+            new_idx = self.tier_index + idx
+            if new_idx < 0:
+                raise IndexError("Relative tier index out of range.")
+            return self.intier[new_idx]
         else:
             return None
         
-- 
2.43.0


From cb68528429b19359905d8b2f745411214d90121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:29 +0000
Subject: [PATCH 37/54] fix: a tier that a group refuses keeps its classes

TierGroup.append() cast the entries of the new tier to the classes of the grid
before checking whether the tier fits.
---
 src/aligned_textgrid/mixins/tiermixins.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 885c82e..d757e6c 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -234,11 +234,15 @@ class TierGroupMixins:
                 f"can be appended to a {self.__class__.__name__}"
             ))
         
+        # `new` itself is only changed once it is clear that it fits
+        new_class = new.entry_class
         if self.within:
-            self.within._reclone_classes([new.entry_class])
-            new_class, = self.within._swap_classes([new.entry_class], self.within._cloned_classes)
-            new.__init__(new, entry_class=new_class)
-        
+            new_class = next(
+                (cl for cl in self.within._cloned_classes
+                 if cl.__name__ == new_class.__name__),
+                new_class
+            )
+
         possible_set = {SequenceBaseClass}
         existing_set = set()
         if len(self) > 0:
@@ -253,7 +257,7 @@ class TierGroupMixins:
             existing_set = {tier.entry_class for tier in self}
 
         existing_matches = [
-            issubclass(cl, new.entry_class) or issubclass(new.entry_class, cl)
+            issubclass(cl, new_class) or issubclass(new_class, cl)
             for cl in existing_set
         ]
 
@@ -264,7 +268,7 @@ class TierGroupMixins:
             ))
 
         possible_matches = [
-            issubclass(cl, new.entry_class) or issubclass(new.entry_class, cl)
+            issubclass(cl, new_class) or issubclass(new_class, cl)
             for cl in possible_set
         ]
 
@@ -274,6 +278,11 @@ class TierGroupMixins:
                 "does not fit into the sequence hierarchy."
             ))
 
+        if self.within:
+            self.within._reclone_classes([new.entry_class])
+            new_class, = self.within._swap_classes([new.entry_class], self.within._cloned_classes)
+            new.__init__(new, entry_class=new_class)
+
         orig_tiers = self.tier_list
         orig_tiers += [new]
 
-- 
2.43.0


From 2a3c30f95c1feab2956d4e4639cb1097156be099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:03 +0000
Subject: [PATCH 38/54] fix: get_class_hierarchy() starts from an empty list on
 every call

---
 src/aligned_textgrid/custom_classes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 48af75d..f45fc50 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -207,7 +207,7 @@ def clone_class(
 
 def get_class_hierarchy(
         entry_class:SequenceInterval, 
-        out_list = []
+        out_list = None
     )->list[SequenceInterval]:
     """Given a SequenceInterval, this will return
     the entire class hierarchy
@@ -217,12 +217,15 @@ def get_class_hierarchy(
             Entry class to search the hierarchy for
         out_list (list, optional): 
             Used internally for recursive search.
-            Defaults to [].
+            Defaults to None.
 
     Returns:
         (list[SequenceInterval]):
             The class hierarchy
     """
+    if out_list is None:
+        out_list = []
+
     if (not issubclass(entry_class.superset_class, Top)) \
        and entry_class.superset_class not in out_list:
         out_list = get_class_hierarchy(entry_class.superset_class, out_list)
-- 
2.43.0


From ea1d6292c9c18197fd95ecc497c667d3ef0edcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 39/54] fix: intervals below a gap are not attached to a
 distant superset interval

---
 src/aligned_textgrid/sequences/tiers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 64b4cc3..8ece34d 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -420,6 +420,10 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 # get the index of the upper interval
                 # it has the most overlap with.
                 upper_container = overlaps.argmax(axis = 1)
+                # Lower intervals that overlap with none
+                # belong to none.
+                has_container = max_overlaps > 0
+                upper_container[~has_container] = -1
                 lower_idx = np.arange(len(lower_tier))
 
                 _starts = np.array([
@@ -439,7 +443,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 starts = np.ma.masked_array(_starts, _starts < 0)
                 ends = np.ma.masked_array(_ends, _ends < 0)
                 
-                mismatches = lower_durations - max_overlaps
+                mismatches = (lower_durations - max_overlaps)[has_container]
                 any_mismatch = bool(np.any(mismatches > 0))
 
                 # any_mismatch = bool(np.any(start_match > 0))
-- 
2.43.0


From 94da42e84926bd29cbffd4852ea63cb25a7a50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:08 +0000
Subject: [PATCH 40/54] fix: boundaries moved on a lower tier move on all tiers
 above it

---
 src/aligned_textgrid/sequences/tiers.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 8ece34d..57ef142 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -502,10 +502,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     if any_mismatch and not delay_cleanup:
                         s_start = np.array([u.start, u.first.start]).max()
                         s_end = np.array([u.end, u.last.end]).min()
-                        u.start = s_start
                         u.first.start = s_start
-                        u.end = s_end
                         u.last.end = s_end
+                        self._fit_up(u, s_start, s_end)
                     
                     if squish and not delay_cleanup:
                         u.cleanup()
@@ -596,6 +595,22 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     def xmax(self)->float:
         return np.array([tier.xmax for tier in self.tier_list]).max()
     
+    def _fit_up(self, interval:SequenceInterval, start:float, end:float)->None:
+        """
+        Set the times of an interval, and of the superset
+        intervals that start or end with it
+        """
+        interval.start = start
+        interval.end = end
+        up = interval.super_instance
+        if up is None:
+            return
+        self._fit_up(
+            up,
+            start if up.first is interval else up.start,
+            end if up.last is interval else up.end
+        )
+
     def _project_up(self, interval:SequenceInterval)->None:
         """
         Copy super instance up
-- 
2.43.0


From 001710957cc89a8c0774abee1f9fcdec237ac85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:26 +0000
Subject: [PATCH 41/54] fix: a lower tier stays in time order when its
 boundaries are moved

---
 src/aligned_textgrid/sequences/tiers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 57ef142..ef611ca 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -508,6 +508,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     
                     if squish and not delay_cleanup:
                         u.cleanup()
+
+                # The boundaries may have moved
+                lower_tier.sequence_list._sort()
     
     def __getitem__(
             self,
-- 
2.43.0


From 4bab8c2446610fa9a624472f33e6c4d468b3a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:54 +0000
Subject: [PATCH 42/54] fix: late turning points and levels are paired by time,
 not by proximity

np.allclose() compares relative to the size of the numbers: one hour into a
recording, times 30 ms apart counted as the same.
---
 src/aligned_textgrid/polar/polar_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/polar/polar_classes.py b/src/aligned_textgrid/polar/polar_classes.py
index dcbdad3..6032d46 100644
--- a/src/aligned_textgrid/polar/polar_classes.py
+++ b/src/aligned_textgrid/polar/polar_classes.py
@@ -73,7 +73,7 @@ class TurningPoints(SequencePoint):
         if self.level is instance:
             return
         
-        if np.allclose(self.time, instance.time):
+        if np.allclose(self.time, instance.time, rtol = 0, atol = 1e-6):
             self.level = instance
 
             instance.set_turning_point(self.intier)
@@ -171,7 +171,7 @@ class Levels(SequencePoint):
         if self.turning_point is instance:
             return
 
-        if np.allclose(self.time, instance.time):
+        if np.allclose(self.time, instance.time, rtol = 0, atol = 1e-6):
             self.turning_point = instance
 
             instance.set_level(self.intier)
-- 
2.43.0


From 7fcef30227b848a49fbd8db69a6dd1fcdbd4fdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:58 +0000
Subject: [PATCH 43/54] fix: gaps are found at any time in a recording

np.allclose() compares relative to the size of the numbers: one hour into a
recording, gaps and misfits of up to 36 ms were not seen, so that loading and
cleaning up left them open and validate() accepted them.
---
 src/aligned_textgrid/aligned_textgrid.py    |  8 ++++----
 src/aligned_textgrid/sequences/sequences.py | 12 ++++++------
 src/aligned_textgrid/sequences/tiers.py     |  8 ++++----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 1fb0df8..be63d1f 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -478,12 +478,12 @@ class AlignedTextGrid(Sequence, WithinMixins):
             tg_starts = np.array([tg.xmin for tg in interval_tgs])
             tg_ends = np.array([tg.xmax for tg in interval_tgs])
 
-            if np.allclose(tg_starts.min(), tg_starts.max()) and \
-            np.allclose(tg_ends.min(), tg_ends.max()):
+            if np.allclose(tg_starts.min(), tg_starts.max(), rtol = 0, atol = 1e-6) and \
+            np.allclose(tg_ends.min(), tg_ends.max(), rtol = 0, atol = 1e-6):
                 return
             
             for tg in interval_tgs:
-                if np.allclose(tg.xmin, tg_starts.min()):
+                if np.allclose(tg.xmin, tg_starts.min(), rtol = 0, atol = 1e-6):
                     continue
 
                 start = tg_starts.min()
@@ -497,7 +497,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
 
                 
             for tg in interval_tgs:
-                if np.allclose(tg.xmax, tg_ends.max()):
+                if np.allclose(tg.xmax, tg_ends.max(), rtol = 0, atol = 1e-6):
                     continue
 
                 start = tg.xmax
diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index b940383..4717e46 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -281,7 +281,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if self.start is None:
             return True
 
-        if not np.allclose(self.start, self.sub_starts[0]):
+        if not np.allclose(self.start, self.sub_starts[0], rtol = 0, atol = 1e-6):
             if self.start < self.sub_starts[0]:
                 validation_concerns.append(
                     "First subset interval starts after current interval"
@@ -290,7 +290,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
                 validation_concerns.append(
                     "First subset interval starts before current interval"
                 )
-        if not np.allclose(self.end, self.sub_ends[-1]):
+        if not np.allclose(self.end, self.sub_ends[-1], rtol = 0, atol = 1e-6):
             if self.end > self.sub_ends[-1]:
                 validation_concerns.append(
                     "Last subset interval ends before current interval"
@@ -299,7 +299,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
                 validation_concerns.append(
                     "Last subset interval ends after current interval"
                 )
-        if not np.allclose(self.sub_starts[1:], self.sub_ends[:-1]):
+        if not np.allclose(self.sub_starts[1:], self.sub_ends[:-1], rtol = 0, atol = 1e-6):
             validation_concerns.append(
                 "Not all subintervals fit snugly"
             )
@@ -571,11 +571,11 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         
         to_add = SequenceList()
 
-        if not np.allclose(self.start, self.first.start):
+        if not np.allclose(self.start, self.first.start, rtol = 0, atol = 1e-6):
             new_interval = self.subset_class((self.start, self.first.start, ""))
             to_add += [new_interval]
         
-        if not np.allclose(self.end, self.last.end):
+        if not np.allclose(self.end, self.last.end, rtol = 0, atol = 1e-6):
             new_interval = self.subset_class((self.last.end, self.end, ""))
             to_add += [new_interval]
 
@@ -583,7 +583,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
             if idx + 1 == len(self):
                 break
 
-            if not np.allclose(interval.end, self[idx+1].start):
+            if not np.allclose(interval.end, self[idx+1].start, rtol = 0, atol = 1e-6):
                 new_interval = self.subset_class((interval.end,self[idx+1].start, ""))
                 to_add += [new_interval]
             
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index ef611ca..b5773f9 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -238,7 +238,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         Insert empty intervals where there are gaps in the existing tier.
         """            
-        if np.allclose(self.starts[1:], self.ends[:-1]):
+        if np.allclose(self.starts[1:], self.ends[:-1], rtol = 0, atol = 1e-6):
             return
         
         boundaries = np.unique(np.concatenate([self.starts, self.ends]))
@@ -469,7 +469,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
 
                 # Close internal gaps
                 for lowers in lower_sequences:
-                    if not np.allclose(lowers.starts[1:], lowers.ends[:1]):
+                    if not np.allclose(lowers.starts[1:], lowers.ends[:-1], rtol = 0, atol = 1e-6):
                         boundaries = np.unique(np.concat([lowers.starts, lowers.ends]))
                         new_starts = boundaries[:-1][~np.isin(boundaries[:-1], lowers.starts)]
                         new_ends = boundaries[1:][~np.isin(boundaries[1:], lowers.ends)]
@@ -488,7 +488,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     for l in lower_sequences
                 ])
 
-                squish = not np.allclose(u_durs, l_durs)
+                squish = not np.allclose(u_durs, l_durs, rtol = 0, atol = 1e-6)
 
                 for u,l in zip(upper_tier, lower_sequences):
                     u.set_subset_list(l)
@@ -645,7 +645,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
             ends = tier.ends
 
             if not np.allclose(
-                starts[1:], ends[:-1]
+                starts[1:], ends[:-1], rtol = 0, atol = 1e-6
             ):
                 not_tight = True
 
-- 
2.43.0


From f2b7fad16ceba3f72691c36363df3d9387f776a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:29 +0000
Subject: [PATCH 44/54] fix: a list of entries follows the class of its entries

A subtree made with the caller's classes and appended to an entry of a grid had its
entries re-cast to the grid's classes, but its subset lists went on casting what was
added to them to the caller's classes.
---
 src/aligned_textgrid/sequence_list.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index e840fe1..91e0e13 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -46,6 +46,17 @@ class SequenceList(Sequence):
         self._values += args
         self._sort()
 
+    @property
+    def entry_class(self)->type[SeqVar]|None:
+        # entries can be re-cast while they are in the list
+        if len(self._values) > 0:
+            self._entry_class = self._values[0].entry_class
+        return self._entry_class
+
+    @entry_class.setter
+    def entry_class(self, entry_class:type[SeqVar]|None)->None:
+        self._entry_class = entry_class
+
     def __getitem__(self:Sequence[SeqVar], idx:int)->SeqVar:
         return self._values[idx]
     
-- 
2.43.0


From 3aaef161d43c2f27cc7ed2f2d0c3cf391946ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:08 +0000
Subject: [PATCH 45/54] fix: entries beyond all tiers above are given parents
 on every level

---
 src/aligned_textgrid/sequences/tiers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index b5773f9..f2209f1 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -632,6 +632,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
         ))
 
         up_tier.append(new_interval, re_relate = False)
+        self._project_up(new_interval)
         
     def cleanup(self) -> None:
         """
-- 
2.43.0


From 3e23e20c6979ad1e055734ee2ef4e729142c3283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:58 +0000
Subject: [PATCH 46/54] fix: groups can be appended after a level was
 interleaved

---
 src/aligned_textgrid/aligned_textgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index be63d1f..11cb227 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -624,6 +624,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
 
         new_class.set_superset_class(up_class)
         new_class.set_subset_class(down_class)
+        self._cloned_classes.append(new_class)
         
         new_tiergoups = []
 
@@ -743,6 +744,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
             new_tg.name = tg.name
             new_tier_groups.append(new_tg)
         
+        self._cloned_classes = [c for c in self._cloned_classes if c.__name__ != name]
         self.tier_groups = new_tier_groups
         for tgr in self.tier_groups:
             self._refresh_tier_classes(tgr)
-- 
2.43.0


From 309f299acc34e80e32d5df5aad4ba856e10524d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:34 +0000
Subject: [PATCH 47/54] fix: a group that gets a tier keeps its given name and
 stays reachable by name

---
 src/aligned_textgrid/mixins/tiermixins.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index d757e6c..bbcfd7c 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -283,13 +283,20 @@ class TierGroupMixins:
             new_class, = self.within._swap_classes([new.entry_class], self.within._cloned_classes)
             new.__init__(new, entry_class=new_class)
 
+        # a name that was given stays, one made from the tier names is remade
+        name = self.name
+        name_given = name != self.make_name()
+
         orig_tiers = self.tier_list
         orig_tiers += [new]
 
         self.__init__(orig_tiers)
-        
 
-        pass
+        if name_given:
+            self.name = name
+
+        if self.within:
+            self.within._set_group_names()
 
     def concat(self:TierGroupType, new:TierType):
         """Horizontally concatenate a tier group.
-- 
2.43.0


From 06299d934e915aa2042a8055591c78fc02b4d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 48/54] fix: entries of a group without the highest tiers are
 linked to their tier

The entries of a tier with no tier above had no container, and so no path and
no id, unless the tier's class was the top of the whole class hierarchy, as in
[[Word, Phone], [Phone]]. Popping or fusing them left the neighbours linked to
the removed entry.
---
 src/aligned_textgrid/sequences/tiers.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index f2209f1..221f3bc 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -146,9 +146,18 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
                 seq.set_final()
             else:
                 seq.set_fol(self._sequence_list[idx+1])
-        if issubclass(self.superset_class, Top):
+        if self.__is_top():
             self.contains = self._sequence_list
 
+    def __is_top(self)->bool:
+        """
+        Whether there is no tier above this one. The group may 
+        lack the highest tiers of the hierarchy.
+        """
+        if self.within:
+            return self is self.within[0]
+        return issubclass(self.superset_class, Top)
+
     def __set_intier(
             self,
             entry:SequenceInterval
@@ -171,7 +180,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
-            if issubclass(self.superset_class, Top):
+            if self.__is_top():
                 self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
@@ -391,6 +400,12 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 if hasattr(entry, "super_instance"):
                     
                     entry.remove_superset()
+
+        top_tier = self.tier_list[0]
+        if not issubclass(top_tier.superset_class, Top):
+            # a group without the highest tiers of the hierarchy
+            top_tier.sequence_list = top_tier.sequence_list
+
         #self.entry_classes = [x.__class__ for x in self.tier_list]
         for tidx, tier in enumerate(self.tier_list):
             if tidx == len(self.tier_list)-1:
-- 
2.43.0


From 25dcc39ff9bf97f425bfa5c6fc110eda563b4755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:13 +0000
Subject: [PATCH 49/54] fix: a sequence list can be added to after concat,
 which shifts nothing that it refuses

---
 src/aligned_textgrid/sequence_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 91e0e13..48fe4c1 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -233,6 +233,9 @@ class SequenceList(Sequence):
                 SequenceIntervals or SequencePoints
         """
         intervals = SequenceList(*intervals)
+        # nothing is shifted that can't be added
+        if len(intervals) > 0:
+            self._entry_class_checker(intervals[0])
 
         increment = 0
         if len(self.ends) > 0:
@@ -241,7 +244,7 @@ class SequenceList(Sequence):
         intervals._shift(increment)          
         
         new_values = self + intervals
-        self._values = new_values
+        self._values = list(new_values)
 
        
     def remove(self:Sequence[SeqVar], x:SeqVar)->None:
-- 
2.43.0


From 9b5fb8f9efb8da0536ed0d87d2ce5248c8fb0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:17 +0000
Subject: [PATCH 50/54] fix: taking an entry out of a tier that is in no group
 links its neighbours

---
 src/aligned_textgrid/sequences/tiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 221f3bc..01cde12 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -180,7 +180,8 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
-            if self.__is_top():
+            # without a tier above, there is no parent to do it
+            if self.__is_top() or not self.within:
                 self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
-- 
2.43.0


From 93ce5e5a0685944f0ce57af4f01335fdbb87bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:23 +0000
Subject: [PATCH 51/54] fix: fusing entries that are in no tier links their
 neighbours

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 4717e46..1f163f0 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -619,7 +619,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
                 if fuser.intier:
                     fuser.intier.pop(fusee)
                 if fuser.super_instance and fusee in fuser.super_instance:
-                    fuser.super_instance.subset_list.remove(fusee)                    
+                    fuser.super_instance.remove_from_subset_list(fusee)
         else:
             raise Exception("Cannot fuse rightwards at right edge")
         
@@ -651,7 +651,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
                 if fuser.intier:
                     fuser.intier.pop(fusee)
                 if fuser.super_instance and fusee in fuser.super_instance:
-                    fuser.super_instance.subset_list.remove(fusee)                    
+                    fuser.super_instance.remove_from_subset_list(fusee)
         else:
             raise Exception("Cannot fuse leftwards at right edge")
         
-- 
2.43.0


From dd5ddb0d3040221d5aeaccf69eef29186757a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 52/54] fix: a grid with an empty tier has times, lookups and
 data frames, and can be saved

---
 src/aligned_textgrid/aligned_textgrid.py     | 21 +++++++++++++++----
 src/aligned_textgrid/mixins/tiermixins.py    | 14 +++++++++++++
 src/aligned_textgrid/outputs/to_dataframe.py |  6 +++++-
 src/aligned_textgrid/points/tiers.py         | 22 ++++++++++++--------
 src/aligned_textgrid/sequences/tiers.py      | 12 ++++++++---
 5 files changed, 58 insertions(+), 17 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 11cb227..5381dad 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -395,13 +395,13 @@ class AlignedTextGrid(Sequence, WithinMixins):
     def xmin(self)->np.array:
         if len(self) == 0:
             raise ValueError('No minimum time for empty TextGrid.')
-        return np.array([tgroup.xmin for tgroup in self.tier_groups]).min()
+        return min([tgroup.xmin for tgroup in self.tier_groups if tgroup.xmin is not None], default = None)
 
     @property
     def xmax(self)->np.array:
         if len(self) == 0:
             raise ValueError('No maximum time for empty TextGrid.')
-        return np.array([tgroup.xmax for tgroup in self.tier_groups]).max()
+        return max([tgroup.xmax for tgroup in self.tier_groups if tgroup.xmax is not None], default = None)
     
     def append(self, tier_group:TierGroup):
         """Append a new TierGroup to an existing 
@@ -475,8 +475,21 @@ class AlignedTextGrid(Sequence, WithinMixins):
             if len(interval_tgs) < 1:
                 return
 
-            tg_starts = np.array([tg.xmin for tg in interval_tgs])
-            tg_ends = np.array([tg.xmax for tg in interval_tgs])
+            has_times = [tg for tg in interval_tgs if tg.xmin is not None]
+            if len(has_times) < 1:
+                return
+
+            tg_starts = np.array([tg.xmin for tg in has_times])
+            tg_ends = np.array([tg.xmax for tg in has_times])
+
+            for tg in interval_tgs:
+                if tg.xmin is None:
+                    for tier in tg:
+                        tier.append(
+                            tier.entry_class((tg_starts.min(), tg_ends.max(), "")),
+                            re_relate = False
+                        )
+                    tg.re_relate()
 
             if np.allclose(tg_starts.min(), tg_starts.max(), rtol = 0, atol = 1e-6) and \
             np.allclose(tg_ends.min(), tg_ends.max(), rtol = 0, atol = 1e-6):
diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index bbcfd7c..7bb917d 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -148,6 +148,18 @@ class TierMixins:
 
         self.sequence_list = lhs
 
+    def _get_time_range(self:TierType)->tuple[float, float]:
+        """
+        The times this tier covers. A tier without entries covers
+        what the TierGroup or AlignedTextGrid it is in does.
+        """
+        outer = self
+        while outer is not None:
+            if outer.xmin is not None:
+                return outer.xmin, outer.xmax
+            outer = outer.within
+        return 0, 0
+
     @property
     def first(self) -> 'SequenceInterval|SequencePoint':
         if hasattr(self, "sequence_list") and len(self.sequence_list) > 0:
@@ -316,6 +328,8 @@ class TierGroupMixins:
                     or issubclass(t2.entry_class, t1.entry_class)):
                 raise ValueError("Entry class must match for concatenated tiers.")
         increment = self.xmax
+        if increment is None:
+            increment = 0
         for t1, t2 in zip(self, new):
             for interval in t2:
                 if getattr(interval, "super_instance", None) is not None:
diff --git a/src/aligned_textgrid/outputs/to_dataframe.py b/src/aligned_textgrid/outputs/to_dataframe.py
index a678a94..7ea0354 100644
--- a/src/aligned_textgrid/outputs/to_dataframe.py
+++ b/src/aligned_textgrid/outputs/to_dataframe.py
@@ -73,6 +73,10 @@ def tier_to_df(
         sequence_to_df(x, with_subset) for x in obj
     ]
 
+    # a tier without entries has no rows
+    if len(all_interval_dfs) < 1:
+        return pl.DataFrame()
+
     out_df = pl.concat(all_interval_dfs, how="diagonal")
     return out_df
 
@@ -90,7 +94,7 @@ def tiergroup_to_df(
         ]
         out_df = pl.concat(all_df, how = "diagonal")
 
-    if hasattr(obj, "name"):
+    if hasattr(obj, "name") and len(out_df) > 0:
        out_df = out_df.with_columns(
             name=pl.lit(obj.name)
         )
diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 7fb0117..a7b395f 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -193,6 +193,8 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         Returns:
             (int): The index of the nearest point within the tier
         """
+        if len(self) < 1:
+            return None
         out_idx = np.abs(self.times-time).argmin()
         return out_idx
     
@@ -209,6 +211,8 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             (SequencePoint): the nearest point to `time`
         """
         out_idx = self.get_nearest_point_index(time)
+        if out_idx is None:
+            return None
         return self.sequence_list[out_idx]
 
     def return_tier(self, name:str|None = None) -> PointTier:
@@ -220,7 +224,13 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         if name is None:
             name = self.name
         all_points = [entry.return_point() for entry in self.sequence_list]
-        point_tier = PointTier(name = name, entries=all_points)
+        min_time, max_time = self._get_time_range()
+        point_tier = PointTier(
+            name = name,
+            entries=all_points,
+            minT = min_time,
+            maxT = max_time
+        )
         return(point_tier)
     
     def save_as_tg(
@@ -330,17 +340,11 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     
     @property
     def xmin(self):
-        times = np.array(
-            [t.xmin for t in self.tier_list]
-        )
-        return times.min()
+        return min([t.xmin for t in self.tier_list if t.xmin is not None], default = None)
 
     @property    
     def xmax(self):
-        times = np.array(
-            [t.xmax for t in self.tier_list]
-        )
-        return times.max()
+        return max([t.xmax for t in self.tier_list if t.xmax is not None], default = None)
     
     def __repr__(self):
         n_tiers = len(self.tier_list)
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 01cde12..f417294 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -329,7 +329,13 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         if name is None:
             name = self.name
         all_intervals = [entry.return_interval() for entry in self.sequence_list]
-        interval_tier = IntervalTier(name = name, entries = all_intervals)
+        min_time, max_time = self._get_time_range()
+        interval_tier = IntervalTier(
+            name = name,
+            entries = all_intervals,
+            minT = min_time,
+            maxT = max_time
+        )
         return interval_tier
 
     
@@ -608,11 +614,11 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     
     @property
     def xmin(self)->float:
-        return np.array([tier.xmin for tier in self.tier_list]).min()
+        return min([tier.xmin for tier in self.tier_list if tier.xmin is not None], default = None)
     
     @property
     def xmax(self)->float:
-        return np.array([tier.xmax for tier in self.tier_list]).max()
+        return max([tier.xmax for tier in self.tier_list if tier.xmax is not None], default = None)
     
     def _fit_up(self, interval:SequenceInterval, start:float, end:float)->None:
         """
-- 
2.43.0


From 41f6193eeeee763cfd55d6d36dfd9a6982ba1c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 53/54] fix: an empty tier keeps its class when it is added to
 or concatenated

---
 src/aligned_textgrid/mixins/tiermixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 7bb917d..d4d9db6 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -48,7 +48,7 @@ class TierMixins:
             raise ValueError("Added tiers must have the same entry class")
         
         entries = self.sequence_list + new.sequence_list
-        new_tier = self.__class__(entries)
+        new_tier = self.__class__(entries, entries.entry_class or self.entry_class)
         return new_tier
 
     def append(self, new:'SequenceInterval|SequencePoint', re_relate = True):
@@ -144,6 +144,8 @@ class TierMixins:
         lhs = self.sequence_list
         rhs = new.sequence_list
 
+        if len(lhs) < 1:
+            lhs.entry_class = self.entry_class
         lhs.concat(rhs)
 
         self.sequence_list = lhs
-- 
2.43.0


From 31a4c0a53ab6385cd005ef766bed07d16c95c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:51 +0000
Subject: [PATCH 54/54] fix: adding a level where a tier is empty keeps the
 tiers of the group

---
 src/aligned_textgrid/aligned_textgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 5381dad..4ede80a 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -648,7 +648,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
             else:
                 copy_tier = [tier for tier in tg if tier.entry_class is copy_class][0]
                 new_tier = SequenceTier(
-                    [new_class(seq) for seq in copy_tier]
+                    [new_class(seq) for seq in copy_tier],
+                    entry_class = new_class
                 )
                 if not copy_labels:
                     for seq in new_tier:
-- 
2.43.0

