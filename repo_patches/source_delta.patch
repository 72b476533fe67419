From fcfeaaec5349f43cc04c8bfa437f2ba3246277fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 01/84] fix: save and resume tracking with virtual obs after
 one or two associations

---
 src/py_eddy_tracker/tracking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index b64b6fc..787d001 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -341,14 +341,16 @@ class Correspondances(list):
             self.current_obs = self.class_method.load_file(
                 self.datasets[first_dataset - 2], **self.class_kw
             )
-            flg_virtual = self.previous_correspondance.virtual
             with Dataset(self.filename_previous_correspondance) as general_handler:
                 self.current_id = general_handler.last_current_id
+                # Virtual obs are available only after the second association
+                flg_virtual = "LastVirtualObs" in general_handler.groups
                 if flg_virtual:
                     # Load last virtual obs
                     self.virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastVirtualObs"]
                     )
+                if "LastPreviousVirtualObs" in general_handler.groups:
                     self.previous_virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastPreviousVirtualObs"]
                     )
@@ -480,6 +482,7 @@ class Correspondances(list):
         if self.virtual_obs is not None:
             group = handler.createGroup("LastVirtualObs")
             self.virtual_obs.to_netcdf(group)
+        if self.previous_virtual_obs is not None:
             group = handler.createGroup("LastPreviousVirtualObs")
             self.previous_virtual_obs.to_netcdf(group)
         handler.module = self.class_method.__module__
-- 
2.43.0


From ebff5507acca48ca3f069b5088b81dd2f2c897be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 02/84] fix: save and load correspondances when there is no
 link in a step

---
 src/py_eddy_tracker/tracking.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 787d001..b884cbb 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -472,7 +472,7 @@ class Correspondances(list):
         for name, data in datas.items():
             h_v = handler.variables[name]
             h_v[:] = data
-            if "File" not in name:
+            if "File" not in name and data.size:
                 h_v.min = h_v[:].min()
                 h_v.max = h_v[:].max()
 
@@ -555,9 +555,10 @@ class Correspondances(list):
                 if name == "virtual_length":
                     correspondance[name] = 255
                 correspondance[name] = datas[name][i, :nb_elt]
-            id_max = max(id_max, correspondance["id"].max())
+            if nb_elt:
+                id_max = max(id_max, correspondance["id"].max())
             obj.append(correspondance)
-        obj.current_id = id_max + 1
+        obj.current_id = getattr(handler, "last_current_id", id_max + 1)
         return obj
 
     @classmethod
-- 
2.43.0


From 14dd140f9f8b94ccb3be57e94c300bf638bc4461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 03/84] fix: select short tracks when every track is longer
 than the limit

---
 src/py_eddy_tracker/tracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index b884cbb..79be08d 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -616,7 +616,8 @@ class Correspondances(list):
     def shorter_than(self, size_max):
         """Remove from correspondance table all association for longer eddies than size_max"""
         # Identify eddies longer than
-        i_keep_track = where(self.nb_obs_by_tracks < size_max)[0]
+        mask = self.nb_obs_by_tracks < size_max
+        i_keep_track = where(mask)[0]
         # Reduce array
         self.nb_obs_by_tracks = self.nb_obs_by_tracks[i_keep_track]
         self.i_current_by_tracks = (
@@ -625,7 +626,7 @@ class Correspondances(list):
         self.nb_obs = self.nb_obs_by_tracks.sum()
         # Give the last id used
         self.current_id = self.nb_obs_by_tracks.shape[0]
-        translate = empty(i_keep_track.max() + 1, dtype="u4")
+        translate = empty(mask.shape[0], dtype="u4")
         translate[i_keep_track] = arange(self.current_id)
         for i, correspondance in enumerate(self):
             m_keep = isin(correspondance["id"], i_keep_track)
-- 
2.43.0


From 70021ce0a09bfbcbfaa7952ef6bfba676aa65c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 04/84] fix: keep rotation type in an empty dataset

---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index b39f7f8..99b6db0 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2443,7 +2443,9 @@ class EddiesObservations(object):
         return create_meshed_particles(self[xname], self[yname], step)
 
     def empty_dataset(self):
-        return self.new_like(self, 0)
+        eddies = self.new_like(self, 0)
+        eddies.sign_type = self.sign_type
+        return eddies
 
 
 @njit(cache=True)
-- 
2.43.0


From 262b0e3e6ba3b2c1dd0db829c3da3382964ecbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 05/84] fix: solve links of CheltonTracker when a step has no
 observation

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 99b6db0..baaae3d 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1466,6 +1466,8 @@ class EddiesObservations(object):
     @staticmethod
     def solve_first(cost, multiple_link=False):
         mask = ~cost.mask
+        if mask.size == 0:
+            return mask
         # Count number of links by self obs and other obs
         self_links = mask.sum(axis=1)
         other_links = mask.sum(axis=0)
-- 
2.43.0


From 8c8bcd89a80a4ecd3aa3daf79f1f46f4555d7b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:03 +0000
Subject: [PATCH 06/84] fix: round raw values loaded from zarr instead of
 truncate them

---
 src/py_eddy_tracker/observations/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index baaae3d..51b20f3 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -924,7 +924,8 @@ class EddiesObservations(object):
                 if add_offset is not None:
                     data -= add_offset
                 if scale_factor is not None:
-                    data /= scale_factor
+                    # Stored values are integers, which must not be truncated
+                    data = (data / scale_factor).round()
 
             sl_out = slice(i - i_start, i - i_start + buffer_size)
             handler_eddies[sl_out] = data
-- 
2.43.0


From 25e498627e2177f5c2258af88a974457eecf7249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 07/84] fix: end the tracking when there is no link between
 files

---
 src/py_eddy_tracker/appli/eddies.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/py_eddy_tracker/appli/eddies.py b/src/py_eddy_tracker/appli/eddies.py
index c1c7a90..ef530ba 100644
--- a/src/py_eddy_tracker/appli/eddies.py
+++ b/src/py_eddy_tracker/appli/eddies.py
@@ -340,10 +340,12 @@ def track(
 
     logger.info("Start merging")
     c.prepare_merging()
-    logger.info("Longer track saved have %d obs", c.nb_obs_by_tracks.max())
-    logger.info(
-        "The mean length is %d observations for all tracks", c.nb_obs_by_tracks.mean()
-    )
+    if c.current_id:
+        logger.info("Longer track saved have %d obs", c.nb_obs_by_tracks.max())
+        logger.info(
+            "The mean length is %d observations for all tracks",
+            c.nb_obs_by_tracks.mean(),
+        )
 
     kw_write = dict(path=output_dir, zarr_flag=zarr)
 
@@ -369,11 +371,12 @@ def track(
         short_track.normalize_longitude()
         short_track.filled_by_interpolation(short_track["virtual"] == 1)
 
-    logger.info("Longer track saved have %d obs", c.nb_obs_by_tracks.max())
-    logger.info(
-        "The mean length is %d observations for long track",
-        c.nb_obs_by_tracks.mean(),
-    )
+    if c.current_id:
+        logger.info("Longer track saved have %d obs", c.nb_obs_by_tracks.max())
+        logger.info(
+            "The mean length is %d observations for long track",
+            c.nb_obs_by_tracks.mean(),
+        )
 
     long_track.write_file(**kw_write)
     short_track.write_file(
-- 
2.43.0


From 6ac8efea8cf642dde37a302c2e665ec89478dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 08/84] fix: flag virtual observations by the links instead of
 a null date

---
 src/py_eddy_tracker/appli/eddies.py | 2 --
 src/py_eddy_tracker/tracking.py     | 4 ++++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/appli/eddies.py b/src/py_eddy_tracker/appli/eddies.py
index ef530ba..14cba6a 100644
--- a/src/py_eddy_tracker/appli/eddies.py
+++ b/src/py_eddy_tracker/appli/eddies.py
@@ -364,10 +364,8 @@ def track(
 
     # We flag obs
     if c.virtual:
-        long_track["virtual"][:] = long_track["time"] == 0
         long_track.normalize_longitude()
         long_track.filled_by_interpolation(long_track["virtual"] == 1)
-        short_track["virtual"][:] = short_track["time"] == 0
         short_track.normalize_longitude()
         short_track.filled_by_interpolation(short_track["virtual"] == 1)
 
diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 79be08d..793a9d1 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -668,6 +668,8 @@ class Correspondances(list):
         # Fields to copy
         fields = self.current_obs.fields
 
+        # Everything which isn't copied from a file is a virtual observation
+        eddies["virtual"][:] = 1
         # To know if the track start
         first_obs_save_in_tracks = zeros(self.i_current_by_tracks.shape, dtype=bool_)
 
@@ -694,6 +696,7 @@ class Correspondances(list):
                     eddies[field][index_final[m_first_obs]] = self.previous_obs[field][
                         index_in
                     ]
+                eddies["virtual"][index_final[m_first_obs]] = 0
                 # Increment
                 self.i_current_by_tracks[i_id[m_first_obs]] += 1
                 # Active this flag, we have only one first by tracks
@@ -720,6 +723,7 @@ class Correspondances(list):
             # Copy all variable
             for field in fields:
                 eddies[field][index_final] = self.current_obs[field][index_current]
+            eddies["virtual"][index_final] = 0
 
             # Add increment for each index used
             self.i_current_by_tracks[i_id] += 1
-- 
2.43.0


From 06965ddac12b443db2ba9c9429c503be3737ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 09/84] fix: store filenames in the correspondances file

---
 src/py_eddy_tracker/tracking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 793a9d1..85d83b3 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -429,7 +429,9 @@ class Correspondances(list):
         )
 
         def get_filename(dataset):
-            if not isinstance(dataset, str) or not isinstance(dataset, bytes):
+            if isinstance(dataset, bytes):
+                return dataset.decode()
+            if not isinstance(dataset, str):
                 return "In memory file"
             return dataset
 
-- 
2.43.0


From 5d1e147b8264fd5f719773b99de1a746575efbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 10/84] fix: finish the tracking from a saved state as the
 tracking application does

---
 src/scripts/EddyFinalTracking | 44 +++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/scripts/EddyFinalTracking b/src/scripts/EddyFinalTracking
index fad4b02..2011444 100644
--- a/src/scripts/EddyFinalTracking
+++ b/src/scripts/EddyFinalTracking
@@ -51,14 +51,15 @@ if __name__ == "__main__":
 
     CORRESPONDANCES.prepare_merging()
 
-    logger.info(
-        "The longest tracks have %d observations",
-        CORRESPONDANCES.nb_obs_by_tracks.max(),
-    )
-    logger.info(
-        "The mean length is %d observations before filtering",
-        CORRESPONDANCES.nb_obs_by_tracks.mean(),
-    )
+    if CORRESPONDANCES.current_id:
+        logger.info(
+            "The longest tracks have %d observations",
+            CORRESPONDANCES.nb_obs_by_tracks.max(),
+        )
+        logger.info(
+            "The mean length is %d observations before filtering",
+            CORRESPONDANCES.nb_obs_by_tracks.mean(),
+        )
 
     if CONFIG.eddies_untracked_model is None:
         CONFIG.eddies_untracked_model = (
@@ -71,29 +72,32 @@ if __name__ == "__main__":
     SHORT_CORRESPONDANCES = CORRESPONDANCES._copy()
     SHORT_CORRESPONDANCES.shorter_than(size_max=NB_OBS_MIN)
 
-    CORRESPONDANCES.longer_than(size_min=NB_OBS_MIN)
-
-    FINAL_EDDIES = CORRESPONDANCES.merge()
     SHORT_TRACK = SHORT_CORRESPONDANCES.merge()
 
+    if CORRESPONDANCES.longer_than(size_min=NB_OBS_MIN) is False:
+        FINAL_EDDIES = SHORT_TRACK.empty_dataset()
+    else:
+        FINAL_EDDIES = CORRESPONDANCES.merge()
+
     # We flag obs
     if CORRESPONDANCES.virtual:
-        FINAL_EDDIES["virtual"][:] = FINAL_EDDIES["time"] == 0
+        FINAL_EDDIES.normalize_longitude()
         FINAL_EDDIES.filled_by_interpolation(FINAL_EDDIES["virtual"] == 1)
-        SHORT_TRACK["virtual"][:] = SHORT_TRACK["time"] == 0
+        SHORT_TRACK.normalize_longitude()
         SHORT_TRACK.filled_by_interpolation(SHORT_TRACK["virtual"] == 1)
 
     # Total running time
     FULL_TIME = dt.datetime.now() - START_TIME
     logger.info("Duration : %s", FULL_TIME)
 
-    logger.info(
-        "Longer track saved have %d obs", CORRESPONDANCES.nb_obs_by_tracks.max()
-    )
-    logger.info(
-        "The mean length is %d observations after filtering",
-        CORRESPONDANCES.nb_obs_by_tracks.mean(),
-    )
+    if CORRESPONDANCES.current_id:
+        logger.info(
+            "Longer track saved have %d obs", CORRESPONDANCES.nb_obs_by_tracks.max()
+        )
+        logger.info(
+            "The mean length is %d observations after filtering",
+            CORRESPONDANCES.nb_obs_by_tracks.mean(),
+        )
 
     if CONFIG.eddies_long_model is None:
         CONFIG.eddies_long_model = "%(path)s/%(sign_type)s_%(prod_time)s.nc"
-- 
2.43.0


From 21a5cc3d5334ab3c4453c4a2d31e74e1820dfdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 11/84] fix: join correspondances with new track numbers which
 are never used

---
 src/py_eddy_tracker/tracking.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 85d83b3..f86b050 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -188,29 +188,34 @@ class Correspondances(list):
         if len(i) != 1:
             raise Exception("More than one intersection")
 
+        if i[0] == 0:
+            raise Exception("No link in common, one more dataset must be shared")
+        junction, nexts = other[i[0] - 1], other[i[0] :]
+        if len(junction) != len(self[-1]):
+            raise Exception("Links in common are different")
+
         # Merge
         # Create a hash table
         translate = empty(other.current_id, dtype="u4")
         translate[:] = self.UINT32_MAX
 
-        translate[other[i[0] - 1]["id"]] = self[-1]["id"]
+        translate[junction["id"]] = self[-1]["id"]
 
-        nb_max = other[i[0] - 1]["id"].max()
-        mask = translate == self.UINT32_MAX
-        # We won't translate previous id
-        mask[:nb_max] = False
-        # Next id will be shifted
-        translate[mask] = arange(mask.sum()) + self.current_id
+        # Next id, which are not known on the junction, will be shifted
+        ids = [items["id"] for items in nexts]
+        new_id = setdiff1d(concatenate(ids), junction["id"]) if ids else array([], "u4")
+        translate[new_id] = arange(new_id.size) + self.current_id
 
-        # Translate
-        for items in other[i[0] :]:
-            items["id"] = translate[items["id"]]
         # Extend with other obs
-        self.extend(other[i[0] :])
+        for items in nexts:
+            # Translate
+            items = items.copy()
+            items["id"] = translate[items["id"]]
+            self.append(items)
         # Extend datasets list, which are bounds so we add one
-        self.datasets.extend(other.datasets[i[0] + 1 :])
+        self.datasets = list(self.datasets) + list(other.datasets[i[0] + 1 :])
         # We set new id available
-        self.current_id = translate[-1] + 1
+        self.current_id += new_id.size
 
     def store_correspondance(
         self, i_previous, i_current, nb_real_obs, association_cost
-- 
2.43.0


From ebf2bdd46a51ae9a175741b7b07fd5c95f5ebad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 12/84] fix: one contour buffer for each network

---
 src/py_eddy_tracker/observations/network.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a2e2dae..f225b1f 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -37,27 +37,20 @@ from .tracking import TrackEddiesObservations, track_loess_filter, track_median_
 logger = logging.getLogger("pet")
 
 
-class Singleton(type):
-    _instances = {}
-
-    def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
-
-
-class Buffer(metaclass=Singleton):
+class Buffer:
     __slots__ = (
         "buffersize",
         "contour_name",
         "xname",
         "yname",
         "memory",
+        "DATA",
+        "FLIST",
     )
-    DATA = dict()
-    FLIST = list()
 
     def __init__(self, buffersize, intern=False, memory=False):
+        self.DATA = dict()
+        self.FLIST = list()
         self.buffersize = buffersize
         self.contour_name = EddiesObservations.intern(intern, public_label=True)
         self.xname, self.yname = EddiesObservations.intern(intern)
-- 
2.43.0


From 54b5a338ab2fcf487f229739b58f636853e58f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 13/84] fix: mask unused cells of the correspondances file
 whatever the memory holds

---
 src/py_eddy_tracker/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index f86b050..e7aef41 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -468,7 +468,7 @@ class Correspondances(list):
                 **kwargs_cv
             )
             datas[name] = ma.empty((nb_step, self.nb_link_max), dtype=dtype)
-            datas[name].mask = datas[name] == datas[name]
+            datas[name].mask = True
 
         for i, correspondance in enumerate(self):
             logger.debug("correspondance %d", i)
-- 
2.43.0


From de824c220d797b88d0ac74287d2aa8a8bdd07661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 14/84] fix: replace an output only when it is completely
 written

An interrupted or failed save (zarr, netCDF, correspondances) left at the destination a
file or folder which reads without error with part of the data, in place of the previous one.
---
 .../observations/observation.py               | 59 +++++++++++++++++--
 src/py_eddy_tracker/tracking.py               |  6 +-
 2 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 51b20f3..25df345 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2,9 +2,13 @@
 """
 Base class to manage eddy observation
 """
+from contextlib import contextmanager
 from datetime import datetime
 from io import BufferedReader, BytesIO
 import logging
+from os import getpid, remove, rename, replace
+from os.path import basename, dirname, exists, isdir, isfile, join as join_path, realpath
+from shutil import rmtree
 from tarfile import ExFileObject
 from tokenize import TokenError
 
@@ -102,6 +106,51 @@ def _check_versions(version):
         )
 
 
+@contextmanager
+def complete_output(filename):
+    """
+    Give a temporary name, in the same folder, to write an output which will take the place of `filename`
+    only when it is complete.
+
+    :param str filename: path of file (netcdf) or folder (zarr) to write
+    """
+    if "://" in filename:
+        # remote store
+        yield filename
+        return
+    filename = realpath(filename)
+    if exists(filename) and not (isfile(filename) or isdir(filename)):
+        # special file
+        yield filename
+        return
+    model = join_path(dirname(filename), f".{basename(filename)}.{getpid()}")
+    new, old = f"{model}.new", f"{model}.old"
+
+    def clean(path):
+        if isdir(path):
+            rmtree(path)
+        elif exists(path):
+            remove(path)
+
+    try:
+        yield new
+        if isdir(new) and isdir(filename):
+            # A folder could not be replaced in one call
+            clean(old)
+            rename(filename, old)
+            try:
+                rename(new, filename)
+            except BaseException:
+                rename(old, filename)
+                raise
+            clean(old)
+        else:
+            replace(new, filename)
+    except BaseException:
+        clean(new)
+        raise
+
+
 @njit(cache=True, fastmath=True)
 def shifted_ellipsoid_degrees_mask2(lon0, lat0, lon1, lat1, minor=1.5, major=1.5):
     """
@@ -1781,12 +1830,14 @@ class EddiesObservations(object):
             zarr_flag = True
         logger.info("Store in %s (%d observations)", filename, len(self))
         if zarr_flag:
-            handler = zarr.open(filename, "w")
-            self.to_zarr(handler, **kwargs)
+            with complete_output(filename) as output:
+                handler = zarr.open(output, "w")
+                self.to_zarr(handler, **kwargs)
         else:
             nc_format = kwargs.pop("format", "NETCDF4")
-            with Dataset(filename, "w", format=nc_format) as handler:
-                self.to_netcdf(handler, **kwargs)
+            with complete_output(filename) as output:
+                with Dataset(output, "w", format=nc_format) as handler:
+                    self.to_netcdf(handler, **kwargs)
 
     @property
     def global_attr(self):
diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index e7aef41..486e7a8 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -29,6 +29,7 @@ from numpy import (
 from py_eddy_tracker.observations.observation import (
     EddiesObservations,
     VirtualEddiesObservations,
+    complete_output,
 )
 from py_eddy_tracker.observations.tracking import TrackEddiesObservations
 
@@ -502,8 +503,9 @@ class Correspondances(list):
         self.prepare_merging()
         if isinstance(dict_completion, dict):
             filename = filename.format(**dict_completion)
-        with Dataset(filename, "w", format="NETCDF4") as h_nc:
-            self.to_netcdf(h_nc)
+        with complete_output(filename) as output:
+            with Dataset(output, "w", format="NETCDF4") as h_nc:
+                self.to_netcdf(h_nc)
 
     def load_compatible(self, filename):
         if filename is None:
-- 
2.43.0


From 4448f2638e39e29ff27e8f7fc9b976e9ac25ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 15/84] fix: load any slice of observations without altering
 the indexs of the caller

---
 .../observations/observation.py               | 41 +++++++++----------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 25df345..045fbbb 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -868,16 +868,10 @@ class EddiesObservations(object):
         nb_obs = getattr(h_zarr, var_list[0]).shape[0]
         track_array_variables = h_zarr.attrs["track_array_variables"]
 
+        sl_obs = slice(None)
         if indexs is not None and "obs" in indexs:
-            sl = indexs["obs"]
-            sl = slice(sl.start, min(sl.stop, nb_obs))
-            if sl.stop is not None:
-                nb_obs = sl.stop
-            if sl.start is not None:
-                nb_obs -= sl.start
-            if sl.step is not None:
-                indexs["obs"] = slice(sl.start, sl.stop)
-                logger.warning("step of slice won't be use")
+            sl_obs = cls.slice_bounds(indexs["obs"], nb_obs)
+            nb_obs = sl_obs.stop - sl_obs.start
         logger.debug("%d observations will be load", nb_obs)
         kwargs = dict()
 
@@ -914,7 +908,6 @@ class EddiesObservations(object):
                 input_unit = h_zarr[variable].attrs.get("units", None)
             output_unit = VAR_DESCR[var_inv]["nc_attr"].get("units", None)
             factor = cls.compare_units(input_unit, output_unit, variable)
-            sl_obs = slice(None) if indexs is None else indexs.get("obs", slice(None))
             scale_factor = VAR_DESCR[var_inv].get("scale_factor", None)
             add_offset = VAR_DESCR[var_inv].get("add_offset", None)
             cls.copy_data_to_zarr(
@@ -1017,16 +1010,10 @@ class EddiesObservations(object):
 
             obs_dim = cls.obs_dimension(h_nc)
             nb_obs = len(h_nc.dimensions[obs_dim])
-            if indexs is not None and obs_dim in indexs:
-                sl = indexs[obs_dim]
-                sl = slice(sl.start, min(sl.stop, nb_obs))
-                if sl.stop is not None:
-                    nb_obs = sl.stop
-                if sl.start is not None:
-                    nb_obs -= sl.start
-                if sl.step is not None:
-                    indexs[obs_dim] = slice(sl.start, sl.stop)
-                    logger.warning("step of slice won't be use")
+            indexs = dict() if indexs is None else dict(indexs)
+            if obs_dim in indexs:
+                indexs[obs_dim] = cls.slice_bounds(indexs[obs_dim], nb_obs)
+                nb_obs = indexs[obs_dim].stop - indexs[obs_dim].start
             logger.debug("%d observations will be load", nb_obs)
             kwargs = dict()
             if array_dim in h_nc.dimensions:
@@ -1067,8 +1054,6 @@ class EddiesObservations(object):
                         input_unit = getattr(h_nc.variables[variable], "units", None)
                     output_unit = VAR_DESCR[var_inv]["nc_attr"].get("units", None)
                     factor = cls.compare_units(input_unit, output_unit, variable)
-                if indexs is None:
-                    indexs = dict()
                 var_sl = [
                     indexs.get(dim, slice(None))
                     for dim in h_nc.variables[variable].dimensions
@@ -1094,6 +1079,18 @@ class EddiesObservations(object):
 
         return eddies
 
+    @staticmethod
+    def slice_bounds(sl, nb_obs):
+        """Get slice with explicit bounds which select existing observations.
+
+        :param slice sl: slice asked
+        :param int nb_obs: number of observations available
+        """
+        if sl.step not in (None, 1):
+            logger.warning("step of slice won't be use")
+        start, stop, _ = slice(sl.start, sl.stop).indices(nb_obs)
+        return slice(start, max(start, stop))
+
     @staticmethod
     def build_var_list(var_list, remove_vars, include_vars):
         if include_vars is not None:
-- 
2.43.0


From 2334558893cc40d9755a0952671d0ce7a33c2016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 16/84] fix: load observations from a path in bytes and from
 any archive member

---
 src/py_eddy_tracker/observations/observation.py | 10 ++++++----
 src/py_eddy_tracker/tracking.py                 |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 045fbbb..12724c0 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -816,7 +816,9 @@ class EddiesObservations(object):
         For `**kwargs` look at :py:meth:`load_from_zarr` or :py:meth:`load_from_netcdf`
         """
         filename_ = (
-            filename.filename if isinstance(filename, ExFileObject) else filename
+            getattr(filename, "filename", filename.name)
+            if isinstance(filename, ExFileObject)
+            else filename
         )
         if isinstance(filename, zarr.storage.MutableMapping):
             return cls.load_from_zarr(filename, **kwargs)
@@ -858,8 +860,8 @@ class EddiesObservations(object):
         if isinstance(filename, zarr.storage.MutableMapping):
             h_zarr = filename
         else:
-            if not isinstance(filename, str):
-                filename = filename.astype(str)
+            if isinstance(filename, bytes):
+                filename = filename.decode()
             h_zarr = zarr.open(filename)
 
         _check_versions(h_zarr.attrs.get("framework_version", None))
@@ -995,7 +997,7 @@ class EddiesObservations(object):
         """
         array_dim = "NbSample"
         if isinstance(filename, bytes):
-            filename = filename.astype(str)
+            filename = filename.decode()
         if isinstance(filename, (ExFileObject, BufferedReader, BytesIO)):
             filename.seek(0)
             args, kwargs = ("in-mem-file",), dict(memory=filename.read())
diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 486e7a8..8e150a3 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -384,7 +384,9 @@ class Correspondances(list):
         for file_name in self.datasets[first_dataset:]:
             self.swap_dataset(file_name, **kwargs)
             filename_ = (
-                file_name.filename if isinstance(file_name, ExFileObject) else file_name
+                getattr(file_name, "filename", file_name.name)
+                if isinstance(file_name, ExFileObject)
+                else file_name
             )
             logger.info("%s match with previous state", filename_)
             logger.debug("%d obs to match", len(self.current_obs))
-- 
2.43.0


From 925c3a0b61471cc3f26f87a2ddcbfa1a6cd83a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 17/84] fix: zarr store, dataset without contour and small
 chunk; reading never creates a zarr folder

---
 src/py_eddy_tracker/observations/observation.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 12724c0..985a269 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -857,18 +857,18 @@ class EddiesObservations(object):
         :return type: class
         """
         # FIXME
-        if isinstance(filename, zarr.storage.MutableMapping):
+        if isinstance(filename, zarr.Group):
             h_zarr = filename
         else:
             if isinstance(filename, bytes):
                 filename = filename.decode()
-            h_zarr = zarr.open(filename)
+            # Read mode, other modes create what is not found
+            h_zarr = zarr.open(filename, "r")
 
         _check_versions(h_zarr.attrs.get("framework_version", None))
         var_list = cls.build_var_list(list(h_zarr.keys()), remove_vars, include_vars)
 
         nb_obs = getattr(h_zarr, var_list[0]).shape[0]
-        track_array_variables = h_zarr.attrs["track_array_variables"]
 
         sl_obs = slice(None)
         if indexs is not None and "obs" in indexs:
@@ -877,9 +877,7 @@ class EddiesObservations(object):
         logger.debug("%d observations will be load", nb_obs)
         kwargs = dict()
 
-        kwargs["track_array_variables"] = h_zarr.attrs.get(
-            "track_array_variables", track_array_variables
-        )
+        kwargs["track_array_variables"] = h_zarr.attrs.get("track_array_variables", 0)
 
         array_variables = list()
         for variable in var_list:
@@ -1780,7 +1778,7 @@ class EddiesObservations(object):
             kwargs_variable["chunks"] = (chunck_size,)
         if len(dims) == 2:
             second_dim = data.shape[1]
-            kwargs_variable["chunks"] = (chunck_size // second_dim, second_dim)
+            kwargs_variable["chunks"] = (max(1, chunck_size // second_dim), second_dim)
 
         kwargs_variable.pop("dimensions")
         v = handler_zarr.create_dataset(**kwargs_variable)
-- 
2.43.0


From e1e04f3db3a46f6cd1b17b1360f2651cbe40a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 18/84] fix: a particle south of the grid was moved with
 currents read outside of the field

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index edb96ba..ba8080b 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2707,7 +2707,7 @@ def get_uv_quad(i0, j0, u, v, m, nb_x=0):
         i1 %= nb_x
     i_max, j_max = m.shape
 
-    if i1 >= i_max or j1 >= j_max:
+    if i0 < 0 or j0 < 0 or i1 >= i_max or j1 >= j_max:
         return True, nan, nan, nan, nan, nan, nan, nan, nan
 
     if m[i0, j0] or m[i0, j1] or m[i1, j0] or m[i1, j1]:
-- 
2.43.0


From 9844eb02fad3386f0033e55e5838e91dff3356f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 19/84] fix: a grid which failed to load was taken as loaded at
 the next use

---
 src/py_eddy_tracker/dataset/grid.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index ba8080b..e98310c 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -310,8 +310,13 @@ class GridDataset(object):
 
     def populate(self):
         if self.dimensions is None:
-            self.load_general_features()
-            self.load()
+            try:
+                self.load_general_features()
+                self.load()
+            except BaseException:
+                # A grid partially loaded must not be seen as loaded
+                self.clean()
+                raise
 
     def clean(self):
         self.dimensions = None
-- 
2.43.0


From 36ad597bb921f8d7f912c51b379fba43b9645737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 20/84] fix: grid asked at other indexes, or which could not be
 used, stayed in place of the grid

---
 src/py_eddy_tracker/dataset/grid.py | 72 +++++++++++++++--------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index e98310c..277c40b 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -531,44 +531,46 @@ class GridDataset(object):
 
         .. minigallery:: py_eddy_tracker.GridDataset.grid
         """
+        if indexs:
+            # Not the data described by the grid, so it must not take its place
+            return self._load_grid(varname, indexs)
+        if varname not in self.vars:
+            self.vars[varname] = self._load_grid(varname)
+        return self.vars[varname]
+
+    def _load_grid(self, varname, indexs=None):
+        """Read a variable, look at :py:meth:`grid`"""
         if indexs is None:
             indexs = dict()
-        if varname not in self.vars:
-            coordinates_dims = list(self.x_dim)
-            coordinates_dims.extend(list(self.y_dim))
-            logger.debug(
-                "Load %(varname)s from %(filename)s",
-                dict(varname=varname, filename=self.filename),
-            )
-            with Dataset(self.filename) as h:
-                dims = h.variables[varname].dimensions
-                sl = [
-                    indexs.get(
-                        dim,
-                        self.indexs.get(
-                            dim, slice(None) if dim in coordinates_dims else 0
-                        ),
-                    )
-                    for dim in dims
-                ]
-                self.vars[varname] = h.variables[varname][sl]
-                if len(self.x_dim) == 1:
-                    i_x = where(array(dims) == self.x_dim)[0][0]
-                    i_y = where(array(dims) == self.y_dim)[0][0]
-                    if i_x > i_y:
-                        self.variables_description[varname]["infos"]["transpose"] = True
-                        self.vars[varname] = self.vars[varname].T
-            if self.nan_mask:
-                self.vars[varname] = ma.array(
-                    self.vars[varname],
-                    mask=isnan(self.vars[varname]),
-                )
-            if not hasattr(self.vars[varname], "mask"):
-                self.vars[varname] = ma.array(
-                    self.vars[varname],
-                    mask=zeros(self.vars[varname].shape, dtype="bool"),
+        coordinates_dims = list(self.x_dim)
+        coordinates_dims.extend(list(self.y_dim))
+        logger.debug(
+            "Load %(varname)s from %(filename)s",
+            dict(varname=varname, filename=self.filename),
+        )
+        with Dataset(self.filename) as h:
+            dims = h.variables[varname].dimensions
+            sl = [
+                indexs.get(
+                    dim,
+                    self.indexs.get(
+                        dim, slice(None) if dim in coordinates_dims else 0
+                    ),
                 )
-        return self.vars[varname]
+                for dim in dims
+            ]
+            data = h.variables[varname][sl]
+            if len(self.x_dim) == 1:
+                i_x = where(array(dims) == self.x_dim)[0][0]
+                i_y = where(array(dims) == self.y_dim)[0][0]
+                if i_x > i_y:
+                    self.variables_description[varname]["infos"]["transpose"] = True
+                    data = data.T
+        if self.nan_mask:
+            data = ma.array(data, mask=isnan(data))
+        if not hasattr(data, "mask"):
+            data = ma.array(data, mask=zeros(data.shape, dtype="bool"))
+        return data
 
     def grid_tiles(self, varname, slice_x, slice_y):
         """Give the grid tiles required, without buffer system"""
-- 
2.43.0


From 2d8044a1d2f1df2164b5982b0755bde026a95ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 21/84] fix: tiles of a grid ignored its indexes, its area and
 its nan masking

---
 src/py_eddy_tracker/dataset/grid.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 277c40b..ce1b8bb 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -587,10 +587,18 @@ class GridDataset(object):
         )
         with Dataset(self.filename) as h:
             dims = h.variables[varname].dimensions
+
+            def tile(dim):
+                index = self.indexs.get(dim, slice(None))
+                sl = slice_x if dim in list(self.x_dim) else slice_y
+                if index != slice(None):
+                    # tile is relative to the area of the grid
+                    index = range(self.dimensions[dim])[index][sl]
+                    return slice(index.start, index.stop, index.step)
+                return sl
+
             sl = [
-                (slice_x if dim in list(self.x_dim) else slice_y)
-                if dim in coordinates_dims
-                else 0
+                tile(dim) if dim in coordinates_dims else self.indexs.get(dim, 0)
                 for dim in dims
             ]
             data = h.variables[varname][sl]
@@ -599,6 +607,8 @@ class GridDataset(object):
                 i_y = where(array(dims) == self.y_dim)[0][0]
                 if i_x > i_y:
                     data = data.T
+        if self.nan_mask:
+            data = ma.array(data, mask=isnan(data))
         if not hasattr(data, "mask"):
             data = ma.array(data, mask=zeros(data.shape, dtype="bool"))
         return data
-- 
2.43.0


From 940edb5e4ef08c296a092fcf5b177bfb295d5e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 22/84] fix: copy of a grid variable not yet loaded was written
 with a wrong orientation

---
 src/py_eddy_tracker/dataset/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index ce1b8bb..72e099a 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -503,6 +503,8 @@ class GridDataset(object):
         :param grid_out:
 
         """
+        # Load first, description is completed at this moment
+        data = self.grid(grid_in).copy()
         h_dict = self.variables_description[grid_in]
         self.variables_description[grid_out] = dict(
             infos=h_dict["infos"].copy(),
@@ -510,7 +512,7 @@ class GridDataset(object):
             args=tuple((grid_out, *h_dict["args"][1:])),
             kwargs=h_dict["kwargs"].copy(),
         )
-        self.vars[grid_out] = self.grid(grid_in).copy()
+        self.vars[grid_out] = data
 
     def add_grid(self, varname, grid):
         """
-- 
2.43.0


From f3a42ce5ff1836e7278fcbd2eb493dd04dbab621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 23/84] fix: advection from a height used u/v of another
 origin, and dropped the height from memory

---
 src/py_eddy_tracker/dataset/grid.py | 39 +++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 72e099a..bc9f2b3 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1884,7 +1884,8 @@ class RegularGridDataset(GridDataset):
         .. minigallery:: py_eddy_tracker.RegularGridDataset.add_uv
         """
         logger.info("Add u/v variable with stencil method")
-        data = self.grid(grid_height)
+        # Load first, description is completed at this moment
+        self.grid(grid_height)
         h_dict = self.variables_description[grid_height]
         for variable in (uname, vname):
             self.variables_description[variable] = dict(
@@ -1899,6 +1900,17 @@ class RegularGridDataset(GridDataset):
                 self.variables_description[variable]["attrs"][
                     "long_name"
                 ] += " gradient"
+        self.vars[uname], self.vars[vname] = self.uv_from_height(
+            grid_height, stencil_halfwidth
+        )
+
+    def uv_from_height(self, grid_height, stencil_halfwidth=4):
+        """Compute u and v, look at :py:meth:`add_uv`
+
+        :param str grid_height: grid name where the funtion will apply stencil method
+        :param int stencil_halfwidth: largest stencil could be apply (max: 4)
+        """
+        data = self.grid(grid_height)
         # Divide by sideral day
         gof = (
             sin(deg2rad(self.y_c))
@@ -1912,17 +1924,18 @@ class RegularGridDataset(GridDataset):
 
         # Compute v
         mode = "wrap" if self.is_circular() else "reflect"
-        self.vars[vname] = (
+        v = (
             self.compute_stencil(data, mode=mode, stencil_halfwidth=stencil_halfwidth)
             * gof
         )
         # Compute u
-        self.vars[uname] = (
+        u = (
             -self.compute_stencil(
                 data, vertical=True, stencil_halfwidth=stencil_halfwidth
             )
             * gof
         )
+        return u, v
 
     def speed_coef_mean(self, contour):
         """Some nan can be computed over contour if we are near borders,
@@ -2043,13 +2056,19 @@ class RegularGridDataset(GridDataset):
         :param int time_step: Number of second for each advection
         """
         if h_name is not None:
-            u_name, v_name = "u", "v"
-            if u_name not in self.vars:
-                self.add_uv(h_name)
-                self.vars.pop(h_name, None)
-
-        u = (self.grid(u_name) if isinstance(u_name, str) else u_name).copy()
-        v = (self.grid(v_name) if isinstance(v_name, str) else v_name).copy()
+            if h_name in self.vars:
+                u, v = self.uv_from_height(h_name)
+            else:
+                # Height is loaded only to compute u and v, which are kept apart from grid variables
+                key = "uv", h_name
+                if key not in self.vars:
+                    self.vars[key] = self.uv_from_height(h_name)
+                    self.vars.pop(h_name)
+                u, v = self.vars[key]
+        else:
+            u = self.grid(u_name) if isinstance(u_name, str) else u_name
+            v = self.grid(v_name) if isinstance(v_name, str) else v_name
+        u, v = u.copy(), v.copy()
         # N seconds / 1 degrees in m
         coef = time_step * 180 / pi / self.EARTH_RADIUS * factor
         u *= coef / cos(radians(self.y_c))
-- 
2.43.0


From 63d69107b5c149aa74c3c579b9258124c7db99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 24/84] fix: unregular grid with masked coordinates could not
 be indexed

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index bc9f2b3..f0bb00a 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1114,8 +1114,8 @@ class UnRegularGridDataset(GridDataset):
             self.vars[x_name] = h.variables[x_name][sl_x]
             self.vars[y_name] = h.variables[y_name][sl_y]
 
-            self.x_c = self.vars[x_name]
-            self.y_c = self.vars[y_name]
+            self.x_c = array(self.vars[x_name].astype("float64"))
+            self.y_c = array(self.vars[y_name].astype("float64"))
 
             self.init_pos_interpolator()
 
-- 
2.43.0


From 21fff6463455aee45e913f41f9116564f7b946b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 25/84] fix: a regridded variable was written under the name of
 its source

---
 src/py_eddy_tracker/dataset/grid.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index f0bb00a..5010889 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2017,7 +2017,13 @@ class RegularGridDataset(GridDataset):
         v_interp = ma.array(v_interp, mask=isnan(v_interp))
         # and add it to self
         self.add_grid(new_name, v_interp)
-        self.variables_description[new_name] = other.variables_description[grid_name]
+        h_dict = other.variables_description[grid_name]
+        self.variables_description[new_name] = dict(
+            infos=h_dict["infos"].copy(),
+            attrs=h_dict["attrs"].copy(),
+            args=tuple((new_name, *h_dict["args"][1:])),
+            kwargs=h_dict["kwargs"].copy(),
+        )
         # self.variables_description[new_name]['infos'] = False
         # self.variables_description[new_name]['kwargs']['dimensions'] = ...
 
-- 
2.43.0


From f690de67362eff4b900d825938ca7aa39b79aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 26/84] fix: writing a time step of a grid lost its mask

---
 src/py_eddy_tracker/dataset/grid.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 5010889..a1c7f09 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -12,6 +12,7 @@ from numba import njit, prange, types as numba_types
 from numpy import (
     arange,
     array,
+    broadcast_to,
     ceil,
     concatenate,
     cos,
@@ -398,10 +399,16 @@ class GridDataset(object):
                     setattr(var, key, value)
 
                 infos = self.variables_description[varname]["infos"]
+                data = self.vars[varname]
                 if infos.get("transpose", False):
-                    var[:] = self.vars[varname].T
-                else:
-                    var[:] = self.vars[varname]
+                    data = data.T
+                if ma.isMaskedArray(data) and data.shape != var.shape:
+                    # netCDF4 drops the mask when it broadcasts the data
+                    data = ma.array(
+                        broadcast_to(data.data, var.shape),
+                        mask=broadcast_to(ma.getmaskarray(data), var.shape),
+                    )
+                var[:] = data
 
             for attr, value in self.global_attrs.items():
                 setattr(h_out, attr, value)
-- 
2.43.0


From 1bf3018b2c0dd62438b17100c8ce4b98359f9be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 27/84] fix: gradient under the mask was uninitialised memory,
 which the spectrum uses

---
 src/py_eddy_tracker/dataset/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index a1c7f09..1947c0c 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2984,7 +2984,8 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
     nb_x, nb_y = shape
     # Out array
     m_out = empty(shape, dtype=numba_types.bool_)
-    grad = empty(shape, dtype=h.dtype)
+    # Masked values must not depend on what the memory held
+    grad = zeros(shape, dtype=h.dtype)
     # Distance step in degrees
     d_step = x[1] - x[0]
     if vertical:
-- 
2.43.0


From f3d573ff56cde8af7a2a734bf795a00634ab9aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 28/84] fix: advection in progress failed when another user
 released the grids of the series

---
 src/py_eddy_tracker/dataset/grid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 1947c0c..d62ac56 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2532,6 +2532,8 @@ class GridCollection:
             dt = nb_step * time_step
             t_step = time_step
         t0, d0 = generator.__next__()
+        # Grid could be released by others before next steps
+        x_g, y_g = d0.x_c, d0.y_c
         u0, v0, m0 = d0.uv_for_advection(u_name, v_name, time_step, **kw)
         t1, d1 = generator.__next__()
         u1, v1, m1 = d1.uv_for_advection(u_name, v_name, time_step, **kw)
@@ -2555,7 +2557,7 @@ class GridCollection:
                 u1, v1, m1 = d1.uv_for_advection(u_name, v_name, time_step, **kw)
             w = 1 - (arange(t, t + dt, t_step) - t0) / (t1 - t0)
             half_w = t_step / 2.0 / (t1 - t0)
-            advect_(d0.x_c, d0.y_c, u0, v0, m0, u1, v1, m1, x, y, mp, w, half_w=half_w)
+            advect_(x_g, y_g, u0, v0, m0, u1, v1, m1, x, y, mp, w, half_w=half_w)
             f_x[::filament_size_] = x
             f_y[::filament_size_] = y
             t += dt
@@ -2607,6 +2609,8 @@ class GridCollection:
             dt = nb_step * time_step
             t_step = time_step
         t0, d0 = generator.__next__()
+        # Grid could be released by others before next steps
+        x_g, y_g = d0.x_c, d0.y_c
         u0, v0, m0 = d0.uv_for_advection(time_step=time_step, **kw)
         t1, d1 = generator.__next__()
         u1, v1, m1 = d1.uv_for_advection(time_step=time_step, **kw)
@@ -2628,8 +2632,8 @@ class GridCollection:
             w = 1 - (arange(t, t + dt, t_step) - t0) / (t1 - t0)
             half_w = t_step / 2.0 / (t1 - t0)
             advect_(
-                d0.x_c,
-                d0.y_c,
+                x_g,
+                y_g,
                 u0,
                 v0,
                 m0,
-- 
2.43.0


From b730706bc7076219ad3127c08a2cbd9a2aeedb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 29/84] fix: series lost its oldest grid when the next one
 could not be read

---
 src/py_eddy_tracker/dataset/grid.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index d62ac56..002221c 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2432,12 +2432,11 @@ class GridCollection:
 
     def shift_files(self, t, filename, heigth=None, **rgd_kwargs):
         """Add next file to the list and remove the oldest"""
-
-        self.datasets = self.datasets[1:]
-
         d = RegularGridDataset(filename, **rgd_kwargs)
         if heigth is not None:
             d.add_uv(heigth)
+        # Oldest is removed only if next one is available
+        self.datasets = self.datasets[1:]
         self.datasets.append((t, d))
         logger.debug(f"shift and adding i={len(self.datasets)} t={t} : {filename}")
 
-- 
2.43.0


From 1f2227b06e21d8eee09e166f94ae39dbc781876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 30/84] fix: u and v computed from the height of a series were
 lost when a grid was released

---
 src/py_eddy_tracker/dataset/grid.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 002221c..6ceeeae 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -259,6 +259,7 @@ class GridDataset(object):
         "vars",
         "contours",
         "nan_mask",
+        "heigth_uv",
     )
 
     GRAVITY = 9.807
@@ -296,6 +297,8 @@ class GridDataset(object):
         self.x_dim = None
         self.y_dim = None
         self.nan_mask = nan_masking
+        # Height used to compute u and v each time that grid is loaded
+        self.heigth_uv = None
         self.centered = centered
         self.contours = None
         self.filename = filename
@@ -314,6 +317,8 @@ class GridDataset(object):
             try:
                 self.load_general_features()
                 self.load()
+                if self.heigth_uv is not None:
+                    self.add_uv(self.heigth_uv)
             except BaseException:
                 # A grid partially loaded must not be seen as loaded
                 self.clean()
@@ -1911,6 +1916,15 @@ class RegularGridDataset(GridDataset):
             grid_height, stencil_halfwidth
         )
 
+    def set_heigth(self, heigth):
+        """Compute u and v from this height, now if grid is loaded and each time that it will be loaded
+
+        :param str,None heigth: grid name where the funtion will apply stencil method
+        """
+        self.heigth_uv = heigth
+        if heigth is not None and self.dimensions is not None:
+            self.add_uv(heigth)
+
     def uv_from_height(self, grid_height, stencil_halfwidth=4):
         """Compute u and v, look at :py:meth:`add_uv`
 
@@ -2403,8 +2417,7 @@ class GridCollection:
                 d = RegularGridDataset(
                     filename, x_name, y_name, indexs={t_name: i}, **kwargs
                 )
-                if heigth is not None:
-                    d.add_uv(heigth)
+                d.set_heigth(heigth)
                 new.datasets.append((t, d))
         return new
 
@@ -2417,8 +2430,7 @@ class GridCollection:
             filename = filenames[i]
             logger.debug(f"load file {i:02d}/{len(t)} t={_t} : {filename}")
             d = RegularGridDataset(filename, x_name, y_name, indexs=indexs, **kwargs)
-            if heigth is not None:
-                d.add_uv(heigth)
+            d.set_heigth(heigth)
             new.datasets.append((_t, d))
         return new
 
@@ -2433,8 +2445,7 @@ class GridCollection:
     def shift_files(self, t, filename, heigth=None, **rgd_kwargs):
         """Add next file to the list and remove the oldest"""
         d = RegularGridDataset(filename, **rgd_kwargs)
-        if heigth is not None:
-            d.add_uv(heigth)
+        d.set_heigth(heigth)
         # Oldest is removed only if next one is available
         self.datasets = self.datasets[1:]
         self.datasets.append((t, d))
-- 
2.43.0


From ef0ea9ba936ca7a62436cb42c784c74eebe168da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 31/84] fix: advection failed on currents without missing value

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 6ceeeae..68f6b75 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2103,7 +2103,7 @@ class RegularGridDataset(GridDataset):
         if backward:
             u = -u
             v = -v
-        m = u.mask + v.mask
+        m = self.get_mask(u) + self.get_mask(v)
         return u.data, v.data, m
 
     def advect(self, x, y, u_name, v_name, nb_step=10, rk4=True, **kw):
-- 
2.43.0


From edaeb7f57bc0cc21562377417aa9b36c4b763f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 32/84] fix: interpolation in a series of grids failed on
 masked arrays

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 68f6b75..928303b 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2470,8 +2470,8 @@ class GridCollection:
         g0, g1 = h0.grid(grid_name), h1.grid(grid_name)
         m0, m1 = h0.get_mask(g0), h0.get_mask(g1)
         kw = dict(x=lons, y=lats, nearest=method == "nearest")
-        v0 = interp2d_geo(h0.x_c, h0.y_c, g0, m0, **kw)
-        v1 = interp2d_geo(h1.x_c, h1.y_c, g1, m1, **kw)
+        v0 = interp2d_geo(h0.x_c, h0.y_c, g0.data, m0, **kw)
+        v1 = interp2d_geo(h1.x_c, h1.y_c, g1.data, m1, **kw)
         w = (t - t0) / (t1 - t0)
         return v1 * w + v0 * (1 - w)
 
-- 
2.43.0


From 11844b8406365eb09c45dcc3b3a5ae8b849851b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 33/84] fix: date function of segment coherence got numpy
 integers, which timedelta refuses

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index f225b1f..6b528dd 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1751,7 +1751,7 @@ class NetworkObservations(GroupEddiesObservations):
 
         # dates = arange(t_start, t_start + n_days + 1)
         dates = arange(t_start, min(t_start + n_days + 1, t_end + 1))
-        first_files = [date_function(x) for x in dates]
+        first_files = [date_function(int(x)) for x in dates]
 
         c = GridCollection.from_netcdf_list(first_files, dates, **uv_params)
         first = True
@@ -1827,7 +1827,7 @@ class NetworkObservations(GroupEddiesObservations):
         t_start, t_end = int(self.period[0]), int(self.period[1])
 
         dates = arange(t_start, min(t_start + n_days + 1, t_end + 1))
-        first_files = [date_function(x) for x in dates]
+        first_files = [date_function(int(x)) for x in dates]
 
         c = GridCollection.from_netcdf_list(first_files, dates, **uv_params)
         first = True
-- 
2.43.0


From 0a21e93b37050e92f7d43671bd8655b09e2303d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 34/84] fix: segment coherence failed when the period holds a
 single time step

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 6b528dd..fa20dce 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1781,7 +1781,7 @@ class NetworkObservations(GroupEddiesObservations):
             )
             logger.info(
                 (
-                    f"coherence {_t} / {range_end-1} ({(_t - range_start) / (range_end - range_start-1):.1%})"
+                    f"coherence {_t} / {range_end-1} ({(_t + 1 - range_start) / (range_end - range_start):.1%})"
                     f" : {time.time()-_timestamp:5.2f}s"
                 )
             )
@@ -1858,7 +1858,7 @@ class NetworkObservations(GroupEddiesObservations):
             )
             logger.info(
                 (
-                    f"coherence {_t} / {range_end-1} ({(_t - range_start) / (range_end - range_start-1):.1%})"
+                    f"coherence {_t} / {range_end-1} ({(_t + 1 - range_start) / (range_end - range_start):.1%})"
                     f" : {time.time()-_timestamp:5.2f}s"
                 )
             )
-- 
2.43.0


From 9eaa9269c2a8b75e4df4dbea1fa2133aa461964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 35/84] fix: observations of a date were not in order in
 coherence atlas, which changes targets when contours overlap

---
 src/py_eddy_tracker/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 612def6..a002f32 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -625,8 +625,8 @@ def window_index(x, x0, half_window=1):
     :param array x0: array of window center
     :param float half_window: half window
     """
-    # Sort array, bounds will be sort also
-    i_ordered = x.argsort()
+    # Sort array, bounds will be sort also (observations of the same value keep their order)
+    i_ordered = x.argsort(kind="mergesort")
     nb_x, nb_pt = x.size, x0.size
     first_index = empty(nb_pt, dtype=i_ordered.dtype)
     last_index = empty(nb_pt, dtype=i_ordered.dtype)
-- 
2.43.0


From d6c285a92c455fc64f1ee187a44be58dbb1d9e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 36/84] fix: coherence analysis failed when dead ends are
 removed

---
 src/py_eddy_tracker/observations/network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index fa20dce..0a4ac91 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1668,10 +1668,10 @@ class NetworkObservations(GroupEddiesObservations):
         if correct_close_events > 0:
             self.correct_close_events(nb_days_max=correct_close_events)
 
+        # Preprocessing is done in place
+        network_clean = self
         if remove_dead_end > 0:
-            network_clean = self.remove_dead_end(nobs=0, ndays=remove_dead_end)
-        else:
-            network_clean = self
+            network_clean.remove_dead_end(nobs=0, ndays=remove_dead_end)
 
         network_clean.numbering_segment()
 
-- 
2.43.0


From 116c85705220c1ba36b57cfbad1872976f99b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 37/84] fix: subset program of network use days, keep network
 after dead end removal and remove trash

---
 src/py_eddy_tracker/appli/network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index b8c2da5..86496e0 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -140,13 +140,16 @@ def subset_network():
         "if 0 it is not used",
     )
     args = parser.parse_args()
-    n = NetworkObservations.load_file(args.input, raw_data=True)
+    # No raw_data, because time must be in days for selection
+    n = NetworkObservations.load_file(args.input)
     if args.ids is not None:
         n = n.networks(args.ids)
     if args.length is not None:
         n = n.longer_than(*args.length)
     if args.remove_dead_end is not None:
-        n = n.remove_dead_end(*args.remove_dead_end)
+        n.remove_dead_end(*args.remove_dead_end)
+    if args.remove_trash:
+        n = n.remove_trash()
     if args.period is not None:
         n = n.extract_with_period(args.period)
     n.write_file(filename=args.out)
-- 
2.43.0


From 4a78a943ae2dbda02e579378b7471d1f659f7526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 38/84] fix: sort of network breaks ties with stored order only

---
 src/py_eddy_tracker/observations/network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 0a4ac91..a2fa2c2 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -16,6 +16,7 @@ from numpy import (
     bool_,
     concatenate,
     empty,
+    lexsort,
     nan,
     ones,
     percentile,
@@ -403,9 +404,11 @@ class NetworkObservations(GroupEddiesObservations):
         """
         Sort observations
 
-        :param tuple order: order or sorting. Given to :func:`numpy.argsort`
+        :param tuple order: order or sorting, observations with same values keep their order
         """
-        index_order = self.obs.argsort(order=order, kind="mergesort")
+        # argsort on structured array will use all others fields to break ties
+        order = (order,) if isinstance(order, str) else order
+        index_order = lexsort([self[field] for field in order[::-1]])
         self.reset_index()
         for field in self.fields:
             self[field][:] = self[field][index_order]
-- 
2.43.0


From cc37407a2b074b93133e5ce417dbe3088a7dabb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 39/84] fix: remove_dead_end forward mask to recursive calls

---
 src/py_eddy_tracker/observations/network.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a2fa2c2..a7611df 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1488,9 +1488,14 @@ class NetworkObservations(GroupEddiesObservations):
         self.next_obs[m_next] = -1
         self.next_cost[m_next] = 0
 
-        self.sort()
+        index_order, _ = self.sort()
         if recursive > 0:
-            self.remove_dead_end(nobs, ndays, recursive - 1)
+            if mask is not None:
+                # observations have moved
+                selected = zeros(len(self), dtype="bool")
+                selected[mask] = True
+                mask = selected[index_order]
+            self.remove_dead_end(nobs, ndays, recursive - 1, mask)
 
     def extract_segment(self, segments, absolute=False):
         """Extract given segments
-- 
2.43.0


From 07359bdb9d63ac8b0c3665e81e6b6598bd07245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 40/84] fix: find_link explores each direction on its own

---
 src/py_eddy_tracker/observations/network.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a7611df..cdcc995 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -488,28 +488,31 @@ class NetworkObservations(GroupEddiesObservations):
                 # backward
                 segments_connexion[n_seg][2].append((i_n, i_slice.stop - 1, seg))
 
-        mask = zeros(segment.size, dtype=bool)
+        # One mask by direction: an observation found in one direction
+        # must still be explored in the other one
+        mask_forward = zeros(segment.size, dtype=bool)
+        mask_backward = zeros(segment.size, dtype=bool)
 
         def func_forward(seg, indice):
             seg_slice, _forward, _ = segments_connexion[seg]
 
-            mask[indice : seg_slice.stop] = True
+            mask_forward[indice : seg_slice.stop] = True
             for i_begin, i_end, seg2 in _forward:
                 if i_begin < indice:
                     continue
 
-                if not mask[i_end]:
+                if not mask_forward[i_end]:
                     func_forward(seg2, i_end)
 
         def func_backward(seg, indice):
             seg_slice, _, _backward = segments_connexion[seg]
 
-            mask[seg_slice.start : indice + 1] = True
+            mask_backward[seg_slice.start : indice + 1] = True
             for i_begin, i_end, seg2 in _backward:
                 if i_begin > indice:
                     continue
 
-                if not mask[i_end]:
+                if not mask_backward[i_end]:
                     func_backward(seg2, i_end)
 
         for indice in i_obs:
@@ -519,7 +522,7 @@ class NetworkObservations(GroupEddiesObservations):
             if backward:
                 func_backward(segment[indice], indice)
 
-        return self.extract_with_mask(mask)
+        return self.extract_with_mask(mask_forward | mask_backward)
 
     def connexions(self, multi_network=False):
         """Create dictionnary for each segment, gives the segments in interaction with
-- 
2.43.0


From fef5baf781dd313cdbfea5588a2a72243443d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 41/84] fix: correct_close_events relabels all slices of an
 extended segment

---
 src/py_eddy_tracker/observations/network.py | 30 ++++++++++++++-------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index cdcc995..18b91e1 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -364,10 +364,11 @@ class NetworkObservations(GroupEddiesObservations):
                 continue
 
             i_p, i_n = previous_obs[i.start], next_obs[i.stop - 1]
-            segments_connexion[seg] = [i, i_p, i_n]
+            # last item will store all the slices of the segment, in time order
+            segments_connexion[seg] = [i, i_p, i_n, [i]]
 
         for seg in sorted(segments_connexion.keys()):
-            seg_slice, _, i_seg_n = segments_connexion[seg]
+            seg_slice, _, i_seg_n, _ = segments_connexion[seg]
 
             # the segment ID has to be corrected, because we may have changed it since
             seg_corrected = segment[seg_slice.stop - 1]
@@ -380,7 +381,7 @@ class NetworkObservations(GroupEddiesObservations):
             # if segment is split
             n_seg = segment[i_seg_n]
 
-            seg2_slice, i2_seg_p, _ = segments_connexion[n_seg]
+            _, i2_seg_p, _, seg2_slices = segments_connexion[n_seg]
             if i2_seg_p == -1:
                 continue
             p2_seg = segment[i2_seg_p]
@@ -389,14 +390,25 @@ class NetworkObservations(GroupEddiesObservations):
             if (p2_seg == seg_corrected) and (
                 _time[i_seg_n] - _time[i2_seg_p] < nb_days_max
             ):
-                my_slice = slice(i_seg_n, seg2_slice.stop)
-                # correct the factice segment
-                segment[my_slice] = seg_corrected
-                # correct the good segment
-                segment_copy[my_slice] = seg_corrected_copy
+                # part of the segment after the merging
+                kept, moved = list(), list()
+                for sl in seg2_slices:
+                    if sl.start < i_seg_n < sl.stop:
+                        kept.append(slice(sl.start, i_seg_n))
+                        moved.append(slice(i_seg_n, sl.stop))
+                    elif moved or sl.start == i_seg_n:
+                        moved.append(sl)
+                    else:
+                        kept.append(sl)
+                for my_slice in moved:
+                    # correct the factice segment
+                    segment[my_slice] = seg_corrected
+                    # correct the good segment
+                    segment_copy[my_slice] = seg_corrected_copy
                 previous_obs[i_seg_n] = seg_slice.stop - 1
 
-                segments_connexion[seg_corrected][0] = my_slice
+                segments_connexion[n_seg][3] = kept
+                segments_connexion[seg_corrected][3].extend(moved)
 
         return self.sort()
 
-- 
2.43.0


From a67bdc0726d16a022e87e3d36074772e7c696a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 42/84] fix: dissociate_network keeps trash segments in trash

---
 src/py_eddy_tracker/observations/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 18b91e1..cd0edd1 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1240,7 +1240,10 @@ class NetworkObservations(GroupEddiesObservations):
         tags = self.tag_segment()
         if self.track[0] == 0:
             tags -= 1
+        m_trash = self.track == 0
         self.track[:] = tags[self.segment_track_array]
+        # Trash could have several segments, it's never a network
+        self.track[m_trash] = 0
         return self.sort()
 
     def network_segment(self, id_network, id_segment):
-- 
2.43.0


From c776cb9f3740640f8588b5d891efb9ba006744aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 43/84] fix: swap_track keeps chain with the main observation

---
 src/py_eddy_tracker/observations/network.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index cd0edd1..b42f600 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1920,12 +1920,12 @@ class NetworkObservations(GroupEddiesObservations):
     ):
         events = self.splitting_event(triplet=True, only_index=True)
         count = 0
-        for i_main, i1, i2 in zip(*events):
-            seg_main, _, seg2 = (
-                self.segment_track_array[i_main],
-                self.segment_track_array[i1],
-                self.segment_track_array[i2],
-            )
+        for i_main, _, i2 in zip(*events):
+            # A previous swap could have changed observation which follow i_main
+            i1 = self.next_obs[i_main]
+            if i1 == -1 or self.segment[i1] != self.segment[i_main]:
+                continue
+            seg_main, seg2 = self.segment_track_array[i1], self.segment_track_array[i2]
             i_start, i_end, i0 = self.index_segment_track
             # For splitting
             last_index_main = i_end[seg_main - i0] - 1
@@ -1950,6 +1950,8 @@ class NetworkObservations(GroupEddiesObservations):
             ):
                 self.segment[i1 : last_index_main + 1] = self.segment[i2]
                 self.segment[i2 : last_index_secondary + 1] = self.segment[i_main]
+                self.next_obs[i_main] = i2
+                self.next_cost[i_main] = self.previous_cost[i2]
                 count += 1
         logger.info("%d segmnent swap on %d", count, len(events[0]))
         return self.sort()
-- 
2.43.0


From 766a0c8e5ea1fc23240c086260e76d701915c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 44/84] fix: reset index and period after insertion or reset,
 copy observations inserted in an empty dataset

---
 src/py_eddy_tracker/observations/network.py     | 1 +
 src/py_eddy_tracker/observations/observation.py | 9 ++++++++-
 src/py_eddy_tracker/observations/tracking.py    | 4 ++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index b42f600..b93acc3 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -124,6 +124,7 @@ class NetworkObservations(GroupEddiesObservations):
         return "\n".join(infos)
 
     def reset_index(self):
+        super().reset_index()
         self._index_network = None
         self._index_segment_track = None
         self._segment_track_array = None
diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 985a269..b729089 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -610,8 +610,13 @@ class EddiesObservations(object):
         eddies.sign_type = self.sign_type
         return eddies
 
+    def reset_index(self):
+        """Forget everything which was computed from the observations"""
+        self.period_ = None
+
     def reset(self):
         self.observations = zeros(0, dtype=self.dtype)
+        self.reset_index()
 
     @property
     def obs(self):
@@ -719,7 +724,8 @@ class EddiesObservations(object):
         self_size = len(self)
         new_size = self_size + insert_size
         if self_size == 0:
-            self.observations = other.obs
+            self.observations = other.obs.copy()
+            self.reset_index()
             return self
         elif insert_size == 0:
             return self
@@ -730,6 +736,7 @@ class EddiesObservations(object):
         eddies.obs[index : index + insert_size] = other.obs
         eddies.obs[index + insert_size :] = self.obs[index:]
         self.observations = eddies.obs
+        self.reset_index()
         return self
 
     def append(self, other):
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 164f972..277beee 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -64,6 +64,10 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
+        self.reset_index()
+
+    def reset_index(self):
+        super().reset_index()
         self.__first_index_of_track = None
         self.__obs_by_track = None
         self.__nb_track = None
-- 
2.43.0


From c4521afa236fc8dbc8c76e4a978daaa96b25e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 45/84] fix: remove_fields keeps lists of variables

---
 src/py_eddy_tracker/observations/observation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index b729089..ac873e6 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -471,9 +471,11 @@ class EddiesObservations(object):
         """
         nb_obs = len(self)
         fields = set(fields)
-        only_variables = set(self.fields) - fields
-        track_extra_variables = set(self.track_extra_variables) - fields
-        array_variables = set(self.array_variables) - fields
+        only_variables = [i for i in self.fields if i not in fields]
+        track_extra_variables = [
+            i for i in self.track_extra_variables if i not in fields
+        ]
+        array_variables = [i for i in self.array_variables if i not in fields]
         new = self.__class__(
             size=nb_obs,
             track_extra_variables=track_extra_variables,
-- 
2.43.0


From 7969bafb951178083ee3ec6fcf6a26667b1c60fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 46/84] fix: iter_on with unsigned values or bins which do not
 cover values

---
 src/py_eddy_tracker/observations/observation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index ac873e6..4923b05 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -650,7 +650,6 @@ class EddiesObservations(object):
             for x_, i0, i1 in zip(x0, first_index, last_index):
                 yield i_ordered[i0:i1], x_ - window, x_ + window
         else:
-            d = x[1:] - x[:-1]
             if bins is None:
                 bins = arange(x.min(), x.max() + 2)
             elif not isinstance(bins, ndarray):
@@ -658,9 +657,12 @@ class EddiesObservations(object):
             nb_bins = len(bins) - 1
 
             # Not monotonous
-            if (d < 0).any():
+            if (x[1:] < x[:-1]).any():
                 # If bins cover a small part of value
                 test, translate, x = iter_mode_reduce(x, bins)
+                # No value in bins
+                if x.size == 0:
+                    return
                 # convert value in bins number
                 i = numba_digitize(x, bins) - 1
                 # Order by bins
@@ -683,6 +685,8 @@ class EddiesObservations(object):
                 i0, i1 = i0[m], i1[m]
                 for i0_, i1_ in zip(i0, i1):
                     i_bins = i[i0_]
+                    if i_bins == -1 or i_bins == nb_bins:
+                        continue
                     yield slice(i0_, i1_), bins[i_bins], bins[i_bins + 1]
 
     def align_on(self, other, var_name="time", all_ref=False, **kwargs):
-- 
2.43.0


From c108a98fcd84b67781b864de96cefbdb3d3ed176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 47/84] fix: merge_filters of two slices is an intersection

---
 src/py_eddy_tracker/observations/observation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 4923b05..94f9b8f 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2045,8 +2045,9 @@ class EddiesObservations(object):
             reject = ones(len(self), dtype="bool")
             reject[filter1] = False
             if isinstance(filter2, slice):
-                reject[filter2] = False
-                return ~reject
+                select = zeros(len(self), dtype="bool")
+                select[filter2] = True
+                return ~reject * select
             # Mask case
             elif filter2.dtype == bool:
                 return ~reject * filter2
-- 
2.43.0


From 73b3f2897a8d64e2f789ec8f398aff1c10bfe7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 48/84] fix: distances to next and summary with unused track
 numbers, add_distance fills every observation

---
 src/py_eddy_tracker/observations/tracking.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 277beee..e877d4f 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -134,7 +134,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         cum_d = cumsum_by_track(d, self.tracks)
         m_last = ones(d.shape, dtype="bool")
         m_last[-1] = False
-        m_last[self.index_from_track[1:] - 1] = False
+        m_last[self.index_from_track[nb != 0][1:] - 1] = False
         content += f"""
     | {self.nb_tracks} tracks ({
         nb_obs / self.nb_tracks:.2f} obs/tracks, shorter {nb[nb!=0].min()} obs, longer {nb.max()} obs)
@@ -154,7 +154,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         if "distance_next" in self.fields:
             return self
         new = self.add_fields(("distance_next",))
-        new["distance_next"][:1] = self.distance_to_next()
+        new["distance_next"][:] = self.distance_to_next()
         return new
 
     def distance_to_next(self):
@@ -168,7 +168,9 @@ class TrackEddiesObservations(GroupEddiesObservations):
             self.longitude[1:],
             self.latitude[1:],
         )
-        d[self.index_from_track[1:] - 1] = 0
+        # Some numbers could be unused
+        i_first = self.index_from_track[self.nb_obs_by_track != 0]
+        d[i_first[1:] - 1] = 0
         d_ = empty(d.shape[0] + 1, dtype=d.dtype)
         d_[:-1] = d
         d_[-1] = 0
-- 
2.43.0


From bf87948d9cdafd1f2239b7040c99a356d23072b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 49/84] fix: compress_id stores new track numbers

---
 src/py_eddy_tracker/observations/tracking.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index e877d4f..57754e4 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -214,12 +214,12 @@ class TrackEddiesObservations(GroupEddiesObservations):
         for field in self.fields:
             logger.debug("Copy of field %s ...", field)
             eddies.obs[field] = self.obs[field][mask]
-        if compress_id:
-            list_id = unique(eddies.obs.track)
+        if compress_id and nb_obs_select:
+            list_id = unique(eddies.track)
             list_id.sort()
             id_translate = arange(list_id.max() + 1)
             id_translate[list_id] = arange(len(list_id)) + 1
-            eddies.track = id_translate[eddies.track]
+            eddies.track[:] = id_translate[eddies.track]
         return eddies
 
     @property
@@ -516,7 +516,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
                 list_id.sort()
                 id_translate = arange(list_id.max() + 1)
                 id_translate[list_id] = arange(len(list_id)) + 1
-                new.track = id_translate[new.track]
+                new.track[:] = id_translate[new.track]
         return new
 
     def shape_polygon(self, intern=False):
-- 
2.43.0


From dacafd8048a87a7ec7e6b7af190a9af1ea37d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 50/84] fix: extract_with_mask does not modify mask of caller

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 57754e4..e6570ec 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -495,7 +495,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
         if full_path:
             if reject_virtual:
-                mask *= ~self.virtual.astype("bool")
+                mask = mask * ~self.virtual.astype("bool")
             tracks = unique(self.tracks[mask])
             mask = self.get_mask_from_id(tracks)
         elif remove_incomplete:
-- 
2.43.0


From 793de565282674721a6cda5b62f62ed819e6336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 51/84] fix: track index is not kept half built

---
 src/py_eddy_tracker/observations/tracking.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index e6570ec..9cae510 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -312,10 +312,11 @@ class TrackEddiesObservations(GroupEddiesObservations):
             # Doesn't work => core dump with numba, maybe he wants i8 instead of u4
             # self.__first_index_of_track = -ones(s, self.tracks.dtype)
             # self.__obs_by_track = zeros(s, self.observation_number.dtype)
-            self.__first_index_of_track = -ones(s, "i8")
-            self.__obs_by_track = zeros(s, "i8")
+            first_index, obs_by_track = -ones(s, "i8"), zeros(s, "i8")
             logger.debug("Start computing index ...")
-            compute_index(self.tracks, self.__first_index_of_track, self.__obs_by_track)
+            compute_index(self.tracks, first_index, obs_by_track)
+            self.__obs_by_track = obs_by_track
+            self.__first_index_of_track = first_index
             logger.debug("... OK")
 
     @classmethod
-- 
2.43.0


From decf5d955bb1e97fe6cb8839a930e20dd83957d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 52/84] fix: unknown track or network identifiers select
 nothing

---
 src/py_eddy_tracker/observations/network.py  | 4 ++++
 src/py_eddy_tracker/observations/tracking.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index b93acc3..e13873a 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -244,6 +244,8 @@ class NetworkObservations(GroupEddiesObservations):
         :param int id_network: id to identify network
         """
         i = id_network - self.index_network[2]
+        if not 0 <= i < self.index_network[0].size:
+            return slice(0, 0)
         i_start, i_stop = self.index_network[0][i], self.index_network[1][i]
         return slice(i_start, i_stop)
 
@@ -2276,6 +2278,8 @@ def generate_mask_from_ids(id_networks, nb, istart, iend, i0):
     """
     m = zeros(nb, dtype="bool")
     for i in id_networks:
+        if i < i0 or (i - i0) >= istart.size:
+            continue
         for j in range(istart[i - i0], iend[i - i0]):
             m[j] = True
     return m
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 9cae510..1740d2a 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -300,6 +300,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
     def get_mask_from_id(self, tracks):
         mask = zeros(self.tracks.shape, dtype=bool_)
+        tracks = array(tracks)
+        tracks = tracks[(tracks >= 0) * (tracks < self.index_from_track.size)]
         compute_mask_from_id(tracks, self.index_from_track, self.nb_obs_by_track, mask)
         return mask
 
-- 
2.43.0


From dba0092299a31f5221710ac50919a55319e18cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 53/84] fix: extraction by direction with unused track numbers

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 1740d2a..25a6143 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -385,6 +385,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         """
         lon = self.longitude
         i0, nb = self.index_from_track, self.nb_obs_by_track
+        # Some numbers could be unused
+        i0, nb = i0[nb != 0], nb[nb != 0]
         i1 = i0 - 1 + nb
         d_lon = lon[i1] - lon[i0]
         m = d_lon < 0 if west else d_lon > 0
@@ -406,6 +408,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
     def extract_in_direction(self, direction, value=0):
         nb_obs = self.nb_obs_by_track
         i_start = self.index_from_track
+        # Some numbers could be unused
+        i_start, nb_obs = i_start[nb_obs != 0], nb_obs[nb_obs != 0]
         i_stop = i_start + nb_obs - 1
         if direction in ("S", "N"):
             d_lat = self.latitude[i_stop] - self.latitude[i_start]
-- 
2.43.0


From 2c40d9454f1b043835dff6580455f59e05956b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 54/84] fix: concatenate tracks with an empty dataset

---
 src/py_eddy_tracker/observations/tracking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 25a6143..2db6480 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -328,6 +328,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         i_start = 0
         for obs in observations:
             nb_obs = len(obs)
+            if nb_obs == 0:
+                continue
             sl = slice(i_start, i_start + nb_obs)
             new_track = obs.track + last_track
             eddies.track[sl] = new_track
-- 
2.43.0


From 816b1ae68c4f0b8df3570349c9977a6e0bbfaccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 55/84] fix: numbering_network and dissociate_network reset
 index

---
 src/py_eddy_tracker/observations/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index e13873a..48747d1 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -735,6 +735,7 @@ class NetworkObservations(GroupEddiesObservations):
         New numbering of network
         """
         new_numbering(self.track, start)
+        self.reset_index()
 
     def only_one_network(self):
         """
@@ -1247,6 +1248,7 @@ class NetworkObservations(GroupEddiesObservations):
         self.track[:] = tags[self.segment_track_array]
         # Trash could have several segments, it's never a network
         self.track[m_trash] = 0
+        self.reset_index()
         return self.sort()
 
     def network_segment(self, id_network, id_segment):
-- 
2.43.0


From da4eb297dd32a52dba7a92ed008a2b3aaf84f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 56/84] fix: close_network with fractional period

---
 src/py_eddy_tracker/observations/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 48747d1..a65c089 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -686,7 +686,7 @@ class NetworkObservations(GroupEddiesObservations):
         """
         p0, p1 = self.period
         indexs = list()
-        for i_self, i_other, t0, t1 in self.align_on(other, bins=range(p0, p1 + 2)):
+        for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
             indexs.append(other.re_reference_index(j, i_other))
         indexs = concatenate(indexs)
-- 
2.43.0


From 7ade4f430d325ee2f54f3fd9b54a3a2a3e7ab40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 57/84] fix: unique_segment_to_id uses reference of index

---
 src/py_eddy_tracker/observations/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a65c089..8c7cc84 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -225,7 +225,7 @@ class NetworkObservations(GroupEddiesObservations):
 
         :param array id_unique:
         """
-        i = self.index_segment_track[0][id_unique] - self.ref_segment_track_index
+        i = self.index_segment_track[0][id_unique - self.ref_segment_track_index]
         return self.track[i], self.segment[i]
 
     def segment_slice(self, id_network, id_segment):
-- 
2.43.0


From fec7d3880d997241d91c44decbd7195a06ba60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 58/84] fix: insert_virtual keeps identity and links of tracks
 and segments

---
 src/py_eddy_tracker/observations/groups.py   | 25 ++++++++++++++++----
 src/py_eddy_tracker/observations/network.py  | 22 +++++++++++++----
 src/py_eddy_tracker/observations/tracking.py |  7 +++++-
 3 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 81929e1..f33bcd1 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -269,7 +269,13 @@ def get_matrix(i_start, i_end, translate_start, translate_end, i_target, pct):
 
 class GroupEddiesObservations(EddiesObservations, ABC):
     @abstractmethod
-    def fix_next_previous_obs(self):
+    def fix_next_previous_obs(self, mask):
+        pass
+
+    @property
+    @abstractmethod
+    def sequences(self):
+        "Identifier of the sequence of consecutive observations which owns each observation"
         pass
 
     @abstractmethod
@@ -301,11 +307,15 @@ class GroupEddiesObservations(EddiesObservations, ABC):
             self.obs[field][mask] = interp(
                 index[mask], index[~mask], self.obs[field][~mask]
             )
+        # Dates could have changed
+        self.reset_index()
 
     def insert_virtual(self):
         """Insert virtual observations on segments where observations are missing"""
 
-        dt_theorical = median(self.time[1:] - self.time[:-1])
+        # Only observations which follow each other
+        same_sequence = self.sequences[1:] == self.sequences[:-1]
+        dt_theorical = median((self.time[1:] - self.time[:-1])[same_sequence])
         indices = self.get_missing_indices(dt_theorical)
 
         logger.info("%d virtual observation will be added", indices.size)
@@ -321,10 +331,17 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         mask[indices_corrected] = 1
 
         new_TEO = self.new_like(self, size_obs_corrected)
+        new_TEO.sign_type = self.sign_type
         new_TEO.obs[~mask] = self.obs
         new_TEO.filled_by_interpolation(mask)
-        new_TEO.virtual[:] = mask
-        new_TEO.fix_next_previous_obs()
+        for field in ("track", "segment"):
+            if field in self.fields:
+                new_TEO[field][mask] = self[field][indices - 1]
+        if "n" in self.fields:
+            i = arange(size_obs_corrected)
+            new_TEO.n[mask] = interp(i[mask], i[~mask], self.n).round()
+        new_TEO.virtual[mask] = 1
+        new_TEO.fix_next_previous_obs(mask)
         return new_TEO
 
     def keep_tracks_by_date(self, date, nb_days):
diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 8c7cc84..fdd8fef 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -162,16 +162,30 @@ class NetworkObservations(GroupEddiesObservations):
 
         :param int,float dt: theorical delta time between 2 observations
         """
+        # Time is growing along a segment, not along a network
+        segments = self.segment_track_array.astype("i8") + self.NOGROUP + 1
+        segments[self.track == self.NOGROUP] = self.NOGROUP
         return get_missing_indices(
-            self.time, self.track, dt=dt, flag_untrack=True, indice_untrack=self.NOGROUP
+            self.time, segments, dt=dt, flag_untrack=True, indice_untrack=self.NOGROUP
         )
 
-    def fix_next_previous_obs(self):
+    @property
+    def sequences(self):
+        """Identifier of the sequence of consecutive observations which owns each observation"""
+        return self.segment_track_array
+
+    def fix_next_previous_obs(self, mask):
         """Function used after 'insert_virtual', to correct next_obs and
         previous obs.
-        """
 
-        fix_next_previous_obs(self.next_obs, self.previous_obs, self.virtual)
+        :param array(bool) mask: True for inserted observations
+        """
+        # Index of links must be translated (-1 stay -1)
+        translate = -ones((~mask).sum() + 1, dtype="i4")
+        translate[:-1] = where(~mask)[0]
+        self.next_obs[~mask] = translate[self.next_obs[~mask]]
+        self.previous_obs[~mask] = translate[self.previous_obs[~mask]]
+        fix_next_previous_obs(self.next_obs, self.previous_obs, mask)
 
     @property
     def index_network(self):
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 2db6480..21203c4 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -98,7 +98,12 @@ class TrackEddiesObservations(GroupEddiesObservations):
             indice_untrack=self.NOGROUP,
         )
 
-    def fix_next_previous_obs(self):
+    @property
+    def sequences(self):
+        """Identifier of the sequence of consecutive observations which owns each observation"""
+        return self.track
+
+    def fix_next_previous_obs(self, mask):
         """Function used after 'insert_virtual', to correct next_obs and
         previous obs.
         """
-- 
2.43.0


From a391a7e4d1f104f722f5173eaf2c16c92af0721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 59/84] fix: include_vars accepts internal names of variables

---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 94f9b8f..864c410 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1107,7 +1107,9 @@ class EddiesObservations(object):
     @staticmethod
     def build_var_list(var_list, remove_vars, include_vars):
         if include_vars is not None:
-            var_list = [i for i in var_list if i in include_vars]
+            # Variables could be named with internal name or with netcdf name
+            elements = {VAR_DESCR_inv.get(i, i) for i in include_vars}
+            var_list = [i for i in var_list if VAR_DESCR_inv.get(i, i) in elements]
         elif remove_vars is not None:
             var_list = [i for i in var_list if i not in remove_vars]
         return var_list
-- 
2.43.0


From 1e7956743dbe7bfe40fe6afb50723571fb4b26cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 60/84] fix: animation shows the trailing window of the
 displayed date for every sequence of steps

---
 src/py_eddy_tracker/appli/gui.py | 57 +++++---------------------------
 1 file changed, 9 insertions(+), 48 deletions(-)

diff --git a/src/py_eddy_tracker/appli/gui.py b/src/py_eddy_tracker/appli/gui.py
index 4a8cdeb..f1d294f 100644
--- a/src/py_eddy_tracker/appli/gui.py
+++ b/src/py_eddy_tracker/appli/gui.py
@@ -4,7 +4,6 @@ Entry point of graphic user interface
 """
 
 from datetime import datetime, timedelta
-from itertools import chain
 import logging
 
 from matplotlib import pyplot
@@ -95,9 +94,6 @@ class Anim:
             self.txt = self.ax.text(
                 x_min + 0.05 * d_x, y_min + 0.05 * d_y, "", zorder=10
             )
-        self.segs = list()
-        self.t_segs = list()
-        self.c_segs = list()
         if field_color is None:
             self.contour = LineCollection([], zorder=1, color="gray")
         else:
@@ -169,39 +165,18 @@ class Anim:
     def update(self):
         m = self.t == self.now
         color = self.field_color is not None
-        if m.sum():
-            segs = list()
-            t = list()
-            c = list()
-            for i in where(m)[0]:
-                segs.append(create_vertice(self.x[i], self.y[i]))
-                if color:
-                    c.append(self.field_color[i])
-                t.append(self.now)
-            self.segs.append(segs)
-            if color:
-                self.c_segs.append(c)
-            self.t_segs.append(t)
-        self.contour.set_paths(chain(*self.segs))
+        # Keep only T contour
+        i_window = where((self.t > (self.now - self.nb_step)) * (self.t <= self.now))[0]
+        self.contour.set_paths(
+            [create_vertice(self.x[i], self.y[i]) for i in i_window]
+        )
         if color:
+            c = self.field_color[i_window]
             if self.time_field:
-                self.contour.set_color(
-                    self.colors(
-                        [
-                            (self.nb_step - self.now + i) / self.nb_step
-                            for i in chain(*self.c_segs)
-                        ]
-                    )
-                )
-            else:
-                self.contour.set_color(self.colors(list(chain(*self.c_segs))))
+                c = (self.nb_step - self.now + c) / self.nb_step
+            self.contour.set_color(self.colors(c))
         # linewidth will be link to time delay
-        self.contour.set_lw(
-            [
-                (1 - (self.now - i) / self.nb_step) * 2.5 if i <= self.now else 0
-                for i in chain(*self.t_segs)
-            ]
-        )
+        self.contour.set_lw((1 - (self.now - self.t[i_window]) / self.nb_step) * 2.5)
         # Update date txt and info
         if self.txt is not None:
             txt = f"{(timedelta(int(self.now)) + datetime(1950,1,1)).strftime('%Y/%m/%d')}"
@@ -219,13 +194,6 @@ class Anim:
                 self.ax.draw_artist(mappable)
         self.ax.draw_artist(self.contour)
 
-        # Remove first segment to keep only T contour
-        if len(self.segs) > self.nb_step:
-            self.segs.pop(0)
-            self.t_segs.pop(0)
-            if color:
-                self.c_segs.pop(0)
-
     def draw_contour(self):
         # select contour for this time step
         while self.mappables:
@@ -247,13 +215,6 @@ class Anim:
         elif event.key == "right" and self.pause:
             self.next()
         elif event.key == "left" and self.pause:
-            # we remove 2 step to add 1 so we rewind of only one
-            self.segs.pop(-1)
-            self.segs.pop(-1)
-            self.t_segs.pop(-1)
-            self.t_segs.pop(-1)
-            self.c_segs.pop(-1)
-            self.c_segs.pop(-1)
             self.prev()
 
 
-- 
2.43.0


From 164ae92e5c71e2db689b49a647a330e948bcc2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 61/84] fix: background of animation is saved without artists

---
 src/py_eddy_tracker/appli/gui.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/appli/gui.py b/src/py_eddy_tracker/appli/gui.py
index f1d294f..c861318 100644
--- a/src/py_eddy_tracker/appli/gui.py
+++ b/src/py_eddy_tracker/appli/gui.py
@@ -119,8 +119,7 @@ class Anim:
     def show(self, infinity_loop=False):
         pyplot.show(block=False)
         # save background for future bliting
-        self.fig.canvas.draw()
-        self.bg_cache = self.fig.canvas.copy_from_bbox(self.ax.bbox)
+        self.reset_bliting(None)
         loop = True
         t0, t1 = self.period
         while loop:
-- 
2.43.0


From 7958acc8ce0a91159fdec305a7629ba64278f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 62/84] fix: animation in given axes could be resized

---
 src/py_eddy_tracker/appli/gui.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/appli/gui.py b/src/py_eddy_tracker/appli/gui.py
index c861318..13006d4 100644
--- a/src/py_eddy_tracker/appli/gui.py
+++ b/src/py_eddy_tracker/appli/gui.py
@@ -106,13 +106,15 @@ class Anim:
 
     def reset_bliting(self, event):
         self.contour.set_visible(False)
-        self.txt.set_visible(False)
+        if self.txt is not None:
+            self.txt.set_visible(False)
         for m in self.mappables:
             m.set_visible(False)
         self.fig.canvas.draw()
         self.bg_cache = self.fig.canvas.copy_from_bbox(self.ax.bbox)
         self.contour.set_visible(True)
-        self.txt.set_visible(True)
+        if self.txt is not None:
+            self.txt.set_visible(True)
         for m in self.mappables:
             m.set_visible(True)
 
-- 
2.43.0


From 6127e7a87587cbd0366e2c529fa522654cccf135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 63/84] fix: EddyAnim first_centered with intern contours

---
 src/py_eddy_tracker/appli/gui.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/appli/gui.py b/src/py_eddy_tracker/appli/gui.py
index 13006d4..f0853cf 100644
--- a/src/py_eddy_tracker/appli/gui.py
+++ b/src/py_eddy_tracker/appli/gui.py
@@ -276,9 +276,8 @@ def anim():
         # TODO: include to observation class
         x0 = eddies.lon[0]
         eddies.lon[:] = (eddies.lon - x0 + 180) % 360 + x0 - 180
-        eddies.contour_lon_e[:] = (
-            (eddies.contour_lon_e.T - eddies.lon + 180) % 360 + eddies.lon - 180
-        ).T
+        x_contour = eddies[TrackEddiesObservations.intern(args.intern)[0]]
+        x_contour[:] = ((x_contour.T - eddies.lon + 180) % 360 + eddies.lon - 180).T
 
     kw = dict()
     if args.mp4:
-- 
2.43.0


From f7aafde56f0feb38071d77172bba9e5389789b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 64/84] fix: EddyAnim movie includes last date

---
 src/py_eddy_tracker/appli/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/appli/gui.py b/src/py_eddy_tracker/appli/gui.py
index f0853cf..14f737d 100644
--- a/src/py_eddy_tracker/appli/gui.py
+++ b/src/py_eddy_tracker/appli/gui.py
@@ -298,7 +298,7 @@ def anim():
     if args.mp4 is None:
         a.show(infinity_loop=args.infinity_loop)
     else:
-        kwargs = dict(frames=arange(*a.period), interval=50)
+        kwargs = dict(frames=arange(a.period[0], a.period[1] + 1), interval=50)
         ani = FuncAnimation(a.fig, a.func_animation, **kwargs)
         ani.save(args.mp4, fps=30, extra_args=["-vcodec", "libx264"])
 
-- 
2.43.0


From 75ad2ff8f2a1e1a3af254518b30d2ba1d8dca6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 65/84] fix: error answers of the server are not samples

---
 src/py_eddy_tracker/data/__init__.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/data/__init__.py b/src/py_eddy_tracker/data/__init__.py
index f14fee8..0b88064 100644
--- a/src/py_eddy_tracker/data/__init__.py
+++ b/src/py_eddy_tracker/data/__init__.py
@@ -20,6 +20,15 @@ def get_demo_path(name):
     return path.join(path.dirname(__file__), name)
 
 
+def get_remote_content(path):
+    response = requests.get(
+        f"https://github.com/AntSimi/py-eddy-tracker-sample-id/raw/master/{path}"
+    )
+    # An error page is not a sample
+    response.raise_for_status()
+    return response.content
+
+
 def get_remote_demo_sample(path):
     if path.startswith("/") or path.startswith("."):
         content = open(path, "rb").read()
@@ -27,13 +36,8 @@ def get_remote_demo_sample(path):
             return io.BytesIO(content)
     else:
         if path.endswith(".nc"):
-            content = requests.get(
-                f"https://github.com/AntSimi/py-eddy-tracker-sample-id/raw/master/{path}"
-            ).content
-            return io.BytesIO(content)
-        content = requests.get(
-            f"https://github.com/AntSimi/py-eddy-tracker-sample-id/raw/master/{path}.tar.xz"
-        ).content
+            return io.BytesIO(get_remote_content(path))
+        content = get_remote_content(f"{path}.tar.xz")
 
     # Tar module could manage lzma tar, but it will apply uncompress for each extractfile
     tar = tarfile.open(mode="r", fileobj=io.BytesIO(lzma.decompress(content)))
-- 
2.43.0


From 40373935b220d08d2f6026aeb641167157b22c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 66/84] fix: resampling of contours on unregular grid

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 928303b..87f2aa4 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -107,7 +107,7 @@ BasePath.lat = lat
 
 
 @njit(cache=True)
-def uniform_resample_stack(vertices, num_fac=2, fixed_size=None):
+def uniform_resample_stack(vertices, num_fac=2, fixed_size=-1):
     x_val, y_val = vertices[:, 0], vertices[:, 1]
     x_new, y_new = uniform_resample(x_val, y_val, num_fac, fixed_size)
     data = empty((x_new.shape[0], 2), dtype=vertices.dtype)
@@ -117,7 +117,7 @@ def uniform_resample_stack(vertices, num_fac=2, fixed_size=None):
 
 
 @njit(cache=True)
-def value_on_regular_contour(x_g, y_g, z_g, m_g, vertices, num_fac=2, fixed_size=None):
+def value_on_regular_contour(x_g, y_g, z_g, m_g, vertices, num_fac=2, fixed_size=-1):
     x_val, y_val = vertices[:, 0], vertices[:, 1]
     x_new, y_new = uniform_resample(x_val, y_val, num_fac, fixed_size)
     return interp2d_geo(x_g, y_g, z_g, m_g, x_new[1:], y_new[1:])
-- 
2.43.0


From 0cccefea0b977a58b4718d9606dafe01e05cec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 67/84] fix: pixels of contours on unregular grid were searched
 out of the grid

---
 src/py_eddy_tracker/dataset/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 87f2aa4..ff76016 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1140,9 +1140,10 @@ class UnRegularGridDataset(GridDataset):
         dist, idx = self.index_interp.query(vertices, k=1)
         i_y = idx % self.x_c.shape[1]
         i_x = int_((idx - i_y) / self.x_c.shape[1])
+        nb_x, nb_y = self.x_c.shape
         return (
-            (max(i_x.min() - self.N, 0), i_x.max() + self.N + 1),
-            (max(i_y.min() - self.N, 0), i_y.max() + self.N + 1),
+            (max(i_x.min() - self.N, 0), min(i_x.max() + self.N + 1, nb_x)),
+            (max(i_y.min() - self.N, 0), min(i_y.max() + self.N + 1, nb_y)),
         )
 
     def get_pixels_in(self, contour):
-- 
2.43.0


From 2a1b290b9b157935345dabde84db0d1023f42a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 68/84] fix: grid filters modified arrays shared with other
 grids

---
 src/py_eddy_tracker/dataset/grid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index ff76016..63f0155 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -634,7 +634,8 @@ class GridDataset(object):
         :param int, w_cut: the half-power wavelength cutoff (km)
         """
         result = self._low_filter(grid_name, w_cut, **kwargs)
-        self.vars[grid_name] -= result
+        # Not in place, array could be shared
+        self.vars[grid_name] = self.vars[grid_name] - result
 
     def low_filter(self, grid_name, w_cut, **kwargs):
         """Return the low-pass filtered grid (default: order=1)
@@ -643,7 +644,8 @@ class GridDataset(object):
         :param int, w_cut: the half-power wavelength cutoff (km)
         """
         result = self._low_filter(grid_name, w_cut, **kwargs)
-        self.vars[grid_name] -= self.vars[grid_name] - result
+        # Not in place, array could be shared
+        self.vars[grid_name] = self.vars[grid_name] - (self.vars[grid_name] - result)
 
     @property
     def bounds(self):
@@ -1575,7 +1577,7 @@ class RegularGridDataset(GridDataset):
             order=order,
             **kwargs,
         )
-        self.vars[grid_name] -= data_out
+        self.vars[grid_name] = self.vars[grid_name] - data_out
 
     def lanczos_low_filter(self, grid_name, wave_length, order=1, lat_max=85, **kwargs):
         logger.warning("It could be not safe to use lanczos filter")
@@ -1622,7 +1624,7 @@ class RegularGridDataset(GridDataset):
             **kwargs,
         )
         logger.debug("Filtering done")
-        self.vars[grid_name] -= data_out
+        self.vars[grid_name] = self.vars[grid_name] - data_out
 
     def bessel_low_filter(self, grid_name, wave_length, order=1, lat_max=85, **kwargs):
         data_out = self.convolve_filter_with_dynamic_kernel(
-- 
2.43.0


From 3ce3e3ec66dcb1a23018e3b80103a8a5f615cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 69/84] fix: failed band filter left the grid half filtered

---
 src/py_eddy_tracker/dataset/grid.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 63f0155..42ffb35 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1595,11 +1595,10 @@ class RegularGridDataset(GridDataset):
         data_out = self.convolve_filter_with_dynamic_kernel(
             grid_name, self.kernel_bessel, wave_length=wave_length_inf, **kwargs
         )
-        self.vars[grid_name] = data_out
-        data_out = self.convolve_filter_with_dynamic_kernel(
-            grid_name, self.kernel_bessel, wave_length=wave_length_sup, **kwargs
+        # Grid is modified only when all is done
+        self.vars[grid_name] = data_out - self.convolve_filter_with_dynamic_kernel(
+            data_out, self.kernel_bessel, wave_length=wave_length_sup, **kwargs
         )
-        self.vars[grid_name] -= data_out
 
     def bessel_high_filter(self, grid_name, wave_length, order=1, lat_max=85, **kwargs):
         """
-- 
2.43.0


From 217b8317dc452daad522e14891cbbbd46307587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 70/84] fix: failed add_uv changed description of existing
 grids

---
 src/py_eddy_tracker/dataset/grid.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 42ffb35..4e3beb2 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1898,8 +1898,8 @@ class RegularGridDataset(GridDataset):
         .. minigallery:: py_eddy_tracker.RegularGridDataset.add_uv
         """
         logger.info("Add u/v variable with stencil method")
-        # Load first, description is completed at this moment
-        self.grid(grid_height)
+        # Compute first, height is loaded (description is completed at this moment) and nothing is modified if it fails
+        u, v = self.uv_from_height(grid_height, stencil_halfwidth)
         h_dict = self.variables_description[grid_height]
         for variable in (uname, vname):
             self.variables_description[variable] = dict(
@@ -1914,9 +1914,7 @@ class RegularGridDataset(GridDataset):
                 self.variables_description[variable]["attrs"][
                     "long_name"
                 ] += " gradient"
-        self.vars[uname], self.vars[vname] = self.uv_from_height(
-            grid_height, stencil_halfwidth
-        )
+        self.vars[uname], self.vars[vname] = u, v
 
     def set_heigth(self, heigth):
         """Compute u and v from this height, now if grid is loaded and each time that it will be loaded
-- 
2.43.0


From 421c7722473d39222ffe3092ddd3bdc1a33aa957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 71/84] fix: flatten_line_matrix wrote a nan after the end of
 its output

---
 src/py_eddy_tracker/generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index a002f32..ebda0ad 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -350,8 +350,10 @@ def flatten_line_matrix(l_matrix):
         for j in range(sampling):
             out[inc] = l_matrix[i, j]
             inc += 1
-        out[inc] = nan
-        inc += 1
+        # nan only between two lines, there is no room after the last one
+        if inc < final_size:
+            out[inc] = nan
+            inc += 1
     return out
 
 
-- 
2.43.0


From 09218d80e7a49f59c80425e712a20ff33c79ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 72/84] fix: browser could not show more atlases than there are
 colors

---
 src/py_eddy_tracker/gui.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/gui.py b/src/py_eddy_tracker/gui.py
index a85e9c1..ce8a712 100644
--- a/src/py_eddy_tracker/gui.py
+++ b/src/py_eddy_tracker/gui.py
@@ -146,7 +146,7 @@ class GUI:
             self.time_ax.hist(
                 dataset.time,
                 bins=np.arange(self.period[0] - 0.5, self.period[1] + 0.51),
-                color=self.COLORS[i],
+                color=self.COLORS[i % len(self.COLORS)],
                 histtype="step",
             )
         # param
@@ -162,7 +162,7 @@ class GUI:
         self.m["mini_ax"].grid()
         # map
         for i, (name, dataset) in enumerate(self.datasets.items()):
-            kwargs = dict(color=self.COLORS[i])
+            kwargs = dict(color=self.COLORS[i % len(self.COLORS)])
             self.m[name] = dict(
                 contour_s=self.map.plot([], [], lw=1, label=name, **kwargs)[0],
                 contour_e=self.map.plot([], [], lw=0.5, ls="-.", **kwargs)[0],
-- 
2.43.0


From 1d6fa7fb30b1c373932ad469f30d7df620f15a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 73/84] fix: browser failed when the time line was released

---
 src/py_eddy_tracker/gui.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/gui.py b/src/py_eddy_tracker/gui.py
index ce8a712..544b762 100644
--- a/src/py_eddy_tracker/gui.py
+++ b/src/py_eddy_tracker/gui.py
@@ -255,7 +255,7 @@ class GUI:
         self.map.legend()
         # time ax
         x, y = self.m["time_vline"].get_data()
-        self.m["time_vline"].set_data(self.now, y)
+        self.m["time_vline"].set_data([self.now, self.now], y)
         self.m["time_text"].set_text("\n".join(time_text))
         self.m["time_text"].set_position((self.now, 0))
         # force update
@@ -312,7 +312,7 @@ class GUI:
     def move(self, event):
         if event.inaxes == self.time_ax and self.time_ax.press:
             x, y = self.m["time_vline"].get_data()
-            self.m["time_vline"].set_data(event.xdata, y)
+            self.m["time_vline"].set_data([event.xdata, event.xdata], y)
             self.figure.canvas.restore_region(self.time_ax.bg_cache)
             self.time_ax.draw_artist(self.m["time_vline"])
             self.figure.canvas.blit(self.time_ax.bbox)
@@ -363,7 +363,7 @@ class GUI:
     def release(self, event):
         if self.time_ax.press:
             self.time_ax.press = False
-            self.settings["now"] = int(self.m["time_vline"].get_data()[0])
+            self.settings["now"] = int(self.m["time_vline"].get_xdata()[0])
             self.update()
 
     def scroll(self, event):
-- 
2.43.0


From 6a933a9dda9b02eee06733dde855dce89cef1c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 74/84] fix: browser gave information about another eddy when
 contours have not 50 points

---
 src/py_eddy_tracker/gui.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/gui.py b/src/py_eddy_tracker/gui.py
index 544b762..e97d0df 100644
--- a/src/py_eddy_tracker/gui.py
+++ b/src/py_eddy_tracker/gui.py
@@ -322,8 +322,9 @@ class GUI:
             for name in self.datasets.keys():
                 flag, data = self.m[name]["contour_s"].contains(event)
                 if flag:
-                    # 51 is for contour on 50 point must be rewrote
-                    touch[name] = data["ind"][0] // 51
+                    # contours are separated by one nan
+                    sampling = self.datasets[name]["contour_lon_s"].shape[1]
+                    touch[name] = data["ind"][0] // (sampling + 1)
             a = self.m["annotate"]
             ax = self.m["mini_ax"]
             if touch:
-- 
2.43.0


From 9daf768a5f4f52791b5b5d378abe99d259bc24ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 75/84] fix: browser failed on a track of a single observation

---
 src/py_eddy_tracker/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/gui.py b/src/py_eddy_tracker/gui.py
index e97d0df..13a4045 100644
--- a/src/py_eddy_tracker/gui.py
+++ b/src/py_eddy_tracker/gui.py
@@ -298,7 +298,7 @@ class GUI:
         t1 = timedelta(days=track[-1]["time"]) + datetime(1950, 1, 1)
         txt = f"--{name}--\n"
         txt += f"    {t0} -> {t1}\n"
-        txt += f"    Tracks : {tr}  {now['n']}/{nb} ({now['n'] / nb * 100:.2f} %)\n"
+        txt += f"    Tracks : {tr}  {now['n']}/{nb} ({now['n'] / max(nb, 1) * 100:.2f} %)\n"
         for label, n, f, u in (
             ("Amp.", "amplitude", 100, "cm"),
             ("S. radius", "radius_s", 1e-3, "km"),
-- 
2.43.0


From 1e0bb072fc8c7367a2b33040c22d5c2250614c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 76/84] fix: browser erased information when pointer was not on
 the last atlas

---
 src/py_eddy_tracker/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/gui.py b/src/py_eddy_tracker/gui.py
index 13a4045..8ae39c9 100644
--- a/src/py_eddy_tracker/gui.py
+++ b/src/py_eddy_tracker/gui.py
@@ -352,7 +352,7 @@ class GUI:
                 self.map.draw_artist(a)
                 self.map.draw_artist(ax)
                 self.figure.canvas.blit(self.map.bbox)
-            if not flag and self.map.bg_cache is not None and a.get_visible():
+            if not touch and self.map.bg_cache is not None and a.get_visible():
                 a.set_visible(False)
                 ax.set_visible(False)
                 self.figure.canvas.restore_region(self.map.bg_cache)
-- 
2.43.0


From cbba509d3a928b44d4ac51800e6142347e50ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 77/84] fix: browser kept information and background of a
 previous drawing

---
 src/py_eddy_tracker/gui.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/py_eddy_tracker/gui.py b/src/py_eddy_tracker/gui.py
index 8ae39c9..e321cc8 100644
--- a/src/py_eddy_tracker/gui.py
+++ b/src/py_eddy_tracker/gui.py
@@ -178,7 +178,9 @@ class GUI:
             zorder=100,
             fontsize=9,
             bbox=dict(boxstyle="round", facecolor="w", edgecolor="0.5", alpha=0.85),
+            animated=True,
         )
+        self.m["mini_ax"].set_animated(True)
         self.m["mini_ax"].set_visible(False)
         self.m["annotate"].set_visible(False)
 
@@ -262,6 +264,7 @@ class GUI:
         self.map.figure.canvas.draw()
 
     def event(self):
+        self.figure.canvas.mpl_connect("draw_event", self.reset_infos)
         self.figure.canvas.mpl_connect("resize_event", self.adjust)
         self.figure.canvas.mpl_connect("scroll_event", self.scroll)
         self.figure.canvas.mpl_connect("button_press_event", self.press)
@@ -309,6 +312,14 @@ class GUI:
             txt += f"    {label} : {now[n] * f:.1f} {u} ({min_:.1f} <-{mean_:.1f}+-{std_:.1f}-> {max_:.1f})\n"
         return track, txt.strip()
 
+    def reset_infos(self, event):
+        # A full draw doesn't contain information, and background must be renewed
+        if event.canvas.is_saving():
+            return
+        self.m["annotate"].set_visible(False)
+        self.m["mini_ax"].set_visible(False)
+        self.map.bg_cache = None
+
     def move(self, event):
         if event.inaxes == self.time_ax and self.time_ax.press:
             x, y = self.m["time_vline"].get_data()
-- 
2.43.0


From aa5ee8528c69e760498cc163961a40a9af47d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 78/84] fix: size of a network which is not in the dataset

---
 src/py_eddy_tracker/observations/network.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index fdd8fef..f414df0 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -231,8 +231,12 @@ class NetworkObservations(GroupEddiesObservations):
         if id_networks is None:
             return self.index_network[1] - self.index_network[0]
         else:
-            i = id_networks - self.index_network[2]
-            return self.index_network[1][i] - self.index_network[0][i]
+            i0, i1, ref = self.index_network
+            i = array(id_networks) - ref
+            # A network which isn't in dataset (no trash for example) has no observation
+            inside = (i >= 0) * (i < i0.size)
+            i = where(inside, i, 0)
+            return where(inside, i1[i] - i0[i], 0)[()]
 
     def unique_segment_to_id(self, id_unique):
         """Return id network and id segment for a unique id
-- 
2.43.0


From 8ad9e6831fe78868417c7f05f103d8c50b184af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 79/84] fix: grid written directly in place was left partial,
 or unwritable, by an interruption

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 4e3beb2..a6057be 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -62,7 +62,7 @@ from ..generic import (
     nearest_grd_indice,
     uniform_resample,
 )
-from ..observations.observation import EddiesObservations
+from ..observations.observation import EddiesObservations, complete_output
 from ..poly import (
     create_vertice,
     fit_circle,
@@ -381,7 +381,7 @@ class GridDataset(object):
 
         :param str filename: filename used to save the grid
         """
-        with Dataset(filename, "w") as h_out:
+        with complete_output(filename) as output, Dataset(output, "w") as h_out:
             for dimension, size in self.dimensions.items():
                 test = False
                 for varname, variable in self.variables_description.items():
-- 
2.43.0


From fdb241fe0afd310146647a76c93925a18966c9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 80/84] fix: EddyTranslate output was left partial by an
 interruption

---
 src/scripts/EddyTranslate | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/scripts/EddyTranslate b/src/scripts/EddyTranslate
index a0060e9..6467a23 100644
--- a/src/scripts/EddyTranslate
+++ b/src/scripts/EddyTranslate
@@ -7,7 +7,10 @@ from netCDF4 import Dataset
 import zarr
 
 from py_eddy_tracker import EddyParser
-from py_eddy_tracker.observations.observation import EddiesObservations
+from py_eddy_tracker.observations.observation import (
+    EddiesObservations,
+    complete_output,
+)
 
 
 def id_parser():
@@ -49,10 +52,11 @@ if __name__ == "__main__":
 
     variables = get_variable_name(args.filename_in)
     if not is_nc(args.filename_out):
-        h = zarr.open(args.filename_out, "w")
-        for varname in variables:
-            get_variable(args.filename_in, varname, raw=not args.unraw).to_zarr(h)
+        with complete_output(args.filename_out) as output:
+            h = zarr.open(output, "w")
+            for varname in variables:
+                get_variable(args.filename_in, varname, raw=not args.unraw).to_zarr(h)
     else:
-        with Dataset(args.filename_out, "w") as h:
+        with complete_output(args.filename_out) as output, Dataset(output, "w") as h:
             for varname in variables:
                 get_variable(args.filename_in, varname, raw=not args.unraw).to_netcdf(h)
-- 
2.43.0


From 2561a9af72a5a3180dc59e39168f6b2d76780684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 81/84] fix: tracks of an empty selection could not be indexed

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 21203c4..7a19d30 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -315,7 +315,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         If obs are not sorted by track, __first_index_of_track will be unusable
         """
         if self.__first_index_of_track is None:
-            s = self.tracks.max() + 1
+            s = self.tracks.max() + 1 if len(self) else 0
             # Doesn't work => core dump with numba, maybe he wants i8 instead of u4
             # self.__first_index_of_track = -ones(s, self.tracks.dtype)
             # self.__obs_by_track = zeros(s, self.observation_number.dtype)
@@ -350,7 +350,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         :return: Return count by track
         :rtype: array
         """
-        s = self.tracks.max() + 1
+        s = self.tracks.max() + 1 if len(self) else 0
         obs_by_track = zeros(s, "i4")
         count_by_track(self.tracks, mask, obs_by_track)
         return obs_by_track
-- 
2.43.0


From 0ed58b0e20108dcead32f49edca05d892bca6617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 82/84] fix: files named by EddyId were tracked with undefined
 dates

---
 src/py_eddy_tracker/appli/eddies.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/appli/eddies.py b/src/py_eddy_tracker/appli/eddies.py
index 14cba6a..6fecce8 100644
--- a/src/py_eddy_tracker/appli/eddies.py
+++ b/src/py_eddy_tracker/appli/eddies.py
@@ -268,11 +268,12 @@ def browse_dataset_in(
             if result:
                 str_date = result.groups()[0]
 
-        if str_date is not None:
-            if date_model is None:
-                item["date"] = identify_time(str_date)
-            else:
-                item["date"] = datetime.strptime(str_date, date_model)
+        if str_date is None:
+            raise Exception("No date found for file : %s" % item["filename"])
+        if date_model is None:
+            item["date"] = identify_time(str_date)
+        else:
+            item["date"] = datetime.strptime(str_date, date_model)
 
     dataset_list.sort(order=["date", "filename"])
     steps = unique(dataset_list["date"][1:] - dataset_list["date"][:-1])
@@ -307,7 +308,7 @@ def track(
     correspondances_only=False,
     **kw_c,
 ):
-    kw = dict(date_regexp=".*_([0-9]*?).[nz].*")
+    kw = dict(date_regexp=".*_([0-9T]*?).[nz].*")
     if isinstance(pattern, list):
         kw.update(dict(data_dir=None, files_model=None, files=pattern))
     else:
-- 
2.43.0


From 4a35500c652ff7c577e4648c22dbc1db8ce8d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:13 +0000
Subject: [PATCH 83/84] fix: EddySubSetter compared days of period with raw
 times

---
 src/scripts/EddySubSetter | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/EddySubSetter b/src/scripts/EddySubSetter
index 6cace38..1d9ab84 100644
--- a/src/scripts/EddySubSetter
+++ b/src/scripts/EddySubSetter
@@ -101,10 +101,10 @@ def id_parser():
 if __name__ == "__main__":
     args = id_parser().parse_args()
 
-    # Original dataset
+    # Original dataset (no raw data with a period, because time must be in days for selection)
     dataset = TrackEddiesObservations.load_file(
         args.filename,
-        raw_data=False if args.no_raw_mode else True,
+        raw_data=not args.no_raw_mode and args.period is None,
         remove_vars=args.remove_var,
         include_vars=args.include_var,
     )
-- 
2.43.0


From 6f597296ac9d544272f87338a3f72b9205c42c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:11 +0000
Subject: [PATCH 84/84] fix: zarr inputs were opened to be written, and created
 when missing

---
 src/py_eddy_tracker/appli/misc.py               | 2 +-
 src/py_eddy_tracker/observations/observation.py | 2 +-
 src/scripts/EddyTranslate                       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/appli/misc.py b/src/py_eddy_tracker/appli/misc.py
index ad7a71e..06153fa 100644
--- a/src/py_eddy_tracker/appli/misc.py
+++ b/src/py_eddy_tracker/appli/misc.py
@@ -16,5 +16,5 @@ def zarr_header_parser():
 def zarrdump():
     args = zarr_header_parser().parse_args()
     print(args.dataset)
-    for v in zarr.open(args.dataset).values():
+    for v in zarr.open(args.dataset, "r").values():
         print(v.info)
diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 864c410..415d80e 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -797,7 +797,7 @@ class EddiesObservations(object):
         if isinstance(filename, zarr.storage.MutableMapping):
             h = filename
         else:
-            h = zarr.open(filename)
+            h = zarr.open(filename, "r")
 
         dims = list()
         for varname in h:
diff --git a/src/scripts/EddyTranslate b/src/scripts/EddyTranslate
index 6467a23..fdedf7a 100644
--- a/src/scripts/EddyTranslate
+++ b/src/scripts/EddyTranslate
@@ -33,7 +33,7 @@ def get_variable_name(filename):
         with Dataset(filename) as h:
             return h.variables.keys()
     else:
-        h = zarr.open(filename)
+        h = zarr.open(filename, "r")
         return list(h.keys())
 
 
-- 
2.43.0

