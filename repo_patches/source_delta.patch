From 2a5adad804007988e6c26a800e4ee9317b066317 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:28:37 +0000
Subject: [PATCH 01/13] fix: QZSS ephemeris 1044, advance over all 10 bits of
 IODC

---
 sub_decoders/RTCM_EPH.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_EPH.py b/sub_decoders/RTCM_EPH.py
index 359f788..f467677 100644
--- a/sub_decoders/RTCM_EPH.py
+++ b/sub_decoders/RTCM_EPH.py
@@ -617,7 +617,7 @@ class EphemerisDecoder(Bits):
         eph.URA, offset = self.getbitu(buf, offset, 4), offset + 4  # DF453
         eph.SVH, offset = self.getbitu(buf, offset, 6), offset + 6  # DF454
         eph.TGD, offset = self.getbits(buf, offset, 8), offset + 8  # DF455
-        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 8  # DF456
+        eph.IODC, offset = self.getbitu(buf, offset, 10), offset + 10  # DF456
         eph.Fit, offset = self.getbitu(buf, offset, 1), offset + 1  # DF457
 
         # expected offcet value is 485+24=509
-- 
2.43.0


From 87e9ee13adcb3ed4f4692dec0f97eed01542cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:28:40 +0000
Subject: [PATCH 02/13] fix: NavIC ephemeris 1041, make the L5/S flags data
 fields

---
 gnss_types/ephemeris.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gnss_types/ephemeris.py b/gnss_types/ephemeris.py
index 9f69e79..9a6facc 100644
--- a/gnss_types/ephemeris.py
+++ b/gnss_types/ephemeris.py
@@ -134,8 +134,8 @@ class EphNAVIC(DataClassMethods, Keplerians, ClockBias, EphHdr):
     URA: int | float = 0
     TGD: int | float = 0
     IODEC: int = 0
-    L5_Flag = 0
-    S_Flag = 0
+    L5_Flag: int = 0
+    S_Flag: int = 0
 
 
 @dataclass
-- 
2.43.0


From 75f6c15bf900f62af1c3d9a80081a4490cf0f610 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:28:43 +0000
Subject: [PATCH 03/13] fix: messages 1007/1008/1029/1033, accept zero-length
 strings

---
 sub_decoders/RTCM_BASE.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 571db59..369baab 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -195,27 +195,27 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1007/1008/1033 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.descr.split(" ")
+        symbols = ibs.descr.split()
         bs.descr = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSN, BaseADSNRC)):
             # bs.msgNum == 1007:
             return bs
 
-        symbols = bs.serialNumber.split(" ")
+        symbols = bs.serialNumber.split()
         bs.serialNumber = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         if not isinstance(bs, (BaseADSNRC)):
             # bs.msgNum == 1008:
             return bs
 
-        symbols = bs.rcvDescriptor.split(" ")
+        symbols = bs.rcvDescriptor.split()
         bs.rcvDescriptor = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvFWVersion.split(" ")
+        symbols = bs.rcvFWVersion.split()
         bs.rcvFWVersion = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
-        symbols = bs.rcvSerNum.split(" ")
+        symbols = bs.rcvSerNum.split()
         bs.rcvSerNum = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
@@ -291,7 +291,7 @@ class BaseStationDataDecoder(Bits):
         """Scale MSG 1029 data"""
 
         bs = ibs.deepcopy()
-        symbols = ibs.message.split(" ")
+        symbols = ibs.message.split()
         bs.message = bytes([int(s, 16) for s in symbols]).decode("utf-8")
 
         return bs
-- 
2.43.0


From 306c66eaf2dfe725c92fc1a380b7374dcf63e8de Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:28:46 +0000
Subject: [PATCH 04/13] fix: message 1013, derive the number of announcements
 from the payload length

---
 sub_decoders/RTCM_BASE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 369baab..4940285 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -238,7 +238,7 @@ class BaseStationDataDecoder(Bits):
         if bs.Nm != 0:
             Nm = bs.Nm
         else:
-            Nm = math.floor((8 * len(buf) - 70) / 29)
+            Nm = math.floor((8 * (len(buf) - 6) - 70) / 29)
 
         for _ in range(Nm):
             ID, offset = self.getbitu(buf, offset, 12), offset + 12  # DF055
-- 
2.43.0


From 65c1324dd065430bcbe7f77a5cb1fcf611ba7c57 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:28:48 +0000
Subject: [PATCH 05/13] fix: MSM header, the length field does not include
 transport bytes

---
 sub_decoders/RTCM_MSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 2992432..9b349eb 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -105,7 +105,7 @@ class BareObservablesMSM17Decoder(Bits):
         """Conv. binary header into integers"""
 
         # Check minimal length
-        bits_elapsed = (self.getbitu(buf, 14, 10) - 3) * 8
+        bits_elapsed = self.getbitu(buf, 14, 10) * 8
         if bits_elapsed < self.__MIN_HDR_LEN:
             raise ExceptionBareDataStructure(f"MSM hdr1 :{bits_elapsed=}")
 
-- 
2.43.0


From a37bb307f374ab31e5470d4d15855278490261cb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:28:51 +0000
Subject: [PATCH 06/13] fix: message 1230, code-phase bias resolution is 0.02 m

---
 sub_decoders/RTCM_BASE.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sub_decoders/RTCM_BASE.py b/sub_decoders/RTCM_BASE.py
index 4940285..ebfeee5 100644
--- a/sub_decoders/RTCM_BASE.py
+++ b/sub_decoders/RTCM_BASE.py
@@ -365,10 +365,10 @@ class BaseStationDataDecoder(Bits):
         bs.validity["1P"] = bs.validity["1P"] == 1  # DF422
         bs.validity["2C"] = bs.validity["2C"] == 1  # DF422
         bs.validity["2P"] = bs.validity["2P"] == 1  # DF422
-        bs.correction["1C"] *= 0.2  # DF423 [m]
-        bs.correction["1P"] *= 0.2  # DF424 [m]
-        bs.correction["2C"] *= 0.2  # DF425 [m]
-        bs.correction["2P"] *= 0.2  # DF426 [m]
+        bs.correction["1C"] *= 0.02  # DF423 [m]
+        bs.correction["1P"] *= 0.02  # DF424 [m]
+        bs.correction["2C"] *= 0.02  # DF425 [m]
+        bs.correction["2P"] *= 0.02  # DF426 [m]
 
         return bs
 
-- 
2.43.0


From a1a87b92a616c02f57fec5345b1515166109b50d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:28:54 +0000
Subject: [PATCH 07/13] fix: comparison of floats, take the magnitude before
 comparing it with the tolerance

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index b4b53ca..a7c2c99 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -70,7 +70,7 @@ class DataClassMethods:
             if math.isnan(A) or math.isnan(B):
                 return False
 
-            if math.fabs(B > f_tolerance):
+            if math.fabs(B) > f_tolerance:
                 diff = math.fabs((B - A) / B)
             else:
                 diff = math.fabs(B - A)
-- 
2.43.0


From 491a2bb4d8b256308aeedbac6bfba6df718d3632 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:28:57 +0000
Subject: [PATCH 08/13] fix: final report, take parsing errors into account

---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index d045c4c..c18f3ca 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -337,7 +337,7 @@ def main(local_args: str | None = None) -> None:
         if decode_rtcm_file(fpath, converter):
             err = converter.get_statistics()
             if (
-                err.printing_errors
+                err.parsing_errors
                 or err.decoding_errors
                 or err.printing_errors
             ):
-- 
2.43.0


From 382b8c8dda2a6922452abd301e04d0c0e84c5073 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:29:21 +0000
Subject: [PATCH 09/13] fix: MSM3, an invalid code range affects its own signal
 only

---
 sub_decoders/RTCM_MSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index 9b349eb..dad4850 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -606,7 +606,6 @@ class Bare2Scaled:
 
             rng = float(src.sat.rng_rough[sat_idx]) / 1024.0
             rng_ok = src.atr.is_msm1 or src.atr.is_msm3
-            ph_ok = src.atr.is_msm2 or src.atr.is_msm3
 
             # Pass through signals of satellite 'sat'
             i = 0
@@ -621,6 +620,8 @@ class Bare2Scaled:
                 if slotExist == 0:
                     continue
 
+                ph_ok = src.atr.is_msm2 or src.atr.is_msm3
+
                 # Make fine code range
                 if rng_ok:
                     if (src.sgn.rng_fine[sgn_idx] & 0x7FFF) != 0x4000:
-- 
2.43.0


From f44cdd9c5cbeb5866bd1eb16c0c86016b79171af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:32 +0000
Subject: [PATCH 10/13] fix: MSM2 and MSM3, a cell takes 27 and 42 bits in the
 length check

---
 sub_decoders/RTCM_MSM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sub_decoders/RTCM_MSM.py b/sub_decoders/RTCM_MSM.py
index dad4850..dbb5e01 100644
--- a/sub_decoders/RTCM_MSM.py
+++ b/sub_decoders/RTCM_MSM.py
@@ -273,10 +273,10 @@ class BareObservablesMSM17Decoder(Bits):
             est_len = ((offset + 10 * Nsat + 15 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_1)
         elif self.bd.atr.is_msm2:
-            est_len = ((offset + 10 * Nsat + 28 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 27 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_2)
         elif self.bd.atr.is_msm3:
-            est_len = ((offset + 10 * Nsat + 43 * Ncell + 7) >> 3) + 3
+            est_len = ((offset + 10 * Nsat + 42 * Ncell + 7) >> 3) + 3
             bw = (b for b in self.__BIT_WIDTH_3)
         else:
             bw = (b for b in self.__BIT_WIDTH_3)
-- 
2.43.0


From 5eb992e207630fb2ab02310daac61b4ed773452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:30 +0000
Subject: [PATCH 11/13] fix: comparison of a block with one of its base kind, a
 missing attribute means not equal

---
 gnss_types/data_class_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gnss_types/data_class_methods.py b/gnss_types/data_class_methods.py
index a7c2c99..51333d2 100644
--- a/gnss_types/data_class_methods.py
+++ b/gnss_types/data_class_methods.py
@@ -109,7 +109,7 @@ class DataClassMethods:
         for key, value in self.items():
             try:
                 ref = getattr(refs, key)
-            except IndexError:
+            except AttributeError:
                 return False
 
             if is_dataclass(value):
-- 
2.43.0


From 65643ce02a1278aff279b0d4cc92315af65678e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:00 +0000
Subject: [PATCH 12/13] fix: source folders whose name contains pattern
 characters offer their files

glob.glob() took the characters '*', '?' and '[' of the folder's name for a
pattern, so that no file (or those of other folders) was offered.
---
 run_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_conversion.py b/run_conversion.py
index c18f3ca..ea40085 100644
--- a/run_conversion.py
+++ b/run_conversion.py
@@ -253,7 +253,7 @@ def make_list_of_source_files(
     else:
         fpattern = ".".join(["*", rtcm_ext])
         path = os.path.abspath(f_arguments[0])
-        pattern = os.path.join(path, fpattern)
+        pattern = os.path.join(glob.escape(path), fpattern)
         # Find files matching pattern
         file_list = glob.glob(pattern)
         if 0 == len(file_list):
-- 
2.43.0


From 8d4453b5fd65d41db7410dbb954e6e1d43f0806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:13 +0000
Subject: [PATCH 13/13] fix: count a MARGO message whose rows could not be
 saved as a printing error

---
 printers/margo_printer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/printers/margo_printer.py b/printers/margo_printer.py
index 2b6ab63..4c4a10f 100644
--- a/printers/margo_printer.py
+++ b/printers/margo_printer.py
@@ -445,6 +445,7 @@ class PrintMARGO:
         if not pbuf:
             return
 
+        failed: list[str] = []
         for f, observables in pbuf.items():
             ptype = f[1]  # C, L, D, S,...
             # Make textual representation of values
@@ -452,7 +453,10 @@ class PrintMARGO:
             obs_string = self.core.format_obs_string(
                 observables, *column_format
             )
-            self.__append(f, obs_string)
+            if not self.__append(f, obs_string):
+                failed.append(f)
+
+        assert not failed, f"MARGO: observables not saved: {failed}"
 
     # def __print_BareObservablesMSM4567(self, obs: BareObservablesMSM4567):
     #     pass
-- 
2.43.0

